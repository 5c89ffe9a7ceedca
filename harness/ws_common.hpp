// Endpoints of nbdl over socket pairs, with the other end in the harness's hands.
// Everything runs on one thread: the harness decides when the network makes progress.
#ifndef VERIF_WS_COMMON_HPP
#define VERIF_WS_COMMON_HPP

#include "vmon.hpp"
#include "ref.hpp"

#include <boost/asio.hpp>
#include <nbdl/endpoint_handler.hpp>
#include <nbdl/endpoint_open.hpp>
#include <nbdl/endpoint_send_close.hpp>
#include <nbdl/endpoint_send_message.hpp>
#ifdef VERIF_WS_CLIENT
#include <nbdl/websocket/client_endpoint.hpp>
#endif
#include <nbdl/websocket/server_endpoint.hpp>

#include <errno.h>
#include <fcntl.h>
#include <memory>
#include <netinet/in.h>
#include <poll.h>
#include <queue>
#include <signal.h>
#include <string>
#include <sys/socket.h>
#include <sys/un.h>

namespace ws
{
  namespace asio = boost::asio;
  namespace hana = boost::hana;
  namespace event = nbdl::websocket::event;
  using tcp = asio::ip::tcp;

  // ---- the raw end

  struct Raw
  {
    int fd = -1;
    std::string in;       // everything received
    std::string out;      // still to be written
    bool eof = false;     // the other end has shut down
    bool failed = false;  // reset

    Raw() = default;
    Raw(Raw const&) = delete;
    ~Raw() { close(); }
    void close() { if (fd >= 0) ::close(fd); fd = -1; }
    void shutdown_write() { if (fd >= 0) ::shutdown(fd, SHUT_WR); }

    // receives at most `max` bytes
    std::size_t receive(std::size_t max = ~std::size_t(0))
    {
      std::size_t got = 0;
      char buf[65536];
      while (fd >= 0 && got < max)
      {
        ssize_t n = ::recv(fd, buf, std::min(sizeof buf, max - got), MSG_DONTWAIT);
        if (n > 0) { in.append(buf, static_cast<std::size_t>(n)); got += static_cast<std::size_t>(n); continue; }
        if (n == 0) { eof = true; break; }
        if (errno == EINTR) continue;
        if (errno != EAGAIN && errno != EWOULDBLOCK) failed = true;
        break;
      }
      return got;
    }
    // sends at most `max` of the bytes in `out`
    std::size_t transmit(std::size_t max = ~std::size_t(0))
    {
      std::size_t put = 0;
      while (fd >= 0 && put < max && !out.empty())
      {
        ssize_t n = ::send(fd, out.data(), std::min(out.size(), max - put), MSG_DONTWAIT | MSG_NOSIGNAL);
        if (n > 0) { out.erase(0, static_cast<std::size_t>(n)); put += static_cast<std::size_t>(n); continue; }
        if (n < 0 && errno == EINTR) continue;
        if (errno != EAGAIN && errno != EWOULDBLOCK) { failed = true; out.clear(); }
        break;
      }
      return put;
    }
  };

  // a connected pair; small: the kernel buffers hold only a few kilobytes
  inline void make_pair(int (&fd)[2], bool small)
  {
    if (::socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, fd) != 0) { perror("socketpair"); std::abort(); }
    if (small)
      for (int f : fd) { int n = 4608; ::setsockopt(f, SOL_SOCKET, SO_SNDBUF, &n, sizeof n); }
  }

  inline tcp::socket adopt(asio::io_context& io, int fd)
  {
    tcp::socket s(io);
    s.assign(tcp::v4(), fd);
    return s;
  }

  inline tcp::socket connect_raw(asio::io_context& io, Raw& raw, bool small = false)
  {
    int fd[2];
    make_pair(fd, small);
    raw.fd = fd[1];
    return adopt(io, fd[0]);
  }

  // lets the io context do everything it can do now; the number of handlers run
  inline std::size_t pump(asio::io_context& io, std::size_t max = 20000)
  {
    std::size_t n = 0;
    for (;;)
    {
      io.restart();
      std::size_t k = io.poll();
      n += k;
      if (k == 0 || n > max) return n;
    }
  }

  // ---- an observed endpoint

  struct Event
  {
    char kind; // R ready, M message, C close, B bad request, E error
    std::string data;
    bool operator==(Event const&) const = default;
  };

  inline std::string show(std::vector<Event> const& es)
  {
    std::string r;
    for (auto& e : es)
    {
      r += e.kind;
      if (e.kind == 'M') r += "[" + std::to_string(e.data.size()) + ":" + vmon::show(e.data, 12) + "]";
      else if (!e.data.empty()) r += "[" + vmon::show(e.data, 40) + "]";
      r += ' ';
      if (r.size() > 500) { r += "..."; break; }
    }
    return r;
  }

  struct Ep
  {
    std::vector<Event> events;
    std::function<void(Event const&)> on_event;    // reactions from inside a handler
    std::function<void(std::string const&)> send;
    std::function<void()> send_close, stop, start;
    std::shared_ptr<void> hold;
    std::weak_ptr<void> watch;
    bool stopped = false;
    bool auto_start = true;
    unsigned after_stop = 0;
    int in_handler = 0;

    std::size_t count(char k) const
    { return static_cast<std::size_t>(std::count_if(events.begin(), events.end(), [k](Event const& e) { return e.kind == k; })); }
    std::vector<std::string> messages() const
    { std::vector<std::string> r; for (auto& e : events) if (e.kind == 'M') r.push_back(e.data); return r; }

    template <typename Self>
    void note(Self& self, char kind, std::string data)
    {
      if (stopped) ++after_stop;
      bind(self);
      events.push_back(Event{kind, std::move(data)});
      ++in_handler;
      Event e = events.back();
      if (on_event) on_event(e);
      if (kind == 'R' && auto_start && !stopped) self.start_messaging();
      --in_handler;
    }
    template <typename Self>
    void bind(Self& self)
    {
      if (send) return;
      Self* s = &self;
      send = [s](std::string const& m) { nbdl::endpoint_send_message(*s, m); };
      send_close = [s] { nbdl::endpoint_send_close(*s); };
      stop = [s, this] { stopped = true; s->stop(); };
      start = [s] { s->start_messaging(); };
    }
  };

  // A token in the handler: its count shows when the endpoint has been destroyed.
  inline auto make_handler(Ep& ep, std::shared_ptr<int> token)
  {
    return nbdl::endpoint_handler(
      event::on_ready = [&ep, token](auto& self, auto const& ...t)
      {
        if constexpr (sizeof...(t) > 0) ep.note(self, 'R', (t.value, ...));
        else ep.note(self, 'R', "");
      }
    , event::on_message = [&ep](auto& self, auto const& m)
      { ep.note(self, 'M', std::string(m.begin(), m.end())); }
    , event::on_close = [&ep](auto& self) { ep.note(self, 'C', ""); }
    , event::on_bad_request = [&ep](auto& self, auto&&...) { ep.note(self, 'B', ""); }
    , event::on<std::error_code> = [&ep](auto& self, std::error_code e) { ep.note(self, 'E', e.message()); }
    );
  }

  inline void open_server(tcp::socket&& socket, Ep& ep, std::shared_ptr<int> token = {})
  {
    auto p = nbdl::endpoint_open(nbdl::websocket::server_endpoint{std::move(socket)}
      , std::queue<std::string>{}, make_handler(ep, std::move(token)));
    ep.watch = p;
    ep.bind(*p);
    ep.hold = std::move(p);
  }

#ifdef VERIF_WS_CLIENT
  inline void open_client(tcp::socket& socket, Ep& ep, std::string auth, std::string origin = {}, std::shared_ptr<int> token = {})
  {
    auto p = nbdl::endpoint_open(
      nbdl::websocket::client_endpoint{socket, nbdl::auth_token_t{std::move(auth)}, nbdl::websocket::origin_t{std::move(origin)}}
      , std::queue<std::string>{}, make_handler(ep, std::move(token)));
    ep.watch = p;
    ep.bind(*p);
    ep.hold = std::move(p);
  }
#endif

  inline std::string const sample_key = "dGhlIHNhbXBsZSBub25jZQ==";
  inline std::string request(std::string const& key = sample_key, std::string const& cookies = "nbdl_auth=t0;")
  {
    return "GET / HTTP/1.1\r\nHost: h\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: " + key
      + "\r\nSec-WebSocket-Version: 13\r\nCookies: " + cookies + "\r\n\r\n";
  }
  inline std::string response(std::string const& key = sample_key)
  {
    return "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: "
      + ref::accept_token(key) + "\r\n\r\n";
  }

  // A server endpoint whose handshake with the raw peer is done.
  struct Server
  {
    asio::io_context io{1};
    Raw raw;
    Ep ep;
    std::shared_ptr<int> token = std::make_shared<int>(0);

    explicit Server(bool small = false, bool start = true)
    {
      static int once = (::signal(SIGPIPE, SIG_IGN), 0); (void)once;
      ep.auto_start = start;
      open_server(connect_raw(io, raw, small), ep, token);
    }
    bool handshake()
    {
      raw.out = request();
      raw.transmit();
      pump(io);
      raw.receive();
      std::string want = response();
      if (raw.in != want || ep.count('R') != 1)
      {
        vmon::violate("handshake", "the plain handshake failed: events " + show(ep.events) + " answer '" + vmon::show(raw.in, 300) + "'");
        return false;
      }
      raw.in.clear();
      return true;
    }
    ~Server()
    {
      // let go of everything before the io context goes away
      raw.close();
      if (auto p = ep.watch.lock()) { ep.stopped = true; ep.after_stop = 0; p.reset(); ep.stop(); }
      pump(io);
      ep.hold.reset();
      pump(io);
    }
  };

  // ---- judging what an endpoint wrote

  struct Stream
  {
    std::vector<std::string> messages;
    std::vector<std::string> pings, pongs, closes;
    std::size_t frames = 0, incomplete_bytes = 0;
    bool open_message = false;
    std::string problem;
  };

  inline Stream read_stream(std::string_view in, unsigned data_opcode, std::size_t max_frame = ~std::size_t(0))
  {
    Stream s;
    std::string cur;
    ref::Frame f;
    std::size_t used = 0, at = 0;
    auto bad = [&](std::string const& w)
    { if (s.problem.empty()) s.problem = w + " in frame " + std::to_string(s.frames) + " at byte " + std::to_string(at); };
    while (ref::decode(in.substr(at), f, used))
    {
      if (!s.closes.empty()) bad("a frame behind the close frame");
      if (f.rsv) bad("reserved bits set");
      std::size_t n = f.payload.size();
      int shortest = n < 126 ? 0 : n < 65536 ? 2 : 8;
      if (f.length_form != shortest) bad("length of " + std::to_string(n) + " not in its shortest form");
      if (n > max_frame) bad("frame over the frame size limit");
      if (f.opcode >= 8)
      {
        if (!f.fin) bad("control frame without FIN");
        if (n > 125) bad("control frame over 125 bytes");
        if (f.opcode == 8) s.closes.push_back(f.payload);
        else if (f.opcode == 9) s.pings.push_back(f.payload);
        else if (f.opcode == 10) s.pongs.push_back(f.payload);
        else bad("reserved control opcode");
      }
      else
      {
        if (s.open_message ? f.opcode != 0 : f.opcode != data_opcode)
          bad("opcode " + std::to_string(f.opcode) + (s.open_message ? " inside a message" : " at the start of a message"));
        cur += f.payload;
        if (f.fin) { s.messages.push_back(cur); cur.clear(); s.open_message = false; }
        else s.open_message = true;
      }
      ++s.frames;
      at += used;
    }
    s.incomplete_bytes = in.size() - at;
    return s;
  }

  inline std::string compare(std::vector<std::string> const& got, std::vector<std::string> const& want)
  {
    for (std::size_t i = 0; i < std::max(got.size(), want.size()); ++i)
    {
      if (i >= got.size()) return "message " + std::to_string(i) + " of " + std::to_string(want.size()) + " ("
        + std::to_string(want[i].size()) + " bytes) is missing";
      if (i >= want.size()) return "an extra message: '" + vmon::show(got[i], 40) + "'";
      if (got[i] != want[i])
      {
        std::size_t k = 0;
        while (k < std::min(got[i].size(), want[i].size()) && got[i][k] == want[i][k]) ++k;
        return "message " + std::to_string(i) + ": " + std::to_string(got[i].size()) + " bytes instead of "
          + std::to_string(want[i].size()) + ", first difference at byte " + std::to_string(k);
      }
    }
    return {};
  }

  inline std::size_t message_size(vmon::Rng& r, std::size_t large = 70000)
  {
    switch (r.below(10))
    {
      case 0: return 0;
      case 1: return 1;
      case 2: return static_cast<std::size_t>(r.range(123, 128));
      case 3: return 125 * (1 + r.below(8));
      case 4: return 125 * (1 + r.below(8)) + static_cast<std::size_t>(r.range(-1, 1));
      case 5: return r.chance(1, 6) ? static_cast<std::size_t>(r.range(std::min<std::size_t>(large, 65533), large)) : r.below(600);
      case 6: return r.below(3000);
      default: return r.below(60);
    }
  }
}
#endif
