// C38: contexts joined by the application layer's server and clients.
// One server context and several client contexts of the same model run over TCP on the loopback
// device; a scripted producer answers on the server, recorders listen on the clients.
// Oracle: the lists of messages given to the contexts, and who was connected when.
#define BOOST_BEAST_USE_STD_STRING_VIEW_OFF
#include "json_shapes.hpp"
#include <full_duplex.hpp>
#include <nbdl.hpp>
#include <nbdl/app/client.hpp>
#include <nbdl/app/server.hpp>
#include <csignal>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>

namespace asio = boost::asio;
using tcp = asio::ip::tcp;
namespace msg = nbdl::message;
using namespace boost::hana::literals;

namespace t
{
  struct brain { template <typename C> struct actor_impl { using hana_tag = brain; C context; template <typename A> actor_impl(A a) : context(a.context) { } actor_impl(actor_impl const&) = delete; }; };
  struct pass { };                                                 // stores which hold nothing and take everything
  struct ear { template <typename C> struct actor_impl { using hana_tag = ear; C context; int who; template <typename A> actor_impl(A a) : context(a.context), who(a.value) { } actor_impl(actor_impl const&) = delete; }; };

  using fixed = hana::string<'s'>;
  constexpr auto points = []
  {
    using namespace nbdl_def;
    return AccessPoints(
      AccessPoint(PathKey<fixed>, Entity<js::one>, Store<pass>, Actions(Create(), Update(), Delete()))
    , AccessPoint(PathKey<int>, Entity<js::leaf>, Store<pass>, Actions(Create(), Read(), Update(), Delete())
      , AccessPoint(PathKey<unsigned>, Entity<js::wide>, Store<pass>, Actions(Create(), Read(), Update(), Delete()))
      )
    );
  };
  struct server_side
  {
    static constexpr auto make_def()
    {
      using namespace nbdl_def;
      return Context(Producers(Producer(Type<brain>, Name("brain"_s), points())), Consumers(Consumer(Type<nbdl::app::server>, Name("server"_s))));
    }
  };
  struct client_side
  {
    static constexpr auto make_def()
    {
      using namespace nbdl_def;
      return Context(Producers(Producer(Type<nbdl::app::client>, Name("client"_s), points())), Consumers(Consumer(Type<ear>, Name("ear"_s))));
    }
  };

  template <typename M> std::string text(M const& m)
  {
    std::string s = msg::is_upstream<M> ? "up " : "down ";
    s += msg::is_create<M> ? "create" : msg::is_read<M> ? "read" : msg::is_update<M> ? "update" : "delete";
    if constexpr (msg::has_payload<M>)
    {
      using P = std::decay_t<decltype(msg::get_payload(m))>;
      s += std::is_same_v<P, js::one> ? " one" : std::is_same_v<P, js::leaf> ? " leaf" : std::is_same_v<P, js::wide> ? " wide" : " nothing";
    }
    Json::StreamWriterBuilder w; w["indentation"] = ""; w["precision"] = 17;
    return s + " " + Json::writeString(w, js::enc_fn{}(m));
  }

  struct world
  {
    Rng* r = nullptr;
    std::vector<std::string> arrived;                              // at the server's producer
    std::map<int, std::vector<std::string>> heard;                 // by each client
    std::function<void(std::string const&)> sending;               // the server's context gets a downstream message
    std::function<void()> later;
    std::size_t answers = 0;
    bool quiet = false;
  };
  inline world& w() { static thread_local world x; return x; }
}
namespace t { template <typename P, typename E> struct passing { using hana_tag = pass; }; }
namespace nbdl
{
  template <> struct make_store_impl<t::pass>
  { template <typename P, typename E> static constexpr auto apply(P, E) -> t::passing<typename P::type, typename E::type> { return {}; } };
  template <> struct apply_message_impl<t::pass>
  { template <typename S, typename M> static bool apply(S&, M const&) { return true; } };
  template <> struct match_impl<t::pass>
  { template <typename S, typename Key, typename F> static void apply(S&&, Key const&, F&& f) { f(nbdl::trigger_read{}); } };
  template <> struct apply_foreign_message_impl<t::pass>
  { template <typename S, typename M, typename F> static void apply(S&, M const&, F const&) { } };
  template <> struct send_upstream_message_impl<t::brain>
  {
    template <typename P, typename M> static void apply(P& p, M const& m)
    {
      auto& w = t::w();
      w.arrived.push_back(t::text(m));
      Rng& r = *w.r;
      if (w.quiet || r.chance(1, 3)) return;
      ++w.answers;
      auto tell = [&](auto const& d) { w.sending(t::text(d)); nbdl::apply_message(p.context, d); };
      if constexpr (msg::is_read<M>)
      {
        using Path = std::decay_t<decltype(msg::get_path(m))>;
        if (r.chance(1, 3)) { tell(msg::make_downstream_read(msg::get_path(m), msg::no_uid, nbdl::not_found{})); return; }
        if constexpr (decltype(hana::length(std::declval<Path>()))::value == 2)
        { js::wide x{}; js::gen_fn{r}(x); tell(msg::make_downstream_read(msg::get_path(m), msg::no_uid, x)); }
        else { js::leaf x{}; js::gen_fn{r}(x); tell(msg::make_downstream_read(msg::get_path(m), msg::no_uid, x)); }
      }
      else if constexpr (msg::requires_key_for_downstream<M>)
      {
        using Path = typename decltype(msg::get_path_type(m))::type;
        std::decay_t<decltype(hana::back(std::declval<Path>()))> key{};
        if constexpr (std::is_integral_v<decltype(key)>) key = static_cast<decltype(key)>(r.next());
        tell(msg::to_downstream_with_key(m, key));
      }
      else tell(msg::to_downstream(m, msg::no_is_confirmed));
    }
  };
  template <> struct send_downstream_message_impl<t::ear>
  {
    template <typename C, typename M> static void apply(C& c, M const& m) { t::w().heard[c.who].push_back(t::text(m)); }
  };
}

namespace t
{
  using up_types = nbdl_def::builder::make_context_meta_t<client_side>::message_api_meta::upstream_types;
  using down_types = nbdl_def::builder::make_context_meta_t<client_side>::message_api_meta::downstream_types;

  // a message of a random type of the list, with random content
  template <typename List, typename F> void some_message(Rng& r, F&& f)
  {
    constexpr std::size_t n = boost::mp11::mp_size<List>::value;
    boost::mp11::mp_with_index<n>(r.below(n), [&](auto i)
    {
      using M = boost::mp11::mp_at_c<List, decltype(i)::value>;
      M m{};
      if (r.chance(1, 40)) js::huge = 20000 + r.below(100000);
      js::gen_fn{r}(m);
      js::huge = 0;
      f(m);
    });
  }

  // a port of our own: the lock is a name in the abstract name space
  unsigned short own_port()
  {
    static unsigned short port = []
    {
      for (unsigned k = 0;; ++k)
      {
        unsigned const p = 10000 + (static_cast<unsigned>(getpid()) * 61 + k * 7) % 22000;
        int l = ::socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0);
        sockaddr_un u{}; u.sun_family = AF_UNIX;
        std::string const name = "nbdl-verif-port-" + std::to_string(p);
        std::memcpy(u.sun_path + 1, name.data(), name.size());
        if (::bind(l, reinterpret_cast<sockaddr*>(&u), static_cast<socklen_t>(offsetof(sockaddr_un, sun_path) + 1 + name.size())) != 0) { ::close(l); continue; }
        asio::io_context io;
        tcp::acceptor a(io);
        boost::system::error_code ec;
        a.open(tcp::v4(), ec); a.set_option(asio::socket_base::reuse_address(true), ec);
        a.bind({tcp::v4(), static_cast<unsigned short>(p)}, ec);
        if (!ec) a.listen(1, ec);
        if (ec) { ::close(l); continue; }
        return static_cast<unsigned short>(p);
      }
    }();
    return port;
  }

  using server_context = decltype(nbdl::make_context<server_side>(nbdl::actor("server"_s, std::declval<nbdl::app::server>())));
  using client_context = decltype(nbdl::make_context<client_side>(nbdl::actor("client"_s, std::declval<nbdl::app::client>()), nbdl::actor("ear"_s, 1)));

  // runs the context until f() holds; once something has not come about, the verdict is in and the
  // next ones are not waited for as long
  template <typename F> bool run_until(asio::io_context& io, F f)
  {
    static int failed = 0;
    auto const end = std::chrono::steady_clock::now() + std::chrono::seconds(failed ? 1 : 20);
    while (!f())
    {
      if (std::chrono::steady_clock::now() > end) { ++failed; return false; }
      io.restart(); io.run_one_for(std::chrono::milliseconds(1));
    }
    return true;
  }

  struct net
  {
    asio::io_context io{1};
    unsigned short port = own_port();
    server_context server;
    struct client { client_context ctx; std::vector<std::string> sent; std::vector<std::string> due; bool gone = false; };
    std::map<int, client> clients;
    int next = 0;
    std::size_t pushes = 0;

    auto& served() { return server->template actor<1>(); }
    auto& connections() { return served().connections; }
    static auto& wire(client& c) { return c.ctx->template actor<0>(); }
    static unsigned short port_of(client& c)
    {
      if (!wire(c).conn) return 0;
      boost::system::error_code ec;
      return wire(c).conn->state().socket().local_endpoint(ec).port();
    }
    net(Rng& r) : server(nbdl::make_context<server_side>(nbdl::actor("server"_s, nbdl::app::server{port, io})))
    {
      static int once = (::signal(SIGPIPE, SIG_IGN), 0); (void)once;
      w() = world{};
      w().r = &r;
      w().sending = [this](std::string const& s)
      {
        ++pushes;
        // due to whoever is connected now
        for (auto* c : connections())
        {
          boost::system::error_code ec;
          auto const p = c->state().socket().remote_endpoint(ec).port();
          for (auto& [k, x] : clients) if (!ec && port_of(x) == p) x.due.push_back(s);
        }
      };
    }
    ~net()
    {
      for (auto& [k, x] : clients) leave(x);
      settle();
      w().sending = nullptr;
    }
    bool is_ready(client& c) { return wire(c).conn && wire(c).conn->is_ready; }
    void leave(client& c)
    {
      boost::system::error_code ec;
      if (wire(c).conn) wire(c).conn->state().socket().close(ec);
      c.gone = true;
    }
    std::size_t live() { std::size_t n = 0; for (auto& [k, x] : clients) n += !x.gone; return n; }
    std::size_t step() { io.restart(); return io.poll(); }
    void settle()
    {
      for (int idle = 0; idle < 3;)
      {
        if (step()) { idle = 0; continue; }
        io.restart();
        if (io.run_one_for(std::chrono::microseconds(300))) idle = 0; else ++idle;
      }
    }
    template <typename F> bool until(F f) { return run_until(io, f); }
    int join(Rng& r)
    {
      int const k = ++next;
      std::string address = r.pick({"ws://", "", "nbdl://"}) + std::string("127.0.0.1:") + std::to_string(port);
      clients.emplace(k, client{nbdl::make_context<client_side>(nbdl::actor("client"_s, nbdl::app::client{address, io}), nbdl::actor("ear"_s, k)), {}, {}, false});
      return k;
    }
    bool joined()
    {
      for (auto& [k, x] : clients) if (!x.gone && !is_ready(x)) return false;
      return connections().size() == live();
    }
    void say(Rng& r, int k)
    {
      auto& c = clients.at(k);
      some_message<up_types>(r, [&](auto const& m) { c.sent.push_back(text(m)); nbdl::apply_message(*c.ctx, m); });
    }
    void push(Rng& r)
    { some_message<down_types>(r, [&](auto const& m) { w().sending(text(m)); nbdl::apply_message(*server, m); }); }
  };

  using client_of = net::client;
  std::string brief(std::vector<std::string> const& v)
  { std::string s = std::to_string(v.size()) + ":"; for (auto& x : v) s += " [" + vmon::show(x, 60) + "]"; return s; }

  // the messages of the server are those of the clients, each client's in its order
  bool arrived_ok(net& n, bool report)
  {
    std::vector<client_of*> who;
    for (auto& [k, c] : n.clients) who.push_back(&c);
    // how far each client's list may have been used up
    std::set<std::vector<std::size_t>> states{std::vector<std::size_t>(who.size())};
    for (std::size_t at = 0; at < w().arrived.size(); ++at)
    {
      std::set<std::vector<std::size_t>> next;
      for (auto const& s : states)
        for (std::size_t i = 0; i < who.size(); ++i)
          if (s[i] < who[i]->sent.size() && who[i]->sent[s[i]] == w().arrived[at]) { auto x = s; ++x[i]; next.insert(x); }
      if (next.empty())
      {
        if (report) vmon::check(false, "to-server", "the server got " + w().arrived[at].substr(0, 100) + " as its number " + std::to_string(at) + ", which is nobody's next");
        return false;
      }
      states = std::move(next);
    }
    bool const all = std::any_of(states.begin(), states.end(), [&](auto const& s)
      { for (std::size_t i = 0; i < who.size(); ++i) if (!who[i]->gone && s[i] != who[i]->sent.size()) return false; return true; });
    if (!report) return all;
    std::string lists;
    for (auto* c : who) lists += (c->gone ? " left: " : " here: ") + brief(c->sent);
    vmon::check(all, "to-server", "the server got " + brief(w().arrived) + " of" + lists);
    return all;
  }
  bool everyone_heard(net& n)
  { for (auto& [k, c] : n.clients) if (!c.gone && w().heard[k].size() < c.due.size()) return false; return true; }
  // whatever is under way arrives
  void arrive(net& n) { n.until([&] { return everyone_heard(n) && arrived_ok(n, false); }); n.settle(); }
  void check_heard(net& n)
  {
    for (auto& [k, c] : n.clients)
    {
      auto& got = w().heard[k];
      bool ok = c.gone ? got.size() <= c.due.size() && std::equal(got.begin(), got.end(), c.due.begin()) : got == c.due;
      vmon::check(ok, "to-client", "client " + std::to_string(k) + (c.gone ? " (left)" : "") + " heard " + brief(got) + " instead of " + brief(c.due));
    }
  }

  void exchange_of(Rng& r, std::size_t first, std::size_t most, std::size_t steps)
  {
    net n(r);
    w().quiet = r.chance(1, 4);
    std::string history;
    vmon::check(!n.served().ec, "listening", n.served().ec.message());
    // clients which send before they are connected
    std::size_t early = 0;
    for (auto k = first; k > 0; --k)
    {
      int c = n.join(r);
      for (auto m = r.below(4); m > 0; --m) { n.say(r, c); ++early; }
      if (r.coin()) n.until([&] { return n.joined(); });
    }
    if (!vmon::check(n.until([&] { return n.joined(); }), "connected", std::to_string(n.connections().size()) + " of " + std::to_string(n.live()) + " clients are connected")) return;
    for (auto k = steps; k > 0; --k)
    {
      std::vector<int> here;
      for (auto& [i, c] : n.clients) if (!c.gone) here.push_back(i);
      switch (r.below(12))
      {
        case 0:
          if (n.clients.size() < most)
          {
            history += " join";
            n.settle();
            n.join(r);
            if (!vmon::check(n.until([&] { return n.joined(); }), "connected", "a further client is not connected")) return;
          }
          break;
        case 1:
          if (most > 2 && (here.size() > 1 || r.chance(1, 4)))
          {
            if (here.empty()) break;
            history += " leave";
            // what this client is still to send may be lost
            n.leave(n.clients.at(here[r.below(here.size())]));
            if (!vmon::check(n.until([&] { return n.connections().size() == n.live(); }), "left", "a client that left is still served")) return;
            vmon::count("clients that left");
          }
          break;
        case 2: history += " settle"; n.settle(); break;
        case 3: case 4: case 5: history += " push"; n.push(r); if (r.coin()) n.step(); break;
        default:
          if (here.empty()) break;
          history += " say";
          n.say(r, here[r.below(here.size())]);
          if (r.coin()) n.step();
      }
    }
    arrive(n);
    arrived_ok(n, true);
    check_heard(n);
    vmon::check(n.connections().size() == n.live(), "served", std::to_string(n.connections().size()) + " connections for " + std::to_string(n.live()) + " clients");
    std::size_t heard = 0;
    for (auto& [k, v] : w().heard) heard += v.size();
    vmon::count("messages to the server", w().arrived.size()); vmon::count("messages to clients", heard);
    vmon::count("answers", w().answers); vmon::count("sent before connecting", early); vmon::count("clients", n.clients.size());
    vmon::check(full_duplex::monitor().twice == 0, "resolved-twice", full_duplex::monitor().what);
    vmon::distinct(history + std::to_string(heard) + "," + std::to_string(w().arrived.size()));
    vmon::sample(std::to_string(n.clients.size()) + " clients:" + history);
  }

  void exchange(Rng& r) { exchange_of(r, 1 + r.below(3), 5, 3 + r.below(20)); }
  // many clients, or much to say
  void crowd(Rng& r)
  {
    bool const many = r.coin();
    if (many) exchange_of(r, 6 + r.below(40), 60, 20 + r.below(60));
    else exchange_of(r, 1, 2, 300 + r.below(700));
    vmon::count(many ? "crowds" : "long talks");
  }

  // one websocket frame
  std::string frame(unsigned char op, std::string const& x, bool fin, bool mask)
  {
    std::string f{static_cast<char>((fin ? 0x80 : 0) | op)};
    char const m = mask ? static_cast<char>(0x80) : 0;
    if (x.size() < 126) f += static_cast<char>(m | static_cast<char>(x.size()));
    else if (x.size() < 65536) { f += static_cast<char>(m | 126); f += static_cast<char>(x.size() >> 8); f += static_cast<char>(x.size()); }
    else { f += static_cast<char>(m | 127); for (int i = 7; i >= 0; --i) f += static_cast<char>(x.size() >> (8 * i)); }
    if (mask) f += std::string("\1\2\3\4", 4);
    for (std::size_t i = 0; i < x.size(); ++i) f += mask ? static_cast<char>(x[i] ^ "\1\2\3\4"[i % 4]) : x[i];
    return f;
  }
  // one message as some frames, with control frames in between
  std::string frames(Rng& r, std::string const& x, bool mask)
  {
    std::string f;
    unsigned char op = r.chance(1, 5) ? 2 : 1;
    std::size_t at = 0;
    for (auto k = r.chance(1, 3) ? r.below(6) : 0; k > 0; --k)
    {
      std::size_t n = r.below(x.size() - at + 1);
      if (op == 1 || op == 0)                               // text is cut between characters only, to stay sure of our ground
        while (at + n < x.size() && (x[at + n] & 0xc0) == 0x80) ++n;
      f += frame(op, x.substr(at, n), false, mask);
      at += n; op = 0;
      if (r.chance(1, 3)) f += frame(r.coin() ? 9 : 10, r.from("ping", r.below(20)), true, mask);
      vmon::count("fragments");
    }
    return f + frame(op, x.substr(at), true, mask);
  }

  // ---- strangers at the door, and clients which send nonsense
  struct stranger
  {
    tcp::socket s;
    stranger(net& n) : s(n.io) { boost::system::error_code ec; s.connect({asio::ip::address_v4::loopback(), n.port}, ec); s.non_blocking(true, ec); }
    void write(std::string const& x) { boost::system::error_code ec; asio::write(s, asio::buffer(x), ec); }
    std::string read()
    {
      std::string all(70000, 0);
      boost::system::error_code ec;
      std::size_t k = s.read_some(asio::buffer(all), ec);
      all.resize(ec ? 0 : k);
      return all;
    }
    static std::string frame(unsigned char op, std::string const& x) { return t::frame(op, x, true, true); }
  };
  std::string upgrade()
  { return "GET / HTTP/1.1\r\nHost: x\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: dGhlIHNhbXBsZSBub25jZQ==\r\nSec-WebSocket-Version: 13\r\n\r\n"; }

  // text which is no message; only_json: well formed JSON of another shape
  std::string nonsense(Rng& r)
  {
    switch (r.below(10))
    {
      case 0: return "";
      case 1: return "{";
      case 2: return "nonsense";
      case 3: return "[99,{}]";
      case 4: return "[-1,[1,2]]";
      case 5: return "{\"a\":1}";
      case 6: return "[1.5,{}]";
      case 7: return r.from("[]{},:\"a1", r.below(30)) + "[";
      case 8: return "[4,5,6]";
      default: return "\"text\"";
    }
  }

  void strangers(Rng& r)
  {
    net n(r);
    std::string history;
    int const friendly = n.join(r);
    if (!vmon::check(n.until([&] { return n.joined(); }), "connected", "the client is not connected")) return;
    for (auto k = 1 + r.below(5); k > 0; --k)
    {
      if (r.coin()) n.say(r, friendly);
      if (r.coin()) n.push(r);
      unsigned const kind = static_cast<unsigned>(r.below(5));
      history += " " + std::to_string(kind);
      {
        stranger s(n);
        if (kind == 0) { s.write(r.bytes(1 + r.below(400)) + "\r\n\r\n"); n.settle(); vmon::count("strangers without a handshake"); }
        else if (kind == 1) { n.settle(); vmon::count("strangers without a word"); }
        else if (kind == 2)
        {
          s.write(r.pick({"GET / HTTP/1.1\r\nHost: x\r\n\r\n", "POST / HTTP/1.1\r\nHost: x\r\nContent-Length: 5\r\n\r\nhello", "GET /x HTTP/1.0\r\n\r\nGET / HTTP/1.1\r\n\r\n", "GET / HTTP/1.1\r\nUpgrade: websocket\r\n\r\n"}));
          n.settle(); vmon::count("strangers without an upgrade");
        }
        else
        {
          s.write(upgrade());
          if (!vmon::check(n.until([&] { return n.connections().size() == 2; }), "upgraded", "a peer with a valid upgrade is not served")) return;
          n.settle();
          s.read();
          arrive(n);
          auto const arrived = w().arrived.size();
          n.settle();
          if (r.coin())
          {
            // a message first
            some_message<up_types>(r, [&](auto const& m)
            {
              nbdl::app::serializer_upstream<client_side> ser;
              std::string const doc = ser.serialize(m);
              std::string const f = frames(r, doc, true);
              for (std::size_t at = 0; at < f.size();)
              {
                std::size_t const k = r.coin() ? f.size() - at : 1 + r.below(std::min<std::size_t>(f.size() - at, 9000));
                s.write(f.substr(at, k)); at += k; n.settle();
              }
              n.until([&] { return w().arrived.size() > arrived; });
              vmon::check(w().arrived.size() == arrived + 1 && w().arrived.back() == text(m), "stranger's-message", brief(w().arrived) + " instead of " + text(m));
              vmon::count("strangers' messages");
              if (w().arrived.size() > arrived) w().arrived.pop_back();
            });
          }
          std::string const bad = kind == 3 ? nonsense(r) : "";
          arrive(n);
          auto const before = w().arrived.size();
          if (kind == 3) { s.write(stranger::frame(1, bad)); vmon::count("nonsense sent"); }
          else s.write(r.pick({std::string("\xff\xff\xff\xff", 4), stranger::frame(8, ""), std::string("\x01\x05hello", 7), std::string("\x8f\x80\0\0\0\0", 6)}));
          if (kind == 4) { n.settle(); boost::system::error_code ec; s.s.close(ec); vmon::count("broken frames"); }
          if (!vmon::check(n.until([&] { return n.connections().size() == 1; }), "dropped", "a peer that sent nonsense (" + vmon::show(bad) + ") is still served")) return;
          vmon::check(w().arrived.size() == before, "nonsense-delivered", vmon::show(bad) + " arrived as " + (w().arrived.empty() ? "" : w().arrived.back()));
        }
      }
      n.settle();
    }
    // whoever comes next is served as before
    n.join(r);
    if (!vmon::check(n.until([&] { return n.joined(); }), "connected-after", "a client is not connected after strangers:" + history)) return;
    for (auto& [k, c] : n.clients) n.say(r, k);
    n.push(r);
    arrive(n);
    arrived_ok(n, true);
    check_heard(n);
    vmon::check(full_duplex::monitor().twice == 0, "resolved-twice", full_duplex::monitor().what);
    vmon::distinct(history + std::to_string(n.pushes) + "," + std::to_string(w().arrived.size()));
    vmon::sample(history);
  }

  // ---- a client whose server is a stranger
  void servers(Rng& r)
  {
    asio::io_context io{1};
    auto step_until = [&](auto f) { return run_until(io, f); };
    auto settle = [&] { for (int idle = 0; idle < 3;) { io.restart(); if (io.run_one_for(std::chrono::microseconds(300))) idle = 0; else ++idle; } };
    static int once = (::signal(SIGPIPE, SIG_IGN), 0); (void)once;
    w() = world{};
    w().r = &r;
    boost::system::error_code ec;
    tcp::acceptor door(io);
    tcp::endpoint where{asio::ip::address_v4::loopback(), own_port()};
    door.open(where.protocol(), ec); door.set_option(asio::socket_base::reuse_address(true), ec);
    door.bind(where, ec); if (!ec) door.listen(5, ec);
    if (!vmon::check(!ec, "listening", ec.message())) return;
    std::string const address = "ws://127.0.0.1:" + std::to_string(own_port());
    bool const nobody = r.chance(1, 12);
    if (nobody) door.close(ec);
    auto ctx = nbdl::make_context<client_side>(nbdl::actor("client"_s, nbdl::app::client{address, io}), nbdl::actor("ear"_s, 1));
    auto& wire = ctx->template actor<0>();
    std::vector<std::string> said, due;
    auto say = [&] { some_message<up_types>(r, [&](auto const& m) { said.push_back(text(m)); nbdl::apply_message(*ctx, m); }); };
    for (auto k = r.below(3); k > 0; --k) say();
    std::string history;
    if (nobody) { settle(); vmon::count("clients of nobody"); say(); settle(); vmon::check(w().heard.empty() && !wire.conn->is_ready, "nobody", "heard from nobody"); }
    else
    {
      tcp::socket raw(io);
      bool in = false;
      door.async_accept(raw, [&](auto e) { in = !e; });
      if (!vmon::check(step_until([&] { return in; }), "dialled", "the client does not connect to " + address)) return;
      if (r.chance(1, 5))
      {
        // no websocket here
        settle();
        std::string const no = r.pick({"HTTP/1.1 404 Not Found\r\nContent-Length: 0\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok", "", "nonsense\r\n\r\n",
          "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: wrong\r\n\r\n[0,0]"});
        if (!no.empty()) asio::write(raw, asio::buffer(no), ec);
        settle();
        if (r.coin()) say();
        raw.close(ec); settle(); say(); settle();
        vmon::check(w().heard.empty() && !wire.conn->is_ready, "refused", "a refused client is connected");
        vmon::count("refusals"); history = "refused " + no;
      }
      else
      {
        boost::beast::websocket::stream<tcp::socket> ws(std::move(raw));
        bool done = false;
        ws.async_accept([&](boost::system::error_code e) { done = !e; });
        if (!vmon::check(step_until([&] { return done && wire.conn->is_ready; }), "handshake", "the client does not shake hands")) return;
        // its messages arrive as documents of the format
        std::vector<std::string> got;
        boost::beast::flat_buffer buf;
        bool over = false;
        std::function<void()> read = [&]
        {
          ws.async_read(buf, [&](boost::system::error_code e, std::size_t)
          {
            if (e) { over = true; return; }
            std::string const doc = boost::beast::buffers_to_string(buf.data());
            buf.consume(buf.size());
            nbdl::message_api<client_side, nbdl::system_message>::upstream_variant v;
            try
            {
              nbdl::binder::jsoncpp::from_string(doc, v);
              nbdl::match(v, [&](auto const& m) { if constexpr (nbdl::UpstreamMessage<std::decay_t<decltype(m)>>) got.push_back(text(m)); else got.push_back("no message: " + vmon::show(doc)); });
            }
            catch (std::exception const& x) { got.push_back(std::string(x.what()) + ": " + vmon::show(doc)); }
            read();
          });
        };
        read();
        bool bad = false;
        nbdl::app::serializer_downstream<server_side> ser;
        for (auto k = 1 + r.below(8); k > 0 && !bad; --k)
        {
          std::string out;
          // several messages may come at once
          for (auto j = 1 + r.below(4); j > 0; --j)
            some_message<down_types>(r, [&](auto const& m) { due.push_back(text(m)); out += frames(r, ser.serialize(m), false); });
          history += " " + std::to_string(out.size());
          if (r.coin()) say();
          if (k == 1 && r.coin())
          {
            bad = true;
            switch (r.below(4))
            {
              case 0: out += frame(1, nonsense(r), true, false); break;
              case 1: out += std::string("\xff\xff\xff\xff", 4); break;
              case 2: { nbdl::system_message s{nbdl::system_message::WARNING, js::utf8(r, js::len(r))}; out += frame(1, ser.serialize(s), true, false); break; }
              default: out += frame(8, "", true, false);
            }
            vmon::count("servers turned bad");
          }
          for (std::size_t at = 0; at < out.size();)
          {
            std::size_t const n = r.coin() ? out.size() - at : 1 + r.below(out.size() - at);
            asio::async_write(ws.next_layer(), asio::buffer(out.data() + at, n), [&done](auto, auto) { done = true; });
            done = false;
            if (!vmon::check(step_until([&] { return done; }), "written", "the client does not read")) return;
            at += n;
            if (r.coin()) settle();
          }
          if (r.coin()) settle();
        }
        step_until([&] { return w().heard[1].size() >= due.size() && (bad || got.size() >= said.size()); });
        settle();
        if (bad) { ws.next_layer().close(ec); settle(); say(); settle(); vmon::check(w().heard[1] == due, "heard", "heard " + brief(w().heard[1]) + " instead of " + brief(due) + history); }
        else
        {
          vmon::check(w().heard[1] == due, "heard", "heard " + brief(w().heard[1]) + " instead of " + brief(due) + history);
          vmon::check(got == said, "said", "said " + brief(said) + ", which came as " + brief(got));
        }
        ws.next_layer().close(ec);
        step_until([&] { return over; });
        vmon::count("messages from strangers", due.size()); vmon::count("messages to strangers", got.size());
      }
    }
    if (wire.conn) wire.conn->state().socket().close(ec);
    settle();
    vmon::check(full_duplex::monitor().twice == 0, "resolved-twice", full_duplex::monitor().what);
    vmon::distinct(history + std::to_string(due.size()));
    vmon::sample(history);
  }

  // ---- the text of messages, on its own
  struct outcome { std::size_t times = 0; bool is_error = false; std::string what; };
  template <typename Deserializer> outcome decode(Deserializer const& d, std::string const& doc)
  {
    outcome o;
    full_duplex::run_async_with_state(0
    , full_duplex::promise_lift(std::string(doc)), d()
    , full_duplex::map_any([&](auto&& x)
      {
        using X = std::decay_t<decltype(x)>;
        ++o.times;
        if constexpr (full_duplex::is_error<X>)
        {
          o.is_error = true;
          if constexpr (std::is_same_v<decltype(x.value), nbdl::system_message>) o.what = x.value.value;
        }
        else if constexpr (nbdl::UpstreamMessage<X> || nbdl::DownstreamMessage<X>) o.what = text(x);
      }));
    return o;
  }
  template <typename List, typename Serializer, typename Deserializer>
  void one_document(Rng& r, Deserializer const& d)
  {
    std::string doc, want;
    bool is_system = false;
    Serializer ser;
    if (r.chance(1, 10))
    {
      nbdl::system_message s{nbdl::system_message::WARNING, js::utf8(r, js::len(r))};
      doc = ser.serialize(s); want = s.value; is_system = true;
    }
    else some_message<List>(r, [&](auto const& m) { doc = ser.serialize(m); want = text(m); });
    auto o = decode(d, doc);
    vmon::check(o.times == 1 && o.is_error == is_system && o.what == want, "there-and-back"
    , vmon::show(want, 300) + " came back " + std::to_string(o.times) + " times" + (o.is_error ? " as an error: " : ": ") + vmon::show(o.what, 300));
    vmon::count(is_system ? "system messages" : "messages there and back");
    // broken
    std::string bad;
    bool surely = true;
    if (r.coin()) bad = nonsense(r);
    else if (doc.size() > 1) { bad = doc.substr(0, r.below(doc.size() - 1)); surely = doc[0] == '[' || doc[0] == '{'; }
    o = decode(d, bad);
    vmon::check(o.times == 1, "answers-once", vmon::show(bad) + " was answered " + std::to_string(o.times) + " times");
    if (surely) vmon::check(o.is_error, "nonsense-accepted", vmon::show(bad) + " is " + o.what);
    vmon::count("broken documents");
    vmon::distinct(doc);
  }
  void documents(Rng& r)
  {
    for (int i = 0; i < 10; ++i)
    {
      one_document<up_types, nbdl::app::serializer_upstream<client_side>>(r, nbdl::app::deserializer_upstream<client_side>);
      one_document<down_types, nbdl::app::serializer_downstream<server_side>>(r, nbdl::app::deserializer_downstream<server_side>);
    }
    vmon::check(full_duplex::monitor().twice == 0, "resolved-twice", full_duplex::monitor().what);
    vmon::check(full_duplex::monitor().pipelines == full_duplex::monitor().ended, "pipelines-left", "");
  }

  void addresses(Rng& r)
  {
    std::string const protocol = r.coin() ? r.from("abcws", 1 + r.below(6)) : "", host = r.from("abc.-01", 1 + r.below(20)), port = r.coin() ? r.from("0123456789", 1 + r.below(5)) : "";
    std::string const address = (protocol.empty() ? "" : protocol + "://") + host + (port.empty() ? "" : ":" + port);
    auto [a, b, c] = nbdl::app::client_connection_detail::split_address(address);
    vmon::check(a == protocol && b == host && c == port, "address", address + " is '" + std::string(a) + "' '" + std::string(b) + "' '" + std::string(c) + "'");
    vmon::count("addresses");
    vmon::distinct(address);
  }
}
VMON_MODE("crowd", t::crowd, "crowds", "long talks")
VMON_MODE("exchange", t::exchange, "messages to the server", "messages to clients", "answers", "sent before connecting", "clients that left")
VMON_MODE("strangers", t::strangers, "strangers without a handshake", "strangers without a word", "strangers without an upgrade", "strangers' messages", "nonsense sent", "broken frames")
VMON_MODE("servers", t::servers, "messages from strangers", "messages to strangers", "servers turned bad", "refusals", "clients of nobody", "fragments")
VMON_MODE("documents", t::documents, "messages there and back", "system messages", "broken documents")
VMON_MODE("addresses", t::addresses, "addresses")
VMON_MAIN
