// C04: a server and a client endpoint of nbdl talking to each other.
// Between them sits a relay the harness moves bytes through, so the network's progress is
// part of the generated case.  Oracle: the lists of messages handed to send.
#define VERIF_WS_CLIENT
#include "ws_common.hpp"

using vmon::Rng;

namespace
{
  std::string payload(Rng& r, std::size_t n)
  { return r.chance(1, 4) ? std::string(n, static_cast<char>(r.next())) : r.bytes(n); }

  struct Pair
  {
    ws::asio::io_context io{1};
    ws::Raw a, b; // the relay's ends: a faces the server, b the client
    bool relayed;
    ws::Ep server, client;
    std::shared_ptr<int> token = std::make_shared<int>(0);
    std::size_t chunks = 0;

    Pair(Rng& r, std::string const& auth, std::string const& origin)
    {
      static int once = (::signal(SIGPIPE, SIG_IGN), 0); (void)once;
      relayed = r.chance(3, 4);
      if (relayed)
      {
        bool small = r.coin();
        ws::open_server(ws::connect_raw(io, a, small), server, token);
        auto s = ws::connect_raw(io, b, small);
        ws::open_client(s, client, auth, origin, token);
      }
      else
      {
        int fd[2];
        ws::make_pair(fd, r.coin());
        ws::open_server(ws::adopt(io, fd[0]), server, token);
        auto s = ws::adopt(io, fd[1]);
        ws::open_client(s, client, auth, origin, token);
      }
    }
    ~Pair()
    {
      a.close(); b.close();
      for (ws::Ep* e : {&server, &client})
        if (auto p = e->watch.lock()) { p.reset(); e->stop(); }
      ws::pump(io);
      server.hold.reset(); client.hold.reset();
      ws::pump(io);
    }
    std::size_t relay(std::size_t max)
    {
      std::size_t n = a.receive(max) + b.receive(max);
      b.out += a.in; a.in.clear();
      a.out += b.in; b.in.clear();
      n += b.transmit(max) + a.transmit(max);
#ifdef VMON_THREADS
      chunks = 1; // how the kernel cuts the stream is not the library's doing
#else
      chunks += n != 0;
#endif
      return n;
    }
    std::size_t step(Rng& r, unsigned style)
    {
      std::size_t n = 0;
      if (relayed) n += relay(style == 0 ? ~std::size_t(0) : style == 1 ? 1 + r.below(200) : 1 + r.below(5000));
      if (style == 2 && r.coin()) { io.restart(); for (auto k = 1 + r.below(3); k > 0; --k) n += io.poll_one(); }
      else n += ws::pump(io);
      return n;
    }
    void settle(Rng& r, unsigned style)
    {
      std::size_t rounds = 0;
      for (int idle = 0; idle < 4 && rounds < 200000; ++rounds) idle = step(r, rounds > 3000 ? 0 : style) ? 0 : idle + 1;
    }
  };

  std::string token_text(Rng& r)
  { return r.from("abcdefABC0123456789-_.+/", r.below(40)); }

  void exchange(Rng& r)
  {
    std::string auth = token_text(r), origin = r.coin() ? "http://" + token_text(r) : "";
    Pair p(r, auth, origin);
    unsigned style = static_cast<unsigned>(r.below(3));
    p.server.auto_start = r.coin(); p.client.auto_start = r.coin();
    std::vector<std::string> to_server, to_client;
    std::size_t nested = r.below(12), in_handler = 0;
    std::size_t large = 0;
    auto make = [&] { std::size_t n = ws::message_size(r, 66000); if (n > 30000 && ++large > 2) n = 5; return payload(r, n); };
    auto send_s = [&] { to_client.push_back(make()); p.server.send(to_client.back()); };
    auto send_c = [&] { to_server.push_back(make()); p.client.send(to_server.back()); };
    p.server.on_event = [&](ws::Event const& e)
    { if ((e.kind == 'M' || e.kind == 'R') && nested && r.chance(1, 3)) { --nested; ++in_handler; send_s(); if (r.coin()) send_s(); } };
    p.client.on_event = [&](ws::Event const& e)
    { if ((e.kind == 'M' || e.kind == 'R') && nested && r.chance(1, 3)) { --nested; ++in_handler; send_c(); if (r.coin()) send_c(); } };

    std::size_t early = 0;
    if (r.chance(1, 3)) { for (auto k = r.below(3); k > 0; --k, ++early) r.coin() ? send_s() : send_c(); }
    // the handshake; messages may be sent before the endpoints are started
    for (int i = 0; i < 3000 && !(p.server.count('R') && p.client.count('R')); ++i) p.step(r, style);
    vmon::check(p.server.count('R') == 1 && p.client.count('R') == 1, "handshake"
      , "server " + ws::show(p.server.events) + " client " + ws::show(p.client.events));
    if (!p.server.count('R') || !p.client.count('R')) return;
    vmon::check(p.server.events.front().data == auth, "session-token", "the server saw the token '" + vmon::show(p.server.events.front().data)
      + "' instead of '" + auth + "'");
    std::size_t before = to_server.size() + to_client.size();
    std::vector<int> todo;
    if (!p.server.auto_start) todo.push_back(2);
    if (!p.client.auto_start) todo.push_back(3);
    for (auto k = r.below(14); k > 0; --k) todo.push_back(r.coin());
    if (r.chance(1, 4)) { todo.push_back(2); todo.push_back(3); } // starting again changes nothing
    r.shuffle(todo);
    // "drop": the owner lets go of a started endpoint, the connection keeps it alive
    bool drop = r.chance(1, 3);
    for (int t : todo)
    {
      if (t == 0) send_s(); else if (t == 1) send_c(); else if (t == 2) p.server.start(); else p.client.start();
      if (r.chance(1, 3)) for (auto k = r.below(8); k > 0; --k) p.step(r, style);
    }
    if (drop) { p.server.hold.reset(); p.client.hold.reset(); }
    p.settle(r, style);
    std::string d = ws::compare(p.server.messages(), to_server);
    vmon::check(d.empty(), "to-server", d);
    d = ws::compare(p.client.messages(), to_client);
    vmon::check(d.empty(), "to-client", d);
    for (ws::Ep* e : {&p.server, &p.client})
      vmon::check(e->count('R') == 1 && e->count('C') + e->count('B') + e->count('E') == 0, "events"
        , std::string(e == &p.server ? "server" : "client") + " events " + ws::show(e->events));
    vmon::check(!p.server.watch.expired() && !p.client.watch.expired(), "alive", "an endpoint of an open connection was destroyed");
    vmon::count("messages", to_server.size() + to_client.size()); vmon::count("sent_before_start", before);
    vmon::count("sent_in_handlers", in_handler); vmon::count("relayed_chunks", p.chunks);
    if (drop) vmon::count("owner_dropped");
    std::string shape = std::to_string(style) + (p.relayed ? "r" : "d");
    for (auto& m : to_server) shape += " >" + std::to_string(m.size());
    for (auto& m : to_client) shape += " <" + std::to_string(m.size());
    vmon::distinct(shape + std::to_string(p.chunks)); vmon::sample(shape);
  }

  // everything is answered: a long ping pong conversation driven only from handlers
  void conversation(Rng& r)
  {
    Pair p(r, "t", "");
    unsigned style = static_cast<unsigned>(r.below(3));
    std::vector<std::string> to_server, to_client;
    std::size_t left = 20 + r.below(60), width = 1 + r.below(3);
    p.server.on_event = [&](ws::Event const& e)
    {
      if (e.kind == 'M' && left) { --left; to_client.push_back(e.data + static_cast<char>('a' + left % 26)); p.server.send(to_client.back()); }
    };
    p.client.on_event = [&](ws::Event const& e)
    {
      if (e.kind == 'R') for (std::size_t k = 0; k < width; ++k) { to_server.push_back(payload(r, r.below(300))); p.client.send(to_server.back()); }
      if (e.kind == 'M' && left) { --left; to_server.push_back(e.data + '.'); p.client.send(to_server.back()); }
    };
    p.settle(r, style);
    std::string d = ws::compare(p.server.messages(), to_server);
    vmon::check(d.empty(), "to-server", d);
    d = ws::compare(p.client.messages(), to_client);
    vmon::check(d.empty(), "to-client", d);
    vmon::check(left == 0, "stalled", std::to_string(left) + " answers were never sent");
    vmon::count("messages", to_server.size() + to_client.size()); vmon::count("sent_in_handlers", to_client.size());
    vmon::distinct(vmon::hash(std::to_string(to_server.size()) + "," + std::to_string(to_client.size()) + std::to_string(p.chunks)));
  }

  // queues that grow long before anything moves
  void burst(Rng& r)
  {
    Pair p(r, "t", "");
    std::vector<std::string> to_server, to_client;
    // one or two long bursts, the rest short
    std::size_t n = r.coin() ? 60 + r.below(500) : 500 + r.below(3000), size = r.chance(1, 3) ? 200 : 1 + r.below(20);
    bool early = r.chance(1, 4);
    auto some = [&](bool server, std::size_t k)
    {
      for (; k > 0; --k)
      {
        auto& list = server ? to_client : to_server;
        std::string m = std::to_string(list.size()) + ":";
        m.append(r.below(size), static_cast<char>(r.next()));
        list.push_back(m);
        (server ? p.server : p.client).send(m);
      }
    };
    if (early) { p.server.auto_start = p.client.auto_start = false; some(r.coin(), n); }
    for (int i = 0; i < 3000 && !(p.server.count('R') && p.client.count('R')); ++i) p.step(r, 0);
    p.server.start(); p.client.start();
    for (int round = r.below(3); round >= 0; --round)
    {
      some(r.coin(), round ? r.below(200) : n);
      if (r.coin()) some(r.coin(), r.below(n));
      for (auto k = r.below(4); k > 0; --k) p.step(r, 1);
    }
    p.settle(r, r.coin() ? 0 : 2);
    std::string d = ws::compare(p.server.messages(), to_server);
    vmon::check(d.empty(), "to-server", d);
    d = ws::compare(p.client.messages(), to_client);
    vmon::check(d.empty(), "to-client", d);
    vmon::check(!p.server.watch.expired() && !p.client.watch.expired(), "alive", "an endpoint of an open connection was destroyed");
    vmon::count("messages", to_server.size() + to_client.size());
    if (n > 1000) vmon::count("bursts of over 1000");
    if (early) vmon::count("bursts before the start");
    vmon::distinct(vmon::hash(std::to_string(to_server.size()) + "," + std::to_string(to_client.size()) + std::to_string(p.chunks)));
  }
}
VMON_MODE("exchange", exchange, "messages", "sent_before_start", "sent_in_handlers", "relayed_chunks", "owner_dropped")
VMON_MODE("conversation", conversation, "messages")
VMON_MODE("burst", burst, "messages", "bursts of over 1000", "bursts before the start")
VMON_MAIN
