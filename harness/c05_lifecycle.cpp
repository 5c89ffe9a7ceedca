// C05: how connections end, and how long an endpoint lives.
// A scripted peer and owner drive a server endpoint through generated interleavings of
// messages, pings, closes, stops and failures; the monitors watch the event log, the frames
// on the wire, the use counts of the endpoint and of a token in its handler.
#include "ws_common.hpp"

using vmon::Rng;
using ref::Frame;

namespace
{
  struct Run
  {
    ws::Server srv;
    Rng& r;
    std::vector<std::string> to_endpoint, from_endpoint, pings;
    std::string script;
    bool small;
    bool peer_closed = false, local_closed = false, half = false, hard = false, dropped = false, calm_pings = true;
    bool started = false;
    unsigned reactions = 0;

    Run(Rng& r, bool small) : srv(small, false), r(r), small(small) { }
    ws::Ep& ep() { return srv.ep; }
    bool stopped() { return srv.ep.stopped; }
    bool alive() { return !srv.ep.watch.expired(); }

    std::string payload(std::size_t n) { return r.chance(1, 3) ? std::string(n, static_cast<char>(r.next())) : r.bytes(n); }
    bool can_write() { return !peer_closed && !half && !hard; }

    void put(unsigned op, std::string p)
    {
      Frame f; f.opcode = op; f.payload = std::move(p);
      if (r.coin()) { f.masked = true; for (auto& c : f.mask) c = static_cast<unsigned char>(r.next()); }
      srv.raw.out += ref::encode(f);
      if (r.chance(3, 4)) srv.raw.transmit();
    }
    void local_send()
    {
      if (!alive()) return;
      auto keep = ep().watch.lock();
      std::size_t n = r.chance(1, 5) ? r.below(40000) : r.chance(1, 4) ? 125 * r.below(4) : r.below(300);
      from_endpoint.push_back(payload(n));
      ep().send(from_endpoint.back());
    }
    void local_close() { if (!alive()) return; auto keep = ep().watch.lock(); if (!stopped()) local_closed = true; ep().send_close(); }
    void stop() { if (!alive()) return; auto keep = ep().watch.lock(); ep().stop(); }
    // a started (or stopped) endpoint which is started again goes on as before
    void again() { if (!alive() || !(started || stopped())) return; auto keep = ep().watch.lock(); ep().start(); vmon::count("started_again"); }
    void drop() { dropped = true; ep().hold.reset(); }

    void drain()
    {
      for (int idle = 0; idle < 3;)
      {
        std::size_t n = srv.raw.transmit() + ws::pump(srv.io) + srv.raw.receive();
        idle = n ? 0 : idle + 1;
      }
    }
    void op(unsigned o)
    {
      static char const* const names[] = {"recv", "send", "ping", "peer-close", "close", "stop", "half", "hard", "drain", "some", "drop", "pong", "close+send", "recv", "send", "start-again"};
      script += names[o]; script += ' ';
      switch (o)
      {
        case 0: case 13: if (can_write()) { to_endpoint.push_back(payload(r.chance(1, 6) ? 3000 : r.below(200))); put(r.coin() ? 1 : 2, to_endpoint.back()); } break;
        case 1: case 14: local_send(); break;
        case 2:
          if (can_write())
          {
            pings.push_back(payload(r.chance(1, 4) ? 0 : r.chance(1, 4) ? 125 : r.below(30)));
            put(9, pings.back());
            if (started && r.coin()) drain(); else calm_pings = false;
          }
          break;
        case 3: if (can_write()) { put(8, r.coin() ? "" : std::string("\x03\xe8", 2) + payload(r.below(60))); peer_closed = true; } break;
        case 4: local_close(); break;
        case 5: stop(); break;
        case 6: if (!half && !hard) { srv.raw.transmit(); if (srv.raw.out.empty()) { srv.raw.shutdown_write(); half = true; } } break;
        case 7: if (!hard) { hard = true; srv.raw.out.clear(); srv.raw.receive(); srv.raw.close(); } break;
        case 8: drain(); break;
        case 9:
          srv.raw.transmit(1 + r.below(300));
          for (auto k = r.below(4); k > 0; --k) { srv.io.restart(); srv.io.poll_one(); }
          if (r.coin()) srv.raw.receive(1 + r.below(small ? 4000 : 400));
          break;
        case 10: drop(); break;
        case 11: if (can_write()) put(10, payload(r.below(20))); break;
        case 12: local_close(); local_send(); break;
        case 15: again(); break;
      }
    }

    void react(ws::Event const& e)
    {
      if (e.kind == 'R' || reactions == 0 || !r.chance(1, 3)) return;
      --reactions;
      vmon::count("reactions");
      unsigned what = e.kind == 'M' ? r.pick({0u, 0u, 0u, 1u, 2u, 3u, 4u}) : r.pick({0u, 1u, 2u, 3u, 4u});
      script += std::string("[on ") + e.kind + ": " + (what == 0 ? "send" : what == 1 ? "close" : what == 2 ? "stop" : what == 3 ? "drop" : "start-again") + "] ";
      if (what == 0) local_send(); else if (what == 1) local_close(); else if (what == 2) stop(); else if (what == 3) drop(); else again();
    }
  };

  void lifecycle(Rng& r)
  {
    Run t(r, r.coin());
    if (!t.srv.handshake()) return;
    t.ep().on_event = [&](ws::Event const& e) { t.react(e); };
    t.reactions = static_cast<unsigned>(r.below(4));
    // before the start
    for (auto k = r.chance(1, 3) ? r.below(4) : 0; k > 0; --k) t.op(r.pick({0u, 1u, 2u, 3u, 4u}));
    t.script += "START ";
    t.ep().start();
    t.started = true;
    // a theme decides which ends are likely
    std::vector<unsigned> ops{0, 1, 2, 8, 9, 0, 1, 9, 15};
    switch (r.below(7))
    {
      case 0: ops.insert(ops.end(), {3, 3}); break;
      case 1: ops.insert(ops.end(), {4, 4, 12}); break;
      case 2: ops.insert(ops.end(), {3, 4, 12}); break;
      case 3: ops.insert(ops.end(), {5, 10}); break;
      case 4: ops.insert(ops.end(), {6, 4, 10}); break;
      case 5: ops.insert(ops.end(), {7, 4, 10}); break;
      default: ops.insert(ops.end(), {3, 4, 5, 6, 7, 10, 11, 12});
    }
    for (auto k = 1 + r.below(16); k > 0; --k) t.op(r.pick(ops));
    t.script += "DRAIN ";
    t.drain();
    // a half closed connection whose last bytes could not be written before
    auto& ep = t.ep();
    bool stopped = t.stopped();
    std::string what = "; script " + t.script + "; events " + ws::show(ep.events).substr(0, 300);
    auto out = ws::read_stream(t.srv.raw.in, 2, 125);
    std::size_t C = ep.count('C'), E = ep.count('E'), B = ep.count('B');

    vmon::check(ep.after_stop == 0, "after-stop", std::to_string(ep.after_stop) + " handler calls after stop" + what);
    vmon::check(C <= 1, "close-twice", std::to_string(C) + " close events" + what);
    vmon::check(B == 0, "bad-request", "bad request events from legal frames" + what);
    vmon::check(out.closes.size() <= 1, "close-frames", std::to_string(out.closes.size()) + " close frames" + what);
    vmon::check(out.problem.empty(), "stream", out.problem + what);
    // prefixes always, everything when nothing was cut short
    auto prefix = [&](std::vector<std::string> got, std::vector<std::string> want, bool all, char const* kind)
    {
      if (!all && got.size() < want.size()) want.resize(got.size());
      std::string d = ws::compare(got, want);
      vmon::check(d.empty(), kind, d + what);
    };
    prefix(ep.messages(), t.to_endpoint, !stopped && !t.hard, "delivered");
    prefix(out.messages, t.from_endpoint, !stopped && !t.hard && !t.peer_closed && !t.local_closed, "sent");
    bool clean = !stopped && !t.hard;
    if (clean)
    {
      vmon::check(out.incomplete_bytes == 0 && !out.open_message, "cut-frame", "an incomplete frame or message was left on the wire" + what);
      vmon::check(out.closes.size() == (t.peer_closed || t.local_closed), "close-answer", std::to_string(out.closes.size())
        + " close frames, " + (t.peer_closed ? "the peer closed " : "") + (t.local_closed ? "the owner closed" : "") + what);
      vmon::check(C == (t.peer_closed ? 1u : 0u), "close-event", std::to_string(C) + " close events, " + (t.peer_closed ? "the peer closed" : "the peer did not close") + what);
      vmon::check(E == (t.half && !t.peer_closed ? 1u : 0u), "error-event", std::to_string(E) + " error events" + what);
    }
    if (t.hard && !stopped)
      vmon::check(C + E >= 1, "silent", "no terminal event after the peer vanished" + what);
    // pongs
    std::size_t at = 0;
    for (auto& p : out.pongs)
    {
      while (at < t.pings.size() && t.pings[at] != p) ++at;
      vmon::check(at < t.pings.size(), "pong", "a pong carrying '" + vmon::show(p, 30) + "' that answers no ping" + what);
      ++at;
    }
    vmon::check(out.pings.empty(), "ping", "the endpoint sent a ping" + what);
    if (clean && !t.peer_closed && !t.local_closed && !t.pings.empty())
    {
      vmon::check(!out.pongs.empty() && out.pongs.back() == t.pings.back(), "pong-missing", "the last ping was not answered" + what);
      if (t.calm_pings) vmon::check(out.pongs == t.pings, "pong-missing", std::to_string(out.pongs.size()) + " pongs for " + std::to_string(t.pings.size()) + " pings" + what);
      vmon::count("pongs", out.pongs.size());
    }
    // lifetime
    bool over = stopped || t.hard || t.half || (t.peer_closed && clean);
    if (!t.dropped) vmon::check(t.alive(), "freed-early", "the endpoint was destroyed under its owner" + what);
    if (!over) vmon::check(t.alive(), "freed-early", "the endpoint of an open connection was destroyed" + what);
    t.drop();
    if (over)
    {
      vmon::check(!t.alive() && t.srv.token.use_count() == 1, "leak", "the connection is over and the owner has let go, the endpoint lives on" + what);
      if (!t.hard) { t.srv.raw.receive(); vmon::check(t.srv.raw.eof || t.srv.raw.failed, "socket-leak", "the socket of a destroyed endpoint is still open" + what); }
    }
    else
    {
      vmon::check(t.alive(), "freed-early", "the endpoint of an open connection was destroyed" + what);
      t.srv.raw.close();
      ws::pump(t.srv.io);
      vmon::check(!t.alive() && t.srv.token.use_count() == 1, "leak", "the peer is gone and the owner has let go, the endpoint lives on" + what);
    }
    vmon::check(ep.after_stop == 0, "after-stop", "handler calls after stop" + what);
    if (t.peer_closed) vmon::count("peer_closes"); if (t.local_closed) vmon::count("local_closes");
    if (stopped) vmon::count("stops"); if (t.half) vmon::count("half_closes"); if (t.hard) vmon::count("peer_vanished");
    vmon::count("pings", t.pings.size()); vmon::count("close_events", C); vmon::count("error_events", E);
    vmon::count("events", ep.events.size());
    vmon::distinct(t.script); vmon::sample(t.script);
  }

  // the close handshake with the write of the close frame held up in a full socket
  void blocked_close(Rng& r)
  {
    Run t(r, true);
    if (!t.srv.handshake()) return;
    t.ep().start();
    bool drop = r.coin(), remote = r.coin(), gone = r.chance(1, 3);
    // fill the socket
    std::size_t n = 1 + r.below(3);
    for (std::size_t i = 0; i < n; ++i) { t.from_endpoint.push_back(t.payload(8000 + r.below(30000))); t.ep().send(t.from_endpoint.back()); }
    ws::pump(t.srv.io);
    if (!remote || r.coin()) { t.local_close(); if (r.coin()) t.local_close(); }
    if (remote) { t.put(8, "\x03\xe8"); t.srv.raw.transmit(); t.peer_closed = true; }
    ws::pump(t.srv.io);
    if (drop) t.drop();
    for (auto k = r.below(20); k > 0; --k) { t.srv.raw.receive(1 + r.below(3000)); ws::pump(t.srv.io, 1 + r.below(3)); }
    if (gone) { t.srv.raw.close(); t.hard = true; }
    t.drain();
    auto out = ws::read_stream(t.srv.raw.in, 2, 125);
    std::string what = std::string("; ") + (drop ? "drop " : "") + (remote ? "remote " : "") + (gone ? "gone " : "") + ws::show(t.ep().events);
    vmon::check(out.problem.empty(), "stream", out.problem + what);
    vmon::check(t.ep().count('C') <= 1 && out.closes.size() <= 1, "close-twice", "closed more than once" + what);
    if (!gone)
    {
      vmon::check(out.closes.size() == 1 && out.incomplete_bytes == 0 && !out.open_message, "close-answer", "no complete close frame" + what);
      vmon::check(t.ep().count('C') == (remote ? 1u : 0u), "close-event", "close events" + what);
    }
    if (remote && drop) vmon::check(!t.alive(), "leak", "the closed endpoint lives on" + what);
    if (!remote && !gone) vmon::check(t.alive(), "freed-early", "endpoint freed before the peer closed" + what);
    vmon::count("blocked_closes"); if (gone) vmon::count("write_failures");
    vmon::distinct(out.frames * 8 + drop + 2 * remote + 4 * gone);
  }

  // many connections opened and ended on one io context: what is left is nothing
  void churn(Rng& r)
  {
    ws::asio::io_context io{1};
    std::weak_ptr<int> watch;
    std::size_t n = 2 + r.below(6), ready = 0;
    {
      std::vector<std::unique_ptr<ws::Raw>> raws;
      std::vector<std::unique_ptr<ws::Ep>> eps;
      auto token = std::make_shared<int>(0);
      watch = token;
      for (std::size_t i = 0; i < n; ++i)
      {
        raws.push_back(std::make_unique<ws::Raw>()); eps.push_back(std::make_unique<ws::Ep>());
        ws::Ep* e = eps.back().get();
        ws::open_server(ws::connect_raw(io, *raws.back()), *e, token);
        e->on_event = [e, &ready](ws::Event const& ev) { if (ev.kind == 'R') ++ready; };
        raws.back()->out = ws::request();
        if (r.chance(1, 5)) raws.back()->out.resize(r.below(100));
      }
      for (auto k = 5 + r.below(60); k > 0; --k)
      {
        std::size_t i = r.below(n);
        switch (r.below(6))
        {
          case 0: case 1: raws[i]->transmit(1 + r.below(200)); break;
          case 2: ws::pump(io, 1 + r.below(10)); break;
          case 3: if (eps[i]->count('R')) { Frame f; f.opcode = r.pick({1u, 9u, 8u}); f.payload = r.bytes(r.below(100)); raws[i]->out += ref::encode(f); } break;
          case 4: if (auto p = eps[i]->watch.lock(); p && eps[i]->count('R')) { if (r.coin()) eps[i]->send(r.bytes(r.below(500))); else eps[i]->send_close(); } break;
          default: if (eps[i]->count('R') && r.chance(1, 3)) eps[i]->hold.reset();
        }
      }
      for (std::size_t i = 0; i < n; ++i) { raws[i]->close(); }
      ws::pump(io);
      for (auto& e : eps) { vmon::check(e->count('C') <= 1, "close-twice", ws::show(e->events)); e->hold.reset(); }
      ws::pump(io);
      for (auto& e : eps) vmon::check(e->watch.expired(), "leak", "an endpoint survived: " + ws::show(e->events));
      token.reset();
    }
    vmon::check(watch.expired(), "leak", "a handler survived its endpoint");
    vmon::count("connections", n); vmon::count("handshakes", ready); vmon::distinct(n * 1000 + ready + vmon::st().index * 100000);
  }
}
VMON_MODE("lifecycle", lifecycle, "peer_closes", "local_closes", "stops", "half_closes", "peer_vanished", "pongs", "reactions", "close_events", "error_events")
VMON_MODE("blocked-close", blocked_close, "blocked_closes", "write_failures")
VMON_MODE("churn", churn, "connections", "handshakes")
VMON_MAIN
