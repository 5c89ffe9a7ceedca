// C07: the client's side of the opening handshake.
// Oracle: a header parser for the request, the answer of a real server for its key.
#define VERIF_WS_CLIENT
#include "ws_common.hpp"

using vmon::Rng;

namespace
{
  struct Conn
  {
    ws::asio::io_context io{1};
    ws::Raw raw;
    ws::Ep ep;
    std::shared_ptr<int> token = std::make_shared<int>(0);
    std::string auth, origin;
    Conn(Rng& r, bool small = false)
    {
      ::signal(SIGPIPE, SIG_IGN);
      auth = r.chance(1, 6) ? "" : r.from("abcXYZ0189-_.=+/", r.chance(1, 10) ? 20000 : r.below(60));
      origin = r.chance(1, 3) ? "" : r.from("abc:/.0189", r.below(60));
      auto s = ws::connect_raw(io, raw, small);
      ws::open_client(s, ep, auth, origin, token);
    }
    ~Conn()
    {
      raw.close(); ws::pump(io);
      if (auto p = ep.watch.lock()) { p.reset(); ep.stop(); }
      ws::pump(io); ep.hold.reset(); ws::pump(io);
      vmon::check(ep.watch.expired() && token.use_count() == 1, "leak", "the endpoint outlived its owner, its handler and its connection");
    }
    // the request must be complete and say what was configured
    std::string check_request()
    {
      std::string const& w = raw.in;
      std::string what = " in '" + vmon::show(w, 300) + "'";
      std::size_t end = w.find("\r\n\r\n");
      vmon::check(end != std::string::npos && end + 4 == w.size(), "request-end", "the request does not end in its one empty line" + what);
      vmon::check(w.rfind("GET / HTTP/1.1\r\n", 0) == 0, "request-line", "wrong request line" + what);
      std::map<std::string, std::string> h;
      std::size_t at = 16;
      while (at < end && end != std::string::npos)
      {
        std::size_t e = w.find("\r\n", at), c = w.find(':', at);
        if (c == std::string::npos || c > e) { vmon::violate("request-header", "a line that is no header" + what); break; }
        std::string n = w.substr(at, c - at), v = w.substr(c + 1, e - c - 1);
        for (auto& x : n) x = static_cast<char>(std::tolower(static_cast<unsigned char>(x)));
        while (!v.empty() && v[0] == ' ') v.erase(0, 1);
        vmon::check(h.emplace(n, v).second, "request-header", "the header " + n + " appears twice" + what);
        at = e + 2;
      }
      vmon::check(h["upgrade"] == "websocket" && h["connection"] == "Upgrade" && h["sec-websocket-version"] == "13" && !h["host"].empty()
        , "request-headers", "not an upgrade request" + what);
      vmon::check(h["origin"] == origin, "request-origin", "origin '" + vmon::show(h["origin"]) + "' instead of '" + origin + "'");
      std::string c = h["cookies"];
      vmon::check(c.rfind("nbdl_auth=", 0) == 0 && c.substr(10, c.find(';') - 10) == auth, "request-token", "session token not sent" + what);
      std::string key = h["sec-websocket-key"];
      auto dec = ref::unbase64(key);
      vmon::check(dec && dec->size() == 16, "request-key", "the key '" + vmon::show(key) + "' is not 16 bytes of base64");
      return key;
    }
    std::string request(Rng& r, bool whole = true)
    {
      for (int idle = 0; idle < 3;) { std::size_t n = ws::pump(io) + raw.receive(whole ? ~std::size_t(0) : 1 + r.below(3000)); idle = n ? 0 : idle + 1; }
      std::string key = check_request();
      raw.in.clear();
      return key;
    }
    void feed(Rng& r, std::string const& bytes)
    {
      raw.out = bytes;
      unsigned style = static_cast<unsigned>(r.below(3));
      for (int idle = 0; idle < 2;)
      {
        std::size_t k = style == 0 ? ~std::size_t(0) : style == 1 && raw.out.size() < 2000 ? 1 : 1 + r.below(raw.out.size() + 1);
        std::size_t moved = raw.transmit(k) + ws::pump(io);
        idle = moved ? 0 : idle + 1;
      }
    }
  };

  void valid(Rng& r)
  {
    Conn c(r, r.coin());
    std::string key = c.request(r, r.coin());
    std::string w = ws::response(key);
    // frames right behind the answer belong to the reader
    std::vector<std::string> want;
    bool behind = r.coin();
    if (behind) for (auto k = 1 + r.below(4); k > 0; --k)
    {
      ref::Frame f; f.opcode = r.coin() ? 1 : 2; f.payload = r.bytes(r.below(400));
      want.push_back(f.payload); w += ref::encode(f);
    }
    std::size_t answered = ws::response(key).size();
    // nothing before the last byte of the answer
    std::size_t cut = r.below(answered);
    c.raw.out = w.substr(0, cut); c.raw.transmit(); ws::pump(c.io);
    vmon::check(c.ep.events.empty(), "early", "an event after " + std::to_string(cut) + " of " + std::to_string(answered) + " bytes: " + ws::show(c.ep.events));
    c.feed(r, w.substr(cut));
    vmon::check(c.ep.count('R') == 1 && c.ep.events[0].kind == 'R', "ready", "events after a valid answer: " + ws::show(c.ep.events));
    std::string d = ws::compare(c.ep.messages(), want);
    vmon::check(d.empty(), "frames-behind", d);
    vmon::check(c.ep.events.size() == 1 + want.size(), "events", "events after a valid answer: " + ws::show(c.ep.events));
    c.raw.receive();
    vmon::check(c.raw.in.empty(), "chatter", "the client sent '" + vmon::show(c.raw.in) + "' unasked");
    vmon::count("accepted"); vmon::count("messages_behind", want.size());
    vmon::distinct(c.auth + "|" + c.origin + "|" + std::to_string(cut)); vmon::sample(c.auth.substr(0, 40) + " | " + c.origin);
  }

  void bad(Rng& r)
  {
    Conn c(r);
    std::string key = c.request(r);
    std::string good = ws::response(key), w = good;
    switch (r.below(8))
    {
      case 0: w[r.below(w.size())] ^= static_cast<char>(1u << r.below(8)); break;
      case 1: w.resize(r.below(w.size())); break;
      case 2: w = r.bytes(r.below(400)); break;
      case 3: w = ws::response(ref::base64(r.bytes(16))); break;
      case 4: w = "HTTP/1.1 400 Bad Request\r\nContent-Length: 0\r\n\r\n" + std::string(r.below(200), 'x'); break;
      case 5: { std::size_t at = r.below(w.size()); w.erase(at, 1); w += r.bytes(1 + r.below(5)); break; }
      case 6: w.insert(r.below(w.size()), 1, static_cast<char>(r.next())); break;
      default: { std::size_t a = w.find("Accept: ") + 8 + r.below(28); w[a] = w[a] == 'A' ? 'B' : 'A'; }
    }
    bool is_good = w.size() >= good.size() && w.compare(0, good.size(), good) == 0;
    if (is_good) return;
    c.feed(r, w);
    c.raw.shutdown_write();
    ws::pump(c.io);
    std::size_t b = c.ep.count('B'), e = c.ep.count('E');
    std::string what = " for the answer '" + vmon::show(w, 200) + "': " + ws::show(c.ep.events);
    vmon::check(c.ep.count('R') == 0, "trusted", "ready" + what);
    vmon::check(b + e == 1 && c.ep.events.size() == 1, "one-end", "events" + what);
    if (w.size() >= good.size()) vmon::check(b == 1, "not-bad-request", "a wrong answer was not reported as a bad request" + what);
    vmon::count(w.size() >= good.size() ? "refused" : "cut_short");
    vmon::distinct(w); vmon::sample(vmon::show(w, 200));
  }

  void every_cut(Rng& r)
  {
    Conn c(r);
    std::string key = c.request(r), good = ws::response(key);
    std::size_t i = vmon::st().index, cut = i % good.size();
    c.raw.out = good.substr(0, cut); c.raw.transmit(); ws::pump(c.io);
    vmon::check(c.ep.events.empty(), "early", "an event after " + std::to_string(cut) + " bytes: " + ws::show(c.ep.events));
    unsigned how = static_cast<unsigned>(i / good.size() % 3);
    if (how == 0) { c.raw.out = good.substr(cut); c.raw.transmit(); ws::pump(c.io); vmon::check(c.ep.events.size() == 1 && c.ep.count('R') == 1, "ready", "events: " + ws::show(c.ep.events)); vmon::count("splits"); }
    else if (how == 1) { c.raw.shutdown_write(); ws::pump(c.io); vmon::check(c.ep.events.size() == 1 && c.ep.count('E') == 1, "cut", "events after a truncated answer: " + ws::show(c.ep.events)); vmon::count("cuts"); }
    else
    {
      std::string w = good; w[cut] = static_cast<char>(w[cut] + 1 + static_cast<char>(r.below(254)));
      c.raw.out = w.substr(cut); c.raw.transmit(); ws::pump(c.io);
      vmon::check(c.ep.events.size() == 1 && c.ep.count('B') == 1, "changed-byte", "byte " + std::to_string(cut) + " changed, events: " + ws::show(c.ep.events));
      vmon::count("changed_bytes");
    }
    vmon::distinct(i);
  }

  // the server is gone before or while the request is written
  void vanish(Rng& r)
  {
    Conn c(r, true);
    if (r.coin()) { ws::pump(c.io); c.raw.receive(r.below(200)); }
    c.raw.close();
    ws::pump(c.io);
    vmon::check(c.ep.events.size() == 1 && c.ep.count('E') == 1, "vanish", "events after the server vanished: " + ws::show(c.ep.events));
    vmon::count("vanished"); vmon::distinct(c.auth + c.origin);
  }
}
VMON_MODE("valid", valid, "accepted", "messages_behind")
VMON_MODE("bad", bad, "refused", "cut_short")
VMON_MODE("every-cut", every_cut, "splits", "cuts", "changed_bytes")
VMON_MODE("vanish", vanish, "vanished")
VMON_MAIN
