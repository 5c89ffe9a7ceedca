// C06: the server's side of the opening handshake.
// Oracle: a line based model of the request; an independent SHA-1/base64 for the answer.
#include "ws_common.hpp"

using vmon::Rng;

namespace
{
  std::string const first_line = "GET / HTTP/1.1\r\n";

  struct Model
  {
    enum Kind { Accept, Refuse, Fail, Any } kind = Fail; // Fail: the input ended or is too long
    std::vector<std::string> keys, cookies;
    bool long_line = false; // may be refused before it ends
  };

  std::string trim(std::string s)
  {
    while (!s.empty() && (s.back() == ' ' || s.back() == '\t')) s.pop_back();
    std::size_t i = 0; while (i < s.size() && (s[i] == ' ' || s[i] == '\t')) ++i;
    return s.substr(i);
  }

  // what a request means; Any where the property leaves the answer open
  Model model(std::string const& w)
  {
    Model m;
    if (w.size() < first_line.size())
    { m.kind = first_line.compare(0, w.size(), w) == 0 ? Model::Fail : Model::Any; return m; }
    if (w.compare(0, first_line.size(), first_line) != 0) { m.kind = Model::Refuse; return m; }
    std::size_t at = first_line.size();
    bool open = false;
    for (;;)
    {
      std::size_t end = w.find("\r\n", at);
      if (end == std::string::npos || end - at > 200)
      {
        // a line that never ends, or one of more than a sane length: refused or not, but never left waiting
        m.kind = end == std::string::npos && w.size() - at <= 200 ? Model::Fail : Model::Any;
        m.long_line = m.kind == Model::Any;
        if (m.long_line && end == std::string::npos) m.kind = Model::Fail;
        return m;
      }
      std::string line = w.substr(at, end - at);
      at = end + 2;
      if (line.empty()) break;
      std::size_t colon = line.find(':');
      if (colon == std::string::npos) { open = true; continue; } // not a header: ignored or refused
      std::string name = line.substr(0, colon);
      for (auto& c : name) if (c >= 'A' && c <= 'Z') c = static_cast<char>(c - 'A' + 'a');
      if (name == "sec-websocket-key") m.keys.push_back(trim(line.substr(colon + 1)));
      else if (name == "cookies") m.cookies.push_back(trim(line.substr(colon + 1)));
      else if (trim(name) == "sec-websocket-key" || trim(name) == "cookies") open = true;
    }
    if (m.keys.size() > 1 || m.cookies.size() > 1) open = true; // which one counts is open
    bool empty_key = m.keys.empty() || m.keys.back().empty();
    m.kind = open ? Model::Any : empty_key ? Model::Refuse : Model::Accept;
    return m;
  }

  std::string token_of(std::string const& cookies)
  {
    std::size_t at = 0;
    for (;;)
    {
      std::size_t end = std::min(cookies.find(';', at), cookies.size());
      std::size_t b = at; while (b < end && cookies[b] == ' ') ++b;
      if (cookies.compare(b, 10, "nbdl_auth=") == 0 && b + 10 <= end) return cookies.substr(b + 10, end - b - 10);
      if (end == cookies.size()) return "";
      at = end + 1;
    }
  }

  struct Conn
  {
    ws::asio::io_context io{1};
    ws::Raw raw;
    ws::Ep ep;
    std::shared_ptr<int> token = std::make_shared<int>(0);
    std::weak_ptr<int> token_watch = token;
    Conn() { ::signal(SIGPIPE, SIG_IGN); ep.auto_start = false; ws::open_server(ws::connect_raw(io, raw), ep, token); }
    ~Conn()
    {
      raw.close(); ws::pump(io); ep.stop(); ws::pump(io); ep.hold.reset(); ws::pump(io);
      vmon::check(ep.watch.expired() && token.use_count() == 1, "leak", "the endpoint outlived its owner, its handler and its connection");
    }
    void feed(Rng& r, std::string const& bytes)
    {
      raw.out = bytes;
      unsigned style = static_cast<unsigned>(r.below(4));
      for (int idle = 0; idle < 2;)
      {
        std::size_t k = style == 0 ? ~std::size_t(0) : style == 1 && raw.out.size() < 2000 ? 1 : style == 2 ? 1 + r.below(16 + raw.out.size() / 20) : 1 + r.below(raw.out.size() + 1);
        std::size_t moved = raw.transmit(k) + ws::pump(io);
        raw.receive();
        idle = moved ? 0 : idle + 1;
      }
    }
  };

  void judge(Conn& c, std::string const& w, bool ended)
  {
    Model m = model(w);
    auto& ev = c.ep.events;
    std::string what = " for '" + vmon::show(w, 400) + "': events " + ws::show(ev) + " answer '" + vmon::show(c.raw.in, 120) + "'";
    std::size_t ready = c.ep.count('R'), other = ev.size() - ready;
    vmon::check(ready + other <= 1, "more-than-one-event", std::to_string(ev.size()) + " events" + what);
    if (!ended && m.long_line) return;
    if (!ended && m.kind == Model::Fail) { vmon::check(ev.empty() && c.raw.in.empty(), "early-event", "an event before the request was complete" + what); return; }
    if (!ended && m.kind == Model::Any) return;
    vmon::check(ready + other >= 1, "silent", "no event" + what);
    vmon::check(c.ep.count('C') + c.ep.count('M') == 0, "odd-event", "message or close event before ready" + what);
    if (m.kind == Model::Accept)
    {
      vmon::check(ready == 1, "not-ready", "a valid request was not accepted" + what);
      vmon::check(c.raw.in == ws::response(m.keys[0]), "answer", "wrong answer to the key '" + vmon::show(m.keys[0]) + "'" + what);
      std::string want = m.cookies.empty() ? "" : token_of(m.cookies[0]);
      // other separators than "; " are the business of C08
      if (ready && (m.cookies.empty() || m.cookies[0].find_first_not_of("abcdefghijklmnopqrstuvwxyz0123456789=:_-; ") == std::string::npos))
        vmon::check(ev[0].data == want, "token", "session token '" + vmon::show(ev[0].data) + "' instead of '" + vmon::show(want) + "'" + what);
      vmon::count("accepted");
    }
    else if (m.kind == Model::Refuse || m.kind == Model::Fail)
    {
      vmon::check(ready == 0 && c.raw.in.empty(), "accepted-bad", "an invalid request was answered" + what);
      if (m.kind == Model::Refuse) vmon::check(c.ep.count('B') == 1, "not-bad-request", "an invalid request was not reported as a bad request" + what);
      vmon::count(m.kind == Model::Refuse ? "refused" : "failed");
    }
    else
    {
      // left open, but never half an answer
      if (ready) vmon::check(c.raw.in.size() > 20, "no-answer", "ready without an answer" + what);
      else vmon::check(c.raw.in.empty(), "answered", "an answer without ready" + what);
      vmon::count("open");
    }
  }

  std::string random_case(Rng& r, std::string s)
  { for (auto& c : s) if (r.coin()) c = static_cast<char>(c >= 'a' && c <= 'z' ? c - 32 : c >= 'A' && c <= 'Z' ? c + 32 : c); return s; }

  std::string spaces(Rng& r) { return r.from(r.coin() ? " " : " \t", r.below(4)); }

  std::string header_name(Rng& r)
  {
    if (r.chance(1, 3)) return r.pick({std::string("Host"), std::string("Origin"), std::string("Upgrade"), std::string("Connection"),
      std::string("Sec-WebSocket-Version"), std::string("Sec-WebSocket-Key2"), std::string("X-Sec-WebSocket-Key"), std::string("Cookie"),
      std::string("Cookies2"), std::string("XCookies"), std::string("sec-websocket-ke"), std::string("Sec-WebSocket-Extensions")});
    return r.from("abcdefghijklmnopqrstuvwxyzABC-0123456789_", 1 + r.below(20));
  }

  std::string valid_request(Rng& r)
  {
    std::vector<std::string> h;
    std::string key = r.coin() ? ref::base64(r.bytes(16)) : r.from("abcXYZ0123456789+/=", 1 + r.below(60));
    h.push_back(random_case(r, "Sec-WebSocket-Key") + ":" + spaces(r) + key + spaces(r));
    if (r.chance(4, 5))
    {
      std::string c;
      for (auto k = r.below(4); k > 0; --k)
        c += (r.coin() ? r.pick({std::string("a"), std::string("nbdl"), std::string("xnbdl_auth"), std::string("nbdl_auth2"), std::string("nbdl_aut")})
          : std::string("nbdl_auth")) + "=" + r.from("abcdef0123456789=:_-", r.chance(1, 6) ? r.below(90) : r.below(20)) + (r.coin() ? "; " : ";");
      if (c.size() > 180) c.resize(180);
      while (!c.empty() && c.back() == ' ') c.pop_back();
      h.push_back(random_case(r, "Cookies") + ":" + spaces(r) + c);
    }
    for (auto k = r.chance(1, 12) ? r.below(200) : r.below(8); k > 0; --k)
    {
      std::string v = r.chance(1, 4) ? r.bytes(r.below(60)) : r.from("abc :;=,/\"0129", r.below(150));
      for (auto& c : v) if (c == '\r' || c == '\n') c = 'x';
      h.push_back(header_name(r) + ":" + v);
    }
    r.shuffle(h);
    std::string w = first_line;
    for (auto& x : h) w += x + "\r\n";
    return w + "\r\n";
  }

  void run(Rng& r, std::string const& w)
  {
    Conn c;
    c.feed(r, w);
    judge(c, w, false);
    c.raw.shutdown_write();
    ws::pump(c.io); c.raw.receive();
    judge(c, w, true);
    vmon::distinct(w);
    vmon::sample(vmon::show(w, 300));
  }

  void valid(Rng& r) { run(r, valid_request(r)); }

  void every_split(Rng& r)
  {
    std::string w = first_line + "Host: h\r\nSec-WebSocket-Key: " + ref::base64(r.bytes(16)) + "\r\nCookies: a=b; nbdl_auth=the_token; c\r\n\r\n";
    std::size_t cut = vmon::st().index % (w.size() + 1);
    Conn c;
    c.raw.out = w.substr(0, cut); c.raw.transmit(); ws::pump(c.io); c.raw.receive();
    judge(c, w.substr(0, cut), false);
    if (vmon::st().index / (w.size() + 1) == 0)
    {
      c.raw.out = w.substr(cut); c.raw.transmit(); ws::pump(c.io); c.raw.receive();
      judge(c, w, false);
      vmon::count("splits");
    }
    else
    {
      c.raw.shutdown_write(); ws::pump(c.io); c.raw.receive();
      judge(c, w.substr(0, cut), true);
      vmon::count("truncations");
    }
    vmon::distinct(w);
  }

  void broken(Rng& r)
  {
    std::string w = valid_request(r);
    switch (r.below(10))
    {
      case 0: w = r.bytes(r.below(300)); break;
      case 1: w = first_line + r.bytes(r.below(300)); break;
      case 2: w[r.below(16)] = static_cast<char>(r.next()); break;
      case 3: w.resize(r.below(w.size())); break;
      case 4:
      { // no key, or an empty one
        std::string v = w.substr(16); std::string o = first_line; std::size_t at = 0;
        for (;;)
        {
          std::size_t e = v.find("\r\n", at); std::string line = v.substr(at, e - at); at = e + 2;
          if (line.empty()) break;
          std::string low = line.substr(0, 18); for (auto& c : low) c = static_cast<char>(std::tolower(static_cast<unsigned char>(c)));
          if (low == "sec-websocket-key:") { if (r.coin()) o += "Sec-WebSocket-Key:" + spaces(r) + "\r\n"; }
          else o += line + "\r\n";
        }
        w = o + "\r\n";
        break;
      }
      case 5: // lines without a colon, among them names of the headers that matter
        w.insert(16, r.pick({std::string("sec-websocket-key"), std::string("cookies"), std::string("Sec-WebSocket-Key"), std::string("x"), r.bytes(3), std::string(" ")}) + "\r\n");
        break;
      case 6: // far too long
        w.insert(16, r.pick({std::string("X"), std::string("Cookies: nbdl_auth"), std::string("Sec-WebSocket-Key")}) + (r.coin() ? ": " : "") + std::string(200 + r.below(400) + (r.chance(1, 4) ? 60000 : 0), 'y') + (r.coin() ? "\r\n" : ""));
        break;
      default:
        for (std::size_t k = 1 + r.below(4); k > 0 && w.size() > 20; --k)
          switch (r.below(4))
          {
            case 0: w[16 + r.below(w.size() - 16)] = static_cast<char>(r.next()); break;
            case 1: w.erase(16 + r.below(w.size() - 16), 1 + r.below(4)); break;
            case 2: w.insert(16 + r.below(w.size() - 16), r.from("\r\n: \tkK", 1 + r.below(3))); break;
            default: w.erase(16 + r.below(w.size() - 16), r.below(40));
          }
    }
    run(r, w);
  }

  // an unending line must not be collected without bound
  void endless(Rng& r)
  {
    Conn c;
    std::string w = first_line + (r.coin() ? "X: " : "Sec-WebSocket-Key") + std::string(400000 + r.below(1000), r.coin() ? 'a' : '\n');
    c.raw.out = w;
    for (int i = 0; i < 400 && !c.raw.out.empty() && c.ep.events.empty(); ++i) { c.raw.transmit(); ws::pump(c.io); }
    vmon::check(c.ep.events.size() == 1 && c.ep.count('R') == 0, "endless", "after " + std::to_string(w.size() - c.raw.out.size())
      + " bytes of one header line: events " + ws::show(c.ep.events));
    vmon::count("endless"); vmon::distinct(w.size());
  }

  // the peer vanishes while the answer is due, or before
  void vanish(Rng& r)
  {
    std::string w = valid_request(r);
    std::size_t cut = r.coin() ? w.size() : r.below(w.size());
    Conn c;
    c.raw.out = w.substr(0, cut); c.raw.transmit();
    if (r.coin()) ws::pump(c.io);
    c.raw.close();
    ws::pump(c.io);
    vmon::check(c.ep.events.size() == 1, "vanish", std::to_string(c.ep.events.size()) + " events after the peer vanished: " + ws::show(c.ep.events));
    vmon::count("vanished"); vmon::distinct(w);
  }

  // several sessions at once on one thread must not mix
  void interleaved(Rng& r)
  {
    std::vector<std::unique_ptr<Conn>> cs;
    std::vector<std::string> ws_, rest;
    for (auto k = 2 + r.below(3); k > 0; --k) { cs.push_back(std::make_unique<Conn>()); ws_.push_back(valid_request(r)); rest.push_back(ws_.back()); }
    bool left = true;
    while (left)
    {
      left = false;
      std::size_t i = r.below(cs.size());
      cs[i]->raw.out += rest[i].substr(0, std::min<std::size_t>(rest[i].size(), 1 + r.below(40)));
      rest[i].erase(0, cs[i]->raw.out.size());
      cs[i]->raw.transmit(); ws::pump(cs[i]->io); cs[i]->raw.receive();
      for (auto& s : rest) left = left || !s.empty();
    }
    for (std::size_t i = 0; i < cs.size(); ++i) { ws::pump(cs[i]->io); cs[i]->raw.receive(); judge(*cs[i], ws_[i], false); }
    vmon::count("sessions", cs.size()); vmon::distinct(ws_[0]);
  }
}
VMON_MODE("valid", valid, "accepted")
VMON_MODE("every-split", every_split, "splits", "accepted")
VMON_MODE("broken", broken, "refused", "failed", "open")
VMON_MODE("endless", endless, "endless")
VMON_MODE("vanish", vanish, "vanished")
VMON_MODE("interleaved", interleaved, "sessions", "accepted")
VMON_MAIN
