// C37: the endpoint on the WebSocket of the browser.
#include <nbdl/endpoint_handler.hpp>
#include <nbdl/endpoint_open.hpp>
#include "web/web.hpp"
#include <nbdl/websocket_api/client_endpoint.hpp>
#include <boost/hana.hpp>
#include <queue>
#include <vector>
namespace hana = boost::hana;
using vmon::Rng;

namespace
{
  namespace event = nbdl::endpoint_event;
  namespace det = nbdl::websocket_api::detail;
  using nbdl::js::get_handle;
  using nbdl::websocket_api::json_payload;
  using bytes = std::vector<unsigned char>;

  std::string random_text(Rng& r)
  {
    std::string s;
    for (auto n = r.chance(1, 10) ? r.below(3000) : r.below(20); n > 0; --n)
      s += r.chance(3, 4) ? r.from("abcdefghijkl \"\\\n09{}[]", 1) : r.pick({std::string("\xc3\xa9"), std::string("\xe2\x82\xac"), std::string("\xf0\x9f\x98\x80"), std::string("\x01"), std::string(1, '\0')});
    return s;
  }
  std::string literal(std::string const& s)
  { // as a string of JavaScript
    return "Buffer.from('" + web_host::hex(s) + "', 'hex').toString('utf8')";
  }

  // what a payload is, what JavaScript sent says of it, and how it is made
  template <typename P> struct kind;
  template <> struct kind<json_payload>
  {
    static void make(Rng& r, json_payload& p, std::string& sent)
    {
      std::string const t = random_text(r);
      switch (r.below(4))
      {
        case 0: web::put(get_handle(p), literal(t)); break;
        case 1: web::put(get_handle(p), "{a: [1, " + literal(t) + "]}"); break;
        case 2: web::put(get_handle(p), "[null, 1.5, true, {}]"); break;
        default: web::put(get_handle(p), "42");
      }
      sent = "t" + web_host::hex(web::json(get_handle(p)));
    }
    static std::string is(json_payload const& p) { return web::json(get_handle(p)); }
    // an incoming message: code of its data, and what it is read as
    static std::string incoming(Rng& r, std::string& code)
    {
      std::string const value = r.pick({std::string("JSON.stringify(") + literal(random_text(r)) + ")", std::string("'{\"a\":[1,2,{\"b\":null}]}'"), std::string("'7'"), std::string("'\"x\"'"), std::string("'[]'")});
      code = value;
      return web::text("return JSON.stringify(JSON.parse(" + value + "))");
    }
    static bool bad(Rng& r, std::string& code) { code = r.pick({"'{'", "''", "'nope'", "new ArrayBuffer(3)", "'[1,'"}); return true; }
  };
  template <> struct kind<bytes>
  {
    static void make(Rng& r, bytes& p, std::string& sent)
    {
      std::string const t = r.bytes(r.chance(1, 10) ? r.below(3000) : r.below(12));
      p.assign(t.begin(), t.end());
      sent = "b" + web_host::hex(t);
    }
    static std::string is(bytes const& p) { return web_host::hex(p.data(), p.size()); }
    static std::string incoming(Rng& r, std::string& code)
    {
      if (r.coin()) { std::string const t = random_text(r); code = literal(t); return web_host::hex(t); }
      std::string const b = r.bytes(r.below(40));
      code = "(function() { var a = new Uint8Array([";
      for (unsigned char c : b) code += std::to_string(c) + ",";
      code += "]); return a.buffer; })()";
      return web_host::hex(b);
    }
    static bool bad(Rng&, std::string&) { return false; }
  };

  template <typename P> void session(Rng& r)
  {
    web_host::called = [](int which, void* p)
    {
      switch (which)
      {
        case 0: nbdl::webui::detail::_nbdl_webui_detail_event_callback(p); break;
        case 1: det::_nbdl_endpoint_ready(p); break;
        case 2: det::_nbdl_endpoint_message(p); break;
        case 3: det::_nbdl_endpoint_close(p); break;
        case 4: return det::_nbdl_endpoint_value_handle(p);
      }
      return 0;
    };
    web::reset();
    int const before = web::entries();
    std::string trace;
    {
      using Json = P;
      std::vector<std::string> events, sent;
      int answer = 0; // messages to send from inside the handler
      bool close_inside = false, closing = false;
      std::string const url = r.pick({"ws://127.0.0.1:8080", "wss://example.com/a/b?c=d", "ws://h/" }) + r.from("abc/", r.below(12));
      auto const send_some = [&](auto& self, int n)
      {
        for (int i = 0; i < n; ++i)
        {
          P p{};
          std::string s;
          kind<P>::make(r, p, s);
          self.send_message(p);
          if (!closing) sent.push_back(s);
          web::count("messages sent");
        }
      };
      auto const act = [&](auto& self)
      {
        send_some(self, answer);
        if (close_inside) { self.send_close(); closing = true; }
      };
      auto endpoint = nbdl::endpoint_open(
        nbdl::websocket_api::client_endpoint{url, {""}, {}}
      , std::queue<P>{}
      , nbdl::endpoint_handler(
          event::on_ready([&](auto& self) { events.push_back("ready"); act(self); })
        , event::on_message([&](auto& self, auto const& p) { events.push_back("message " + kind<P>::is(p)); act(self); })
        , event::on_close([&](auto&, auto&&...) { events.push_back("close"); })));
      web::check(web::text("return window.sockets.length") == "1", "sockets", url);
      web::check(web::text("return window.sockets[0].url") == url, "url", url + " is " + web::text("return window.sockets[0].url"));
      auto const prepare = [&] { answer = r.coin() ? 0 : static_cast<int>(r.range(1, 3)); close_inside = r.chance(1, 15); };
      auto const happens = [&](std::string const& code, std::vector<std::string> const& want)
      {
        events.clear();
        web::text("window.uncaught = []; window.sockets[0]." + code + "; return ''");
        std::string got, w;
        for (auto& e : events) got += e + ";";
        for (auto& e : want) w += e + ";";
        web::check(got == w, "events", trace + ": " + vmon::show(got, 300) + " instead of " + vmon::show(w, 300));
      };
      auto const check_sent = [&]
      {
        std::string w;
        for (auto& s : sent) w += s + ";";
        std::string const is = web::text("return window.sockets[0].sent.map(x => x + ';').join('')");
        return web::check(is == w, "sent", trace + ": " + vmon::show(is, 300) + " instead of " + vmon::show(w, 300));
      };
      bool open = false;
      if (r.chance(9, 10)) { prepare(); trace += " open"; open = true; happens("open_()", {"ready"}); }
      for (int steps = static_cast<int>(r.range(1, 14)); open && steps-- > 0;)
      {
        switch (r.below(6))
        {
          case 0: trace += " send"; if (!closing) send_some(endpoint, static_cast<int>(r.range(1, 4))); break;
          case 1:
          {
            std::string code;
            if (kind<P>::bad(r, code))
            {
              trace += " bad " + code;
              happens("message_(" + code + ")", {});
              web::count("bad messages");
            }
            break;
          }
          default:
          {
            prepare();
            std::string code;
            std::string const want = kind<P>::incoming(r, code);
            trace += " message";
            if (r.chance(1, 4)) trace += " " + vmon::show(want, 40);
            if (closing) happens("message_(" + code + ")", {});
            else { happens("message_(" + code + ")", {"message " + want}); web::count("messages received"); }
          }
        }
        if (!check_sent()) break;
      }
      if (r.chance(2, 3))
      {
        answer = 0; close_inside = false;
        if (open && r.coin() && !closing)
        {
          trace += " close";
          endpoint.send_close();
          web::check(web::text("return window.sockets[0].readyState") == "2", "closing", trace);
        }
        trace += " closed";
        happens("closed_(1000)", {"close"});
        web::count("closed");
      }
      check_sent();
      web::distinct(trace);
      if (r.chance(1, 50)) web::sample(trace);
    }
    web::check(web::entries() == before, "kept", trace);
    web::check_memory();
  }
  void json(Rng& r) { session<json_payload>(r); }
  void raw(Rng& r) { session<bytes>(r); }
}
VMON_MODE("json", json, "messages sent", "messages received", "bad messages", "closed")
VMON_MODE("bytes", raw, "messages sent", "messages received", "closed")
WEB_MAIN
