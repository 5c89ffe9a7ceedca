// C36: the place the browser shows, the text and the route in the store agree, after every
// change from either side, and observers are told about it.
#include <nbdl/def/directives.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/make_context.hpp>
#include <nbdl/string.hpp>
#include <nbdl/message.hpp>
#include <vector>
#include "web/web.hpp"
#include <nbdl/webui/nav_route.hpp>
#include <nbdl/webui/route_map.hpp>

namespace c36
{
  namespace hana = boost::hana;
  namespace message = nbdl::message;
  using namespace hana::literals;
  using vmon::Rng;
  using std::string;

  struct pair_t { unsigned a; unsigned b; };
  struct one_t { unsigned short a; };
  struct name_t { nbdl::string s; };
  struct mixed_t { nbdl::string s; unsigned n; nbdl::string t; };
  constexpr auto map = nbdl::webui::make_route_map(nbdl::webui::route_pair<>("root"_s), nbdl::webui::route_pair<pair_t>("pair"_s)
    , nbdl::webui::route_pair<one_t>("one"_s), nbdl::webui::route_pair<name_t>("name"_s), nbdl::webui::route_pair<mixed_t>("m"_s));
  using root_t = decltype("root"_s);

  struct observer_tag { };
  struct context_tag { };
  constexpr auto make_def = []
  {
    using namespace nbdl_def;
    return Context(NavRouteProducer(map), Consumer(Name("seen"_s), Type<observer_tag>));
  };
  struct seen_t { int routes = 0, texts = 0, others = 0; string last_route, last_text; };
  inline seen_t& seen() { static thread_local seen_t s; return s; }

  struct show_route
  {
    string operator()(pair_t const& x) const { return "pair " + std::to_string(x.a) + " " + std::to_string(x.b); }
    string operator()(one_t const& x) const { return "one " + std::to_string(x.a); }
    string operator()(name_t const& x) const { return "name " + x.s; }
    string operator()(mixed_t const& x) const { return "mixed " + x.s + " " + std::to_string(x.n) + " " + x.t; }
    string operator()(root_t) const { return "root"; }
    string operator()(nbdl::webui::route_not_found) const { return "not found"; }
    template <typename T> string operator()(T const&) const { return "something else"; }
  };
  template <typename C> string route_of(C& c)
  {
    string r = "nothing"; int n = 0;
    nbdl::match(c, hana::make_tuple("nav_route"_s), [&](auto const& x) { r = show_route{}(x); ++n; });
    return n == 1 ? r : "matched " + std::to_string(n) + " times";
  }
  template <typename C> string text_of(C& c)
  {
    string r = "nothing";
    nbdl::match(c, hana::make_tuple("nav_route"_s, hana::type_c<nbdl::string>), [&](auto const& x)
    { if constexpr (std::is_convertible_v<decltype(x), std::string_view>) r = string(std::string_view(x)); });
    return r;
  }
  template <typename C, typename P> void told(C& c, P const&)
  {
    if constexpr (std::is_same_v<std::decay_t<P>, std::decay_t<decltype(hana::make_tuple("nav_route"_s))>>) { ++seen().routes; auto s = route_of(c); web::note n; seen().last_route = s; }
    else if constexpr (std::is_same_v<std::decay_t<P>, std::decay_t<decltype(hana::make_tuple("nav_route"_s, hana::type_c<nbdl::string>))>>) { ++seen().texts; auto s = text_of(c); web::note n; seen().last_text = s; }
    else ++seen().others;
  }
}
namespace nbdl
{
  namespace c36_ = ::c36;
  NBDL_ENTITY(c36_::pair_t, a, b);
  NBDL_ENTITY(c36_::one_t, a);
  NBDL_ENTITY(c36_::name_t, s);
  NBDL_ENTITY(c36_::mixed_t, s, n, t);
  template <> struct make_def_impl<c36::context_tag> { static constexpr auto apply() -> decltype(c36::make_def()) { return {}; } };
  template <typename Context> struct actor_type<c36::observer_tag, Context>
  { struct type { using hana_tag = c36::observer_tag; Context context; type(actor_initializer<Context, hana::type<void>> a) : context(a.context) { } type(actor_initializer<Context, c36::observer_tag> a) : context(a.context) { } }; };
  template <> struct notify_state_change_impl<c36::observer_tag> { template <typename A, typename P> static void apply(A& a, P const& p) { c36::told(a.context, p); } };
}
namespace c36
{
  // the route a text is, by the description of the map: /NAME/PARAMETER..., numbers from 1
  bool number(string const& s, unsigned long long max)
  {
    if (s.empty()) return false;
    unsigned long long n = 0;
    if (s.size() > 12) return false;
    for (char c : s) { if (c < '0' || c > '9') return false; n = n * 10 + static_cast<unsigned>(c - '0'); if (n > max) return false; }
    return n > 0;
  }
  string parse(string const& s)
  {
    string const no = "not found";
    if (s.empty() || s[0] != '/') return no;
    std::vector<string> p;
    for (std::size_t at = 0; at < s.size();)
    {
      auto end = s.find('/', at + 1);
      if (end == string::npos) end = s.size();
      p.push_back(s.substr(at + 1, end - at - 1));
      at = end;
    }
    if (p.size() > 1 && p.back().empty()) p.pop_back(); // one slash at the end
    for (auto& x : p) if (x.empty()) return no;
    auto const n = [](string const& x) { return std::to_string(std::strtoull(x.c_str(), nullptr, 10)); };
    if (p[0] == "root" && p.size() == 1) return "root";
    if (p[0] == "pair" && p.size() == 3 && number(p[1], 4294967295u) && number(p[2], 4294967295u)) return "pair " + n(p[1]) + " " + n(p[2]);
    if (p[0] == "one" && p.size() == 2 && number(p[1], 65535)) return "one " + n(p[1]);
    if (p[0] == "name" && p.size() == 2) return "name " + p[1];
    if (p[0] == "m" && p.size() == 4 && number(p[2], 4294967295u)) return "mixed " + p[1] + " " + n(p[2]) + " " + p[3];
    return no;
  }
  string word(Rng& r) { return r.from("abcXYZ019-_~", static_cast<std::uint64_t>(r.chance(1, 20) ? r.range(40, 3000) : r.range(1, 8))); }
  unsigned an_id(Rng& r) { switch (r.below(5)) { case 0: return 0; case 1: return 4294967295u; case 2: return static_cast<unsigned>(r.next()); default: return static_cast<unsigned>(r.range(1, 200)); } }
  string a_place(Rng& r)
  {
    switch (r.below(8))
    {
      case 0: return "/";
      case 1: return "/" + word(r);
      case 2: return "/pair/" + std::to_string(an_id(r)) + "/" + std::to_string(an_id(r));
      case 3: return "/one/" + std::to_string(r.chance(1, 3) ? 65530 + r.below(10) : an_id(r) % 65536);
      case 4: return "/name/" + word(r) + (r.chance(1, 5) ? "/" : "");
      case 5: return "/m/" + word(r) + "/" + std::to_string(an_id(r)) + "/" + word(r);
      case 6: { string s; for (int n = static_cast<int>(r.range(1, 14)); n-- > 0;) s += "/" + r.from("ab01", r.range(1, 3)); return s; }
      default: return "/root";
    }
  }
  string location() { return web::text("return window.location.pathname"); }

  void nav(Rng& r)
  {
    web::reset();
    int const before = web::entries();
    long alive = 0;
    for (int round = 0; round < 2; ++round)
    {
      if (round == 1) alive = low_memory::alive;
      {
        string const prefix = r.coin() ? string() : "/" + r.from("abc", r.range(1, 9)) + (r.chance(1, 4) ? "/" + r.from("xyz", r.range(1, 5)) : string());
        string const start = r.chance(1, 3) && !prefix.empty() ? string() : a_place(r);
        bool const outside = !prefix.empty() && r.chance(1, 8); // the page is first elsewhere
        string trace = "prefix '" + prefix + "' at " + start.substr(0, 40);
        web::text((prefix.empty() && r.coin() ? string("delete Module.NBDL_WEBUI_NAV_URI_PREFIX; ") : "Module.NBDL_WEBUI_NAV_URI_PREFIX = '" + prefix + "'; ") + "window.history.pushState(null, null, '" + (outside ? string("/") : prefix + start) + "'); return ''");
        std::vector<string> entries{start};
        std::size_t at = 0;
        { web::note n; seen() = {}; }
        {
          auto ctx = nbdl::make_unique_context<context_tag>();
          bool ok = true;
          auto const agrees = [&](string const& want, bool told)
          {
            string const l = location(), t = text_of(*ctx), x = route_of(*ctx);
            ok = web::check(l == prefix + want, "location", trace + ": " + l + " instead of " + prefix + want) && ok;
            ok = web::check(t == want, "text", trace + ": " + t + " instead of " + want) && ok;
            ok = web::check(x == parse(want), "route", trace + ": " + x + " instead of " + parse(want)) && ok;
            ok = web::check(web::text("return window.history.length") == std::to_string(entries.size()), "history", trace + ": " + web::text("return window.history.length") + " instead of " + std::to_string(entries.size())) && ok;
            if (told)
            {
              ok = web::check(seen().routes > 0 && seen().texts > 0, "told", trace + ": " + std::to_string(seen().routes) + " and " + std::to_string(seen().texts)) && ok;
              ok = web::check(seen().last_route == x && seen().last_text == t, "told-value", trace + ": " + seen().last_route + " and " + seen().last_text) && ok;
            }
            web::count("compared");
            web::distinct(x + t);
            return ok;
          };
          trace += " start";
          if (outside)
          {
            trace += " outside";
            web::check(text_of(*ctx).empty() && route_of(*ctx) == "not found", "outside", trace + ": " + text_of(*ctx));
            web::text("window.history.replaceState(null, null, '" + prefix + start + "'); window.onpopstate({type: 'popstate'}); return ''");
            web::count("outside");
          }
          agrees(start, false);
          for (int steps = static_cast<int>(r.range(1, 15)); steps-- > 0 && ok;)
          {
            { web::note n; seen() = {}; }
            string place;
            auto const send = [&](auto const& route)
            {
              web::count("routes sent");
              trace += " route " + place.substr(0, 40);
              nbdl::apply_message(*ctx, message::make_upstream_update(hana::make_tuple("nav_route"_s), message::no_uid, route));
            };
            auto const pushed = [&] { entries.resize(at + 1); entries.push_back(place); ++at; };
            switch (r.below(9))
            {
              case 0: place = "/root"; send("root"_s); pushed(); break;
              case 1: { pair_t x{an_id(r), an_id(r)}; place = "/pair/" + std::to_string(x.a) + "/" + std::to_string(x.b); send(x); pushed(); break; }
              case 2: { one_t x{static_cast<unsigned short>(an_id(r))}; place = "/one/" + std::to_string(x.a); send(x); pushed(); break; }
              case 3: { name_t x{word(r)}; place = "/name/" + x.s; send(x); pushed(); break; }
              case 4: { mixed_t x{word(r), an_id(r), word(r)}; place = "/m/" + x.s + "/" + std::to_string(x.n) + "/" + x.t; send(x); pushed(); break; }
              case 5: // no place is that route
                place = entries[at]; send(nbdl::webui::route_not_found{}); break;
              case 6: // a text
                place = a_place(r); trace += " text " + place.substr(0, 40);
                nbdl::apply_message(*ctx, message::make_upstream_update(hana::make_tuple("nav_route"_s, hana::type_c<nbdl::string>), message::no_uid, nbdl::string(place)));
                pushed(); web::count("texts sent"); break;
              case 7: // the browser goes elsewhere in its history
              {
                int const by = static_cast<int>(r.range(0, 6)) - 3;
                long const to = static_cast<long>(at) + by;
                bool const goes = by != 0 && to >= 0 && to < static_cast<long>(entries.size());
                if (goes) at = static_cast<std::size_t>(to);
                trace += " go " + std::to_string(by);
                web::text("window.history.go($0); return ''", by);
                if (goes) web::count("browser went");
                agrees(entries[at], goes);
                continue;
              }
              default: // the page goes elsewhere, and says so
                place = a_place(r); trace += " page " + place.substr(0, 40);
                web::text("window.history.pushState(null, null, '" + prefix + place + "'); window.onpopstate({type: 'popstate'}); return ''");
                pushed(); web::count("browser went"); break;
            }
            agrees(place, true);
          }
          if (!ok) return;
          if (r.chance(1, 50)) web::sample(trace);
        }
        web::check(web::entries() == before, "kept", trace + ": " + std::to_string(web::entries() - before) + " JavaScript values");
        EM_ASM({ window.reset(); });
        { web::note n; seen() = {}; }
      }
      long const now = low_memory::alive;
      if (round == 1) web::check(now == alive, "memory-kept", std::to_string(now - alive) + " allocations");
    }
    web::check_memory();
  }
}
VMON_MODE("nav", c36::nav, "compared", "routes sent", "texts sent", "browser went", "outside")
WEB_MAIN
