// C31: web routes and their paths.  Oracle: split the text at '/' and read every segment by hand.
#include "vmon.hpp"
#include <boost/hana.hpp>
namespace hana = boost::hana;
#include <limits>
#include <optional>
#include <memory>
#include <nbdl/entity.hpp>
#include <nbdl/string.hpp>
#include <nbdl/match.hpp>
#include <nbdl/webui/route_map.hpp>
#include <nbdl/webui/set_route.hpp>

using vmon::Rng;

namespace
{
  struct num { std::size_t id; };
  struct text { nbdl::string name; };
  struct both { std::size_t id; nbdl::string name; };
  struct both_r { nbdl::string name; std::size_t id; };
  struct narrow { std::uint8_t a; int b; std::uint16_t c; std::int64_t d; bool e; };
  struct bare { };
  struct nine { nbdl::string a, b, c, d; unsigned e; nbdl::string f, g, h; std::size_t i; };
  struct ten { nbdl::string a, b, c, d; unsigned e; nbdl::string f, g, h; std::size_t i; nbdl::string j; };
}
namespace nbdl
{
  NBDL_ENTITY(num, id);
  NBDL_ENTITY(text, name);
  NBDL_ENTITY(both, id, name);
  NBDL_ENTITY(both_r, name, id);
  NBDL_ENTITY(narrow, a, b, c, d, e);
  NBDL_EMPTY(bare);
  NBDL_ENTITY(nine, a, b, c, d, e, f, g, h, i);
  NBDL_ENTITY(ten, a, b, c, d, e, f, g, h, i, j);
}

namespace
{
  constexpr hana::string<> root_s{};
  constexpr hana::string<'n','u','m'> num_s{};
  constexpr hana::string<'n','u'> nu_s{};
  constexpr hana::string<'n','u','m','b','e','r'> number_s{};
  constexpr hana::string<'a','-','b'> ab_s{};
  constexpr hana::string<'t'> t_s{};
  constexpr hana::string<'n','i','n','e'> nine_s{};
  constexpr hana::string<'t','e','n'> ten_s{};
  constexpr hana::string<'n','a','r'> nar_s{};
  constexpr hana::string<'0'> zero_s{};
  constexpr hana::string<'a','b','o','u','t'> about_s{};

  using nbdl::webui::route_pair;

  constexpr auto full = nbdl::webui::make_route_map(
      route_pair<>(root_s), route_pair<num>(num_s), route_pair<text>(nu_s), route_pair<both>(number_s), route_pair<both_r>(ab_s),
      route_pair<bare>(t_s), route_pair<nine>(nine_s), route_pair<ten>(ten_s), route_pair<narrow>(nar_s), route_pair<>(about_s));
  // no route at the root; names which are digits; another order
  constexpr auto rootless = nbdl::webui::make_route_map(
      route_pair<bare>(zero_s), route_pair<both>(num_s), route_pair<>(about_s), route_pair<text>(number_s));
  constexpr auto single = nbdl::webui::make_route_map(route_pair<num>(t_s));

  // ---- what a route says, independent of nbdl: its name and its parameters in order ----
  struct Par { bool numeric; std::string text; std::string lo; unsigned long long max; };
  struct Route { std::string name; std::vector<Par> pars; };

  template <typename T> Par par_of(T const& t)
  {
    if constexpr (std::is_integral_v<T>) return {true, std::to_string(+t), "", static_cast<unsigned long long>(std::numeric_limits<T>::max())};
    else return {false, std::string(t.data(), t.size()), "", 0};
  }
  template <typename ...T> std::vector<Par> pars(T const& ...t) { return {par_of(t)...}; }

  std::vector<Par> parts(num const& x) { return pars(x.id); }
  std::vector<Par> parts(text const& x) { return pars(x.name); }
  std::vector<Par> parts(both const& x) { return pars(x.id, x.name); }
  std::vector<Par> parts(both_r const& x) { return pars(x.name, x.id); }
  std::vector<Par> parts(narrow const& x) { return pars(x.a, x.b, x.c, x.d, x.e); }
  std::vector<Par> parts(bare const&) { return {}; }
  std::vector<Par> parts(nine const& x) { return pars(x.a, x.b, x.c, x.d, x.e, x.f, x.g, x.h, x.i); }
  std::vector<Par> parts(ten const& x) { return pars(x.a, x.b, x.c, x.d, x.e, x.f, x.g, x.h, x.i, x.j); }
  template <char ...c> std::vector<Par> parts(hana::string<c...>) { return {}; }

  template <typename Name, typename T> struct Entry { using name = Name; using type = T; };
  template <typename Map> struct Table;
  template <typename ...N, typename ...T>
  struct Table<nbdl::webui::route_map<boost::mp11::mp_list<mpdef::pair<N, T>...>>>
  {
    static std::vector<Route> shapes()
    { return {Route{std::string(N{}.c_str(), hana::value(hana::length(N{}))), parts(T{})}...}; }

    template <typename X> static std::string name_of()
    {
      std::string r = "?";
      ((std::is_same_v<X, T> ? void(r = std::string(N{}.c_str(), hana::value(hana::length(N{})))) : void()), ...);
      return r;
    }
    template <typename F> static void nth(std::size_t i, F f)
    {
      std::size_t k = 0;
      ((k++ == i ? f(N{}, T{}) : void()), ...);
    }
    static constexpr std::size_t size = sizeof...(N);
  };

  std::string spell(std::optional<Route> const& r)
  {
    if (!r) return "not found";
    std::string s = "route '" + r->name + "'";
    for (auto& p : r->pars) s += " / " + vmon::show(p.text, 40);
    return s;
  }

  // what a variant holds, seen through match
  template <typename Map, typename V>
  std::optional<Route> seen(V const& v, std::string const& what)
  {
    std::optional<Route> r;
    unsigned calls = 0;
    nbdl::match(v, hana::overload_linearly(
      [&](nbdl::webui::route_not_found) { ++calls; },
      [&](auto const& x) { ++calls; r = Route{Table<Map>::template name_of<std::decay_t<decltype(x)>>(), parts(x)}; }));
    vmon::check(calls == 1, "match-once", what + ": " + std::to_string(calls) + " calls");
    return r;
  }

  // does `got` describe the text s in the map?  open: leading zeros and one trailing slash
  // behind parameters may be taken or refused
  struct Want { std::optional<Route> route; bool or_not_found = false; };

  Want reading(std::vector<Route> const& shapes, std::string const& s)
  {
    if (s.empty() || s[0] != '/') return {};
    std::vector<std::string> seg(1);
    for (std::size_t i = 1; i < s.size(); ++i) { if (s[i] == '/') seg.emplace_back(); else seg.back() += s[i]; }
    bool open = false;
    if (seg.size() > 1 && seg.back().empty()) { seg.pop_back(); open = seg.size() > 1; }
    else if (seg.size() == 1 && seg[0].empty() && s.size() > 1) return {};
    if (s != "/") for (auto& x : seg) if (x.empty()) return {};
    for (auto& sh : shapes)
    {
      if (sh.name != seg[0]) continue;
      if (sh.pars.size() + 1 != seg.size()) return {};
      Route out{sh.name, sh.pars};
      for (std::size_t i = 0; i < sh.pars.size(); ++i)
      {
        auto& t = seg[i + 1];
        auto& p = out.pars[i];
        if (!p.numeric) { p.text = t; continue; }
        unsigned __int128 v = 0;
        for (char c : t)
        {
          if (c < '0' || c > '9') return {};
          if (v <= p.max) v = v * 10 + unsigned(c - '0');
        }
        if (v == 0 || v > p.max) return {};
        if (t[0] == '0') open = true;
        p.text = std::to_string(static_cast<unsigned long long>(v));
      }
      return {out, open};
    }
    return {};
  }

  bool same(std::optional<Route> const& a, std::optional<Route> const& b)
  {
    if (!a || !b) return !a && !b;
    if (a->name != b->name || a->pars.size() != b->pars.size()) return false;
    for (std::size_t i = 0; i < a->pars.size(); ++i)
      if (a->pars[i].numeric != b->pars[i].numeric || a->pars[i].text != b->pars[i].text) return false;
    return true;
  }

  template <typename Map>
  std::optional<Route> read(Map const& map, std::string const& s)
  {
    // exact heap storage
    auto held = std::make_unique<nbdl::string>(s);
    held->shrink_to_fit();
    auto v = map.from_string(*held);
    vmon::check(*held == s, "text-unchanged", vmon::show(s));
    held.reset(); // what was read must not refer to the text
    return seen<Map>(v, "from_string '" + vmon::show(s) + "'");
  }

  template <typename Map>
  void judge(Map const& map, std::string const& s)
  {
    auto want = reading(Table<Map>::shapes(), s);
    auto got = read(map, s);
    bool ok = same(got, want.route) || (want.or_not_found && !got);
    vmon::check(ok, "reading", "'" + vmon::show(s) + "' read as " + spell(got) + ", it says " + spell(want.route));
    vmon::count(got ? "found" : "not_found");
    if (got && !got->pars.empty()) vmon::count("found_with_parameters");
    vmon::distinct(s);
    vmon::sample("'" + vmon::show(s, 60) + "' -> " + spell(got));
  }

  // ---- values ----
  nbdl::string some_text(Rng& r)
  {
    nbdl::string t;
    std::size_t n = r.chance(1, 12) ? r.below(300) : r.chance(1, 80) ? r.below(20000) : r.chance(1, 20) ? 0 : 1 + r.below(9);
    bool wild = r.chance(1, 4);
    while (t.size() < n)
    {
      char c = wild ? static_cast<char>(r.next()) : r.from("ab0129-%. ?#&=_~:+", 1)[0];
      if (c == '/' && !r.chance(1, 60)) continue;
      t += c;
    }
    return t;
  }
  template <typename T> T some_number(Rng& r)
  {
    using L = std::numeric_limits<T>;
    switch (r.below(8))
    {
      case 0: return L::max();
      case 1: return static_cast<T>(L::max() - T(r.below(3)));
      case 2: return static_cast<T>(1);
      case 3: return static_cast<T>(r.below(3));
      case 4: return static_cast<T>(r.next());
      default: return static_cast<T>(r.below(1000));
    }
  }
  template <typename T> void fill(Rng& r, T& x)
  { if constexpr (std::is_integral_v<T>) x = some_number<T>(r); else x = some_text(r); }

  void make(Rng& r, num& x) { fill(r, x.id); }
  void make(Rng& r, text& x) { fill(r, x.name); }
  void make(Rng& r, both& x) { fill(r, x.id); fill(r, x.name); }
  void make(Rng& r, both_r& x) { fill(r, x.id); fill(r, x.name); }
  void make(Rng& r, narrow& x) { fill(r, x.a); fill(r, x.b); fill(r, x.c); fill(r, x.d); fill(r, x.e); }
  void make(Rng&, bare&) { }
  void make(Rng& r, nine& x) { fill(r, x.a); fill(r, x.b); fill(r, x.c); fill(r, x.d); fill(r, x.e); fill(r, x.f); fill(r, x.g); fill(r, x.h); fill(r, x.i); }
  void make(Rng& r, ten& x) { fill(r, x.a); fill(r, x.b); fill(r, x.c); fill(r, x.d); fill(r, x.e); fill(r, x.f); fill(r, x.g); fill(r, x.h); fill(r, x.i); fill(r, x.j); }
  template <char ...c> void make(Rng&, hana::string<c...>&) { }

  // can a path carry it?
  bool carried(Route const& r)
  {
    for (auto& p : r.pars)
      if (p.numeric ? (p.text == "0" || p.text[0] == '-') : (p.text.empty() || p.text.find('/') != std::string::npos)) return false;
    return true;
  }

  std::string written(Route const& r)
  {
    std::string s = "/" + r.name;
    for (auto& p : r.pars) s += "/" + p.text;
    return s;
  }

  template <typename Map, typename F>
  void with_value(Rng& r, Map const&, F f)
  {
    Table<Map>::nth(r.below(Table<Map>::size), [&](auto name, auto value) { make(r, value); f(name, value); });
  }

  template <typename Map>
  void there_and_back_in(Rng& r, Map const& map)
  {
    with_value(r, map, [&](auto name, auto value)
    {
      Route want{std::string(name.c_str(), hana::value(hana::length(name))), parts(value)};
      auto const copy = value;
      nbdl::string s = r.coin() ? map.to_string(copy) : map.to_string(std::move(value));
      vmon::check(std::string_view(s) == written(want), "path-written", spell(want) + " written as '" + vmon::show(s) + "'");
      auto twice = map.to_string(copy);
      vmon::check(twice == s, "value-unchanged", spell(want) + " written again as '" + vmon::show(twice) + "'");
      vmon::distinct(s);
      if (carried(want))
      {
        auto got = read(map, s);
        vmon::check(same(got, want), "round-trip", spell(want) + " came back as " + spell(got));
        vmon::count("round_trips");
        if (want.pars.size() >= 9) vmon::count("long_routes");
      }
      else { judge(map, s); vmon::count("not_carried"); }
      auto v = map.to_variant(copy);
      vmon::check(same(seen<std::decay_t<Map>>(v, "to_variant"), want), "to-variant", spell(want));
      // set_route: one update upstream of the navigation route, carrying the route
      constexpr auto set_route = nbdl::webui::make_set_route(Map{});
      unsigned sent = 0;
      auto send = [&](auto&& m)
      {
        ++sent;
        using M = std::decay_t<decltype(m)>;
        static_assert(nbdl::message::is_update<M> && nbdl::message::is_upstream<M>);
        auto path = nbdl::message::get_path(m);
        vmon::check(hana::equal(path, nbdl::webui::nav_route_path), "set-route-path", "path of the update");
        vmon::check(same(seen<Map>(nbdl::message::get_payload(m), "set_route"), want), "set-route", spell(want) + " sent as " + spell(seen<Map>(nbdl::message::get_payload(m), "set_route")));
      };
      set_route(name)(send, copy);
      vmon::check(sent == 1, "set-route-once", std::to_string(sent));
      if (want.pars.empty())
      {
        sent = 0;
        set_route(name)(send);
        vmon::check(sent == 1, "set-route-once", std::to_string(sent));
      }
      static_assert(decltype(Map::get_type(name) == hana::typeid_(value))::value);
    });
  }

  void there_and_back(Rng& r)
  {
    switch (r.below(4))
    {
      case 0: there_and_back_in(r, rootless); break;
      case 1: there_and_back_in(r, single); break;
      default: there_and_back_in(r, full);
    }
  }

  // ---- any text ----
  std::string number_text(Rng& r)
  {
    static const std::vector<std::string> odd{"0", "00", "01", "+1", "-1", "1.0", "1e3", " 1", "1 ", "0x1", "255", "256", "65535", "65536", "65537",
      "2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "9223372036854775807", "9223372036854775808", "18446744073709551615",
      "18446744073709551616", "18446744073709551617", "18446744073709551626", "36893488147419103233", "340282366920938463463374607431768211457", "1:", "1/", "/1"};
    switch (r.below(4))
    {
      case 0: return r.coin() ? "1" : r.pick(odd);
      case 1: return r.from("0123456789", 1 + r.below(24));
      case 2: return std::to_string(r.below(100000));
      default: return std::to_string(r.next());
    }
  }

  template <typename Map>
  void text_for(Rng& r, Map const& map)
  {
    auto shapes = Table<Map>::shapes();
    std::string s = "/";
    auto& sh = shapes[r.below(shapes.size())];
    s += r.chance(1, 12) ? std::string(r.from("numbet-019", r.below(6))) : sh.name;
    std::size_t n = r.chance(1, 6) ? r.below(14) : sh.pars.size();
    for (std::size_t i = 0; i < n; ++i)
    {
      s += "/";
      bool numeric = i < sh.pars.size() ? sh.pars[i].numeric : r.coin();
      if (r.chance(1, 12)) numeric = !numeric;
      s += numeric ? number_text(r) : std::string(some_text(r));
    }
    if (r.chance(1, 8)) s += "/";
    if (r.chance(1, 20)) s += "/";
    unsigned edits = r.chance(1, 3) ? 1 + r.below(3) : 0;
    while (edits--)
    {
      std::size_t at = r.below(s.size() + 1);
      switch (r.below(5))
      {
        case 0: if (at < s.size()) s.erase(at, 1); break;
        case 1: s.insert(at, 1, '/'); break;
        case 2: s.resize(at); break;
        case 3: if (at < s.size()) s[at] = static_cast<char>(r.next()); break;
        default: s.insert(at, r.from("0/9a", 1 + r.below(3)));
      }
      if (s.empty()) break;
    }
    judge(map, s);
  }

  void any_text(Rng& r)
  {
    if (r.chance(1, 10))
    {
      std::string s = r.coin() ? r.bytes(r.below(40)) : r.from("/t1", r.below(30));
      judge(full, s); judge(rootless, s); judge(single, s);
      return;
    }
    switch (r.below(4))
    {
      case 0: text_for(r, rootless); break;
      case 1: text_for(r, single); break;
      default: text_for(r, full);
    }
  }

  // every text of up to six symbols of a small alphabet
  void small_texts(Rng&)
  {
    static const std::string alphabet = "/t10n";
    std::uint64_t k = vmon::st().index;
    std::size_t len = 0; std::uint64_t block = 1;
    while (k >= block) { k -= block; block *= alphabet.size(); ++len; }
    std::string s;
    for (std::size_t i = 0; i < len; ++i) { s += alphabet[k % alphabet.size()]; k /= alphabet.size(); }
    judge(full, s); judge(rootless, s); judge(single, s);
  }
}

VMON_MODE("there-and-back", there_and_back, "round_trips", "long_routes", "not_carried")
VMON_MODE("any-text", any_text, "found", "found_with_parameters", "not_found")
VMON_MODE("small-texts", small_texts)
VMON_MAIN
