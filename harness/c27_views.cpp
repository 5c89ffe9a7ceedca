// C27: path and parameter specifications, branches and parameter views select what the state
// calls for, again after every change of the state.
#include "vmon.hpp"
#include <boost/hana.hpp>
namespace hana = boost::hana;
#include <nbdl/catch.hpp>
#include <nbdl/detail/match_if.hpp>
#include <nbdl/detail/params_view.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/ext/std/unordered_map.hpp>
#include <nbdl/map_store.hpp>
#include <nbdl/match.hpp>
#include <nbdl/match_path.hpp>
#include <nbdl/path_promise.hpp>
#include <nbdl/pipe.hpp>
#include <nbdl/run_sync.hpp>
#include <nbdl/tap.hpp>
#include <nbdl/ui_helper/match_branch.hpp>
#include <nbdl/ui_helper/match_params_spec.hpp>
#include <nbdl/ui_helper/match_path_spec.hpp>
#include <nbdl/ui_spec.hpp>
#include <nbdl/variant.hpp>
#include <optional>

using vmon::Rng;
using namespace hana::literals;
namespace uh = nbdl::ui_helper;
namespace us = nbdl::ui_spec;

#ifndef VIEWS
#define VIEWS 24
#endif

namespace t
{
  struct person { std::string name; int age; nbdl::optional<std::string> nick; };
  struct profile { nbdl::variant<int, std::string, person> what; int level; };
  struct account { std::string user; nbdl::optional<profile> who; };
}
namespace nbdl
{
  NBDL_ENTITY(t::person, name, age, nick);
  NBDL_ENTITY(t::profile, what, level);
  NBDL_ENTITY(t::account, user, who);
}

namespace
{
  using t::person; using t::profile; using t::account;
  constexpr auto name_s = "name"_s; constexpr auto age_s = "age"_s; constexpr auto nick_s = "nick"_s;
  constexpr auto what_s = "what"_s; constexpr auto level_s = "level"_s; constexpr auto user_s = "user"_s; constexpr auto who_s = "who"_s;

  using counts_t = std::unordered_map<std::string, int>;
  using rows_t = nbdl::map_store<std::string, int>;
  auto make_store()
  {
    return hana::make_map(
      hana::make_pair(hana::int_c<0>, int{}),
      hana::make_pair(hana::int_c<1>, std::string{}),
      hana::make_pair(hana::int_c<2>, counts_t{}),
      hana::make_pair(hana::int_c<3>, nbdl::optional<person>{}),
      hana::make_pair(hana::int_c<4>, nbdl::variant<int, std::string, person>{}),
      hana::make_pair(hana::int_c<5>, rows_t{}),
      hana::make_pair(hana::int_c<6>, std::unordered_map<int, std::string>{}),
      hana::make_pair(hana::int_c<7>, account{}));
  }
  using store_t = decltype(make_store());

  // the same state, kept apart
  struct pers { std::string name; int age; std::optional<std::string> nick; };
  struct any_of_three { int kind = -1; int i = 0; std::string s; pers p; }; // -1 unresolved
  struct state
  {
    int n = 0;
    std::string key;
    std::map<std::string, int> counts;
    std::optional<pers> third;
    any_of_three fourth;
    std::map<std::string, int> rows;
    std::map<int, std::string> names;
    std::string user;
    std::optional<std::pair<any_of_three, int>> who;
  };

  std::string text(int x) { return "int:" + std::to_string(x); }
  std::string text(std::string const& s) { return "str:" + vmon::quote(s); }
  std::string text(pers const& p) { return "person:" + p.name + "," + std::to_string(p.age) + "," + (p.nick ? *p.nick : "-"); }
  std::string text(person const& p)
  {
    std::string nick;
    nbdl::match(p.nick, [&](auto const& x) { if constexpr (std::is_same_v<std::decay_t<decltype(x)>, std::string>) nick = x; else nick = "-"; });
    return "person:" + p.name + "," + std::to_string(p.age) + "," + nick;
  }
  std::string text(any_of_three const& x)
  { return x.kind < 0 ? "unresolved" : x.kind == 0 ? text(x.i) : x.kind == 1 ? text(x.s) : text(x.p); }
  std::string text(nbdl::nothing) { return "nothing"; }
  std::string text(nbdl::unresolved) { return "unresolved"; }
  std::string text(nbdl::not_in_set) { return "not_in_set"; }
  std::string text(nbdl::trigger_read) { return "trigger_read"; }
  std::string text(profile const& p)
  { std::string s; nbdl::match(p.what, [&](auto const& x) { s = text(x); }); return "profile:" + s + "," + std::to_string(p.level); }
  std::string text(account const&) { return "account"; }
  std::string text(store_t const&) { return "store"; }
  std::string text(counts_t const& m) { return "counts:" + std::to_string(m.size()); }
  template <int i> std::string text(hana::int_<i>) { return "const:" + std::to_string(i); }
  template <char ...c> std::string text(hana::string<c...>) { char s[] = {c..., '\0'}; return std::string("lit:") + s; }
  template <typename ...X> std::string text(hana::tuple<X...> const& x)
  { std::string s = "("; hana::for_each(x, [&](auto const& y) { s += text(y) + ";"; }); return s + ")"; }
  template <typename T> std::string text(std::reference_wrapper<T> x) { return text(x.get()); }

  std::string const words[] = {"", "a", "b", "az", "a long string which is not kept inside", "bz"};
  std::string word(Rng& r) { return words[r.below(std::size(words))]; }
  pers some_person(Rng& r) { return {word(r), static_cast<int>(r.below(4)), r.coin() ? std::optional<std::string>{word(r)} : std::nullopt}; }
  person real(pers const& p) { person x{p.name, p.age, {}}; if (p.nick) x.nick = *p.nick; return x; }
  any_of_three some_any(Rng& r)
  {
    any_of_three x; x.kind = static_cast<int>(r.range(-1, 2));
    if (x.kind == 0) x.i = static_cast<int>(r.below(4));
    if (x.kind == 1) x.s = word(r);
    if (x.kind == 2) x.p = some_person(r);
    return x;
  }
  nbdl::variant<int, std::string, person> real(any_of_three const& x)
  {
    nbdl::variant<int, std::string, person> v{};
    if (x.kind == 0) v = x.i;
    if (x.kind == 1) v = x.s;
    if (x.kind == 2) v = real(x.p);
    return v;
  }

  // changes both
  void change(Rng& r, store_t& st, state& m)
  {
    switch (r.below(9))
    {
    case 0: m.n = static_cast<int>(r.below(5)); st[hana::int_c<0>] = m.n; break;
    case 1: m.key = word(r); st[hana::int_c<1>] = m.key; break;
    case 2: { auto k = word(r); if (r.chance(1, 3)) { m.counts.erase(k); st[hana::int_c<2>].erase(k); } else { int v = static_cast<int>(r.below(9)); m.counts[k] = v; st[hana::int_c<2>][k] = v; } break; }
    case 3: if (r.chance(1, 3)) { m.third.reset(); st[hana::int_c<3>] = nbdl::nothing{}; } else { m.third = some_person(r); st[hana::int_c<3>] = real(*m.third); } break;
    case 4: m.fourth = some_any(r); st[hana::int_c<4>] = real(m.fourth); break;
    case 5: { auto k = word(r); if (r.chance(1, 3)) { m.rows.erase(k); st[hana::int_c<5>].map.erase(k); } else { int v = static_cast<int>(r.below(9)); m.rows[k] = v; st[hana::int_c<5>].map[k] = v; } break; }
    case 6: { int k = static_cast<int>(r.below(5)); if (r.chance(1, 3)) { m.names.erase(k); st[hana::int_c<6>].erase(k); } else { auto v = word(r); m.names[k] = v; st[hana::int_c<6>][k] = v; } break; }
    case 7: m.user = word(r); st[hana::int_c<7>].user = m.user; break;
    case 8:
      if (r.chance(1, 3)) { m.who.reset(); st[hana::int_c<7>].who = nbdl::nothing{}; }
      else { m.who = {some_any(r), static_cast<int>(r.below(4))}; st[hana::int_c<7>].who = profile{real(m.who->first), m.who->second}; }
      break;
    }
  }

#ifndef PART_VIEWS
  // ---- paths -----------------------------------------------------------------------------
  using maybe = std::optional<std::string>; // what the function is called with, if it is
  maybe yes(std::string s) { return s; }
  constexpr std::nullopt_t no = std::nullopt;
  constexpr auto append_z = [](std::string const& s) { return s + 'z'; };
  constexpr auto plus = [](int a, int b) { return a + b; };
  constexpr auto label = [](std::string const& a, int b, auto const& c) { return a + "/" + std::to_string(b) + "/" + text(c); };

  maybe lookup(std::map<std::string, int> const& m, std::string const& k) { auto i = m.find(k); return i == m.end() ? maybe(no) : yes(text(i->second)); }

  constexpr auto P0 = us::get(hana::int_c<0>);
  constexpr auto P1 = us::get(hana::int_c<1>);
  constexpr auto P2 = us::get(hana::int_c<2>, us::key_at(us::get(hana::int_c<1>)));
  constexpr auto P3 = us::get(hana::int_c<3>);
  constexpr auto P4 = us::get(hana::int_c<4>);
  constexpr auto P5 = us::get(hana::int_c<5>, us::key_at(us::get(hana::int_c<1>)));
  constexpr auto P6 = us::get(hana::int_c<6>, us::key_at(us::get(hana::int_c<0>)));
  constexpr auto P7 = us::get(hana::int_c<7>, who_s);
  constexpr auto PUser = us::get(hana::int_c<7>, user_s);
  constexpr auto PWhat = us::get(us::match_when<profile>(P7), what_s);
  constexpr auto PNick = us::get(us::match_when<person>(PWhat), nick_s);

  maybe third(state const& m) { return yes(m.third ? text(*m.third) : "nothing"); }
  maybe sixth(state const& m) { auto i = m.names.find(m.n); return yes(i == m.names.end() ? "not_in_set" : text(i->second)); }

  // index, path, what it should give
  template <typename F> void each_path(state const& m, F f)
  {
    auto nick = [&]() -> maybe { if (!m.who || m.who->first.kind != 2) return no; auto& p = m.who->first.p; return yes(p.nick ? text(*p.nick) : "nothing"); };
    f("get()", us::get(), yes("store"));
    f("path_t<>", us::path_t<>{}, yes("store"));
    f("get(0)", P0, yes(text(m.n)));
    f("get(1)", P1, yes(text(m.key)));
    f("get(2,key)", P2, yes(lookup(m.counts, m.key).value_or("not_in_set")));
    f("when<int>(get(2,key))", us::match_when<int>(P2), lookup(m.counts, m.key));
    f("when<not_in_set>(get(2,key))", us::match_when<nbdl::not_in_set>(P2), m.counts.count(m.key) ? maybe(no) : yes("not_in_set"));
    f("get(3)", P3, third(m));
    f("when<person>(get(3))", us::match_when<person>(P3), m.third ? third(m) : maybe(no));
    f("when<nothing>(get(3))", us::match_when<nbdl::nothing>(P3), m.third ? maybe(no) : yes("nothing"));
    f("when<int>(get(3))", us::match_when<int>(P3), no);
    f("when<person>(get(3)),name", us::get(us::match_when<person>(P3), name_s), m.third ? yes(text(m.third->name)) : maybe(no));
    f("when<person>(get(3)),age", us::get(us::match_when<person>(P3), age_s), m.third ? yes(text(m.third->age)) : maybe(no));
    f("when<person>(get(3)),nick", us::get(us::match_when<person>(P3), nick_s), m.third ? yes(m.third->nick ? text(*m.third->nick) : "nothing") : maybe(no));
    f("get(4)", P4, yes(text(m.fourth)));
    f("when<int>(get(4))", us::match_when<int>(P4), m.fourth.kind == 0 ? yes(text(m.fourth)) : maybe(no));
    f("when<string>(get(4))", us::match_when<std::string>(P4), m.fourth.kind == 1 ? yes(text(m.fourth)) : maybe(no));
    f("when<person>(get(4))", us::match_when<person>(P4), m.fourth.kind == 2 ? yes(text(m.fourth)) : maybe(no));
    f("when<unresolved>(get(4))", us::match_when<nbdl::unresolved>(P4), m.fourth.kind < 0 ? yes("unresolved") : maybe(no));
    f("when<int>(get(5,key))", us::match_when<int>(P5), lookup(m.rows, m.key));
    f("get(6,n)", P6, sixth(m));
    f("get(7,who)", P7, yes(m.who ? "profile:" + text(m.who->first) + "," + std::to_string(m.who->second) : "nothing"));
    f("when<profile>,what", PWhat, m.who ? yes(text(m.who->first)) : maybe(no));
    f("when<profile>,level", us::get(us::match_when<profile>(P7), level_s), m.who ? yes(text(m.who->second)) : maybe(no));
    f("when<person>,nick", PNick, nick());
    f("when<string>(nick)", us::match_when<std::string>(PNick), nick() && *nick() != "nothing" ? nick() : maybe(no));
    f("four nodes", us::path_t<us::match_type<std::string, decltype(hana::string_c<'n','i','c','k'>)>, us::match_type<person, decltype(hana::string_c<'w','h','a','t'>)>,
                                us::match_type<profile, decltype(hana::string_c<'w','h','o'>)>, us::get_t<hana::int_<7>>>{}, nick() && *nick() != "nothing" ? nick() : maybe(no));
    f("six nodes", us::path_t<us::get_t<>, us::match_type<std::string, decltype(hana::string_c<'n','i','c','k'>)>, us::get_t<>, us::match_type<person, decltype(hana::string_c<'w','h','a','t'>)>,
                                us::match_type<profile, decltype(hana::string_c<'w','h','o'>)>, us::get_t<hana::int_<7>>>{}, nick() && *nick() != "nothing" ? nick() : maybe(no));
    f("seven nodes", us::path_t<us::get_t<>, us::match_type<std::string, decltype(hana::string_c<'n','i','c','k'>)>, us::get_t<>, us::match_type<person, decltype(hana::string_c<'w','h','a','t'>)>,
                                us::match_type<profile, decltype(hana::string_c<'w','h','o'>)>, us::get_t<hana::int_<7>>, us::get_t<>>{}, nick() && *nick() != "nothing" ? nick() : maybe(no));
    f("get(2,apply(z)(get(1)))", us::match_when<int>(us::get(hana::int_c<2>, us::apply(append_z)(P1))), lookup(m.counts, m.key + "z"));
    f("get(2,apply(z)(when<string>(get(6,n))))", us::match_when<int>(us::get(hana::int_c<2>, us::apply(append_z)(us::match_when<std::string>(P6)))),
      m.names.count(m.n) ? lookup(m.counts, m.names.at(m.n) + "z") : maybe(no));
    f("get(2,key_at(user))", us::match_when<int>(us::get(hana::int_c<2>, us::key_at(PUser))), lookup(m.counts, m.user));
    f("get(6,apply(plus)(n,int 1))", us::get(hana::int_c<6>, us::apply(plus)(P0, hana::int_c<1>)),
      yes(m.names.count(m.n + 1) ? text(m.names.at(m.n + 1)) : "not_in_set"));
  }

  // the value at the end of a path, when it is one which lives in the store
  struct addresses { std::map<std::string, void const*> at; };
  addresses where(store_t const& st)
  {
    addresses a;
    a.at["get(0)"] = &st[hana::int_c<0>]; a.at["get(1)"] = &st[hana::int_c<1>];
    a.at["get()"] = a.at["path_t<>"] = &st;
    return a;
  }

  struct world { store_t st = make_store(); state m; };
  void some_world(Rng& r, world& w) { for (unsigned i = 0, n = r.below(40); i < n; ++i) change(r, w.st, w.m); }
  std::string summary(state const& m)
  {
    std::string s = "n=" + std::to_string(m.n) + " key=" + m.key + " third=" + *third(m) + " fourth=" + text(m.fourth) + " who=" + (m.who ? text(m.who->first) : "nothing") + " counts=";
    for (auto& [k, v] : m.counts) s += k + ":" + std::to_string(v) + ",";
    s += " names="; for (auto& [k, v] : m.names) s += std::to_string(k) + ":" + v + ",";
    return s;
  }

  void expect(std::string const& what, std::vector<std::string> const& got, maybe const& want, world const& w)
  {
    bool ok = want ? got.size() == 1 && got[0] == *want : got.empty();
    std::string g; for (auto& x : got) g += x + " and ";
    vmon::check(ok, "selected", what + " gave " + (got.empty() ? "nothing at all" : g) + (want ? " instead of " + *want : " instead of not being called") + " in " + summary(w.m));
    vmon::count(want ? "values selected" : "paths not there");
  }

  void paths(Rng& r)
  {
    world w; some_world(r, w);
    for (unsigned step = 0, steps = 1 + r.below(6); step < steps; ++step)
    {
      if (step) change(r, w.st, w.m);
      auto at = where(w.st);
      each_path(w.m, [&](char const* what, auto path, maybe const& want)
      {
        std::vector<std::string> got;
        void const* p = nullptr;
        uh::match_path_spec(w.st, path, [&](auto const& x) { got.push_back(text(x)); p = &x; });
        expect(std::string("path ") + what, got, want, w);
        if (at.at.count(what)) vmon::check(p == at.at[what], "address", std::string("path ") + what + " gave a copy");
      });
      // whether there is a value of a type
      vmon::check(uh::match_path_spec_predicate<person, us::path_t<us::get_t<hana::int_<3>>>>(w.st) == w.m.third.has_value(),
                  "predicate", "person at get(3) in " + summary(w.m));
      vmon::check(uh::match_path_spec_predicate<std::string, us::path_t<us::get_t<hana::int_<4>>>>(w.st) == (w.m.fourth.kind == 1), "predicate", "string at get(4) in " + summary(w.m));
      vmon::check(uh::match_path_spec_predicate<void, us::path_t<us::get_t<hana::int_<4>>>>(w.st), "predicate", "void");
      vmon::distinct(vmon::hash(summary(w.m)));
    }
    vmon::count("states", 1);
  }

  // ---- branches ----------------------------------------------------------------------------
  template <int i> struct is { template <typename T> bool operator()(T const& x) const { if constexpr (std::is_same_v<T, int>) return x == i; else return false; } };
  template <int i> struct below { template <typename T> bool operator()(T const& x) const { if constexpr (std::is_same_v<T, int>) return x < i; else return false; } };
  struct is_string { template <typename T> auto operator()(T const&) const { return hana::bool_c<std::is_same_v<T, std::string>>; } };
  struct empty_string { template <typename T> bool operator()(T const& x) const { if constexpr (std::is_same_v<T, std::string>) return x.empty(); else return false; } };

  constexpr auto B_type = us::match(P4, us::when<nbdl::unresolved>("none"_s), us::when<int>(P0), us::when<std::string>(P4), us::when<person>(us::get(us::match_when<person>(P4), name_s)));
  constexpr auto B_default = us::match(P4, us::when<std::string>("text"_s), us::when<>("other"_s), us::when<int>("never"_s));
  constexpr auto B_fn = us::match(P3, us::when<person>([](auto p) { return us::get(p, name_s); }), us::when<nbdl::nothing>("nobody"_s));
  constexpr auto B_if = us::match_if(P0, us::cond(us::equal(hana::int_c<2>), "two"_s), us::cond(below<2>{}, P1), us::cond(is<3>{}, us::match(P3, us::when<person>("p3"_s), us::when<>("n3"_s))),
                                     us::otherwise("many"_s));
  constexpr auto B_value = us::match_if(P4, us::cond(empty_string{}, "empty"_s), us::cond(below<1>{}, "small"_s), us::cond(is_string{}, P4), us::cond(is<1>{}, "one"_s), us::otherwise("rest"_s));
  constexpr auto B_text = us::match_if(P1, us::cond(us::equal("a"_s), "is a"_s), us::cond(us::equal("bz"_s), "is bz"_s), us::otherwise(P1));
  constexpr auto B_gone = us::match(PWhat, us::when<int>("int"_s), us::when<>(P0));
  constexpr auto B_gone_if = us::match_if(PWhat, us::cond(below<2>{}, "small"_s), us::otherwise("big"_s));

  struct choice { std::size_t index; std::string value; };
  using maybe_choice = std::optional<choice>;
  template <typename F> void each_branch(state const& m, F f)
  {
    auto& v = m.fourth;
    auto lit = [](char const* s) { return std::string("lit:") + s; };
    f("type", B_type, maybe_choice({static_cast<std::size_t>(v.kind + 1), v.kind < 0 ? lit("none") : v.kind == 0 ? text(m.n) : v.kind == 1 ? text(v) : text(v.p.name)}));
    f("default", B_default, maybe_choice({v.kind == 1 ? 0ul : 1ul, v.kind == 1 ? lit("text") : lit("other")}));
    f("function", B_fn, maybe_choice({m.third ? 0ul : 1ul, m.third ? text(m.third->name) : lit("nobody")}));
    f("if", B_if, maybe_choice(m.n == 2 ? choice{0, lit("two")} : m.n < 2 ? choice{1, text(m.key)} : m.n == 3 ? choice{2, m.third ? lit("p3") : lit("n3")} : choice{3, lit("many")}));
    f("value", B_value, maybe_choice(v.kind == 1 && v.s.empty() ? choice{0, lit("empty")} : v.kind == 0 && v.i < 1 ? choice{1, lit("small")} : v.kind == 1 ? choice{2, text(v)}
                                     : v.kind == 0 && v.i == 1 ? choice{3, lit("one")} : choice{4, lit("rest")}));
    f("text", B_text, maybe_choice(m.key == "a" ? choice{0, lit("is a")} : m.key == "bz" ? choice{1, lit("is bz")} : choice{2, text(m.key)}));
    f("gone", B_gone, !m.who ? maybe_choice() : maybe_choice(m.who->first.kind == 0 ? choice{0, lit("int")} : choice{1, text(m.n)}));
    f("gone_if", B_gone_if, !m.who ? maybe_choice() : maybe_choice(m.who->first.kind == 0 && m.who->first.i < 2 ? choice{0, lit("small")} : choice{1, lit("big")}));
  }

  void branches(Rng& r)
  {
    world w; some_world(r, w);
    for (unsigned step = 0, steps = 1 + r.below(6); step < steps; ++step)
    {
      if (step) change(r, w.st, w.m);
      each_branch(w.m, [&](char const* what, auto spec, maybe_choice const& want)
      {
        using Spec = decltype(spec);
        std::vector<std::size_t> got;
        uh::match_branch<Spec>(std::ref(w.st), [&](auto index, auto) { got.push_back(index); });
        auto say = [&](std::string how) { return std::string("branch ") + what + " " + how + " chose " + (got.empty() ? "none" : std::to_string(got[0])) + " of "
          + std::to_string(got.size()) + ", " + (want ? std::to_string(want->index) : "none") + " expected in " + summary(w.m); };
        vmon::check(want ? got.size() == 1 && got[0] == want->index : got.empty(), "branch", say("by state"));
        if (want)
        {
          auto index = uh::get_branch_index<Spec>(std::ref(w.st));
          vmon::check(index == want->index, "branch-index", say("asked for its index " + std::to_string(index)));
          got.clear();
          uh::match_branch<Spec>(index, [&](auto i, auto) { got.push_back(i); });
          vmon::check(got.size() == 1 && got[0] == index, "branch-at", say("by index"));
        }
        // as a parameter
        std::vector<std::string> values;
        uh::match_params_spec(std::ref(w.st), mpdef::make_list(hana::int_c<7>, spec, hana::int_c<8>), [&](auto const& a, auto const& x, auto const& b)
        { values.push_back(text(a) + " " + text(x) + " " + text(b)); });
        expect(std::string("parameter by branch ") + what, values, want ? yes("const:7 " + want->value + " const:8") : maybe(no), w);
        vmon::count(want ? "branches chosen" : "branches on nothing");
      });
      vmon::distinct(vmon::hash(summary(w.m)));
    }
  }

  // ---- parameters --------------------------------------------------------------------------
  void params(Rng& r)
  {
    world w; some_world(r, w);
    for (unsigned step = 0, steps = 1 + r.below(6); step < steps; ++step)
    {
      if (step) change(r, w.st, w.m);
      auto& m = w.m;
      auto run = [&](char const* what, auto spec, maybe const& want)
      {
        std::vector<std::string> got;
        uh::match_params_spec(std::ref(w.st), spec, [&](auto const& ...x) { std::string s; ((s += text(x) + " "), ...); got.push_back(s); });
        expect(std::string("parameters ") + what, got, want, w);
        vmon::count("parameter lists");
      };
      auto const key = text(m.key), n = text(m.n);
      run("none", mpdef::make_list(), yes(""));
      run("constants", mpdef::make_list(hana::int_c<1>, "x"_s, hana::int_c<3>), yes("const:1 lit:x const:3 "));
      run("paths", mpdef::make_list(P0, P1, P3, P4), yes(n + " " + key + " " + *third(m) + " " + text(m.fourth) + " "));
      run("paths with keys", mpdef::make_list(P6, hana::int_c<0>, P2, P0), yes(*sixth(m) + " const:0 " + lookup(m.counts, m.key).value_or("not_in_set") + " " + n + " "));
      run("a path that may not be there", mpdef::make_list(P0, us::get(us::match_when<person>(P3), name_s), P1), m.third ? yes(n + " " + text(m.third->name) + " " + key + " ") : maybe(no));
      run("two paths that may not be there", mpdef::make_list(us::match_when<std::string>(P4), us::match_when<person>(P3), P1),
          m.third && m.fourth.kind == 1 ? yes(text(m.fourth) + " " + *third(m) + " " + key + " ") : maybe(no));
      run("applied", mpdef::make_list(P0, us::apply(append_z)(P1), us::apply(plus)(P0, us::apply(plus)(P0, hana::int_c<5>)), P1),
          yes(n + " " + text(m.key + "z") + " " + text(m.n + m.n + 5) + " " + key + " "));
      run("applied to many", mpdef::make_list(us::apply(label)(P1, P0, P4), us::apply(label)(P1, hana::int_c<4>, us::apply(append_z)(P1))),
          yes(text(m.key + "/" + std::to_string(m.n) + "/" + text(m.fourth)) + " " + text(m.key + "/4/" + text(m.key + "z")) + " "));
      run("applied to a branch", mpdef::make_list(us::apply(label)(P1, P0, B_text), P0),
          yes(text(m.key + "/" + std::to_string(m.n) + "/" + (m.key == "a" ? "lit:is a" : m.key == "bz" ? "lit:is bz" : key)) + " " + n + " "));
      run("concatenated", mpdef::make_list(us::concat("a"_s, P0, us::concat(P1, "b"_s)), P0), yes("lit:a " + n + " " + key + " lit:b " + n + " "));
      run("branch to several", mpdef::make_list(P0, us::match(P3, us::when<person>(us::concat("p"_s, P1, P0)), us::when<>("none"_s)), P1),
          yes(n + " " + (m.third ? "lit:p " + key + " " + n : std::string("lit:none")) + " " + key + " "));

      // what they refer to is the state itself
      uh::match_params_spec(std::ref(w.st), mpdef::make_list(P0, hana::int_c<0>, P1), [&](auto const& a, auto, auto const& b)
      {
        void const* pa; void const* pb;
        if constexpr (requires { a.get(); }) pa = &a.get(); else pa = &a;
        if constexpr (requires { b.get(); }) pb = &b.get(); else pb = &b;
        vmon::check(pa == &w.st[hana::int_c<0>] && pb == &w.st[hana::int_c<1>], "address", "parameters were copied");
      });
      vmon::distinct(vmon::hash(summary(w.m)));
    }
  }

  // ---- promises of paths -------------------------------------------------------------------
  void promises(Rng& r)
  {
    world w; some_world(r, w);
    for (unsigned step = 0, steps = 1 + r.below(6); step < steps; ++step)
    {
      if (step) change(r, w.st, w.m);
      auto& m = w.m;
      auto run = [&](char const* what, auto path, bool resolved, std::string want)
      {
        std::vector<std::string> got;
        nbdl::run_sync(nbdl::pipe(
          nbdl::path_promise(path)
        , nbdl::tap([&](auto const& x) { got.push_back("resolved " + text(x)); })
        , nbdl::catch_([&](auto const& x) { got.push_back("rejected " + text(x)); })
        ), w.st);
        expect(std::string("promise of ") + what, got, yes((resolved ? "resolved " : "rejected ") + want), w);
        vmon::count("promises");
      };
      using namespace us;
      run("get(0)", path_t<get_t<hana::int_<0>>>{}, true, text(m.n));
      run("get(1)", path_t<get_t<hana::int_<1>>>{}, true, text(m.key));
      run("get(4)", path_t<get_t<hana::int_<4>>>{}, true, text(m.fourth));
      run("person at 3", path_t<match_type<person, hana::int_<3>>>{}, m.third.has_value(), *third(m));
      run("string at 4", path_t<match_type<std::string, hana::int_<4>>>{}, m.fourth.kind == 1, text(m.fourth));
      run("name of the person at 3", path_t<get_t<decltype("name"_s)>, match_type<person, hana::int_<3>>>{}, m.third.has_value(), m.third ? text(m.third->name) : "nothing");
      bool is_profile = m.who.has_value(), is_person = is_profile && m.who->first.kind == 2;
      run("person in the profile", path_t<match_type<person, decltype("what"_s)>, match_type<profile, hana::int_<7>, decltype("who"_s)>>{},
          is_person, is_profile ? text(m.who->first) : "nothing");
      run("nick in the profile", path_t<match_type<std::string, decltype("nick"_s)>, match_type<person, decltype("what"_s)>, match_type<profile, hana::int_<7>, decltype("who"_s)>>{},
          is_person && m.who->first.p.nick, !is_profile ? "nothing" : !is_person ? text(m.who->first) : m.who->first.p.nick ? text(*m.who->first.p.nick) : "nothing");
      run("nick in the profile in the account", path_t<match_type<std::string, decltype("nick"_s)>, match_type<person, decltype("what"_s)>, match_type<profile, decltype("who"_s)>, get_t<hana::int_<7>>>{},
          is_person && m.who->first.p.nick, !is_profile ? "nothing" : !is_person ? text(m.who->first) : m.who->first.p.nick ? text(*m.who->first.p.nick) : "nothing");
      vmon::distinct(vmon::hash(summary(w.m)));
    }
  }

#else
  // ---- predicates --------------------------------------------------------------------------
  struct asked { std::vector<int> log; std::vector<bool> answers; };
  asked& ask() { static thread_local asked a; return a; }
  template <int i> struct told { template <typename T> bool operator()(T const& x) const { ask().log.push_back(i); vmon::check(text(x) == "str:\"the value\"", "predicate-value", text(x)); return ask().answers[i]; } };
  template <int i, bool b> struct sure { template <typename T> auto operator()(T const&) const { return hana::bool_c<b>; } };

  template <typename ...Preds> void judge(Rng& r, mpdef::list<Preds...> preds, std::vector<int> kinds, char const* what)
  {
    // kinds: 0 asks, 1 surely not, 2 surely
    ask().answers.assign(kinds.size(), false); ask().log.clear();
    for (std::size_t i = 0; i < kinds.size(); ++i) ask().answers[i] = r.chance(1, static_cast<unsigned>(kinds.size()));
    std::size_t want = 0; std::vector<int> log;
    for (;; ++want)
    {
      if (kinds[want] == 0) { log.push_back(static_cast<int>(want)); if (ask().answers[want]) break; }
      if (kinds[want] == 2) break;
    }
    std::string value = "the value";
    auto got = nbdl::detail::match_if(preds, value);
    auto say = std::string("predicates ") + what + ": " + std::to_string(got) + " instead of " + std::to_string(want);
    vmon::check(static_cast<std::size_t>(got) == want, "match-if", say);
    vmon::check(ask().log == log, "match-if-asked", say + ": " + std::to_string(ask().log.size()) + " predicates asked instead of " + std::to_string(log.size()));
    ask().log.clear();
    std::vector<std::size_t> indices;
    nbdl::run_sync(nbdl::pipe(nbdl::detail::match_if_promise(preds), [&](auto index) { indices.push_back(index); }), value);
    vmon::check(indices.size() == 1 && indices[0] == want, "match-if-promise", say + " as a promise");
    vmon::check(ask().log == log, "match-if-asked", say + " as a promise: asked others");
    vmon::count("predicate lists");
    std::string d = what; for (bool b : ask().answers) d += b ? '1' : '0';
    vmon::distinct(vmon::hash(d));
  }
  void predicates(Rng& r)
  {
    judge(r, mpdef::list<sure<0, true>>{}, {2}, "a");
    judge(r, mpdef::list<told<0>, sure<1, true>>{}, {0, 2}, "b");
    judge(r, mpdef::list<told<0>, told<1>, told<2>, told<3>, told<4>, sure<5, true>>{}, {0, 0, 0, 0, 0, 2}, "c");
    judge(r, mpdef::list<sure<0, false>, told<1>, sure<2, false>, told<3>, sure<4, true>>{}, {1, 0, 1, 0, 2}, "d");
    judge(r, mpdef::list<told<0>, sure<1, false>, sure<2, true>, told<3>, sure<4, true>>{}, {0, 1, 2, 0, 2}, "e");
    judge(r, mpdef::list<told<0>, told<1>, told<2>, told<3>, told<4>, told<5>, told<6>, told<7>, told<8>, sure<9, true>>{}, {0, 0, 0, 0, 0, 0, 0, 0, 0, 2}, "f");
  }

  // ---- parameter views ---------------------------------------------------------------------
  std::vector<std::string> seen(auto const& view)
  {
    std::vector<std::string> v;
    hana::unpack(view, [&](auto const& ...x)
    {
      auto one = [&](auto const& y)
      {
        if constexpr (requires { y.get(); }) v.push_back(text(y.get()) + "@" + std::to_string(reinterpret_cast<std::uintptr_t>(&y.get())));
        else v.push_back(text(y));
      };
      (one(x), ...);
    });
    return v;
  }
  // the shape of a view is a number in base three: 0 a constant, 1 a reference to an int, 2 to a string
  constexpr unsigned pow3(int n) { return n == 0 ? 1 : 3 * pow3(n - 1); }
  template <unsigned code, int left, typename View>
  auto build(View const& v, int const* ints, std::string const* strings, std::vector<std::string>& want)
  {
    constexpr auto append = nbdl::detail::params_view_append;
    auto at = [](void const* p) { return "@" + std::to_string(reinterpret_cast<std::uintptr_t>(p)); };
    if constexpr (left == 0) return v;
    else if constexpr (code % 3 == 0) { want.push_back("const:" + std::to_string(left)); return build<code / 3, left - 1>(append(hana::int_c<left>, v), ints, strings, want); }
    else if constexpr (code % 3 == 1) { want.push_back(text(*ints) + at(ints)); return build<code / 3, left - 1>(append(std::cref(*ints), v), ints + 1, strings, want); }
    else { want.push_back(text(*strings) + at(strings)); return build<code / 3, left - 1>(append(std::cref(*strings), v), ints, strings + 1, want); }
  }
  template <unsigned a, int la, unsigned b, int lb>
  void one_view(Rng& r)
  {
    static thread_local int ints[16]; static thread_local std::string strings[16];
    for (auto& i : ints) i = static_cast<int>(r.below(1000));
    for (auto& s : strings) s = word(r);
    std::vector<std::string> want, more;
    auto va = build<a, la>(nbdl::detail::make_params_view(), ints, strings, want);
    auto vb = build<b, lb>(nbdl::detail::make_params_view(), ints + 8, strings + 8, more);
    auto what = "views " + std::to_string(a) + "/" + std::to_string(la) + " and " + std::to_string(b) + "/" + std::to_string(lb);
    vmon::check(seen(va) == want, "view", what + ": first");
    vmon::check(seen(vb) == more, "view", what + ": second");
    auto both = want; both.insert(both.end(), more.begin(), more.end());
    auto vc = nbdl::detail::params_view_concat(va, vb);
    vmon::check(seen(vc) == both, "view-concat", what);
    auto back = more; back.insert(back.end(), want.begin(), want.end());
    vmon::check(seen(nbdl::detail::params_view_concat(vb, va)) == back, "view-concat", what + " the other way");
    auto thrice = both; thrice.insert(thrice.end(), want.begin(), want.end());
    vmon::check(seen(nbdl::detail::params_view_concat(vc, va)) == thrice, "view-concat", what + " and the first again");
    thrice = both; thrice.push_back(text(ints[15]) + "@" + std::to_string(reinterpret_cast<std::uintptr_t>(&ints[15])));
    vmon::check(seen(nbdl::detail::params_view_append(std::cref(ints[15]), vc)) == thrice, "view-append", what + " appended to");
    // views refer: changes show
    for (auto& i : ints) ++i;
    std::vector<std::string> now; build<a, la>(nbdl::detail::make_params_view(), ints, strings, now);
    vmon::check(seen(va) == now, "view-change", what);
    vmon::count("views");
    vmon::distinct(vmon::hash(what));
  }
  constexpr std::uint64_t vmon_mix(std::uint64_t z)
  {
    z += 0x9e3779b97f4a7c15ULL; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return (z ^ (z >> 31)) % 100000000000ULL;
  }
  template <unsigned seed> void some_views(Rng& r)
  {
    constexpr auto h = vmon_mix(seed);
    one_view<h % 729, h / 1000 % 7, h / 10000 % 729, h / 100000000 % 7>(r);
  }

  template <unsigned ...i> void all_views(Rng& r, std::integer_sequence<unsigned, i...>) { (some_views<i>(r), ...); }
  void views(Rng& r)
  {
    one_view<0, 0, 0, 0>(r); one_view<0, 3, 0, 2>(r); one_view<4, 2, 0, 0>(r); one_view<0, 0, 5, 2>(r);
    all_views(r, std::make_integer_sequence<unsigned, VIEWS>{});
  }
#endif
}
#ifndef PART_VIEWS
VMON_MODE("paths", paths, "values selected", "paths not there")
VMON_MODE("branches", branches, "branches chosen", "branches on nothing")
VMON_MODE("params", params, "parameter lists", "paths not there")
VMON_MODE("promises", promises, "promises")
#else
VMON_MODE("predicates", predicates, "predicate lists")
VMON_MODE("views", views, "views")
#endif
VMON_MAIN
