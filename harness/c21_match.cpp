// C21: matching and path lookup against a walk of the same tree written out by hand.
#include "vmon.hpp"
#include <boost/hana.hpp>
#include <nbdl/apply_action.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/ext/std/unordered_map.hpp>
#include <nbdl/get.hpp>
#include <nbdl/get_path.hpp>
#include <nbdl/local_version.hpp>
#include <nbdl/map_store.hpp>
#include <nbdl/match.hpp>
#include <nbdl/match_path.hpp>
#include <nbdl/store_compose.hpp>
#include <nbdl/store_range.hpp>
#include <nbdl/strong_alias.hpp>
#include <nbdl/variant.hpp>
#include <deque>
#include <list>
namespace hana = boost::hana;
using namespace hana::literals;
using vmon::Rng;

namespace t
{
  struct first { std::string value; };
  struct last { std::string value; };
  struct person { hana::tuple<first, last> name; int age; nbdl::variant<int, std::string> score; };
  using friends_t = std::unordered_map<std::string, nbdl::optional<person>>;
  using rows_t = nbdl::map_store<int, nbdl::variant<int, person>>;
  struct account { std::string user; nbdl::optional<person> owner; nbdl::variant<int, std::string, person> alt; friends_t friends; rows_t rows; std::unordered_map<int, std::string> plain; };
  struct alias_map : nbdl::strong_alias<std::unordered_map<int, nbdl::optional<std::string>>>
  { using base = nbdl::strong_alias<std::unordered_map<int, nbdl::optional<std::string>>>; using base::base; };
}
namespace nbdl
{
  NBDL_ENTITY(t::person, name, age, score);
  NBDL_ENTITY(t::account, user, owner, alt, friends, rows, plain);
}
namespace
{
  auto const name_s = "name"_s; auto const age_s = "age"_s; auto const score_s = "score"_s;
  auto const user_s = "user"_s; auto const owner_s = "owner"_s; auto const alt_s = "alt"_s; auto const friends_s = "friends"_s; auto const rows_s = "rows"_s; auto const plain_s = "plain"_s;
  constexpr auto first_k = hana::type_c<t::first>; constexpr auto last_k = hana::type_c<t::last>;

  t::person make_person(Rng& r)
  {
    t::person p{hana::make_tuple(t::first{r.from("abc", r.below(30))}, t::last{r.from("abc", 2)}), static_cast<int>(r.below(9)), {}};
    switch (r.below(3)) { case 0: p.score = static_cast<int>(r.below(5)); break; case 1: p.score = std::string(r.below(20), 's'); break; default: break; }
    return p;
  }
  std::string const keys[] = {"a", "b", "c", "dddddddddddddddddddddddddddd", ""};
  t::account make_account(Rng& r)
  {
    t::account a{};
    a.user = r.from("xyz", r.below(30));
    if (r.coin()) a.owner = make_person(r);
    switch (r.below(4)) { case 0: a.alt = static_cast<int>(r.below(5)); break; case 1: a.alt = std::string("text"); break; case 2: a.alt = make_person(r); break; default: break; }
    for (auto& k : keys) if (r.coin()) { if (r.chance(1, 3)) a.friends[k] = nbdl::optional<t::person>{}; else a.friends[k] = make_person(r); }
    for (int i = 0; i < 4; ++i)
      switch (r.below(4)) { case 0: a.rows.map[i] = nbdl::variant<int, t::person>{}; break; case 1: a.rows.map[i] = i * 10; break; case 2: a.rows.map[i] = make_person(r); break; default: break; }
    for (int i = 0; i < 4; ++i) if (r.coin()) a.plain[i] = std::string(static_cast<std::size_t>(i) * 20, 'p');
    return a;
  }

  // what a handler was given
  struct seen { std::string type; void const* at; bool is_const; bool is_rvalue; };
  template <typename T> std::string type_name() { return typeid(T).name(); }
  struct recorder
  {
    std::vector<seen>& log;
    // a referenced value may be handed out as the reference it is held by
    template <typename T> void operator()(std::reference_wrapper<T> x) const { (*this)(x.get()); }
    template <typename T> void operator()(T&& x) const
    { log.push_back({type_name<std::decay_t<T>>(), static_cast<void const*>(std::addressof(x)), std::is_const_v<std::remove_reference_t<T>>, std::is_rvalue_reference_v<T&&>}); }
  };
  // the place a walk ends in; states without an address of their own have none
  struct place { std::string type; void const* at; };
  template <typename T> place here(T const& x) { return {type_name<T>(), static_cast<void const*>(std::addressof(x))}; }
  template <typename T> place state() { return {type_name<T>(), nullptr}; }
  template <typename ...T> place inside(std::variant<T...> const& v)
  { return std::visit([](auto const& x) { using X = std::decay_t<decltype(x)>; if constexpr (std::is_empty_v<X>) return state<X>(); else if constexpr (requires { x.value_; }) return inside(x.value_); else return here(x); }, v); }

  // one lookup: exactly one call, of the right type, with the very object
  template <typename Look> void expect(place want, char const* what, Look look, bool constness = false)
  {
    std::vector<seen> log;
    look(recorder{log});
    vmon::check(log.size() == 1, "calls", std::string(what) + ": " + std::to_string(log.size()));
    if (log.size() != 1) return;
    vmon::check(log[0].type == want.type, "type", std::string(what) + ": " + log[0].type + " for " + want.type);
    if (want.at) vmon::check(log[0].at == want.at, "copied", what);
    if (constness) vmon::check(log[0].is_const, "constness", what);
    vmon::count(want.at ? "values_reached" : "states_reached");
  }

  // lookups with typed handlers choose by the type of the value
  template <typename T> struct exact { int& n; void const*& at; template <typename X> auto operator()(X const& x) const -> std::enable_if_t<std::is_same_v<X, T>> { ++n; at = std::addressof(x); } };
  struct others { int& n; void const*& at; template <typename X> void operator()(X const& x) const { ++n; at = std::addressof(x); } };
  template <typename T, typename S, typename P> void typed(place want, char const* what, S&& s, P const& p)
  {
    int mine = 0, rest = 0; void const* at = nullptr; void const* other = nullptr;
    nbdl::match_path(std::forward<S>(s), p, exact<T>{mine, at}, others{rest, other});
    bool const is = want.type == type_name<T>();
    vmon::check(mine == is && rest == !is, "handler", std::string(what) + ": " + std::to_string(mine) + " and " + std::to_string(rest));
    if (want.at) vmon::check((is ? at : other) == want.at, "copied-typed", what);
    vmon::count("typed_lookups");
  }

  // a lookup by match_path on the lvalue, const lvalue and rvalue of a store
  template <typename S, typename P> void path(place want, char const* what, S& s, P const& p)
  {
    expect(want, what, [&](auto f) { nbdl::match_path(s, p, f); });
    expect(want, what, [&](auto f) { nbdl::match_path(std::as_const(s), p, f); }, want.at != nullptr);
    expect(want, what, [&](auto f) { nbdl::match_path(std::ref(s), p, f); });
    typed<int>(want, what, s, p); typed<std::string>(want, what, std::as_const(s), p); typed<nbdl::not_in_set>(want, what, s, p); typed<nbdl::nothing>(want, what, s, p);
    typed<t::last>(want, what, s, p);
    vmon::count("paths");
  }

  place person_name(t::person const& p) { return here(p.name); }
  template <typename V> place alt_person(V const& v, place (*in)(t::person const&))
  { return std::visit([&](auto const& x) { using X = std::decay_t<decltype(x)>; if constexpr (std::is_same_v<X, t::person>) return in(x); else if constexpr (requires { x.value_; }) return alt_person(x, in); else if constexpr (std::is_empty_v<X>) return state<X>(); else return here(x); }, v.value_); }
  place in_first(t::person const& p) { return here(hana::at_c<0>(p.name)); }
  place in_last(t::person const& p) { return here(hana::at_c<1>(p.name)); }
  place in_age(t::person const& p) { return here(p.age); }
  place in_score(t::person const& p) { return inside(p.score.value_); }

  void trees(Rng& r)
  {
    t::account a = make_account(r);
    std::string const key = r.pick(std::vector<std::string>(std::begin(keys), std::end(keys)));
    int const row = static_cast<int>(r.below(5));
    std::string what;
    path(here(a.user), "user", a, hana::make_tuple(user_s));
    path(alt_person(a.owner, [](t::person const& p) { return here(p); }), "owner", a, hana::make_tuple(owner_s));
    path(alt_person(a.owner, person_name), "owner/name", a, hana::make_tuple(owner_s, name_s));
    path(alt_person(a.owner, in_first), "owner/name/first", a, hana::make_tuple(owner_s, name_s, first_k));
    path(alt_person(a.owner, in_last), "owner/name/last", a, hana::make_tuple(owner_s, name_s, last_k));
    path(alt_person(a.owner, in_age), "owner/age", a, hana::make_tuple(owner_s, age_s));
    path(alt_person(a.owner, in_score), "owner/score", a, hana::make_tuple(owner_s, score_s));
    path(alt_person(a.alt, [](t::person const& p) { return here(p); }), "alt", a, hana::make_tuple(alt_s));
    path(alt_person(a.alt, in_last), "alt/name/last", a, hana::make_tuple(alt_s, name_s, last_k));
    path(alt_person(a.alt, in_score), "alt/score", a, hana::make_tuple(alt_s, score_s));
    auto f = a.friends.find(key);
    auto fr = [&](place (*in)(t::person const&)) { return f == a.friends.end() ? state<nbdl::not_in_set>() : alt_person(f->second, in); };
    path(fr([](t::person const& p) { return here(p); }), "friends/key", a, hana::make_tuple(friends_s, key));
    path(fr(in_last), "friends/key/name/last", a, hana::make_tuple(friends_s, key, name_s, last_k));
    path(fr(in_age), "friends/key/age", a, hana::make_tuple(friends_s, key, age_s));
    path(fr(in_score), "friends/key/score", a, hana::make_tuple(friends_s, key, score_s));
    auto q = a.rows.map.find(row);
    auto rw = [&](place (*in)(t::person const&)) { return q == a.rows.map.end() ? state<nbdl::trigger_read>() : alt_person(q->second, in); };
    path(rw([](t::person const& p) { return here(p); }), "rows/key", a, hana::make_tuple(rows_s, row));
    path(rw(in_first), "rows/key/name/first", a, hana::make_tuple(rows_s, row, name_s, first_k));
    path(rw(in_score), "rows/key/score", a, hana::make_tuple(rows_s, row, score_s));
    auto w = a.plain.find(row);
    path(w == a.plain.end() ? state<nbdl::not_in_set>() : here(w->second), "plain/key", a, hana::make_tuple(plain_s, row));
    // nothing was changed and nothing was added by looking
    vmon::check((a.friends.find(key) == a.friends.end()) == (f == a.friends.end()) && (a.rows.map.find(row) == a.rows.map.end()) == (q == a.rows.map.end()), "grew", "");
    // get_path gives references
    vmon::check(&nbdl::get_path(a, hana::make_tuple(user_s)) == &a.user, "get-path", "user");
    vmon::check(&nbdl::get_path(std::as_const(a), hana::make_tuple(user_s)) == &a.user, "get-path", "const user");
    vmon::check(&nbdl::get_path(a, hana::make_tuple()) == &a, "get-path", "empty");
    t::person p = make_person(r);
    vmon::check(&nbdl::get_path(p, hana::make_tuple(name_s, last_k)) == &hana::at_c<1>(p.name), "get-path", "name/last");
    vmon::check(&nbdl::get_path(std::ref(p), hana::make_tuple(name_s, first_k)) == &hana::at_c<0>(p.name), "get-path", "ref/name/first");
    // the empty path is the thing itself
    path(here(a), "empty", a, hana::make_tuple());
    path(alt_person(a.owner, [](t::person const& x) { return here(x); }), "empty of an optional", a.owner, hana::make_tuple());
    vmon::distinct(key + std::to_string(row) + a.user + std::to_string(a.alt.get_type_id()) + std::to_string(a.owner.get_type_id()) + std::to_string(a.friends.size()) + std::to_string(a.rows.map.size()));
  }

  void combinators(Rng& r)
  {
    // maps, pairs and tuples known at compile time
    auto m = hana::make_map(hana::make_pair("one"_s, std::string(r.below(40), 'o')), hana::make_pair("two"_s, make_person(r))
      , hana::make_pair("sub"_s, hana::make_map(hana::make_pair("x"_s, static_cast<int>(r.below(9))), hana::make_pair("y"_s, make_account(r)))));
    auto pr = hana::make_pair(t::first{"f"}, t::last{std::string(30, 'l')});
    auto& sub = m["sub"_s];
    path(here(m["one"_s]), "map/one", m, hana::make_tuple("one"_s));
    path(here(m["two"_s].age), "map/two/age", m, hana::make_tuple("two"_s, age_s));
    path(here(sub["x"_s]), "map/sub/x", m, hana::make_tuple("sub"_s, "x"_s));
    path(alt_person(sub["y"_s].owner, in_last), "map/sub/y/owner/name/last", m, hana::make_tuple("sub"_s, "y"_s, owner_s, name_s, last_k));
    path(here(hana::first(pr)), "pair/first", pr, hana::make_tuple(hana::first));
    path(here(hana::second(pr)), "pair/second", pr, hana::make_tuple(hana::second));
    // as rvalues the very same objects are handed out, movable
    {
      std::vector<seen> log;
      nbdl::match(std::move(pr), hana::second, recorder{log});
      vmon::check(log.size() == 1 && log[0].at == &hana::second(pr) && log[0].is_rvalue, "rvalue", "pair");
      log.clear(); nbdl::match(std::move(m), "one"_s, recorder{log});
      vmon::check(log.size() == 1 && log[0].at == &m["one"_s] && log[0].is_rvalue, "rvalue", "map");
    }
    // aliases
    t::alias_map al; int const k = static_cast<int>(r.below(4));
    auto& inner = al.nbdl_get_strong_alias_value();
    for (int i = 0; i < 4; ++i) if (r.coin()) { if (r.coin()) inner[i] = std::string(30, 'x'); else inner[i] = nbdl::optional<std::string>{}; }
    auto it = inner.find(k);
    path(it == inner.end() ? state<nbdl::not_in_set>() : inside(it->second.value_), "alias/key", al, hana::make_tuple(k));
    vmon::count("combinator_trees");
    vmon::distinct(m["one"_s] + std::to_string(k) + std::to_string(inner.size()) + std::to_string(sub["x"_s]) + m["two"_s].name[hana::size_c<0>].value);
  }

  void composed(Rng& r)
  {
    struct ka { }; struct kb { }; struct kc { }; struct kd { };
    constexpr hana::type<ka> a{}; constexpr hana::type<kb> b{}; constexpr hana::type<kc> c{};
    using amap = std::unordered_map<int, nbdl::optional<std::string>>;
    auto fill = [&](amap& m) { for (int i = 0; i < 4; ++i) if (r.coin()) { if (r.coin()) m[i] = std::string(static_cast<std::size_t>(i) * 9, 'z'); else m[i] = nbdl::optional<std::string>{}; } };
    amap base; fill(base);
    std::string outer(r.below(40), 'q'); int number = static_cast<int>(r.below(100));
    nbdl::variant<int, std::string> v; if (r.coin()) v = 4; else if (r.coin()) v = std::string("vv");
    t::person p = make_person(r);
    // values by copy, by reference, a store, and one key twice: the outer one hides the inner one
    auto st = nbdl::store_compose(a, std::string("over"), nbdl::store_compose(b, std::ref(v), nbdl::store_compose(c, std::ref(p), nbdl::store_compose(a, number, base))));
    amap const& kept = st.left.left.left.left;
    for (int step = 0; step < 6; ++step)
    {
      int const k = static_cast<int>(r.below(5));
      switch (r.below(5))
      {
        case 0: { std::string n = r.from("mn", r.below(30)); bool got = nbdl::apply_action(st, nbdl::store_composite_action(a, n)); vmon::check(got && st.right == n && st.left.left.left.right == number, "action", "own key"); outer = n; break; }
        case 1: { int n = static_cast<int>(r.below(9)); nbdl::apply_action(st, nbdl::store_composite_action(b, [&](auto& x) { x = n; })); vmon::check(v.is<int>(), "action", "referenced"); break; }
        case 2: { nbdl::apply_action(st, nbdl::store_composite_action(c, [&](t::person& x) { ++x.age; })); break; }
        case 3: { nbdl::apply_action(st, [&](amap& m) { m[k] = std::string("set"); }); base[k] = std::string("set"); break; }
        default: break;
      }
      auto it = kept.find(k);
      auto all = [&](auto& s, char const* how)
      {
        expect(here(st.right), how, [&](auto f) { nbdl::match(s, a, f); });
        expect(inside(v.value_), how, [&](auto f) { nbdl::match(s, b, f); });
        expect(here(p), how, [&](auto f) { nbdl::match(s, c, f); });
        expect(it == kept.end() ? state<nbdl::not_in_set>() : inside(it->second.value_), how, [&](auto f) { nbdl::match(s, k, f); });
        expect(here(hana::at_c<1>(p.name)), how, [&](auto f) { nbdl::match_path(s, hana::make_tuple(c, name_s, last_k), f); });
        expect(inside(p.score.value_), how, [&](auto f) { nbdl::match_path(s, hana::make_tuple(c, score_s), f); });
        expect(it == kept.end() ? state<nbdl::not_in_set>() : inside(it->second.value_), how, [&](auto f) { nbdl::match_path(s, hana::make_tuple(k), f); });
        expect(inside(v.value_), how, [&](auto f) { nbdl::match_path(s, hana::make_tuple(b), f); });
      };
      all(st, "composed"); all(std::as_const(st), "const composed");
      vmon::check(kept.size() == base.size(), "grew", "composed");
      vmon::count("composed_steps");
    }
    vmon::distinct(outer + std::to_string(number) + std::to_string(base.size()) + std::to_string(p.age) + std::to_string(v.get_type_id()));
  }

  template <typename C> void ranges(Rng& r, C c)
  {
    struct kr { };
    constexpr hana::type<kr> key{};
    std::unordered_map<int, std::string> other;
    for (int i = 0; i < 4; ++i) if (r.coin()) other[i] = std::string(static_cast<std::size_t>(i) + 1, 'o');
    auto range = nbdl::store_range(key, c, std::ref(other));
    std::size_t at = 0;
    auto want = c.begin();
    for (auto&& el : range)
    {
      vmon::check(want != c.end(), "range-too-long", "");
      if (want == c.end()) return;
      using V = typename C::value_type;
      place w;
      if constexpr (requires { want->value_; }) w = inside(want->value_); else w = here(*want);
      expect(w, "element", [&](auto f) { nbdl::match(el, key, f); });
      expect(w, "element by path", [&](auto f) { nbdl::match_path(el, hana::make_tuple(key), f); });
      int const k = static_cast<int>(r.below(5));
      auto it = other.find(k);
      expect(it == other.end() ? state<nbdl::not_in_set>() : here(it->second), "beside", [&](auto f) { nbdl::match(el, k, f); });
      if constexpr (requires { want->age; })
      {
        expect(here(hana::at_c<1>(want->name)), "in element", [&](auto f) { nbdl::match_path(el, hana::make_tuple(key, name_s, last_k), f); });
        int const before = want->age;
        if (r.coin()) { auto act = [](V& x) { ++x.age; }; nbdl::apply_action(el, nbdl::store_iterator_action<decltype(act)>{act}); vmon::check(want->age == before + 1, "range-action", ""); }
      }
      ++want; ++at;
      vmon::count("range_elements");
    }
    {
      auto const& fixed = range;
      std::size_t n = 0;
      auto w = c.begin();
      for (auto i = fixed.begin(); i != fixed.end(); ++i, ++w, ++n)
      {
        if (n >= c.size()) { vmon::check(false, "const-range-too-long", ""); return; }
        vmon::check(!(i == fixed.end()), "iterator-equality", "");
        place there;
        if constexpr (requires { w->value_; }) there = inside(w->value_); else there = here(*w);
        expect(there, "element of a const range", [&](auto f) { nbdl::match(*i, key, f); });
      }
      vmon::check(n == c.size(), "const-range-too-short", std::to_string(n) + " of " + std::to_string(c.size()));
      vmon::check(fixed.begin() == range.begin() && fixed.end() == range.end(), "const-range-ends", "");
    }
    vmon::check(want == c.end() && at == c.size(), "range-too-short", std::to_string(at) + " of " + std::to_string(c.size()));
    vmon::check(std::distance(c.begin(), c.end()) == static_cast<long>(at), "range-container", "");
    vmon::count("ranges");
    vmon::distinct(std::to_string(at) + typeid(C).name() + std::to_string(other.size()) + std::to_string(r.next()));
  }
  void range(Rng& r)
  {
    unsigned n = static_cast<unsigned>(r.chance(1, 200) ? 200 + r.below(200) : r.below(8));
    switch (r.below(3))
    {
      case 0: { std::vector<t::person> c; while (n--) c.push_back(make_person(r)); ranges(r, std::move(c)); break; }
      case 1: { std::list<nbdl::variant<int, std::string>> c; while (n--) { c.emplace_back(); if (r.coin()) c.back() = static_cast<int>(n); else if (r.coin()) c.back() = std::string(n, 'e'); } ranges(r, std::move(c)); break; }
      default: { std::deque<std::string> c; while (n--) c.push_back(r.from("ab", r.below(30))); ranges(r, std::move(c)); }
    }
  }

  // one handler of a set, chosen by the type of the value
  void visitors(Rng& r)
  {
    nbdl::variant<int, float, std::string, char> v;
    switch (r.below(5)) { case 0: v = 3; break; case 1: v = 1.5f; break; case 2: v = std::string(30, 's'); break; case 3: v = 'c'; break; default: break; }
    std::string log;
    auto by_map = nbdl::mapped_overload(hana::make_map(
        hana::make_pair(hana::type_c<int>, [&](auto const&) { log += "int "; }), hana::make_pair(hana::type_c<std::string>, [&](auto const&) { log += "string "; })
      , hana::make_pair(hana::type_c<double>, [&](auto const&) { log += "double "; })), [&](auto const&) { log += "other "; });
    std::string const want = v.is<int>() ? "int " : v.is<std::string>() ? "string " : "other ";
    nbdl::match(v, by_map); vmon::check(log == want, "mapped", log); log.clear();
    nbdl::match(std::as_const(v), by_map); vmon::check(log == want, "mapped", log); log.clear();
    auto m = hana::make_map(hana::make_pair("v"_s, v), hana::make_pair("i"_s, 7));
    nbdl::match_path(m, hana::make_tuple("v"_s), by_map); vmon::check(log == want, "mapped-path", log); log.clear();
    nbdl::match(m, "i"_s, by_map); vmon::check(log == "int ", "mapped-key", log); log.clear();
    auto when = [&](auto type, bool is)
    {
      using T = typename decltype(type)::type;
      int n = 0; void const* at = nullptr;
      auto f = [&](T const& x) { ++n; at = std::addressof(x); };
      nbdl::match(v, nbdl::match_when<T>(f));
      vmon::check(n == is && (!is || at == inside(v.value_).at), "when", type_name<T>() + std::to_string(n));
      n = 0; nbdl::match_when<T>(v, f); vmon::check(n == is && (!is || at == inside(v.value_).at), "when-direct", type_name<T>() + std::to_string(n));
      n = 0; nbdl::match_path(m, hana::make_tuple("v"_s), nbdl::match_when<T>(f)); vmon::check(n == is, "when-path", type_name<T>() + std::to_string(n));
    };
    when(hana::type_c<int>, v.is<int>()); when(hana::type_c<float>, v.is<float>()); when(hana::type_c<std::string>, v.is<std::string>()); when(hana::type_c<char>, v.is<char>());
    when(hana::type_c<double>, false);
    // any value at all is matched as itself
    { std::string s(40, 'k'); expect(here(s), "plain", [&](auto f) { nbdl::match(s, f); }); expect(here(s), "plain path", [&](auto f) { nbdl::match_path(s, hana::make_tuple(), f); });
      std::vector<seen> l; nbdl::match(std::move(s), recorder{l}); vmon::check(l.size() == 1 && l[0].is_rvalue && l[0].at == &s, "plain-rvalue", ""); }
    // a local version is matched through its value
    { nbdl::local_version<t::person> lv(make_person(r)); path(here(hana::at_c<1>(lv.value.name)), "local/name/last", lv, hana::make_tuple(name_s, last_k)); path(inside(lv.value.score.value_), "local/score", lv, hana::make_tuple(score_s)); expect(here(lv.value), "local", [&](auto f) { nbdl::match(lv, f); }); }
    vmon::count("visitor_sets");
    vmon::distinct(want + std::to_string(v.get_type_id()) + std::to_string(r.below(1000)));
  }
}
VMON_MODE("trees", trees, "paths", "values_reached", "states_reached", "typed_lookups")
VMON_MODE("combinators", combinators, "combinator_trees")
VMON_MODE("composed", composed, "composed_steps")
VMON_MODE("ranges", range, "ranges", "range_elements")
VMON_MODE("visitors", visitors, "visitor_sets")
VMON_MAIN
