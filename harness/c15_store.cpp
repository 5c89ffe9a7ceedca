// C15: keyed stores (map_store, basic_map_store, context_store) against a reference map.
#include "vmon.hpp"
#include <boost/hana.hpp>
#include <nbdl/apply_action.hpp>
#include <nbdl/apply_message.hpp>
#include <nbdl/context_store.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/map_store.hpp>
#include <nbdl/match.hpp>
#include <nbdl/message.hpp>
#include <nbdl/null_store.hpp>
#include <nbdl/uid.hpp>
#include <map>
#include <memory>
namespace hana = boost::hana;
namespace message = nbdl::message;
using vmon::Rng;

namespace t
{
  struct root { int id; };
  struct ent { int a; std::string b; };
  template <typename E> struct key { int value; key(int v = 0) : value(v) { } };
  struct skey { std::string name; int n; };
}
namespace boost::hana
{
  template <typename E>
  struct equal_impl<t::key<E>, t::key<E>>
  {
    template <typename A, typename B>
    static constexpr auto apply(A const& a, B const& b) { return a.value == b.value; }
  };
}
namespace nbdl
{
  NBDL_ENTITY(t::root, id);
  NBDL_ENTITY(t::ent, a, b);
  NBDL_ENTITY(t::skey, name, n);
  template <typename E>
  struct entity_members_impl<t::key<E>> { using type = mpdef::list<NBDL_MEMBER(&t::key<E>::value)>; };
}

namespace
{
  using Path = hana::tuple<t::key<t::root>, t::key<t::ent>>;
  std::string text(int n) { return "value-" + std::to_string(n) + std::string(static_cast<unsigned>(n) % 30, '.'); }
  t::ent value(int n) { return {n, text(n)}; }
  bool same(t::ent const& e, int n) { return e.a == n && e.b == text(n); }

  // ways to name the kinds of key
  template <typename K> struct mk;
  template <> struct mk<Path> { static Path at(int i, int j) { return Path(i, j); } };
  template <> struct mk<int> { static int at(int i, int j) { return i * 1000003 - j; } };
  template <> struct mk<std::string> { static std::string at(int i, int j) { return std::string(static_cast<unsigned>(i), 'a') + std::to_string(j); } };
  template <> struct mk<t::skey> { static t::skey at(int i, int j) { return {std::string(static_cast<unsigned>(j), 'z'), i}; } };

  enum { Absent, Unresolved, NotFound, Value };
  struct cell { int state = Absent; int n = 0; };

  struct seen { int calls = 0; int state = -1; int n = 0; bool ok = true; void const* where = nullptr; };
  template <typename Store, typename K>
  seen look(Store& s, K const& k)
  {
    seen r;
    nbdl::match(s, k, [&](auto&& v)
    {
      using V = std::decay_t<decltype(v)>;
      ++r.calls;
      if constexpr (std::is_same_v<V, nbdl::trigger_read>) r.state = Absent;
      else if constexpr (std::is_same_v<V, nbdl::not_in_set>) r.state = Absent;
      else if constexpr (std::is_same_v<V, nbdl::unresolved>) r.state = Unresolved;
      else if constexpr (std::is_same_v<V, nbdl::not_found>) r.state = NotFound;
      else { static_assert(std::is_same_v<V, t::ent>); r.state = Value; r.n = v.a; r.ok = same(v, v.a); r.where = &v; }
    });
    return r;
  }
  // which of the two absent tags the store uses
  template <typename Store, typename K>
  int absent_tag(Store& s, K const& k)
  {
    int tag = 0;
    nbdl::match(s, k, [&](auto const& v)
    {
      using V = std::decay_t<decltype(v)>;
      if constexpr (std::is_same_v<V, nbdl::trigger_read>) tag = 1;
      if constexpr (std::is_same_v<V, nbdl::not_in_set>) tag = 2;
    });
    return tag;
  }

  constexpr int NI = 3, NJ = 3;
  using Model = std::map<std::pair<int, int>, cell>;

  template <typename Store, typename K>
  void compare(Store& s, Model& m, char const* when)
  {
    std::size_t size = 0;
    for (int i = 0; i < NI; ++i) for (int j = 0; j < NJ; ++j)
    {
      cell const c = m.count({i, j}) ? m[{i, j}] : cell{};
      if (c.state != Absent) ++size;
      auto const a = look(s, mk<K>::at(i, j));
      auto const b = look(std::as_const(s), mk<K>::at(i, j));
      vmon::count("paths_compared");
      std::string const d = std::string(when) + ": path " + std::to_string(i) + "," + std::to_string(j) + " shows " + std::to_string(a.state) + "/" + std::to_string(a.n)
                          + ", expected " + std::to_string(c.state) + "/" + std::to_string(c.n);
      vmon::check(a.calls == 1 && b.calls == 1, "match-count", d);
      vmon::check(a.state == c.state && (c.state != Value || (a.n == c.n && a.ok)), "content", d);
      vmon::check(a.state == b.state && a.n == b.n && a.where == b.where, "match-repeat", d + "; the second match differs or copies");
      vmon::check(static_cast<int>(c.state == Absent) == (s.map.count(mk<K>::at(i, j)) == 0), "raw-content", d);
    }
    vmon::check(s.map.size() == size, "size", std::string(when) + ": " + std::to_string(s.map.size()) + " items for " + std::to_string(size));
  }

  // apply as an lvalue, a const lvalue or an rvalue; what is returned as a bool
  template <typename Store, typename M>
  bool send(Rng& r, Store& s, M m)
  {
    vmon::count("messages");
    switch (r.below(3))
    {
      case 0: return static_cast<bool>(nbdl::apply_message(s, m));
      case 1: return static_cast<bool>(nbdl::apply_message(s, std::as_const(m)));
      default: return static_cast<bool>(nbdl::apply_message(s, std::move(m)));
    }
  }
  template <typename F> void with_uid(Rng& r, F f)
  { if (r.coin()) f(message::no_uid); else f(static_cast<int>(r.below(100))); }
  template <typename F> void with_confirmed(Rng& r, F f)
  { switch (r.below(3)) { case 0: f(message::no_is_confirmed); break; case 1: f(true); break; default: f(false); } }

  template <typename Store, typename K, bool Reads>
  void history(Rng& r, Store s)
  {
    Model m;
    std::uint64_t h = 7;
    std::string log;
    unsigned steps = static_cast<unsigned>(r.range(3, 24));
    for (unsigned q = 0; q < steps; ++q)
    {
      int const i = static_cast<int>(r.below(NI)), j = static_cast<int>(r.below(NJ)), n = static_cast<int>(r.below(50));
      K const k = mk<K>::at(i, j);
      auto const p = std::make_pair(i, j);
      int const kind = static_cast<int>(r.below(12));
      bool expect = false, got = false, judged = true;
      switch (kind)
      {
        case 0: // upstream read leaves a placeholder where nothing is known
          if constexpr (Reads)
          {
            with_uid(r, [&](auto u) { got = send(r, s, message::make_upstream_read(k, u)); });
            if (!m.count(p)) m[p] = {Unresolved, 0};
          }
          break;
        case 1: with_uid(r, [&](auto u) { got = send(r, s, message::make_upstream_update(k, u, value(n))); }); break;
        case 2: with_uid(r, [&](auto u) { got = send(r, s, message::make_upstream_delete(k, u)); }); break;
        case 3: with_uid(r, [&](auto u) { got = send(r, s, message::make_upstream_create(k, u, value(n))); }); break;
        case 4: case 5:
          with_uid(r, [&](auto u) { with_confirmed(r, [&](auto c) { got = send(r, s, message::make_downstream_create(k, u, value(n), c)); }); });
          m[p] = {Value, n}; expect = true; break;
        case 6: case 7:
          with_uid(r, [&](auto u) { with_confirmed(r, [&](auto c) { got = send(r, s, message::make_downstream_update(k, u, value(n), c)); }); });
          m[p] = {Value, n}; expect = true; break;
        case 8:
          if constexpr (Reads)
          {
            if (r.chance(1, 4))
            {
              with_uid(r, [&](auto u) { got = send(r, s, message::make_downstream_read(k, u, nbdl::not_found{})); });
              if (!m.count(p) || m[p].state == Unresolved) { m[p] = {NotFound, 0}; expect = true; }
            }
            else
            {
              with_uid(r, [&](auto u) { got = send(r, s, message::make_downstream_read(k, u, value(n))); });
              if (!m.count(p) || m[p].state == Unresolved) { m[p] = {Value, n}; expect = true; }
            }
          }
          break;
        case 9: case 10:
          with_uid(r, [&](auto u) { with_confirmed(r, [&](auto c) { got = send(r, s, message::make_downstream_delete(k, u, c)); }); });
          judged = m.count(p) != 0; // deleting what is not there may or may not count as a change
          m.erase(p); expect = true; break;
        default: // raw access
          judged = false;
          if (r.coin()) { s.map[k] = value(n); m[p] = {Value, n}; }
          else { s.map.erase(k); m.erase(p); }
      }
      log += " " + std::to_string(kind) + "@" + std::to_string(i) + std::to_string(j);
      h = vmon::mix(h ^ static_cast<std::uint64_t>(((kind * 10 + i) * 10 + j) * 100 + n));
      if (judged) vmon::check(got == expect, expect ? "change-not-reported" : "change-reported", "message kind " + std::to_string(kind) + " after" + log);
      compare<Store, K>(s, m, log.c_str());
    }
    // copies are independent
    Store c = s;
    c.map.clear();
    compare<Store, K>(s, m, "after clearing a copy");
    if (vmon::want_sample()) vmon::sample(log);
    vmon::distinct(h);
  }

  void c15_map(Rng& r)
  {
    switch (r.below(3))
    {
      case 0: history<nbdl::map_store<Path, t::ent>, Path, true>(r, nbdl::make_store<nbdl::map_store_tag>(hana::type_c<Path>, hana::type_c<t::ent>)); break;
      case 1: history<nbdl::map_store<std::string, t::ent>, std::string, true>(r, {}); break;
      default: history<nbdl::map_store<t::skey, t::ent>, t::skey, true>(r, {}); break;
    }
    nbdl::map_store<Path, t::ent> e;
    vmon::check(absent_tag(e, Path(1, 2)) == 1, "absent-tag", "a path which was never set does not match trigger_read in a map_store");
  }
  void c15_basic(Rng& r)
  {
    switch (r.below(3))
    {
      case 0: history<nbdl::basic_map_store<int, t::ent>, int, false>(r, {}); break;
      case 1: history<nbdl::basic_map_store<Path, t::ent>, Path, false>(r, nbdl::make_store<nbdl::basic_map_store_tag>(hana::type_c<Path>, hana::type_c<t::ent>)); break;
      default: history<nbdl::basic_map_store<std::string, t::ent>, std::string, false>(r, {}); break;
    }
    nbdl::basic_map_store<int, t::ent> e;
    vmon::check(absent_tag(e, 3) == 2, "absent-tag", "a key which was never set does not match not_in_set in a basic_map_store");
  }

  // many items, so that the table is rehashed and its chains grow
  void c15_bulk(Rng& r)
  {
    nbdl::map_store<Path, t::ent> s;
    std::map<std::pair<int, int>, int> m;
    bool const large = r.chance(1, 20);
    unsigned n = static_cast<unsigned>(large ? r.range(4000, 16000) : r.range(50, 400));
    unsigned const side = large ? 150 : 40;
    for (unsigned q = 0; q < n; ++q)
    {
      int i = static_cast<int>(r.below(side)) - 20, j = static_cast<int>(r.below(side)) * 1000003;
      if (r.chance(1, 4)) { nbdl::apply_message(s, message::make_downstream_delete(Path(i, j), message::no_uid, true)); m.erase({i, j}); }
      else { nbdl::apply_message(s, message::make_downstream_update(Path(i, j), message::no_uid, value(static_cast<int>(q)), true)); m[{i, j}] = static_cast<int>(q); }
    }
    vmon::check(s.map.size() == m.size(), "bulk-size", std::to_string(s.map.size()) + " for " + std::to_string(m.size()));
    for (auto& [k, v] : m)
    {
      auto a = look(s, Path(k.first, k.second));
      vmon::check(a.calls == 1 && a.state == Value && a.n == v && a.ok, "bulk-content", std::to_string(k.first) + "," + std::to_string(k.second));
      auto b = look(s, Path(k.second == 0 ? 7777 : k.second, k.first));
      vmon::check(b.calls == 1 && b.state == Absent, "bulk-swapped", "a path with its keys swapped was found");
      vmon::count("bulk_lookups");
    }
    vmon::distinct(vmon::mix(n ^ (m.size() << 20)));
  }

  // single value stores
  struct Plain { int n = 0; std::string s; };
  void c15_single(Rng& r)
  {
    nbdl::context_store_t<t::ent> a; // assigned to
    nbdl::context_store_t<Plain> b;  // changed by actions
    nbdl::context_store_t<nbdl::basic_map_store<int, int>> c; // messages passed on
    nbdl::null_store none;
    a.store = value(0);
    int an = 0, bn = 0; std::map<int, int> cm;
    for (unsigned q = 0; q < 15; ++q)
    {
      int n = static_cast<int>(r.below(30));
      auto const k = hana::make_tuple();
      bool changed = false, got = false;
      switch (r.below(8))
      {
        case 0: got = send(r, a, message::make_upstream_update(k, message::no_uid, value(n))); break;
        case 1: got = send(r, a, message::make_downstream_delete(k, message::no_uid, true)); break;
        case 2: got = send(r, a, message::make_downstream_create(k, message::no_uid, value(n), true)); break;
        case 3: got = send(r, a, message::make_downstream_update(k, message::no_uid, value(n), message::no_is_confirmed)); an = n; changed = true; break;
        case 4: got = send(r, b, message::make_downstream_update(k, 5, [n](Plain& p) { p.n += n; p.s = text(p.n); }, true)); bn += n; changed = true; break;
        case 5: got = send(r, c, message::make_downstream_update(k, 5, message::make_downstream_update(n % 5, message::no_uid, n, true), true)); cm[n % 5] = n; changed = true; break;
        case 6: got = send(r, c, message::make_downstream_update(k, 5, message::make_upstream_update(n % 5, message::no_uid, n), true)); break;
        default: got = send(r, none, message::make_downstream_update(k, 5, n, true));
      }
      vmon::check(got == changed, "single-change", "");
      int calls = 0;
      nbdl::match(a, k, [&](t::ent const& e) { ++calls; vmon::check(same(e, an) && &e == &a.store, "single-value", ""); });
      nbdl::match(b, k, [&](Plain const& p) { ++calls; vmon::check(p.n == bn && (bn == 0 || p.s == text(bn)), "single-action", ""); });
      vmon::check(calls == 2, "single-match", std::to_string(calls));
      for (int i = 0; i < 5; ++i)
      {
        int v = -1;
        nbdl::match(c.store, i, [&](auto const& x) { if constexpr (std::is_same_v<std::decay_t<decltype(x)>, int>) v = x; });
        vmon::check(v == (cm.count(i) ? cm[i] : -1), "single-network", std::to_string(i));
      }
      // actions on plain objects and references to them
      std::string s = text(n); auto ref = std::ref(s);
      nbdl::apply_action(s, std::string("x"));
      nbdl::apply_action(ref, [](std::string& x) { x += "y"; });
      vmon::check(s == "xy", "apply-action", s);
      vmon::count("single_steps");
      vmon::distinct(vmon::mix(static_cast<std::uint64_t>(an * 1000 + bn) ^ static_cast<std::uint64_t>(q) << 32));
    }
  }
}
VMON_MODE("map", c15_map, "messages", "paths_compared")
VMON_MODE("basic", c15_basic, "messages", "paths_compared")
VMON_MODE("bulk", c15_bulk, "bulk_lookups")
VMON_MODE("single", c15_single, "single_steps")
VMON_MAIN
