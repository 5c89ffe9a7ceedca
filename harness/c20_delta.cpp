// C20 deltas; with PART_LOCAL, C19: locally modified versions.
#include "vmon.hpp"
#include <boost/hana.hpp>
#include <nbdl/apply_message.hpp>
#include <nbdl/delta.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/local_version.hpp>
#include <nbdl/match.hpp>
#include <nbdl/message.hpp>
#include <nbdl/string.hpp>
#include <nbdl/variant.hpp>
#include <array>
namespace hana = boost::hana;
namespace message = nbdl::message;
using vmon::Rng;

namespace t
{
  enum class color { red, green, blue };
  struct inner { int x; std::string y; };
  struct one { int v; };
  struct few { std::string first; std::string last; int age; };
  struct many { int a; bool b; std::string c; inner d; std::vector<std::string> e; color f; unsigned long long g; std::array<unsigned char, 4> h; };
  using var = nbdl::variant<int, std::string>;
  struct alts { var a; int b; nbdl::optional<std::string> c; var d; };
}
namespace nbdl
{
  NBDL_ENTITY(t::inner, x, y); NBDL_ENTITY(t::one, v); NBDL_ENTITY(t::few, first, last, age);
  NBDL_ENTITY(t::many, a, b, c, d, e, f, g, h); NBDL_ENTITY(t::alts, a, b, c, d);
}
namespace
{
  using nbdl::delta_tag;
  // members as text, in order; the oracle's view of an entity
  std::string s(int x) { return std::to_string(x); }
  std::string s(std::string const& x) { return "'" + x + "'"; }
  std::string s(t::inner const& x) { return "{" + s(x.x) + s(x.y) + "}"; }
  std::string s(t::var const& v) { std::string r; v.match([&](int const& x) { r = "i" + s(x); }, [&](std::string const& x) { r = "s" + s(x); }, [&](nbdl::unresolved) { r = "?"; }); return r; }
  std::string s(nbdl::optional<std::string> const& v) { std::string r; v.match([&](nbdl::nothing) { r = "none"; }, [&](std::string const& x) { r = s(x); }); return r; }
  using row = std::vector<std::string>;
  row rows(t::one const& x) { return {s(x.v)}; }
  row rows(t::few const& x) { return {s(x.first), s(x.last), s(x.age)}; }
  row rows(t::many const& x)
  { std::string e, h; for (auto& y : x.e) e += s(y) + ","; for (auto y : x.h) h += s(int(y)) + ","; return {s(x.a), s(int(x.b)), s(x.c), s(x.d), e, s(int(x.f)), std::to_string(x.g), h}; }
  row rows(t::alts const& x) { return {s(x.a), s(x.b), s(x.c), s(x.d)}; }

  std::string word(Rng& r) { return r.pick({std::string(), std::string("a"), std::string("b"), std::string(40, 'q'), std::string("a\0b", 3)}); }
  void fill(Rng& r, int& x) { x = static_cast<int>(r.below(3)); }
  void fill(Rng& r, std::string& x) { x = word(r); }
  void fill(Rng& r, t::inner& x) { fill(r, x.x); fill(r, x.y); }
  void fill(Rng& r, t::var& x) { switch (r.below(5)) { case 0: x = t::var{}; break; case 1: case 2: x = static_cast<int>(r.below(2)); break; default: x = word(r); } }
  void fill(Rng& r, nbdl::optional<std::string>& x) { if (r.coin()) x = nbdl::optional<std::string>{}; else x = word(r); }
  void fill(Rng& r, t::one& x) { fill(r, x.v); }
  void fill(Rng& r, t::few& x) { fill(r, x.first); fill(r, x.last); fill(r, x.age); }
  void fill(Rng& r, t::many& x)
  {
    fill(r, x.a); x.b = r.coin(); fill(r, x.c); fill(r, x.d); x.e.assign(r.below(3), word(r)); x.f = static_cast<t::color>(r.below(3));
    x.g = r.coin() ? ~0ULL : r.below(2); for (auto& y : x.h) y = static_cast<unsigned char>(r.below(2));
  }
  void fill(Rng& r, t::alts& x) { fill(r, x.a); fill(r, x.b); fill(r, x.c); fill(r, x.d); }
  template <typename T> T make(Rng& r) { T x{}; fill(r, x); return x; }
  // a copy of x with a random choice of members replaced
  template <typename T> T vary(Rng& r, T x)
  {
    T y = make<T>(r);
    unsigned m = static_cast<unsigned>(r.below(256)), i = 0;
    if (r.chance(1, 8)) return x;
    nbdl::bind_sequence(x, [&](auto& ...a) { nbdl::bind_sequence(y, [&](auto& ...b) { ((((m >> (i++ % 8)) & 1) ? void(a = b) : void()), ...); }); });
    return x;
  }

  // a delta as the oracle sees it: what it sets, member by member
  using sets = std::vector<std::pair<bool, std::string>>;
  std::string member(bool x) { return s(int(x)); }
  std::string member(unsigned long long x) { return std::to_string(x); }
  std::string member(t::color x) { return s(int(x)); }
  std::string member(std::vector<std::string> const& x) { std::string e; for (auto& y : x) e += s(y) + ","; return e; }
  std::string member(std::array<unsigned char, 4> const& x) { std::string h; for (auto y : x) h += s(int(y)) + ","; return h; }
  template <typename X> std::string member(X const& x) { return s(x); }
  template <typename D> sets look(D const& d)
  {
    sets r;
    hana::unpack(d.storage, [&](auto const& ...o)
    {
      ([&] {
        int calls = 0;
        r.push_back({false, ""});
        o.match([&](nbdl::nothing) { ++calls; }, [&](auto const& v) { ++calls; r.back() = {true, member(v)}; });
        vmon::check(calls == 1, "member-count", "");
      }(), ...);
    });
    return r;
  }
  std::string text(row const& r) { std::string x; for (auto& y : r) x += vmon::show(y, 30) + " "; return x; }
  std::string text(sets const& d) { std::string x; for (auto& y : d) x += y.first ? "=" + vmon::show(y.second, 30) + " " : "_ "; return x; }
  row over(row x, sets const& d) { for (std::size_t i = 0; i < d.size(); ++i) if (d[i].first) x[i] = d[i].second; return x; }
  sets over(sets x, sets const& d) { for (std::size_t i = 0; i < d.size(); ++i) if (d[i].first) x[i] = d[i]; return x; }

#ifndef PART_LOCAL
  template <typename T> void laws(Rng& r)
  {
    T const a = make<T>(r), b = vary(r, a), c = vary(r, b);
    auto const ra = rows(a), rb = rows(b), rc = rows(c);
    auto const ab = nbdl::make_delta<delta_tag>(b, a); // turns a into b
    auto const bc = nbdl::make_delta<delta_tag>(c, b);
    sets want(ra.size());
    for (std::size_t i = 0; i < ra.size(); ++i) if (ra[i] != rb[i]) want[i] = {true, rb[i]};
    vmon::check(look(ab) == want, "delta-content", text(look(ab)) + "between " + text(ra) + "and " + text(rb));
    T x = a;
    bool changed = nbdl::apply_delta(ab, x);
    vmon::check(rows(x) == rb, "delta-applied", text(rows(x)) + "for " + text(rb));
    vmon::check(changed == (ra != rb), "change-reported", text(ra) + "to " + text(rb));
    vmon::check(!nbdl::apply_delta(ab, x) && rows(x) == rb, "idempotent", text(rb));
    // onto an unrelated value exactly the members of the delta change
    T y = make<T>(r);
    row const ry = rows(y), rz = over(ry, want);
    changed = nbdl::apply_delta(ab, y);
    vmon::check(rows(y) == rz && changed == (ry != rz), "delta-members", text(rows(y)) + "for " + text(rz));
    // the empty delta
    auto none = nbdl::make_delta<delta_tag>(a, a);
    nbdl::delta<T> blank{};
    for (auto const* e : {&none, &blank})
    {
      T z = a; auto d = ab;
      vmon::check(look(*e) == sets(ra.size()) && !nbdl::apply_delta(*e, z) && rows(z) == ra && !nbdl::apply_delta(*e, d) && look(d) == want, "empty", text(look(*e)));
      auto f = *e; bool grown = nbdl::apply_delta(ab, f);
      vmon::check(look(f) == want && grown == (ra != rb), "onto-empty", text(look(f)));
    }
    // everything
    auto all = nbdl::make_delta<delta_tag>(b);
    sets every; for (auto& v : rb) every.push_back({true, v});
    T w = c; nbdl::apply_delta(all, w);
    vmon::check(look(all) == every && rows(w) == rb, "whole", text(look(all)));
    // merging
    auto ac = ab; sets const before = look(ac);
    bool const merged = nbdl::apply_delta(bc, ac);
    vmon::check(look(ac) == over(want, look(bc)) , "merged", text(look(ac)) + "from " + text(want) + "and " + text(look(bc)));
    vmon::check(merged || look(ac) == before, "merge-reported", "a merge which changed the delta reported nothing");
    T p = a; nbdl::apply_delta(ac, p);
    vmon::check(rows(p) == rc, "merge-applied", text(rows(p)) + "for " + text(rc));
    // what was only read is as it was
    vmon::check(rows(a) == ra && rows(b) == rb && look(ab) == want, "sources", "");
    // copies of a delta are independent
    { auto k = ab; auto k2 = k; nbdl::apply_delta(all, k2); vmon::check(look(k) == want && look(k2) == every, "copies", ""); k = std::move(k2); vmon::check(look(k) == every, "moved", ""); }
    vmon::count("laws_checked");
    vmon::distinct(text(ra) + text(rb) + text(rc) + text(ry));
  }
  template <typename T> void chain(Rng& r)
  {
    // a random bracketing of a chain of deltas means the same
    unsigned const n = static_cast<unsigned>(r.range(2, 8));
    T const first = make<T>(r); T cur = first;
    std::vector<nbdl::delta<T>> ds;
    row state = rows(first);
    for (unsigned i = 0; i < n; ++i)
    {
      // deltas between unrelated values as well as between neighbours
      T a = r.coin() ? cur : make<T>(r), b = vary(r, a);
      ds.push_back(nbdl::make_delta<delta_tag>(b, a));
      nbdl::apply_delta(ds.back(), cur);
      state = over(state, look(ds.back()));
      vmon::check(rows(cur) == state, "chain-step", "");
    }
    while (ds.size() > 1)
    {
      auto i = static_cast<long>(r.below(ds.size() - 1));
      nbdl::apply_delta(ds[static_cast<std::size_t>(i) + 1], ds[static_cast<std::size_t>(i)]);
      ds.erase(ds.begin() + i + 1);
    }
    T x = first; nbdl::apply_delta(ds[0], x);
    vmon::check(rows(x) == state, "chain-merged", text(rows(x)) + "for " + text(state));
    vmon::count("chains_checked");
    vmon::distinct(text(rows(first)) + text(state) + s(int(n)));
  }
  void laws_(Rng& r) { switch (r.below(4)) { case 0: laws<t::one>(r); break; case 1: laws<t::few>(r); break; case 2: laws<t::many>(r); break; default: laws<t::alts>(r); } }
  void chain_(Rng& r) { switch (r.below(4)) { case 0: chain<t::one>(r); break; case 1: chain<t::few>(r); break; case 2: chain<t::many>(r); break; default: chain<t::alts>(r); } }
#else
  nbdl::uid fresh() { static thread_local auto g = nbdl::make_uid_generator(); return g(); }
  template <typename T> void history(Rng& r)
  {
    T const base = make<T>(r);
    nbdl::local_version<T> store(base);
    struct request { nbdl::uid uid; nbdl::delta<T> d; };
    std::vector<request> waiting; // what this side asked for and was not told about yet
    row view = rows(base), confirmed = rows(base);
    sets pend(view.size());
    std::string what;
    bool exact = true; // confirmations say at least what was asked for
    bool const lengthy = r.chance(1, 100);
    unsigned const steps = static_cast<unsigned>(lengthy ? r.range(100, 400) : r.range(2, 20));
    auto delta = [&] { T a = make<T>(r); return r.chance(1, 5) ? nbdl::make_delta<delta_tag>(a) : nbdl::make_delta<delta_tag>(vary(r, a), a); };
    for (unsigned q = 0; q < steps; ++q)
    {
      row const shown = view;
      bool got = false;
      int kind = static_cast<int>(r.below(8));
      if (kind >= 3 && kind <= 5 && (waiting.empty() || (lengthy && q < steps / 2 && r.chance(9, 10)))) kind = 0;
      what += " " + s(kind);
      if (kind <= 2) // a local edit: shown at once
      {
        request q2{fresh(), delta()};
        auto m = message::make_upstream_update(hana::make_tuple(), q2.uid, q2.d);
        if (r.coin()) got = nbdl::apply_message(store, m);
        else got = nbdl::apply_message(store, message::to_downstream(m, false)); // echoed before it is confirmed
        view = over(view, look(q2.d)); pend = over(pend, look(q2.d));
        waiting.push_back(std::move(q2));
        vmon::count("local_edits");
      }
      else if (kind <= 5) // one of them is confirmed, in any order, perhaps with more than was asked for
      {
        std::size_t i = r.coin() ? 0 : r.below(waiting.size());
        request w = waiting[i]; waiting.erase(waiting.begin() + static_cast<long>(i));
        auto d = w.d;
        int const how = static_cast<int>(r.below(6));
        if (how == 0) nbdl::apply_delta(delta(), d);
        if (how == 1) { d = delta(); exact = false; }
        if (r.coin()) got = nbdl::apply_message(store, message::make_downstream_update(hana::make_tuple(), w.uid, d, true));
        else { auto m = message::make_upstream_update(hana::make_tuple(), w.uid, d); got = nbdl::apply_message(store, message::to_downstream_confirmed(m)); }
        confirmed = over(confirmed, look(d)); pend = over(pend, look(d));
        if (waiting.empty()) { view = over(view, pend); pend = sets(view.size()); exact = exact; vmon::count("flushes"); }
        vmon::count("confirmations");
      }
      else if (kind == 6) // somebody else's confirmed change
      {
        auto d = delta();
        got = nbdl::apply_message(store, message::make_downstream_update(hana::make_tuple(), fresh(), d, true));
        view = over(view, look(d)); confirmed = over(confirmed, look(d)); pend = over(pend, look(d));
        vmon::count("foreign_changes");
      }
      else // the view is copied; the copy lives its own life
      {
        auto copy = store;
        nbdl::apply_message(copy, message::make_upstream_update(hana::make_tuple(), fresh(), delta()));
        got = false;
      }
      row const now = rows(nbdl::get(store));
      vmon::check(now == view, "view", what + ": " + text(now) + "for " + text(view));
      row seen; int calls = 0;
      nbdl::match(store, [&](T const& x) { ++calls; seen = rows(x); });
      vmon::check(calls == 1 && seen == view, "view-matched", what);
      if (kind != 7) vmon::check(got == (view != shown), "change-reported", what + ": said " + s(int(got)) + " from " + text(shown) + "to " + text(view));
      vmon::check(store.local_uids.size() == waiting.size(), "pending", what + ": " + s(int(store.local_uids.size())) + " for " + s(int(waiting.size())));
      for (auto& w : waiting) vmon::check(store.local_uids.count(w.uid) == 1, "pending-missing", what);
      if (waiting.empty())
      {
        // with nothing pending the view is the confirmed history
        if (exact) { vmon::check(view == confirmed && now == confirmed, "converged", what + ": " + text(now) + "for " + text(confirmed)); vmon::count("converged"); }
        else { confirmed = view; exact = true; }
      }
      vmon::count("steps");
    }
    vmon::distinct(what + text(view));
  }
  void history_(Rng& r) { switch (r.below(4)) { case 0: history<t::one>(r); break; case 1: history<t::few>(r); break; case 2: history<t::many>(r); break; default: history<t::alts>(r); } }
#endif
}
#ifdef PART_LOCAL
VMON_MODE("history", history_, "local_edits", "confirmations", "foreign_changes", "flushes", "converged")
#else
VMON_MODE("laws", laws_, "laws_checked")
VMON_MODE("chains", chain_, "chains_checked")
#endif
VMON_MAIN
