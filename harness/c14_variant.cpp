// C14: variants under random histories, with lifetime-counted alternatives.
#include "vmon.hpp"
#include <boost/hana.hpp>
#include <memory>
#include <nbdl/bind_variant.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/match.hpp>
#include <nbdl/variant.hpp>
#include <nbdl/variant_holder.hpp>
#include <set>
namespace hana = boost::hana;
using vmon::Rng;

namespace t
{
  // every live object is registered under its address; a copy of a dead object or a second
  // destruction of one is seen
  std::set<void const*>& live() { static thread_local std::set<void const*> s; return s; }
  template <int K>
  struct tok
  {
    int v; std::string heap;
    void born() { vmon::count("constructions"); vmon::check(live().insert(this).second, "lifetime-twice", "constructed over a live object"); }
    static void alive(void const* p, char const* what) { vmon::check(live().count(p) == 1, "lifetime-dead", what); }
    tok() : v(0) { born(); }
    explicit tok(int v) : v(v), heap(std::to_string(v) + std::string(static_cast<unsigned>(v) % 40, 'x')) { born(); }
    tok(tok const& o) : v(o.v), heap(o.heap) { alive(&o, "copied from a dead object"); born(); }
    tok(tok&& o) noexcept : v(o.v), heap(std::move(o.heap)) { alive(&o, "moved from a dead object"); o.v = -7; born(); }
    tok& operator=(tok const& o) { alive(this, "assigned to a dead object"); alive(&o, "assigned from a dead object"); v = o.v; heap = o.heap; return *this; }
    tok& operator=(tok&& o) noexcept
    { alive(this, "assigned to a dead object"); alive(&o, "assigned from a dead object"); v = o.v; heap = std::move(o.heap); if (&o != this) o.v = -7; return *this; }
    ~tok() { vmon::check(live().erase(this) == 1, "lifetime-destroyed-dead", "destroyed an object which is not alive"); vmon::count("destructions"); }
    bool operator==(tok const& o) const { return v == o.v && heap == o.heap; }
  };
  struct none { };
  struct ent { int a; std::string b; };
  struct inner_tag { };
}
namespace nbdl { NBDL_ENTITY(t::ent, a, b); }

namespace
{
  using A = t::tok<1>; using B = t::tok<2>;
  using V = nbdl::variant<A, int, std::string, t::none, B, t::ent, bool>;
  using O = nbdl::optional<A>;
  using H = nbdl::variant_holder<A, int, std::string, t::none, B, t::ent, bool>;
  // model: type id and a number all alternatives are made from
  struct M { int id = 0; int n = 0; bool operator==(M const&) const = default; };
  std::string text(int n) { return "s" + std::to_string(n); }

  template <typename T> T make(int n)
  {
    if constexpr (std::is_same_v<T, A> || std::is_same_v<T, B>) return T(n);
    else if constexpr (std::is_same_v<T, int>) return n;
    else if constexpr (std::is_same_v<T, bool>) return n & 1;
    else if constexpr (std::is_same_v<T, std::string>) return text(n);
    else if constexpr (std::is_same_v<T, t::ent>) return t::ent{n, text(n)};
    else return T{};
  }
  // what a visited value says it is
  M seen(nbdl::unresolved) { return {0, 0}; }
  M seen(A const& x) { vmon::check(t::live().count(&x), "visited-dead", ""); return {1, x.heap.substr(0, std::to_string(x.v).size()) == std::to_string(x.v) ? x.v : -99}; }
  M seen(int const& x) { return {2, x}; }
  M seen(std::string const& x) { return {3, std::stoi("0" + x.substr(x.empty() ? 0 : 1))}; }
  M seen(t::none const&) { return {4, 0}; }
  M seen(B const& x) { vmon::check(t::live().count(&x), "visited-dead", ""); return {5, x.heap.substr(0, std::to_string(x.v).size()) == std::to_string(x.v) ? x.v : -99}; }
  M seen(t::ent const& x) { return {6, x.b == text(x.a) ? x.a : -99}; }
  M seen(bool const& x) { return {7, x}; }
  M norm(M m) { if (m.id == 0 || m.id == 4) m.n = 0; if (m.id == 7) m.n &= 1; return m; }

  std::string show(M m) { return "alternative " + std::to_string(m.id) + " value " + std::to_string(m.n); }

  template <int ID> auto wrong() { return [](auto const&) { vmon::violate("wrong-handler", std::to_string(ID)); }; }

  // a handler that accepts every alternative and nothing else, counting its calls
  struct probe
  {
    int* calls; M* got;
    template <typename T> void operator()(T&& x) const
    { ++*calls; *got = seen(x); }
  };

  template <typename Var>
  void observe(Var& v, M want, std::string const& ctx)
  {
    want = norm(want);
    auto one = [&](char const* how, auto&& run) {
      int calls = 0; M got{-1, -1};
      run(probe{&calls, &got});
      vmon::count("matches");
      vmon::check(calls == 1, "match-count", ctx + " " + how + ": called " + std::to_string(calls) + " handlers");
      vmon::check(calls != 1 || got == want, "match-value", ctx + " " + how + ": saw " + show(got) + " instead of " + show(want));
    };
    Var const& c = v;
    one("match", [&](auto p) { v.match(p); });
    one("match const", [&](auto p) { c.match(p); });
    one("nbdl::match", [&](auto p) { nbdl::match(v, p); });
    one("nbdl::match const", [&](auto p) { nbdl::match(c, p); });
    one("handlers", [&](auto p) {
      c.match([&](nbdl::unresolved x) { p(x); }, [&](A const& x) { p(x); }, [&](std::same_as<int> auto const& x) { p(x); }, [&](std::string const& x) { p(x); },
              [&](t::none const& x) { p(x); }, [&](B const& x) { p(x); }, [&](t::ent const& x) { p(x); }, [&](auto const& x) { p(x); }); });
    one("bind", [&](auto p) {
      nbdl::bind_variant(c, [&](int id, auto const& ...x) {
        vmon::check(id == want.id, "bind-id", ctx);
        if constexpr (sizeof...(x) == 1) p(x...);
        else { vmon::check(id == 0 || id == 4, "bind-empty", ctx); ++*p.calls; *p.got = M{id, 0}; } }); });
    vmon::check(v.get_type_id() == want.id, "type-id", ctx + ": " + std::to_string(v.get_type_id()) + " for " + show(want));
    auto is = [&]<typename T>(int id, T*) {
      vmon::check(c.template is<T>() == (id == want.id), "is", ctx + ": is<" + std::to_string(id) + ">");
      int calls = 0;
      nbdl::match_when<T>(v, [&](auto const& x) { ++calls; static_assert(std::is_same_v<std::decay_t<decltype(x)>, T>); vmon::check(seen(x) == want, "match-when-value", ctx); });
      nbdl::match(c, nbdl::match_when<T>([&](auto const&) { ++calls; }));
      vmon::check(calls == (id == want.id ? 2 : 0), "match-when", ctx + ": match_when<" + std::to_string(id) + "> called " + std::to_string(calls));
      int types = 0;
      v.match_by_type(id, [&](auto ty) { ++types; vmon::check(std::is_same_v<typename decltype(ty)::type, T>, "match-by-type", std::to_string(id)); });
      vmon::check(types == 1, "match-by-type-count", std::to_string(id));
      static_assert(Var::template has<T>::value);
    };
    is(0, (nbdl::unresolved*)0); is(1, (A*)0); is(2, (int*)0); is(3, (std::string*)0); is(4, (t::none*)0); is(5, (B*)0); is(6, (t::ent*)0); is(7, (bool*)0);
    static_assert(!Var::template has<double>::value);
    for (int id : {-1, -100, 8, 9, 1000, 2147483647, -2147483647 - 1})
      v.match_by_type(id, [&](auto) { vmon::violate("match-by-type-range", std::to_string(id)); });
    nbdl::match_when<double>(v, [&](auto const&) { vmon::violate("match-when-foreign", ctx); });
  }

  template <typename F>
  void with_type(int id, F f)
  {
    switch (id)
    { case 0: f((nbdl::unresolved*)0); break; case 1: f((A*)0); break; case 2: f((int*)0); break; case 3: f((std::string*)0); break;
      case 4: f((t::none*)0); break; case 5: f((B*)0); break; case 6: f((t::ent*)0); break; default: f((bool*)0); }
  }

  void c14_history(Rng& r)
  {
    vmon::check(t::live().empty(), "leaked-before", "");
    t::live().clear();
    std::string log;
    {
      constexpr int N = 4;
      std::unique_ptr<V> v[N];
      M m[N];
      for (int i = 0; i < N; ++i) v[i] = std::make_unique<V>();
      auto steps = 10 + r.below(60);
      for (std::uint64_t s = 0; s < steps; ++s)
      {
        int i = static_cast<int>(r.below(N)), j = static_cast<int>(r.below(N));
        int id = static_cast<int>(r.below(8)), n = static_cast<int>(r.below(100));
        int op = static_cast<int>(r.below(13));
        log += " " + std::to_string(op) + ":" + std::to_string(i) + std::to_string(j) + "/" + std::to_string(id) + "," + std::to_string(n);
        if (log.size() > 300) log.erase(0, log.size() - 300);
        switch (op)
        {
          case 0: with_type(id, [&]<typename T>(T*) { *v[i] = make<T>(n); }); m[i] = {id, n}; break;                        // from a value
          case 1: with_type(id, [&]<typename T>(T*) { T x = make<T>(n); *v[i] = x; vmon::check(seen(x) == norm({id, n}), "source-changed", log); }); m[i] = {id, n}; break;
          case 2: *v[i] = *v[j]; m[i] = m[j]; break;                                                                     // copy, also to itself
          case 3: if (i != j) { *v[i] = std::move(*v[j]); m[i] = m[j]; *v[j] = V{}; m[j] = {}; } break;
          case 4: *v[i] = V(*v[j]); m[i] = m[j]; break;                                                                  // through a copy
          case 5: v[i] = std::make_unique<V>(std::as_const(*v[j])); m[i] = m[j]; break;
          case 6: { auto p = std::make_unique<V>(std::move(*v[i])); v[i] = std::move(p); } break;                          // moved to a new place
          case 7: with_type(id, [&]<typename T>(T*) { v[i] = std::make_unique<V>(make<T>(n)); }); m[i] = {id, n}; break;
          case 8: std::swap(*v[i], *v[j]); std::swap(m[i], m[j]); break;
          case 9: // changed in place by a handler
            v[i]->match([&](A& x) { x = A(n); }, [&](int& x) { x = n; }, [&](std::string& x) { x = text(n); }, [&](B& x) { x = B(n); },
                        [&](t::ent& x) { x = t::ent{n, text(n)}; }, [&](bool& x) { x = n & 1; }, [](auto&) { });
            m[i].n = n; break;
          case 10: // in place, by nbdl::match_when
            with_type(id, [&]<typename T>(T*) { nbdl::match_when<T>(*v[i], [&](T& x) { x = make<T>(n); }); });
            if (m[i].id == id) m[i].n = n;
            break;
          case 11: // read from a stream: bind with a type id
          {
            int bad = r.chance(1, 5) ? static_cast<int>(r.pick({-1, 8, 77})) : id, called = 0;
            nbdl::bind_variant(bad, *v[i], [&](int got, auto& ...x) {
              ++called;
              vmon::check(got == bad, "bind-read-id", log);
              ((x = make<std::decay_t<decltype(x)>>(n)), ...);
            });
            vmon::check(called == (bad == id), "bind-read-count", log);
            if (bad == id) m[i] = {id, n};
            break;
          }
          default: *v[i] = V{}; m[i] = {};
        }
        vmon::count("operations");
        for (int k = 0; k < N; ++k) if (k == i || k == j || s + 1 == steps) observe(*v[k], m[k], log + " @" + std::to_string(k));
        for (int a = 0; a < N; ++a)
        {
          bool eq = norm(m[i]) == norm(m[a]);
          vmon::check(static_cast<bool>(hana::equal(std::as_const(*v[i]), std::as_const(*v[a]))) == eq, "equal", log);
        }
        std::size_t toks = 0;
        for (auto& x : m) toks += x.id == 1 || x.id == 5;
        vmon::check(t::live().size() == toks, "live-count", log + ": " + std::to_string(t::live().size()) + " live objects for " + std::to_string(toks));
        vmon::distinct(static_cast<std::uint64_t>(op) * 1000003 + static_cast<std::uint64_t>(m[i].id * 10 + m[j].id) * 131 + static_cast<std::uint64_t>(id));
      }
      vmon::distinct(log);
    }
    vmon::check(t::live().empty(), "leaked", log);
    t::live().clear();
  }

  void c14_holder(Rng& r)
  {
    {
      H h, k;
      M m{1, 0}; // the first alternative is the default
      k = h;
      bool empty_tok = true;
      for (int s = 0; s < 20; ++s)
      {
        int id = 1 + static_cast<int>(r.below(7)), n = static_cast<int>(r.below(100));
        with_type(id, [&]<typename T>(T*) {
          if constexpr (!std::is_same_v<T, nbdl::unresolved>)
            switch (r.below(4)) {
              case 0: h = H(make<T>(n)); break;
              case 1: h.value = make<T>(n); break;
              case 2: nbdl::bind_variant(id - 1, h, [&](int, auto& ...x) { ((x = make<std::decay_t<decltype(x)>>(n)), ...); }); break;
              default: k = H(make<T>(n)); h = k;
            } });
        m = {id, n}; empty_tok = false;
        int calls = 0; M got{}; std::size_t idx = 99; int idx_calls = 0, id_bound = -1;
        nbdl::match(h, nbdl::variant_value, probe{&calls, &got});
        nbdl::match(std::as_const(h), nbdl::variant_index, [&](std::size_t i) { idx = i; ++idx_calls; });
        nbdl::bind_variant(std::as_const(h), [&](int i, auto const& ...) { id_bound = i; });
        vmon::check(calls == 1 && got == norm(m), "holder-value", show(got) + " for " + show(m));
        vmon::check(idx_calls == 1 && static_cast<int>(idx) == id - 1 && id_bound == id - 1, "holder-index", std::to_string(idx));
        nbdl::match(h, nbdl::variant_value, hana::overload_linearly([&](A& x) { x = A(n + 1); }, [](auto&) { }));
        if (id == 1) nbdl::match(h, nbdl::variant_value, hana::overload_linearly([&](A const& x) { vmon::check(x.v == n + 1, "holder-modify", ""); }, [](auto const&) { }));
        nbdl::bind_variant(7 + static_cast<int>(r.below(5)), h, [&](int, auto& ...) { vmon::violate("holder-bind-range", ""); });
        vmon::count("holder_steps");
        vmon::distinct(static_cast<std::uint64_t>(id * 1000 + n));
      }
      (void) empty_tok;
    }
    vmon::check(t::live().empty(), "leaked", "holder");
    t::live().clear();
  }

  void c14_optional(Rng& r)
  {
    {
      O a, b = nbdl::make_optional(A(5));
      vmon::check(a.is<nbdl::nothing>() && a.get_type_id() == 0 && b.is<A>() && b.get_type_id() == 1, "optional-make", "");
      for (int s = 0; s < 30; ++s)
      {
        int n = static_cast<int>(r.below(50)); bool some = r.coin();
        switch (r.below(5))
        {
          case 0: a = nbdl::make_optional_if(some, A(n)); break;
          case 1: { A x(n); a = nbdl::make_optional_if(some, x); vmon::check(x == A(n), "optional-source", ""); break; }
          case 2: if (some) a = A(n); else a = nbdl::nothing{}; break;
          case 3: if (some) { A x(n); b = nbdl::make_optional(x); } else b = O{}; a = b; break;
          default: b = nbdl::make_optional_if(some, A(n)); a = std::move(b); b = O{};
        }
        int got = 0, calls = 0;
        nbdl::match(a, hana::overload([&](nbdl::nothing) { ++calls; got = -1; }, [&](A const& x) { ++calls; got = x.v; }));
        vmon::check(calls == 1 && got == (some ? n : -1), "optional-value", std::to_string(got) + " for " + (some ? std::to_string(n) : "nothing"));
        vmon::check(static_cast<bool>(hana::equal(a, nbdl::make_optional_if(some, A(n)))), "optional-equal", "");
        vmon::check(!hana::equal(a, nbdl::make_optional_if(!some, A(n))) && (!some || !hana::equal(a, O(A(n + 1)))), "optional-different", "");
        vmon::count("optional_steps");
        vmon::distinct(static_cast<std::uint64_t>(n * 2 + some));
      }
    }
    vmon::check(t::live().empty(), "leaked", "optional");
    t::live().clear();
  }

  // variants in variants, alternatives that own each other, move-only alternatives
  void c14_nested(Rng& r)
  {
    {
      using In = nbdl::variant<A, int>;
      using Out = nbdl::variant<In, std::string, B>;
      using U = nbdl::variant<std::unique_ptr<A>, int>;
      Out o; U u;
      std::vector<Out> grow;
      int kind = 0, n = 0;
      for (int s = 0; s < 20; ++s)
      {
        kind = static_cast<int>(r.below(6)); n = static_cast<int>(r.below(60));
        switch (kind)
        { case 0: o = Out{}; break; case 1: o = In{}; break; case 2: o = In{A(n)}; break; case 3: o = In{n}; break; case 4: o = text(n); break; default: o = B(n); }
        grow.push_back(o); // reallocation moves variants around
        int calls = 0, k = -1;
        auto see = hana::overload([&](nbdl::unresolved) { ++calls; k = -2; }, [&](A const& x) { ++calls; k = x.v; }, [&](int const& x) { ++calls; k = x; },
                                  [&](std::string const& x) { ++calls; k = x == text(n) ? n : -3; }, [&](B const& x) { ++calls; k = x.v; });
        nbdl::match(grow.back(), see);
        vmon::check(calls == 1 && k == (kind <= 1 ? -2 : n), "nested-value", std::to_string(kind) + ": " + std::to_string(k));
        vmon::check(o.is<In>() == (kind >= 1 && kind <= 3), "nested-is", "");
        if (r.coin()) u = std::make_unique<A>(n); else u = n;
        U w = std::move(u);
        int c2 = 0;
        w.match([&](std::unique_ptr<A> const& p) { ++c2; vmon::check(p && p->v == n, "move-only", ""); }, [&](int x) { ++c2; vmon::check(x == n, "move-only", ""); },
                [](nbdl::unresolved) { });
        vmon::check(c2 == 1, "move-only-count", "");
        u = std::move(w);
        vmon::count("nested_steps");
        vmon::distinct(static_cast<std::uint64_t>(kind * 100 + n));
      }
    }
    vmon::check(t::live().empty(), "leaked", "nested");
    t::live().clear();
  }
}
VMON_MODE("history", c14_history, "operations", "matches", "constructions", "destructions")
VMON_MODE("holder", c14_holder, "holder_steps")
VMON_MODE("optional", c14_optional, "optional_steps")
VMON_MODE("nested", c14_nested, "nested_steps")
VMON_MAIN
