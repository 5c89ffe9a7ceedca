// C22 (and C23 with PART_STATE): promise pipelines.
//
// Pipelines of pseudo random shape (generated at compile time: functions, void functions,
// forwarding functions, promises, taps, tries, holds, lazy holds, catches of every subset of
// the rejections, pipelines run inside a promise, nested up to three deep) run real nbdl code.
// What each stage does in a run (resolve with none, one or two values, reject with one of four
// types, terminate, now or later) is a pure function of the run's seed and the step, so a
// sequential model predicts every event: which stage ran and which values it was given.
#include <boost/hana.hpp>
#include <nbdl/catch.hpp>
#include <nbdl/hold.hpp>
#include <nbdl/hold_lazy.hpp>
#include <nbdl/pipe.hpp>
#include <nbdl/promise.hpp>
#include <nbdl/run_async.hpp>
#include <nbdl/run_async_loop.hpp>
#include <nbdl/run_sync.hpp>
#include <nbdl/tap.hpp>
#include <nbdl/try.hpp>

#include <array>
#include <memory>
#include <optional>
#include <stdexcept>

#include "vmon.hpp"

namespace hana = boost::hana;
using u64 = std::uint64_t;

#ifndef SHAPES
#define SHAPES 12
#endif
#ifndef SHAPE_BASE
#define SHAPE_BASE 0
#endif

namespace
{
  constexpr u64 cmix(u64 z)
  {
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  constexpr u64 h3(u64 a, u64 b, u64 c) { return cmix(cmix(cmix(a) ^ b) ^ c); }

  enum Kind : int { FN, FWD, CREF, VOID_, PROM, TAP, TAPMUT, CATCH, TRY, HOLD, LAZY, SPAWN, CATCHALL, KINDS };
  char const* const kind_name[] = {"fn", "forward", "const-ref", "void", "promise", "tap", "tap-change", "catch", "try", "hold",
                                   "hold_lazy", "spawn", "catch-all"};
  enum Rej : int { R0, R1, R2, REXC, RN };

  // the words up to the semicolon, without numbers, name the kind of violation
  void viol(std::string const& m)
  {
    std::string key;
    for (char c : m.substr(0, m.find(';'))) if (c < '0' || c > '9') key += c;
    vmon::violate(key, m);
  }

  // ---- values: heap owning, move only, so that stale or moved-from ones are seen
  struct Val
  {
    std::unique_ptr<u64> id;
    explicit Val(u64 i) : id(new u64(i)) { }
    Val(Val&&) = default;
    Val& operator=(Val&&) = default;
    u64 get() const { return id ? *id : 0xdead; }
    void set(u64 i) { if (id) *id = i; }
  };

  template <int K>
  struct Err { Val val; };

  struct MyErr : std::exception
  {
    u64 id;
    explicit MyErr(u64 i) : id(i) { }
    char const* what() const noexcept override { return "MyErr"; }
  };

  // ---- one run of a pipeline
  struct Event
  {
    int stage;
    std::vector<u64> args;
    bool operator==(Event const&) const = default;
  };

  struct Run
  {
    u64 seed = 0;
    int shape = 0;
    int leaves = 0;
    bool deferring = true;   // may stages answer later
    bool loop = false;
    int step = 0;
    std::vector<Event> log;
    std::vector<int> live;              // functor copies alive, per leaf
    std::vector<void const*> address;   // where the leaf was executed
    std::vector<int> pending;           // deferred answers outstanding (0 or 1 in all)
    int spawned_live = 0;               // pipelines started by a stage
    int held_live = 0;                  // values made by hold_lazy
    int held_made = 0;
    std::vector<std::pair<int, std::function<void()>>> queue;

    u64 dec(int s, int salt) const { return h3(seed, s, salt); }
  };

  [[maybe_unused]] bool judge_state();

  // each copy of a stage's function counts itself
  struct Token
  {
    Run* r;
    int leaf;
    int* canary;
    Token(Run* r, int leaf) : r(r), leaf(leaf), canary(new int(42)) { ++r->live[leaf]; }
    Token(Token const& o) : r(o.r), leaf(o.leaf), canary(new int(*o.canary)) { ++r->live[leaf]; }
    Token& operator=(Token const&) = delete;
    ~Token() { --r->live[leaf]; *canary = 0; delete canary; }
    void touch() const
    {
      if (*canary != 42) viol("the function of stage " + std::to_string(leaf) + " is run while not alive");
      if (r->address[leaf] == nullptr) r->address[leaf] = this;
      else if (r->address[leaf] != this && judge_state())
        viol("the function of stage " + std::to_string(leaf) + " moved while its pipeline runs");
    }
  };

  template <typename ...A>
  void note(Run* r, int leaf, A const&... a)
  {
    ++r->step;
    r->log.push_back({leaf, {a.get()...}});
  }
  u64 fold(u64 seed, std::initializer_list<u64> ids)
  { u64 x = seed; for (u64 i : ids) x = h3(x, i, 7); return x; }

  // what a promise, lazy hold or spawned pipeline does at its step
  enum Act : int { SAME, ONE, TWO, NONE, REJ0, REJ1, REJ2, TERM };
  struct Decision { Act act; bool later; bool call; u64 id; };
  constexpr int budget = 120;

  Decision decide(Run const* r, int step, bool may_reject)
  {
    u64 d = r->dec(step, 1);
    Decision x;
    static constexpr Act acts[] = {SAME, SAME, SAME, ONE, ONE, ONE, TWO, NONE, SAME, ONE, TWO, NONE, REJ0, REJ1, REJ2, TERM};
    x.act = acts[d % 16];
    if (!may_reject && x.act >= REJ0 && x.act <= REJ2) x.act = ONE;
    if (r->loop && x.act == TERM && (d >> 20) % 3) x.act = SAME;
    if (step > budget) x.act = TERM;
    x.later = r->deferring && (d >> 8) % 3 == 0;
    x.call = (d >> 12) & 1;
    x.id = r->dec(step, 2);
    return x;
  }

  template <bool CanReject, typename Resolver, typename ...A>
  void act(Decision d, Resolver& resolver, A&&... args)
  {
    switch (d.act)
    {
      case SAME:
        if (d.call) resolver(std::forward<A>(args)...);
        else resolver.resolve(std::forward<A>(args)...);
        return;
      case ONE:
        if (d.call) { Val v(d.id); resolver(std::move(v)); }
        else resolver.resolve(Val(d.id));
        return;
      case TWO: resolver.resolve(Val(d.id), Val(d.id + 1)); return;
      case NONE: if (d.call) resolver(); else resolver.resolve(); return;
      case TERM: resolver.terminate(); return;
      default: break;
    }
    if constexpr (CanReject)
    {
      if (d.act == REJ0) resolver.reject(Err<0>{Val(d.id)});
      else if (d.act == REJ1)
      {
        Err<1> e{Val(d.id)};
        resolver.reject(e);
      }
      else resolver.reject(Err<2>{Val(d.id)}, Val(d.id + 1));
    }
  }

  // later answers use copies of the values
  template <bool CanReject, typename Resolver>
  void act_later(Run* r, int leaf, Decision d, Resolver& resolver, std::vector<u64> ids)
  {
    vmon::count("answers given later");
    r->queue.emplace_back(leaf, [d, &resolver, ids]
    {
      if (d.act != SAME) act<CanReject>(d, resolver);
      else if (ids.size() == 0) act<CanReject>(d, resolver);
      else if (ids.size() == 1) act<CanReject>(d, resolver, Val(ids[0]));
      else act<CanReject>(d, resolver, Val(ids[0]), Val(ids[1]));
    });
  }

  // what a parameter taken by value does to its argument
  template <typename A> void take(A& a) { (void)a.get(); }
  inline void take(Val&& a) { Val mine(std::move(a)); }
  template <typename A> requires requires (A& a) { a.val.get(); } void take(A&& a) { Val mine(std::move(a.val)); }

  // ---- the functions of the stages
  struct Leaf { Token t; Leaf(Run* r, int i) : t(r, i) { } Run* r() const { return t.r; } int i() const { return t.leaf; } };

  struct FnStage : Leaf
  {
    using Leaf::Leaf;
    template <typename ...A>
    Val operator()(A&&... a) const
    { t.touch(); note(r(), i(), a...); Val x(fold(i(), {a.get()...})); (take(std::forward<A>(a)), ...); return x; }
  };
  struct FwdStage : Leaf
  {
    using Leaf::Leaf;
    Val operator()() const { t.touch(); note(r(), i()); return Val(i()); }
    template <typename A>
    decltype(auto) operator()(A&& a) const { t.touch(); note(r(), i(), a); return std::forward<A>(a); }
    template <typename A, typename B>
    Val operator()(A&& a, B&& b) const { t.touch(); note(r(), i(), a, b); return Val(fold(i(), {a.get(), b.get()})); }
  };
  struct CRefStage : Leaf
  {
    std::shared_ptr<Val> mine;
    CRefStage(Run* r, int i) : Leaf(r, i), mine(std::make_shared<Val>(h3(i, 5, 5))) { }
    template <typename ...A>
    Val const& operator()(A&&... a) const { t.touch(); note(r(), i(), a...); (take(std::forward<A>(a)), ...); return *mine; }
  };
  struct VoidStage : Leaf
  {
    using Leaf::Leaf;
    template <typename ...A>
    void operator()(A&&... a) const { t.touch(); note(r(), i(), a...); (take(std::forward<A>(a)), ...); }
  };
  template <bool CanReject>
  struct PromStage : Leaf
  {
    using Leaf::Leaf;
    template <typename Resolver, typename ...A>
    void operator()(Resolver& resolver, A&&... a)
    {
      t.touch();
      int step = r()->step;
      Decision d = decide(r(), step, CanReject);
      note(r(), i(), a...);
      vmon::count(d.act <= NONE ? "promises resolved" : d.act == TERM ? "promises terminated" : "promises rejected");
      if (d.later) act_later<CanReject>(r(), i(), d, resolver, {a.get()...});
      else act<CanReject>(d, resolver, std::forward<A>(a)...);
    }
  };
  struct TapStage : Leaf
  {
    using Leaf::Leaf;
    template <typename ...A>
    void operator()(A&&... a) const { t.touch(); note(r(), i(), a...); (take(std::forward<A>(a)), ...); }
  };
  struct TapChange : Leaf
  {
    using Leaf::Leaf;
    template <typename ...A>
    void operator()(A&&... a) const
    {
      t.touch();
      note(r(), i(), a...);
      auto change = [&](auto& v)
      { if constexpr (!std::is_const_v<std::remove_reference_t<decltype(v)>>) v.set(h3(v.get(), i(), 9)); };
      (change(a), ...);
    }
  };
  struct TryStage : Leaf
  {
    using Leaf::Leaf;
    template <typename ...A>
    Val operator()(A&&... a) const
    {
      t.touch();
      u64 d = r()->dec(r()->step, 1) % 8;
      note(r(), i(), a...);
      if (d == 0) throw MyErr(r()->dec(r()->step - 1, 2));
      if (d == 1) throw 5;
      return Val(fold(i(), {a.get()...}));
    }
  };

  template <typename T> constexpr int rej_of = -1;
  template <int K> constexpr int rej_of<Err<K>> = K;
  template <> constexpr int rej_of<std::runtime_error> = REXC;
  template <> constexpr int rej_of<std::exception> = REXC;

  template <int Mask, typename E, int R>
  constexpr bool accepts = rej_of<E> == R && ((Mask >> R) & 1) == 1;

  template <int Mask>
  struct CatchStage : Leaf
  {
    using Leaf::Leaf;
    template <typename E>
      requires (accepts<Mask, std::decay_t<E>, R0> || (accepts<Mask, std::decay_t<E>, R1> && Mask == (1 << RN) - 1))
    void operator()(E&& e)
    { t.touch(); note(r(), i(), e.val); vmon::count("rejections handled"); }
    // a rejection with an lvalue is handled in place
    template <typename E>
      requires (accepts<Mask, E, R1> && Mask != (1 << RN) - 1)
    void operator()(E& e)
    { t.touch(); note(r(), i(), e.val); e.val.set(0); vmon::count("rejections handled"); vmon::count("rejections handled in place"); }
    template <typename V>
      requires (((Mask >> R2) & 1) == 1)
    void operator()(Err<2>&& e, V&& v)
    { t.touch(); note(r(), i(), e.val, v); vmon::count("rejections handled"); }
    template <typename E>
      requires (accepts<Mask, std::decay_t<E>, REXC>)
    void operator()(E&& e)
    {
      t.touch();
      auto const* m = dynamic_cast<MyErr const*>(&e);
      note(r(), i(), Val(m ? m->id : 1));
      vmon::count("rejections handled");
    }
  };

  // the value made is handed on by the promise's owner later, through the address it was made at
  template <bool CanReject>
  struct LazyStage : Leaf
  {
    using Leaf::Leaf;
    struct Made
    {
      Run* r;
      Val val;
      Made(Run* r, u64 id, std::shared_ptr<Made*> self) : r(r), val(id) { *self = this; ++r->held_live; ++r->held_made; }
      Made(Made const&) = delete;
      ~Made() { --r->held_live; }
    };
    template <typename Resolver, typename ...A>
    Made operator()(Resolver& resolver, A&&... a) const
    {
      t.touch();
      int step = r()->step;
      Decision d = decide(r(), step, CanReject);
      note(r(), i(), a...);
      vmon::count("values held lazily");
      auto self = std::make_shared<Made*>(nullptr);
      Run* run = r();
      run->queue.emplace_back(i(), [d, &resolver, self, run]
      {
        if (run->held_live < 1) viol("the value made by hold_lazy is gone before its pipeline went on");
        act<CanReject>(d, resolver, (*self)->val);
      });
      return Made(run, h3(d.id, 3, 3), self);
    }
  };

  // runs a pipeline of its own and answers from its end
  struct InnerToken
  {
    Run* r;
    explicit InnerToken(Run* r) : r(r) { ++r->spawned_live; }
    InnerToken(InnerToken const& o) : r(o.r) { ++r->spawned_live; }
    ~InnerToken() { --r->spawned_live; }
  };
  template <bool CanReject>
  struct SpawnStage : Leaf
  {
    using Leaf::Leaf;
    template <typename Resolver, typename ...A>
    void operator()(Resolver& resolver, A&&... a)
    {
      t.touch();
      int step = r()->step;
      Decision d = decide(r(), step, CanReject);
      note(r(), i(), a...);
      vmon::count("pipelines started by a stage");
      Run* run = r();
      std::vector<u64> ids{a.get()...};
      int leaf = i();
      nbdl::run_async(nbdl::pipe(
        [x = InnerToken(run)] { }
      , nbdl::promise([x = InnerToken(run), d, leaf](auto& inner)
        {
          if (d.later) x.r->queue.emplace_back(leaf, [&inner, d]
            { if (d.act >= REJ0 && d.act <= REJ2) inner.reject(d.act); else inner.resolve(); });
          else if (d.act >= REJ0 && d.act <= REJ2) inner.reject(d.act);
          else inner.resolve();
        })
      , [x = InnerToken(run), d, &resolver, ids]
        {
          if (d.act != SAME) act<CanReject>(d, resolver);
          else if (ids.size() == 0) act<CanReject>(d, resolver);
          else if (ids.size() == 1) act<CanReject>(d, resolver, Val(ids[0]));
          else act<CanReject>(d, resolver, Val(ids[0]), Val(ids[1]));
        }
      , nbdl::catch_([x = InnerToken(run), d, &resolver](Act) { act<CanReject>(d, resolver); })
      ));
    }
  };

  // ---- shapes
  constexpr u64 shape_seed(int shape) { return h3(SHAPE_BASE + shape, 0x51, 0x17); }
  constexpr int body_len(int shape) { return 2 + static_cast<int>(h3(shape_seed(shape), 1, 1) % 8); }
  constexpr int tail_len(int shape) { return static_cast<int>(h3(shape_seed(shape), 1, 2) % 3); }
  constexpr int leaf_count(int shape) { return body_len(shape) + 1 + tail_len(shape); }
  constexpr Kind kind_at(int shape, int p)
  {
    u64 x = h3(shape_seed(shape), 2, p);
    if (p == 0) return PROM; // so that loops can end
    if (p == body_len(shape)) return CATCHALL;
    if (p > body_len(shape))
    {
      constexpr Kind k[] = {FN, TAP, VOID_, PROM, HOLD, LAZY, TAPMUT, FWD};
      return k[x % 8];
    }
    constexpr Kind k[] = {FN, FWD, CREF, VOID_, PROM, PROM, PROM, TAP, TAPMUT, CATCH, CATCH, CATCH, CATCH, TRY, TRY, HOLD, LAZY, SPAWN, SPAWN, LAZY};
    return k[x % 20];
  }
  constexpr int mask_at(int shape, int p)
  { return kind_at(shape, p) == CATCHALL ? 15 : 1 + static_cast<int>(h3(shape_seed(shape), 3, p) % 15); }
  // at this level a nested pipeline of this many stages begins at p (1: a stage)
  constexpr int group_at(int shape, int level, int p, int end)
  {
    if (level >= 3) return 1;
    u64 x = h3(shape_seed(shape), 4 + level, p);
    if (x % 4 != 0) return 1;
    int n = 1 + static_cast<int>((x >> 8) % 5);
    return n > end - p ? end - p : n;
  }
  constexpr bool nested_at(int shape, int level, int p)
  { return level < 3 && h3(shape_seed(shape), 4 + level, p) % 4 == 0; }

  template <int S, int P>
  auto leaf(Run* r, bool as_lvalue)
  {
    constexpr Kind k = kind_at(S, P);
    constexpr bool rejecting = P < body_len(S);
    (void)as_lvalue;
    if constexpr (k == FN) return FnStage(r, P);
    else if constexpr (k == FWD) return FwdStage(r, P);
    else if constexpr (k == CREF) return CRefStage(r, P);
    else if constexpr (k == VOID_) return VoidStage(r, P);
    else if constexpr (k == PROM) return nbdl::promise(PromStage<rejecting>(r, P));
    else if constexpr (k == TAP) return nbdl::tap(TapStage(r, P));
    else if constexpr (k == TAPMUT) return nbdl::tap(TapChange(r, P));
    else if constexpr (k == TRY) return nbdl::try_(TryStage(r, P));
    else if constexpr (k == CATCH || k == CATCHALL)
    {
      if constexpr (P % 2)
      {
        // a handler which is a variable
        CatchStage<mask_at(S, P)> handler(r, P);
        return nbdl::catch_(handler);
      }
      else
        return nbdl::catch_(CatchStage<mask_at(S, P)>(r, P));
    }
    else if constexpr (k == SPAWN) return nbdl::promise(SpawnStage<rejecting>(r, P));
    else if constexpr (k == LAZY) return nbdl::hold_lazy(LazyStage<rejecting>(r, P));
    else return 0;
  }
  struct HeldVal // copyable, for hold
  {
    Token t;
    Val val;
    HeldVal(Run* r, int i) : t(r, i), val(h3(i, 6, 6)) { }
    HeldVal(HeldVal const& o) : t(o.t), val(o.val.get()) { }
    u64 get() const { t.touch(); return val.get(); }
    void set(u64 i) { val.set(i); }
  };

  template <int S, int Level, int P, int End>
  auto build(Run* r)
  {
    if constexpr (P >= End) return hana::make_tuple();
    else if constexpr (nested_at(S, Level, P))
    {
      constexpr int n = group_at(S, Level, P, End);
      return hana::prepend(build<S, Level, P + n, End>(r), build<S, Level + 1, P, P + n>(r));
    }
    else if constexpr (kind_at(S, P) == HOLD)
      return hana::prepend(build<S, Level, P + 1, End>(r), nbdl::hold(HeldVal(r, P)));
    else
      return hana::prepend(build<S, Level, P + 1, End>(r), leaf<S, P>(r, false));
  }

  std::string describe(int shape)
  {
    std::string s = "shape " + std::to_string(SHAPE_BASE + shape) + ":";
    for (int p = 0; p < leaf_count(shape); ++p)
    {
      s += std::string(" ") + kind_name[kind_at(shape, p)];
      if (kind_at(shape, p) == CATCH) s += "/" + std::to_string(mask_at(shape, p));
    }
    return s;
  }

  // ---- the model
  struct MArg { u64 id; int slot; bool cst; };
  struct Model
  {
    std::vector<Event> log;
    int lazies = 0;
    std::vector<u64> slots;
    std::string how;
  };

  Model predict(Run const& r, std::vector<u64> const& first)
  {
    Model m;
    int const n = r.leaves;
    m.slots.resize(n);
    for (int p = 0; p < n; ++p) if (kind_at(r.shape, p) == HOLD) m.slots[p] = h3(p, 6, 6);
    std::vector<MArg> args;
    for (u64 i : first) args.push_back({i, -1, false});
    int step = 0;
    auto log = [&](int p)
    {
      Event e{p, {}};
      for (auto& a : args) e.args.push_back(a.id);
      m.log.push_back(e);
      ++step;
    };
    int p = 0;
    for (;;)
    {
      if (p == n)
      {
        if (!r.loop) { m.how = "resolved"; return m; }
        p = 0;
        continue;
      }
      Kind k = kind_at(r.shape, p);
      bool rejecting = p < body_len(r.shape);
      int rej = -1;
      std::vector<MArg> e;
      auto ids = [&] { u64 x = p; for (auto& a : args) x = h3(x, a.id, 7); return x; };
      switch (k)
      {
        case FN: log(p); args = {{ids(), -1, false}}; break;
        case FWD:
          log(p);
          if (args.size() == 0) args = {{static_cast<u64>(p), -1, false}};
          else if (args.size() == 2) args = {{ids(), -1, false}};
          break;
        case CREF: log(p); args = {{h3(p, 5, 5), -1, true}}; break;
        case VOID_: log(p); args.clear(); break;
        case TAP: log(p); break;
        case TAPMUT:
          log(p);
          for (auto& a : args)
            if (!a.cst)
            {
              a.id = h3(a.id, p, 9);
              if (a.slot >= 0) m.slots[a.slot] = a.id;
            }
          break;
        case HOLD: args = {{m.slots[p], p, false}}; break;
        case TRY:
        {
          u64 d = r.dec(step, 1) % 8;
          u64 id = r.dec(step, 2);
          log(p);
          if (d == 0) { rej = REXC; e = {{id, -1, false}}; }
          else if (d == 1) { rej = REXC; e = {{1, -1, false}}; }
          else args = {{ids(), -1, false}};
          break;
        }
        case PROM: case SPAWN: case LAZY:
        {
          Decision d = decide(&r, step, rejecting);
          log(p);
          if (k == LAZY) ++m.lazies;
          switch (d.act)
          {
            case SAME:
              if (k == LAZY) args = {{h3(d.id, 3, 3), -1, false}};
              else if (d.later || k == SPAWN) for (auto& a : args) { a.slot = -1; a.cst = false; }
              break;
            case ONE: args = {{d.id, -1, false}}; break;
            case TWO: args = {{d.id, -1, false}, {d.id + 1, -1, false}}; break;
            case NONE: args.clear(); break;
            case TERM: m.how = "terminated"; return m;
            case REJ0: rej = R0; e = {{d.id, -1, false}}; break;
            case REJ1: rej = R1; e = {{d.id, -1, false}}; break;
            case REJ2: rej = R2; e = {{d.id, -1, false}, {d.id + 1, -1, false}}; break;
          }
          break;
        }
        default: break;
      }
      ++p;
      if (rej >= 0)
      {
        for (; p < n; ++p)
          if ((kind_at(r.shape, p) == CATCH || kind_at(r.shape, p) == CATCHALL) && ((mask_at(r.shape, p) >> rej) & 1)) break;
        args = e;
        if (p < n) log(p);
        m.how = "handled";
        return m;
      }
    }
  }

  std::string show(std::vector<Event> const& l, int shape)
  {
    std::string s;
    char buf[24];
    for (auto& e : l)
    {
      s += std::string(" ") + std::to_string(e.stage) + kind_name[kind_at(shape, e.stage)] + "(";
      for (u64 a : e.args) { std::snprintf(buf, sizeof buf, "%llx,", static_cast<unsigned long long>(a & 0xffff)); s += buf; }
      s += ")";
    }
    return s.size() > 1500 ? s.substr(0, 1500) + "..." : s;
  }

  // ---- starting a pipeline: how it is run and whether it is handed over or kept
  enum How : int { ASYNC_MOVE, ASYNC_KEEP, LOOP_MOVE, LOOP_KEEP, SYNC, SYNC_TWICE, HOWS };

  struct Started
  {
    std::unique_ptr<Run> r;
    Model m;
    std::shared_ptr<void> kept;  // the caller's own pipeline
    std::vector<int> kept_live;
    bool done = false;
  };

  constexpr bool has_lazy(int shape)
  {
    for (int p = 0; p < leaf_count(shape); ++p) if (kind_at(shape, p) == LAZY) return true;
    return false;
  }
  constexpr bool has_spawn(int shape)
  {
    for (int p = 0; p < leaf_count(shape); ++p) if (kind_at(shape, p) == SPAWN) return true;
    return false;
  }

  void begin(Run& r)
  {
    r.step = 0;
    r.log.clear();
    r.address.assign(r.leaves, nullptr);
  }

  // a matter of C22 only
  void wrong_order(std::string const& m) { if (!judge_state()) viol(m); }

  template <int S>
  void start(Started& s, How how, bool with_value)
  {
    Run* r = s.r.get();
    r->shape = S;
    r->leaves = leaf_count(S);
    r->live.assign(r->leaves, 0);
    r->loop = how == LOOP_MOVE || how == LOOP_KEEP;
    r->deferring = how != SYNC && how != SYNC_TWICE;
    std::vector<u64> first;
    if (with_value) first = {77};
    s.m = predict(*r, first);
    begin(*r);
    auto go = [&](auto const& run, auto&& pipe)
    {
      if (with_value) run(std::forward<decltype(pipe)>(pipe), Val(77));
      else run(std::forward<decltype(pipe)>(pipe));
    };
    using Pipe = decltype(build<S, 0, 0, leaf_count(S)>(r));
    if (how == ASYNC_MOVE || how == LOOP_MOVE)
    {
      s.kept_live.assign(r->leaves, 0);
      if (how == ASYNC_MOVE) go(nbdl::run_async, build<S, 0, 0, leaf_count(S)>(r));
      else go(nbdl::run_async_loop, build<S, 0, 0, leaf_count(S)>(r));
    }
    else
    {
      auto pipe = std::make_shared<Pipe>(build<S, 0, 0, leaf_count(S)>(r));
      s.kept = pipe;
      s.kept_live = r->live;
      if (how == ASYNC_KEEP) go(nbdl::run_async, *pipe);
      else if (how == LOOP_KEEP) go(nbdl::run_async_loop, *pipe);
      else
      {
        if constexpr (!has_lazy(S))
        {
          go(nbdl::run_sync, *pipe);
          if (how == SYNC_TWICE)
          {
            vmon::count("pipelines run again");
            if (r->log != s.m.log)
              wrong_order("a pipeline run synchronously does not run its stages as written; " + describe(S) + "\n expected" +
                            show(s.m.log, S) + "\n observed" + show(r->log, S));
            begin(*r);
            go(nbdl::run_sync, *pipe);
          }
        }
      }
    }
  }

  template <std::size_t ...I>
  constexpr auto starters(std::index_sequence<I...>)
  { return std::array<void (*)(Started&, How, bool), sizeof...(I)>{&start<static_cast<int>(I)>...}; }
  constexpr auto start_table = starters(std::make_index_sequence<SHAPES>{});

#ifdef PART_STATE
  constexpr bool state_part = true;
#else
  constexpr bool state_part = false;
#endif
  bool judge_state() { return state_part; }

  void judge(Started& s, bool at_end)
  {
    Run& r = *s.r;
    std::string const d = describe(r.shape);
    bool const running = !r.queue.empty();
    if (r.queue.size() > 1) wrong_order("two stages of one pipeline are at work at once; " + d);
    if (running)
    {
      // so far exactly a prefix
      if (r.log.size() > s.m.log.size() || !std::equal(r.log.begin(), r.log.end(), s.m.log.begin()))
        wrong_order("a pipeline does not run its stages as written; " + d + "\n expected" + show(s.m.log, r.shape) + "\n observed" + show(r.log, r.shape));
    }
    else if (!s.done)
    {
      s.done = true;
      vmon::count("pipelines " + s.m.how);
      if (r.log != s.m.log)
        wrong_order("a pipeline does not run its stages as written; " + d + "\n expected" + show(s.m.log, r.shape) + "\n observed" + show(r.log, r.shape));
    }
    if (judge_state())
    {
      for (int p = 0; p < r.leaves; ++p)
      {
        int want = s.kept_live[p] + (running ? 1 : 0);
        vmon::count(running ? "stage states seen alive" : "stage states seen gone");
        if (running ? r.live[p] < want : r.live[p] != want)
          viol("there are " + std::to_string(r.live[p]) + " instead of " + std::to_string(want) + " live states of stage " + std::to_string(p) +
                        " (" + kind_name[kind_at(r.shape, p)] + ") " + (running ? "while the pipeline runs" : "after the pipeline ended") + " (" + s.m.how + "); " + d);
      }
      if (!running && r.spawned_live) viol("state of a pipeline run by a stage is left; " + d);
      int lazies_in_shape = 0;
      for (int p = 0; p < r.leaves; ++p) lazies_in_shape += kind_at(r.shape, p) == LAZY;
      if (running ? r.held_live > lazies_in_shape : r.held_live != 0)
        viol(std::to_string(r.held_live) + " values of hold_lazy are alive " + (running ? "while the pipeline runs; " : "after the pipeline ended; ") + d);
    }
    if (at_end && s.kept)
    {
      s.kept.reset();
      if (judge_state())
        for (int p = 0; p < r.leaves; ++p)
          if (r.live[p] != 0) viol("state of stage " + std::to_string(p) + " is never destroyed; " + d);
    }
  }

  void run_case(vmon::Rng& rng, std::vector<How> const& hows)
  {
    std::vector<std::unique_ptr<Started>> all;
    int n = 1 + rng.below(4);
    u64 hash = 0;
    for (int i = 0; i < n; ++i)
    {
      auto s = std::make_unique<Started>();
      s->r = std::make_unique<Run>();
      s->r->seed = rng.next();
      int shape = rng.below(SHAPES);
      How how = rng.pick(hows);
      // synchronous runs cannot wait
      if ((how == SYNC || how == SYNC_TWICE) && (has_lazy(shape))) how = ASYNC_KEEP;
      bool with_value = rng.coin();
      hash = h3(hash, shape * 64 + how * 2 + with_value, s->r->seed % 4096);
      start_table[shape](*s, how, with_value);
      judge(*s, false);
      all.push_back(std::move(s));
      vmon::count("pipelines started");
    }
    for (;;)
    {
      std::vector<Started*> open;
      for (auto& s : all) if (!s->r->queue.empty()) open.push_back(s.get());
      if (open.empty()) break;
      Started* s = rng.pick(open);
      // the caller's own pipeline may go away any time
      if (s->kept && rng.chance(1, 5))
      {
        s->kept.reset();
        for (auto& k : s->kept_live) k = 0;
        vmon::count("callers' pipelines dropped early");
        judge(*s, false);
      }
      auto f = std::move(s->r->queue.front().second);
      s->r->queue.erase(s->r->queue.begin());
      f();
      judge(*s, false);
    }
    for (auto& s : all)
    {
      judge(*s, true);
      vmon::count("stages run", s->r->log.size());
    }
    vmon::distinct(hash);
    if (vmon::st().samples.size() < 5) vmon::sample(describe(all[0]->r->shape) + " ran" + show(all[0]->r->log, all[0]->r->shape) + " and was " + all[0]->m.how);
  }
}

namespace
{
  void async_(vmon::Rng& rng) { run_case(rng, {ASYNC_MOVE, ASYNC_KEEP}); }
  void loops(vmon::Rng& rng) { run_case(rng, {LOOP_MOVE, LOOP_KEEP}); }
  void sync_(vmon::Rng& rng) { run_case(rng, {SYNC, SYNC_TWICE}); }
}
VMON_MODE("async", async_, "pipelines started", "pipelines resolved", "pipelines handled", "pipelines terminated")
VMON_MODE("loops", loops, "pipelines started", "pipelines handled", "pipelines terminated")
VMON_MODE("sync", sync_, "pipelines started", "pipelines resolved", "pipelines handled", "pipelines terminated")
VMON_MAIN
