// C13: equality, hashes and identifiers.
#include "vmon.hpp"
#include <boost/hana.hpp>
#include <nbdl/binder/hash.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/key.hpp>
#include <nbdl/message.hpp>
#include <nbdl/string.hpp>
#include <nbdl/uid.hpp>
#include <nbdl/variant.hpp>
#include <set>
#include <thread>
#include <unordered_map>
#include <unordered_set>
namespace hana = boost::hana;
using vmon::Rng;

namespace eq
{
  struct none { };
  struct leaf { unsigned id; nbdl::string name; };
  struct single { int only; };
  using choice = nbdl::variant<int, nbdl::string, leaf, none, unsigned>;
  using maybe = nbdl::optional<leaf>;
  struct big { bool flag; int a; int b; nbdl::string s; leaf inner; choice pick; maybe opt; std::vector<int> list; double real; single one; nbdl::uid id; };
  struct six { int a, b, c, d, e, f; };
  struct tagged { int id; std::unordered_set<std::string> tags; std::unordered_multiset<int> marks; std::set<int> order; };
}
namespace nbdl
{
  NBDL_ENTITY(eq::leaf, id, name);
  NBDL_ENTITY(eq::single, only);
  NBDL_ENTITY(eq::big, flag, a, b, s, inner, pick, opt, list, real, one, id);
  NBDL_ENTITY(eq::six, a, b, c, d, e, f);
  NBDL_ENTITY(eq::tagged, id, tags, marks, order);
}

namespace
{
  using namespace eq;
  namespace msg = nbdl::message;

  // values come from a tiny domain, so that equal parts are common
  struct gen
  {
    Rng& r;
    void operator()(bool& x) const { x = r.coin(); }
    void operator()(int& x) const { x = r.chance(1, 6) ? static_cast<int>(r.next()) : static_cast<int>(r.range(-1, 2)); }
    void operator()(unsigned& x) const { x = r.chance(1, 6) ? static_cast<unsigned>(r.next()) : static_cast<unsigned>(r.below(3)); }
    void operator()(double& x) const { x = r.pick({0.0, -0.0, 1.0, 1.5, -1.0, 1e300}); }
    void operator()(nbdl::string& x) const { x = r.chance(1, 4) ? r.bytes(r.below(40)) : r.from("ab", r.below(3)); }
    void operator()(std::string& x) const { x = r.from("abc", r.below(4)); }
    void operator()(std::vector<int>& x) const { x.resize(r.below(3)); for (auto& e : x) (*this)(e); }
    void operator()(none&) const { }
    void operator()(nbdl::unresolved&) const { }
    void operator()(nbdl::nothing&) const { }
    void operator()(leaf& x) const { (*this)(x.id); (*this)(x.name); }
    void operator()(single& x) const { (*this)(x.only); }
    void operator()(six& x) const { for (int* p : {&x.a, &x.b, &x.c, &x.d, &x.e, &x.f}) (*this)(*p); }
    void operator()(nbdl::uid& x) const { for (auto& c : x) c = static_cast<unsigned char>(r.chance(1, 20) ? r.next() : 0); }
    void operator()(big& x) const
    {
      (*this)(x.flag); (*this)(x.a); (*this)(x.b); (*this)(x.s); (*this)(x.inner); (*this)(x.pick); (*this)(x.opt); (*this)(x.list); (*this)(x.real);
      (*this)(x.one); (*this)(x.id);
    }
    template <typename ...T> void operator()(nbdl::detail::variant<T...>& x) const
    { auto k = r.below(sizeof...(T)), i = std::size_t{0}; ([&] { if (i++ == k) { T v{}; (*this)(v); x.value_ = std::move(v); } }(), ...); }
    template <typename ...T> void operator()(hana::tuple<T...>& x) const { hana::for_each(x, *this); }
  };

  bool same(double a, double b) { return a == b; }
  template <typename T> requires std::is_integral_v<T> bool same(T a, T b) { return a == b; }
  bool same(std::string const& a, std::string const& b) { return a.size() == b.size() && std::memcmp(a.data(), b.data(), a.size()) == 0; }
  bool same(std::vector<int> const& a, std::vector<int> const& b) { return a == b; }
  template <typename T> requires std::is_empty_v<T> bool same(T const&, T const&) { return true; }
  bool same(leaf const& a, leaf const& b) { return a.id == b.id && same(a.name, b.name); }
  bool same(single const& a, single const& b) { return a.only == b.only; }
  bool same(six const& a, six const& b) { return a.a == b.a && a.b == b.b && a.c == b.c && a.d == b.d && a.e == b.e && a.f == b.f; }
  bool same(nbdl::uid const& a, nbdl::uid const& b) { for (std::size_t i = 0; i < 16; ++i) if (a.data()[i] != b.data()[i]) return false; return true; }
  template <typename ...T> bool same(nbdl::detail::variant<T...> const& a, nbdl::detail::variant<T...> const& b)
  {
    if (a.value_.index() != b.value_.index()) return false;
    return std::visit([&](auto const& x) { return same(x, std::get<std::decay_t<decltype(x)>>(b.value_)); }, a.value_);
  }
  bool same(big const& a, big const& b)
  {
    return a.flag == b.flag && a.a == b.a && a.b == b.b && same(a.s, b.s) && same(a.inner, b.inner) && same(a.pick, b.pick) && same(a.opt, b.opt)
      && a.list == b.list && same(a.real, b.real) && same(a.one, b.one) && same(a.id, b.id);
  }
  template <typename A, typename ...T> bool same(hana::tuple<A, T...> const& a, hana::tuple<A, T...> const& b)
  { return hana::unpack(a, [&](auto const& ...x) { return hana::unpack(b, [&](auto const& ...y) { return (same(x, y) && ...); }); }); }

  // y becomes x with one part taken anew
  template <typename T> void touch(Rng& r, T& y) { gen{r}(y); }
  void touch(Rng& r, leaf& y) { if (r.coin()) gen{r}(y.id); else gen{r}(y.name); }
  void touch(Rng& r, six& y) { gen{r}(*r.pick({&y.a, &y.b, &y.c, &y.d, &y.e, &y.f})); }
  void touch(Rng& r, nbdl::uid& y) { y[r.below(16)] ^= static_cast<unsigned char>(1u << r.below(8)); }
  void touch(Rng& r, big& y)
  {
    switch (r.below(11))
    { case 0: gen{r}(y.flag); break; case 1: gen{r}(y.a); break; case 2: gen{r}(y.b); break; case 3: gen{r}(y.s); break;
      case 4: touch(r, y.inner); break; case 5: gen{r}(y.pick); break; case 6: gen{r}(y.opt); break; case 7: gen{r}(y.list); break;
      case 8: gen{r}(y.real); break; case 9: gen{r}(y.one); break; default: touch(r, y.id); }
  }
  template <typename A, typename ...T> void touch(Rng& r, hana::tuple<A, T...>& y)
  { auto k = r.below(1 + sizeof...(T)); std::size_t i = 0; hana::for_each(y, [&](auto& e) { if (i++ == k) touch(r, e); }); }

  template <typename T>
  void pairs(Rng& r, char const* name)
  {
    T x{}, y{};
    gen{r}(x);
    switch (r.below(4)) { case 0: y = x; break; case 1: gen{r}(y); break; default: y = x; touch(r, y); }
    bool const want = same(x, y);
    std::string ctx = std::string(name) + " seed " + std::to_string(vmon::st().index);
    T const& cx = x; T const& cy = y;
    vmon::check(static_cast<bool>(hana::equal(cx, cy)) == want, "equal", ctx + (want ? ": equal values compare unequal" : ": different values compare equal"));
    vmon::check(static_cast<bool>(hana::equal(cy, cx)) == want, "equal-symmetric", ctx);
    vmon::check(static_cast<bool>(hana::not_equal(cx, cy)) == !want, "not-equal", ctx);
    T const z = x;
    vmon::check(static_cast<bool>(hana::equal(x, z)) && hana::equal(x, x), "equal-copy", ctx);
    vmon::count(want ? "equal_pairs" : "different_pairs");
    auto hx = nbdl::binder::hash(cx), hy = nbdl::binder::hash(cy);
    vmon::check(nbdl::binder::hash(z) == hx, "hash-copy", ctx);
    if (want) vmon::check(hx == hy, "hash-of-equal", ctx);
    else { vmon::count("hash_pairs"); if (hx == hy) vmon::count("hash_collisions"); }
    vmon::distinct(hx * 31 + hy);
  }

  using deep_path = hana::tuple<nbdl::string, unsigned, choice>;
#define SHAPES(X) X("leaf", leaf) X("single", single) X("six", six) X("big", big) X("choice", choice) X("maybe", maybe) X("uid", nbdl::uid) \
  X("tuple", deep_path)
  void c13_pairs(Rng& r)
  {
    unsigned k = static_cast<unsigned>(vmon::st().index % 8), i = 0;
#define X(N, T) if (i++ == k) pairs<T>(r, N);
    SHAPES(X)
#undef X
  }

  // every single member, alone, decides equality; and the hash looks at every member
  template <typename T>
  void one_part(Rng& r, char const* name)
  {
    // hashes of many values differing from one base in one part: nearly all different
    T base{}; gen{r}(base);
    std::vector<T> vals{base};
    std::unordered_set<std::size_t> hashes{nbdl::binder::hash(base)};
    for (int i = 0; i < 200; ++i)
    {
      T y = base; touch(r, y);
      bool fresh = true;
      for (auto& v : vals) if (same(v, y)) fresh = false;
      for (auto& v : vals) vmon::check(static_cast<bool>(hana::equal(v, y)) == same(v, y), "equal", name);
      if (fresh) { vals.push_back(y); hashes.insert(nbdl::binder::hash(y)); }
    }
    vmon::count("neighbours", vals.size());
    vmon::count("neighbour_hashes", hashes.size());
    vmon::check(hashes.size() * 2 >= vals.size(), "hash-blind", std::string(name) + ": " + std::to_string(vals.size()) + " different values share "
      + std::to_string(hashes.size()) + " hashes");
    vmon::distinct(nbdl::binder::hash(base));
  }
  void c13_parts(Rng& r)
  {
    unsigned k = static_cast<unsigned>(vmon::st().index % 8), i = 0;
#define X(N, T) if (i++ == k) one_part<T>(r, N);
    SHAPES(X)
#undef X
  }

  // each member of an entity on its own must matter to the hash (two values differing only there)
  void c13_members(Rng& r)
  {
    auto differs = [&](auto name, auto const& make) {
      unsigned diff = 0, n = 0;
      for (int i = 0; i < 40; ++i)
      {
        auto [x, y] = make();
        if (same(x, y)) continue;
        ++n;
        if (nbdl::binder::hash(x) != nbdl::binder::hash(y)) ++diff;
        vmon::check(!hana::equal(x, y), "equal-member", name);
      }
      vmon::count("member_pairs", n);
      vmon::check(n == 0 || diff > 0, "hash-ignores-member", std::string(name) + ": " + std::to_string(n) + " pairs differing only there all collide");
    };
#define M(T, m) differs(#T "::" #m, [&] { T x{}; gen{r}(x); T y = x; gen{r}(y.m); return std::make_pair(x, y); });
    M(leaf, id) M(leaf, name) M(single, only) M(six, a) M(six, b) M(six, c) M(six, d) M(six, e) M(six, f)
    M(big, flag) M(big, a) M(big, b) M(big, s) M(big, inner) M(big, pick) M(big, opt) M(big, list) M(big, real) M(big, one) M(big, id)
    // order matters somewhere: swapping two members is not always invisible
    differs("six swapped", [&] { six x{}; gen{r}(x); six y = x; std::swap(y.a, y.f); std::swap(y.b, y.c); return std::make_pair(x, y); });
    differs("alternatives with the same value", [&] { int v = static_cast<int>(r.below(5)); return std::make_pair(choice{v}, choice{static_cast<unsigned>(v)}); });
    differs("empty alternatives", [&] { return std::make_pair(choice{}, choice{none{}}); });
    vmon::distinct(r.next());
  }

  template <typename T>
  void container(Rng& r, char const* name)
  {
    std::unordered_map<T, int, nbdl::binder::hash_fn, hana::equal_t> m;
    std::vector<std::pair<T, int>> model;
    for (int i = 0; i < 120; ++i)
    {
      T k{};
      if (!model.empty() && r.coin()) { k = r.pick(model).first; if (r.coin()) touch(r, k); } else gen{r}(k);
      auto it = std::find_if(model.begin(), model.end(), [&](auto& e) { return same(e.first, k); });
      auto f = m.find(k);
      vmon::check((f != m.end()) == (it != model.end()), "container-find", name);
      if (f != m.end() && it != model.end()) vmon::check(f->second == it->second && same(f->first, k), "container-value", name);
      if (r.chance(1, 4)) { auto n = m.erase(k); vmon::check(n == (it != model.end() ? 1u : 0u), "container-erase", name); if (it != model.end()) model.erase(it); }
      else { m[k] = i; if (it != model.end()) it->second = i; else model.emplace_back(k, i); }
      vmon::check(m.size() == model.size(), "container-size", name);
      vmon::count("container_steps");
    }
    for (auto& [k, v] : model) { auto f = m.find(k); vmon::check(f != m.end() && f->second == v, "container-final", name); }
    vmon::distinct(r.next());
  }
  void c13_containers(Rng& r)
  {
    unsigned k = static_cast<unsigned>(vmon::st().index % 8), i = 0;
#define X(N, T) if (i++ == k) container<T>(r, N);
    SHAPES(X)
#undef X
  }

  // sets: the same elements put in along another way, in another order and with another number of buckets
  template <typename S>
  S build(Rng& r, std::vector<typename S::value_type> const& elements)
  {
    S s{};
    if constexpr (requires { s.rehash(1); }) if (r.coin()) s.rehash(1 + r.below(400));
    auto order = elements;
    for (std::size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
    for (auto& e : order)
    {
      s.insert(e);
      if (r.chance(1, 5)) { typename S::value_type x{}; gen{r}(x); if (!s.count(x)) { s.insert(x); s.erase(x); } }
    }
    if constexpr (requires { s.rehash(1); }) if (r.coin()) s.rehash(r.below(2) ? 0 : 1 + r.below(400));
    return s;
  }
  template <typename S>
  std::size_t one_set(Rng& r, char const* name)
  {
    std::vector<typename S::value_type> a, b;
    for (auto n = r.chance(1, 4) ? r.below(120) : r.below(6); n--;) { typename S::value_type x{}; gen{r}(x); a.push_back(x); }
    b = a;
    if (r.coin()) { if (!b.empty() && r.coin()) b.erase(b.begin() + static_cast<std::ptrdiff_t>(r.below(b.size()))); else { typename S::value_type x{}; gen{r}(x); b.push_back(x); } }
    S const x = build<S>(r, a), y = build<S>(r, b);
    std::vector<typename S::value_type> l(x.begin(), x.end()), m(y.begin(), y.end());
    std::sort(l.begin(), l.end()); std::sort(m.begin(), m.end());
    bool const want = l == m;
    auto hx = nbdl::binder::hash(x), hy = nbdl::binder::hash(y);
    vmon::check(static_cast<bool>(hana::equal(x, y)) == want, "equal", name);
    if (want) { vmon::count("equal_sets"); vmon::check(hx == hy, "hash-of-equal", std::string(name) + " of " + std::to_string(l.size()) + " elements"); }
    else { vmon::count("different_sets"); if (hx != hy) vmon::count("told_apart"); }
    if (!std::equal(x.begin(), x.end(), y.begin(), y.end()) && want) vmon::count("other_orders");
    return hx * 31 + hy;
  }
  void c13_sets(Rng& r)
  {
    std::size_t d = 0;
    for (int i = 0; i < 20; ++i)
    {
      d += one_set<std::unordered_set<int>>(r, "unordered set");
      d += one_set<std::unordered_set<std::string>>(r, "unordered set of strings");
      d += one_set<std::unordered_multiset<int>>(r, "unordered multiset");
      d += one_set<std::set<int>>(r, "set");
      // members of an entity and of a variant
      std::vector<std::string> tags; std::vector<int> marks;
      for (auto n = r.below(30); n--;) { std::string s; gen{r}(s); tags.push_back(s); marks.push_back(static_cast<int>(r.below(9))); }
      using V = nbdl::variant<int, tagged>;
      tagged x{}, y{}; gen{r}(x.id); y.id = x.id;
      for (auto* e : {&x, &y})
      { e->tags = build<std::unordered_set<std::string>>(r, tags); e->marks = build<std::unordered_multiset<int>>(r, marks); e->order = build<std::set<int>>(r, marks); }
      vmon::check(hana::equal(x, y), "equal", "entity with sets");
      vmon::check(nbdl::binder::hash(x) == nbdl::binder::hash(y), "hash-of-equal", "entity with sets of " + std::to_string(tags.size()) + " elements");
      vmon::check(nbdl::binder::hash(V{x}) == nbdl::binder::hash(V{y}), "hash-of-equal", "variant of an entity with sets");
      std::unordered_set<tagged, nbdl::binder::hash_fn, hana::equal_t> keys; keys.insert(x);
      vmon::check(keys.find(y) != keys.end(), "container-find", "entity with sets");
    }
    vmon::distinct(d);
  }

  // keys and identifiers
  void c13_ids(Rng& r)
  {
    struct E { };
    using K = nbdl::key<E>;
    auto a = static_cast<std::uint32_t>(r.below(4)), b = static_cast<std::uint32_t>(r.below(4));
    vmon::check((K{a} == K{b}) == (a == b), "key-equal", std::to_string(a));
    auto g = nbdl::make_uid_generator();
    auto g2 = g; (void) g2;
    std::unordered_set<nbdl::uid> seen;
    std::set<std::string> model;
    for (int i = 0; i < 400; ++i)
    {
      nbdl::uid u = g();
      nbdl::uid c{u}, d{};
      d = c;
      std::string bytes(u.begin(), u.end());
      vmon::check(bytes.size() == 16 && u.size() == 16, "uid-size", "");
      vmon::check(c == u && d == u && !(c != u) && hana::equal(c, u), "uid-copy", vmon::show(bytes));
      vmon::check(std::hash<nbdl::uid>{}(c) == std::hash<nbdl::uid>{}(u) && nbdl::binder::hash(c) == nbdl::binder::hash(u), "uid-hash", vmon::show(bytes));
      vmon::check(model.insert(bytes).second, "uid-repeated", vmon::show(bytes));
      vmon::check(seen.insert(u).second, "uid-set", vmon::show(bytes));
      auto e = u; e[r.below(16)] ^= static_cast<unsigned char>(1 + r.below(255));
      vmon::check(e != u && !(e == u) && !hana::equal(e, u), "uid-one-byte", vmon::show(bytes));
      nbdl::uid p = g(), q = g();
      nbdl::uid p0 = p, q0 = q;
      swap(p, q); vmon::check(p == q0 && q == p0, "uid-swap", "");
      std::swap(p, q); vmon::check(p == p0 && q == q0, "uid-std-swap", "");
      vmon::check(seen.count(u) == 1, "uid-find", "");
      vmon::count("uids");
    }
    vmon::distinct(r.next());
  }
}

#if defined(PART_UID) || defined(EMSCRIPTEN)
namespace
{
  // at each position of the identifiers each value comes up, about as often as any other, whatever its neighbours are
  template <typename All> void judge_bytes(All const& all)
  {
    auto const fair = all.size() / 256;
    for (std::size_t i = 0; i < 16; ++i)
    {
      std::size_t seen[256] = {}, like_next = 0;
      for (auto& s : all) { ++seen[static_cast<unsigned char>(s[i])]; like_next += s[i] == s[(i + 1) % 16]; }
      for (int v = 0; v < 256; ++v)
        vmon::check(seen[v] > fair / 2 && seen[v] < fair * 2, "uid-byte-uneven", "byte " + std::to_string(i) + " is " + std::to_string(v) + " in " + std::to_string(seen[v]) + " of " + std::to_string(all.size()));
      vmon::check(like_next < fair * 2, "uid-bytes-alike", std::to_string(i));
    }
  }
}
#endif

#ifdef PART_UID
namespace
{
  // many generators, one after another and on many threads
  void c13_generators(Rng& r)
  {
    std::size_t const n = 40000, threads = 8;
    std::vector<std::vector<std::string>> got(threads);
    std::vector<std::thread> ts;
    auto per = 1 + r.below(2);
    for (std::size_t t = 0; t < threads; ++t)
      ts.emplace_back([&, t] {
        for (std::size_t i = 0; i < n; ++i)
        { auto g = nbdl::make_uid_generator(); for (std::size_t j = 0; j < per; ++j) { auto u = g(); got[t].emplace_back(u.begin(), u.end()); } }
      });
    for (auto& t : ts) t.join();
    std::unordered_set<std::string> all;
    std::size_t total = 0;
    for (auto& v : got) for (auto& s : v) { ++total; if (!all.insert(s).second) vmon::violate("uid-repeated-across-generators", vmon::show(s)); }
    vmon::count("generators", n * threads); vmon::count("uids", total);
    judge_bytes(all);
    vmon::distinct(*all.begin());
  }
}
VMON_MODE("generators", c13_generators, "generators", "uids")
#elif defined(EMSCRIPTEN)
namespace
{
  // the generators of the web take each byte from JavaScript's random numbers
  void c13_web_ids(Rng& r)
  {
    emscripten_random_source() = [&r] { return static_cast<float>(r.next() >> 40) / 16777216.0f; };
    std::unordered_set<std::string> all;
    std::size_t const n = 16 + r.below(32);
    for (std::size_t i = 0; i < n; ++i)
    {
      auto g = nbdl::make_uid_generator();
      auto h = g;
      for (std::size_t j = 0; j < 65536 / n; ++j)
      {
        auto u = r.coin() ? g() : h();
        vmon::check(u.size() == 16, "uid-size", std::to_string(u.size()));
        if (!all.emplace(u.begin(), u.end()).second) vmon::violate("uid-repeated", vmon::show(std::string(u.begin(), u.end())));
      }
    }
    judge_bytes(all);
    // the ends of the range of random numbers
    for (float end : {0.0f, 0.99999994f, 0.5f, 1.0f / 256, 255.0f / 256})
    {
      emscripten_random_source() = [end] { return end; };
      auto u = nbdl::make_uid_generator()();
      vmon::check(u == u && u.size() == 16, "uid-end", std::to_string(end));
      vmon::count("ends");
    }
    vmon::count("uids", all.size());
    vmon::distinct(*all.begin());
  }
}
VMON_MODE("web-ids", c13_web_ids, "uids", "ends")
#else
VMON_MODE("pairs", c13_pairs, "equal_pairs", "different_pairs", "hash_pairs")
VMON_MODE("parts", c13_parts, "neighbours", "neighbour_hashes")
VMON_MODE("members", c13_members, "member_pairs")
VMON_MODE("containers", c13_containers, "container_steps")
VMON_MODE("sets", c13_sets, "equal_sets", "different_sets", "told_apart", "other_orders")
VMON_MODE("ids", c13_ids, "uids")
#endif
VMON_MAIN
