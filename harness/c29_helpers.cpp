// C29: string and list helpers of the run time and of the compile time against run time models.
#include <boost/hana.hpp>
namespace hana = boost::hana;
#include <mpdef/append_if.hpp>
#include <mpdef/collect_settings.hpp>
#include <mpdef/compose_collectors.hpp>
#include <mpdef/find_in_tree.hpp>
#include <mpdef/group_by.hpp>
#include <mpdef/list.hpp>
#include <mpdef/map.hpp>
#include <mpdef/pair.hpp>
#include <mpdef/string.hpp>
#include <mpdef/tree_node.hpp>
#include <nbdl/detail/filter_empties.hpp>
#include <nbdl/detail/string_concat.hpp>
#include "vmon.hpp"
#include <array>
#include <memory>
#include <optional>
using vmon::Rng;

#ifndef SEED
#define SEED 1
#endif

namespace
{
  // ---- run time strings ----
  std::string some_string(Rng& r, bool nul)
  {
    std::size_t const n = r.chance(1, 4) ? 0 : r.chance(1, 8) ? r.below(5000) : r.below(24);
    std::string s;
    for (std::size_t i = 0; i < n; ++i)
    {
      char c = static_cast<char>(r.below(256));
      if (c == 0 && !nul) c = 'x';
      s.push_back(r.coin() ? c : nul && r.chance(1, 6) ? '\0' : static_cast<char>('a' + r.below(26)));
    }
    return s;
  }
  void concat_is(std::string const& got, std::string const& expect, char const* what)
  {
    vmon::count("strings concatenated");
    vmon::check(got == expect, std::string("concatenation of ") + what, vmon::quote(got) + " instead of " + vmon::quote(expect));
    vmon::distinct(std::string(what) + expect);
  }
}
static void strings(Rng& r)
{
  using nbdl::detail::string_concat;
  using namespace hana::literals;
  std::string const a = some_string(r, true), b = some_string(r, true), c = some_string(r, true), d = some_string(r, true);
  std::string const za = some_string(r, false), zb = some_string(r, false);
  // a copy which ends where the memory does
  std::unique_ptr<char[]> z1(new char[za.size() + 1]), z2(new char[zb.size() + 1]);
  std::memcpy(z1.get(), za.c_str(), za.size() + 1); std::memcpy(z2.get(), zb.c_str(), zb.size() + 1);
  char const* p = z1.get(); char const* q = z2.get();
  auto const h = "of the compile time"_s; auto const e = ""_s;
  auto const nul = hana::string<'n', '\0', 'l'>{};
  std::string const hs = "of the compile time", ns("n\0l", 3);
  switch (r.below(12))
  {
    case 0: concat_is(string_concat(hana::make_tuple()), "", "nothing"); break;
    case 1: concat_is(string_concat(hana::make_tuple(a)), a, "one string"); break;
    case 2: concat_is(string_concat(hana::make_tuple(a, b)), a + b, "two strings"); break;
    case 3: concat_is(string_concat(hana::make_tuple(a, b, c, d, a, c)), a + b + c + d + a + c, "six strings"); break;
    case 4: concat_is(string_concat(hana::make_tuple(h, a, h)), hs + a + hs, "a string in two"); break;
    case 5: concat_is(string_concat(hana::make_tuple(p, q)), za + zb, "two char const*"); break;
    case 6: concat_is(string_concat(hana::make_tuple(a, p, h, e, b, q)), a + za + hs + b + zb, "all kinds"); break;
    case 7: concat_is(string_concat(hana::make_tuple(e, e)), "", "two empty ones"); break;
    case 8: concat_is(string_concat(hana::make_tuple(nul, a, nul)), ns + a + ns, "strings which hold a NUL"); break;
    case 9: concat_is(string_concat(hana::tuple<std::string const&, char const*, std::string const&>(a, p, a)), a + za + a, "references"); break;
    case 10: concat_is(string_concat(std::array<std::string, 3>{{a, b, c}}), a + b + c, "an array"); break;
    default:
    {
      // the views may lie in one buffer
      std::string const all = a + b + c;
      std::string_view v(all);
      std::array<std::string_view, 3> views{{v.substr(0, a.size()), v.substr(a.size(), b.size()), v.substr(a.size() + b.size())}};
      std::swap(views[0], views[2]);
      concat_is(string_concat.with_views(views), c + b + a, "views");
    }
  }
}
VMON_MODE("strings", strings, "strings concatenated")

// ---- empties ----
namespace
{
  template <int> struct empty_ { };
  template <int> struct full { std::string text; };
  struct only_move { std::unique_ptr<int> p; };
  using seen_list = std::vector<std::pair<void const*, std::string>>;
  template <typename T> struct is_empty_kind : std::false_type { };
  template <int i> struct is_empty_kind<empty_<i>> : std::true_type { };
  struct collector
  {
    seen_list* seen;
    template <typename X> void one(X&& x) const
    {
      using D = std::decay_t<X>;
      if constexpr (is_empty_kind<D>::value) vmon::violate("empty element kept", "");
      else if constexpr (std::is_same_v<D, int>) seen->emplace_back(&x, "int" + std::to_string(x));
      else if constexpr (std::is_same_v<D, std::string>) seen->emplace_back(&x, "string" + x);
      else if constexpr (std::is_same_v<D, only_move>) seen->emplace_back(&x, "move" + std::to_string(*x.p));
      else seen->emplace_back(&x, "full" + x.text);
    }
    template <typename ...X> std::size_t operator()(X&& ...x) const { (one(static_cast<X&&>(x)), ...); return sizeof...(X); }
  };
  template <typename X> void expect_one(seen_list& l, X const& x)
  {
    if constexpr (is_empty_kind<X>::value) { vmon::count("empty elements"); }
    else if constexpr (std::is_same_v<X, int>) l.emplace_back(&x, "int" + std::to_string(x));
    else if constexpr (std::is_same_v<X, std::string>) l.emplace_back(&x, "string" + x);
    else if constexpr (std::is_same_v<X, only_move>) l.emplace_back(&x, "move" + std::to_string(*x.p));
    else l.emplace_back(&x, "full" + x.text);
  }
  template <typename X> X some(Rng& r)
  {
    if constexpr (is_empty_kind<X>::value) return {};
    else if constexpr (std::is_same_v<X, int>) return static_cast<int>(r.below(1000));
    else if constexpr (std::is_same_v<X, std::string>) return some_string(r, true);
    else if constexpr (std::is_same_v<X, only_move>) return {std::make_unique<int>(static_cast<int>(r.below(99)))};
    else return X{some_string(r, true)};
  }
  template <typename ...X> void filter_shape(Rng& r)
  {
    hana::tuple<X...> xs(some<X>(r)...);
    seen_list seen, expect;
    std::size_t n = 0;
    nbdl::detail::filter_empties_fn<collector> const f{collector{&seen}};
    if (r.coin()) n = hana::unpack(xs, f);
    else n = hana::unpack(static_cast<hana::tuple<X...> const&>(xs), f);
    hana::for_each(xs, [&](auto const& x) { expect_one(expect, x); });
    vmon::count("sequences filtered");
    vmon::count("elements kept", seen.size());
    std::string words;
    for (auto& s : seen) words += s.second + ",";
    vmon::check(n == expect.size(), "number of elements kept", words);
    bool same = seen.size() == expect.size();
    for (std::size_t i = 0; same && i < seen.size(); ++i) same = seen[i].second == expect[i].second;
    vmon::check(same, "elements kept", words);
    // an empty element has no address of its own; the others are handed on themselves
    for (std::size_t i = 0; same && i < seen.size(); ++i)
      vmon::check(seen[i].first == expect[i].first, "elements are handed on by reference", words);
    vmon::distinct(words);
  }
  using filter_fn = void (*)(Rng&);
  template <std::uint64_t seed, int i> constexpr std::uint64_t rnd() { std::uint64_t z = seed * 1000003 + i * 7919 + 11; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
  template <std::uint64_t n, int i> struct kind;
  template <int i> struct kind<0, i> { using type = empty_<i % 2>; };
  template <int i> struct kind<1, i> { using type = full<i>; };
  template <int i> struct kind<2, i> { using type = int; };
  template <int i> struct kind<3, i> { using type = empty_<7>; };
  template <int i> struct kind<4, i> { using type = only_move; };
  template <int i> struct kind<5, i> { using type = std::string; };
  template <std::uint64_t seed, int ...i> void filter_seed(std::integer_sequence<int, i...>, Rng& r)
  { filter_shape<typename kind<rnd<seed, i>() % 6, i>::type...>(r); }
  template <std::uint64_t seed> void filter_one(Rng& r)
  { filter_seed<seed>(std::make_integer_sequence<int, rnd<seed, 99>() % 9>{}, r); }
  template <std::size_t ...i> filter_fn filter_at(std::index_sequence<i...>, std::size_t k)
  { static constexpr filter_fn t[] = {&filter_one<i>...}; return t[k]; }
  constexpr std::size_t shapes = 40;
}
static void empties(Rng& r) { filter_at(std::make_index_sequence<shapes>{}, r.below(shapes))(r); }
VMON_MODE("empties", empties, "sequences filtered", "elements kept", "empty elements")

// ---- compile time ----
namespace
{
  template <int i> struct tag_ { static constexpr int value = i; };
  template <int i, int j> struct val { };
  template <int i> using num = hana::int_<i>;

  // what a type looks like
  template <typename T> struct show_t;
  template <typename T> std::string show() { return show_t<std::remove_cv_t<std::remove_reference_t<T>>>::str(); }
  template <int i> struct show_t<tag_<i>> { static std::string str() { return "t" + std::to_string(i); } };
  template <int i, int j> struct show_t<val<i, j>> { static std::string str() { return "v" + std::to_string(i) + "." + std::to_string(j); } };
  template <typename T, T i> struct show_t<hana::integral_constant<T, i>> { static std::string str() { return std::to_string(static_cast<long long>(i)); } };
  template <> struct show_t<hana::optional<>> { static std::string str() { return "nothing"; } };
  template <typename T> struct show_t<hana::optional<T>> { static std::string str() { return "just(" + show<T>() + ")"; } };
  template <typename K, typename V> struct show_t<mpdef::tree_node<K, V>> { static std::string str() { return "<" + show<K>() + ":" + show<V>() + ">"; } };
  template <typename ...X> struct show_t<mpdef::list<X...>> { static std::string str() { std::string s = "["; ((s += show<X>() + ","), ...); return s + "]"; } };
  template <typename ...X> struct show_t<mpdef::map<X...>> { static std::string str() { std::string s = "{"; ((s += show<X>() + ","), ...); return s + "}"; } };
  template <typename ...X> struct show_t<hana::tuple<X...>> { static std::string str() { std::string s = "("; ((s += show<X>() + ","), ...); return s + ")"; } };
  template <char ...c> struct show_t<hana::string<c...>> { static std::string str() { return std::string{c...}; } };

  // a type as data
  struct node
  {
    std::string tag, text; // text: the whole node
    bool leaf = true, map = false;
    std::string value;     // how the second half looks
    std::vector<node> children;
  };
  template <typename T> struct data_t;
  template <typename K, typename V> struct data_t<mpdef::tree_node<K, V>>
  { static node get() { node n; n.tag = show<K>(); n.value = show<V>(); n.text = show<mpdef::tree_node<K, V>>(); return n; } };
  template <typename K, typename ...X> struct data_t<mpdef::tree_node<K, mpdef::list<X...>>>
  {
    static node get()
    {
      using T = mpdef::tree_node<K, mpdef::list<X...>>;
      node n; n.tag = show<K>(); n.value = show<mpdef::list<X...>>(); n.text = show<T>(); n.leaf = false;
      (n.children.push_back(data_t<X>::get()), ...);
      return n;
    }
  };
  template <typename K, typename ...X> struct data_t<mpdef::tree_node<K, mpdef::map<X...>>>
  {
    static node get()
    {
      using T = mpdef::tree_node<K, mpdef::map<X...>>;
      node n; n.tag = show<K>(); n.value = show<mpdef::map<X...>>(); n.text = show<T>(); n.leaf = false; n.map = true;
      (n.children.push_back(data_t<X>::get()), ...);
      return n;
    }
  };

  void same(char const* what, std::string const& from, std::string const& got, std::string const& expect)
  {
    vmon::count("shapes computed");
    vmon::distinct(std::string(what) + from);
    if (got != expect) vmon::violate(what, from + " gave " + got + " instead of " + expect);
    vmon::sample(std::string(what) + " " + from + " -> " + got);
  }

  // group_by
  template <std::uint64_t s, int i> struct group_pair
  {
    template <int ...j> static mpdef::list<val<i, j>...> values(std::integer_sequence<int, j...>);
    using type = mpdef::list<tag_<rnd<s, 10 + i>() % 4>, decltype(values(std::make_integer_sequence<int, rnd<s, 30 + i>() % 4>{}))>;
  };
  template <std::uint64_t s, int ...i> auto group_input(std::integer_sequence<int, i...>) -> mpdef::list<typename group_pair<s, i>::type...>;
  template <typename K, typename ...V> void add_group(std::vector<std::pair<std::string, std::string>>& g, mpdef::list<K, mpdef::list<V...>>)
  {
    auto it = std::find_if(g.begin(), g.end(), [](auto& p) { return p.first == show<K>(); });
    if (it == g.end()) it = g.insert(g.end(), {show<K>(), ""});
    ((it->second += show<V>() + ","), ...);
  }
  template <typename ...P> std::string group_model(mpdef::list<P...>)
  {
    std::vector<std::pair<std::string, std::string>> g;
    (add_group(g, P{}), ...);
    std::string s = "{";
    for (auto& p : g) s += "<" + p.first + ":[" + p.second + "]>,";
    return s + "}";
  }
  template <std::uint64_t s> void group_one(Rng&)
  {
    using L = decltype(group_input<s>(std::make_integer_sequence<int, rnd<s, 1>() % 9>{}));
    same("group_by", show<L>(), show<mpdef::group_by<L>>(), group_model(L{}));
  }

  // trees
  template <std::uint64_t s, int depth> struct tree
  {
    static constexpr int k = depth == 0 ? 0 : rnd<s, 1>() % 5; // 0, 1: leaf; 2, 3: list; 4: map
    template <int ...i> static mpdef::list<typename tree<rnd<s, 40 + i>(), depth - 1>::type...> list_(std::integer_sequence<int, i...>);
    // the tags of a map differ
    template <int i> using entry = mpdef::tree_node<tag_<(rnd<s, 3>() + i) % 5>, typename tree<rnd<s, 60 + i>(), depth - 1>::second>;
    template <int ...i> static mpdef::map<entry<i>...> map_(std::integer_sequence<int, i...>);
    static auto second_()
    {
      if constexpr (k < 2) return num<rnd<s, 4>() % 100>{};
      else if constexpr (k < 4) return decltype(list_(std::make_integer_sequence<int, rnd<s, 5>() % 5>{})){};
      else return decltype(map_(std::make_integer_sequence<int, rnd<s, 6>() % 5>{})){};
    }
    using second = decltype(second_());
    using type = mpdef::tree_node<tag_<rnd<s, 2>() % 5>, second>;
  };
  void find_model(node const& n, int depth, std::string const& wanted, std::string& out)
  {
    if (n.tag == wanted) { out += "<" + n.text + ":" + std::to_string(depth + 1) + ">,"; vmon::count("nodes found"); return; }
    for (auto const& c : n.children) find_model(c, depth + 1, wanted, out);
  }
  using settings = std::vector<std::pair<std::string, std::string>>;
  settings inherit(settings s, node const& n)
  {
    if (!n.map) return s;
    for (auto& p : s) for (auto const& c : n.children) if (c.tag == p.first) p.second = "just(" + c.value + ")";
    return s;
  }
  std::string show_settings(settings const& s) { std::string o = "{"; for (auto& p : s) o += "<" + p.first + ":" + p.second + ">,"; return o + "}"; }
  void settings_model(node const& n, settings const& s, std::string const& wanted, std::string& out)
  {
    auto const own = inherit(s, n);
    if (n.tag == wanted) { out += "<" + n.text + ":" + show_settings(own) + ">,"; vmon::count("nodes found"); return; }
    for (auto const& c : n.children) settings_model(c, own, wanted, out);
  }
  template <int i> struct has_tag
  { template <typename N> constexpr auto operator()(N const&) const { return hana::bool_c<std::is_same_v<decltype(hana::first(N{})), tag_<i>>>; } };
  struct count_depth { template <typename S, typename N> constexpr auto operator()(S const&, N const&) const { return hana::int_c<S::value + 1>; } };
  template <std::uint64_t s> void find_one(Rng&)
  {
    using T = typename tree<s, 4>::type;
    node const n = data_t<T>::get();
    constexpr int wanted = rnd<s, 9>() % 5;
    std::string out = "[";
    find_model(n, 0, show<tag_<wanted>>(), out);
    same("find_in_tree", n.text, show<decltype(mpdef::find_in_tree(T{}, hana::int_c<0>, count_depth{}, has_tag<wanted>{}))>(), out + "]");
    same("create_in_tree_finder", n.text, show<decltype(mpdef::create_in_tree_finder(has_tag<wanted>{}, count_depth{}, hana::int_c<0>)(T{}))>(), out + "]");
    out = "[";
    settings_model(n, {{"t1", "nothing"}, {"t3", "nothing"}}, show<tag_<wanted>>(), out);
    same("find_in_tree.with_settings", n.text, show<decltype(mpdef::find_in_tree.with_settings(tag_<1>{}, tag_<3>{})(has_tag<wanted>{})(T{}))>(), out + "]");
    // settings alone
    settings m{{"t0", "nothing"}, {"t2", "nothing"}, {"t4", "nothing"}};
    auto const own = inherit(m, n);
    same("collect_settings", n.text, show<decltype(mpdef::collect_settings(mpdef::with_settings(tag_<0>{}, tag_<2>{}, tag_<4>{}), T{}))>(), show_settings(own));
  }

  // lists and maps
  template <std::uint64_t s, int ...i> auto int_list(std::integer_sequence<int, i...>) -> mpdef::list<num<static_cast<int>(rnd<s, 10 + i>() % 7)>...>;
  template <int ...i> std::vector<int> ints(mpdef::list<num<i>...>) { return {i...}; }
  std::string show_ints(std::vector<int> const& v, char const* ends = "[]") { std::string s(1, ends[0]); for (int i : v) s += std::to_string(i) + ","; return s + ends[1]; }
  struct twice { template <typename N> constexpr auto operator()(N const&) const { return hana::int_c<N::value * 2>; } };
  struct odd { template <typename N> constexpr auto operator()(N const&) const { return hana::bool_c<N::value % 2 != 0>; } };
  struct add { template <typename S, typename N> constexpr auto operator()(S const&, N const&) const { return hana::int_c<S::value + N::value>; } };
  struct digits { template <typename S, typename N> constexpr auto operator()(S const&, N const&) const { return hana::int_c<(S::value * 10 + N::value) % 100000>; } };
  struct push { template <typename S, typename N> constexpr auto operator()(S const& s, N const& n) const { return hana::append(s, n); } };
  struct push_odd { template <typename S, typename N> constexpr auto operator()(S const& s, N const& n) const { return mpdef::append_if(odd{})(s)(n); } };
  template <std::uint64_t s> void list_one(Rng&)
  {
    using L = decltype(int_list<s>(std::make_integer_sequence<int, rnd<s, 1>() % 8>{}));
    using M = decltype(int_list<s + 5000>(std::make_integer_sequence<int, rnd<s, 2>() % 5>{}));
    auto const l = ints(L{}), m = ints(M{});
    std::string const from = show<L>() + show<M>();
    std::vector<int> v;
    same("list", from, show<L>(), show_ints(l));
    for (int i : l) v.push_back(2 * i);
    same("transform", from, show<decltype(hana::transform(L{}, twice{}))>(), show_ints(v));
    v = l; v.insert(v.end(), m.begin(), m.end());
    same("concat", from, show<decltype(hana::concat(L{}, M{}))>(), show_ints(v));
    same("length", from, std::to_string(decltype(hana::length(L{}))::value), std::to_string(l.size()));
    same("is_empty", from, std::to_string(decltype(hana::is_empty(L{}))::value), std::to_string(l.empty()));
    v = l; std::reverse(v.begin(), v.end());
    same("reverse", from, show<decltype(hana::reverse(L{}))>(), show_ints(v));
    v.clear(); for (int i : l) if (i % 2) v.push_back(i);
    same("filter", from, show<decltype(hana::filter(L{}, odd{}))>(), show_ints(v));
    same("append_if", from, show<decltype(hana::fold_left(L{}, mpdef::list<>{}, push_odd{}))>(), show_ints(v));
    same("append_if to a tuple", from, show<decltype(hana::fold_left(L{}, hana::tuple<>{}, push_odd{}))>(), show_ints(v, "()"));
    same("to_tuple", from, show<mpdef::to_tuple<L>>(), show_ints(l, "()"));
    same("equal", from, std::to_string(decltype(hana::equal(L{}, M{}))::value), std::to_string(l == m));
    same("operator==", from, std::to_string(decltype(L{} == L{})::value) + std::to_string(decltype(L{} != M{})::value), "1" + std::to_string(l != m));
    if constexpr (rnd<s, 1>() % 8 != 0)
    {
      constexpr int n = rnd<s, 1>() % 8, at = rnd<s, 3>() % n;
      same("at", from + std::to_string(at), show<decltype(hana::at_c<at>(L{}))>(), std::to_string(l[at]));
      v.assign(l.begin() + at, l.end());
      same("drop_front", from + std::to_string(at), show<decltype(hana::drop_front(L{}, hana::size_c<at>))>(), show_ints(v));
    }
    // folds, one for each collector
    int sum = 0, dig = 0; v.clear(); std::vector<int> o;
    for (int i : l) { sum += i; dig = (dig * 10 + i) % 100000; v.push_back(i); if (i % 2) o.push_back(i); }
    if (!l.empty())
      same("compose_collectors", from,
           show<decltype(hana::fold_left(L{}, hana::make_tuple(hana::int_c<0>, hana::int_c<0>, hana::tuple<>{}, mpdef::list<>{}),
                                         mpdef::compose_collectors(add{}, digits{}, push{}, push_odd{})))>(),
           "[" + std::to_string(sum) + "," + std::to_string(dig) + "," + show_ints(v, "()") + "," + show_ints(o) + ",]");
    vmon::count("lists");
  }

  template <std::uint64_t s, int ...i> auto some_map(std::integer_sequence<int, i...>)
    -> mpdef::map<mpdef::tree_node<tag_<static_cast<int>((rnd<s, 2>() % 3 + i * (rnd<s, 3>() % 2 ? 1 : 6)) % 7)>, num<static_cast<int>(rnd<s, 10 + i>() % 3)>>...>;
  using assoc = std::vector<std::pair<int, int>>;
  template <int ...k, int ...v> assoc entries(mpdef::map<mpdef::tree_node<tag_<k>, num<v>>...>) { return {{k, v}...}; }
  bool same_entries(assoc x, assoc y) { std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end()); return x == y; }
  template <int wanted> struct tag_is { template <typename K> constexpr auto operator()(K const&) const { return hana::bool_c<K::value == wanted>; } };
  template <typename M, int k> void lookup(assoc const& m, std::string const& from)
  {
    std::optional<int> v;
    for (auto& e : m) if (e.first == k) v = e.second;
    std::string const expect = v ? "just(" + std::to_string(*v) + ")" : "nothing";
    same("find", from + std::to_string(k), show<decltype(hana::find(M{}, tag_<k>{}))>(), expect);
    same("contains", from + std::to_string(k), std::to_string(decltype(hana::contains(M{}, tag_<k>{}))::value), std::to_string(v.has_value()));
    same("find_if", from + std::to_string(k), show<decltype(hana::find_if(M{}, tag_is<k>{}))>(), expect);
    same("any_of", from + std::to_string(k), std::to_string(decltype(hana::any_of(M{}, tag_is<k>{}))::value), std::to_string(v.has_value()));
    vmon::count(v ? "keys found" : "keys not found");
  }
  template <typename M> void reversed(M, std::string const& from, assoc const& m)
  {
    auto const r = hana::unpack(hana::reverse(hana::unpack(M{}, mpdef::make_list)), mpdef::make_map);
    same("a map in another order", from, std::to_string(decltype(hana::equal(M{}, r))::value), "1");
    vmon::check(same_entries(m, entries(r)), "reversed", from);
    vmon::count("maps");
  }

  template <std::uint64_t s> void map_one(Rng&)
  {
    using M = decltype(some_map<s>(std::make_integer_sequence<int, rnd<s, 1>() % 6>{}));
    using N = decltype(some_map<s + 1>(std::make_integer_sequence<int, rnd<s + (rnd<s, 7>() % 2), 1>() % 6>{}));
    auto const m = entries(M{}), n = entries(N{});
    std::string const from = show<M>() + show<N>();
    std::string keys = "[";
    for (auto& e : m) keys += "t" + std::to_string(e.first) + ",";
    same("keys", from, show<decltype(hana::keys(M{}))>(), keys + "]");
    lookup<M, 0>(m, from); lookup<M, 1>(m, from); lookup<M, 2>(m, from); lookup<M, 3>(m, from); lookup<M, 4>(m, from); lookup<M, 6>(m, from);
    if constexpr (rnd<s, 1>() % 6 != 0)
    {
      constexpr int first = rnd<s, 2>() % 3;
      same("at_key", from, show<decltype(hana::at_key(M{}, tag_<first>{}))>(), std::to_string(m[0].second));
      same("operator[]", from, show<decltype(M{}[tag_<first>{}])>(), std::to_string(m[0].second));
    }
    same("equal maps", from, std::to_string(decltype(hana::equal(M{}, N{}))::value), std::to_string(same_entries(m, n)));
    same("a map and itself", from, std::to_string(decltype(hana::equal(M{}, M{}))::value), "1");
    reversed(M{}, from, m);
  }
  // compile time strings
  template <std::uint64_t s, int ...i> auto some_chars(std::integer_sequence<int, i...>) -> hana::string<static_cast<char>(rnd<s, 20 + i>() % 255 + 1)...>;
  template <std::uint64_t s> using chars = decltype(some_chars<s>(std::make_integer_sequence<int, rnd<s, 4>() % 8>{}));
  template <std::uint64_t s, int ...i> void join_some(std::integer_sequence<int, i...>)
  {
    using D = chars<s + 900>;
    std::vector<std::string> parts{show<chars<s + 1000 * (i + 1)>>()...};
    std::string expect;
    for (std::size_t k = 0; k < parts.size(); ++k) expect += (k ? show<D>() : "") + parts[k];
    std::string from = show<D>();
    for (auto& p : parts) from += "|" + p;
    same("string_join", from, show<decltype(mpdef::string_join(D{}, chars<s + 1000 * (i + 1)>{}...))>(), expect);
    same("string_join of a delimiter", from, show<decltype(mpdef::string_join(D{})(chars<s + 1000 * (i + 1)>{}...))>(), expect);
  }
  template <std::uint64_t s> void string_one(Rng&)
  {
    using X = chars<s>; using Y = chars<s + 400>;
    same("string_concat", show<X>() + "|" + show<Y>(), show<decltype(mpdef::string_concat(X{}, Y{}))>(), show<X>() + show<Y>());
    join_some<s>(std::make_integer_sequence<int, 1 + rnd<s, 5>() % 5>{});
  }

  using fn = void (*)(Rng&);
  template <std::size_t ...i> fn group_at(std::index_sequence<i...>, std::size_t k) { static constexpr fn t[] = {&group_one<i + SEED>...}; return t[k]; }
  template <std::size_t ...i> fn find_at(std::index_sequence<i...>, std::size_t k) { static constexpr fn t[] = {&find_one<i + SEED>...}; return t[k]; }
  template <std::size_t ...i> fn list_at(std::index_sequence<i...>, std::size_t k) { static constexpr fn t[] = {&list_one<i + SEED>...}; return t[k]; }
  template <std::size_t ...i> fn map_at(std::index_sequence<i...>, std::size_t k) { static constexpr fn t[] = {&map_one<i + SEED>...}; return t[k]; }
  template <std::size_t ...i> fn string_at(std::index_sequence<i...>, std::size_t k) { static constexpr fn t[] = {&string_one<i + SEED>...}; return t[k]; }
}
#ifndef SHAPES
#define SHAPES 30
#endif
static void groups(Rng& r) { group_at(std::make_index_sequence<SHAPES>{}, r.below(SHAPES))(r); }
VMON_MODE("groups", groups, "shapes computed")
static void trees(Rng& r) { find_at(std::make_index_sequence<SHAPES>{}, r.below(SHAPES))(r); }
VMON_MODE("trees", trees, "shapes computed", "nodes found")
static void lists(Rng& r) { list_at(std::make_index_sequence<SHAPES>{}, r.below(SHAPES))(r); }
VMON_MODE("lists", lists, "shapes computed", "lists")
static void maps(Rng& r) { map_at(std::make_index_sequence<SHAPES>{}, r.below(SHAPES))(r); }
VMON_MODE("maps", maps, "shapes computed", "maps", "keys found", "keys not found")
static void joins(Rng& r) { string_at(std::make_index_sequence<SHAPES>{}, r.below(SHAPES))(r); }
VMON_MODE("joins", joins, "shapes computed")

VMON_MAIN
