// The bindable types the JSON monitors work on, with an independent generator, equality,
// encoder and decoder for each shape (nothing of nbdl's traversal is used here).
#ifndef VERIF_JSON_SHAPES_HPP
#define VERIF_JSON_SHAPES_HPP
#include "vmon.hpp"
#include "ref.hpp"
#include <array>
#include <cmath>
#include <deque>
#include <limits>
#include <list>
#include <set>
#include <nbdl/binder/jsoncpp.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/message.hpp>
#include <nbdl/uid.hpp>
#include <nbdl/variant.hpp>
#include <boost/hana.hpp>
#include <json/json.h>

namespace hana = boost::hana;
using vmon::Rng;

namespace js
{
  using Bytes = std::vector<unsigned char>;
  enum color : unsigned { red, green, blue, many = 4000000000u };
  struct none { };

  struct leaf { unsigned id; nbdl::string name; };
  struct one { nbdl::string text; };
  using choice = nbdl::variant<nbdl::string, int, leaf, none, std::vector<int>>;
  struct wide
  {
    bool flag;
    int number;
    unsigned count;
    double real;
    color tint;
    nbdl::string text;
    Bytes raw;
    std::array<unsigned char, 4> four;
    nbdl::uid id;
    std::vector<int> numbers;
    std::vector<leaf> leaves;
    choice pick;
    nbdl::optional<leaf> maybe;
    one single;
    leaf inner;
  };
  struct deep { std::vector<std::vector<nbdl::string>> grid; std::vector<choice> picks; wide body; std::list<one> ones; std::deque<bool> bits; };
}
namespace nbdl
{
  NBDL_ENTITY(js::leaf, id, name);
  NBDL_ENTITY(js::one, text);
  NBDL_ENTITY(js::wide, flag, number, count, real, tint, text, raw, four, id, numbers, leaves, pick, maybe, single, inner);
  NBDL_ENTITY(js::deep, grid, picks, body, ones, bits);
}
namespace js
{
  namespace msg = nbdl::message;
  using path_t = hana::tuple<nbdl::string, int>;
  using up_create = decltype(msg::make_upstream_create(msg::make_create_path<int>(hana::make_tuple(nbdl::string{})), msg::no_uid, leaf{}));
  using up_create_uid = decltype(msg::make_upstream_create(msg::make_create_path<int>(hana::make_tuple(nbdl::string{}, 1u)), nbdl::uid{}, leaf{}, nbdl::string{}));
  using up_read = decltype(msg::make_upstream_read(path_t{}));
  using up_update = decltype(msg::make_upstream_update(path_t{}, nbdl::uid{}, leaf{}));
  using up_delete = decltype(msg::make_upstream_delete(path_t{}, nbdl::uid{}));
  using down_create = decltype(msg::make_downstream_create(path_t{}, nbdl::uid{}, leaf{}, true));
  using down_read = decltype(msg::make_downstream_read(path_t{}, msg::no_uid, choice{}));
  using down_update = decltype(msg::make_downstream_update(path_t{}, msg::no_uid, leaf{}, false));
  using down_delete = decltype(msg::make_downstream_delete(path_t{}, msg::no_uid, true));
  using any_message = nbdl::variant<up_create, up_read, up_update, up_delete, down_create, down_read, down_update, down_delete, none>;

  template <typename T> concept message_like = requires { typename T::storage_t; } && !requires { typename T::value_type; };
  template <typename T> concept map_like = std::is_same_v<hana::tag_of_t<T>, hana::map_tag>;

  // shapes of a harness tell their members themselves: each(x, f(name, member))
  template <typename T> concept tells_members = requires { typename T::tells_members; };

  // ---------------------------------------------------------------- generator
  inline std::string utf8(Rng& r, std::size_t n)
  {
    std::string s;
    for (std::size_t i = 0; i < n; ++i)
    {
      unsigned c;
      switch (r.below(9))
      {
        case 0: c = static_cast<unsigned>(r.below(0x20)); break;                 // controls, NUL
        case 1: c = static_cast<unsigned>(r.pick({'"', '\\', '/', '\x7f', '\'', '<'})); break;
        case 2: c = static_cast<unsigned>(r.range(0x80, 0x7ff)); break;
        case 3: c = static_cast<unsigned>(r.range(0x800, 0xd7ff)); break;
        case 4: c = static_cast<unsigned>(r.range(0xe000, 0xffff)); break;
        case 5: c = static_cast<unsigned>(r.range(0x10000, 0x10ffff)); break;
        default: c = static_cast<unsigned>(r.range(0x20, 0x7e));
      }
      if (c < 0x80) s += static_cast<char>(c);
      else if (c < 0x800) { s += static_cast<char>(0xc0 | c >> 6); s += static_cast<char>(0x80 | (c & 63)); }
      else if (c < 0x10000)
      { s += static_cast<char>(0xe0 | c >> 12); s += static_cast<char>(0x80 | (c >> 6 & 63)); s += static_cast<char>(0x80 | (c & 63)); }
      else
      { s += static_cast<char>(0xf0 | c >> 18); s += static_cast<char>(0x80 | (c >> 12 & 63));
        s += static_cast<char>(0x80 | (c >> 6 & 63)); s += static_cast<char>(0x80 | (c & 63)); }
    }
    return s;
  }
  inline thread_local bool no_nul = false;   // texts without NUL
  inline thread_local int giants = 0;        // how many containers and how many texts of the value may be very long
  inline thread_local int giant_texts = 0;
  inline std::size_t len(Rng& r) { return r.chance(1, 4) ? 0 : r.chance(1, 12) ? r.below(60) : r.below(5); }
  inline std::size_t text_len(Rng& r) { if (giant_texts > 0 && r.chance(1, 4)) { --giant_texts; return 1000 + r.below(r.coin() ? 4000 : 150000); } return len(r); }
  inline std::size_t list_len(Rng& r) { if (giants > 0 && r.coin()) { --giants; return 500 + r.below(2500); } return len(r); }

  inline thread_local std::size_t huge = 0;  // the length of the next leaf's name, if not 0
  struct gen_fn
  {
    Rng& r;
    void operator()(bool& x) const { x = r.coin(); }
    void operator()(int& x) const
    { x = r.coin() ? r.pick({0, 1, -1, std::numeric_limits<int>::max(), std::numeric_limits<int>::min(), 255, -128}) : static_cast<int>(r.next()); }
    void operator()(unsigned& x) const
    { x = r.coin() ? r.pick({0u, 1u, 0x7fffffffu, 0x80000000u, 0xffffffffu}) : static_cast<unsigned>(r.next()); }
    void operator()(double& x) const
    {
      switch (r.below(5))
      {
        case 0: x = r.pick({0.0, -0.0, 1.0, -1.5, 0.1, 1e300, -1e-300, std::numeric_limits<double>::max(),
                            std::numeric_limits<double>::min(), std::numeric_limits<double>::epsilon(), 1e15, 1e16, 1e17, 9007199254740993.0}); break;
        case 1: x = static_cast<double>(static_cast<int>(r.next())); break;
        case 2: x = static_cast<double>(static_cast<std::int64_t>(r.next())) / 1000; break;
        default:
        { std::uint64_t u = r.next(); std::memcpy(&x, &u, 8); if (!std::isnormal(x)) x = 3.25; }
      }
    }
    void operator()(color& x) const { x = r.pick({red, green, blue, many}); }
    void operator()(nbdl::string& x) const { x = utf8(r, text_len(r)); if (no_nul) for (auto& c : x) if (!c) c = ' '; }
    void operator()(Bytes& x) const { auto s = r.bytes(text_len(r)); x.assign(s.begin(), s.end()); }
    void operator()(std::string& x) const { x = r.bytes(text_len(r)); }
    template <std::size_t N> void operator()(std::array<unsigned char, N>& x) const
    { for (auto& c : x) c = static_cast<unsigned char>(r.next()); }
    void operator()(nbdl::uid& x) const { for (auto& c : x) c = static_cast<unsigned char>(r.next()); }
    template <typename T> void seq(T& x) const
    { x.clear(); auto n = list_len(r); for (std::size_t i = 0; i < n; ++i) { typename T::value_type v{}; (*this)(v); x.insert(x.end(), std::move(v)); } }
    template <typename T> void operator()(std::vector<T>& x) const { seq(x); }
    template <typename T> void operator()(std::list<T>& x) const { seq(x); }
    template <typename T> void operator()(std::deque<T>& x) const { seq(x); }
    template <typename T> void operator()(std::set<T>& x) const { seq(x); }
    template <typename T> void operator()(std::multiset<T>& x) const { seq(x); }
    void operator()(leaf& x) const { (*this)(x.id); (*this)(x.name); if (huge) { x.name = utf8(r, huge); huge = 0; } }
    template <char ...C> void operator()(hana::string<C...>&) const { }
    void operator()(one& x) const { (*this)(x.text); }
    void operator()(none&) const { }
    void operator()(nbdl::unresolved&) const { }
    void operator()(nbdl::nothing&) const { }
    void operator()(nbdl::not_found&) const { }
    void operator()(msg::no_impl&) const { }
    template <typename ...T> void operator()(nbdl::detail::variant<T...>& x) const
    {
      auto k = r.below(sizeof...(T)), i = std::size_t{0};
      ([&] { if (i++ == k) { T v{}; (*this)(v); x.value_ = std::move(v); } }(), ...);
    }
    void operator()(wide& x) const
    {
      (*this)(x.flag); (*this)(x.number); (*this)(x.count); (*this)(x.real); (*this)(x.tint); (*this)(x.text); (*this)(x.raw);
      (*this)(x.four); (*this)(x.id); (*this)(x.numbers); (*this)(x.leaves); (*this)(x.pick); (*this)(x.maybe); (*this)(x.single); (*this)(x.inner);
    }
    template <tells_members T> void operator()(T& x) const { T::each(x, [&](auto, auto& y) { (*this)(y); }); }
    void operator()(deep& x) const { (*this)(x.grid); (*this)(x.picks); (*this)(x.body); (*this)(x.ones); (*this)(x.bits); }
    template <typename ...T> void operator()(hana::tuple<T...>& x) const { hana::for_each(x, *this); }
    template <typename ...T> void operator()(hana::basic_tuple<T...>& x) const
    { hana::unpack(x, [&](auto& ...e) { ((*this)(e), ...); }); }
    template <typename A, typename B> void operator()(hana::pair<A, B>& x) const { (*this)(hana::first(x)); (*this)(hana::second(x)); }
    template <typename K, typename P> void operator()(msg::create_path<K, P>& x) const { (*this)(x.parent_path); }
    template <message_like T> void operator()(T& x) const { (*this)(x.storage); }
    template <map_like M> void operator()(M& x) const
    { hana::for_each(hana::keys(x), [&](auto k) { (*this)(hana::at_key(x, k)); }); }
  };

  // ---------------------------------------------------------------- equality (bit exact for reals)
  struct eq_fn
  {
    template <typename T> requires std::is_arithmetic_v<T> || std::is_enum_v<T>
    bool operator()(T const& a, T const& b) const { return std::memcmp(&a, &b, sizeof a) == 0; }
    bool operator()(std::string const& a, std::string const& b) const { return a == b; }
    template <typename T> bool seq(T const& a, T const& b) const
    { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin(), [&](auto const& x, auto const& y) { return (*this)(x, y); }); }
    template <typename T> bool operator()(std::vector<T> const& a, std::vector<T> const& b) const { return seq(a, b); }
    template <typename T> bool operator()(std::list<T> const& a, std::list<T> const& b) const { return seq(a, b); }
    template <typename T> bool operator()(std::deque<T> const& a, std::deque<T> const& b) const { return seq(a, b); }
    template <typename T> bool operator()(std::set<T> const& a, std::set<T> const& b) const { return seq(a, b); }
    template <typename T> bool operator()(std::multiset<T> const& a, std::multiset<T> const& b) const { return seq(a, b); }
    template <std::size_t N> bool operator()(std::array<unsigned char, N> const& a, std::array<unsigned char, N> const& b) const { return a == b; }
    bool operator()(nbdl::uid const& a, nbdl::uid const& b) const { return std::equal(a.begin(), a.end(), b.begin()); }
    bool operator()(leaf const& a, leaf const& b) const { return a.id == b.id && a.name == b.name; }
    bool operator()(one const& a, one const& b) const { return a.text == b.text; }
    template <typename T> requires std::is_empty_v<T> bool operator()(T const&, T const&) const { return true; }
    template <typename ...T> bool operator()(nbdl::detail::variant<T...> const& a, nbdl::detail::variant<T...> const& b) const
    {
      if (a.value_.index() != b.value_.index()) return false;
      return std::visit([&](auto const& x) { return (*this)(x, std::get<std::decay_t<decltype(x)>>(b.value_)); }, a.value_);
    }
    bool operator()(wide const& a, wide const& b) const
    {
      auto& e = *this;
      return e(a.flag, b.flag) && e(a.number, b.number) && e(a.count, b.count) && e(a.real, b.real) && e(a.tint, b.tint) && e(a.text, b.text)
        && e(a.raw, b.raw) && e(a.four, b.four) && e(a.id, b.id) && e(a.numbers, b.numbers) && e(a.leaves, b.leaves) && e(a.pick, b.pick)
        && e(a.maybe, b.maybe) && e(a.single, b.single) && e(a.inner, b.inner);
    }
    bool operator()(deep const& a, deep const& b) const
    { auto& e = *this; return e(a.grid, b.grid) && e(a.picks, b.picks) && e(a.body, b.body) && e(a.ones, b.ones) && e(a.bits, b.bits); }
    template <typename T> bool tup(T const& a, T const& b) const
    {
      return hana::unpack(a, [&](auto const& ...x) { return hana::unpack(b, [&](auto const& ...y) { return ((*this)(x, y) && ... && true); }); });
    }
    template <typename ...T> requires (sizeof...(T) > 0) bool operator()(hana::tuple<T...> const& a, hana::tuple<T...> const& b) const { return tup(a, b); }
    template <typename ...T> bool operator()(hana::basic_tuple<T...> const& a, hana::basic_tuple<T...> const& b) const { return tup(a, b); }
    template <typename A, typename B> bool operator()(hana::pair<A, B> const& a, hana::pair<A, B> const& b) const
    { return (*this)(hana::first(a), hana::first(b)) && (*this)(hana::second(a), hana::second(b)); }
    template <typename K, typename P> bool operator()(msg::create_path<K, P> const& a, msg::create_path<K, P> const& b) const
    { return (*this)(a.parent_path, b.parent_path); }
    template <message_like T> requires (!std::is_empty_v<T>)
    bool operator()(T const& a, T const& b) const { return (*this)(a.storage, b.storage); }
    template <map_like M> bool operator()(M const& a, M const& b) const
    { bool ok = true; hana::for_each(hana::keys(a), [&](auto k) { ok = ok && (*this)(hana::at_key(a, k), hana::at_key(b, k)); }); return ok; }
  };

  // ---------------------------------------------------------------- the documented format
  using J = Json::Value;
  template <typename ...T> struct types { };

  struct enc_fn
  {
    template <tells_members T> Json::Value operator()(T const& x) const { Json::Value v; T::each(x, [&](char const* n, auto const& y) { v[n] = (*this)(y); }); return v; }
    template <char ...C> J operator()(hana::string<C...> const&) const { return J(); }
    J operator()(bool x) const { return x; }
    J operator()(int x) const { return x; }
    J operator()(unsigned x) const { return x; }
    J operator()(double x) const { return x; }
    J operator()(color x) const { return static_cast<unsigned>(x); }
    J operator()(nbdl::string const& x) const { return J(x.data(), x.data() + x.size()); }
    template <typename T> J b64(T const& x) const { return ref::base64(std::string(x.begin(), x.end())); }
    J operator()(Bytes const& x) const { return b64(x); }
    J operator()(std::string const& x) const { return b64(x); }
    template <std::size_t N> J operator()(std::array<unsigned char, N> const& x) const { return b64(x); }
    J operator()(nbdl::uid const& x) const { return b64(x); }
    template <typename T> J seq(T const& x) const { J v(Json::arrayValue); for (auto const& e : x) v.append((*this)(e)); return v; }
    template <typename T> J operator()(std::vector<T> const& x) const { return seq(x); }
    template <typename T> J operator()(std::list<T> const& x) const { return seq(x); }
    template <typename T> J operator()(std::deque<T> const& x) const { return seq(x); }
    template <typename T> J operator()(std::set<T> const& x) const { return seq(x); }
    template <typename T> J operator()(std::multiset<T> const& x) const { return seq(x); }
    J operator()(leaf const& x) const { J v; v["id"] = (*this)(x.id); v["name"] = (*this)(x.name); return v; }
    J operator()(one const& x) const { J v; v["text"] = (*this)(x.text); return v; }
    template <typename ...T> J operator()(nbdl::detail::variant<T...> const& x) const
    {
      return std::visit([&](auto const& e) -> J {
        if constexpr (std::is_empty_v<std::decay_t<decltype(e)>>) return static_cast<int>(x.value_.index());
        else { J v(Json::arrayValue); v.append(static_cast<int>(x.value_.index())); v.append((*this)(e)); return v; }
      }, x.value_);
    }
    J operator()(wide const& x) const
    {
      auto& e = *this; J v;
      v["flag"] = e(x.flag); v["number"] = e(x.number); v["count"] = e(x.count); v["real"] = e(x.real); v["tint"] = e(x.tint);
      v["text"] = e(x.text); v["raw"] = e(x.raw); v["four"] = e(x.four); v["id"] = e(x.id); v["numbers"] = e(x.numbers);
      v["leaves"] = e(x.leaves); v["pick"] = e(x.pick); v["maybe"] = e(x.maybe); v["single"] = e(x.single); v["inner"] = e(x.inner);
      return v;
    }
    J operator()(deep const& x) const
    { auto& e = *this; J v; v["grid"] = e(x.grid); v["picks"] = e(x.picks); v["body"] = e(x.body); v["ones"] = e(x.ones); v["bits"] = e(x.bits); return v; }
    template <typename ...E> J flat(E const& ...e) const
    {
      std::vector<J> parts;
      ([&] { if constexpr (!std::is_empty_v<std::decay_t<E>>) parts.push_back((*this)(e)); }(), ...);
      if (parts.empty()) return J();
      if (parts.size() == 1) return parts[0];
      J v(Json::arrayValue);
      for (auto& p : parts) v.append(p);
      return v;
    }
    template <typename ...T> J operator()(hana::tuple<T...> const& x) const { return hana::unpack(x, [&](auto const& ...e) { return flat(e...); }); }
    template <typename ...T> J operator()(hana::basic_tuple<T...> const& x) const { return hana::unpack(x, [&](auto const& ...e) { return flat(e...); }); }
    template <typename A, typename B> J operator()(hana::pair<A, B> const& x) const { return flat(hana::first(x), hana::second(x)); }
    template <typename K, typename P> J operator()(msg::create_path<K, P> const& x) const { return (*this)(x.parent_path); }
    template <message_like T> J operator()(T const& x) const { return (*this)(x.storage); }
    template <map_like M> J operator()(M const& x) const
    { J v; hana::for_each(hana::keys(x), [&](auto k) { v[k.c_str()] = (*this)(hana::at_key(x, k)); }); return v; }
  };

  // no: not a document of this shape; open: both accepting (with this value) and refusing are fine
  enum verdict { no, open, yes };
  inline verdict both(verdict a, verdict b) { return std::min(a, b); }

  struct dec_fn
  {
    static verdict integral(J const& v, double lo, double hi)
    {
      if (v.type() == Json::intValue || v.type() == Json::uintValue)
        return v.asDouble() >= lo && v.asDouble() <= hi ? yes : no;
      if (v.type() == Json::realValue)
      { double d = v.asDouble(); return d >= lo && d <= hi && d == std::floor(d) ? open : no; }
      return no;
    }
    verdict operator()(J const& v, bool& x) const { if (v.type() != Json::booleanValue) return no; x = v.asBool(); return yes; }
    verdict operator()(J const& v, int& x) const
    { auto k = integral(v, -2147483648.0, 2147483647.0); if (k != no) x = static_cast<int>(v.asDouble()); return k; }
    verdict operator()(J const& v, unsigned& x) const
    { auto k = integral(v, 0, 4294967295.0); if (k != no) x = static_cast<unsigned>(v.asDouble()); return k; }
    verdict operator()(J const& v, color& x) const { unsigned u = 0; auto k = (*this)(v, u); x = static_cast<color>(u); return k; }
    verdict operator()(J const& v, double& x) const
    {
      if (v.type() != Json::intValue && v.type() != Json::uintValue && v.type() != Json::realValue) return no;
      x = v.asDouble(); return yes;
    }
    verdict operator()(J const& v, nbdl::string& x) const
    { if (v.type() != Json::stringValue) return no; x = v.asString(); return yes; }
    std::optional<std::string> b64(J const& v) const { if (v.type() != Json::stringValue) return {}; return ref::unbase64(v.asString()); }
    verdict operator()(J const& v, Bytes& x) const { auto b = b64(v); if (!b) return no; x.assign(b->begin(), b->end()); return yes; }
    verdict operator()(J const& v, std::string& x) const { auto b = b64(v); if (!b) return no; x = *b; return yes; }
    template <std::size_t N> verdict operator()(J const& v, std::array<unsigned char, N>& x) const
    { auto b = b64(v); if (!b || b->size() != N) return no; std::copy(b->begin(), b->end(), x.begin()); return yes; }
    verdict operator()(J const& v, nbdl::uid& x) const
    { auto b = b64(v); if (!b || b->size() != 16) return no; std::copy(b->begin(), b->end(), x.begin()); return yes; }
    template <typename T> verdict seq(J const& v, T& x) const
    {
      if (v.type() != Json::arrayValue) return no;
      x.clear();
      verdict k = yes;
      for (Json::ArrayIndex i = 0; i < v.size(); ++i)
      { typename T::value_type e{}; k = both(k, (*this)(v[i], e)); if (k == no) return no; x.insert(x.end(), std::move(e)); }
      return k;
    }
    template <typename T> verdict operator()(J const& v, std::vector<T>& x) const { return seq(v, x); }
    template <typename T> verdict operator()(J const& v, std::list<T>& x) const { return seq(v, x); }
    template <typename T> verdict operator()(J const& v, std::deque<T>& x) const { return seq(v, x); }
    template <typename T> verdict operator()(J const& v, std::set<T>& x) const { return seq(v, x); }
    template <typename T> verdict operator()(J const& v, std::multiset<T>& x) const { return seq(v, x); }
    template <typename T> verdict member(J const& v, char const* name, T& x) const
    {
      if (v.type() != Json::objectValue || !v.isMember(name))
      { T spare{}; return (*this)(J(), spare) == no ? no : open; }
      return (*this)(v[name], x);
    }
    template <typename ...M> verdict object(J const& v, std::pair<char const*, M&> ...m) const
    {
      verdict k = v.type() == Json::objectValue ? v.size() == sizeof...(M) ? yes : open : no;
      if (v.type() == Json::nullValue) k = open;
      ([&] { if (k != no) k = both(k, member(v, m.first, m.second)); }(), ...);
      return k;
    }
    template <typename T> static std::pair<char const*, T&> m(char const* n, T& t) { return {n, t}; }
    verdict operator()(J const& v, leaf& x) const { return object(v, m("id", x.id), m("name", x.name)); }
    verdict operator()(J const& v, one& x) const { return object(v, m("text", x.text)); }
    verdict operator()(J const& v, wide& x) const
    {
      return object(v, m("flag", x.flag), m("number", x.number), m("count", x.count), m("real", x.real), m("tint", x.tint), m("text", x.text),
        m("raw", x.raw), m("four", x.four), m("id", x.id), m("numbers", x.numbers), m("leaves", x.leaves), m("pick", x.pick), m("maybe", x.maybe),
        m("single", x.single), m("inner", x.inner));
    }
    verdict operator()(J const& v, deep& x) const
    { return object(v, m("grid", x.grid), m("picks", x.picks), m("body", x.body), m("ones", x.ones), m("bits", x.bits)); }
    template <typename ...T> verdict operator()(J const& v, nbdl::detail::variant<T...>& x) const
    {
      int id = 0;
      verdict k = no;
      bool plain = v.type() != Json::arrayValue;
      if (plain) k = (*this)(v, id);
      else if (v.size() == 2) k = (*this)(v[0u], id);
      if (k == no || id < 0 || id >= static_cast<int>(sizeof...(T))) return no;
      int i = 0;
      verdict res = no;
      ([&] {
        if (i++ != id) return;
        T e{};
        if constexpr (std::is_empty_v<T>) { if (plain) { res = k; x.value_ = e; } }
        else if (!plain) { res = both(k, (*this)(v[1u], e)); if (res != no) x.value_ = std::move(e); }
      }(), ...);
      return res;
    }
    template <typename ...E> verdict flat(J const& v, E& ...e) const
    {
      constexpr auto n = ((std::is_empty_v<E> ? 0u : 1u) + ... + 0u);
      if constexpr (n == 0) return v.isNull() ? yes : open;
      verdict k = yes;
      if (n > 1 && (v.type() != Json::arrayValue || v.size() != n)) return no;
      Json::ArrayIndex i = 0;
      ([&] {
        if constexpr (!std::is_empty_v<E>) { if (k != no) k = both(k, (*this)(n == 1 ? v : v[i++], e)); }
      }(), ...);
      return k;
    }
    template <typename ...T> verdict operator()(J const& v, hana::tuple<T...>& x) const { return hana::unpack(x, [&](auto& ...e) { return flat(v, e...); }); }
    template <typename ...T> verdict operator()(J const& v, hana::basic_tuple<T...>& x) const { return hana::unpack(x, [&](auto& ...e) { return flat(v, e...); }); }
    template <typename A, typename B> verdict operator()(J const& v, hana::pair<A, B>& x) const { return flat(v, hana::first(x), hana::second(x)); }
    template <typename K, typename P> verdict operator()(J const& v, msg::create_path<K, P>& x) const { return (*this)(v, x.parent_path); }
    template <message_like T> verdict operator()(J const& v, T& x) const { return (*this)(v, x.storage); }
    template <map_like M> verdict operator()(J const& v, M& x) const
    {
      verdict k = v.type() == Json::objectValue ? v.size() == decltype(hana::length(hana::keys(x)))::value ? yes : open : v.isNull() ? open : no;
      hana::for_each(hana::keys(x), [&](auto key) { if (k != no) k = both(k, member(v, key.c_str(), hana::at_key(x, key))); });
      return k;
    }
  };

  using map_t = hana::map<hana::pair<decltype(BOOST_HANA_STRING("alpha")), int>, hana::pair<decltype(BOOST_HANA_STRING("beta")), nbdl::string>,
                          hana::pair<decltype(BOOST_HANA_STRING("gamma")), leaf>>;

  // every shape the monitors exercise
#if defined(SHAPES_B)
#define JSON_SHAPES(X) JSON_SHAPES_B(X)
#elif defined(SHAPES_A)
#define JSON_SHAPES(X) JSON_SHAPES_A(X)
#else
#define JSON_SHAPES(X) JSON_SHAPES_A(X) JSON_SHAPES_B(X)
#endif
#define JSON_SHAPES_A(X) \
  X("bool", bool) X("int", int) X("unsigned", unsigned) X("double", double) X("enum", js::color) X("string", nbdl::string) \
  X("bytes", js::Bytes) X("byte-string", std::string) X("four", PACK(std::array<unsigned char, 4>)) X("uid", nbdl::uid) X("ints", std::vector<int>) \
  X("strings", std::list<nbdl::string>) X("bools", std::vector<bool>) X("blobs", std::vector<js::Bytes>) \
  X("grid", std::vector<std::vector<nbdl::string>>) X("choices", std::vector<js::choice>) \
  X("maybes", std::vector<nbdl::optional<int>>) X("set", std::set<nbdl::string>) X("multiset", std::multiset<int>) X("leaf", js::leaf) X("leaves", std::vector<js::leaf>) X("one", js::one) \
  X("choice", js::choice) X("optional", nbdl::optional<js::leaf>) X("wide", js::wide) X("deep", js::deep)
#define JSON_SHAPES_B(X) \
  X("tuple1", hana::tuple<nbdl::string>) X("tuple2", PACK(hana::tuple<int, nbdl::string>)) \
  X("tuple5", PACK(hana::tuple<bool, js::none, js::leaf, std::vector<int>, double>)) X("only-one-left", PACK(hana::tuple<js::none, int, js::none>)) \
  X("nested-tuple", PACK(hana::tuple<hana::tuple<int, int>, hana::tuple<nbdl::string>, hana::tuple<hana::tuple<unsigned, bool>, js::choice>>)) \
  X("pair", PACK(hana::pair<int, std::vector<js::leaf>>)) X("map", js::map_t) X("message", js::any_message) \
  X("create", js::up_create) X("create-uid", js::up_create_uid) X("read", js::up_read) X("update", js::up_update) X("delete", js::up_delete) \
  X("down-create", js::down_create) X("down-read", js::down_read) X("down-update", js::down_update) X("down-delete", js::down_delete)
#define PACK(...) __VA_ARGS__
}
#endif
