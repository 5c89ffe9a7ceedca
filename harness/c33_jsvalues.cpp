// C33: the binder of JavaScript values, in a node process, on every bindable shape.
#include "json_shapes.hpp"
#include "web/web.hpp"
#include <nbdl/binder/js.hpp>

namespace
{
  namespace bind = nbdl::binder::js;

  struct plain
  {
    bool flag; int number; unsigned count; js::color tint; nbdl::string text; js::Bytes raw;
    nbdl::uid id; std::vector<int> numbers; std::vector<js::leaf> leaves;
    js::choice pick; nbdl::optional<js::leaf> maybe; js::one single; js::leaf inner; int a_member_with_a_name_longer_than_most;
  };
}
namespace nbdl { NBDL_ENTITY(plain, flag, number, count, tint, text, raw, id, numbers, leaves, pick, maybe, single, inner, a_member_with_a_name_longer_than_most); }
namespace
{
#define PLAIN_MEMBERS(X) X(flag) X(number) X(count) X(tint) X(text) X(raw) X(id) X(numbers) X(leaves) X(pick) X(maybe) X(single) X(inner) X(a_member_with_a_name_longer_than_most)
  struct gen_fn : js::gen_fn
  {
    using js::gen_fn::operator();
    // texts hold no NUL: it ends them
    void operator()(nbdl::string& x) const
    {
      js::gen_fn::operator()(x);
      for (auto& c : x) if (!c) c = ' ';
      if (r.chance(1, 3)) x = r.from("abc XYZ09\"\\\n", r.chance(1, 60) ? r.range(60000, 140000) : r.chance(1, 10) ? r.below(3000) : r.below(20));
    }
    void operator()(js::leaf& x) const { (*this)(x.id); (*this)(x.name); }
    void operator()(js::one& x) const { (*this)(x.text); }
    template <typename T> void seq(T& x) const
    { x.clear(); auto n = js::len(r); if (std::is_arithmetic_v<typename T::value_type> && r.chance(1, 15)) n = r.range(100, 700); for (std::size_t i = 0; i < n; ++i) { typename T::value_type v{}; (*this)(v); x.insert(x.end(), std::move(v)); } }
    void operator()(js::Bytes& x) const { auto s = r.bytes(r.chance(1, 20) ? r.below(2000) : js::len(r)); x.assign(s.begin(), s.end()); }
    template <typename T> void operator()(std::vector<T>& x) const { seq(x); }
    template <typename T> void operator()(std::list<T>& x) const { seq(x); }
    template <typename T> void operator()(std::deque<T>& x) const { seq(x); }
    template <typename ...T> void operator()(nbdl::detail::variant<T...>& x) const
    { auto k = r.below(sizeof...(T)), i = std::size_t{0}; ([&] { if (i++ == k) { T v{}; (*this)(v); x.value_ = std::move(v); } }(), ...); }
    template <typename ...T> void operator()(hana::tuple<T...>& x) const { hana::for_each(x, *this); }
    template <typename A, typename B> void operator()(hana::pair<A, B>& x) const { (*this)(hana::first(x)); (*this)(hana::second(x)); }
    void operator()(plain& x) const {
#define X(M) (*this)(x.M);
      PLAIN_MEMBERS(X)
#undef X
    }
  };
  struct eq_fn : js::eq_fn
  {
    using js::eq_fn::operator();
    template <typename T> bool seq2(T const& a, T const& b) const
    { return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin(), [&](auto const& x, auto const& y) { return (*this)(x, y); }); }
    template <typename T> bool operator()(std::vector<T> const& a, std::vector<T> const& b) const { return seq2(a, b); }
    bool operator()(plain const& a, plain const& b) const
    {
      bool ok = true;
#define X(M) ok = ok && (*this)(a.M, b.M);
      PLAIN_MEMBERS(X)
#undef X
      return ok;
    }
  };
  struct enc_fn : js::enc_fn
  {
    using js::enc_fn::operator();
    template <typename T> Json::Value seq2(T const& x) const { Json::Value v(Json::arrayValue); for (auto const& e : x) v.append((*this)(e)); return v; }
    Json::Value operator()(js::Bytes const& x) const { return b64(x); }
    template <typename T> Json::Value operator()(std::vector<T> const& x) const { return seq2(x); }
    Json::Value operator()(plain const& x) const
    {
      Json::Value v;
#define X(M) v[#M] = (*this)(x.M);
      PLAIN_MEMBERS(X)
#undef X
      return v;
    }
  };

  // the value in JavaScript means the same: numbers are 32 bit words there, and true is 1
  bool same(Json::Value const& a, Json::Value const& b)
  {
    auto const number = [](Json::Value const& x) { return x.isBool() || x.isIntegral(); };
    if (number(a) && number(b))
      return static_cast<std::uint32_t>(a.isBool() ? a.asBool() : a.asLargestInt()) == static_cast<std::uint32_t>(b.isBool() ? b.asBool() : b.asLargestInt());
    if (a.type() != b.type() || (a.isArray() || a.isObject() ? a.size() != b.size() : a != b)) return false;
    if (a.isArray()) { for (Json::ArrayIndex i = 0; i < a.size(); ++i) if (!same(a[i], b[i])) return false; }
    else if (a.isObject()) for (auto const& n : a.getMemberNames()) if (!b.isMember(n) || !same(a[n], b[n])) return false;
    return true;
  }
  Json::Value parse(std::string const& t)
  {
    Json::CharReaderBuilder b;
    std::unique_ptr<Json::CharReader> p(b.newCharReader());
    std::string e; Json::Value v;
    if (!p->parse(t.data(), t.data() + t.size(), &v, &e)) throw std::runtime_error("not JSON: " + t);
    return v;
  }
  std::string print(Json::Value const& v)
  { Json::StreamWriterBuilder b; b["indentation"] = ""; b["emitUTF8"] = true; return Json::writeString(b, v); }

  template <typename T> T value(Rng& r) { T x{}; gen_fn{{r}}(x); return x; }

  template <typename T> void round_trip(Rng& r, std::string const& name)
  {
    web::reset();
    int const before = web::entries();
    {
      T const x = value<T>(r);
      T const keep = x;
      Json::Value const want = enc_fn{}(x);
      std::string const ctx = name + " " + vmon::show(print(want), 500);
      nbdl::js::val v;
      // what was there before does not matter
      if (r.coin()) web::put(nbdl::js::get_handle(v), r.pick({"5", "'old'", "[1,2,3]", "{a:1}", "null"}));
      bind::bind_to(v, x);
      web::check(eq_fn{}(x, keep), "source-changed", ctx);
      std::string const is = web::json(nbdl::js::get_handle(v));
      web::check(same(want, parse(is)), "javascript-value", ctx + " is " + vmon::show(is, 500));
      web::count("values given to JavaScript");
      web::distinct(name + is);
      T y{};
      if (r.coin()) y = value<T>(r);
      bind::bind_from(v, y);
      web::check(eq_fn{}(x, y), "came-back", ctx + " came back as " + vmon::show(print(enc_fn{}(y)), 500));
      web::check(web::json(nbdl::js::get_handle(v)) == is, "value-changed", ctx);
      // a value made by JavaScript
      T const z = value<T>(r);
      nbdl::js::val w;
      std::string const made = print(enc_fn{}(z));
      web::put(nbdl::js::get_handle(w), made);
      bind::bind_from(w, y);
      web::check(eq_fn{}(z, y), "made-there", name + " " + vmon::show(made, 500) + " was read as " + vmon::show(print(enc_fn{}(y)), 500));
      web::count("values read", 2);
      // bytes may also come as bytes
      if constexpr (std::is_same_v<T, nbdl::string>)
      {
        std::string code = "new Uint8Array([";
        for (unsigned char c : z) code += std::to_string(c) + ",";
        web::put(nbdl::js::get_handle(w), code + "])");
        bind::bind_from(w, y);
        web::check(eq_fn{}(z, y), "made-there", name + " as bytes " + vmon::show(z) + " were read as " + vmon::show(y));
        web::count("values read");
      }
      web::check(web::entries() == before + 2, "entries", ctx + ": " + std::to_string(web::entries()) + " for 2 handles");
      if (r.chance(1, 100)) web::sample(ctx);
    }
    web::check(web::entries() == before, "entries-left", name);
    web::check_memory();
  }

  // another answer than the binder expects is no reason to write where nothing is
  template <typename T> void rubbish(Rng& r, std::string const& name)
  {
    web::reset();
    {
      nbdl::js::val v;
      Json::Value j = enc_fn{}(value<T>(r));
      // change one thing
      Json::Value* at = &j;
      while ((at->isArray() || at->isObject()) && at->size() && r.chance(3, 4))
      {
        if (at->isArray()) at = &(*at)[static_cast<Json::ArrayIndex>(r.below(at->size()))];
        else { auto n = at->getMemberNames(); at = &(*at)[r.pick(n)]; }
      }
      *at = parse(r.pick({"null", "5", "-1", "99", "\"x\"", "\"AAAA\"", "\"====\"", "[]", "[1]", "[0]", "[7,8]", "[-1,5]", "{}", "true", "1e9", "0.5"}));
      std::string const text = print(j);
      web::put(nbdl::js::get_handle(v), text);
      T y = value<T>(r);
      web::distinct(name + text);
      bool refused = false;
      try { bind::bind_from(v, y); }
      catch (std::exception const&) { refused = true; }
      catch (char const*) { refused = true; }
      web::count(refused ? "refused" : "accepted");
      if (!refused) { T const z = y; web::check(eq_fn{}(z, y), "unusable", name + " after " + text); }
    }
    web::check_memory();
  }

#define SHAPES(X) \
  X("bool", bool) X("int", int) X("unsigned", unsigned) X("enum", js::color) X("string", nbdl::string) X("bytes", js::Bytes) X("byte-string", std::string) \
  X("uid", nbdl::uid) X("ints", std::vector<int>) X("strings", std::list<nbdl::string>) X("blobs", std::vector<js::Bytes>) \
  X("grid", std::vector<std::vector<nbdl::string>>) X("choices", std::vector<js::choice>) X("maybes", std::vector<nbdl::optional<int>>) X("leaf", js::leaf) \
  X("leaves", std::deque<js::leaf>) X("one", js::one) X("choice", js::choice) X("optional", nbdl::optional<js::leaf>) X("plain", plain) X("plains", std::vector<plain>) \
  X("tuple1", hana::tuple<nbdl::string>) X("tuple2", PACK(hana::tuple<int, nbdl::string>)) X("only-one-left", PACK(hana::tuple<js::none, int, js::none>)) \
  X("tuple5", PACK(hana::tuple<bool, js::none, js::leaf, std::vector<int>, unsigned>)) \
  X("nested-tuple", PACK(hana::tuple<hana::tuple<int, int>, hana::tuple<nbdl::string>, hana::tuple<hana::tuple<unsigned, bool>, js::choice>>)) \
  X("pair", PACK(hana::pair<int, std::vector<js::leaf>>)) X("pairs", PACK(std::vector<hana::pair<unsigned, nbdl::string>>))

  void values(Rng& r)
  {
    unsigned k = static_cast<unsigned>(vmon::st().index), i = 0, n = 0;
#define X(NAME, ...) ++n;
    SHAPES(X)
#undef X
    k %= n;
#define X(NAME, ...) if (i++ == k) round_trip<__VA_ARGS__>(r, NAME);
    SHAPES(X)
#undef X
    vmon::count_max("shapes", n);
  }
  void others(Rng& r)
  {
    unsigned k = static_cast<unsigned>(vmon::st().index), i = 0, n = 0;
#define X(NAME, ...) ++n;
    SHAPES(X)
#undef X
    k %= n;
#define X(NAME, ...) if (i++ == k) rubbish<__VA_ARGS__>(r, NAME);
    SHAPES(X)
#undef X
  }
}
VMON_MODE("values", values, "values given to JavaScript", "values read", "shapes")
VMON_MODE("others", others, "accepted")
WEB_MAIN
