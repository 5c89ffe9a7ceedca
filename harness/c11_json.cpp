// C11/C12: the JSON reader and writer, on every bindable shape.
#include "json_shapes.hpp"
using nbdl::binder::jsoncpp::from_string;
using nbdl::binder::jsoncpp::to_string;

namespace
{
  std::string print(Json::Value const& v, Rng& r)
  {
    Json::StreamWriterBuilder b;
    b["indentation"] = r.pick({"", "\t", "  "});
    b["precision"] = 17;
    b["emitUTF8"] = r.coin();
    return Json::writeString(b, v);
  }
  bool parse(std::string const& t, Json::Value& v)
  {
    Json::CharReaderBuilder b;
    std::unique_ptr<Json::CharReader> p(b.newCharReader());
    std::string e;
    return p->parse(t.data(), t.data() + t.size(), &v, &e);
  }

  template <typename T>
  T value(Rng& r) { T x{}; js::gen_fn{r}(x); return x; }

#ifndef PART_HOSTILE
  // ------------------------------------------------------------ C11
  template <typename T>
  void round_trip(Rng& r, std::string const& name)
  {
    js::giants = r.chance(1, 60); js::giant_texts = r.chance(1, 60);
    T const x = value<T>(r);
    js::giants = js::giant_texts = 0;
    T const keep = x;
    std::string text;
    try { text = to_string(x); }
    catch (std::exception const& e) { vmon::violate("write-threw", name + ": " + e.what()); return; }
    vmon::check(js::eq_fn{}(x, keep), "write-changed-source", name);
    vmon::distinct(name + text);
    vmon::count("values_written"); if (text.size() > 5000) vmon::count("large_values"); vmon::count("bytes_written", text.size());
    if (r.chance(1, 400)) vmon::sample(name + " " + text);
    { T y = x; std::string again; again = to_string(y);          // a non-const value writes the same
      vmon::check(again == text, "write-unstable", name + ": " + text + " / " + again); }
    std::string const ctx = name + " " + vmon::show(text, 600);
    { T y{};
      try { from_string(text, y); vmon::check(js::eq_fn{}(x, y), "fresh-target", ctx + " came back as " + vmon::show(to_string(y), 600)); }
      catch (std::exception const& e) { vmon::violate("own-output-refused", ctx + ": " + e.what()); } }
    { T y = value<T>(r);
      std::string const was = to_string(y);
      try { from_string(text, y);
            vmon::check(js::eq_fn{}(x, y), "used-target", ctx + " into " + vmon::show(was, 300) + " gave " + vmon::show(to_string(y), 600));
            from_string(text, y);
            vmon::check(js::eq_fn{}(x, y), "twice", ctx); }
      catch (std::exception const& e) { vmon::violate("own-output-refused-used", ctx + ": " + e.what()); } }
    vmon::count("values_read", 3);
  }

  void c11_values(Rng& r)
  {
    unsigned k = static_cast<unsigned>(vmon::st().index), i = 0, n = 0;
#define X(NAME, ...) ++n;
    JSON_SHAPES(X)
#undef X
    k %= n;
#define X(NAME, ...) if (i++ == k) round_trip<__VA_ARGS__>(r, NAME);
    JSON_SHAPES(X)
#undef X
    vmon::count_max("shapes", n);
  }

#else
  // ------------------------------------------------------------ C12
  template <typename T>
  void judge(Rng& r, std::string const& name, std::string const& text)
  {
    Json::Value doc;
    bool parsed = false, nested = false;
    try { parsed = parse(text, doc); } catch (std::exception const&) { nested = true; }
    T want{};
    js::verdict k = js::no;
    if (parsed) k = js::dec_fn{}(doc, want);
    std::string const ctx = name + " " + vmon::show(text, 500);
    vmon::distinct(name + text);
    for (int used = 0; used < 2; ++used)
    {
      T got{};
      if (used) got = value<T>(r);
      bool accepted = false;
      std::string why;
      try { from_string(text, got); accepted = true; }
      catch (std::exception const& e) { why = e.what(); }
      if (!parsed && accepted) vmon::violate("not-json-accepted", ctx);
      else if (accepted && k == js::no) vmon::violate("wrong-shape-accepted", ctx + " gave " + vmon::show(to_string(got), 400));
      else if (!accepted && k == js::yes) vmon::violate("right-shape-refused", ctx + ": " + why);
      else if (accepted) vmon::check(js::eq_fn{}(got, want), "wrong-value", ctx + " gave " + vmon::show(to_string(got), 400));
      // whatever happened, the target can still be used
      (void) to_string(got);
      from_string(to_string(value<T>(r)), got);
    }
    vmon::count(!parsed ? "not_json" : k == js::no ? "wrong_shape" : k == js::open ? "open" : "right_shape");
    (void) nested;
  }

  Json::Value rubbish(Rng& r, int depth = 0)
  {
    switch (r.below(depth > 2 ? 9 : 11))
    {
      case 0: return Json::Value();
      case 1: return r.coin();
      case 2: return r.pick({0, 1, 2, 3, 4, 5, 6, 8, 9, 10, -1, -2, 100, 2147483647, -2147483647 - 1});
      case 3: return Json::Value(static_cast<Json::Int64>(r.next()));
      case 4: return Json::Value(static_cast<Json::UInt64>(r.pick({4294967295ull, 4294967296ull, 2147483648ull, ~0ull})));
      case 5: return r.pick({0.5, 3.0, -1e300, 1e10, 4294967296.0, -0.5, 2147483648.0});
      case 6: return js::utf8(r, r.below(6));
      case 7: return ref::base64(r.bytes(r.below(20)));
      case 8: return r.coin() ? Json::Value(Json::arrayValue) : Json::Value(Json::objectValue);
      case 9: { Json::Value v(Json::arrayValue); for (auto n = r.below(4); n--; ) v.append(rubbish(r, depth + 1)); return v; }
      default: { Json::Value v(Json::objectValue);
        for (auto n = r.below(4); n--; ) v[r.pick({"id", "name", "text", "alpha", "x", "", "pick"})] = rubbish(r, depth + 1); return v; }
    }
  }

  void nodes(Json::Value& v, std::vector<Json::Value*>& out)
  { out.push_back(&v); if (v.isArray() || v.isObject()) for (auto& c : v) nodes(c, out); }

  void mutate(Json::Value& doc, Rng& r)
  {
    std::vector<Json::Value*> all;
    nodes(doc, all);
    Json::Value& v = *r.pick(all);
    switch (r.below(8))
    {
      case 0: v = rubbish(r); break;
      case 1: if (v.isArray() && v.size()) { Json::Value x; v.removeIndex(static_cast<Json::ArrayIndex>(r.below(v.size())), &x); } else v = Json::Value(); break;
      case 2: if (v.isArray()) v.append(rubbish(r)); else if (v.isObject()) v["extra"] = rubbish(r); else { Json::Value a(Json::arrayValue); a.append(v); v = a; } break;
      case 3: if (v.isObject() && v.size()) { auto m = v.getMemberNames(); v.removeMember(r.pick(m)); } break;
      case 4: if (v.isArray() && v.size() > 1) { auto a = static_cast<Json::ArrayIndex>(r.below(v.size())), b = static_cast<Json::ArrayIndex>(r.below(v.size()));
                if (a != b) { Json::Value x = v[a]; v[a] = v[b]; v[b] = x; } } break;
      case 5: if (v.isArray() && v.size() == 1) { Json::Value x = v[0u]; v = x; } else if (v.isString()) { auto s = v.asString(); if (!s.empty()) s.resize(r.below(s.size())); v = s; } break;
      case 6: if (v.isInt64()) v = Json::Value(static_cast<Json::Int64>(v.asLargestInt() + r.range(-3, 3))); else if (v.isString()) v = js::utf8(r, 3); break;
      default: if (v.isObject() && v.size() > 1) { auto m = v.getMemberNames(); auto a = r.pick(m), b = r.pick(m); Json::Value x = v[a]; v[a] = v[b]; v[b] = x; }
               else v = rubbish(r);
    }
  }

  std::string hostile_text(Rng& r, std::string const& good)
  {
    std::string t = good;
    switch (r.below(8))
    {
      case 0: t.resize(r.below(t.size() + 1)); break;
      case 1: for (auto n = 1 + r.below(3); n-- && !t.empty(); ) t[r.below(t.size())] = static_cast<char>(r.next()); break;
      case 2: if (!t.empty()) { auto a = r.below(t.size()); t.erase(a, 1 + r.below(4)); } break;
      case 3: t.insert(r.below(t.size() + 1), r.pick({",", "[", "]", "{", "}", "\"", ":", "0", "-", "e", ".", "\\u0000", "\\ud800", "//x\n", "null", "1e999", "\x80", "NaN"})); break;
      case 4: t = r.bytes(r.below(40)); break;
      case 5: t = r.from("[]{}\",:0123456789-eE.truefalsn \\u", r.below(30)); break;
      case 6: { auto n = r.pick({10u, 500u, 999u, 1001u, 100000u}); t = std::string(n, r.pick({'[', '{'})); break; }
      default: { // a number swapped for an extreme one
        std::string d = r.pick({"99999999999999999999999", "-99999999999999999999", "1e400", "-0", "4294967296", "-2147483649", "1.0", "0x10", "00", "1e2", "18446744073709551616"});
        auto p = t.find_first_of("0123456789");
        if (p == t.npos) t = d; else { auto q = t.find_first_not_of("0123456789", p); t.replace(p, (q == t.npos ? t.size() : q) - p, d); } }
    }
    return t;
  }

  template <typename T>
  void hostile(Rng& r, std::string const& name)
  {
    T const x = value<T>(r);
    Json::Value doc = js::enc_fn{}(x);
    std::string text;
    switch (r.below(5))
    {
      case 0: text = print(doc, r); vmon::count("good_documents"); break;
      case 1: text = print(rubbish(r), r); break;
      case 2: text = hostile_text(r, print(doc, r)); break;
      default: for (auto n = 1 + r.below(2); n--; ) mutate(doc, r); text = print(doc, r);
    }
    judge<T>(r, name, text);
  }

  void c12_hostile(Rng& r)
  {
    unsigned k = static_cast<unsigned>(vmon::st().index), i = 0, n = 0;
#define X(NAME, ...) ++n;
    JSON_SHAPES(X)
#undef X
    k %= n;
#define X(NAME, ...) if (i++ == k) hostile<__VA_ARGS__>(r, NAME);
    JSON_SHAPES(X)
#undef X
  }

  // every truncation of one document
  void c12_cuts(Rng& r)
  {
    Rng fixed(7);
    js::wide x{}; js::gen_fn{fixed}(x);
    std::string const text = to_string(x);
    std::string t = text.substr(0, vmon::st().index % (text.size() + 1));
    judge<js::wide>(r, "wide-cut", t);
  }
#endif
}
#ifndef PART_HOSTILE
VMON_MODE("round-trip", c11_values, "values_written", "values_read", "shapes", "large_values")
#else
VMON_MODE("hostile", c12_hostile, "not_json", "wrong_shape", "right_shape", "good_documents")
VMON_MODE("cuts", c12_cuts, "not_json")
#endif
VMON_MAIN
