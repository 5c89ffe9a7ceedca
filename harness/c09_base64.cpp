// C09: base64.  Oracle: ref::base64 / ref::unbase64 (bitwise, from RFC 4648).
#include "vmon.hpp"
#include "ref.hpp"
#include <nbdl/util/base64_encode.hpp>
#include <nbdl/util/base64_decode.hpp>
#include <array>
#include <cstddef>

using nbdl::util::base64_encode;
using nbdl::util::base64_decode;
using vmon::Rng;

namespace
{
  using UC = std::vector<unsigned char>;
  using SC = std::vector<char>;
  using GC = std::vector<signed char>;

  template <typename C> C as(std::string const& s)
  { C c; c.resize(s.size()); for (std::size_t i = 0; i < s.size(); ++i) c[i] = static_cast<typename C::value_type>(s[i]); return c; }
  template <typename C> std::string str(C const& c)
  { std::string r; for (auto x : c) r += static_cast<char>(x); return r; }

  template <std::size_t N> void fixed(std::string const& text, std::string const& bytes, bool valid)
  {
    // canaries around the fixed size target
    struct { unsigned char before[16]; std::array<unsigned char, N> a; unsigned char after[16]; } t;
    std::memset(&t, 0xA5, sizeof t);
    bool ok = base64_decode(text, t.a);
    bool want = valid && bytes.size() == N;
    vmon::check(ok == want, "fixed-verdict", "target of " + std::to_string(N) + " bytes, text '" + vmon::show(text)
      + "': returned " + (ok ? "true" : "false"));
    if (ok && want && N > 0) vmon::check(str(t.a) == bytes, "fixed-value", "text '" + vmon::show(text) + "'");
    for (auto c : t.before) vmon::check(c == 0xA5, "fixed-overrun", "wrote before the target");
    for (auto c : t.after) vmon::check(c == 0xA5, "fixed-overrun", "wrote behind the target");
    vmon::count(want ? "fixed_accept" : "fixed_refuse");
  }

  template <typename C> void encode_as(std::string const& bytes, std::string const& text, char const* name)
  {
    auto got = base64_encode(as<C>(bytes));
    vmon::check(got == text, std::string("encode-") + name, "bytes '" + vmon::show(bytes) + "' gave '" + vmon::show(got)
      + "', RFC 4648 says '" + vmon::show(text) + "'");
    vmon::count("encoded");
  }

  std::string some_bytes(Rng& r)
  {
    std::size_t n = r.chance(1, 8) ? r.below(700) : r.below(40);
    switch (r.below(4))
    {
      case 0: return std::string(n, static_cast<char>(r.pick({0, 255, 128, 127, 62, 63, 251})));
      case 1: return r.from("abcXYZ 0189", n);
      default: return r.bytes(n);
    }
  }

  void round_trip(Rng& r)
  {
    std::string bytes = some_bytes(r), text = ref::base64(bytes);
    vmon::distinct(bytes);
    vmon::sample("bytes '" + vmon::show(bytes, 40) + "' <-> '" + vmon::show(text, 60) + "'");
    encode_as<std::string>(bytes, text, "string");
    encode_as<UC>(bytes, text, "uchar");
    encode_as<SC>(bytes, text, "char");
    encode_as<GC>(bytes, text, "schar");
    std::array<unsigned char, 20> a{};
    std::string ab;
    for (auto& c : a) { c = static_cast<unsigned char>(r.next()); ab += static_cast<char>(c); }
    vmon::check(base64_encode(a) == ref::base64(ab), "encode-array", vmon::show(ab));

    vmon::check(str(base64_decode(text)) == bytes, "decode-string", "text '" + vmon::show(text) + "'");
    vmon::check(str(base64_decode(as<UC>(text))) == bytes, "decode-uchar", "text '" + vmon::show(text) + "'");
    std::string junk = some_bytes(r);
    { std::string out = junk; bool ok = base64_decode(text, out);
      vmon::check(ok && out == bytes, "decode-into-string", "text '" + vmon::show(text) + "'"); }
    { UC out = as<UC>(junk); bool ok = base64_decode(text, out);
      vmon::check(ok && str(out) == bytes, "decode-into-uchar", "text '" + vmon::show(text) + "'"); }
    { SC out = as<SC>(junk); bool ok = base64_decode(as<SC>(text), out);
      vmon::check(ok && str(out) == bytes, "decode-into-char", "text '" + vmon::show(text) + "'"); }
    vmon::count("decoded", 5);
    fixed<0>(text, bytes, true); fixed<1>(text, bytes, true); fixed<2>(text, bytes, true);
    fixed<3>(text, bytes, true); fixed<20>(text, bytes, true);
    fixed<5>(ref::base64(ab.substr(0, 5)), ab.substr(0, 5), true);
    fixed<20>(ref::base64(ab), ab, true);
  }

  void judge(std::string const& text)
  {
    auto want = ref::unbase64(text);
    vmon::distinct(text);
    std::string const t = "text '" + vmon::show(text) + "'";
    { std::string out = "junk"; bool ok = base64_decode(text, out);
      vmon::check(ok == want.has_value(), "verdict", t + (ok ? " accepted" : " refused"));
      if (ok && want) vmon::check(out == *want, "value", t); }
    { UC out{1, 2, 3}; bool ok = base64_decode(as<UC>(text), out);
      vmon::check(ok == want.has_value(), "verdict-uchar", t + (ok ? " accepted" : " refused"));
      if (ok && want) vmon::check(str(out) == *want, "value-uchar", t); }
    { auto out = base64_decode(text);
      vmon::check(str(out) == (want ? *want : std::string{}), "returning", t); }
    fixed<0>(text, want.value_or(""), want.has_value());
    fixed<1>(text, want.value_or(""), want.has_value());
    fixed<2>(text, want.value_or(""), want.has_value());
    fixed<3>(text, want.value_or(""), want.has_value());
    fixed<4>(text, want.value_or(""), want.has_value());
    fixed<6>(text, want.value_or(""), want.has_value());
    vmon::count(want ? "accepted_texts" : "refused_texts");
    if (!want) vmon::sample("refused " + t);
  }

  void bad_text(Rng& r)
  {
    static const std::string abc = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string t;
    switch (r.below(6))
    {
      case 0: t = r.from("A=+/z9", r.below(9)); break;
      case 1: t = r.from(abc, r.below(30)); break;
      case 2: t = r.bytes(r.below(20)); break;
      case 3: // one character of a good text changed
        t = ref::base64(some_bytes(r));
        if (!t.empty()) t[r.below(t.size())] = static_cast<char>(r.next());
        break;
      case 4: // cut
        t = ref::base64(some_bytes(r));
        t.resize(r.below(t.size() + 1));
        break;
      default: // padding moved in, or trailing rubbish
        t = ref::base64(some_bytes(r));
        t.insert(r.below(t.size() + 1), r.pick({"=", "==", "===", "====", "\n", " ", "-", "_"}));
    }
    judge(t);
  }

  // every text of up to four characters over a small alphabet: complete
  void small_texts(Rng&)
  {
    static const std::string abc = "A/=z+-";
    auto i = vmon::st().index;
    std::string t;
    std::uint64_t base = 0, block = 1;
    for (int len = 0; len <= 4; ++len)
    {
      if (i < base + block)
      {
        auto k = i - base;
        for (int j = 0; j < len; ++j) { t += abc[k % abc.size()]; k /= abc.size(); }
        break;
      }
      base += block; block *= abc.size();
    }
    judge(t);
  }

  // every single byte, every pair of bytes (sampled by index)
  void small_bytes(Rng& r)
  {
    auto i = vmon::st().index;
    std::string b;
    if (i < 256) b = std::string(1, static_cast<char>(i));
    else { b = std::string{static_cast<char>(i), static_cast<char>(i >> 8)}; if (r.coin()) b += static_cast<char>(r.next()); }
    vmon::distinct(b);
    std::string text = ref::base64(b);
    encode_as<std::string>(b, text, "string");
    encode_as<UC>(b, text, "uchar");
    vmon::check(str(base64_decode(text)) == b, "decode-string", text);
  }

  // byte strings whose text, or four times whose size, is beyond 2^31
  void huge(Rng& r)
  {
    auto i = vmon::st().index;
    std::size_t n = i == 0 ? (std::size_t(1) << 29) + r.below(300) : (std::size_t(1) << (30 + r.below(2))) + r.below(1u << 28);
    n = n / 3 * 3 + i % 3;
    // triples of one value, then what is left over
    std::string b(n, '\0');
    char const unit[3] = {static_cast<char>(r.next()), static_cast<char>(r.next()), static_cast<char>(r.next())};
    for (std::size_t k = 0; k < n; ++k) b[k] = unit[k % 3];
    std::string const four = ref::base64(std::string(unit, 3)), tail = ref::base64(std::string(unit, n % 3));
    std::string text = nbdl::util::base64_encode(b);
    vmon::check(text.size() == n / 3 * 4 + tail.size(), "huge-length", std::to_string(n) + " bytes gave " + std::to_string(text.size()) + " characters");
    bool same = true;
    for (std::size_t k = 0; k < n / 3 * 4; ++k) same &= text[k] == four[k % 4];
    vmon::check(same && text.compare(n / 3 * 4, std::string::npos, tail) == 0, "huge-text", std::to_string(n) + " bytes");
    std::string back;
    vmon::check(base64_decode(text, back) && back == b, "huge-decode", std::to_string(n) + " bytes");
    text[text.size() - 9] = '-';
    vmon::check(!base64_decode(text, back), "huge-verdict", "a bad character near the end of a huge text was accepted");
    vmon::distinct(n); vmon::count("huge strings"); vmon::count_max("longest", n);
    vmon::sample(std::to_string(n) + " bytes");
  }
}
#ifdef PART_HUGE
VMON_MODE("huge", huge, "huge strings")
#else
VMON_MODE("round-trip", round_trip, "encoded", "decoded", "fixed_accept", "fixed_refuse")
VMON_MODE("bad-text", bad_text, "accepted_texts", "refused_texts")
VMON_MODE("small-texts", small_texts, "accepted_texts", "refused_texts")
VMON_MODE("small-bytes", small_bytes, "encoded")
#endif
VMON_MAIN
