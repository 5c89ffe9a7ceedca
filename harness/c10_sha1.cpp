// C10: SHA-1 over any chunking, and API signatures.  Oracle: ref::sha1 (FIPS 180-4 schedule).
#include "vmon.hpp"
#include "ref.hpp"
#include <cstring>
#include <nbdl/api_signature.hpp>
#include <boost/hana.hpp>
#include <nbdl/detail/beast_sha1.hpp>
#include <nbdl/string.hpp>
#include <nbdl/variant.hpp>
#include <nbdl/websocket/detail/send_handshake_response.hpp>
#include <set>

using vmon::Rng;
namespace sha1 = nbdl::detail::beast_sha1;

namespace sig
{
  struct format_a {}; struct format_b {};
}

namespace
{
  std::string digest_chunked(std::string const& m, std::vector<std::size_t> const& cuts)
  {
    sha1::sha1_context ctx;
    std::memset(&ctx, 0xEE, sizeof ctx);
    sha1::init(ctx);
    std::size_t at = 0;
    for (auto n : cuts)
    {
      std::string piece = m.substr(at, n); // a heap copy of exactly the piece: over-reads are seen
      std::vector<char> v; v.reserve(piece.size() ? piece.size() : 1); // never a null pointer
      v.assign(piece.begin(), piece.end());
      sha1::update(ctx, v.data(), v.size());
      at += n;
    }
    unsigned char out[20 + 8];
    std::memset(out, 0x5A, sizeof out);
    sha1::finish(ctx, out);
    for (int i = 20; i < 28; ++i) vmon::check(out[i] == 0x5A, "digest-overrun", "finish wrote behind the digest");
    return std::string(reinterpret_cast<char*>(out), 20);
  }

  void chunks(Rng& r)
  {
    auto i = vmon::st().index;
    std::size_t n = i < 200 ? i : r.chance(1, 20) ? r.below(20000) : r.below(400);
    std::string m = r.chance(1, 6) ? std::string(n, static_cast<char>(r.next())) : r.bytes(n);
    std::vector<std::size_t> cuts;
    std::size_t left = n;
    switch (r.below(5))
    {
      case 0: cuts.push_back(n); left = 0; break;
      case 1: while (left) { cuts.push_back(1); --left; } break;
      case 2: while (left) { auto k = std::min<std::size_t>(left, 64); cuts.push_back(k); left -= k; } break;
      case 3: while (left) { auto k = std::min<std::size_t>(left, 1 + r.below(130)); cuts.push_back(k); left -= k; } break;
      default: while (left) { auto k = std::min<std::size_t>(left, r.below(9)); cuts.push_back(k); left -= k; } break;
    }
    if (r.chance(1, 3)) cuts.insert(cuts.begin() + r.below(cuts.size() + 1), 0);
    std::string want = ref::sha1(m), got = digest_chunked(m, cuts);
    std::string c; for (auto k : cuts) { c += std::to_string(k) + ","; if (c.size() > 80) { c += ".."; break; } }
    vmon::check(got == want, "digest", "message of " + std::to_string(n) + " bytes in pieces " + c);
    vmon::distinct(vmon::hash(m) ^ vmon::hash(c));
    vmon::count("digests"); vmon::count("pieces", cuts.size());
    vmon::count_max("max_message_bytes", n);
    vmon::sample(std::to_string(n) + " bytes in pieces " + c);
  }

  // the bit count of a message of half a gigabyte and more needs its upper word
  void longer(Rng& r)
  {
    auto i = vmon::st().index;
    std::size_t n = i == 0 ? (std::size_t(1) << 29) + r.below(200) : i == 1 ? (std::size_t(1) << 29) - 1 - r.below(100)
      : i == 2 ? (std::size_t(1) << 32) + r.below(200) : (std::size_t(1) << (29 + r.below(3))) + r.below(1u << 30);
    std::string m(n, '\0');
    for (std::size_t k = 0; k < n; k += 1 + r.below(1u << 20)) m[k] = static_cast<char>(r.next());
    sha1::sha1_context ctx;
    sha1::init(ctx);
    std::string cuts;
    for (std::size_t at = 0; at < n;)
    {
      std::size_t k = std::min<std::size_t>(n - at, r.coin() ? n : 1 + r.below(1u << 28));
      sha1::update(ctx, m.data() + at, k);
      at += k; cuts += std::to_string(k) + ",";
      vmon::count("pieces");
    }
    unsigned char out[20];
    sha1::finish(ctx, out);
    vmon::check(std::string(reinterpret_cast<char*>(out), 20) == ref::sha1(m), "digest", "message of " + std::to_string(n) + " bytes in pieces " + cuts);
    vmon::distinct(n); vmon::count("digests"); vmon::count_max("max_message_bytes", n);
    vmon::sample(std::to_string(n) + " bytes in pieces " + cuts);
  }

  void accept_token(Rng& r)
  {
    std::string key = r.chance(1, 2) ? ref::base64(r.bytes(16)) : r.bytes(r.below(120));
    auto got = nbdl::websocket::detail::generate_accept_token(key);
    vmon::check(got == ref::accept_token(key), "accept-token", "key '" + vmon::show(key) + "' gave '" + got + "'");
    vmon::distinct(key); vmon::count("accept_tokens");
    vmon::sample("key '" + vmon::show(key, 40) + "' -> " + got);
  }

  template <typename T> std::string signature_of(bool b)
  {
    auto hex = [](auto const& d) { return std::string(d.begin(), d.end()); };
    return b ? hex(nbdl::api_signature<T>(sig::format_a{})) : hex(nbdl::api_signature<T>(sig::format_b{}));
  }

  void signatures(Rng& r)
  {
    // stable for equal type and format, different for any other
    static thread_local std::map<std::pair<int, bool>, std::string> seen;
    bool b = r.coin();
    int k = static_cast<int>(r.below(8));
    std::string s;
    switch (k)
    {
      case 0: s = signature_of<std::integral_constant<int, 1>>(b); break;
      case 1: s = signature_of<std::integral_constant<int, 2>>(b); break;
      case 2: s = signature_of<boost::hana::tuple<int, float>>(b); break;
      case 3: s = signature_of<boost::hana::tuple<float, int>>(b); break;
      case 4: s = signature_of<std::vector<nbdl::string>>(b); break;
      case 5: s = signature_of<std::vector<int>>(b); break;
      case 6: s = signature_of<nbdl::variant<int, nbdl::string>>(b); break;
      default: s = signature_of<boost::hana::tuple<boost::hana::tuple<int, float>, nbdl::string>>(b);
    }
    auto [it, fresh] = seen.emplace(std::make_pair(k, b), s);
    vmon::check(it->second == s, "signature-unstable", "type " + std::to_string(k));
    for (auto& [key, v] : seen)
      if (key != std::make_pair(k, b)) vmon::check(v != s, "signature-collides"
        , "types " + std::to_string(k) + " and " + std::to_string(key.first));
    vmon::check(s != std::string(20, '\0'), "signature-empty", "all zero");
    vmon::count("signatures");
    vmon::distinct(s);
  }
}
#ifdef PART_LONG
VMON_MODE("longer", longer, "digests")
#else
VMON_MODE("chunks", chunks, "digests")
VMON_MODE("accept-token", accept_token, "accept_tokens")
VMON_MODE("signatures", signatures, "signatures")
#endif
VMON_MAIN
