// Reference implementations the oracles use.  Written from the standards, not from nbdl.
#ifndef VERIF_REF_HPP
#define VERIF_REF_HPP
#include <array>
#include <cstdint>
#include <optional>
#include <string>
#include <string_view>
#include <vector>

namespace ref
{
  using Bytes = std::string; // byte strings

  // RFC 4648, bit by bit
  inline std::string base64(std::string_view in)
  {
    static const std::string abc =
      "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string out;
    std::size_t const nbits = in.size() * 8;
    for (std::size_t b = 0; b < nbits; b += 6)
    {
      unsigned v = 0;
      for (std::size_t k = b; k < b + 6; ++k)
      {
        unsigned bit = k < nbits ? (static_cast<unsigned char>(in[k / 8]) >> (7 - k % 8)) & 1u : 0u;
        v = v * 2 + bit;
      }
      out += abc[v];
    }
    while (out.size() % 4) out += '=';
    return out;
  }

  // nothing: not base64
  inline std::optional<std::string> unbase64(std::string_view in)
  {
    auto value = [](char c) -> int
    {
      if (c >= 'A' && c <= 'Z') return c - 'A';
      if (c >= 'a' && c <= 'z') return c - 'a' + 26;
      if (c >= '0' && c <= '9') return c - '0' + 52;
      if (c == '+') return 62;
      if (c == '/') return 63;
      return -1;
    };
    if (in.size() % 4) return {};
    std::size_t n = in.size();
    int pads = 0;
    while (n > 0 && in[n - 1] == '=' ) { --n; ++pads; }
    if (pads > 2) return {};
    std::string bits;
    for (std::size_t i = 0; i < n; ++i)
    {
      int v = value(in[i]);
      if (v < 0) return {};
      for (int k = 5; k >= 0; --k) bits += ((v >> k) & 1) ? '1' : '0';
    }
    std::string out;
    for (std::size_t i = 0; i + 8 <= bits.size(); i += 8)
    {
      int v = 0;
      for (int k = 0; k < 8; ++k) v = v * 2 + (bits[i + k] - '0');
      out += static_cast<char>(v);
    }
    return out;
  }

  // FIPS 180-4, straightforward 80 word schedule over the padded message
  inline std::string sha1(std::string_view in)
  {
    std::string m(in);
    std::uint64_t const bits = std::uint64_t(in.size()) * 8;
    m += static_cast<char>(0x80);
    while (m.size() % 64 != 56) m += '\0';
    for (int i = 7; i >= 0; --i) m += static_cast<char>(bits >> (8 * i));
    std::uint32_t h[5] = {0x67452301u, 0xEFCDAB89u, 0x98BADCFEu, 0x10325476u, 0xC3D2E1F0u};
    auto rotl = [](std::uint32_t x, int n) { return (x << n) | (x >> (32 - n)); };
    for (std::size_t o = 0; o < m.size(); o += 64)
    {
      std::uint32_t w[80];
      for (int t = 0; t < 16; ++t)
      {
        w[t] = 0;
        for (int k = 0; k < 4; ++k) w[t] = (w[t] << 8) | static_cast<unsigned char>(m[o + 4 * t + k]);
      }
      for (int t = 16; t < 80; ++t) w[t] = rotl(w[t-3] ^ w[t-8] ^ w[t-14] ^ w[t-16], 1);
      std::uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
      for (int t = 0; t < 80; ++t)
      {
        std::uint32_t f, k;
        if (t < 20)      { f = (b & c) | (~b & d);          k = 0x5A827999u; }
        else if (t < 40) { f = b ^ c ^ d;                   k = 0x6ED9EBA1u; }
        else if (t < 60) { f = (b & c) | (b & d) | (c & d); k = 0x8F1BBCDCu; }
        else             { f = b ^ c ^ d;                   k = 0xCA62C1D6u; }
        std::uint32_t x = rotl(a, 5) + f + e + k + w[t];
        e = d; d = c; c = rotl(b, 30); b = a; a = x;
      }
      h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
    }
    std::string out;
    for (auto x : h) for (int i = 3; i >= 0; --i) out += static_cast<char>(x >> (8 * i));
    return out;
  }

  inline std::string accept_token(std::string_view key)
  { return base64(sha1(std::string(key) + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11")); }

  // RFC 6455 framing
  struct Frame
  {
    bool fin = true;
    unsigned rsv = 0;
    unsigned opcode = 1;
    bool masked = false;
    std::array<unsigned char, 4> mask{};
    int length_form = -1; // -1 shortest, 0 seven bit, 2 sixteen bit, 8 sixty four bit
    std::string payload;
  };

  inline std::string encode(Frame const& f)
  {
    std::string o;
    o += static_cast<char>((f.fin ? 0x80 : 0) | (f.rsv << 4) | f.opcode);
    std::uint64_t n = f.payload.size();
    int form = f.length_form;
    if (form < 0) form = n < 126 ? 0 : n < 65536 ? 2 : 8;
    unsigned m = f.masked ? 0x80 : 0;
    if (form == 0) o += static_cast<char>(m | n);
    else
    {
      o += static_cast<char>(m | (form == 2 ? 126 : 127));
      for (int i = form - 1; i >= 0; --i) o += static_cast<char>(n >> (8 * i));
    }
    if (f.masked) for (auto c : f.mask) o += static_cast<char>(c);
    for (std::size_t i = 0; i < n; ++i)
      o += f.masked ? static_cast<char>(static_cast<unsigned char>(f.payload[i]) ^ f.mask[i % 4]) : f.payload[i];
    return o;
  }

  // Takes one frame from the front of `in`; false: incomplete.
  inline bool decode(std::string_view in, Frame& f, std::size_t& used)
  {
    if (in.size() < 2) return false;
    auto u = [&](std::size_t i) { return static_cast<unsigned char>(in[i]); };
    f.fin = u(0) & 0x80; f.rsv = (u(0) >> 4) & 7; f.opcode = u(0) & 15;
    f.masked = u(1) & 0x80;
    std::uint64_t n = u(1) & 0x7f;
    std::size_t p = 2;
    f.length_form = 0;
    if (n >= 126)
    {
      int k = n == 126 ? 2 : 8;
      f.length_form = k;
      if (in.size() < p + k) return false;
      n = 0;
      for (int i = 0; i < k; ++i) n = (n << 8) | u(p++);
    }
    if (f.masked)
    {
      if (in.size() < p + 4) return false;
      for (auto& c : f.mask) c = u(p++);
    }
    if (in.size() - p < n) return false;
    f.payload.assign(in.substr(p, n));
    if (f.masked) for (std::size_t i = 0; i < n; ++i) f.payload[i] = static_cast<char>(static_cast<unsigned char>(f.payload[i]) ^ f.mask[i % 4]);
    used = p + n;
    return true;
  }
}
#endif
