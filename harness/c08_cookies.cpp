// C08: the session token of a cookie header.  Oracle: split at ';', trim, compare names.
#include "vmon.hpp"
#include <cwctype>
#include <memory>
#include <optional>
#include <nbdl/websocket/detail/get_auth_token.hpp>
#include <nbdl/app/detail/cookie_parser.hpp>

using vmon::Rng;

namespace
{
  // RFC 6265: pairs separated by ';', optional white space around them; the first pair whose
  // name is exactly `name`; its value is everything behind the '=' up to the separator.
  std::optional<std::string> reference(std::string const& header, std::string const& name)
  {
    std::size_t at = 0;
    while (at <= header.size())
    {
      std::size_t e = header.find(';', at);
      if (e == std::string::npos) e = header.size();
      std::string pair = header.substr(at, e - at);
      std::size_t b = 0;
      while (b < pair.size() && (pair[b] == ' ' || pair[b] == '\t')) ++b;
      pair.erase(0, b);
      if (pair.compare(0, name.size() + 1, name + "=") == 0) return pair.substr(name.size() + 1);
      at = e + 1;
    }
    return {};
  }

  void auth(std::string const& header)
  {
    std::string want = reference(header, "nbdl_auth").value_or("");
    // exact heap storage, no spare capacity: reading past the end is seen by ASan
    std::string h(header);
    h.shrink_to_fit();
    std::string got = nbdl::websocket::detail::get_auth_token(h).value;
    vmon::check(got == want, "auth-token", "header '" + vmon::show(header) + "' gave '" + vmon::show(got) + "', expected '" + vmon::show(want) + "'");
    vmon::count(want.empty() ? "no_token" : "token");
    vmon::distinct(header);
    vmon::sample("'" + vmon::show(header) + "' -> '" + vmon::show(want, 40) + "'");
  }

  std::string cookie_value(Rng& r)
  {
    static const std::string octets = "abcXYZ019!#$%&'()*+-./:<=>?@[]^_`{|}~";
    return r.from(octets, r.chance(1, 5) ? 0 : r.chance(1, 100) ? r.below(9000) : r.chance(1, 10) ? r.below(200) : 1 + r.below(20));
  }

  std::string header_for(Rng& r, std::string const& name, bool strict)
  {
    std::string h;
    std::size_t n = r.chance(1, 40) ? r.below(150) : r.below(6);
    bool const rare = n > 5; // the cookie asked for among many others
    bool sep = strict ? true : r.coin();
    for (std::size_t i = 0; i < n; ++i)
    {
      std::string nm;
      switch (r.below(9))
      {
        case 0: case 1: case 2: nm = rare && !r.chance(1, 60) ? "other" : name; break;
        case 3: nm = "x" + name; break;
        case 4: nm = name + "x"; break;
        case 5: nm = name.substr(0, 1 + r.below(name.size() - 1)); break;
        case 6: nm = name.substr(1); break;
        default: nm = r.from("abcdefnl_", 1 + r.below(10));
      }
      std::string v = cookie_value(r);
      if (r.chance(1, 8)) v = name + "=" + v;
      if (!strict && r.chance(1, 12)) h += nm; else h += nm + "=" + v;
      if (i + 1 < n) h += sep ? "; " : r.pick({";", "; ", ";  ", ";\t", ";;", "; ;"});
    }
    if (r.chance(1, 4)) h += r.pick({";", "; ", ";;", " "});
    return h;
  }

  void auth_strict(Rng& r) { auth(header_for(r, "nbdl_auth", true)); }
  void auth_loose(Rng& r) { auth(header_for(r, "nbdl_auth", false)); }
  void auth_wild(Rng& r)
  {
    std::string h;
    if (r.coin()) h = r.from("nbdl_auth=; ", r.below(40));
    else
    {
      h = header_for(r, "nbdl_auth", false);
      for (int k = static_cast<int>(r.below(4)); k-- > 0 && !h.empty();)
        switch (r.below(3))
        {
          case 0: h[r.below(h.size())] = static_cast<char>(r.next()); break;
          case 1: h.erase(r.below(h.size()), 1 + r.below(4)); break;
          default: h.insert(r.below(h.size()), r.pick({";", "=", "nbdl_auth=", " "}));
        }
    }
    auth(h);
  }
  // all strings over a tiny alphabet, by index
  void auth_small(Rng&)
  {
    static const std::vector<std::string> abc = {"nbdl_auth=", "n", ";", " ", "="};
    auto i = vmon::st().index;
    std::string h;
    std::uint64_t base = 0, block = 1;
    for (int len = 0; len <= 5; ++len)
    {
      if (i < base + block)
      {
        auto k = i - base;
        for (int j = 0; j < len; ++j) { h += abc[k % 5]; k /= 5; }
        auth(h);
        return;
      }
      base += block; block *= 5;
    }
  }

  // ---- the app's session cookie

  void session(std::string const& header)
  {
    std::string want = reference(header, "NBDL_SESS").value_or("");
    std::unique_ptr<char[]> exact(new char[header.size() ? header.size() : 1]);
    std::memcpy(exact.get(), header.data(), header.size());
    std::string_view sv(exact.get(), header.size());
    std::string_view got = nbdl::app::detail::get_session_cookie(sv);
    vmon::check(got.empty() || (got.data() >= sv.data() && got.data() + got.size() <= sv.data() + sv.size())
      , "session-out-of-header", "header '" + vmon::show(header) + "'");
    vmon::check(got == want, "session-cookie", "header '" + vmon::show(header) + "' gave '" + vmon::show(got) + "', expected '" + vmon::show(want) + "'");
    vmon::count(want.empty() ? "no_session" : "session");
    vmon::distinct(vmon::hash(header) + 1);
    vmon::sample("'" + vmon::show(header) + "' -> '" + vmon::show(want, 40) + "'");
  }
  void session_strict(Rng& r)
  {
    // every cookie is a name=value pair
    session(header_for(r, "NBDL_SESS", true));
  }
  void session_spaces(Rng& r)
  {
    // name=value pairs throughout, with any white space before each of them
    std::string h;
    auto space = [&] { std::string x; if (r.coin()) x = r.from(" \t", r.below(5)); return x; };
    std::size_t n = 1 + r.below(5);
    for (std::size_t i = 0; i < n; ++i)
    {
      std::string one = header_for(r, "NBDL_SESS", true);
      one = one.substr(0, one.find(';'));
      if (one.empty() || one.find('=') == std::string::npos) one = "q=" + cookie_value(r);
      h += space() + one + (i + 1 < n || r.chance(1, 4) ? ";" : "");
    }
    session(h);
  }
  void session_wild(Rng& r)
  {
    // memory safety for anything at all; the value only when there is no malformed pair
    std::string h = r.coin() ? r.from("NBDL_SESS=; \"", r.below(40)) : r.bytes(r.below(40));
    std::unique_ptr<char[]> exact(new char[h.size() ? h.size() : 1]);
    std::memcpy(exact.get(), h.data(), h.size());
    std::string_view sv(exact.get(), h.size());
    auto got = nbdl::app::detail::get_session_cookie(sv);
    vmon::check(got.empty() || (got.data() >= sv.data() && got.data() + got.size() <= sv.data() + sv.size())
      , "session-out-of-header", "header '" + vmon::show(h) + "'");
    vmon::distinct(vmon::hash(h) + 2);
    vmon::count("wild_sessions");
  }
  void quotes(Rng& r)
  {
    std::string s = r.from("\"ab ", r.below(6));
    bool quoted = s.size() > 1 && s.front() == '"' && s.back() == '"';
    bool open = s.size() > 1 && s.front() == '"' && !quoted;
    std::unique_ptr<char[]> exact(new char[s.size() ? s.size() : 1]);
    std::memcpy(exact.get(), s.data(), s.size());
    auto got = nbdl::app::detail::trim_double_quotes(std::string_view(exact.get(), s.size()));
    if (!open) // the closing quote is documented as assumed
      vmon::check(got == (quoted ? s.substr(1, s.size() - 2) : s), "quotes", "'" + vmon::show(s) + "' gave '" + vmon::show(got) + "'");
    vmon::distinct(vmon::hash(s) + 3);
    vmon::count("trimmed");
  }
}
VMON_MODE("auth-strict", auth_strict, "token", "no_token")
VMON_MODE("auth-loose", auth_loose, "token", "no_token")
VMON_MODE("auth-wild", auth_wild, "token", "no_token")
VMON_MODE("auth-small", auth_small, "token", "no_token")
VMON_MODE("session-strict", session_strict, "session", "no_session")
VMON_MODE("session-spaces", session_spaces, "session", "no_session")
VMON_MODE("session-wild", session_wild, "wild_sessions")
VMON_MODE("quotes", quotes, "trimmed")
VMON_MAIN
