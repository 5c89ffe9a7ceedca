// C16 (routing) and, with PART_NOTIFY, C18 (notifications): a context under random histories
// of messages, with producers which answer at once or never, consumers and observers which
// push messages and match paths from inside what they are told, against a model of the
// documented routing rules.
#include "ctx_common.hpp"

namespace
{
  using tag = t::ctx_tag<t::spy_tag, t::listener_tag>;
  using Ctx = nbdl::context<tag>;

  struct model
  {
    std::map<std::string, std::pair<int, int>> items; // of the spy stores
    std::map<std::string, std::string> held;
    std::vector<std::string> out;
    int next_key = 1000;
    int depth = 0;

    static std::string keys(int p, int k)
    {
      auto n = [](int x) { return std::to_string(x) + "/"; };
      std::string s = "p" + std::to_string(p) + "/";
      if (p == 2) return s + n(k) + n(2 * k) + n(3 * k);
      if (p == 6) return s + n(k);
      return s + n(k) + n(k + 10 * p);
    }
    static bool spied(int p) { return p <= 4; }
    static std::string entity(int n) { return n < 0 ? "not_found" : std::to_string(n); }
    static std::string msg(bool up, std::string kind, std::string path, std::string uid, std::string payload, std::string conf)
    {
      return (up ? "U" : "D") + kind + " " + path + " uid=" + uid + " payload=" + payload
           + (!up && kind != "read" ? " confirmed=" + conf : "");
    }
    void notify(std::string const& path)
    {
      for (char const* who : {"B1", "S1"})
      {
        out.push_back(std::string("notify ") + who + " " + path + " sees " + (held.count(path) ? held[path] : "nothing"));
        if (t::cfg().watch) match(who, path);
      }
    }
    void down(std::string const& m, bool created = false, std::string const& path = "")
    {
      for (char const* who : {"C1", "B1", "C2"})
      {
        out.push_back(std::string("down ") + who + " " + m);
        if (created && t::cfg().react && who[1] == '1') upstream_read(path, "-");
      }
    }
    int number(std::string const& path) { return path[1] - '0'; }
    void up(int p, std::string const& m) { out.push_back("up P" + std::to_string(t::owner(p)) + " " + m); }
    void offers(int p, std::string const& m)
    {
      if (p == 1) offer(5, m);
      if (p == 4) { offer(5, m); offer(6, m); }
    }
    void offer(int l, std::string const& m)
    {
      out.push_back("offer p" + std::to_string(l) + " " + m);
      for (int k : t::cfg().foreign[l]) { held[keys(l, k)] = "L" + std::to_string(k); notify(keys(l, k)); }
    }
    void upstream_read(std::string const& path, std::string const& uid)
    {
      int const p = number(path);
      auto const m = msg(true, "read", path, uid, "-", "");
      int const state = !spied(p) ? 2 : items.count(path) ? items[path].first : 0;
      if (state == 0)
      {
        out.push_back("apply " + m);
        if (t::cfg().accept) { items[path] = {1, 0}; held[path] = "unresolved"; }
        up(p, m);
        if (t::cfg().reply) downstream("read", path, uid, t::cfg().reply_value, "-");
      }
      else if (state >= 2) down(msg(false, "read", path, uid, state == 2 ? "not_found" : entity(items[path].second), ""));
      offers(p, m);
    }
    void match(char const* who, std::string const& path)
    {
      int const p = number(path);
      int const state = !spied(p) ? 2 : items.count(path) ? items[path].first : 0;
      std::string is = state == 2 ? "not_found" : state == 3 ? entity(items[path].second) : "unresolved";
      if (state == 0) upstream_read(path, "-");
      out.push_back(std::string("match ") + who + " " + path + " is " + is);
    }
    // an own message of a listener store reaches it as a foreign one does
    bool own(std::string const& path, std::string const& m)
    {
      int const p = number(path);
      out.push_back("offer p" + std::to_string(p) + " " + m);
      for (int k : t::cfg().foreign[p]) held[keys(p, k)] = "L" + std::to_string(k);
      return !t::cfg().foreign[p].empty();
    }
    void downstream(std::string const& kind, std::string const& path, std::string const& uid, int n, std::string const& conf)
    {
      int const p = number(path);
      auto const m = msg(false, kind, path, uid, kind == "delete" ? "-" : entity(n), conf);
      bool changed = false;
      if (!spied(p)) changed = own(path, m);
      else
      {
        out.push_back("apply " + m);
        int const state = items.count(path) ? items[path].first : 0;
        if (t::cfg().accept)
        {
          if (kind == "delete") { items.erase(path); held.erase(path); changed = true; }
          else if (kind != "read" || state < 2) { items[path] = {n < 0 ? 2 : 3, n}; held[path] = entity(n); changed = true; }
        }
      }
      if (changed) notify(path);
      down(m, kind == "create", path);
      offers(p, m);
    }
    void upstream(std::string const& kind, std::string const& path, std::string const& uid, int n)
    {
      int const p = number(path);
      if (kind == "read") return upstream_read(path, uid);
      auto const m = msg(true, kind, path, uid, kind == "delete" ? "-" : entity(n), "");
      bool changed = false;
      if (!spied(p)) changed = own(path, m);
      else
      {
        out.push_back("apply " + m);
        if (t::cfg().accept && t::cfg().optimistic)
        {
          changed = true;
          if (kind == "delete") { items.erase(path); held.erase(path); }
          else { items[path] = {3, n}; held[path] = entity(n); }
        }
      }
      if (changed) notify(path);
      up(p, m);
      if (t::cfg().reply) downstream(kind, path, uid, n, "-");
      offers(p, m);
    }
    void upstream_keyed_create(int p, std::string const& parent, int uid, int n)
    {
      auto const path = "p" + std::to_string(p) + parent.substr(parent.find('/')) + std::to_string(uid) + "/";
      bool changed = false;
      auto const m = msg(true, "create", "new:" + parent, std::to_string(uid), entity(n), "");
      out.push_back("apply " + m);
      if (t::cfg().accept && t::cfg().optimistic) { changed = true; items[path] = {3, n}; held[path] = entity(n); }
      if (changed) notify(path);
      up(p, m);
      if (t::cfg().reply)
      {
        auto const d = msg(false, "create", "new:" + parent, std::to_string(uid), entity(n), "-");
        out.push_back("apply " + d);
        if (t::cfg().accept) { items[path] = {3, n}; held[path] = entity(n); notify(path); }
        down(d, true, path);
        offers(p, d);
      }
      offers(p, m);
    }
    // parents are shown as in show(create_path); the new key follows the parent's keys
    void upstream_create(int p, std::string const& parent, std::string const& uid, int n)
    {
      auto const m = msg(true, "create", "new:" + parent, uid, entity(n), "");
      up(p, m);
      if (t::cfg().reply)
      {
        auto const tail = parent.substr(parent.find('/'));
        downstream("create", "p" + std::to_string(p) + tail + std::to_string(++next_key) + "/", uid, n, "-");
      }
    }
  };

  bool relevant(std::string const& e)
  {
    bool const told = e.compare(0, 6, "notify") == 0 || e.compare(0, 5, "match") == 0;
#ifdef PART_NOTIFY
    return told;
#else
    return !told;
#endif
  }
  std::vector<std::string> pick(std::vector<std::string> v)
  { v.erase(std::remove_if(v.begin(), v.end(), [](auto& e) { return !relevant(e); }), v.end()); return v; }

  // after each message: the same events happened, and the store came first
  void judge(model& m, std::string const& what, bool exact)
  {
    auto got = pick(t::log()), want = pick(m.out);
    auto g = got, w = want;
    std::sort(g.begin(), g.end()); std::sort(w.begin(), w.end());
    if (g != w)
    {
      std::vector<std::string> extra, missing;
      std::set_difference(g.begin(), g.end(), w.begin(), w.end(), std::back_inserter(extra));
      std::set_difference(w.begin(), w.end(), g.begin(), g.end(), std::back_inserter(missing));
      auto kind = [](std::string const& e) { return e.substr(0, e.find(' ')); };
      vmon::violate((extra.empty() ? "missing-" + kind(missing[0]) : "unexpected-" + kind(extra[0])),
                    what + "; unexpected:" + t::text(extra) + "; missing:" + t::text(missing) + "; log:" + t::text(t::log()));
    }
    else vmon::count("messages_routed_as_modelled");
    // what a message changes in the store is done before anyone hears of it
    auto const& l = t::log();
    for (std::size_t i = 0; i < l.size(); ++i)
      if (l[i].compare(0, 5, "apply") == 0)
      {
        std::string const about = l[i].substr(6);
        for (std::size_t j = 0; j < i; ++j)
          if (exact && (l[j].find(about) != std::string::npos)) vmon::violate("propagated-before-applied", what + "; log:" + t::text(l));
      }
    for (auto& e : l) { if (e.compare(0, 4, "down") == 0) vmon::count("deliveries"); else if (e.compare(0, 2, "up") == 0) vmon::count("upstream_sends"); else if (e.compare(0, 6, "notify") == 0) vmon::count("notifications"); }
    t::log().clear(); m.out.clear();
  }

  template <int i> void one(Rng& r, Ctx& c, model& m, std::string& what)
  {
    using E = t::ent<i>;
    int const k = static_cast<int>(r.range(1, 2)), n = static_cast<int>(r.below(40)), from = static_cast<int>(r.below(7));
    auto const path = t::at<i>(k);
    std::string const ps = model::keys(i, k);
    int const kind = static_cast<int>(r.below(i <= 4 ? 10 : 6));
    what += " " + std::to_string(kind) + "@p" + std::to_string(i) + "/" + std::to_string(k);
    bool const with_uid = r.coin(); int const uid = static_cast<int>(r.below(90)); std::string const us = with_uid ? std::to_string(uid) : "-";
    int const conf = static_cast<int>(r.below(3)); std::string const cs = conf == 0 ? "-" : conf == 1 ? "yes" : "no";
    auto u = [&](auto f) { if (with_uid) f(t::uid{uid}); else f(message::no_uid); };
    auto uc = [&](auto f) { u([&](auto x) { if (conf == 0) f(x, message::no_is_confirmed); else f(x, conf == 1); }); };
    switch (kind)
    {
      case 0: if constexpr (i != 5) { u([&](auto x) { t::push(c, from, message::make_upstream_read(path, x)); }); m.upstream_read(ps, us); } break;
      case 1: u([&](auto x) { t::push(c, from, message::make_upstream_update(path, x, t::value<E>(n))); }); m.upstream("update", ps, us, n); break;
      case 2: u([&](auto x) { t::push(c, from, message::make_upstream_delete(path, x)); }); m.upstream("delete", ps, us, n); break;
      case 3: uc([&](auto x, auto y) { t::push(c, from, message::make_downstream_update(path, x, t::value<E>(n), y)); }); m.downstream("update", ps, us, n, cs); break;
      case 4: uc([&](auto x, auto y) { t::push(c, from, message::make_downstream_delete(path, x, y)); }); m.downstream("delete", ps, us, n, cs); break;
      case 5: // match from an actor
        if (from % 2) { nbdl::match(c, path, [&](auto const& v) { t::event("match X " + ps + " is " + t::show(v)); }); }
        else nbdl::match(c.template actor<2>().context, path, [&](auto const& v) { t::event("match X " + ps + " is " + t::show(v)); });
        m.match("X", ps); break;
      case 6: // parents are the path without its last key
        u([&](auto x) { t::push(c, from, message::make_upstream_create(message::make_create_path<std::decay_t<decltype(hana::back(path))>>(hana::drop_back(path)), x, t::value<E>(n))); });
        m.upstream_create(i, t::show(hana::drop_back(path)), us, n); break;
      case 7: uc([&](auto x, auto y) { t::push(c, from, message::make_downstream_create(path, x, t::value<E>(n), y)); }); m.downstream("create", ps, us, n, cs); break;
      case 9: // an identifier which serves as the key of what is created
        t::push(c, from, message::make_upstream_create(message::make_create_path<std::decay_t<decltype(hana::back(path))>>(hana::drop_back(path)), uid, t::value<E>(n)));
        m.upstream_keyed_create(i, t::show(hana::drop_back(path)), uid, n); break;
      default:
        if (r.chance(1, 3)) { u([&](auto x) { t::push(c, from, message::make_downstream_read(path, x, nbdl::not_found{})); }); m.downstream("read", ps, us, -1, ""); }
        else { u([&](auto x) { t::push(c, from, message::make_downstream_read(path, x, t::value<E>(n))); }); m.downstream("read", ps, us, n, ""); }
    }
  }

  void run(Rng& r, bool reentrant)
  {
    t::log().clear(); t::held().clear(); t::cfg() = {};
    auto& f = t::cfg();
    if (reentrant) { f.reply = r.chance(3, 4); f.react = r.coin(); f.watch = r.coin(); f.reply_value = static_cast<int>(r.range(-10, 30)); }
    f.optimistic = r.chance(1, 3);
    model m;
    auto c = nbdl::make_context<tag>();
#ifndef PART_NOTIFY
    {
      auto const& l = t::log();
      std::vector<std::string> v = l; std::sort(v.begin(), v.end());
      vmon::check(v == std::vector<std::string>{"init C1", "init C2", "init P1", "init P2"}, "init", t::text(l));
      bool const producers_first = l.size() == 4 && l[0][5] == 'P' && l[1][5] == 'P';
      vmon::check(producers_first, "init-order", t::text(l));
    }
#endif
    t::log().clear();
    std::string what;
    unsigned const steps = static_cast<unsigned>(r.range(2, 14));
    for (unsigned q = 0; q < steps; ++q)
    {
      if (!reentrant) f.accept = r.chance(4, 5);
      f.foreign.clear();
      for (int l : {5, 6}) { unsigned n = static_cast<unsigned>(r.below(3)); for (unsigned j = 0; j < n; ++j) f.foreign[l].push_back(static_cast<int>(r.range(1, 3))); }
      switch (r.below(6))
      {
        case 0: one<1>(r, *c, m, what); break; case 1: one<2>(r, *c, m, what); break; case 2: one<3>(r, *c, m, what); break;
        case 3: one<4>(r, *c, m, what); break; case 4: one<5>(r, *c, m, what); break; default: one<6>(r, *c, m, what); break;
      }
      std::size_t const before = vmon::st().in_case;
      judge(m, what, !reentrant);
      if (vmon::st().in_case != before) break; // the model no longer follows
    }
    if (vmon::want_sample()) vmon::sample(what);
    vmon::distinct(what + (reentrant ? "r" : "") + std::to_string(f.reply) + std::to_string(f.react) + std::to_string(f.watch) + std::to_string(f.reply_value));
  }
  void flat(Rng& r) { run(r, false); }
  void reentrant(Rng& r) { run(r, true); }
}
#ifdef PART_NOTIFY
VMON_MODE("observers", flat, "notifications", "messages_routed_as_modelled")
VMON_MODE("observers-acting", reentrant, "notifications", "messages_routed_as_modelled")
#else
VMON_MODE("routing", flat, "deliveries", "upstream_sends", "messages_routed_as_modelled")
VMON_MODE("answers", reentrant, "deliveries", "upstream_sends", "messages_routed_as_modelled")
#endif
VMON_MAIN
