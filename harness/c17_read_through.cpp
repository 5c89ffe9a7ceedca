// C17: a context whose stores are map stores, under histories of reads, matches, answers,
// updates and deletes, with producers which answer at once, later, or never.
#include "ctx_common.hpp"

namespace
{
  using tag = t::ctx_tag<nbdl::map_store_tag, t::listener_tag>;
  using Ctx = nbdl::context<tag>;
  enum { absent, pending, missing, known };
  struct cell { int state = absent; int n = 0; };
  struct asked { int p; int k; }; // reads which producers have not answered yet

  std::string keys(int p, int k)
  {
    auto n = [](int x) { return std::to_string(x) + "/"; };
    std::string s = "p" + std::to_string(p) + "/";
    return p == 2 ? s + n(k) + n(2 * k) + n(3 * k) : s + n(k) + n(k + 10 * p);
  }
  std::string entity(cell const& c) { return c.state == missing ? "not_found" : std::to_string(c.n); }

  struct run
  {
    Rng& r; Ctx& c;
    std::map<std::pair<int, int>, cell> m;
    std::vector<asked> waiting;
    std::string what;

    void judge(std::vector<std::string> want)
    {
      std::vector<std::string> got;
      for (auto& e : t::log()) if (e.compare(0, 5, "offer") != 0) got.push_back(e);
      auto const all = t::log();
      t::log().clear();
      std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
      if (got != want) vmon::violate("events", what + "; happened:" + t::text(got) + "; expected:" + t::text(want));
      else vmon::count("steps_as_modelled");
    }
    static void sends(std::vector<std::string>& v, std::string const& m) { for (char const* w : {"C1", "B1", "C2"}) v.push_back(std::string("down ") + w + " " + m); }
    static void tells(std::vector<std::string>& v, std::string const& path, std::string const& now)
    {
      for (char const* w : {"B1", "S1"})
      {
        v.push_back(std::string("notify ") + w + " " + path + " sees nothing");
        if (t::cfg().watch) v.push_back(std::string("match ") + w + " " + path + " is " + now);
      }
    }

    template <int i> void read(int k, int from, bool with_uid, std::vector<std::string>& want)
    {
      cell& x = m[{i, k}];
      int const u = static_cast<int>(r.below(90));
      std::string const us = with_uid ? std::to_string(u) : "-";
      std::string const msg = "read " + keys(i, k) + " uid=" + us + " payload=";
      if (x.state == absent)
      {
        want.push_back("up P" + std::to_string(t::owner(i)) + " U" + msg + "-");
        x.state = pending;
        vmon::count("reads_sent_upstream");
        if (t::cfg().reply) answered<i>(k, us, want); else waiting.push_back({i, k});
      }
      else if (x.state == pending) vmon::count("reads_of_pending");
      else { sends(want, "D" + msg + entity(x)); vmon::count("reads_answered_from_store"); }
      if (with_uid) t::push(c, from, message::make_upstream_read(t::at<i>(k), t::uid{u}));
      else t::push(c, from, message::make_upstream_read(t::at<i>(k)));
    }
    // what the producer's answer to a read causes
    template <int i> void answered(int k, std::string const& us, std::vector<std::string>& want)
    {
      cell& x = m[{i, k}];
      int const n = t::cfg().reply_value;
      x = {n < 0 ? missing : known, n < 0 ? 0 : n};
      tells(want, keys(i, k), entity(x));
      sends(want, "Dread " + keys(i, k) + " uid=" + us + " payload=" + entity(x));
    }

    template <int i> void step()
    {
      using E = t::ent<i>;
      int const k = static_cast<int>(r.range(1, 2)), n = static_cast<int>(r.below(40)), from = static_cast<int>(r.below(7));
      int const kind = static_cast<int>(r.below(14));
      cell& x = m[{i, k}];
      auto const path = t::at<i>(k);
      std::string const ps = keys(i, k);
      std::vector<std::string> want;
      what += " " + std::to_string(kind) + "@p" + std::to_string(i) + "/" + std::to_string(k);
      switch (kind)
      {
        case 0: case 1: case 2: read<i>(k, from, r.coin(), want); break;
        case 3: case 4: case 5: // matching asks as well
        {
          cell const before = x;
          if (before.state == absent)
          {
            want.push_back("up P" + std::to_string(t::owner(i)) + " Uread " + ps + " uid=- payload=-");
            x.state = pending;
            vmon::count("reads_sent_upstream");
            if (t::cfg().reply) answered<i>(k, "-", want); else waiting.push_back({i, k});
          }
          int calls = 0; std::string got;
          auto see = [&](auto const& v) { ++calls; got = t::show(v); };
          switch (from % 3)
          { case 0: nbdl::match(c, path, see); break; case 1: nbdl::match(c.template actor<4>().context, path, see); break; default: nbdl::match(c.template actor<0>().context, path, see); }
          // an unknown path shows as unresolved, even if the answer came while asking
          bool const ok = before.state == absent ? got == "unresolved" || (t::cfg().reply && got == entity(x)) : before.state == pending ? got == "unresolved" : got == entity(before);
          vmon::check(calls == 1 && ok, "match-value", what + ": " + got + " seen " + std::to_string(calls) + " times");
          vmon::count("matches");
          break;
        }
        case 6: // a producer answers a read it was asked
          if (!waiting.empty())
          {
            auto a = waiting.begin() + static_cast<long>(r.below(waiting.size()));
            asked q = *a; waiting.erase(a);
            bool const none = r.chance(1, 4);
            switch (q.p)
            { case 1: late<1>(q.k, none, n, want); break; case 2: late<2>(q.k, none, n, want); break; case 3: late<3>(q.k, none, n, want); break; default: late<4>(q.k, none, n, want); }
          }
          break;
        case 7: case 8:
          t::push(c, from, message::make_downstream_update(path, message::no_uid, t::value<E>(n), message::no_is_confirmed));
          x = {known, n};
          tells(want, ps, entity(x)); sends(want, "Dupdate " + ps + " uid=- payload=" + std::to_string(n) + " confirmed=-"); break;
        case 9:
          t::push(c, from, message::make_downstream_create(path, message::no_uid, t::value<E>(n), true));
          x = {known, n};
          tells(want, ps, entity(x)); sends(want, "Dcreate " + ps + " uid=- payload=" + std::to_string(n) + " confirmed=yes"); break;
        case 10:
        {
          // an observer which looks at a deleted path asks for it again
          bool const w = t::cfg().watch; t::cfg().watch = false;
          t::push(c, from, message::make_downstream_delete(path, message::no_uid, false));
          if (x.state != absent || t::log().size() > 3) tells(want, ps, "");
          x = {absent, 0};
          sends(want, "Ddelete " + ps + " uid=- payload=- confirmed=no");
          t::cfg().watch = w;
          break;
        }
        case 11: // what goes upstream does not touch the store
          want.push_back("up P" + std::to_string(t::owner(i)) + " Uupdate " + ps + " uid=- payload=" + std::to_string(n));
          if (t::cfg().reply) { x = {known, n}; tells(want, ps, entity(x)); sends(want, "Dupdate " + ps + " uid=- payload=" + std::to_string(n) + " confirmed=-"); }
          t::push(c, from, message::make_upstream_update(path, message::no_uid, t::value<E>(n)));
          break;
        case 12:
          if (t::cfg().reply) break;
          want.push_back("up P" + std::to_string(t::owner(i)) + " Udelete " + ps + " uid=- payload=-");
          t::push(c, from, message::make_upstream_delete(path, message::no_uid));
          break;
        default:
          want.push_back("up P" + std::to_string(t::owner(i)) + " Ucreate new:" + t::show(hana::drop_back(path)) + " uid=- payload=" + std::to_string(n));
          if (t::cfg().reply)
          {
            int const key = t::cfg().next_key + 1;
            auto const p2 = "p" + std::to_string(i) + t::show(hana::drop_back(path)).substr(t::show(hana::drop_back(path)).find('/')) + std::to_string(key) + "/";
            tells(want, p2, std::to_string(n)); sends(want, "Dcreate " + p2 + " uid=- payload=" + std::to_string(n) + " confirmed=-");
          }
          t::push(c, from, message::make_upstream_create(message::make_create_path<std::decay_t<decltype(hana::back(path))>>(hana::drop_back(path)), message::no_uid, t::value<E>(n)));
      }
      judge(std::move(want));
    }
    template <int i> void late(int k, bool none, int n, std::vector<std::string>& want)
    {
      cell& x = m[{i, k}];
      auto& p = c;
      int const who = t::owner(i) - 1;
      auto const payload = none ? std::string("not_found") : std::to_string(n);
      if (x.state == absent || x.state == pending)
      {
        x = {none ? missing : known, none ? 0 : n};
        tells(want, keys(i, k), entity(x));
      }
      sends(want, "Dread " + keys(i, k) + " uid=- payload=" + payload);
      if (none) t::push(p, who, message::make_downstream_read(t::at<i>(k), message::no_uid, nbdl::not_found{}));
      else t::push(p, who, message::make_downstream_read(t::at<i>(k), message::no_uid, t::value<t::ent<i>>(n)));
      vmon::count("late_answers");
    }
  };

  void history(Rng& r, bool reply)
  {
    t::log().clear(); t::held().clear(); t::cfg() = {};
    t::cfg().reply = reply; t::cfg().watch = r.coin();
    auto c = nbdl::make_context<tag>();
    t::log().clear();
    run h{r, *c};
    unsigned const steps = static_cast<unsigned>(r.range(3, 20));
    for (unsigned q = 0; q < steps; ++q)
    {
      t::cfg().reply_value = static_cast<int>(r.range(-10, 30));
      unsigned const before = vmon::st().in_case;
      switch (r.below(4)) { case 0: h.step<1>(); break; case 1: h.step<2>(); break; case 2: h.step<3>(); break; default: h.step<4>(); }
      if (vmon::st().in_case != before) break;
    }
    if (vmon::want_sample()) vmon::sample(h.what);
    vmon::distinct(h.what + (reply ? "r" : "") + std::to_string(t::cfg().watch));
  }
  void later(Rng& r) { history(r, false); }
  void at_once(Rng& r) { history(r, true); }
}
VMON_MODE("answers-later", later, "reads_sent_upstream", "reads_of_pending", "reads_answered_from_store", "late_answers", "matches", "steps_as_modelled")
VMON_MODE("answers-at-once", at_once, "reads_sent_upstream", "reads_answered_from_store", "matches", "steps_as_modelled")
VMON_MAIN
