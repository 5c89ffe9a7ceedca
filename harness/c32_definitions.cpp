// C32: contexts of many definitions.  c32_defs.hpp holds definitions of pseudo random shape, each
// with the context it describes as tools/gen_defs.py reads it; DEF_GROUP selects a quarter of them.
#include "vmon.hpp"
#include <boost/hana.hpp>
namespace hana = boost::hana;
#include <nbdl/apply_message.hpp>
#include <nbdl/context.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/make_context.hpp>
#include <nbdl/match.hpp>
#include <nbdl/message.hpp>
#include <nbdl/message_api.hpp>
#include <nbdl/null_store.hpp>
#include <algorithm>
#include <memory>
namespace message = nbdl::message;
using vmon::Rng;

namespace t
{
  using namespace boost::hana::literals;
  template <int> struct K { int v = 0; K(int v = 0) : v(v) { } };
  template <int> struct E { int n = 0; };
  template <int> struct arg { int v; };
  struct spy_tag { int n = 0; };

  // a path which the definition gives a meaning: where, whose, stored?, payload, listeners
  struct point { std::string path; int owner; bool spied; int entity; std::vector<int> listeners; };

  inline std::vector<std::string>& log() { static thread_local std::vector<std::string> l; return l; }
  inline void event(std::string s) { vmon::count("events"); log().push_back(std::move(s)); }

  enum class holds { nothing, asked, value };
  struct config { holds state = holds::nothing; bool accept = true, foreign = false; };
  inline config& cfg() { static thread_local config c; return c; }
  inline int& living() { static thread_local int n = 0; return n; }

  template <int d, int i> struct prod;
  template <int d, int i> struct cons;
  template <int d, int i> struct both;
  template <int d, int i> struct obs;
  template <int n> std::string given(arg<n> const& a) { return "argument " + std::to_string(n) + " of " + std::to_string(a.v); }
  inline std::string given(hana::type<void>) { return "nothing"; }
  template <typename C, typename Tag> struct actor
  {
    using hana_tag = Tag;
    C context;
    template <typename A> explicit actor(A&& a) : context(a.context)
    { ++living(); event("make " + Tag::name() + " with " + given(a.value)); }
    actor(actor const& o) = delete;
    actor& operator=(actor const&) = delete;
    ~actor() { --living(); }
  };
  template <int d, int i> struct prod { static std::string name() { return "P" + std::to_string(i); } template <typename C> using actor_impl = actor<C, prod>; };
  template <int d, int i> struct cons { static std::string name() { return "C" + std::to_string(i); } template <typename C> using actor_impl = actor<C, cons>; };
  template <int d, int i> struct both { static std::string name() { return "B" + std::to_string(i); } template <typename C> using actor_impl = actor<C, both>; };
  template <int d, int i> struct obs { static std::string name() { return "S" + std::to_string(i); } template <typename C> using actor_impl = actor<C, obs>; };

  template <typename X> std::string show(X const&) { return "other"; }
  template <int n> std::string show(E<n> const& e) { return "E" + std::to_string(n) + ":" + std::to_string(e.n); }
  inline std::string show(spy_tag const& e) { return "E0:" + std::to_string(e.n); }
  inline std::string show(nbdl::not_found const&) { return "not_found"; }
  template <int n> std::string show(K<n> const& k) { return "K" + std::to_string(n) + "=" + std::to_string(k.v); }
  template <char ...c> std::string show(hana::string<c...>) { std::string s{c...}; s[0] = 'S'; return s; }
  template <typename ...X> std::string show(hana::tuple<X...> const& p)
  { std::string s; hana::for_each(p, [&](auto const& k) { s += (s.empty() ? "" : "/") + show(k); }); return s; }
  template <typename Key, typename Parent> std::string show(message::create_path<Key, Parent> const& p)
  {
    auto s = show(p.parent_path);
    auto k = show(Key{});
    return s + (s.empty() ? "" : "/") + k.substr(0, k.find('=')) + "=new";
  }
  template <typename M> std::string show_message(M const& m)
  {
    std::string s = message::is_upstream<M> ? "U" : "D";
    s += message::is_create<M> ? "create " : message::is_read<M> ? "read " : message::is_update<M> ? "update " : "delete ";
    s += show(message::get_path(m));
    if constexpr (message::has_payload<M>) s += " " + show(message::get_payload(m));
    return s;
  }

  template <typename Path, typename Entity> struct spy { using hana_tag = spy_tag; using path = Path; using entity = Entity; };
  template <typename P> std::string kind()
  {
    auto s = show(P{});
    std::string r; bool skip = false;
    for (char c : s) { if (c == '=') skip = true; if (c == '/') skip = false; if (!skip) r += c; }
    return r;
  }
  template <typename P> P at(int n)
  {
    P p{};
    hana::for_each(p, [&](auto& k) { if constexpr (requires { k.v; }) k.v = n; });
    return p;
  }
}
namespace nbdl
{
  template <int d, int i> struct producer_init_impl<t::prod<d, i>> { template <typename A> static void apply(A&) { t::event("init P" + std::to_string(i)); } };
  template <int d, int i> struct consumer_init_impl<t::cons<d, i>> { template <typename A> static void apply(A&) { t::event("init C" + std::to_string(i)); } };
  template <int d, int i> struct consumer_init_impl<t::both<d, i>> { template <typename A> static void apply(A&) { t::event("init B" + std::to_string(i)); } };
  template <int d, int i> struct send_upstream_message_impl<t::prod<d, i>>
  { template <typename A, typename M> static void apply(A&, M const& m) { t::event("up P" + std::to_string(i) + " " + t::show_message(m)); } };
  template <int d, int i> struct send_downstream_message_impl<t::cons<d, i>>
  { template <typename A, typename M> static void apply(A&, M const& m) { t::event("down C" + std::to_string(i) + " " + t::show_message(m)); } };
  template <int d, int i> struct send_downstream_message_impl<t::both<d, i>>
  { template <typename A, typename M> static void apply(A&, M const& m) { t::event("down B" + std::to_string(i) + " " + t::show_message(m)); } };
  template <int d, int i> struct notify_state_change_impl<t::both<d, i>>
  { template <typename A, typename P> static void apply(A&, P const& p) { t::event("note B" + std::to_string(i) + " " + t::show(p)); } };
  template <int d, int i> struct notify_state_change_impl<t::obs<d, i>>
  { template <typename A, typename P> static void apply(A&, P const& p) { t::event("note S" + std::to_string(i) + " " + t::show(p)); } };

  template <> struct make_store_impl<t::spy_tag>
  { template <typename P, typename E> static constexpr auto apply(P, E) -> t::spy<typename P::type, typename E::type> { return {}; } };
  template <> struct apply_message_impl<t::spy_tag>
  {
    template <typename S, typename M> static bool apply(S&, M const& m)
    {
      t::event("apply " + t::kind<typename std::decay_t<S>::path>() + " " + t::show(typename std::decay_t<S>::entity{}) + " " + t::show_message(m));
      return t::cfg().accept;
    }
  };
  template <> struct match_impl<t::spy_tag>
  {
    template <typename S, typename Key, typename F> static void apply(S&&, Key const&, F&& f)
    {
      using X = typename std::decay_t<S>::entity;
      switch (t::cfg().state)
      {
        case t::holds::nothing: f(nbdl::trigger_read{}); break;
        case t::holds::asked: f(nbdl::unresolved{}); break;
        case t::holds::value: { X x{}; x.n = 77; f(x); } break;
      }
    }
  };
  template <> struct apply_foreign_message_impl<t::spy_tag>
  {
    template <typename S, typename M, typename F> static void apply(S&, M const& m, F const& f)
    {
      using P = typename std::decay_t<S>::path;
      t::event("offer " + t::kind<P>() + " " + t::show_message(m));
      if (t::cfg().foreign) f(t::at<P>(9));
    }
  };
}

namespace t
{
  template <int> struct definition;
#include "c32_defs.hpp"

  template <int d> struct plain { static constexpr auto make_def() { return definition<d>::make_def(); } };

  std::string text(std::vector<std::string> const& v) { std::string s; for (auto& x : v) s += "\n  " + x; return s.empty() ? " nothing" : s; }

  template <typename Want, typename Got, typename F>
  void same_types(F report)
  {
    if (std::is_same_v<Want, Got>) return;
    std::string why = std::to_string(boost::mp11::mp_size<Got>::value) + " message types, the definition declares " + std::to_string(boost::mp11::mp_size<Want>::value);
    if constexpr (boost::mp11::mp_size<Got>::value == boost::mp11::mp_size<Want>::value)
      why = std::to_string(boost::mp11::mp_size<Want>::value) + " message types, but not those declared, or in another order";
    report(why);
  }

  template <typename Ctx, typename M> void push(Ctx& c, int actors, int from, M const& m)
  {
    vmon::count("messages");
    auto act = [&](auto i)
    {
      if constexpr (decltype(i)::value < Ctx::count)
        if (from == decltype(i)::value) nbdl::apply_message(c.ctx->template actor<decltype(i)::value>().context, m);
    };
    if (from >= actors) { nbdl::apply_message(*c.ctx, m); return; }
    act(std::integral_constant<int, 0>{}); act(std::integral_constant<int, 1>{}); act(std::integral_constant<int, 2>{}); act(std::integral_constant<int, 3>{});
    act(std::integral_constant<int, 4>{}); act(std::integral_constant<int, 5>{}); act(std::integral_constant<int, 6>{});
  }

  template <typename Context, int n> struct holder { static constexpr int count = n; std::unique_ptr<Context> ctx; };

  template <int d> void one(Rng& r)
  {
    using D = definition<d>;
    using Tag = plain<d>;
    using Context = nbdl::context<Tag>;
    std::string const where = "definition " + std::to_string(d);
    auto const points = D::points();
    auto const actors = D::actors();

    // what the definition means, by type
    using Api = typename nbdl_def::builder::make_context_meta_t<Tag>::message_api_meta;
    same_types<typename D::upstream, typename Api::upstream_types>([&](std::string const& s) { vmon::violate("upstream-types", where + ": " + s); });
    same_types<typename D::downstream, typename Api::downstream_types>([&](std::string const& s) { vmon::violate("downstream-types", where + ": " + s); });
    using Up = boost::mp11::mp_apply<nbdl::variant, boost::mp11::mp_push_front<typename D::upstream, nbdl::system_message>>;
    using Down = boost::mp11::mp_apply<nbdl::variant, boost::mp11::mp_push_front<typename D::downstream, nbdl::system_message>>;
    vmon::check(std::is_base_of_v<Up, typename nbdl::message_api<Tag>::upstream_variant>, "upstream-variant", where);
    vmon::check(std::is_base_of_v<Down, typename nbdl::message_api<Tag>::downstream_variant>, "downstream-variant", where);

    // construction: every actor once, in order, with its argument; then all producers, then all consumers
    log().clear();
    vmon::check(living() == 0, "actors-left", where);
    int const how = static_cast<int>(r.below(3)), base = static_cast<int>(r.below(1000));
    {
      constexpr int n = decltype(hana::length(typename nbdl_def::builder::make_context_meta_t<Tag>::actor_names{}))::value;
      vmon::check(n == static_cast<int>(actors.size()), "actor-count", where);
      holder<Context, n> h;
      if (how == 0) h.ctx = D::template make_named<Tag>(base);
      else if (how == 1) h.ctx = D::template make_placed<Tag>(base);
      else h.ctx = nbdl::make_unique_context<Tag>();
      std::vector<std::string> want;
      for (std::size_t i = 0; i < actors.size(); ++i)
        want.push_back("make " + actors[i] + " with " + (how == 2 || (how == 0 && static_cast<int>(i) == D::without_argument) ? "nothing" :
          "argument " + std::to_string(i) + " of " + std::to_string(base + static_cast<int>(i))));
      // the order in which actors are made is not promised
      auto const got = log();
      std::vector<std::string> made(got.begin(), got.begin() + std::min<std::ptrdiff_t>(actors.size(), got.size()));
      std::sort(made.begin(), made.end());
      std::sort(want.begin(), want.end());
      vmon::check(made == want, "actors-made", where + ": made" + text(made) + "\nexpected" + text(want));
      std::vector<std::string> ready(got.begin() + made.size(), got.end()), rp, rc, wp, wc;
      for (auto& a : actors) if (a[0] == 'P') wp.push_back("init " + a); else if (a[0] != 'S') wc.push_back("init " + a);
      bool ordered = true;
      for (auto& e : ready) { if (e[5] == 'P') { rp.push_back(e); ordered = ordered && rc.empty(); } else rc.push_back(e); }
      for (auto* v : {&rp, &rc, &wp, &wc}) std::sort(v->begin(), v->end());
      vmon::check(ordered && rp == wp && rc == wc, "actors-started", where + ": " + text(ready));
      vmon::check(living() == n, "actors-living", where + ": " + std::to_string(living()));
      vmon::count("contexts");

      unsigned steps = 1 + r.below(12);
      std::string history;
      while (steps--)
      {
        std::size_t const slot = r.below(points.size());
        int const from = static_cast<int>(r.below(n + 1)), v = static_cast<int>(r.below(100)), p = static_cast<int>(r.below(100));
        cfg() = config{r.pick({holds::nothing, holds::asked, holds::value}), r.coin(), r.chance(1, 3)};
        unsigned const act = r.below(10);
        log().clear();
        std::vector<std::string> want;
        std::string sent;
        std::size_t k = 0;
        hana::for_each(typename D::paths{}, [&](auto path_type)
        {
          using P = typename decltype(path_type)::type;
          constexpr std::size_t index = boost::mp11::mp_find<typename D::paths_, P>::value;
          if (k++ != slot) return;
          using X = typename D::template entity<index>;
          P const path = at<P>(v);
          X x{}; x.n = p;
          auto const& here = points[slot];
          auto const owner = "P" + std::to_string(here.owner);
          auto go = [&](auto const& m, bool normal)
          {
            sent = show_message(m);
            using M = std::decay_t<decltype(m)>;
            push(h, n, from, m);
            auto down = [&](std::string const& what) { for (auto& a : actors) if (a[0] == 'C' || a[0] == 'B') want.push_back("down " + a + " " + what); };
            auto note = [&](std::string const& what) { for (auto& a : actors) if (a[0] == 'S' || a[0] == 'B') want.push_back("note " + a + " " + what); };
            auto apply = [&] { want.push_back("apply " + here.path + " " + show(X{}) + " " + sent); };
            if (!normal) { want.push_back("up " + owner + " " + sent); return; }
            if (message::is_upstream<M> && message::is_read<M>)
            {
              if (cfg().state == holds::nothing) { apply(); want.push_back("up " + owner + " " + sent); }
              else if (cfg().state == holds::value) { X y{}; y.n = 77; down("D" + sent.substr(1) + " " + show(y)); }
            }
            else
            {
              if (here.spied) { apply(); if (cfg().accept) note(show(path)); }
              if (message::is_upstream<M>) want.push_back("up " + owner + " " + sent); else down(sent);
            }
            for (int l : here.listeners)
            {
              want.push_back("offer " + points[l].path + " " + sent);
              if (cfg().foreign)
                hana::for_each(typename D::paths{}, [&](auto q)
                { if (boost::mp11::mp_find<typename D::paths_, typename decltype(q)::type>::value == static_cast<std::size_t>(l)) note(show(at<typename decltype(q)::type>(9))); });
            }
          };
          switch (act)
          {
            case 0: case 1: if constexpr (D::spied[index]) { go(message::make_upstream_read(path, message::no_uid), true); break; }
            case 2: go(message::make_upstream_update(path, message::no_uid, x), true); break;
            case 3: go(message::make_upstream_delete(path, message::no_uid), true); break;
            case 4:
              if constexpr (std::is_empty_v<std::decay_t<decltype(hana::back(path))>>) go(message::make_upstream_create(path, message::no_uid, x), true);
              else go(message::make_upstream_create(message::make_create_path<std::decay_t<decltype(hana::back(path))>>(hana::drop_back(path)), message::no_uid, x), false);
              break;
            case 5: go(message::make_downstream_create(path, message::no_uid, x, message::no_is_confirmed), true); break;
            case 6: go(message::make_downstream_read(path, message::no_uid, x), true); break;
            case 7: go(message::make_downstream_read(path, message::no_uid, nbdl::not_found{}), true); break;
            case 8: go(message::make_downstream_update(path, message::no_uid, x, message::no_is_confirmed), true); break;
            default: go(message::make_downstream_delete(path, message::no_uid, message::no_is_confirmed), true); break;
          }
        });
        auto got = log();
        // stores act before anyone is told
        bool told = false, late = false;
        for (auto& e : got) { if (e.compare(0, 6, "apply ") == 0) late = late || told; else told = true; }
        vmon::check(!late, "apply-first", where + " " + sent + ":" + text(got));
        std::sort(got.begin(), got.end());
        std::sort(want.begin(), want.end());
        history += sent + ";";
        vmon::check(got == want, "events", where + ", " + sent + " from " + (from == n ? "the context" : actors[from]) + ":" + text(got) + "\nexpected" + text(want));
        if (points[slot].listeners.size()) vmon::count("listened");
        if (cfg().state == holds::value && act < 2) vmon::count("reads_of_values");
      }
      vmon::distinct(where + std::to_string(how) + history);
      vmon::sample(where + ": " + history);
    }
    vmon::check(living() == 0, "actors-ended", where + ": " + std::to_string(living()));
  }

  void definitions(Rng& r)
  {
    switch (r.below(4))
    {
      case 0: one<DEF_GROUP>(r); break;
      case 1: one<DEF_GROUP + 4>(r); break;
      case 2: one<DEF_GROUP + 8>(r); break;
      default: one<DEF_GROUP + 12>(r);
    }
  }
}

VMON_MODE("definitions", t::definitions, "contexts", "messages", "listened", "reads_of_values")
VMON_MAIN
