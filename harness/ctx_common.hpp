// A context of two producers, two consumers and two observers over six paths, with stores
// and actors which log every event.  Shared by C16, C17, C18.
#ifndef CTX_COMMON_HPP
#define CTX_COMMON_HPP
#include "vmon.hpp"
#include <boost/hana.hpp>
#include <nbdl/apply_message.hpp>
#include <nbdl/context.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/make_context.hpp>
#include <nbdl/map_store.hpp>
#include <nbdl/match.hpp>
#include <nbdl/message.hpp>
#include <nbdl/message_api.hpp>
#include <algorithm>
#include <map>
#include <memory>
namespace hana = boost::hana;
namespace message = nbdl::message;
using vmon::Rng;

namespace t
{
  template <int> struct ent { int a; std::string b; };
  template <int> struct key { int value; key(int v = 0) : value(v) { } };
  struct uid { int n; }; // identifies a request; no key can be made from it
}
namespace boost::hana
{
  template <int i>
  struct equal_impl<t::key<i>, t::key<i>>
  { template <typename A, typename B> static constexpr auto apply(A const& a, B const& b) { return a.value == b.value; } };
}
namespace nbdl
{
  NBDL_ENTITY(t::ent<1>, a, b); NBDL_ENTITY(t::ent<2>, a, b); NBDL_ENTITY(t::ent<3>, a, b);
  NBDL_ENTITY(t::ent<4>, a, b); NBDL_ENTITY(t::ent<5>, a, b); NBDL_ENTITY(t::ent<6>, a, b);
  template <int i> struct entity_members_impl<t::key<i>> { using type = mpdef::list<NBDL_MEMBER(&t::key<i>::value)>; };
}

namespace t
{
  template <typename E> E value(int n) { return E{n, "v" + std::to_string(n) + std::string(static_cast<unsigned>(n) % 23, '~')}; }
  template <typename E> bool good(E const& e) { auto x = value<E>(e.a); return e.b == x.b; }

  // path i holds entity i
  template <int> struct path_of;
  template <> struct path_of<1> { using type = hana::tuple<key<1>, key<2>>; };          // producer 1
  template <> struct path_of<2> { using type = hana::tuple<key<1>, key<2>, key<3>>; };  // producer 1, below path 1
  template <> struct path_of<3> { using type = hana::tuple<key<4>, key<2>>; };          // producer 2
  template <> struct path_of<4> { using type = hana::tuple<key<4>, key<5>>; };          // producer 2
  template <> struct path_of<5> { using type = hana::tuple<key<4>, key<6>>; };          // producer 2, listens to 1 and 4
  template <> struct path_of<6> { using type = hana::tuple<key<7>>; };                  // producer 1, listens to 4; read and update only
  template <int i> using path = typename path_of<i>::type;
  constexpr int owner(int p) { return p == 1 || p == 2 || p == 6 ? 1 : 2; }
  template <typename P> constexpr int path_number()
  {
    return std::is_same_v<P, path<1>> ? 1 : std::is_same_v<P, path<2>> ? 2 : std::is_same_v<P, path<3>> ? 3 :
           std::is_same_v<P, path<4>> ? 4 : std::is_same_v<P, path<5>> ? 5 : std::is_same_v<P, path<6>> ? 6 : 0;
  }
  template <int i> path<i> at(int k)
  { if constexpr (i == 2) return path<2>(k, 2 * k, 3 * k); else if constexpr (i == 6) return path<6>(k); else return path<i>(k, k + 10 * i); }

  inline std::vector<std::string>& log() { static thread_local std::vector<std::string> l; return l; }
  inline void event(std::string s) { vmon::count("events"); log().push_back(std::move(s)); }

  // how things look in the log
  template <typename X> std::string show(X const& x)
  {
    using T = std::decay_t<X>;
    if constexpr (std::is_same_v<T, message::no_impl>) return "-";
    else if constexpr (std::is_same_v<T, bool>) return x ? "yes" : "no";
    else if constexpr (std::is_same_v<T, int>) return std::to_string(x);
    else if constexpr (std::is_same_v<T, uid>) return std::to_string(x.n);
    else if constexpr (std::is_same_v<T, std::string>) return x;
    else if constexpr (std::is_same_v<T, nbdl::not_found>) return "not_found";
    else if constexpr (std::is_same_v<T, nbdl::not_in_set>) return "not_in_set";
    else if constexpr (std::is_same_v<T, nbdl::unresolved>) return "unresolved";
    else if constexpr (std::is_same_v<T, nbdl::trigger_read>) return "trigger_read";
    else if constexpr (hana::is_a<hana::tuple_tag, T>)
    {
      std::string s = "/"; if (path_number<T>()) s = "p" + std::to_string(path_number<T>()) + "/";
      hana::for_each(x, [&](auto const& k) { s += std::to_string(k.value) + "/"; });
      return s;
    }
    else if constexpr (hana::is_a<message::create_path_tag, T>) return "new:" + show(x.parent_path);
    else return (good(x) ? "" : "BAD:") + std::to_string(x.a);
  }
  template <typename M> std::string show_message(M const& m)
  {
    std::string s = message::is_upstream<M> ? "U" : "D";
    s += message::is_create<M> ? "create " : message::is_read<M> ? "read " : message::is_update<M> ? "update " : "delete ";
    s += show(message::get_path(m)) + " uid=";
    if constexpr (message::has_uid<M>) s += show(message::get_uid(m)); else s += "-";
    s += " payload=";
    if constexpr (message::has_payload<M>) s += show(message::get_payload(m)); else s += "-";
    if constexpr (message::is_downstream<M> && !message::is_read<M>)
    { s += " confirmed="; if constexpr (message::has_is_confirmed<M>) s += show(message::is_confirmed(m)); else s += "-"; }
    return s;
  }

  // -- actors --
  struct config
  {
    bool reply = false;       // producers answer inside send_upstream
    int reply_value = 0;      // what reads are answered with; negative: not_found
    int next_key = 1000;
    bool accept = true;       // spy stores act on messages
    bool optimistic = false;  // spy stores act on upstream messages
    bool react = false;       // consumers read back what was created
    bool watch = false;       // observers match the path they are told of
    std::map<int, std::vector<int>> foreign; // listener path -> keys it names as changed when offered a message
  };
  inline config& cfg() { static thread_local config c; return c; }

  template <int i> struct producer_tag;
  template <int i> struct consumer_tag;
  template <int i> struct observer_tag;
  template <int i> struct both_tag;
  template <typename C, typename Tag> struct actor
  {
    using hana_tag = Tag;
    C context;
    template <typename A> actor(A&& a) : context(a.context) { }
  };
  template <int i> struct producer_tag { template <typename C> using actor_impl = actor<C, producer_tag>; };
  template <int i> struct consumer_tag { template <typename C> using actor_impl = actor<C, consumer_tag>; };
  template <int i> struct observer_tag { template <typename C> using actor_impl = actor<C, observer_tag>; };
  template <int i> struct both_tag { template <typename C> using actor_impl = actor<C, both_tag>; };

  template <typename Actor, typename M> void answer(Actor& p, M const& m)
  {
    using P = typename decltype(message::get_path_type(m))::type;
    using E = ent<path_number<P>()>;
    if constexpr (message::is_read<M>)
    {
      if (cfg().reply_value < 0) nbdl::apply_message(p.context, message::to_downstream_read(m, nbdl::not_found{}));
      else nbdl::apply_message(p.context, message::to_downstream_read(m, value<E>(cfg().reply_value)));
    }
    else if constexpr (message::requires_key_for_downstream<M>) nbdl::apply_message(p.context, message::to_downstream_with_key(m, ++cfg().next_key));
    else nbdl::apply_message(p.context, message::to_downstream(m, message::no_is_confirmed));
  }
  template <typename Actor, typename M> void consume(Actor& c, M const& m, char const* name)
  {
    event(std::string("down ") + name + " " + show_message(m));
    if constexpr (message::is_create<M>)
      if (cfg().react && name[1] == '1') nbdl::apply_message(c.context, message::make_upstream_read(message::get_normalized_path(m)));
  }
  // told (path) -> what the store holds now, filled in by the harness's stores
  inline std::map<std::string, std::string>& held() { static thread_local std::map<std::string, std::string> m; return m; }
  template <typename Actor, typename P> void observe(Actor& s, P const& p, char const* name)
  {
    auto const k = show(p);
    event(std::string("notify ") + name + " " + k + " sees " + (held().count(k) ? held()[k] : "nothing"));
    if (cfg().watch)
      nbdl::match(s.context, p, [&](auto const& v) { event(std::string("match ") + name + " " + k + " is " + show(v)); });
  }

  // -- stores --
  struct spy_tag { };      // acts like a map of its messages, as configured
  struct listener_tag { }; // acts on other paths' messages only
  template <typename Path, typename E> struct spy
  {
    using hana_tag = spy_tag;
    using entity = E;
    std::map<std::string, std::pair<int, int>> items; // state (1 placeholder, 2 not_found, 3 value), value
  };
  template <typename Path> struct listener { using hana_tag = listener_tag; using path = Path; int n = 0; };
}
namespace nbdl
{
  template <int i> struct producer_init_impl<t::producer_tag<i>> { template <typename A> static void apply(A&) { t::event("init P" + std::to_string(i)); } };
  template <int i> struct consumer_init_impl<t::consumer_tag<i>> { template <typename A> static void apply(A&) { t::event("init C" + std::to_string(i)); } };
  template <int i> struct send_upstream_message_impl<t::producer_tag<i>>
  {
    template <typename A, typename M> static void apply(A& a, M const& m)
    { t::event("up P" + std::to_string(i) + " " + t::show_message(m)); if (t::cfg().reply) t::answer(a, m); }
  };
  template <int i> struct send_downstream_message_impl<t::consumer_tag<i>>
  { template <typename A, typename M> static void apply(A& a, M const& m) { t::consume(a, m, i == 1 ? "C1" : "C2"); } };
  template <int i> struct send_downstream_message_impl<t::both_tag<i>>
  { template <typename A, typename M> static void apply(A& a, M const& m) { t::consume(a, m, "B1"); } };
  template <int i> struct notify_state_change_impl<t::observer_tag<i>>
  { template <typename A, typename P> static void apply(A& a, P const& p) { t::observe(a, p, "S1"); } };
  template <int i> struct notify_state_change_impl<t::both_tag<i>>
  { template <typename A, typename P> static void apply(A& a, P const& p) { t::observe(a, p, "B1"); } };

  template <> struct make_store_impl<t::spy_tag>
  { template <typename P, typename E> static constexpr auto apply(P, E) -> t::spy<typename P::type, typename E::type> { return {}; } };
  template <> struct make_store_impl<t::listener_tag>
  { template <typename P, typename E> static constexpr auto apply(P, E) -> t::listener<typename P::type> { return {}; } };

  template <> struct apply_message_impl<t::spy_tag>
  {
    template <typename S, typename M> static bool apply(S& s, M const& m)
    {
      t::event("apply " + t::show_message(m));
      {
        auto const k = t::show(message::get_normalized_path(m));
        auto& held = t::held();
        if (!t::cfg().accept) return false;
        auto set = [&](int state, int n, std::string text) { s.items[k] = {state, n}; held[k] = text; return true; };
        int const state = s.items.count(k) ? s.items[k].first : 0;
        if constexpr (message::is_upstream<M> && message::is_read<M>) { if (!state) set(1, 0, "unresolved"); return false; }
        else
        {
          if (message::is_upstream<M> && !t::cfg().optimistic) return false;
          if constexpr (message::is_delete<M>) { s.items.erase(k); held.erase(k); return true; }
          else if constexpr (message::is_read<M> && std::is_same_v<std::decay_t<decltype(message::get_payload(m))>, nbdl::not_found>)
            return state < 2 ? set(2, 0, "not_found") : false;
          else if constexpr (message::is_read<M>) return state < 2 ? set(3, message::get_payload(m).a, t::show(message::get_payload(m))) : false;
          else return set(3, message::get_payload(m).a, t::show(message::get_payload(m)));
        }
      }
    }
  };
  template <> struct match_impl<t::spy_tag>
  {
    template <typename S, typename K, typename F> static void apply(S&& s, K const& k, F&& f)
    {
      auto i = s.items.find(t::show(k));
      int const state = i == s.items.end() ? 0 : i->second.first, n = state ? i->second.second : 0;
      if (state == 0) f(nbdl::trigger_read{});
      else if (state == 1) f(nbdl::unresolved{});
      else if (state == 2) f(nbdl::not_found{});
      else f(t::value<typename std::decay_t<S>::entity>(n));
    }
  };
  template <> struct apply_foreign_message_impl<t::listener_tag>
  {
    template <typename S, typename M, typename F> static void apply(S& s, M const& m, F const& f)
    {
      using P = typename std::decay_t<S>::path;
      constexpr int i = t::path_number<P>();
      t::event("offer p" + std::to_string(i) + " " + t::show_message(m));
      ++s.n;
      for (int k : t::cfg().foreign[i])
      {
        auto const p = t::at<i>(k);
        t::held()[t::show(p)] = "L" + std::to_string(k);
        f(p);
      }
    }
  };
  template <> struct match_impl<t::listener_tag>
  {
    template <typename S, typename K, typename F> static void apply(S&& s, K const&, F&& f) { f(nbdl::not_found{}); }
  };
}

namespace t
{
  using namespace boost::hana::literals;
  template <typename Main, typename Listen>
  struct ctx_tag
  {
    static constexpr auto make_def()
    {
      using namespace nbdl_def;
      return Context(
        Producers(
          Producer(Name("p1"_s), Type<producer_tag<1>>,
            AccessPoints(
              AccessPoint(PathKey<key<1>>, Entity<int>,
                AccessPoint(PathKey<key<2>>, Entity<ent<1>>, Store<Main>, Actions(Create(), Read(), Update(), Delete()),
                  AccessPoint(PathKey<key<3>>, Entity<ent<2>>, Store<Main>, Actions(Create(), Read(), Update(), Delete())))),
              AccessPoint(PathKey<key<7>>, Entity<ent<6>>, Store<Listen>, Actions(Read(), Update()),
                ListenPaths(Path<key<4>, key<5>>)))),
          Producer(Name("p2"_s), Type<producer_tag<2>>,
            AccessPoint(PathKey<key<4>>, Entity<int>,
              AccessPoints(
                AccessPoint(PathKey<key<2>>, Entity<ent<3>>, Store<Main>, Actions(Create(), Read(), Update(), Delete())),
                AccessPoint(PathKey<key<5>>, Entity<ent<4>>, Store<Main>, Actions(Create(), Read(), Update(), Delete())),
                AccessPoint(PathKey<key<6>>, Entity<ent<5>>, Store<Listen>, Actions(Create(), Update(), Delete()),
                  ListenPaths(Path<key<1>, key<2>>, Path<key<4>, key<5>>)))))),
        Consumers(
          Consumer(Name("c1"_s), Type<consumer_tag<1>>),
          Consumer(Name("b1"_s), Type<both_tag<1>>),
          Consumer(Name("s1"_s), Type<observer_tag<1>>),
          Consumer(Name("c2"_s), Type<consumer_tag<2>>)));
    }
  };

  // which actor (0 P1, 1 P2, 2 C1, 3 B1, 4 S1, 5 C2, 6 the context itself) pushes a message
  template <typename Ctx, typename M> void push(Ctx& c, int from, M&& m)
  {
    vmon::count("messages");
    switch (from)
    {
      case 0: nbdl::apply_message(c.template actor<0>().context, std::forward<M>(m)); break;
      case 1: nbdl::apply_message(c.template actor<1>().context, std::forward<M>(m)); break;
      case 2: nbdl::apply_message(c.template actor<2>().context, std::forward<M>(m)); break;
      case 3: nbdl::apply_message(c.template actor<3>().context, std::forward<M>(m)); break;
      case 4: nbdl::apply_message(c.template actor<4>().context, std::forward<M>(m)); break;
      case 5: nbdl::apply_message(c.template actor<5>().context, std::forward<M>(m)); break;
      default: nbdl::apply_message(c, std::forward<M>(m)); break;
    }
  }
  inline std::string text(std::vector<std::string> const& v) { std::string s; for (auto& x : v) s += "\n  " + x; return s.empty() ? " nothing" : s; }
}
#endif
