// C25: the echo producer answers every request exactly once, with fresh keys.
#include <boost/hana.hpp>
namespace hana = boost::hana;
#include <nbdl/entity.hpp>
#include <nbdl/actor_type.hpp>
#include <nbdl/apply_message.hpp>
#include <nbdl/concept/NetworkStore.hpp>
#include <nbdl/send_upstream_message.hpp>
#include <nbdl/echo_producer.hpp>
#include <nbdl/message.hpp>
#include <nbdl/send_upstream_message.hpp>
#include <nbdl/variant.hpp>

#include <memory>
#include <set>
#include <typeindex>
#include "vmon.hpp"

using vmon::Rng;
namespace msg = nbdl::message;

namespace t
{
  template <int> struct wrapped { int value; };
  struct wide { unsigned long long value; };
  struct small { short value; };
  struct nothing { };
  struct root { int value; };
  struct uid { int n; };
  template <int> struct load { std::string text; };
}
namespace nbdl
{
  template <int i> struct entity_members_impl<t::wrapped<i>> { using type = mpdef::list<NBDL_MEMBER(&t::wrapped<i>::value)>; };
  template <> struct entity_members_impl<t::wide> { using type = mpdef::list<NBDL_MEMBER(&t::wide::value)>; };
  template <> struct entity_members_impl<t::small> { using type = mpdef::list<NBDL_MEMBER(&t::small::value)>; };
}

namespace
{
  struct answer { std::string words; std::string key; };
  std::vector<answer>& log() { static thread_local std::vector<answer> l; return l; }
  std::map<std::string, std::set<long long>>& handed_out() { static thread_local std::map<std::string, std::set<long long>> m; return m; }

  std::string show(msg::no_impl) { return "none"; }
  std::string show(bool b) { return b ? "confirmed" : "unconfirmed"; }
  std::string show(t::uid const& u) { return "uid" + std::to_string(u.n); }
  std::string show(t::root const& u) { return "root" + std::to_string(u.value); }
  std::string show(t::nothing) { return "nothing"; }
  std::string show(int x) { return "int" + std::to_string(x); }
  std::string show(long x) { return "long" + std::to_string(x); }
  template <int i> std::string show(t::wrapped<i> const& u) { return "wrapped" + std::to_string(i) + ":" + std::to_string(u.value); }
  std::string show(t::wide const& u) { return "wide" + std::to_string(u.value); }
  std::string show(t::small const& u) { return "small" + std::to_string(u.value); }
  template <int i> std::string show(t::load<i> const& l) { return "load" + std::to_string(i) + l.text; }
  template <typename ...X> std::string show(hana::tuple<X...> const& p)
  { std::string s = "/"; hana::for_each(p, [&](auto const& x) { s += show(x) + "/"; }); return s; }

  template <typename M> std::string words(M const& m, bool with_path)
  {
    std::string s = msg::is_upstream<M> ? "up" : "down";
    s += msg::is_create<M> ? " create" : msg::is_read<M> ? " read" : msg::is_update<M> ? " update" : " delete";
    if (with_path) { if constexpr (requires { show(msg::get_path(m)); }) s += " " + show(msg::get_path(m)); }
    if constexpr (msg::has_uid<M>) s += " " + show(msg::get_uid(m));
    if constexpr (msg::has_payload<M>) s += " " + show(msg::get_payload(m));
    if constexpr (msg::has_private_payload<M>) s += " private";
    return s;
  }
  template <typename K> long long number(K const& k)
  { if constexpr (std::is_integral_v<K>) return static_cast<long long>(k); else return static_cast<long long>(k.value); }

  // the context of the producer: a store which logs what it is told
  struct sink { using hana_tag = sink; int id; };
  thread_local bool wants_key = false; // the request leaves the key to the producer
}
namespace nbdl
{
  template <> struct apply_message_impl<sink>
  {
    template <typename S, typename M> static bool apply(S&& s, M const& m)
    {
      answer a;
      a.words = std::to_string(s.id) + " " + words(m, true);
      if constexpr (msg::has_is_confirmed<M>) a.key = show(msg::is_confirmed(m));
      log().push_back(a);
      if constexpr (msg::is_create<M> && hana::is_a<hana::tuple_tag, decltype(msg::get_path(m))>())
      {
        auto key = hana::back(msg::get_path(m));
        if constexpr (!std::is_empty_v<decltype(key)>)
          if (wants_key && !handed_out()[typeid(key).name()].insert(number(key)).second)
            vmon::violate("key handed out twice", a.words);
        vmon::count("keys handed out", wants_key && !std::is_empty_v<decltype(key)>);
      }
      return true;
    }
  };
}
namespace
{
  using producer = nbdl::echo_producer_impl<sink>;
  std::vector<producer> make_producers(int n)
  {
    std::vector<producer> p;
    for (int i = 0; i < n; ++i) p.emplace_back(nbdl::actor_initializer<sink, nbdl::echo_producer>{sink{i}, nbdl::echo_producer{}});
    return p;
  }

  template <typename M> void request(Rng& r, producer& p, M const& m)
  {
    std::string const asked = words(m, true);
    wants_key = hana::is_a<msg::create_path_tag, decltype(msg::get_path(m))>();
    std::size_t const before = log().size();
    vmon::check(before == 0, "answers without a request", std::to_string(before));
    if (r.coin()) nbdl::send_upstream_message(p, m);
    else if (r.coin()) nbdl::send_upstream_message(p, M(m));
    else nbdl::send_upstream_message(static_cast<producer const&>(p), m);
    vmon::count("requests");
    if (!vmon::check(log().size() == 1, "answers", asked + " got " + std::to_string(log().size()) + " answers")) { log().clear(); return; }
    std::string const got = log()[0].words;
    vmon::check(log()[0].key != "unconfirmed", "unconfirmed answer", got);
    log().clear();
    std::string expect = std::to_string(p.context.id) + " down" + words(m, !hana::is_a<msg::create_path_tag, decltype(msg::get_path(m))>()).substr(2);
    if (auto at = expect.find(" private"); at != std::string::npos) expect.erase(at);
    std::string seen = got;
    if constexpr (hana::is_a<msg::create_path_tag, decltype(msg::get_path(m))>())
    {
      // the path is the parent's path and a key; only uid-normalizable or empty keys keep the create path
      std::string const parent = show(msg::get_path(m).parent_path);
      auto at = got.find(" /");
      if (at != std::string::npos)
      {
        auto end = got.find("/ ", at);
        std::string path = got.substr(at + 1, end - at);
        vmon::check(path.compare(0, parent.size(), parent) == 0 && std::count(path.begin(), path.end(), '/') == std::count(parent.begin(), parent.end(), '/') + 1,
                    "path of the created item", got + " under " + parent);
        seen = got.substr(0, at) + got.substr(end + 1);
      }
      else vmon::check(!msg::requires_key_for_downstream<M>, "created without a key", got);
    }
    vmon::check(seen == expect, "answer", asked + " got " + got + " instead of " + expect);
    vmon::distinct(asked);
    vmon::sample(asked + " -> " + got);
  }

  template <typename Key> Key some_key(Rng& r)
  {
    if constexpr (std::is_empty_v<Key>) return {};
    else if constexpr (std::is_integral_v<Key>) return static_cast<Key>(r.below(1000));
    else return Key{static_cast<decltype(Key::value)>(r.below(1000))};
  }
  template <int L> t::load<L> some_load(Rng& r) { return {r.from("abcdefgh", r.below(30))}; }

  template <typename Key, int L, typename Parent> void any(Rng& r, producer& p, Parent const& parent)
  {
    auto path = hana::append(parent, some_key<Key>(r));
    t::uid u{static_cast<int>(r.below(100000))};
    auto create = msg::make_create_path<Key>(parent);
    switch (r.below(9))
    {
      case 0: request(r, p, msg::make_upstream_create(create, msg::no_uid, some_load<L>(r))); break;
      case 1: request(r, p, msg::make_upstream_create(create, u, some_load<L>(r))); break;
      case 2: request(r, p, msg::make_upstream_create(create, u, some_load<L>(r), some_load<9>(r))); break;
      case 3: request(r, p, msg::make_upstream_update(path, msg::no_uid, some_load<L>(r))); break;
      case 4: request(r, p, msg::make_upstream_update(path, u, some_load<L>(r))); break;
      case 5: request(r, p, msg::make_upstream_delete(path, msg::no_uid)); break;
      case 6: request(r, p, msg::make_upstream_delete(path, u)); break;
      case 7: request(r, p, msg::make_upstream_create(path, u, some_load<L>(r))); break;
      case 8: request(r, p, msg::make_upstream_create(create, msg::no_uid, some_load<L>(r), some_load<9>(r))); break;
    }
  }
  template <typename Key, int L> void any_parent(Rng& r, producer& p)
  {
    if (r.coin()) any<Key, L>(r, p, hana::make_tuple(some_key<t::root>(r)));
    else any<Key, L>(r, p, hana::make_tuple(some_key<t::root>(r), some_key<int>(r)));
  }

  void requests(Rng& r)
  {
    auto producers = make_producers(1 + r.below(3));
    int n = 1 + r.below(40);
    for (int i = 0; i < n; ++i)
    {
      auto& p = producers[r.below(producers.size())];
      switch (r.below(8))
      {
        case 0: any_parent<int, 1>(r, p); break;
        case 1: any_parent<int, 2>(r, p); break;
        case 2: any_parent<long, 1>(r, p); break;
        case 3: any_parent<t::wrapped<1>, 1>(r, p); break;
        case 4: any_parent<t::wrapped<1>, 2>(r, p); break;
        case 5: any_parent<t::wrapped<2>, 1>(r, p); break;
        case 6: any_parent<t::wide, 1>(r, p); break;
        case 7: any_parent<t::nothing, 1>(r, p); break;
      }
    }
    vmon::check(log().empty(), "answers without a request", "");
  }
}
namespace
{
  // one producer for a long time
  void lifetime(Rng& r)
  {
    auto producers = make_producers(1);
    unsigned const n = 70000 + static_cast<unsigned>(r.below(4000));
    for (unsigned i = 0; i < n; ++i)
    {
      auto parent = hana::make_tuple(some_key<t::root>(r));
      t::load<1> l;
      wants_key = true;
      if (vmon::st().index % 2) nbdl::send_upstream_message(producers[0], msg::make_upstream_create(msg::make_create_path<int>(parent), msg::no_uid, l));
      else nbdl::send_upstream_message(producers[0], msg::make_upstream_create(msg::make_create_path<t::wrapped<1>>(parent), msg::no_uid, l));
      if (!vmon::check(log().size() == 1, "answers", "request " + std::to_string(i) + " got " + std::to_string(log().size()) + " answers")) { log().clear(); return; }
      log().clear();
    }
    vmon::count("long lived producers");
    vmon::distinct(n);
  }
}
VMON_LONG_MODE("lifetime", lifetime, "long lived producers", "keys handed out")
VMON_MODE("requests", requests, "requests", "keys handed out")
VMON_MAIN
