// C24: messages keep what they are made from, and their downstream answers keep what the
// receiver relies on and nothing else.
//
// Every part of a message is a counted heap value, so that moved-from, stale or swapped parts
// are seen.  Each kind of message is made with every combination of path, identifier, payload,
// private payload and confirmation, from and as lvalues, const lvalues and rvalues, and all
// its accessors, traits, conversions and bindings are compared with the parts.
#include <boost/hana.hpp>
namespace hana = boost::hana;
#include <nbdl/binder/jsoncpp.hpp>
#include <nbdl/concept/DownstreamMessage.hpp>
#include <nbdl/concept/UpstreamMessage.hpp>
#include <nbdl/entity.hpp>
#include <nbdl/match.hpp>
#include <nbdl/message.hpp>
#include <nbdl/message_api.hpp>
#include <nbdl/bind_sequence.hpp>
#include <nbdl/uid.hpp>
#include <nbdl/variant.hpp>

#include <memory>
#include "vmon.hpp"

using vmon::Rng;
namespace msg = nbdl::message;

namespace
{
  // a counted value with a kind
  template <int Kind>
  struct part
  {
    std::unique_ptr<std::string> text;
    part() : text(new std::string) { }
    explicit part(std::string s) : text(new std::string(std::move(s))) { }
    part(part const& o) : text(o.text ? new std::string(*o.text) : nullptr) { }
    part(part&& o) = default;
    part& operator=(part const& o) { text.reset(o.text ? new std::string(*o.text) : nullptr); return *this; }
    part& operator=(part&&) = default;
    std::string str() const { return text ? *text : "(moved from)"; }
  };
  using key1 = part<1>;
  using key2 = part<2>;
  using payload = part<3>;
  using secret = part<4>;
  using ident = part<5>;
  // a key that identifiers convert to
  struct key_of_ident
  {
    std::string s;
    key_of_ident() = default;
    key_of_ident(ident const& i) : s("id:" + i.str()) { }
    explicit key_of_ident(std::string x) : s(std::move(x)) { }
    std::string str() const { return s; }
  };
  struct empty_key { std::string str() const { return "-"; } };

  template <typename T> T fresh(Rng& r)
  {
    if constexpr (std::is_same_v<T, empty_key>) return {};
    else return T(r.from("abcdefghijklmnopqrstuvwxyz", 17 + r.below(20)));
  }

  std::string show(msg::no_impl) { return "none"; }
  std::string show(bool b) { return b ? "true" : "false"; }
  std::string show(hana::true_) { return "true"; }
  std::string show(hana::false_) { return "false"; }
  template <int K> std::string show(part<K> const& p) { return std::to_string(K) + p.str(); }
  std::string show(key_of_ident const& p) { return "k" + p.str(); }
  std::string show(empty_key const& p) { return p.str(); }
  template <typename ...X> std::string show(hana::tuple<X...> const& t)
  { std::string s = "("; hana::for_each(t, [&](auto const& x) { s += show(x) + ","; }); return s + ")"; }
  template <typename K, typename P> std::string show(msg::create_path<K, P> const& p) { return "create" + show(p.parent_path); }

  enum { CREATE, READ, UPDATE, DELETE };
  char const* const action_names[] = {"create", "read", "update", "delete"};

  template <typename T> constexpr bool none = std::is_same_v<std::decay_t<T>, msg::no_impl>;

  // what a message must say of itself
  struct want
  {
    bool up;
    int action;
    std::string path, uid, payload, secret, confirmed;   // "none" where there is none
  };

  template <typename M>
  std::string is_confirmed_text(M&& m)
  {
    return show(msg::is_confirmed(std::forward<M>(m)));
  }

  template <typename M>
  void kinds(want const& w, std::string const& what)
  {
    vmon::check(msg::is_upstream<M> == w.up && nbdl::UpstreamMessage<M> == w.up, "channel", what + ": is_upstream");
    vmon::check(msg::is_downstream<M> == !w.up && nbdl::DownstreamMessage<M> == !w.up, "channel", what + ": is_downstream");
    vmon::check(msg::is_create<M> == (w.action == CREATE), "action", what + ": is_create");
    vmon::check(msg::is_read<M> == (w.action == READ), "action", what + ": is_read");
    vmon::check(msg::is_update<M> == (w.action == UPDATE), "action", what + ": is_update");
    vmon::check(msg::is_delete<M> == (w.action == DELETE), "action", what + ": is_delete");
    vmon::check(msg::has_uid<M> == (w.uid != "none"), "has_uid", what);
    vmon::check(msg::has_payload<M> == (w.action == CREATE || w.action == UPDATE || (w.action == READ && !w.up)), "has_payload", what);
    vmon::check(msg::has_private_payload<M> == (w.secret != "none"), "has_private_payload", what);
    vmon::check(msg::has_is_confirmed<M> == (w.confirmed != "none"), "has_is_confirmed", what);
  }

  template <typename M>
  void tags(M const& m, want const& w, std::string const& what)
  {
    using A = std::decay_t<decltype(msg::get_action(m))>;
    using C = std::decay_t<decltype(msg::get_channel(m))>;
    int a = std::is_same_v<A, msg::action::create> ? CREATE : std::is_same_v<A, msg::action::read> ? READ
          : std::is_same_v<A, msg::action::update> ? UPDATE : std::is_same_v<A, msg::action::delete_> ? DELETE : -1;
    vmon::check(a == w.action, "get_action", what);
    vmon::check(std::is_same_v<C, msg::channel::upstream> == w.up && std::is_same_v<C, msg::channel::downstream> == !w.up, "get_channel", what);
  }

  // every part through one value category; the message is copied for each accessor so that
  // an accessor may take what it hands out
  template <typename M, typename As>
  void parts(M const& m, want const& w, As as, std::string const& what)
  {
    auto eq = [&](std::string const& got, std::string const& expect, char const* part)
    { vmon::count("parts read"); vmon::check(got == expect, part, what + " gives " + got + " instead of " + expect); };
    { M c(m); eq(show(msg::get_path(as(c))), w.path, "get_path"); }
    if constexpr (msg::has_uid<M>) { M c(m); eq(show(msg::get_uid(as(c))), w.uid, "get_uid"); }
    if constexpr (msg::has_payload<M>) { M c(m); eq(show(msg::get_payload(as(c))), w.payload, "get_payload"); }
    if constexpr (msg::has_private_payload<M>) { M c(m); eq(show(msg::get_private_payload(as(c))), w.secret, "get_private_payload"); }
    { M c(m); eq(is_confirmed_text(as(c)), w.confirmed == "none" ? "false" : w.confirmed, "is_confirmed"); }
  }

  auto const as_lvalue = [](auto& m) -> auto& { return m; };
  auto const as_const = [](auto& m) -> auto const& { return m; };
  auto const as_rvalue = [](auto& m) -> auto&& { return std::move(m); };

  template <typename M>
  void whole(M const& m, want const& w, std::string const& what)
  {
    vmon::count(std::string(w.up ? "upstream " : "downstream ") + action_names[w.action]);
    kinds<M>(w, what);
    kinds<M const&>(w, what + " (by reference)");
    tags(m, w, what);
    parts(m, w, as_lvalue, what);
    parts(m, w, as_const, what + " (const)");
    parts(m, w, as_rvalue, what + " (rvalue)");
    // bound parts, in order, without the ones there are not
    {
      std::string got, expect;
      nbdl::bind_sequence(m, [&](auto const& ...x) { ((got += show(x) + ";"), ...); });
      for (auto const& p : {w.path, w.uid, (w.action == READ && w.up) || w.action == DELETE ? std::string("none") : w.payload, w.secret, w.confirmed})
        if (p != "none" && p != "()" ) expect += p + ";";
      vmon::check(got == expect, "bind_sequence", what + " binds " + got + " instead of " + expect);
    }
    // reading did not change it
    parts(m, w, as_const, what + " (again)");
  }

  // the downstream answers of an upstream message, as each value category
  template <typename M, typename W>
  void answers(M const& m, W const& w, std::string const& what, Rng& r)
  {
    auto each = [&](auto as, std::string const& how)
    {
      if constexpr (msg::is_read<M>)
      {
        payload p = fresh<payload>(r);
        want d = w;
        d.up = false; d.payload = show(p); d.secret = "none"; d.confirmed = "none";
        { M c(m); payload q(p); whole(msg::to_downstream_read(as(c), std::move(q)), d, what + " answered" + how); }
        { M c(m); whole(msg::to_downstream_read(as(c), p), d, what + " answered" + how); vmon::check(show(p) == d.payload, "answer's payload taken", what); }
        vmon::count("answers");
      }
      else if constexpr (!msg::requires_key_for_downstream<M>)
      {
        want d = w;
        d.up = false; d.secret = "none";
        auto go = [&](auto confirmed)
        {
          d.confirmed = show(confirmed);
          M c(m);
          whole(msg::to_downstream(as(c), confirmed), d, what + " answered" + how + " confirmed " + d.confirmed);
          vmon::count("answers");
        };
        go(true); go(false); go(msg::no_is_confirmed);
        d.confirmed = "true";
        M c(m);
        whole(msg::to_downstream_confirmed(as(c)), d, what + " answered confirmed" + how);
      }
      if constexpr (msg::is_create<M> && hana::is_a<msg::create_path_tag, decltype(msg::get_path(m))>())
      {
        using Key = typename std::decay_t<decltype(msg::get_path(m))>::key;
        Key k = fresh<Key>(r);
        want d = w;
        d.up = false; d.secret = "none"; d.confirmed = "none";
        d.path = show(hana::append(msg::get_path(m).parent_path, k));
        { M c(m); whole(msg::to_downstream_with_key(as(c), k), d, what + " answered with a key" + how); }
        { M c(m); Key k2(k); whole(msg::to_downstream_with_key(as(c), std::move(k2)), d, what + " answered with a key" + how); }
        d.confirmed = "true";
        { M c(m); whole(msg::to_downstream_with_key_confirmed(as(c), k), d, what + " answered with a key, confirmed" + how); }
        vmon::count("answers with a key");
        vmon::check(show(k) == show(hana::back(msg::get_path(msg::to_downstream_with_key(m, k)))), "key taken", what);
      }
    };
    each(as_lvalue, "");
    each(as_const, " const");
    each(as_rvalue, " rvalue");
    whole(m, w, what + " (after its answers)");
  }

  // where a message belongs
  template <typename M>
  void belongs(M const& m, bool normal, std::string const& path, std::string const& what)
  {
    vmon::check(msg::is_path_normalizable<M> == normal, "is_path_normalizable", what);
    if constexpr (msg::is_path_normalizable<M>)
    {
      vmon::check(show(msg::get_normalized_path(m)) == path, "get_normalized_path", what + " gives " + show(msg::get_normalized_path(m)) + " instead of " + path);
      { M c(m); vmon::check(show(msg::get_normalized_path(c)) == path, "get_normalized_path", what); }
      { M c(m); vmon::check(show(msg::get_normalized_path(std::move(c))) == path, "get_normalized_path rvalue", what); }
      using P = typename decltype(msg::get_path_type(m))::type;
      vmon::check(std::is_same_v<P, std::decay_t<decltype(msg::get_normalized_path(m))>>, "get_path_type", what);
      vmon::count("paths normalized");
    }
  }

  template <typename Path, typename Uid>
  void of_path_uid(Path const& path, Uid const& uid, Rng& r)
  {
    std::string const p = show(path), u = show(uid);
    payload pay = fresh<payload>(r);
    secret sec = fresh<secret>(r);
    std::string const d = show(pay), s = show(sec);
    bool const lv = r.coin();
    auto mk = [&](auto const& make, auto const& ...x)
    {
      if (lv) return make(x...);
      return make(std::decay_t<decltype(x)>(x)...);
    };
    constexpr bool creating = decltype(hana::is_a<msg::create_path_tag, Path>)::value;
    auto creates = [&](auto const& m, std::string const& hidden, std::string const& what)
    {
      using M = std::decay_t<decltype(m)>;
      want w{true, CREATE, p, u, d, hidden, "none"};
      whole(m, w, what);
      answers(m, w, what, r);
      (void)sizeof(M);
    };
    creates(mk(msg::make_upstream_create, path, uid, pay), "none", "upstream_create");
    creates(mk(msg::make_upstream_create, path, uid, pay, sec), s, "upstream_create with private payload");
    creates(mk(msg::make_upstream_create, path, uid, pay, msg::no_private_payload), "none", "upstream_create with no_private_payload");
    auto confirmed = [&](auto c)
    {
      std::string const cs = show(c);
      whole(mk(msg::make_downstream_create, path, uid, pay, c), want{false, CREATE, p, u, d, "none", cs}, "downstream_create");
      if constexpr (!creating)
      {
        whole(mk(msg::make_downstream_update, path, uid, pay, c), want{false, UPDATE, p, u, d, "none", cs}, "downstream_update");
        whole(mk(msg::make_downstream_delete, path, uid, c), want{false, DELETE, p, u, "none", "none", cs}, "downstream_delete");
        belongs(msg::make_downstream_update(path, uid, pay, c), true, p, "downstream_update");
        belongs(msg::make_downstream_create(path, uid, pay, c), true, p, "downstream_create");
        belongs(msg::make_downstream_delete(path, uid, c), true, p, "downstream_delete");
      }
    };
    confirmed(true); confirmed(false); confirmed(msg::no_is_confirmed);
    if constexpr (!creating)
    {
      auto read = mk(msg::make_upstream_read, path, uid);
      want w{true, READ, p, u, "none", "none", "none"};
      whole(read, w, "upstream_read"); answers(read, w, "upstream_read", r); belongs(read, true, p, "upstream_read");
      if constexpr (none<Uid>)
      {
        auto read2 = mk(msg::make_upstream_read, path);
        whole(read2, w, "upstream_read of a path"); answers(read2, w, "upstream_read of a path", r);
      }
      auto update = mk(msg::make_upstream_update, path, uid, pay);
      w.action = UPDATE; w.payload = d;
      whole(update, w, "upstream_update"); answers(update, w, "upstream_update", r); belongs(update, true, p, "upstream_update");
      auto del = mk(msg::make_upstream_delete, path, uid);
      w.action = DELETE; w.payload = "none";
      whole(del, w, "upstream_delete"); answers(del, w, "upstream_delete", r); belongs(del, true, p, "upstream_delete");
      whole(mk(msg::make_downstream_read, path, uid, pay), want{false, READ, p, u, d, "none", "none"}, "downstream_read");
      belongs(msg::make_downstream_read(path, uid, pay), true, p, "downstream_read");
      belongs(msg::make_upstream_create(path, uid, pay), true, p, "upstream_create");
      vmon::check(!msg::requires_key_for_downstream<decltype(msg::make_upstream_create(path, uid, pay))>, "requires_key", "upstream_create with a whole path");
    }
    else
    {
      using Key = typename Path::key;
      auto c = msg::make_upstream_create(path, uid, pay);
      using M = decltype(c);
      constexpr bool normal = std::is_empty_v<Key> || (!none<Uid> && (std::is_same_v<Key, key_of_ident> || std::is_same_v<Key, Uid>));
      std::string whole_path = "none";
      if constexpr (!none<Uid> && normal) whole_path = show(hana::append(path.parent_path, Key(uid)));
      else if constexpr (normal) whole_path = show(hana::append(path.parent_path, Key{}));
      belongs(c, normal, whole_path, "upstream_create");
      vmon::check(msg::requires_key_for_downstream<M> == !normal, "requires_key", "upstream_create");
      belongs(msg::make_downstream_create(path, uid, pay, true), normal, whole_path, "downstream_create with a create path");
      using T = typename decltype(msg::get_path_type(c))::type;
      vmon::check(std::is_same_v<T, std::decay_t<decltype(hana::append(path.parent_path, std::declval<Key>()))>>, "get_path_type", "upstream_create");
      static_assert(!msg::requires_key_for_downstream<decltype(msg::make_downstream_create(path, uid, pay, true))> || true);
    }
  }

  template <typename Path>
  void of_path(Path const& p, Rng& r)
  {
    of_path_uid(p, msg::no_uid, r);
    of_path_uid(p, fresh<ident>(r), r);
    vmon::distinct(vmon::hash(show(p)));
  }

  void made(Rng& r)
  {
    switch (r.below(8))
    {
      case 0: of_path(hana::make_tuple(fresh<key1>(r)), r); break;
      case 1: of_path(hana::make_tuple(fresh<key1>(r), fresh<key2>(r)), r); break;
      case 2: of_path(hana::make_tuple(fresh<key1>(r), fresh<key1>(r), fresh<key_of_ident>(r)), r); break;
      case 3: of_path(msg::make_create_path<key2>(hana::make_tuple(fresh<key1>(r))), r); break;
      case 4: of_path(msg::make_create_path<key_of_ident>(hana::make_tuple(fresh<key1>(r))), r); break;
      case 5: of_path_uid(msg::make_create_path<empty_key>(hana::make_tuple(fresh<key1>(r), fresh<key2>(r))), msg::no_uid, r); break;
      case 6: of_path(msg::make_create_path<ident>(hana::make_tuple()), r); break;
      case 7: of_path(hana::make_tuple(fresh<key2>(r), empty_key{}, fresh<key1>(r)), r); break;
    }
  }
}

namespace wire
{
  struct item { nbdl::string name; unsigned count; };
  struct note { nbdl::string text; };
}
namespace nbdl
{
  NBDL_ENTITY(wire::item, name, count);
  NBDL_ENTITY(wire::note, text);
}
namespace wire
{
  using path = hana::tuple<nbdl::string, int>;
  using cpath = msg::create_path<int, hana::tuple<nbdl::string>>;
  using up_c = msg::upstream_create<cpath, msg::no_impl, item, msg::no_impl>;
  using up_cs = msg::upstream_create<cpath, nbdl::uid, item, note>;
  using up_c2 = msg::upstream_create<cpath, nbdl::uid, note, msg::no_impl>;
  using up_r = msg::upstream_read<path, msg::no_impl>;
  using up_u = msg::upstream_update<path, nbdl::uid, item>;
  using up_u2 = msg::upstream_update<path, msg::no_impl, item>;
  using up_d = msg::upstream_delete<path, msg::no_impl>;
  using up = nbdl::variant<nbdl::system_message, up_c, up_cs, up_c2, up_r, up_u, up_u2, up_d>;
  using down_c = msg::downstream_create<path, msg::no_impl, item, bool>;
  using down_cs = msg::downstream_create<path, nbdl::uid, item, bool>;
  using down_c2 = msg::downstream_create<path, nbdl::uid, note, bool>;
  using down_r = msg::downstream_read<path, msg::no_impl, item>;
  using down_u = msg::downstream_update<path, nbdl::uid, item, bool>;
  using down_u2 = msg::downstream_update<path, msg::no_impl, item, bool>;
  using down_d = msg::downstream_delete<path, msg::no_impl, bool>;
  using down = nbdl::variant<nbdl::system_message, down_c, down_cs, down_c2, down_r, down_u, down_u2, down_d>;

  std::string text(int x) { return std::to_string(x); }
  std::string text(bool x) { return x ? "true" : "false"; }
  std::string text(hana::false_) { return "false"; }
  std::string text(nbdl::string const& s) { return "'" + std::string(s.begin(), s.end()) + "'"; }
  std::string text(item const& i) { return "item" + text(i.name) + std::to_string(i.count); }
  std::string text(note const& i) { return "note" + text(i.text); }
  std::string text(nbdl::uid const& u) { std::string s = "#"; for (unsigned char c : u) s += std::to_string(c) + "."; return s; }
  std::string text(path const& p) { return text(hana::at_c<0>(p)) + "/" + text(hana::at_c<1>(p)); }
  std::string text(cpath const& p) { return text(hana::at_c<0>(p.parent_path)) + "/?"; }

  template <typename T> T make(Rng& r)
  {
    if constexpr (std::is_same_v<T, int>) return static_cast<int>(r.next());
    else if constexpr (std::is_same_v<T, unsigned>) return static_cast<unsigned>(r.next());
    else if constexpr (std::is_same_v<T, bool>) return r.coin();
    else if constexpr (std::is_same_v<T, nbdl::string>) { auto s = r.from("abcdefghijklmnopqrstuvwxyz\"\\/ ", r.below(24)); return nbdl::string(s.begin(), s.end()); }
    else if constexpr (std::is_same_v<T, item>) return {make<nbdl::string>(r), make<unsigned>(r)};
    else if constexpr (std::is_same_v<T, note>) return {nbdl::string("SECRET") + make<nbdl::string>(r)};
    else if constexpr (std::is_same_v<T, nbdl::uid>) { nbdl::uid u{}; for (auto& c : u) c = static_cast<unsigned char>(r.next()); return u; }
    else if constexpr (std::is_same_v<T, path>) return {make<nbdl::string>(r), make<int>(r)};
    else if constexpr (std::is_same_v<T, cpath>) return {hana::tuple<nbdl::string>(make<nbdl::string>(r))};
    else return {};
  }
  template <template <typename...> class M, typename ...P>
  M<P...> message(Rng& r, hana::basic_type<M<P...>>) { return M<P...>{hana::make_basic_tuple(make<P>(r)...)}; }

  // kind and parts in words
  template <typename M>
  std::string words(M const& m)
  {
    std::string s = msg::is_upstream<M> ? "up" : msg::is_downstream<M> ? "down" : "neither";
    s += msg::is_create<M> ? " create" : ""; s += msg::is_read<M> ? " read" : ""; s += msg::is_update<M> ? " update" : ""; s += msg::is_delete<M> ? " delete" : "";
    s += " at " + text(msg::get_path(m));
    if constexpr (msg::has_uid<M>) s += " as " + text(msg::get_uid(m));
    if constexpr (msg::has_payload<M>) s += " with " + text(msg::get_payload(m));
    if constexpr (msg::has_private_payload<M>) s += " secretly " + text(msg::get_private_payload(m));
    s += " confirmed " + text(msg::is_confirmed(m));
    return s;
  }
  template <typename ...P, template <typename...> class M>
  std::string parts_words(M<P...> const& m)
  { std::string s; hana::for_each(m.storage, [&](auto const& x) { if constexpr (!none<decltype(x)>) s += text(x) + " "; }); return s; }

  template <typename Variant, typename M>
  Variant over(M const& m, std::string& json)
  {
    Variant v = m;
    json = nbdl::binder::jsoncpp::to_string(v);
    Variant back = nbdl::system_message{};
    nbdl::binder::jsoncpp::from_string(json, back);
    return back;
  }

  // the receiver sees the kind and parts that were sent; only it is called, once
  template <typename M, typename Variant>
  void received(Variant const& v, M const& sent, std::string const& json)
  {
    int calls = 0;
    nbdl::match(v, [&](auto const& got)
    {
      ++calls;
      using G = std::decay_t<decltype(got)>;
      if constexpr (std::is_same_v<G, M>)
      {
        vmon::check(words(got) == words(sent), "relayed", "sent " + words(sent) + ", received " + words(got) + " over " + json);
        vmon::check(parts_words(got) == parts_words(sent), "relayed parts", "sent " + parts_words(sent) + ", received " + parts_words(got));
      }
      else vmon::violate("relayed as another kind", "sent " + words(sent) + " as " + json);
    });
    vmon::check(calls == 1, "relayed calls", std::to_string(calls));
    vmon::count("messages relayed");
  }

  template <typename Up, typename Down>
  void trip(Rng& r)
  {
    Up m = message(r, hana::type_c<Up>);
    std::string json;
    up v = over<up>(m, json);
    received(v, m, json);
    // the far side answers what it received
    nbdl::match(v, [&](auto const& got)
    {
      using G = std::decay_t<decltype(got)>;
      if constexpr (std::is_same_v<G, Up>)
      {
        auto reply = [&](auto const& answer)
        {
          using A = std::decay_t<decltype(answer)>;
          if constexpr (std::is_same_v<A, Down>)
          {
            down d = over<down>(answer, json);
            received(d, answer, json);
            vmon::check(json.find("SECRET") == std::string::npos || !msg::has_private_payload<Up>, "private payload relayed", json);
            std::string const up_words = words(m), down_words = words(answer);
            std::string expect = "down " + up_words.substr(3);
            if (auto at = expect.find(" secretly "); at != std::string::npos) expect.resize(at); else expect.resize(expect.find(" confirmed "));
            if constexpr (msg::is_read<Up>) expect += " with " + text(msg::get_payload(answer));
            if constexpr (msg::is_create<Up>) { auto at = expect.find("/?"); expect.replace(at, 2, "/" + text(hana::back(msg::get_path(answer)))); }
            vmon::check(down_words.substr(0, expect.size()) == expect && down_words.compare(expect.size(), 11, " confirmed ") == 0, "answer",
                        up_words + " is answered " + down_words + " instead of " + expect);
            vmon::count("answers relayed");
          }
          else vmon::violate("answer of another kind", words(m));
        };
        bool c = r.coin();
        if constexpr (msg::is_read<Up>) reply(msg::to_downstream_read(got, make<item>(r)));
        else if constexpr (msg::is_create<Up>) reply(msg::to_downstream_with_key_confirmed(got, make<int>(r)));
        else reply(msg::to_downstream(got, c));
      }
    });
    vmon::distinct(words(m));
    vmon::sample(json);
  }
}
namespace
{
  void relayed(Rng& r)
  {
    using namespace wire;
    switch (r.below(7))
    {
      case 0: trip<up_c, down_c>(r); break;
      case 1: trip<up_cs, down_cs>(r); break;
      case 2: trip<up_c2, down_c2>(r); break;
      case 3: trip<up_r, down_r>(r); break;
      case 4: trip<up_u, down_u>(r); break;
      case 5: trip<up_u2, down_u2>(r); break;
      case 6: trip<up_d, down_d>(r); break;
    }
  }
}

VMON_MODE("made", made, "parts read", "answers", "answers with a key", "paths normalized")
VMON_MODE("relayed", relayed, "messages relayed", "answers relayed")
VMON_MAIN
