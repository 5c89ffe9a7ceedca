// C39: contexts joined by the application layer's server and clients for the web.
// One server context and several client contexts of the same model in a node process; the test
// moves what is under way between the sockets, plays strangers and closes connections.
// Oracle: the lists of messages given to the contexts, and who was connected when.
#include "json_shapes.hpp"
#include "web/web.hpp"
#include <full_duplex.hpp>
#include <nbdl.hpp>
#include <nbdl/app/client.hpp>
#include <nbdl/app/server_js.hpp>

namespace msg = nbdl::message;
using namespace boost::hana::literals;

namespace m
{
  struct plain
  {
    bool flag; int number; unsigned count; js::color tint; nbdl::string text; js::Bytes raw;
    nbdl::uid id; std::vector<int> numbers; std::vector<js::leaf> leaves; js::choice pick; nbdl::optional<js::leaf> maybe; js::leaf inner;
    struct tells_members;
    // how the monitor goes through them
    template <typename P, typename F> static void each(P& p, F&& f)
    { f("flag", p.flag); f("number", p.number); f("count", p.count); f("tint", p.tint); f("text", p.text); f("raw", p.raw); f("id", p.id); f("numbers", p.numbers); f("leaves", p.leaves); f("pick", p.pick); f("maybe", p.maybe); f("inner", p.inner); }
  };
}
namespace nbdl { NBDL_ENTITY(m::plain, flag, number, count, tint, text, raw, id, numbers, leaves, pick, maybe, inner); }

namespace t
{
  struct brain { template <typename C> struct actor_impl { using hana_tag = brain; C context; template <typename A> actor_impl(A a) : context(a.context) { } actor_impl(actor_impl const&) = delete; }; };
  struct pass { };                                                 // stores which hold nothing and take everything
  struct ear { template <typename C> struct actor_impl { using hana_tag = ear; C context; int who; template <typename A> actor_impl(A a) : context(a.context), who(a.value) { } actor_impl(actor_impl const&) = delete; }; };

  using fixed = hana::string<'s'>;
  constexpr auto points = []
  {
    using namespace nbdl_def;
    return AccessPoints(
      AccessPoint(PathKey<fixed>, Entity<js::one>, Store<pass>, Actions(Create(), Update(), Delete()))
    , AccessPoint(PathKey<int>, Entity<js::leaf>, Store<pass>, Actions(Create(), Read(), Update(), Delete())
      , AccessPoint(PathKey<unsigned>, Entity<m::plain>, Store<pass>, Actions(Create(), Read(), Update(), Delete()))
      )
    );
  };
  struct server_side
  {
    static constexpr auto make_def()
    {
      using namespace nbdl_def;
      return Context(Producers(Producer(Type<brain>, Name("brain"_s), points())), Consumers(Consumer(Type<nbdl::app::server>, Name("server"_s))));
    }
  };
  struct client_side
  {
    static constexpr auto make_def()
    {
      using namespace nbdl_def;
      return Context(Producers(Producer(Type<nbdl::app::client>, Name("client"_s), points())), Consumers(Consumer(Type<ear>, Name("ear"_s))));
    }
  };

  template <typename M> std::string text(M const& m)
  {
    web::note note;
    std::string s = msg::is_upstream<M> ? "up " : "down ";
    s += msg::is_create<M> ? "create" : msg::is_read<M> ? "read" : msg::is_update<M> ? "update" : "delete";
    Json::StreamWriterBuilder w; w["indentation"] = "";
    auto put = [&](auto const& x) { s += " " + Json::writeString(w, js::enc_fn{}(x)); };
    put(msg::get_path(m));
    auto thing = [&](auto const& x)
    {
      using X = std::decay_t<decltype(x)>;
      if constexpr (std::is_same_v<X, js::one>) { s += " one"; put(x); }
      else if constexpr (std::is_same_v<X, js::leaf>) { s += " leaf"; put(x); }
      else if constexpr (std::is_same_v<X, m::plain>) { s += " plain"; put(x); }
      else if constexpr (std::is_empty_v<X>) s += " nothing";
      else x.it_is_something_else();
    };
    if constexpr (msg::has_payload<M>)
    {
      auto const& p = msg::get_payload(m);
      if constexpr (requires { p.value_; }) nbdl::match(p, thing);
      else thing(p);
    }
    return s;
  }

  struct world
  {
    Rng* r = nullptr;
    std::vector<std::string> arrived;                              // at the server's producer
    std::map<int, std::vector<std::string>> heard;                 // by each client
    std::function<void(std::string const&)> sending;               // the server's context gets a downstream message
    std::function<void()> meanwhile;                               // the client's context got a message
    std::size_t answers = 0;
    bool quiet = false;
  };
  inline world& w() { static world x; return x; }
}
namespace t { template <typename P, typename E> struct passing { using hana_tag = pass; }; }
namespace nbdl
{
  template <> struct make_store_impl<t::pass>
  { template <typename P, typename E> static constexpr auto apply(P, E) -> t::passing<typename P::type, typename E::type> { return {}; } };
  template <> struct apply_message_impl<t::pass>
  { template <typename S, typename M> static bool apply(S&, M const&) { return true; } };
  template <> struct match_impl<t::pass>
  { template <typename S, typename Key, typename F> static void apply(S&&, Key const&, F&& f) { f(nbdl::trigger_read{}); } };
  template <> struct apply_foreign_message_impl<t::pass>
  { template <typename S, typename M, typename F> static void apply(S&, M const&, F const&) { } };
  template <> struct send_upstream_message_impl<t::brain>
  {
    template <typename P, typename M> static void apply(P& p, M const& m)
    {
      auto& w = t::w();
      w.arrived.push_back(t::text(m));
      Rng& r = *w.r;
      if (w.quiet || r.chance(1, 3)) return;
      ++w.answers;
      auto tell = [&](auto const& d) { w.sending(t::text(d)); nbdl::apply_message(p.context, d); };
      if constexpr (msg::is_read<M>)
      {
        using Path = std::decay_t<decltype(msg::get_path(m))>;
        if (r.chance(1, 3)) { tell(msg::make_downstream_read(msg::get_path(m), msg::no_uid, nbdl::not_found{})); return; }
        if constexpr (decltype(hana::length(std::declval<Path>()))::value == 2)
        { m::plain x{}; ::js::gen_fn{r}(x); tell(msg::make_downstream_read(msg::get_path(m), msg::no_uid, x)); }
        else { ::js::leaf x{}; ::js::gen_fn{r}(x); tell(msg::make_downstream_read(msg::get_path(m), msg::no_uid, x)); }
      }
      else if constexpr (msg::requires_key_for_downstream<M>)
      {
        using Path = typename decltype(msg::get_path_type(m))::type;
        std::decay_t<decltype(hana::back(std::declval<Path>()))> key{};
        if constexpr (std::is_integral_v<decltype(key)>) key = static_cast<decltype(key)>(r.next());
        tell(msg::to_downstream_with_key(m, key));
      }
      else tell(msg::to_downstream(m, msg::no_is_confirmed));
    }
  };
  template <> struct send_downstream_message_impl<t::ear>
  {
    template <typename C, typename M> static void apply(C& c, M const& m)
    { t::w().heard[c.who].push_back(t::text(m)); if (t::w().meanwhile) t::w().meanwhile(); }
  };
}

namespace t
{
  using up_types = nbdl_def::builder::make_context_meta_t<client_side>::message_api_meta::upstream_types;
  using down_types = nbdl_def::builder::make_context_meta_t<client_side>::message_api_meta::downstream_types;

  template <typename List, typename F> void some_message(Rng& r, F&& f)
  {
    constexpr std::size_t n = boost::mp11::mp_size<List>::value;
    boost::mp11::mp_with_index<n>(r.below(n), [&](auto i)
    {
      using M = boost::mp11::mp_at_c<List, decltype(i)::value>;
      M m{};
      if (r.chance(1, 60)) js::giant_texts = 1;
      js::gen_fn{r}(m);
      js::giant_texts = 0;
      f(m);
    });
  }
  using server_context = decltype(nbdl::make_context<server_side>(nbdl::actor("server"_s, std::declval<nbdl::app::server>())));
  using client_context = decltype(nbdl::make_context<client_side>(nbdl::actor("client"_s, std::declval<nbdl::app::client>()), nbdl::actor("ear"_s, 1)));

  std::string brief(std::vector<std::string> const& v)
  { std::string s = std::to_string(v.size()) + ":"; for (auto& x : v) s += " [" + vmon::show(x, 60) + "]"; return s; }

  struct net
  {
    nbdl::app::io_context io{};
    unsigned short port;
    server_context server;
    struct client { client_context ctx; int socket; std::vector<std::string> sent, due; bool accepted = false, open = false, gone = false; };
    std::map<int, client> clients;
    std::vector<std::string> at_server;                            // what has to have arrived there, in order
    int next = 0;
    std::size_t pushes = 0;
    std::string history;

    auto& served() { return server->template actor<1>(); }
    net(Rng& r, unsigned short p) : port(p), server(nbdl::make_context<server_side>(nbdl::actor("server"_s, nbdl::app::server{p, io})))
    {
      w() = world{};
      w().r = &r;
      w().sending = [this](std::string const& s) { ++pushes; for (auto& [k, c] : clients) if (c.accepted && !c.gone) c.due.push_back(s); };
    }
    ~net() { for (auto& [k, c] : clients) leave(c); w() = world{}; }

    static std::string js(std::string const& code, int a = 0, int b = 0) { return web::text(code, a, b); }
    int join(Rng& r)
    {
      int const k = ++next;
      std::string const address = (r.coin() ? "ws://" : "wss://") + r.from("abc", 1 + r.below(40)) + ":" + std::to_string(port) + r.pick({"", "/", "/x?y=1"});
      int const socket = std::atoi(js("return window.sockets.length").c_str());
      clients.emplace(k, client{nbdl::make_context<client_side>(nbdl::actor("client"_s, nbdl::app::client{address, io}), nbdl::actor("ear"_s, k)), socket, {}, {}});
      web::check(js("return window.sockets.length") == std::to_string(socket + 1), "opens-one-socket", "");
      web::check(js("return (window.sockets[$0] || {}).url", socket) == address, "url", address + " is " + js("return (window.sockets[$0] || {}).url", socket));
      history += " join";
      return k;
    }
    void accept(client& c) { if (c.accepted || c.gone) return; c.accepted = true; js("window.servers[0].accept_($0)", c.socket); history += " accept"; }
    void open(client& c) { if (c.open || !c.accepted || c.gone) return; c.open = true; js("window.sockets[$0].open_()", c.socket); history += " open"; }
    void say(Rng& r, client& c)
    { some_message<up_types>(r, [&](auto const& m) { if (!c.gone) c.sent.push_back(text(m)); nbdl::apply_message(*c.ctx, m); }); history += " say"; }
    void push(Rng& r)
    { some_message<down_types>(r, [&](auto const& m) { w().sending(text(m)); nbdl::apply_message(*server, m); }); history += " push"; }
    std::map<int, std::size_t> moved;
    bool up(int k)
    {
      auto& c = clients.at(k);
      if (c.gone || !c.open) return false;
      bool const any = js("return window.servers[0].up_($0)", c.socket) == "true";
      if (any) { auto& n = moved[k]; at_server.push_back(n < c.sent.size() ? c.sent[n] : "nothing: the client has sent all already"); ++n; }
      return any;
    }
    bool down(int k) { auto& c = clients.at(k); return c.open && !c.gone && js("return window.servers[0].down_($0)", c.socket) == "true"; }
    void leave(client& c)
    {
      if (c.gone) return;
      c.gone = true;
      js("window.servers[0].leave_($0)", c.socket);
      history += " leave";
    }
    void arrive()
    {
      for (bool any = true; any;)
      {
        any = false;
        for (auto& [k, c] : clients) { while (up(k)) any = true; while (down(k)) any = true; }
      }
    }
    void check_all()
    {
      web::check(w().arrived == at_server, "to-server", "the server got " + brief(w().arrived) + " of " + brief(at_server) + ":" + history);
      for (auto& [k, c] : clients)
      {
        auto& got = w().heard[k];
        bool ok = c.gone || !c.open ? got.size() <= c.due.size() && std::equal(got.begin(), got.end(), c.due.begin()) : got == c.due;
        web::check(ok, "to-client", "client " + std::to_string(k) + (c.gone ? " (left)" : "") + " heard " + brief(got) + " instead of " + brief(c.due) + ":" + history);
        if (c.accepted && c.gone)
        {
          std::string const late = js("return window.sockets[$0].connection.late", c.socket);
          web::check(late == "0", "sent-after-the-end", "the server sent client " + std::to_string(k) + " " + late + " messages after it had left:" + history);
        }
        if (c.open && !c.gone) web::check(moved[k] == c.sent.size(), "sent", "client " + std::to_string(k) + " sent " + std::to_string(moved[k]) + " messages of " + std::to_string(c.sent.size()) + ":" + history);
      }
      web::check(full_duplex::monitor().twice == 0, "resolved-twice", full_duplex::monitor().what);
    }
  };

  void exchange_of(Rng& r, std::size_t most, std::size_t steps)
  {
    js::no_nul = true;
    web::reset();
    full_duplex::monitor() = {};
    int const before = web::entries();
    {
      net n(r, static_cast<unsigned short>(1 + r.below(65535)));
      web::check(net::js("return window.servers.length") == "1" && net::js("return window.servers[0].port") == std::to_string(n.port), "listening", net::js("return window.servers.map(x => x.port)"));
      w().quiet = r.chance(1, 4);
      std::size_t early = 0, left = 0, inside = 0;
      for (auto k = steps; k > 0; --k)
      {
        std::vector<int> here;
        for (auto& [i, c] : n.clients) if (!c.gone) here.push_back(i);
        if (here.empty() || (most > 5 && n.clients.size() < most && k % 4)) { n.join(r); continue; }
        auto const id = here[r.below(here.size())];
        auto& c = n.clients.at(id);
        // a client answers what it hears
        w().meanwhile = nullptr;
        switch (r.below(14))
        {
          case 0: if (n.clients.size() < most) n.join(r); break;
          case 1: case 2: n.accept(c); break;
          case 3: case 4: n.accept(c); n.open(c); break;
          case 5: if (most > 2 && r.chance(1, 3)) { n.leave(c); ++left; } break;
          case 6: case 7: n.push(r); break;
          case 8: for (auto j = r.below(4); j > 0; --j) n.up(id); break;
          case 9:
            if (c.open && r.coin())
            {
              bool answered = false;
              w().meanwhile = [&] { if (!answered) { answered = true; n.say(r, c); ++inside; } };
              n.down(id);
              w().meanwhile = nullptr;
            }
            else for (auto j = r.below(4); j > 0; --j) n.down(id);
            break;
          default:
            if (!c.open) ++early;
            n.say(r, c);
        }
      }
      n.arrive();
      n.check_all();
      std::size_t heard = 0;
      for (auto& [k, v] : w().heard) heard += v.size();
      web::count("messages to the server", w().arrived.size()); web::count("messages to clients", heard);
      web::count("answers", w().answers); web::count("sent before connecting", early); web::count("clients", n.clients.size());
      web::count("clients that left", left); web::count("sent while hearing", inside);
      web::distinct(n.history + std::to_string(heard) + "," + std::to_string(w().arrived.size()));
      web::sample(std::to_string(n.clients.size()) + " clients:" + n.history);
    }
    web::check(full_duplex::monitor().pipelines == full_duplex::monitor().ended && full_duplex::monitor().opened == full_duplex::monitor().closed, "left-running"
    , std::to_string(full_duplex::monitor().pipelines) + " pipelines, " + std::to_string(full_duplex::monitor().ended) + " ended");
    web::check(web::entries() == before, "kept", std::to_string(web::entries() - before) + " values are still held");
    web::check_memory();
  }

  void exchange(Rng& r) { exchange_of(r, 5, 4 + r.below(36)); }
  // many clients, or much to say
  void crowd(Rng& r)
  {
    bool const many = r.coin();
    exchange_of(r, many ? 10 + r.below(60) : 2, many ? 100 + r.below(300) : 500 + r.below(1500));
    web::count(many ? "crowds" : "long talks");
  }

  using up_serializer = nbdl::app::serializer_upstream<client_side>;
  using down_serializer = nbdl::app::serializer_downstream<server_side>;
  std::string literal(std::string const& s) { return "Buffer.from('" + web_host::hex(s) + "', 'hex').toString('utf8')"; }
  nbdl::system_message some_system_message(Rng& r)
  {
    nbdl::system_message s{nbdl::system_message::WARNING, js::utf8(r, js::len(r))};
    for (auto& c : s.value) if (!c) c = ' ';
    return s;
  }

  // peers which are no clients of ours, at the server's door
  void strangers(Rng& r)
  {
    js::no_nul = true;
    web::reset();
    full_duplex::monitor() = {};
    int const before = web::entries();
    bool thrown = false;
    {
      net n(r, 8080);
      w().quiet = r.coin();
      for (auto k = 1 + r.below(3); k > 0; --k) { auto& c = n.clients.at(n.join(r)); n.accept(c); n.open(c); }
      for (auto k = 1 + r.below(4); k > 0; --k)
      {
        int const s = std::atoi(net::js("new WebSocket('ws://stranger'); window.servers[0].accept_(window.sockets.length - 1); window.sockets[window.sockets.length - 1].open_(); return window.sockets.length - 1").c_str());
        auto send = [&](std::string const& t) { net::js("window.sockets[$0].send(" + literal(t) + "); window.servers[0].up_($0); return ''", s); };
        auto got = [&] { return net::js("return window.sockets[$0].connection.out.length", s); };
        auto served = [&]
        {
          auto const had = std::atoi(got().c_str());
          n.push(r);
          return std::atoi(got().c_str()) == had + 1;
        };
        auto friendly = [&] { if (r.coin()) for (auto& [i, c] : n.clients) { n.say(r, c); if (r.coin()) n.up(i); if (r.coin()) n.down(i); } };
        friendly();
        web::check(served(), "stranger-served", "a peer that has done nothing yet is sent nothing");
        for (auto j = r.below(3); j > 0; --j)
          some_message<up_types>(r, [&](auto const& m)
          {
            up_serializer ser;
            std::string const doc = web::json(nbdl::js::get_handle(ser.serialize(m)));
            n.at_server.push_back(text(m));
            send(doc);
            web::count("strangers' messages");
          });
        web::check(served(), "stranger-served", "a peer that has sent messages only is sent nothing");
        friendly();
        std::string bad;
        bool wrong_shape = false;
        switch (r.below(6))
        {
          case 0: bad = r.pick({"[99,{}]", "99", "-1", "[-1]", "[-1,null]", "[1500000000,1]", "[99,[99,[99]]]"}); web::count("unknown messages"); break;
          case 1: { up_serializer ser; bad = web::json(nbdl::js::get_handle(ser.serialize(some_system_message(r)))); web::count("system messages"); break; }
          case 2: some_message<up_types>(r, [&](auto const& m) { using M = std::decay_t<decltype(m)>; bad = "[" + (msg::has_payload<M> ? std::to_string(boost::mp11::mp_find<up_types, M>::value) : "0") + ",null]"; }); wrong_shape = true; web::count("messages of another shape"); break;
          default: bad = r.pick({"", "{", "nonsense", "[0,", "\"", "[4,{\"a\":1}", "undefined"}) + r.from("[{:,x", r.below(4)); web::count("texts which are not JSON");
        }
        auto const arrived = w().arrived;
        net::js("window.uncaught = []; return ''");
        send(bad);
        std::string const uncaught = net::js("return window.uncaught.join(' ')");
        thrown = thrown || !uncaught.empty();
        web::check(uncaught.empty(), wrong_shape ? "wrong-shape" : "uncaught", vmon::show(bad) + " from a peer gave the server an exception that nobody catches: " + uncaught);
        web::check(w().arrived == arrived, "nonsense-delivered", vmon::show(bad) + " arrived as " + (w().arrived.empty() ? "" : w().arrived.back()));
        if (!wrong_shape || uncaught.empty())
        {
          web::check(net::js("return window.sockets[$0].connection.readyState > 1", s) == "true", "not-closed", "a peer that sent " + vmon::show(bad) + " is still connected");
          auto const had = std::atoi(got().c_str());
          n.push(r);
          web::check(std::atoi(got().c_str()) == had, "still-served", "a peer that sent " + vmon::show(bad) + " is still sent messages");
        }
        friendly();
        net::js("window.servers[0].leave_($0); return ''", s);
        n.history += " stranger";
      }
      n.arrive();
      n.check_all();
      web::count("messages to the server", w().arrived.size());
      web::distinct(n.history + std::to_string(w().arrived.size()));
      web::sample(n.history);
    }
    web::check(thrown || web::entries() == before, "kept", std::to_string(web::entries() - before) + " values are still held");
    web::check_memory();
  }

  // a client whose server is a stranger
  void servers(Rng& r)
  {
    js::no_nul = true;
    web::reset();
    full_duplex::monitor() = {};
    int const before = web::entries();
    {
      w() = world{};
      w().r = &r;
      nbdl::app::io_context io;
      client_context ctx = nbdl::make_context<client_side>(nbdl::actor("client"_s, nbdl::app::client{"ws://there:1", io}), nbdl::actor("ear"_s, 1));
      std::vector<std::string> sent, heard;
      std::string history;
      auto happens = [&](std::string const& code) { net::js("window.sockets[0]." + code + "; return ''"); };
      auto say = [&] { some_message<up_types>(r, [&](auto const& m) { sent.push_back(text(m)); nbdl::apply_message(*ctx, m); }); history += " say"; };
      for (auto k = r.below(4); k > 0; --k) say();
      bool over = r.chance(1, 6);
      web::check(net::js("return window.sockets[0].wire.length") == "0", "sent-early", "");
      if (over)
      { // refused
        history += " refused";
        if (r.coin()) happens("happens_({type: 'error'})");
        happens("closed_(1006)");
        web::count("refusals");
        for (auto k = r.below(4); k > 0; --k) say();
        web::check(net::js("return window.sockets[0].wire.length") == "0", "sent-early", "");
      }
      else
      {
        happens("open_()");
        for (auto k = 2 + r.below(12); k > 0; --k)
        {
          if (r.coin()) { say(); continue; }
          some_message<down_types>(r, [&](auto const& m)
          {
            down_serializer ser;
            std::string const doc = web::json(nbdl::js::get_handle(ser.serialize(m)));
            heard.push_back(text(m));
            history += " hear";
            happens("message_(" + literal(doc) + ")");
          });
        }
        // what it has sent is readable on the other side
        std::vector<std::string> read;
        int const wires = std::atoi(net::js("return window.sockets[0].wire.length").c_str());
        for (int i = 0; i < wires; ++i)
        {
          nbdl::js::val v;
          web::put(nbdl::js::get_handle(v), "JSON.parse(window.sockets[0].wire[" + std::to_string(i) + "])");
          typename nbdl::message_api<client_side>::upstream_variant var;
          nbdl::binder::js::bind_from(v, var);
          nbdl::match(var, [&](auto const& x)
          { using X = std::decay_t<decltype(x)>; if constexpr (nbdl::UpstreamMessage<X>) read.push_back(text(x)); else read.push_back("something else"); });
        }
        web::check(read == sent, "to-server", "the server can read " + brief(read) + " of " + brief(sent) + ":" + history);
        web::check(w().heard[1] == heard, "to-client", "the client heard " + brief(w().heard[1]) + " instead of " + brief(heard) + ":" + history);
        web::count("messages from strangers", heard.size()); web::count("messages to strangers", sent.size());
        net::js("window.logged = []; window.uncaught = []; return ''");
        auto const end = r.below(3);
        if (end == 0)
        {
          std::string bad = r.pick({"[99,{}]", "99", "-1", "[-1,null]"});
          if (r.coin()) { down_serializer ser; bad = web::json(nbdl::js::get_handle(ser.serialize(some_system_message(r)))); }
          happens("message_(" + literal(bad) + ")");
          web::check(net::js("return window.logged.length") == "1", "logged", vmon::show(bad) + " from the server is logged " + net::js("return window.logged.length") + " times");
          history += " bad";
          web::count("servers turned bad");
        }
        else
        {
          if (end == 1) { happens("happens_({type: 'error'})"); web::count("errors"); }
          happens("closed_(1006)");
          history += " closed";
          web::check(net::js("return window.logged.length") == "1", "logged", "the end of the connection is logged " + net::js("return window.logged.length") + " times");
        }
        web::check(net::js("return window.uncaught.join(' ')").empty(), "uncaught", net::js("return window.uncaught.join(' ')") + history);
        web::check(w().heard[1] == heard, "to-client-after", "");
        for (auto k = r.below(3); k > 0; --k) say();
      }
      web::check(full_duplex::monitor().twice == 0, "resolved-twice", full_duplex::monitor().what + history);
      web::distinct(history);
      web::sample(history);
    }
    w() = world{};
    web::check(web::entries() == before, "kept", std::to_string(web::entries() - before) + " values are still held");
    web::check(full_duplex::monitor().pipelines == full_duplex::monitor().ended && full_duplex::monitor().opened == full_duplex::monitor().closed, "left-running"
    , std::to_string(full_duplex::monitor().pipelines) + " pipelines, " + std::to_string(full_duplex::monitor().ended) + " ended");
    web::check_memory();
  }

  // ---- values there and back through the serializers
  struct outcome { int times = 0; bool is_error = false; std::string what; };
  template <typename D> outcome decode(D const& d, nbdl::js::val const& v)
  {
    outcome o;
    full_duplex::run_async_with_state(0, full_duplex::promise_lift(nbdl::js::val(v)), d()
    , full_duplex::map_any([&](auto&& x)
      {
        using X = std::decay_t<decltype(x)>;
        ++o.times;
        if constexpr (full_duplex::is_error<X>)
        {
          o.is_error = true;
          if constexpr (std::is_same_v<decltype(x.value), nbdl::system_message>) o.what = x.value.value;
        }
        else if constexpr (nbdl::UpstreamMessage<X> || nbdl::DownstreamMessage<X>) o.what = text(x);
      }));
    return o;
  }
  template <typename List, typename Serializer, typename Deserializer>
  void one_value(Rng& r, Serializer& ser, Deserializer const& d)
  {
    std::string want;
    bool is_system = false;
    nbdl::js::val v;
    if (r.chance(1, 10)) { auto s = some_system_message(r); v = ser.serialize(s); want = s.value; is_system = true; }
    else some_message<List>(r, [&](auto const& m) { v = ser.serialize(m); want = text(m); });
    std::string const is = web::json(nbdl::js::get_handle(v));
    // as it comes off the wire
    nbdl::js::val read;
    web::put(nbdl::js::get_handle(read), "JSON.parse(" + literal(is) + ")");
    auto o = decode(d, read);
    web::check(o.times == 1 && o.is_error == is_system && o.what == want, "there-and-back"
    , vmon::show(want, 300) + " came back " + std::to_string(o.times) + " times" + (o.is_error ? " as an error: " : ": ") + vmon::show(o.what, 300));
    web::count(is_system ? "system messages" : "messages there and back");
    // serialising the next one leaves this one alone
    some_message<List>(r, [&](auto const& m) { ser.serialize(m); });
    web::check(web::json(nbdl::js::get_handle(v)) == is, "changed", vmon::show(is, 200) + " is now " + vmon::show(web::json(nbdl::js::get_handle(v)), 200));
    std::string const bad = r.pick({"[99,{}]", "99", "-1", "[-1,null]", "[12345,[1]]"});
    web::put(nbdl::js::get_handle(read), bad);
    o = decode(d, read);
    web::check(o.times == 1 && o.is_error, "nonsense-accepted", bad + " is " + o.what);
    web::count("unknown messages");
    web::distinct(is);
  }
  void values(Rng& r)
  {
    js::no_nul = true;
    web::reset();
    full_duplex::monitor() = {};
    int const before = web::entries();
    {
      up_serializer up;
      down_serializer down;
      for (int i = 0; i < 4; ++i)
      {
        one_value<up_types>(r, up, nbdl::app::deserializer_upstream<client_side>);
        one_value<down_types>(r, down, nbdl::app::deserializer_downstream<server_side>);
      }
    }
    web::check(full_duplex::monitor().twice == 0, "resolved-twice", full_duplex::monitor().what);
    web::check(web::entries() == before, "kept", std::to_string(web::entries() - before) + " values are still held");
    web::check_memory();
  }
}
VMON_MODE("crowd", t::crowd, "crowds", "long talks", "clients that left")
VMON_MODE("exchange", t::exchange, "messages to the server", "messages to clients", "answers", "sent before connecting", "clients that left", "sent while hearing")
VMON_MODE("strangers", t::strangers, "strangers' messages", "unknown messages", "system messages", "messages of another shape", "texts which are not JSON", "messages to the server")
VMON_MODE("servers", t::servers, "messages from strangers", "messages to strangers", "servers turned bad", "refusals", "errors")
VMON_MODE("values", t::values, "messages there and back", "system messages", "unknown messages")
WEB_MAIN
