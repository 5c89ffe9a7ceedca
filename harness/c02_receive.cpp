// C02 / C03: what a connection makes of the bytes a peer sends.
// Oracle C02: the generator knows the messages it cut into frames.
// Oracle C03: a byte level model of the framing for the well defined part; sanitizers, the
// largest allocation and "exactly one end" for everything else.
#include "ws_common.hpp"
#include <nbdl/websocket/detail/message_reader.hpp>

#if __has_include(<sanitizer/allocator_interface.h>)
#include <sanitizer/allocator_interface.h>
#endif

using vmon::Rng;
using ref::Frame;

namespace
{
  thread_local std::size_t biggest = 0;
  void on_malloc(const volatile void*, std::size_t n) { if (n > biggest) biggest = n; }
  void on_free(const volatile void*) { }
  struct InstallHooks { InstallHooks() { __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); } } install_hooks;

  std::string payload(Rng& r, std::size_t n)
  { return r.chance(1, 4) ? std::string(n, static_cast<char>(r.next())) : r.bytes(n); }

  void mask(Rng& r, Frame& f)
  {
    f.masked = true;
    for (auto& c : f.mask) c = r.chance(1, 10) ? 0 : static_cast<unsigned char>(r.next());
  }

  struct Script
  {
    std::vector<Frame> frames;
    std::vector<std::string> messages;
    std::string shape;
    unsigned controls = 0, fragmented = 0, masked = 0;
  };

  std::size_t fragment_size(Rng& r)
  {
    switch (r.below(12))
    {
      case 0: return 0;
      case 1: return static_cast<std::size_t>(r.range(124, 128));
      case 2: return r.chance(1, 4) ? static_cast<std::size_t>(r.range(65534, 65538)) : 300;
      case 3: return r.chance(1, 6) ? 140000 + r.below(30) : 200 + r.below(2000);
      case 4: return 1 + r.below(3);
      default: return r.below(80);
    }
  }

  Script legal(Rng& r, bool controls = true)
  {
    Script s;
    std::size_t n = 1 + r.below(5);
    unsigned masking = static_cast<unsigned>(r.below(3)); // none, all, mixed
    auto add = [&](Frame f)
    {
      if (masking == 1 || (masking == 2 && r.coin())) { mask(r, f); ++s.masked; }
      s.shape += std::to_string(f.opcode) + (f.fin ? "." : "-") + (f.masked ? "m" : "") + std::to_string(f.payload.size()) + " ";
      s.frames.push_back(std::move(f));
    };
    auto maybe_control = [&]
    {
      while (controls && r.chance(1, 4))
      {
        Frame c;
        c.opcode = r.coin() ? 9 : 10;
        c.payload = payload(r, r.chance(1, 3) ? 0 : r.chance(1, 4) ? 125 : r.below(20));
        ++s.controls;
        add(c);
      }
    };
    for (std::size_t i = 0; i < n; ++i)
    {
      bool const many = r.chance(1, 60);
      std::size_t frags = many ? 60 + r.below(300) : r.chance(1, 2) ? 1 : 1 + r.below(6);
      if (frags > 1) ++s.fragmented;
      std::string m;
      unsigned op = r.coin() ? 1 : 2;
      for (std::size_t k = 0; k < frags; ++k)
      {
        maybe_control();
        Frame f;
        f.opcode = k == 0 ? op : 0;
        f.fin = k + 1 == frags;
        f.payload = payload(r, many ? r.below(9) : fragment_size(r));
        m += f.payload;
        add(f);
      }
      s.messages.push_back(m);
    }
    maybe_control();
    return s;
  }

  // writes `bytes` in random pieces, letting the reader run in between
  void feed(Rng& r, ws::asio::io_context& io, ws::Raw& raw, std::string const& bytes)
  {
    raw.out += bytes;
    unsigned style = static_cast<unsigned>(r.below(4));
    for (int idle = 0; idle < 3;)
    {
      std::size_t k = style == 0 ? ~std::size_t(0)
        : style == 1 && raw.out.size() < 1200 ? 1
        : style == 2 ? 1 + r.below(10) + (raw.out.size() > 3000 ? 20000 : 0)
        : 1 + r.below(1 + raw.out.size() / (1 + r.below(6)));
      std::size_t moved = raw.transmit(k);
      if (style != 3 || r.coin() || moved == 0) moved += ws::pump(io);
      raw.receive();
      idle = moved ? 0 : idle + 1;
    }
  }

  // ---- the two ways bytes get read: a server endpoint, and a bare reader with another payload type

  struct Bare
  {
    ws::asio::io_context io{1};
    ws::Raw raw;
    ws::tcp::socket socket{ws::connect_raw(io, raw)};
    std::vector<ws::Event> events;
    std::shared_ptr<int> token = std::make_shared<int>(0);

    auto save(char k)
    {
      return [this, k](auto, auto const& ctx)
      {
        std::string d;
        if (k == 'M') d.assign(ctx.payload.begin(), ctx.payload.end());
        events.push_back({k, std::move(d)});
      };
    }
    template <typename F> void with(F&& f)
    {
      namespace re = nbdl::websocket::detail::read_event;
      namespace hana = ws::hana;
      auto reader = nbdl::websocket::detail::make_message_reader(
        hana::type_c<std::vector<unsigned char>>, socket, hana::make_map(
          hana::make_pair(re::message, save('M')), hana::make_pair(re::close, save('C'))
        , hana::make_pair(re::ping, save('P')), hana::make_pair(re::pong, save('O'))
        , hana::make_pair(re::bad_input, save('B'))
        , hana::make_pair(hana::type_c<std::error_code>, save('E'))));
      reader.keep_reading(token);
      f();
      raw.close();
      boost::system::error_code ec;
      socket.close(ec);
      ws::pump(io);
    }
  };

  std::vector<std::string> only(std::vector<ws::Event> const& es, char k)
  { std::vector<std::string> r; for (auto& e : es) if (e.kind == k) r.push_back(e.data); return r; }

  std::size_t terminals(std::vector<ws::Event> const& es)
  { std::size_t n = 0; for (auto& e : es) n += e.kind == 'C' || e.kind == 'B' || e.kind == 'E'; return n; }

#ifndef PART_HOSTILE
  // Ends the stream with a close frame or by closing; the messages must be exactly those.
  void judge_legal(Rng& r, Script const& s, std::vector<ws::Event> const& events, bool close_frame)
  {
    (void)r;
    std::string d = ws::compare(only(events, 'M'), s.messages);
    vmon::check(d.empty(), "messages", d + "; frames " + s.shape.substr(0, 300));
    vmon::check(terminals(events) == 1, "one-end", std::to_string(terminals(events)) + " terminal events: " + ws::show(events)
      + "; frames " + s.shape.substr(0, 300));
    if (close_frame && terminals(events) == 1)
      vmon::check(events.back().kind == 'C', "close-event", "a close frame ended in " + ws::show(events));
    vmon::count("messages", s.messages.size()); vmon::count("frames", s.frames.size());
    vmon::count("control_frames", s.controls); vmon::count("fragmented_messages", s.fragmented);
    vmon::count("masked_frames", s.masked);
    vmon::distinct(s.shape);
    vmon::sample(s.shape.substr(0, 200));
  }

  std::string wire(Rng& r, Script& s, bool close_frame)
  {
    if (close_frame)
    {
      Frame c; c.opcode = 8;
      if (r.coin()) { c.payload = std::string("\x03\xe8", 2) + payload(r, r.below(100)); }
      if (s.masked) mask(r, c);
      s.frames.push_back(c);
    }
    std::string w;
    for (auto& f : s.frames) w += ref::encode(f);
    return w;
  }

  void endpoint_legal(Rng& r)
  {
    ws::Server srv;
    if (!srv.handshake()) return;
    srv.ep.events.clear();
    Script s = legal(r);
    bool close_frame = r.coin();
    feed(r, srv.io, srv.raw, wire(r, s, close_frame));
    if (!close_frame) srv.raw.shutdown_write();
    for (int i = 0; i < 3; ++i) { ws::pump(srv.io); srv.raw.receive(); }
    judge_legal(r, s, srv.ep.events, close_frame);
  }

  void reader_legal(Rng& r)
  {
    Bare b;
    b.with([&]
    {
      Script s = legal(r);
      bool close_frame = r.coin();
      feed(r, b.io, b.raw, wire(r, s, close_frame));
      if (!close_frame) b.raw.shutdown_write();
      ws::pump(b.io);
      auto ev = b.events;
      std::size_t pings = 0, pongs = 0;
      for (auto& f : s.frames) { pings += f.opcode == 9; pongs += f.opcode == 10; }
      vmon::check(only(ev, 'P').size() == pings && only(ev, 'O').size() == pongs, "control-events"
        , std::to_string(only(ev, 'P').size()) + " pings and " + std::to_string(only(ev, 'O').size()) + " pongs reported of "
          + std::to_string(pings) + " and " + std::to_string(pongs));
      judge_legal(r, s, ev, close_frame);
    });
  }

  // every payload length around the boundaries of the length forms, masked and not
  void every_length(Rng& r)
  {
    auto i = vmon::st().index;
    static const std::size_t edges[] = {0, 124, 125, 126, 127, 128, 254, 255, 256, 257, 32767, 32768, 33000, 65279, 65280, 65534, 65535, 65536, 65537, 65791, 65792, 131072, 200000};
    Script s;
    bool masked = i & 1;
    std::size_t k = i / 2;
    std::size_t n = k < 300 ? k : edges[(k - 300) % (sizeof edges / sizeof *edges)];
    for (std::size_t len : {n, n / 2, std::size_t(3)})
    {
      Frame f; f.opcode = 2; f.payload = payload(r, len);
      if (masked) { mask(r, f); ++s.masked; }
      s.frames.push_back(f); s.messages.push_back(f.payload);
      s.shape += std::to_string(len) + (masked ? "m " : " ");
    }
    // and once more split in two
    Frame a, b; a.opcode = 1; a.fin = false; a.payload = payload(r, n); b.opcode = 0; b.payload = payload(r, n);
    if (masked) { mask(r, a); mask(r, b); s.masked += 2; }
    s.frames.push_back(a); s.frames.push_back(b); s.messages.push_back(a.payload + b.payload); ++s.fragmented;
    ws::Server srv;
    if (!srv.handshake()) return;
    srv.ep.events.clear();
    std::string w = wire(r, s, true);
    feed(r, srv.io, srv.raw, w);
    judge_legal(r, s, srv.ep.events, true);
    vmon::count("lengths");
  }

  // frames of 16 MiB and more, whose length needs a fourth byte, whole and in two fragments
  void huge(Rng& r)
  {
    Script s;
    std::size_t n = (std::size_t(1) << 24) + r.below(70000);
    bool masked = vmon::st().index & 1;
    Frame a, b, c; a.opcode = 2; a.payload = std::string(n, static_cast<char>(r.next())); a.payload.back() = 'e';
    b.opcode = 1; b.fin = false; b.payload = r.bytes(70000); c.opcode = 0; c.payload = r.bytes(5);
    if (masked) { mask(r, a); mask(r, b); mask(r, c); s.masked += 3; }
    s.frames = {a, b, c}; s.messages = {a.payload, b.payload + c.payload}; ++s.fragmented;
    s.shape = std::to_string(n) + (masked ? "m " : " ");
    ws::Server srv;
    if (!srv.handshake()) return;
    srv.ep.events.clear();
    srv.raw.out = wire(r, s, true);
    for (int idle = 0; idle < 3;)
    { std::size_t moved = srv.raw.transmit() + ws::pump(srv.io) + srv.raw.receive(); idle = moved ? 0 : idle + 1; }
    judge_legal(r, s, srv.ep.events, true);
    vmon::count("huge frames");
  }

  // every split of a short stream into two writes
  void every_split(Rng& r)
  {
    Script s;
    auto add = [&](unsigned op, bool fin, std::string p, bool m)
    { Frame f; f.opcode = op; f.fin = fin; f.payload = std::move(p); if (m) { mask(r, f); ++s.masked; } s.frames.push_back(f); };
    add(1, false, "Hello, ", true); add(9, true, "ping", true); add(0, true, "world", true);
    add(2, true, std::string(130, 'x'), true); add(10, true, "", false); add(2, true, "", true); add(1, true, "end", false);
    s.messages = {"Hello, world", std::string(130, 'x'), "", "end"};
    s.shape = "split " + std::to_string(vmon::st().index); s.controls = 2; s.fragmented = 1;
    ws::Server srv;
    if (!srv.handshake()) return;
    srv.ep.events.clear();
    std::string w = wire(r, s, true);
    std::size_t cut = vmon::st().index % (w.size() + 1);
    srv.raw.out = w.substr(0, cut); srv.raw.transmit(); ws::pump(srv.io);
    srv.raw.out = w.substr(cut); srv.raw.transmit(); ws::pump(srv.io); srv.raw.receive(); ws::pump(srv.io);
    judge_legal(r, s, srv.ep.events, true);
  }
#else
  // ---- hostile

  struct Model // of the bytes that have a defined meaning
  {
    std::vector<std::string> messages;
    char end = 'E'; // the end of the input is an error unless something ended it before
    bool undefined = false; // the stream does something RFC 6455 forbids and the reader may treat as it likes
    std::size_t fins = 0;
  };

  Model model(std::string const& w)
  {
    Model m;
    std::string cur;
    bool open = false;
    std::size_t at = 0;
    while (at + 2 <= w.size())
    {
      unsigned b0 = static_cast<unsigned char>(w[at]), op = b0 & 15;
      bool fin = b0 & 0x80;
      bool reserved = (op >= 3 && op <= 7) || op >= 11;
      // a reserved opcode may be reported from the header or after its payload
      Frame f; std::size_t used = 0;
      bool whole = ref::decode(std::string_view(w).substr(at), f, used);
      unsigned l7 = static_cast<unsigned char>(w[at + 1]) & 0x7f;
      if ((b0 >> 4) & 7) m.undefined = true;
      if ((op == 9 || op == 10) && fin && l7 > 125)
      { // too long for a ping or pong: bad input as soon as its header is complete
        std::size_t const k = l7 == 126 ? 2 : 8, mask = w[at + 1] & 0x80 ? 4 : 0;
        if (at + 2 + k + mask > w.size()) return m;
        std::uint64_t n = 0;
        for (std::size_t i = 0; i < k; ++i) n = n << 8 | static_cast<unsigned char>(w[at + 2 + i]);
        if (n > 125) { m.end = 'B'; return m; }
      }
      if (op >= 8 && (!fin || l7 > 125)) m.undefined = true;
      if (op == 0 && !open) m.undefined = true;
      if ((op == 1 || op == 2) && open) m.undefined = true;
      if (op <= 2 && fin && whole) ++m.fins;
      if (whole && f.length_form != (f.payload.size() < 126 ? 0 : f.payload.size() < 65536 ? 2 : 8)) m.undefined = true;
      if (!whole)
      {
        if (reserved) { m.end = '?'; } // bad input or, when the header is cut, an error
        return m;
      }
      if (reserved) { m.end = 'B'; return m; }
      if (op == 8) { m.end = 'C'; return m; }
      if (op <= 2)
      {
        cur += f.payload; open = true;
        if (fin) { m.messages.push_back(cur); cur.clear(); open = false; }
      }
      at += used;
    }
    return m;
  }

  std::string hostile(Rng& r)
  {
    std::string w;
    auto header = [&](unsigned op, bool fin, bool m, unsigned form, std::uint64_t n)
    {
      std::string h;
      h += static_cast<char>((fin ? 0x80 : 0) | op);
      h += static_cast<char>((m ? 0x80 : 0) | form);
      int k = form == 126 ? 2 : form == 127 ? 8 : 0;
      for (int i = k - 1; i >= 0; --i) h += static_cast<char>(n >> (8 * i));
      return h;
    };
    switch (r.below(10))
    {
      case 9:
      { // one ping or pong which is a little too long, its length in the shortest form
        Script s = legal(r); std::size_t at = r.below(s.frames.size() + 1);
        Frame f; f.opcode = r.coin() ? 9 : 10; f.payload = payload(r, r.chance(2, 3) ? 126 + r.below(3) : 126 + r.below(400));
        if (r.coin()) mask(r, f);
        s.frames.insert(s.frames.begin() + static_cast<long>(at), f);
        for (auto& x : s.frames) w += ref::encode(x);
        vmon::count("long_pings");
        break;
      }
      case 0: w = r.bytes(r.below(60)); break;
      case 1: { Script s = legal(r); for (auto& f : s.frames) w += ref::encode(f); w.resize(r.below(w.size() + 1)); break; }
      case 2: case 3:
      { // mutated
        Script s = legal(r); for (auto& f : s.frames) w += ref::encode(f);
        if (w.size() > 4000) w.resize(4000);
        for (std::size_t k = 1 + r.below(4); k > 0 && !w.empty(); --k)
          switch (r.below(4))
          {
            case 0: w[r.below(w.size())] = static_cast<char>(r.next()); break;
            case 1: w.erase(r.below(w.size()), 1 + r.below(5)); break;
            case 2: w.insert(r.below(w.size()), r.bytes(1 + r.below(5))); break;
            default: w[r.below(std::min<std::size_t>(w.size(), 14))] ^= static_cast<char>(1u << r.below(8));
          }
        break;
      }
      case 4:
      { // a reserved opcode somewhere
        Script s = legal(r); std::size_t at = r.below(s.frames.size() + 1);
        Frame f; f.opcode = r.pick({3u, 4u, 5u, 6u, 7u, 11u, 12u, 13u, 14u, 15u}); f.payload = payload(r, r.below(30));
        if (r.coin()) mask(r, f);
        s.frames.insert(s.frames.begin() + static_cast<long>(at), f);
        for (auto& x : s.frames) w += ref::encode(x);
        break;
      }
      case 5: case 6:
      { // huge declared lengths with few bytes behind them
        if (r.coin()) { Script s = legal(r, false); for (auto& f : s.frames) w += ref::encode(f); if (w.size() > 3000) w.clear(); }
        std::uint64_t n = r.chance(1, 3) ? 1ULL << (17 + r.below(47)) : r.pick({0x7fffffffULL, 0x80000000ULL, 0xffffffffULL, 0x100000000ULL, 0x100000003ULL, 0x1000000000ULL,
          0x7fffffffffffffffULL, 0x8000000000000000ULL, 0xffffffffffffffffULL, 0xffffffff00000005ULL, 0x20000000ULL, 0x00ff000000000000ULL, 0x10000000ULL});
        w += header(r.pick({0u, 1u, 2u, 8u, 9u, 10u}), r.coin(), r.coin(), 127, n) + r.bytes(r.below(40));
        break;
      }
      case 7: // non shortest forms, oversized control frames
        for (std::size_t k = 1 + r.below(4); k > 0; --k)
        {
          Frame f; f.opcode = r.pick({0u, 1u, 2u, 8u, 9u, 10u}); f.fin = r.chance(3, 4); f.rsv = r.chance(1, 5) ? static_cast<unsigned>(r.below(8)) : 0;
          f.payload = payload(r, r.below(300)); f.length_form = f.payload.size() < 126 && r.coin() ? 0 : r.coin() ? 2 : 8;
          if (r.coin()) mask(r, f);
          w += ref::encode(f);
        }
        break;
      default: // header bytes from a small set, many frames
        for (std::size_t k = r.below(30); k > 0; --k) w += static_cast<char>(r.pick({0x00, 0x80, 0x81, 0x82, 0x88, 0x89, 0x8a, 0x01, 0x05, 0x7e, 0xfe, 0xff, 0x7f, 0x03}));
    }
    return w;
  }

  template <typename Feed>
  void judge_hostile(std::string const& w, std::vector<ws::Event> const& events, Feed)
  {
    Model m = model(w);
    auto got = only(events, 'M');
    vmon::check(terminals(events) == 1, "one-end", std::to_string(terminals(events)) + " terminal events: " + ws::show(events)
      + " for " + vmon::show(w, 60));
    if (!m.undefined)
    {
      std::string d = ws::compare(got, m.messages);
      vmon::check(d.empty(), "messages", d + " for " + vmon::show(w, 60));
      if (terminals(events) == 1)
      {
        char end = '?';
        for (auto& e : events) if (e.kind == 'C' || e.kind == 'B' || e.kind == 'E') end = e.kind;
        // an endpoint whose peer is gone may see its own close reply fail
        bool ok = m.end == '?' ? end == 'B' || end == 'E' : end == m.end;
        vmon::check(ok, "end-kind", std::string("ended with ") + end + " instead of " + m.end + " for " + vmon::show(w, 60));
      }
      vmon::count("defined_streams");
    }
    else
    {
      vmon::check(got.size() <= m.fins, "invented-message", std::to_string(got.size()) + " messages from "
        + std::to_string(m.fins) + " final frames: " + vmon::show(w, 60));
      vmon::count("undefined_streams");
    }
    // the receive path may over-allocate geometrically, never from a declared length
    std::size_t bound = 4 * w.size() + 300000;
    vmon::check(biggest <= bound, "allocation", "an allocation of " + std::to_string(biggest) + " bytes for "
      + std::to_string(w.size()) + " bytes received: " + vmon::show(w, 60));
    vmon::count_max("max_allocation", biggest);
    vmon::count(std::string("ended_") + m.end); vmon::count("bytes", w.size());
    vmon::distinct(w);
    vmon::sample(vmon::show(w, 60) + " -> " + ws::show(events).substr(0, 100));
  }

  void endpoint_hostile(Rng& r)
  {
    std::string w = hostile(r);
    ws::Server srv;
    if (!srv.handshake()) return;
    srv.ep.events.clear();
    biggest = 0;
    feed(r, srv.io, srv.raw, w);
    srv.raw.shutdown_write();
    for (int i = 0; i < 3; ++i) { ws::pump(srv.io); srv.raw.receive(); }
    judge_hostile(w, srv.ep.events, 0);
  }

  void reader_hostile(Rng& r)
  {
    std::string w = hostile(r);
    Bare b;
    b.with([&]
    {
      biggest = 0;
      feed(r, b.io, b.raw, w);
      b.raw.shutdown_write();
      ws::pump(b.io);
      judge_hostile(w, b.events, 0);
    });
  }

  // one well formed stream cut at every byte
  void every_cut(Rng& r)
  {
    std::string w;
    auto add = [&](unsigned op, bool fin, std::string p, bool m)
    { Frame f; f.opcode = op; f.fin = fin; f.payload = std::move(p); if (m) mask(r, f); w += ref::encode(f); };
    add(1, false, "ab", true); add(9, true, "pp", true); add(0, true, "cd", false); add(2, true, std::string(127, 'x'), true);
    add(2, true, std::string(66000, 'y'), false); add(8, true, "\x03\xe8", true);
    std::size_t cut = vmon::st().index < 180 ? vmon::st().index : r.below(w.size() + 1);
    w.resize(std::min(cut, w.size()));
    ws::Server srv;
    if (!srv.handshake()) return;
    srv.ep.events.clear();
    biggest = 0;
    feed(r, srv.io, srv.raw, w);
    srv.raw.shutdown_write();
    for (int i = 0; i < 3; ++i) { ws::pump(srv.io); srv.raw.receive(); }
    judge_hostile(w, srv.ep.events, 0);
  }

  // the connection is torn down with data in both directions
  void reset(Rng& r)
  {
    Script s = legal(r);
    std::string w;
    for (auto& f : s.frames) w += ref::encode(f);
    w.resize(r.below(w.size() + 1));
    ws::Server srv;
    if (!srv.handshake()) return;
    srv.ep.events.clear();
    for (std::size_t i = r.below(3); i > 0; --i) srv.ep.send(payload(r, r.below(40000)));
    feed(r, srv.io, srv.raw, w);
    srv.raw.close();
    for (int i = 0; i < 3; ++i) ws::pump(srv.io);
    auto got = only(srv.ep.events, 'M');
    vmon::check(terminals(srv.ep.events) >= 1, "reset-silent", "no terminal event: " + ws::show(srv.ep.events));
    Model m = model(w);
    std::string d = ws::compare(got, m.messages);
    vmon::check(d.empty(), "reset-messages", d);
    vmon::count("resets"); vmon::distinct(w);
  }
#endif
}
#ifdef PART_HOSTILE
VMON_MODE("endpoint-hostile", endpoint_hostile, "defined_streams", "undefined_streams", "ended_B", "ended_C", "ended_E")
VMON_MODE("reader-hostile", reader_hostile, "defined_streams", "undefined_streams", "ended_B", "ended_C", "ended_E")
VMON_MODE("every-cut", every_cut, "defined_streams", "ended_E")
VMON_MODE("reset", reset, "resets")
#else
VMON_MODE("endpoint-legal", endpoint_legal, "messages", "control_frames", "fragmented_messages", "masked_frames")
VMON_MODE("reader-legal", reader_legal, "messages", "control_frames", "fragmented_messages", "masked_frames")
VMON_MODE("every-length", every_length, "lengths")
VMON_MODE("every-split", every_split, "messages")
#ifndef VMON_THREADS
VMON_MODE("huge", huge, "huge frames")
#endif
#endif
VMON_MAIN
