// C01: what an endpoint (and the sender under it) puts on the wire.
// Oracle: an independent RFC 6455 decoder at the raw end of the connection.
#include "ws_common.hpp"
#include <nbdl/websocket/detail/message_sender.hpp>

using vmon::Rng;

namespace
{
  std::string payload(Rng& r, std::size_t n)
  { return r.chance(1, 4) ? std::string(n, static_cast<char>(r.next())) : r.bytes(n); }

  void endpoint_stream(Rng& r)
  {
    bool small = r.coin();
    ws::Server s(small, false);
    std::vector<std::string> sent;
    auto send = [&] { sent.push_back(payload(r, ws::message_size(r, 20000))); s.ep.send(sent.back()); };
    if (!s.handshake()) return;
    std::size_t early = r.below(4), late = r.below(8), nested = r.below(3);
    for (std::size_t i = 0; i < early; ++i) send();
    s.ep.start();
    std::size_t slack = 0;
    for (std::size_t i = 0; i < late; ++i)
    {
      if (r.coin()) send();
      if (r.coin()) ws::pump(s.io, 1 + r.below(5));
      if (r.coin()) s.raw.receive(1 + r.below(small ? 2000 : 100));
      if (nested && r.chance(1, 3))
      { // a send from inside a message handler, and a message coming in meanwhile
        --nested;
        s.ep.on_event = [&](ws::Event const& e) { if (e.kind == 'M') send(); };
        ref::Frame f; f.opcode = 2; f.payload = "x";
        s.raw.out += ref::encode(f);
        s.raw.transmit();
        ws::pump(s.io, 1);
      }
    }
    bool close = r.chance(1, 3);
    if (close) { if (r.coin()) { for (int i = 0; i < 200; ++i) { ws::pump(s.io); s.raw.receive(); } } s.ep.send_close(); ++slack; }
    // drain until nothing moves
    for (int idle = 0; idle < 3;)
    {
      std::size_t moved = ws::pump(s.io) + s.raw.receive(small ? 1 + r.below(3000) : ~std::size_t(0));
      idle = moved ? 0 : idle + 1;
    }
    auto got = ws::read_stream(s.raw.in, 2, 125);
    vmon::check(got.problem.empty(), "stream", got.problem);
    vmon::check(got.incomplete_bytes == 0 && !got.open_message, "unfinished"
      , std::to_string(got.incomplete_bytes) + " bytes of an incomplete frame" + (got.open_message ? ", a message without its final frame" : "")
        + " after everything was sent");
    if (close)
    {
      vmon::check(got.closes.size() == 1, "close-frames", std::to_string(got.closes.size()) + " close frames");
      if (got.messages.size() < sent.size()) sent.resize(got.messages.size()); // close may overtake queued messages
    }
    else vmon::check(got.closes.empty(), "close-frames", "a close frame nobody asked for");
    std::string d = ws::compare(got.messages, sent);
    vmon::check(d.empty(), "messages", d);
    vmon::check(got.pings.empty() && got.pongs.empty(), "control", "unrequested control frames");
    vmon::count("frames", got.frames); vmon::count("messages", got.messages.size());
    if (close) vmon::count("closed_streams");
    std::string sizes; for (auto& m : sent) sizes += std::to_string(m.size()) + " ";
    vmon::distinct(sizes + (small ? "s" : "l") + (close ? "c" : ""));
    vmon::sample((small ? "slow peer, sizes " : "sizes ") + sizes + (close ? "then close" : ""));
  }

  // one message of every size 0..1300 and around the multiples of the fragment size after it
  void every_size(Rng& r)
  {
    auto i = vmon::st().index;
    std::size_t n = i < 1300 ? i : 125 * (10 + (i - 1300) / 3) + (i % 3) - 1;
    ws::Server s;
    if (!s.handshake()) return;
    std::vector<std::string> sent{payload(r, n), "next"};
    for (auto& m : sent) s.ep.send(m);
    for (int idle = 0; idle < 3;) { std::size_t k = ws::pump(s.io) + s.raw.receive(); idle = k ? 0 : idle + 1; }
    auto got = ws::read_stream(s.raw.in, 2, 125);
    vmon::check(got.problem.empty(), "stream", "size " + std::to_string(n) + ": " + got.problem);
    std::string d = ws::compare(got.messages, sent);
    vmon::check(d.empty(), "messages", "size " + std::to_string(n) + ": " + d);
    vmon::distinct(n); vmon::count("sizes"); vmon::count("frames", got.frames);
  }

  // ---- the sender itself: other payload types, frame sizes, opcodes

  struct Outcome { int resolved = 0, rejected = 0;
    template <typename ...T> void resolve(T&&...) { ++resolved; }
    template <typename ...T> void reject(T&&...) { ++rejected; }
    void terminate() { } };

  template <typename Payload, std::size_t Max, bool text>
  void sender(Rng& r)
  {
    ws::asio::io_context io{1};
    ws::Raw raw;
    auto socket = ws::connect_raw(io, raw, r.coin());
    nbdl::websocket::detail::message_sender<Payload, ws::hana::size_t<Max>> snd(socket);
    std::vector<std::string> sent;
    std::size_t n = 1 + r.below(3);
    for (std::size_t i = 0; i < n; ++i)
    {
      std::size_t size;
      switch (r.below(6))
      {
        case 0: size = 0; break;
        case 1: size = Max; break;
        case 2: size = Max * (1 + r.below(Max > 1000 ? 2 : 5)); break;
        case 3: size = Max * (1 + r.below(Max > 1000 ? 2 : 5)) + r.below(3) - (Max > 1 ? 1 : 0); break;
        case 4: size = Max > 300 ? Max - r.below(300) : r.below(Max); break;
        default: size = r.below(500);
      }
      sent.push_back(payload(r, size));
      Outcome o;
      snd.data.payload = Payload(sent.back().begin(), sent.back().end());
      if constexpr (text) nbdl::websocket::detail::send_text(o, snd);
      else nbdl::websocket::detail::send_binary(o, snd);
      for (int idle = 0; idle < 3;) { std::size_t k = ws::pump(io, 1 + r.below(50)) + raw.receive(1 + r.below(5000)); idle = k ? 0 : idle + 1; }
      raw.receive();
      vmon::check(o.resolved == 1 && o.rejected == 0, "sender-outcome", "message of " + std::to_string(size) + " bytes, frame limit "
        + std::to_string(Max) + ": resolved " + std::to_string(o.resolved) + " times, rejected " + std::to_string(o.rejected));
      vmon::distinct(size * 1000003 + Max + text);
    }
    auto got = ws::read_stream(raw.in, text ? 1 : 2, Max);
    vmon::check(got.problem.empty(), "sender-stream", "frame limit " + std::to_string(Max) + ": " + got.problem);
    std::string d = ws::compare(got.messages, sent);
    vmon::check(d.empty(), "sender-messages", "frame limit " + std::to_string(Max) + ": " + d);
    vmon::count("sender_messages", sent.size()); vmon::count("sender_frames", got.frames);
    std::string sizes; for (auto& m : sent) sizes += std::to_string(m.size()) + " ";
    vmon::sample("frame limit " + std::to_string(Max) + ", sizes " + sizes);
  }

  using Vec = std::vector<unsigned char>;
  void sender_shapes(Rng& r)
  {
    switch (vmon::st().index % 7)
    {
      case 0: return sender<std::string, 1, true>(r);
      case 1: return sender<std::string, 125, true>(r);
      case 2: return sender<std::string, 126, false>(r);
      case 3: return sender<std::string, 65535, true>(r);
      case 4: return sender<std::string, 65536, false>(r);
      case 5: return sender<Vec, 125, true>(r);
      default: return sender<Vec, 70000, false>(r);
    }
  }

  // a frame whose length needs four bytes, and fragments of that size
  void huge(Rng& r)
  {
    constexpr std::size_t Max = (std::size_t(1) << 24) + 100;
    ws::asio::io_context io{1};
    ws::Raw raw;
    auto socket = ws::connect_raw(io, raw, false);
    nbdl::websocket::detail::message_sender<std::string, ws::hana::size_t<Max>> snd(socket);
    std::string sent(vmon::st().index % 2 ? Max + 1 + r.below(300) : Max - r.below(200), static_cast<char>(r.next()));
    sent.back() = 'e';
    Outcome o;
    snd.data.payload = sent;
    nbdl::websocket::detail::send_binary(o, snd);
    for (int idle = 0; idle < 3;) { std::size_t k = ws::pump(io) + raw.receive(); idle = k ? 0 : idle + 1; }
    vmon::check(o.resolved == 1 && o.rejected == 0, "sender-outcome", "message of " + std::to_string(sent.size()) + " bytes");
    auto got = ws::read_stream(raw.in, 2, Max);
    vmon::check(got.problem.empty(), "sender-stream", "huge frame: " + got.problem);
    std::string d = ws::compare(got.messages, {sent});
    vmon::check(d.empty(), "sender-messages", "huge frame: " + d);
    vmon::distinct(sent.size()); vmon::count("huge frames", got.frames);
  }

  // the writer's far end vanishes: exactly one rejection, nothing else
  void sender_fails(Rng& r)
  {
    ws::asio::io_context io{1};
    ws::Raw raw;
    auto socket = ws::connect_raw(io, raw, true);
    ::signal(SIGPIPE, SIG_IGN);
    nbdl::websocket::detail::message_sender<std::string> snd(socket);
    snd.data.payload = payload(r, 30000 + r.below(100000));
    Outcome o;
    nbdl::websocket::detail::send_text(o, snd);
    for (std::size_t k = r.below(6); k > 0; --k) { ws::pump(io, 1 + r.below(200)); raw.receive(1 + r.below(3000)); }
    raw.close();
    for (int i = 0; i < 5; ++i) ws::pump(io);
    vmon::check(o.resolved == 0 && o.rejected == 1, "sender-failure", "resolved " + std::to_string(o.resolved) + ", rejected " + std::to_string(o.rejected));
    vmon::distinct(snd.data.payload.size()); vmon::count("failed_sends", static_cast<std::uint64_t>(o.rejected));
  }
}
#ifdef PART_SENDER
VMON_MODE("sender-shapes", sender_shapes, "sender_messages", "sender_frames")
VMON_MODE("huge", huge, "huge frames")
VMON_MODE("sender-fails", sender_fails, "failed_sends")
#else
VMON_MODE("endpoint-stream", endpoint_stream, "frames", "messages", "closed_streams")
VMON_MODE("every-size", every_size, "sizes", "frames")
#endif
VMON_MAIN
