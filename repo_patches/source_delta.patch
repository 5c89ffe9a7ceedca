From 98558dad6c5dfb87eca3eede2959f4094bd2d2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:25 +0000
Subject: [PATCH 01/55] fix: base64_encode sign-extended bytes above 127 of
 character containers

---
 include/nbdl/util/base64_encode.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/nbdl/util/base64_encode.hpp b/include/nbdl/util/base64_encode.hpp
index 3ac2568..15d2a42 100644
--- a/include/nbdl/util/base64_encode.hpp
+++ b/include/nbdl/util/base64_encode.hpp
@@ -61,9 +61,9 @@ namespace nbdl::util
       for (int i = 0; i < round_length; i += 3)
       {
         uint32_t const fragment =
-            buffer[i    ] << 24
-          | buffer[i + 1] << 16
-          | buffer[i + 2] << 8
+            static_cast<uint32_t>(static_cast<unsigned char>(buffer[i    ])) << 24
+          | static_cast<uint32_t>(static_cast<unsigned char>(buffer[i + 1])) << 16
+          | static_cast<uint32_t>(static_cast<unsigned char>(buffer[i + 2])) << 8
           ;
         base64_detail::encode_fragment(output_itr, fragment, 3);
       }
@@ -71,7 +71,7 @@ namespace nbdl::util
       uint32_t extras = 0;
       for (int i = 0; i < extra_length; i++)
       {
-        extras |= buffer[round_length + i] << (8 * (3 - i));
+        extras |= static_cast<uint32_t>(static_cast<unsigned char>(buffer[round_length + i])) << (8 * (3 - i));
       }
       base64_detail::encode_fragment(output_itr, extras, extra_length);
 
-- 
2.43.0


From effd270b58adb70f4fc6934cb81a17f3c1e05477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:25 +0000
Subject: [PATCH 02/55] fix: base64_decode accepted invalid text whose decoded
 length is zero

---
 include/nbdl/util/base64_decode.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nbdl/util/base64_decode.hpp b/include/nbdl/util/base64_decode.hpp
index 5e39a08..ebaf712 100644
--- a/include/nbdl/util/base64_decode.hpp
+++ b/include/nbdl/util/base64_decode.hpp
@@ -168,9 +168,9 @@ namespace nbdl::util
       using base64_detail::validate;
       using base64_detail::decode;
 
+      if (not validate(input)) return false;
       if (not prepare_output_buffer(output, target_decoded_length(input))) return false;
       if (output.size() == 0) return true;
-      if (not validate(input)) return false;
 
       return decode(std::forward<Input>(input), output);
     }
-- 
2.43.0


From 32acc346a4c3fec50cd865d57f69bd7de81d08bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:25 +0000
Subject: [PATCH 03/55] fix: get_auth_token read past the end of the cookies
 and skipped an empty token

---
 .../nbdl/websocket/detail/get_auth_token.hpp  | 43 ++++++++-----------
 1 file changed, 17 insertions(+), 26 deletions(-)

diff --git a/include/nbdl/websocket/detail/get_auth_token.hpp b/include/nbdl/websocket/detail/get_auth_token.hpp
index 226eb04..62afc4e 100644
--- a/include/nbdl/websocket/detail/get_auth_token.hpp
+++ b/include/nbdl/websocket/detail/get_auth_token.hpp
@@ -10,7 +10,9 @@
 #include <nbdl/auth_token.hpp>
 #include <nbdl/endpoint_handler.hpp>
 
+#include <algorithm>
 #include <iterator>
+#include <string>
 #include <string_view>
 
 namespace nbdl::websocket::detail
@@ -18,23 +20,15 @@ namespace nbdl::websocket::detail
   using std::string_view;
   using namespace std::string_view_literals;
 
+  constexpr string_view nbdl_auth_sv = "nbdl_auth="sv;
+
   template <typename Iter>
-  inline Iter check_auth_cookie(Iter begin, Iter end)
+  inline bool is_auth_cookie(Iter begin, Iter end)
   {
-    constexpr string_view nbdl_auth_sv = "nbdl_auth="sv;
     constexpr long length = nbdl_auth_sv.size();
 
-    if (
-          std::distance(begin, end) >= length
-      &&  std::equal(nbdl_auth_sv.begin(), nbdl_auth_sv.end(), begin)
-      )
-    {
-      return std::next(begin, length);
-    }
-    else
-    {
-      return std::find(begin, end, ';');
-    }
+    return std::distance(begin, end) >= length
+        && std::equal(nbdl_auth_sv.begin(), nbdl_auth_sv.end(), begin);
   }
 
   template <typename Iter>
@@ -55,22 +49,19 @@ namespace nbdl::websocket::detail
 
     while (current != end)
     {
-      current = check_auth_cookie(current, cookies.end());
-      if (*current == ';')
+      // the space after a semicolon
+      current = std::find_if(current, end, [](char c) { return c != ' ' && c != '\t'; });
+
+      if (is_auth_cookie(current, end))
       {
-        if (std::distance(current, end) > 2)
-        {
-          // go past semicolon and space
-          std::advance(current, 2);
-        }
-        else
-        {
-          return auth_token_t{};
-        }
+        return take_cookie_value(std::next(current, nbdl_auth_sv.size()), end);
       }
-      else
+
+      current = std::find(current, end, ';');
+      if (current != end)
       {
-        return take_cookie_value(current, end);
+        // go past semicolon
+        ++current;
       }
     }
 
-- 
2.43.0


From 3db73c1090beec20c428d95d06c036e9c3444ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:48 +0000
Subject: [PATCH 04/55] fix: message_sender never finished messages whose size
 is a multiple of the frame size

The last fragment did not get the FIN bit, so the message was never
delivered or was merged with the next one. Also do not dereference or
advance past the end of the payload.
---
 include/nbdl/websocket/detail/message_sender.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/nbdl/websocket/detail/message_sender.hpp b/include/nbdl/websocket/detail/message_sender.hpp
index c1a47b3..995ee7a 100644
--- a/include/nbdl/websocket/detail/message_sender.hpp
+++ b/include/nbdl/websocket/detail/message_sender.hpp
@@ -138,17 +138,19 @@ namespace nbdl::websocket::detail
   void message_sender<Payload, MaxFrameSize>::
   send_message_impl(Resolver& resolver, PayloadBegin begin, PayloadEnd end)
   {
-    auto frag_end = std::next(begin, MaxFrameSize::value);
+    std::size_t const remaining = std::distance(begin, end);
+    std::size_t const length = std::min(remaining, max_frame_size);
+    auto frag_end = std::next(begin, length);
 
-    if (frag_end > end)
+    if (length == remaining)
     {
-      frag_end = end;
+      // includes payloads that fill the last frame completely
       data.apply_fin_bit();
     }
 
-    auto frame_payload_buffer = asio::buffer(
-      static_cast<void const*>(&(*begin))
-    , std::distance(begin, frag_end)
+    auto frame_payload_buffer = asio::const_buffer(
+      length == 0 ? nullptr : static_cast<void const*>(&(*begin))
+    , length
     );
 
     send_frame_impl(
-- 
2.43.0


From 2df6f7e95c4a5173f86b383325578a871d11c2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:41 +0000
Subject: [PATCH 05/55] fix: message_reader unmasked the wrong bytes and
 mishandled payload lengths

Later fragments of a masked message were unmasked over the first one.
64 bit lengths were shifted as int and truncated to int, and a frame could
claim any length to have the payload resized to it.
---
 .../nbdl/websocket/detail/message_reader.hpp  | 67 ++++++++-----------
 1 file changed, 27 insertions(+), 40 deletions(-)

diff --git a/include/nbdl/websocket/detail/message_reader.hpp b/include/nbdl/websocket/detail/message_reader.hpp
index 03a3c3d..809c61d 100644
--- a/include/nbdl/websocket/detail/message_reader.hpp
+++ b/include/nbdl/websocket/detail/message_reader.hpp
@@ -145,7 +145,7 @@ namespace nbdl::websocket::detail
       // 16 bit
       for (int i = 0; i < 2; i++)
       {
-        length |= (x.extended_length_buf[1 - i] << (8 * i));
+        length |= (static_cast<uint64_t>(x.extended_length_buf[1 - i]) << (8 * i));
       }
     }
     else if(length_code == 127)
@@ -153,7 +153,7 @@ namespace nbdl::websocket::detail
       // 64 bit
       for (int i = 0; i < 8; i++)
       {
-        length |= (x.extended_length_buf[7 - i] << (8 * i));
+        length |= (static_cast<uint64_t>(x.extended_length_buf[7 - i]) << (8 * i));
       }
     }
     else
@@ -163,19 +163,19 @@ namespace nbdl::websocket::detail
     return length;
   }
 
-  constexpr auto read_payload = [](auto& resolver, auto& frame_ctx)
+  // Appends the payload of the current frame to a possibly
+  // existing payload. The payload grows with the data that is
+  // actually received, whatever length the frame claims to have.
+  constexpr auto append_payload = [](auto& resolver, auto& frame_ctx, auto& payload, auto on_success)
   {
-    const int length = get_payload_length(frame_ctx);
-    // we are appending a fixed length of bytes
-    // to a possibly existing payload
-    auto& payload = frame_ctx.payload;
-    std::size_t current_offset = payload.size();
-    payload.resize(payload.size() + length);
+    std::size_t const current_offset = payload.size();
 
     asio::async_read(
       frame_ctx.socket
-    , asio::buffer(&payload[current_offset], length)
-    , [&resolver, &payload, &frame_ctx, length](std::error_code error_code, std::size_t)
+    , asio::dynamic_buffer(payload)
+    , asio::transfer_exactly(get_payload_length(frame_ctx))
+    , [&resolver, &payload, &frame_ctx, current_offset, on_success]
+      (std::error_code error_code, std::size_t length)
       {
         if (error_code)
         {
@@ -185,48 +185,35 @@ namespace nbdl::websocket::detail
         {
           if (has_mask_key(frame_ctx))
           {
-            for (int i = 0; i < length; i++)
+            for (std::size_t i = 0; i < length; i++)
             {
-              payload[i] ^= frame_ctx.mask_key[i % 4];
+              payload[current_offset + i] ^= frame_ctx.mask_key[i % 4];
             }
           }
-          resolver.resolve(read_event::message);
+          on_success(resolver);
         }
       }
     );
   };
 
+  constexpr auto read_payload = [](auto& resolver, auto& frame_ctx)
+  {
+    append_payload(resolver, frame_ctx, frame_ctx.payload, [](auto& resolver)
+    {
+      resolver.resolve(read_event::message);
+    });
+  };
+
   // control frame 'close' can have a payload of <= 127 bytes
   constexpr auto read_close_payload = [](auto& resolver, auto& frame_ctx)
   {
-    const int length = get_payload_length(frame_ctx);
-
     // destroy the existing payload
-    auto& payload = frame_ctx.payload;
-    payload.resize(length, 0);
+    frame_ctx.payload.clear();
 
-    asio::async_read(
-      frame_ctx.socket
-    , asio::buffer(payload)
-    , [&resolver, &payload, &frame_ctx, length](std::error_code error_code, std::size_t)
-      {
-        if (error_code)
-        {
-          resolver.reject(error_code);
-        }
-        else
-        {
-          if (has_mask_key(frame_ctx))
-          {
-            for (int i = 0; i < length; i++)
-            {
-              payload[i] ^= frame_ctx.mask_key[i % 4];
-            }
-          }
-          resolver.reject(read_event::close);
-        }
-      }
-    );
+    append_payload(resolver, frame_ctx, frame_ctx.payload, [](auto& resolver)
+    {
+      resolver.reject(read_event::close);
+    });
   };
 
   // This kind of dispatching can be done only because
-- 
2.43.0


From 34ca1d03eda06f070246ed67bb49650aa251246e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:47 +0000
Subject: [PATCH 06/55] fix: message_reader left the payload of ping and pong
 frames in the stream

---
 .../nbdl/websocket/detail/message_reader.hpp  | 24 +++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/include/nbdl/websocket/detail/message_reader.hpp b/include/nbdl/websocket/detail/message_reader.hpp
index 809c61d..cc75f98 100644
--- a/include/nbdl/websocket/detail/message_reader.hpp
+++ b/include/nbdl/websocket/detail/message_reader.hpp
@@ -59,6 +59,9 @@ namespace nbdl::websocket::detail
     std::array<unsigned char, 8> extended_length_buf;
     std::array<unsigned char, 4> mask_key;
     Payload payload;
+    // control frames can be interleaved with the
+    // fragments of a message
+    Payload control_payload;
 
     frame_context_t(tcp::socket& s)
       : socket (s)
@@ -216,6 +219,23 @@ namespace nbdl::websocket::detail
     });
   };
 
+  // control frames 'ping' and 'pong' can have a payload of <= 125 bytes
+  constexpr auto read_control_payload = [](auto& resolver, auto& frame_ctx, auto event_type)
+  {
+    if (get_payload_length(frame_ctx) > 125)
+    {
+      resolver.reject(read_event::bad_input);
+      return;
+    }
+
+    frame_ctx.control_payload.clear();
+
+    append_payload(resolver, frame_ctx, frame_ctx.control_payload, [event_type](auto& resolver)
+    {
+      resolver.resolve(event_type);
+    });
+  };
+
   // This kind of dispatching can be done only because
   // all of the branches are stateless.
   auto opcode_dispatch = nbdl::promise([](auto& resolver, auto& frame_ctx)
@@ -231,10 +251,10 @@ namespace nbdl::websocket::detail
         read_close_payload(resolver, frame_ctx);
         break;
       case 0x9: // PING
-        resolver.resolve(read_event::ping);
+        read_control_payload(resolver, frame_ctx, read_event::ping);
         break;
       case 0xA: // PONG
-        resolver.resolve(read_event::pong);
+        read_control_payload(resolver, frame_ctx, read_event::pong);
         break;
       default:
         resolver.reject(read_event::bad_input);
-- 
2.43.0


From 57f0d0f6e1eb03829049a6ce06432e0cb75df2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:53 +0000
Subject: [PATCH 07/55] fix: endpoint freed itself while writing a close frame,
 reported close twice and never sent pongs

---
 .../nbdl/websocket/detail/endpoint_impl.hpp   | 122 +++++++++++++-----
 1 file changed, 89 insertions(+), 33 deletions(-)

diff --git a/include/nbdl/websocket/detail/endpoint_impl.hpp b/include/nbdl/websocket/detail/endpoint_impl.hpp
index 822a0e0..78575d7 100644
--- a/include/nbdl/websocket/detail/endpoint_impl.hpp
+++ b/include/nbdl/websocket/detail/endpoint_impl.hpp
@@ -49,6 +49,17 @@ namespace nbdl::websocket::detail
       return kind == control_frame_kind::CLOSE;
     }
 
+    bool is_pong()
+    {
+      return kind == control_frame_kind::PONG;
+    }
+
+    Payload take_payload()
+    {
+      kind = control_frame_kind::NONE;
+      return std::move(payload);
+    }
+
     template <typename X>
     void to_close(X&& x)
     {
@@ -105,6 +116,7 @@ namespace nbdl::websocket::detail
       , is_started(false)
       , is_stopped(false)
       , is_close_received(false)
+      , is_close_reported(false)
     {
       init(self(), socket, handler);
     }
@@ -118,8 +130,11 @@ namespace nbdl::websocket::detail
 
   private:
     void start_send_queue();
+    template <typename Resolver>
+    void send_control_frames(Resolver&);
     bool is_sending_close();
     void mark_is_close_received();
+    void report_close();
     auto make_reader_handler(Handler&);
 
     template <typename Key, typename ...Args>
@@ -141,6 +156,7 @@ namespace nbdl::websocket::detail
     bool is_started : 1;
     bool is_stopped : 1;
     bool is_close_received : 1;
+    bool is_close_reported : 1;
   };
 
   template <typename Queue, typename Handler, typename SendMessageImpl, typename Derived>
@@ -182,7 +198,7 @@ namespace nbdl::websocket::detail
 
       reader.keep_reading(this->shared_from_this());
 
-      if (send_queue.size() > 0)
+      if (send_queue.size() > 0 || is_sending_close())
       {
         start_send_queue();
       }
@@ -207,35 +223,7 @@ namespace nbdl::websocket::detail
       nbdl::promise([this, shared_this](auto& resolver)
       {
         (void(this));
-        if (is_sending_close())
-        {
-          sender.data.payload = pending_control_frame.payload;
-          nbdl::run_async(hana::make_tuple(
-            nbdl::promise([&](auto& resolver_)
-            {
-              detail::send_close(resolver_, sender);
-              // keep is_send_queue_running == true to prevent more messages
-              // after sending the close frame
-              resolver.terminate();
-            })
-          , [&](auto& /*sender*/)
-            {
-              if (is_close_received)
-              {
-                call_handler(endpoint_event::close);
-              }
-            }
-          , nbdl::catch_([&](std::error_code error_code)
-            {
-              resolver.reject(error_code);
-            })
-          ));
-        }
-        else
-        {
-          // keep sending
-          resolver.resolve();
-        }
+        send_control_frames(resolver);
       })
     , nbdl::promise([this](auto& resolver)
       {
@@ -270,7 +258,7 @@ namespace nbdl::websocket::detail
            )
         {
           //expected socket close
-          call_handler(endpoint_event::close);
+          report_close();
         }
         else
         {
@@ -286,6 +274,63 @@ namespace nbdl::websocket::detail
     ));
   }
 
+  template <typename Queue, typename Handler, typename SendMessageImpl, typename Derived>
+  template <typename Resolver>
+  void endpoint_impl<Queue, Handler, SendMessageImpl, Derived>::send_control_frames(Resolver& resolver)
+  {
+    if (is_sending_close())
+    {
+      sender.data.payload = pending_control_frame.payload;
+      nbdl::run_async(hana::make_tuple(
+        nbdl::promise([this](auto& resolver_)
+        {
+          (void(this));
+          detail::send_close(resolver_, sender);
+        })
+      , [this, &resolver](auto& /*sender*/)
+        {
+          (void(this));
+          if (is_close_received)
+          {
+            report_close();
+          }
+          // keep is_send_queue_running == true to prevent more messages
+          // after sending the close frame
+          resolver.terminate();
+        }
+      , nbdl::catch_([&resolver](std::error_code error_code)
+        {
+          resolver.reject(error_code);
+        })
+      ));
+    }
+    else if (pending_control_frame.is_pong())
+    {
+      sender.data.payload = pending_control_frame.take_payload();
+      nbdl::run_async(hana::make_tuple(
+        nbdl::promise([this](auto& resolver_)
+        {
+          (void(this));
+          detail::send_pong(resolver_, sender);
+        })
+      , [this, &resolver](auto& /*sender*/)
+        {
+          (void(this));
+          send_control_frames(resolver);
+        }
+      , nbdl::catch_([&resolver](std::error_code error_code)
+        {
+          resolver.reject(error_code);
+        })
+      ));
+    }
+    else
+    {
+      // keep sending
+      resolver.resolve();
+    }
+  }
+
   template <typename Queue, typename Handler, typename SendMessageImpl, typename Derived>
   bool endpoint_impl<Queue, Handler, SendMessageImpl, Derived>::is_sending_close()
   {
@@ -298,6 +343,16 @@ namespace nbdl::websocket::detail
     is_close_received = true;
   }
 
+  template <typename Queue, typename Handler, typename SendMessageImpl, typename Derived>
+  void endpoint_impl<Queue, Handler, SendMessageImpl, Derived>::report_close()
+  {
+    if (not is_close_reported)
+    {
+      is_close_reported = true;
+      call_handler(endpoint_event::close);
+    }
+  }
+
   template <typename Queue, typename Handler, typename SendMessageImpl, typename Derived>
   auto endpoint_impl<Queue, Handler, SendMessageImpl, Derived>::make_reader_handler(Handler&)
   {
@@ -317,7 +372,7 @@ namespace nbdl::websocket::detail
 
         if (is_sending_close())
         {
-          call_handler(endpoint_event::close);
+          report_close();
         }
         else
         {
@@ -327,7 +382,8 @@ namespace nbdl::websocket::detail
     , hana::make_pair(read_event::ping, [this](auto, auto const& frame_ctx)
       {
         (void(this));
-        pending_control_frame.to_pong(std::move(frame_ctx.payload));
+        pending_control_frame.to_pong(frame_ctx.control_payload);
+        start_send_queue();
       })
     , hana::make_pair(read_event::pong, [](auto&& ...) { })
     , hana::make_pair(read_event::bad_input, [this](auto&& ...)
-- 
2.43.0


From c58bd26e2db9ec67c08cb82638edd43369183e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:54 +0000
Subject: [PATCH 08/55] fix: parse_header read past a line without a colon and
 kept the whitespace around values

---
 .../detail/parse_handshake_request.hpp        | 23 +++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/include/nbdl/websocket/detail/parse_handshake_request.hpp b/include/nbdl/websocket/detail/parse_handshake_request.hpp
index 55486fe..0035b22 100644
--- a/include/nbdl/websocket/detail/parse_handshake_request.hpp
+++ b/include/nbdl/websocket/detail/parse_handshake_request.hpp
@@ -36,22 +36,27 @@ namespace nbdl::websocket::detail
     const auto cookie_header = "cookies"sv;
     auto token_pos = std::find(header.begin(), header.end(), ':');
 
-    std::transform(header.begin(), token_pos, header.begin(), [](auto c) { return std::tolower(c); });
+    if (token_pos == header.end())
+    {
+      // not a header field
+      return;
+    }
+
+    std::transform(header.begin(), token_pos, header.begin(), [](unsigned char c) { return std::tolower(c); });
+
+    // the value without the optional whitespace around it
+    const auto is_not_space = [](auto c) { return c != ' ' && c != '\t'; };
+    auto value_begin = std::find_if(std::next(token_pos), header.end(), is_not_space);
+    auto value_end   = std::find_if(header.rbegin(), std::make_reverse_iterator(value_begin), is_not_space).base();
 
     // I'm not sure it is necessary to validate characters to see if headers are valid
     if (std::equal(header.begin(), token_pos, key_header.begin(), key_header.end()))
     {
-      handshake_info.websocket_key = std::string(
-        std::find_if(std::next(token_pos), header.end(), [](auto c) { return c != ' '; })
-      , header.end()
-      );
+      handshake_info.websocket_key = std::string(value_begin, value_end);
     }
     else if (std::equal(header.begin(), token_pos, cookie_header.begin(), cookie_header.end()))
     {
-      handshake_info.cookies = std::string(
-        std::find_if(std::next(token_pos), header.end(), [](auto c) { return c != ' '; })
-      , header.end()
-      );
+      handshake_info.cookies = std::string(value_begin, value_end);
     }
     // else do nothing
   };
-- 
2.43.0


From 4ac46115a1accb6df5c82c6caa06ffc15f1ca905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:54 +0000
Subject: [PATCH 09/55] fix: server handshake accepted upgrade requests without
 a key

---
 include/nbdl/websocket/detail/parse_handshake_request.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/nbdl/websocket/detail/parse_handshake_request.hpp b/include/nbdl/websocket/detail/parse_handshake_request.hpp
index 0035b22..3449f8f 100644
--- a/include/nbdl/websocket/detail/parse_handshake_request.hpp
+++ b/include/nbdl/websocket/detail/parse_handshake_request.hpp
@@ -90,6 +90,10 @@ namespace nbdl::websocket::detail
               parse_header(handshake_info, std::move(header));
               (*this)(resolver, socket);
             }
+            else if (handshake_info.websocket_key.empty())
+            {
+              resolver.reject(event::bad_request);
+            }
             else
             {
               resolver.resolve(socket, handshake_info);
-- 
2.43.0


From 9c25c29408681dc74e9af85cc58c9486c62032a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:11 +0000
Subject: [PATCH 10/55] fix: endpoint kept writing after a failed write and
 never let go of itself

---
 include/nbdl/websocket/detail/endpoint_impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nbdl/websocket/detail/endpoint_impl.hpp b/include/nbdl/websocket/detail/endpoint_impl.hpp
index 78575d7..842ddb2 100644
--- a/include/nbdl/websocket/detail/endpoint_impl.hpp
+++ b/include/nbdl/websocket/detail/endpoint_impl.hpp
@@ -248,10 +248,11 @@ namespace nbdl::websocket::detail
           send_queue.pop();
         }
       }
+    // keep is_send_queue_running == true after an error to prevent
+    // writing to a stream that may end with an incomplete frame
     , nbdl::catch_([this](boost::system::error_code error)
       {
         (void(this));
-        is_send_queue_running = false;
 
         if ( is_sending_close() 
          && (asio::error::eof == error || asio::error::connection_reset == error)
@@ -268,7 +269,6 @@ namespace nbdl::websocket::detail
     , nbdl::catch_([this](auto&& error)
       {
         (void(this));
-        is_send_queue_running = false;
         call_handler(hana::typeid_(error), std::forward<decltype(error)>(error));
       })
     ));
-- 
2.43.0


From 2a1704f1965bdb7cb7dd89c59872d16133fd347f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:39 +0000
Subject: [PATCH 11/55] fix: read bool members from JSON

---
 include/nbdl/binder/jsoncpp.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/nbdl/binder/jsoncpp.hpp b/include/nbdl/binder/jsoncpp.hpp
index 3e7e577..930f9ed 100644
--- a/include/nbdl/binder/jsoncpp.hpp
+++ b/include/nbdl/binder/jsoncpp.hpp
@@ -88,7 +88,10 @@ namespace nbdl { namespace binder { namespace jsoncpp
       void bind_member(T& field)
       {
         using T_ = std::remove_reference_t<T>;
-        if constexpr(std::is_integral_v<T_> && std::is_unsigned_v<T_>) {
+        if constexpr(std::is_same_v<T_, bool>) {
+          bind_(json_val, field);
+        }
+        else if constexpr(std::is_integral_v<T_> && std::is_unsigned_v<T_>) {
           bind_unsigned(json_val, field);
         }
         else if constexpr(std::is_integral_v<T_>) {
-- 
2.43.0


From 2f557c2dae516fe313a2ffb9917165f8d3e91d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:39 +0000
Subject: [PATCH 12/55] fix: write an empty container as an empty JSON array

---
 include/nbdl/binder/jsoncpp.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/nbdl/binder/jsoncpp.hpp b/include/nbdl/binder/jsoncpp.hpp
index 930f9ed..5cf8e20 100644
--- a/include/nbdl/binder/jsoncpp.hpp
+++ b/include/nbdl/binder/jsoncpp.hpp
@@ -216,6 +216,7 @@ namespace nbdl { namespace binder { namespace jsoncpp
       template <typename Container>
       void bind_container(Container const& c)
       {
+        json_val = Json::Value(Json::arrayValue);
         for (auto const& x : c)
         {
           Json::Value el;
-- 
2.43.0


From 322fbcaef79e2433a55eff4af788782df78e344f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:39 +0000
Subject: [PATCH 13/55] fix: reading a container from JSON replaces its
 contents

---
 include/nbdl/binder/jsoncpp.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/nbdl/binder/jsoncpp.hpp b/include/nbdl/binder/jsoncpp.hpp
index 5cf8e20..3742175 100644
--- a/include/nbdl/binder/jsoncpp.hpp
+++ b/include/nbdl/binder/jsoncpp.hpp
@@ -113,6 +113,7 @@ namespace nbdl { namespace binder { namespace jsoncpp
 
         typename Container::value_type temp;
 
+        c.clear();
         for (Json::Value const& val : json_val)
         {
           temp = {};
-- 
2.43.0


From 56f4a4d07343618fa000b8d8b64d5a73cbb1cacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:39 +0000
Subject: [PATCH 14/55] fix: read JSON strings containing null characters

---
 include/nbdl/binder/jsoncpp.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nbdl/binder/jsoncpp.hpp b/include/nbdl/binder/jsoncpp.hpp
index 3742175..cf265c4 100644
--- a/include/nbdl/binder/jsoncpp.hpp
+++ b/include/nbdl/binder/jsoncpp.hpp
@@ -135,7 +135,8 @@ namespace nbdl { namespace binder { namespace jsoncpp
       {
         if (!json_val.isString())
           throw std::runtime_error("JSON String expected");
-        field = String{json_val.asCString()};
+        std::string const text = json_val.asString();
+        field = String(text.begin(), text.end());
       }
 
       template<typename T>
-- 
2.43.0


From 1d098202e8afdcc95b5d2a0d056ae19018be0794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:39 +0000
Subject: [PATCH 15/55] fix: refuse JSON strings which are no Base64 of the
 buffer

---
 include/nbdl/binder/jsoncpp.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nbdl/binder/jsoncpp.hpp b/include/nbdl/binder/jsoncpp.hpp
index cf265c4..12d0bc7 100644
--- a/include/nbdl/binder/jsoncpp.hpp
+++ b/include/nbdl/binder/jsoncpp.hpp
@@ -127,7 +127,8 @@ namespace nbdl { namespace binder { namespace jsoncpp
       {
         nbdl::string temp{};
         bind_string(temp);
-        nbdl::util::base64_decode(temp, b);
+        if (!nbdl::util::base64_decode(temp, b))
+          throw std::runtime_error("JSON Base64 String expected");
       }
 
       template <typename String>
-- 
2.43.0


From 83a1eb2aced22e263c5c54281308934c31c5dd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:39 +0000
Subject: [PATCH 16/55] fix: refuse JSON of a variant with an unknown type_id

---
 include/nbdl/binder/jsoncpp.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/nbdl/binder/jsoncpp.hpp b/include/nbdl/binder/jsoncpp.hpp
index 12d0bc7..366a1b0 100644
--- a/include/nbdl/binder/jsoncpp.hpp
+++ b/include/nbdl/binder/jsoncpp.hpp
@@ -289,10 +289,14 @@ namespace nbdl { namespace binder { namespace jsoncpp
           [](auto&& binder, auto&& t)
             -> decltype((binder.get_variant_type_id(), void()))
           {
+            bool is_bound = false;
             nbdl::bind_variant(binder.get_variant_type_id(), std::forward<T>(t), [&](auto&& ...x)
             {
+              is_bound = true;
               binder.bind_sequence(std::forward<decltype(x)>(x)...);
             });
+            if (!is_bound)
+              throw std::runtime_error("Variant type_id is unknown.");
           },
           [](auto&& binder, auto&& t)
           {
-- 
2.43.0


From cfa7d9aa1770238a6c11699b92105fe0a700244d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:10 +0000
Subject: [PATCH 17/55] fix: read double members from JSON

---
 include/nbdl/binder/jsoncpp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nbdl/binder/jsoncpp.hpp b/include/nbdl/binder/jsoncpp.hpp
index 366a1b0..9f4faf3 100644
--- a/include/nbdl/binder/jsoncpp.hpp
+++ b/include/nbdl/binder/jsoncpp.hpp
@@ -101,7 +101,7 @@ namespace nbdl { namespace binder { namespace jsoncpp
           bind_enum(json_val, field);
         }
         else {
-          bind_(json_val, std::forward<T>(field));
+          bind_(json_val, field);
         }
       }
 
-- 
2.43.0


From 4b1bc331c32fe91f87514e9dbffa9164e770a25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:24 +0000
Subject: [PATCH 18/55] fix: different uid generators repeated each other's
 identifiers

---
 include/nbdl/uid.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/nbdl/uid.hpp b/include/nbdl/uid.hpp
index f3ad8a7..6295e47 100644
--- a/include/nbdl/uid.hpp
+++ b/include/nbdl/uid.hpp
@@ -97,7 +97,9 @@ namespace nbdl
   {
     static_assert(sizeof(typename uid::storage_t) == sizeof(std::array<uint32_t, 4>));
     std::random_device rd{};
-    std::mt19937 mt_{rd()};
+    // a single word would leave generators with only 2^32 different sequences
+    std::seed_seq seed{rd(), rd(), rd(), rd(), rd(), rd(), rd(), rd()};
+    std::mt19937 mt_{seed};
 
     return [mt = std::move(mt_)]() mutable
     {
-- 
2.43.0


From 1b078b21b413c32e1f179e893a174b16d27f713c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:24 +0000
Subject: [PATCH 19/55] fix: hash variants with empty alternatives

---
 include/nbdl/binder/hash.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/nbdl/binder/hash.hpp b/include/nbdl/binder/hash.hpp
index c8bbd2c..4875015 100644
--- a/include/nbdl/binder/hash.hpp
+++ b/include/nbdl/binder/hash.hpp
@@ -42,9 +42,10 @@ namespace nbdl::binder
 
       template <BindableVariant T>
       void bind(T const& t) {
-        nbdl::bind_variant(t, [&](auto const& type_id, auto const& value) {
+        // Note that empty values are filtered out.
+        nbdl::bind_variant(t, [&](auto const& type_id, auto const& ...value) {
           bind(type_id);
-          bind(value); 
+          (bind(value), ...);
         });
       }
 
-- 
2.43.0


From 951217dfe80c00ed06a0a5696b364d7eb339df31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:38 +0000
Subject: [PATCH 20/55] fix: bind variant_holder through the variant it holds

---
 include/nbdl/variant_holder.hpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/include/nbdl/variant_holder.hpp b/include/nbdl/variant_holder.hpp
index f1b0cb6..b5f1e3a 100644
--- a/include/nbdl/variant_holder.hpp
+++ b/include/nbdl/variant_holder.hpp
@@ -52,21 +52,18 @@ template <>
 struct bind_variant_impl<nbdl::variant_holder_tag> {
   template <typename VariantHolder, typename BindFn>
   static void apply(int type_id, VariantHolder&& v, BindFn&& f) {
-    using VariantTy = std::remove_cvref_t<VariantHolder>;
-    constexpr size_t variant_size = std::variant_size_v<VariantTy>;
-
-    mp11::mp_with_index<variant_size + 1>(type_id, [&](auto index) {
-      using AltType = std::variant_alternative_t<index(), VariantTy>;
+    v.value.match_by_type(type_id, [&](auto type) {
+      using AltType = typename decltype(type)::type;
       AltType value{};
-      std::forward<BindFn>(f)(type_id, value);
-      v = value;
+      f(type_id, value);
+      v.value = value;
     });
   }
 
   template <typename VariantHolder, typename BindFn>
-  static void apply(VariantHolder&& v, BindFn&& f) {
-    v.match([&](auto const& value) {
-      f(v.index(), value);
+  static void apply(VariantHolder const& v, BindFn&& f) {
+    v.value.match([&](auto const& value) {
+      f(v.value.get_type_id(), value);
     });
   }
 };
-- 
2.43.0


From 304f69a4ff15ba9cf66635bad5ec4fcc2d422e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:00 +0000
Subject: [PATCH 21/55] fix: map_store did not match paths it does not hold as
 trigger_read

---
 include/nbdl/map_store.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/nbdl/map_store.hpp b/include/nbdl/map_store.hpp
index 7b28e80..353c024 100644
--- a/include/nbdl/map_store.hpp
+++ b/include/nbdl/map_store.hpp
@@ -18,6 +18,7 @@
 
 #include <boost/hana/bool.hpp>
 #include <boost/hana/equal.hpp>
+#include <type_traits>
 #include <unordered_map>
 #include <utility>
 
@@ -123,6 +124,7 @@ namespace nbdl
     public:
 
     using hana_tag = Tag;
+    using not_in_set_tag = NotInSetTag;
 
     Container map;
 
@@ -187,7 +189,19 @@ namespace nbdl
     template <typename Store, typename Key, typename Fn>
     static constexpr void apply(Store&& s, Key&& k, Fn&& fn)
     {
-      nbdl::match(s.map, std::forward<Key>(k), std::forward<Fn>(fn));
+      using NotInSetTag = typename std::decay_t<Store>::not_in_set_tag;
+
+      nbdl::match(s.map, std::forward<Key>(k), [&](auto&& value)
+      {
+        if constexpr(std::is_same<std::decay_t<decltype(value)>, nbdl::not_in_set>::value)
+        {
+          std::forward<Fn>(fn)(NotInSetTag{});
+        }
+        else
+        {
+          std::forward<Fn>(fn)(std::forward<decltype(value)>(value));
+        }
+      });
     }
   };
 }
-- 
2.43.0


From 65abe18bcbf2cf4751325f2e54bfbc4a0accbd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:00 +0000
Subject: [PATCH 22/55] fix: context never sent reads upstream when its store
 keeps placeholders

---
 include/nbdl/context.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nbdl/context.hpp b/include/nbdl/context.hpp
index af59db8..f8689f5 100644
--- a/include/nbdl/context.hpp
+++ b/include/nbdl/context.hpp
@@ -161,7 +161,6 @@ namespace nbdl
       auto& store = stores[path_type];
       if constexpr(message::is_upstream<Message> && message::is_read<Message>)
       {
-        nbdl::apply_message(store, m);
         // send response message
         nbdl::match(store, message::get_path(m), hana::overload_linearly(
           [&](nbdl::trigger_read)
@@ -170,6 +169,7 @@ namespace nbdl
             // placeholder to prevent duplicate upstream
             // read requests and so any StateConsumer
             // gets a value
+            nbdl::apply_message(store, m);
             propagate_upstream(m);
           },
           [&](nbdl::unresolved)
-- 
2.43.0


From d9632eaf30832da92d191715cf8cc721d853ffdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:35 +0000
Subject: [PATCH 23/55] fix: observers were told the create path of a created
 item instead of its path

---
 include/nbdl/context.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nbdl/context.hpp b/include/nbdl/context.hpp
index f8689f5..b85fd7e 100644
--- a/include/nbdl/context.hpp
+++ b/include/nbdl/context.hpp
@@ -200,7 +200,7 @@ namespace nbdl
           if (nbdl::apply_message(store, m))
           {
             // the state changed
-            notify_state_consumers(message::get_path(m));
+            notify_state_consumers(message::get_normalized_path(m));
           }
         }
 
-- 
2.43.0


From 44298de3b97016cae195f7e7b3a3671d26909512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:14 +0000
Subject: [PATCH 24/55] fix: local_version did not report whether a delta
 changed its value

---
 include/nbdl/local_version.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nbdl/local_version.hpp b/include/nbdl/local_version.hpp
index 1e852e0..c239588 100644
--- a/include/nbdl/local_version.hpp
+++ b/include/nbdl/local_version.hpp
@@ -138,7 +138,7 @@ namespace nbdl
         // apply delta to store
         if (message::is_confirmed(m))
         {
-          apply_confirmed_delta(
+          return apply_confirmed_delta(
             store
           , message::get_uid(std::forward<Message>(m))
           , message::get_payload(std::forward<Message>(m))
@@ -146,7 +146,7 @@ namespace nbdl
         }
         else
         {
-          apply_local_delta(
+          return apply_local_delta(
             store
           , message::get_uid(std::forward<Message>(m))
           , message::get_payload(std::forward<Message>(m))
-- 
2.43.0


From 4b3095458858c0bafaafbaeffb4526251909000d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:14 +0000
Subject: [PATCH 25/55] fix: deltas of entities with variant members could not
 be merged

---
 include/nbdl/delta.hpp   | 16 +++++++++++++++-
 include/nbdl/variant.hpp |  1 +
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/nbdl/delta.hpp b/include/nbdl/delta.hpp
index 192b4b0..ec6bae0 100644
--- a/include/nbdl/delta.hpp
+++ b/include/nbdl/delta.hpp
@@ -105,7 +105,21 @@ namespace nbdl
             [](nbdl::nothing) { },
             [&](auto const& value)
             {
-              if (!hana::equal(value, x))
+              using Member = std::decay_t<decltype(x)>;
+              using Value  = std::decay_t<decltype(value)>;
+
+              bool is_same;
+              if constexpr (std::is_same_v<Member, Value>)
+              {
+                is_same = hana::equal(value, x);
+              }
+              else
+              {
+                // x is the member of another delta
+                is_same = hana::equal(Member(value), x);
+              }
+
+              if (!is_same)
               {
                 result = true;
                 x = value;
diff --git a/include/nbdl/variant.hpp b/include/nbdl/variant.hpp
index 1cbcc41..f5330c6 100644
--- a/include/nbdl/variant.hpp
+++ b/include/nbdl/variant.hpp
@@ -62,6 +62,7 @@ namespace nbdl {
       variant() = default;
 
       template <typename T>
+        requires std::is_constructible_v<Storage, T>
       variant(T val)
         : value_(std::move(val))
       { }
-- 
2.43.0


From ed973c0538d9b166ad043077e32e4f03b03e0902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:29 +0000
Subject: [PATCH 26/55] fix: get on a local_version by a key referred to a copy

---
 include/nbdl/local_version.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nbdl/local_version.hpp b/include/nbdl/local_version.hpp
index c239588..5ad3e39 100644
--- a/include/nbdl/local_version.hpp
+++ b/include/nbdl/local_version.hpp
@@ -178,7 +178,7 @@ namespace nbdl
   template <State Tag>
   struct get_impl<local_version_tag<Tag>> {
     template <typename State, typename ...Args>
-    static auto apply(State& s, Args&& ...args) {
+    static decltype(auto) apply(State& s, Args&& ...args) {
       return nbdl::get(s.value, std::forward<Args>(args)...);
     }
   };
-- 
2.43.0


From 9412e1a89544947fd52cd3a4d99889e9e3ad2d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:14 +0000
Subject: [PATCH 27/55] fix: an asynchronous pipeline could not be run from a
 variable

---
 include/nbdl/run_async.hpp      | 2 +-
 include/nbdl/run_async_loop.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nbdl/run_async.hpp b/include/nbdl/run_async.hpp
index bb01201..ffce295 100644
--- a/include/nbdl/run_async.hpp
+++ b/include/nbdl/run_async.hpp
@@ -69,7 +69,7 @@ namespace nbdl
       Promise promise;
 
       shared_end_pipe(InputPromise const& p)
-        : promise(promise_join(p, promise_end<shared_end_pipe>(this)))
+        : promise(promise_join(InputPromise(p), promise_end<shared_end_pipe>(this)))
       { }
 
       shared_end_pipe(InputPromise&& p)
diff --git a/include/nbdl/run_async_loop.hpp b/include/nbdl/run_async_loop.hpp
index 567e26f..71eb2ae 100644
--- a/include/nbdl/run_async_loop.hpp
+++ b/include/nbdl/run_async_loop.hpp
@@ -71,7 +71,7 @@ namespace nbdl
       Promise promise;
 
       shared_end_pipe_loop(InputPromise const& p)
-        : promise(promise_join(p, promise_end_loop<shared_end_pipe_loop>(this)))
+        : promise(promise_join(InputPromise(p), promise_end_loop<shared_end_pipe_loop>(this)))
       { }
 
       shared_end_pipe_loop(InputPromise&& p)
-- 
2.43.0


From c4d8c2cc621ce21d9f7ae502d0ad1ec5ed352744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:05 +0000
Subject: [PATCH 28/55] fix: catch_ referred to a handler given as a variable

---
 include/nbdl/catch.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nbdl/catch.hpp b/include/nbdl/catch.hpp
index c256b32..cd122d6 100644
--- a/include/nbdl/catch.hpp
+++ b/include/nbdl/catch.hpp
@@ -12,6 +12,7 @@
 #include <boost/hana/functional/overload_linearly.hpp>
 #include <boost/hana/integral_constant.hpp>
 #include <boost/hana/type.hpp>
+#include <type_traits>
 #include <utility>
 
 namespace nbdl
@@ -63,7 +64,7 @@ namespace nbdl
     template <typename RejectionHandler>
     auto operator()(RejectionHandler&& fn) const
     {
-      return catch_t<RejectionHandler>{std::forward<RejectionHandler>(fn)};
+      return catch_t<std::decay_t<RejectionHandler>>{std::forward<RejectionHandler>(fn)};
     }
   };
 
-- 
2.43.0


From 1ea87d7cb6f161df13e6f68cdf2d6df31da24049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:06 +0000
Subject: [PATCH 29/55] fix: hold_lazy never destroyed the values of earlier
 iterations of a loop

---
 include/nbdl/hold_lazy.hpp | 34 ++++++++++------------------------
 1 file changed, 10 insertions(+), 24 deletions(-)

diff --git a/include/nbdl/hold_lazy.hpp b/include/nbdl/hold_lazy.hpp
index b72c0c0..9195bf6 100644
--- a/include/nbdl/hold_lazy.hpp
+++ b/include/nbdl/hold_lazy.hpp
@@ -32,44 +32,30 @@ namespace nbdl
     {
       lazy_holder(F f)
         : lazy_holder_function<F>{std::move(f)}
-        , null_state()
-        , engaged(false)
+        , value()
       { }
 
-      // The move constructor default initializes
-      // the value because it is assumed the instance
-      // is settled after the promise is initialized
-      // (ie it is never moved once `value` is set)
+      // The instance must be settled after the promise is
+      // initialized (ie it is never moved once `value` is set)
       lazy_holder(lazy_holder&& old)
         : lazy_holder_function<F>{std::move(old.f)}
-        , null_state()
-        , engaged(false)
+        , value()
       {
-        assert(!old.engaged);
-      }
-
-      ~lazy_holder()
-      {
-        if (engaged)
-        {
-          value.~T();
-        }
+        assert(!old.value);
       }
 
       template <typename Resolver, typename ...Xs>
       void operator()(Resolver& resolver, Xs&& ...xs) noexcept
       {
-        new(std::addressof(value)) T(this->f(resolver, std::forward<Xs>(xs)...));
-        engaged = true;
+        // A value held in a previous iteration of a loop is destroyed
+        // only after its successor is made, which may depend on it
+        std::unique_ptr<T> next(new T(this->f(resolver, std::forward<Xs>(xs)...)));
+        value.swap(next);
       }
 
     private:
 
-      union {
-        char null_state;
-        T value;
-      };
-      bool engaged;
+      std::unique_ptr<T> value;
     };
 
     template <typename F, typename Args>
-- 
2.43.0


From c333cd6b1ae8ff9f7e860babc567d4a4776580d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:54 +0000
Subject: [PATCH 30/55] fix: whether a downstream read is confirmed could not
 be asked

---
 include/nbdl/message.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/nbdl/message.hpp b/include/nbdl/message.hpp
index ed79f9b..cbb4c32 100644
--- a/include/nbdl/message.hpp
+++ b/include/nbdl/message.hpp
@@ -314,7 +314,6 @@ namespace nbdl::message
   NBDL_DETAIL_MESSAGE_ACCESSOR_IMPL(downstream_read, get_path_impl, 0);
   NBDL_DETAIL_MESSAGE_OPTIONAL_ACCESSOR_IMPL(downstream_read, get_uid_impl, 1);
   NBDL_DETAIL_MESSAGE_ACCESSOR_IMPL(downstream_read, get_payload_impl, 2);
-  NBDL_DETAIL_MESSAGE_OPTIONAL_ACCESSOR_IMPL(downstream_read, is_confirmed_impl, 3);
 
   template <typename ...T>
   constexpr auto get_channel_impl<downstream_read<T...>> = channel::downstream{};
-- 
2.43.0


From a6cadc6976eea9dda6f906a05c74c27a4aabb50e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:54 +0000
Subject: [PATCH 31/55] fix: the private payload of a message was its uid

---
 include/nbdl/fwd/message.hpp | 2 +-
 include/nbdl/message.hpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nbdl/fwd/message.hpp b/include/nbdl/fwd/message.hpp
index 14ecf3a..9c7b09d 100644
--- a/include/nbdl/fwd/message.hpp
+++ b/include/nbdl/fwd/message.hpp
@@ -140,7 +140,7 @@ namespace nbdl::message
 
   template <typename Message>
   constexpr bool has_private_payload = !std::is_same<const no_impl,
-    decltype(get_uid_impl<std::decay_t<Message>>)>::value;
+    decltype(get_private_payload_impl<std::decay_t<Message>>)>::value;
 
   template <typename Message>
   constexpr bool is_path_normalizable = !std::is_same<const no_impl,
diff --git a/include/nbdl/message.hpp b/include/nbdl/message.hpp
index cbb4c32..9ef429a 100644
--- a/include/nbdl/message.hpp
+++ b/include/nbdl/message.hpp
@@ -97,7 +97,7 @@ namespace nbdl::message
   NBDL_DETAIL_MESSAGE_ACCESSOR_IMPL(upstream_create, get_path_impl, 0);
   NBDL_DETAIL_MESSAGE_OPTIONAL_ACCESSOR_IMPL(upstream_create, get_uid_impl, 1);
   NBDL_DETAIL_MESSAGE_ACCESSOR_IMPL(upstream_create, get_payload_impl, 2);
-  NBDL_DETAIL_MESSAGE_OPTIONAL_ACCESSOR_IMPL(upstream_create, get_private_payload_impl, 1);
+  NBDL_DETAIL_MESSAGE_OPTIONAL_ACCESSOR_IMPL(upstream_create, get_private_payload_impl, 3);
 
   template <typename ...T>
   constexpr auto get_channel_impl<upstream_create<T...>> = channel::upstream{};
-- 
2.43.0


From 3b42094cab5be43e654478071c5fcf8470f9f620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:25 +0000
Subject: [PATCH 32/55] fix: the echo producer handed out the same key for
 different messages

---
 include/nbdl/echo_producer.hpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/nbdl/echo_producer.hpp b/include/nbdl/echo_producer.hpp
index e383819..0c9481d 100644
--- a/include/nbdl/echo_producer.hpp
+++ b/include/nbdl/echo_producer.hpp
@@ -13,12 +13,23 @@
 #include <nbdl/entity.hpp>
 #include <nbdl/message.hpp>
 
+#include <atomic>
+
 namespace nbdl
 {
   namespace hana = boost::hana;
 
   namespace echo_producer_detail
   {
+    // Keys are unique by their type, whatever message asks for them
+    // and whichever thread the message is sent from
+    template <typename Key, typename Integral>
+    Integral next_value()
+    {
+      static std::atomic<Integral> value{0};
+      return ++value;
+    }
+
     template <typename Message>
     auto make_unique_key(Message const& m)
     {
@@ -31,15 +42,13 @@ namespace nbdl
       }
       else if constexpr(std::is_integral<Key>::value)
       {
-        static Key key = 0;
-        return ++key;
+        return next_value<Key, Key>();
       }
       else
       {
         // Only supports keys that wrap an integral named "value"
         using Integral = typename NBDL_MEMBER(&Key::value)::member_type;
-        static Integral key = 0;
-        return Key{++key};
+        return Key{next_value<Key, Integral>()};
       }
     }
   }
-- 
2.43.0


From 5247a3b5d79a4783cc387a3fd0a2eb6c4fc00041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 33/55] fix: statements with several keys were not SQL

---
 include/nbdl/sql_db/statement/select.hpp |  2 +-
 include/nbdl/sql_db/statement/update.hpp | 12 +++++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/nbdl/sql_db/statement/select.hpp b/include/nbdl/sql_db/statement/select.hpp
index fb03913..2eb5ff7 100644
--- a/include/nbdl/sql_db/statement/select.hpp
+++ b/include/nbdl/sql_db/statement/select.hpp
@@ -33,7 +33,7 @@ namespace nbdl::sql_db::statement
     {
       return decltype(detail::string_sum(
         std::declval<Pair1>()
-      , detail::string_sum("=?,"_s, std::declval<PairN>())...
+      , detail::string_sum("=? AND "_s, std::declval<PairN>())...
       , "=?"_s
       )){};
     };
diff --git a/include/nbdl/sql_db/statement/update.hpp b/include/nbdl/sql_db/statement/update.hpp
index b574943..f5aa507 100644
--- a/include/nbdl/sql_db/statement/update.hpp
+++ b/include/nbdl/sql_db/statement/update.hpp
@@ -43,6 +43,16 @@ namespace nbdl::sql_db::statement
       , "\"=?"_s
       )){};
     };
+
+    template <typename Pair1, typename ...PairN>
+    constexpr auto criteria_list(hana::basic_tuple<Pair1, PairN...> const&)
+    {
+      return decltype(detail::string_sum(
+        detail::string_sum("\""_s, hana::first(std::declval<Pair1>()))
+      , detail::string_sum("\"=? AND \""_s, hana::first(std::declval<PairN>()))...
+      , "\"=?"_s
+      )){};
+    };
   }
 
   constexpr auto update = [](auto table_name, auto&& columns_, auto&& keys_)
@@ -56,7 +66,7 @@ namespace nbdl::sql_db::statement
       "UPDATE \""_s, table_name
     , "\" SET "_s
     , update_detail::column_value_list(columns)
-    , " WHERE "_s, update_detail::column_value_list(keys)
+    , " WHERE "_s, update_detail::criteria_list(keys)
     , " LIMIT 1;"_s
     );
 
-- 
2.43.0


From 845206b48d6f8378b95a65e547df83ee613e5d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 34/55] fix: an entity without children could not be selected

---
 .../sql_db/statement/detail/table_alias_list.hpp   | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/nbdl/sql_db/statement/detail/table_alias_list.hpp b/include/nbdl/sql_db/statement/detail/table_alias_list.hpp
index aed6360..27538ac 100644
--- a/include/nbdl/sql_db/statement/detail/table_alias_list.hpp
+++ b/include/nbdl/sql_db/statement/detail/table_alias_list.hpp
@@ -184,11 +184,23 @@ namespace nbdl::sql_db::statement::detail
     )
   );
 
+  struct join_clauses_fn
+  {
+    // An entity without children joins nothing
+    constexpr auto operator()() const { return hana::string<>{}; }
+
+    template <typename ...Clause>
+    constexpr auto operator()(Clause ...clause) const
+    { return string_sum_join<hana::string<' '>>(clause...); }
+  };
+
+  constexpr join_clauses_fn join_clauses_impl{};
+
   template <typename Entity>
   using join_clauses = decltype(
     hana::unpack(
       mp_transform<join_clause, table_alias_list<Entity>>{}
-    , string_sum_join<hana::string<' '>>
+    , join_clauses_impl
     )
   );
 
-- 
2.43.0


From a1ad38b5e1a99e96703bbd78f33545789a5b69ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 35/55] fix: select_nested_key_name named no key

---
 include/nbdl/fwd/sql_db/select.hpp                        | 2 +-
 include/nbdl/sql_db/statement/detail/table_alias_list.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nbdl/fwd/sql_db/select.hpp b/include/nbdl/fwd/sql_db/select.hpp
index d62eebd..c450e8c 100644
--- a/include/nbdl/fwd/sql_db/select.hpp
+++ b/include/nbdl/fwd/sql_db/select.hpp
@@ -32,7 +32,7 @@ namespace nbdl::sql_db
   using select_primary_key_name = statement::detail::select_primary_key_name<Entity>;
 
   template <typename Entity, typename Member1, typename ...MemberN>
-  using select_nested_key_name = statement::detail::select_nested_key_name<Member1, MemberN...>;
+  using select_nested_key_name = statement::detail::select_nested_key_name<Entity, Member1, MemberN...>;
 }
 
 #endif
diff --git a/include/nbdl/sql_db/statement/detail/table_alias_list.hpp b/include/nbdl/sql_db/statement/detail/table_alias_list.hpp
index 27538ac..62b07c3 100644
--- a/include/nbdl/sql_db/statement/detail/table_alias_list.hpp
+++ b/include/nbdl/sql_db/statement/detail/table_alias_list.hpp
@@ -216,7 +216,7 @@ namespace nbdl::sql_db::statement::detail
     sql_db::detail::string_sum(
       identifier_quote<concat_table_alias<table_name<Entity>, member_name<Member>...>>{}
     , table_column_separator{}
-    , identifier_quote<table_key_name<tail<Member...>>>{}
+    , identifier_quote<table_key_name<typename tail<Member...>::member_type>>{}
     )
   );
 
-- 
2.43.0


From d961053f62a1f7e6ee605655b276d4176d7c240f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 36/55] fix: rows of a collection lost the key of their parent
 after the first

---
 include/nbdl/sql_db/insert.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nbdl/sql_db/insert.hpp b/include/nbdl/sql_db/insert.hpp
index bd1d819..f47b8fb 100644
--- a/include/nbdl/sql_db/insert.hpp
+++ b/include/nbdl/sql_db/insert.hpp
@@ -127,7 +127,7 @@ namespace nbdl::sql_db
         insert(
           db_insert
         , std::forward<decltype(x)>(x)
-        , std::forward<ForeignKeys>(keys)
+        , keys // every row has its own copy
         );
       }
     };
-- 
2.43.0


From 9c84acc832b1cd2aac6ab1501b1549b59718bbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:49 +0000
Subject: [PATCH 37/55] fix: a branch on a path without a value was out of
 range

---
 include/nbdl/ui_helper/match_branch.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/nbdl/ui_helper/match_branch.hpp b/include/nbdl/ui_helper/match_branch.hpp
index eb29930..744a1d4 100644
--- a/include/nbdl/ui_helper/match_branch.hpp
+++ b/include/nbdl/ui_helper/match_branch.hpp
@@ -77,7 +77,11 @@ namespace nbdl::ui_helper
   template <typename Fn>
   void match_branch_index_fn<BranchSpec>::operator()(std::size_t index, Fn&& fn) const
   {
-    mp_with_index<mp_size<mp_third<BranchSpec>>>(index, std::forward<Fn>(fn));
+    using Size = mp_size<mp_third<BranchSpec>>;
+
+    // There is no branch to select if the path does not lead to a value.
+    if (index < Size::value)
+      mp_with_index<Size>(index, std::forward<Fn>(fn));
   }
 
   template <typename BranchSpec>
-- 
2.43.0


From ac7b17978adc26a591e3d9190ebe02c7ae538c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:58 +0000
Subject: [PATCH 38/55] fix: routes with ten parameters were read past the
 array of parameters

---
 include/nbdl/webui/route_map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nbdl/webui/route_map.hpp b/include/nbdl/webui/route_map.hpp
index 56f50b1..221020e 100644
--- a/include/nbdl/webui/route_map.hpp
+++ b/include/nbdl/webui/route_map.hpp
@@ -128,8 +128,8 @@ namespace nbdl::webui
   template <typename Map>
   class route_map<Map>
   {
-    // max 10 parameters
-    using Params = std::array<std::string_view, 10>;
+    // max 10 parameters (and the name of the route)
+    using Params = std::array<std::string_view, 11>;
     using ReverseMap = mp_transform<mp_reverse, Map>;
     using Variant = mp_apply<route_variant, mp_map_keys<ReverseMap>>;
 
-- 
2.43.0


From fb680dc70714ce995b5a22fe70809271fbc2f2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:58 +0000
Subject: [PATCH 39/55] fix: numbers out of range were read as other route
 parameters

---
 include/nbdl/webui/route_map.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/nbdl/webui/route_map.hpp b/include/nbdl/webui/route_map.hpp
index 221020e..d6a8bf1 100644
--- a/include/nbdl/webui/route_map.hpp
+++ b/include/nbdl/webui/route_map.hpp
@@ -21,6 +21,7 @@
 #include <boost/hana/unpack.hpp>
 #include <boost/hana/type.hpp>
 #include <iterator>
+#include <limits>
 #include <mpdef/pair.hpp>
 #include <string>
 #include <string_view>
@@ -49,7 +50,8 @@ namespace nbdl::webui
     }
 
     // zero is an invalid integral param
-    inline std::size_t to_integral_param(std::string_view param)
+    // and so are values greater than max
+    inline std::size_t to_integral_param(std::string_view param, std::size_t max)
     {
       std::size_t result = 0;
 
@@ -61,6 +63,11 @@ namespace nbdl::webui
           // invalid character
           return 0;
         }
+        if (digit_value > max || result > (max - digit_value) / 10)
+        {
+          // out of range
+          return 0;
+        }
         result *= 10;
         result += digit_value;
       }
@@ -83,7 +90,7 @@ namespace nbdl::webui
     {
       bool operator()(Member& m, std::string_view param) const
       {
-        m = to_integral_param(param);
+        m = to_integral_param(param, std::numeric_limits<Member>::max());
         return m != 0;
       };
     };
-- 
2.43.0


From 91c539f995ad82ef4a8b386bf1434da52305d51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:05 +0000
Subject: [PATCH 40/55] fix: Base64 lengths overflowed from 512 MiB on

---
 include/nbdl/util/base64_decode.hpp | 20 ++++++++++----------
 include/nbdl/util/base64_encode.hpp | 15 ++++++++-------
 2 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/include/nbdl/util/base64_decode.hpp b/include/nbdl/util/base64_decode.hpp
index ebaf712..f0d7daa 100644
--- a/include/nbdl/util/base64_decode.hpp
+++ b/include/nbdl/util/base64_decode.hpp
@@ -74,20 +74,20 @@ namespace nbdl::util
     template <typename Buffer>
     auto target_decoded_length(Buffer const& b)
     {
-      int n = source_length_unpadded(b);
+      std::size_t n = source_length_unpadded(b);
       return (3 * n) / 4;
     }
 
     template <DynamicBuffer Buffer>
-    constexpr bool prepare_output_buffer(Buffer& buffer, int length) {
+    constexpr bool prepare_output_buffer(Buffer& buffer, std::size_t length) {
       buffer.resize(length);
       return true;
     }
 
     template <typename Buffer>
-    constexpr bool prepare_output_buffer(Buffer& buffer, int length)
+    constexpr bool prepare_output_buffer(Buffer& buffer, std::size_t length)
     {
-      return buffer.size() == static_cast<std::size_t>(length);
+      return buffer.size() == length;
     }
 
     template <typename Input, typename Output>
@@ -98,17 +98,17 @@ namespace nbdl::util
 
       using base64_detail::reverse_lookup;
 
-      int const length = source_length_unpadded(input);
-      int const round_length = length - (length % 4);
-      int const extra_length = length % 4;
+      std::size_t const length = source_length_unpadded(input);
+      std::size_t const round_length = length - (length % 4);
+      std::size_t const extra_length = length % 4;
 
       auto output_itr = output.begin();
-      int i;
+      std::size_t i;
       for (i = 0; i < round_length; i += 4)
       {
         uint32_t fragment = 0;
 
-        for (int j = 0; j < 4; j++)
+        for (std::size_t j = 0; j < 4; j++)
         {
           unsigned char value = reverse_lookup[static_cast<unsigned char>(input[i + j])];
           fragment |= value << base64_detail::offsets[j];
@@ -125,7 +125,7 @@ namespace nbdl::util
       {
         uint32_t fragment = 0;
 
-        for (int j = 0; j < extra_length; j++)
+        for (std::size_t j = 0; j < extra_length; j++)
         {
           unsigned char value = reverse_lookup[static_cast<unsigned char>(input[i + j])];
           fragment |= value << base64_detail::offsets[j];
diff --git a/include/nbdl/util/base64_encode.hpp b/include/nbdl/util/base64_encode.hpp
index 15d2a42..9b04894 100644
--- a/include/nbdl/util/base64_encode.hpp
+++ b/include/nbdl/util/base64_encode.hpp
@@ -11,6 +11,7 @@
 
 #include <array>
 #include <cassert>
+#include <cstddef>
 #include <iterator>
 #include <string>
 
@@ -36,7 +37,7 @@ namespace nbdl::util
       }
     }
 
-    inline constexpr int encoding_length_padded(int n)
+    inline constexpr std::size_t encoding_length_padded(std::size_t n)
     {
       return 4*n/3 + ((4 - ((4*n/3) % 4)) % 4);
     }
@@ -52,13 +53,13 @@ namespace nbdl::util
       std::string output(base64_detail::encoding_length_padded(buffer.size()), '=');
       auto output_itr = output.begin();
 
-      int const length          = buffer.size();
-      int const extra_length    = length % 3;
-      int const round_length    = length - extra_length;
-      int const padding_length  = (3 - extra_length) % 3;
+      std::size_t const length          = buffer.size();
+      std::size_t const extra_length    = length % 3;
+      std::size_t const round_length    = length - extra_length;
+      std::size_t const padding_length  = (3 - extra_length) % 3;
       (void(padding_length));
 
-      for (int i = 0; i < round_length; i += 3)
+      for (std::size_t i = 0; i < round_length; i += 3)
       {
         uint32_t const fragment =
             static_cast<uint32_t>(static_cast<unsigned char>(buffer[i    ])) << 24
@@ -69,7 +70,7 @@ namespace nbdl::util
       }
 
       uint32_t extras = 0;
-      for (int i = 0; i < extra_length; i++)
+      for (std::size_t i = 0; i < extra_length; i++)
       {
         extras |= static_cast<uint32_t>(static_cast<unsigned char>(buffer[round_length + i])) << (8 * (3 - i));
       }
-- 
2.43.0


From 9645d7aec728afae0a19031fd6bb0aefc9a7a9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:05 +0000
Subject: [PATCH 41/55] fix: equal unordered containers were hashed in their
 iteration order

---
 include/nbdl/binder/hash.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/nbdl/binder/hash.hpp b/include/nbdl/binder/hash.hpp
index 4875015..73949da 100644
--- a/include/nbdl/binder/hash.hpp
+++ b/include/nbdl/binder/hash.hpp
@@ -51,8 +51,19 @@ namespace nbdl::binder
 
       template <Container T>
       void bind(T const& t) {
-        for (auto const& x : t) {
-          nbdl::detail::hash_combine(digest, x);
+        if constexpr (requires { typename T::hasher; }) {
+          // Equal unordered containers may iterate in different orders.
+          std::size_t sum = 0;
+          for (auto const& x : t) {
+            std::size_t element_digest = 0;
+            nbdl::detail::hash_combine(element_digest, x);
+            sum += element_digest;
+          }
+          nbdl::detail::hash_combine(digest, sum);
+        } else {
+          for (auto const& x : t) {
+            nbdl::detail::hash_combine(digest, x);
+          }
         }
       }
 
-- 
2.43.0


From 97992cffa7b4a0d2c3801b78180fbe38b16aaf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:27 +0000
Subject: [PATCH 42/55] fix: promises settled from JavaScript: keep nothing,
 ignore a second settling

---
 include/nbdl/macros/NBDL_JS_PROMISE.hpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/nbdl/macros/NBDL_JS_PROMISE.hpp b/include/nbdl/macros/NBDL_JS_PROMISE.hpp
index a4245ed..ce87c50 100644
--- a/include/nbdl/macros/NBDL_JS_PROMISE.hpp
+++ b/include/nbdl/macros/NBDL_JS_PROMISE.hpp
@@ -13,6 +13,7 @@
 
 #include <boost/hana/tuple.hpp>
 #include <array>
+#include <memory>
 #include <utility>
 
 namespace nbdl::js::detail
@@ -23,23 +24,30 @@ namespace nbdl::js::detail
     {
       // Really weird lifetime management stuffs here
       // pair(resolve, reject)
-      std::pair<callback_t, callback_t>* delete_me{};
+      using callbacks_t = std::pair<callback_t, callback_t>;
+      auto* delete_me = new std::unique_ptr<callbacks_t>{};
 
       auto resolve = callback([&resolver, delete_me](auto const& result)
       {
+        // deleting the callbacks destroys this function and the result
+        auto& current_resolver = resolver;
+        val current_result{result};
         delete delete_me;
-        resolver.resolve(result);
+        current_resolver.resolve(current_result);
       });
 
       auto reject  = callback([&resolver, delete_me](auto const& result)
       {
+        auto& current_resolver = resolver;
+        val current_result{result};
         delete delete_me;
-        resolver.reject(result);
+        current_resolver.reject(current_result);
       });
 
-      delete_me = new std::pair<callback_t, callback_t>(std::move(resolve), std::move(reject));
+      delete_me->reset(new callbacks_t(std::move(resolve), std::move(reject)));
+      auto& callbacks = **delete_me;
 
-      js_routine(delete_me->first, delete_me->second, input_vals);
+      js_routine(callbacks.first, callbacks.second, input_vals);
     });
   };
 
-- 
2.43.0


From 62e7d81696b600d75c558b7f4fe1f748008713fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:39 +0000
Subject: [PATCH 43/55] fix: a call from JavaScript after its C++ receiver is
 gone does nothing

---
 include/nbdl/webui/detail/event_receiver.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/nbdl/webui/detail/event_receiver.hpp b/include/nbdl/webui/detail/event_receiver.hpp
index 2fde6b0..2b94917 100644
--- a/include/nbdl/webui/detail/event_receiver.hpp
+++ b/include/nbdl/webui/detail/event_receiver.hpp
@@ -84,8 +84,14 @@ namespace nbdl::webui::detail
       {
         Module.NBDL_DETAIL_JS_SET(
           $0
-        , function(event)
+        , function handler(event)
           {
+            // the receiver is gone
+            if (Module.NBDL_DETAIL_JS_GET($0) !== handler)
+            {
+              return;
+            }
+
             if (event && event.type === 'submit')
             {
               event.preventDefault();
-- 
2.43.0


From 2301909f4e231cb1ef07cfad2d3fa82dd3e8c607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:39 +0000
Subject: [PATCH 44/55] fix: a user event may remove the element whose receiver
 handles it

---
 include/nbdl/webui/detail/event_receiver.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/nbdl/webui/detail/event_receiver.hpp b/include/nbdl/webui/detail/event_receiver.hpp
index 2b94917..f7dfc51 100644
--- a/include/nbdl/webui/detail/event_receiver.hpp
+++ b/include/nbdl/webui/detail/event_receiver.hpp
@@ -49,7 +49,7 @@ namespace nbdl::webui::detail
   struct event_receiver_impl
   {
     Store store;
-    std::unique_ptr<event_receiver_vals> vals;
+    std::shared_ptr<event_receiver_vals> vals;
 
     event_receiver_impl(Store s)
       : store(s)
@@ -58,6 +58,11 @@ namespace nbdl::webui::detail
 
     void receive_event()
     {
+      // Sending a message may destroy this object
+      // (e.g. when it is in a row of a for_each.)
+      auto store = this->store;
+      auto vals = this->vals;
+
       auto store_with_event = nbdl::store_compose(html::event_data, std::ref(vals->event_data), store);
       auto send = [&](auto&& message)
       {
-- 
2.43.0


From 398944b2e1c0599ce0718077f85ac4bc0b478a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:39 +0000
Subject: [PATCH 45/55] fix: texts from JavaScript keep characters beyond ASCII

---
 include/nbdl/binder/js.hpp | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/include/nbdl/binder/js.hpp b/include/nbdl/binder/js.hpp
index a13a770..860adf8 100644
--- a/include/nbdl/binder/js.hpp
+++ b/include/nbdl/binder/js.hpp
@@ -286,29 +286,27 @@ namespace nbdl::binder::js
       {
         using String = std::decay_t<X>;
 
+        js_val bytes{};
         int length = EM_ASM_INT(
           {
-            return Module.NBDL_DETAIL_JS_GET($0).length;
+            var v = Module.NBDL_DETAIL_JS_GET($0);
+            // assume its an array of bytes if it is not a string
+            return Module.NBDL_DETAIL_JS_SET(
+              $1
+            , typeof v === 'string' ? new TextEncoder().encode(v) : v
+            ).length;
           }
         , val.handle()
+        , bytes.handle()
         );
 
         String temp(length, '\0');
 
         EM_ASM_(
           {
-            var v = Module.NBDL_DETAIL_JS_GET($0);
-            if (typeof v === 'string')
-            {
-              Module.stringToAscii(v, $1);
-            }
-            else // assume its an ArrayBuffer
-            {
-              var heap = new Uint8Array(Module.HEAPU8.buffer, $1, v.length);
-              heap.set(v);
-            }
+            Module.HEAPU8.set(Module.NBDL_DETAIL_JS_GET($0), $1);
           }
-        , val.handle()
+        , bytes.handle()
         , temp.data()
         );
 
-- 
2.43.0


From 480a266744c139a08014177e0c02fc45f1ef496d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:39 +0000
Subject: [PATCH 46/55] fix: binary messages of the browser's socket keep their
 bytes, texts their characters

---
 .../websocket_api/detail/convert_payload.hpp  | 25 ++++++++-----------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/include/nbdl/websocket_api/detail/convert_payload.hpp b/include/nbdl/websocket_api/detail/convert_payload.hpp
index d72a0c9..8324bb9 100644
--- a/include/nbdl/websocket_api/detail/convert_payload.hpp
+++ b/include/nbdl/websocket_api/detail/convert_payload.hpp
@@ -26,30 +26,27 @@ namespace nbdl::websocket_api::detail
   {
     static_assert(sizeof(Char) == 1);
 
-    static void apply(nbdl::detail::js_val const& val, std::vector<unsigned char>& p)
+    static void apply(nbdl::detail::js_val const& val, std::vector<Char, Allocator>& p)
     {
+      nbdl::detail::js_val bytes{};
       int len = EM_ASM_INT(
         {
-          return Module.NBDL_DETAIL_JS_GET($0).length;
+          var v = Module.NBDL_DETAIL_JS_GET($0);
+          // assume its an ArrayBuffer if it is not a string
+          return Module.NBDL_DETAIL_JS_SET(
+            $1
+          , typeof v === 'string' ? new TextEncoder().encode(v) : new Uint8Array(v)
+          ).length;
         }
       , js::detail::get_handle(val)
+      , js::detail::get_handle(bytes)
       );
       p.resize(len);
-      p.clear();
       EM_ASM_(
         {
-          var v = Module.NBDL_DETAIL_JS_GET($0);
-          if (typeof v === 'string')
-          {
-            Module.stringToAscii(v, $1);
-          }
-          else // assume its an ArrayBuffer
-          {
-            var heap = new Uint8Array(Module.HEAPU8.buffer, $1, v.length);
-            heap.set(v);
-          }
+          Module.HEAPU8.set(Module.NBDL_DETAIL_JS_GET($0), $1);
         }
-      , js::detail::get_handle(val)
+      , js::detail::get_handle(bytes)
       , p.data()
       );
     }
-- 
2.43.0


From 14512207718b93373d3c2ff9251dd6fe048d6d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:39 +0000
Subject: [PATCH 47/55] fix: the browser's socket sends the message, not the
 whole heap

---
 include/nbdl/websocket_api/detail/endpoint_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nbdl/websocket_api/detail/endpoint_impl.hpp b/include/nbdl/websocket_api/detail/endpoint_impl.hpp
index 0cce7b8..ee60183 100644
--- a/include/nbdl/websocket_api/detail/endpoint_impl.hpp
+++ b/include/nbdl/websocket_api/detail/endpoint_impl.hpp
@@ -220,7 +220,7 @@ namespace nbdl::websocket_api::detail
     {
       EM_ASM_(
         {
-          Module.NBDL_DETAIL_JS_GET($0).send(Module.HEAPU8.subarray($1, $2).buffer);
+          Module.NBDL_DETAIL_JS_GET($0).send(Module.HEAPU8.subarray($1, $1 + $2));
         }
       , js::detail::get_handle(websocket)
       , p.data()
-- 
2.43.0


From 351ef51e319adc3086394d5aba17f807fd64b504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:39 +0000
Subject: [PATCH 48/55] fix: branches of the document may be nested, empty or
 several nodes

---
 include/nbdl/webui/detail/dom_manips.hpp | 62 +++++++++++++++---------
 1 file changed, 38 insertions(+), 24 deletions(-)

diff --git a/include/nbdl/webui/detail/dom_manips.hpp b/include/nbdl/webui/detail/dom_manips.hpp
index aa6cc4a..c260743 100644
--- a/include/nbdl/webui/detail/dom_manips.hpp
+++ b/include/nbdl/webui/detail/dom_manips.hpp
@@ -336,14 +336,19 @@ namespace nbdl::webui::detail
     using NodeContainers = std::array<emscripten::val, mp_size<FnLists>::value>;
 
     Store store;
-    emscripten::val parent_el;
+    // The current branch is between these (empty text) nodes, because it may
+    // be any number of nodes, and a nested branch changes which nodes it is.
+    emscripten::val begin_node;
+    emscripten::val end_node;
     std::size_t branch_id;
+    // Each element holds the nodes of a branch that is not current.
     NodeContainers node_containers;
     Renderers renderers;
 
     mut_action_fn(Store s)
       : store(s)
-      , parent_el(emscripten::val::undefined())
+      , begin_node(emscripten::val::undefined())
+      , end_node(emscripten::val::undefined())
       , branch_id(-1)
       , node_containers(make_branch_node_containers<NodeContainers>(
           std::make_index_sequence<mp_size<FnLists>::value>{}
@@ -351,32 +356,41 @@ namespace nbdl::webui::detail
       , renderers(construct_branch_renderers<Renderers>::apply(s))
     { }
 
-    void update_branch()
+    template <typename ParentElement>
+    static emscripten::val append_marker_node(ParentElement& p)
     {
-      // FIXME
-      // How do we know if the child is a branch and its element changes??
-      // Options:
-      // 1. We could flatten composed branches to prevent nesting.
-      // 2. Nested renderers could have a get_element function that refers
-      //    to this node's current element.
+      auto node = emscripten::val::global("document").template
+        call<emscripten::val>("createTextNode", emscripten::val(""));
+      p.template call<void>("appendChild", node);
+      return node;
+    }
 
+    void update_branch()
+    {
       std::size_t index = nbdl::ui_helper::get_branch_index<BranchSpec>(store);
       if (index != branch_id)
       {
         // Something changed! :D
-        if (branch_id != static_cast<std::size_t>(-1))
+        if (branch_id < node_containers.size())
         {
-          parent_el.template call<void>(
-            "replaceChild"
-          , node_containers[index]
-          , node_containers[branch_id]
-          );
+          emscripten::val node = begin_node["nextSibling"];
+          while (not node.strictlyEquals(end_node))
+          {
+            node_containers[branch_id].template call<void>("appendChild", node);
+            node = begin_node["nextSibling"];
+          }
         }
-        else
+
+        if (index < node_containers.size())
         {
-          parent_el.template call<void>("appendChild", node_containers[index]);
+          emscripten::val parent_el = end_node["parentNode"];
+          emscripten::val node = node_containers[index]["firstChild"];
+          while (not node.isNull())
+          {
+            parent_el.template call<void>("insertBefore", node, end_node);
+            node = node_containers[index]["firstChild"];
+          }
         }
-
       }
       branch_id = index;
     }
@@ -400,16 +414,16 @@ namespace nbdl::webui::detail
     template <typename ParentElement>
     decltype(auto) operator()(ParentElement&& p)
     {
-      parent_el = p;
-
-      auto temp_span = emscripten::val::global("document").template
-        call<emscripten::val>("createElement", emscripten::val("span"));
+      begin_node = append_marker_node(p);
+      end_node = append_marker_node(p);
 
       constexpr auto range = hana::make_range(hana::size_c<0>, mp_size<FnLists>{}); 
       hana::for_each(range, [&](auto index)
       {
-        hana::at(renderers, index).render(temp_span);
-        node_containers[decltype(index)::value] = temp_span["lastChild"];
+        constexpr std::size_t i = decltype(index)::value;
+        node_containers[i] = emscripten::val::global("document").template
+          call<emscripten::val>("createElement", emscripten::val("span"));
+        hana::at(renderers, index).render(node_containers[i]);
       });
 
       update_branch();
-- 
2.43.0


From 572e62a5dec1285eeb4fe3638fdbe9281bebdcb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:39 +0000
Subject: [PATCH 49/55] fix: a location outside the route prefix is an empty
 route

---
 include/nbdl/webui/nav_route.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nbdl/webui/nav_route.hpp b/include/nbdl/webui/nav_route.hpp
index d56e9b8..4fd5f91 100644
--- a/include/nbdl/webui/nav_route.hpp
+++ b/include/nbdl/webui/nav_route.hpp
@@ -78,8 +78,8 @@ namespace nbdl::webui
       void receive_event()
       {
         std::size_t length = EM_ASM_INT({
-          return window.location.pathname.length
-                 - Module.NBDL_WEBUI_NAV_URI_PREFIX.length;
+          return window.location.pathname.slice(
+            Module.NBDL_WEBUI_NAV_URI_PREFIX.length).length;
         }, 0);
         nbdl::string route(length, '\0');
 
-- 
2.43.0


From 1e703da9293a32d4bec8ab61d13935f5fd2db71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:39 +0000
Subject: [PATCH 50/55] fix: a route sent as text changes the store too

---
 include/nbdl/webui/nav_route.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/nbdl/webui/nav_route.hpp b/include/nbdl/webui/nav_route.hpp
index 4fd5f91..27163e4 100644
--- a/include/nbdl/webui/nav_route.hpp
+++ b/include/nbdl/webui/nav_route.hpp
@@ -165,6 +165,7 @@ namespace nbdl
       if constexpr(nbdl::webui::detail::is_nav_route_string_path<Message>)
       {
         webui::detail::web_route_update(message::get_payload(m));
+        p.receiver->virtual_(webui::detail::receive_event_s)(*p.receiver);
       }
       else if constexpr(nbdl::webui::detail::is_nav_route_path<Message>)
       {
-- 
2.43.0


From 8ae55d27f5f8044e4cbe8b63d5a23c9eb8e26c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:33 +0000
Subject: [PATCH 51/55] fix: answer a document that cannot be parsed once, not
 twice

---
 include/nbdl/app/serializer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/nbdl/app/serializer.hpp b/include/nbdl/app/serializer.hpp
index ab39de3..08cb47f 100644
--- a/include/nbdl/app/serializer.hpp
+++ b/include/nbdl/app/serializer.hpp
@@ -65,6 +65,7 @@ namespace nbdl::app
           nbdl::binder::jsoncpp::from_string(msg_buf, var);
         } catch(...) {
           resolve(make_error("JSONCPP Parse Error"));
+          return;
         }
 
         nbdl::match(std::move(var), hana::overload_linearly(
-- 
2.43.0


From 949a2f83388e6607fc894aeb4e6a373156efa02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:33 +0000
Subject: [PATCH 52/55] fix: the protocol of an address is what precedes ://

---
 include/nbdl/app/client_connection.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nbdl/app/client_connection.hpp b/include/nbdl/app/client_connection.hpp
index 8135e28..db2c5a3 100644
--- a/include/nbdl/app/client_connection.hpp
+++ b/include/nbdl/app/client_connection.hpp
@@ -31,7 +31,7 @@ namespace nbdl::app::client_connection_detail {
     std::string_view port{};
 
     if (pos != std::string_view::npos) {
-      protocol = std::string_view(address).substr(pos);
+      protocol = std::string_view(address).substr(0, pos);
       address.remove_prefix(pos + 3);
     }
 
-- 
2.43.0


From 9469d67d956115c727558595482b7b350f15014f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:33 +0000
Subject: [PATCH 53/55] fix: do not read a peer's request out of what a
 previous peer left in the buffer

---
 include/nbdl/ext/beast_ws.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/nbdl/ext/beast_ws.hpp b/include/nbdl/ext/beast_ws.hpp
index 762b7cb..77cdab4 100644
--- a/include/nbdl/ext/beast_ws.hpp
+++ b/include/nbdl/ext/beast_ws.hpp
@@ -48,6 +48,8 @@ namespace nbdl::ext::beast_ws::detail {
     template <typename Resolve>
     void operator()(Resolve&& resolve, stream_t &stream) {
       auto& req = resolve.get_state().request();
+      // what a previous peer sent is not part of this one's request
+      buffer.consume(buffer.size());
       http::async_read(stream.next_layer(), buffer, req, [&](auto error, std::size_t) {
         (not error) ? resolve(stream) :
                       resolve(make_error(error));
-- 
2.43.0


From 9667febbeac2701881ebd9aa87ad9d5da15cea3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:38 +0000
Subject: [PATCH 54/55] fix: drop a peer that sends the JavaScript server text
 which is not JSON

---
 include/nbdl/app/server_js.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/nbdl/app/server_js.hpp b/include/nbdl/app/server_js.hpp
index 3ff2f83..65e6d1d 100644
--- a/include/nbdl/app/server_js.hpp
+++ b/include/nbdl/app/server_js.hpp
@@ -62,7 +62,9 @@ namespace nbdl::app {
           server.on('connection', function connection(conn) {
             add_connection(conn);
             conn.on('message', function message(data) {
-              on_message([conn, JSON.parse(data)]);
+              var msg = -1; /* no message has this id */
+              try { msg = JSON.parse(data); } catch (e) { }
+              on_message([conn, msg]);
             });
           });
         },
-- 
2.43.0


From c458b94aa41d7b739ff71b24f85360e1ba3a30b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:27 +0000
Subject: [PATCH 55/55] fix: the JavaScript server forgets a connection that is
 closed

---
 include/nbdl/app/server_js.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/nbdl/app/server_js.hpp b/include/nbdl/app/server_js.hpp
index 65e6d1d..d9edb86 100644
--- a/include/nbdl/app/server_js.hpp
+++ b/include/nbdl/app/server_js.hpp
@@ -33,6 +33,7 @@ namespace nbdl::app {
     Context context_;
     nbdl::js::callback_t add_connection_cb;
     nbdl::js::callback_t on_message_cb;
+    nbdl::js::callback_t remove_connection_cb;
     nbdl::js::val ws_val = {};
     serializer_downstream<ContextTag> serializer_ = {};
     std::vector<nbdl::js::val> connections = {};
@@ -48,6 +49,9 @@ namespace nbdl::app {
       , on_message_cb(nbdl::js::callback([this](nbdl::js::val x) {
           receive_message(x);
         }))
+      , remove_connection_cb(nbdl::js::callback([this](nbdl::js::val x) {
+          remove_connection(x);
+        }))
       , port(a.value.port)
     { }
 
@@ -59,8 +63,12 @@ namespace nbdl::app {
           Module.NBDL_DETAIL_JS_SET($1, server);
           var add_connection = Module.NBDL_DETAIL_JS_GET($2);
           var on_message     = Module.NBDL_DETAIL_JS_GET($3);
+          var remove_connection = Module.NBDL_DETAIL_JS_GET($4);
           server.on('connection', function connection(conn) {
             add_connection(conn);
+            conn.on('close', function close() {
+              remove_connection(conn);
+            });
             conn.on('message', function message(data) {
               var msg = -1; /* no message has this id */
               try { msg = JSON.parse(data); } catch (e) { }
@@ -71,7 +79,8 @@ namespace nbdl::app {
         port,
         nbdl::js::get_handle(ws_val),
         nbdl::js::get_handle(add_connection_cb),
-        nbdl::js::get_handle(on_message_cb)
+        nbdl::js::get_handle(on_message_cb),
+        nbdl::js::get_handle(remove_connection_cb)
       );
     }
 
@@ -125,6 +134,10 @@ namespace nbdl::app {
         nbdl::js::get_handle(conn)
       );
 
+      remove_connection(conn);
+    }
+
+    void remove_connection(nbdl::js::val const& conn) {
       // Erase it from connections.
       std::erase_if(connections,
         [&](nbdl::js::val& x) {
-- 
2.43.0

