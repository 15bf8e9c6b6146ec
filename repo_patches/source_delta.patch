From 650e4dd3285d4d5fc8ebf8e1693dcc7966299f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:46 +0000
Subject: [PATCH 01/47] fix: send FIN when a message is ended after all its
 data was sent

---
 bnl/http3/src/endpoint/stream/request.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bnl/http3/src/endpoint/stream/request.cpp b/bnl/http3/src/endpoint/stream/request.cpp
index 48e1b74..d9714e7 100644
--- a/bnl/http3/src/endpoint/stream/request.cpp
+++ b/bnl/http3/src/endpoint/stream/request.cpp
@@ -77,6 +77,12 @@ sender::send() noexcept
     }
 
     case state::body: {
+      if (body_.finished()) {
+        // `fin` was called after all queued body data was already sent.
+        state_ = state::fin;
+        return quic::data{ id_, true, base::buffer() };
+      }
+
       base::buffer encoded = BNL_TRY(body_.encode());
 
       if (body_.finished()) {
-- 
2.43.0


From 485d041962b806f1ed92de94f215096933a35f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:46 +0000
Subject: [PATCH 02/47] fix: complete zero-length DATA frames as soon as they
 are received

---
 bnl/http3/src/codec/body.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bnl/http3/src/codec/body.cpp b/bnl/http3/src/codec/body.cpp
index 347b1df..ed6b3e1 100644
--- a/bnl/http3/src/codec/body.cpp
+++ b/bnl/http3/src/codec/body.cpp
@@ -93,6 +93,10 @@ decoder::decode(Sequence &encoded)
 
       frame frame = BNL_TRY(frame::decode(encoded));
 
+      if (frame.data.size == 0) {
+        return base::buffer();
+      }
+
       state_ = state::data;
       remaining_ = frame.data.size;
     }
-- 
2.43.0


From f865cc1aa15c42b9fbeb4c4b17c889886481b6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:46 +0000
Subject: [PATCH 03/47] fix: skip the payload of unknown frames when peeking at
 the next frame

---
 bnl/http3/src/codec/frame/decode.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/bnl/http3/src/codec/frame/decode.cpp b/bnl/http3/src/codec/frame/decode.cpp
index 7283b88..aac51a6 100644
--- a/bnl/http3/src/codec/frame/decode.cpp
+++ b/bnl/http3/src/codec/frame/decode.cpp
@@ -26,8 +26,17 @@ frame::peek(const Sequence &encoded) noexcept
       case frame::type::duplicate_push:
         return static_cast<frame::type>(type);
       default:
-        continue;
+        break;
     }
+
+    // Skip unknown frames the same way `decode` does.
+    uint64_t payload_encoded_size = BNL_TRY(varint::decode(lookahead));
+
+    if (payload_encoded_size > lookahead.size()) {
+      return error::incomplete;
+    }
+
+    lookahead.consume(static_cast<size_t>(payload_encoded_size));
   }
 
   assert(false);
-- 
2.43.0


From c595f7dfe1f2b590463a07bdb569b73fcf097361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:46 +0000
Subject: [PATCH 04/47] fix: reject starting a message that has no headers

---
 bnl/http3/src/codec/headers.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bnl/http3/src/codec/headers.cpp b/bnl/http3/src/codec/headers.cpp
index 4176342..68a87fb 100644
--- a/bnl/http3/src/codec/headers.cpp
+++ b/bnl/http3/src/codec/headers.cpp
@@ -20,7 +20,8 @@ encoder::add(header_view header)
 result<void>
 encoder::fin() noexcept
 {
-  if (state_ != state::idle) {
+  // A HEADERS frame without any headers cannot be encoded.
+  if (state_ != state::idle || buffers_.empty()) {
     return error::internal;
   }
 
-- 
2.43.0


From 8feb35507567eafe36a297ad51ff9d0716b0d043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:45 +0000
Subject: [PATCH 05/47] fix: report a message as finished when FIN arrives on
 its own

---
 bnl/http3/src/endpoint/stream/request.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/bnl/http3/src/endpoint/stream/request.cpp b/bnl/http3/src/endpoint/stream/request.cpp
index d9714e7..abf107b 100644
--- a/bnl/http3/src/endpoint/stream/request.cpp
+++ b/bnl/http3/src/endpoint/stream/request.cpp
@@ -311,11 +311,29 @@ receiver::process() noexcept
   };
 
   if (error == error::incomplete && fin_received_) {
+    if (state_ == state::body && !body_.in_progress()) {
+      // Unknown frames are allowed between the last DATA frame and FIN.
+      result<http3::frame> r = frame::decode(buffers_);
+
+      if (!r && buffers_.empty()) {
+        state_ = state::fin;
+        return event::payload::finished{ id_ };
+      }
+    }
+
     return error::malformed_frame;
   }
 
   if (error == error::delegate) {
-    frame frame = BNL_TRY(frame::decode(buffers_));
+    result<http3::frame> r = frame::decode(buffers_);
+    if (!r) {
+      // The peer cannot complete a partial frame anymore after FIN.
+      return r.error() == error::incomplete && fin_received_
+               ? error::malformed_frame
+               : r.error();
+    }
+
+    frame frame = std::move(r).value();
 
     switch (frame) {
       case frame::type::headers:
-- 
2.43.0


From 520b6e06ec67159c841526a5fbd339c2b4fd4163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:45 +0000
Subject: [PATCH 06/47] fix: ignore only the trailing headers themselves and
 finish at FIN

---
 .../bnl/http3/endpoint/stream/request.hpp     |  3 +-
 bnl/http3/src/endpoint/stream/request.cpp     | 32 +++++++++++++++----
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/bnl/http3/include/bnl/http3/endpoint/stream/request.hpp b/bnl/http3/include/bnl/http3/endpoint/stream/request.hpp
index d0b8a32..8253b59 100644
--- a/bnl/http3/include/bnl/http3/endpoint/stream/request.hpp
+++ b/bnl/http3/include/bnl/http3/endpoint/stream/request.hpp
@@ -99,9 +99,10 @@ protected:
   const headers::decoder &headers() const noexcept;
 
 private:
-  enum class state : uint8_t { closed, headers, body, fin };
+  enum class state : uint8_t { closed, headers, body, trailers, fin };
 
   state state_ = state::closed;
+  uint64_t trailers_size_ = 0;
   base::buffers buffers_;
   bool fin_received_ = false;
 
diff --git a/bnl/http3/src/endpoint/stream/request.cpp b/bnl/http3/src/endpoint/stream/request.cpp
index abf107b..6c50842 100644
--- a/bnl/http3/src/endpoint/stream/request.cpp
+++ b/bnl/http3/src/endpoint/stream/request.cpp
@@ -306,13 +306,33 @@ receiver::process() noexcept
       return event::payload::body{ id_, fin, std::move(r).value() };
     }
 
+    case state::trailers: {
+      size_t size = trailers_size_ < buffers_.size()
+                      ? static_cast<size_t>(trailers_size_)
+                      : buffers_.size();
+      buffers_.consume(size);
+      trailers_size_ -= size;
+
+      if (trailers_size_ != 0) {
+        error = error::incomplete;
+        break;
+      }
+
+      result<frame::type> r = frame::peek(buffers_);
+      error = r ? error::delegate : r.error();
+      break;
+    }
+
     case state::fin:
       return event::payload::finished{ id_ };
   };
 
   if (error == error::incomplete && fin_received_) {
-    if (state_ == state::body && !body_.in_progress()) {
-      // Unknown frames are allowed between the last DATA frame and FIN.
+    bool complete = (state_ == state::body && !body_.in_progress()) ||
+                    (state_ == state::trailers && trailers_size_ == 0);
+
+    if (complete) {
+      // Unknown frames are allowed between the last known frame and FIN.
       result<http3::frame> r = frame::decode(buffers_);
 
       if (!r && buffers_.empty()) {
@@ -340,11 +360,11 @@ receiver::process() noexcept
         // TODO: Implement trailing HEADERS
         if (state_ == receiver::state::body) {
           BNL_LOG_W("Ignoring trailing headers");
-          buffers_.consume(buffers_.size());
-          state_ = state::fin;
-          return event::payload::body{ id_, true, base::buffer() };
+          trailers_size_ = frame.headers.size;
+          state_ = state::trailers;
+          return process();
         }
-        break;
+        return process(frame);
       case frame::type::data:
         return error::unexpected_frame;
       case frame::type::settings:
-- 
2.43.0


From fc94b509aa92290049bd53505490e5c35518ba37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:45 +0000
Subject: [PATCH 07/47] fix: keep a request on the server until it is received
 and answered

---
 .../bnl/http3/endpoint/stream/request.hpp       |  1 +
 bnl/http3/src/endpoint/stream/request.cpp       |  5 +++--
 bnl/http3/src/server/connection.cpp             | 17 ++++++++++++++---
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/bnl/http3/include/bnl/http3/endpoint/stream/request.hpp b/bnl/http3/include/bnl/http3/endpoint/stream/request.hpp
index 8253b59..0efd14d 100644
--- a/bnl/http3/include/bnl/http3/endpoint/stream/request.hpp
+++ b/bnl/http3/include/bnl/http3/endpoint/stream/request.hpp
@@ -105,6 +105,7 @@ private:
   uint64_t trailers_size_ = 0;
   base::buffers buffers_;
   bool fin_received_ = false;
+  bool finished_ = false;
 
   headers::decoder headers_;
   body::decoder body_;
diff --git a/bnl/http3/src/endpoint/stream/request.cpp b/bnl/http3/src/endpoint/stream/request.cpp
index 6c50842..622634b 100644
--- a/bnl/http3/src/endpoint/stream/request.cpp
+++ b/bnl/http3/src/endpoint/stream/request.cpp
@@ -222,7 +222,7 @@ receiver::closed() const noexcept
 bool
 receiver::finished() const noexcept
 {
-  return state_ == state::fin;
+  return finished_;
 }
 
 result<void>
@@ -324,6 +324,7 @@ receiver::process() noexcept
     }
 
     case state::fin:
+      finished_ = true;
       return event::payload::finished{ id_ };
   };
 
@@ -337,7 +338,7 @@ receiver::process() noexcept
 
       if (!r && buffers_.empty()) {
         state_ = state::fin;
-        return event::payload::finished{ id_ };
+        return process();
       }
     }
 
diff --git a/bnl/http3/src/server/connection.cpp b/bnl/http3/src/server/connection.cpp
index d25cf9d..a01558f 100644
--- a/bnl/http3/src/server/connection.cpp
+++ b/bnl/http3/src/server/connection.cpp
@@ -30,7 +30,8 @@ connection::send() noexcept
 
     result<quic::event> r = request.send();
     if (r) {
-      if (request.finished()) {
+      // The rest of the request can still arrive after the response is sent.
+      if (request.finished() && entry.second.second.finished()) {
         requests_.erase(id);
       }
 
@@ -105,9 +106,19 @@ connection::process(uint64_t id)
     return event;
   }
 
-  server::stream::request::receiver &request = requests_.at(id).second;
+  auto match = requests_.find(id);
+  // TODO: Better error
+  if (match == requests_.end()) {
+    return error::internal;
+  }
+
+  event event = BNL_TRY(match->second.second.process());
+
+  if (event == event::type::finished && match->second.first.finished()) {
+    requests_.erase(match);
+  }
 
-  return request.process();
+  return event;
 }
 
 result<response::handle>
-- 
2.43.0


From 67fc8fc9be0f24505efed8920995a55ea019ca06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:45 +0000
Subject: [PATCH 08/47] fix: keep sending a request whose response finished
 early

---
 bnl/http3/src/client/connection.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bnl/http3/src/client/connection.cpp b/bnl/http3/src/client/connection.cpp
index 8979b03..2f020af 100644
--- a/bnl/http3/src/client/connection.cpp
+++ b/bnl/http3/src/client/connection.cpp
@@ -37,6 +37,10 @@ connection::send() noexcept
         BNL_TRY(receiver.start());
       }
 
+      if (sender.finished() && receiver.finished()) {
+        requests_.erase(entry.first);
+      }
+
       return r;
     }
 
@@ -126,8 +130,9 @@ connection::process(uint64_t id)
 
   event event = BNL_TRY(request.process());
 
-  if (event == event::type::finished) {
-    requests_.erase(id);
+  // The response can finish before all of the request is sent.
+  if (event == event::type::finished && match->second.first.finished()) {
+    requests_.erase(match);
   }
 
   return event;
-- 
2.43.0


From 27f48fcbbc1baf7b783b67b7b856203c12bdad9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:23 +0000
Subject: [PATCH 09/47] fix: ignore client unidirectional streams on the server

---
 bnl/http3/src/server/connection.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bnl/http3/src/server/connection.cpp b/bnl/http3/src/server/connection.cpp
index a01558f..b0496f1 100644
--- a/bnl/http3/src/server/connection.cpp
+++ b/bnl/http3/src/server/connection.cpp
@@ -71,6 +71,11 @@ connection::recv(quic::data data)
     return control.recv(std::move(data));
   };
 
+  // TODO: Actually handle unidirectional streams.
+  if ((data.id & 0x2U) != 0) {
+    return base::success();
+  }
+
   auto match = requests_.find(data.id);
   if (match == requests_.end()) {
     server::stream::request::sender sender(data.id);
@@ -106,6 +111,11 @@ connection::process(uint64_t id)
     return event;
   }
 
+  // TODO: Actually handle unidirectional streams.
+  if ((id & 0x2U) != 0) {
+    return error::incomplete;
+  }
+
   auto match = requests_.find(id);
   // TODO: Better error
   if (match == requests_.end()) {
-- 
2.43.0


From 0f6b0fa1ae3ba4ba04977e7a088a44b5381c5980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:23 +0000
Subject: [PATCH 10/47] fix: report an unexpected control stream type instead
 of asserting

---
 bnl/http3/src/endpoint/stream/control.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/bnl/http3/src/endpoint/stream/control.cpp b/bnl/http3/src/endpoint/stream/control.cpp
index c204910..501c48e 100644
--- a/bnl/http3/src/endpoint/stream/control.cpp
+++ b/bnl/http3/src/endpoint/stream/control.cpp
@@ -68,9 +68,15 @@ receiver::process() noexcept
     // TODO: Move this out of control stream since we technically won't know its
     // the control stream until we've decoded the type.
     case state::type: {
-      uint64_t type = BNL_TRY(varint::decode(buffers_));
-      (void) type; // Silence GCC 9 Wunused-variable warning
-      assert(type == control::type);
+      base::buffers::lookahead_type lookahead(buffers_);
+      uint64_t type = BNL_TRY(varint::decode(lookahead));
+
+      if (type != control::type) {
+        BNL_LOG_E("Control stream has an unexpected stream type ({})", type);
+        return error::wrong_stream;
+      }
+
+      buffers_.consume(lookahead.consumed());
       state_ = state::settings;
     }
     /* FALLTHRU */
-- 
2.43.0


From 773694dbc5945842a64f4fa31ff0025302457dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:23 +0000
Subject: [PATCH 11/47] fix: detach replaced handles from their sender

---
 bnl/http3/src/endpoint/stream/request.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/bnl/http3/src/endpoint/stream/request.cpp b/bnl/http3/src/endpoint/stream/request.cpp
index 622634b..32cb406 100644
--- a/bnl/http3/src/endpoint/stream/request.cpp
+++ b/bnl/http3/src/endpoint/stream/request.cpp
@@ -30,6 +30,10 @@ sender &
 sender::operator=(sender &&other) noexcept
 {
   if (&other != this) {
+    if (handle_ != nullptr) {
+      handle_->sender_ = nullptr;
+    }
+
     handle_ = other.handle_;
     state_ = other.state_;
     headers_ = std::move(other.headers_);
@@ -128,6 +132,11 @@ sender::handle::handle(sender *sender)
   : id_(sender->id_)
   , sender_(sender)
 {
+  // Only a single handle can refer to a sender.
+  if (sender_->handle_ != nullptr) {
+    sender_->handle_->sender_ = nullptr;
+  }
+
   sender_->handle_ = this;
 }
 
@@ -141,6 +150,10 @@ sender::handle &
 sender::handle::operator=(sender::handle &&other) noexcept
 {
   if (&other != this) {
+    if (sender_ != nullptr) {
+      sender_->handle_ = nullptr;
+    }
+
     id_ = other.id_;
     sender_ = other.sender_;
     other.id_ = UINT64_MAX;
-- 
2.43.0


From d847c1d69d4f3db24e79e7b0b0f3b19ef6f676b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:23 +0000
Subject: [PATCH 12/47] fix: decode prefixed integers beyond 32 bits and bound
 their size

---
 bnl/http3/src/codec/qpack/prefix_int/decode.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/bnl/http3/src/codec/qpack/prefix_int/decode.cpp b/bnl/http3/src/codec/qpack/prefix_int/decode.cpp
index 9fa5498..d12e017 100644
--- a/bnl/http3/src/codec/qpack/prefix_int/decode.cpp
+++ b/bnl/http3/src/codec/qpack/prefix_int/decode.cpp
@@ -26,7 +26,7 @@ decode(Sequence &encoded, uint8_t prefix) noexcept
 {
   typename Sequence::lookahead_type lookahead(encoded);
 
-  uint64_t result = BNL_TRY(uint8_decode(encoded));
+  uint64_t result = BNL_TRY(uint8_decode(lookahead));
 
   uint8_t prefix_max = static_cast<uint8_t>((1U << prefix) - 1);
   result &= prefix_max;
@@ -35,8 +35,15 @@ decode(Sequence &encoded, uint8_t prefix) noexcept
     uint64_t offset = 0;
     uint8_t byte = 0;
     do {
-      byte = BNL_TRY(uint8_decode(encoded));
-      result += (byte & 127U) * (1U << offset);
+      byte = BNL_TRY(uint8_decode(lookahead));
+
+      // https://quicwg.org/base-drafts/draft-ietf-quic-qpack.html#prefixed-integers
+      // requires decoding integers of up to 62 bits.
+      if (offset > 56) {
+        return error::qpack_decompression_failed;
+      }
+
+      result += static_cast<uint64_t>(byte & 127U) << offset;
       offset += 7;
     } while ((byte & 128U) == 128);
   }
-- 
2.43.0


From 7b741b77a8422d59dae93e5ba71b9b33af70655d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:23 +0000
Subject: [PATCH 13/47] fix: reject static table indices that do not fit in 8
 bits

---
 bnl/http3/src/codec/qpack/decode.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/bnl/http3/src/codec/qpack/decode.cpp b/bnl/http3/src/codec/qpack/decode.cpp
index c01bf84..672cedd 100644
--- a/bnl/http3/src/codec/qpack/decode.cpp
+++ b/bnl/http3/src/codec/qpack/decode.cpp
@@ -47,11 +47,14 @@ decoder::decode(Sequence &encoded)
         return error::qpack_decompression_failed;
       }
 
-      uint8_t index =
-        static_cast<uint8_t>(BNL_TRY(prefix_int::decode(lookahead, 6)));
+      uint64_t index = BNL_TRY(prefix_int::decode(lookahead, 6));
 
       bool found = false;
-      std::tie(found, header) = table::fixed::find_header_value(index);
+
+      if (index <= UINT8_MAX) {
+        std::tie(found, header) =
+          table::fixed::find_header_value(static_cast<uint8_t>(index));
+      }
 
       if (!found) {
         BNL_LOG_E("Indexed header field ({}) not found in static table", index);
@@ -68,12 +71,15 @@ decoder::decode(Sequence &encoded)
         return error::qpack_decompression_failed;
       }
 
-      uint8_t index =
-        static_cast<uint8_t>(BNL_TRY(prefix_int::decode(lookahead, 4)));
+      uint64_t index = BNL_TRY(prefix_int::decode(lookahead, 4));
 
       bool found = false;
       base::string name;
-      std::tie(found, name) = table::fixed::find_header_only(index);
+
+      if (index <= UINT8_MAX) {
+        std::tie(found, name) =
+          table::fixed::find_header_only(static_cast<uint8_t>(index));
+      }
 
       if (!found) {
         BNL_LOG_E("Header name reference ({}) not found in static table",
-- 
2.43.0


From 0b328d76c14f5bb4ee7be43f489ab26279a43e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:23 +0000
Subject: [PATCH 14/47] fix: decode indexed header fields of static table
 entries without a value

---
 bnl/http3/src/codec/qpack/decode.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/bnl/http3/src/codec/qpack/decode.cpp b/bnl/http3/src/codec/qpack/decode.cpp
index 672cedd..580d951 100644
--- a/bnl/http3/src/codec/qpack/decode.cpp
+++ b/bnl/http3/src/codec/qpack/decode.cpp
@@ -54,6 +54,14 @@ decoder::decode(Sequence &encoded)
       if (index <= UINT8_MAX) {
         std::tie(found, header) =
           table::fixed::find_header_value(static_cast<uint8_t>(index));
+
+        // Static table entries can have an empty value.
+        if (!found) {
+          base::string name;
+          std::tie(found, name) =
+            table::fixed::find_header_only(static_cast<uint8_t>(index));
+          header = http3::header(std::move(name), base::string());
+        }
       }
 
       if (!found) {
-- 
2.43.0


From b41b9a1f0b9ea406729bc0649ca53b14a838617d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:23 +0000
Subject: [PATCH 15/47] fix: encode huffman codes that leave a whole number of
 bytes

---
 bnl/http3/src/codec/qpack/huffman/encode.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bnl/http3/src/codec/qpack/huffman/encode.cpp b/bnl/http3/src/codec/qpack/huffman/encode.cpp
index 332aecb..35bc011 100644
--- a/bnl/http3/src/codec/qpack/huffman/encode.cpp
+++ b/bnl/http3/src/codec/qpack/huffman/encode.cpp
@@ -76,7 +76,8 @@ symbol_encode(uint8_t *dest, size_t *rem_bits, const encoding::symbol &symbol)
     }
 
     while (num_bits > 8) {
-      *dest = static_cast<uint8_t>(code >> (num_bits - (num_bits % 8)));
+      // The remaining code bits are aligned to a byte boundary.
+      *dest = static_cast<uint8_t>(code >> (((num_bits + 7) & ~0x7U) - 8));
 
       dest++;
       num_bits -= 8;
-- 
2.43.0


From 2f6e6171e586d9034157fff2e45cf4daf0e094ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:23 +0000
Subject: [PATCH 16/47] fix: accept empty huffman encoded strings

---
 bnl/http3/src/codec/qpack/huffman/decode.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bnl/http3/src/codec/qpack/huffman/decode.cpp b/bnl/http3/src/codec/qpack/huffman/decode.cpp
index b7b5d32..8f64beb 100644
--- a/bnl/http3/src/codec/qpack/huffman/decode.cpp
+++ b/bnl/http3/src/codec/qpack/huffman/decode.cpp
@@ -43,7 +43,8 @@ decoded_size(const Lookahead &encoded, size_t encoded_size) noexcept
 
   size_t decoded_size = 0;
   uint8_t state = 0;
-  bool accept = false;
+  // An empty string is valid.
+  bool accept = true;
 
   for (size_t i = 0; i < encoded_size; i++) {
     const decoding::node &first = decoding::table[state][encoded[i] >> 4U];
-- 
2.43.0


From aef222fac19bc3b62c80733d23df46bdc5d4a049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:23 +0000
Subject: [PATCH 17/47] fix: do not record FIN when its data could not be
 stored

---
 bnl/http3/src/endpoint/stream/request.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bnl/http3/src/endpoint/stream/request.cpp b/bnl/http3/src/endpoint/stream/request.cpp
index 32cb406..728b578 100644
--- a/bnl/http3/src/endpoint/stream/request.cpp
+++ b/bnl/http3/src/endpoint/stream/request.cpp
@@ -261,8 +261,8 @@ receiver::recv(quic::data data)
     return error::internal;
   }
 
-  fin_received_ = data.fin;
   buffers_.push(std::move(data.buffer));
+  fin_received_ = data.fin;
 
   return base::success();
 }
-- 
2.43.0


From b5c5c2a8e12dc4252313d63d2298b75259345cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:47 +0000
Subject: [PATCH 18/47] fix: keep the header block consistent when adding a
 header fails

---
 bnl/base/include/bnl/base/buffers.hpp | 1 +
 bnl/base/src/base/buffers.cpp         | 6 ++++++
 bnl/http3/src/codec/headers.cpp       | 8 ++++++--
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/bnl/base/include/bnl/base/buffers.hpp b/bnl/base/include/bnl/base/buffers.hpp
index aa24b28..3505185 100644
--- a/bnl/base/include/bnl/base/buffers.hpp
+++ b/bnl/base/include/bnl/base/buffers.hpp
@@ -32,6 +32,7 @@ public:
 
   const buffer &front() const noexcept;
   const buffer &back() const noexcept;
+  buffer &back() noexcept;
 
   void consume(size_t size) noexcept;
 
diff --git a/bnl/base/src/base/buffers.cpp b/bnl/base/src/base/buffers.cpp
index fc1d2f4..13278cc 100644
--- a/bnl/base/src/base/buffers.cpp
+++ b/bnl/base/src/base/buffers.cpp
@@ -111,6 +111,12 @@ buffers::back() const noexcept
   return buffers_.back();
 }
 
+buffer &
+buffers::back() noexcept
+{
+  return buffers_.back();
+}
+
 void
 buffers::consume(size_t size) noexcept
 {
diff --git a/bnl/http3/src/codec/headers.cpp b/bnl/http3/src/codec/headers.cpp
index 68a87fb..2d4dc47 100644
--- a/bnl/http3/src/codec/headers.cpp
+++ b/bnl/http3/src/codec/headers.cpp
@@ -11,8 +11,12 @@ encoder::add(header_view header)
     return error::internal;
   }
 
-  base::buffer encoded = BNL_TRY(qpack_.encode(header));
-  buffers_.push(std::move(encoded));
+  // Allocate before encoding so a failed allocation doesn't leave a header
+  // counted that is never sent.
+  size_t encoded_size = BNL_TRY(qpack_.encoded_size(header));
+  buffers_.push(base::buffer(encoded_size));
+
+  BNL_TRY(qpack_.encode(buffers_.back().data(), header));
 
   return base::success();
 }
-- 
2.43.0


From 0e356dc37920424fc7b5e1af11e9ecabcba4043c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:44 +0000
Subject: [PATCH 19/47] fix: keep qpack-interop-decode inside the list it is
 decoding

---
 bnl/http3/app/qpack/qpack-interop-decode.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/bnl/http3/app/qpack/qpack-interop-decode.cpp b/bnl/http3/app/qpack/qpack-interop-decode.cpp
index f919f3b..60a9b46 100644
--- a/bnl/http3/app/qpack/qpack-interop-decode.cpp
+++ b/bnl/http3/app/qpack/qpack-interop-decode.cpp
@@ -60,11 +60,18 @@ decode(base::buffer &encoded, std::ofstream &output)
   BNL_TRY(id_decode(encoded));
   size_t encoded_size = BNL_TRY(size_decode(encoded));
 
+  if (encoded_size > encoded.size()) {
+    return http3::error::incomplete;
+  }
+
+  // Headers cannot extend past the end of the list they're in.
+  base::buffer list = encoded.slice(encoded_size);
+
   http3::qpack::decoder qpack;
   std::vector<http3::header> headers;
 
-  while (qpack.count() != encoded_size) {
-    http3::header header = BNL_TRY(qpack.decode(encoded));
+  while (!list.empty()) {
+    http3::header header = BNL_TRY(qpack.decode(list));
     headers.emplace_back(std::move(header));
   }
 
-- 
2.43.0


From dc1c1b2a26fd9ee133050f144c68794522addfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:44 +0000
Subject: [PATCH 20/47] fix: report failed writes in qpack-interop-decode

---
 bnl/http3/app/qpack/qpack-interop-decode.cpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/bnl/http3/app/qpack/qpack-interop-decode.cpp b/bnl/http3/app/qpack/qpack-interop-decode.cpp
index 60a9b46..311c2af 100644
--- a/bnl/http3/app/qpack/qpack-interop-decode.cpp
+++ b/bnl/http3/app/qpack/qpack-interop-decode.cpp
@@ -129,12 +129,20 @@ main(int argc, char *argv[])
 
   // Decode input
 
-  while (!encoded.empty()) {
-    http3::result<void> r = decode(encoded, output);
-    if (!r) {
-      BNL_LOG_E("Error decoding headers");
-      return 1;
+  try {
+    while (!encoded.empty()) {
+      http3::result<void> r = decode(encoded, output);
+      if (!r) {
+        BNL_LOG_E("Error decoding headers");
+        return 1;
+      }
     }
+
+    // Buffered output is only known to be written once the file is closed.
+    output.close();
+  } catch (const std::ios_base::failure &e) {
+    BNL_LOG_E("Error writing output: {}", e.what());
+    return 1;
   }
 
   return 0;
-- 
2.43.0


From cf184566dd4f848724811c1dae2a41725a7428d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:44 +0000
Subject: [PATCH 21/47] fix: report failed reads and writes in
 qpack-interop-encode

---
 bnl/http3/app/qpack/qpack-interop-encode.cpp | 52 +++++++++++---------
 1 file changed, 30 insertions(+), 22 deletions(-)

diff --git a/bnl/http3/app/qpack/qpack-interop-encode.cpp b/bnl/http3/app/qpack/qpack-interop-encode.cpp
index b22c71c..c5deea5 100644
--- a/bnl/http3/app/qpack/qpack-interop-encode.cpp
+++ b/bnl/http3/app/qpack/qpack-interop-encode.cpp
@@ -117,36 +117,44 @@ main(int argc, char *argv[])
   uint64_t id = 1;
   std::vector<http3::header> headers;
 
-  while (std::getline(input, line)) {
-    if (line.empty()) {
-      if (headers.empty()) {
+  try {
+    while (std::getline(input, line)) {
+      if (line.empty()) {
+        if (headers.empty()) {
+          continue;
+        }
+
+        http3::result<void> r = encode(id, headers, output);
+        if (!r) {
+          BNL_LOG_E("Error encoding headers");
+          return 1;
+        }
+
+        id++;
+        headers.clear();
+
         continue;
       }
 
-      http3::result<void> r = encode(id, headers, output);
-      if (!r) {
-        BNL_LOG_E("Error encoding headers");
-        return 1;
+      if (line[0] == '#') {
+        continue;
       }
 
-      id++;
-      headers.clear();
-
-      continue;
-    }
-
-    if (line[0] == '#') {
-      continue;
-    }
+      size_t i = line.find('\t');
+      if (i == base::string::npos) {
+        BNL_LOG_E("Missing TAB character");
+        return 1;
+      }
 
-    size_t i = line.find('\t');
-    if (i == base::string::npos) {
-      BNL_LOG_E("Missing TAB character");
-      return 1;
+      http3::header header(line.substr(0, i), line.substr(i + 1));
+      headers.emplace_back(std::move(header));
     }
 
-    http3::header header(line.substr(0, i), line.substr(i + 1));
-    headers.emplace_back(std::move(header));
+    // Buffered output is only known to be written once the file is closed.
+    output.close();
+  } catch (const std::ios_base::failure &e) {
+    BNL_LOG_E("Error reading input or writing output: {}", e.what());
+    return 1;
   }
 
   return 0;
-- 
2.43.0


From 6c48b32dd16b3227f07b03b65526372c2611893f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:44 +0000
Subject: [PATCH 22/47] fix: encode a last list without trailing empty line in
 qpack-interop-encode

---
 bnl/http3/app/qpack/qpack-interop-encode.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/bnl/http3/app/qpack/qpack-interop-encode.cpp b/bnl/http3/app/qpack/qpack-interop-encode.cpp
index c5deea5..a9b5c0a 100644
--- a/bnl/http3/app/qpack/qpack-interop-encode.cpp
+++ b/bnl/http3/app/qpack/qpack-interop-encode.cpp
@@ -150,6 +150,15 @@ main(int argc, char *argv[])
       headers.emplace_back(std::move(header));
     }
 
+    // The last list is not necessarily followed by an empty line.
+    if (!headers.empty()) {
+      http3::result<void> r = encode(id, headers, output);
+      if (!r) {
+        BNL_LOG_E("Error encoding headers");
+        return 1;
+      }
+    }
+
     // Buffered output is only known to be written once the file is closed.
     output.close();
   } catch (const std::ios_base::failure &e) {
-- 
2.43.0


From bee6997dea418c6b83b823d19da81fbf065efff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:10 +0000
Subject: [PATCH 23/47] Revert "fix: keep qpack-interop-decode inside the list
 it is decoding"

It changed nothing that can be observed: a list whose size does not fall on
the end of a header field was refused before as well.
---
 bnl/http3/app/qpack/qpack-interop-decode.cpp | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/bnl/http3/app/qpack/qpack-interop-decode.cpp b/bnl/http3/app/qpack/qpack-interop-decode.cpp
index 311c2af..f94c183 100644
--- a/bnl/http3/app/qpack/qpack-interop-decode.cpp
+++ b/bnl/http3/app/qpack/qpack-interop-decode.cpp
@@ -60,18 +60,11 @@ decode(base::buffer &encoded, std::ofstream &output)
   BNL_TRY(id_decode(encoded));
   size_t encoded_size = BNL_TRY(size_decode(encoded));
 
-  if (encoded_size > encoded.size()) {
-    return http3::error::incomplete;
-  }
-
-  // Headers cannot extend past the end of the list they're in.
-  base::buffer list = encoded.slice(encoded_size);
-
   http3::qpack::decoder qpack;
   std::vector<http3::header> headers;
 
-  while (!list.empty()) {
-    http3::header header = BNL_TRY(qpack.decode(list));
+  while (qpack.count() != encoded_size) {
+    http3::header header = BNL_TRY(qpack.decode(encoded));
     headers.emplace_back(std::move(header));
   }
 
-- 
2.43.0


From 8614852586566a4c62f839ca7ec334b2a00b999f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:46 +0000
Subject: [PATCH 24/47] fix: literal and prefix_int encode() into an
 uninitialised first byte

The overloads that return a buffer left the bits before the prefix, and so
also the Huffman flag of a literal, to whatever the memory held.
---
 bnl/http3/src/codec/qpack/literal/encode.cpp    | 2 ++
 bnl/http3/src/codec/qpack/prefix_int/encode.cpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/bnl/http3/src/codec/qpack/literal/encode.cpp b/bnl/http3/src/codec/qpack/literal/encode.cpp
index e2fbc2f..f7c7ca8 100644
--- a/bnl/http3/src/codec/qpack/literal/encode.cpp
+++ b/bnl/http3/src/codec/qpack/literal/encode.cpp
@@ -48,6 +48,8 @@ encode(base::string_view literal, uint8_t prefix)
   size_t encoded_size = literal::encoded_size(literal, prefix);
   base::buffer encoded(encoded_size);
 
+  // The bits before the prefix are kept when encoding.
+  encoded[0] = 0;
   encode(encoded.data(), literal, prefix);
 
   return encoded;
diff --git a/bnl/http3/src/codec/qpack/prefix_int/encode.cpp b/bnl/http3/src/codec/qpack/prefix_int/encode.cpp
index 25c0b68..bc65f35 100644
--- a/bnl/http3/src/codec/qpack/prefix_int/encode.cpp
+++ b/bnl/http3/src/codec/qpack/prefix_int/encode.cpp
@@ -61,6 +61,8 @@ encode(uint64_t value, uint8_t prefix)
   size_t encoded_size = prefix_int::encoded_size(value, prefix);
   base::buffer encoded(encoded_size);
 
+  // The bits before the prefix are kept when encoding.
+  encoded[0] = 0;
   encode(encoded.data(), value, prefix);
 
   return encoded;
-- 
2.43.0


From 78122b6be3028d9c5e0a92a36eb3427b808e9446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:30 +0000
Subject: [PATCH 25/47] fix: room for every transport parameter a client may
 announce

---
 bnl/quic/src/client/ngtcp2/connection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bnl/quic/src/client/ngtcp2/connection.cpp b/bnl/quic/src/client/ngtcp2/connection.cpp
index 8661b7b..53dd1d9 100644
--- a/bnl/quic/src/client/ngtcp2/connection.cpp
+++ b/bnl/quic/src/client/ngtcp2/connection.cpp
@@ -781,7 +781,7 @@ connection::get_local_transport_parameters() noexcept
   ngtcp2_transport_params params;
   ngtcp2_conn_get_local_transport_params(connection_.get(), &params);
 
-  std::array<uint8_t, 64> tp = {};
+  std::array<uint8_t, 256> tp = {};
 
   ssize_t nwrite = ngtcp2_encode_transport_params(
     tp.data(), tp.size(), NGTCP2_TRANSPORT_PARAMS_TYPE_CLIENT_HELLO, &params);
-- 
2.43.0


From 31ba6b5da1dc33de3514ee7319234278f62efa5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:30 +0000
Subject: [PATCH 26/47] fix: give ngtcp2 the peer's address, not the local one
 twice

---
 bnl/quic/src/client/ngtcp2/connection.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bnl/quic/src/client/ngtcp2/connection.cpp b/bnl/quic/src/client/ngtcp2/connection.cpp
index 53dd1d9..99bd909 100644
--- a/bnl/quic/src/client/ngtcp2/connection.cpp
+++ b/bnl/quic/src/client/ngtcp2/connection.cpp
@@ -61,7 +61,7 @@ static ngtcp2_path_storage
 make_path(const path &path)
 {
   base::buffer_view local = path.local().address().bytes();
-  base::buffer_view peer = path.local().address().bytes();
+  base::buffer_view peer = path.peer().address().bytes();
 
   ngtcp2_path_storage storage = {};
   ngtcp2_path_storage_init(&storage,
@@ -535,7 +535,7 @@ connection::path_validation(ngtcp2_conn *connection,
   auto client = static_cast<client::connection *>(context);
 
   base::buffer_view local(path->local.addr, path->local.addrlen);
-  base::buffer_view peer(path->local.addr, path->local.addrlen);
+  base::buffer_view peer(path->remote.addr, path->remote.addrlen);
   bool succeeded = pv_result == NGTCP2_PATH_VALIDATION_RESULT_SUCCESS;
 
   result<void> r = client->path_validation(local, peer, succeeded);
-- 
2.43.0


From 47bc151bacc31078b9a20f7508c794cfb37cd16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:08 +0000
Subject: [PATCH 27/47] fix: keep stream data in place while ngtcp2 points into
 it

Sent data was sliced off and moved to another list. For small buffers, which
are stored inside the buffer object, and for slices of up to 20 bytes that
copies the bytes and leaves ngtcp2, which retransmits from the memory it was
given, with pointers into freed or overwritten memory.
---
 bnl/quic/include/bnl/quic/client/stream.hpp | 11 +++--
 bnl/quic/src/client/stream.cpp              | 48 ++++++++++++++++-----
 2 files changed, 45 insertions(+), 14 deletions(-)

diff --git a/bnl/quic/include/bnl/quic/client/stream.hpp b/bnl/quic/include/bnl/quic/client/stream.hpp
index c5ef5e8..5295c16 100644
--- a/bnl/quic/include/bnl/quic/client/stream.hpp
+++ b/bnl/quic/include/bnl/quic/client/stream.hpp
@@ -1,9 +1,11 @@
 #pragma once
 
-#include <bnl/base/buffers.hpp>
+#include <bnl/base/buffer.hpp>
 #include <bnl/quic/export.hpp>
 #include <bnl/quic/result.hpp>
 
+#include <list>
+
 namespace bnl {
 namespace quic {
 namespace client {
@@ -27,8 +29,11 @@ public:
   bool opened() const noexcept;
 
 private:
-  base::buffers buffers_;
-  base::buffers keepalive_;
+  // All data that is not acked yet. The first `sent_` bytes have been passed to
+  // ngtcp2.
+  std::list<base::buffer> buffers_;
+  size_t sent_ = 0;
+
   bool fin_ = false;
   bool opened_ = false;
 
diff --git a/bnl/quic/src/client/stream.cpp b/bnl/quic/src/client/stream.cpp
index 81d424f..2f80e9d 100644
--- a/bnl/quic/src/client/stream.cpp
+++ b/bnl/quic/src/client/stream.cpp
@@ -3,6 +3,9 @@
 #include <bnl/base/log.hpp>
 #include <bnl/quic/client/ngtcp2/connection.hpp>
 
+#include <algorithm>
+#include <iterator>
+
 namespace bnl {
 namespace quic {
 namespace client {
@@ -16,7 +19,17 @@ stream::stream(uint64_t id, ngtcp2::connection *ngtcp2)
 result<base::buffer>
 stream::send()
 {
-  if (buffers_.empty()) {
+  // ngtcp2 keeps pointing into the data passed to it until that data is acked
+  // so buffers are not moved or copied until then. Skip what was passed before.
+  size_t skip = sent_;
+  auto it = buffers_.begin();
+
+  while (it != buffers_.end() && skip >= it->size()) {
+    skip -= it->size();
+    it++;
+  }
+
+  if (it == buffers_.end()) {
     return error::idle;
   }
 
@@ -30,14 +43,14 @@ stream::send()
     opened_ = true;
   }
 
-  const base::buffer &first = buffers_.front();
-  bool fin = fin_ && (first == buffers_.back());
+  base::buffer_view data(it->data() + skip, it->size() - skip);
+  bool fin = fin_ && std::next(it) == buffers_.end();
 
   base::buffer packet;
   size_t stream_bytes_written = 0;
 
   result<std::pair<base::buffer, size_t>> r =
-    ngtcp2_->write_stream(id_, first, fin);
+    ngtcp2_->write_stream(id_, data, fin);
 
   if (!r) {
     if (r.error() == error::stream_id_blocked ||
@@ -50,8 +63,7 @@ stream::send()
 
   std::tie(packet, stream_bytes_written) = std::move(r).value();
 
-  base::buffer sent = buffers_.slice(stream_bytes_written);
-  keepalive_.push(std::move(sent));
+  sent_ += stream_bytes_written;
 
   return packet;
 }
@@ -61,7 +73,9 @@ stream::add(base::buffer buffer)
 {
   assert(!fin_);
 
-  buffers_.push(std::move(buffer));
+  if (!buffer.empty()) {
+    buffers_.emplace_back(std::move(buffer));
+  }
 
   return base::success();
 }
@@ -79,16 +93,28 @@ stream::fin()
 result<void>
 stream::ack(size_t size)
 {
-  if (size > keepalive_.size()) {
+  if (size > sent_) {
     BNL_LOG_E(
       "ngtcp2's acked stream ({}) data ({}) exceeds remaining data ({})",
       id_,
       size,
-      keepalive_.size());
+      sent_);
     return error::internal;
   }
 
-  keepalive_.consume(size);
+  sent_ -= size;
+
+  while (size != 0) {
+    base::buffer &first = buffers_.front();
+    size_t to_consume = std::min(size, first.size());
+
+    first.consume(to_consume);
+    size -= to_consume;
+
+    if (first.empty()) {
+      buffers_.pop_front();
+    }
+  }
 
   return base::success();
 }
@@ -96,7 +122,7 @@ stream::ack(size_t size)
 bool
 stream::finished() const noexcept
 {
-  return fin_ && buffers_.empty() && keepalive_.empty();
+  return fin_ && buffers_.empty();
 }
 
 bool
-- 
2.43.0


From 26c8182de0ef6d20c36e96488250967c369d9eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:37 +0000
Subject: [PATCH 28/47] fix: send the FIN of a stream with, or after, the last
 of its data

Whether a buffer is the last one was decided by comparing contents, so a FIN
could be sent with an earlier buffer of equal contents, and it was never sent
when it was added after all data was sent or with an empty buffer.
---
 .../bnl/quic/client/ngtcp2/connection.hpp     |  2 +-
 bnl/quic/include/bnl/quic/client/stream.hpp   |  1 +
 bnl/quic/src/client/connection.cpp            |  5 ++++
 bnl/quic/src/client/ngtcp2/connection.cpp     |  7 ++---
 bnl/quic/src/client/stream.cpp                | 27 +++++++++++++------
 5 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/bnl/quic/include/bnl/quic/client/ngtcp2/connection.hpp b/bnl/quic/include/bnl/quic/client/ngtcp2/connection.hpp
index b1905a4..3a24a27 100644
--- a/bnl/quic/include/bnl/quic/client/ngtcp2/connection.hpp
+++ b/bnl/quic/include/bnl/quic/client/ngtcp2/connection.hpp
@@ -70,7 +70,7 @@ public:
 
   result<base::buffer> write_pkt();
 
-  result<std::pair<base::buffer, size_t>> write_stream(uint64_t id,
+  result<std::pair<base::buffer, ssize_t>> write_stream(uint64_t id,
                                                        base::buffer_view data,
                                                        bool fin);
 
diff --git a/bnl/quic/include/bnl/quic/client/stream.hpp b/bnl/quic/include/bnl/quic/client/stream.hpp
index 5295c16..7337d08 100644
--- a/bnl/quic/include/bnl/quic/client/stream.hpp
+++ b/bnl/quic/include/bnl/quic/client/stream.hpp
@@ -35,6 +35,7 @@ private:
   size_t sent_ = 0;
 
   bool fin_ = false;
+  bool fin_sent_ = false;
   bool opened_ = false;
 
   uint64_t id_;
diff --git a/bnl/quic/src/client/connection.cpp b/bnl/quic/src/client/connection.cpp
index b5bae26..7570a3e 100644
--- a/bnl/quic/src/client/connection.cpp
+++ b/bnl/quic/src/client/connection.cpp
@@ -82,6 +82,11 @@ connection::acked_stream_data_offset(uint64_t id, size_t size)
 {
   auto match = streams_.find(id);
   if (match == streams_.end()) {
+    if (size == 0) {
+      // Only the FIN was acked.
+      return base::success();
+    }
+
     BNL_LOG_E("ngtcp2 acked data for stream {} which does not exist", id);
     return error::internal;
   }
diff --git a/bnl/quic/src/client/ngtcp2/connection.cpp b/bnl/quic/src/client/ngtcp2/connection.cpp
index 99bd909..c55b621 100644
--- a/bnl/quic/src/client/ngtcp2/connection.cpp
+++ b/bnl/quic/src/client/ngtcp2/connection.cpp
@@ -1000,7 +1000,7 @@ connection::write_pkt()
   return base::buffer(storage.data(), static_cast<size_t>(rv));
 }
 
-result<std::pair<base::buffer, size_t>>
+result<std::pair<base::buffer, ssize_t>>
 connection::write_stream(uint64_t id, base::buffer_view data, bool fin)
 {
   std::array<uint8_t, NGTCP2_MAX_PKTLEN_IPV4> storage = {};
@@ -1028,12 +1028,9 @@ connection::write_stream(uint64_t id, base::buffer_view data, bool fin)
     THROW_NGTCP2(ngtcp2_conn_write_stream, static_cast<int>(rv));
   }
 
-  stream_data_written = stream_data_written == -1 ? 0 : stream_data_written;
-
   base::buffer packet(storage.data(), static_cast<size_t>(rv));
 
-  return std::make_pair(std::move(packet),
-                        static_cast<size_t>(stream_data_written));
+  return std::make_pair(std::move(packet), stream_data_written);
 }
 
 result<void>
diff --git a/bnl/quic/src/client/stream.cpp b/bnl/quic/src/client/stream.cpp
index 2f80e9d..68b6dda 100644
--- a/bnl/quic/src/client/stream.cpp
+++ b/bnl/quic/src/client/stream.cpp
@@ -4,7 +4,6 @@
 #include <bnl/quic/client/ngtcp2/connection.hpp>
 
 #include <algorithm>
-#include <iterator>
 
 namespace bnl {
 namespace quic {
@@ -29,7 +28,7 @@ stream::send()
     it++;
   }
 
-  if (it == buffers_.end()) {
+  if (it == buffers_.end() && (!fin_ || fin_sent_)) {
     return error::idle;
   }
 
@@ -43,13 +42,19 @@ stream::send()
     opened_ = true;
   }
 
-  base::buffer_view data(it->data() + skip, it->size() - skip);
-  bool fin = fin_ && std::next(it) == buffers_.end();
+  base::buffer_view data;
+
+  if (it != buffers_.end()) {
+    data = base::buffer_view(it->data() + skip, it->size() - skip);
+    it++;
+  }
+
+  bool fin = fin_ && it == buffers_.end();
 
   base::buffer packet;
-  size_t stream_bytes_written = 0;
+  ssize_t stream_bytes_written = 0;
 
-  result<std::pair<base::buffer, size_t>> r =
+  result<std::pair<base::buffer, ssize_t>> r =
     ngtcp2_->write_stream(id_, data, fin);
 
   if (!r) {
@@ -63,7 +68,13 @@ stream::send()
 
   std::tie(packet, stream_bytes_written) = std::move(r).value();
 
-  sent_ += stream_bytes_written;
+  // -1 indicates the packet does not contain a STREAM frame.
+  if (stream_bytes_written >= 0) {
+    size_t written = static_cast<size_t>(stream_bytes_written);
+
+    sent_ += written;
+    fin_sent_ = fin && written == data.size();
+  }
 
   return packet;
 }
@@ -122,7 +133,7 @@ stream::ack(size_t size)
 bool
 stream::finished() const noexcept
 {
-  return fin_ && buffers_.empty();
+  return fin_sent_ && buffers_.empty();
 }
 
 bool
-- 
2.43.0


From 3eb2d5123e4148b6ea2dd42dbf3f6c7007d862d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:37 +0000
Subject: [PATCH 29/47] fix: ngtcp2 writing nothing for a stream is not an
 empty packet

---
 bnl/quic/src/client/ngtcp2/connection.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bnl/quic/src/client/ngtcp2/connection.cpp b/bnl/quic/src/client/ngtcp2/connection.cpp
index c55b621..e53568f 100644
--- a/bnl/quic/src/client/ngtcp2/connection.cpp
+++ b/bnl/quic/src/client/ngtcp2/connection.cpp
@@ -1024,6 +1024,10 @@ connection::write_stream(uint64_t id, base::buffer_view data, bool fin)
     return error::stream_data_blocked;
   }
 
+  if (rv == 0) {
+    return error::idle;
+  }
+
   if (rv < 0) {
     THROW_NGTCP2(ngtcp2_conn_write_stream, static_cast<int>(rv));
   }
-- 
2.43.0


From 8b7a96768c9aec2d2a4a9326cbf3480dc483d571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:13 +0000
Subject: [PATCH 30/47] fix: let the peer send more than the initial flow
 control windows

Received stream data was never credited back, so a response larger than the
initial limits (256 KiB per stream) stalled forever.
---
 bnl/quic/src/client/ngtcp2/connection.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bnl/quic/src/client/ngtcp2/connection.cpp b/bnl/quic/src/client/ngtcp2/connection.cpp
index e53568f..4052ee2 100644
--- a/bnl/quic/src/client/ngtcp2/connection.cpp
+++ b/bnl/quic/src/client/ngtcp2/connection.cpp
@@ -333,7 +333,6 @@ connection::recv_stream_data(ngtcp2_conn *connection,
                              void *context,
                              void *stream_context)
 {
-  (void) connection;
   (void) offset;
   (void) stream_context;
   auto client = static_cast<client::connection *>(context);
@@ -341,6 +340,14 @@ connection::recv_stream_data(ngtcp2_conn *connection,
   client->recv_stream_data(
     static_cast<uint64_t>(id), fin != 0, base::buffer_view(data, size));
 
+  // The data was copied, allow the peer to send as much again.
+  int rv = ngtcp2_conn_extend_max_stream_offset(connection, id, size);
+  if (rv != 0) {
+    return NGTCP2_ERR_CALLBACK_FAILURE;
+  }
+
+  ngtcp2_conn_extend_max_offset(connection, size);
+
   return 0;
 }
 
-- 
2.43.0


From a01149badf75dbbd93249564991514429c2c5c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:40 +0000
Subject: [PATCH 31/47] fix: ChaCha20 header protection encrypts zeros, not the
 sample

---
 bnl/quic/src/crypto/boringssl.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bnl/quic/src/crypto/boringssl.cpp b/bnl/quic/src/crypto/boringssl.cpp
index 0531ec5..e8d3b7b 100644
--- a/bnl/quic/src/crypto/boringssl.cpp
+++ b/bnl/quic/src/crypto/boringssl.cpp
@@ -196,9 +196,12 @@ crypto::hp_mask(base::buffer_view_mut dest,
       nonce[1] = uint32_LE(sample.data() + 8);
       nonce[2] = uint32_LE(sample.data() + 12);
 
+      // The mask is the key stream itself, the sample only selects it.
+      static const uint8_t ZEROS[5] = {};
+
       CRYPTO_chacha_20(dest.data(),
-                       sample.data(),
-                       sample.size(),
+                       ZEROS,
+                       sizeof(ZEROS),
                        key.data(),
                        reinterpret_cast<uint8_t *>(nonce),
                        counter);
-- 
2.43.0


From eef32050a9436c1accd102a696b54dc5c7c58889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:40 +0000
Subject: [PATCH 32/47] fix: a packet that does not authenticate is dropped,
 not fatal

---
 bnl/quic/src/client/ngtcp2/connection.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bnl/quic/src/client/ngtcp2/connection.cpp b/bnl/quic/src/client/ngtcp2/connection.cpp
index 4052ee2..a5b6566 100644
--- a/bnl/quic/src/client/ngtcp2/connection.cpp
+++ b/bnl/quic/src/client/ngtcp2/connection.cpp
@@ -194,7 +194,7 @@ connection::in_decrypt(ngtcp2_conn *connection,
 
   // TODO: Fix after https://github.com/ngtcp2/ngtcp2/pull/128
   return r ? static_cast<ssize_t>(ciphertext_size - crypto.aead_overhead())
-           : static_cast<ssize_t>(NGTCP2_ERR_CALLBACK_FAILURE);
+           : static_cast<ssize_t>(NGTCP2_ERR_TLS_DECRYPT);
 }
 
 ssize_t
@@ -269,7 +269,7 @@ connection::decrypt(ngtcp2_conn *connection,
 
   // TODO: Fix after https://github.com/ngtcp2/ngtcp2/pull/128
   return r ? static_cast<ssize_t>(ciphertext_size - crypto.aead_overhead())
-           : static_cast<ssize_t>(NGTCP2_ERR_CALLBACK_FAILURE);
+           : static_cast<ssize_t>(NGTCP2_ERR_TLS_DECRYPT);
 }
 
 ssize_t
-- 
2.43.0


From cda669f9fb8fec2c452010891065d4be6e318f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:40 +0000
Subject: [PATCH 33/47] fix: log messages of ngtcp2 and BoringSSL are not
 format strings

---
 bnl/quic/src/client/handshake/boringssl.cpp | 2 +-
 bnl/quic/src/client/ngtcp2/connection.cpp   | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/bnl/quic/src/client/handshake/boringssl.cpp b/bnl/quic/src/client/handshake/boringssl.cpp
index ee7904e..9225200 100644
--- a/bnl/quic/src/client/handshake/boringssl.cpp
+++ b/bnl/quic/src/client/handshake/boringssl.cpp
@@ -336,7 +336,7 @@ handshake::impl::log_errors()
     std::array<char, 100> string = {};
     ERR_error_string_n(error, string.data(), string.size());
 
-    BNL_LOG_E(string.data());
+    BNL_LOG_E("{}", string.data());
   }
 }
 
diff --git a/bnl/quic/src/client/ngtcp2/connection.cpp b/bnl/quic/src/client/ngtcp2/connection.cpp
index a5b6566..8eeb9cf 100644
--- a/bnl/quic/src/client/ngtcp2/connection.cpp
+++ b/bnl/quic/src/client/ngtcp2/connection.cpp
@@ -639,8 +639,8 @@ connection::log(void *context, const char *format, ...) // NOLINT
   // C varargs are a runtime concept, the logging macros expect variadic
   // templates at compile time. As a result, we can't pass C varargs to the
   // logging macros. To get around this, we format the string using `vsnprintf`
-  // ourselves and pass the formatted string to the logging macros without any
-  // arguments.
+  // ourselves and pass the formatted string to the logging macros as the only
+  // argument.
 
   std::array<char, 1024> formatted = {};
 
@@ -651,7 +651,7 @@ connection::log(void *context, const char *format, ...) // NOLINT
 
   va_end(args); // NOLINT
 
-  BNL_LOG_T(formatted.data());
+  BNL_LOG_T("{}", formatted.data());
 }
 
 static ngtcp2_cid
-- 
2.43.0


From 4115b6644015c998c379f531003856ba166749b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:53 +0000
Subject: [PATCH 34/47] fix: one stream the peer stops reading does not end the
 connection

ngtcp2 refuses further data for such a stream. That was returned as an error
from send() every time, so nothing else was ever sent.
---
 bnl/quic/include/bnl/quic/client/stream.hpp |  4 ++++
 bnl/quic/src/client/connection.cpp          | 16 +++++++++++++++
 bnl/quic/src/client/ngtcp2/connection.cpp   |  4 ++++
 bnl/quic/src/client/stream.cpp              | 22 +++++++++++++++++++--
 4 files changed, 44 insertions(+), 2 deletions(-)

diff --git a/bnl/quic/include/bnl/quic/client/stream.hpp b/bnl/quic/include/bnl/quic/client/stream.hpp
index 7337d08..b77d0d2 100644
--- a/bnl/quic/include/bnl/quic/client/stream.hpp
+++ b/bnl/quic/include/bnl/quic/client/stream.hpp
@@ -25,6 +25,9 @@ public:
 
   result<void> ack(size_t size);
 
+  // No more data will be sent, retransmitted or acked.
+  void close() noexcept;
+
   bool finished() const noexcept;
   bool opened() const noexcept;
 
@@ -37,6 +40,7 @@ private:
   bool fin_ = false;
   bool fin_sent_ = false;
   bool opened_ = false;
+  bool refused_ = false;
 
   uint64_t id_;
   ngtcp2::connection *ngtcp2_;
diff --git a/bnl/quic/src/client/connection.cpp b/bnl/quic/src/client/connection.cpp
index 7570a3e..b36c12f 100644
--- a/bnl/quic/src/client/connection.cpp
+++ b/bnl/quic/src/client/connection.cpp
@@ -111,6 +111,18 @@ void
 connection::stream_closed(uint64_t id, uint64_t error)
 {
   BNL_LOG_I("stream closed: {} (reason: {})", id, error);
+
+  auto match = streams_.find(id);
+  if (match == streams_.end()) {
+    return;
+  }
+
+  stream &stream = match->second;
+  stream.close();
+
+  if (stream.finished()) {
+    streams_.erase(match);
+  }
 }
 
 void
@@ -340,6 +352,10 @@ connection::add(quic::data data) // NOLINT
     BNL_TRY(stream.fin());
   }
 
+  if (stream.finished()) {
+    streams_.erase(data.id);
+  }
+
   return base::success();
 }
 
diff --git a/bnl/quic/src/client/ngtcp2/connection.cpp b/bnl/quic/src/client/ngtcp2/connection.cpp
index 8eeb9cf..35aca31 100644
--- a/bnl/quic/src/client/ngtcp2/connection.cpp
+++ b/bnl/quic/src/client/ngtcp2/connection.cpp
@@ -1031,6 +1031,10 @@ connection::write_stream(uint64_t id, base::buffer_view data, bool fin)
     return error::stream_data_blocked;
   }
 
+  if (rv == NGTCP2_ERR_STREAM_SHUT_WR || rv == NGTCP2_ERR_STREAM_NOT_FOUND) {
+    return error::stream_not_found;
+  }
+
   if (rv == 0) {
     return error::idle;
   }
diff --git a/bnl/quic/src/client/stream.cpp b/bnl/quic/src/client/stream.cpp
index 68b6dda..ab7faef 100644
--- a/bnl/quic/src/client/stream.cpp
+++ b/bnl/quic/src/client/stream.cpp
@@ -18,6 +18,10 @@ stream::stream(uint64_t id, ngtcp2::connection *ngtcp2)
 result<base::buffer>
 stream::send()
 {
+  if (refused_) {
+    return error::idle;
+  }
+
   // ngtcp2 keeps pointing into the data passed to it until that data is acked
   // so buffers are not moved or copied until then. Skip what was passed before.
   size_t skip = sent_;
@@ -63,6 +67,12 @@ stream::send()
       return error::idle;
     }
 
+    if (r.error() == error::stream_not_found) {
+      // The peer stopped reading the stream, other streams are not affected.
+      refused_ = true;
+      return error::idle;
+    }
+
     return r.error();
   }
 
@@ -84,7 +94,7 @@ stream::add(base::buffer buffer)
 {
   assert(!fin_);
 
-  if (!buffer.empty()) {
+  if (!buffer.empty() && !refused_) {
     buffers_.emplace_back(std::move(buffer));
   }
 
@@ -130,10 +140,18 @@ stream::ack(size_t size)
   return base::success();
 }
 
+void
+stream::close() noexcept
+{
+  buffers_.clear();
+  sent_ = 0;
+  refused_ = true;
+}
+
 bool
 stream::finished() const noexcept
 {
-  return fin_sent_ && buffers_.empty();
+  return (fin_sent_ || (fin_ && refused_)) && buffers_.empty();
 }
 
 bool
-- 
2.43.0


From 4ff322b6d7441e3d19e0681fbd924e9ec0c55c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:31 +0000
Subject: [PATCH 35/47] fix: include <algorithm> for std::find

---
 bnl/http3/app/endpoint/os/dns.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bnl/http3/app/endpoint/os/dns.cpp b/bnl/http3/app/endpoint/os/dns.cpp
index 1977721..54071fd 100644
--- a/bnl/http3/app/endpoint/os/dns.cpp
+++ b/bnl/http3/app/endpoint/os/dns.cpp
@@ -2,6 +2,8 @@
 
 #include <netdb.h>
 
+#include <algorithm>
+
 static ip::address
 make_address(sockaddr *sockaddr)
 {
-- 
2.43.0


From ed854b82a00807b1a2e1f78a8b6d7e9ef1d8abf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:31 +0000
Subject: [PATCH 36/47] fix: a timeout of the client program is an error

Its error code was 0, which std::error_code takes for success.
---
 bnl/http3/app/endpoint/os/result.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bnl/http3/app/endpoint/os/result.hpp b/bnl/http3/app/endpoint/os/result.hpp
index c03e5d5..8c059a3 100644
--- a/bnl/http3/app/endpoint/os/result.hpp
+++ b/bnl/http3/app/endpoint/os/result.hpp
@@ -6,7 +6,7 @@
 #include <system_error>
 
 enum class error {
-  timeout,
+  timeout = 1,
   resolve,
   invalid_argument,
   idle,
-- 
2.43.0


From f5f4cfd5be1edee7832cbc6dbc0298c25d7fac16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:31 +0000
Subject: [PATCH 37/47] fix: the retransmission timer of the client program is
 set to its due time

expiry() is a point in time, not a duration.
---
 bnl/http3/app/endpoint/client.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bnl/http3/app/endpoint/client.cpp b/bnl/http3/app/endpoint/client.cpp
index 76706fe..ee94c11 100644
--- a/bnl/http3/app/endpoint/client.cpp
+++ b/bnl/http3/app/endpoint/client.cpp
@@ -125,7 +125,7 @@ client::send()
     r = send_once();
   } while (r);
 
-  retransmit_.update(sd_.now() + quic_.expiry());
+  retransmit_.update(quic_.expiry());
   timeout_.update(sd_.now() + quic_.timeout());
 
   if (r.error() == std::errc::resource_unavailable_try_again ||
-- 
2.43.0


From 4187efb4b55b2d9bed6ade3e76521e62d5b500b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:31 +0000
Subject: [PATCH 38/47] fix: the client program fails when it gets no connected
 socket

make_socket() reported the error, but its value was used regardless.
---
 bnl/http3/app/endpoint/client.cpp        |  8 +++++---
 bnl/http3/app/endpoint/client.hpp        |  2 +-
 bnl/http3/app/endpoint/os/socket/udp.cpp | 11 +++++++++--
 bnl/http3/app/endpoint/os/socket/udp.hpp |  4 +++-
 4 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/bnl/http3/app/endpoint/client.cpp b/bnl/http3/app/endpoint/client.cpp
index ee94c11..bafec09 100644
--- a/bnl/http3/app/endpoint/client.cpp
+++ b/bnl/http3/app/endpoint/client.cpp
@@ -43,8 +43,8 @@ default_quic_params()
   return params;
 }
 
-client::client(const ip::host &host, ip::endpoint peer)
-  : socket_(peer)
+client::client(const ip::host &host, os::socket::udp socket)
+  : socket_(std::move(socket))
   , socket_watcher_(sd_.io(socket_.fd()).assume_value())
   , retransmit_(sd_.timer().assume_value())
   , timeout_((sd_.timer().assume_value()))
@@ -279,7 +279,9 @@ run(int argc, char *argv[])
   ip::port port = static_cast<uint16_t>(std::stoul(argv[2]));
   ip::endpoint peer(address, port);
 
-  client client(host, peer);
+  os::socket::udp socket = BNL_TRY(os::socket::udp::connect(peer));
+
+  client client(host, std::move(socket));
 
   http3::request::handle request = BNL_TRY(client.request());
 
diff --git a/bnl/http3/app/endpoint/client.hpp b/bnl/http3/app/endpoint/client.hpp
index b091cae..375023b 100644
--- a/bnl/http3/app/endpoint/client.hpp
+++ b/bnl/http3/app/endpoint/client.hpp
@@ -16,7 +16,7 @@ class client {
 public:
   using handler = std::function<result<void>(http3::event)>;
 
-  client(const ip::host &host, ip::endpoint peer);
+  client(const ip::host &host, os::socket::udp socket);
 
   client(client &&other) noexcept;
   client &operator=(client &&) = delete;
diff --git a/bnl/http3/app/endpoint/os/socket/udp.cpp b/bnl/http3/app/endpoint/os/socket/udp.cpp
index 5f0e718..5ed6969 100644
--- a/bnl/http3/app/endpoint/os/socket/udp.cpp
+++ b/bnl/http3/app/endpoint/os/socket/udp.cpp
@@ -108,10 +108,17 @@ make_socket(ip::endpoint peer)
 namespace os {
 namespace socket {
 
-udp::udp(ip::endpoint peer)
-  : socket_(make_socket(peer).assume_value())
+udp::udp(os::fd socket) noexcept
+  : socket_(std::move(socket))
 {}
 
+result<udp>
+udp::connect(ip::endpoint peer)
+{
+  os::fd socket = BNL_TRY(make_socket(peer));
+  return udp(std::move(socket));
+}
+
 ip::endpoint
 udp::local() const
 {
diff --git a/bnl/http3/app/endpoint/os/socket/udp.hpp b/bnl/http3/app/endpoint/os/socket/udp.hpp
index 6871a33..f95940d 100644
--- a/bnl/http3/app/endpoint/os/socket/udp.hpp
+++ b/bnl/http3/app/endpoint/os/socket/udp.hpp
@@ -16,7 +16,7 @@ namespace socket {
 
 class udp {
 public:
-  udp(ip::endpoint peer);
+  static result<udp> connect(ip::endpoint peer);
 
   udp(udp &&) = default;
   udp &operator=(udp &&) = default;
@@ -34,6 +34,8 @@ public:
   void add(base::buffer buffer);
 
 private:
+  explicit udp(os::fd socket) noexcept;
+
   base::buffers send_buffer_;
   os::fd socket_;
 };
-- 
2.43.0


From 03e6cd12fd8bb015cab8c9008f311ab9fbf3a351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:58 +0000
Subject: [PATCH 39/47] fix: the client program refuses a port that is not one

Anything but a number ended it in an exception, and a number beyond 65535 was
cut down to another port.
---
 bnl/http3/app/endpoint/client.cpp | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/bnl/http3/app/endpoint/client.cpp b/bnl/http3/app/endpoint/client.cpp
index bafec09..8f85328 100644
--- a/bnl/http3/app/endpoint/client.cpp
+++ b/bnl/http3/app/endpoint/client.cpp
@@ -250,6 +250,32 @@ client::timeout(sd::event::duration usec)
 #pragma GCC diagnostic push
 #pragma GCC diagnostic ignored "-Waddress"
 
+static result<ip::port>
+parse_port(const char *text)
+{
+  uint32_t port = 0;
+
+  for (const char *c = text; *c != '\0'; c++) {
+    if (*c < '0' || *c > '9') {
+      port = 0;
+      break;
+    }
+
+    port = port * 10 + static_cast<uint32_t>(*c - '0');
+
+    if (port > UINT16_MAX) {
+      break;
+    }
+  }
+
+  if (port == 0 || port > UINT16_MAX) {
+    BNL_LOG_E("Invalid port: {}", text);
+    return error::invalid_argument;
+  }
+
+  return static_cast<ip::port>(port);
+}
+
 static result<void>
 run(int argc, char *argv[])
 {
@@ -276,7 +302,7 @@ run(int argc, char *argv[])
   }
 
   ip::address address = resolved[0];
-  ip::port port = static_cast<uint16_t>(std::stoul(argv[2]));
+  ip::port port = BNL_TRY(parse_port(argv[2]));
   ip::endpoint peer(address, port);
 
   os::socket::udp socket = BNL_TRY(os::socket::udp::connect(peer));
-- 
2.43.0


From 0455536a6cd4e468eacdc13c31c21101ced40009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:33 +0000
Subject: [PATCH 40/47] fix: the client program fails when its output cannot be
 written

---
 bnl/http3/app/endpoint/client.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bnl/http3/app/endpoint/client.cpp b/bnl/http3/app/endpoint/client.cpp
index 8f85328..8122577 100644
--- a/bnl/http3/app/endpoint/client.cpp
+++ b/bnl/http3/app/endpoint/client.cpp
@@ -350,6 +350,12 @@ run(int argc, char *argv[])
 
   std::cout.write(reinterpret_cast<char *>(body.data()),
                   static_cast<std::streamsize>(body.size()));
+  std::cout.flush();
+
+  if (!std::cout) {
+    BNL_LOG_E("Failed to write the response");
+    return std::make_error_code(std::errc::io_error);
+  }
 
   return base::success();
 }
-- 
2.43.0


From 1679c5b93bea98d10be614ff4602b2d9e4642115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:46 +0000
Subject: [PATCH 41/47] fix: end a log line on the stream it was written to

---
 bnl/log/src/console.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bnl/log/src/console.cpp b/bnl/log/src/console.cpp
index b46f9f1..77c392c 100644
--- a/bnl/log/src/console.cpp
+++ b/bnl/log/src/console.cpp
@@ -63,7 +63,7 @@ console::log(base::log::level level,
   color = fmt::fg(fmt::color::white);
   fmt::vprint(output, color, format, args);
 
-  fmt::print("\n");
+  fmt::print(output, "\n");
 
   fflush(output);
 }
-- 
2.43.0


From 3501063a923edaca111d619aecd97516442c46f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 42/47] fix: a log message that cannot be written does not end
 the program

---
 bnl/log/src/console.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bnl/log/src/console.cpp b/bnl/log/src/console.cpp
index 77c392c..5c01d0d 100644
--- a/bnl/log/src/console.cpp
+++ b/bnl/log/src/console.cpp
@@ -4,6 +4,7 @@
 #include <fmt/color.h>
 
 #include <array>
+#include <system_error>
 
 static constexpr std::array<const char *, 6> level_names = { "TRACE", "DEBUG",
                                                              "INFO ", "WARN ",
@@ -28,7 +29,7 @@ console::log(base::log::level level,
              int line,
              const char *format,
              const fmt::format_args &args) const
-{
+try {
   (void) function;
 
   if (level < level_) {
@@ -66,6 +67,8 @@ console::log(base::log::level level,
   fmt::print(output, "\n");
 
   fflush(output);
+} catch (const std::system_error &) {
+  // Failing to write a log message must not end the program.
 }
 
 }
-- 
2.43.0


From aa131333272cc53748dc0fe3038434ec58361cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:35 +0000
Subject: [PATCH 43/47] fix: a header with the hash of a static table entry is
 not taken for it

---
 .../src/codec/qpack/encode_generated.cpp      | 600 +++++++++++++++---
 bnl/http3/tools/generate_qpack.py             |  27 +-
 2 files changed, 542 insertions(+), 85 deletions(-)

diff --git a/bnl/http3/src/codec/qpack/encode_generated.cpp b/bnl/http3/src/codec/qpack/encode_generated.cpp
index 5521d1a..7e5f2c6 100644
--- a/bnl/http3/src/codec/qpack/encode_generated.cpp
+++ b/bnl/http3/src/codec/qpack/encode_generated.cpp
@@ -21,358 +21,802 @@ find_index(header_view header)
 
   switch (name_hash) {
     case 16895098521482341206U: // :authority
+      if (header.name() != ":authority") {
+        break;
+      }
+
       return { type::header_only, uint8_t(0) };
     case 11800921616074793521U: // :method
+      if (header.name() != ":method") {
+        break;
+      }
+
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 1969084168692057419U: // CONNECT
-          return { type::header_value, uint8_t(15) };
+          if (header.value() == "CONNECT") {
+            return { type::header_value, uint8_t(15) };
+          }
+          break;
         case 3416820684017772195U: // DELETE
-          return { type::header_value, uint8_t(16) };
+          if (header.value() == "DELETE") {
+            return { type::header_value, uint8_t(16) };
+          }
+          break;
         case 3137017853320178759U: // GET
-          return { type::header_value, uint8_t(17) };
+          if (header.value() == "GET") {
+            return { type::header_value, uint8_t(17) };
+          }
+          break;
         case 5077457392360958184U: // HEAD
-          return { type::header_value, uint8_t(18) };
+          if (header.value() == "HEAD") {
+            return { type::header_value, uint8_t(18) };
+          }
+          break;
         case 13449464674369688059U: // OPTIONS
-          return { type::header_value, uint8_t(19) };
+          if (header.value() == "OPTIONS") {
+            return { type::header_value, uint8_t(19) };
+          }
+          break;
         case 1393561109570896241U: // POST
-          return { type::header_value, uint8_t(20) };
+          if (header.value() == "POST") {
+            return { type::header_value, uint8_t(20) };
+          }
+          break;
         case 8278045464579020327U: // PUT
-          return { type::header_value, uint8_t(21) };
+          if (header.value() == "PUT") {
+            return { type::header_value, uint8_t(21) };
+          }
+          break;
       }
       return { type::header_only, uint8_t(15) };
     case 1432527143127418564U: // :path
+      if (header.name() != ":path") {
+        break;
+      }
+
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 16761507700594825962U: // /
-          return { type::header_value, uint8_t(1) };
+          if (header.value() == "/") {
+            return { type::header_value, uint8_t(1) };
+          }
+          break;
       }
       return { type::header_only, uint8_t(1) };
     case 16734001141632695329U: // :scheme
+      if (header.name() != ":scheme") {
+        break;
+      }
+
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 13730016396111666430U: // http
-          return { type::header_value, uint8_t(22) };
+          if (header.value() == "http") {
+            return { type::header_value, uint8_t(22) };
+          }
+          break;
         case 10742537861312705840U: // https
-          return { type::header_value, uint8_t(23) };
+          if (header.value() == "https") {
+            return { type::header_value, uint8_t(23) };
+          }
+          break;
       }
       return { type::header_only, uint8_t(22) };
     case 11145724770861396798U: // :status
+      if (header.name() != ":status") {
+        break;
+      }
+
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 2891813017576360282U: // 103
-          return { type::header_value, uint8_t(24) };
+          if (header.value() == "103") {
+            return { type::header_value, uint8_t(24) };
+          }
+          break;
         case 2685111111418367100U: // 200
-          return { type::header_value, uint8_t(25) };
+          if (header.value() == "200") {
+            return { type::header_value, uint8_t(25) };
+          }
+          break;
         case 2860949800888200221U: // 304
-          return { type::header_value, uint8_t(26) };
+          if (header.value() == "304") {
+            return { type::header_value, uint8_t(26) };
+          }
+          break;
         case 5957985645556640011U: // 404
-          return { type::header_value, uint8_t(27) };
+          if (header.value() == "404") {
+            return { type::header_value, uint8_t(27) };
+          }
+          break;
         case 12373623763172808772U: // 503
-          return { type::header_value, uint8_t(28) };
+          if (header.value() == "503") {
+            return { type::header_value, uint8_t(28) };
+          }
+          break;
         case 6146904730557115430U: // 100
-          return { type::header_value, uint8_t(63) };
+          if (header.value() == "100") {
+            return { type::header_value, uint8_t(63) };
+          }
+          break;
         case 11759795502426644276U: // 204
-          return { type::header_value, uint8_t(64) };
+          if (header.value() == "204") {
+            return { type::header_value, uint8_t(64) };
+          }
+          break;
         case 17033585193496081404U: // 206
-          return { type::header_value, uint8_t(65) };
+          if (header.value() == "206") {
+            return { type::header_value, uint8_t(65) };
+          }
+          break;
         case 1337354901647857481U: // 302
-          return { type::header_value, uint8_t(66) };
+          if (header.value() == "302") {
+            return { type::header_value, uint8_t(66) };
+          }
+          break;
         case 11111781720710347155U: // 400
-          return { type::header_value, uint8_t(67) };
+          if (header.value() == "400") {
+            return { type::header_value, uint8_t(67) };
+          }
+          break;
         case 14993518005534636743U: // 403
-          return { type::header_value, uint8_t(68) };
+          if (header.value() == "403") {
+            return { type::header_value, uint8_t(68) };
+          }
+          break;
         case 1128097706726417269U: // 421
-          return { type::header_value, uint8_t(69) };
+          if (header.value() == "421") {
+            return { type::header_value, uint8_t(69) };
+          }
+          break;
         case 17924379407345689140U: // 425
-          return { type::header_value, uint8_t(70) };
+          if (header.value() == "425") {
+            return { type::header_value, uint8_t(70) };
+          }
+          break;
         case 12667669577372699657U: // 500
-          return { type::header_value, uint8_t(71) };
+          if (header.value() == "500") {
+            return { type::header_value, uint8_t(71) };
+          }
+          break;
       }
       return { type::header_only, uint8_t(24) };
     case 14776963886974432617U: // accept
+      if (header.name() != "accept") {
+        break;
+      }
+
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 285960807216420690U: // */*
-          return { type::header_value, uint8_t(29) };
+          if (header.value() == "*/*") {
+            return { type::header_value, uint8_t(29) };
+          }
+          break;
         case 6373961066247414572U: // application/dns-message
-          return { type::header_value, uint8_t(30) };
+          if (header.value() == "application/dns-message") {
+            return { type::header_value, uint8_t(30) };
+          }
+          break;
       }
       return { type::header_only, uint8_t(29) };
     case 14455144075924042224U: // accept-encoding
+      if (header.name() != "accept-encoding") {
+        break;
+      }
+
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 9032900040511447184U: // gzip, deflate, br
-          return { type::header_value, uint8_t(31) };
+          if (header.value() == "gzip, deflate, br") {
+            return { type::header_value, uint8_t(31) };
+          }
+          break;
       }
       return { type::header_only, uint8_t(31) };
     case 12586352021634702904U: // accept-language
+      if (header.name() != "accept-language") {
+        break;
+      }
+
       return { type::header_only, uint8_t(72) };
     case 14590555536192441974U: // accept-ranges
+      if (header.name() != "accept-ranges") {
+        break;
+      }
+
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 3279652670845457604U: // bytes
-          return { type::header_value, uint8_t(32) };
+          if (header.value() == "bytes") {
+            return { type::header_value, uint8_t(32) };
+          }
+          break;
       }
       return { type::header_only, uint8_t(32) };
     case 5881923794129529227U: // access-control-allow-credentials
+      if (header.name() != "access-control-allow-credentials") {
+        break;
+      }
+
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 13702020392090633634U: // FALSE
-          return { type::header_value, uint8_t(73) };
+          if (header.value() == "FALSE") {
+            return { type::header_value, uint8_t(73) };
+          }
+          break;
         case 13992295306875567947U: // TRUE
-          return { type::header_value, uint8_t(74) };
+          if (header.value() == "TRUE") {
+            return { type::header_value, uint8_t(74) };
+          }
+          break;
       }
       return { type::header_only, uint8_t(73) };
     case 3800686319607884068U: // access-control-allow-headers
+      if (header.name() != "access-control-allow-headers") {
+        break;
+      }
+
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 6792126209451122079U: // cache-control
-          return { type::header_value, uint8_t(33) };
+          if (header.value() == "cache-control") {
+            return { type::header_value, uint8_t(33) };
+          }
+          break;
         case 3910122139284074053U: // content-type
-          return { type::header_value, uint8_t(34) };
+          if (header.value() == "content-type") {
+            return { type::header_value, uint8_t(34) };
+          }
+          break;
         case 765293966243412708U: // *
-          return { type::header_value, uint8_t(75) };
+          if (header.value() == "*") {
+            return { type::header_value, uint8_t(75) };
+          }
+          break;
       }
       return { type::header_only, uint8_t(33) };
     case 10756748986426057606U: // access-control-allow-methods
+      if (header.name() != "access-control-allow-methods") {
+        break;
+      }
+
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 2774841317834080824U: // get
-          return { type::header_value, uint8_t(76) };
+          if (header.value() == "get") {
+            return { type::header_value, uint8_t(76) };
+          }
+          break;
         case 13368036589511723433U: // get, post, options
-          return { type::header_value, uint8_t(77) };
+          if (header.value() == "get, post, options") {
+            return { type::header_value, uint8_t(77) };
+          }
+          break;
         case 16398749137410613924U: // options
-          return { type::header_value, uint8_t(78) };
+          if (header.value() == "options") {
+            return { type::header_value, uint8_t(78) };
+          }
+          break;
       }
       return { type::header_only, uint8_t(76) };
     case 9436417403599124064U: // access-control-allow-origin
+      if (header.name() != "access-control-allow-origin") {
+        break;
+      }
+
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 765293966243412708U: // *
-          return { type::header_value, uint8_t(35) };
+          if (header.value() == "*") {
+            return { type::header_value, uint8_t(35) };
+          }
+          break;
       }
       return { type::header_only, uint8_t(35) };
     case 6796384088407939286U: // access-control-expose-headers
+      if (header.name() != "access-control-expose-headers") {
+        break;
+      }
+
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 17031230962583399322U: // content-length
-          return { type::header_value, uint8_t(79) };
+          if (header.value() == "content-length") {
+            return { type::header_value, uint8_t(79) };
+          }
+          break;
       }
       return { type::header_only, uint8_t(79) };
     case 4242818872217734295U: // access-control-request-headers
+      if (header.name() != "access-control-request-headers") {
+        break;
+      }
+
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 3910122139284074053U: // content-type
-          return { type::header_value, uint8_t(80) };
+          if (header.value() == "content-type") {
+            return { type::header_value, uint8_t(80) };
+          }
+          break;
       }
       return { type::header_only, uint8_t(80) };
     case 14051338931492133901U: // access-control-request-method
+      if (header.name() != "access-control-request-method") {
+        break;
+      }
+
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 2774841317834080824U: // get
-          return { type::header_value, uint8_t(81) };
+          if (header.value() == "get") {
+            return { type::header_value, uint8_t(81) };
+          }
+          break;
         case 3178169103122520677U: // post
-          return { type::header_value, uint8_t(82) };
+          if (header.value() == "post") {
+            return { type::header_value, uint8_t(82) };
+          }
+          break;
       }
       return { type::header_only, uint8_t(81) };
     case 5092756294692198100U: // age
+      if (header.name() != "age") {
+        break;
+      }
+
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 7148434200721666028U: // 0
-          return { type::header_value, uint8_t(2) };
+          if (header.value() == "0") {
+            return { type::header_value, uint8_t(2) };
+          }
+          break;
       }
       return { type::header_only, uint8_t(2) };
     case 12092656254601729054U: // alt-svc
+      if (header.name() != "alt-svc") {
+        break;
+      }
+
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 9623284816163994036U: // clear
-          return { type::header_value, uint8_t(83) };
+          if (header.value() == "clear") {
+            return { type::header_value, uint8_t(83) };
+          }
+          break;
       }
       return { type::header_only, uint8_t(83) };
     case 8846816503791876372U: // authorization
+      if (header.name() != "authorization") {
+        break;
+      }
+
       return { type::header_only, uint8_t(84) };
     case 6792126209451122079U: // cache-control
+      if (header.name() != "cache-control") {
+        break;
+      }
+
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 10032073942971583664U: // max-age=0
-          return { type::header_value, uint8_t(36) };
+          if (header.value() == "max-age=0") {
+            return { type::header_value, uint8_t(36) };
+          }
+          break;
         case 3044507098168884424U: // max-age=2592000
-          return { type::header_value, uint8_t(37) };
+          if (header.value() == "max-age=2592000") {
+            return { type::header_value, uint8_t(37) };
+          }
+          break;
         case 441477139842840241U: // max-age=604800
-          return { type::header_value, uint8_t(38) };
+          if (header.value() == "max-age=604800") {
+            return { type::header_value, uint8_t(38) };
+          }
+          break;
         case 8897988708233174624U: // no-cache
-          return { type::header_value, uint8_t(39) };
+          if (header.value() == "no-cache") {
+            return { type::header_value, uint8_t(39) };
+          }
+          break;
         case 3660001317594812985U: // no-store
-          return { type::header_value, uint8_t(40) };
+          if (header.value() == "no-store") {
+            return { type::header_value, uint8_t(40) };
+          }
+          break;
         case 9509473917879564042U: // public, max-age=31536000
-          return { type::header_value, uint8_t(41) };
+          if (header.value() == "public, max-age=31536000") {
+            return { type::header_value, uint8_t(41) };
+          }
+          break;
       }
       return { type::header_only, uint8_t(36) };
     case 17156266451297603303U: // content-disposition
+      if (header.name() != "content-disposition") {
+        break;
+      }
+
       return { type::header_only, uint8_t(3) };
     case 11860813331948357247U: // content-encoding
+      if (header.name() != "content-encoding") {
+        break;
+      }
+
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 12202383188974104177U: // br
-          return { type::header_value, uint8_t(42) };
+          if (header.value() == "br") {
+            return { type::header_value, uint8_t(42) };
+          }
+          break;
         case 12621183860903199653U: // gzip
-          return { type::header_value, uint8_t(43) };
+          if (header.value() == "gzip") {
+            return { type::header_value, uint8_t(43) };
+          }
+          break;
       }
       return { type::header_only, uint8_t(42) };
     case 17031230962583399322U: // content-length
+      if (header.name() != "content-length") {
+        break;
+      }
+
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 7148434200721666028U: // 0
-          return { type::header_value, uint8_t(4) };
+          if (header.value() == "0") {
+            return { type::header_value, uint8_t(4) };
+          }
+          break;
       }
       return { type::header_only, uint8_t(4) };
     case 18043880115709070015U: // content-security-policy
+      if (header.name() != "content-security-policy") {
+        break;
+      }
+
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 165232284275397264U: // script-src 'none'; object-src 'none';
                                   // base-uri 'none'
-          return { type::header_value, uint8_t(85) };
+          if (header.value() ==
+              "script-src 'none'; object-src 'none'; base-uri 'none'") {
+            return { type::header_value, uint8_t(85) };
+          }
+          break;
       }
       return { type::header_only, uint8_t(85) };
     case 3910122139284074053U: // content-type
+      if (header.name() != "content-type") {
+        break;
+      }
+
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 6373961066247414572U: // application/dns-message
-          return { type::header_value, uint8_t(44) };
+          if (header.value() == "application/dns-message") {
+            return { type::header_value, uint8_t(44) };
+          }
+          break;
         case 9423039217905102597U: // application/javascript
-          return { type::header_value, uint8_t(45) };
+          if (header.value() == "application/javascript") {
+            return { type::header_value, uint8_t(45) };
+          }
+          break;
         case 116355269824119741U: // application/json
-          return { type::header_value, uint8_t(46) };
+          if (header.value() == "application/json") {
+            return { type::header_value, uint8_t(46) };
+          }
+          break;
         case 15711274223642436716U: // application/x-www-form-urlencoded
-          return { type::header_value, uint8_t(47) };
+          if (header.value() == "application/x-www-form-urlencoded") {
+            return { type::header_value, uint8_t(47) };
+          }
+          break;
         case 12727226202374957143U: // image/gif
-          return { type::header_value, uint8_t(48) };
+          if (header.value() == "image/gif") {
+            return { type::header_value, uint8_t(48) };
+          }
+          break;
         case 12200045138720289141U: // image/jpeg
-          return { type::header_value, uint8_t(49) };
+          if (header.value() == "image/jpeg") {
+            return { type::header_value, uint8_t(49) };
+          }
+          break;
         case 12092489581388341001U: // image/png
-          return { type::header_value, uint8_t(50) };
+          if (header.value() == "image/png") {
+            return { type::header_value, uint8_t(50) };
+          }
+          break;
         case 6791077934204364231U: // text/css
-          return { type::header_value, uint8_t(51) };
+          if (header.value() == "text/css") {
+            return { type::header_value, uint8_t(51) };
+          }
+          break;
         case 8886412932112875563U: // text/html; charset=utf-8
-          return { type::header_value, uint8_t(52) };
+          if (header.value() == "text/html; charset=utf-8") {
+            return { type::header_value, uint8_t(52) };
+          }
+          break;
         case 16588200704567877914U: // text/plain
-          return { type::header_value, uint8_t(53) };
+          if (header.value() == "text/plain") {
+            return { type::header_value, uint8_t(53) };
+          }
+          break;
         case 9119350762400467667U: // text/plain;charset=utf-8
-          return { type::header_value, uint8_t(54) };
+          if (header.value() == "text/plain;charset=utf-8") {
+            return { type::header_value, uint8_t(54) };
+          }
+          break;
       }
       return { type::header_only, uint8_t(44) };
     case 905780767293800022U: // cookie
+      if (header.name() != "cookie") {
+        break;
+      }
+
       return { type::header_only, uint8_t(5) };
     case 9202271988582577219U: // date
+      if (header.name() != "date") {
+        break;
+      }
+
       return { type::header_only, uint8_t(6) };
     case 12326157660028381149U: // early-data
+      if (header.name() != "early-data") {
+        break;
+      }
+
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 13237225503670494420U: // 1
-          return { type::header_value, uint8_t(86) };
+          if (header.value() == "1") {
+            return { type::header_value, uint8_t(86) };
+          }
+          break;
       }
       return { type::header_only, uint8_t(86) };
     case 6439525432329186999U: // etag
+      if (header.name() != "etag") {
+        break;
+      }
+
       return { type::header_only, uint8_t(7) };
     case 9568944059520352163U: // expect-ct
+      if (header.name() != "expect-ct") {
+        break;
+      }
+
       return { type::header_only, uint8_t(87) };
     case 5644212460638603090U: // forwarded
+      if (header.name() != "forwarded") {
+        break;
+      }
+
       return { type::header_only, uint8_t(88) };
     case 12678664253902784264U: // if-modified-since
+      if (header.name() != "if-modified-since") {
+        break;
+      }
+
       return { type::header_only, uint8_t(8) };
     case 8836338662272140136U: // if-none-match
+      if (header.name() != "if-none-match") {
+        break;
+      }
+
       return { type::header_only, uint8_t(9) };
     case 10086758965902305572U: // if-range
+      if (header.name() != "if-range") {
+        break;
+      }
+
       return { type::header_only, uint8_t(89) };
     case 5803729767262815818U: // last-modified
+      if (header.name() != "last-modified") {
+        break;
+      }
+
       return { type::header_only, uint8_t(10) };
     case 17841021884467483934U: // link
+      if (header.name() != "link") {
+        break;
+      }
+
       return { type::header_only, uint8_t(11) };
     case 14592406158319853782U: // location
+      if (header.name() != "location") {
+        break;
+      }
+
       return { type::header_only, uint8_t(12) };
     case 7034821444952201446U: // origin
+      if (header.name() != "origin") {
+        break;
+      }
+
       return { type::header_only, uint8_t(90) };
     case 4274379369960325767U: // purpose
+      if (header.name() != "purpose") {
+        break;
+      }
+
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 15048569516378897441U: // prefetch
-          return { type::header_value, uint8_t(91) };
+          if (header.value() == "prefetch") {
+            return { type::header_value, uint8_t(91) };
+          }
+          break;
       }
       return { type::header_only, uint8_t(91) };
     case 12715602975004390753U: // range
+      if (header.name() != "range") {
+        break;
+      }
+
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 6181996873389341388U: // bytes=0-
-          return { type::header_value, uint8_t(55) };
+          if (header.value() == "bytes=0-") {
+            return { type::header_value, uint8_t(55) };
+          }
+          break;
       }
       return { type::header_only, uint8_t(55) };
     case 14154313121195327909U: // referer
+      if (header.name() != "referer") {
+        break;
+      }
+
       return { type::header_only, uint8_t(13) };
     case 16290507850670895904U: // server
+      if (header.name() != "server") {
+        break;
+      }
+
       return { type::header_only, uint8_t(92) };
     case 666465872145128107U: // set-cookie
+      if (header.name() != "set-cookie") {
+        break;
+      }
+
       return { type::header_only, uint8_t(14) };
     case 4179674550753269761U: // strict-transport-security
+      if (header.name() != "strict-transport-security") {
+        break;
+      }
+
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 13034728143243030830U: // max-age=31536000
-          return { type::header_value, uint8_t(56) };
+          if (header.value() == "max-age=31536000") {
+            return { type::header_value, uint8_t(56) };
+          }
+          break;
         case 11632417432576482556U: // max-age=31536000; includesubdomains
-          return { type::header_value, uint8_t(57) };
+          if (header.value() == "max-age=31536000; includesubdomains") {
+            return { type::header_value, uint8_t(57) };
+          }
+          break;
         case 16736049223785386895U: // max-age=31536000; includesubdomains;
                                     // preload
-          return { type::header_value, uint8_t(58) };
+          if (header.value() ==
+              "max-age=31536000; includesubdomains; preload") {
+            return { type::header_value, uint8_t(58) };
+          }
+          break;
       }
       return { type::header_only, uint8_t(56) };
     case 5374862646944647126U: // timing-allow-origin
+      if (header.name() != "timing-allow-origin") {
+        break;
+      }
+
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 765293966243412708U: // *
-          return { type::header_value, uint8_t(93) };
+          if (header.value() == "*") {
+            return { type::header_value, uint8_t(93) };
+          }
+          break;
       }
       return { type::header_only, uint8_t(93) };
     case 18069291607417813553U: // upgrade-insecure-requests
+      if (header.name() != "upgrade-insecure-requests") {
+        break;
+      }
+
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 13237225503670494420U: // 1
-          return { type::header_value, uint8_t(94) };
+          if (header.value() == "1") {
+            return { type::header_value, uint8_t(94) };
+          }
+          break;
       }
       return { type::header_only, uint8_t(94) };
     case 16625730634708209664U: // user-agent
+      if (header.name() != "user-agent") {
+        break;
+      }
+
       return { type::header_only, uint8_t(95) };
     case 8816542506507529547U: // vary
+      if (header.name() != "vary") {
+        break;
+      }
+
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 14455144075924042224U: // accept-encoding
-          return { type::header_value, uint8_t(59) };
+          if (header.value() == "accept-encoding") {
+            return { type::header_value, uint8_t(59) };
+          }
+          break;
         case 7034821444952201446U: // origin
-          return { type::header_value, uint8_t(60) };
+          if (header.value() == "origin") {
+            return { type::header_value, uint8_t(60) };
+          }
+          break;
       }
       return { type::header_only, uint8_t(59) };
     case 6196956168349306122U: // x-content-type-options
+      if (header.name() != "x-content-type-options") {
+        break;
+      }
+
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 4306527442339074562U: // nosniff
-          return { type::header_value, uint8_t(61) };
+          if (header.value() == "nosniff") {
+            return { type::header_value, uint8_t(61) };
+          }
+          break;
       }
       return { type::header_only, uint8_t(61) };
     case 1042837635865018085U: // x-forwarded-for
+      if (header.name() != "x-forwarded-for") {
+        break;
+      }
+
       return { type::header_only, uint8_t(96) };
     case 8598773544412918900U: // x-frame-options
+      if (header.name() != "x-frame-options") {
+        break;
+      }
+
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 6492545016868164575U: // deny
-          return { type::header_value, uint8_t(97) };
+          if (header.value() == "deny") {
+            return { type::header_value, uint8_t(97) };
+          }
+          break;
         case 13303836962186157521U: // sameorigin
-          return { type::header_value, uint8_t(98) };
+          if (header.value() == "sameorigin") {
+            return { type::header_value, uint8_t(98) };
+          }
+          break;
       }
       return { type::header_only, uint8_t(97) };
     case 15732293358711069708U: // x-xss-protection
+      if (header.name() != "x-xss-protection") {
+        break;
+      }
+
       value_hash = XXH64(header.value().data(), header.value().size(), 0);
       switch (value_hash) {
         case 7412498726110841680U: // 1; mode=block
-          return { type::header_value, uint8_t(62) };
+          if (header.value() == "1; mode=block") {
+            return { type::header_value, uint8_t(62) };
+          }
+          break;
       }
       return { type::header_only, uint8_t(62) };
   }
diff --git a/bnl/http3/tools/generate_qpack.py b/bnl/http3/tools/generate_qpack.py
index acc06d3..5e00c02 100644
--- a/bnl/http3/tools/generate_qpack.py
+++ b/bnl/http3/tools/generate_qpack.py
@@ -125,23 +125,36 @@ static std::pair<type, uint8_t> find_index(header_view header)
 }}\
 """
 
+# Different headers can have the same hash so the header itself is compared too.
+
 no_values_template = """\
-case {}U: // {}
-  return {{ type::header_only, uint8_t({}) }};\
+case {0}U: // {1}
+  if (header.name() != "{1}") {{
+    break;
+  }}
+
+  return {{ type::header_only, uint8_t({2}) }};\
 """
 
 values_template = """\
-case {}U: // {}
+case {0}U: // {1}
+  if (header.name() != "{1}") {{
+    break;
+  }}
+
   value_hash = XXH64(header.value().data(), header.value().size(), 0);
   switch(value_hash) {{
-    {}
+    {2}
   }}
-  return {{ type::header_only, uint8_t({}) }};\
+  return {{ type::header_only, uint8_t({3}) }};\
 """
 
 value_template = """\
-case {}U: // {}
-  return {{ type::header_value, uint8_t({}) }};\
+case {0}U: // {1}
+  if (header.value() == "{1}") {{
+    return {{ type::header_value, uint8_t({2}) }};
+  }}
+  break;\
 """
 
 static_table = [line.split() for line in static_table_raw.splitlines()]
-- 
2.43.0


From 274661ff683860f91f2f914ef0fd17b20f9696fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:36 +0000
Subject: [PATCH 44/47] fix: the integers in a field section's prefix can take
 several bytes

---
 bnl/http3/src/codec/qpack/decode.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/bnl/http3/src/codec/qpack/decode.cpp b/bnl/http3/src/codec/qpack/decode.cpp
index 580d951..2e898f2 100644
--- a/bnl/http3/src/codec/qpack/decode.cpp
+++ b/bnl/http3/src/codec/qpack/decode.cpp
@@ -16,19 +16,20 @@ decoder::count() const noexcept
   return count_;
 }
 
-static constexpr size_t QPACK_PREFIX_ENCODED_SIZE = 2;
-
 template<typename Sequence>
 result<header>
 decoder::decode(Sequence &encoded)
 {
   if (state_ == state::prefix) {
-    if (encoded.size() < QPACK_PREFIX_ENCODED_SIZE) {
-      return error::incomplete;
-    }
+    typename Sequence::lookahead_type lookahead(encoded);
+
+    // The integers in the prefix can take more than one byte each.
+    BNL_TRY(prefix_int::decode(lookahead, 8));
+    // Without dynamic table references, the base can have any value.
+    BNL_TRY(prefix_int::decode(lookahead, 7));
 
-    encoded.consume(QPACK_PREFIX_ENCODED_SIZE);
-    count_ += QPACK_PREFIX_ENCODED_SIZE;
+    count_ += lookahead.consumed();
+    encoded.consume(lookahead.consumed());
     state_ = state::header;
   }
 
-- 
2.43.0


From 691e5d9cb624e12123de60665a217baba686a194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:39 +0000
Subject: [PATCH 45/47] fix: refuse a field section that needs a dynamic table

---
 bnl/http3/src/codec/qpack/decode.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/bnl/http3/src/codec/qpack/decode.cpp b/bnl/http3/src/codec/qpack/decode.cpp
index 2e898f2..fc4699b 100644
--- a/bnl/http3/src/codec/qpack/decode.cpp
+++ b/bnl/http3/src/codec/qpack/decode.cpp
@@ -24,7 +24,15 @@ decoder::decode(Sequence &encoded)
     typename Sequence::lookahead_type lookahead(encoded);
 
     // The integers in the prefix can take more than one byte each.
-    BNL_TRY(prefix_int::decode(lookahead, 8));
+    uint64_t required_insert_count =
+      BNL_TRY(prefix_int::decode(lookahead, 8));
+
+    if (required_insert_count != 0) {
+      BNL_LOG_E("Header block requires {} dynamic table insertions",
+                required_insert_count);
+      return error::qpack_decompression_failed;
+    }
+
     // Without dynamic table references, the base can have any value.
     BNL_TRY(prefix_int::decode(lookahead, 7));
 
-- 
2.43.0


From dd4d61cc52d9f6f0b0b239ef8bf0b74094edba93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:44 +0000
Subject: [PATCH 46/47] fix: report a field line that does not end in its
 HEADERS frame

The decoder kept asking for more input when all bytes of the frame had been
received already.
---
 bnl/http3/src/codec/headers.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/bnl/http3/src/codec/headers.cpp b/bnl/http3/src/codec/headers.cpp
index 2d4dc47..8dd30fc 100644
--- a/bnl/http3/src/codec/headers.cpp
+++ b/bnl/http3/src/codec/headers.cpp
@@ -108,7 +108,15 @@ decoder::decode(Sequence &encoded)
     }
     /* FALLTHRU */
     case state::qpack: {
-      header header = BNL_TRY(qpack_.decode(encoded));
+      result<header> r = qpack_.decode(encoded);
+      if (!r) {
+        // All field lines have to end inside the HEADERS frame.
+        bool overrun = r.error() == error::incomplete &&
+                       qpack_.count() + encoded.size() >= headers_size_;
+        return overrun ? error::malformed_frame : r.error();
+      }
+
+      header header = std::move(r).value();
 
       if (qpack_.count() > headers_size_) {
         return error::malformed_frame;
-- 
2.43.0


From b51975876deeefe89325eb200999fecec31418f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:59 +0000
Subject: [PATCH 47/47] fix: report a frame whose payload is longer than its
 length says

The decoder kept asking for more input when the advertised length had been
received already, and took the bytes of the next frame for the payload.
---
 bnl/http3/src/codec/frame/decode.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/bnl/http3/src/codec/frame/decode.cpp b/bnl/http3/src/codec/frame/decode.cpp
index aac51a6..8078a77 100644
--- a/bnl/http3/src/codec/frame/decode.cpp
+++ b/bnl/http3/src/codec/frame/decode.cpp
@@ -207,7 +207,20 @@ decode_single(Lookahead &lookahead) noexcept
   };
 
   size_t before = lookahead.consumed();
-  frame frame = BNL_TRY(payload_decode());
+  size_t available = lookahead.size();
+
+  result<http3::frame> r = payload_decode();
+  if (!r) {
+    // More input does not complete a payload that was received in full.
+    if (r.error() == error::incomplete && available >= payload_encoded_size) {
+      BNL_LOG_E("Frame payload exceeds its advertised length");
+      return error::malformed_frame;
+    }
+
+    return r.error();
+  }
+
+  frame frame = std::move(r).value();
 
   size_t actual_encoded_size = lookahead.consumed() - before;
 
-- 
2.43.0

