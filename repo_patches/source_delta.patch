From eebe78b57e12f15301eb716ad62e19749c03c872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:58 +0000
Subject: [PATCH 01/18] fix: report EXT frames as unrecognized instead of
 panicking in decode

---
 binate/src/frame/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/binate/src/frame/mod.rs b/binate/src/frame/mod.rs
index d4ebe35..5e10db3 100644
--- a/binate/src/frame/mod.rs
+++ b/binate/src/frame/mod.rs
@@ -170,8 +170,11 @@ impl Frame {
             FrameType::RESUME_OK => {
                 Frame::ResumeOk(ResumeOkFrame::decode(buf, stream_id, flags)?)
             }
+            // No extended frame types are supported.
             FrameType::EXT => {
-                unimplemented!()
+                return Err(DecodeError::UnrecognizedFrameType(
+                    FrameType::EXT.value(),
+                ))
             }
         })
     }
-- 
2.43.0


From c38e8ef16f51eb61fb82c1a3a94ae2138a12d0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:58 +0000
Subject: [PATCH 02/18] fix: put the header flags on the bits the RSocket frame
 header assigns

---
 binate/src/frame/flags.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/binate/src/frame/flags.rs b/binate/src/frame/flags.rs
index eae215a..b3a7e98 100644
--- a/binate/src/frame/flags.rs
+++ b/binate/src/frame/flags.rs
@@ -155,21 +155,21 @@ bitflags! {
     /// Frame header flags.
     pub struct Flags: u16 {
         /// The frame can be ignored.
-        const IGNORE           = 0b01_0000_0000;
+        const IGNORE           = 0b10_0000_0000;
         /// Metadata present.
-        const METADATA         = 0b00_1000_0000;
+        const METADATA         = 0b01_0000_0000;
         /// More fragments follow this fragment.
-        const FOLLOWS          = 0b00_0100_0000;
+        const FOLLOWS          = 0b00_1000_0000;
         /// Client requests resume capability if possible.
-        const RESUME           = 0b00_0100_0000;
+        const RESUME           = 0b00_1000_0000;
         /// Respond with KEEPALIVE.
-        const RESPOND          = 0b00_0100_0000;
+        const RESPOND          = 0b00_1000_0000;
         /// Bit to indicate stream completion.
-        const COMPLETE         = 0b00_0010_0000;
+        const COMPLETE         = 0b00_0100_0000;
         /// Will honor LEASE.
-        const LEASE            = 0b00_0010_0000;
+        const LEASE            = 0b00_0100_0000;
         /// Bit to indicate Next (Payload Data and/or Metadata present).
-        const NEXT             = 0b00_0001_0000;
+        const NEXT             = 0b00_0010_0000;
     }
 }
 
-- 
2.43.0


From 0424282b101fa910d1613c7c58601df6df1d110a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:59 +0000
Subject: [PATCH 03/18] fix: count the SETUP token length field only when there
 is a token

---
 binate/src/frame/codec/setup.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/binate/src/frame/codec/setup.rs b/binate/src/frame/codec/setup.rs
index 9054de5..ab64fa0 100644
--- a/binate/src/frame/codec/setup.rs
+++ b/binate/src/frame/codec/setup.rs
@@ -167,12 +167,12 @@ impl Encode for SetupFrame {
         // len(version): 4
         // len(keepalive): 4
         // len(lifetime): 4
-        // len(token_length): 2
-        let mut len = 20;
+        let mut len = 18;
 
+        // len(token_length): 2
         // len(resume_token)
         if let Some(resume_token) = &self.resume_token {
-            len += resume_token.len();
+            len += 2 + resume_token.len();
         }
 
         // len(mime_metadata_length): 1
-- 
2.43.0


From 8bac0c3f1417e3641e843b8635c42640aaf9a8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:59 +0000
Subject: [PATCH 04/18] fix: give a SETUP frame with the resume flag a
 (possibly empty) token

---
 binate/src/frame/codec/setup.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/binate/src/frame/codec/setup.rs b/binate/src/frame/codec/setup.rs
index ab64fa0..a49c6b8 100644
--- a/binate/src/frame/codec/setup.rs
+++ b/binate/src/frame/codec/setup.rs
@@ -250,8 +250,11 @@ impl Default for SetupFrameBuilder {
 
 impl SetupFrameBuilder {
     /// Sets the `Resume` flag.
+    ///
+    /// The resume identification token is empty unless one is set.
     pub fn set_resume_flag(mut self) -> Self {
         self.flags |= Flags::RESUME;
+        self.resume_token.get_or_insert_with(Bytes::new);
         self
     }
 
-- 
2.43.0


From 3c7c8ebb57c5ea82de66b3a6088c34c20503bd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:59 +0000
Subject: [PATCH 05/18] fix: refuse MIME types that do not fit their 8-bit
 length prefix

---
 binate/src/frame/codec/setup.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/binate/src/frame/codec/setup.rs b/binate/src/frame/codec/setup.rs
index a49c6b8..eb366e8 100644
--- a/binate/src/frame/codec/setup.rs
+++ b/binate/src/frame/codec/setup.rs
@@ -311,7 +311,7 @@ impl SetupFrameBuilder {
     ///
     /// # Panics
     ///
-    /// This function panics if the length of the given `mimetype` is greater than `256` bytes.
+    /// This function panics if the length of the given `mimetype` is greater than `255` bytes.
     ///
     /// [`Internet media type`]: https://en.wikipedia.org/wiki/Internet_media_type
     /// [`RFC 2045`]: https://datatracker.ietf.org/doc/html/rfc2045
@@ -320,7 +320,7 @@ impl SetupFrameBuilder {
         T: Into<String>,
     {
         let mimetype: String = mimetype.into();
-        assert!(mimetype.len() <= 256);
+        assert!(mimetype.len() <= 255);
         self.metadata_mimetype = Bytes::from(mimetype);
         self
     }
@@ -332,7 +332,7 @@ impl SetupFrameBuilder {
     ///
     /// # Panics
     ///
-    /// This function panics if the length of the given `mimetype` is greater than `256` bytes.
+    /// This function panics if the length of the given `mimetype` is greater than `255` bytes.
     ///
     /// [`Internet media type`]: https://en.wikipedia.org/wiki/Internet_media_type
     /// [`RFC 2045`]: https://datatracker.ietf.org/doc/html/rfc2045
@@ -341,7 +341,7 @@ impl SetupFrameBuilder {
         T: Into<String>,
     {
         let mimetype: String = mimetype.into();
-        assert!(mimetype.len() <= 256);
+        assert!(mimetype.len() <= 255);
         self.data_mimetype = Bytes::from(mimetype);
         self
     }
-- 
2.43.0


From 2b3b5777bf2cda588c3d8f1bf03f6723cfd24176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:59 +0000
Subject: [PATCH 06/18] fix: refuse RESUME tokens that do not fit their 16-bit
 length prefix

---
 binate/src/frame/codec/resume.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/binate/src/frame/codec/resume.rs b/binate/src/frame/codec/resume.rs
index 2db1d2d..d7356db 100644
--- a/binate/src/frame/codec/resume.rs
+++ b/binate/src/frame/codec/resume.rs
@@ -45,12 +45,17 @@ impl ResumeFrame {
     /// - The length of `resume_token` MUST be <= `65,535` bytes long.
     /// - Both `last_received_server_position` and `first_available_client_position` MUST be <=
     /// [`MAX_U63`].
+    ///
+    /// # Panics
+    ///
+    /// This function panics if the length of the given token is greater than 65,535 bytes.
     pub fn new(
         version: Version,
         resume_token: Bytes,
         mut last_received_server_position: u64,
         mut first_available_client_position: u64,
     ) -> Self {
+        assert!(resume_token.len() <= 65_535);
         debug_assert_max_u63!(
             last_received_server_position,
             first_available_client_position
-- 
2.43.0


From 9c2b09dfca1c48e50cd613227ed7b0d5a709e25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:00 +0000
Subject: [PATCH 07/18] fix: keep LEASE fields within 31 bits like every other
 frame

---
 binate/src/frame/codec/lease.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/binate/src/frame/codec/lease.rs b/binate/src/frame/codec/lease.rs
index 13c7dd7..264ef49 100644
--- a/binate/src/frame/codec/lease.rs
+++ b/binate/src/frame/codec/lease.rs
@@ -46,6 +46,8 @@ impl LeaseFrame {
         metadata: Option<Bytes>,
     ) -> Self {
         debug_assert_max_u31!(ttl, number_of_requests);
+        let ttl = ttl & MAX_U31;
+        let number_of_requests = number_of_requests & MAX_U31;
         LeaseFrame { ttl, number_of_requests, metadata }
     }
 
-- 
2.43.0


From 0287003ecf604df5e5847b92ded32ab1e07b57ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:00 +0000
Subject: [PATCH 08/18] fix: keep all 32 bits of an error code

Application error codes go up to 0xFFFFFFFE and are decoded in full.
---
 binate/src/frame/codec/error.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/binate/src/frame/codec/error.rs b/binate/src/frame/codec/error.rs
index 233124f..034bd9e 100644
--- a/binate/src/frame/codec/error.rs
+++ b/binate/src/frame/codec/error.rs
@@ -108,14 +108,13 @@ impl ErrorFrame {
 impl ErrorFrame {
     /// Create a new `ErrorFrame`.
     ///
-    /// - `stream_id` and `error_code` MUST be <= [`MAX_U31`].
+    /// - `stream_id` MUST be <= [`MAX_U31`].
     /// - `data` SHOULD be a UTF-8 encoded string.
     pub fn new(stream_id: u32, error_code: u32, data: Option<Bytes>) -> Self {
         debug_assert_max_u31!(stream_id);
-        debug_assert_max_u31!(error_code);
         ErrorFrame {
             stream_id: stream_id & MAX_U31,
-            code: error_code & MAX_U31,
+            code: error_code,
             data,
         }
     }
-- 
2.43.0


From 12a6f75fe2cb39a61ab3d66f8ab24fa81d182ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:00 +0000
Subject: [PATCH 09/18] fix: describe REJECTED errors as REJECTED

---
 binate/src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binate/src/error.rs b/binate/src/error.rs
index 2662325..5b7c1ef 100644
--- a/binate/src/error.rs
+++ b/binate/src/error.rs
@@ -211,7 +211,7 @@ impl Error {
             ConnectionError => "CONNECTION_ERROR (0x00000101)",
             ConnectionClose => "CONNECTION_CLOSE (0x00000102)",
             ApplicationError => "APPLICATION_ERROR (0x00000201)",
-            Rejected => "CONNECTION_ERROR (0x00000202)",
+            Rejected => "REJECTED (0x00000202)",
             Canceled => "CANCELED (0x00000203)",
             Invalid => "INVALID (0x00000204)",
             Decode(_) => "error decoding frame",
-- 
2.43.0


From 4cfb2bba0ec959ccb964b1a950b45232cfd1cd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:00 +0000
Subject: [PATCH 10/18] fix: never hand out the reserved stream ID 0 after
 wrap-around

---
 binate/src/connection/stream_id.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/binate/src/connection/stream_id.rs b/binate/src/connection/stream_id.rs
index f0d54a2..39ee850 100644
--- a/binate/src/connection/stream_id.rs
+++ b/binate/src/connection/stream_id.rs
@@ -32,7 +32,8 @@ impl StreamIdProvider {
             sid = (self.0.fetch_add(2, Ordering::Relaxed) & STREAM_ID_MASK)
                 as u32;
 
-            if !store.contains_key(&sid) {
+            // Stream ID 0 is reserved for the connection itself.
+            if sid != 0 && !store.contains_key(&sid) {
                 break;
             }
         }
-- 
2.43.0


From 9891ad8747baeb5d1c385935027e2ce76f9a838c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:01 +0000
Subject: [PATCH 11/18] fix: saturate the permit counter instead of wrapping to
 negative

---
 binate/src/connection/counter.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/binate/src/connection/counter.rs b/binate/src/connection/counter.rs
index d85523a..6203802 100644
--- a/binate/src/connection/counter.rs
+++ b/binate/src/connection/counter.rs
@@ -22,9 +22,12 @@ impl RequestCounter {
         self.0.load(Ordering::SeqCst) == 0
     }
 
-    /// Adds permits to this counter.
+    /// Adds permits to this counter, up to a maximum of `i32::MAX` permits.
     pub fn add(&self, n: u32) {
-        self.0.fetch_add(n as i32, Ordering::SeqCst);
+        let n = n.min(COUNTER_MASK) as i32;
+        self.0.update(Ordering::SeqCst, Ordering::SeqCst, |count| {
+            count.saturating_add(n)
+        });
     }
 
     /// Returns the count this counter stores.
-- 
2.43.0


From 433db647273cbea251546d496aa9924b70060876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:01 +0000
Subject: [PATCH 12/18] fix: count payload chunks exactly

The f32 arithmetic miscounted payloads over 2^24 bytes, empty parts were not
counted, and size_hint contradicted the exact length.
---
 binate/src/payload.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/binate/src/payload.rs b/binate/src/payload.rs
index 39ab4d4..fdf996e 100644
--- a/binate/src/payload.rs
+++ b/binate/src/payload.rs
@@ -198,14 +198,13 @@ impl ExactSizeIterator for PayloadChunks {
     /// Returns the number of chunks in this `PayloadChunks`.
     #[inline]
     fn len(&self) -> usize {
-        let metadata_len =
-            self.metadata.as_ref().map(|bytes| bytes.len()).unwrap_or(0);
-        let data_len =
-            self.data.as_ref().map(|bytes| bytes.len()).unwrap_or(0);
-        let len1 = metadata_len as f32 / self.chunk_size as f32;
-        let len2 = data_len as f32 / self.chunk_size as f32;
-
-        cmp::max(len1.ceil() as usize, len2.ceil() as usize)
+        let chunks_of = |part: &Option<Bytes>| match part {
+            // An empty part still takes one chunk.
+            Some(bytes) => cmp::max(bytes.len().div_ceil(self.chunk_size), 1),
+            None => 0,
+        };
+
+        cmp::max(chunks_of(&self.metadata), chunks_of(&self.data))
     }
 }
 
@@ -237,6 +236,11 @@ impl Iterator for PayloadChunks {
         }
         Some(Payload::new(meta, data))
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.len();
+        (len, Some(len))
+    }
 }
 
 impl iter::FusedIterator for PayloadChunks {}
-- 
2.43.0


From 99dbba8dd660afc933f4973da874ea5377d97d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:01 +0000
Subject: [PATCH 13/18] fix: end the infinite recursion when naming a
 well-known MIME type

---
 binate/src/mimetype.rs | 55 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 51 insertions(+), 4 deletions(-)

diff --git a/binate/src/mimetype.rs b/binate/src/mimetype.rs
index 18277b3..5526ee4 100644
--- a/binate/src/mimetype.rs
+++ b/binate/src/mimetype.rs
@@ -117,12 +117,59 @@ impl From<&str> for WellKnownMimeType {
     }
 }
 
+#[rustfmt::skip]
 impl From<WellKnownMimeType> for &'static str {
     fn from(t: WellKnownMimeType) -> &'static str {
-        if t == WellKnownMimeType::UNPARSEABLE {
-            ""
-        } else {
-            t.into()
+        use WellKnownMimeType::*;
+        match t {
+            UNPARSEABLE => "",
+            APPLICATION_AVRO => "application/avro",
+            APPLICATION_CBOR => "application/cbor",
+            APPLICATION_GRAPHQL => "application/graphql",
+            APPLICATION_GZIP => "application/gzip",
+            APPLICATION_JAVASCRIPT => "application/javascript",
+            APPLICATION_JSON => "application/json",
+            APPLICATION_OCTET_STREAM => "application/octet-stream",
+            APPLICATION_PDF => "application/pdf",
+            APPLICATION_VND_APACHE_THRIFT_BINARY => "application/vnd.apache.thrift.binary",
+            APPLICATION_VND_GOOGLE_PROTOBUF => "application/vnd.google.protobuf",
+            APPLICATION_XML => "application/xml",
+            APPLICATION_ZIP => "application/zip",
+            AUDIO_AAC => "audio/aac",
+            AUDIO_MP3 => "audio/mp3",
+            AUDIO_MP4 => "audio/mp4",
+            AUDIO_MPEG3 => "audio/mpeg3",
+            AUDIO_MPEG => "audio/mpeg",
+            AUDIO_OGG => "audio/ogg",
+            AUDIO_OPUS => "audio/opus",
+            AUDIO_VORBIS => "audio/vorbis",
+            IMAGE_BMP => "image/bmp",
+            IMAGE_GIF => "image/gif",
+            IMAGE_HEIC_SEQUENCE => "image/heic-sequence",
+            IMAGE_HEIC => "image/heic",
+            IMAGE_HEIF_SEQUENCE => "image/heif-sequence",
+            IMAGE_HEIF => "image/heif",
+            IMAGE_JPEG => "image/jpeg",
+            IMAGE_PNG => "image/png",
+            IMAGE_TIFF => "image/tiff",
+            MULTIPART_MIXED => "multipart/mixed",
+            TEXT_CSS => "text/css",
+            TEXT_CSV => "text/csv",
+            TEXT_HTML => "text/html",
+            TEXT_PLAIN => "text/plain",
+            TEXT_XML => "text/xml",
+            VIDEO_H264 => "video/H264",
+            VIDEO_H265 => "video/H265",
+            VIDEO_VP8 => "video/VP8",
+            APPLICATION_X_HESSIAN => "application/x-hessian",
+            APPLICATION_X_JAVA_OBJECT => "application/x-java-object",
+            APPLICATION_CLOUDEVENTS_JSON => "application/cloudevents+json",
+            MESSAGE_X_RSOCKET_MIME_TYPE_V0 => "message/x.rsocket.mime.type.v0",
+            MESSAGE_X_RSOCKET_ACCEPT_TIME_TYPES_V0 => "message/x.rsocket.accept.time.types.v0",
+            MESSAGE_X_RSOCKET_AUTHENTICATION_V0 => "message/x.rsocket.authentication.v0",
+            MESSAGE_X_RSOCKET_TRACING_ZIPKIN_V0 => "message/x.rsocket.tracing.zipkin.v0",
+            MESSAGE_X_RSOCKET_ROUTING_V0 => "message/x.rsocket.routing.v0",
+            MESSAGE_X_RSOCKET_COMPOSITE_METADATA_V0 => "message/x.rsocket.composite.metadata.v0",
         }
     }
 }
-- 
2.43.0


From 9156f0dfc31bbbd106c5605e3b213214075ee037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:02 +0000
Subject: [PATCH 14/18] fix: send a frame for an empty payload when
 fragmentation is on

---
 binate/src/connection/socket.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/binate/src/connection/socket.rs b/binate/src/connection/socket.rs
index 06f252c..9c941f6 100644
--- a/binate/src/connection/socket.rs
+++ b/binate/src/connection/socket.rs
@@ -148,7 +148,9 @@ impl RSocket for RSocketMachine {
     fn fire_and_forget(&self, payload: Payload) -> Result<()> {
         let stream_id = self.stream_id.next_stream_id(&self.receivers);
 
-        if let Some(chunk_size) = self.chunk_payload {
+        // An empty payload has no chunks, but still takes one frame.
+        let chunk_payload = self.chunk_payload.filter(|_| !payload.is_empty());
+        if let Some(chunk_size) = chunk_payload {
             let chunks = payload.chunks(chunk_size);
             let chunks_len = chunks.len();
             for (idx, chunked) in chunks.enumerate() {
-- 
2.43.0


From b72e1ca6ab2ae7a7b64e94ee38c3e6e728c5f97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:02 +0000
Subject: [PATCH 15/18] fix: watch one connection status stream instead of
 resubscribing

Each subscription publishes the current status at once, so resubscribing per
status handled a close over and over.
---
 binate/src/connection/socket.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/binate/src/connection/socket.rs b/binate/src/connection/socket.rs
index 9c941f6..e050322 100644
--- a/binate/src/connection/socket.rs
+++ b/binate/src/connection/socket.rs
@@ -70,9 +70,8 @@ impl RSocketMachine {
         // Listens to the connection status.
         let mut cloned_rsm = rsm.clone();
         runtime::spawn(async move {
-            while let Some(status) =
-                cloned_rsm.connection.connection_status().next().await
-            {
+            let mut statuses = cloned_rsm.connection.connection_status();
+            while let Some(status) = statuses.next().await {
                 match status {
                     ConnectionStatus::Closed => {
                         cloned_rsm.handle_transport_close();
-- 
2.43.0


From 7946f53355f18fbd79b69b08c3ad6b49aaa125da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:45 +0000
Subject: [PATCH 16/18] fix: carry a metadata length exactly when the METADATA
 flag is set

The length was written and expected on frames without metadata too, which no
other RSocket peer does, and empty metadata was lost on decoding.
---
 binate/src/frame/codec/payload.rs          | 21 +++++++++++++--------
 binate/src/frame/codec/request_channel.rs  | 21 +++++++++++++--------
 binate/src/frame/codec/request_fnf.rs      | 21 +++++++++++++--------
 binate/src/frame/codec/request_response.rs | 21 +++++++++++++--------
 binate/src/frame/codec/request_stream.rs   | 21 +++++++++++++--------
 binate/src/frame/codec/setup.rs            | 17 ++++++++++-------
 binate/src/frame/visit.rs                  |  7 +++----
 7 files changed, 78 insertions(+), 51 deletions(-)

diff --git a/binate/src/frame/codec/payload.rs b/binate/src/frame/codec/payload.rs
index 71033d5..b30b7f2 100644
--- a/binate/src/frame/codec/payload.rs
+++ b/binate/src/frame/codec/payload.rs
@@ -91,20 +91,25 @@ impl Encode for PayloadFrame {
     fn encode(&self, buf: &mut BytesMut) {
         buf.put_u32(self.stream_id);
         buf.put_u16(FrameType::PAYLOAD.bits() | self.flags.bits());
-        let u24 = U24::from_usize(
-            self.payload.metadata().map(|v| v.len()).unwrap_or_default(),
-        );
-        buf.put_u8(u24.0);
-        buf.put_u16(u24.1);
+        if let Some(metadata) = self.payload.metadata() {
+            let u24 = U24::from_usize(metadata.len());
+            buf.put_u8(u24.0);
+            buf.put_u16(u24.1);
+        }
         self.payload.encode(buf);
     }
 
     fn len(&self) -> usize {
         // len(stream_id): 4
         // len(flags): 2
-        // len(metadata_len): 3
         // len(payload)
-        9 + self.payload.len()
+        let mut len = 6 + self.payload.len();
+
+        // len(metadata_len): 3
+        if self.payload.has_metadata() {
+            len += 3;
+        }
+        len
     }
 }
 
@@ -116,7 +121,7 @@ impl Decode for PayloadFrame {
         stream_id: u32,
         flags: Flags,
     ) -> Result<Self::Value> {
-        let payload = eat_payload(buf, true)?;
+        let payload = eat_payload(buf, flags)?;
         Ok(PayloadFrame { stream_id, flags, payload })
     }
 }
diff --git a/binate/src/frame/codec/request_channel.rs b/binate/src/frame/codec/request_channel.rs
index a3942b2..7ca595f 100644
--- a/binate/src/frame/codec/request_channel.rs
+++ b/binate/src/frame/codec/request_channel.rs
@@ -103,21 +103,26 @@ impl Encode for RequestChannelFrame {
         buf.put_u32(self.stream_id);
         buf.put_u16(FrameType::REQUEST_CHANNEL.bits() | self.flags.bits());
         buf.put_u32(self.initial_request_n);
-        let u24 = U24::from_usize(
-            self.payload.metadata().map(|v| v.len()).unwrap_or_default(),
-        );
-        buf.put_u8(u24.0);
-        buf.put_u16(u24.1);
+        if let Some(metadata) = self.payload.metadata() {
+            let u24 = U24::from_usize(metadata.len());
+            buf.put_u8(u24.0);
+            buf.put_u16(u24.1);
+        }
         self.payload.encode(buf);
     }
 
     fn len(&self) -> usize {
         // len(stream_id): 4
         // len(flags): 2
-        // len(metadata_len): 3
         // len(initial_request_n): 4
         // len(payload)
-        13 + self.payload.len()
+        let mut len = 10 + self.payload.len();
+
+        // len(metadata_len): 3
+        if self.payload.has_metadata() {
+            len += 3;
+        }
+        len
     }
 }
 
@@ -130,7 +135,7 @@ impl Decode for RequestChannelFrame {
         flags: Flags,
     ) -> Result<Self::Value> {
         let initial_request_n = eat_u31(buf)?;
-        let payload = eat_payload(buf, true)?;
+        let payload = eat_payload(buf, flags)?;
         Ok(RequestChannelFrame {
             stream_id,
             flags,
diff --git a/binate/src/frame/codec/request_fnf.rs b/binate/src/frame/codec/request_fnf.rs
index fedc700..aac781f 100644
--- a/binate/src/frame/codec/request_fnf.rs
+++ b/binate/src/frame/codec/request_fnf.rs
@@ -75,20 +75,25 @@ impl Encode for RequestFnfFrame {
     fn encode(&self, buf: &mut BytesMut) {
         buf.put_u32(self.stream_id);
         buf.put_u16(FrameType::REQUEST_FNF.bits() | self.flags.bits());
-        let u24 = U24::from_usize(
-            self.payload.metadata().map(|v| v.len()).unwrap_or_default(),
-        );
-        buf.put_u8(u24.0);
-        buf.put_u16(u24.1);
+        if let Some(metadata) = self.payload.metadata() {
+            let u24 = U24::from_usize(metadata.len());
+            buf.put_u8(u24.0);
+            buf.put_u16(u24.1);
+        }
         self.payload.encode(buf);
     }
 
     fn len(&self) -> usize {
         // len(stream_id): 4
         // len(flags): 2
-        // len(metadata_len): 3
         // len(payload)
-        9 + self.payload.len()
+        let mut len = 6 + self.payload.len();
+
+        // len(metadata_len): 3
+        if self.payload.has_metadata() {
+            len += 3;
+        }
+        len
     }
 }
 
@@ -100,7 +105,7 @@ impl Decode for RequestFnfFrame {
         stream_id: u32,
         flags: Flags,
     ) -> Result<Self::Value> {
-        let payload = eat_payload(buf, true)?;
+        let payload = eat_payload(buf, flags)?;
         Ok(RequestFnfFrame { stream_id, flags, payload })
     }
 }
diff --git a/binate/src/frame/codec/request_response.rs b/binate/src/frame/codec/request_response.rs
index aaeabb1..e6a7669 100644
--- a/binate/src/frame/codec/request_response.rs
+++ b/binate/src/frame/codec/request_response.rs
@@ -75,20 +75,25 @@ impl Encode for RequestResponseFrame {
     fn encode(&self, buf: &mut BytesMut) {
         buf.put_u32(self.stream_id);
         buf.put_u16(FrameType::REQUEST_RESPONSE.bits() | self.flags.bits());
-        let u24 = U24::from_usize(
-            self.payload.metadata().map(|v| v.len()).unwrap_or_default(),
-        );
-        buf.put_u8(u24.0);
-        buf.put_u16(u24.1);
+        if let Some(metadata) = self.payload.metadata() {
+            let u24 = U24::from_usize(metadata.len());
+            buf.put_u8(u24.0);
+            buf.put_u16(u24.1);
+        }
         self.payload.encode(buf);
     }
 
     fn len(&self) -> usize {
         // len(stream_id): 4
         // len(flags): 2
-        // len(metadata_len): 3
         // len(payload)
-        9 + self.payload.len()
+        let mut len = 6 + self.payload.len();
+
+        // len(metadata_len): 3
+        if self.payload.has_metadata() {
+            len += 3;
+        }
+        len
     }
 }
 
@@ -100,7 +105,7 @@ impl Decode for RequestResponseFrame {
         stream_id: u32,
         flags: Flags,
     ) -> Result<Self::Value> {
-        let payload = eat_payload(buf, true)?;
+        let payload = eat_payload(buf, flags)?;
         Ok(RequestResponseFrame { stream_id, flags, payload })
     }
 }
diff --git a/binate/src/frame/codec/request_stream.rs b/binate/src/frame/codec/request_stream.rs
index ab09fb4..01016d7 100644
--- a/binate/src/frame/codec/request_stream.rs
+++ b/binate/src/frame/codec/request_stream.rs
@@ -92,21 +92,26 @@ impl Encode for RequestStreamFrame {
         buf.put_u32(self.stream_id);
         buf.put_u16(FrameType::REQUEST_STREAM.bits() | self.flags.bits());
         buf.put_u32(self.initial_request_n);
-        let u24 = U24::from_usize(
-            self.payload.metadata().map(|v| v.len()).unwrap_or_default(),
-        );
-        buf.put_u8(u24.0);
-        buf.put_u16(u24.1);
+        if let Some(metadata) = self.payload.metadata() {
+            let u24 = U24::from_usize(metadata.len());
+            buf.put_u8(u24.0);
+            buf.put_u16(u24.1);
+        }
         self.payload.encode(buf);
     }
 
     fn len(&self) -> usize {
         // len(stream_id): 4
         // len(flags): 2
-        // len(metadata_len): 3
         // len(initial_request_n): 4
         // len(payload)
-        13 + self.payload.len()
+        let mut len = 10 + self.payload.len();
+
+        // len(metadata_len): 3
+        if self.payload.has_metadata() {
+            len += 3;
+        }
+        len
     }
 }
 
@@ -119,7 +124,7 @@ impl Decode for RequestStreamFrame {
         flags: Flags,
     ) -> Result<Self::Value> {
         let initial_request_n = eat_u31(buf)?;
-        let payload = eat_payload(buf, true)?;
+        let payload = eat_payload(buf, flags)?;
         Ok(RequestStreamFrame { stream_id, flags, initial_request_n, payload })
     }
 }
diff --git a/binate/src/frame/codec/setup.rs b/binate/src/frame/codec/setup.rs
index eb366e8..1d84456 100644
--- a/binate/src/frame/codec/setup.rs
+++ b/binate/src/frame/codec/setup.rs
@@ -153,11 +153,11 @@ impl Encode for SetupFrame {
         buf.put_slice(&self.metadata_mimetype);
         buf.put_u8(self.data_mimetype.len() as u8);
         buf.put_slice(&self.data_mimetype);
-        let u24 = U24::from_usize(
-            self.payload.metadata().map(|v| v.len()).unwrap_or_default(),
-        );
-        buf.put_u8(u24.0);
-        buf.put_u16(u24.1);
+        if let Some(metadata) = self.payload.metadata() {
+            let u24 = U24::from_usize(metadata.len());
+            buf.put_u8(u24.0);
+            buf.put_u16(u24.1);
+        }
         self.payload.encode(buf);
     }
 
@@ -183,7 +183,10 @@ impl Encode for SetupFrame {
 
         // len(metadata_length): 3
         // len(payload)
-        len += 3 + self.payload.len();
+        if self.payload.has_metadata() {
+            len += 3;
+        }
+        len += self.payload.len();
 
         len
     }
@@ -206,7 +209,7 @@ impl Decode for SetupFrame {
             eat_bytes(buf, metadata_mimetype_len as usize)?;
         let data_mimetype_len = eat_u8(buf)?;
         let data_mimetype = eat_bytes(buf, data_mimetype_len as usize)?;
-        let payload = eat_payload(buf, true)?;
+        let payload = eat_payload(buf, flags)?;
         Ok(SetupFrame {
             flags,
             version,
diff --git a/binate/src/frame/visit.rs b/binate/src/frame/visit.rs
index 0556ba6..4ef49e5 100644
--- a/binate/src/frame/visit.rs
+++ b/binate/src/frame/visit.rs
@@ -84,11 +84,10 @@ pub(super) fn eat_bytes<B: Buf>(buf: &mut B, len: usize) -> Result<Bytes> {
 
 pub(super) fn eat_payload<B: Buf>(
     buf: &mut B,
-    can_have_data: bool,
+    flags: Flags,
 ) -> Result<Payload> {
-    let metadata_len =
-        if can_have_data { eat_u24(buf)?.into_usize() } else { 0 };
-    let metadata = if metadata_len > 0 {
+    let metadata = if flags.contains(Flags::METADATA) {
+        let metadata_len = eat_u24(buf)?.into_usize();
         Some(eat_bytes(buf, metadata_len)?)
     } else {
         None
-- 
2.43.0


From 9d3d3e6b5cfbd5e951a2c7da4940833fffa8d492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:45 +0000
Subject: [PATCH 17/18] fix: read LEASE metadata exactly when the METADATA flag
 is set

---
 binate/src/frame/codec/lease.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/binate/src/frame/codec/lease.rs b/binate/src/frame/codec/lease.rs
index 264ef49..863d5bd 100644
--- a/binate/src/frame/codec/lease.rs
+++ b/binate/src/frame/codec/lease.rs
@@ -103,7 +103,7 @@ impl Decode for LeaseFrame {
     fn decode<B: Buf>(
         buf: &mut B,
         stream_id: u32,
-        _flags: Flags,
+        flags: Flags,
     ) -> Result<Self::Value> {
         if stream_id != 0 {
             return Err(DecodeError::InvalidStreamId {
@@ -113,9 +113,10 @@ impl Decode for LeaseFrame {
         }
         let ttl = eat_u31(buf)?;
         let number_of_requests = eat_u31(buf)?;
-        let metadata = match buf.remaining() {
-            0 => None,
-            len => Some(eat_bytes(buf, len)?),
+        let metadata = if flags.contains(Flags::METADATA) {
+            Some(eat_bytes(buf, buf.remaining())?)
+        } else {
+            None
         };
         Ok(LeaseFrame { ttl, number_of_requests, metadata })
     }
-- 
2.43.0


From f2588ca909d81cd4799cdda1ccfe52265b978fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:55 +0000
Subject: [PATCH 18/18] fix: an 8-bit field needs one byte of input, not two

---
 binate/src/frame/visit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/binate/src/frame/visit.rs b/binate/src/frame/visit.rs
index 4ef49e5..8d8af04 100644
--- a/binate/src/frame/visit.rs
+++ b/binate/src/frame/visit.rs
@@ -41,7 +41,7 @@ pub(super) fn eat_version<B: Buf>(buf: &mut B) -> Result<Version> {
 }
 
 pub(super) fn eat_u8<B: Buf>(buf: &mut B) -> Result<u8> {
-    incomplete_if_less_than!(buf, 2);
+    incomplete_if_less_than!(buf, 1);
 
     Ok(buf.get_u8())
 }
-- 
2.43.0

