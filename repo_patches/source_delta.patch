From b784ed8ed205164264fbbdc683cefc7fe54fa033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:25 +0000
Subject: [PATCH 01/20] fix: write ', chunked' only on the transfer-encoding
 line of a response

The flag that a final chunked coding is still missing was never reset, so it was
also appended to the next connection or trailer line ('connection: close, chunked').
---
 src/proto/h1/role.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/proto/h1/role.rs b/src/proto/h1/role.rs
index 29bcd44..88396ce 100644
--- a/src/proto/h1/role.rs
+++ b/src/proto/h1/role.rs
@@ -700,6 +700,7 @@ impl Server {
                 cur_name = Some(n);
                 handle_is_name_written!();
                 is_name_written = false;
+                must_write_chunked = false;
             }
             let name = cur_name.as_ref().expect("current header name");
             match *name {
-- 
2.43.0


From 8b181a25b56a6537de6e360c036ca4855092216a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:25 +0000
Subject: [PATCH 02/20] fix: keep the service's 'connection: close' when
 answering an HTTP/1.0 request

For an HTTP/1.0 peer that asked for keep-alive, the response's connection header was
replaced by keep-alive even if it said close, and the connection was kept open.
---
 src/proto/h1/conn.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/proto/h1/conn.rs b/src/proto/h1/conn.rs
index 19c1283..47fd26d 100644
--- a/src/proto/h1/conn.rs
+++ b/src/proto/h1/conn.rs
@@ -677,7 +677,9 @@ where
                 // If response is version 1.1 and keep-alive is wanted, add
                 // Connection: keep-alive header when not present
                 Version::HTTP_11 => {
-                    if self.state.wants_keep_alive() {
+                    if self.state.wants_keep_alive()
+                        && !headers::connection_any_close(&head.headers)
+                    {
                         head.headers
                             .insert(CONNECTION, HeaderValue::from_static("keep-alive"));
                     }
-- 
2.43.0


From 590f23e102349378acb62a1906da5e341cf676e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:08 +0000
Subject: [PATCH 03/20] fix: a connection closes if any Connection line says
 close

---
 src/proto/h1/role.rs | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/src/proto/h1/role.rs b/src/proto/h1/role.rs
index 88396ce..481b518 100644
--- a/src/proto/h1/role.rs
+++ b/src/proto/h1/role.rs
@@ -147,6 +147,7 @@ impl Http1Transaction for Server {
         debug_assert!(!buf.is_empty(), "parse called with empty buf");
 
         let mut keep_alive;
+        let mut is_close = false;
         let is_http_11;
         let subject;
         let version;
@@ -308,14 +309,11 @@ impl Http1Transaction for Server {
                     con_len = Some(len);
                 }
                 header::CONNECTION => {
-                    // keep_alive was previously set to default for Version
-                    if keep_alive {
-                        // HTTP/1.1
-                        keep_alive = !headers::connection_close(&value);
-                    } else {
-                        // HTTP/1.0
-                        keep_alive = headers::connection_keep_alive(&value);
-                    }
+                    // keep_alive was previously set to default for Version,
+                    // and `close` on any line overrides it
+                    is_close |= headers::connection_close(&value);
+                    keep_alive = !is_close
+                        && (keep_alive || headers::connection_keep_alive(&value));
                 }
                 header::EXPECT => {
                     // According to https://datatracker.ietf.org/doc/html/rfc2616#section-14.20
@@ -1102,6 +1100,7 @@ impl Http1Transaction for Client {
             let mut headers = ctx.cached_headers.take().unwrap_or_default();
 
             let mut keep_alive = version == Version::HTTP_11;
+            let mut is_close = false;
 
             let mut header_case_map = if ctx.preserve_header_case {
                 Some(HeaderCaseMap::default())
@@ -1124,14 +1123,11 @@ impl Http1Transaction for Client {
                 let value = header_value!(slice.slice(header.value.0..header.value.1));
 
                 if let header::CONNECTION = name {
-                    // keep_alive was previously set to default for Version
-                    if keep_alive {
-                        // HTTP/1.1
-                        keep_alive = !headers::connection_close(&value);
-                    } else {
-                        // HTTP/1.0
-                        keep_alive = headers::connection_keep_alive(&value);
-                    }
+                    // keep_alive was previously set to default for Version,
+                    // and `close` on any line overrides it
+                    is_close |= headers::connection_close(&value);
+                    keep_alive = !is_close
+                        && (keep_alive || headers::connection_keep_alive(&value));
                 }
 
                 if let Some(header_case_map) = &mut header_case_map {
-- 
2.43.0


From 2aece296a81191f7e92b2e624d9b4ed29bed42a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:53 +0000
Subject: [PATCH 04/20] fix: flush pipelined responses when no further request
 will be read

---
 src/proto/h1/conn.rs |  5 +++++
 src/proto/h1/io.rs   | 13 +++++++++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/proto/h1/conn.rs b/src/proto/h1/conn.rs
index 47fd26d..3569497 100644
--- a/src/proto/h1/conn.rs
+++ b/src/proto/h1/conn.rs
@@ -840,6 +840,11 @@ where
     pub(crate) fn poll_flush(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
         ready!(Pin::new(&mut self.io).poll_flush(cx))?;
         self.try_keep_alive(cx);
+        if self.state.is_read_closed() && self.io.has_buffered_write() {
+            // The flush was delayed for a pipelined request, but none will
+            // be read any more.
+            ready!(self.io.poll_flush_buffered(cx))?;
+        }
         trace!("flushed({}): {:?}", T::LOG, self.state);
         Poll::Ready(Ok(()))
     }
diff --git a/src/proto/h1/io.rs b/src/proto/h1/io.rs
index 6b3f10f..d9cbea1 100644
--- a/src/proto/h1/io.rs
+++ b/src/proto/h1/io.rs
@@ -269,9 +269,18 @@ where
     }
 
     pub(crate) fn poll_flush(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
-        if self.flush_pipeline && !self.read_buf.is_empty() {
+        // Delay the flush while there may be another pipelined request to
+        // respond to, but not if it is known to be incomplete.
+        if self.flush_pipeline && !self.read_buf.is_empty() && self.partial_len.is_none() {
             Poll::Ready(Ok(()))
-        } else if self.write_buf.remaining() == 0 {
+        } else {
+            self.poll_flush_buffered(cx)
+        }
+    }
+
+    /// Flushes what is buffered, even if pipelined requests are waiting.
+    pub(crate) fn poll_flush_buffered(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
+        if self.write_buf.remaining() == 0 {
             Pin::new(&mut self.io).poll_flush(cx)
         } else {
             if let WriteStrategy::Flatten = self.write_buf.strategy {
-- 
2.43.0


From 8a413f7e3855bc1b38fdd2f0aef72bfb2641dbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:23 +0000
Subject: [PATCH 05/20] fix: flush pipelined responses on a slow transport
 before closing or waiting

---
 src/proto/h1/conn.rs | 21 ++++++++++++++++-----
 src/proto/h1/io.rs   | 11 ++++++++---
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/proto/h1/conn.rs b/src/proto/h1/conn.rs
index 3569497..e9252c5 100644
--- a/src/proto/h1/conn.rs
+++ b/src/proto/h1/conn.rs
@@ -838,13 +838,13 @@ where
     }
 
     pub(crate) fn poll_flush(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
-        ready!(Pin::new(&mut self.io).poll_flush(cx))?;
-        self.try_keep_alive(cx);
-        if self.state.is_read_closed() && self.io.has_buffered_write() {
-            // The flush was delayed for a pipelined request, but none will
-            // be read any more.
+        if self.state.is_last_message() {
+            // No pipelined request will be read that the flush could wait for.
             ready!(self.io.poll_flush_buffered(cx))?;
+        } else {
+            ready!(Pin::new(&mut self.io).poll_flush(cx))?;
         }
+        self.try_keep_alive(cx);
         trace!("flushed({}): {:?}", T::LOG, self.state);
         Poll::Ready(Ok(()))
     }
@@ -1107,6 +1107,17 @@ impl State {
         }
     }
 
+    /// Whether the connection will not be used for another message.
+    fn is_last_message(&self) -> bool {
+        match (&self.reading, &self.writing) {
+            (&Reading::Closed, _) | (_, &Writing::Closed) => true,
+            (&Reading::KeepAlive, &Writing::KeepAlive) => {
+                !matches!(self.keep_alive.status(), KA::Busy)
+            }
+            _ => false,
+        }
+    }
+
     fn disable_keep_alive(&mut self) {
         self.keep_alive.disable();
     }
diff --git a/src/proto/h1/io.rs b/src/proto/h1/io.rs
index d9cbea1..f825570 100644
--- a/src/proto/h1/io.rs
+++ b/src/proto/h1/io.rs
@@ -214,6 +214,11 @@ where
                     self.partial_len = None;
                 }
             }
+            if self.flush_pipeline {
+                // There is no complete request left that responses could wait for.
+                self.read_blocked = true;
+                ready!(self.poll_flush_buffered(cx)).map_err(crate::Error::new_body_write)?;
+            }
             if ready!(self.poll_read_from_io(cx)).map_err(crate::Error::new_io)? == 0 {
                 trace!("parse eof");
                 return Poll::Ready(Err(crate::Error::new_incomplete()));
@@ -270,8 +275,8 @@ where
 
     pub(crate) fn poll_flush(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
         // Delay the flush while there may be another pipelined request to
-        // respond to, but not if it is known to be incomplete.
-        if self.flush_pipeline && !self.read_buf.is_empty() && self.partial_len.is_none() {
+        // respond to.
+        if self.flush_pipeline && !self.read_buf.is_empty() {
             Poll::Ready(Ok(()))
         } else {
             self.poll_flush_buffered(cx)
@@ -337,7 +342,7 @@ where
     }
 
     pub(crate) fn poll_shutdown(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
-        ready!(self.poll_flush(cx))?;
+        ready!(self.poll_flush_buffered(cx))?;
         Pin::new(&mut self.io).poll_shutdown(cx)
     }
 
-- 
2.43.0


From 2770ec952511be2d412cb61c37e9dc9aadf55902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:23 +0000
Subject: [PATCH 06/20] fix: fulfill an upgrade only when the response accepts
 it and has been sent

---
 src/proto/h1/conn.rs     | 19 ++++++++++++++++++-
 src/proto/h1/dispatch.rs |  8 ++++++--
 src/proto/h1/mod.rs      |  5 +++++
 src/proto/h1/role.rs     |  5 +++++
 4 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/src/proto/h1/conn.rs b/src/proto/h1/conn.rs
index e9252c5..b42cd57 100644
--- a/src/proto/h1/conn.rs
+++ b/src/proto/h1/conn.rs
@@ -160,6 +160,10 @@ where
         self.io.into_inner()
     }
 
+    pub(crate) fn wants_upgrade(&self) -> bool {
+        self.state.upgrade.is_some()
+    }
+
     pub(crate) fn pending_upgrade(&mut self) -> Option<crate::upgrade::Pending> {
         self.state.upgrade.take()
     }
@@ -627,6 +631,12 @@ where
 
         self.enforce_version(&mut head);
 
+        if !T::accepts_upgrade(&head.subject, &self.state.method) {
+            // The upgrade will not happen, so don't fulfill it when the
+            // connection ends.
+            self.state.upgrade = None;
+        }
+
         let buf = self.io.headers_buf();
         match super::role::encode_headers::<T>(
             Encode {
@@ -877,10 +887,17 @@ where
             Reading::Init | Reading::KeepAlive => {
                 trace!("body drained")
             }
-            _ => self.close_read(),
+            _ => self.give_up_read(),
         }
     }
 
+    /// Close the read side in the middle of a body.
+    pub(super) fn give_up_read(&mut self) {
+        // The upgraded connection would begin with the rest of the body.
+        self.state.upgrade = None;
+        self.close_read();
+    }
+
     pub(crate) fn close_read(&mut self) {
         self.state.close_read();
     }
diff --git a/src/proto/h1/dispatch.rs b/src/proto/h1/dispatch.rs
index f250f55..5c76cfd 100644
--- a/src/proto/h1/dispatch.rs
+++ b/src/proto/h1/dispatch.rs
@@ -150,6 +150,10 @@ where
         ready!(self.poll_loop(cx))?;
 
         if self.is_done() {
+            if self.conn.has_buffered_write() && self.conn.wants_upgrade() {
+                // The head of this response must be sent before the upgrade.
+                ready!(self.poll_flush(cx))?;
+            }
             if let Some(pending) = self.conn.pending_upgrade() {
                 self.conn.take_error()?;
                 return Poll::Ready(Ok(Dispatched::Upgrade(pending)));
@@ -255,7 +259,7 @@ where
                                     Err(_canceled) => {
                                         if self.conn.can_read_body() {
                                             trace!("body receiver dropped before eof, closing");
-                                            self.conn.close_read();
+                                            self.conn.give_up_read();
                                         }
                                     }
                                 }
@@ -269,7 +273,7 @@ where
                                     Err(_canceled) => {
                                         if self.conn.can_read_body() {
                                             trace!("body receiver dropped before eof, closing");
-                                            self.conn.close_read();
+                                            self.conn.give_up_read();
                                         }
                                     }
                                 }
diff --git a/src/proto/h1/mod.rs b/src/proto/h1/mod.rs
index 0a442c4..0f7e5e3 100644
--- a/src/proto/h1/mod.rs
+++ b/src/proto/h1/mod.rs
@@ -53,6 +53,11 @@ pub(crate) trait Http1Transaction {
         Self::is_server()
     }
 
+    /// Whether sending this head accepts an upgrade the request asked for.
+    fn accepts_upgrade(_subject: &Self::Outgoing, _req_method: &Option<Method>) -> bool {
+        true
+    }
+
     fn update_date() {}
 }
 
diff --git a/src/proto/h1/role.rs b/src/proto/h1/role.rs
index 481b518..a615f8e 100644
--- a/src/proto/h1/role.rs
+++ b/src/proto/h1/role.rs
@@ -503,6 +503,11 @@ impl Http1Transaction for Server {
         true
     }
 
+    fn accepts_upgrade(subject: &StatusCode, req_method: &Option<Method>) -> bool {
+        *subject == StatusCode::SWITCHING_PROTOCOLS
+            || (req_method == &Some(Method::CONNECT) && subject.is_success())
+    }
+
     fn update_date() {
         date::update();
     }
-- 
2.43.0


From 90aff0d46d9210df9ff174650bf0cff0de42619b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:08 +0000
Subject: [PATCH 07/20] fix: abort a request whose announced length its empty
 body does not have

---
 src/proto/h1/role.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/proto/h1/role.rs b/src/proto/h1/role.rs
index a615f8e..3db5f42 100644
--- a/src/proto/h1/role.rs
+++ b/src/proto/h1/role.rs
@@ -1329,7 +1329,10 @@ impl Client {
             body
         } else {
             head.headers.remove(header::TRANSFER_ENCODING);
-            return Encoder::length(0);
+            // If the user announced a length anyway, that is how much the
+            // server is going to read.
+            let len = headers::content_length_parse_all(&head.headers).unwrap_or(0);
+            return Encoder::length(len);
         };
 
         // HTTP/1.0 doesn't know about chunked
-- 
2.43.0


From 06e837689e7fd10c571b149d3cba0d3e637a8d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:08 +0000
Subject: [PATCH 08/20] fix: never send an illegal content-length next to a
 transfer-encoding

---
 src/proto/h1/role.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/proto/h1/role.rs b/src/proto/h1/role.rs
index 3db5f42..dcbe34e 100644
--- a/src/proto/h1/role.rs
+++ b/src/proto/h1/role.rs
@@ -1347,7 +1347,6 @@ impl Client {
         // header, so unfortunately, we must do the check here, first.
 
         let existing_con_len = headers::content_length_parse_all(headers);
-        let mut should_remove_con_len = false;
 
         if !can_chunked {
             // Chunked isn't legal, so if it is set, we need to remove it.
@@ -1370,7 +1369,6 @@ impl Client {
         // make sure `chunked` is the final encoding.
         let encoder = match headers.entry(header::TRANSFER_ENCODING) {
             Entry::Occupied(te) => {
-                should_remove_con_len = true;
                 if headers::is_chunked(te.iter()) {
                     Some(Encoder::chunked())
                 } else {
@@ -1442,7 +1440,8 @@ impl Client {
         // This is because we need a second mutable borrow to remove
         // content-length header.
         if let Some(encoder) = encoder {
-            if should_remove_con_len && existing_con_len.is_some() {
+            // Not even an illegal length may be next to a transfer-encoding.
+            if encoder.is_chunked() {
                 headers.remove(header::CONTENT_LENGTH);
             }
             return encoder;
-- 
2.43.0


From 820c7c913c10d97163e82342ce6879721f9ccf1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:08 +0000
Subject: [PATCH 09/20] fix: send the streaming body of an HTTP/2-versioned
 request on an HTTP/1.1 connection

---
 src/proto/h1/role.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/proto/h1/role.rs b/src/proto/h1/role.rs
index dcbe34e..8372950 100644
--- a/src/proto/h1/role.rs
+++ b/src/proto/h1/role.rs
@@ -1336,7 +1336,7 @@ impl Client {
         };
 
         // HTTP/1.0 doesn't know about chunked
-        let can_chunked = head.version == Version::HTTP_11;
+        let can_chunked = head.version != Version::HTTP_10;
         let headers = &mut head.headers;
 
         // If the user already set specific headers, we should respect them, regardless
-- 
2.43.0


From ea02a81cc79ab8d150634c3bf9d35f23df5f0d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:08 +0000
Subject: [PATCH 10/20] fix: report a body whose last frame falls short of its
 announced length

---
 src/proto/h1/conn.rs     | 21 +++++++++++----------
 src/proto/h1/dispatch.rs |  2 +-
 src/proto/h1/encode.rs   | 19 ++++++++++---------
 3 files changed, 22 insertions(+), 20 deletions(-)

diff --git a/src/proto/h1/conn.rs b/src/proto/h1/conn.rs
index b42cd57..c7759ee 100644
--- a/src/proto/h1/conn.rs
+++ b/src/proto/h1/conn.rs
@@ -773,24 +773,25 @@ where
         }
     }
 
-    pub(crate) fn write_body_and_end(&mut self, chunk: B) {
+    pub(crate) fn write_body_and_end(&mut self, chunk: B) -> crate::Result<()> {
         debug_assert!(self.can_write_body() && self.can_buffer_body());
         // empty chunks should be discarded at Dispatcher level
         debug_assert!(chunk.remaining() != 0);
 
-        let state = match &mut self.state.writing {
-            Writing::Body(encoder) => {
-                let can_keep_alive = encoder.encode_and_end(chunk, self.io.write_buf());
-                if can_keep_alive {
-                    Writing::KeepAlive
-                } else {
-                    Writing::Closed
-                }
-            }
+        let (state, ret) = match &mut self.state.writing {
+            Writing::Body(encoder) => match encoder.encode_and_end(chunk, self.io.write_buf()) {
+                Ok(true) => (Writing::KeepAlive, Ok(())),
+                Ok(false) => (Writing::Closed, Ok(())),
+                Err(not_eof) => (
+                    Writing::Closed,
+                    Err(crate::Error::new_body_write_aborted().with(not_eof)),
+                ),
+            },
             _ => unreachable!("write_body invalid state: {:?}", self.state.writing),
         };
 
         self.state.writing = state;
+        ret
     }
 
     pub(crate) fn end_body(&mut self) -> crate::Result<()> {
diff --git a/src/proto/h1/dispatch.rs b/src/proto/h1/dispatch.rs
index 5c76cfd..2d7008c 100644
--- a/src/proto/h1/dispatch.rs
+++ b/src/proto/h1/dispatch.rs
@@ -418,7 +418,7 @@ where
                                     trace!("discarding empty chunk");
                                     self.conn.end_body()?;
                                 } else {
-                                    self.conn.write_body_and_end(chunk);
+                                    self.conn.write_body_and_end(chunk)?;
                                 }
                             } else {
                                 if chunk.remaining() == 0 {
diff --git a/src/proto/h1/encode.rs b/src/proto/h1/encode.rs
index a1eebaf..c59aaa2 100644
--- a/src/proto/h1/encode.rs
+++ b/src/proto/h1/encode.rs
@@ -216,7 +216,11 @@ impl Encoder {
         }
     }
 
-    pub(super) fn encode_and_end<B>(&self, msg: B, dst: &mut WriteBuf<EncodedBuf<B>>) -> bool
+    pub(super) fn encode_and_end<B>(
+        &self,
+        msg: B,
+        dst: &mut WriteBuf<EncodedBuf<B>>,
+    ) -> Result<bool, NotEof>
     where
         B: Buf,
     {
@@ -230,7 +234,7 @@ impl Encoder {
                     .chain(msg)
                     .chain(b"\r\n0\r\n\r\n" as &'static [u8]);
                 dst.buffer(buf);
-                !self.is_last
+                Ok(!self.is_last)
             }
             Kind::Length(remaining) => {
                 use std::cmp::Ordering;
@@ -239,23 +243,20 @@ impl Encoder {
                 match (len as u64).cmp(&remaining) {
                     Ordering::Equal => {
                         dst.buffer(msg);
-                        !self.is_last
+                        Ok(!self.is_last)
                     }
                     Ordering::Greater => {
                         dst.buffer(msg.take(remaining as usize));
-                        !self.is_last
-                    }
-                    Ordering::Less => {
-                        dst.buffer(msg);
-                        false
+                        Ok(!self.is_last)
                     }
+                    Ordering::Less => Err(NotEof(remaining - len as u64)),
                 }
             }
             #[cfg(feature = "server")]
             Kind::CloseDelimited => {
                 trace!("close delimited write {}B", len);
                 dst.buffer(msg);
-                false
+                Ok(false)
             }
         }
     }
-- 
2.43.0


From a032647de7a2a790624f7fc461d545a57c04b2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:59 +0000
Subject: [PATCH 11/20] fix: strip the fields named by every Connection header
 line in HTTP/2

---
 src/proto/h2/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/proto/h2/mod.rs b/src/proto/h2/mod.rs
index f0db9b6..4b69228 100644
--- a/src/proto/h2/mod.rs
+++ b/src/proto/h2/mod.rs
@@ -69,7 +69,9 @@ fn strip_connection_headers(headers: &mut HeaderMap, kind: MessageKind) {
         warn!("TE headers illegal in HTTP/2 responses");
     }
 
-    if let Some(header) = headers.remove(CONNECTION) {
+    // There may be several `Connection` header lines, each naming other headers.
+    let connection: Vec<_> = headers.get_all(CONNECTION).iter().cloned().collect();
+    for header in &connection {
         warn!(
             "Connection header illegal in HTTP/2: {}",
             CONNECTION.as_str()
@@ -87,6 +89,7 @@ fn strip_connection_headers(headers: &mut HeaderMap, kind: MessageKind) {
             }
         }
     }
+    headers.remove(CONNECTION);
 }
 
 // body adapters used by both Client and Server
-- 
2.43.0


From 6af89da6cbb8b5082ba6dd5ccc7cddc82777f6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:59 +0000
Subject: [PATCH 12/20] fix: do not take a connection closed with NO_ERROR for
 the end of an HTTP/2 body

---
 src/body/incoming.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/body/incoming.rs b/src/body/incoming.rs
index 93c99a0..c7a975d 100644
--- a/src/body/incoming.rs
+++ b/src/body/incoming.rs
@@ -245,10 +245,11 @@ impl Body for Incoming {
                             return Poll::Ready(Some(Ok(Frame::data(bytes))));
                         }
                         Some(Err(e)) => {
-                            if let Some(h2::Reason::NO_ERROR) = e.reason() {
+                            if e.is_reset() && e.reason() == Some(h2::Reason::NO_ERROR) {
                                 // As mentioned in RFC 7540 Section 8.1, a RST_STREAM with NO_ERROR
                                 // indicates an early response, and should cause the body reading
-                                // to stop, but not fail it:
+                                // to stop, but not fail it. (A connection closed with NO_ERROR
+                                // says nothing about the body being complete.)
                                 return Poll::Ready(None);
                             } else {
                                 return Poll::Ready(Some(Err(crate::Error::new_body(e))));
@@ -268,7 +269,7 @@ impl Body for Incoming {
                         Poll::Ready(Ok(t.map(Frame::trailers)).transpose())
                     }
                     Err(e) => {
-                        if let Some(h2::Reason::NO_ERROR) = e.reason() {
+                        if e.is_reset() && e.reason() == Some(h2::Reason::NO_ERROR) {
                             // Same as above, a RST_STREAM with NO_ERROR indicates an early
                             // response, and should cause reading the trailers to stop, but
                             // not fail it:
-- 
2.43.0


From f7f9670eae4f5ffb87492044f263543af26ad047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:59 +0000
Subject: [PATCH 13/20] fix: send no DATA in HTTP/2 responses that cannot have
 a body

---
 src/proto/h2/server.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/proto/h2/server.rs b/src/proto/h2/server.rs
index 9202627..c3cf220 100644
--- a/src/proto/h2/server.rs
+++ b/src/proto/h2/server.rs
@@ -8,7 +8,7 @@ use bytes::Bytes;
 use futures_core::ready;
 use h2::server::{Connection, Handshake, SendResponse};
 use h2::{Reason, RecvStream};
-use http::{Method, Request};
+use http::{Method, Request, StatusCode};
 use pin_project_lite::pin_project;
 
 use super::{ping, PipeToSendStream, SendBuf};
@@ -274,6 +274,7 @@ where
                         ping.record_non_data();
 
                         let is_connect = req.method() == Method::CONNECT;
+                        let is_head = req.method() == Method::HEAD;
                         let (mut parts, stream) = req.into_parts();
                         let (mut req, connect_parts) = if !is_connect {
                             (
@@ -310,6 +311,7 @@ where
                             service.call(req),
                             connect_parts,
                             respond,
+                            is_head,
                             self.date_header,
                             exec.clone(),
                         );
@@ -368,6 +370,7 @@ pin_project! {
         reply: SendResponse<SendBuf<B::Data>>,
         #[pin]
         state: H2StreamState<F, B>,
+        is_head: bool,
         date_header: bool,
         exec: E,
     }
@@ -405,12 +408,14 @@ where
         fut: F,
         connect_parts: Option<ConnectParts>,
         respond: SendResponse<SendBuf<B::Data>>,
+        is_head: bool,
         date_header: bool,
         exec: E,
     ) -> H2Stream<F, B, E> {
         H2Stream {
             reply: respond,
             state: H2StreamState::Service { fut, connect_parts },
+            is_head,
             date_header,
             exec,
         }
@@ -512,12 +517,21 @@ where
                         }
                     }
 
-                    if !body.is_end_stream() {
+                    // 204 and 304 responses never have content, and neither
+                    // does any response to a HEAD request.
+                    let bodiless_status = matches!(
+                        res.status(),
+                        StatusCode::NO_CONTENT | StatusCode::NOT_MODIFIED
+                    );
+
+                    if !body.is_end_stream() && !bodiless_status {
                         // automatically set Content-Length from body...
                         if let Some(len) = body.size_hint().exact() {
                             headers::set_content_length_if_missing(res.headers_mut(), len);
                         }
+                    }
 
+                    if !body.is_end_stream() && !bodiless_status && !*me.is_head {
                         let body_tx = reply!(me, res, false);
                         H2StreamState::Body {
                             pipe: PipeToSendStream::new(body, body_tx),
-- 
2.43.0


From 884367ba06ced0d06ea6c699c1bddb7a2d436c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:59 +0000
Subject: [PATCH 14/20] fix: refusing a CONNECT request does not end the HTTP/2
 connection

---
 src/proto/h2/server.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/proto/h2/server.rs b/src/proto/h2/server.rs
index c3cf220..ee80b06 100644
--- a/src/proto/h2/server.rs
+++ b/src/proto/h2/server.rs
@@ -288,7 +288,7 @@ where
                             if content_length.map_or(false, |len| len != 0) {
                                 warn!("h2 connect request with non-zero body not supported");
                                 respond.send_reset(h2::Reason::INTERNAL_ERROR);
-                                return Poll::Ready(Ok(()));
+                                continue;
                             }
                             let (pending, upgrade) = crate::upgrade::pending();
                             debug_assert!(parts.extensions.get::<OnUpgrade>().is_none());
-- 
2.43.0


From baa553fc99a15ba00f3321de0c0f05f70f9b5a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:40 +0000
Subject: [PATCH 15/20] fix: look at every TE line when preparing an HTTP/2
 request

---
 src/proto/h2/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/proto/h2/mod.rs b/src/proto/h2/mod.rs
index 4b69228..b5444f8 100644
--- a/src/proto/h2/mod.rs
+++ b/src/proto/h2/mod.rs
@@ -59,8 +59,9 @@ fn strip_connection_headers(headers: &mut HeaderMap, kind: MessageKind) {
     #[cfg(feature = "client")]
     if matches!(kind, MessageKind::Request) {
         if headers
-            .get(http::header::TE)
-            .map_or(false, |te_header| te_header != "trailers")
+            .get_all(http::header::TE)
+            .iter()
+            .any(|te_header| te_header != "trailers")
         {
             warn!("TE headers not set to \"trailers\" are illegal in HTTP/2 requests");
             headers.remove(http::header::TE);
-- 
2.43.0


From d8d4659a9745b0bf9ff30c1a319b9b640e6ec78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:40 +0000
Subject: [PATCH 16/20] fix: any successful answer to CONNECT opens the HTTP/2
 tunnel

---
 src/proto/h2/client.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/proto/h2/client.rs b/src/proto/h2/client.rs
index eb768ba..f807fb3 100644
--- a/src/proto/h2/client.rs
+++ b/src/proto/h2/client.rs
@@ -14,7 +14,7 @@ use futures_channel::{mpsc, oneshot};
 use futures_core::{ready, FusedFuture, FusedStream, Stream};
 use h2::client::{Builder, Connection, SendRequest};
 use h2::SendStream;
-use http::{Method, StatusCode};
+use http::Method;
 use pin_project_lite::pin_project;
 
 use super::ping::{Ponger, Recorder};
@@ -624,7 +624,7 @@ where
                 ping.record_non_data();
 
                 let content_length = headers::content_length_parse_all(res.headers());
-                if let (Some(mut send_stream), StatusCode::OK) = (send_stream, res.status()) {
+                if let (Some(mut send_stream), true) = (send_stream, res.status().is_success()) {
                     if content_length.map_or(false, |len| len != 0) {
                         warn!("h2 connect response with non-zero body not supported");
 
-- 
2.43.0


From 1b0c994ef1ec46e721ad6287b00e674b7cf8f141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:59 +0000
Subject: [PATCH 17/20] fix: a complete request body ends although the
 connection is idle already

When the response had been written before the end of the request body, reading
that end made the connection idle at once, and the dispatcher went on to wait
for the next head with the body's sender still in its hands: whoever reads the
body waited for its end until the next request came, or got an error when the
connection closed instead.
---
 src/proto/h1/dispatch.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/proto/h1/dispatch.rs b/src/proto/h1/dispatch.rs
index 2d7008c..7a14b35 100644
--- a/src/proto/h1/dispatch.rs
+++ b/src/proto/h1/dispatch.rs
@@ -254,7 +254,10 @@ where
                                 let chunk = frame.into_data().unwrap_or_else(|_| unreachable!());
                                 match body.try_send_data(chunk) {
                                     Ok(()) => {
-                                        self.body_tx.set(body);
+                                        // Otherwise the body is complete, and closes when dropped.
+                                        if self.conn.can_read_body() {
+                                            self.body_tx.set(body);
+                                        }
                                     }
                                     Err(_canceled) => {
                                         if self.conn.can_read_body() {
@@ -268,7 +271,9 @@ where
                                     frame.into_trailers().unwrap_or_else(|_| unreachable!());
                                 match body.try_send_trailers(trailers) {
                                     Ok(()) => {
-                                        self.body_tx.set(body);
+                                        if self.conn.can_read_body() {
+                                            self.body_tx.set(body);
+                                        }
                                     }
                                     Err(_canceled) => {
                                         if self.conn.can_read_body() {
-- 
2.43.0


From e6ff228a84306320c55c2a656ac9b3e592f14f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:59 +0000
Subject: [PATCH 18/20] fix: wait for the previous response to be sent before
 reading the next head

If the rest of the request body arrives while the response is still queued for
a slow transport, the connection became idle with bytes in the queue. A 100
Continue or an automatic 4xx for the next request was then written ahead of
them, into the body of the previous response, and the next response could be
left unwritten.
---
 src/proto/h1/conn.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/proto/h1/conn.rs b/src/proto/h1/conn.rs
index c7759ee..3fce05a 100644
--- a/src/proto/h1/conn.rs
+++ b/src/proto/h1/conn.rs
@@ -219,6 +219,12 @@ where
         debug_assert!(self.can_read_head());
         trace!("Conn::read_head");
 
+        if T::should_read_first() && !self.io.can_headers_buf() {
+            // Whatever the next request makes us write must come after the
+            // rest of this response. `poll_flush` notifies when it is sent.
+            return Poll::Pending;
+        }
+
         #[cfg(feature = "server")]
         if !self.state.h1_header_read_timeout_running {
             if let Some(h1_header_read_timeout) = self.state.h1_header_read_timeout {
@@ -849,12 +855,17 @@ where
     }
 
     pub(crate) fn poll_flush(&mut self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
+        let was_queued = !self.io.can_headers_buf();
         if self.state.is_last_message() {
             // No pipelined request will be read that the flush could wait for.
             ready!(self.io.poll_flush_buffered(cx))?;
         } else {
             ready!(Pin::new(&mut self.io).poll_flush(cx))?;
         }
+        if was_queued && self.can_read_head() {
+            // `poll_read_head` was waiting for this.
+            self.state.notify_read = true;
+        }
         self.try_keep_alive(cx);
         trace!("flushed({}): {:?}", T::LOG, self.state);
         Poll::Ready(Ok(()))
-- 
2.43.0


From 58aa0c05871534137eec7aa7261bcdee131d3952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:03 +0000
Subject: [PATCH 19/20] fix: answer a request that is submitted while the
 connection goes away

A sender on another thread can be admitted by the channel just before the
receiving half is dropped, and push its message only after the drop emptied
the channel. Message and callback then stay in the channel for as long as
any sender lives: the response future of a caller that keeps its SendRequest
never resolves. Wait for such a message before dropping the receiver.
---
 src/client/dispatch.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/client/dispatch.rs b/src/client/dispatch.rs
index 69c9b8c..8f882bb 100644
--- a/src/client/dispatch.rs
+++ b/src/client/dispatch.rs
@@ -211,6 +211,20 @@ impl<T, U> Drop for Receiver<T, U> {
         // Notify the giver about the closure first, before dropping
         // the mpsc::Receiver.
         self.taker.cancel();
+
+        // A sender on another thread may have been admitted just before the
+        // channel closes, and push its message only after the drop of the
+        // mpsc::Receiver has emptied it. The message would then stay in the
+        // channel, its callback never called, for as long as a sender lives.
+        // So wait for such a message (it is only a few instructions away).
+        self.inner.close();
+        loop {
+            match self.inner.try_recv() {
+                Ok(env) => drop(env),
+                Err(mpsc::error::TryRecvError::Empty) => std::thread::yield_now(),
+                Err(mpsc::error::TryRecvError::Disconnected) => break,
+            }
+        }
     }
 }
 
-- 
2.43.0


From 779c8a0d0109663e937f786f907256690cfa68b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:00 +0000
Subject: [PATCH 20/20] fix: do not end an HTTP/2 tunnel with an accepted write
 still queued

Without send capacity the task looked at the queue first and at the close
notification second. A write followed by dropping the upgraded connection on
another thread between the two was accepted, then discarded, and the stream
ended with END_STREAM as if it was complete.
---
 src/proto/h2/upgrade.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/proto/h2/upgrade.rs b/src/proto/h2/upgrade.rs
index 217aa27..37f1038 100644
--- a/src/proto/h2/upgrade.rs
+++ b/src/proto/h2/upgrade.rs
@@ -174,7 +174,9 @@ where
             if !h2_has_capacity {
                 // `size_hint` reads the queued message count without popping,
                 // so an accepted write stays queued until h2 capacity returns.
-                if me.rx.size_hint().0 == 0 && me.close_notify.poll_closed(cx).is_ready() {
+                // The queue is looked at only once the write side is known to
+                // be gone: before that, another write could still slip in.
+                if me.close_notify.poll_closed(cx).is_ready() && me.rx.size_hint().0 == 0 {
                     me.h2_tx
                         .send_data(SendBuf::None, true)
                         .map_err(crate::Error::new_body_write)?;
-- 
2.43.0

