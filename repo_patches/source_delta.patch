From 26f3b9303b31d5b77dcd496caeeaaf7cd2949443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:03 +0000
Subject: [PATCH 01/24] fix: refuse truncated and over-long varints

---
 spop/src/data/varint.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/spop/src/data/varint.rs b/spop/src/data/varint.rs
index 612703d..a14f67b 100644
--- a/spop/src/data/varint.rs
+++ b/spop/src/data/varint.rs
@@ -13,6 +13,8 @@
 use bytes::{Buf, BufMut};
 
 /// Get a varint from the buffer.
+///
+/// Returns `None` if the encoding is cut short or exceeds 64 bits.
 pub fn get<T: Buf>(mut buf: T) -> Option<u64> {
     if !buf.has_remaining() {
         None
@@ -27,15 +29,15 @@ pub fn get<T: Buf>(mut buf: T) -> Option<u64> {
 
             while buf.has_remaining() {
                 let b = buf.get_u8();
-                n += (b as u64) << r;
+                n = n.checked_add((b as u64).checked_mul(1u64.checked_shl(r)?)?)?;
                 r += 7;
 
                 if b < 0x80 {
-                    break;
+                    return Some(n);
                 }
             }
 
-            Some(n)
+            None
         }
     }
 }
-- 
2.43.0


From 60145e998e555dc8af550466e9d2933ad4c49027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:28 +0000
Subject: [PATCH 02/24] fix: refuse frames with malformed or incomplete items

---
 spop/src/data/buf.rs     | 11 ++++-------
 spop/src/frame/decode.rs | 29 ++++++++++++++++++-----------
 2 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/spop/src/data/buf.rs b/spop/src/data/buf.rs
index 2a12472..50120e7 100644
--- a/spop/src/data/buf.rs
+++ b/spop/src/data/buf.rs
@@ -18,8 +18,8 @@ pub trait BufExt {
     /// Get a string.
     fn string(&mut self) -> Option<String>;
 
-    /// Get key-value list.
-    fn kv_list(&mut self) -> impl Iterator<Item = (String, Typed)>;
+    /// Get key-value list; a malformed item yields `None`.
+    fn kv_list(&mut self) -> impl Iterator<Item = Option<(String, Typed)>>;
 }
 
 impl<T> BufExt for T
@@ -40,13 +40,10 @@ where
         String::from_utf8(b.to_vec()).ok()
     }
 
-    fn kv_list(&mut self) -> impl Iterator<Item = (String, Typed)> {
+    fn kv_list(&mut self) -> impl Iterator<Item = Option<(String, Typed)>> {
         iter::from_fn(move || {
             if self.has_remaining() {
-                let name = self.string()?;
-                let value = self.typed()?;
-
-                Some((name, value))
+                Some(self.string().zip(self.typed()))
             } else {
                 None
             }
diff --git a/spop/src/frame/decode.rs b/spop/src/frame/decode.rs
index f5044f4..299bf47 100644
--- a/spop/src/frame/decode.rs
+++ b/spop/src/frame/decode.rs
@@ -73,7 +73,7 @@ fn metadata<B: Buf>(mut buf: B) -> Option<frame::Metadata> {
 }
 
 fn haproxy_hello<B: Buf>(mut buf: B) -> Result<haproxy::Hello> {
-    let mut kv = buf.kv_list().collect::<KVList>();
+    let mut kv = buf.kv_list().collect::<Option<KVList>>().ok_or(Invalid)?;
 
     Ok(haproxy::Hello {
         supported_versions: kv.supported_versions()?,
@@ -85,7 +85,7 @@ fn haproxy_hello<B: Buf>(mut buf: B) -> Result<haproxy::Hello> {
 }
 
 fn agent_hello<B: Buf>(mut buf: B) -> Result<agent::Hello> {
-    let mut kv = buf.kv_list().collect::<KVList>();
+    let mut kv = buf.kv_list().collect::<Option<KVList>>().ok_or(Invalid)?;
 
     Ok(agent::Hello {
         version: kv.version()?,
@@ -99,7 +99,9 @@ fn haproxy_notify<B: Buf>(buf: B, md: Metadata) -> Result<haproxy::Notify> {
         fragmented: md.fragmented(),
         stream_id: md.stream_id,
         frame_id: md.frame_id,
-        messages: list_of_messages(buf).collect::<Vec<_>>(),
+        messages: list_of_messages(buf)
+            .collect::<Option<Vec<_>>>()
+            .ok_or(Invalid)?,
     })
 }
 
@@ -109,12 +111,14 @@ fn agent_ack<B: Buf>(buf: B, md: Metadata) -> Result<agent::Ack> {
         aborted: md.aborted(),
         stream_id: md.stream_id,
         frame_id: md.frame_id,
-        actions: list_of_actions(buf).collect::<Vec<_>>(),
+        actions: list_of_actions(buf)
+            .collect::<Option<Vec<_>>>()
+            .ok_or(Invalid)?,
     })
 }
 
 fn disconnect<B: Buf>(mut buf: B) -> Result<frame::Disconnect> {
-    let mut kv = buf.kv_list().collect::<KVList>();
+    let mut kv = buf.kv_list().collect::<Option<KVList>>().ok_or(Invalid)?;
 
     Ok(haproxy::Disconnect {
         status_code: kv.status_code(),
@@ -122,10 +126,10 @@ fn disconnect<B: Buf>(mut buf: B) -> Result<frame::Disconnect> {
     })
 }
 
-fn list_of_messages<B: Buf>(mut buf: B) -> impl Iterator<Item = Message> {
+fn list_of_messages<B: Buf>(mut buf: B) -> impl Iterator<Item = Option<Message>> {
     iter::from_fn(move || {
         if buf.has_remaining() {
-            message(&mut buf)
+            Some(message(&mut buf))
         } else {
             None
         }
@@ -135,15 +139,18 @@ fn list_of_messages<B: Buf>(mut buf: B) -> impl Iterator<Item = Message> {
 fn message<B: Buf>(mut buf: B) -> Option<Message> {
     let name = buf.string()?;
     let nb = get_u8(&mut buf)?;
-    let args = buf.kv_list().take(nb as usize).collect();
+    let args = buf
+        .kv_list()
+        .take(nb as usize)
+        .collect::<Option<Vec<_>>>()?;
 
-    Some(Message { name, args })
+    (args.len() == nb as usize).then_some(Message { name, args })
 }
 
-fn list_of_actions<B: Buf>(mut buf: B) -> impl Iterator<Item = Action> {
+fn list_of_actions<B: Buf>(mut buf: B) -> impl Iterator<Item = Option<Action>> {
     iter::from_fn(move || {
         if buf.has_remaining() {
-            action(&mut buf)
+            Some(action(&mut buf))
         } else {
             None
         }
-- 
2.43.0


From be263a7abf13814f44de69837d5e809bf586cb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:29 +0000
Subject: [PATCH 03/24] fix: accept an empty list of capabilities

---
 spop/src/frame/decode.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spop/src/frame/decode.rs b/spop/src/frame/decode.rs
index 299bf47..62e2c07 100644
--- a/spop/src/frame/decode.rs
+++ b/spop/src/frame/decode.rs
@@ -221,6 +221,10 @@ impl KVList {
     pub fn capabilities(&mut self) -> Result<Vec<Capability>> {
         let s = self.string(kv::CAPABILITIES_KEY).ok_or(NoCapabilities)?;
 
+        if s.is_empty() {
+            return Ok(vec![]);
+        }
+
         s.split(',')
             .map(|s| s.trim().parse())
             .collect::<StdResult<Vec<_>, _>>()
-- 
2.43.0


From 58a6b0138ad7b46a925a3100d079e12b3fe13baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:31 +0000
Subject: [PATCH 04/24] fix: refuse 32bits integers out of range instead of
 truncating them

---
 spop/src/data/buf.rs     | 14 ++++++++++++--
 spop/src/frame/decode.rs |  9 ++++-----
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/spop/src/data/buf.rs b/spop/src/data/buf.rs
index 50120e7..aca3b08 100644
--- a/spop/src/data/buf.rs
+++ b/spop/src/data/buf.rs
@@ -61,8 +61,11 @@ fn typed_data<B: Buf>(mut buf: B) -> Option<Typed> {
     match ty {
         Type::Null => Some(Typed::Null),
         Type::Boolean => Some(Typed::Boolean(flags.contains(Flags::TRUE))),
-        Type::Int32 => buf.varint().map(|n| n as i32).map(Typed::Int32),
-        Type::Uint32 => buf.varint().map(|n| n as u32).map(Typed::Uint32),
+        Type::Int32 => buf.varint().and_then(int32).map(Typed::Int32),
+        Type::Uint32 => buf
+            .varint()
+            .and_then(|n| u32::try_from(n).ok())
+            .map(Typed::Uint32),
         Type::Int64 => buf.varint().map(|n| n as i64).map(Typed::Int64),
         Type::Uint64 => buf.varint().map(Typed::Uint64),
         Type::Ipv4 => get_bytes(buf, Typed::IPV4_ADDR_LEN)
@@ -81,6 +84,13 @@ fn typed_data<B: Buf>(mut buf: B) -> Option<Typed> {
     }
 }
 
+/// A 32bits signed integer, either sign or zero extended to 64 bits.
+fn int32(n: u64) -> Option<i32> {
+    i32::try_from(n as i64)
+        .ok()
+        .or_else(|| u32::try_from(n).ok().map(|n| n as i32))
+}
+
 fn typed_data_type<B: Buf>(mut buf: B) -> Option<(Type, Flags)> {
     let b = buf.has_remaining().then(|| buf.get_u8())?;
     let ty = Type::try_from_primitive(b & Type::MASK).ok()?;
diff --git a/spop/src/frame/decode.rs b/spop/src/frame/decode.rs
index 62e2c07..13884b1 100644
--- a/spop/src/frame/decode.rs
+++ b/spop/src/frame/decode.rs
@@ -121,7 +121,7 @@ fn disconnect<B: Buf>(mut buf: B) -> Result<frame::Disconnect> {
     let mut kv = buf.kv_list().collect::<Option<KVList>>().ok_or(Invalid)?;
 
     Ok(haproxy::Disconnect {
-        status_code: kv.status_code(),
+        status_code: kv.status_code()?,
         message: kv.message(),
     })
 }
@@ -214,8 +214,8 @@ impl KVList {
 
     pub fn max_frame_size(&mut self) -> Result<u32> {
         self.uint(kv::MAX_FRAME_SIZE_KEY)
-            .map(|n| n as u32)
             .ok_or(NoFrameSize)
+            .and_then(|n| u32::try_from(n).map_err(|_| BadFrameSize))
     }
 
     pub fn capabilities(&mut self) -> Result<Vec<Capability>> {
@@ -231,10 +231,9 @@ impl KVList {
             .map_err(|_| Invalid)
     }
 
-    pub fn status_code(&mut self) -> u32 {
+    pub fn status_code(&mut self) -> Result<u32> {
         self.uint(kv::STATUS_CODE_KEY)
-            .map(|n| n as u32)
-            .unwrap_or_default()
+            .map_or(Ok(0), |n| u32::try_from(n).map_err(|_| Invalid))
     }
 
     pub fn message(&mut self) -> String {
-- 
2.43.0


From 6ffd8c8a04f0db6f62d8622104f1cb324e15cb4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:33 +0000
Subject: [PATCH 05/24] fix: report why a frame was refused

---
 spop/src/frame/framer.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spop/src/frame/framer.rs b/spop/src/frame/framer.rs
index 6d5ef3c..f658671 100644
--- a/spop/src/frame/framer.rs
+++ b/spop/src/frame/framer.rs
@@ -33,9 +33,9 @@ impl Framer {
 
             trace!(buf=%HexView::new(&buf));
 
-            buf.get_frame().map_err(|_| Invalid)
+            buf.get_frame()
         } else {
-            Err(BadFrameSize)
+            Err(TooBig)
         }
     }
 
-- 
2.43.0


From 18b58244ff4f287acbce544274b6fb88216084b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:35 +0000
Subject: [PATCH 06/24] fix: never write a frame larger than the limit

---
 spop/src/frame/framer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spop/src/frame/framer.rs b/spop/src/frame/framer.rs
index f658671..b0dc484 100644
--- a/spop/src/frame/framer.rs
+++ b/spop/src/frame/framer.rs
@@ -44,6 +44,9 @@ impl Framer {
         W: AsyncWrite + Sized,
     {
         let buf = write_frame(BytesMut::with_capacity(self.max_frame_size), frame);
+        if buf.len() - mem::size_of::<u32>() > self.max_frame_size {
+            return Err(TooBig);
+        }
 
         trace!(buf=%HexView::new(&buf[4..]));
 
-- 
2.43.0


From 3d55db397bb6e58dca2db7451f8523650fff59c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:36 +0000
Subject: [PATCH 07/24] fix: refuse to write a message with more than 255
 arguments

---
 spop/src/frame/framer.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/spop/src/frame/framer.rs b/spop/src/frame/framer.rs
index b0dc484..9b4f2f4 100644
--- a/spop/src/frame/framer.rs
+++ b/spop/src/frame/framer.rs
@@ -43,6 +43,13 @@ impl Framer {
     where
         W: AsyncWrite + Sized,
     {
+        if let Frame::HaproxyNotify(ref notify) = frame {
+            // The number of arguments is encoded in one byte.
+            if notify.messages.iter().any(|m| m.args.len() > 0xFF) {
+                return Err(Invalid);
+            }
+        }
+
         let buf = write_frame(BytesMut::with_capacity(self.max_frame_size), frame);
         if buf.len() - mem::size_of::<u32>() > self.max_frame_size {
             return Err(TooBig);
-- 
2.43.0


From b6f40578e9bf9da39d3c06b377cf9780ad41f553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:38 +0000
Subject: [PATCH 08/24] fix: flush the transport after writing a frame

---
 spop/src/frame/framer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spop/src/frame/framer.rs b/spop/src/frame/framer.rs
index 9b4f2f4..b0b0f65 100644
--- a/spop/src/frame/framer.rs
+++ b/spop/src/frame/framer.rs
@@ -60,6 +60,7 @@ impl Framer {
         pin_mut!(w);
 
         w.write_all(&buf).await.map_err(|_| Io)?;
+        w.flush().await.map_err(|_| Io)?;
 
         Ok(buf.len())
     }
-- 
2.43.0


From 45baf7f000f1bbd13e2cebf2a65d6e0e6edc565a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:15 +0000
Subject: [PATCH 09/24] fix: send a disconnect when a received frame is refused

---
 spoa/src/conn.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/spoa/src/conn.rs b/spoa/src/conn.rs
index e1f6136..050837b 100644
--- a/spoa/src/conn.rs
+++ b/spoa/src/conn.rs
@@ -74,7 +74,13 @@ where
                 }
 
                 frame = self.codec.read_frame() => {
-                    match state.handle_frame(frame?).await {
+                    let res = match frame {
+                        Ok(frame) => state.handle_frame(frame).await,
+                        Err(Status::Io) => return Err(Status::Io.into()),
+                        Err(status) => Err(status.into()),
+                    };
+
+                    match res {
                         Ok((next, reply)) => {
                             if let Some(frame) = reply {
                                 self.codec.write_frame(frame).await?;
-- 
2.43.0


From b9af8fa2481e8451e94aa8e69e93ad8bee02bf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:16 +0000
Subject: [PATCH 10/24] fix: respect the negotiated frame size after the
 handshake

---
 spoa/src/conn.rs        | 9 +++++++++
 spop/src/frame/codec.rs | 5 +++++
 2 files changed, 14 insertions(+)

diff --git a/spoa/src/conn.rs b/spoa/src/conn.rs
index 050837b..24d6902 100644
--- a/spoa/src/conn.rs
+++ b/spoa/src/conn.rs
@@ -83,7 +83,16 @@ where
                     match res {
                         Ok((next, reply)) => {
                             if let Some(frame) = reply {
+                                let negotiated = match frame {
+                                    Frame::AgentHello(ref hello) => Some(hello.max_frame_size),
+                                    _ => None,
+                                };
+
                                 self.codec.write_frame(frame).await?;
+
+                                if let Some(sz) = negotiated {
+                                    self.codec.set_max_frame_size(sz as usize);
+                                }
                             }
                             self.state = next;
                         }
diff --git a/spop/src/frame/codec.rs b/spop/src/frame/codec.rs
index 7d2ae10..5ae6eae 100644
--- a/spop/src/frame/codec.rs
+++ b/spop/src/frame/codec.rs
@@ -34,6 +34,11 @@ where
         Self { stream, framer }
     }
 
+    /// Change the maximum size allowed for a frame, once it has been negotiated.
+    pub fn set_max_frame_size(&mut self, max_frame_size: usize) {
+        self.framer = Framer::new(max_frame_size);
+    }
+
     #[instrument(skip(self), ret, err, level = "trace")]
     pub async fn read_frame(&mut self) -> Result<Frame> {
         self.framer.read_frame(&mut self.stream).await
-- 
2.43.0


From 97c0a2ebd08b3d624ca1034ca419e457a211126b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:18 +0000
Subject: [PATCH 11/24] fix: disconnect with a status when a reply does not fit
 in a frame

---
 spoa/src/conn.rs | 39 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/spoa/src/conn.rs b/spoa/src/conn.rs
index 24d6902..057aa96 100644
--- a/spoa/src/conn.rs
+++ b/spoa/src/conn.rs
@@ -14,7 +14,7 @@ use tracing::instrument;
 use crate::runtime::Runtime;
 use crate::{
     error::Result,
-    spop::{Action, BufCodec, Codec, Error as Status, Frame, Framer, Message},
+    spop::{Action, BufCodec, Codec, Disconnect, Error as Status, Frame, Framer, Message},
     state::AsyncHandler,
     State,
 };
@@ -51,6 +51,27 @@ where
         self.codec.write_frame(disconnect).await?;
         Ok(())
     }
+
+    /// Send a disconnect before closing, without its message if it does not fit in a frame.
+    async fn close(&mut self, disconnect: Disconnect) -> Result<()> {
+        let status_code = disconnect.status_code;
+        let frame = Frame::AgentDisconnect(disconnect);
+
+        match self.codec.write_frame(frame).await {
+            Err(Status::TooBig) => {
+                let message = String::new();
+                let frame = Frame::AgentDisconnect(Disconnect {
+                    status_code,
+                    message,
+                });
+
+                self.codec.write_frame(frame).await?
+            }
+            res => res?,
+        };
+        self.tok.cancel();
+        Ok(())
+    }
 }
 
 impl<IO, S, T> Connection<IO, S, T>
@@ -88,7 +109,17 @@ where
                                     _ => None,
                                 };
 
-                                self.codec.write_frame(frame).await?;
+                                match self.codec.write_frame(frame).await {
+                                    Err(Status::TooBig) => {
+                                        self.close(Disconnect::new(
+                                            Status::TooBig,
+                                            Status::TooBig.to_string(),
+                                        ))
+                                        .await?;
+                                        break;
+                                    }
+                                    res => res?,
+                                };
 
                                 if let Some(sz) = negotiated {
                                     self.codec.set_max_frame_size(sz as usize);
@@ -97,9 +128,7 @@ where
                             self.state = next;
                         }
                         Err(err) => {
-                            let frame = Frame::AgentDisconnect(err.into());
-                            self.codec.write_frame(frame).await?;
-                            self.tok.cancel();
+                            self.close(err.into()).await?;
                             break;
                         }
                     }
-- 
2.43.0


From b6526c3880556f0a431df48c5ba66dd6e1b645a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:19 +0000
Subject: [PATCH 12/24] fix: refuse a hello without common version as
 unsupported version

---
 spoa/src/state/handshake.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spoa/src/state/handshake.rs b/spoa/src/state/handshake.rs
index 6b71b81..76dd821 100644
--- a/spoa/src/state/handshake.rs
+++ b/spoa/src/state/handshake.rs
@@ -5,7 +5,7 @@ use tracing::instrument;
 
 use crate::{
     error::Result,
-    spop::{AgentHello, Capability, Error::NoVersion, HaproxyHello, Version},
+    spop::{AgentHello, Capability, Error::BadVersion, HaproxyHello, Version},
 };
 
 #[instrument(ret, err, level = "trace")]
@@ -23,7 +23,7 @@ pub fn negotiate(
         .into_iter()
         .rev()
         .find(|version| supported_versions.iter().rev().any(|v| v == version))
-        .ok_or(NoVersion)?;
+        .ok_or(BadVersion)?;
     let max_frame_size = cmp::min(hello.max_frame_size, max_frame_size);
     let capabilities = hello
         .capabilities
-- 
2.43.0


From 1083bd95658bec0d8ecbf653f81e10bb2fbe9d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:21 +0000
Subject: [PATCH 13/24] fix: handle frame size limits above 32 bits

---
 spoa/src/state/connect.rs | 2 +-
 spop/src/frame/framer.rs  | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/spoa/src/state/connect.rs b/spoa/src/state/connect.rs
index 2b2c13a..bd68f62 100644
--- a/spoa/src/state/connect.rs
+++ b/spoa/src/state/connect.rs
@@ -52,7 +52,7 @@ where
         let handshaked = {
             negotiate(
                 runtime.supported_versions.clone(),
-                runtime.max_frame_size as u32,
+                u32::try_from(runtime.max_frame_size).unwrap_or(u32::MAX),
                 runtime.capabilities.clone(),
                 hello,
             )?
diff --git a/spop/src/frame/framer.rs b/spop/src/frame/framer.rs
index b0b0f65..db85275 100644
--- a/spop/src/frame/framer.rs
+++ b/spop/src/frame/framer.rs
@@ -29,7 +29,7 @@ impl Framer {
 
         let len = r.read_u32().await.map_err(|_| Io)? as usize;
         if len <= self.max_frame_size {
-            let mut buf = read_frame(r, self.max_frame_size, len).await?;
+            let mut buf = read_frame(r, len).await?;
 
             trace!(buf=%HexView::new(&buf));
 
@@ -50,7 +50,7 @@ impl Framer {
             }
         }
 
-        let buf = write_frame(BytesMut::with_capacity(self.max_frame_size), frame);
+        let buf = write_frame(BytesMut::new(), frame);
         if buf.len() - mem::size_of::<u32>() > self.max_frame_size {
             return Err(TooBig);
         }
@@ -66,11 +66,11 @@ impl Framer {
     }
 }
 
-async fn read_frame<R>(mut r: Pin<&mut R>, max_frame_size: usize, len: usize) -> Result<Bytes>
+async fn read_frame<R>(mut r: Pin<&mut R>, len: usize) -> Result<Bytes>
 where
     R: AsyncRead + Sized,
 {
-    let mut buf = BytesMut::with_capacity(max_frame_size);
+    let mut buf = BytesMut::with_capacity(len);
     buf.resize(len, 0);
 
     r.read_exact(&mut buf).await.map_err(|_| Io)?;
-- 
2.43.0


From f66ba8b6245fa54f4ccc79cdda52538588fede6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:44 +0000
Subject: [PATCH 14/24] fix: refuse fragments when fragmentation was not
 negotiated

---
 spoa/src/state/process.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spoa/src/state/process.rs b/spoa/src/state/process.rs
index c056a7b..c931bce 100644
--- a/spoa/src/state/process.rs
+++ b/spoa/src/state/process.rs
@@ -58,6 +58,8 @@ where
             }) => {
                 let msgs = if let Some(ref reassembly) = self.reassembly {
                     reassembly.reassemble(fragmented, stream_id, frame_id, messages)?
+                } else if fragmented {
+                    return Err(FragmentNotSupported).context("fragmentation was not negotiated");
                 } else {
                     Some(messages)
                 };
-- 
2.43.0


From cfcb891a2fbfbfe24fd5f51741c8ad9fab35d0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:46 +0000
Subject: [PATCH 15/24] fix: call the maker and the service only when they are
 ready

---
 spoa/src/runtime/runtime.rs | 5 +++++
 spoa/src/state/process.rs   | 9 ++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/spoa/src/runtime/runtime.rs b/spoa/src/runtime/runtime.rs
index 7b85693..da8b983 100644
--- a/spoa/src/runtime/runtime.rs
+++ b/spoa/src/runtime/runtime.rs
@@ -1,4 +1,5 @@
 use std::error::Error as StdError;
+use std::future::poll_fn;
 use std::time::Duration;
 
 use tokio::sync::{mpsc::unbounded_channel, RwLock};
@@ -23,6 +24,10 @@ impl<S, T> ServiceMaker<S, T> {
         S::MakeError: StdError + Send + Sync + 'static,
         T: Clone,
     {
+        poll_fn(|cx| self.maker.poll_ready(cx))
+            .await
+            .context("make service")?;
+
         self.maker
             .make_service(self.state.clone())
             .await
diff --git a/spoa/src/state/process.rs b/spoa/src/state/process.rs
index c931bce..0bd2a6a 100644
--- a/spoa/src/state/process.rs
+++ b/spoa/src/state/process.rs
@@ -1,4 +1,5 @@
 use std::fmt;
+use std::future::poll_fn;
 use std::sync::Arc;
 
 use derive_more::Debug;
@@ -65,7 +66,13 @@ where
                 };
 
                 if let Some(msgs) = msgs {
-                    match timeout(self.runtime.max_process_time, self.service.call(msgs)).await {
+                    let service = &mut self.service;
+                    let processing = async {
+                        poll_fn(|cx| service.poll_ready(cx)).await?;
+                        service.call(msgs).await
+                    };
+
+                    match timeout(self.runtime.max_process_time, processing).await {
                         Ok(res) => match res {
                             Ok(actions) => {
                                 let ack = Frame::ack(stream_id, frame_id, actions);
-- 
2.43.0


From bff58c88cb8614636260c6525f66dc7c698d5e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:48 +0000
Subject: [PATCH 16/24] fix: wake the consumers of entries and messages

---
 spoa/src/runtime/processor.rs | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/spoa/src/runtime/processor.rs b/spoa/src/runtime/processor.rs
index 15388eb..fb86f91 100644
--- a/spoa/src/runtime/processor.rs
+++ b/spoa/src/runtime/processor.rs
@@ -3,7 +3,7 @@ use std::task::{Context, Poll};
 
 use derive_more::{From, Into};
 use futures::Stream;
-use tokio::sync::mpsc::{error::TryRecvError::*, UnboundedReceiver};
+use tokio::sync::mpsc::UnboundedReceiver;
 
 use crate::{runtime::Acker, spop::Message};
 
@@ -13,12 +13,10 @@ pub struct Processor(pub UnboundedReceiver<(Acker, UnboundedReceiver<Message>)>)
 impl Stream for Processor {
     type Item = (Acker, Messages);
 
-    fn poll_next(mut self: Pin<&mut Self>, _cx: &mut Context) -> Poll<Option<Self::Item>> {
-        match self.0.try_recv() {
-            Ok((acker, receiver)) => Poll::Ready(Some((acker, Messages(receiver)))),
-            Err(Empty) => Poll::Pending,
-            Err(Disconnected) => Poll::Ready(None),
-        }
+    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Item>> {
+        self.0
+            .poll_recv(cx)
+            .map(|res| res.map(|(acker, receiver)| (acker, Messages(receiver))))
     }
 }
 
@@ -28,11 +26,7 @@ pub struct Messages(UnboundedReceiver<Message>);
 impl Stream for Messages {
     type Item = Message;
 
-    fn poll_next(mut self: Pin<&mut Self>, _cx: &mut Context) -> Poll<Option<Self::Item>> {
-        match self.0.try_recv() {
-            Ok(res) => Poll::Ready(Some(res)),
-            Err(Empty) => Poll::Pending,
-            Err(Disconnected) => Poll::Ready(None),
-        }
+    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Item>> {
+        self.0.poll_recv(cx)
     }
 }
-- 
2.43.0


From 00117a82a7cf538528d050dae19ac157b32d1519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:49 +0000
Subject: [PATCH 17/24] fix: do not remember a notification nobody can process

---
 spoa/src/runtime/dispatch.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spoa/src/runtime/dispatch.rs b/spoa/src/runtime/dispatch.rs
index 285121f..1104e0f 100644
--- a/spoa/src/runtime/dispatch.rs
+++ b/spoa/src/runtime/dispatch.rs
@@ -34,14 +34,14 @@ impl Dispatcher {
                 Entry::Vacant(e) => {
                     let (sender, receiver) = unbounded_channel();
 
-                    if notify.fragmented {
-                        e.insert(sender.clone());
-                    }
-
                     let (acker, acked) = Acker::new(notify.stream_id, notify.frame_id);
 
                     self.processing.send((acker, receiver))?;
 
+                    if notify.fragmented {
+                        e.insert(sender.clone());
+                    }
+
                     (sender, Some(acked))
                 }
                 Entry::Occupied(e) => {
-- 
2.43.0


From 88a50a50495b92ab9ad9f7a3d14629bde1c61898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:51 +0000
Subject: [PATCH 18/24] fix: accept connections on a blocking listener

---
 spoa/src/agent.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spoa/src/agent.rs b/spoa/src/agent.rs
index d70b63d..c91bbb0 100644
--- a/spoa/src/agent.rs
+++ b/spoa/src/agent.rs
@@ -27,6 +27,8 @@ pub struct Agent<S, T> {
 
 impl<S, T> Agent<S, T> {
     pub fn new(runtime: Arc<Runtime<S, T>>, listener: StdTcpListener) -> Result<Self> {
+        listener.set_nonblocking(true)?;
+
         let listener = TcpListener::from_std(listener)?;
 
         Ok(Agent {
-- 
2.43.0


From a76ba1217c26466f1a8b758b7bb7513008f9aa58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:26 +0000
Subject: [PATCH 19/24] fix: keep accepting connections after a failure to
 accept

---
 spoa/src/agent.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/spoa/src/agent.rs b/spoa/src/agent.rs
index c91bbb0..1373cb5 100644
--- a/spoa/src/agent.rs
+++ b/spoa/src/agent.rs
@@ -7,10 +7,11 @@ use tokio::{
     io::{AsyncRead, AsyncWrite},
     net::TcpListener,
     select,
+    time::{sleep, Duration},
 };
 use tokio_util::{sync::CancellationToken, task::TaskTracker};
 use tower::{MakeService, Service};
-use tracing::{debug, instrument, trace};
+use tracing::{debug, instrument, trace, warn};
 
 use crate::{
     error::Result,
@@ -18,6 +19,9 @@ use crate::{
     Connection, Runtime,
 };
 
+/// How long to wait before accepting again after a failure.
+const ACCEPT_RETRY_DELAY: Duration = Duration::from_millis(50);
+
 #[derive(Debug)]
 pub struct Agent<S, T> {
     runtime: Arc<Runtime<S, T>>,
@@ -67,7 +71,18 @@ where
                     break
                 }
 
-                Ok((stream, peer)) = self.listener.accept() => {
+                accepted = self.listener.accept() => {
+                    let (stream, peer) = match accepted {
+                        Ok(accepted) => accepted,
+                        Err(err) => {
+                            warn!(%err, "failed to accept connection");
+
+                            // The cause may last, e.g. too many open files.
+                            sleep(ACCEPT_RETRY_DELAY).await;
+                            continue;
+                        }
+                    };
+
                     trace!(?peer, "accepted connection");
 
                     let mut conn = Connection::new(self.runtime.clone(), stream, self.shutdown.token.child_token());
-- 
2.43.0


From fa653fa1f859c9bed06d76372fe0553cb1bd2680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:28 +0000
Subject: [PATCH 20/24] fix: wait for the connections in every call of serve

---
 spoa/src/agent.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spoa/src/agent.rs b/spoa/src/agent.rs
index 1373cb5..ae5fe81 100644
--- a/spoa/src/agent.rs
+++ b/spoa/src/agent.rs
@@ -94,7 +94,9 @@ where
             }
         }
 
-        if self.shutdown.tracker.close() && !self.shutdown.tracker.is_empty() {
+        self.shutdown.tracker.close();
+
+        if !self.shutdown.tracker.is_empty() {
             debug!(
                 conns = self.shutdown.tracker.len(),
                 "waiting for shutting down"
-- 
2.43.0


From 68e5b01d07a0a235bf231831f0d11639015f9949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:04 +0000
Subject: [PATCH 21/24] fix: decode the lengths of a binary header block as
 varints

---
 spoa/src/req.rs | 4 ++--
 spop/src/lib.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/spoa/src/req.rs b/spoa/src/req.rs
index a943186..5365fc2 100644
--- a/spoa/src/req.rs
+++ b/spoa/src/req.rs
@@ -3,14 +3,14 @@ use std::iter;
 use bytes::Buf;
 use http::{HeaderMap, HeaderName, HeaderValue};
 
-use crate::error::Result;
+use crate::{error::Result, spop::varint};
 
 pub fn hdrs_bin<T: Buf>(mut b: T) -> Result<HeaderMap> {
     let mut hdrs = HeaderMap::new();
 
     let mut strs = iter::from_fn(|| {
         if b.has_remaining() {
-            let len = b.get_u8() as usize;
+            let len = varint::get(&mut b)? as usize;
             if b.remaining() >= len {
                 return Some(b.copy_to_bytes(len));
             }
diff --git a/spop/src/lib.rs b/spop/src/lib.rs
index a2aaf2b..e34d28b 100644
--- a/spop/src/lib.rs
+++ b/spop/src/lib.rs
@@ -8,7 +8,7 @@ mod version;
 
 pub use self::action::{Action, Scope};
 pub use self::caps::Capability;
-pub use self::data::Typed;
+pub use self::data::{varint, Typed};
 pub use self::error::Error;
 pub use self::frame::{
     agent::{Ack as AgentAck, Disconnect as AgentDisconnect, Hello as AgentHello},
-- 
2.43.0


From dafbc82603d1e16be185a7c3ec6026b274ccc988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:06 +0000
Subject: [PATCH 22/24] fix: keep every value of a repeated header

---
 spoa/src/req.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spoa/src/req.rs b/spoa/src/req.rs
index 5365fc2..101e7f5 100644
--- a/spoa/src/req.rs
+++ b/spoa/src/req.rs
@@ -24,7 +24,8 @@ pub fn hdrs_bin<T: Buf>(mut b: T) -> Result<HeaderMap> {
             break;
         }
 
-        hdrs.insert(HeaderName::from_bytes(&k)?, HeaderValue::from_bytes(&v)?);
+        hdrs.try_append(HeaderName::from_bytes(&k)?, HeaderValue::from_bytes(&v)?)
+            .map_err(http::Error::from)?;
     }
 
     Ok(hdrs)
-- 
2.43.0


From dd57dce608db800242c5f5402d0097f043b52f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:08 +0000
Subject: [PATCH 23/24] fix: refuse a binary header block cut in the middle of
 a pair

---
 spoa/src/req.rs | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/spoa/src/req.rs b/spoa/src/req.rs
index 101e7f5..3814ca9 100644
--- a/spoa/src/req.rs
+++ b/spoa/src/req.rs
@@ -1,25 +1,17 @@
-use std::iter;
-
-use bytes::Buf;
+use bytes::{Buf, Bytes};
 use http::{HeaderMap, HeaderName, HeaderValue};
 
-use crate::{error::Result, spop::varint};
+use crate::{
+    error::Result,
+    spop::{varint, Error::Invalid},
+};
 
 pub fn hdrs_bin<T: Buf>(mut b: T) -> Result<HeaderMap> {
     let mut hdrs = HeaderMap::new();
 
-    let mut strs = iter::from_fn(|| {
-        if b.has_remaining() {
-            let len = varint::get(&mut b)? as usize;
-            if b.remaining() >= len {
-                return Some(b.copy_to_bytes(len));
-            }
-        }
-
-        None
-    });
+    while b.has_remaining() {
+        let (k, v) = (string(&mut b)?, string(&mut b)?);
 
-    while let Some((k, v)) = strs.next().zip(strs.next()) {
         if k.is_empty() && v.is_empty() {
             break;
         }
@@ -30,3 +22,13 @@ pub fn hdrs_bin<T: Buf>(mut b: T) -> Result<HeaderMap> {
 
     Ok(hdrs)
 }
+
+fn string<T: Buf>(mut b: T) -> Result<Bytes> {
+    let len = varint::get(&mut b).ok_or(Invalid)? as usize;
+
+    if b.remaining() >= len {
+        Ok(b.copy_to_bytes(len))
+    } else {
+        Err(Invalid.into())
+    }
+}
-- 
2.43.0


From 1fa61b9ba4b6952609475abab192c841c0a2ebd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:19 +0000
Subject: [PATCH 24/24] fix: replies are sent at once instead of being lost
 when the connection is closed

---
 spoa/src/agent.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/spoa/src/agent.rs b/spoa/src/agent.rs
index ae5fe81..705c87b 100644
--- a/spoa/src/agent.rs
+++ b/spoa/src/agent.rs
@@ -85,6 +85,11 @@ where
 
                     trace!(?peer, "accepted connection");
 
+                    // A reply held back by the transport is lost if the connection is then reset.
+                    if let Err(err) = stream.set_nodelay(true) {
+                        debug!(?peer, %err, "failed to disable delayed sending");
+                    }
+
                     let mut conn = Connection::new(self.runtime.clone(), stream, self.shutdown.token.child_token());
 
                     tokio::task::Builder::new().name("conn").spawn(self.shutdown.tracker.track_future(async move {
-- 
2.43.0

