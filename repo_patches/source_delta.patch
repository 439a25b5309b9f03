From 8a27b2f92ddd21dbf94a435c0e250818a1f832d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:41 +0000
Subject: [PATCH 01/18] fix: refuse truncated and overflowing varints instead
 of panicking or guessing

---
 spop/src/data/varint.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spop/src/data/varint.rs b/spop/src/data/varint.rs
index 612703d..73cec1e 100644
--- a/spop/src/data/varint.rs
+++ b/spop/src/data/varint.rs
@@ -27,15 +27,15 @@ pub fn get<T: Buf>(mut buf: T) -> Option<u64> {
 
             while buf.has_remaining() {
                 let b = buf.get_u8();
-                n += (b as u64) << r;
+                n = n.checked_add(1u64.checked_shl(r)?.checked_mul(b as u64)?)?;
                 r += 7;
 
                 if b < 0x80 {
-                    break;
+                    return Some(n);
                 }
             }
 
-            Some(n)
+            None
         }
     }
 }
-- 
2.43.0


From 325381d9c3a9dec851889a2b9ecefbd060d4938d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:31 +0000
Subject: [PATCH 02/18] fix: refuse malformed payloads instead of delivering
 part of them

---
 spop/src/data/buf.rs     | 11 ++++-------
 spop/src/frame/decode.rs | 29 ++++++++++++++++++-----------
 2 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/spop/src/data/buf.rs b/spop/src/data/buf.rs
index 2a12472..e119bbf 100644
--- a/spop/src/data/buf.rs
+++ b/spop/src/data/buf.rs
@@ -18,8 +18,8 @@ pub trait BufExt {
     /// Get a string.
     fn string(&mut self) -> Option<String>;
 
-    /// Get key-value list.
-    fn kv_list(&mut self) -> impl Iterator<Item = (String, Typed)>;
+    /// Get key-value list, a malformed pair is yielded as `None`.
+    fn kv_list(&mut self) -> impl Iterator<Item = Option<(String, Typed)>>;
 }
 
 impl<T> BufExt for T
@@ -40,13 +40,10 @@ where
         String::from_utf8(b.to_vec()).ok()
     }
 
-    fn kv_list(&mut self) -> impl Iterator<Item = (String, Typed)> {
+    fn kv_list(&mut self) -> impl Iterator<Item = Option<(String, Typed)>> {
         iter::from_fn(move || {
             if self.has_remaining() {
-                let name = self.string()?;
-                let value = self.typed()?;
-
-                Some((name, value))
+                Some(self.string().zip(self.typed()))
             } else {
                 None
             }
diff --git a/spop/src/frame/decode.rs b/spop/src/frame/decode.rs
index f5044f4..299bf47 100644
--- a/spop/src/frame/decode.rs
+++ b/spop/src/frame/decode.rs
@@ -73,7 +73,7 @@ fn metadata<B: Buf>(mut buf: B) -> Option<frame::Metadata> {
 }
 
 fn haproxy_hello<B: Buf>(mut buf: B) -> Result<haproxy::Hello> {
-    let mut kv = buf.kv_list().collect::<KVList>();
+    let mut kv = buf.kv_list().collect::<Option<KVList>>().ok_or(Invalid)?;
 
     Ok(haproxy::Hello {
         supported_versions: kv.supported_versions()?,
@@ -85,7 +85,7 @@ fn haproxy_hello<B: Buf>(mut buf: B) -> Result<haproxy::Hello> {
 }
 
 fn agent_hello<B: Buf>(mut buf: B) -> Result<agent::Hello> {
-    let mut kv = buf.kv_list().collect::<KVList>();
+    let mut kv = buf.kv_list().collect::<Option<KVList>>().ok_or(Invalid)?;
 
     Ok(agent::Hello {
         version: kv.version()?,
@@ -99,7 +99,9 @@ fn haproxy_notify<B: Buf>(buf: B, md: Metadata) -> Result<haproxy::Notify> {
         fragmented: md.fragmented(),
         stream_id: md.stream_id,
         frame_id: md.frame_id,
-        messages: list_of_messages(buf).collect::<Vec<_>>(),
+        messages: list_of_messages(buf)
+            .collect::<Option<Vec<_>>>()
+            .ok_or(Invalid)?,
     })
 }
 
@@ -109,12 +111,14 @@ fn agent_ack<B: Buf>(buf: B, md: Metadata) -> Result<agent::Ack> {
         aborted: md.aborted(),
         stream_id: md.stream_id,
         frame_id: md.frame_id,
-        actions: list_of_actions(buf).collect::<Vec<_>>(),
+        actions: list_of_actions(buf)
+            .collect::<Option<Vec<_>>>()
+            .ok_or(Invalid)?,
     })
 }
 
 fn disconnect<B: Buf>(mut buf: B) -> Result<frame::Disconnect> {
-    let mut kv = buf.kv_list().collect::<KVList>();
+    let mut kv = buf.kv_list().collect::<Option<KVList>>().ok_or(Invalid)?;
 
     Ok(haproxy::Disconnect {
         status_code: kv.status_code(),
@@ -122,10 +126,10 @@ fn disconnect<B: Buf>(mut buf: B) -> Result<frame::Disconnect> {
     })
 }
 
-fn list_of_messages<B: Buf>(mut buf: B) -> impl Iterator<Item = Message> {
+fn list_of_messages<B: Buf>(mut buf: B) -> impl Iterator<Item = Option<Message>> {
     iter::from_fn(move || {
         if buf.has_remaining() {
-            message(&mut buf)
+            Some(message(&mut buf))
         } else {
             None
         }
@@ -135,15 +139,18 @@ fn list_of_messages<B: Buf>(mut buf: B) -> impl Iterator<Item = Message> {
 fn message<B: Buf>(mut buf: B) -> Option<Message> {
     let name = buf.string()?;
     let nb = get_u8(&mut buf)?;
-    let args = buf.kv_list().take(nb as usize).collect();
+    let args = buf
+        .kv_list()
+        .take(nb as usize)
+        .collect::<Option<Vec<_>>>()?;
 
-    Some(Message { name, args })
+    (args.len() == nb as usize).then_some(Message { name, args })
 }
 
-fn list_of_actions<B: Buf>(mut buf: B) -> impl Iterator<Item = Action> {
+fn list_of_actions<B: Buf>(mut buf: B) -> impl Iterator<Item = Option<Action>> {
     iter::from_fn(move || {
         if buf.has_remaining() {
-            action(&mut buf)
+            Some(action(&mut buf))
         } else {
             None
         }
-- 
2.43.0


From 565a279b8e9be3e32c0149930c66207e71e26fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:33 +0000
Subject: [PATCH 03/18] fix: ignore unknown capabilities and accept an empty
 capability list

---
 spop/src/frame/decode.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spop/src/frame/decode.rs b/spop/src/frame/decode.rs
index 299bf47..38eab92 100644
--- a/spop/src/frame/decode.rs
+++ b/spop/src/frame/decode.rs
@@ -221,10 +221,10 @@ impl KVList {
     pub fn capabilities(&mut self) -> Result<Vec<Capability>> {
         let s = self.string(kv::CAPABILITIES_KEY).ok_or(NoCapabilities)?;
 
-        s.split(',')
-            .map(|s| s.trim().parse())
-            .collect::<StdResult<Vec<_>, _>>()
-            .map_err(|_| Invalid)
+        // unknown capabilities are silently ignored, the list may be empty
+        Ok(s.split(',')
+            .filter_map(|s| s.trim().parse().ok())
+            .collect())
     }
 
     pub fn status_code(&mut self) -> u32 {
-- 
2.43.0


From 07189d0f5b9b160e7afa02db377b0ebf6289bc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:35 +0000
Subject: [PATCH 04/18] fix: report undecodable and oversized frames with an
 AGENT-DISCONNECT

---
 spoa/src/conn.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/spoa/src/conn.rs b/spoa/src/conn.rs
index e1f6136..5fe6102 100644
--- a/spoa/src/conn.rs
+++ b/spoa/src/conn.rs
@@ -74,7 +74,14 @@ where
                 }
 
                 frame = self.codec.read_frame() => {
-                    match state.handle_frame(frame?).await {
+                    let res = match frame {
+                        Ok(frame) => state.handle_frame(frame).await,
+                        // the transport is gone, there is nobody to tell
+                        Err(Status::Io) => return Err(Status::Io.into()),
+                        Err(err) => Err(err.into()),
+                    };
+
+                    match res {
                         Ok((next, reply)) => {
                             if let Some(frame) = reply {
                                 self.codec.write_frame(frame).await?;
-- 
2.43.0


From 00406da4e4037795fc1e90bab124063d1eca45d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:36 +0000
Subject: [PATCH 05/18] fix: refuse fragments when fragmentation was not
 negotiated

---
 spoa/src/state/process.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spoa/src/state/process.rs b/spoa/src/state/process.rs
index c056a7b..113b213 100644
--- a/spoa/src/state/process.rs
+++ b/spoa/src/state/process.rs
@@ -58,6 +58,8 @@ where
             }) => {
                 let msgs = if let Some(ref reassembly) = self.reassembly {
                     reassembly.reassemble(fragmented, stream_id, frame_id, messages)?
+                } else if fragmented {
+                    return Err(FragmentNotSupported).context("fragmentation not supported");
                 } else {
                     Some(messages)
                 };
-- 
2.43.0


From 44b9525b7a392331d5f8d5286ea38b24154ffc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:38 +0000
Subject: [PATCH 06/18] fix: wake the consumers of the work item and message
 streams

---
 spoa/src/runtime/processor.rs | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/spoa/src/runtime/processor.rs b/spoa/src/runtime/processor.rs
index 15388eb..9691015 100644
--- a/spoa/src/runtime/processor.rs
+++ b/spoa/src/runtime/processor.rs
@@ -3,7 +3,7 @@ use std::task::{Context, Poll};
 
 use derive_more::{From, Into};
 use futures::Stream;
-use tokio::sync::mpsc::{error::TryRecvError::*, UnboundedReceiver};
+use tokio::sync::mpsc::UnboundedReceiver;
 
 use crate::{runtime::Acker, spop::Message};
 
@@ -13,11 +13,11 @@ pub struct Processor(pub UnboundedReceiver<(Acker, UnboundedReceiver<Message>)>)
 impl Stream for Processor {
     type Item = (Acker, Messages);
 
-    fn poll_next(mut self: Pin<&mut Self>, _cx: &mut Context) -> Poll<Option<Self::Item>> {
-        match self.0.try_recv() {
-            Ok((acker, receiver)) => Poll::Ready(Some((acker, Messages(receiver)))),
-            Err(Empty) => Poll::Pending,
-            Err(Disconnected) => Poll::Ready(None),
+    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Item>> {
+        match self.0.poll_recv(cx) {
+            Poll::Ready(Some((acker, receiver))) => Poll::Ready(Some((acker, Messages(receiver)))),
+            Poll::Ready(None) => Poll::Ready(None),
+            Poll::Pending => Poll::Pending,
         }
     }
 }
@@ -28,11 +28,7 @@ pub struct Messages(UnboundedReceiver<Message>);
 impl Stream for Messages {
     type Item = Message;
 
-    fn poll_next(mut self: Pin<&mut Self>, _cx: &mut Context) -> Poll<Option<Self::Item>> {
-        match self.0.try_recv() {
-            Ok(res) => Poll::Ready(Some(res)),
-            Err(Empty) => Poll::Pending,
-            Err(Disconnected) => Poll::Ready(None),
-        }
+    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<Self::Item>> {
+        self.0.poll_recv(cx)
     }
 }
-- 
2.43.0


From 051027d3c1dc7f94a0a30e6d84806028d169b8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:39 +0000
Subject: [PATCH 07/18] fix: forget a fragmented request that could not be
 handed out

---
 spoa/src/runtime/dispatch.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spoa/src/runtime/dispatch.rs b/spoa/src/runtime/dispatch.rs
index 285121f..1104e0f 100644
--- a/spoa/src/runtime/dispatch.rs
+++ b/spoa/src/runtime/dispatch.rs
@@ -34,14 +34,14 @@ impl Dispatcher {
                 Entry::Vacant(e) => {
                     let (sender, receiver) = unbounded_channel();
 
-                    if notify.fragmented {
-                        e.insert(sender.clone());
-                    }
-
                     let (acker, acked) = Acker::new(notify.stream_id, notify.frame_id);
 
                     self.processing.send((acker, receiver))?;
 
+                    if notify.fragmented {
+                        e.insert(sender.clone());
+                    }
+
                     (sender, Some(acked))
                 }
                 Entry::Occupied(e) => {
-- 
2.43.0


From fb1e92d341bf65b6c43e2898d031a6bedfdaa7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:41 +0000
Subject: [PATCH 08/18] fix: read the varint string lengths of binary header
 lists

---
 spoa/src/req.rs | 4 ++--
 spop/src/lib.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/spoa/src/req.rs b/spoa/src/req.rs
index a943186..5365fc2 100644
--- a/spoa/src/req.rs
+++ b/spoa/src/req.rs
@@ -3,14 +3,14 @@ use std::iter;
 use bytes::Buf;
 use http::{HeaderMap, HeaderName, HeaderValue};
 
-use crate::error::Result;
+use crate::{error::Result, spop::varint};
 
 pub fn hdrs_bin<T: Buf>(mut b: T) -> Result<HeaderMap> {
     let mut hdrs = HeaderMap::new();
 
     let mut strs = iter::from_fn(|| {
         if b.has_remaining() {
-            let len = b.get_u8() as usize;
+            let len = varint::get(&mut b)? as usize;
             if b.remaining() >= len {
                 return Some(b.copy_to_bytes(len));
             }
diff --git a/spop/src/lib.rs b/spop/src/lib.rs
index a2aaf2b..e34d28b 100644
--- a/spop/src/lib.rs
+++ b/spop/src/lib.rs
@@ -8,7 +8,7 @@ mod version;
 
 pub use self::action::{Action, Scope};
 pub use self::caps::Capability;
-pub use self::data::Typed;
+pub use self::data::{varint, Typed};
 pub use self::error::Error;
 pub use self::frame::{
     agent::{Ack as AgentAck, Disconnect as AgentDisconnect, Hello as AgentHello},
-- 
2.43.0


From 8e06c7810e243de5ddd24722c18d77215776c702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:42 +0000
Subject: [PATCH 09/18] fix: keep every value of repeated headers in binary
 header lists

---
 spoa/src/req.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spoa/src/req.rs b/spoa/src/req.rs
index 5365fc2..8112122 100644
--- a/spoa/src/req.rs
+++ b/spoa/src/req.rs
@@ -24,7 +24,7 @@ pub fn hdrs_bin<T: Buf>(mut b: T) -> Result<HeaderMap> {
             break;
         }
 
-        hdrs.insert(HeaderName::from_bytes(&k)?, HeaderValue::from_bytes(&v)?);
+        hdrs.append(HeaderName::from_bytes(&k)?, HeaderValue::from_bytes(&v)?);
     }
 
     Ok(hdrs)
-- 
2.43.0


From cd89e5b6124a74b693574037883ba96eb3854b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:44 +0000
Subject: [PATCH 10/18] fix: flush the transport after writing a frame

---
 spop/src/frame/framer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spop/src/frame/framer.rs b/spop/src/frame/framer.rs
index 6d5ef3c..155854c 100644
--- a/spop/src/frame/framer.rs
+++ b/spop/src/frame/framer.rs
@@ -50,6 +50,7 @@ impl Framer {
         pin_mut!(w);
 
         w.write_all(&buf).await.map_err(|_| Io)?;
+        w.flush().await.map_err(|_| Io)?;
 
         Ok(buf.len())
     }
-- 
2.43.0


From dd4da494e74411b6c25dbc7e1c8b0a7499706fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:16 +0000
Subject: [PATCH 11/18] fix: hold outgoing frames to the negotiated
 max-frame-size

---
 spoa/src/conn.rs         | 35 +++++++++++++++++++++++++++++------
 spop/src/frame/codec.rs  |  5 +++++
 spop/src/frame/framer.rs |  9 +++++++++
 3 files changed, 43 insertions(+), 6 deletions(-)

diff --git a/spoa/src/conn.rs b/spoa/src/conn.rs
index 5fe6102..603dc46 100644
--- a/spoa/src/conn.rs
+++ b/spoa/src/conn.rs
@@ -14,7 +14,7 @@ use tracing::instrument;
 use crate::runtime::Runtime;
 use crate::{
     error::Result,
-    spop::{Action, BufCodec, Codec, Error as Status, Frame, Framer, Message},
+    spop::{Action, BufCodec, Codec, Disconnect, Error as Status, Frame, Framer, Message},
     state::AsyncHandler,
     State,
 };
@@ -47,8 +47,18 @@ where
     where
         M: Into<String> + fmt::Debug,
     {
-        let disconnect = Frame::agent_disconnect(status, msg);
-        self.codec.write_frame(disconnect).await?;
+        self.report(Disconnect::new(status, msg)).await
+    }
+
+    /// Tell the peer why the connection ends, without the description if that is too long.
+    async fn report(&mut self, disconnect: Disconnect) -> Result<()> {
+        let mut brief = disconnect.clone();
+        brief.message.clear();
+
+        match self.codec.write_frame(Frame::AgentDisconnect(disconnect)).await {
+            Err(Status::TooBig) => self.codec.write_frame(Frame::AgentDisconnect(brief)).await?,
+            res => res?,
+        };
         Ok(())
     }
 }
@@ -84,13 +94,26 @@ where
                     match res {
                         Ok((next, reply)) => {
                             if let Some(frame) = reply {
-                                self.codec.write_frame(frame).await?;
+                                let agreed = match frame {
+                                    Frame::AgentHello(ref hello) => Some(hello.max_frame_size),
+                                    _ => None,
+                                };
+                                match self.codec.write_frame(frame).await {
+                                    Err(Status::TooBig) => {
+                                        self.disconnect(Status::TooBig, "reply is too big").await?;
+                                        self.tok.cancel();
+                                        break;
+                                    }
+                                    res => res?,
+                                };
+                                if let Some(sz) = agreed {
+                                    self.codec.set_max_frame_size(sz as usize);
+                                }
                             }
                             self.state = next;
                         }
                         Err(err) => {
-                            let frame = Frame::AgentDisconnect(err.into());
-                            self.codec.write_frame(frame).await?;
+                            self.report(err.into()).await?;
                             self.tok.cancel();
                             break;
                         }
diff --git a/spop/src/frame/codec.rs b/spop/src/frame/codec.rs
index 7d2ae10..62aeb2a 100644
--- a/spop/src/frame/codec.rs
+++ b/spop/src/frame/codec.rs
@@ -34,6 +34,11 @@ where
         Self { stream, framer }
     }
 
+    /// Change the maximum frame size, i.e. to the one agreed with the peer.
+    pub fn set_max_frame_size(&mut self, max_frame_size: usize) {
+        self.framer.set_max_frame_size(max_frame_size);
+    }
+
     #[instrument(skip(self), ret, err, level = "trace")]
     pub async fn read_frame(&mut self) -> Result<Frame> {
         self.framer.read_frame(&mut self.stream).await
diff --git a/spop/src/frame/framer.rs b/spop/src/frame/framer.rs
index 155854c..e314a3b 100644
--- a/spop/src/frame/framer.rs
+++ b/spop/src/frame/framer.rs
@@ -21,6 +21,11 @@ impl Framer {
         Framer { max_frame_size }
     }
 
+    /// Change the maximum frame size, i.e. to the one agreed with the peer.
+    pub fn set_max_frame_size(&mut self, max_frame_size: usize) {
+        self.max_frame_size = max_frame_size;
+    }
+
     pub async fn read_frame<R>(&self, r: R) -> Result<Frame>
     where
         R: AsyncRead + Sized,
@@ -45,6 +50,10 @@ impl Framer {
     {
         let buf = write_frame(BytesMut::with_capacity(self.max_frame_size), frame);
 
+        if buf.len() - mem::size_of::<u32>() > self.max_frame_size {
+            return Err(TooBig);
+        }
+
         trace!(buf=%HexView::new(&buf[4..]));
 
         pin_mut!(w);
-- 
2.43.0


From 6c3366cf280ed653447e10c22a158e1b4bdfb1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:18 +0000
Subject: [PATCH 12/18] fix: keep accepting connections after a failed accept

---
 spoa/src/agent.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/spoa/src/agent.rs b/spoa/src/agent.rs
index d70b63d..8224600 100644
--- a/spoa/src/agent.rs
+++ b/spoa/src/agent.rs
@@ -1,16 +1,18 @@
 use std::error::Error as StdError;
 use std::fmt;
-use std::net::TcpListener as StdTcpListener;
+use std::net::{SocketAddr, TcpListener as StdTcpListener};
 use std::sync::Arc;
+use std::time::Duration;
 
 use tokio::{
     io::{AsyncRead, AsyncWrite},
-    net::TcpListener,
+    net::{TcpListener, TcpStream},
     select,
+    time::sleep,
 };
 use tokio_util::{sync::CancellationToken, task::TaskTracker};
 use tower::{MakeService, Service};
-use tracing::{debug, instrument, trace};
+use tracing::{debug, instrument, trace, warn};
 
 use crate::{
     error::Result,
@@ -39,8 +41,25 @@ impl<S, T> Agent<S, T> {
     pub fn shutdown(&self) -> CancellationToken {
         self.shutdown.token.clone()
     }
+
+    /// Wait for the next connection, failing to accept one must not stop the agent.
+    async fn accept(&self) -> (TcpStream, SocketAddr) {
+        loop {
+            match self.listener.accept().await {
+                Ok(accepted) => return accepted,
+                Err(err) => {
+                    warn!(%err, "failed to accept connection");
+
+                    sleep(ACCEPT_BACKOFF).await;
+                }
+            }
+        }
+    }
 }
 
+/// How long to wait before accepting again after a failure.
+const ACCEPT_BACKOFF: Duration = Duration::from_millis(10);
+
 #[derive(Clone, Debug, Default)]
 pub struct Shutdown {
     tracker: TaskTracker,
@@ -65,7 +84,7 @@ where
                     break
                 }
 
-                Ok((stream, peer)) = self.listener.accept() => {
+                (stream, peer) = self.accept() => {
                     trace!(?peer, "accepted connection");
 
                     let mut conn = Connection::new(self.runtime.clone(), stream, self.shutdown.token.child_token());
-- 
2.43.0


From 582fc9319a2966b2f7462954c12fd367e10b7253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:20 +0000
Subject: [PATCH 13/18] fix: wait until services are ready before calling them

---
 spoa/src/runtime/runtime.rs | 5 +++++
 spoa/src/state/process.rs   | 9 ++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/spoa/src/runtime/runtime.rs b/spoa/src/runtime/runtime.rs
index 7b85693..da8b983 100644
--- a/spoa/src/runtime/runtime.rs
+++ b/spoa/src/runtime/runtime.rs
@@ -1,4 +1,5 @@
 use std::error::Error as StdError;
+use std::future::poll_fn;
 use std::time::Duration;
 
 use tokio::sync::{mpsc::unbounded_channel, RwLock};
@@ -23,6 +24,10 @@ impl<S, T> ServiceMaker<S, T> {
         S::MakeError: StdError + Send + Sync + 'static,
         T: Clone,
     {
+        poll_fn(|cx| self.maker.poll_ready(cx))
+            .await
+            .context("make service")?;
+
         self.maker
             .make_service(self.state.clone())
             .await
diff --git a/spoa/src/state/process.rs b/spoa/src/state/process.rs
index 113b213..e54a1f2 100644
--- a/spoa/src/state/process.rs
+++ b/spoa/src/state/process.rs
@@ -1,4 +1,5 @@
 use std::fmt;
+use std::future::poll_fn;
 use std::sync::Arc;
 
 use derive_more::Debug;
@@ -65,7 +66,13 @@ where
                 };
 
                 if let Some(msgs) = msgs {
-                    match timeout(self.runtime.max_process_time, self.service.call(msgs)).await {
+                    let service = &mut self.service;
+                    let call = async {
+                        poll_fn(|cx| service.poll_ready(cx)).await?;
+                        service.call(msgs).await
+                    };
+
+                    match timeout(self.runtime.max_process_time, call).await {
                         Ok(res) => match res {
                             Ok(actions) => {
                                 let ack = Frame::ack(stream_id, frame_id, actions);
-- 
2.43.0


From c112def31a7ec5ea1af81004aaddd677325a04e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:48 +0000
Subject: [PATCH 14/18] fix: let connections make their services at the same
 time

---
 spoa/src/runtime/runtime.rs | 8 +++-----
 spoa/src/state/connect.rs   | 4 +++-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/spoa/src/runtime/runtime.rs b/spoa/src/runtime/runtime.rs
index da8b983..b976f4c 100644
--- a/spoa/src/runtime/runtime.rs
+++ b/spoa/src/runtime/runtime.rs
@@ -18,7 +18,8 @@ pub struct ServiceMaker<S, T> {
 }
 
 impl<S, T> ServiceMaker<S, T> {
-    pub async fn make<REQ>(&mut self) -> Result<S::Service>
+    /// Start making a service once the maker is ready, the caller awaits the returned future.
+    pub async fn make<REQ>(&mut self) -> Result<S::Future>
     where
         S: MakeService<T, REQ>,
         S::MakeError: StdError + Send + Sync + 'static,
@@ -28,10 +29,7 @@ impl<S, T> ServiceMaker<S, T> {
             .await
             .context("make service")?;
 
-        self.maker
-            .make_service(self.state.clone())
-            .await
-            .context("make service")
+        Ok(self.maker.make_service(self.state.clone()))
     }
 }
 
diff --git a/spoa/src/state/connect.rs b/spoa/src/state/connect.rs
index 2b2c13a..6a0e954 100644
--- a/spoa/src/state/connect.rs
+++ b/spoa/src/state/connect.rs
@@ -62,7 +62,9 @@ where
         let next = if is_healthcheck {
             State::Disconnecting
         } else {
-            let service = runtime.service_maker.write().await.make().await?;
+            // other connections may use the maker while this service is being made
+            let making = runtime.service_maker.write().await.make().await?;
+            let service = making.await.context("make service")?;
 
             Processing::new(
                 runtime,
-- 
2.43.0


From 4b2223b3698c0ce70a25ab8b33e687db4f4eb0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:56 +0000
Subject: [PATCH 15/18] fix: refuse binary header lists with more headers than
 a map holds

---
 spoa/src/req.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spoa/src/req.rs b/spoa/src/req.rs
index 8112122..101e7f5 100644
--- a/spoa/src/req.rs
+++ b/spoa/src/req.rs
@@ -24,7 +24,8 @@ pub fn hdrs_bin<T: Buf>(mut b: T) -> Result<HeaderMap> {
             break;
         }
 
-        hdrs.append(HeaderName::from_bytes(&k)?, HeaderValue::from_bytes(&v)?);
+        hdrs.try_append(HeaderName::from_bytes(&k)?, HeaderValue::from_bytes(&v)?)
+            .map_err(http::Error::from)?;
     }
 
     Ok(hdrs)
-- 
2.43.0


From 62f136e609641e1c645af60581cbd73477fd8dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:06 +0000
Subject: [PATCH 16/18] fix: let every serve call of an agent wait for its
 connections

---
 spoa/src/agent.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spoa/src/agent.rs b/spoa/src/agent.rs
index 8224600..4566194 100644
--- a/spoa/src/agent.rs
+++ b/spoa/src/agent.rs
@@ -96,7 +96,9 @@ where
             }
         }
 
-        if self.shutdown.tracker.close() && !self.shutdown.tracker.is_empty() {
+        self.shutdown.tracker.close();
+
+        if !self.shutdown.tracker.is_empty() {
             debug!(
                 conns = self.shutdown.tracker.len(),
                 "waiting for shutting down"
-- 
2.43.0


From 1fb2b14880cac6cf7a9c8b6ab856073d5ce7ea97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:39 +0000
Subject: [PATCH 17/18] fix: size frame buffers by the frame, not by the limit,
 which may be any number

---
 spop/src/frame/framer.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/spop/src/frame/framer.rs b/spop/src/frame/framer.rs
index e314a3b..a24015e 100644
--- a/spop/src/frame/framer.rs
+++ b/spop/src/frame/framer.rs
@@ -34,7 +34,7 @@ impl Framer {
 
         let len = r.read_u32().await.map_err(|_| Io)? as usize;
         if len <= self.max_frame_size {
-            let mut buf = read_frame(r, self.max_frame_size, len).await?;
+            let mut buf = read_frame(r, len).await?;
 
             trace!(buf=%HexView::new(&buf));
 
@@ -48,7 +48,7 @@ impl Framer {
     where
         W: AsyncWrite + Sized,
     {
-        let buf = write_frame(BytesMut::with_capacity(self.max_frame_size), frame);
+        let buf = write_frame(BytesMut::new(), frame);
 
         if buf.len() - mem::size_of::<u32>() > self.max_frame_size {
             return Err(TooBig);
@@ -65,12 +65,11 @@ impl Framer {
     }
 }
 
-async fn read_frame<R>(mut r: Pin<&mut R>, max_frame_size: usize, len: usize) -> Result<Bytes>
+async fn read_frame<R>(mut r: Pin<&mut R>, len: usize) -> Result<Bytes>
 where
     R: AsyncRead + Sized,
 {
-    let mut buf = BytesMut::with_capacity(max_frame_size);
-    buf.resize(len, 0);
+    let mut buf = BytesMut::zeroed(len);
 
     r.read_exact(&mut buf).await.map_err(|_| Io)?;
 
-- 
2.43.0


From 5228cacad05b348113a05e7efa84f6243eb78a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:40 +0000
Subject: [PATCH 18/18] fix: do not truncate a maximum frame size above 32 bits
 in the handshake

---
 spoa/src/state/connect.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spoa/src/state/connect.rs b/spoa/src/state/connect.rs
index 6a0e954..6f6ad0f 100644
--- a/spoa/src/state/connect.rs
+++ b/spoa/src/state/connect.rs
@@ -52,7 +52,8 @@ where
         let handshaked = {
             negotiate(
                 runtime.supported_versions.clone(),
-                runtime.max_frame_size as u32,
+                // a limit that the protocol can not express is no limit to the peer
+                u32::try_from(runtime.max_frame_size).unwrap_or(u32::MAX),
                 runtime.capabilities.clone(),
                 hello,
             )?
-- 
2.43.0

