From 43d1cd79dc7bbeaa487c6e834b12c60b174edaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:04 +0000
Subject: [PATCH 01/18] fix: answer with response code Error when a handler
 returns MessageError

---
 src/handler.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handler.rs b/src/handler.rs
index 22787f0..2983a9d 100644
--- a/src/handler.rs
+++ b/src/handler.rs
@@ -76,7 +76,7 @@ fn convert<MSG: Message>(msg_res: HandlerResult<MSG>) -> MessageArgsResponse {
     match msg_res {
         Ok(message) => Ok((ResponseCode::Ok, message.try_into()?)),
         Err(err) => match err {
-            HandlerError::MessageError(message) => Ok((ResponseCode::Ok, message.try_into()?)),
+            HandlerError::MessageError(message) => Ok((ResponseCode::Error, message.try_into()?)),
             HandlerError::GeneralError(message) => Err(TChannelError::Error(message)),
             HandlerError::InternalError(err) => Err(err),
         },
-- 
2.43.0


From 1f2be8953b81db154cc8b75c039ddf970e713924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:04 +0000
Subject: [PATCH 02/18] fix: registering a duplicated message id keeps the
 pending entry

---
 src/connection/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index 52efddb..47931fc 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -75,10 +75,11 @@ impl FramesDispatcher {
 
     pub async fn register(&self, id: u32, sender: Sender<TFrameId>) -> ConnectionResult<()> {
         let mut channels = self.senders.write().await;
-        if channels.insert(id, sender).is_some() {
+        if channels.contains_key(&id) {
             debug!("Sender for id {} already exists", id);
             return Err(ConnectionError::Error(format!("Duplicated id: {}.", id)));
         }
+        channels.insert(id, sender);
         Ok(())
     }
 
-- 
2.43.0


From b1b019c39516d1e22c0c49f8b4c1693876ca03a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:04 +0000
Subject: [PATCH 03/18] fix: make SubChannel::unregister callable on the shared
 SubChannel

---
 src/subchannel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/subchannel.rs b/src/subchannel.rs
index ed22f77..2fb351f 100644
--- a/src/subchannel.rs
+++ b/src/subchannel.rs
@@ -106,7 +106,7 @@ impl SubChannel {
     }
 
     /// Unregisters request handler. Found handler will be dropped.
-    pub async fn unregister(&mut self, endpoint: impl AsRef<str>) -> TResult<()> {
+    pub async fn unregister(&self, endpoint: impl AsRef<str>) -> TResult<()> {
         let mut handlers = self.handlers.write().await;
         match handlers.remove(endpoint.as_ref()) {
             Some(_) => Ok(()),
-- 
2.43.0


From 1c66e3e50d67db53402bb6bc3ab5b72ff681e7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:14 +0000
Subject: [PATCH 04/18] fix: return CodecError on truncated payload instead of
 panicking

---
 src/frames/payloads.rs | 39 ++++++++++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/src/frames/payloads.rs b/src/frames/payloads.rs
index 82c683c..ce1ccd1 100644
--- a/src/frames/payloads.rs
+++ b/src/frames/payloads.rs
@@ -5,6 +5,7 @@ use bytes::{Buf, BufMut, Bytes, BytesMut};
 use num_traits::FromPrimitive;
 use std::collections::{HashMap, VecDeque};
 use std::fmt::Write;
+use std::mem::size_of;
 
 /// Supported TChannel protocol version
 pub const PROTOCOL_VERSION: u16 = 2;
@@ -13,6 +14,8 @@ pub const PROTOCOL_VERSION: u16 = 2;
 pub const MAX_FRAME_ARGS: usize = 3;
 /// Length of arg length frame field (2 bytes, u16)
 pub const ARG_LEN_LEN: usize = 2;
+/// Length of tracing frame field (25 bytes)
+const TRACING_LEN: usize = 25;
 
 pub type CodecResult<T> = Result<T, CodecError>;
 
@@ -101,6 +104,7 @@ impl Codec for Tracing {
     }
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
+        ensure_remaining(src, TRACING_LEN)?;
         Ok(Tracing::new(
             src.get_u64(),
             src.get_u64(),
@@ -132,6 +136,7 @@ impl Codec for Init {
     }
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
+        ensure_remaining(src, size_of::<u16>())?;
         Ok(Init::new(src.get_u16(), decode_headers(src)?))
     }
 }
@@ -190,6 +195,7 @@ impl Codec for CallWithFieldsEncoded {
     }
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
+        ensure_remaining(src, size_of::<u8>())?;
         Ok(CallWithFieldsEncoded::new(
             decode_bitflag(src.get_u8(), Flags::from_bits)?,
             CallRequestFields::decode(src)?.encode_bytes()?,
@@ -235,6 +241,7 @@ impl Codec for CallRequestFields {
     }
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
+        ensure_remaining(src, size_of::<u32>())?;
         Ok(CallRequestFields::new(
             src.get_u32(),
             Tracing::decode(src)?,
@@ -277,6 +284,7 @@ impl Codec for CallRequest {
     }
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
+        ensure_remaining(src, size_of::<u8>())?;
         Ok(CallRequest::new(
             decode_bitflag(src.get_u8(), Flags::from_bits)?,
             CallRequestFields::decode(src)?,
@@ -321,6 +329,7 @@ impl Codec for CallResponseFields {
     }
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
+        ensure_remaining(src, size_of::<u8>())?;
         Ok(CallResponseFields::new(
             decode_bitflag(src.get_u8(), ResponseCode::from_u8)?,
             Tracing::decode(src)?,
@@ -362,6 +371,7 @@ impl Codec for CallResponse {
     }
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
+        ensure_remaining(src, size_of::<u8>())?;
         Ok(CallResponse::new(
             decode_bitflag(src.get_u8(), Flags::from_bits)?,
             CallResponseFields::decode(src)?,
@@ -403,6 +413,7 @@ impl Codec for CallContinue {
     }
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
+        ensure_remaining(src, size_of::<u8>())?;
         Ok(CallContinue::new(
             decode_bitflag(src.get_u8(), Flags::from_bits)?,
             CallArgs::decode(src)?,
@@ -431,6 +442,7 @@ impl Codec for Cancel {
     }
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
+        ensure_remaining(src, size_of::<u32>())?;
         Ok(Cancel::new(
             src.get_u32(),
             Tracing::decode(src)?,
@@ -457,6 +469,7 @@ impl Codec for Claim {
     }
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
+        ensure_remaining(src, size_of::<u32>())?;
         Ok(Claim::new(src.get_u32(), Tracing::decode(src)?))
     }
 }
@@ -481,6 +494,7 @@ impl Codec for ErrorMsg {
     }
 
     fn decode(src: &mut Bytes) -> CodecResult<Self> {
+        ensure_remaining(src, size_of::<u8>())?;
         Ok(ErrorMsg::new(
             decode_bitflag(src.get_u8(), ErrorCode::from_u8)?,
             Tracing::decode(src)?,
@@ -547,13 +561,29 @@ fn encode_checksum(
 }
 
 fn decode_checksum(src: &mut Bytes) -> CodecResult<(ChecksumType, Option<u32>)> {
+    ensure_remaining(src, size_of::<u8>())?;
     let checksum_type = decode_bitflag(src.get_u8(), ChecksumType::from_u8)?;
     match checksum_type {
         ChecksumType::None => Ok((ChecksumType::None, None)),
-        checksum => Ok((checksum, Some(src.get_u32()))),
+        checksum => {
+            ensure_remaining(src, size_of::<u32>())?;
+            Ok((checksum, Some(src.get_u32())))
+        }
     }
 }
 
+/// `Buf` getters panic on missing bytes and payload comes from remote peer.
+fn ensure_remaining(src: &Bytes, len: usize) -> CodecResult<()> {
+    if src.remaining() < len {
+        return Err(CodecError::Error(format!(
+            "Expected {} more bytes, got {}",
+            len,
+            src.remaining()
+        )));
+    }
+    Ok(())
+}
+
 fn decode_bitflag<T, F: Fn(u8) -> Option<T>>(byte: u8, decoder: F) -> CodecResult<T> {
     decoder(byte).ok_or_else(|| CodecError::Error(format!("Unknown flag: {}", byte)))
 }
@@ -637,8 +667,10 @@ fn decode_string_field<T: Into<usize>>(
     src: &mut Bytes,
     get_len: &dyn Fn(&mut Bytes) -> T,
 ) -> CodecResult<String> {
-    let len = get_len(src);
-    let bytes = src.copy_to_bytes(len.into());
+    ensure_remaining(src, size_of::<T>())?;
+    let len = get_len(src).into();
+    ensure_remaining(src, len)?;
+    let bytes = src.copy_to_bytes(len);
     Ok(String::from_utf8(bytes.chunk().to_vec())?)
 }
 
@@ -660,6 +692,7 @@ fn decode_len<T: TryInto<usize>>(
     src: &mut Bytes,
     decode_len_fn: &dyn Fn(&mut Bytes) -> T,
 ) -> CodecResult<usize> {
+    ensure_remaining(src, size_of::<T>())?;
     decode_len_fn(src)
         .try_into()
         .map_err(|_| CodecError::Error("Failed to cast len to usize.".to_string()))
-- 
2.43.0


From 27a086417e1ada078240a09e1c234b8464363d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:14 +0000
Subject: [PATCH 05/18] fix: reject unsupported checksum type of a received
 frame instead of panicking

---
 src/defragmentation.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/defragmentation.rs b/src/defragmentation.rs
index 30ece5e..87bdda0 100644
--- a/src/defragmentation.rs
+++ b/src/defragmentation.rs
@@ -199,7 +199,10 @@ async fn read_continuation(
 fn verify_args(call_args: &mut CallArgs) -> CodecResult<&mut VecDeque<Option<Bytes>>> {
     match call_args.checksum_type() {
         ChecksumType::None => Ok(call_args.args_mut()),
-        _ => todo!(),
+        checksum_type => Err(CodecError::Error(format!(
+            "Unsupported checksum type {:?}",
+            checksum_type
+        ))),
     }
 }
 
-- 
2.43.0


From 1632e383a941528ffd6dd6e20b6a2584b071aaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:15 +0000
Subject: [PATCH 06/18] fix: return CodecError from unsupported ThriftMessage
 conversions instead of panicking

---
 src/messages/thrift.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/messages/thrift.rs b/src/messages/thrift.rs
index 6639523..7fccf77 100644
--- a/src/messages/thrift.rs
+++ b/src/messages/thrift.rs
@@ -17,7 +17,9 @@ impl MessageWithArgs for ThriftMessage {
 impl TryFrom<MessageArgs> for ThriftMessage {
     type Error = CodecError;
     fn try_from(_args: MessageArgs) -> Result<Self, Self::Error> {
-        todo!()
+        Err(CodecError::Error(
+            "Thrift messages are not supported.".to_string(),
+        ))
     }
 }
 
@@ -25,6 +27,8 @@ impl TryFrom<MessageArgs> for ThriftMessage {
 impl TryInto<MessageArgs> for ThriftMessage {
     type Error = CodecError;
     fn try_into(self) -> Result<MessageArgs, Self::Error> {
-        todo!()
+        Err(CodecError::Error(
+            "Thrift messages are not supported.".to_string(),
+        ))
     }
 }
-- 
2.43.0


From 7ba31962b72544cf186c252e6858f9acc4eb10bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:09 +0000
Subject: [PATCH 07/18] fix: keep message args separate when an arg ends at the
 end of a frame

---
 src/defragmentation.rs | 3 ++-
 src/fragmentation.rs   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/defragmentation.rs b/src/defragmentation.rs
index 87bdda0..56c33a0 100644
--- a/src/defragmentation.rs
+++ b/src/defragmentation.rs
@@ -233,7 +233,8 @@ impl ArgsDefragmenter {
                 }
             },
             // next arg (according to protocol specs an empty arg at the beginning means the previous arg ended at the end of previous frame)
-            None => self.args.push(BytesMut::new()),
+            None if self.args.is_empty() => self.args.push(BytesMut::new()),
+            None => (),
         }
     }
 
diff --git a/src/fragmentation.rs b/src/fragmentation.rs
index 05b64c6..2e6d333 100644
--- a/src/fragmentation.rs
+++ b/src/fragmentation.rs
@@ -205,7 +205,8 @@ impl ArgsFragmenter {
             if status == Incomplete {
                 self.args.push_front(arg);
                 break;
-            } else if status == CompleteAtTheEnd {
+            } else if status == CompleteAtTheEnd || payload_limit < ARG_LEN_LEN as i32 {
+                // no space left for length of next arg, so it has to begin in the next frame
                 self.args.push_front(Bytes::new());
                 break;
             }
-- 
2.43.0


From 5b1bc43f5ba147489086098edcb2c030c5a39736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:09 +0000
Subject: [PATCH 08/18] fix: fail reading of a message missing its last
 fragment

---
 src/defragmentation.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/defragmentation.rs b/src/defragmentation.rs
index 56c33a0..48cde1e 100644
--- a/src/defragmentation.rs
+++ b/src/defragmentation.rs
@@ -174,7 +174,7 @@ async fn read_continuation(
                 let mut continuation = CallContinue::decode(frame.payload_mut())?;
                 verify_args(continuation.args_mut()).map(|args| args_defragmenter.add(args))?;
                 if !continuation.flags().contains(Flags::MORE_FRAGMENTS_FOLLOW) {
-                    break;
+                    return Ok(());
                 }
             }
             Type::Error => {
@@ -193,7 +193,9 @@ async fn read_continuation(
             }
         };
     }
-    Ok(())
+    Err(TChannelError::Error(
+        "Received incomplete message".to_string(),
+    ))
 }
 
 fn verify_args(call_args: &mut CallArgs) -> CodecResult<&mut VecDeque<Option<Bytes>>> {
-- 
2.43.0


From 7560f8d94f7da722ade69dee8057e5442c834713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:46 +0000
Subject: [PATCH 09/18] fix: refuse to encode a frame with payload not fitting
 frame length field

---
 src/frames/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/frames/mod.rs b/src/frames/mod.rs
index 3d358bb..5ca087f 100644
--- a/src/frames/mod.rs
+++ b/src/frames/mod.rs
@@ -83,7 +83,8 @@ impl Encoder<TFrameId> for TFrameIdCodec {
 
     fn encode(&mut self, item: TFrameId, dst: &mut BytesMut) -> Result<(), Self::Error> {
         let frame = item.frame();
-        let len = frame.size() as u16 + FRAME_HEADER_LENGTH;
+        let len = u16::try_from(frame.size() + FRAME_HEADER_LENGTH as usize)
+            .map_err(|_| CodecError::Error(format!("Frame too long: {}", frame.size())))?;
         trace!("Encoding TFrame (id {}, len {})", item.id(), frame.size());
         dst.reserve(len as usize);
         dst.put_u16(len);
-- 
2.43.0


From 977e12e532e967b6a32087d083eb2e6329cae6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:29 +0000
Subject: [PATCH 10/18] fix: remove pending entry of a call which failed or got
 dropped

---
 src/connection/mod.rs | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index 47931fc..a62a31e 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -8,13 +8,12 @@ use log::{debug, error};
 use std::collections::HashMap;
 use std::fmt::Debug;
 use std::sync::atomic::{AtomicU32, Ordering};
-use std::sync::Arc;
+use std::sync::{Arc, PoisonError, RwLock};
 use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
 use tokio::net::TcpStream;
 use tokio::sync::mpsc;
 use tokio::sync::mpsc::{Receiver, Sender};
 use tokio::sync::Mutex;
-use tokio::sync::RwLock;
 use tokio::task::JoinHandle;
 use tokio_stream::wrappers::ReceiverStream;
 use tokio_util::codec::{FramedRead, FramedWrite};
@@ -45,6 +44,13 @@ impl FrameOutput {
     }
 }
 
+impl Drop for FrameOutput {
+    // Message may get dropped before it is closed (e.g. cancelled call).
+    fn drop(&mut self) {
+        self.frames_dispatcher.remove(&self.message_id);
+    }
+}
+
 /// Pending Message Ids mapped to Senders of frames for given message Id.
 #[derive(Debug, Default, new)]
 pub struct FramesDispatcher {
@@ -58,23 +64,30 @@ impl FramesDispatcher {
     /// Dispatches frame to channel.
     /// Returns `Receiver` of new channel if it got created for given frame.
     pub async fn dispatch(&self, frame: TFrameId) -> ConnectionResult<Option<FrameInput>> {
-        let senders = self.senders.read().await;
-        if let Some(sender) = senders.get(frame.id()) {
+        if let Some(sender) = self.sender(frame.id()) {
             debug!("Dispatching frame (id {}) to found sender.", frame.id());
             return Ok(sender.send(frame).map_ok(|_| None).await?);
         }
-        std::mem::drop(senders);
         //TODO it will return error on check if it got concurrently inserted
         self.dispatch_first(frame).map_ok(Some).await
     }
 
     pub async fn deregister(&self, id: &u32) -> Option<Sender<TFrameId>> {
-        let mut channels = self.senders.write().await;
+        self.remove(id)
+    }
+
+    fn remove(&self, id: &u32) -> Option<Sender<TFrameId>> {
+        let mut channels = self.senders.write().unwrap_or_else(PoisonError::into_inner);
         channels.remove(id)
     }
 
+    fn sender(&self, id: &u32) -> Option<Sender<TFrameId>> {
+        let senders = self.senders.read().unwrap_or_else(PoisonError::into_inner);
+        senders.get(id).cloned()
+    }
+
     pub async fn register(&self, id: u32, sender: Sender<TFrameId>) -> ConnectionResult<()> {
-        let mut channels = self.senders.write().await;
+        let mut channels = self.senders.write().unwrap_or_else(PoisonError::into_inner);
         if channels.contains_key(&id) {
             debug!("Sender for id {} already exists", id);
             return Err(ConnectionError::Error(format!("Duplicated id: {}.", id)));
@@ -86,22 +99,16 @@ impl FramesDispatcher {
     async fn dispatch_first(&self, frame: TFrameId) -> ConnectionResult<Receiver<TFrameId>> {
         let id = *frame.id();
         debug!("Received frame with id: {}", id);
-        let mut senders = self.senders.write().await;
-        if let Some(_sender) = senders.get(&id) {
-            let msg = format!("Sender for id {} exists", id);
-            return Err(ConnectionError::Error(msg));
-        }
         let (sender, receiver) = mpsc::channel::<TFrameId>(self.buffer_size);
+        self.register(id, sender.clone()).await?;
         sender.send(frame).await?;
-        senders.insert(id, sender);
         Ok(receiver)
     }
 
     pub async fn dispatch_following(&self, frame: TFrameId) -> ConnectionResult<()> {
         let id = *frame.id();
         debug!("Received frame with id: {}", id);
-        let senders = self.senders.read().await;
-        if let Some(sender) = senders.get(&id) {
+        if let Some(sender) = self.sender(&id) {
             return Ok(sender.send(frame).await?);
         }
         Err(ConnectionError::Error(format!("Id {} not found", id)))
-- 
2.43.0


From a314d2dbee2feb90819e4a9f292d687753c250c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:13 +0000
Subject: [PATCH 11/18] fix: fail pending and later calls of a lost connection
 instead of leaving them hanging

---
 src/connection/mod.rs  | 35 +++++++++++++++++++++++++++++++----
 src/connection/pool.rs |  6 +++---
 2 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/src/connection/mod.rs b/src/connection/mod.rs
index a62a31e..eafa5ae 100644
--- a/src/connection/mod.rs
+++ b/src/connection/mod.rs
@@ -7,7 +7,7 @@ use futures::{future, StreamExt};
 use log::{debug, error};
 use std::collections::HashMap;
 use std::fmt::Debug;
-use std::sync::atomic::{AtomicU32, Ordering};
+use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};
 use std::sync::{Arc, PoisonError, RwLock};
 use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
 use tokio::net::TcpStream;
@@ -56,6 +56,8 @@ impl Drop for FrameOutput {
 pub struct FramesDispatcher {
     #[new(default)]
     senders: RwLock<HashMap<u32, Sender<TFrameId>>>,
+    #[new(default)]
+    closed: AtomicBool,
     buffer_size: usize,
 }
 
@@ -88,6 +90,9 @@ impl FramesDispatcher {
 
     pub async fn register(&self, id: u32, sender: Sender<TFrameId>) -> ConnectionResult<()> {
         let mut channels = self.senders.write().unwrap_or_else(PoisonError::into_inner);
+        if self.is_closed() {
+            return Err(ConnectionError::Error("Connection closed".to_string()));
+        }
         if channels.contains_key(&id) {
             debug!("Sender for id {} already exists", id);
             return Err(ConnectionError::Error(format!("Duplicated id: {}.", id)));
@@ -96,6 +101,18 @@ impl FramesDispatcher {
         Ok(())
     }
 
+    /// Drops senders of all pending messages (their receivers will not get any more frames)
+    /// and rejects new ones.
+    pub fn close(&self) {
+        let mut channels = self.senders.write().unwrap_or_else(PoisonError::into_inner);
+        self.closed.store(true, Ordering::SeqCst);
+        channels.clear();
+    }
+
+    pub fn is_closed(&self) -> bool {
+        self.closed.load(Ordering::SeqCst)
+    }
+
     async fn dispatch_first(&self, frame: TFrameId) -> ConnectionResult<Receiver<TFrameId>> {
         let id = *frame.id();
         debug!("Received frame with id: {}", id);
@@ -164,6 +181,10 @@ impl Connection {
         Ok((receiver, frame_output))
     }
 
+    pub fn is_closed(&self) -> bool {
+        self.pending_ids.is_closed() || self.sender.is_closed()
+    }
+
     fn next_message_id(&self) -> u32 {
         self.next_message_id.fetch_add(1, Ordering::Relaxed)
     }
@@ -196,22 +217,27 @@ impl FrameSender {
         debug!("Starting FrameSender");
         receiver_stream
             .ready_chunks(self.buffer_size)
-            .for_each(|frames| self.send_frames(frames))
+            .map(Ok)
+            .try_for_each(|frames| self.send_frames(frames))
             .await
+            .unwrap_or_else(|err| error!("Stopping FrameSender: {}", err))
     }
 
-    async fn send_frames(&self, frames: Vec<TFrameId>) {
+    async fn send_frames(&self, frames: Vec<TFrameId>) -> CodecResult<()> {
         let mut framed_write = self.framed_write.lock().await;
         for frame in frames {
             debug!("Writing frame (id: {})", frame.id());
             if let Err(err) = framed_write.send(frame).await {
                 error!("Failed to write frame: {}", err);
+                return Err(err);
             }
         }
         debug!("Flushing frames");
         if let Err(err) = framed_write.flush().await {
             error!("Failed to flush frames: {}", err);
+            return Err(err);
         }
+        Ok(())
     }
 }
 
@@ -229,7 +255,8 @@ impl FrameReceiver {
             frame_receiver
                 .run(framed_read)
                 .then(|_| async { debug!("FrameReceiver stopped") })
-                .await
+                .await;
+            frame_receiver.frame_senders.close();
         })
     }
 
diff --git a/src/connection/pool.rs b/src/connection/pool.rs
index 7cdf9a0..0f24df0 100644
--- a/src/connection/pool.rs
+++ b/src/connection/pool.rs
@@ -102,9 +102,9 @@ impl bb8::ManageConnection for ConnectionManager {
         ping(conn).await
     }
 
-    fn has_broken(&self, _conn: &mut Self::Connection) -> bool {
-        debug!("Has broken? (not implemented)");
-        false
+    fn has_broken(&self, conn: &mut Self::Connection) -> bool {
+        debug!("Has broken?");
+        conn.is_closed()
     }
 }
 
-- 
2.43.0


From 7e8b85e735ec0281e8f98b68ce14e107a8e9ec73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:14 +0000
Subject: [PATCH 12/18] fix: keep server accepting connections after a failed
 accept

---
 src/server.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index 6bf76ca..8822681 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -46,7 +46,14 @@ impl Server {
         debug!("Starting server on {}", config.server_address);
         let listener = TcpListener::bind(config.server_address).await?;
         loop {
-            let (stream, addr) = listener.accept().await?;
+            let (stream, addr) = match listener.accept().await {
+                Ok(accepted) => accepted,
+                Err(err) => {
+                    // e.g. connection aborted by client, it must not stop the server
+                    error!("Failed to accept connection: {}", err);
+                    continue;
+                }
+            };
             debug!("Handling incoming connection from {}", addr);
             let subchannels = subchannels.clone();
             let mut server =
-- 
2.43.0


From 0d9345536a0a8f7fffea29868d8031ca40d92492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:49 +0000
Subject: [PATCH 13/18] fix: answer a failed request with an error frame
 instead of closing the connection

---
 src/server.rs | 44 +++++++++++++++++++++++++++++++-------------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 8822681..ffb2ecf 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -9,7 +9,6 @@ use crate::frames::payloads::{Codec, CodecResult, ErrorCode, ErrorMsg, PROTOCOL_
 use crate::frames::payloads::{Init, Tracing};
 use crate::frames::{TFrame, TFrameId, TFrameIdCodec, Type};
 use crate::SubChannel;
-use futures::TryFutureExt;
 use futures::{self, SinkExt, StreamExt, TryStreamExt};
 use log::debug;
 use std::collections::HashMap;
@@ -21,6 +20,9 @@ use tokio::sync::mpsc;
 use tokio::sync::mpsc::Sender;
 use tokio_util::codec::{FramedRead, FramedWrite};
 
+/// Keeps error message inside of a single frame.
+const MAX_ERROR_MSG_CHARS: usize = 4096;
+
 #[derive(Debug)]
 pub struct Server {
     subchannels: SharedSubChannels,
@@ -91,15 +93,25 @@ impl Server {
 
     async fn dispatch_frame(&self, frame: TFrameId) -> TResult<Option<(u32, FrameInput)>> {
         let id = *frame.id();
-        self.frame_dispatchers
-            .dispatch(frame)
-            .await
-            .map(|receiver_option| receiver_option.map(|receiver| (id, receiver)))
-            //TODO Figure out tracing.
-            .map_err(|err| {
+        let dispatched = match frame.frame().frame_type() {
+            Type::CallRequest => self.frame_dispatchers.dispatch(frame).await,
+            Type::CallRequestContinue => self
+                .frame_dispatchers
+                .dispatch_following(frame)
+                .await
+                .map(|_| None),
+            frame_type => {
+                debug!("Ignoring frame {:?} (id {})", frame_type, id);
+                Ok(None)
+            }
+        };
+        // Failure concerns only a message with given id (e.g. next frame of already failed one).
+        Ok(dispatched
+            .unwrap_or_else(|err| {
                 debug!("Err while dispatching frame: {}", err.to_string());
-                TChannelError::from(ConnectionError::from((id, err, Tracing::default())))
+                None
             })
+            .map(|receiver| (id, receiver)))
     }
 
     async fn handle_init_handshake(
@@ -165,15 +177,20 @@ struct FrameHandler {
 impl FrameHandler {
     pub async fn handle(&self, id: u32, frame_input: FrameInput) -> TResult<()> {
         debug!("Handling message (id {})", &id);
-        self.handle_input(id, frame_input)
-            .and_then(|frames| self.send_frames(frames))
-            .await
+        let frames = match self.handle_input(id, frame_input).await {
+            Ok(frames) => frames,
+            Err(err) => {
+                debug!("Failed to handle message (id {}): {}", id, err);
+                vec![self.to_error_frame(ErrorCode::UnexpectedError, err.to_string(), id)?]
+            }
+        };
+        self.send_frames(frames).await
     }
 
     async fn handle_input(&self, id: u32, frame_input: FrameInput) -> TResult<Vec<TFrameId>> {
-        let (request_fields, message_args) =
-            RequestDefragmenter::new(frame_input).read_request().await?;
+        let request = RequestDefragmenter::new(frame_input).read_request().await;
         self.frame_dispatchers.deregister(&id).await;
+        let (request_fields, message_args) = request?;
         let subchannel = self.get_subchannel(request_fields.service()).await?;
         let (response_code, response_args) = subchannel.handle(message_args).await?;
         match ResponseFragmenter::new(request_fields.service(), response_code, response_args)
@@ -216,6 +233,7 @@ impl FrameHandler {
     fn to_error_frame(&self, code: ErrorCode, msg: String, id: u32) -> CodecResult<TFrameId> {
         //TODO add meaningful tracing
         let tracing = Tracing::default();
+        let msg = msg.chars().take(MAX_ERROR_MSG_CHARS).collect();
         let err = ErrorMsg::new(code, tracing, msg);
         let frame = TFrame::new(Type::Error, err.encode_bytes()?);
         Ok(TFrameId::new(id, frame))
-- 
2.43.0


From 1df5642694ec37e0b8fde5fd6bd88a3d4c5706f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:54 +0000
Subject: [PATCH 14/18] fix: keep reading frames of incomplete requests when
 all server tasks are taken

---
 src/server.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index ffb2ecf..7e2d66a 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -18,8 +18,12 @@ use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
 use tokio::net::{TcpListener, TcpStream};
 use tokio::sync::mpsc;
 use tokio::sync::mpsc::Sender;
+use tokio::sync::Semaphore;
 use tokio_util::codec::{FramedRead, FramedWrite};
 
+/// Limit of `Semaphore` permits.
+const MAX_SERVER_TASKS: usize = usize::MAX >> 3;
+
 /// Keeps error message inside of a single frame.
 const MAX_ERROR_MSG_CHARS: usize = 4096;
 
@@ -81,12 +85,17 @@ impl Server {
             self.subchannels.clone(),
             self.frame_dispatchers.clone(),
             sender,
+            Semaphore::new(match self.server_tasks {
+                0 => MAX_SERVER_TASKS, // no limit
+                server_tasks => server_tasks.min(MAX_SERVER_TASKS),
+            }),
         );
 
         framed_read
             .map_err(TChannelError::CodecError)
             .try_filter_map(|frame| self.dispatch_frame(frame))
-            .try_for_each_concurrent(self.server_tasks, |(id, frames)| handler.handle(id, frames))
+            // Handler limits number of tasks. Limiting it here would stop reading of frames.
+            .try_for_each_concurrent(None, |(id, frames)| handler.handle(id, frames))
             .await
         //TODO send fatal protocol error when it fails
     }
@@ -172,6 +181,7 @@ struct FrameHandler {
     subchannels: SharedSubChannels,
     frame_dispatchers: Arc<FramesDispatcher>,
     sender: Sender<TFrameId>,
+    tasks: Semaphore,
 }
 
 impl FrameHandler {
@@ -191,6 +201,7 @@ impl FrameHandler {
         let request = RequestDefragmenter::new(frame_input).read_request().await;
         self.frame_dispatchers.deregister(&id).await;
         let (request_fields, message_args) = request?;
+        let _task = self.tasks.acquire().await.map_err(|err| err.to_string())?;
         let subchannel = self.get_subchannel(request_fields.service()).await?;
         let (response_code, response_args) = subchannel.handle(message_args).await?;
         match ResponseFragmenter::new(request_fields.service(), response_code, response_args)
-- 
2.43.0


From fd23a981e3097e1001fec063dfe0b8f430fbed01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:58 +0000
Subject: [PATCH 15/18] fix: stop waiting for frames of incomplete requests of
 a disconnected client

---
 src/server.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index 7e2d66a..e808ff2 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -9,11 +9,12 @@ use crate::frames::payloads::{Codec, CodecResult, ErrorCode, ErrorMsg, PROTOCOL_
 use crate::frames::payloads::{Init, Tracing};
 use crate::frames::{TFrame, TFrameId, TFrameIdCodec, Type};
 use crate::SubChannel;
-use futures::{self, SinkExt, StreamExt, TryStreamExt};
+use futures::{self, stream, SinkExt, StreamExt, TryStreamExt};
 use log::debug;
 use std::collections::HashMap;
 use std::fmt::Debug;
 use std::sync::Arc;
+use std::task::Poll;
 use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
 use tokio::net::{TcpListener, TcpStream};
 use tokio::sync::mpsc;
@@ -94,6 +95,11 @@ impl Server {
         framed_read
             .map_err(TChannelError::CodecError)
             .try_filter_map(|frame| self.dispatch_frame(frame))
+            .chain(stream::poll_fn(|_| {
+                // Client is gone. Remaining frames of incomplete requests will not arrive.
+                self.frame_dispatchers.close();
+                Poll::Ready(None)
+            }))
             // Handler limits number of tasks. Limiting it here would stop reading of frames.
             .try_for_each_concurrent(None, |(id, frames)| handler.handle(id, frames))
             .await
-- 
2.43.0


From 6255ebe86cd1e3a4c3a9d9f4ffa0e1b3a7a295d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:26 +0000
Subject: [PATCH 16/18] fix: answer ping requests

---
 src/server.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index e808ff2..a711a37 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -9,6 +9,7 @@ use crate::frames::payloads::{Codec, CodecResult, ErrorCode, ErrorMsg, PROTOCOL_
 use crate::frames::payloads::{Init, Tracing};
 use crate::frames::{TFrame, TFrameId, TFrameIdCodec, Type};
 use crate::SubChannel;
+use bytes::Bytes;
 use futures::{self, stream, SinkExt, StreamExt, TryStreamExt};
 use log::debug;
 use std::collections::HashMap;
@@ -94,7 +95,7 @@ impl Server {
 
         framed_read
             .map_err(TChannelError::CodecError)
-            .try_filter_map(|frame| self.dispatch_frame(frame))
+            .try_filter_map(|frame| self.dispatch_frame(frame, &handler))
             .chain(stream::poll_fn(|_| {
                 // Client is gone. Remaining frames of incomplete requests will not arrive.
                 self.frame_dispatchers.close();
@@ -106,7 +107,11 @@ impl Server {
         //TODO send fatal protocol error when it fails
     }
 
-    async fn dispatch_frame(&self, frame: TFrameId) -> TResult<Option<(u32, FrameInput)>> {
+    async fn dispatch_frame(
+        &self,
+        frame: TFrameId,
+        handler: &FrameHandler,
+    ) -> TResult<Option<(u32, FrameInput)>> {
         let id = *frame.id();
         let dispatched = match frame.frame().frame_type() {
             Type::CallRequest => self.frame_dispatchers.dispatch(frame).await,
@@ -115,6 +120,13 @@ impl Server {
                 .dispatch_following(frame)
                 .await
                 .map(|_| None),
+            Type::PingRequest => {
+                let ping_res = TFrame::new(Type::PingResponse, Bytes::new());
+                handler
+                    .send_frames(vec![TFrameId::new(id, ping_res)])
+                    .await?;
+                Ok(None)
+            }
             frame_type => {
                 debug!("Ignoring frame {:?} (id {})", frame_type, id);
                 Ok(None)
-- 
2.43.0


From a90782c80e3265f385092123cc45e0144fa60857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:56 +0000
Subject: [PATCH 17/18] fix: pass code and message of a received error frame to
 the caller

---
 src/defragmentation.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/defragmentation.rs b/src/defragmentation.rs
index 48cde1e..41cd234 100644
--- a/src/defragmentation.rs
+++ b/src/defragmentation.rs
@@ -1,10 +1,10 @@
 use crate::channel::TResult;
 use crate::connection::FrameInput;
-use crate::errors::{CodecError, TChannelError};
+use crate::errors::{CodecError, ConnectionError, TChannelError};
 use crate::frames::headers::{ArgSchemeValue, TransportHeaderKey};
 use crate::frames::payloads::{
     Call, CallArgs, CallContinue, CallFields, CallRequest, CallRequestFields, CallResponse,
-    CallResponseFields, ChecksumType, Codec, CodecResult, Flags,
+    CallResponseFields, ChecksumType, Codec, CodecResult, ErrorMsg, Flags,
 };
 use crate::frames::Type;
 use crate::messages::args::{MessageArgs, ResponseCode};
@@ -115,12 +115,16 @@ impl Defragmenter {
     ) -> TResult<(FIELDS, Flags)> {
         if let Some(frame_id) = self.frame_input.recv().await {
             debug!("Reading beginning frame {}", frame_id.id());
+            let id = *frame_id.id();
             let mut frame = frame_id.frame;
             if frame_type == frame.frame_type {
                 let mut frame = decode(frame.payload_mut())?; //ugh
                 verify_args(frame.args()).map(|args| args_defragmenter.add(args))?;
                 let flags = frame.flags();
                 Ok((frame.fields(), flags))
+            } else if frame.frame_type == Type::Error {
+                let error = ErrorMsg::decode(frame.payload_mut())?;
+                Err(ConnectionError::MessageErrorId(error, id).into())
             } else {
                 Err(TChannelError::Error(format!(
                     "Expected '{:?}' got '{:?}'",
@@ -167,6 +171,7 @@ async fn read_continuation(
 ) -> TResult<()> {
     debug!("Reading continuation");
     while let Some(frame_id) = frame_input.recv().await {
+        let id = *frame_id.id();
         let mut frame = frame_id.frame;
         match frame.frame_type() {
             Type::CallResponseContinue | Type::CallRequestContinue => {
@@ -179,10 +184,8 @@ async fn read_continuation(
             }
             Type::Error => {
                 debug!("Transport error: {:?}", frame);
-                return Err(TChannelError::Error(format!(
-                    "Transport error: {:?}",
-                    frame
-                )));
+                let error = ErrorMsg::decode(frame.payload_mut())?;
+                return Err(ConnectionError::MessageErrorId(error, id).into());
             }
             frame_type => {
                 debug!("Unexpected frame: {:?}", frame);
-- 
2.43.0


From 968557856ab3abeb8943f5f908732fa475f2eddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:16 +0000
Subject: [PATCH 18/18] fix: allow starting a server again after the previous
 one ended by itself

---
 src/channel.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/channel.rs b/src/channel.rs
index 9199598..84a4845 100644
--- a/src/channel.rs
+++ b/src/channel.rs
@@ -4,6 +4,7 @@ use crate::connection::ConnectionResult;
 use crate::errors::TChannelError;
 use crate::server::Server;
 use crate::SubChannel;
+use futures::FutureExt;
 use log::debug;
 use std::collections::HashMap;
 use std::ops::Deref;
@@ -43,13 +44,16 @@ impl TChannel {
     /// Starts server task.
     pub fn start_server(&self) -> TResult<()> {
         let mut handle_lock = self.server_handle.lock().unwrap();
-        if handle_lock.is_none() {
-            debug!("Starting server"); //TODO lie
-            let handle = tokio::spawn(Server::run(self.config.clone(), self.subchannels.clone()));
-            *handle_lock = Some(handle);
-        } else {
-            return Err(TChannelError::Error("Server already started".to_string()));
+        if let Some(handle) = handle_lock.as_mut() {
+            match handle.now_or_never() {
+                // e.g. it could not bind its address, which must not prevent next start
+                Some(ended) => debug!("Previously started server ended: {:?}", ended),
+                None => return Err(TChannelError::Error("Server already started".to_string())),
+            }
         }
+        debug!("Starting server"); //TODO lie
+        let handle = tokio::spawn(Server::run(self.config.clone(), self.subchannels.clone()));
+        *handle_lock = Some(handle);
         Ok(())
     }
 
-- 
2.43.0

