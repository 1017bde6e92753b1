From 9ba2669b51be676e3ea816de986937a951d56ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:41 +0000
Subject: [PATCH 01/13] fix: wake the connection when a full send buffer drains

With the send buffer full, the outbound channel is not polled. If the same poll then
flushed every buffer, the task slept with no waker registered for outbound messages.
---
 protosocket-connection/src/connection.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/protosocket-connection/src/connection.rs b/protosocket-connection/src/connection.rs
index 36e817c..e9b65d0 100644
--- a/protosocket-connection/src/connection.rs
+++ b/protosocket-connection/src/connection.rs
@@ -532,6 +532,7 @@ where
     }
 
     fn poll_outbound(mut self: Pin<&mut Self>, context: &mut Context<'_>) -> Option<Poll<()>> {
+        let start_len = self.send_buffer.len();
         loop {
             break if !self.send_buffer.is_empty() {
                 // the write half of the stream is only considered for readiness when there is something to write.
@@ -571,6 +572,11 @@ where
                 log::trace!("nothing to send");
             };
         }
+        if self.send_buffer.len() < start_len {
+            // The outbound message channel is not polled while the send buffer is full, so the task may not be
+            // registered for it. Now that there is room, make sure the task gets another round to look.
+            context.waker().wake_by_ref();
+        }
         None
     }
 }
-- 
2.43.0


From b06f9744a95ed44166be6f4b4c1748e3330027be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:41 +0000
Subject: [PATCH 02/13] fix: flush serialized messages before closing when all
 senders are dropped

Messages already taken from the outbound channel were discarded when the channel
closed while the socket was not writable.
---
 protosocket-connection/src/connection.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/protosocket-connection/src/connection.rs b/protosocket-connection/src/connection.rs
index e9b65d0..99e6b25 100644
--- a/protosocket-connection/src/connection.rs
+++ b/protosocket-connection/src/connection.rs
@@ -321,6 +321,10 @@ where
                                 Some(next) => next,
                                 None => {
                                     assert_eq!(0, count);
+                                    if !self.send_buffer.is_empty() {
+                                        log::debug!("outbound message channel was closed - flushing {self}");
+                                        break;
+                                    }
                                     log::info!("outbound message channel was closed");
                                     return Poll::Ready(());
                                 }
-- 
2.43.0


From ba4a8398617ce366715cadadbd2b6257d1e16313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:41 +0000
Subject: [PATCH 03/13] fix: keep reading after a full receive buffer is
 drained without a whole message

The socket is not polled for readability while the receive buffer is full. When
decoding then made room without producing a message (a rotated partial message or a
skipped message), the task slept with no waker registered. A skip that could not
complete in a full buffer never made room at all.
---
 protosocket-connection/src/connection.rs | 34 +++++++++++++++++-------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/protosocket-connection/src/connection.rs b/protosocket-connection/src/connection.rs
index 99e6b25..7311a24 100644
--- a/protosocket-connection/src/connection.rs
+++ b/protosocket-connection/src/connection.rs
@@ -216,14 +216,7 @@ where
                                 length,
                                 next_message_size
                             );
-                            self.receive_buffer_swap.clear();
-                            self.receive_buffer_swap.extend_from_slice(
-                                &self.receive_buffer[self.receive_buffer_start_offset
-                                    ..self.receive_buffer_slice_end],
-                            );
-                            std::mem::swap(&mut self.receive_buffer, &mut self.receive_buffer_swap);
-                            self.receive_buffer_start_offset = 0;
-                            self.receive_buffer_slice_end = length;
+                            self.rotate_receive_buffer();
                         }
                         log::debug!("waiting for the next message of length {next_message_size}");
                         break ReadBufferState::WaitingForMore;
@@ -252,9 +245,31 @@ where
             self.receive_buffer_start_offset = 0;
             self.receive_buffer_slice_end = 0;
         }
+        if matches!(state, ReadBufferState::WaitingForMore)
+            && self.max_buffer_length <= self.receive_buffer_slice_end
+        {
+            // The buffer is full, so nothing more would be read. Make room or the message can never be completed.
+            self.rotate_receive_buffer();
+            if self.max_buffer_length <= self.receive_buffer_slice_end {
+                log::error!("receive buffer is full of an incomplete message. Resetting connection {self}");
+                return ReadBufferState::Disconnected;
+            }
+        }
         state
     }
 
+    /// move the unconsumed bytes to the front of the receive buffer
+    fn rotate_receive_buffer(&mut self) {
+        let length = self.receive_buffer_slice_end - self.receive_buffer_start_offset;
+        self.receive_buffer_swap.clear();
+        self.receive_buffer_swap.extend_from_slice(
+            &self.receive_buffer[self.receive_buffer_start_offset..self.receive_buffer_slice_end],
+        );
+        std::mem::swap(&mut self.receive_buffer, &mut self.receive_buffer_swap);
+        self.receive_buffer_start_offset = 0;
+        self.receive_buffer_slice_end = length;
+    }
+
     /// read from the TcpStream
     fn read_from_stream(&mut self) -> ReadBufferState {
         match self
@@ -492,11 +507,12 @@ where
             return None;
         }
         let start_len = self.inbound_messages.len();
+        let was_full = self.max_buffer_length <= self.receive_buffer_slice_end;
         match self.read_inbound_messages_into_read_queue() {
             ReadBufferState::WaitingForMore => {
                 log::trace!("read queue is still open");
                 let new_len = self.inbound_messages.len();
-                if start_len != new_len {
+                if was_full || start_len != new_len {
                     // If you don't wake here, then when the read side gets full, you won't be registered for network
                     // activity wakes.
                     // You can skip this wake when you are deserializing a large message, because that is waiting
-- 
2.43.0


From 3427262b8b68803d5ab64aebdfef50726f653065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:41 +0000
Subject: [PATCH 04/13] fix: deliver received messages before ending the
 connection

Messages read in the same poll as end of stream, and messages decoded ahead of an
invalid or oversized one, were dropped without reaching the reactor.
---
 protosocket-connection/src/connection.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/protosocket-connection/src/connection.rs b/protosocket-connection/src/connection.rs
index 7311a24..b5a0a13 100644
--- a/protosocket-connection/src/connection.rs
+++ b/protosocket-connection/src/connection.rs
@@ -69,11 +69,15 @@ impl<Bindings: ConnectionBindings> Future for Connection<Bindings> {
     fn poll(mut self: Pin<&mut Self>, context: &mut Context<'_>) -> Poll<Self::Output> {
         // Step 1: Check if there's space in the receive buffer and the stream is ready for reading
         if let Some(early_out) = self.as_mut().poll_receive(context) {
+            // whatever was completely received before the connection ended still counts
+            self.drain_received_messages();
             return early_out;
         }
 
         // Step 2: Deserialize read bytes into messages
         if let Some(early_out) = self.as_mut().poll_deserialize(context) {
+            // messages deserialized ahead of the broken one still count
+            let _ = self.poll_react();
             return early_out;
         }
 
@@ -538,6 +542,16 @@ where
         None
     }
 
+    /// deliver the messages that are left in the receive buffer when the connection ends
+    fn drain_received_messages(&mut self) {
+        loop {
+            let state = self.read_inbound_messages_into_read_queue();
+            if self.poll_react().is_some() || !matches!(state, ReadBufferState::PartiallyConsumed) {
+                return;
+            }
+        }
+    }
+
     fn poll_react(&mut self) -> Option<Poll<()>> {
         let Self {
             reactor,
-- 
2.43.0


From 10d44505b65dae231b700f2b303a1e9a7d8065af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:17:51 +0000
Subject: [PATCH 05/13] fix: release calls that the reactor never picked up
 when the connection goes away

A call registered after the last inbound batch sits in the submission map, which
clients share and keep alive. When the connection was dropped its completion was
never dropped, so the caller waited forever.
---
 .../src/client/reactor/completion_reactor.rs          |  3 +++
 .../src/client/reactor/completion_registry.rs         | 11 +++++++++++
 2 files changed, 14 insertions(+)

diff --git a/protosocket-rpc/src/client/reactor/completion_reactor.rs b/protosocket-rpc/src/client/reactor/completion_reactor.rs
index febe6d5..4389c6b 100644
--- a/protosocket-rpc/src/client/reactor/completion_reactor.rs
+++ b/protosocket-rpc/src/client/reactor/completion_reactor.rs
@@ -71,6 +71,9 @@ where
     fn drop(&mut self) {
         self.is_alive
             .store(false, std::sync::atomic::Ordering::Release);
+        // Clients share the submission map, so it outlives this reactor. Nobody will
+        // complete what is left in it.
+        self.rpc_registry.abandon_new_rpcs();
     }
 }
 
diff --git a/protosocket-rpc/src/client/reactor/completion_registry.rs b/protosocket-rpc/src/client/reactor/completion_registry.rs
index 0764724..3accaa9 100644
--- a/protosocket-rpc/src/client/reactor/completion_registry.rs
+++ b/protosocket-rpc/src/client/reactor/completion_registry.rs
@@ -64,6 +64,17 @@ where
         }
     }
 
+    /// Drop the completions that were registered but not yet picked up, to release their callers
+    pub fn abandon_new_rpcs(&mut self) {
+        let abandoned = std::mem::take(
+            &mut *self
+                .in_flight_submission
+                .lock()
+                .expect("brief internal mutex must work"),
+        );
+        drop(abandoned);
+    }
+
     pub fn deregister(&mut self, message_id: u64) {
         self.in_flight.remove(&message_id);
     }
-- 
2.43.0


From 4f1908025fd7681f451a5d99c69ac63bed9e91f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:31 +0000
Subject: [PATCH 06/13] fix: a cancelled rpc does not abort a newer rpc that
 reuses its id

---
 protosocket-rpc/src/server/connection_server.rs | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/protosocket-rpc/src/server/connection_server.rs b/protosocket-rpc/src/server/connection_server.rs
index 2238136..39f627a 100644
--- a/protosocket-rpc/src/server/connection_server.rs
+++ b/protosocket-rpc/src/server/connection_server.rs
@@ -151,16 +151,10 @@ where
                         Some((id, AbortableState::Abort)) => {
                             // This happens when the upstream stuff is dropped and there are no messages that can be produced. We'll send a cancellation.
                             log::debug!("{id} unary rpc abort");
-                            if let Some(abort) = self.aborts.remove(&id) {
-                                abort.abort();
-                            }
                         }
                         Some((id, AbortableState::Aborted)) => {
                             // This happens when the upstream stuff is dropped and there are no messages that can be produced. We'll send a cancellation.
                             log::debug!("{id} unary rpc done");
-                            if let Some(abort) = self.aborts.remove(&id) {
-                                abort.mark_aborted();
-                            }
                         }
                         None => {
                             // nothing to wait for
@@ -245,15 +239,9 @@ where
                         Some((id, AbortableState::Abort)) => {
                             // This happens when the upstream stuff is dropped and there are no messages that can be produced. We'll send a cancellation.
                             log::debug!("{id} streaming rpc abort");
-                            if let Some(abort) = self.aborts.remove(&id) {
-                                abort.abort();
-                            }
                         }
                         Some((id, AbortableState::Aborted)) => {
                             log::debug!("{id} streaming rpc done");
-                            if let Some(abort) = self.aborts.remove(&id) {
-                                abort.mark_aborted();
-                            }
                         }
                         None => {
                             // nothing to wait for
-- 
2.43.0


From d2ab11f244737f829f16b8e11c5156016715ff25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:58 +0000
Subject: [PATCH 07/13] fix: a socket that cannot be configured does not end
 the server

---
 protosocket-server/src/connection_server.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/protosocket-server/src/connection_server.rs b/protosocket-server/src/connection_server.rs
index 9eaed3c..0a585e6 100644
--- a/protosocket-server/src/connection_server.rs
+++ b/protosocket-server/src/connection_server.rs
@@ -96,7 +96,10 @@ impl<Connector: ServerConnector> Future for ProtosocketServer<Connector> {
             break match self.listener.poll_accept(context) {
                 Poll::Ready(result) => match result {
                     Ok((stream, address)) => {
-                        stream.set_nodelay(true)?;
+                        if let Err(e) = stream.set_nodelay(true) {
+                            log::error!("failed to configure connection: {e:?}");
+                            continue;
+                        }
                         let (outbound_submission_queue, outbound_messages) =
                             mpsc::channel(self.max_queued_outbound_messages);
                         let reactor = self
-- 
2.43.0


From 0dcff72826a938ebd1bfc205f6aa8af2b852a95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:58 +0000
Subject: [PATCH 08/13] fix: a socket that cannot be configured does not end
 the rpc server

---
 protosocket-rpc/src/server/socket_server.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/protosocket-rpc/src/server/socket_server.rs b/protosocket-rpc/src/server/socket_server.rs
index 3819a83..16a6708 100644
--- a/protosocket-rpc/src/server/socket_server.rs
+++ b/protosocket-rpc/src/server/socket_server.rs
@@ -70,7 +70,10 @@ where
             break match self.listener.poll_accept(context) {
                 Poll::Ready(result) => match result {
                     Ok((stream, address)) => {
-                        stream.set_nodelay(true)?;
+                        if let Err(e) = stream.set_nodelay(true) {
+                            log::error!("failed to configure connection: {e:?}");
+                            continue;
+                        }
                         let (submitter, inbound_messages) = RpcSubmitter::new();
                         let (outbound_messages, outbound_messages_receiver) =
                             mpsc::channel(self.max_queued_outbound_messages);
-- 
2.43.0


From fa375549bbd64838e8db0150fbdbed0e3cfdeec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:20 +0000
Subject: [PATCH 09/13] fix: a huge or padded prost length delimiter does not
 overflow or break the message

---
 protosocket-prost/src/prost_serializer.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/protosocket-prost/src/prost_serializer.rs b/protosocket-prost/src/prost_serializer.rs
index b03236a..532ed81 100644
--- a/protosocket-prost/src/prost_serializer.rs
+++ b/protosocket-prost/src/prost_serializer.rs
@@ -38,10 +38,11 @@ where
         &mut self,
         mut buffer: impl bytes::Buf,
     ) -> std::result::Result<(usize, Self::Message), DeserializeError> {
-        match prost::decode_length_delimiter(buffer.chunk()) {
+        let mut after_delimiter = buffer.chunk();
+        match prost::decode_length_delimiter(&mut after_delimiter) {
             Ok(message_length) => {
-                if buffer.remaining() < message_length + prost::length_delimiter_len(message_length)
-                {
+                let delimiter_length = buffer.chunk().len() - after_delimiter.len();
+                if buffer.remaining() - delimiter_length < message_length {
                     return Err(DeserializeError::IncompleteBuffer {
                         next_message_size: message_length,
                     });
-- 
2.43.0


From 245aa6d1d5b98f6126b7f51e9823afb8e4fa24b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:20 +0000
Subject: [PATCH 10/13] fix: reject an invalid prost length delimiter instead
 of waiting for more bytes

---
 protosocket-prost/src/prost_serializer.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/protosocket-prost/src/prost_serializer.rs b/protosocket-prost/src/prost_serializer.rs
index 532ed81..5189285 100644
--- a/protosocket-prost/src/prost_serializer.rs
+++ b/protosocket-prost/src/prost_serializer.rs
@@ -2,6 +2,9 @@ use std::marker::PhantomData;
 
 use protosocket::{DeserializeError, Deserializer, Serializer};
 
+/// A length delimiter is a varint, which has at most 10 bytes.
+const MAX_DELIMITER_LENGTH: usize = 10;
+
 /// A stateless implementation of protosocket's `Serializer` and `Deserializer`
 /// traits using `prost` for encoding and decoding protocol buffers messages.
 #[derive(Default, Debug)]
@@ -48,10 +51,14 @@ where
                     });
                 }
             }
+            Err(e) if MAX_DELIMITER_LENGTH <= buffer.chunk().len() => {
+                log::warn!("invalid length delimiter: {e:?}");
+                return Err(DeserializeError::InvalidBuffer);
+            }
             Err(e) => {
                 log::trace!("can't read a length delimiter {e:?}");
                 return Err(DeserializeError::IncompleteBuffer {
-                    next_message_size: 10,
+                    next_message_size: MAX_DELIMITER_LENGTH,
                 });
             }
         };
-- 
2.43.0


From ffb79e88bcd7c3fb92f7c8104b2070e282f15db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:27 +0000
Subject: [PATCH 11/13] fix: a huge messagepack length prefix does not overflow

---
 protosocket-messagepack/src/lib.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/protosocket-messagepack/src/lib.rs b/protosocket-messagepack/src/lib.rs
index c5ad82d..63b9e72 100644
--- a/protosocket-messagepack/src/lib.rs
+++ b/protosocket-messagepack/src/lib.rs
@@ -92,9 +92,10 @@ where
                 length
             }
         };
-        if start_remaining < (length + 5) as usize {
+        let frame_length = length as usize + 5;
+        if start_remaining < frame_length {
             return Err(protosocket::DeserializeError::IncompleteBuffer {
-                next_message_size: (length + 5) as usize,
+                next_message_size: frame_length,
             });
         }
         self.state = State::Waiting;
-- 
2.43.0


From 9a07153e9b2173ddd7a7f3ff7bbfdfc85f12b107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:27 +0000
Subject: [PATCH 12/13] fix: a messagepack message consumes exactly its frame

---
 protosocket-messagepack/src/lib.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/protosocket-messagepack/src/lib.rs b/protosocket-messagepack/src/lib.rs
index 63b9e72..360d42d 100644
--- a/protosocket-messagepack/src/lib.rs
+++ b/protosocket-messagepack/src/lib.rs
@@ -100,16 +100,15 @@ where
         }
         self.state = State::Waiting;
 
-        rmp_serde::decode::from_read(&mut reader)
+        // a message ends with its frame, whatever its own encoding says
+        rmp_serde::decode::from_read(reader.take(length as u64))
             .map_err(|e| {
                 log::error!("decode error length {length}: {e:?}");
                 protosocket::DeserializeError::InvalidBuffer
             })
             .map(|message| {
-                let buffer = reader.into_inner();
-                let length = start_remaining - buffer.remaining();
-                log::debug!("decoded {length}: {message:?}");
-                (length, message)
+                log::debug!("decoded {frame_length}: {message:?}");
+                (frame_length, message)
             })
     }
 }
-- 
2.43.0


From 20a0b970f16269cef1e188d1c13c01c83415f7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:32 +0000
Subject: [PATCH 13/13] fix: a message that serializes to nothing must not end
 the connection

An empty buffer in the write queue made the next write return 0, which is taken for
a closed stream. Such messages are complete without a write, so do not queue them.
---
 protosocket-connection/src/connection.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/protosocket-connection/src/connection.rs b/protosocket-connection/src/connection.rs
index b5a0a13..55304f0 100644
--- a/protosocket-connection/src/connection.rs
+++ b/protosocket-connection/src/connection.rs
@@ -315,15 +315,14 @@ where
 
     /// This serializes work-in-progress messages and moves them over into the write queue
     fn poll_serialize_outbound_messages(&mut self, context: &mut Context<'_>) -> Poll<()> {
-        let max_outbound = self.room_in_send_buffer();
-        if max_outbound == 0 {
+        if self.room_in_send_buffer() == 0 {
             log::debug!("send is full: {self}");
             // pending on a network status event
             return Poll::Pending;
         }
 
         let start_len = self.send_buffer.len();
-        for _ in 0..max_outbound {
+        while 0 < self.room_in_send_buffer() {
             let message = match self.outbound_message_buffer.pop() {
                 Some(next) => next,
                 None => {
@@ -366,6 +365,11 @@ where
                 );
                 return Poll::Ready(());
             }
+            if buffer.is_empty() {
+                // There is nothing to write for this message, and writing nothing looks like a closed stream.
+                self.serializer_buffers.push(buffer);
+                continue;
+            }
             log::trace!(
                 "serialized message and enqueueing outbound buffer: {}b",
                 buffer.len()
-- 
2.43.0

