From c3fa960363992d9f962523ded0254750537c2689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:45 +0000
Subject: [PATCH 1/6] fix: deliver messages of equal priority in the order they
 were sent

A BinaryHeap does not preserve insertion order for elements that compare as
equal, so messages of the same (e.g. the default) priority were handled in an
arbitrary order. Give every queued message a sequence number and use it as the
tie-breaker.
---
 xtra/src/chan.rs          | 30 ++++++++++++++++++++++++------
 xtra/src/chan/priority.rs | 28 ++++++++++++++++++++++++----
 2 files changed, 48 insertions(+), 10 deletions(-)

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index 187d963..8656547 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -127,7 +127,7 @@ impl<A> Chan<A> {
             return Ok(Err(MailboxFull(waiting)));
         }
 
-        inner.unicast_queue.push(ByPriority(unfulfilled_msg));
+        inner.enqueue_unicast(unfulfilled_msg);
 
         Ok(Ok(()))
     }
@@ -290,7 +290,7 @@ impl<A> Chan<A> {
         };
 
         if let Err(msg) = inner.try_fulfill_receiver(msg) {
-            inner.unicast_queue.push(ByPriority(msg));
+            inner.enqueue_unicast(msg);
         }
     }
 
@@ -310,6 +310,8 @@ struct Inner<A> {
     unicast_queue: BinaryHeap<ByPriority<MessageToOne<A>>>,
     broadcast_queues: Vec<Weak<BroadcastQueue<A>>>,
     broadcast_tail: usize,
+    /// The sequence number of the next message to be put into a queue.
+    next_sequence: u64,
 }
 
 impl<A> Inner<A> {
@@ -322,15 +324,29 @@ impl<A> Inner<A> {
             unicast_queue: BinaryHeap::default(),
             broadcast_queues: Vec::default(),
             broadcast_tail: 0,
+            next_sequence: 0,
         }
     }
 
+    fn next_sequence(&mut self) -> u64 {
+        let sequence = self.next_sequence;
+        self.next_sequence += 1;
+
+        sequence
+    }
+
+    fn enqueue_unicast(&mut self, msg: MessageToOne<A>) {
+        let sequence = self.next_sequence();
+
+        self.unicast_queue.push(ByPriority::new(msg, sequence));
+    }
+
     fn pop_unicast(&mut self) -> Option<Box<dyn MessageEnvelope<Actor = A>>> {
-        let msg = self.unicast_queue.pop()?.0;
+        let msg = self.unicast_queue.pop()?.into_inner();
 
         if !self.is_unicast_full() {
             if let Some(msg) = self.try_take_waiting_unicast_message() {
-                self.unicast_queue.push(ByPriority(msg))
+                self.enqueue_unicast(msg)
             }
         }
 
@@ -341,7 +357,7 @@ impl<A> Inner<A> {
         &mut self,
         broadcast_mailbox: &BroadcastQueue<A>,
     ) -> Option<Arc<dyn BroadcastEnvelope<Actor = A>>> {
-        let message = broadcast_mailbox.lock().pop()?.0;
+        let message = broadcast_mailbox.lock().pop()?.into_inner();
 
         self.broadcast_tail = self.longest_broadcast_queue();
 
@@ -367,9 +383,11 @@ impl<A> Inner<A> {
     }
 
     fn send_broadcast(&mut self, m: MessageToAll<A>) {
+        let sequence = self.next_sequence();
+
         self.broadcast_queues.retain(|queue| match queue.upgrade() {
             Some(q) => {
-                q.lock().push(ByPriority(m.clone()));
+                q.lock().push(ByPriority::new(m.clone(), sequence));
                 true
             }
             None => false, // The corresponding receiver has been dropped - remove it
diff --git a/xtra/src/chan/priority.rs b/xtra/src/chan/priority.rs
index 1c01ee7..fcc384b 100644
--- a/xtra/src/chan/priority.rs
+++ b/xtra/src/chan/priority.rs
@@ -17,14 +17,32 @@ pub trait HasPriority {
 }
 
 /// A wrapper struct that allows comparison and ordering for anything thas has a priority, i.e. implements [`HasPriority`].
-pub struct ByPriority<T>(pub T);
+/// A queued element, ordered by priority first and by position in the queue second.
+///
+/// A [`BinaryHeap`](std::collections::BinaryHeap) does not preserve the insertion order of elements which
+/// compare as equal, hence elements of the same priority are explicitly ordered by the sequence number
+/// they were given when they were enqueued: the lower (i.e. the older), the greater.
+pub struct ByPriority<T> {
+    inner: T,
+    sequence: u64,
+}
+
+impl<T> ByPriority<T> {
+    pub fn new(inner: T, sequence: u64) -> Self {
+        Self { inner, sequence }
+    }
+
+    pub fn into_inner(self) -> T {
+        self.inner
+    }
+}
 
 impl<T> HasPriority for ByPriority<T>
 where
     T: HasPriority,
 {
     fn priority(&self) -> Priority {
-        self.0.priority()
+        self.inner.priority()
     }
 }
 
@@ -33,7 +51,7 @@ where
     T: HasPriority,
 {
     fn eq(&self, other: &Self) -> bool {
-        self.0.priority().eq(&other.0.priority())
+        self.cmp(other).is_eq()
     }
 }
 
@@ -53,6 +71,8 @@ where
     T: HasPriority,
 {
     fn cmp(&self, other: &Self) -> Ordering {
-        self.0.priority().cmp(&other.0.priority())
+        self.priority()
+            .cmp(&other.priority())
+            .then_with(|| other.sequence.cmp(&self.sequence))
     }
 }
-- 
2.43.0


From a5b5a451140c12375b40dfd340abc4f238b3d774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:45 +0000
Subject: [PATCH 2/6] fix: admit blocked senders of equal priority in the order
 they arrived

`max_by_key` returns the last of several maximum elements, so of all senders
blocked on a full mailbox the most recent one was admitted first.
---
 xtra/src/chan.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index 8656547..d9c1674 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -453,6 +453,7 @@ where
     let pos = queue
         .iter()
         .enumerate()
+        .rev() // `max_by_key` returns the last maximum, we want the handle that waited the longest.
         .max_by_key(|(_, handle)| handle.priority())?
         .0;
 
-- 
2.43.0


From a44d44138341aa494c429b3fb046cb73f179c38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:45 +0000
Subject: [PATCH 3/6] fix: make Ord for Address consistent with Eq and
 PartialOrd

`Ord::cmp` ignored whether the addresses are strong, so two addresses which are
not equal compared as `Ordering::Equal`.
---
 xtra/src/address.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xtra/src/address.rs b/xtra/src/address.rs
index 11502ca..752b6d3 100644
--- a/xtra/src/address.rs
+++ b/xtra/src/address.rs
@@ -302,7 +302,10 @@ impl<A, Rc: RefCounter, Rc2: RefCounter> PartialOrd<Address<A, Rc2>> for Address
 
 impl<A, Rc: RefCounter> Ord for Address<A, Rc> {
     fn cmp(&self, other: &Self) -> Ordering {
-        self.0.inner_ptr().cmp(&other.0.inner_ptr())
+        self.0
+            .inner_ptr()
+            .cmp(&other.0.inner_ptr())
+            .then_with(|| self.0.is_strong().cmp(&other.0.is_strong()))
     }
 }
 
-- 
2.43.0


From 5aca7a1ce7ba3e800e40a17d2a57d57c26c5bba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:37 +0000
Subject: [PATCH 4/6] fix: do not drop outstanding messages while the channel
 is locked

Dropping the last mailbox deadlocked if one of the outstanding messages owned
the last strong address of the actor, because dropping that address locks the
channel as well.
---
 xtra/src/chan.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index d9c1674..aafd474 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -249,13 +249,19 @@ impl<A> Chan<A> {
 
         self.on_shutdown.notify(usize::MAX);
 
-        // Let any outstanding messages drop
-        inner.unicast_queue.clear();
-        inner.broadcast_queues.clear();
-
-        // Close (and potentially wake) outstanding waiting senders
-        inner.waiting_send_to_one.clear();
-        inner.waiting_send_to_all.clear();
+        let outstanding = (
+            // Let any outstanding messages drop
+            mem::take(&mut inner.unicast_queue),
+            mem::take(&mut inner.broadcast_queues),
+            // Close (and potentially wake) outstanding waiting senders
+            mem::take(&mut inner.waiting_send_to_one),
+            mem::take(&mut inner.waiting_send_to_all),
+        );
+
+        // Messages can own addresses to this very channel, dropping the last one of which locks
+        // `inner` again. Hence, only drop them once it is unlocked.
+        drop(inner);
+        drop(outstanding);
     }
 
     pub fn disconnect_listener(&self) -> Option<EventListener> {
-- 
2.43.0


From db77b8d32ef3cdbe18b09853389e61d3f74ffcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:37 +0000
Subject: [PATCH 5/6] fix: fail sends which race with the last mailbox being
 dropped

Whether the actor is connected was only checked before locking the channel. A
message sent while the last mailbox is dropped could be put into the queue
after it had been cleared, where it stayed: sending to an actor that is gone
succeeded and the returned future never resolved.
---
 xtra/src/chan.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index aafd474..77d0554 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -114,6 +114,12 @@ impl<A> Chan<A> {
 
         let mut inner = self.chan.lock().unwrap();
 
+        // The last receiver only discards the queued messages once, with `inner` locked. Do not
+        // queue a message which would neither be handled nor discarded.
+        if !self.is_connected() {
+            return Err(Error::Disconnected);
+        }
+
         let unfulfilled_msg = if let Err(msg) = inner.try_fulfill_receiver(message) {
             msg
         } else {
@@ -146,6 +152,11 @@ impl<A> Chan<A> {
 
         let mut inner = self.chan.lock().unwrap();
 
+        // See `try_send_to_one`
+        if !self.is_connected() {
+            return Err(Error::Disconnected);
+        }
+
         if inner.is_broadcast_full() {
             let (handle, waiting) = WaitingSender::new(message);
             inner.waiting_send_to_all.push_back(handle);
-- 
2.43.0


From afa7914ae1b119b054e3bc1342a5c9cb677904ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:51 +0000
Subject: [PATCH 6/6] fix: do not lose a message sent while a pending receive
 is cancelled

A message handed to a waiting receiver between it being cancelled and it being
dropped went down with it, although the sender was told it had been delivered.
Cancel the receiver with the channel locked.
---
 xtra/src/chan.rs                  | 13 ++++++++++---
 xtra/src/chan/waiting_receiver.rs | 10 ++++++----
 xtra/src/recv_future.rs           |  8 +++-----
 3 files changed, 19 insertions(+), 12 deletions(-)

diff --git a/xtra/src/chan.rs b/xtra/src/chan.rs
index 77d0554..d195364 100644
--- a/xtra/src/chan.rs
+++ b/xtra/src/chan.rs
@@ -293,19 +293,26 @@ impl<A> Chan<A> {
         }
     }
 
-    /// Re-queue the given message.
+    /// Cancel the given [`WaitingReceiver`], re-queueing a message that was already sent to it.
     ///
     /// Normally, messages are delivered from the inbox straight to the actor. It can however happen
     /// that this process gets cancelled. In that case, this function can be used to re-queue the
-    /// given message so it does not get lost.
+    /// message so it does not get lost.
     ///
     /// Note that the ordering of messages in the queues may be slightly off with this function.
-    pub fn requeue_message(&self, msg: MessageToOne<A>) {
+    pub fn cancel_receiver(&self, receiver: &mut WaitingReceiver<A>) {
+        // Lock `Inner` first: messages are only sent to waiting receivers with `Inner` locked, hence
+        // none can arrive after we checked for one and before the receiver is gone.
         let mut inner = match self.chan.lock() {
             Ok(lock) => lock,
             Err(_) => return, // If we can't lock the inner channel, there is nothing we can do.
         };
 
+        let msg = match receiver.cancel() {
+            Some(msg) => msg,
+            None => return,
+        };
+
         if let Err(msg) = inner.try_fulfill_receiver(msg) {
             inner.enqueue_unicast(msg);
         }
diff --git a/xtra/src/chan/waiting_receiver.rs b/xtra/src/chan/waiting_receiver.rs
index ebed76e..7b1246e 100644
--- a/xtra/src/chan/waiting_receiver.rs
+++ b/xtra/src/chan/waiting_receiver.rs
@@ -7,7 +7,7 @@ use crate::chan::{self, ActorMessage, BroadcastQueue, MessageToOne, Rx};
 /// A [`WaitingReceiver`] is handed out by the channel any time [`Chan::try_recv`](crate::chan::Chan::try_recv) is called on an empty mailbox.
 ///
 /// [`WaitingReceiver`] implements [`Future`](std::future::Future) which will resolve once a message lands in the mailbox.
-pub struct WaitingReceiver<A>(catty::Receiver<CtrlMsg<A>>);
+pub struct WaitingReceiver<A>(Option<catty::Receiver<CtrlMsg<A>>>);
 
 /// A [`Handle`] is the counter-part to a [`WaitingReceiver`].
 ///
@@ -50,7 +50,7 @@ impl<A> WaitingReceiver<A> {
     pub fn new() -> (WaitingReceiver<A>, Handle<A>) {
         let (sender, receiver) = catty::oneshot();
 
-        (WaitingReceiver(receiver), Handle(sender))
+        (WaitingReceiver(Some(receiver)), Handle(sender))
     }
 
     /// Cancel this [`WaitingReceiver`].
@@ -61,7 +61,7 @@ impl<A> WaitingReceiver<A> {
     /// It is important to call this message over just dropping the [`WaitingReceiver`] as this
     /// message would otherwise be dropped.
     pub fn cancel(&mut self) -> Option<MessageToOne<A>> {
-        match self.0.try_recv() {
+        match self.0.take()?.try_recv() {
             Ok(Some(CtrlMsg::NewMessage(msg))) => Some(msg),
             _ => None,
         }
@@ -78,7 +78,9 @@ impl<A> WaitingReceiver<A> {
         broadcast_mailbox: &BroadcastQueue<A>,
         cx: &mut Context<'_>,
     ) -> Poll<Option<ActorMessage<A>>> {
-        let ctrl_msg = match futures_util::ready!(self.0.poll_unpin(cx)) {
+        let receiver = self.0.as_mut().expect("to not be polled after cancel");
+
+        let ctrl_msg = match futures_util::ready!(receiver.poll_unpin(cx)) {
             Ok(reason) => reason,
             Err(_) => return Poll::Ready(None), // TODO: Not sure if this is correct.
         };
diff --git a/xtra/src/recv_future.rs b/xtra/src/recv_future.rs
index 2438322..e40eab7 100644
--- a/xtra/src/recv_future.rs
+++ b/xtra/src/recv_future.rs
@@ -121,11 +121,9 @@ impl<A> Future for Waiting<A> {
 
 impl<A> Drop for Waiting<A> {
     fn drop(&mut self) {
-        if let Some(msg) = self.waiting_receiver.cancel() {
-            self.channel
-                .as_mut()
-                .expect("to not have message on drop but channel is gone")
-                .requeue_message(msg);
+        // No channel means that we already completed, i.e. that there is nothing to cancel.
+        if let Some(channel) = &self.channel {
+            channel.cancel_receiver(&mut self.waiting_receiver);
         }
     }
 }
-- 
2.43.0

