From ee29011b459849f009ea82de939c9c8e3021f701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:06 +0000
Subject: [PATCH 01/38] fix: stop actors when every strong reference is dropped

The lifecycle future kept the mailbox sender of the partially moved actor
reference alive until it returned, so an actor never saw its mailbox close.
---
 src/actor/spawn.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index f468020..9872443 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -458,9 +458,12 @@ where
     }
 
     let (actor_ref, links, startup_semaphore) = {
-        // Downgrade actor ref
+        // Downgrade actor ref, dropping the strong reference so the actor stops once all others are dropped
         let weak_actor_ref = actor_ref.downgrade();
-        (weak_actor_ref, actor_ref.links, actor_ref.startup_semaphore)
+        let links = actor_ref.links.clone();
+        let startup_semaphore = actor_ref.startup_semaphore.clone();
+        drop(actor_ref);
+        (weak_actor_ref, links, startup_semaphore)
     };
 
     if let Err(err) = start_res {
-- 
2.43.0


From 1a8dc523b0c2e67b0b7a7fd5195f9d75767cd73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:54 +0000
Subject: [PATCH 02/38] fix: complete wait_for_startup once on_start has run

The startup permits were only added when the startup signal was received from
the mailbox, so waiters hung if the mailbox was full, or the actor was stopped
or killed, before that signal was processed.
---
 src/actor/spawn.rs | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index 9872443..6f55af1 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -449,6 +449,9 @@ where
                 .expect("nothing else should set the startup error");
         }
     }
+    actor_ref
+        .startup_semaphore
+        .add_permits(Semaphore::MAX_PERMITS);
 
     let mut startup_finished = false;
     if let Err(SendError::MailboxFull(())) =
@@ -457,17 +460,15 @@ where
         startup_finished = true;
     }
 
-    let (actor_ref, links, startup_semaphore) = {
+    let (actor_ref, links) = {
         // Downgrade actor ref, dropping the strong reference so the actor stops once all others are dropped
         let weak_actor_ref = actor_ref.downgrade();
         let links = actor_ref.links.clone();
-        let startup_semaphore = actor_ref.startup_semaphore.clone();
         drop(actor_ref);
-        (weak_actor_ref, links, startup_semaphore)
+        (weak_actor_ref, links)
     };
 
     if let Err(err) = start_res {
-        startup_semaphore.add_permits(Semaphore::MAX_PERMITS);
         let reason = ActorStopReason::Panicked(err);
         let mut state = S::new_from_actor(actor, actor_ref.clone());
         let reason = state
@@ -504,12 +505,7 @@ where
     let mut state = S::new_from_actor(actor, actor_ref.clone());
 
     let reason = Abortable::new(
-        abortable_actor_loop(
-            &mut state,
-            &mut mailbox_rx,
-            startup_semaphore,
-            startup_finished,
-        ),
+        abortable_actor_loop(&mut state, &mut mailbox_rx, startup_finished),
         abort_registration,
     )
     .await
@@ -596,7 +592,6 @@ where
 async fn abortable_actor_loop<A, S>(
     state: &mut S,
     mailbox_rx: &mut MailboxReceiver<A>,
-    startup_semaphore: Arc<Semaphore>,
     startup_finished: bool,
 ) -> ActorStopReason
 where
@@ -609,7 +604,7 @@ where
         }
     }
     loop {
-        let reason = recv_mailbox_loop(state, mailbox_rx, &startup_semaphore).await;
+        let reason = recv_mailbox_loop(state, mailbox_rx).await;
         if let ControlFlow::Break(reason) = state.on_shutdown(reason).await {
             return reason;
         }
@@ -619,7 +614,6 @@ where
 async fn recv_mailbox_loop<A, S>(
     state: &mut S,
     mailbox_rx: &mut MailboxReceiver<A>,
-    startup_semaphore: &Semaphore,
 ) -> ActorStopReason
 where
     A: Actor,
@@ -628,7 +622,6 @@ where
     loop {
         match state.next(mailbox_rx).await {
             Some(Signal::StartupFinished) => {
-                startup_semaphore.add_permits(Semaphore::MAX_PERMITS);
                 if let ControlFlow::Break(reason) = state.handle_startup_finished().await {
                     return reason;
                 }
-- 
2.43.0


From a7481677c91beda4e18bf548c875e953f9832f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:15 +0000
Subject: [PATCH 03/38] fix: keep messages buffered during startup when one of
 them panics

The buffer was taken and drained in one go, so if handling a message failed and
on_panic decided to continue, the remaining messages, and a pending stop, were
lost.
---
 src/actor/kind.rs | 39 ++++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/src/actor/kind.rs b/src/actor/kind.rs
index 2bd8e69..e8b9f32 100644
--- a/src/actor/kind.rs
+++ b/src/actor/kind.rs
@@ -1,4 +1,4 @@
-use std::{collections::VecDeque, mem, ops::ControlFlow, panic::AssertUnwindSafe};
+use std::{collections::VecDeque, ops::ControlFlow, panic::AssertUnwindSafe};
 
 use futures::{Future, FutureExt};
 
@@ -53,6 +53,7 @@ pub(crate) struct ActorBehaviour<A: Actor> {
     state: A,
     finished_startup: bool,
     startup_buffer: VecDeque<Signal<A>>,
+    stopping: bool,
 }
 
 impl<A> ActorState<A> for ActorBehaviour<A>
@@ -66,30 +67,26 @@ where
             state: actor,
             finished_startup: false,
             startup_buffer: VecDeque::new(),
+            stopping: false,
         }
     }
 
     async fn next(&mut self, mailbox_rx: &mut MailboxReceiver<A>) -> Option<Signal<A>> {
+        if self.finished_startup {
+            // Messages received during startup come before anything still in the mailbox
+            if let Some(signal) = self.startup_buffer.pop_front() {
+                return Some(signal);
+            }
+            if self.stopping {
+                return Some(Signal::Stop);
+            }
+        }
+
         self.state.next(self.actor_ref.clone(), mailbox_rx).await
     }
 
     async fn handle_startup_finished(&mut self) -> ControlFlow<ActorStopReason> {
         self.finished_startup = true;
-        for signal in mem::take(&mut self.startup_buffer).drain(..) {
-            match signal {
-                Signal::Message {
-                    message,
-                    actor_ref,
-                    reply,
-                    sent_within_actor,
-                } => {
-                    self.handle_message(message, actor_ref, reply, sent_within_actor)
-                        .await?;
-                }
-                _ => unreachable!(),
-            }
-        }
-
         ControlFlow::Continue(())
     }
 
@@ -151,10 +148,14 @@ where
 
     #[inline]
     async fn handle_stop(&mut self) -> ControlFlow<ActorStopReason> {
-        match self.handle_startup_finished().await {
-            ControlFlow::Continue(_) => ControlFlow::Break(ActorStopReason::Normal),
-            ControlFlow::Break(reason) => ControlFlow::Break(reason),
+        self.finished_startup = true;
+        if !self.startup_buffer.is_empty() {
+            // Stop once the messages received during startup have been processed
+            self.stopping = true;
+            return ControlFlow::Continue(());
         }
+
+        ControlFlow::Break(ActorStopReason::Normal)
     }
 
     #[inline]
-- 
2.43.0


From 350aa946927e393498167a3a227ed2caf85ada67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:33 +0000
Subject: [PATCH 04/38] fix: keep the startup message order when the mailbox is
 full

With a full mailbox startup was considered finished straight away, so messages
the actor sent itself in on_start lost their priority over external messages.
---
 src/actor/spawn.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index 6f55af1..4049971 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -453,11 +453,12 @@ where
         .startup_semaphore
         .add_permits(Semaphore::MAX_PERMITS);
 
-    let mut startup_finished = false;
+    // If there's no room for the signal, startup finishes after the messages already in the mailbox
+    let mut startup_remaining = None;
     if let Err(SendError::MailboxFull(())) =
         actor_ref.weak_signal_mailbox().signal_startup_finished()
     {
-        startup_finished = true;
+        startup_remaining = Some(mailbox_rx.len());
     }
 
     let (actor_ref, links) = {
@@ -505,7 +506,7 @@ where
     let mut state = S::new_from_actor(actor, actor_ref.clone());
 
     let reason = Abortable::new(
-        abortable_actor_loop(&mut state, &mut mailbox_rx, startup_finished),
+        abortable_actor_loop(&mut state, &mut mailbox_rx, startup_remaining),
         abort_registration,
     )
     .await
@@ -592,19 +593,14 @@ where
 async fn abortable_actor_loop<A, S>(
     state: &mut S,
     mailbox_rx: &mut MailboxReceiver<A>,
-    startup_finished: bool,
+    mut startup_remaining: Option<usize>,
 ) -> ActorStopReason
 where
     A: Actor,
     S: ActorState<A>,
 {
-    if startup_finished {
-        if let ControlFlow::Break(reason) = state.handle_startup_finished().await {
-            return reason;
-        }
-    }
     loop {
-        let reason = recv_mailbox_loop(state, mailbox_rx).await;
+        let reason = recv_mailbox_loop(state, mailbox_rx, &mut startup_remaining).await;
         if let ControlFlow::Break(reason) = state.on_shutdown(reason).await {
             return reason;
         }
@@ -614,12 +610,24 @@ where
 async fn recv_mailbox_loop<A, S>(
     state: &mut S,
     mailbox_rx: &mut MailboxReceiver<A>,
+    startup_remaining: &mut Option<usize>,
 ) -> ActorStopReason
 where
     A: Actor,
     S: ActorState<A>,
 {
     loop {
+        match startup_remaining {
+            Some(0) => {
+                *startup_remaining = None;
+                if let ControlFlow::Break(reason) = state.handle_startup_finished().await {
+                    return reason;
+                }
+            }
+            Some(remaining) => *remaining -= 1,
+            None => {}
+        }
+
         match state.next(mailbox_rx).await {
             Some(Signal::StartupFinished) => {
                 if let ControlFlow::Break(reason) = state.handle_startup_finished().await {
-- 
2.43.0


From 9107543b75e27e83dd87eb3da20ee3dddec1be3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:55 +0000
Subject: [PATCH 05/38] fix: notify linked actors when an actor fails to start

The startup failure path returned early, leaving linked actors unaware of the
death (and the remote registry entry in place).
---
 src/actor/spawn.rs | 56 +++++++++++++---------------------------------
 1 file changed, 16 insertions(+), 40 deletions(-)

diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index 4049971..7a12806 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -469,48 +469,24 @@ where
         (weak_actor_ref, links)
     };
 
-    if let Err(err) = start_res {
-        let reason = ActorStopReason::Panicked(err);
-        let mut state = S::new_from_actor(actor, actor_ref.clone());
-        let reason = state
-            .on_shutdown(reason.clone())
-            .await
-            .break_value()
-            .unwrap_or(reason);
-        let mut actor = state.shutdown().await;
-        let on_stop_res = actor.on_stop(actor_ref.clone(), reason.clone()).await;
-        match on_stop_res {
-            Ok(()) => {
-                if let Some(actor_ref) = actor_ref.upgrade() {
-                    actor_ref
-                        .shutdown_error
-                        .set(None)
-                        .expect("nothing else should set the shutdown error");
-                }
-            }
-            Err(err) => {
-                let err = PanicError::new(Box::new(err));
-                invoke_actor_error_hook(&err);
-                if let Some(actor_ref) = actor_ref.upgrade() {
-                    actor_ref
-                        .shutdown_error
-                        .set(Some(err))
-                        .expect("nothing else should set the shutdown error");
-                }
-            }
-        }
-        log_actor_stop_reason(id, name, &reason);
-        return (actor, reason);
-    }
-
     let mut state = S::new_from_actor(actor, actor_ref.clone());
 
-    let reason = Abortable::new(
-        abortable_actor_loop(&mut state, &mut mailbox_rx, startup_remaining),
-        abort_registration,
-    )
-    .await
-    .unwrap_or(ActorStopReason::Killed);
+    let reason = match start_res {
+        Ok(()) => Abortable::new(
+            abortable_actor_loop(&mut state, &mut mailbox_rx, startup_remaining),
+            abort_registration,
+        )
+        .await
+        .unwrap_or(ActorStopReason::Killed),
+        Err(err) => {
+            let reason = ActorStopReason::Panicked(err);
+            state
+                .on_shutdown(reason.clone())
+                .await
+                .break_value()
+                .unwrap_or(reason)
+        }
+    };
 
     let mut actor = state.shutdown().await;
 
-- 
2.43.0


From 3e14ef6d4c72dc0e0f5bf28a91840a7c51e700eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:56 +0000
Subject: [PATCH 06/38] fix: finish the shutdown when on_panic or on_stop
 panics

The panic unwound through the actor's task: on_stop was skipped (for on_panic)
and linked actors were never notified.
---
 src/actor/kind.rs  | 13 +++++++++----
 src/actor/spawn.rs |  8 ++++++--
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/actor/kind.rs b/src/actor/kind.rs
index e8b9f32..2d00e78 100644
--- a/src/actor/kind.rs
+++ b/src/actor/kind.rs
@@ -164,12 +164,17 @@ where
             ActorStopReason::Normal => ControlFlow::Break(ActorStopReason::Normal),
             ActorStopReason::Killed => ControlFlow::Break(ActorStopReason::Killed),
             ActorStopReason::Panicked(err) => {
-                match self.state.on_panic(self.actor_ref.clone(), err).await {
-                    Ok(ControlFlow::Continue(())) => ControlFlow::Continue(()),
-                    Ok(ControlFlow::Break(reason)) => ControlFlow::Break(reason),
-                    Err(err) => ControlFlow::Break(ActorStopReason::Panicked(PanicError::new(
+                let res = AssertUnwindSafe(self.state.on_panic(self.actor_ref.clone(), err))
+                    .catch_unwind()
+                    .await;
+                match res {
+                    Ok(Ok(flow)) => flow,
+                    Ok(Err(err)) => ControlFlow::Break(ActorStopReason::Panicked(PanicError::new(
                         Box::new(err),
                     ))),
+                    Err(err) => ControlFlow::Break(ActorStopReason::Panicked(
+                        PanicError::new_from_panic_any(err),
+                    )),
                 }
             }
             ActorStopReason::LinkDied { id, reason } => {
diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index 7a12806..40982e9 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -535,7 +535,12 @@ where
         }
     }
 
-    let on_stop_res = actor.on_stop(actor_ref.clone(), reason.clone()).await;
+    let on_stop_res = AssertUnwindSafe(actor.on_stop(actor_ref.clone(), reason.clone()))
+        .catch_unwind()
+        .await
+        .map(|res| res.map_err(|err| PanicError::new(Box::new(err))))
+        .map_err(PanicError::new_from_panic_any)
+        .and_then(convert::identity);
     log_actor_stop_reason(id, name, &reason);
 
     while let Some(()) = link_notification_futures.next().await {}
@@ -552,7 +557,6 @@ where
             }
         }
         Err(err) => {
-            let err = PanicError::new(Box::new(err));
             invoke_actor_error_hook(&err);
             if let Some(actor_ref) = actor_ref.upgrade() {
                 actor_ref
-- 
2.43.0


From 010ced56188616c0104c45a1cd4c82e49af3f358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:15 +0000
Subject: [PATCH 07/38] fix: close the mailbox of a dead actor before notifying
 its links

Two linked actors which died with full mailboxes waited for each other forever,
as did an actor waiting for the shutdown of a linked actor with its own mailbox
full.
---
 src/actor/spawn.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index 40982e9..d211230 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -543,10 +543,6 @@ where
         .and_then(convert::identity);
     log_actor_stop_reason(id, name, &reason);
 
-    while let Some(()) = link_notification_futures.next().await {}
-    #[cfg(feature = "remote")]
-    remote::REMOTE_REGISTRY.lock().await.remove(&id);
-
     match on_stop_res {
         Ok(()) => {
             if let Some(actor_ref) = actor_ref.upgrade() {
@@ -567,6 +563,12 @@ where
         }
     }
 
+    // Notifying waits for room in the mailboxes of linked actors, which might themselves be waiting on this actor
+    drop(mailbox_rx);
+    while let Some(()) = link_notification_futures.next().await {}
+    #[cfg(feature = "remote")]
+    remote::REMOTE_REGISTRY.lock().await.remove(&id);
+
     (actor, reason)
 }
 
-- 
2.43.0


From 3c48f7a52591ca7e092a9df110c90a7a0cd14b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:12 +0000
Subject: [PATCH 08/38] fix: return the message and reply sender when
 forwarding fails

---
 src/request/ask.rs | 57 +++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 49 insertions(+), 8 deletions(-)

diff --git a/src/request/ask.rs b/src/request/ask.rs
index fc3c652..303a7bb 100644
--- a/src/request/ask.rs
+++ b/src/request/ask.rs
@@ -4,7 +4,7 @@ use std::{
     pin, task,
     time::Duration,
 };
-use tokio::sync::oneshot;
+use tokio::sync::{mpsc, oneshot};
 
 #[cfg(feature = "remote")]
 use crate::{actor, remote};
@@ -267,16 +267,28 @@ where
             MailboxSender::Bounded(tx) => {
                 match self.mailbox_timeout.into() {
                     Some(timeout) => {
-                        tx.send_timeout(signal, timeout).await?;
+                        tx.send_timeout(signal, timeout)
+                            .await
+                            .map_err(|err| match err {
+                                mpsc::error::SendTimeoutError::Timeout(signal) => {
+                                    SendError::Timeout(Some(unforward(signal)))
+                                }
+                                mpsc::error::SendTimeoutError::Closed(signal) => {
+                                    SendError::ActorNotRunning(unforward(signal))
+                                }
+                            })?;
                     }
                     None => {
-                        tx.send(signal).await?;
+                        tx.send(signal)
+                            .await
+                            .map_err(|err| SendError::ActorNotRunning(unforward(err.0)))?;
                     }
                 }
                 Ok(())
             }
             MailboxSender::Unbounded(tx) => {
-                tx.send(signal)?;
+                tx.send(signal)
+                    .map_err(|err| SendError::ActorNotRunning(unforward(err.0)))?;
                 Ok(())
             }
         }
@@ -307,11 +319,19 @@ where
 
         match self.actor_ref.mailbox_sender() {
             MailboxSender::Bounded(tx) => {
-                tx.try_send(signal)?;
+                tx.try_send(signal).map_err(|err| match err {
+                    mpsc::error::TrySendError::Full(signal) => {
+                        SendError::MailboxFull(unforward(signal))
+                    }
+                    mpsc::error::TrySendError::Closed(signal) => {
+                        SendError::ActorNotRunning(unforward(signal))
+                    }
+                })?;
                 Ok(())
             }
             MailboxSender::Unbounded(tx) => {
-                tx.send(signal)?;
+                tx.send(signal)
+                    .map_err(|err| SendError::ActorNotRunning(unforward(err.0)))?;
                 Ok(())
             }
         }
@@ -499,11 +519,13 @@ where
 
         match self.actor_ref.mailbox_sender() {
             MailboxSender::Bounded(tx) => {
-                tx.blocking_send(signal)?;
+                tx.blocking_send(signal)
+                    .map_err(|err| SendError::ActorNotRunning(unforward(err.0)))?;
                 Ok(())
             }
             MailboxSender::Unbounded(tx) => {
-                tx.send(signal)?;
+                tx.send(signal)
+                    .map_err(|err| SendError::ActorNotRunning(unforward(err.0)))?;
                 Ok(())
             }
         }
@@ -589,6 +611,25 @@ where
     }
 }
 
+/// Recovers the message and reply sender from a signal which failed to be forwarded.
+fn unforward<A, M, R>(signal: Signal<A>) -> (M, ReplySender<R>)
+where
+    A: Actor,
+    M: 'static,
+{
+    match signal {
+        Signal::Message {
+            message,
+            reply: Some(reply),
+            ..
+        } => (
+            *message.as_any().downcast().unwrap(),
+            ReplySender::new(reply),
+        ),
+        _ => unreachable!("only messages with a reply sender are forwarded"),
+    }
+}
+
 /// A pending reply from a previously enqueued ask request.
 ///
 /// The actor will not progress until this has been awaited or dropped.
-- 
2.43.0


From 03ee1bc78d4eb20959be20d330048b8d94430ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:37 +0000
Subject: [PATCH 09/38] fix: report failed enqueues instead of panicking

---
 src/request/ask.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/request/ask.rs b/src/request/ask.rs
index 303a7bb..9561889 100644
--- a/src/request/ask.rs
+++ b/src/request/ask.rs
@@ -200,10 +200,14 @@ where
             MailboxSender::Bounded(tx) => {
                 match self.mailbox_timeout.into() {
                     Some(timeout) => {
-                        tx.send_timeout(signal, timeout).await?;
+                        tx.send_timeout(signal, timeout)
+                            .await
+                            .map_err(|err| SendError::<M>::from(err).map_msg(|_| ()))?;
                     }
                     None => {
-                        tx.send(signal).await?;
+                        tx.send(signal)
+                            .await
+                            .map_err(|err| SendError::<M>::from(err).map_msg(|_| ()))?;
                     }
                 }
 
@@ -220,7 +224,8 @@ where
                 .boxed()
             }
             MailboxSender::Unbounded(tx) => {
-                tx.send(signal)?;
+                tx.send(signal)
+                    .map_err(|err| SendError::<M>::from(err).map_msg(|_| ()))?;
 
                 async move {
                     let reply = match self.reply_timeout.into() {
@@ -428,7 +433,8 @@ where
 
         let fut = match self.actor_ref.mailbox_sender() {
             MailboxSender::Bounded(tx) => {
-                tx.try_send(signal)?;
+                tx.try_send(signal)
+                    .map_err(|err| SendError::<M>::from(err).map_msg(|_| ()))?;
 
                 async move {
                     let reply = match self.reply_timeout.into() {
@@ -443,7 +449,8 @@ where
                 .boxed()
             }
             MailboxSender::Unbounded(tx) => {
-                tx.send(signal)?;
+                tx.send(signal)
+                    .map_err(|err| SendError::<M>::from(err).map_msg(|_| ()))?;
 
                 async move {
                     let reply = match self.reply_timeout.into() {
@@ -575,7 +582,8 @@ where
 
         match self.actor_ref.mailbox_sender() {
             MailboxSender::Bounded(tx) => {
-                tx.blocking_send(signal)?;
+                tx.blocking_send(signal)
+                    .map_err(|err| SendError::<M>::from(err).map_msg(|_| ()))?;
 
                 let f = Box::new(move || match rx.blocking_recv()? {
                     Ok(val) => Ok(<A::Reply as Reply>::downcast_ok(val)),
@@ -584,7 +592,8 @@ where
                 Ok(BlockingPendingReply { f })
             }
             MailboxSender::Unbounded(tx) => {
-                tx.send(signal)?;
+                tx.send(signal)
+                    .map_err(|err| SendError::<M>::from(err).map_msg(|_| ()))?;
 
                 let f = Box::new(move || match rx.blocking_recv()? {
                     Ok(val) => Ok(<A::Reply as Reply>::downcast_ok(val)),
-- 
2.43.0


From 956715e71fb2bc7ea50d7aa0814375329c693c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:59 +0000
Subject: [PATCH 10/38] fix: lock links in a consistent order so linking can't
 deadlock

---
 src/actor/actor_ref.rs | 48 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 9 deletions(-)

diff --git a/src/actor/actor_ref.rs b/src/actor/actor_ref.rs
index 6dc7ee4..4aaed0d 100644
--- a/src/actor/actor_ref.rs
+++ b/src/actor/actor_ref.rs
@@ -9,7 +9,7 @@ use std::{
 use dyn_clone::DynClone;
 use futures::{future::BoxFuture, stream::AbortHandle, FutureExt, Stream, StreamExt, TryFutureExt};
 use tokio::{
-    sync::{Mutex, Semaphore},
+    sync::{Mutex, MutexGuard, Semaphore},
     task::JoinHandle,
     task_local,
 };
@@ -516,8 +516,7 @@ where
             return;
         }
 
-        let (mut this_links, mut sibbling_links) =
-            tokio::join!(self.links.lock(), sibbling_ref.links.lock());
+        let (mut this_links, mut sibbling_links) = self.lock_links(sibbling_ref).await;
         this_links.insert(
             sibbling_ref.id,
             Link::Local(sibbling_ref.weak_signal_mailbox()),
@@ -555,8 +554,7 @@ where
             return;
         }
 
-        let mut this_links = self.links.blocking_lock();
-        let mut sibbling_links = sibbling_ref.links.blocking_lock();
+        let (mut this_links, mut sibbling_links) = self.blocking_lock_links(sibbling_ref);
         this_links.insert(
             sibbling_ref.id,
             Link::Local(sibbling_ref.weak_signal_mailbox()),
@@ -639,8 +637,7 @@ where
             return;
         }
 
-        let (mut this_links, mut sibbling_links) =
-            tokio::join!(self.links.lock(), sibbling_ref.links.lock());
+        let (mut this_links, mut sibbling_links) = self.lock_links(sibbling_ref).await;
         this_links.remove(&sibbling_ref.id);
         sibbling_links.remove(&self.id);
     }
@@ -677,8 +674,7 @@ where
             return;
         }
 
-        let mut this_links = self.links.blocking_lock();
-        let mut sibbling_links = sibbling_ref.links.blocking_lock();
+        let (mut this_links, mut sibbling_links) = self.blocking_lock_links(sibbling_ref);
         this_links.remove(&sibbling_ref.id);
         sibbling_links.remove(&self.id);
     }
@@ -816,6 +812,38 @@ where
         &self.mailbox_sender
     }
 
+    /// Locks the links of both actors, always in the same order so that actors linking with each other can't deadlock.
+    async fn lock_links<'a, B: Actor>(
+        &'a self,
+        sibbling_ref: &'a ActorRef<B>,
+    ) -> (LinksGuard<'a>, LinksGuard<'a>) {
+        if self.id.sequence_id() < sibbling_ref.id.sequence_id() {
+            let this_links = self.links.lock().await;
+            let sibbling_links = sibbling_ref.links.lock().await;
+            (this_links, sibbling_links)
+        } else {
+            let sibbling_links = sibbling_ref.links.lock().await;
+            let this_links = self.links.lock().await;
+            (this_links, sibbling_links)
+        }
+    }
+
+    /// Blocking version of [`ActorRef::lock_links`].
+    fn blocking_lock_links<'a, B: Actor>(
+        &'a self,
+        sibbling_ref: &'a ActorRef<B>,
+    ) -> (LinksGuard<'a>, LinksGuard<'a>) {
+        if self.id.sequence_id() < sibbling_ref.id.sequence_id() {
+            let this_links = self.links.blocking_lock();
+            let sibbling_links = sibbling_ref.links.blocking_lock();
+            (this_links, sibbling_links)
+        } else {
+            let sibbling_links = sibbling_ref.links.blocking_lock();
+            let this_links = self.links.blocking_lock();
+            (this_links, sibbling_links)
+        }
+    }
+
     #[inline]
     pub(crate) fn weak_signal_mailbox(&self) -> Box<dyn SignalMailbox> {
         Box::new(self.mailbox_sender.downgrade())
@@ -1356,6 +1384,8 @@ impl<A: Actor> fmt::Debug for WeakRecipient<A> {
 #[allow(missing_debug_implementations)]
 pub(crate) struct Links(Arc<Mutex<HashMap<ActorID, Link>>>);
 
+type LinksGuard<'a> = MutexGuard<'a, HashMap<ActorID, Link>>;
+
 impl ops::Deref for Links {
     type Target = Mutex<HashMap<ActorID, Link>>;
 
-- 
2.43.0


From 0d3bc3ab80e59bddfba13f952ccdf79b1e4a9999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:14 +0000
Subject: [PATCH 11/38] fix: return an error when gracefully stopping a stopped
 actor

---
 src/actor/actor_ref.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actor/actor_ref.rs b/src/actor/actor_ref.rs
index 4aaed0d..e29c169 100644
--- a/src/actor/actor_ref.rs
+++ b/src/actor/actor_ref.rs
@@ -24,7 +24,7 @@ use crate::request;
 
 use crate::{
     error::{self, PanicError, SendError},
-    mailbox::{MailboxSender, Signal, SignalMailbox, WeakMailboxSender},
+    mailbox::{MailboxSender, SignalMailbox, WeakMailboxSender},
     message::{Message, StreamMessage},
     request::{AskRequest, RecipientTellRequest, TellRequest, WithoutRequestTimeout},
     Actor,
@@ -208,7 +208,7 @@ where
     /// before it shuts down. Any new messages sent after the stop signal will be ignored.
     #[inline]
     pub async fn stop_gracefully(&self) -> Result<(), SendError> {
-        Ok(self.mailbox_sender.send(Signal::Stop).await?)
+        self.mailbox_sender.signal_stop().await
     }
 
     /// Kills the actor immediately.
-- 
2.43.0


From 81b1950447049c610d0e2b9d2962e5d25db57eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:14 +0000
Subject: [PATCH 12/38] fix: implement downgrading of recipients

---
 src/actor/actor_ref.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/actor/actor_ref.rs b/src/actor/actor_ref.rs
index e29c169..94e7a19 100644
--- a/src/actor/actor_ref.rs
+++ b/src/actor/actor_ref.rs
@@ -1361,7 +1361,7 @@ impl<M: Send + 'static> WeakRecipient<M> {
     }
 }
 
-impl<A: Actor> Clone for WeakRecipient<A> {
+impl<M: Send + 'static> Clone for WeakRecipient<M> {
     fn clone(&self) -> Self {
         WeakRecipient {
             handler: dyn_clone::clone_box(&*self.handler),
@@ -1369,7 +1369,7 @@ impl<A: Actor> Clone for WeakRecipient<A> {
     }
 }
 
-impl<A: Actor> fmt::Debug for WeakRecipient<A> {
+impl<M: Send + 'static> fmt::Debug for WeakRecipient<M> {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         let mut d = f.debug_struct("WeakRecipient");
         d.field("id", &self.handler.id());
@@ -1442,7 +1442,9 @@ where
 
     #[inline]
     fn downgrade(&self) -> WeakRecipient<M> {
-        todo!()
+        WeakRecipient {
+            handler: Box::new(self.downgrade()),
+        }
     }
 
     #[inline]
-- 
2.43.0


From 5cc34f8a8130efca8772cdc67f93a993c0d55e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:15 +0000
Subject: [PATCH 13/38] fix: wait_for_stop waits for the actor to stop

---
 src/actor/actor_ref.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actor/actor_ref.rs b/src/actor/actor_ref.rs
index 94e7a19..b78e27b 100644
--- a/src/actor/actor_ref.rs
+++ b/src/actor/actor_ref.rs
@@ -349,7 +349,7 @@ where
         note = "wait_for_stop has been renamed to wait_for_shutdown"
     )]
     pub async fn wait_for_stop(&self) {
-        self.wait_for_startup().await
+        self.wait_for_shutdown().await
     }
 
     /// Waits for the actor to finish shutdown, returning the shutdown result with a clone of the error.
-- 
2.43.0


From 39e3d4761ec2cb9b94c02f6449af617b4cb0d816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:16 +0000
Subject: [PATCH 14/38] fix: reject actor ids which are too short instead of
 panicking

---
 src/actor/id.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/actor/id.rs b/src/actor/id.rs
index 26f3fff..938ce58 100644
--- a/src/actor/id.rs
+++ b/src/actor/id.rs
@@ -137,7 +137,9 @@ impl ActorID {
     pub fn from_bytes(bytes: &[u8]) -> Result<Self, ActorIDFromBytesError> {
         // Extract the ID
         let sequence_id = u64::from_le_bytes(
-            bytes[0..8]
+            bytes
+                .get(0..8)
+                .ok_or(ActorIDFromBytesError::MissingSequenceID)?
                 .try_into()
                 .map_err(|_| ActorIDFromBytesError::MissingSequenceID)?,
         );
-- 
2.43.0


From 97a34f2502fdf3677973274bf6857ddf30d8dca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:32 +0000
Subject: [PATCH 15/38] fix: handle messages through the on_message hook

---
 src/actor/kind.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actor/kind.rs b/src/actor/kind.rs
index 2d00e78..b4d4e8f 100644
--- a/src/actor/kind.rs
+++ b/src/actor/kind.rs
@@ -109,7 +109,7 @@ where
             return ControlFlow::Continue(());
         }
 
-        let res = AssertUnwindSafe(message.handle_dyn(&mut self.state, actor_ref, reply))
+        let res = AssertUnwindSafe(self.state.on_message(message, actor_ref, reply))
             .catch_unwind()
             .await;
         match res {
-- 
2.43.0


From 6b4a307adb5c6b0d7f927fe45d9d16296823ed20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:33 +0000
Subject: [PATCH 16/38] fix: stop threaded actors when every strong reference
 is dropped

---
 src/actor/spawn.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index d211230..9068d74 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -404,8 +404,8 @@ impl<A: Actor> PreparedActor<A> {
         std::thread::Builder::new()
             .name(A::name().to_string())
             .spawn({
-                let actor_ref = self.actor_ref.clone();
-                move || handle.block_on(CURRENT_ACTOR_ID.scope(actor_ref.id(), self.run(actor)))
+                let id = self.actor_ref.id();
+                move || handle.block_on(CURRENT_ACTOR_ID.scope(id, self.run(actor)))
             })
             .unwrap()
     }
-- 
2.43.0


From 0fa674e2d7828d8a73cacd617a1fb277eb9ec15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:43 +0000
Subject: [PATCH 17/38] fix: size pool worker mailboxes by the mailbox's
 maximum capacity

---
 actors/src/pool.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/actors/src/pool.rs b/actors/src/pool.rs
index d53def0..9949d56 100644
--- a/actors/src/pool.rs
+++ b/actors/src/pool.rs
@@ -106,7 +106,7 @@ where
                     actor_ref: factory(),
                 };
                 let mailbox = match worker.actor_ref.mailbox_sender() {
-                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.capacity()),
+                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.max_capacity()),
                     MailboxSender::Unbounded(_) => mailbox::unbounded(),
                 };
                 (spawn_with_mailbox(worker, mailbox), Arc::new(()))
@@ -135,7 +135,7 @@ where
             FutureExt::map(factory(), |actor_ref| {
                 let worker = Worker { actor_ref };
                 let mailbox = match worker.actor_ref.mailbox_sender() {
-                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.capacity()),
+                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.max_capacity()),
                     MailboxSender::Unbounded(_) => mailbox::unbounded(),
                 };
                 (spawn_with_mailbox(worker, mailbox), Arc::new(()))
@@ -202,7 +202,7 @@ where
             Factory::Sync(f) => {
                 let worker = Worker { actor_ref: f() };
                 let mailbox = match worker.actor_ref.mailbox_sender() {
-                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.capacity()),
+                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.max_capacity()),
                     MailboxSender::Unbounded(_) => mailbox::unbounded(),
                 };
                 (spawn_with_mailbox(worker, mailbox), Arc::new(()))
@@ -212,7 +212,7 @@ where
                     actor_ref: f().await,
                 };
                 let mailbox = match worker.actor_ref.mailbox_sender() {
-                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.capacity()),
+                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.max_capacity()),
                     MailboxSender::Unbounded(_) => mailbox::unbounded(),
                 };
                 (spawn_with_mailbox(worker, mailbox), Arc::new(()))
-- 
2.43.0


From d4aa679db131e41537e65b074eadf26f3b2e90e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:06 +0000
Subject: [PATCH 18/38] fix: don't dispatch to a stopped pool worker while
 others are alive

---
 actors/src/pool.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/actors/src/pool.rs b/actors/src/pool.rs
index 9949d56..f75400a 100644
--- a/actors/src/pool.rs
+++ b/actors/src/pool.rs
@@ -156,7 +156,7 @@ where
     fn next_worker(&self) -> (&ActorRef<Worker<A>>, Weak<()>) {
         self.workers
             .iter()
-            .min_by_key(|(_, load)| Arc::weak_count(load))
+            .min_by_key(|(worker, load)| (!worker.is_alive(), Arc::weak_count(load)))
             .map(|(actor_ref, counter)| (actor_ref, Arc::downgrade(counter)))
             .expect("ActorPool should have at least one worker")
     }
-- 
2.43.0


From d333322eeb0c29f0d66a2b95ac70e401bd19fa87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:06 +0000
Subject: [PATCH 19/38] fix: return handler errors of dispatched messages
 instead of panicking

---
 actors/src/pool.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/actors/src/pool.rs b/actors/src/pool.rs
index f75400a..f2e8544 100644
--- a/actors/src/pool.rs
+++ b/actors/src/pool.rs
@@ -50,7 +50,11 @@ use futures::{
     Future, FutureExt, TryFutureExt,
     future::{BoxFuture, join_all},
 };
-use kameo::{actor::spawn_with_mailbox, error::Infallible, prelude::*};
+use kameo::{
+    actor::spawn_with_mailbox,
+    error::{BoxSendError, Infallible},
+    prelude::*,
+};
 
 enum Factory<A: Actor> {
     Sync(Box<dyn FnMut() -> ActorRef<A> + Send + Sync + 'static>),
@@ -295,6 +299,16 @@ where
     fn into_value(self) -> Self::Value {
         unimplemented!("a WorkerReply cannot be converted to a value and is only a marker type")
     }
+
+    /// The error is sent by the worker, which wraps the error of the actor it sent the message to.
+    fn downcast_err<N: 'static>(err: BoxSendError) -> SendError<N, Self::Error> {
+        match err.downcast::<N, SendError<M, Self::Error>>() {
+            SendError::HandlerError(SendError::HandlerError(err)) => SendError::HandlerError(err),
+            SendError::HandlerError(SendError::Timeout(_)) => SendError::Timeout(None),
+            SendError::HandlerError(_) => SendError::ActorStopped,
+            err => err.map_err(|_| unreachable!("handler errors are handled above")),
+        }
+    }
 }
 
 /// A message to be handled by a worker in an actor pool.
-- 
2.43.0


From a2522ffb4da92ab33da8ea596ca9b7589602d1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:07 +0000
Subject: [PATCH 20/38] fix: report a failed dispatch to the caller instead of
 stopping the pool

---
 actors/src/pool.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/actors/src/pool.rs b/actors/src/pool.rs
index f2e8544..7a29e1b 100644
--- a/actors/src/pool.rs
+++ b/actors/src/pool.rs
@@ -371,7 +371,13 @@ where
             }
         }
 
-        WorkerReply::Err(SendError::ActorNotRunning(msg))
+        match reply_sender {
+            Some(tx) => {
+                tx.send(Err(SendError::ActorNotRunning(msg)));
+                WorkerReply::Forwarded
+            }
+            None => WorkerReply::Err(SendError::ActorNotRunning(msg)),
+        }
     }
 }
 
-- 
2.43.0


From 745b924bba43376865feb4848e92e2c387f0ea5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:07 +0000
Subject: [PATCH 21/38] fix: replace pool workers whose actor has stopped

---
 actors/src/pool.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/actors/src/pool.rs b/actors/src/pool.rs
index 7a29e1b..988e618 100644
--- a/actors/src/pool.rs
+++ b/actors/src/pool.rs
@@ -257,9 +257,14 @@ where
             msg,
             counter: _counter,
         }: WorkerMsgWrapper<M>,
-        _ctx: &mut Context<Self, Self::Reply>,
+        ctx: &mut Context<Self, Self::Reply>,
     ) -> Self::Reply {
-        self.actor_ref.ask(msg).await
+        let res = self.actor_ref.ask(msg).await;
+        if !self.actor_ref.is_alive() {
+            // Stop, so that the pool replaces this worker
+            ctx.actor_ref().kill();
+        }
+        res
     }
 }
 
-- 
2.43.0


From 1702d6374e8cad3399e02b7bf393ce8cf1420856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:21 +0000
Subject: [PATCH 22/38] fix: treat an actor running in the current task as the
 current actor

---
 src/actor/spawn.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index 9068d74..a52c734 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -365,13 +365,17 @@ impl<A: Actor> PreparedActor<A> {
     /// # });
     /// ```
     pub async fn run(self, actor: A) -> (A, ActorStopReason) {
-        run_actor_lifecycle::<A, ActorBehaviour<A>>(
-            actor,
-            self.actor_ref,
-            self.mailbox_rx,
-            self.abort_registration,
-        )
-        .await
+        CURRENT_ACTOR_ID
+            .scope(
+                self.actor_ref.id(),
+                run_actor_lifecycle::<A, ActorBehaviour<A>>(
+                    actor,
+                    self.actor_ref,
+                    self.mailbox_rx,
+                    self.abort_registration,
+                ),
+            )
+            .await
     }
 
     /// Spawns the actor in a new background tokio task, returning the `JoinHandle`.
-- 
2.43.0


From e836ad3215ed52a6c9d550b154012d6bb8453d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:07 +0000
Subject: [PATCH 23/38] fix: deserialize actor ids from formats which don't
 borrow bytes

---
 src/actor/id.rs | 43 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/src/actor/id.rs b/src/actor/id.rs
index 938ce58..37df8b6 100644
--- a/src/actor/id.rs
+++ b/src/actor/id.rs
@@ -202,15 +202,42 @@ impl<'de> Deserialize<'de> for ActorID {
     where
         D: serde::Deserializer<'de>,
     {
-        let bytes = <&[u8]>::deserialize(deserializer)?;
-        let bytes_len = bytes.len();
-        ActorID::from_bytes(bytes).map_err(|err| match err {
-            ActorIDFromBytesError::MissingSequenceID => {
-                serde::de::Error::invalid_length(bytes_len, &"sequence ID")
+        struct ActorIDVisitor;
+
+        impl<'de> serde::de::Visitor<'de> for ActorIDVisitor {
+            type Value = ActorID;
+
+            fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+                write!(f, "the bytes of an actor ID")
             }
-            #[cfg(feature = "remote")]
-            err @ ActorIDFromBytesError::ParsePeerID(_) => serde::de::Error::custom(err),
-        })
+
+            fn visit_bytes<E>(self, bytes: &[u8]) -> Result<ActorID, E>
+            where
+                E: serde::de::Error,
+            {
+                ActorID::from_bytes(bytes).map_err(|err| match err {
+                    ActorIDFromBytesError::MissingSequenceID => {
+                        E::invalid_length(bytes.len(), &"sequence ID")
+                    }
+                    #[cfg(feature = "remote")]
+                    err @ ActorIDFromBytesError::ParsePeerID(_) => E::custom(err),
+                })
+            }
+
+            // Formats without a byte type, such as JSON, represent bytes as a sequence of integers
+            fn visit_seq<S>(self, mut seq: S) -> Result<ActorID, S::Error>
+            where
+                S: serde::de::SeqAccess<'de>,
+            {
+                let mut bytes = Vec::new();
+                while let Some(byte) = seq.next_element::<u8>()? {
+                    bytes.push(byte);
+                }
+                self.visit_bytes(&bytes)
+            }
+        }
+
+        deserializer.deserialize_bytes(ActorIDVisitor)
     }
 }
 
-- 
2.43.0


From c1cf171f1693d38441413719696d475480568563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:07 +0000
Subject: [PATCH 24/38] fix: stop handling messages as soon as an actor is
 killed

---
 src/actor/spawn.rs | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index a52c734..b833954 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -476,12 +476,20 @@ where
     let mut state = S::new_from_actor(actor, actor_ref.clone());
 
     let reason = match start_res {
-        Ok(()) => Abortable::new(
-            abortable_actor_loop(&mut state, &mut mailbox_rx, startup_remaining),
-            abort_registration,
-        )
-        .await
-        .unwrap_or(ActorStopReason::Killed),
+        Ok(()) => {
+            let abort_handle = abort_registration.handle();
+            Abortable::new(
+                abortable_actor_loop(
+                    &mut state,
+                    &mut mailbox_rx,
+                    startup_remaining,
+                    &abort_handle,
+                ),
+                abort_registration,
+            )
+            .await
+            .unwrap_or(ActorStopReason::Killed)
+        }
         Err(err) => {
             let reason = ActorStopReason::Panicked(err);
             state
@@ -580,13 +588,15 @@ async fn abortable_actor_loop<A, S>(
     state: &mut S,
     mailbox_rx: &mut MailboxReceiver<A>,
     mut startup_remaining: Option<usize>,
+    abort_handle: &AbortHandle,
 ) -> ActorStopReason
 where
     A: Actor,
     S: ActorState<A>,
 {
     loop {
-        let reason = recv_mailbox_loop(state, mailbox_rx, &mut startup_remaining).await;
+        let reason =
+            recv_mailbox_loop(state, mailbox_rx, &mut startup_remaining, abort_handle).await;
         if let ControlFlow::Break(reason) = state.on_shutdown(reason).await {
             return reason;
         }
@@ -597,12 +607,18 @@ async fn recv_mailbox_loop<A, S>(
     state: &mut S,
     mailbox_rx: &mut MailboxReceiver<A>,
     startup_remaining: &mut Option<usize>,
+    abort_handle: &AbortHandle,
 ) -> ActorStopReason
 where
     A: Actor,
     S: ActorState<A>,
 {
     loop {
+        // `Abortable` only notices once the actor waits, but messages are ignored as soon as the actor is killed
+        if abort_handle.is_aborted() {
+            return ActorStopReason::Killed;
+        }
+
         match startup_remaining {
             Some(0) => {
                 *startup_remaining = None;
-- 
2.43.0


From c91119ca59a2c9714787a868cfbbd5387132bcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:48 +0000
Subject: [PATCH 25/38] fix: pass handler errors through chains of forwards

---
 src/reply.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/src/reply.rs b/src/reply.rs
index 75d8d10..02ded32 100644
--- a/src/reply.rs
+++ b/src/reply.rs
@@ -292,18 +292,11 @@ where
         *ok.downcast().unwrap()
     }
 
-    /// The error is either from the inner `R`, or our outer `SendError`.
+    /// The error is either our outer `SendError`, or from the inner `R`, which might itself have been forwarded.
     /// We'll try both.
     fn downcast_err<N: 'static>(err: BoxSendError) -> SendError<N, Self::Error> {
-        err.try_downcast::<N, R::Error>()
-            .map(|err| err.map_err(SendError::HandlerError))
-            .unwrap_or_else(|err| {
-                err.downcast::<M, SendError<M, R::Error>>().map_msg(|_| {
-                    unreachable!(
-                        "forwarded reply is only an error if it failed to forward the message"
-                    )
-                })
-            })
+        err.try_downcast::<N, Self::Error>()
+            .unwrap_or_else(|err| R::downcast_err::<N>(err).map_err(SendError::HandlerError))
     }
 }
 
-- 
2.43.0


From 8aecef21a7f198a0225d92d893b028ffe3168abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:58 +0000
Subject: [PATCH 26/38] fix: don't panic on malformed registration records

Unregistering leaves an empty record on the other nodes, and any peer can store
any record. Looking such a name up panicked the caller, or the task running the
swarm for local lookups. These names aren't registered.
---
 src/remote/swarm.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/remote/swarm.rs b/src/remote/swarm.rs
index 9715833..caf4331 100644
--- a/src/remote/swarm.rs
+++ b/src/remote/swarm.rs
@@ -330,14 +330,13 @@ impl ActorSwarm {
         async move {
             match reply_rx.await {
                 Ok(kad::PeerRecord { record, .. }) => {
-                    if record.value.is_empty() {
-                        return Ok(None);
-                    }
-
-                    let ActorRegistration {
+                    let Some(ActorRegistration {
                         actor_id,
                         remote_id,
-                    } = ActorRegistration::from_bytes(&record.value);
+                    }) = ActorRegistration::from_bytes(&record.value)
+                    else {
+                        return Ok(None);
+                    };
                     if A::REMOTE_ID != remote_id {
                         return Err(RegistryError::BadActorType);
                     }
@@ -575,7 +574,10 @@ impl ActorSwarmHandler {
                 let registration = swarm
                     .behaviour_mut()
                     .kademlia_get_record_local(&key)
-                    .map(|record| ActorRegistration::from_bytes(&record.value).into_owned());
+                    .and_then(|record| {
+                        ActorRegistration::from_bytes(&record.value)
+                            .map(ActorRegistration::into_owned)
+                    });
                 let _ = reply.send(registration);
             }
             SwarmCommand::Register { record, reply } => {
@@ -1214,11 +1216,13 @@ impl<'a> ActorRegistration<'a> {
         bytes
     }
 
-    fn from_bytes(bytes: &'a [u8]) -> Self {
-        let peer_id_bytes_len = u8::from_le_bytes(bytes[..1].try_into().unwrap()) as usize;
-        let actor_id = ActorID::from_bytes(&bytes[1..1 + 8 + peer_id_bytes_len]).unwrap();
-        let remote_id = std::str::from_utf8(&bytes[1 + 8 + peer_id_bytes_len..]).unwrap();
-        ActorRegistration::new(actor_id, Cow::Borrowed(remote_id))
+    /// Returns `None` for records which aren't a registration,
+    /// including the empty ones left behind by unregistering.
+    fn from_bytes(bytes: &'a [u8]) -> Option<Self> {
+        let peer_id_bytes_len = usize::from(*bytes.first()?);
+        let actor_id = ActorID::from_bytes(bytes.get(1..1 + 8 + peer_id_bytes_len)?).ok()?;
+        let remote_id = std::str::from_utf8(&bytes[1 + 8 + peer_id_bytes_len..]).ok()?;
+        Some(ActorRegistration::new(actor_id, Cow::Borrowed(remote_id)))
     }
 
     fn into_owned(self) -> ActorRegistration<'static> {
-- 
2.43.0


From ccb8ffa7ce9ce43e8ef1d007fb39eec7051d7b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:59 +0000
Subject: [PATCH 27/38] fix: report registrations the record store refuses

A full store panicked the task running the swarm, which broke every later
operation of the node.
---
 src/remote/swarm.rs | 48 +++++++++++++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/src/remote/swarm.rs b/src/remote/swarm.rs
index caf4331..2007226 100644
--- a/src/remote/swarm.rs
+++ b/src/remote/swarm.rs
@@ -1,5 +1,5 @@
 use core::task;
-use std::{borrow::Cow, collections::HashMap, io, pin, time::Duration};
+use std::{borrow::Cow, collections::HashMap, io, num::NonZeroUsize, pin, time::Duration};
 
 use futures::{ready, stream::FuturesUnordered, Future, FutureExt, StreamExt};
 use libp2p::{
@@ -583,17 +583,24 @@ impl ActorSwarmHandler {
             SwarmCommand::Register { record, reply } => {
                 if swarm.network_info().num_peers() == 0 {
                     let key = record.key.clone();
-                    swarm
-                        .behaviour_mut()
-                        .kademlia_put_record_local(record)
-                        .unwrap();
-                    let _ = reply.send(Ok(kad::PutRecordOk { key }));
+                    let res = match swarm.behaviour_mut().kademlia_put_record_local(record) {
+                        Ok(()) => Ok(kad::PutRecordOk { key }),
+                        Err(_) => Err(record_refused(key)),
+                    };
+                    let _ = reply.send(res);
                 } else {
-                    let query_id = swarm
+                    let key = record.key.clone();
+                    match swarm
                         .behaviour_mut()
                         .kademlia_put_record(record, kad::Quorum::One)
-                        .unwrap();
-                    self.put_queries.insert(query_id, reply);
+                    {
+                        Ok(query_id) => {
+                            self.put_queries.insert(query_id, reply);
+                        }
+                        Err(_) => {
+                            let _ = reply.send(Err(record_refused(key)));
+                        }
+                    }
                 }
             }
             SwarmCommand::Unregister { key, reply } => {
@@ -602,12 +609,18 @@ impl ActorSwarmHandler {
                     let _ = reply.send(Ok(kad::PutRecordOk { key }));
                 } else {
                     let record = kad::Record::new(key.clone(), vec![]);
-                    let query_id = swarm
+                    let res = swarm
                         .behaviour_mut()
-                        .kademlia_put_record(record, kad::Quorum::One)
-                        .unwrap();
+                        .kademlia_put_record(record, kad::Quorum::One);
                     swarm.behaviour_mut().kademlia_remove_record(&key);
-                    self.put_queries.insert(query_id, reply);
+                    match res {
+                        Ok(query_id) => {
+                            self.put_queries.insert(query_id, reply);
+                        }
+                        Err(_) => {
+                            let _ = reply.send(Err(record_refused(key)));
+                        }
+                    }
                 }
             }
             SwarmCommand::Ask {
@@ -998,6 +1011,15 @@ impl ActorSwarmHandler {
     }
 }
 
+/// The local record store refused the record, so it isn't stored on any peer.
+fn record_refused(key: kad::RecordKey) -> kad::PutRecordError {
+    kad::PutRecordError::QuorumFailed {
+        key,
+        success: Vec::new(),
+        quorum: NonZeroUsize::MIN,
+    }
+}
+
 #[derive(Clone, Debug)]
 pub(crate) struct SwarmSender(mpsc::UnboundedSender<SwarmCommand>);
 
-- 
2.43.0


From 49319d03d53a2dc34a61a9d9134e3c35a09d9572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:13 +0000
Subject: [PATCH 28/38] fix: serve requests to local actors whoever else is
 connected

Once a peer was connected, requests to this node's own actors through remote
references were sent to the own peer id, which cannot be dialed. Without peers,
requests to actors of other nodes were looked up here instead of being sent.
---
 src/remote/swarm.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/remote/swarm.rs b/src/remote/swarm.rs
index 2007226..49099b2 100644
--- a/src/remote/swarm.rs
+++ b/src/remote/swarm.rs
@@ -634,7 +634,7 @@ impl ActorSwarmHandler {
                 immediate,
                 reply,
             } => {
-                if swarm.network_info().num_peers() == 0 {
+                if peer_id == *swarm.local_peer_id() {
                     tokio::spawn(async move {
                         let result = remote::ask(
                             actor_id,
@@ -672,7 +672,7 @@ impl ActorSwarmHandler {
                 immediate,
                 reply,
             } => {
-                if swarm.network_info().num_peers() == 0 {
+                if peer_id == *swarm.local_peer_id() {
                     tokio::spawn(async move {
                         let result = remote::tell(
                             actor_id,
@@ -711,7 +711,7 @@ impl ActorSwarmHandler {
                 sibbling_remote_id,
                 reply,
             } => {
-                if swarm.network_info().num_peers() == 0 {
+                if sibbling_id.peer_id() == Some(swarm.local_peer_id()) {
                     tokio::spawn(async move {
                         let result = remote::link(
                             sibbling_id,
@@ -741,7 +741,7 @@ impl ActorSwarmHandler {
                 sibbling_remote_id,
                 reply,
             } => {
-                if swarm.network_info().num_peers() == 0 {
+                if sibbling_id.peer_id() == Some(swarm.local_peer_id()) {
                     tokio::spawn(async move {
                         let result =
                             remote::unlink(sibbling_id, sibbling_remote_id, actor_id).await;
@@ -765,7 +765,7 @@ impl ActorSwarmHandler {
                 stop_reason,
                 reply,
             } => {
-                if swarm.network_info().num_peers() == 0 {
+                if notified_actor_id.peer_id() == Some(swarm.local_peer_id()) {
                     tokio::spawn(async move {
                         let result = remote::signal_link_died(
                             dead_actor_id,
-- 
2.43.0


From 83f87478ff808472a57e4b23326f4924bf54d649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:13 +0000
Subject: [PATCH 29/38] fix: a peer is disconnected once its last connection is
 closed

Linked actors were told that the peer disconnected when one of several
connections to it was closed, such as after both nodes dialed each other.
---
 src/remote/swarm.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/remote/swarm.rs b/src/remote/swarm.rs
index 49099b2..59a8b09 100644
--- a/src/remote/swarm.rs
+++ b/src/remote/swarm.rs
@@ -803,7 +803,11 @@ impl ActorSwarmHandler {
         event: ActorSwarmEvent,
     ) {
         match event {
-            ActorSwarmEvent::ConnectionClosed { peer_id, .. } => {
+            ActorSwarmEvent::ConnectionClosed {
+                peer_id,
+                num_established: 0,
+                ..
+            } => {
                 tokio::spawn(async move {
                     let mut futures = FuturesUnordered::new();
                     for RemoteRegistryActorRef {
-- 
2.43.0


From fe2e46d4c073b2567094d7f604b83bdacb081369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:30 +0000
Subject: [PATCH 30/38] fix: hash local actor ids the same before and after
 bootstrapping

---
 src/actor/id.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/actor/id.rs b/src/actor/id.rs
index 37df8b6..be4f298 100644
--- a/src/actor/id.rs
+++ b/src/actor/id.rs
@@ -271,8 +271,11 @@ impl Eq for PeerIdKind {}
 #[cfg(feature = "remote")]
 impl Hash for PeerIdKind {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        if let Some(peer_id) = self.peer_id() {
-            state.write(&peer_id.to_bytes());
+        // A local ID must hash the same before and after the swarm is bootstrapped, so the local peer ID is left out
+        if let PeerIdKind::PeerId(peer_id) = self {
+            if Some(peer_id) != ActorSwarm::get().map(ActorSwarm::local_peer_id) {
+                state.write(&peer_id.to_bytes());
+            }
         }
     }
 }
-- 
2.43.0


From 4c38c1f496620b600ce7e0f8de4ff217de6c9a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:51 +0000
Subject: [PATCH 31/38] fix: don't register actors for other nodes once they
 stopped

---
 src/actor/actor_ref.rs | 22 ++++++++++++++--------
 src/remote/swarm.rs    | 20 ++++++++++++--------
 2 files changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/actor/actor_ref.rs b/src/actor/actor_ref.rs
index b78e27b..84bbba3 100644
--- a/src/actor/actor_ref.rs
+++ b/src/actor/actor_ref.rs
@@ -596,14 +596,20 @@ where
             return Ok(());
         }
 
-        remote::REMOTE_REGISTRY.lock().await.insert(
-            self.id,
-            remote::RemoteRegistryActorRef {
-                actor_ref: Box::new(self.clone()),
-                signal_mailbox: self.weak_signal_mailbox(),
-                links: self.links.clone(),
-            },
-        );
+        {
+            let mut registry = remote::REMOTE_REGISTRY.lock().await;
+            // A stopped actor has already been removed
+            if self.is_alive() {
+                registry.insert(
+                    self.id,
+                    remote::RemoteRegistryActorRef {
+                        actor_ref: Box::new(self.clone()),
+                        signal_mailbox: self.weak_signal_mailbox(),
+                        links: self.links.clone(),
+                    },
+                );
+            }
+        }
 
         self.links.lock().await.insert(
             sibbling_ref.id,
diff --git a/src/remote/swarm.rs b/src/remote/swarm.rs
index 59a8b09..6dac6b7 100644
--- a/src/remote/swarm.rs
+++ b/src/remote/swarm.rs
@@ -372,14 +372,18 @@ impl ActorSwarm {
                 Ok(kad::PutRecordOk { .. }) => {
                     let signal_mailbox = actor_ref.weak_signal_mailbox();
                     let links = actor_ref.links.clone();
-                    REMOTE_REGISTRY.lock().await.insert(
-                        actor_ref.id(),
-                        RemoteRegistryActorRef {
-                            actor_ref: Box::new(actor_ref),
-                            signal_mailbox,
-                            links,
-                        },
-                    );
+                    let mut registry = REMOTE_REGISTRY.lock().await;
+                    // An actor which stopped meanwhile has already been removed, or never been there
+                    if actor_ref.is_alive() {
+                        registry.insert(
+                            actor_ref.id(),
+                            RemoteRegistryActorRef {
+                                actor_ref: Box::new(actor_ref),
+                                signal_mailbox,
+                                links,
+                            },
+                        );
+                    }
                     Ok(())
                 }
                 Err(kad::PutRecordError::QuorumFailed { quorum, .. }) => {
-- 
2.43.0


From 8fb3cd921dca6f3a8ac1f01c291a177cf41b92fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:22 +0000
Subject: [PATCH 32/38] fix: drop messages sent while an actor ends, so that
 asking it doesn't hang

---
 src/actor/spawn.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index b833954..e882a52 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -13,7 +13,7 @@ use futures::{
 use tokio::{
     runtime::{Handle, RuntimeFlavor},
     sync::Semaphore,
-    task::JoinHandle,
+    task::{unconstrained, JoinHandle},
 };
 #[cfg(feature = "tracing")]
 use tracing::{error, trace};
@@ -576,7 +576,7 @@ where
     }
 
     // Notifying waits for room in the mailboxes of linked actors, which might themselves be waiting on this actor
-    drop(mailbox_rx);
+    drain_mailbox(mailbox_rx).await;
     while let Some(()) = link_notification_futures.next().await {}
     #[cfg(feature = "remote")]
     remote::REMOTE_REGISTRY.lock().await.remove(&id);
@@ -584,6 +584,25 @@ where
     (actor, reason)
 }
 
+/// Closes the mailbox, dropping the messages in it, including those which are just being sent.
+///
+/// Dropping the receiver alone would leave the latter in the mailbox until all of its senders are gone,
+/// which never happens if one of them is waiting for the reply.
+async fn drain_mailbox<A: Actor>(mut mailbox_rx: MailboxReceiver<A>) {
+    mailbox_rx.close();
+    let drain = async move { while mailbox_rx.recv().await.is_some() {} };
+    let mut drain = unconstrained(drain.boxed());
+    if futures::poll!(&mut drain).is_pending() {
+        // A sender which has room but isn't polled might take arbitrarily long
+        match Handle::try_current() {
+            Ok(handle) => {
+                handle.spawn(drain);
+            }
+            Err(_) => drain.await,
+        }
+    }
+}
+
 async fn abortable_actor_loop<A, S>(
     state: &mut S,
     mailbox_rx: &mut MailboxReceiver<A>,
-- 
2.43.0


From 9a1ed6f2e1c37d688ad556e54a696069f02ea863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:22 +0000
Subject: [PATCH 33/38] fix: report an actor as killed when it's killed before
 the last reference is dropped

---
 src/actor/spawn.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index e882a52..1502c78 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -649,7 +649,12 @@ where
             None => {}
         }
 
-        match state.next(mailbox_rx).await {
+        let signal = state.next(mailbox_rx).await;
+        if abort_handle.is_aborted() {
+            return ActorStopReason::Killed;
+        }
+
+        match signal {
             Some(Signal::StartupFinished) => {
                 if let ControlFlow::Break(reason) = state.handle_startup_finished().await {
                     return reason;
-- 
2.43.0


From 2de25e0bbb6606a55af374c73fdf466f61d17383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:00 +0000
Subject: [PATCH 34/38] fix: repeat no type parameter of a generated message

---
 macros/src/messages.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/macros/src/messages.rs b/macros/src/messages.rs
index 5a7de82..0158ef1 100644
--- a/macros/src/messages.rs
+++ b/macros/src/messages.rs
@@ -165,11 +165,20 @@ impl Messages {
                                     generics.extend(contains_generic_in_param(&ty.ty, &impl_item_generics));
                                 }
                             }
+
                             if let ReturnType::Type(_, ty) = &impl_item_fn.sig.output {
                                 generics.extend(contains_generic_in_param(ty, &impl_item_generics));
                             }
 
-                            generics.dedup();
+                            let generics = generics.into_iter().fold(
+                                Vec::<GenericParam>::new(),
+                                |mut generics, param| {
+                                    if !generics.contains(&param) {
+                                        generics.push(param);
+                                    }
+                                    generics
+                                },
+                            );
                             let generics = if generics.is_empty() {
                                 impl_item_fn.sig.generics.clone()
                             } else {
-- 
2.43.0


From 4fb200389b2ed661948442aa5604c5b6eb381b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:00 +0000
Subject: [PATCH 35/38] fix: give generated messages only the type parameters
 of their arguments

---
 macros/src/messages.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/macros/src/messages.rs b/macros/src/messages.rs
index 0158ef1..7ad78e4 100644
--- a/macros/src/messages.rs
+++ b/macros/src/messages.rs
@@ -166,10 +166,6 @@ impl Messages {
                                 }
                             }
 
-                            if let ReturnType::Type(_, ty) = &impl_item_fn.sig.output {
-                                generics.extend(contains_generic_in_param(ty, &impl_item_generics));
-                            }
-
                             let generics = generics.into_iter().fold(
                                 Vec::<GenericParam>::new(),
                                 |mut generics, param| {
-- 
2.43.0


From 01e45610a202b46df1c5a37bfaa4efffa957aa0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:00 +0000
Subject: [PATCH 36/38] fix: notify the links an actor has when it stopped, so
 that links made while it stops count

---
 src/actor/spawn.rs | 65 +++++++++++++++++++++++-----------------------
 1 file changed, 33 insertions(+), 32 deletions(-)

diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index 1502c78..1a40a0a 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -502,6 +502,39 @@ where
 
     let mut actor = state.shutdown().await;
 
+    let on_stop_res = AssertUnwindSafe(actor.on_stop(actor_ref.clone(), reason.clone()))
+        .catch_unwind()
+        .await
+        .map(|res| res.map_err(|err| PanicError::new(Box::new(err))))
+        .map_err(PanicError::new_from_panic_any)
+        .and_then(convert::identity);
+    log_actor_stop_reason(id, name, &reason);
+
+    match on_stop_res {
+        Ok(()) => {
+            if let Some(actor_ref) = actor_ref.upgrade() {
+                actor_ref
+                    .shutdown_error
+                    .set(None)
+                    .expect("nothing else should set the shutdown error");
+            }
+        }
+        Err(err) => {
+            invoke_actor_error_hook(&err);
+            if let Some(actor_ref) = actor_ref.upgrade() {
+                actor_ref
+                    .shutdown_error
+                    .set(Some(err))
+                    .expect("nothing else should set the shutdown error");
+            }
+        }
+    }
+
+    // Links made until now count, and so does unlinking
+    drain_mailbox(mailbox_rx).await;
+    #[cfg(feature = "remote")]
+    remote::REMOTE_REGISTRY.lock().await.remove(&id);
+
     let mut link_notification_futures = FuturesUnordered::new();
     {
         let mut links = links.lock().await;
@@ -546,40 +579,8 @@ where
             }
         }
     }
-
-    let on_stop_res = AssertUnwindSafe(actor.on_stop(actor_ref.clone(), reason.clone()))
-        .catch_unwind()
-        .await
-        .map(|res| res.map_err(|err| PanicError::new(Box::new(err))))
-        .map_err(PanicError::new_from_panic_any)
-        .and_then(convert::identity);
-    log_actor_stop_reason(id, name, &reason);
-
-    match on_stop_res {
-        Ok(()) => {
-            if let Some(actor_ref) = actor_ref.upgrade() {
-                actor_ref
-                    .shutdown_error
-                    .set(None)
-                    .expect("nothing else should set the shutdown error");
-            }
-        }
-        Err(err) => {
-            invoke_actor_error_hook(&err);
-            if let Some(actor_ref) = actor_ref.upgrade() {
-                actor_ref
-                    .shutdown_error
-                    .set(Some(err))
-                    .expect("nothing else should set the shutdown error");
-            }
-        }
-    }
-
     // Notifying waits for room in the mailboxes of linked actors, which might themselves be waiting on this actor
-    drain_mailbox(mailbox_rx).await;
     while let Some(()) = link_notification_futures.next().await {}
-    #[cfg(feature = "remote")]
-    remote::REMOTE_REGISTRY.lock().await.remove(&id);
 
     (actor, reason)
 }
-- 
2.43.0


From 068d7d61120efb43468de2a3b5106923393aa796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:00 +0000
Subject: [PATCH 37/38] fix: keep a pool running when a task finds no worker
 running

---
 actors/src/pool.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/actors/src/pool.rs b/actors/src/pool.rs
index 988e618..c0d93f1 100644
--- a/actors/src/pool.rs
+++ b/actors/src/pool.rs
@@ -295,10 +295,8 @@ where
     }
 
     fn into_any_err(self) -> Option<Box<dyn ReplyError>> {
-        match self {
-            WorkerReply::Forwarded => None,
-            WorkerReply::Err(err) => Some(Box::new(err)),
-        }
+        // A stopped worker gets replaced, so a message which found none running shouldn't stop the pool
+        None
     }
 
     fn into_value(self) -> Self::Value {
-- 
2.43.0


From f9af2246c1481d00f5a9f82f3ab790ab7a97a48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:22 +0000
Subject: [PATCH 38/38] fix: find the type parameters of a generated message
 within the arguments of types

---
 macros/src/messages.rs | 82 ++++++++++++++++++++++++------------------
 1 file changed, 48 insertions(+), 34 deletions(-)

diff --git a/macros/src/messages.rs b/macros/src/messages.rs
index 7ad78e4..b06e266 100644
--- a/macros/src/messages.rs
+++ b/macros/src/messages.rs
@@ -6,8 +6,8 @@ use syn::{
     parse_quote, parse_quote_spanned,
     punctuated::Punctuated,
     spanned::Spanned,
-    Attribute, Field, FnArg, GenericParam, Generics, Ident, ImplItem, ItemImpl, Meta, ReturnType,
-    Signature, Token, Type, Visibility,
+    Attribute, Field, FnArg, GenericArgument, GenericParam, Generics, Ident, ImplItem, ItemImpl,
+    Meta, PathArguments, ReturnType, Signature, Token, Type, Visibility,
 };
 
 pub struct Messages {
@@ -444,6 +444,50 @@ fn validate_param(ty: &Type) -> syn::Result<()> {
     }
 }
 
+fn contains_generic_in_path(path: &syn::Path, generics: &[GenericParam]) -> Vec<GenericParam> {
+    if let Some(ident) = path.get_ident() {
+        let is_in_generics = generics
+            .iter()
+            .filter_map(|param| match param {
+                GenericParam::Type(type_param) => Some(type_param),
+                _ => None,
+            })
+            .any(|type_param| &type_param.ident == ident);
+        if is_in_generics {
+            return vec![parse_quote! { #ident }];
+        }
+    }
+
+    path.segments
+        .iter()
+        .flat_map(|segment| match &segment.arguments {
+            PathArguments::None => vec![],
+            PathArguments::AngleBracketed(args) => args
+                .args
+                .iter()
+                .flat_map(|arg| match arg {
+                    GenericArgument::Type(ty) => contains_generic_in_param(ty, generics),
+                    GenericArgument::AssocType(assoc) => {
+                        contains_generic_in_param(&assoc.ty, generics)
+                    }
+                    _ => vec![],
+                })
+                .collect(),
+            PathArguments::Parenthesized(args) => {
+                let mut params: Vec<_> = args
+                    .inputs
+                    .iter()
+                    .flat_map(|ty| contains_generic_in_param(ty, generics))
+                    .collect();
+                if let ReturnType::Type(_, ty) = &args.output {
+                    params.extend(contains_generic_in_param(ty, generics));
+                }
+                params
+            }
+        })
+        .collect()
+}
+
 fn contains_generic_in_param(ty: &Type, generics: &[GenericParam]) -> Vec<GenericParam> {
     match ty {
         Type::Array(array) => contains_generic_in_param(&array.elem, generics),
@@ -464,22 +508,7 @@ fn contains_generic_in_param(ty: &Type, generics: &[GenericParam]) -> Vec<Generi
         Type::Macro(_) => vec![],
         Type::Never(_) => vec![],
         Type::Paren(paren) => contains_generic_in_param(&paren.elem, generics),
-        Type::Path(path) => {
-            if let Some(ident) = path.path.get_ident() {
-                let is_in_generics = generics
-                    .iter()
-                    .filter_map(|param| match param {
-                        GenericParam::Type(type_param) => Some(type_param),
-                        _ => None,
-                    })
-                    .any(|type_param| &type_param.ident == ident);
-                if is_in_generics {
-                    return vec![parse_quote! { #ident }];
-                }
-            }
-
-            vec![]
-        }
+        Type::Path(path) => contains_generic_in_path(&path.path, generics),
         Type::Ptr(ptr) => contains_generic_in_param(&ptr.elem, generics),
         Type::Reference(reference) => {
             let mut params = Vec::new();
@@ -504,22 +533,7 @@ fn contains_generic_in_param(ty: &Type, generics: &[GenericParam]) -> Vec<Generi
             .bounds
             .iter()
             .flat_map(|bound| match bound {
-                syn::TypeParamBound::Trait(trt) => {
-                    if let Some(ident) = trt.path.get_ident() {
-                        let is_in_generics = generics
-                            .iter()
-                            .filter_map(|param| match param {
-                                GenericParam::Type(type_param) => Some(type_param),
-                                _ => None,
-                            })
-                            .any(|type_param| &type_param.ident == ident);
-                        if is_in_generics {
-                            return vec![parse_quote! { #ident }];
-                        }
-                    }
-
-                    vec![]
-                }
+                syn::TypeParamBound::Trait(trt) => contains_generic_in_path(&trt.path, generics),
                 syn::TypeParamBound::Lifetime(lifetime) => {
                     let is_in_generics = generics
                         .iter()
-- 
2.43.0

