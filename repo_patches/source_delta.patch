From bff5be9c8626ddca3f1eaafe1ce3741fe753d282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:06 +0000
Subject: [PATCH 01/57] fix: stop handling control events once a component is
 killed

A Start, Stop, Kill or Poll queued behind a Kill was still handled, running
hooks and futures of a destroyed component and even bringing it back to life.
---
 core/src/component/actual_component.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/core/src/component/actual_component.rs b/core/src/component/actual_component.rs
index ca1a77a..4d64d17 100644
--- a/core/src/component/actual_component.rs
+++ b/core/src/component/actual_component.rs
@@ -461,7 +461,11 @@ impl<CD: ComponentTraits> Component<CD> {
                         Ok(Handled::Ok) => match event {
                             lifecycle::ControlEvent::Start => self.notify_started(),
                             lifecycle::ControlEvent::Stop => self.set_passive(),
-                            lifecycle::ControlEvent::Kill => self.set_destroyed(),
+                            lifecycle::ControlEvent::Kill => {
+                                self.set_destroyed();
+                                // nothing may run anymore, no matter what is still queued
+                                return SchedulingDecision::NoWork;
+                            }
                             lifecycle::ControlEvent::Poll(_) => (),
                         },
                         Ok(Handled::BlockOn(blocking_future)) => {
@@ -490,7 +494,10 @@ impl<CD: ComponentTraits> Component<CD> {
                             match event {
                                 lifecycle::ControlEvent::Start => self.notify_started(),
                                 lifecycle::ControlEvent::Stop => self.set_passive(),
-                                lifecycle::ControlEvent::Kill => self.set_destroyed(),
+                                lifecycle::ControlEvent::Kill => {
+                                    self.set_destroyed();
+                                    return SchedulingDecision::NoWork;
+                                }
                                 lifecycle::ControlEvent::Poll(_) => (),
                             }
                         }
-- 
2.43.0


From ec38da389b78648ea92835b47f09da04488af64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:06 +0000
Subject: [PATCH 02/57] fix: account for timeouts cancelled after they were
 queued

Such a timeout was dropped without decrementing the work count, so the component
was rescheduled forever, and other expired timers were not run in this execution.
---
 core/src/component/actual_component.rs | 5 +++++
 core/src/timer/timer_manager.rs        | 4 +++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/src/component/actual_component.rs b/core/src/component/actual_component.rs
index 4d64d17..109da3a 100644
--- a/core/src/component/actual_component.rs
+++ b/core/src/component/actual_component.rs
@@ -528,6 +528,11 @@ impl<CD: ComponentTraits> Component<CD> {
                             count += 1;
                             res
                         }
+                        ExecuteAction::Cancelled => {
+                            // nothing to run, but its work must still be accounted for
+                            count += 1;
+                            continue;
+                        }
                         ExecuteAction::None => break,
                     };
                     check_and_handle_blocking!(self, guard, count, res);
diff --git a/core/src/timer/timer_manager.rs b/core/src/timer/timer_manager.rs
index 7957055..05ddad0 100644
--- a/core/src/timer/timer_manager.rs
+++ b/core/src/timer/timer_manager.rs
@@ -212,6 +212,8 @@ pub(crate) struct Timeout(pub(crate) Uuid);
 
 pub(crate) enum ExecuteAction<C: ComponentDefinition> {
     None,
+    /// A timeout that was cancelled after it had already been queued
+    Cancelled,
     Periodic(Uuid, Rc<dyn Fn(&mut C, Uuid) -> HandlerResult>),
     Once(Uuid, Box<dyn FnOnce(&mut C, Uuid) -> HandlerResult>),
 }
@@ -251,7 +253,7 @@ impl<C: ComponentDefinition> TimerManager<C> {
                     );
                     ExecuteAction::Periodic(timeout.0, action2)
                 }
-                _ => ExecuteAction::None,
+                None => ExecuteAction::Cancelled,
             }
         } else {
             ExecuteAction::None
-- 
2.43.0


From 8cf503c6c313623db33f452a0573359c1a935fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:14 +0000
Subject: [PATCH 03/57] fix: poll a future that replaces a completed blocking
 future

When a blocking future resolved to another Handled::BlockOn, the new future was
stored without ever being polled, so no waker was registered and the component
stayed blocked forever.
---
 core/src/component/context.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/core/src/component/context.rs b/core/src/component/context.rs
index 6b81bdc..6b88ec9 100644
--- a/core/src/component/context.rs
+++ b/core/src/component/context.rs
@@ -223,7 +223,12 @@ where
             .take()
             .expect("Called run_blocking while not blocking!");
         let component = self.typed_component();
-        match blocking_state.future.run(&component) {
+        let mut run_result = blocking_state.future.run(&component);
+        // A replacement future must be polled at least once, or nothing will ever wake it up.
+        while let BlockingRunResult::Unblock(Ok(Handled::BlockOn(f))) = run_result {
+            run_result = f.run(&component);
+        }
+        match run_result {
             BlockingRunResult::BlockOn(f) => {
                 blocking_state.future = f;
                 assert!(
@@ -232,14 +237,6 @@ where
                 );
                 BlockingTaskResult::Pending
             }
-            BlockingRunResult::Unblock(Ok(Handled::BlockOn(f))) => {
-                blocking_state.future = f;
-                assert!(
-                    self.blocking_future.replace(blocking_state).is_none(),
-                    "Replacing a blocking future without completing it first is invalid!"
-                );
-                BlockingTaskResult::Pending
-            }
             BlockingRunResult::Unblock(Ok(Handled::Shutdown))
                 if blocking_state.unblock_state == StateTransition::Destroyed =>
             {
-- 
2.43.0


From 9ca6b22e9dc0e3294b7f52c0ed88e6ada28fa86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:14 +0000
Subject: [PATCH 04/57] fix: complete kill notifications of components that
 were never started

The future returned by kill_notify never completed for such a component, because
only started components are tracked by the supervisor.
---
 core/src/supervision.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/supervision.rs b/core/src/supervision.rs
index 24975fd..e2bb033 100644
--- a/core/src/supervision.rs
+++ b/core/src/supervision.rs
@@ -326,11 +326,11 @@ impl Provide<SupervisionPort> for ComponentSupervisor {
                                 id
                             );
                         }
-                        self.notify_listeners(&id, |l| matches!(l, ListenEvent::Destroyed(_)));
-                        self.drop_listeners(&id);
                     }
                     None => warn!(self.ctx.log(), "An untracked Component({}) was killed.", id),
                 }
+                self.notify_listeners(&id, |l| matches!(l, ListenEvent::Destroyed(_)));
+                self.drop_listeners(&id);
                 self.shutdown_if_no_more_children()
             }
             SupervisorMsg::Faulty(recover_handler) => {
-- 
2.43.0


From cb1930e103ce01e2b519206226ff376496d208d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:14 +0000
Subject: [PATCH 05/57] fix: do not activate a passive component whose local
 future blocks

A future spawned with spawn_local is polled while its component is stopped, too.
If it returned Handled::BlockOn, the component became active once unblocked and
handled messages without having been started.
---
 core/src/component/actual_component.rs | 13 ++++++++++++-
 core/src/component/context.rs          |  3 +++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/core/src/component/actual_component.rs b/core/src/component/actual_component.rs
index 109da3a..1b8f2e9 100644
--- a/core/src/component/actual_component.rs
+++ b/core/src/component/actual_component.rs
@@ -239,6 +239,10 @@ impl<CD: ComponentTraits> Component<CD> {
         debug!(self.logger, "Component stopped");
     }
 
+    pub(super) fn set_still_passive(&self) {
+        lifecycle::set_passive(&self.core.state);
+    }
+
     pub(super) fn set_destroyed(&self) {
         lifecycle::set_destroyed(&self.core.state);
         let supervisor_msg = SupervisorMsg::Killed(self.core.id);
@@ -473,7 +477,14 @@ impl<CD: ComponentTraits> Component<CD> {
                                 lifecycle::ControlEvent::Start => StateTransition::Started,
                                 lifecycle::ControlEvent::Stop => StateTransition::Passive,
                                 lifecycle::ControlEvent::Kill => StateTransition::Destroyed,
-                                _ => StateTransition::Active,
+                                lifecycle::ControlEvent::Poll(_) => {
+                                    // futures are also polled while the component is passive
+                                    if lifecycle::is_active(&self.core.state) {
+                                        StateTransition::Active
+                                    } else {
+                                        StateTransition::StillPassive
+                                    }
+                                }
                             };
                             guard
                                 .definition
diff --git a/core/src/component/context.rs b/core/src/component/context.rs
index 6b88ec9..a9fd248 100644
--- a/core/src/component/context.rs
+++ b/core/src/component/context.rs
@@ -12,6 +12,8 @@ pub(super) enum StateTransition {
     Active,
     Started,
     Passive,
+    /// Back to being passive, without having handled a stop event
+    StillPassive,
     Destroyed,
 }
 
@@ -256,6 +258,7 @@ where
                             component.notify_started();
                         }
                         StateTransition::Passive => component.set_passive(),
+                        StateTransition::StillPassive => component.set_still_passive(),
                         StateTransition::Destroyed => component.set_destroyed(),
                     }
                 }
-- 
2.43.0


From 4d7005b005ed92b28b74d5666e2c559b3741bac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:14 +0000
Subject: [PATCH 06/57] fix: do not keep components with unfinished local
 futures alive forever

The waker of a future spawned with spawn_local is stored inside the component it
held a strong reference to, so a component killed before the future completed was
never deallocated.
---
 core/src/component/future_task.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/core/src/component/future_task.rs b/core/src/component/future_task.rs
index 055f324..274f0c2 100644
--- a/core/src/component/future_task.rs
+++ b/core/src/component/future_task.rs
@@ -109,7 +109,7 @@ where
     let id = Uuid::new_v4();
     let future = f(ComponentDefinitionAccess::from_ref(component));
     let core = component.ctx().component();
-    let waker = task_waker::create(id, core);
+    let waker = task_waker::create(id, &core);
     let boxed = Box::pin(future);
     NonBlockingFuture {
         future: boxed,
@@ -185,21 +185,26 @@ unsafe impl<CD> Send for ComponentDefinitionAccess<CD> where CD: ComponentDefini
 mod task_waker {
     use super::*;
 
-    pub fn create(id: Uuid, core: Arc<dyn CoreContainer>) -> Waker {
-        waker(Arc::new(TaskWaker { id, core }))
+    pub fn create(id: Uuid, core: &Arc<dyn CoreContainer>) -> Waker {
+        waker(Arc::new(TaskWaker {
+            id,
+            core: Arc::downgrade(core),
+        }))
     }
 
+    // The waker is stored within the component it wakes,
+    // so it must not keep that component alive.
     #[derive(Debug)]
     struct TaskWaker {
         id: Uuid,
-        core: Arc<dyn CoreContainer>,
+        core: Weak<dyn CoreContainer>,
     }
 
     impl ArcWake for TaskWaker {
         fn wake_by_ref(arc_self: &Arc<Self>) {
-            arc_self
-                .core
-                .enqueue_control(ControlEvent::Poll(arc_self.id));
+            if let Some(core) = arc_self.core.upgrade() {
+                core.enqueue_control(ControlEvent::Poll(arc_self.id));
+            }
         }
     }
 }
-- 
2.43.0


From 954abb88069cfdbf6b20a79c1b35492692789b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:14 +0000
Subject: [PATCH 07/57] fix: run dedicated components on their own thread for
 port events and timeouts

Port events and timeouts scheduled the target component on the system's pool even
if it has a dedicated scheduler.
---
 core/src/ports.rs               | 6 ++----
 core/src/timer/timer_manager.rs | 3 +--
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/core/src/ports.rs b/core/src/ports.rs
index bf222a2..a81f8a2 100644
--- a/core/src/ports.rs
+++ b/core/src/ports.rs
@@ -393,8 +393,7 @@ impl<P: Port + 'static> ProvidedRef<P> {
                 let sd = c.core().increment_work();
                 q.push(event);
                 if let SchedulingDecision::Schedule = sd {
-                    let system = c.core().system();
-                    system.schedule(c.clone());
+                    c.schedule();
                 }
                 false
             }
@@ -465,8 +464,7 @@ impl<P: Port + 'static> RequiredRef<P> {
                 let sd = c.core().increment_work();
                 q.push(event);
                 if let SchedulingDecision::Schedule = sd {
-                    let system = c.core().system();
-                    system.schedule(c.clone());
+                    c.schedule();
                 }
                 false
             }
diff --git a/core/src/timer/timer_manager.rs b/core/src/timer/timer_manager.rs
index 05ddad0..4940c6b 100644
--- a/core/src/timer/timer_manager.rs
+++ b/core/src/timer/timer_manager.rs
@@ -358,8 +358,7 @@ impl TimerActorRef {
                 let res = c.core().increment_work();
                 q.push(timeout);
                 if let SchedulingDecision::Schedule = res {
-                    let system = c.core().system();
-                    system.schedule(c.clone());
+                    c.schedule();
                 }
                 Ok(())
             }
-- 
2.43.0


From dc79c09cfbb63c6b8ce53d9f2e69022a2bdfafb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:14 +0000
Subject: [PATCH 08/57] fix: enforce the documented minimum of one message and
 one event

With a low throughput (times message priority) the message share was rounded down
to zero, so port events could starve messages completely. With a throughput of one
the reverse must not happen either.
---
 core/src/component/actual_component.rs | 4 +++-
 core/src/runtime/config.rs             | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/src/component/actual_component.rs b/core/src/component/actual_component.rs
index 1b8f2e9..8709333 100644
--- a/core/src/component/actual_component.rs
+++ b/core/src/component/actual_component.rs
@@ -559,7 +559,9 @@ impl<CD: ComponentTraits> Component<CD> {
                     }
                 }
                 // then events
-                let rem_events = max_events.saturating_sub(count);
+                // at least one, if messages are entitled to the whole throughput
+                let min_events = usize::from(max_messages >= max_events);
+                let rem_events = max_events.saturating_sub(count).max(min_events);
                 if rem_events > 0 {
                     let skip = guard.skip;
                     let res = guard.definition.execute(rem_events, skip);
diff --git a/core/src/runtime/config.rs b/core/src/runtime/config.rs
index e756896..6e91ba8 100644
--- a/core/src/runtime/config.rs
+++ b/core/src/runtime/config.rs
@@ -563,7 +563,8 @@ impl KompactConfig {
         let tpf = self.throughput as f32;
         let mmf = tpf * self.msg_priority;
         assert!(mmf >= 0.0, "msg_priority can not be negative!");
-        mmf as usize
+        // neither messages nor events may be starved out completely
+        (mmf as usize).clamp(1, self.throughput.saturating_sub(1).max(1))
     }
 
     pub(crate) fn override_from_config(&mut self, conf: &Config) -> Result<(), ConfigError> {
-- 
2.43.0


From 67fc81f09347b7be912b16efd26d726adf191832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:53 +0000
Subject: [PATCH 09/57] fix: take a local future out of the map while polling
 it

A future that spawned further local futures reallocated the map it was borrowed
from during its own poll, leaving its waker dangling (use after free).
---
 core/src/component/context.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/core/src/component/context.rs b/core/src/component/context.rs
index a9fd248..751ea0f 100644
--- a/core/src/component/context.rs
+++ b/core/src/component/context.rs
@@ -268,13 +268,14 @@ where
     }
 
     pub(super) fn run_nonblocking_task(&mut self, tag: Uuid) -> HandlerResult {
-        if let Some(future) = self.non_blocking_futures.get_mut(&tag) {
+        // the future itself may add to `non_blocking_futures`, so it must not stay in there meanwhile
+        if let Some(mut future) = self.non_blocking_futures.remove(&tag) {
             match future.run() {
-                Poll::Pending => Handled::OK,
-                Poll::Ready(handled) => {
-                    self.non_blocking_futures.remove(&tag);
-                    handled
+                Poll::Pending => {
+                    self.non_blocking_futures.insert(tag, future);
+                    Handled::OK
                 }
+                Poll::Ready(handled) => handled,
             }
         } else {
             warn!(
-- 
2.43.0


From 29bc3ca48af72e74d336bc4a7ad82474919fc21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:02 +0000
Subject: [PATCH 10/57] fix: a future that wakes itself must not starve its
 component

A local future yielding in a loop kept the control event loop of its component
running forever; messages, events, timers and the thread's other components never
got their turn. Only handle control events queued before the execution, and don't
charge them to the throughput.
---
 core/src/component/actual_component.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/core/src/component/actual_component.rs b/core/src/component/actual_component.rs
index 8709333..165fcaa 100644
--- a/core/src/component/actual_component.rs
+++ b/core/src/component/actual_component.rs
@@ -429,7 +429,13 @@ impl<CD: ComponentTraits> Component<CD> {
                 }
 
                 let mut count: usize = 0;
-                while let Some(event) = self.ctrl_queue.pop() {
+                // Only handle what is queued already,
+                // so that futures waking themselves can't starve everything else.
+                let mut queued_events = self.ctrl_queue.len();
+                while queued_events > 0
+                    && let Some(event) = self.ctrl_queue.pop()
+                {
+                    queued_events -= 1;
                     // ignore max_events for lifecyle events
                     // println!("Executing event: {:?}", event);
                     let res = match event {
@@ -525,6 +531,9 @@ impl<CD: ComponentTraits> Component<CD> {
                     trace!(self.logger, "Not running inactive scheduled.");
                     return self.core.decrement_work(count);
                 }
+                // control events, in particular polling futures, don't use up anybody's share
+                let max_events = max_events + count;
+                let max_messages = max_messages + count;
                 // timers have highest priority
                 while count < max_events {
                     let c = &mut guard.definition;
-- 
2.43.0


From b3a7bf01befa554954bd322d76367c5dbfcea129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:10 +0000
Subject: [PATCH 11/57] fix: continue with the next port after a port handler
 blocked or failed

The round-robin position was left at the port whose handler blocked or failed, so a
port whose handlers keep doing so starved all ports behind it.
---
 macros/component-definition-derive/src/lib.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/macros/component-definition-derive/src/lib.rs b/macros/component-definition-derive/src/lib.rs
index cd9713f..9cda0dc 100644
--- a/macros/component-definition-derive/src/lib.rs
+++ b/macros/component-definition-derive/src/lib.rs
@@ -75,6 +75,8 @@ fn impl_component_definition(ast: &syn::DeriveInput) -> TokenStream2 {
                 let id = &f.ident;
                 //let ref ty = f.ty;
                 let handle = t.as_handle();
+                // continue with the next port, even if this one could not finish its turn
+                let next = i + 1;
                 quote! {
                     if skip <= #i {
                         if count >= max_events {
@@ -90,13 +92,13 @@ fn impl_component_definition(ast: &syn::DeriveInput) -> TokenStream2 {
                                     Ok(Handled::Ok) => (),
                                     Ok(Handled::BlockOn(blocking_future)) => {
                                         self.ctx_mut().set_blocking(blocking_future);
-                                        return ExecuteResult::new(true, count, #i);
+                                        return ExecuteResult::new(true, count, #next);
                                     }
                                     Ok(Handled::Shutdown) => {
-                                        return ExecuteResult::shutdown(count, #i);
+                                        return ExecuteResult::shutdown(count, #next);
                                     }
                                     Err(error) => {
-                                        return ExecuteResult::error(error, count, #i);
+                                        return ExecuteResult::error(error, count, #next);
                                     }
                                 }
                             }
@@ -112,6 +114,8 @@ fn impl_component_definition(ast: &syn::DeriveInput) -> TokenStream2 {
                 let id = &f.ident;
                 //let ref ty = f.ty;
                 let handle = t.as_handle();
+                // continue with the next port, even if this one could not finish its turn
+                let next = i + 1;
                 quote! {
                     if count >= max_events {
                         return ExecuteResult::new(false, count, #i);
@@ -126,13 +130,13 @@ fn impl_component_definition(ast: &syn::DeriveInput) -> TokenStream2 {
                                 Ok(Handled::Ok) => (),
                                 Ok(Handled::BlockOn(blocking_future)) => {
                                     self.ctx_mut().set_blocking(blocking_future);
-                                    return ExecuteResult::new(true, count, #i);
+                                    return ExecuteResult::new(true, count, #next);
                                 }
                                 Ok(Handled::Shutdown) => {
-                                    return ExecuteResult::shutdown(count, #i);
+                                    return ExecuteResult::shutdown(count, #next);
                                 }
                                 Err(error) => {
-                                    return ExecuteResult::error(error, count, #i);
+                                    return ExecuteResult::error(error, count, #next);
                                 }
                             }
                         }
-- 
2.43.0


From d17a8dda5d3c25b43b4381689be9696e2897efcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:36 +0000
Subject: [PATCH 12/57] fix: messages that block must not starve port events

---
 core/src/component/actual_component.rs | 9 ++++++---
 core/src/component/mod.rs              | 3 +++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/core/src/component/actual_component.rs b/core/src/component/actual_component.rs
index 165fcaa..9574db8 100644
--- a/core/src/component/actual_component.rs
+++ b/core/src/component/actual_component.rs
@@ -400,7 +400,7 @@ impl<CD: ComponentTraits> Component<CD> {
 
     fn inner_execute(&self) -> SchedulingDecision {
         let max_events = self.core.system.throughput();
-        let max_messages = self.core.system.max_messages();
+        let message_share = self.core.system.max_messages();
 
         match self.mutable_core.lock() {
             Ok(mut guard) => {
@@ -533,7 +533,7 @@ impl<CD: ComponentTraits> Component<CD> {
                 }
                 // control events, in particular polling futures, don't use up anybody's share
                 let max_events = max_events + count;
-                let max_messages = max_messages + count;
+                let max_messages = message_share + count;
                 // timers have highest priority
                 while count < max_events {
                     let c = &mut guard.definition;
@@ -558,8 +558,10 @@ impl<CD: ComponentTraits> Component<CD> {
                     check_and_handle_blocking!(self, guard, count, res);
                 }
                 // then some messages
-                while count < max_messages {
+                // (if handling them blocks, the share covers multiple executions)
+                while count < max_messages && guard.messages_in_turn < message_share {
                     if let Some(env) = self.msg_queue.pop() {
+                        guard.messages_in_turn += 1;
                         let res = guard.definition.receive(env);
                         count += 1;
                         check_and_handle_blocking!(self, guard, count, res);
@@ -571,6 +573,7 @@ impl<CD: ComponentTraits> Component<CD> {
                 // at least one, if messages are entitled to the whole throughput
                 let min_events = usize::from(max_messages >= max_events);
                 let rem_events = max_events.saturating_sub(count).max(min_events);
+                guard.messages_in_turn = 0;
                 if rem_events > 0 {
                     let skip = guard.skip;
                     let res = guard.definition.execute(rem_events, skip);
diff --git a/core/src/component/mod.rs b/core/src/component/mod.rs
index ed75924..421e78f 100644
--- a/core/src/component/mod.rs
+++ b/core/src/component/mod.rs
@@ -427,12 +427,15 @@ impl CoreContainer for FakeCoreContainer {
 pub(crate) struct ComponentMutableCore<C> {
     pub(crate) definition: C,
     skip: usize,
+    /// Messages handled since the ports had their last turn
+    messages_in_turn: usize,
 }
 impl<C> ComponentMutableCore<C> {
     fn from(definition: C) -> Self {
         ComponentMutableCore {
             definition,
             skip: 0,
+            messages_in_turn: 0,
         }
     }
 }
-- 
2.43.0


From c15fadc085a76851c24b2315df135429d3b7b51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:09 +0000
Subject: [PATCH 13/57] fix: address type of a system path header must not
 overlap the transport

Paths with an IPv6 address could not be read back from their own bytes.
---
 core/src/messaging/framing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/messaging/framing.rs b/core/src/messaging/framing.rs
index 9b8d782..31834d5 100644
--- a/core/src/messaging/framing.rs
+++ b/core/src/messaging/framing.rs
@@ -32,7 +32,7 @@ pub enum PathType {
 }
 
 impl BitField for AddressType {
-    const POS: usize = 2;
+    const POS: usize = 5;
     const WIDTH: usize = 2;
 }
 
-- 
2.43.0


From d7c8da3842ec6aaa5dee5dc4877cb17417992bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:09 +0000
Subject: [PATCH 14/57] fix: print IPv6 addresses of paths in brackets so that
 they can be parsed

---
 core/src/actors/paths.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/actors/paths.rs b/core/src/actors/paths.rs
index 7192ede..b2ff820 100644
--- a/core/src/actors/paths.rs
+++ b/core/src/actors/paths.rs
@@ -200,7 +200,7 @@ impl SystemPath {
 
 impl fmt::Display for SystemPath {
     fn fmt(&self, fmt: &mut fmt::Formatter<'_>) -> fmt::Result {
-        write!(fmt, "{}://{}:{}", self.protocol, self.address, self.port)
+        write!(fmt, "{}://{}", self.protocol, self.socket_address())
     }
 }
 
-- 
2.43.0


From e53f4fa8d8cd332ff560778d6d4069670b70de0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:09 +0000
Subject: [PATCH 15/57] fix: reject malformed actor paths instead of panicking
 on them

Truncated path bytes panicked, path names were not checked to be valid
UTF-8 or valid segments, and the empty named path came back as one empty
segment.
---
 core/src/messaging/framing.rs | 41 +++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/core/src/messaging/framing.rs b/core/src/messaging/framing.rs
index 31834d5..9d0293a 100644
--- a/core/src/messaging/framing.rs
+++ b/core/src/messaging/framing.rs
@@ -263,7 +263,7 @@ impl Serialisable for SystemPath {
     }
 
     fn local(self: Box<Self>) -> Result<Box<dyn Any + Send>, Box<dyn Serialisable>> {
-        unimplemented!()
+        Ok(self)
     }
 }
 
@@ -279,7 +279,9 @@ fn system_path_put_into_buf(path: &SystemPath, buf: &mut dyn BufMut) -> () {
 #[inline(always)]
 fn system_path_from_buf(buf: &mut dyn Buf) -> Result<(SystemPathHeader, SystemPath), SerError> {
     // Deserialize system path
-    let fields: u8 = buf.get_u8();
+    let fields: u8 = buf
+        .try_get_u8()
+        .map_err(|_| SerError::invalid_data("Could not get 1 byte for path header"))?;
     let header = SystemPathHeader::try_from(fields)?;
     let address: IpAddr = match header.address_type {
         AddressType::IPv4 => {
@@ -305,10 +307,12 @@ fn system_path_from_buf(buf: &mut dyn Buf) -> Result<(SystemPathHeader, SystemPa
             }
         }
         AddressType::Domain => {
-            unimplemented!();
+            return Err(SerError::invalid_type("Unsupported AddressType"));
         }
     };
-    let port = buf.get_u16();
+    let port = buf
+        .try_get_u16()
+        .map_err(|_| SerError::invalid_data("Could not get 2 bytes for port"))?;
     let system_path = SystemPath::new(header.protocol, address, port);
     Ok((header, system_path))
 }
@@ -399,7 +403,10 @@ impl Deserialiser<ActorPath> for ActorPath {
                 }
             }
             PathType::Named => {
-                let name_len = buf.get_u16() as usize;
+                let name_len = buf
+                    .try_get_u16()
+                    .map_err(|_| SerError::invalid_data("Could not get 2 bytes for name length"))?
+                    as usize;
                 if buf.remaining() < name_len {
                     return Err(SerError::invalid_data(format!(
                         "Could not get {} bytes for path name",
@@ -408,21 +415,17 @@ impl Deserialiser<ActorPath> for ActorPath {
                 } else {
                     let mut name_bytes = vec![0u8; name_len];
                     buf.copy_to_slice(&mut name_bytes);
-                    let name = unsafe {
-                        // Paths are serialised by Kompact itself and transported with the normal
-                        // networking integrity checks in place, so we keep the unchecked decode on
-                        // this hot path.
-                        String::from_utf8_unchecked(name_bytes)
-                    };
-                    let parts: Vec<&str> = name.split('/').collect();
-                    if parts.is_empty() {
-                        return Err(SerError::invalid_data(
-                            "Could not determine name for Named path type",
-                        ));
+                    let name = String::from_utf8(name_bytes)
+                        .map_err(|_| SerError::invalid_data("Path name is not valid UTF-8"))?;
+                    let path: Vec<String> = if name.is_empty() {
+                        Vec::new()
                     } else {
-                        let path = parts.into_iter().map(|s| s.to_string()).collect();
-                        ActorPath::Named(NamedPath::with_system(system_path, path))
-                    }
+                        name.split('/').map(|s| s.to_string()).collect()
+                    };
+                    let named = system_path
+                        .into_named_with_vec(path)
+                        .map_err(|e| SerError::invalid_data(e.to_string()))?;
+                    ActorPath::Named(named)
                 }
             }
         };
-- 
2.43.0


From 3a005e25291994272eee3e54fc9ed51d71fee2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:09 +0000
Subject: [PATCH 16/57] fix: give actor paths a serialisation id of their own

---
 core/src/serialisation/default_serialisers.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/core/src/serialisation/default_serialisers.rs b/core/src/serialisation/default_serialisers.rs
index 2900c58..dd3affb 100644
--- a/core/src/serialisation/default_serialisers.rs
+++ b/core/src/serialisation/default_serialisers.rs
@@ -19,13 +19,12 @@ pub mod serialisation_ids {
 
     /// Id for a `NamedPath`.
     pub const NAMED_PATH: SerId = 3;
-    //pub const SYSTEM_PATH_HEADER: SerId = 4; // this one is freed now...reuse in th future!
 
     /// Id for a `SystemPath`.
     pub const SYSTEM_PATH: SerId = 5;
 
     /// Id for an [ActorPath](crate::prelude::ActorPath).
-    pub const ACTOR_PATH: SerId = 6;
+    pub const ACTOR_PATH: SerId = 4;
 
     /// Id for a `String` serialiser.
     pub const STR: SerId = 6;
-- 
2.43.0


From 395dd426d52d250b7df8fa5806d3173dc3d93f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:25 +0000
Subject: [PATCH 17/57] fix: refuse truncated strings, numbers and serde values
 with an error

Reading past the end of the data panicked, and a length prefix larger than
the data was allocated before it was checked.
---
 core/src/serialisation/default_serialisers.rs | 16 +++--
 core/src/serialisation/serde_serialisers.rs   | 62 ++++++++++++-------
 2 files changed, 51 insertions(+), 27 deletions(-)

diff --git a/core/src/serialisation/default_serialisers.rs b/core/src/serialisation/default_serialisers.rs
index dd3affb..fcd42eb 100644
--- a/core/src/serialisation/default_serialisers.rs
+++ b/core/src/serialisation/default_serialisers.rs
@@ -75,10 +75,16 @@ impl Deserialiser<String> for String {
     const SER_ID: SerId = serialisation_ids::STR;
 
     fn deserialise(buf: &mut dyn Buf) -> Result<String, SerError> {
-        let len_u64 = buf.get_u64();
+        let len_u64 = buf
+            .try_get_u64()
+            .map_err(|e| SerError::invalid_data(e.to_string()))?;
         let len: usize = len_u64.try_into().map_err(SerError::from_debug)?;
-        // This approach is memory safe, but not overly efficient and also an attack vector for OOM attacks.
-        // If you need different guarantees, write a different String serde implementation, that fulfills them
+        if buf.remaining() < len {
+            return Err(SerError::invalid_data(format!(
+                "Not enough data for a string of {} bytes",
+                len
+            )));
+        }
         let mut data: Vec<u8> = vec![0; len];
         buf.copy_to_slice(data.as_mut_slice());
         let s = String::from_utf8(data).map_err(SerError::from_debug)?;
@@ -108,7 +114,9 @@ impl Deserialiser<u64> for u64 {
     const SER_ID: SerId = serialisation_ids::U64;
 
     fn deserialise(buf: &mut dyn Buf) -> Result<u64, SerError> {
-        let num = buf.get_u64();
+        let num = buf
+            .try_get_u64()
+            .map_err(|e| SerError::invalid_data(e.to_string()))?;
         Ok(num)
     }
 }
diff --git a/core/src/serialisation/serde_serialisers.rs b/core/src/serialisation/serde_serialisers.rs
index a8ae4f4..b148535 100644
--- a/core/src/serialisation/serde_serialisers.rs
+++ b/core/src/serialisation/serde_serialisers.rs
@@ -459,6 +459,10 @@ impl de::Error for SerError {
     }
 }
 
+fn too_short(e: bytes::TryGetError) -> SerError {
+    SerError::invalid_data(e.to_string())
+}
+
 struct BufDeserializer<'de> {
     buffer: &'de mut dyn Buf,
 }
@@ -483,14 +487,16 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        unimplemented!("Unsupported");
+        Err(SerError::invalid_type(
+            "The serde format of Kompact is not self-describing",
+        ))
     }
 
     fn deserialize_bool<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_u8();
+        let num = self.buffer.try_get_u8().map_err(too_short)?;
         let v = num != 0u8; // treat everything except 0 as true
         visitor.visit_bool(v)
     }
@@ -499,7 +505,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_i8();
+        let num = self.buffer.try_get_i8().map_err(too_short)?;
         visitor.visit_i8(num)
     }
 
@@ -507,7 +513,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_i16();
+        let num = self.buffer.try_get_i16().map_err(too_short)?;
         visitor.visit_i16(num)
     }
 
@@ -515,7 +521,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_i32();
+        let num = self.buffer.try_get_i32().map_err(too_short)?;
         visitor.visit_i32(num)
     }
 
@@ -523,7 +529,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_i64();
+        let num = self.buffer.try_get_i64().map_err(too_short)?;
         visitor.visit_i64(num)
     }
 
@@ -531,7 +537,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_u8();
+        let num = self.buffer.try_get_u8().map_err(too_short)?;
         visitor.visit_u8(num)
     }
 
@@ -539,7 +545,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_u16();
+        let num = self.buffer.try_get_u16().map_err(too_short)?;
         visitor.visit_u16(num)
     }
 
@@ -547,7 +553,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_u32();
+        let num = self.buffer.try_get_u32().map_err(too_short)?;
         visitor.visit_u32(num)
     }
 
@@ -555,7 +561,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_u64();
+        let num = self.buffer.try_get_u64().map_err(too_short)?;
         visitor.visit_u64(num)
     }
 
@@ -563,7 +569,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_f32();
+        let num = self.buffer.try_get_f32().map_err(too_short)?;
         visitor.visit_f32(num)
     }
 
@@ -571,7 +577,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_f64();
+        let num = self.buffer.try_get_f64().map_err(too_short)?;
         visitor.visit_f64(num)
     }
 
@@ -579,7 +585,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_u32();
+        let num = self.buffer.try_get_u32().map_err(too_short)?;
         let v = std::char::from_u32(num).ok_or_else(|| {
             SerError::unknown(format!("Number {} does not represent a valid char!", num))
         })?;
@@ -599,10 +605,14 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let len_u64 = self.buffer.get_u64();
+        let len_u64 = self.buffer.try_get_u64().map_err(too_short)?;
         let len: usize = len_u64.try_into().map_err(SerError::from_debug)?;
-        // This approach is memory safe, but not overly efficient and also an attack vector for OOM attacks.
-        // If you need different guarantees, write a different String serde implementation, that fulfills them
+        if self.buffer.remaining() < len {
+            return Err(SerError::invalid_data(format!(
+                "Not enough data for a string of {} bytes",
+                len
+            )));
+        }
         let mut data: Vec<u8> = vec![0; len];
         self.buffer.copy_to_slice(data.as_mut_slice());
         let s = String::from_utf8(data).map_err(SerError::from_debug)?;
@@ -621,10 +631,14 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let len_u64 = self.buffer.get_u64();
+        let len_u64 = self.buffer.try_get_u64().map_err(too_short)?;
         let len: usize = len_u64.try_into().map_err(SerError::from_debug)?;
-        // This approach is memory safe, but not overly efficient and also an attack vector for OOM attacks.
-        // If you need different guarantees, write a different serde implementation, that fulfills them
+        if self.buffer.remaining() < len {
+            return Err(SerError::invalid_data(format!(
+                "Not enough data for {} bytes",
+                len
+            )));
+        }
         let mut data: Vec<u8> = vec![0; len];
         self.buffer.copy_to_slice(data.as_mut_slice());
         visitor.visit_byte_buf(data)
@@ -634,7 +648,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let num = self.buffer.get_u8();
+        let num = self.buffer.try_get_u8().map_err(too_short)?;
         if num == 0 {
             visitor.visit_none()
         } else {
@@ -683,7 +697,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let len_u64 = self.buffer.get_u64();
+        let len_u64 = self.buffer.try_get_u64().map_err(too_short)?;
         let len: usize = len_u64.try_into().map_err(SerError::from_debug)?;
         visitor.visit_seq(self.counting(len))
     }
@@ -717,7 +731,7 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        let len_u64 = self.buffer.get_u64();
+        let len_u64 = self.buffer.try_get_u64().map_err(too_short)?;
         let len: usize = len_u64.try_into().map_err(SerError::from_debug)?;
         visitor.visit_map(self.counting(len))
     }
@@ -774,7 +788,9 @@ impl<'de, 'a> de::Deserializer<'de> for &'a mut BufDeserializer<'de> {
     where
         V: Visitor<'de>,
     {
-        unimplemented!("Unsupported");
+        Err(SerError::invalid_type(
+            "The serde format of Kompact is not self-describing",
+        ))
     }
 }
 
-- 
2.43.0


From d097a8d8ded014c32445e76463d666f9f434e8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:27 +0000
Subject: [PATCH 18/57] fix: refuse a message too short for a serialisation id
 with an error

---
 core/src/serialisation/ser_helpers.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/core/src/serialisation/ser_helpers.rs b/core/src/serialisation/ser_helpers.rs
index 7120507..908532b 100644
--- a/core/src/serialisation/ser_helpers.rs
+++ b/core/src/serialisation/ser_helpers.rs
@@ -11,7 +11,7 @@ use crate::{
     },
     serialisation::*,
 };
-use bytes::{Bytes, BytesMut, buf::BufMut};
+use bytes::{Buf, Bytes, BytesMut, buf::BufMut};
 
 /// Creates a new [NetMessage](NetMessage) from the provided fields
 ///
@@ -230,6 +230,17 @@ pub fn embed_msg(msg: NetMessage, buf: &mut BufferEncoder) -> Result<ChunkRef, S
     })
 }
 
+fn read_ser_id<B: Buf>(buffer: &mut B) -> Result<SerId, SerError> {
+    let id_size = SerId::default().size();
+    if buffer.remaining() < id_size {
+        return Err(SerError::invalid_data(format!(
+            "Could not get {} bytes for the serialisation id",
+            id_size
+        )));
+    }
+    Ok(buffer.get_ser_id())
+}
+
 /// Extracts a [NetMessage](NetMessage) from the provided buffer
 ///
 /// This expects the format from [serialise_msg](serialise_msg).
@@ -241,7 +252,7 @@ pub fn deserialise_chunk_lease(mut buffer: ChunkLease) -> Result<NetMessage, Ser
 
     let src = ActorPath::deserialise(&mut buffer)?;
     let dst = ActorPath::deserialise(&mut buffer)?;
-    let ser_id = buffer.get_ser_id();
+    let ser_id = read_ser_id(&mut buffer)?;
 
     let envelope = NetMessage::with_chunk_ref(ser_id, src, dst, buffer.into_chunk_ref());
 
@@ -259,7 +270,7 @@ pub fn deserialise_chunk_ref(mut buffer: ChunkRef) -> Result<NetMessage, SerErro
 
     let src = ActorPath::deserialise(&mut buffer)?;
     let dst = ActorPath::deserialise(&mut buffer)?;
-    let ser_id = buffer.get_ser_id();
+    let ser_id = read_ser_id(&mut buffer)?;
 
     let envelope = NetMessage::with_chunk_ref(ser_id, src, dst, buffer);
 
@@ -272,7 +283,7 @@ pub fn deserialise_chunk_ref(mut buffer: ChunkRef) -> Result<NetMessage, SerErro
 pub fn deserialise_bytes(mut buffer: Bytes) -> Result<NetMessage, SerError> {
     let src = ActorPath::deserialise(&mut buffer)?;
     let dst = ActorPath::deserialise(&mut buffer)?;
-    let ser_id = buffer.get_ser_id();
+    let ser_id = read_ser_id(&mut buffer)?;
 
     let envelope = NetMessage::with_bytes(ser_id, src, dst, buffer);
 
-- 
2.43.0


From f041f6fa462df7da4d48573619207a48b2307d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:49 +0000
Subject: [PATCH 19/57] fix: serialise values without a size hint

The hint is documented to be optional, but serialise_to_msg and the
helpers for Serialised refused values that do not give one (such as all
protobuf messages).
---
 core/src/serialisation/ser_helpers.rs | 44 ++++++++++-----------------
 1 file changed, 16 insertions(+), 28 deletions(-)

diff --git a/core/src/serialisation/ser_helpers.rs b/core/src/serialisation/ser_helpers.rs
index 908532b..2e5018a 100644
--- a/core/src/serialisation/ser_helpers.rs
+++ b/core/src/serialisation/ser_helpers.rs
@@ -23,17 +23,13 @@ pub fn serialise_to_msg(
     dst: ActorPath,
     msg: Box<dyn Serialisable>,
 ) -> Result<NetMessage, SerError> {
-    if let Some(size) = msg.size_hint() {
-        let mut buf = BytesMut::with_capacity(size);
-        match msg.serialise(&mut buf) {
-            Ok(_) => {
-                let envelope = NetMessage::with_bytes(msg.ser_id(), src, dst, buf.freeze());
-                Ok(envelope)
-            }
-            Err(ser_err) => Err(ser_err),
+    let mut buf = BytesMut::with_capacity(msg.size_hint().unwrap_or(0));
+    match msg.serialise(&mut buf) {
+        Ok(_) => {
+            let envelope = NetMessage::with_bytes(msg.ser_id(), src, dst, buf.freeze());
+            Ok(envelope)
         }
-    } else {
-        Err(SerError::unknown("Unknown serialisation size"))
+        Err(ser_err) => Err(ser_err),
     }
 }
 
@@ -46,15 +42,11 @@ pub fn serialise_to_serialised<S>(ser: &S) -> Result<Serialised, SerError>
 where
     S: Serialisable + ?Sized,
 {
-    if let Some(size) = ser.size_hint() {
-        let mut buf = BytesMut::with_capacity(size);
-        ser.serialise(&mut buf).map(|_| Serialised {
-            ser_id: ser.ser_id(),
-            data: buf.freeze(),
-        })
-    } else {
-        Err(SerError::unknown("Unknown serialisation size"))
-    }
+    let mut buf = BytesMut::with_capacity(ser.size_hint().unwrap_or(0));
+    ser.serialise(&mut buf).map(|_| Serialised {
+        ser_id: ser.ser_id(),
+        data: buf.freeze(),
+    })
 }
 
 /// Creates a new [Serialised](Serialised) from the provided fields and serialiser `ser`
@@ -67,15 +59,11 @@ where
     T: std::fmt::Debug,
     S: Serialiser<T>,
 {
-    if let Some(size) = ser.size_hint() {
-        let mut buf = BytesMut::with_capacity(size);
-        ser.serialise(t, &mut buf).map(|_| Serialised {
-            ser_id: ser.ser_id(),
-            data: buf.freeze(),
-        })
-    } else {
-        Err(SerError::unknown("Unknown serialisation size"))
-    }
+    let mut buf = BytesMut::with_capacity(ser.size_hint().unwrap_or(0));
+    ser.serialise(t, &mut buf).map(|_| Serialised {
+        ser_id: ser.ser_id(),
+        data: buf.freeze(),
+    })
 }
 
 /// Serialises the provided actor paths and message
-- 
2.43.0


From 98ead934ae380e318a93631c33d31b0af4403910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:49 +0000
Subject: [PATCH 20/57] fix: encoding a data frame must terminate

The loop over the payload never advanced it, so encode_into repeated the
first chunk until the destination was full.
---
 core/src/net/frames.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/core/src/net/frames.rs b/core/src/net/frames.rs
index eb526b9..7caa11a 100644
--- a/core/src/net/frames.rs
+++ b/core/src/net/frames.rs
@@ -268,7 +268,7 @@ impl Data {
     }
 
     pub(crate) fn encoded_len(&self) -> usize {
-        self.payload.capacity()
+        self.payload.remaining()
     }
 
     /// Consumes this frame and returns the raw payload buffer
@@ -287,14 +287,12 @@ impl FrameExt for Data {
     fn encode_into<B: BufMut>(&mut self, dst: &mut B) -> Result<(), FramingError> {
         // NOTE: This method _COPIES_ the owned bytes into `dst` rather than extending with the owned bytes
         assert!(dst.remaining_mut() >= (self.encoded_len()));
-        while self.payload.has_remaining() {
-            dst.put_slice(self.payload.chunk());
-        }
+        dst.put(&mut self.payload);
         Ok(())
     }
 
     fn encoded_len(&self) -> usize {
-        self.payload.chunk().len()
+        self.payload.remaining()
     }
 }
 
-- 
2.43.0


From 5095459eeddcd00d08ef132449618b6d5f28537f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:10 +0000
Subject: [PATCH 21/57] fix: refuse malformed handshake frames with an error

Hello and Start frames that are too short or have an unknown address
version, and frames without content, panicked in the decoder.
---
 core/src/net/buffers/decode_buffer.rs |  4 +++
 core/src/net/frames.rs                | 36 +++++++++++++--------------
 2 files changed, 22 insertions(+), 18 deletions(-)

diff --git a/core/src/net/buffers/decode_buffer.rs b/core/src/net/buffers/decode_buffer.rs
index aca9775..b0e8640 100644
--- a/core/src/net/buffers/decode_buffer.rs
+++ b/core/src/net/buffers/decode_buffer.rs
@@ -147,6 +147,10 @@ impl DecodeBuffer {
 
     /// Extracts a ChunkLease from the readable portion of the buffer (including the chain)
     fn read_chunk_lease(&mut self, length: usize) -> ChunkLease {
+        if length == 0 {
+            // Nothing to lease, e.g. for a frame without content.
+            return ChunkLease::empty();
+        }
         if let Some(mut chain_head) = self.chain_head.take() {
             match chain_head.remaining().cmp(&length) {
                 Ordering::Greater => {
diff --git a/core/src/net/frames.rs b/core/src/net/frames.rs
index 7caa11a..4a81b55 100644
--- a/core/src/net/frames.rs
+++ b/core/src/net/frames.rs
@@ -296,24 +296,26 @@ impl FrameExt for Data {
     }
 }
 
+fn invalid(_: bytes::TryGetError) -> FramingError {
+    FramingError::InvalidFrame
+}
+
 impl FrameExt for Hello {
     fn decode_from(mut src: ChunkLease) -> Result<Frame, FramingError> {
-        match src.get_u8() {
+        match src.try_get_u8().map_err(invalid)? {
             4 => {
-                let ip = Ipv4Addr::from(src.get_u32());
-                let port = src.get_u16();
+                let ip = Ipv4Addr::from(src.try_get_u32().map_err(invalid)?);
+                let port = src.try_get_u16().map_err(invalid)?;
                 let addr = SocketAddr::new(IpAddr::V4(ip), port);
                 Ok(Frame::Hello(Hello::new(addr)))
             }
             6 => {
-                let ip = Ipv6Addr::from(src.get_u128());
-                let port = src.get_u16();
+                let ip = Ipv6Addr::from(src.try_get_u128().map_err(invalid)?);
+                let port = src.try_get_u16().map_err(invalid)?;
                 let addr = SocketAddr::new(IpAddr::V6(ip), port);
                 Ok(Frame::Hello(Hello::new(addr)))
             }
-            _ => {
-                panic!("Faulty Hello Message!");
-            }
+            _ => Err(FramingError::InvalidFrame),
         }
     }
 
@@ -348,24 +350,22 @@ impl FrameExt for Hello {
 
 impl FrameExt for Start {
     fn decode_from(mut src: ChunkLease) -> Result<Frame, FramingError> {
-        match src.get_u8() {
+        match src.try_get_u8().map_err(invalid)? {
             4 => {
-                let ip = Ipv4Addr::from(src.get_u32());
-                let port = src.get_u16();
+                let ip = Ipv4Addr::from(src.try_get_u32().map_err(invalid)?);
+                let port = src.try_get_u16().map_err(invalid)?;
                 let addr = SocketAddr::new(IpAddr::V4(ip), port);
-                let id = SessionId::from_u128(src.get_u128());
+                let id = SessionId::from_u128(src.try_get_u128().map_err(invalid)?);
                 Ok(Frame::Start(Start::new(addr, id)))
             }
             6 => {
-                let ip = Ipv6Addr::from(src.get_u128());
-                let port = src.get_u16();
+                let ip = Ipv6Addr::from(src.try_get_u128().map_err(invalid)?);
+                let port = src.try_get_u16().map_err(invalid)?;
                 let addr = SocketAddr::new(IpAddr::V6(ip), port);
-                let id = SessionId::from_u128(src.get_u128());
+                let id = SessionId::from_u128(src.try_get_u128().map_err(invalid)?);
                 Ok(Frame::Start(Start::new(addr, id)))
             }
-            _ => {
-                panic!("Faulty Hello Message!");
-            }
+            _ => Err(FramingError::InvalidFrame),
         }
     }
 
-- 
2.43.0


From 54d1afad8ae58ee3d942bba87644e5f98b35ec14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:15 +0000
Subject: [PATCH 22/57] fix: a fully read chunk has an empty slice left

Buf::chunk must not panic when nothing remains; reading an empty message
from a ChunkLease or ChunkRef did.
---
 core/src/net/buffers/chunk_lease.rs | 3 +++
 core/src/net/buffers/chunk_ref.rs   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/core/src/net/buffers/chunk_lease.rs b/core/src/net/buffers/chunk_lease.rs
index bfc7e9c..b195f80 100644
--- a/core/src/net/buffers/chunk_lease.rs
+++ b/core/src/net/buffers/chunk_lease.rs
@@ -226,6 +226,9 @@ impl Buf for ChunkLease {
     }
 
     fn chunk(&self) -> &[u8] {
+        if !self.has_remaining() {
+            return &[];
+        }
         self.get_chunk_at(self.read_pointer)
     }
 
diff --git a/core/src/net/buffers/chunk_ref.rs b/core/src/net/buffers/chunk_ref.rs
index d8e0d42..a4a98f4 100644
--- a/core/src/net/buffers/chunk_ref.rs
+++ b/core/src/net/buffers/chunk_ref.rs
@@ -76,6 +76,9 @@ impl Buf for ChunkRef {
 
     // Returns a slice starting from the read-pointer up to (possibly) the
     fn chunk(&self) -> &[u8] {
+        if !self.has_remaining() {
+            return &[];
+        }
         self.get_chunk_at(self.read_pointer)
     }
 
-- 
2.43.0


From a952e769c16e9b9a3ee8c53a75c0de6c1726c006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:25 +0000
Subject: [PATCH 23/57] fix: a decode buffer must be writeable after swapping
 in a fresh chunk

With a minimum free space below 8 bytes the copied overflow could leave the
fresh chunk unwriteable, and the network channel swapped buffers forever.
---
 core/src/net/buffers/decode_buffer.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/core/src/net/buffers/decode_buffer.rs b/core/src/net/buffers/decode_buffer.rs
index b0e8640..4871ea7 100644
--- a/core/src/net/buffers/decode_buffer.rs
+++ b/core/src/net/buffers/decode_buffer.rs
@@ -13,6 +13,9 @@ use crate::net::frames::{
 use bytes::Buf;
 use std::{cmp::Ordering, fmt::Formatter, io};
 
+/// A buffer with this many writeable bytes or less must be swapped before it can be written again.
+const MIN_WRITEABLE_LEN: usize = 8;
+
 /// Incremental frame decoder backed by pooled [`BufferChunk`] storage.
 ///
 /// It supports decoding complete frames while the backing buffer is being filled,
@@ -93,7 +96,7 @@ impl DecodeBuffer {
 
     /// True if there is sufficient amount of writeable bytes
     pub(crate) fn is_writeable(&self) -> bool {
-        self.writeable_len() > 8
+        self.writeable_len() > MIN_WRITEABLE_LEN
     }
 
     /// Returns true if there is data to be decoded, else false
@@ -123,9 +126,13 @@ impl DecodeBuffer {
         if let Some(mut overflow_chunk) = overflow {
             // TODO: change the config parameter to a separate value?
             let overflow_len = overflow_chunk.remaining();
+            // There must be enough space left for the buffer to be writeable after the copy.
+            let min_free_space = self
+                .buffer_config
+                .encode_buf_min_free_space
+                .max(MIN_WRITEABLE_LEN);
             if overflow_len < self.writeable_len()
-                && self.writeable_len() - overflow_len
-                    > self.buffer_config.encode_buf_min_free_space
+                && self.writeable_len() - overflow_len > min_free_space
             {
                 // Just copy the overflow_chunk bytes, no need to chain.
                 // the overflow must not exceed the new buffers capacity
-- 
2.43.0


From 9dcd17440a6969f28a91e8d065c8d1b2614336c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:21 +0000
Subject: [PATCH 24/57] fix: a forwarded message must not include data that was
 already read

A received message's ChunkRef has its headers before the read pointer. They
were counted and sent again when the message was chained behind the new
headers.
---
 core/src/net/buffers/chunk_ref.rs     | 20 +++++++++++++++++++-
 core/src/serialisation/ser_helpers.rs |  6 +++---
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/core/src/net/buffers/chunk_ref.rs b/core/src/net/buffers/chunk_ref.rs
index a4a98f4..6727821 100644
--- a/core/src/net/buffers/chunk_ref.rs
+++ b/core/src/net/buffers/chunk_ref.rs
@@ -43,7 +43,10 @@ impl ChunkRef {
 
     /// Appends `new_tail` to the end of the `ChunkRef` chain
     /// Use Public ChunkLease methods into_chunk_ref_as_tail or into_chunk_ref_with_tail
-    pub(super) fn append_to_chain(&mut self, new_tail: ChunkRef) {
+    ///
+    /// Data stored before the `read_pointer` of `new_tail` is dropped.
+    pub(super) fn append_to_chain(&mut self, mut new_tail: ChunkRef) {
+        new_tail.drop_read_data();
         self.chain_len += new_tail.chain_len;
         if let Some(tail) = &mut self.chain {
             // recursion
@@ -54,6 +57,21 @@ impl ChunkRef {
         }
     }
 
+    /// Drops the data before the `read_pointer`, such that the `read_pointer` is 0 again.
+    fn drop_read_data(&mut self) {
+        while self.read_pointer > self.chain_head_len {
+            let Some(mut tail) = self.chain.take() else {
+                break;
+            };
+            tail.read_pointer = self.read_pointer - self.chain_head_len;
+            *self = *tail;
+        }
+        self.content = &self.content[self.read_pointer..];
+        self.chain_head_len -= self.read_pointer;
+        self.chain_len -= self.read_pointer;
+        self.read_pointer = 0;
+    }
+
     // Recursive method for the bytes() impl
     fn get_chunk_at(&self, pos: usize) -> &[u8] {
         if pos >= self.chain_head_len {
diff --git a/core/src/serialisation/ser_helpers.rs b/core/src/serialisation/ser_helpers.rs
index 2e5018a..e88a2b1 100644
--- a/core/src/serialisation/ser_helpers.rs
+++ b/core/src/serialisation/ser_helpers.rs
@@ -153,7 +153,7 @@ pub fn serialise_msg_with_preserialised(
     src.serialise(buf)?; // src
     dst.serialise(buf)?; // dst
     buf.get_chunk_lease().map(|mut header| {
-        let len = header.capacity() + content.capacity() - FRAME_HEAD_LEN as usize;
+        let len = header.capacity() + content.remaining() - FRAME_HEAD_LEN as usize;
         header.insert_head(FrameHead::new(FrameType::Data, len));
         header.into_chunk_ref_with_tail(content)
     })
@@ -180,7 +180,7 @@ pub fn embed_msg(msg: NetMessage, buf: &mut BufferEncoder) -> Result<ChunkRef, S
         HeapOrSer::ChunkLease(chunk_lease) => {
             return buf.get_chunk_lease().map(|mut header_lease| {
                 let frame_len =
-                    header_lease.capacity() - (FRAME_HEAD_LEN as usize) + chunk_lease.capacity();
+                    header_lease.capacity() - (FRAME_HEAD_LEN as usize) + chunk_lease.remaining();
                 header_lease.insert_head(FrameHead::new(FrameType::Data, frame_len));
                 let chunk_ref = header_lease.into_chunk_ref_with_tail(chunk_lease.into_chunk_ref());
                 assert_eq!(
@@ -194,7 +194,7 @@ pub fn embed_msg(msg: NetMessage, buf: &mut BufferEncoder) -> Result<ChunkRef, S
         HeapOrSer::ChunkRef(chunk_ref) => {
             return buf.get_chunk_lease().map(|mut header_lease| {
                 let frame_len =
-                    header_lease.capacity() - (FRAME_HEAD_LEN as usize) + chunk_ref.capacity();
+                    header_lease.capacity() - (FRAME_HEAD_LEN as usize) + chunk_ref.remaining();
                 header_lease.insert_head(FrameHead::new(FrameType::Data, frame_len));
                 let chunk_ref = header_lease.into_chunk_ref_with_tail(chunk_ref);
                 assert_eq!(
-- 
2.43.0


From bcd63dc94daf98f932823d11f1c0729eead0357a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:05 +0000
Subject: [PATCH 25/57] fix: let encoders grow over chunk boundaries and fail
 cleanly

remaining_mut only covered the current chunk, so put_bytes and writers that
check for free space (such as protobuf) failed at its end. After the pool
ran out of chunks, write_offset was set in the old chunk and data that was
already leased could be overwritten.
---
 core/src/net/buffers/encode_buffer.rs | 45 +++++++++++++++++++++------
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/core/src/net/buffers/encode_buffer.rs b/core/src/net/buffers/encode_buffer.rs
index 4a4f224..aeba63f 100644
--- a/core/src/net/buffers/encode_buffer.rs
+++ b/core/src/net/buffers/encode_buffer.rs
@@ -3,6 +3,9 @@ use crate::{actors::DispatcherRef, messaging::DispatchEnvelope, serialisation::S
 use bytes::{BufMut, buf::UninitSlice};
 use std::{cmp, ptr, sync::Arc};
 
+/// Length of the slices handed out for writing after an encoder has failed.
+const DISCARD_LEN: usize = 256;
+
 /// Structure used by components to continuously extract leases from BufferChunks swapped with the internal/private BufferPool
 /// Using get_buffer_encoder() we get a BufferEncoder which implements BufMut interface for the underlying Chunks
 /// The BufferEncoder uses its lifetime and Drop impl to give compile-time safety for consecutive encoding attempts
@@ -147,6 +150,8 @@ pub struct BufferEncoder<'a> {
     encode_buffer: &'a mut EncodeBuffer,
     chain_head: Option<ChunkLease>,
     ser_error: Option<SerError>,
+    /// Takes what is written after an error occurred, until the error is reported.
+    discard: Vec<u8>,
 }
 
 impl<'a> BufferEncoder<'a> {
@@ -160,6 +165,7 @@ impl<'a> BufferEncoder<'a> {
             encode_buffer,
             chain_head: None,
             ser_error: None,
+            discard: Vec::new(),
         }
     }
 
@@ -200,6 +206,9 @@ impl<'a> BufferEncoder<'a> {
     pub fn get_chunk_lease(&mut self) -> Result<ChunkLease, SerError> {
         // Check if an error occurred in the BufMut implementation while serialising:
         if let Some(error) = self.ser_error.take() {
+            // Nothing of the failed message may end up in the next one.
+            self.chain_head = None;
+            self.encode_buffer.read_offset = self.encode_buffer.write_offset;
             return Err(error);
         };
 
@@ -247,7 +256,9 @@ impl Drop for BufferEncoder<'_> {
 // `advance_mut` or `chunk_mut` updates or derives from that single source of truth.
 unsafe impl BufMut for BufferEncoder<'_> {
     fn remaining_mut(&self) -> usize {
-        self.encode_buffer.writeable_len()
+        // Full chunks are swapped for fresh ones as needed.
+        // If that is not possible, the error is returned when get_chunk_lease is called.
+        usize::MAX
     }
 
     unsafe fn advance_mut(&mut self, cnt: usize) {
@@ -255,20 +266,36 @@ unsafe impl BufMut for BufferEncoder<'_> {
             return;
         };
 
-        let remaining = self.encode_buffer.writeable_len();
-        if remaining < cnt {
+        let mut left = cnt;
+        loop {
+            let remaining = self.encode_buffer.writeable_len();
+            if remaining >= left {
+                self.encode_buffer.write_offset += left;
+                return;
+            }
             // We need to advance partially, swap, and then advance the rest!
             self.encode_buffer.write_offset += remaining;
-            let _ = self.chain_and_swap().map_err(|err| {
+            left -= remaining;
+            if let Err(err) = self.chain_and_swap() {
                 self.ser_error = Some(err);
-            });
-            self.encode_buffer.write_offset = cnt - remaining;
-        } else {
-            self.encode_buffer.write_offset += cnt;
+                return;
+            }
         }
     }
 
     fn chunk_mut(&mut self) -> &mut UninitSlice {
+        if self.ser_error.is_none()
+            && self.encode_buffer.writeable_len() == 0
+            && let Err(err) = self.chain_and_swap()
+        {
+            // The error will be returned later when get_chunk_lease is called.
+            self.ser_error = Some(err);
+        }
+        if self.ser_error.is_some() {
+            // Nothing may be written into the current chunk anymore.
+            self.discard.resize(DISCARD_LEN, 0);
+            return UninitSlice::new(&mut self.discard);
+        }
         // SAFETY: `write_offset` always stays within the current buffer length, so the returned
         // uninitialised slice covers exactly the remaining writable tail.
         unsafe {
@@ -315,7 +342,7 @@ unsafe impl BufMut for BufferEncoder<'_> {
                 self.advance_mut(cnt);
             }
             // Check if we need to swap
-            if self.remaining_mut() < (src.len() - off) {
+            if self.encode_buffer.writeable_len() < (src.len() - off) {
                 // The error will be returned later when get_chunk_lease is called.
                 let _ = self.chain_and_swap().map_err(|err| {
                     self.ser_error = Some(err);
-- 
2.43.0


From 7292aeb2075ab94639cf5fde7ea8c277761a59b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:05 +0000
Subject: [PATCH 26/57] fix: a failed reservation must not lose the pool's free
 buffers

The buffers reclaimed so far were dropped but still counted, so that the
pool shrank with every failed reservation.
---
 core/src/net/buffers/buffer_pool.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/core/src/net/buffers/buffer_pool.rs b/core/src/net/buffers/buffer_pool.rs
index b076b31..d50bec3 100644
--- a/core/src/net/buffers/buffer_pool.rs
+++ b/core/src/net/buffers/buffer_pool.rs
@@ -100,17 +100,20 @@ impl BufferPool {
                 reserved.push(reclaimed);
                 required_buffers -= 1;
             } else {
-                return Err(BufferError::NoAvailableBuffers(format!(
-                    "try_reserve failed while reserving {} bytes. \
-                    chunk_size: {}, max_pool_size: {}, current pool_size {} ",
-                    size, self.chunk_size, self.max_pool_size, self.pool_size
-                )));
+                break;
             }
         }
         for buffer in reserved {
-            // Insert the reclaimed buffers in the front.
+            // Insert the reclaimed buffers in the front, even if there are not enough of them.
             self.pool.push_front(buffer);
         }
+        if required_buffers > 0 {
+            return Err(BufferError::NoAvailableBuffers(format!(
+                "try_reserve failed while reserving {} bytes. \
+                chunk_size: {}, max_pool_size: {}, current pool_size {} ",
+                size, self.chunk_size, self.max_pool_size, self.pool_size
+            )));
+        }
         Ok(())
     }
 
-- 
2.43.0


From e7a39edd5a73b4bea863ec5d6db9d989ef233661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:47 +0000
Subject: [PATCH 27/57] fix: keep a chunk's memory until all leases on it are
 gone

The memory was released with its BufferChunk, although leases on it may
outlive the pool, for example when the sending component or the network
thread is dropped while a message is still held. Reading such a lease was a
use after free. Reusing a chunk also needs to happen after the reads
through its dropped leases.
---
 core/src/net/buffers/chunk_lease.rs   | 10 ++--
 core/src/net/buffers/chunk_ref.rs     |  6 +-
 core/src/net/buffers/encode_buffer.rs |  2 +-
 core/src/net/buffers/mod.rs           | 79 +++++++++++++++++++++------
 4 files changed, 70 insertions(+), 27 deletions(-)

diff --git a/core/src/net/buffers/chunk_lease.rs b/core/src/net/buffers/chunk_lease.rs
index b195f80..3864133 100644
--- a/core/src/net/buffers/chunk_lease.rs
+++ b/core/src/net/buffers/chunk_lease.rs
@@ -1,7 +1,7 @@
-use super::ChunkRef;
+use super::{ChunkLock, ChunkRef};
 use crate::net::frames::FrameHead;
 use bytes::{Buf, BufMut, Bytes, buf::UninitSlice};
-use std::{cmp::Ordering, ptr::NonNull, sync::Arc};
+use std::{cmp::Ordering, ptr::NonNull};
 
 /// A ChunkLease is a smart-pointer to a byte-slice, implementing [Buf](bytes::Buf) and
 /// [BufMut](bytes::BufMut) interfaces. They are created with one or many distinct slices of
@@ -13,7 +13,7 @@ pub struct ChunkLease {
     write_pointer: usize,
     read_pointer: usize,
     chain_head_len: usize,
-    lock: Arc<()>,
+    lock: ChunkLock,
     chain: Option<Box<ChunkLease>>,
     /// The length of the chain from self (i.e. independent of parent(s))
     chain_len: usize,
@@ -21,7 +21,7 @@ pub struct ChunkLease {
 
 impl ChunkLease {
     /// Creates a new `ChunkLease` from a static byte-slice with already written bytes and a `lock`.
-    pub(crate) fn new(content: &'static mut [u8], lock: Arc<()>) -> ChunkLease {
+    pub(crate) fn new(content: &'static mut [u8], lock: ChunkLock) -> ChunkLease {
         let capacity = content.len();
         let write_pointer = content.len();
         ChunkLease {
@@ -42,7 +42,7 @@ impl ChunkLease {
         unsafe {
             ChunkLease::new(
                 std::slice::from_raw_parts_mut(NonNull::dangling().as_ptr(), 0),
-                Arc::new(()),
+                ChunkLock::none(),
             )
         }
     }
diff --git a/core/src/net/buffers/chunk_ref.rs b/core/src/net/buffers/chunk_ref.rs
index 6727821..9b93b8e 100644
--- a/core/src/net/buffers/chunk_ref.rs
+++ b/core/src/net/buffers/chunk_ref.rs
@@ -1,5 +1,5 @@
+use super::ChunkLock;
 use crate::prelude::Buf;
-use std::sync::Arc;
 
 /// A `ChunkRef` is created from a `ChunkLease`, or from a `ChunkRef` and a `ChunkLease`.
 /// It is immutable and may be cloned and shared and chained with many other `ChunkRefs`.
@@ -10,7 +10,7 @@ pub struct ChunkRef {
     chain_head_len: usize,
     /// The presence of the `lock` field prevents the parent chunk lease from unlocking, while the chunk ref is allocated.
     #[allow(dead_code)]
-    lock: Arc<()>,
+    lock: ChunkLock,
     chain: Option<Box<ChunkRef>>,
     /// The length of the chain from self (i.e. independent of parent(s))
     chain_len: usize,
@@ -21,7 +21,7 @@ impl ChunkRef {
         content: &'static [u8],
         read_pointer: usize,
         chain_head_len: usize,
-        lock: Arc<()>,
+        lock: ChunkLock,
         chain: Option<Box<ChunkRef>>,
         chain_len: usize,
     ) -> Self {
diff --git a/core/src/net/buffers/encode_buffer.rs b/core/src/net/buffers/encode_buffer.rs
index aeba63f..bcfaf37 100644
--- a/core/src/net/buffers/encode_buffer.rs
+++ b/core/src/net/buffers/encode_buffer.rs
@@ -299,7 +299,7 @@ unsafe impl BufMut for BufferEncoder<'_> {
         // SAFETY: `write_offset` always stays within the current buffer length, so the returned
         // uninitialised slice covers exactly the remaining writable tail.
         unsafe {
-            let ptr = (*self.encode_buffer.buffer.chunk).as_mut_ptr();
+            let ptr = (*self.encode_buffer.buffer.memory.chunk).as_mut_ptr();
             let offset_ptr = ptr.add(self.encode_buffer.write_offset);
             UninitSlice::from_raw_parts_mut(
                 offset_ptr,
diff --git a/core/src/net/buffers/mod.rs b/core/src/net/buffers/mod.rs
index 4a07143..148ee0d 100644
--- a/core/src/net/buffers/mod.rs
+++ b/core/src/net/buffers/mod.rs
@@ -205,8 +205,7 @@ impl Chunk for DefaultChunk {
 /// BufferChunk is a lockable pinned byte-slice
 /// All modifications to the Chunk goes through the get_slice method
 pub struct BufferChunk {
-    chunk: *mut dyn Chunk,
-    allocator: Arc<dyn ChunkAllocator>,
+    memory: Arc<ChunkMemory>,
     ref_count: Arc<()>,
     locked: bool,
 }
@@ -221,26 +220,63 @@ impl Debug for BufferChunk {
     }
 }
 
-impl Drop for BufferChunk {
+/// The memory behind a [BufferChunk], shared with all leases of it.
+///
+/// It is released once the chunk and all its leases are gone.
+pub(crate) struct ChunkMemory {
+    chunk: *mut dyn Chunk,
+    allocator: Arc<dyn ChunkAllocator>,
+}
+
+impl Drop for ChunkMemory {
     fn drop(&mut self) {
-        // SAFETY: `self.chunk` originated from `self.allocator.get_chunk()` and this `BufferChunk`
+        // SAFETY: `self.chunk` originated from `self.allocator.get_chunk()` and this `ChunkMemory`
         // owns the allocation uniquely at drop time.
         unsafe { self.allocator.release(self.chunk) };
     }
 }
 
-// SAFETY: a `BufferChunk` owns a uniquely referenced allocation plus a lock counter. The raw
-// pointer is only dereferenced behind `&self`/`&mut self`, and the underlying chunk memory is not
-// shared mutably across threads without taking ownership of the whole `BufferChunk`.
-unsafe impl Send for BufferChunk {}
+// SAFETY: the raw pointer is only dereferenced behind `&self`/`&mut self` of the one `BufferChunk`
+// owning this memory. Leases only keep the memory alive.
+unsafe impl Send for ChunkMemory {}
+unsafe impl Sync for ChunkMemory {}
+
+/// Keeps a [BufferChunk] locked, and its memory allocated, while a lease on it exists.
+#[derive(Clone)]
+pub(crate) struct ChunkLock {
+    #[allow(dead_code)]
+    ref_count: Arc<()>,
+    #[allow(dead_code)]
+    memory: Option<Arc<ChunkMemory>>,
+}
+
+impl ChunkLock {
+    /// A lock for a lease that does not belong to any chunk
+    pub(crate) fn none() -> Self {
+        ChunkLock {
+            ref_count: Arc::new(()),
+            memory: None,
+        }
+    }
+}
+
+impl Debug for ChunkLock {
+    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+        f.debug_tuple("ChunkLock")
+            .field(&Arc::strong_count(&self.ref_count))
+            .finish()
+    }
+}
 
 impl BufferChunk {
     /// Allocate a new Default BufferChunk
     pub fn new(size: usize) -> Self {
         let allocator: Arc<dyn ChunkAllocator> = Arc::new(DefaultAllocator { chunk_size: size });
         BufferChunk {
-            chunk: allocator.get_chunk(),
-            allocator,
+            memory: Arc::new(ChunkMemory {
+                chunk: allocator.get_chunk(),
+                allocator,
+            }),
             ref_count: Arc::new(()),
             locked: false,
         }
@@ -249,8 +285,10 @@ impl BufferChunk {
     /// Creates a BufferChunk using the given Chunk
     pub fn from_chunk(raw_chunk: *mut dyn Chunk, allocator: Arc<dyn ChunkAllocator>) -> Self {
         BufferChunk {
-            chunk: raw_chunk,
-            allocator,
+            memory: Arc::new(ChunkMemory {
+                chunk: raw_chunk,
+                allocator,
+            }),
             ref_count: Arc::new(()),
             locked: false,
         }
@@ -258,14 +296,14 @@ impl BufferChunk {
 
     /// Get the length of the BufferChunk
     pub fn len(&self) -> usize {
-        // SAFETY: `self.chunk` is a live chunk owned by this `BufferChunk` for the duration of
+        // SAFETY: `self.memory` is a live chunk owned by this `BufferChunk` for the duration of
         // `self`.
-        unsafe { Chunk::len(&*self.chunk) }
+        unsafe { Chunk::len(&*self.memory.chunk) }
     }
 
     pub fn is_empty(&self) -> bool {
         // SAFETY: same reasoning as in `len`.
-        unsafe { Chunk::is_empty(&*self.chunk) }
+        unsafe { Chunk::is_empty(&*self.memory.chunk) }
     }
 
     /// Return a subslice of the chunk.
@@ -281,7 +319,7 @@ impl BufferChunk {
         assert!(from < to && to <= self.len() && !self.locked);
         // SAFETY: the bounds check above guarantees the pointer arithmetic stays within the chunk,
         // and `&mut self` ensures there is no concurrent mutable access while the slice is created.
-        let ptr = unsafe { (*self.chunk).as_mut_ptr() };
+        let ptr = unsafe { (*self.memory.chunk).as_mut_ptr() };
         let offset_ptr = unsafe { ptr.add(from) };
         unsafe { std::slice::from_raw_parts_mut(offset_ptr, to - from) }
     }
@@ -294,7 +332,10 @@ impl BufferChunk {
     /// Returns a ChunkLease pointing to the subslice between `from` and `to`of the BufferChunk
     /// the returned lease is a consumable Buf.
     pub fn get_lease(&mut self, from: usize, to: usize) -> ChunkLease {
-        let lock = self.get_lock();
+        let lock = ChunkLock {
+            ref_count: self.get_lock(),
+            memory: Some(self.memory.clone()),
+        };
         // SAFETY: the returned lease keeps the chunk locked for the whole lifetime of the slice.
         ChunkLease::new(unsafe { self.get_slice(from, to) }, lock)
     }
@@ -307,7 +348,9 @@ impl BufferChunk {
     /// Returns true if this BufferChunk is available again
     pub fn free(&mut self) -> bool {
         if self.locked {
-            if Arc::strong_count(&self.ref_count) < 2 {
+            // Unlike `strong_count`, this also makes sure that all reads of the dropped leases
+            // happened before anything that is written from here on.
+            if Arc::get_mut(&mut self.ref_count).is_some() {
                 self.locked = false;
                 true
             } else {
-- 
2.43.0


From 0765bc85cdd0127dd57bb0324a30784c1fe5f108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:31 +0000
Subject: [PATCH 28/57] fix: end the thread of a dedicated component when it
 becomes faulty

The thread parked forever instead, keeping the component (and everything queued for it)
allocated for the rest of the process.
---
 core/src/dedicated_scheduler.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/dedicated_scheduler.rs b/core/src/dedicated_scheduler.rs
index 016726c..06568de 100644
--- a/core/src/dedicated_scheduler.rs
+++ b/core/src/dedicated_scheduler.rs
@@ -101,7 +101,8 @@ impl DedicatedThreadScheduler {
         let backoff = Backoff::new();
         'main: loop {
             let res = c.execute();
-            if c.is_destroyed() || stop.load(Ordering::Relaxed) {
+            // a faulty component never executes again, so its thread must not keep it alive
+            if c.is_destroyed() || c.is_faulty() || stop.load(Ordering::Relaxed) {
                 break 'main;
             }
             let park = match res {
-- 
2.43.0


From 1071c679a1a16a80f5b53ef7af26a0df30046515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:33 +0000
Subject: [PATCH 29/57] fix: concurrent shutdown requests must not interfere
 with each other

---
 core/src/runtime/system.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/core/src/runtime/system.rs b/core/src/runtime/system.rs
index 6d65166..3958f5e 100644
--- a/core/src/runtime/system.rs
+++ b/core/src/runtime/system.rs
@@ -973,6 +973,12 @@ impl KompactSystem {
         self,
     ) -> impl Future<Output = Result<(), ShutdownError>> + Send + Unpin + 'static {
         async move {
+            // concurrent requests would interfere with each other,
+            // so the later ones wait for the first
+            let _guard = self.inner.shutdown_lock.lock().await;
+            if self.inner.is_destroyed() {
+                return Ok(());
+            }
             self.inner.assert_active();
             self.inner.shutdown_notify(&self).await?;
             self.scheduler
@@ -991,6 +997,10 @@ impl KompactSystem {
     ///
     /// Remote systems will perceive this system as crashed.
     pub fn kill_system(self) -> Result<(), ShutdownError> {
+        let _guard = utils::block_on(self.inner.shutdown_lock.lock());
+        if self.inner.is_destroyed() {
+            return Ok(());
+        }
         self.inner.assert_active();
         self.inner.kill(&self)?;
         self.scheduler
@@ -1762,6 +1772,8 @@ struct KompactRuntime {
     internal_components: OnceMutex<Option<InternalComponents>>,
     logger: KompactLogger,
     state: AtomicUsize,
+    /// Held while the system is being shut down
+    shutdown_lock: futures::lock::Mutex<()>,
 }
 
 impl KompactRuntime {
@@ -1779,6 +1791,7 @@ impl KompactRuntime {
             internal_components: OnceMutex::new(None),
             logger,
             state: lifecycle::initial_state(),
+            shutdown_lock: futures::lock::Mutex::new(()),
         }
     }
 
@@ -1974,6 +1987,10 @@ impl KompactRuntime {
         lifecycle::is_active(self.state())
     }
 
+    fn is_destroyed(&self) -> bool {
+        lifecycle::is_destroyed(self.state())
+    }
+
     fn is_poisoned(&self) -> bool {
         lifecycle::is_faulty(self.state())
     }
-- 
2.43.0


From a112dc4f0a7c0dc1066b323b61e487862faf24b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:40 +0000
Subject: [PATCH 30/57] fix: a shutdown nobody waits for any more must not
 poison the system

---
 core/src/supervision.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/core/src/supervision.rs b/core/src/supervision.rs
index e2bb033..e38f587 100644
--- a/core/src/supervision.rs
+++ b/core/src/supervision.rs
@@ -254,9 +254,9 @@ impl ComponentSupervisor {
                     "Last child of the Supervisor is dead or faulty!"
                 );
                 let promise = self.shutdown.take().unwrap();
-                promise
-                    .complete()
-                    .expect("Could not fulfill shutdown promise!");
+                if promise.complete().is_err() {
+                    debug!(self.ctx.log(), "Nobody is waiting for the shutdown any more.");
+                }
                 self.listeners.clear(); // we won't be fulfilling these anyway
             } else {
                 trace!(
@@ -377,9 +377,9 @@ impl Provide<SupervisionPort> for ComponentSupervisor {
                     debug!(self.ctx.log(), "Supervisor got shutdown request.");
                     if self.children.is_empty() {
                         trace!(self.ctx.log(), "Supervisor has no children!");
-                        promise
-                            .complete()
-                            .expect("Could not fulfill shutdown promise!");
+                        if promise.complete().is_err() {
+                            debug!(self.ctx.log(), "Nobody is waiting for the shutdown any more.");
+                        }
                         self.listeners.clear(); // we won't be fulfilling these anyway
                     } else {
                         trace!(self.ctx.log(), "Killing {} children.", self.children.len());
-- 
2.43.0


From 3951741c175c01e607ee58c8633ce2bd247d0ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:51 +0000
Subject: [PATCH 31/57] fix: routing markers are only legal as the whole last
 segment of a path

---
 core/src/actors/paths.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/actors/paths.rs b/core/src/actors/paths.rs
index b2ff820..b1e2f50 100644
--- a/core/src/actors/paths.rs
+++ b/core/src/actors/paths.rs
@@ -719,10 +719,10 @@ pub(crate) fn validate_lookup_path_segment(
     for c in segment.chars() {
         match c {
             PATH_SEP => return Err(PathParseError::IllegalCharacter(PATH_SEP)),
-            BROADCAST_MARKER if !is_last && len == 1 => {
+            BROADCAST_MARKER if !is_last || len != 1 => {
                 return Err(PathParseError::IllegalCharacter(BROADCAST_MARKER));
             }
-            SELECT_MARKER if !is_last && len == 1 => {
+            SELECT_MARKER if !is_last || len != 1 => {
                 return Err(PathParseError::IllegalCharacter(SELECT_MARKER));
             }
             UNIQUE_PATH_SEP => return Err(PathParseError::IllegalCharacter(UNIQUE_PATH_SEP)),
-- 
2.43.0


From 92a06b66a2821fa423beeb4e132d97f9c6ea3c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:51 +0000
Subject: [PATCH 32/57] fix: selecting from a routing group without members
 must not panic

---
 core/src/routing/groups.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/core/src/routing/groups.rs b/core/src/routing/groups.rs
index 0775d09..e4962b4 100644
--- a/core/src/routing/groups.rs
+++ b/core/src/routing/groups.rs
@@ -141,6 +141,13 @@ impl Default for RoundRobinRouting {
 }
 impl RoutingPolicy<DynActorRef, NetMessage> for RoundRobinRouting {
     fn route(&self, members: &[&DynActorRef], msg: NetMessage, logger: &KompactLogger) {
+        if members.is_empty() {
+            warn!(
+                logger,
+                "Dropping a message for {}, as the group has no members", msg.receiver
+            );
+            return;
+        }
         let index = self.get_and_increment_index(members.len());
         trace!(logger, "Routing msg to member at index={}", index);
         members[index].tell(msg);
@@ -242,6 +249,13 @@ impl<H: BuildHasher + Clone + Send + Sync + 'static> RoutingPolicy<DynActorRef,
     for SenderHashBucketRouting<H>
 {
     fn route(&self, members: &[&DynActorRef], msg: NetMessage, logger: &KompactLogger) {
+        if members.is_empty() {
+            warn!(
+                logger,
+                "Dropping a message for {}, as the group has no members", msg.receiver
+            );
+            return;
+        }
         let index = self.get_bucket(&msg, members.len());
         trace!(
             logger,
-- 
2.43.0


From 101e61bab5d82aed5e7ea49a2e1938485bb1ca81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:32 +0000
Subject: [PATCH 33/57] fix: a malformed message from a peer must not crash the
 network thread

---
 network/src/transport/network_thread.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index b743632..1c0fb7f 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -557,9 +557,18 @@ impl NetworkThread {
 
     fn handle_data_frame(&self, data: Data, session: SessionId) {
         let buf = data.payload();
-        let mut envelope = deserialise_chunk_lease(buf).expect("s11n errors");
-        envelope.set_session(session);
-        self.deliver_net_message(envelope);
+        match deserialise_chunk_lease(buf) {
+            Ok(mut envelope) => {
+                envelope.set_session(session);
+                self.deliver_net_message(envelope);
+            }
+            Err(e) => {
+                warn!(
+                    self.log,
+                    "Could not deserialise message frame, dropping message: {}", e
+                );
+            }
+        }
     }
 
     fn deliver_net_message(&self, envelope: NetMessage) {
-- 
2.43.0


From 0b94490b2e68134fe6197c59d46cfcea8231a2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:36 +0000
Subject: [PATCH 34/57] fix: frames a peer may not send in the current state
 must not crash or hijack channels

---
 network/src/transport/network_channel.rs | 23 ++++++++++++++++-----
 network/src/transport/network_thread.rs  | 26 +++++++++++++++++++++++-
 2 files changed, 43 insertions(+), 6 deletions(-)

diff --git a/network/src/transport/network_channel.rs b/network/src/transport/network_channel.rs
index 47f77ea..f2e212f 100644
--- a/network/src/transport/network_channel.rs
+++ b/network/src/transport/network_channel.rs
@@ -147,6 +147,23 @@ impl TcpChannel {
         }
     }
 
+    /// Whether the protocol allows the peer to send this frame in the current state.
+    pub fn expects(&self, frame: &Frame) -> bool {
+        match frame {
+            Frame::Hello(_) => matches!(self.state, ChannelState::Requested(_, _)),
+            Frame::Start(_) => matches!(self.state, ChannelState::Initialising),
+            Frame::Ack() => matches!(self.state, ChannelState::Initialised(_, _)),
+            Frame::Data(_) => matches!(
+                self.state,
+                ChannelState::Connected(_, _)
+                    | ChannelState::CloseRequested(_, _)
+                    | ChannelState::CloseReceived(_, _)
+            ),
+            Frame::Bye() => true,
+            _ => false,
+        }
+    }
+
     /// Must be called when a Hello frame is received on the channel.
     pub fn handle_hello(&mut self, hello: &Hello) {
         if let ChannelState::Requested(_, id) = self.state {
@@ -177,6 +194,7 @@ impl TcpChannel {
         self.address
     }
 
+    /// Must be called when an Ack frame is received on the channel.
     pub fn handle_ack(&mut self) {
         if let ChannelState::Initialised(addr, id) = self.state {
             // An Ack was received. Transition the channel.
@@ -221,11 +239,6 @@ impl TcpChannel {
             };
         }
         match self.decode() {
-            Ok(Frame::Hello(hello)) => Ok(Some(Frame::Hello(hello))),
-            Ok(Frame::Ack()) => {
-                self.handle_ack();
-                Ok(Some(Frame::Ack()))
-            }
             Ok(Frame::Bye()) => {
                 self.handle_bye();
                 Ok(Some(Frame::Bye()))
diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index 1c0fb7f..0ad0764 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -364,6 +364,17 @@ impl NetworkThread {
                     Ok(None) => {
                         return;
                     }
+                    Ok(Some(frame)) if !channel.expects(&frame) => {
+                        warn!(
+                            self.log,
+                            "Unexpected {:?} frame from {} on channel {:?}",
+                            frame.frame_type(),
+                            channel.address(),
+                            channel
+                        );
+                        self.abort_connection(channel);
+                        return;
+                    }
                     Ok(Some(Frame::Data(data))) => {
                         self.handle_data_frame(
                             data,
@@ -380,6 +391,7 @@ impl NetworkThread {
                         self.handle_hello(channel.deref_mut(), &hello);
                     }
                     Ok(Some(Frame::Ack())) => {
+                        channel.handle_ack();
                         self.check_soft_connection_limit();
                         self.notify_network_status(NetworkStatus::ConnectionEstablished(
                             SystemPath::with_socket(Transport::Tcp, channel.address()),
@@ -620,7 +632,10 @@ impl NetworkThread {
             self.drop_channel(channel);
             return;
         }
-        if let Some(other_channel_rc) = self.get_channel_by_address(&start.addr) {
+        // The peer may announce the very address this channel is already registered under.
+        if start.addr != channel.address()
+            && let Some(other_channel_rc) = self.get_channel_by_address(&start.addr)
+        {
             let mut other_channel = other_channel_rc.borrow_mut();
             debug!(
                 self.log,
@@ -909,6 +924,15 @@ impl NetworkThread {
         channel.shutdown();
     }
 
+    /// Gives up on a channel whose peer violates the protocol.
+    fn abort_connection(&mut self, mut channel: RefMut<TcpChannel>) {
+        if channel.session_id().is_some() {
+            self.lost_connection(channel);
+        } else {
+            self.drop_channel(channel.deref_mut());
+        }
+    }
+
     fn reject_outbound_for_channel(&mut self, channel: &mut TcpChannel) {
         for rejected_frame in channel.take_outbound() {
             self.reject_dispatch_data(channel.address(), DispatchData::Serialised(rejected_frame));
-- 
2.43.0


From 9941d176fc7dd0efc9571786101791543eb37d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:59 +0000
Subject: [PATCH 35/57] fix: drop channels that received invalid data or were
 reset before the handshake

---
 network/src/transport/mod.rs            |  4 ++++
 network/src/transport/network_thread.rs | 14 ++++++++++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/network/src/transport/mod.rs b/network/src/transport/mod.rs
index e7f47a8..b1f1b23 100644
--- a/network/src/transport/mod.rs
+++ b/network/src/transport/mod.rs
@@ -537,6 +537,10 @@ pub(crate) fn connection_reset(err: &io::Error) -> bool {
     err.kind() == io::ErrorKind::ConnectionReset
 }
 
+pub(crate) fn invalid_data(err: &io::Error) -> bool {
+    err.kind() == io::ErrorKind::InvalidData
+}
+
 pub(crate) fn broken_pipe(err: &io::Error) -> bool {
     err.kind() == io::ErrorKind::BrokenPipe
 }
diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index 0ad0764..5a1611e 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -415,7 +415,17 @@ impl NetworkThread {
                             "Connection lost, reset by peer {}",
                             channel.address()
                         );
-                        self.lost_connection(channel);
+                        self.abort_connection(channel);
+                        return;
+                    }
+                    Err(e) if invalid_data(&e) => {
+                        warn!(
+                            self.log,
+                            "Invalid data on channel {}: {}",
+                            channel.address(),
+                            &e
+                        );
+                        self.abort_connection(channel);
                         return;
                     }
                     Err(e) => {
@@ -924,7 +934,7 @@ impl NetworkThread {
         channel.shutdown();
     }
 
-    /// Gives up on a channel whose peer violates the protocol.
+    /// Gives up on a channel that can't be used any more, in whatever state it is.
     fn abort_connection(&mut self, mut channel: RefMut<TcpChannel>) {
         if channel.session_id().is_some() {
             self.lost_connection(channel);
-- 
2.43.0


From 74e6a1f17c2c6c48e53113fcce3a56832a2db5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:10 +0000
Subject: [PATCH 36/57] fix: a connection closed by the peer is a lost
 connection, not an idle one

---
 network/src/transport/network_channel.rs |  8 ++++++++
 network/src/transport/network_thread.rs  | 14 +++++++++-----
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/network/src/transport/network_channel.rs b/network/src/transport/network_channel.rs
index f2e212f..4545a1b 100644
--- a/network/src/transport/network_channel.rs
+++ b/network/src/transport/network_channel.rs
@@ -66,6 +66,8 @@ pub(crate) struct TcpChannel {
     pub messages: u32,
     own_addr: SocketAddr,
     nodelay: bool,
+    /// The peer has closed its end of the stream.
+    end_of_stream: bool,
 }
 
 impl TcpChannel {
@@ -89,6 +91,7 @@ impl TcpChannel {
             messages: 0,
             own_addr,
             nodelay: network_config.get_tcp_nodelay(),
+            end_of_stream: false,
         }
     }
 
@@ -244,6 +247,10 @@ impl TcpChannel {
                 Ok(Some(Frame::Bye()))
             }
             Ok(frame) => Ok(Some(frame)),
+            // Everything the peer sent before closing has been decoded.
+            Err(FramingError::NoData) if self.end_of_stream => {
+                Err(Error::new(ErrorKind::ConnectionReset, "End of Stream"))
+            }
             Err(FramingError::NoData) => Ok(None),
             Err(_) => Err(Error::new(ErrorKind::InvalidData, "Framing Error")),
         }
@@ -259,6 +266,7 @@ impl TcpChannel {
                 .ok_or_else(|| io::Error::new(ErrorKind::InvalidInput, "No Buffer Space"))?;
             match self.stream.read(buf) {
                 Ok(0) => {
+                    self.end_of_stream = true;
                     return Ok(());
                 }
                 Ok(n) => {
diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index 5a1611e..95b1650 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -467,7 +467,7 @@ impl NetworkThread {
             let mut channel = channel_rc.borrow_mut();
             match channel.try_drain() {
                 Err(ref err) if broken_pipe(err) => {
-                    self.lost_connection(channel);
+                    self.abort_connection(channel);
                 }
                 Ok(_) => {
                     if let ChannelState::CloseReceived(addr, id) = channel.state {
@@ -935,11 +935,15 @@ impl NetworkThread {
     }
 
     /// Gives up on a channel that can't be used any more, in whatever state it is.
+    ///
+    /// An attempt to connect that fails before the session is established is not a lost connection,
+    /// it is re-attempted.
     fn abort_connection(&mut self, mut channel: RefMut<TcpChannel>) {
-        if channel.session_id().is_some() {
-            self.lost_connection(channel);
-        } else {
-            self.drop_channel(channel.deref_mut());
+        match channel.state {
+            ChannelState::Connected(_, _)
+            | ChannelState::CloseRequested(_, _)
+            | ChannelState::CloseReceived(_, _) => self.lost_connection(channel),
+            _ => self.drop_channel(channel.deref_mut()),
         }
     }
 
-- 
2.43.0


From 15770962485b2acb932903e4eb39e26d9bbda5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:55 +0000
Subject: [PATCH 37/57] fix: do not resend partially written or control frames
 on another session

Frames rejected from a lost channel are sent again on the next one. The rest
of a partially written frame and the Hello, Start, Ack and Bye frames of the
old channel made the new stream undecodable, or closed it.
---
 network/src/transport/network_channel.rs | 86 ++++++++++++++----------
 1 file changed, 51 insertions(+), 35 deletions(-)

diff --git a/network/src/transport/network_channel.rs b/network/src/transport/network_channel.rs
index 4545a1b..ea335d9 100644
--- a/network/src/transport/network_channel.rs
+++ b/network/src/transport/network_channel.rs
@@ -56,9 +56,19 @@ impl ChannelState {
     }
 }
 
+/// A frame waiting to be written to the stream.
+struct OutboundFrame {
+    frame: SerialisedFrame,
+    /// Whether the frame may be sent on another channel, if this one is lost.
+    ///
+    /// Never true for frames that belong to the protocol of this channel
+    /// and for frames that have been partially written already.
+    transferable: bool,
+}
+
 pub(crate) struct TcpChannel {
     stream: TcpStream,
-    outbound_queue: VecDeque<SerialisedFrame>,
+    outbound_queue: VecDeque<OutboundFrame>,
     pub token: Token,
     address: SocketAddr,
     input_buffer: DecodeBuffer,
@@ -119,8 +129,10 @@ impl TcpChannel {
         let mut bytes = BytesMut::with_capacity(len);
         bytes.truncate(len);
         if let Ok(()) = frame.encode_into(&mut bytes) {
-            self.outbound_queue
-                .push_back(SerialisedFrame::Bytes(bytes.freeze()));
+            self.outbound_queue.push_back(OutboundFrame {
+                frame: SerialisedFrame::Bytes(bytes.freeze()),
+                transferable: false,
+            });
             // If there is a fatal error during a handshake the connection will be re-attempted
             let _ = self.try_drain();
         } else {
@@ -212,12 +224,22 @@ impl TcpChannel {
         self.input_buffer.swap_buffer(new_buffer);
     }
 
+    /// Removes the frames that can still be sent on another channel from the outbound queue.
     pub fn take_outbound(&mut self) -> Vec<SerialisedFrame> {
-        let mut ret = Vec::new();
-        while let Some(frame) = self.outbound_queue.pop_front() {
-            ret.push(frame);
-        }
-        ret
+        let (transferable, rest): (VecDeque<_>, VecDeque<_>) = self
+            .outbound_queue
+            .drain(..)
+            .partition(|outbound| outbound.transferable);
+        self.outbound_queue = rest;
+        transferable
+            .into_iter()
+            .map(|outbound| outbound.frame)
+            .collect()
+    }
+
+    /// True if everything enqueued so far has been written to the stream.
+    pub fn is_drained(&self) -> bool {
+        self.outbound_queue.is_empty()
     }
 
     /// Performs receive and decode, should be called repeatedly
@@ -295,8 +317,10 @@ impl TcpChannel {
         let len = bye.encoded_len() + FRAME_HEAD_LEN as usize;
         bye_bytes.truncate(len);
         if let Ok(()) = bye.encode_into(&mut bye_bytes) {
-            self.outbound_queue
-                .push_back(SerialisedFrame::Bytes(bye_bytes.freeze()));
+            self.outbound_queue.push_back(OutboundFrame {
+                frame: SerialisedFrame::Bytes(bye_bytes.freeze()),
+                transferable: false,
+            });
             let _ = self.try_drain(); // Try to drain outgoing
         } else {
             panic!("Unable to send bye bytes, failed to encode!");
@@ -356,55 +380,47 @@ impl TcpChannel {
     /// Enqueues the frame for sending on the channel.
     /// Enquing to a non-connected channel is disallowed.
     pub fn enqueue_serialised(&mut self, serialized: SerialisedFrame) {
-        self.outbound_queue.push_back(serialized);
+        self.outbound_queue.push_back(OutboundFrame {
+            frame: serialized,
+            transferable: true,
+        });
     }
 
     /// Tries to drain the outbound buffer into
     pub fn try_drain(&mut self) -> io::Result<usize> {
         let mut sent_bytes: usize = 0;
         let mut interrupts = 0;
-        while let Some(mut serialized_frame) = self.outbound_queue.pop_front() {
-            match self.write_serialized(&serialized_frame) {
+        while let Some(mut outbound) = self.outbound_queue.pop_front() {
+            match self.write_serialized(&outbound.frame) {
                 Ok(n) => {
                     sent_bytes += n;
-                    match &mut serialized_frame {
-                        // Split the data and continue sending the rest later if we sent less than the full frame
-                        SerialisedFrame::Bytes(bytes) => {
-                            if n < bytes.len() {
-                                let _ = bytes.split_to(n); // Discard the already sent split off part.
-                                self.outbound_queue.push_front(serialized_frame);
-                            }
-                        }
-                        SerialisedFrame::ChunkLease(chunk) => {
-                            if n < chunk.remaining() {
-                                chunk.advance(n);
-                                self.outbound_queue.push_front(serialized_frame);
-                            }
-                        }
-                        SerialisedFrame::ChunkRef(chunk) => {
-                            if n < chunk.remaining() {
-                                chunk.advance(n);
-                                self.outbound_queue.push_front(serialized_frame);
-                            }
+                    if n < outbound.frame.len() {
+                        // Discard the already sent part and continue sending the rest later.
+                        match &mut outbound.frame {
+                            SerialisedFrame::Bytes(bytes) => bytes.advance(n),
+                            SerialisedFrame::ChunkLease(chunk) => chunk.advance(n),
+                            SerialisedFrame::ChunkRef(chunk) => chunk.advance(n),
                         }
+                        outbound.transferable = false;
+                        self.outbound_queue.push_front(outbound);
                     }
                     // Continue looping for the next message
                 }
                 // Would block "errors" are the OS's way of saying that the
                 // connection is not actually ready to perform this I/O operation.
                 Err(ref err) if would_block(err) => {
-                    self.outbound_queue.push_front(serialized_frame);
+                    self.outbound_queue.push_front(outbound);
                     return Ok(sent_bytes);
                 }
                 Err(err) if interrupted(&err) => {
-                    self.outbound_queue.push_front(serialized_frame);
+                    self.outbound_queue.push_front(outbound);
                     interrupts += 1;
                     if interrupts >= MAX_INTERRUPTS {
                         return Err(err);
                     }
                 }
                 Err(err) => {
-                    self.outbound_queue.push_front(serialized_frame);
+                    self.outbound_queue.push_front(outbound);
                     return Err(err);
                 }
             }
-- 
2.43.0


From ade322defdf278701acc7064a9811675dc7af470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:53 +0000
Subject: [PATCH 38/57] fix: answer a graceful close only after everything has
 been written

A write that would block was taken for a drained queue, so the channel was
closed in the middle of a frame and without a Bye.
---
 network/src/transport/network_thread.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index 95b1650..d0b814f 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -470,7 +470,9 @@ impl NetworkThread {
                     self.abort_connection(channel);
                 }
                 Ok(_) => {
-                    if let ChannelState::CloseReceived(addr, id) = channel.state {
+                    if let ChannelState::CloseReceived(addr, id) = channel.state
+                        && channel.is_drained()
+                    {
                         channel.state = ChannelState::Closed(addr, id);
                         debug!(self.log, "Connection to {} shutdown gracefully", &addr);
                         self.deregister_channel(channel.deref_mut());
-- 
2.43.0


From 2b7240b41d4ce2c720e0195bf2138c87966ee272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:11 +0000
Subject: [PATCH 39/57] fix: do not abort a graceful close because of new
 messages

A message sent to a host whose connection is being closed triggers a new
connection attempt, which dropped the closing channel together with the
messages it had not written yet.
---
 network/src/transport/network_thread.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index d0b814f..f02c8ec 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -753,6 +753,16 @@ impl NetworkThread {
                     );
                     return;
                 }
+                ChannelState::CloseRequested(_, _) | ChannelState::CloseReceived(_, _)
+                    if !channel.is_drained() =>
+                {
+                    debug!(
+                        self.log,
+                        "Requested connection to host before the last messages were written {}",
+                        &address
+                    );
+                    return;
+                }
                 _ => {
                     self.drop_channel(&mut channel);
                 }
-- 
2.43.0


From df134e719bfcc32be221c592f05407518af2d60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:00 +0000
Subject: [PATCH 40/57] fix: keep messages in order when some are rejected
 while a connection closes

A rejected message was sent again, together with newer ones, before the
messages between them had come back from the network thread.
---
 network/src/dispatcher.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/network/src/dispatcher.rs b/network/src/dispatcher.rs
index d3ab418..98c1e62 100644
--- a/network/src/dispatcher.rs
+++ b/network/src/dispatcher.rs
@@ -566,6 +566,13 @@ impl NetworkDispatcher {
                 // These are messages which we routed to a network-thread before they lost the connection.
                 self.queue_manager.enqueue_priority_data(*data, addr);
                 self.retry_map.entry(addr).or_insert(0);
+                // Sending anything before the next session is established would reorder it with messages
+                // that are still going to be rejected.
+                if let Some(state) = self.connections.get_mut(&addr)
+                    && let ConnectionState::Connected(id) = *state
+                {
+                    *state = ConnectionState::Lost(id);
+                }
             }
         }
     }
-- 
2.43.0


From 812114c1a5388e5b614eca791e86a33f8ff71f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:00 +0000
Subject: [PATCH 41/57] fix: start the next session only when the end of the
 previous one is acknowledged

A session started by the remote side could be established while the dispatcher
was still sending messages meant for the previous one. They overtook the
messages that had been rejected when that was lost.
---
 network/src/transport/network_thread.rs | 92 +++++++++++++++++++++----
 1 file changed, 77 insertions(+), 15 deletions(-)

diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index f02c8ec..f8685a2 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -152,6 +152,8 @@ impl NetworkThreadBuilder {
                 NonZeroUsize::new(self.network_config.get_hard_connection_limit() as usize)
                     .unwrap(),
             ),
+            unacknowledged_ends: FxHashMap::default(),
+            waiting_starts: FxHashMap::default(),
             token: START_TOKEN,
             input_queue: self.input_queue,
             buffer_pool: RefCell::new(buffer_pool),
@@ -176,6 +178,10 @@ pub struct NetworkThread {
     poll: Poll,
     address_map: FxHashMap<SocketAddr, Rc<RefCell<TcpChannel>>>,
     token_map: LruCache<Token, Rc<RefCell<TcpChannel>>>,
+    /// How many ends of sessions with these hosts the dispatcher has not acknowledged yet
+    unacknowledged_ends: FxHashMap<SocketAddr, usize>,
+    /// Start messages that can't be answered before the dispatcher has acknowledged the end of the previous session
+    waiting_starts: FxHashMap<SocketAddr, (Token, SessionId)>,
     token: Token,
     input_queue: Recv<DispatchEvent>,
     dispatcher_ref: DispatcherRef,
@@ -384,7 +390,7 @@ impl NetworkThread {
                         );
                     }
                     Ok(Some(Frame::Start(start))) => {
-                        self.handle_start(event, &mut channel, &start);
+                        self.handle_start(&mut channel, &start);
                         return;
                     }
                     Ok(Some(Frame::Hello(hello))) => {
@@ -476,10 +482,13 @@ impl NetworkThread {
                         channel.state = ChannelState::Closed(addr, id);
                         debug!(self.log, "Connection to {} shutdown gracefully", &addr);
                         self.deregister_channel(channel.deref_mut());
-                        self.notify_network_status(NetworkStatus::ConnectionClosed(
-                            SystemPath::with_socket(Transport::Tcp, channel.address()),
-                            id,
-                        ));
+                        self.notify_session_end(
+                            channel.address(),
+                            NetworkStatus::ConnectionClosed(
+                                SystemPath::with_socket(Transport::Tcp, channel.address()),
+                                id,
+                            ),
+                        );
                         self.reject_outbound_for_channel(&mut channel);
                     }
                 }
@@ -639,11 +648,19 @@ impl NetworkThread {
     ///     The other connection has not started and does not have a known UUID: it will be killed, this channel will start.
     ///     The connection has already started, in which case this channel must be killed.
     ///     The connection has a known UUID but is not connected: Use the UUID as a tie breaker for which to kill and which to keep.
-    fn handle_start(&mut self, event: &EventWithRetries, channel: &mut TcpChannel, start: &Start) {
+    ///
+    /// While the dispatcher does not know about the end of the previous session yet, it may still send messages meant
+    /// for that session. They must not overtake those that have been rejected already, so the answer has to wait.
+    fn handle_start(&mut self, channel: &mut TcpChannel, start: &Start) {
         if self.block_list.socket_addr_is_blocked(&start.addr) {
             self.drop_channel(channel);
             return;
         }
+        if self.unacknowledged_ends.contains_key(&start.addr) {
+            self.waiting_starts
+                .insert(start.addr, (channel.token, start.id));
+            return;
+        }
         // The peer may announce the very address this channel is already registered under.
         if start.addr != channel.address()
             && let Some(other_channel_rc) = self.get_channel_by_address(&start.addr)
@@ -660,6 +677,9 @@ impl NetworkThread {
                         return;
                     } else {
                         self.lost_connection(other_channel);
+                        self.waiting_starts
+                            .insert(start.addr, (channel.token, start.id));
+                        return;
                     }
                 }
                 ChannelState::Requested(_, other_id) if other_id.as_u128() > start.id.as_u128() => {
@@ -679,7 +699,8 @@ impl NetworkThread {
         }
         self.reregister_channel_address(channel.address(), start.addr);
         channel.handle_start(start);
-        self.retry_event(event);
+        self.retry_queue
+            .push_back(EventWithRetries::readable_with_token(&channel.token));
         self.check_soft_connection_limit();
         self.notify_network_status(NetworkStatus::ConnectionEstablished(
             SystemPath::with_socket(Transport::Tcp, start.addr),
@@ -692,10 +713,13 @@ impl NetworkThread {
             ChannelState::Closed(addr, id) => {
                 debug!(self.log, "Connection shutdown gracefully");
                 self.deregister_channel(channel);
-                self.notify_network_status(NetworkStatus::ConnectionClosed(
-                    SystemPath::with_socket(Transport::Tcp, addr),
-                    id,
-                ));
+                self.notify_session_end(
+                    addr,
+                    NetworkStatus::ConnectionClosed(
+                        SystemPath::with_socket(Transport::Tcp, addr),
+                        id,
+                    ),
+                );
                 self.reject_outbound_for_channel(channel);
             }
             ChannelState::CloseReceived(_, _) => {}
@@ -719,6 +743,19 @@ impl NetworkThread {
                 "ClosedAck for unrecognized address: {:#?}", &address
             );
         }
+        if let Some(count) = self.unacknowledged_ends.get_mut(&address) {
+            *count -= 1;
+            if *count > 0 {
+                return;
+            }
+            self.unacknowledged_ends.remove(&address);
+        }
+        if let Some((token, id)) = self.waiting_starts.remove(&address)
+            && let Some(channel_rc) = self.get_channel_by_token(&token)
+        {
+            let start = Start { addr: address, id };
+            self.handle_start(&mut channel_rc.borrow_mut(), &start);
+        }
     }
 
     fn drop_channel(&mut self, channel: &mut TcpChannel) {
@@ -736,6 +773,13 @@ impl NetworkThread {
     }
 
     fn request_stream(&mut self, address: SocketAddr) {
+        if self.unacknowledged_ends.contains_key(&address) {
+            debug!(
+                self.log,
+                "Requested connection to host before receiving ClosedAck {}", &address
+            );
+            return;
+        }
         if let Some(channel_rc) = self.get_channel_by_address(&address) {
             let mut channel = channel_rc.borrow_mut();
             match channel.state {
@@ -934,10 +978,13 @@ impl NetworkThread {
     fn lost_connection(&mut self, mut channel: RefMut<TcpChannel>) {
         trace!(self.log, "Lost connection to address {}", channel.address());
         if let Some(id) = channel.session_id() {
-            self.notify_network_status(NetworkStatus::ConnectionLost(
-                SystemPath::with_socket(Transport::Tcp, channel.address()),
-                id,
-            ));
+            self.notify_session_end(
+                channel.address(),
+                NetworkStatus::ConnectionLost(
+                    SystemPath::with_socket(Transport::Tcp, channel.address()),
+                    id,
+                ),
+            );
         }
         self.reject_outbound_for_channel(&mut channel);
         // Try to inform the other end that we're closing the channel
@@ -1005,6 +1052,12 @@ impl NetworkThread {
         )))
     }
 
+    /// Reports the end of a session, which the dispatcher acknowledges with a `ClosedAck`.
+    fn notify_session_end(&mut self, address: SocketAddr, status: NetworkStatus) {
+        *self.unacknowledged_ends.entry(address).or_insert(0) += 1;
+        self.notify_network_status(status);
+    }
+
     fn reject_dispatch_data(&self, address: SocketAddr, data: DispatchData) {
         self.dispatcher_ref.tell(DispatchEnvelope::Event(Box::new(
             NetworkDispatcherEvent::RejectedData((address, Box::new(data))),
@@ -1182,6 +1235,15 @@ impl EventWithRetries {
         }
     }
 
+    fn readable_with_token(token: &Token) -> EventWithRetries {
+        EventWithRetries {
+            token: *token,
+            readable: true,
+            writeable: false,
+            retries: 0,
+        }
+    }
+
     fn writeable_with_token(token: &Token) -> EventWithRetries {
         EventWithRetries {
             token: *token,
-- 
2.43.0


From 72557e4fc5f82050896838f8167d8257b337bdcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:20 +0000
Subject: [PATCH 42/57] fix: a session whose closing cannot be written must end

If the answer to a graceful close could not be written there was no further event for the
channel, so the session never ended and messages to that peer were stuck.
---
 network/src/transport/network_thread.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index f8685a2..2e7b5f5 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -722,7 +722,10 @@ impl NetworkThread {
                 );
                 self.reject_outbound_for_channel(channel);
             }
-            ChannelState::CloseReceived(_, _) => {}
+            ChannelState::CloseReceived(_, _) => {
+                // There may not be another event if writing failed.
+                self.enqueue_writeable_event(&channel.token);
+            }
             _ => {
                 self.drop_channel(channel);
             }
-- 
2.43.0


From c80ffc68fe958dbd16f72822b60396dbf1d12dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:20 +0000
Subject: [PATCH 43/57] fix: further requests to disconnect must not cut off a
 graceful close

---
 network/src/transport/network_channel.rs |  7 +++++++
 network/src/transport/network_thread.rs  | 11 +++++------
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/network/src/transport/network_channel.rs b/network/src/transport/network_channel.rs
index ea335d9..f6c2ad7 100644
--- a/network/src/transport/network_channel.rs
+++ b/network/src/transport/network_channel.rs
@@ -119,6 +119,13 @@ impl TcpChannel {
         matches!(self.state, ChannelState::Connected(_, _))
     }
 
+    pub fn closing(&self) -> bool {
+        matches!(
+            self.state,
+            ChannelState::CloseRequested(_, _) | ChannelState::CloseReceived(_, _)
+        )
+    }
+
     pub fn session_id(&self) -> Option<SessionId> {
         self.state.session_id()
     }
diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index 2e7b5f5..bcfcc5e 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -971,7 +971,7 @@ impl NetworkThread {
             if channel_mut.connected() {
                 channel_mut.initiate_graceful_shutdown();
                 self.update_lru(&channel_mut.token);
-            } else {
+            } else if !channel_mut.closing() {
                 self.drop_channel(channel_mut.deref_mut());
             }
         }
@@ -1001,11 +1001,10 @@ impl NetworkThread {
     /// An attempt to connect that fails before the session is established is not a lost connection,
     /// it is re-attempted.
     fn abort_connection(&mut self, mut channel: RefMut<TcpChannel>) {
-        match channel.state {
-            ChannelState::Connected(_, _)
-            | ChannelState::CloseRequested(_, _)
-            | ChannelState::CloseReceived(_, _) => self.lost_connection(channel),
-            _ => self.drop_channel(channel.deref_mut()),
+        if channel.connected() || channel.closing() {
+            self.lost_connection(channel);
+        } else {
+            self.drop_channel(channel.deref_mut());
         }
     }
 
-- 
2.43.0


From ab163e18a211f4d28e5b9ac0d0a7a046461f06d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:20 +0000
Subject: [PATCH 44/57] fix: report the end of sessions that are replaced while
 closing

---
 network/src/transport/network_channel.rs |  5 ++++-
 network/src/transport/network_thread.rs  | 10 ++++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/network/src/transport/network_channel.rs b/network/src/transport/network_channel.rs
index f6c2ad7..cfa7bdf 100644
--- a/network/src/transport/network_channel.rs
+++ b/network/src/transport/network_channel.rs
@@ -366,7 +366,10 @@ impl TcpChannel {
     /// Shuts down the channel stream
     pub fn shutdown(&mut self) {
         let _ = self.stream.shutdown(Both); // Discard errors while closing channels for now...
-        if let ChannelState::Connected(addr, id) = self.state {
+        if let ChannelState::Connected(addr, id)
+        | ChannelState::CloseRequested(addr, id)
+        | ChannelState::CloseReceived(addr, id) = self.state
+        {
             self.state = ChannelState::Closed(addr, id);
         }
     }
diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index bcfcc5e..c7faeed 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -682,6 +682,12 @@ impl NetworkThread {
                         return;
                     }
                 }
+                ChannelState::CloseRequested(_, _) | ChannelState::CloseReceived(_, _) => {
+                    self.lost_connection(other_channel);
+                    self.waiting_starts
+                        .insert(start.addr, (channel.token, start.id));
+                    return;
+                }
                 ChannelState::Requested(_, other_id) if other_id.as_u128() > start.id.as_u128() => {
                     self.drop_channel(channel);
                     return;
@@ -810,6 +816,10 @@ impl NetworkThread {
                     );
                     return;
                 }
+                ChannelState::CloseRequested(_, _) | ChannelState::CloseReceived(_, _) => {
+                    self.lost_connection(channel);
+                    return;
+                }
                 _ => {
                     self.drop_channel(&mut channel);
                 }
-- 
2.43.0


From 26bd5279e7678a03082f8cb12c98680ca48a239c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:20 +0000
Subject: [PATCH 45/57] fix: messages sent while a connection closes must not
 overtake rejected ones

---
 network/src/transport/network_channel.rs | 13 +++++++++++++
 network/src/transport/network_thread.rs  | 15 ++++++++++-----
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/network/src/transport/network_channel.rs b/network/src/transport/network_channel.rs
index cfa7bdf..191b29c 100644
--- a/network/src/transport/network_channel.rs
+++ b/network/src/transport/network_channel.rs
@@ -69,6 +69,8 @@ struct OutboundFrame {
 pub(crate) struct TcpChannel {
     stream: TcpStream,
     outbound_queue: VecDeque<OutboundFrame>,
+    /// Messages that came too late for this session.
+    late_queue: VecDeque<DispatchData>,
     pub token: Token,
     address: SocketAddr,
     input_buffer: DecodeBuffer,
@@ -94,6 +96,7 @@ impl TcpChannel {
         TcpChannel {
             stream,
             outbound_queue: VecDeque::new(),
+            late_queue: VecDeque::new(),
             token,
             address,
             input_buffer,
@@ -244,6 +247,16 @@ impl TcpChannel {
             .collect()
     }
 
+    /// Keeps a message for the next session until it is known what has not been written in this one.
+    pub fn enqueue_late(&mut self, data: DispatchData) {
+        self.late_queue.push_back(data);
+    }
+
+    /// Removes and returns the messages that came too late for this session.
+    pub fn take_late(&mut self) -> VecDeque<DispatchData> {
+        std::mem::take(&mut self.late_queue)
+    }
+
     /// True if everything enqueued so far has been written to the stream.
     pub fn is_drained(&self) -> bool {
         self.outbound_queue.is_empty()
diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index c7faeed..abfa8ab 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -475,10 +475,8 @@ impl NetworkThread {
                 Err(ref err) if broken_pipe(err) => {
                     self.abort_connection(channel);
                 }
-                Ok(_) => {
-                    if let ChannelState::CloseReceived(addr, id) = channel.state
-                        && channel.is_drained()
-                    {
+                Ok(_) if channel.closing() && channel.is_drained() => {
+                    if let ChannelState::CloseReceived(addr, id) = channel.state {
                         channel.state = ChannelState::Closed(addr, id);
                         debug!(self.log, "Connection to {} shutdown gracefully", &addr);
                         self.deregister_channel(channel.deref_mut());
@@ -489,9 +487,10 @@ impl NetworkThread {
                                 id,
                             ),
                         );
-                        self.reject_outbound_for_channel(&mut channel);
                     }
+                    self.reject_outbound_for_channel(&mut channel);
                 }
+                Ok(_) => {}
                 Err(e) => {
                     warn!(
                         self.log,
@@ -535,6 +534,9 @@ impl NetworkThread {
                         error!(self.log, "Error serialising message {}", e);
                     }
                 }
+            } else if channel.closing() && !channel.is_drained() {
+                // It must not overtake those that may still be rejected.
+                channel.enqueue_late(data);
             } else {
                 trace!(
                     self.log,
@@ -1022,6 +1024,9 @@ impl NetworkThread {
         for rejected_frame in channel.take_outbound() {
             self.reject_dispatch_data(channel.address(), DispatchData::Serialised(rejected_frame));
         }
+        for rejected_data in channel.take_late() {
+            self.reject_dispatch_data(channel.address(), rejected_data);
+        }
     }
 
     fn stop(&mut self) {
-- 
2.43.0


From 73061829b413d86c8c8059f3e24755802038bd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:17 +0000
Subject: [PATCH 46/57] fix: a failed connection attempt must not keep its
 place and buffer

Peers which could not be connected to counted against the hard connection limit forever.
---
 network/src/transport/mod.rs            | 4 ++++
 network/src/transport/network_thread.rs | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/network/src/transport/mod.rs b/network/src/transport/mod.rs
index b1f1b23..6fd4e14 100644
--- a/network/src/transport/mod.rs
+++ b/network/src/transport/mod.rs
@@ -537,6 +537,10 @@ pub(crate) fn connection_reset(err: &io::Error) -> bool {
     err.kind() == io::ErrorKind::ConnectionReset
 }
 
+pub(crate) fn not_connected(err: &io::Error) -> bool {
+    err.kind() == io::ErrorKind::NotConnected
+}
+
 pub(crate) fn invalid_data(err: &io::Error) -> bool {
     err.kind() == io::ErrorKind::InvalidData
 }
diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index abfa8ab..45064b4 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -441,6 +441,9 @@ impl NetworkThread {
                             channel.address(),
                             &e
                         );
+                        if !interrupted(&e) && !not_connected(&e) {
+                            self.abort_connection(channel);
+                        }
                         return;
                     }
                 }
-- 
2.43.0


From a7eb5f7c3c8ca68a493fd44dfa73ae33344e7e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:44 +0000
Subject: [PATCH 47/57] fix: a malformed datagram must not affect the following
 ones

The rest of a truncated or overlong datagram was decoded together with the next one.
---
 core/src/net/buffers/decode_buffer.rs | 7 +++++++
 network/src/transport/udp_state.rs    | 2 ++
 2 files changed, 9 insertions(+)

diff --git a/core/src/net/buffers/decode_buffer.rs b/core/src/net/buffers/decode_buffer.rs
index 4871ea7..7aa6126 100644
--- a/core/src/net/buffers/decode_buffer.rs
+++ b/core/src/net/buffers/decode_buffer.rs
@@ -152,6 +152,13 @@ impl DecodeBuffer {
         other.lock();
     }
 
+    /// Drops everything that has been written but not been decoded yet.
+    pub fn discard(&mut self) {
+        self.chain_head = None;
+        self.next_frame_head = None;
+        self.read_offset = self.write_offset;
+    }
+
     /// Extracts a ChunkLease from the readable portion of the buffer (including the chain)
     fn read_chunk_lease(&mut self, length: usize) -> ChunkLease {
         if length == 0 {
diff --git a/network/src/transport/udp_state.rs b/network/src/transport/udp_state.rs
index 8ea914a..4fb4c78 100644
--- a/network/src/transport/udp_state.rs
+++ b/network/src/transport/udp_state.rs
@@ -110,6 +110,8 @@ impl UdpState {
                     Ok((n, addr)) => {
                         self.input_buffer.advance_writeable(n);
                         self.decode_message(addr);
+                        // A frame never continues in the next datagram.
+                        self.input_buffer.discard();
                     }
                     Err(err) if would_block(&err) => {
                         return Ok(());
-- 
2.43.0


From 6ba457c76940ae26a5560f6f6265f4f6f7b5bb35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:10 +0000
Subject: [PATCH 48/57] fix: a UDP message that cannot be sent must not block
 all later ones

---
 network/src/transport/udp_state.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/network/src/transport/udp_state.rs b/network/src/transport/udp_state.rs
index 4fb4c78..d6be96d 100644
--- a/network/src/transport/udp_state.rs
+++ b/network/src/transport/udp_state.rs
@@ -69,10 +69,15 @@ impl UdpState {
                         return Err(err);
                     }
                 }
-                // Other errors we'll consider fatal.
+                // Other errors we'll consider fatal for this message, but not for the others.
                 Err(err) => {
-                    self.outbound_queue.push_front((addr, frame));
-                    return Err(err);
+                    warn!(
+                        self.logger,
+                        "Could not send a UDP message of {} bytes to {}, dropping it: {}",
+                        frame.len(),
+                        addr,
+                        err
+                    );
                 }
             }
         }
-- 
2.43.0


From f1a536500c3ebf00c84e66e3aca733cbd0d53b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:16 +0000
Subject: [PATCH 49/57] fix: an empty datagram must not hold up those behind it

---
 network/src/transport/udp_state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/network/src/transport/udp_state.rs b/network/src/transport/udp_state.rs
index d6be96d..8f7d977 100644
--- a/network/src/transport/udp_state.rs
+++ b/network/src/transport/udp_state.rs
@@ -110,7 +110,7 @@ impl UdpState {
                 match self.socket.recv_from(buf) {
                     Ok((0, addr)) => {
                         debug!(self.logger, "Got empty UDP datagram from {}", addr);
-                        return Ok(());
+                        // There may be more behind it.
                     }
                     Ok((n, addr)) => {
                         self.input_buffer.advance_writeable(n);
-- 
2.43.0


From b94fb573e6655af7c3ac7c4437e30b4a9e96e8ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:38 +0000
Subject: [PATCH 50/57] fix: blocking or allowing a system must update both of
 its rule sets

---
 network/src/transport/network_thread.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index 45064b4..ed54498 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -1354,14 +1354,16 @@ impl BlockList {
 
     /// Returns true if the rule-set has been modified
     fn block_socket_addr(&mut self, socket_addr: SocketAddr) -> bool {
+        // no short-circuiting: both sets must be updated
         self.allowed_socket_addr.remove(&socket_addr)
-            || self.blocked_socket_addr.insert(socket_addr)
+            | self.blocked_socket_addr.insert(socket_addr)
     }
 
     /// Returns true if the rule-set has been modified
     fn allow_socket_addr(&mut self, socket_addr: &SocketAddr) -> bool {
+        // no short-circuiting: both sets must be updated
         self.blocked_socket_addr.remove(socket_addr)
-            || self.allowed_socket_addr.insert(*socket_addr)
+            | self.allowed_socket_addr.insert(*socket_addr)
     }
 
     /// Returns true if the IpAddr is fully blocked, i.e. it's Blocked and there's no Allowed SocketAddr with the given IP
-- 
2.43.0


From 8ce45a1f1167ee246ec74180f39d13bb5257e2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:38 +0000
Subject: [PATCH 51/57] fix: allowing a connected system must not forget its
 connection

---
 network/src/dispatcher.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/network/src/dispatcher.rs b/network/src/dispatcher.rs
index 98c1e62..42dd273 100644
--- a/network/src/dispatcher.rs
+++ b/network/src/dispatcher.rs
@@ -542,7 +542,14 @@ impl NetworkDispatcher {
                         .trigger(NetworkStatus::BlockedIpNet(ip_net));
                 }
                 NetworkStatus::AllowedSystem(system_path) => {
-                    self.connections.remove(&system_path.socket_address());
+                    let addr = system_path.socket_address();
+                    // Only unblock here, an existing connection must be kept.
+                    if matches!(
+                        self.connections.get(&addr),
+                        Some(ConnectionState::Blocked)
+                    ) {
+                        self.connections.remove(&addr);
+                    }
                     self.network_status_port
                         .trigger(NetworkStatus::AllowedSystem(system_path));
                 }
-- 
2.43.0


From b85b2b6eb2d2e7089ad36fe80e3bd31774c3ead2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:01 +0000
Subject: [PATCH 52/57] fix: messages that cannot be moved to the heap must be
 serialised for local delivery

---
 core/src/messaging/net_message.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/core/src/messaging/net_message.rs b/core/src/messaging/net_message.rs
index cffdf6d..86f4470 100644
--- a/core/src/messaging/net_message.rs
+++ b/core/src/messaging/net_message.rs
@@ -485,16 +485,20 @@ impl NetData {
     where
         D: Deserialiser<T>,
     {
-        let NetData { ser_id, data } = self;
+        let NetData { data, .. } = self;
         match data {
             HeapOrSer::Boxed(boxed_ser) => {
-                let b = boxed_ser.local().map_err(|_| {
-                    UnpackError::DeserError(SerError::unknown(format!(
-                        "Serialisable with id={} can't be converted to local!",
-                        ser_id
-                    )))
-                })?;
-                b.downcast::<T>().map(|b| *b).map_err(UnpackError::NoCast)
+                match boxed_ser.local() {
+                    Ok(b) => b.downcast::<T>().map(|b| *b).map_err(UnpackError::NoCast),
+                    Err(original) => {
+                        // can't be moved to the heap, so it must be serialised instead
+                        let mut buf: Vec<u8> = Vec::new();
+                        original
+                            .serialise(&mut buf)
+                            .and_then(|_| D::deserialise(&mut buf.as_slice()))
+                            .map_err(UnpackError::DeserError)
+                    }
+                }
             }
             HeapOrSer::Serialised(mut bytes) => {
                 D::deserialise(&mut bytes).map_err(UnpackError::DeserError)
-- 
2.43.0


From 2e841fc898e0ad3829a740236e47992e91c9a774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:57 +0000
Subject: [PATCH 53/57] fix: text outside of ASCII is never a byte size

---
 core/src/config/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/config/mod.rs b/core/src/config/mod.rs
index 8ff7790..4a27892 100644
--- a/core/src/config/mod.rs
+++ b/core/src/config/mod.rs
@@ -279,7 +279,8 @@ impl ConfigValue {
     pub fn as_bytes(&self) -> Option<u64> {
         match &self.inner {
             ConfigValueInner::Integer(v) if *v >= 0 => Some(*v as u64),
-            ConfigValueInner::String(v) => byte_unit::Byte::parse_str(v, true)
+            // `parse_str` mishandles characters outside of ASCII, which no byte size contains.
+            ConfigValueInner::String(v) if v.is_ascii() => byte_unit::Byte::parse_str(v, true)
                 .ok()
                 .map(|bytes| bytes.as_u64()),
             _ => None,
-- 
2.43.0


From bf8249745fd610efde6fd79364fcea6d6b157b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:23 +0000
Subject: [PATCH 54/57] fix: futures must not access their component through an
 outdated pointer

---
 core/src/component/actual_component.rs |  7 +--
 core/src/component/context.rs          | 30 ++++++++-----
 core/src/component/future_task.rs      | 61 +++++++++++++++++++-------
 3 files changed, 68 insertions(+), 30 deletions(-)

diff --git a/core/src/component/actual_component.rs b/core/src/component/actual_component.rs
index 9574db8..16451d9 100644
--- a/core/src/component/actual_component.rs
+++ b/core/src/component/actual_component.rs
@@ -23,7 +23,7 @@ macro_rules! check_and_handle_blocking {
 macro_rules! run_blocking {
     ($self:ident, $guard:ident,$count:ident) => {
         trace!($self.logger, "Component has been blocked");
-        let run_res = $guard.definition.ctx_mut().run_blocking_task();
+        let run_res = ComponentContext::run_blocking_task(&mut $guard.definition);
         // Keep the old accounting order: poll the blocking future first, then decrement
         // work so messages enqueued during the poll are reflected in the scheduling decision.
         let scheduling_decision = $self.core.decrement_work($count);
@@ -405,7 +405,7 @@ impl<CD: ComponentTraits> Component<CD> {
         match self.mutable_core.lock() {
             Ok(mut guard) => {
                 if guard.definition.ctx().is_blocking() {
-                    match guard.definition.ctx_mut().run_blocking_task() {
+                    match ComponentContext::run_blocking_task(&mut guard.definition) {
                         BlockingTaskResult::Pending => return SchedulingDecision::Blocked,
                         BlockingTaskResult::Completed(result) => match result {
                             Ok(Handled::Ok) => {
@@ -461,7 +461,8 @@ impl<CD: ComponentTraits> Component<CD> {
                             res
                         }
                         lifecycle::ControlEvent::Poll(tag) => {
-                            let res = guard.definition.ctx_mut().run_nonblocking_task(tag);
+                            let res =
+                                ComponentContext::run_nonblocking_task(&mut guard.definition, tag);
                             count += 1;
                             res
                         }
diff --git a/core/src/component/context.rs b/core/src/component/context.rs
index 751ea0f..f8ea1eb 100644
--- a/core/src/component/context.rs
+++ b/core/src/component/context.rs
@@ -219,22 +219,27 @@ where
         self.blocking_future.is_some()
     }
 
-    pub(super) fn run_blocking_task(&mut self) -> BlockingTaskResult {
-        let mut blocking_state = self
+    pub(super) fn run_blocking_task(definition: &mut CD) -> BlockingTaskResult {
+        let mut blocking_state = definition
+            .ctx_mut()
             .blocking_future
             .take()
             .expect("Called run_blocking while not blocking!");
-        let component = self.typed_component();
-        let mut run_result = blocking_state.future.run(&component);
+        let component = definition.ctx().typed_component();
+        let mut run_result = blocking_state.future.run(&component, definition);
         // A replacement future must be polled at least once, or nothing will ever wake it up.
         while let BlockingRunResult::Unblock(Ok(Handled::BlockOn(f))) = run_result {
-            run_result = f.run(&component);
+            run_result = f.run(&component, definition);
         }
         match run_result {
             BlockingRunResult::BlockOn(f) => {
                 blocking_state.future = f;
                 assert!(
-                    self.blocking_future.replace(blocking_state).is_none(),
+                    definition
+                        .ctx_mut()
+                        .blocking_future
+                        .replace(blocking_state)
+                        .is_none(),
                     "Replacing a blocking future without completing it first is invalid!"
                 );
                 BlockingTaskResult::Pending
@@ -247,7 +252,7 @@ where
             }
             BlockingRunResult::Unblock(result) => {
                 assert!(
-                    self.blocking_future.is_none(),
+                    !definition.ctx().is_blocking(),
                     "Don't block within a blocking future! Just call await on the future instead."
                 );
                 if matches!(&result, Ok(Handled::Ok) | Err(HandlerError::Benign(_))) {
@@ -267,19 +272,20 @@ where
         }
     }
 
-    pub(super) fn run_nonblocking_task(&mut self, tag: Uuid) -> HandlerResult {
+    pub(super) fn run_nonblocking_task(definition: &mut CD, tag: Uuid) -> HandlerResult {
         // the future itself may add to `non_blocking_futures`, so it must not stay in there meanwhile
-        if let Some(mut future) = self.non_blocking_futures.remove(&tag) {
-            match future.run() {
+        if let Some(mut future) = definition.ctx_mut().non_blocking_futures.remove(&tag) {
+            match future.run(definition) {
                 Poll::Pending => {
-                    self.non_blocking_futures.insert(tag, future);
+                    let ctx = definition.ctx_mut();
+                    ctx.non_blocking_futures.insert(tag, future);
                     Handled::OK
                 }
                 Poll::Ready(handled) => handled,
             }
         } else {
             warn!(
-                self.log(),
+                definition.ctx().log(),
                 "Future with tag {} was scheduled but not available. May have been scheduled after completion.",
                 tag
             );
diff --git a/core/src/component/future_task.rs b/core/src/component/future_task.rs
index 274f0c2..f4d6ca3 100644
--- a/core/src/component/future_task.rs
+++ b/core/src/component/future_task.rs
@@ -7,7 +7,9 @@ use futures::{
 use std::{
     fmt,
     future::Future as RustFuture,
+    marker::PhantomData,
     ops::{Deref, DerefMut},
+    sync::atomic::{AtomicPtr, Ordering},
     task::{Context, Poll, Waker},
 };
 
@@ -25,10 +27,17 @@ pub(super) enum BlockingRunResult {
     Unblock(HandlerResult),
 }
 
+/// Where the component definition is found during the current poll of a future.
+///
+/// A pointer is only valid for as long as the exclusive borrow it was created from,
+/// so it must be renewed before every poll.
+type DefinitionPointer = Arc<AtomicPtr<()>>;
+
 /// A future that is supposed to be blocking the
 /// component's execution until completed
 pub struct BlockingFuture {
     future: BoxFuture<'static, HandlerResult>,
+    definition: DefinitionPointer,
 }
 impl fmt::Debug for BlockingFuture {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
@@ -39,10 +48,16 @@ impl fmt::Debug for BlockingFuture {
 }
 
 impl BlockingFuture {
-    pub(super) fn run<CD>(mut self, component: &Arc<Component<CD>>) -> BlockingRunResult
+    pub(super) fn run<CD>(
+        mut self,
+        component: &Arc<Component<CD>>,
+        definition: &mut CD,
+    ) -> BlockingRunResult
     where
         CD: ComponentTraits + ComponentLifecycle,
     {
+        self.definition
+            .store((definition as *mut CD).cast(), Ordering::Relaxed);
         let waker = waker_ref(component);
         let ctx = &mut Context::from_waker(&waker);
         let fut = self.future.as_mut();
@@ -62,15 +77,21 @@ where
     F: RustFuture<Output = HandlerResult> + Send + 'static,
     CD: ComponentDefinition + 'static,
 {
-    let future = f(ComponentDefinitionAccess::from_ref(component));
+    let access = ComponentDefinitionAccess::from_ref(component);
+    let definition = access.definition.clone();
+    let future = f(access);
     let boxed = Box::pin(future);
-    BlockingFuture { future: boxed }
+    BlockingFuture {
+        future: boxed,
+        definition,
+    }
 }
 
 /// A future that is supposed to be polled
 /// while the component is running normally
 pub struct NonBlockingFuture {
     future: BoxFuture<'static, HandlerResult>,
+    definition: DefinitionPointer,
     waker: Waker,
     tag: Uuid,
 }
@@ -83,7 +104,9 @@ impl fmt::Debug for NonBlockingFuture {
 }
 
 impl NonBlockingFuture {
-    pub(super) fn run(&mut self) -> Poll<HandlerResult> {
+    pub(super) fn run<CD>(&mut self, definition: &mut CD) -> Poll<HandlerResult> {
+        self.definition
+            .store((definition as *mut CD).cast(), Ordering::Relaxed);
         let ctx = &mut Context::from_waker(&self.waker);
         let fut = self.future.as_mut();
         RustFuture::poll(fut, ctx)
@@ -107,12 +130,15 @@ where
     CD: ComponentDefinition + 'static,
 {
     let id = Uuid::new_v4();
-    let future = f(ComponentDefinitionAccess::from_ref(component));
+    let access = ComponentDefinitionAccess::from_ref(component);
+    let definition = access.definition.clone();
+    let future = f(access);
     let core = component.ctx().component();
     let waker = task_waker::create(id, &core);
     let boxed = Box::pin(future);
     NonBlockingFuture {
         future: boxed,
+        definition,
         waker,
         tag: id,
     }
@@ -140,7 +166,8 @@ pub struct ComponentDefinitionAccess<CD>
 where
     CD: ComponentDefinition + 'static,
 {
-    raw: *mut CD,
+    definition: DefinitionPointer,
+    _marker: PhantomData<*mut CD>,
 }
 impl<CD> ComponentDefinitionAccess<CD>
 where
@@ -148,9 +175,14 @@ where
 {
     fn from_ref(definition: &mut CD) -> Self {
         ComponentDefinitionAccess {
-            raw: definition as *mut CD,
+            definition: Arc::new(AtomicPtr::new((definition as *mut CD).cast())),
+            _marker: PhantomData,
         }
     }
+
+    fn raw(&self) -> *mut CD {
+        self.definition.load(Ordering::Relaxed).cast()
+    }
 }
 impl<CD> Deref for ComponentDefinitionAccess<CD>
 where
@@ -159,11 +191,10 @@ where
     type Target = CD;
 
     fn deref(&self) -> &Self::Target {
-        // SAFETY: every `ComponentDefinitionAccess` is created from an exclusive borrow of the
-        // component definition just before the future is polled. The guard never outlives the
-        // future poll that created it, and the API documentation forbids storing interior
-        // references across `await` points.
-        unsafe { &*self.raw }
+        // SAFETY: the pointer is renewed from an exclusive borrow of the component definition
+        // whenever the future is created or polled. The guard is only used during that time, and
+        // the API documentation forbids storing interior references across `await` points.
+        unsafe { &*self.raw() }
     }
 }
 impl<CD> DerefMut for ComponentDefinitionAccess<CD>
@@ -171,9 +202,9 @@ where
     CD: ComponentDefinition + 'static,
 {
     fn deref_mut(&mut self) -> &mut Self::Target {
-        // SAFETY: see `Deref::deref`; the poll machinery only constructs this guard while holding
-        // the component definition mutably, so the raw pointer can be reborrowed as `&mut CD`.
-        unsafe { &mut *self.raw }
+        // SAFETY: see `Deref::deref`; the poll machinery holds the component definition mutably,
+        // so the raw pointer can be reborrowed as `&mut CD`.
+        unsafe { &mut *self.raw() }
     }
 }
 
-- 
2.43.0


From c9803668953bd10300deb5b9518d1fa3671caebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:09:18 +0000
Subject: [PATCH 55/57] fix: one shortage of buffers must not delay the network
 for good

Once a buffer was missing, every later message had to wait for up to the retry interval before it was written, since the flag was never reset.
---
 network/src/transport/network_thread.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index ed54498..1eb40a7 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -203,6 +203,8 @@ impl NetworkThread {
             self.poll
                 .poll(&mut events, self.get_poll_timeout())
                 .expect("Error when calling Poll");
+            // Whatever still has to wait for a buffer sets it again.
+            self.out_of_buffers = false;
 
             for event in events
                 .iter()
@@ -227,12 +229,13 @@ impl NetworkThread {
     }
 
     fn get_poll_timeout(&self) -> Option<Duration> {
-        if self.out_of_buffers {
+        if self.retry_queue.is_empty() {
+            None
+        } else if self.out_of_buffers && self.retry_queue.iter().all(|event| event.retries > 0) {
+            // Only those that have to wait for buffers to be returned are left.
             Some(Duration::from_millis(
                 self.network_config.get_connection_retry_interval(),
             ))
-        } else if self.retry_queue.is_empty() {
-            None
         } else {
             Some(Duration::from_secs(0))
         }
-- 
2.43.0


From 963d07ded7ddead472e37d27c78f6c37b9f30e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:15 +0000
Subject: [PATCH 56/57] fix: a broken session was replaced without ever being
 announced as lost

---
 network/src/transport/network_channel.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/network/src/transport/network_channel.rs b/network/src/transport/network_channel.rs
index 191b29c..538e10a 100644
--- a/network/src/transport/network_channel.rs
+++ b/network/src/transport/network_channel.rs
@@ -151,8 +151,12 @@ impl TcpChannel {
     }
 
     /// Checks the socket for errors and returns the current state
+    ///
+    /// An established session remains in its state, even if the connection is broken,
+    /// since its end must still be announced and what it has not written must be kept.
     pub fn read_state(&mut self) -> &ChannelState {
         match self.stream.take_error() {
+            _ if self.connected() || self.closing() => (),
             Ok(Some(error)) => {
                 self.state = ChannelState::Error(error);
             }
-- 
2.43.0


From 299e770e0b9a03d4d2e28f5d608b658fddc240c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:02 +0000
Subject: [PATCH 57/57] hook: points at which checks inject delays (cfg
 kompact_verif)

---
 core/src/component/actual_component.rs  |  2 ++
 core/src/component/lifecycle.rs         | 10 ++++++++++
 core/src/dedicated_scheduler.rs         |  2 ++
 core/src/delay_points.rs                | 22 ++++++++++++++++++++++
 core/src/lib.rs                         |  4 ++++
 core/src/net/buffers/mod.rs             |  2 ++
 network/src/lib.rs                      |  2 ++
 network/src/transport/mod.rs            |  2 ++
 network/src/transport/network_thread.rs |  2 ++
 9 files changed, 48 insertions(+)
 create mode 100644 core/src/delay_points.rs

diff --git a/core/src/component/actual_component.rs b/core/src/component/actual_component.rs
index 16451d9..720bc41 100644
--- a/core/src/component/actual_component.rs
+++ b/core/src/component/actual_component.rs
@@ -402,6 +402,8 @@ impl<CD: ComponentTraits> Component<CD> {
         let max_events = self.core.system.throughput();
         let message_share = self.core.system.max_messages();
 
+        #[cfg(kompact_verif)]
+        crate::delay_points::reach("execute");
         match self.mutable_core.lock() {
             Ok(mut guard) => {
                 if guard.definition.ctx().is_blocking() {
diff --git a/core/src/component/lifecycle.rs b/core/src/component/lifecycle.rs
index 8b86a52..94e7592 100644
--- a/core/src/component/lifecycle.rs
+++ b/core/src/component/lifecycle.rs
@@ -76,14 +76,22 @@ impl LifecycleState {
     }
 
     pub(crate) fn increment_work(state: &AtomicU64) -> SchedulingDecision {
+        #[cfg(kompact_verif)]
+        crate::delay_points::reach("increment");
         let old_state = state.fetch_add(1, Ordering::SeqCst);
+        #[cfg(kompact_verif)]
+        crate::delay_points::reach("incremented");
         validate_add(old_state);
         Self::from_current(old_state).into_scheduling_decision()
     }
 
     pub(crate) fn decrement_work(state: &AtomicU64, work_done: usize) -> SchedulingDecision {
         let work_done = work_done as u64;
+        #[cfg(kompact_verif)]
+        crate::delay_points::reach("decrement");
         let old_state = state.fetch_sub(work_done, Ordering::SeqCst);
+        #[cfg(kompact_verif)]
+        crate::delay_points::reach("decremented");
         let old_count = remove_flags(old_state);
         match old_count.checked_sub(work_done) {
             Some(new_count) => {
@@ -133,6 +141,8 @@ fn set_state(state: &AtomicU64, new_state: u64) {
         let current_state = state.load(Ordering::SeqCst);
         let current_count = remove_flags(current_state);
         let new_state = new_state | current_count;
+        #[cfg(kompact_verif)]
+        crate::delay_points::reach("set-state");
         if state.compare_exchange(current_state, new_state, Ordering::SeqCst, Ordering::SeqCst)
             == Ok(current_state)
         {
diff --git a/core/src/dedicated_scheduler.rs b/core/src/dedicated_scheduler.rs
index 06568de..09a996f 100644
--- a/core/src/dedicated_scheduler.rs
+++ b/core/src/dedicated_scheduler.rs
@@ -115,6 +115,8 @@ impl DedicatedThreadScheduler {
 
             if park {
                 if backoff.is_completed() {
+                    #[cfg(kompact_verif)]
+                    crate::delay_points::reach("park");
                     thread::park();
                 } else {
                     backoff.snooze();
diff --git a/core/src/delay_points.rs b/core/src/delay_points.rs
new file mode 100644
index 0000000..dfbddef
--- /dev/null
+++ b/core/src/delay_points.rs
@@ -0,0 +1,22 @@
+//! Points at which external checks inject delays.
+//!
+//! Without `--cfg kompact_verif` this module and all its uses compile to nothing.
+
+use std::sync::OnceLock;
+
+static HOOK: OnceLock<fn(&'static str)> = OnceLock::new();
+
+/// Installs `hook` to be called at every delay point
+///
+/// Returns `false`, if a hook has been installed before.
+pub fn install(hook: fn(&'static str)) -> bool {
+    HOOK.set(hook).is_ok()
+}
+
+/// Calls the installed hook, if there is any
+#[inline]
+pub fn reach(point: &'static str) {
+    if let Some(hook) = HOOK.get() {
+        hook(point);
+    }
+}
diff --git a/core/src/lib.rs b/core/src/lib.rs
index 099dbec..f5cc294 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -68,6 +68,7 @@
 //!     - Plain default `kompact` is local-only. Enable this feature explicitly when you want path-based dispatching without the provided network backend from `kompact-net`.
 #![allow(internal_features)]
 #![deny(missing_docs)]
+#![allow(unexpected_cfgs)] // kompact_verif
 #![allow(clippy::unused_unit)]
 #![allow(clippy::match_ref_pats)]
 #![allow(clippy::new_without_default)]
@@ -108,6 +109,9 @@ pub mod component;
 #[macro_use]
 pub mod config;
 mod dedicated_scheduler;
+#[cfg(kompact_verif)]
+#[doc(hidden)]
+pub mod delay_points;
 /// Default implementations for system components
 pub mod default_components;
 mod dispatch;
diff --git a/core/src/net/buffers/mod.rs b/core/src/net/buffers/mod.rs
index 148ee0d..19e973b 100644
--- a/core/src/net/buffers/mod.rs
+++ b/core/src/net/buffers/mod.rs
@@ -351,6 +351,8 @@ impl BufferChunk {
             // Unlike `strong_count`, this also makes sure that all reads of the dropped leases
             // happened before anything that is written from here on.
             if Arc::get_mut(&mut self.ref_count).is_some() {
+                #[cfg(kompact_verif)]
+                crate::delay_points::reach("buffer-free");
                 self.locked = false;
                 true
             } else {
diff --git a/network/src/lib.rs b/network/src/lib.rs
index 461bf23..963c949 100644
--- a/network/src/lib.rs
+++ b/network/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)] // kompact_verif
+
 pub use kompact::{
     KompactLogger,
     component,
diff --git a/network/src/transport/mod.rs b/network/src/transport/mod.rs
index 6fd4e14..9b3502a 100644
--- a/network/src/transport/mod.rs
+++ b/network/src/transport/mod.rs
@@ -214,6 +214,8 @@ impl Bridge {
         self.network_input_queue
             .send(event)
             .context(network_bridge_error::SendSnafu)?;
+        #[cfg(kompact_verif)]
+        kompact::delay_points::reach("network-wake");
         self.waker.wake().context(network_bridge_error::IoSnafu)?;
         Ok(())
     }
diff --git a/network/src/transport/network_thread.rs b/network/src/transport/network_thread.rs
index 1eb40a7..d626056 100644
--- a/network/src/transport/network_thread.rs
+++ b/network/src/transport/network_thread.rs
@@ -203,6 +203,8 @@ impl NetworkThread {
             self.poll
                 .poll(&mut events, self.get_poll_timeout())
                 .expect("Error when calling Poll");
+            #[cfg(kompact_verif)]
+            kompact::delay_points::reach("network-poll");
             // Whatever still has to wait for a buffer sets it again.
             self.out_of_buffers = false;
 
-- 
2.43.0

