From e18be608ee075e087e9eb542449536f29b304a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:14 +0000
Subject: [PATCH 01/16] fix: charge external memory guards to their own isolate
 only

A guard adjusted or dropped while another isolate's JsLock was current was
applied to that other isolate, and a guard created without any lock reported
only later deltas but subtracted its whole amount on drop.
---
 src/gc/external_memory.rs | 71 ++++++++++++++++++++-------------------
 1 file changed, 36 insertions(+), 35 deletions(-)

diff --git a/src/gc/external_memory.rs b/src/gc/external_memory.rs
index 606a789..2be00de 100644
--- a/src/gc/external_memory.rs
+++ b/src/gc/external_memory.rs
@@ -49,35 +49,23 @@ impl ExternalMemoryGuard {
     /// If a JsLock is currently held, the adjustment is applied immediately
     /// and the per-isolate accumulator is captured for future deferred drops.
     ///
-    /// If no JsLock is held, the adjustment is deferred to the captured
-    /// isolate's accumulator (if available from a previous lock).
+    /// If no JsLock is held, nothing is reported until the guard is adjusted
+    /// under a lock, which then reports the whole amount to that isolate.
     pub fn new(amount: i64) -> Self {
-        let pending_delta = if let Some(lock) = JsLock::try_current() {
-            if amount != 0 {
-                lock.adjust_external_memory(amount);
-            }
-
-            Some(lock.pending_delta())
-        } else {
-            None
+        let guard = Self {
+            amount,
+            pending_delta: JsLock::try_current().map(|lock| lock.pending_delta()),
         };
 
-        Self {
-            amount,
-            pending_delta,
-        }
+        guard.report(amount);
+        guard
     }
 
     /// Create a guard with zero initial amount.
     ///
     /// Use `adjust()` to update the tracked amount later.
     pub fn empty() -> Self {
-        let pending_delta = JsLock::try_current().map(|lock| lock.pending_delta());
-
-        Self {
-            amount: 0,
-            pending_delta,
-        }
+        Self::new(0)
     }
 
     /// Adjust the tracked amount by `delta` bytes.
@@ -88,14 +76,32 @@ impl ExternalMemoryGuard {
         if delta != 0 {
             self.amount += delta;
 
-            if let Some(lock) = JsLock::try_current() {
-                lock.adjust_external_memory(delta);
+            if self.pending_delta.is_some() {
+                self.report(delta);
+            } else if let Some(lock) = JsLock::try_current() {
+                // First lock seen: capture its isolate. Nothing was reported so
+                // far, so the whole amount is due, not only the delta.
+                self.pending_delta = Some(lock.pending_delta());
+                self.report(self.amount);
+            }
+        }
+    }
+
+    /// Report `delta` to the isolate this guard belongs to (if any yet).
+    ///
+    /// Applied immediately only when that isolate's lock is the current one;
+    /// otherwise (no lock, or another isolate's lock) it is deferred to its
+    /// accumulator, so that no other isolate is ever charged or credited.
+    fn report(&self, delta: i64) {
+        let Some(ref pending) = self.pending_delta else {
+            return;
+        };
 
-                // Capture the pending delta if we didn't have one yet
-                if self.pending_delta.is_none() {
-                    self.pending_delta = Some(lock.pending_delta());
-                }
-            } else if let Some(ref pending) = self.pending_delta {
+        match JsLock::try_current() {
+            Some(lock) if Arc::ptr_eq(&lock.pending_delta(), pending) => {
+                lock.adjust_external_memory(delta);
+            }
+            _ => {
                 pending.fetch_add(delta, Ordering::SeqCst);
             }
         }
@@ -116,15 +122,10 @@ impl ExternalMemoryGuard {
 
 impl Drop for ExternalMemoryGuard {
     fn drop(&mut self) {
+        // Subtract our tracked memory from the isolate it was reported to.
+        // A guard that never saw a JsLock reported nothing.
         if self.amount != 0 {
-            // Subtract our tracked memory
-            if let Some(lock) = JsLock::try_current() {
-                lock.adjust_external_memory(-self.amount);
-            } else if let Some(ref pending) = self.pending_delta {
-                pending.fetch_add(-self.amount, Ordering::SeqCst);
-            }
-            // else: no lock and no captured isolate — memory tracking lost.
-            // This only happens for guards created without a JsLock (tests).
+            self.report(-self.amount);
         }
     }
 }
-- 
2.43.0


From 0d7d9baa0c7e831f7961928d2691b7e7965f7904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:54 +0000
Subject: [PATCH 02/16] fix: wake the next AsyncWaiter request without holding
 the queue mutex

A waker that runs its task inline re-enters try_lock and deadlocked on the
queue guard, which lived until the end of the if-let body.
---
 src/async_waiter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/async_waiter.rs b/src/async_waiter.rs
index 1ccc28a..5739cbb 100644
--- a/src/async_waiter.rs
+++ b/src/async_waiter.rs
@@ -61,7 +61,11 @@ impl AsyncWaiter {
     pub fn unlock(&self) {
         self.locked.store(false, Ordering::Release);
 
-        if let Some(waker) = self.queue.lock().unwrap().pop_front() {
+        // The queue guard must be gone before the wake: a waker may run its task
+        // inline, and that task calls back into `try_lock`.
+        let next = self.queue.lock().unwrap().pop_front();
+
+        if let Some(waker) = next {
             waker.wake();
         }
     }
-- 
2.43.0


From c7e5d17b67a2114d12084e0be5b86384e405d88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:44 +0000
Subject: [PATCH 03/16] fix: never let an old stream id reach a later stream

clear() reset the id counter, so a task of an earlier request (e.g. a body pump)
wrote into or closed a later request's stream on a reused context; a read in
flight across close/clear put its receiver back and revived the stream.
---
 src/runtime/stream_manager.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/runtime/stream_manager.rs b/src/runtime/stream_manager.rs
index b8958ca..9dc6557 100644
--- a/src/runtime/stream_manager.rs
+++ b/src/runtime/stream_manager.rs
@@ -137,7 +137,13 @@ impl StreamManager {
                         // Don't put back - stream is finished
                     }
                     StreamChunk::Data(_) => {
-                        self.receivers.lock().unwrap().insert(stream_id, rx);
+                        let mut receivers = self.receivers.lock().unwrap();
+
+                        // The stream may have been closed or cleared meanwhile:
+                        // putting the receiver back would revive it.
+                        if self.metadata.lock().unwrap().contains_key(&stream_id) {
+                            receivers.insert(stream_id, rx);
+                        }
                     }
                 }
             }
@@ -159,9 +165,10 @@ impl StreamManager {
 
     /// Close and remove a stream
     pub fn close_stream(&self, stream_id: StreamId) {
+        // Metadata first: a read in flight then does not put its receiver back
+        self.metadata.lock().unwrap().remove(&stream_id);
         self.senders.lock().unwrap().remove(&stream_id);
         self.receivers.lock().unwrap().remove(&stream_id);
-        self.metadata.lock().unwrap().remove(&stream_id);
     }
 
     /// Get information about a stream (for debugging)
@@ -170,12 +177,14 @@ impl StreamManager {
     }
 
     /// Clear all streams (used for context reuse between requests)
+    ///
+    /// Stream IDs are never reused: tasks of an earlier request may outlive this
+    /// call, and must not reach a later request's stream through their old ID.
     pub fn clear(&self) {
+        // Metadata first: a read in flight then does not put its receiver back
+        self.metadata.lock().unwrap().clear();
         self.senders.lock().unwrap().clear();
         self.receivers.lock().unwrap().clear();
-        self.metadata.lock().unwrap().clear();
-        // Reset next_id so stream IDs don't grow unbounded across reuses
-        *self.next_id.lock().unwrap() = 1;
     }
 
     /// Count active streams
-- 
2.43.0


From dd7a8f88b0cc2e7d66a1cd69f45f060d7d5391c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:37 +0000
Subject: [PATCH 04/16] fix: getRandomValues of an empty array must not panic

BackingStore::data() is None for a zero-length buffer; unwrapping it in a
native callback aborts the process.
---
 src/runtime/crypto/random.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/runtime/crypto/random.rs b/src/runtime/crypto/random.rs
index 882821d..b754f25 100644
--- a/src/runtime/crypto/random.rs
+++ b/src/runtime/crypto/random.rs
@@ -26,12 +26,15 @@ pub(super) fn setup_get_random_values(scope: &mut v8::PinScope, crypto_obj: v8::
                         let backing_store = buffer.get_backing_store();
                         let offset = uint8_array.byte_offset();
 
-                        unsafe {
-                            std::ptr::copy_nonoverlapping(
-                                bytes.as_ptr(),
-                                (backing_store.data().unwrap().as_ptr() as *mut u8).add(offset),
-                                len,
-                            );
+                        // A zero-length buffer has no data pointer (and nothing to fill)
+                        if let Some(data) = backing_store.data() {
+                            unsafe {
+                                std::ptr::copy_nonoverlapping(
+                                    bytes.as_ptr(),
+                                    (data.as_ptr() as *mut u8).add(offset),
+                                    len,
+                                );
+                            }
                         }
                     }
                 }
-- 
2.43.0


From dd9f51c30afd476c90d2030b89d7beef54faa361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:37 +0000
Subject: [PATCH 05/16] fix: getRandomValues throws when the system generator
 fails

It returned the array unchanged, so the caller took zeroes for random bytes.
---
 src/runtime/crypto/random.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/runtime/crypto/random.rs b/src/runtime/crypto/random.rs
index b754f25..02a6c16 100644
--- a/src/runtime/crypto/random.rs
+++ b/src/runtime/crypto/random.rs
@@ -1,6 +1,12 @@
 use ring::rand;
 use v8;
 
+fn throw_type_error(scope: &mut v8::PinScope, message: &str) {
+    let message = v8::String::new(scope, message).unwrap();
+    let exception = v8::Exception::type_error(scope, message);
+    scope.throw_exception(exception);
+}
+
 pub(super) fn setup_get_random_values(scope: &mut v8::PinScope, crypto_obj: v8::Local<v8::Object>) {
     let get_random_values_fn = v8::Function::new(
         scope,
@@ -37,6 +43,10 @@ pub(super) fn setup_get_random_values(scope: &mut v8::PinScope, crypto_obj: v8::
                             }
                         }
                     }
+                } else {
+                    // Never hand back an array that was not filled
+                    throw_type_error(scope, "getRandomValues: no randomness available");
+                    return;
                 }
 
                 retval.set(array);
-- 
2.43.0


From 1d9a8ff82fefcdd779a6505fe6bdf77fe25a0fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:38 +0000
Subject: [PATCH 06/16] fix: getRandomValues fills every typed array or throws

Anything but a Uint8Array was silently left untouched, e.g. the usual
crypto.getRandomValues(new Uint32Array(n)) kept its zeroes.
---
 src/runtime/crypto/random.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/runtime/crypto/random.rs b/src/runtime/crypto/random.rs
index 02a6c16..e30e4d6 100644
--- a/src/runtime/crypto/random.rs
+++ b/src/runtime/crypto/random.rs
@@ -19,7 +19,8 @@ pub(super) fn setup_get_random_values(scope: &mut v8::PinScope, crypto_obj: v8::
 
             let array = args.get(0);
 
-            if let Ok(uint8_array) = v8::Local::<v8::Uint8Array>::try_from(array) {
+            // Every typed array is filled through its bytes
+            if let Ok(uint8_array) = v8::Local::<v8::TypedArray>::try_from(array) {
                 let len = uint8_array.byte_length();
                 let mut bytes = vec![0u8; len];
 
@@ -50,6 +51,8 @@ pub(super) fn setup_get_random_values(scope: &mut v8::PinScope, crypto_obj: v8::
                 }
 
                 retval.set(array);
+            } else {
+                throw_type_error(scope, "getRandomValues: argument must be a TypedArray");
             }
         },
     )
-- 
2.43.0


From 18e05f5aeeb1163a024cd5a8eb30c039c7ad6439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:38 +0000
Subject: [PATCH 07/16] fix: bound the PBKDF2 output length

deriveBits(..., 1e18) asked the allocator for the guest-chosen size, which
aborts the whole process.
---
 src/runtime/crypto/pbkdf2.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/runtime/crypto/pbkdf2.rs b/src/runtime/crypto/pbkdf2.rs
index 51252c3..39b6378 100644
--- a/src/runtime/crypto/pbkdf2.rs
+++ b/src/runtime/crypto/pbkdf2.rs
@@ -55,6 +55,12 @@ pub(super) fn setup_pbkdf2(scope: &mut v8::PinScope, subtle_obj: v8::Local<v8::O
                 return;
             };
 
+            // WebCrypto's length is an unsigned long; never let a larger one reach the allocator
+            if length_bits > u32::MAX as usize {
+                retval.set(v8::undefined(scope).into());
+                return;
+            }
+
             let length_bytes = length_bits / 8;
 
             let algorithm = match hash_algo.to_uppercase().as_str() {
-- 
2.43.0


From 6a9dcc40db7aeb5cfd589118af6ed90ef6b44e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:28 +0000
Subject: [PATCH 08/16] fix: keep callback ids monotonic across context resets

The event loop of a cached context survives reset(). With ids starting at 1
again, the late result of an earlier request's fetch, KV or database operation
settled the next request's promise of the same id.
---
 src/execution_context.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/execution_context.rs b/src/execution_context.rs
index 0140b38..f448ecd 100644
--- a/src/execution_context.rs
+++ b/src/execution_context.rs
@@ -1438,7 +1438,8 @@ impl ExecutionContext {
     ///
     /// Cancels any lingering `terminate_execution` flag before evaluating JS.
     /// Does NOT touch the event loop (it persists across requests).
-    /// Does NOT reset `__nextTimerId` (monotonically increasing to avoid ID collisions).
+    /// Does NOT reset `__nextTimerId` nor `next_callback_id` (monotonically increasing to
+    /// avoid ID collisions with results still in flight).
     pub fn reset(&mut self) -> Result<(), String> {
         // Acquire lock if pooled isolate (evaluate accesses V8 directly)
         let lmi_ptr = self.lmi_ptr;
@@ -1482,7 +1483,8 @@ impl ExecutionContext {
         self.request.fetch_error_callbacks.borrow_mut().clear();
         self.request.stream_callbacks.borrow_mut().clear();
         self.request.ws_event_callbacks.borrow_mut().clear();
-        *self.request.next_callback_id.borrow_mut() = 1;
+        // Callback ids stay monotonic: the event loop persists, so an operation of the
+        // previous request may still deliver its result under an id it was given then.
 
         Ok(())
     }
-- 
2.43.0


From 6c3012da13be4e350706a20fe65b212c43d725ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:30 +0000
Subject: [PATCH 09/16] fix: wake the waiting task when the wall-clock limit
 triggers

The event loops return Pending with only the callback channel's waker
registered. The watchdog set its flag and asked V8 to terminate, but an idle
handler (awaiting a promise that never settles) runs no JavaScript, so nobody
polled the loop again and the request hung past its limit forever.
---
 src/execution_context.rs      |  4 +++-
 src/security/timeout_guard.rs | 42 +++++++++++++++++++++++++++++------
 src/worker.rs                 |  4 +++-
 src/worker_future.rs          |  4 +++-
 4 files changed, 44 insertions(+), 10 deletions(-)

diff --git a/src/execution_context.rs b/src/execution_context.rs
index f448ecd..0ad980e 100644
--- a/src/execution_context.rs
+++ b/src/execution_context.rs
@@ -1029,7 +1029,9 @@ impl ExecutionContext {
             // SAFETY: lmi_ptr valid for request lifetime (pool-managed)
             let _lock_guard = unsafe { try_lock_v8(lmi_ptr) };
 
-            // 1. Check termination (CPU/wall-clock guards)
+            // 1. Check termination (CPU/wall-clock guards); be polled again on timeout
+            wall_guard.wake_on_timeout(cx);
+
             if self.is_terminated(wall_guard, cpu_guard) {
                 if let Some(ref waiter) = async_waiter {
                     waiter.unlock();
diff --git a/src/security/timeout_guard.rs b/src/security/timeout_guard.rs
index 84dc07b..d1692df 100644
--- a/src/security/timeout_guard.rs
+++ b/src/security/timeout_guard.rs
@@ -15,7 +15,8 @@
 //!
 //! 1. Guard spawns a watchdog thread with a timeout duration
 //! 2. Thread sleeps until timeout or cancellation
-//! 3. On timeout: calls `isolate.terminate_execution()` to abort V8
+//! 3. On timeout: calls `isolate.terminate_execution()` to abort V8, and wakes the
+//!    task that waits for the execution (see `wake_on_timeout`)
 //! 4. On drop: sends cancellation signal, joins thread
 //!
 //! ## Thread safety
@@ -23,9 +24,10 @@
 //! The `IsolateHandle` is thread-safe and can be used from the watchdog thread
 //! to terminate execution in the main thread.
 
-use std::sync::Arc;
 use std::sync::atomic::{AtomicBool, Ordering};
 use std::sync::mpsc;
+use std::sync::{Arc, Mutex};
+use std::task::{Context, Waker};
 use std::thread;
 use std::time::Duration;
 
@@ -52,11 +54,17 @@ pub struct TimeoutGuard {
     /// Channel to send cancellation signal to watchdog
     cancel_tx: Option<mpsc::Sender<()>>,
     /// Handle to join the watchdog thread
-    thread_handle: Option<thread::JoinHandle<()>>,
+    thread_handle: Option<Watchdog>,
     /// Flag set when timeout is triggered
     triggered: Arc<AtomicBool>,
 }
 
+/// The watchdog thread, and the task it wakes when the timeout triggers.
+struct Watchdog {
+    thread: thread::JoinHandle<()>,
+    waker: Arc<Mutex<Option<Waker>>>,
+}
+
 impl TimeoutGuard {
     /// Create a new timeout guard with the given V8 isolate handle and timeout.
     ///
@@ -83,8 +91,10 @@ impl TimeoutGuard {
 
         let (cancel_tx, cancel_rx) = mpsc::channel::<()>();
         let triggered_clone = triggered.clone();
+        let waker: Arc<Mutex<Option<Waker>>> = Arc::new(Mutex::new(None));
+        let waker_clone = waker.clone();
 
-        let thread_handle = thread::Builder::new()
+        let thread = thread::Builder::new()
             .name("timeout-watchdog".into())
             .spawn(move || {
                 let timeout = Duration::from_millis(timeout_ms);
@@ -103,6 +113,14 @@ impl TimeoutGuard {
                         );
                         triggered_clone.store(true, Ordering::SeqCst);
                         isolate_handle.terminate_execution();
+
+                        // An idle execution (waiting for I/O) runs no JavaScript that
+                        // could be terminated: wake its task so that it sees the flag.
+                        let waker = waker_clone.lock().unwrap().take();
+
+                        if let Some(waker) = waker {
+                            waker.wake();
+                        }
                     }
                     // Channel disconnected (guard dropped without explicit cancel)
                     Err(mpsc::RecvTimeoutError::Disconnected) => {
@@ -114,7 +132,7 @@ impl TimeoutGuard {
 
         Self {
             cancel_tx: Some(cancel_tx),
-            thread_handle: Some(thread_handle),
+            thread_handle: Some(Watchdog { thread, waker }),
             triggered,
         }
     }
@@ -125,6 +143,16 @@ impl TimeoutGuard {
     pub fn was_triggered(&self) -> bool {
         self.triggered.load(Ordering::SeqCst)
     }
+
+    /// Wake the given task when the timeout triggers.
+    ///
+    /// Call this on every poll, before checking `was_triggered`: a timeout that
+    /// triggers after that check then finds the waker.
+    pub fn wake_on_timeout(&self, cx: &Context<'_>) {
+        if let Some(watchdog) = &self.thread_handle {
+            *watchdog.waker.lock().unwrap() = Some(cx.waker().clone());
+        }
+    }
 }
 
 impl Drop for TimeoutGuard {
@@ -136,9 +164,9 @@ impl Drop for TimeoutGuard {
         }
 
         // Wait for watchdog thread to finish
-        if let Some(handle) = self.thread_handle.take() {
+        if let Some(watchdog) = self.thread_handle.take() {
             // Join the thread - should complete quickly after cancellation
-            if let Err(e) = handle.join() {
+            if let Err(e) = watchdog.thread.join() {
                 eprintln!(
                     "[openworkers-runtime-v8] Timeout watchdog thread panicked: {:?}",
                     e
diff --git a/src/worker.rs b/src/worker.rs
index 82cef42..3e80da9 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -750,7 +750,9 @@ impl Worker {
         let mut pending_callbacks: Vec<CallbackMessage> = Vec::with_capacity(16);
 
         std::future::poll_fn(|cx| {
-            // 1. Check termination (CPU/wall-clock guards)
+            // 1. Check termination (CPU/wall-clock guards); be polled again on timeout
+            wall_guard.wake_on_timeout(cx);
+
             if self.is_terminated(wall_guard, cpu_guard) {
                 return Poll::Ready(Err("Execution terminated".to_string()));
             }
diff --git a/src/worker_future.rs b/src/worker_future.rs
index 4c2dbcd..c16af38 100644
--- a/src/worker_future.rs
+++ b/src/worker_future.rs
@@ -61,7 +61,9 @@ impl Future for WorkerFuture<'_> {
 
         let this = self.get_mut();
 
-        // 1. Check termination (CPU/wall-clock guards)
+        // 1. Check termination (CPU/wall-clock guards); be polled again on timeout
+        this.wall_guard.wake_on_timeout(cx);
+
         if this.ctx.is_terminated(this.wall_guard, this.cpu_guard) {
             return Poll::Ready(Err("Execution terminated".to_string()));
         }
-- 
2.43.0


From 40fc0d326460243ad06fa98b19b7f4a457066ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:30 +0000
Subject: [PATCH 10/16] fix: a pending termination of an earlier request must
 not hit a new context

A limit that triggers while a request is idle leaves V8's terminate request
pending. The timed-out context is dropped, the isolate goes back to the pool,
and the next request on it had its set-up script terminated (unwrap panic in
setup_global_aliases). reset() already cancelled it for reused contexts.
---
 src/execution_context.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/execution_context.rs b/src/execution_context.rs
index 0ad980e..cf78231 100644
--- a/src/execution_context.rs
+++ b/src/execution_context.rs
@@ -123,6 +123,10 @@ impl ExecutionContext {
         // Create log callback that bypasses scheduler (calls ops.handle_log directly)
         let log_callback = bindings::log_callback_from_ops(&ops);
 
+        // Cancel any terminate_execution still pending from an earlier request on this
+        // isolate (a limit that triggered while it was idle): it must not hit this one.
+        isolate.cancel_terminate_execution();
+
         // Create NEW context in the pooled isolate
         let context = {
             use std::pin::pin;
-- 
2.43.0


From ea109b58283b16f27908d3432cd926d52018d5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:03 +0000
Subject: [PATCH 11/16] fix: evaluate the user script under the CPU and
 wall-clock limits

Only exec() and drain_waituntil() armed the guards: a script with an endless
loop at its top level (or in a getter of its exports) hung its thread forever.
---
 src/execution_context.rs | 25 +++++++++++++++++-----
 src/worker.rs            | 45 +++++++++++++++++++++++++++++-----------
 2 files changed, 53 insertions(+), 17 deletions(-)

diff --git a/src/execution_context.rs b/src/execution_context.rs
index cf78231..deae04b 100644
--- a/src/execution_context.rs
+++ b/src/execution_context.rs
@@ -193,11 +193,26 @@ impl ExecutionContext {
         // Setup environment variables and bindings (placeholder)
         Self::setup_env(isolate, &context, &script.env, &script.bindings)?;
 
-        // Evaluate user script (placeholder)
-        Self::evaluate_script(isolate, &context, &script.code)?;
-
-        // Setup ES Modules handler (placeholder)
-        Self::setup_es_modules_handler(isolate, &context)?;
+        // Evaluate user script and set up its ES Modules handler (which reads the script's
+        // exports), under the same limits as a request
+        let evaluated = {
+            let isolate_handle = isolate.thread_safe_handle();
+            let wall_guard =
+                TimeoutGuard::new(isolate_handle.clone(), limits.max_wall_clock_time_ms);
+            let cpu_guard = CpuEnforcer::new(isolate_handle, limits.max_cpu_time_ms);
+
+            let evaluated = Self::evaluate_script(isolate, &context, &script.code)
+                .and_then(|_| Self::setup_es_modules_handler(isolate, &context));
+
+            if cpu_guard.as_ref().is_some_and(|g| g.was_terminated()) {
+                Err(TerminationReason::CpuTimeLimit)
+            } else if wall_guard.was_triggered() {
+                Err(TerminationReason::WallClockTimeout)
+            } else {
+                evaluated
+            }
+        };
+        evaluated?;
 
         // Start event loop in background (with optional Operations handle)
         // Use tokio::spawn (not spawn_local) so the event loop survives LocalSet drops.
diff --git a/src/worker.rs b/src/worker.rs
index 3e80da9..e9f3212 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -553,19 +553,40 @@ impl Worker {
             TerminationReason::InitializationError(format!("Failed to setup env: {}", e))
         })?;
 
-        // Evaluate user script
-        runtime.evaluate(&script.code).map_err(|e| {
-            TerminationReason::Exception(format!("Script evaluation failed: {}", e))
-        })?;
-
-        // Setup ES Modules handler if `export default { fetch }` is used
+        // Evaluate user script under the same limits as a request. Then setup ES Modules
+        // handler if `export default { fetch }` is used (reads the script's exports).
         // This takes priority over addEventListener('fetch', ...)
-        setup_es_modules_handler(&mut runtime.isolate, &runtime.context).map_err(|e| {
-            TerminationReason::InitializationError(format!(
-                "Failed to setup ES modules handler: {}",
-                e
-            ))
-        })?;
+        let evaluated = {
+            let isolate_handle = runtime.isolate.thread_safe_handle();
+            let wall_guard = TimeoutGuard::new(
+                isolate_handle.clone(),
+                runtime.limits.max_wall_clock_time_ms,
+            );
+            let cpu_guard = CpuEnforcer::new(isolate_handle, runtime.limits.max_cpu_time_ms);
+
+            let evaluated = runtime
+                .evaluate(&script.code)
+                .map_err(|e| {
+                    TerminationReason::Exception(format!("Script evaluation failed: {}", e))
+                })
+                .and_then(|_| {
+                    setup_es_modules_handler(&mut runtime.isolate, &runtime.context).map_err(|e| {
+                        TerminationReason::InitializationError(format!(
+                            "Failed to setup ES modules handler: {}",
+                            e
+                        ))
+                    })
+                });
+
+            if cpu_guard.as_ref().is_some_and(|g| g.was_terminated()) {
+                Err(TerminationReason::CpuTimeLimit)
+            } else if wall_guard.was_triggered() {
+                Err(TerminationReason::WallClockTimeout)
+            } else {
+                evaluated
+            }
+        };
+        evaluated?;
 
         // Get stream_manager for event loop
         let stream_manager = runtime.stream_manager.clone();
-- 
2.43.0


From 731986d43d09a2cf158ef942cff1ac748123d9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:04 +0000
Subject: [PATCH 12/16] fix: remove SharedArrayBuffer and Atomics in every
 context

Only new_with_pooled_isolate applied the Spectre mitigation; contexts of
Worker and of WorkerBuilder::execute_with_isolate kept both globals.
---
 src/runtime/mod.rs | 3 +++
 src/worker.rs      | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/runtime/mod.rs b/src/runtime/mod.rs
index c6c5eb6..bc400b8 100644
--- a/src/runtime/mod.rs
+++ b/src/runtime/mod.rs
@@ -323,6 +323,9 @@ impl Runtime {
                     bindings::setup_response(scope);
                 }
 
+                // Security: Remove SharedArrayBuffer and Atomics (Spectre mitigations)
+                bindings::setup_security_restrictions(scope);
+
                 v8::Global::new(scope.as_ref(), context)
             };
 
diff --git a/src/worker.rs b/src/worker.rs
index e9f3212..8c19a68 100644
--- a/src/worker.rs
+++ b/src/worker.rs
@@ -217,6 +217,9 @@ impl WorkerBuilder {
                 bindings::setup_response(scope);
             }
 
+            // Security: Remove SharedArrayBuffer and Atomics (Spectre mitigations)
+            bindings::setup_security_restrictions(scope);
+
             v8::Global::new(scope.as_ref(), context)
         };
 
-- 
2.43.0


From a251ff0d0ab3d3d3e952a00385f905b9960bf879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:04 +0000
Subject: [PATCH 13/16] fix: a free isolate last used in this very clock tick
 can be evicted

The LRU scan started from Instant::now() and asked for a strictly older
last_used, so on a coarse clock it overlooked a free isolate and overcommitted
the full pool.
---
 src/pool.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/pool.rs b/src/pool.rs
index 10ce28c..5040ce0 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -386,20 +386,18 @@ impl ThreadLocalPool {
         }
 
         // 3. Pool full — evict LRU (oldest last_used among FREE isolates)
-        let mut lru_idx: Option<usize> = None;
-        let mut oldest = Instant::now();
+        let mut lru: Option<(usize, Instant)> = None;
 
         for (i, arc) in self.isolates.iter().enumerate() {
             if arc.is_free()
                 && let Ok(guard) = arc.inner.try_lock()
-                && guard.last_used < oldest
+                && lru.is_none_or(|(_, oldest)| guard.last_used < oldest)
             {
-                oldest = guard.last_used;
-                lru_idx = Some(i);
+                lru = Some((i, guard.last_used));
             }
         }
 
-        if let Some(idx) = lru_idx {
+        if let Some((idx, _)) = lru {
             let old = self.isolates.remove(idx);
             let evicted_owner = old.owner_id.clone();
             tracing::info!(
-- 
2.43.0


From 33bfb1810a631288ef1b1a9941c33af09393f787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:05 +0000
Subject: [PATCH 14/16] fix: max_cached_contexts = 0 caches nothing

With nothing to evict the context was pushed all the same, so one context was
kept (and reused) although caching was configured off.
---
 src/pool.rs | 57 +++++++++++++++++++++++++++--------------------------
 1 file changed, 29 insertions(+), 28 deletions(-)

diff --git a/src/pool.rs b/src/pool.rs
index 5040ce0..b3f54ce 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -193,6 +193,33 @@ struct TaggedIsolateInner {
     total_requests: u64,
 }
 
+impl TaggedIsolateInner {
+    /// Cache a context, within `max_cached`.
+    ///
+    /// Returns the context that does not fit any more (the least recently used one, or
+    /// this one if nothing may be cached); the caller drops it under the V8 lock.
+    fn cache(&mut self, context: CachedContext) -> Option<CachedContext> {
+        if self.max_cached == 0 {
+            return Some(context);
+        }
+
+        let evicted = if self.cached_contexts.len() >= self.max_cached {
+            // LRU eviction: replace least recently used context
+            self.cached_contexts
+                .iter()
+                .enumerate()
+                .min_by_key(|(_, c)| c.last_used)
+                .map(|(i, _)| i)
+                .map(|idx| self.cached_contexts.swap_remove(idx))
+        } else {
+            None
+        };
+
+        self.cached_contexts.push(context);
+        evicted
+    }
+}
+
 /// A tagged isolate with owner tracking and concurrency control.
 ///
 /// Each isolate is tagged with an owner_id. Concurrency is managed by
@@ -743,21 +770,8 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
                 if save_to_cache {
                     let mut inner = isolate_arc.inner.lock().await;
 
-                    let evicted = if inner.cached_contexts.len() >= inner.max_cached {
-                        // LRU eviction: replace least recently used context
-                        inner
-                            .cached_contexts
-                            .iter()
-                            .enumerate()
-                            .min_by_key(|(_, c)| c.last_used)
-                            .map(|(i, _)| i)
-                            .map(|idx| inner.cached_contexts.swap_remove(idx))
-                    } else {
-                        None
-                    };
-
                     let (request, isolate_ptr) = ec.into_parts();
-                    inner.cached_contexts.push(CachedContext {
+                    let evicted = inner.cache(CachedContext {
                         request,
                         isolate_ptr,
                         worker_id: cached_wid,
@@ -866,20 +880,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
     if let Some(cached) = new_cached_context {
         let mut inner = isolate_arc.inner.lock().await;
 
-        let evicted = if inner.cached_contexts.len() >= inner.max_cached {
-            // LRU eviction: replace least recently used context
-            inner
-                .cached_contexts
-                .iter()
-                .enumerate()
-                .min_by_key(|(_, c)| c.last_used)
-                .map(|(i, _)| i)
-                .map(|idx| inner.cached_contexts.swap_remove(idx))
-        } else {
-            None
-        };
-
-        inner.cached_contexts.push(cached);
+        let evicted = inner.cache(cached);
         drop(inner);
 
         if let Some(evicted) = evicted {
-- 
2.43.0


From a62cc09f793eeaca58955bdfd4a03b5481fe5c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:06 +0000
Subject: [PATCH 15/16] fix: log worker ids of any characters

Cutting the id at byte 8 panics inside a multi-byte character, when debug
logging is on; the panic left the isolate's slot taken forever.
---
 src/pool.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/pool.rs b/src/pool.rs
index b3f54ce..d73111f 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -592,6 +592,14 @@ pub fn get_local_pool_stats() -> Option<LocalPoolStats> {
 // Execution API
 // ============================================================================
 
+/// The first 8 characters of a worker id (for logging).
+fn short_id(worker_id: &str) -> &str {
+    match worker_id.char_indices().nth(8) {
+        Some((end, _)) => &worker_id[..end],
+        None => worker_id,
+    }
+}
+
 /// Drop a value under V8 Locker.
 ///
 /// V8 Global handles must be destroyed while the Locker is held.
@@ -724,7 +732,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
 
         tracing::debug!(
             "context WARM: worker={}, version={}, reuse_count={}",
-            &worker_id[..8.min(worker_id.len())],
+            short_id(&worker_id),
             version,
             reuse_cnt,
         );
@@ -752,14 +760,14 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
                 let save_to_cache = if result.is_err() {
                     tracing::debug!(
                         "context DISCARDED: worker={}, reason={:?}",
-                        &worker_id[..8.min(worker_id.len())],
+                        short_id(&worker_id),
                         result.as_ref().err(),
                     );
                     false
                 } else if let Err(reason) = ec.drain_waituntil().await {
                     tracing::debug!(
                         "context DISCARDED: worker={}, reason=drain_waituntil: {:?}",
-                        &worker_id[..8.min(worker_id.len())],
+                        short_id(&worker_id),
                         reason,
                     );
                     false
@@ -796,7 +804,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
             Err(e) => {
                 tracing::debug!(
                     "context DISCARDED: worker={}, reason=reset_failed: {}",
-                    &worker_id[..8.min(worker_id.len())],
+                    short_id(&worker_id),
                     e,
                 );
                 drop_under_lock(ec, lmi_ptr);
@@ -808,7 +816,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
     // ── Cold path ──────────────────────────────────────────────────────
     tracing::debug!(
         "context COLD: worker={}, creating new context",
-        &worker_id[..8.min(worker_id.len())],
+        short_id(&worker_id),
     );
 
     // Acquire Locker to enter the unentered isolate, create context
@@ -856,7 +864,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
                     Err(reason) => {
                         tracing::debug!(
                             "context NOT CACHED: worker={}, reason=drain_waituntil: {:?}",
-                            &worker_id[..8.min(worker_id.len())],
+                            short_id(&worker_id),
                             reason,
                         );
                         drop_under_lock(ctx, lmi_ptr);
@@ -866,7 +874,7 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
             } else {
                 tracing::debug!(
                     "context NOT CACHED: worker={}, reason={:?}",
-                    &worker_id[..8.min(worker_id.len())],
+                    short_id(&worker_id),
                     result.as_ref().err(),
                 );
                 drop_under_lock(ctx, lmi_ptr);
-- 
2.43.0


From b5965385aaa28ea2d510a59ba385ef26ebf11928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:06 +0000
Subject: [PATCH 16/16] fix: release the isolate's slot when an execution is
 abandoned

A dropped execute_pinned future (client timeout, task abort) or a panic left the
isolate in use forever: it could never be reused or evicted, and its owner stayed
at the per-owner limit.
---
 src/pool.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/pool.rs b/src/pool.rs
index d73111f..8cbb667 100644
--- a/src/pool.rs
+++ b/src/pool.rs
@@ -547,8 +547,9 @@ fn acquire_from_local_pool(owner_id: &str) -> Option<(Arc<TaggedIsolate>, bool)>
 fn release_to_local_pool(isolate: &TaggedIsolate) {
     isolate.release();
 
-    // Reclaim any overcommitted isolates that are now free
-    LOCAL_POOL.with(|pool_cell| {
+    // Reclaim any overcommitted isolates that are now free (nothing to do when the
+    // thread, and with it the pool, is going away)
+    let _ = LOCAL_POOL.try_with(|pool_cell| {
         let mut pool_opt = pool_cell.borrow_mut();
 
         if let Some(pool) = pool_opt.as_mut() {
@@ -557,6 +558,16 @@ fn release_to_local_pool(isolate: &TaggedIsolate) {
     });
 }
 
+/// The slot a request holds on an isolate: released on drop, so that an execution that
+/// is abandoned (its future dropped) or panics does not keep the isolate in use forever.
+struct SlotGuard(Arc<TaggedIsolate>);
+
+impl Drop for SlotGuard {
+    fn drop(&mut self) {
+        release_to_local_pool(&self.0);
+    }
+}
+
 // ============================================================================
 // Statistics
 // ============================================================================
@@ -654,6 +665,9 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
     let (isolate_arc, is_hit) = acquire_from_local_pool(&owner_id)
         .ok_or_else(|| TerminationReason::Other("Pool at capacity".to_string()))?;
 
+    // Released when this function is left, on every path
+    let _slot = SlotGuard(Arc::clone(&isolate_arc));
+
     if is_hit {
         CACHE_HITS.fetch_add(1, Ordering::Relaxed);
     } else {
@@ -798,7 +812,6 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
                     drop_under_lock(ec, lmi_ptr);
                 }
 
-                release_to_local_pool(&isolate_arc);
                 return result;
             }
             Err(e) => {
@@ -896,9 +909,6 @@ pub async fn execute_pinned(req: PinnedExecuteRequest) -> Result<(), Termination
         }
     }
 
-    // Release the isolate back to the pool
-    release_to_local_pool(&isolate_arc);
-
     result
 }
 
-- 
2.43.0

