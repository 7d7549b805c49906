From 81e7e3ecf343279fcbdab7007b28fd022d06694e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:01 +0000
Subject: [PATCH 01/22] verif: mock clock and marked points behind
 cfg(moka_verif)

---
 src/common/time.rs       |   2 +-
 src/common/time/clock.rs |  30 ++++++----
 src/future/builder.rs    |   9 +++
 src/lib.rs               |   8 +++
 src/sync/builder.rs      |   9 +++
 src/verif.rs             | 116 +++++++++++++++++++++++++++++++++++++++
 src/verif_macros.rs      |  20 +++++++
 7 files changed, 182 insertions(+), 12 deletions(-)
 create mode 100644 src/verif.rs
 create mode 100644 src/verif_macros.rs

diff --git a/src/common/time.rs b/src/common/time.rs
index 55b05e9..a6b703e 100644
--- a/src/common/time.rs
+++ b/src/common/time.rs
@@ -6,5 +6,5 @@ pub(crate) use atomic_time::AtomicInstant;
 pub(crate) use clock::Clock;
 pub(crate) use instant::Instant;
 
-#[cfg(test)]
+#[cfg(any(test, moka_verif))]
 pub(crate) use clock::Mock;
diff --git a/src/common/time/clock.rs b/src/common/time/clock.rs
index 1e4c669..dfaed80 100644
--- a/src/common/time/clock.rs
+++ b/src/common/time/clock.rs
@@ -1,9 +1,9 @@
 use std::time::{Duration, Instant as StdInstant};
 
-#[cfg(test)]
+#[cfg(any(test, moka_verif))]
 use std::sync::Arc;
 
-#[cfg(test)]
+#[cfg(any(test, moka_verif))]
 use parking_lot::RwLock;
 
 // This is `moka`'s `Instant` struct.
@@ -25,7 +25,7 @@ enum ClockType {
         std_origin: StdInstant,
         quanta_origin: quanta::Instant,
     },
-    #[cfg(test)]
+    #[cfg(any(test, moka_verif))]
     /// A clock that uses a mocked source of time.
     Mocked { mock: Arc<Mock> },
 }
@@ -52,7 +52,7 @@ impl Default for ClockType {
 }
 
 impl Clock {
-    #[cfg(test)]
+    #[cfg(any(test, moka_verif))]
     /// Creates a new `Clock` with a mocked source of time.
     pub(crate) fn mock() -> (Clock, Arc<Mock>) {
         let mock = Arc::new(Mock::default());
@@ -78,7 +78,7 @@ impl Clock {
             ClockType::Hybrid { std_origin, .. } => {
                 Instant::from_duration_since_clock_start(std_origin.elapsed())
             }
-            #[cfg(test)]
+            #[cfg(any(test, moka_verif))]
             ClockType::Mocked { mock } => Instant::from_duration_since_clock_start(mock.elapsed()),
         }
     }
@@ -103,7 +103,7 @@ impl Clock {
                 Instant::from_duration_since_clock_start(quanta_origin.elapsed())
             }
             ClockType::Standard { .. } => self.now(),
-            #[cfg(test)]
+            #[cfg(any(test, moka_verif))]
             ClockType::Mocked { .. } => self.now(),
         }
     }
@@ -123,7 +123,7 @@ impl Clock {
                 let duration = Duration::from_nanos(instant.as_nanos());
                 *std_origin + duration
             }
-            #[cfg(test)]
+            #[cfg(any(test, moka_verif))]
             ClockType::Mocked { mock } => {
                 let duration = Duration::from_nanos(instant.as_nanos());
                 // https://github.com/moka-rs/moka/issues/487
@@ -131,19 +131,22 @@ impl Clock {
                 // This `dbg!` will workaround an incorrect compilation by Rust
                 // 1.84.0 for the armv7-unknown-linux-musleabihf target in the
                 // release build of the tests.
-                dbg!(mock.origin + duration)
+                #[cfg(test)]
+                return dbg!(mock.origin + duration);
+                #[cfg(not(test))]
+                return mock.origin + duration;
             }
         }
     }
 }
 
-#[cfg(test)]
+#[cfg(any(test, moka_verif))]
 pub(crate) struct Mock {
     origin: StdInstant,
     now: RwLock<StdInstant>,
 }
 
-#[cfg(test)]
+#[cfg(any(test, moka_verif))]
 impl Default for Mock {
     fn default() -> Self {
         let origin = StdInstant::now();
@@ -154,7 +157,7 @@ impl Default for Mock {
     }
 }
 
-#[cfg(test)]
+#[cfg(any(test, moka_verif))]
 impl Mock {
     pub(crate) fn increment(&self, amount: Duration) {
         *self.now.write() += amount;
@@ -163,4 +166,9 @@ impl Mock {
     pub(crate) fn elapsed(&self) -> Duration {
         self.now.read().duration_since(self.origin)
     }
+
+    #[cfg(moka_verif)]
+    pub(crate) fn origin(&self) -> StdInstant {
+        self.origin
+    }
 }
diff --git a/src/future/builder.rs b/src/future/builder.rs
index 9ed212b..e147606 100644
--- a/src/future/builder.rs
+++ b/src/future/builder.rs
@@ -415,6 +415,15 @@ impl<K, V, C> CacheBuilder<K, V, C> {
         Self { clock, ..self }
     }
 
+    /// Sets a mock clock. (For verification)
+    #[cfg(moka_verif)]
+    pub fn verif_clock(self, clock: &crate::verif::MockClock) -> Self {
+        Self {
+            clock: clock.clock(),
+            ..self
+        }
+    }
+
     /// Enables support for [`Cache::invalidate_entries_if`][cache-invalidate-if]
     /// method.
     ///
diff --git a/src/lib.rs b/src/lib.rs
index 71d8aa0..fcbccb2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3,6 +3,8 @@
 // Temporary disable this lint as the MSRV (1.51) require an older lint name:
 // #![deny(rustdoc::broken_intra_doc_links)]
 #![cfg_attr(docsrs, feature(doc_cfg))]
+// `--cfg moka_verif` enables the verification hooks in `verif.rs`.
+#![allow(unexpected_cfgs)]
 
 //! Moka is a fast, concurrent cache library for Rust. Moka is inspired by the
 //! [Caffeine][caffeine-git] library for Java.
@@ -239,6 +241,12 @@ compile_error!(
 // Reexport(s)
 pub use equivalent::Equivalent;
 
+#[macro_use]
+mod verif_macros;
+
+#[cfg(moka_verif)]
+pub mod verif;
+
 #[cfg(feature = "future")]
 #[cfg_attr(docsrs, doc(cfg(feature = "future")))]
 pub mod future;
diff --git a/src/sync/builder.rs b/src/sync/builder.rs
index 6f12b63..3d7980e 100644
--- a/src/sync/builder.rs
+++ b/src/sync/builder.rs
@@ -503,6 +503,15 @@ impl<K, V, C> CacheBuilder<K, V, C> {
         Self { clock, ..self }
     }
 
+    /// Sets a mock clock. (For verification)
+    #[cfg(moka_verif)]
+    pub fn verif_clock(self, clock: &crate::verif::MockClock) -> Self {
+        Self {
+            clock: clock.clock(),
+            ..self
+        }
+    }
+
     /// Enables support for [`Cache::invalidate_entries_if`][cache-invalidate-if]
     /// method.
     ///
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..adffab3
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,116 @@
+//! Verification hooks, compiled only with `--cfg moka_verif`.
+//!
+//! - A mock clock that can be given to the cache builders.
+//! - Marked points in the code at which a harness can inject delays (sync) or
+//!   suspensions (async).
+
+use crate::common::time::{Clock, Mock};
+use std::{
+    future::Future,
+    pin::Pin,
+    sync::{
+        atomic::{AtomicUsize, Ordering},
+        Arc,
+    },
+    task::{Context, Poll},
+    time::{Duration, Instant},
+};
+
+/// A manually advanced clock.
+#[derive(Clone)]
+pub struct MockClock {
+    mock: Arc<Mock>,
+    clock: Clock,
+}
+
+impl Default for MockClock {
+    fn default() -> Self {
+        Self::new()
+    }
+}
+
+impl MockClock {
+    pub fn new() -> Self {
+        let (clock, mock) = Clock::mock();
+        Self { mock, clock }
+    }
+
+    /// Moves the time forward.
+    pub fn advance(&self, amount: Duration) {
+        self.mock.increment(amount);
+    }
+
+    /// The time since the origin of this clock.
+    pub fn elapsed(&self) -> Duration {
+        self.mock.elapsed()
+    }
+
+    /// The `std::time::Instant` that stands for `elapsed` on this clock.
+    pub fn to_std(&self, elapsed: Duration) -> Instant {
+        self.mock.origin() + elapsed
+    }
+
+    pub(crate) fn clock(&self) -> Clock {
+        self.clock.clone()
+    }
+}
+
+/// Called at a marked point.
+pub type PointHook = fn(&'static str);
+/// Called at a marked async point. The task is suspended for as many polls as the
+/// returned number.
+pub type AsyncPointHook = fn(&'static str) -> u32;
+
+static POINT_HOOK: AtomicUsize = AtomicUsize::new(0);
+static ASYNC_POINT_HOOK: AtomicUsize = AtomicUsize::new(0);
+
+/// Sets the hook to be called at the marked points.
+pub fn set_point_hook(hook: Option<PointHook>) {
+    POINT_HOOK.store(hook.map_or(0, |h| h as usize), Ordering::SeqCst);
+}
+
+/// Sets the hook to be called at the marked async points.
+pub fn set_async_point_hook(hook: Option<AsyncPointHook>) {
+    ASYNC_POINT_HOOK.store(hook.map_or(0, |h| h as usize), Ordering::SeqCst);
+}
+
+#[inline]
+pub(crate) fn pt(site: &'static str) {
+    let hook = POINT_HOOK.load(Ordering::Relaxed);
+    if hook != 0 {
+        // SAFETY: Only `set_point_hook` writes a non-zero value.
+        let hook = unsafe { std::mem::transmute::<*const (), PointHook>(hook as *const ()) };
+        hook(site);
+    }
+}
+
+#[inline]
+pub(crate) fn apt(site: &'static str) -> Suspend {
+    let hook = ASYNC_POINT_HOOK.load(Ordering::Relaxed);
+    let polls = if hook == 0 {
+        0
+    } else {
+        // SAFETY: Only `set_async_point_hook` writes a non-zero value.
+        let hook = unsafe { std::mem::transmute::<*const (), AsyncPointHook>(hook as *const ()) };
+        hook(site)
+    };
+    Suspend { polls }
+}
+
+pub(crate) struct Suspend {
+    polls: u32,
+}
+
+impl Future for Suspend {
+    type Output = ();
+
+    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
+        if self.polls == 0 {
+            Poll::Ready(())
+        } else {
+            self.polls -= 1;
+            cx.waker().wake_by_ref();
+            Poll::Pending
+        }
+    }
+}
diff --git a/src/verif_macros.rs b/src/verif_macros.rs
new file mode 100644
index 0000000..86ad1d0
--- /dev/null
+++ b/src/verif_macros.rs
@@ -0,0 +1,20 @@
+//! Markers for the verification hooks. They expand to nothing unless the crate is
+//! built with `--cfg moka_verif`.
+
+/// A point where a verification harness may delay the current thread.
+macro_rules! verif_pt {
+    ($site:literal) => {
+        #[cfg(moka_verif)]
+        $crate::verif::pt($site);
+    };
+}
+
+/// A point, next to an existing `await`, where a verification harness may suspend
+/// the current async task.
+#[allow(unused_macros)]
+macro_rules! verif_apt {
+    ($site:literal) => {
+        #[cfg(moka_verif)]
+        $crate::verif::apt($site).await;
+    };
+}
-- 
2.43.0


From 1a37cc46d22b634be7f70d22ecc72ab45cfb4a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:01 +0000
Subject: [PATCH 02/22] verif: mark points in concurrent code (no-ops unless
 cfg(moka_verif))

---
 src/cht/map/bucket.rs           |  5 +++++
 src/cht/map/bucket_array_ref.rs |  1 +
 src/common/iter.rs              |  1 +
 src/future/base_cache.rs        | 27 +++++++++++++++++++++++++++
 src/future/cache.rs             |  5 +++++
 src/future/housekeeper.rs       |  3 +++
 src/future/invalidator.rs       |  3 +++
 src/future/key_lock.rs          |  2 ++
 src/future/value_initializer.rs | 12 ++++++++++++
 src/sync/base_cache.rs          | 20 ++++++++++++++++++++
 src/sync/cache.rs               |  4 ++++
 src/sync/invalidator.rs         |  3 +++
 src/sync/key_lock.rs            |  1 +
 src/sync/value_initializer.rs   | 10 ++++++++++
 14 files changed, 97 insertions(+)

diff --git a/src/cht/map/bucket.rs b/src/cht/map/bucket.rs
index c6b76a5..39aef45 100644
--- a/src/cht/map/bucket.rs
+++ b/src/cht/map/bucket.rs
@@ -153,6 +153,7 @@ impl<'g, K: 'g + Eq, V: 'g> BucketArray<K, V> {
 
             let new_bucket_ptr = this_bucket_ptr.with_tag(TOMBSTONE_TAG);
 
+            verif_pt!("cht.remove.before_cas");
             match this_bucket.compare_exchange_weak(
                 this_bucket_ptr,
                 new_bucket_ptr,
@@ -197,6 +198,7 @@ impl<'g, K: 'g + Eq, V: 'g> BucketArray<K, V> {
 
             let new_bucket = state.into_insert_bucket();
 
+            verif_pt!("cht.insert.before_cas");
             if let Err(CompareExchangeError { new, .. }) = this_bucket.compare_exchange_weak(
                 this_bucket_ptr,
                 new_bucket,
@@ -263,6 +265,7 @@ impl<'g, K: 'g + Eq, V: 'g> BucketArray<K, V> {
                     (state.into_insert_bucket(), None)
                 };
 
+            verif_pt!("cht.insert.before_cas");
             if let Err(CompareExchangeError { new, .. }) = this_bucket.compare_exchange_weak(
                 this_bucket_ptr,
                 new_bucket,
@@ -454,6 +457,7 @@ impl<'g, K: 'g, V: 'g> BucketArray<K, V> {
                     break;
                 }
 
+                verif_pt!("cht.rehash.bucket");
                 let to_put_ptr = this_bucket_ptr.with_tag(this_bucket_ptr.tag() | BORROWED_TAG);
 
                 if let Some((index, mut next_bucket_ptr)) = maybe_state {
@@ -483,6 +487,7 @@ impl<'g, K: 'g, V: 'g> BucketArray<K, V> {
                     }
                 }
 
+                verif_pt!("cht.rehash.before_sentinel");
                 if this_bucket
                     .compare_exchange_weak(
                         this_bucket_ptr,
diff --git a/src/cht/map/bucket_array_ref.rs b/src/cht/map/bucket_array_ref.rs
index 38b22fb..4ff110c 100644
--- a/src/cht/map/bucket_array_ref.rs
+++ b/src/cht/map/bucket_array_ref.rs
@@ -326,6 +326,7 @@ impl<'g, K, V, S> BucketArrayRef<'_, K, V, S> {
         mut current_ref: &'g BucketArray<K, V>,
         min_ref: &'g BucketArray<K, V>,
     ) {
+        verif_pt!("cht.swing");
         let min_epoch = min_ref.epoch;
 
         let mut current_ptr = (current_ref as *const BucketArray<K, V>).into();
diff --git a/src/common/iter.rs b/src/common/iter.rs
index 3f72572..fb096ac 100644
--- a/src/common/iter.rs
+++ b/src/common/iter.rs
@@ -72,6 +72,7 @@ where
         }
 
         while let Some(key) = self.next_key() {
+            verif_pt!("iter.key");
             if let Some(v) = self.cache().scanning_get(&key) {
                 return Some((key, v));
             }
diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index ea2b280..f7c297b 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -329,6 +329,7 @@ where
                         );
                     }
 
+                    verif_pt!("base.get.before_touch");
                     entry.set_last_accessed(now);
 
                     let maybe_key = if need_key { Some(Arc::clone(k)) } else { None };
@@ -397,6 +398,7 @@ where
 
     pub(crate) fn invalidate_all(&self) {
         let now = self.current_time();
+        verif_pt!("base.invalidate_all.now_taken");
         self.inner.set_valid_after(now);
     }
 
@@ -405,6 +407,7 @@ where
         predicate: PredicateFun<K, V>,
     ) -> Result<PredicateId, PredicateError> {
         let now = self.current_time();
+        verif_pt!("base.invalidate_if.now_taken");
         self.inner.register_invalidation_predicate(predicate, now)
     }
 }
@@ -463,6 +466,7 @@ where
         op: ReadOp<K, V>,
         now: Instant,
     ) -> Result<(), TrySendError<ReadOp<K, V>>> {
+        verif_apt!("base.record_read");
         self.apply_reads_if_needed(&self.inner, now).await;
         let ch = &self.read_op_ch;
         match ch.try_send(op) {
@@ -496,6 +500,7 @@ where
         };
 
         let ts = self.current_time();
+        verif_pt!("base.insert.ts_taken");
 
         // TODO: Instead using Arc<AtomicU8> to check if the actual operation was
         // insert or update, check the return value of insert_with_or_modify. If it
@@ -535,6 +540,7 @@ where
                 entry
             },
         );
+        verif_pt!("base.insert.map_updated");
 
         match (op1, op2) {
             (Some((_cnt, ins_op)), None) => self.do_post_insert_steps(ts, &key, ins_op),
@@ -607,6 +613,7 @@ where
             cancel_guard.set_future_and_op(future.clone(), upd_op.clone());
 
             // Notify the eviction listener.
+            verif_apt!("base.update.before_notify");
             future.await;
             cancel_guard.clear();
         }
@@ -640,7 +647,9 @@ where
         let mut spin_loop_attempts = 0u8;
         loop {
             // Run the `Inner::do_run_pending_tasks` method if needed.
+            verif_apt!("base.schedule.loop");
             BaseCache::<K, V, S>::apply_reads_writes_if_needed(inner, ch, ts, housekeeper).await;
+            verif_apt!("base.schedule.before_send");
 
             // Try to send our op to the write op channel.
             match ch.try_send(op) {
@@ -676,7 +685,9 @@ where
                 //   try_run_pending_tasks` methods has freed the lock on the
                 //   `current_task`.
                 //
+                verif_pt!("base.schedule.before_listen");
                 ch_ready_event.listen().await;
+                verif_apt!("base.schedule.listened");
 
                 // We are going to retry. Now the channel may have some space and/or
                 // one of us is allowed to run `do_run_pending_tasks` method.
@@ -700,6 +711,7 @@ where
                     cancel_guard.set_future_and_op(future.clone(), op);
                     // Resume the interrupted future (which will notify an eviction
                     // to the eviction listener).
+                    verif_apt!("base.retry.before_future");
                     future.await;
                     // If we are here, it means the above future has been completed.
                     cancel_guard.unset_future();
@@ -1304,6 +1316,7 @@ where
         }
 
         // Acquire some locks.
+        verif_apt!("base.maintenance.start");
         let mut deqs = self.deques.lock().await;
         let mut timer_wheel = self.timer_wheel.lock().await;
 
@@ -1356,6 +1369,7 @@ where
             // loop.
             eviction_state.more_entries_to_evict = false;
             let last_eviction_count = eviction_state.counters.eviction_count;
+            verif_pt!("base.maintenance.logs_applied");
 
             // Evict entries if there are any expired entries in the hierarchical
             // timer wheels.
@@ -1395,6 +1409,7 @@ where
                 }
             }
 
+            verif_pt!("base.maintenance.before_lru");
             // Evict if this cache has more entries than its capacity.
             let weights_to_evict = self.weights_to_evict(&eviction_state.counters);
             if weights_to_evict > 0 {
@@ -1433,6 +1448,7 @@ where
             }
         }
 
+        verif_pt!("base.maintenance.before_store");
         debug_assert_eq!(self.entry_count.load(), current_ec);
         debug_assert_eq!(self.weighted_size.load(), current_ws);
         self.entry_count.store(eviction_state.counters.entry_count);
@@ -1643,6 +1659,7 @@ where
                     None
                 };
 
+                verif_pt!("base.evict.before_remove");
                 let removed = self.cache.remove_if(
                     kh.hash,
                     |k| k == &kh.key,
@@ -1695,6 +1712,7 @@ where
                         None
                     };
 
+                    verif_pt!("base.admit.before_victim");
                     if let Some((vic_key, vic_entry)) = self.cache.remove_entry_if_and(
                         vic_hash,
                         |k| k == &vic_key,
@@ -1748,6 +1766,7 @@ where
                 // Remove the candidate from the cache (hash map) if the entry
                 // generation matches.
                 let key = Arc::clone(&kh.key);
+                verif_pt!("base.evict.before_remove");
                 let removed = self.cache.remove_if(
                     kh.hash,
                     |k| k == &key,
@@ -1862,6 +1881,7 @@ where
         timer_wheel: &mut TimerWheel<K>,
         counters: &mut EvictionCounters,
     ) {
+        verif_pt!("base.handle_admit");
         counters.saturating_add(1, policy_weight);
 
         self.update_timer_wheel(entry, timer_wheel);
@@ -1967,6 +1987,7 @@ where
     ) {
         if entry.is_admitted() {
             entry.set_admitted(false);
+            verif_pt!("base.handle_remove.unadmitted");
             counters.saturating_sub(1, entry.policy_weight());
             // The following two unlink_* functions will unset the deq nodes.
             deqs.unlink_ao(&entry);
@@ -1997,6 +2018,7 @@ where
         }
         if entry.is_admitted() {
             entry.set_admitted(false);
+            verif_pt!("base.handle_remove.unadmitted");
             counters.saturating_sub(1, entry.policy_weight());
             // The following two unlink_* functions will unset the deq nodes.
             Deques::unlink_ao_from_deque(ao_deq_name, ao_deq, &entry);
@@ -2060,6 +2082,7 @@ where
             };
 
             // Remove the key from the map only when the entry is really expired.
+            verif_pt!("base.evict.before_remove");
             let maybe_entry = self.cache.remove_if(
                 hash,
                 |k| k == &key,
@@ -2188,6 +2211,7 @@ where
             // expired. This check is needed because it is possible that the entry in
             // the map has been updated or deleted but its deque node we checked
             // above has not been updated yet.
+            verif_pt!("base.evict.before_remove");
             let maybe_entry = self.cache.remove_if(
                 hash,
                 |k| k == &key,
@@ -2329,6 +2353,7 @@ where
                 None
             };
 
+            verif_pt!("base.evict.before_remove");
             let maybe_entry = self.cache.remove_if(
                 hash,
                 |k| k == &key,
@@ -2366,6 +2391,7 @@ where
     {
         let now = self.current_time();
 
+        verif_pt!("base.invalidate_entries");
         // If the write order queue is empty, we are done and can remove the predicates
         // that have been registered by now.
         if deqs.write_order.len() == 0 {
@@ -2479,6 +2505,7 @@ where
                 None
             };
 
+            verif_pt!("base.evict.before_remove");
             let maybe_entry = self.cache.remove_if(
                 hash,
                 |k| k == &key,
diff --git a/src/future/cache.rs b/src/future/cache.rs
index 07eb6e3..0586f61 100644
--- a/src/future/cache.rs
+++ b/src/future/cache.rs
@@ -1826,6 +1826,7 @@ where
             should_block = self.schedule_write_op_should_block.load(Ordering::Acquire);
         }
 
+        verif_apt!("cache.insert.before_schedule");
         let hk = self.base.housekeeper.as_ref();
         let event = self.base.write_op_ch_ready_event();
 
@@ -1956,9 +1957,11 @@ where
             }
         }
 
+        verif_pt!("cache.invalidate.before_remove");
         match self.base.remove_entry(key, hash) {
             None => None,
             Some(kv) => {
+                verif_pt!("cache.invalidate.removed");
                 let now = self.base.current_time();
 
                 let maybe_v = if need_value {
@@ -1991,6 +1994,7 @@ where
                         .shared();
                     cancel_guard.set_future_and_op(future.clone(), op.clone());
                     // Send notification to the eviction listener.
+                    verif_apt!("cache.invalidate.before_notify");
                     future.await;
                     cancel_guard.unset_future();
                 } else {
@@ -2014,6 +2018,7 @@ where
                     should_block = self.schedule_write_op_should_block.load(Ordering::Acquire);
                 }
 
+                verif_apt!("cache.invalidate.before_schedule");
                 let event = self.base.write_op_ch_ready_event();
                 let hk = self.base.housekeeper.as_ref();
 
diff --git a/src/future/housekeeper.rs b/src/future/housekeeper.rs
index 1ef86cd..dc257b3 100644
--- a/src/future/housekeeper.rs
+++ b/src/future/housekeeper.rs
@@ -117,12 +117,14 @@ impl Housekeeper {
         V: Clone + Send + Sync + 'static,
         S: BuildHasher + Clone + Send + Sync + 'static,
     {
+        verif_apt!("housekeeper.before_lock");
         let mut current_task = self.current_task.lock().await;
         self.do_run_pending_tasks(Arc::clone(&cache), &mut current_task)
             .await;
 
         drop(current_task);
 
+        verif_pt!("housekeeper.before_notify");
         // If there are any async tasks waiting in `BaseCache::schedule_write_op`
         // method for the write op channel, notify them.
         cache.write_op_ch_ready_event.notify(usize::MAX);
@@ -145,6 +147,7 @@ impl Housekeeper {
 
         // The `current_task` lock should be free now.
 
+        verif_pt!("housekeeper.before_notify");
         // If there are any async tasks waiting in `BaseCache::schedule_write_op`
         // method for the write op channel, notify them.
         cache.write_op_ch_ready_event.notify(usize::MAX);
diff --git a/src/future/invalidator.rs b/src/future/invalidator.rs
index 5c48cd1..e50fd29 100644
--- a/src/future/invalidator.rs
+++ b/src/future/invalidator.rs
@@ -99,6 +99,7 @@ impl<K, V, S> Invalidator<K, V, S> {
         }
 
         if pred_map.is_empty() {
+            verif_pt!("invalidator.before_empty");
             self.is_empty.store(true, Ordering::Release);
         }
     }
@@ -194,6 +195,7 @@ impl<K, V, S> Invalidator<K, V, S> {
             newest_timestamp = Some(ts);
         }
 
+        verif_pt!("invalidator.scanned");
         self.remove_finished_predicates(predicates, is_truncated, newest_timestamp);
 
         (invalidated, self.predicates.is_empty())
@@ -262,6 +264,7 @@ where
         }
 
         if pred_map.is_empty() {
+            verif_pt!("invalidator.before_empty");
             self.is_empty.store(true, Ordering::Release);
         }
     }
diff --git a/src/future/key_lock.rs b/src/future/key_lock.rs
index 1365937..e1c3a06 100644
--- a/src/future/key_lock.rs
+++ b/src/future/key_lock.rs
@@ -30,6 +30,7 @@ where
 {
     fn drop(&mut self) {
         if MiniArc::count(&self.lock) <= 2 {
+            verif_pt!("key_lock.drop");
             self.map.remove_if(
                 self.hash,
                 |k| k == &self.key,
@@ -54,6 +55,7 @@ where
     }
 
     pub(crate) async fn lock(&self) -> MutexGuard<'_, ()> {
+        verif_apt!("key_lock.before_lock");
         self.lock.lock().await
     }
 }
diff --git a/src/future/value_initializer.rs b/src/future/value_initializer.rs
index f913cd5..43929fa 100644
--- a/src/future/value_initializer.rs
+++ b/src/future/value_initializer.rs
@@ -186,6 +186,7 @@ where
             };
 
             // Somebody else's waiter already exists, so wait for its result to become available.
+            verif_apt!("init.waiter_found");
             let waiter_result = existing_waiter.read().await;
             match &*waiter_result {
                 WaiterValue::Ready(Ok(value)) => return ReadExisting(value.clone()),
@@ -220,6 +221,7 @@ where
         // https://github.com/moka-rs/moka/issues/59
         let waiter_guard = WaiterGuard::new(w_key, w_hash, &self.waiters, lock);
 
+        verif_apt!("init.waiter_inserted");
         // Check if the value has already been inserted by other thread.
         if let Some(value) = cache
             .base
@@ -236,13 +238,16 @@ where
         // The value still does note exist. Let's resolve the init
         // future. Catching panic is safe here as we do not try to
         // resolve the future again.
+        verif_apt!("init.before_init");
         match AssertUnwindSafe(init).catch_unwind().await {
             // Resolved.
             Ok(value) => match post_init(value) {
                 Ok(value) => {
+                    verif_apt!("init.before_insert");
                     cache
                         .insert_with_hash(Arc::clone(c_key), c_hash, value.clone())
                         .await;
+                    verif_apt!("init.inserted");
                     waiter_guard.set_waiter_value(WaiterValue::Ready(Ok(value.clone())));
                     Initialized(value)
                 }
@@ -296,6 +301,7 @@ where
 
             // Somebody else's waiter already exists, so wait for it to finish
             // (wait for it to release the write lock).
+            verif_apt!("init.waiter_found");
             let waiter_result = existing_waiter.read().await;
             match &*waiter_result {
                 // Unexpected state.
@@ -330,6 +336,7 @@ where
         };
         let entry_existed = maybe_entry.is_some();
 
+        verif_apt!("compute.looked_up");
         // Evaluate the `f` closure and get a future. Catching panic is safe here as
         // we will not evaluate the closure again.
         let fut = match std::panic::catch_unwind(AssertUnwindSafe(|| f(maybe_entry))) {
@@ -357,6 +364,7 @@ where
         // Defer waiter removal until after the cache mutation so that concurrent
         // callers cannot insert their own waiter and observe stale cache state
         // between the waiter removal and the cache write.
+        verif_apt!("compute.evaluated");
         match post_init(output) {
             Ok(Op::Nop) => {
                 waiter_guard.set_waiter_value(WaiterValue::ReadyNone);
@@ -476,6 +484,7 @@ where
         };
         let entry_existed = maybe_entry.is_some();
 
+        verif_apt!("compute.looked_up");
         // Evaluate the `f` closure and get a future. Catching panic is safe here as
         // we will not evaluate the closure again.
         let fut = match std::panic::catch_unwind(AssertUnwindSafe(|| f(maybe_entry))) {
@@ -502,6 +511,7 @@ where
         // Defer waiter removal until after the cache mutation so that concurrent
         // callers cannot insert their own waiter and observe stale cache state
         // between the waiter removal and the cache write.
+        verif_apt!("compute.evaluated");
         match post_init(output) {
             Ok(Op::Nop) => {
                 waiter_guard.set_waiter_value(WaiterValue::ReadyNone);
@@ -630,7 +640,9 @@ where
     (Arc<K>, TypeId): Eq + Hash,
     S: BuildHasher,
 {
+    verif_pt!("waiter.before_remove");
     waiter_map.remove(w_hash, |k| k == &w_key);
+    verif_pt!("waiter.removed");
 }
 
 #[inline]
diff --git a/src/sync/base_cache.rs b/src/sync/base_cache.rs
index ce1acb7..db669bd 100644
--- a/src/sync/base_cache.rs
+++ b/src/sync/base_cache.rs
@@ -308,6 +308,7 @@ where
                 }
             });
 
+        verif_pt!("base.get.looked_up");
         if let Some((maybe_key, entry)) = maybe_entry {
             let mut is_expiry_modified = false;
 
@@ -354,6 +355,7 @@ where
                 );
             }
 
+            verif_pt!("base.get.before_touch");
             entry.set_last_accessed(now);
 
             let v = entry.value.clone();
@@ -403,6 +405,7 @@ where
 
     pub(crate) fn invalidate_all(&self) {
         let now = self.current_time();
+        verif_pt!("base.invalidate_all.now_taken");
         self.inner.set_valid_after(now);
     }
 
@@ -411,6 +414,7 @@ where
         predicate: PredicateFun<K, V>,
     ) -> Result<PredicateId, PredicateError> {
         let now = self.current_time();
+        verif_pt!("base.invalidate_if.now_taken");
         self.inner.register_invalidation_predicate(predicate, now)
     }
 }
@@ -496,6 +500,7 @@ where
         let _klg = &kl.as_ref().map(|kl| kl.lock());
 
         let ts = self.current_time();
+        verif_pt!("base.insert.ts_taken");
 
         // TODO: Instead using Arc<AtomicU8> to check if the actual operation was
         // insert or update, check the return value of insert_with_or_modify. If it
@@ -535,6 +540,7 @@ where
                 entry
             },
         );
+        verif_pt!("base.insert.map_updated");
 
         match (op1, op2) {
             (Some((_cnt, ins_op)), None) => self.do_post_insert_steps(ts, &key, ins_op),
@@ -1220,6 +1226,7 @@ where
             // loop.
             eviction_state.more_entries_to_evict = false;
             let last_eviction_count = eviction_state.counters.eviction_count;
+            verif_pt!("base.maintenance.logs_applied");
 
             // Evict entries if there are any expired entries in the hierarchical
             // timer wheels.
@@ -1256,6 +1263,7 @@ where
                 }
             }
 
+            verif_pt!("base.maintenance.before_lru");
             // Evict if this cache has more entries than its capacity.
             let weights_to_evict = self.weights_to_evict(&eviction_state.counters);
             if weights_to_evict > 0 {
@@ -1293,6 +1301,7 @@ where
             }
         }
 
+        verif_pt!("base.maintenance.before_store");
         debug_assert_eq!(self.entry_count.load(), current_ec);
         debug_assert_eq!(self.weighted_size.load(), current_ws);
         self.entry_count.store(eviction_state.counters.entry_count);
@@ -1488,6 +1497,7 @@ where
                 let kl = self.maybe_key_lock(&kh.key);
                 let _klg = &kl.as_ref().map(|kl| kl.lock());
 
+                verif_pt!("base.evict.before_remove");
                 let removed = self.cache.remove_if(
                     kh.hash,
                     |k| k == &kh.key,
@@ -1534,6 +1544,7 @@ where
                     let kl = self.maybe_key_lock(&vic_key);
                     let _klg = &kl.as_ref().map(|kl| kl.lock());
 
+                    verif_pt!("base.admit.before_victim");
                     if let Some((vic_key, vic_entry)) = self.cache.remove_entry_if_and(
                         vic_hash,
                         |k| k == &vic_key,
@@ -1585,6 +1596,7 @@ where
                 // Remove the candidate from the cache (hash map) if the entry
                 // generation matches.
                 let key = Arc::clone(&kh.key);
+                verif_pt!("base.evict.before_remove");
                 let removed = self.cache.remove_if(
                     kh.hash,
                     |k| k == &key,
@@ -1697,6 +1709,7 @@ where
         timer_wheel: &mut TimerWheel<K>,
         counters: &mut EvictionCounters,
     ) {
+        verif_pt!("base.handle_admit");
         counters.saturating_add(1, policy_weight);
 
         self.update_timer_wheel(entry, timer_wheel);
@@ -1803,6 +1816,7 @@ where
     ) {
         if entry.is_admitted() {
             entry.set_admitted(false);
+            verif_pt!("base.handle_remove.unadmitted");
             counters.saturating_sub(1, entry.policy_weight());
             // The following two unlink_* functions will unset the deq nodes.
             deqs.unlink_ao(&entry);
@@ -1833,6 +1847,7 @@ where
         }
         if entry.is_admitted() {
             entry.set_admitted(false);
+            verif_pt!("base.handle_remove.unadmitted");
             counters.saturating_sub(1, entry.policy_weight());
             // The following two unlink_* functions will unset the deq nodes.
             Deques::unlink_ao_from_deque(ao_deq_name, ao_deq, &entry);
@@ -1887,6 +1902,7 @@ where
                 let _klg = &kl.as_ref().map(|kl| kl.lock());
 
                 // Remove the key from the map only when the entry is really expired.
+                verif_pt!("base.evict.before_remove");
                 let maybe_entry = self.cache.remove_if(
                     hash,
                     |k| k == key,
@@ -2007,6 +2023,7 @@ where
             // expired. This check is needed because it is possible that the entry in
             // the map has been updated or deleted but its deque node we checked
             // above has not been updated yet.
+            verif_pt!("base.evict.before_remove");
             let maybe_entry = self.cache.remove_if(
                 hash,
                 |k| k == &key,
@@ -2134,6 +2151,7 @@ where
             let kl = self.maybe_key_lock(&key);
             let _klg = &kl.as_ref().map(|kl| kl.lock());
 
+            verif_pt!("base.evict.before_remove");
             let maybe_entry = self.cache.remove_if(
                 hash,
                 |k| k == &key,
@@ -2169,6 +2187,7 @@ where
     {
         let now = self.current_time();
 
+        verif_pt!("base.invalidate_entries");
         // If the write order queue is empty, we are done and can remove the predicates
         // that have been registered by now.
         if deqs.write_order.len() == 0 {
@@ -2277,6 +2296,7 @@ where
             let kl = self.maybe_key_lock(&key);
             let _klg = &kl.as_ref().map(|kl| kl.lock());
 
+            verif_pt!("base.evict.before_remove");
             let maybe_entry = self.cache.remove_if(
                 hash,
                 |k| k == &key,
diff --git a/src/sync/cache.rs b/src/sync/cache.rs
index ce25f7c..908b8ec 100644
--- a/src/sync/cache.rs
+++ b/src/sync/cache.rs
@@ -1485,6 +1485,7 @@ where
         }
 
         let (op, now) = self.base.do_insert_with_hash(key, hash, value);
+        verif_pt!("cache.insert.before_schedule");
         let hk = self.base.housekeeper.as_ref();
         Self::schedule_write_op(
             self.base.inner.as_ref(),
@@ -1598,9 +1599,11 @@ where
             }
         }
 
+        verif_pt!("cache.invalidate.before_remove");
         match self.base.remove_entry(key, hash) {
             None => None,
             Some(kv) => {
+                verif_pt!("cache.invalidate.removed");
                 let now = self.base.current_time();
 
                 let info = kv.entry.entry_info();
@@ -1626,6 +1629,7 @@ where
                     kv_entry: kv,
                     entry_gen,
                 };
+                verif_pt!("cache.invalidate.before_schedule");
                 let hk = self.base.housekeeper.as_ref();
                 Self::schedule_write_op(
                     self.base.inner.as_ref(),
diff --git a/src/sync/invalidator.rs b/src/sync/invalidator.rs
index f5ff7dc..00e389e 100644
--- a/src/sync/invalidator.rs
+++ b/src/sync/invalidator.rs
@@ -99,6 +99,7 @@ impl<K, V, S> Invalidator<K, V, S> {
         }
 
         if pred_map.is_empty() {
+            verif_pt!("invalidator.before_empty");
             self.is_empty.store(true, Ordering::Release);
         }
     }
@@ -194,6 +195,7 @@ impl<K, V, S> Invalidator<K, V, S> {
             newest_timestamp = Some(ts);
         }
 
+        verif_pt!("invalidator.scanned");
         self.remove_finished_predicates(predicates, is_truncated, newest_timestamp);
 
         (invalidated, self.predicates.is_empty())
@@ -262,6 +264,7 @@ where
         }
 
         if pred_map.is_empty() {
+            verif_pt!("invalidator.before_empty");
             self.is_empty.store(true, Ordering::Release);
         }
     }
diff --git a/src/sync/key_lock.rs b/src/sync/key_lock.rs
index bde1912..44f6195 100644
--- a/src/sync/key_lock.rs
+++ b/src/sync/key_lock.rs
@@ -30,6 +30,7 @@ where
 {
     fn drop(&mut self) {
         if MiniArc::count(&self.lock) <= 2 {
+            verif_pt!("key_lock.drop");
             self.map.remove_if(
                 self.hash,
                 |k| k == &self.key,
diff --git a/src/sync/value_initializer.rs b/src/sync/value_initializer.rs
index 42d02a1..0fda439 100644
--- a/src/sync/value_initializer.rs
+++ b/src/sync/value_initializer.rs
@@ -107,6 +107,7 @@ where
             };
 
             // Somebody else's waiter already exists, so wait for its result to become available.
+            verif_pt!("init.waiter_found");
             let waiter_result = existing_waiter.read();
             match &*waiter_result {
                 WaiterValue::Ready(Ok(value)) => return ReadExisting(value.clone()),
@@ -133,6 +134,7 @@ where
 
         // Our waiter was inserted.
 
+        verif_pt!("init.waiter_inserted");
         // Check if the value has already been inserted by other thread.
         if let Some(value) = get() {
             // Yes. Set the waiter value, remove our waiter, and return
@@ -145,12 +147,15 @@ where
         // The value still does note exist. Let's evaluate the init
         // closure. Catching panic is safe here as we do not try to
         // evaluate the closure again.
+        verif_pt!("init.before_init");
         match catch_unwind(AssertUnwindSafe(init)) {
             // Evaluated.
             Ok(value) => {
                 let init_res = match post_init(value) {
                     Ok(value) => {
+                        verif_pt!("init.before_insert");
                         insert(value.clone());
+                        verif_pt!("init.inserted");
                         *lock = WaiterValue::Ready(Ok(value.clone()));
                         InitResult::Initialized(value)
                     }
@@ -208,6 +213,7 @@ where
 
             // Somebody else's waiter already exists, so wait for it to finish
             // (wait for it to release the write lock).
+            verif_pt!("init.waiter_found");
             let waiter_result = existing_waiter.read();
             match &*waiter_result {
                 // Unexpected state.
@@ -224,6 +230,7 @@ where
 
         // Our waiter was inserted.
 
+        verif_pt!("compute.waiter_inserted");
         // Get the current value.
         let ignore_if = None as Option<&mut fn(&V) -> bool>;
         let maybe_entry = cache
@@ -253,6 +260,7 @@ where
             }
         };
 
+        verif_pt!("compute.evaluated");
         let op = match post_init(output) {
             Ok(op) => op,
             Err(e) => {
@@ -360,7 +368,9 @@ where
 
     #[inline]
     fn remove_waiter(&self, w_key: (Arc<K>, TypeId), w_hash: u64) {
+        verif_pt!("waiter.before_remove");
         self.waiters.remove(w_hash, |k| k == &w_key);
+        verif_pt!("waiter.removed");
     }
 
     #[inline]
-- 
2.43.0


From 69eb7bf4418609e394a110d6a6fb32bd47a7aa53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:49 +0000
Subject: [PATCH 03/22] fix: pass need_key in
 get_or_try_insert_with_hash_by_ref_and_fun

The entry returned from entry_by_ref(..).or_try_insert_with(..) had no key when the
value already existed, so Entry::key() panicked.
---
 src/sync/cache.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sync/cache.rs b/src/sync/cache.rs
index 908b8ec..93eb522 100644
--- a/src/sync/cache.rs
+++ b/src/sync/cache.rs
@@ -1419,7 +1419,7 @@ where
         E: Send + Sync + 'static,
         Q: Equivalent<K> + ToOwned<Owned = K> + Hash + ?Sized,
     {
-        if let Some(entry) = self.get_with_hash(key, hash, false) {
+        if let Some(entry) = self.get_with_hash(key, hash, need_key) {
             return Ok(entry);
         }
 
-- 
2.43.0


From 6a895c62d941aa0fe37edd0324ac3cf519e200a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:19 +0000
Subject: [PATCH 04/22] fix: or_insert_with_if reports replacement and ignores
 dead values in replace_if

---
 src/future/base_cache.rs | 10 +++-------
 src/future/cache.rs      | 13 +++++++++++--
 src/sync/base_cache.rs   | 10 +++-------
 src/sync/cache.rs        | 10 +++++++++-
 4 files changed, 26 insertions(+), 17 deletions(-)

diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index f7c297b..9f10210 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -265,13 +265,6 @@ where
         let maybe_kv_and_op = self
             .inner
             .get_key_value_and_then(key, hash, move |k, entry| {
-                if let Some(ignore_if) = &mut ignore_if {
-                    if ignore_if(&entry.value) {
-                        // Ignore the entry.
-                        return None;
-                    }
-                }
-
                 let i = &self.inner;
                 let (ttl, tti, va) = (&i.time_to_live(), &i.time_to_idle(), &i.valid_after());
 
@@ -282,6 +275,9 @@ where
                 {
                     // Expired or invalidated entry.
                     None
+                } else if ignore_if.as_mut().map_or(false, |f| f(&entry.value)) {
+                    // Ignore the entry.
+                    None
                 } else {
                     // Valid entry.
                     let mut is_expiry_modified = false;
diff --git a/src/future/cache.rs b/src/future/cache.rs
index 0586f61..a08c2a2 100644
--- a/src/future/cache.rs
+++ b/src/future/cache.rs
@@ -1572,9 +1572,18 @@ where
         key: Arc<K>,
         hash: u64,
         init: Pin<&mut impl Future<Output = V>>,
-        replace_if: Option<impl FnMut(&V) -> bool + Send>,
+        mut replace_if: Option<impl FnMut(&V) -> bool + Send>,
         need_key: bool,
     ) -> Entry<K, V> {
+        // Becomes `true` if `replace_if` rejected the existing value.
+        let mut is_replaced = false;
+        let replace_if = replace_if.as_mut().map(|f| {
+            |v: &V| {
+                is_replaced = f(v);
+                is_replaced
+            }
+        });
+
         let k = if need_key {
             Some(Arc::clone(&key))
         } else {
@@ -1591,7 +1600,7 @@ where
         {
             InitResult::Initialized(v) => {
                 crossbeam_epoch::pin().flush();
-                Entry::new(k, v, true, false)
+                Entry::new(k, v, true, is_replaced)
             }
             InitResult::ReadExisting(v) => Entry::new(k, v, false, false),
             InitResult::InitErr(_) => unreachable!(),
diff --git a/src/sync/base_cache.rs b/src/sync/base_cache.rs
index db669bd..c5085fd 100644
--- a/src/sync/base_cache.rs
+++ b/src/sync/base_cache.rs
@@ -284,13 +284,6 @@ where
         let maybe_entry = self
             .inner
             .get_key_value_and_then(key, hash, move |k, entry| {
-                if let Some(ignore_if) = &mut ignore_if {
-                    if ignore_if(&entry.value) {
-                        // Ignore the entry.
-                        return None;
-                    }
-                }
-
                 let i = &self.inner;
                 let (ttl, tti, va) = (&i.time_to_live(), &i.time_to_idle(), &i.valid_after());
 
@@ -301,6 +294,9 @@ where
                 {
                     // Expired or invalidated entry.
                     None
+                } else if ignore_if.as_mut().map_or(false, |f| f(&entry.value)) {
+                    // Ignore the entry.
+                    None
                 } else {
                     // Valid entry.
                     let maybe_key = if need_key { Some(Arc::clone(k)) } else { None };
diff --git a/src/sync/cache.rs b/src/sync/cache.rs
index 93eb522..875b4cc 100644
--- a/src/sync/cache.rs
+++ b/src/sync/cache.rs
@@ -1026,6 +1026,14 @@ where
         mut replace_if: Option<impl FnMut(&V) -> bool>,
         need_key: bool,
     ) -> Entry<K, V> {
+        // Becomes `true` if `replace_if` rejected the existing value.
+        let mut is_replaced = false;
+        let mut replace_if = replace_if.as_mut().map(|f| {
+            |v: &V| {
+                is_replaced = f(v);
+                is_replaced
+            }
+        });
         let get = || {
             self.base
                 .get_with_hash_without_recording(&*key, hash, replace_if.as_mut())
@@ -1047,7 +1055,7 @@ where
         {
             InitResult::Initialized(v) => {
                 crossbeam_epoch::pin().flush();
-                Entry::new(k, v, true, false)
+                Entry::new(k, v, true, is_replaced)
             }
             InitResult::ReadExisting(v) => Entry::new(k, v, false, false),
             InitResult::InitErr(_) => unreachable!(),
-- 
2.43.0


From f0482d00956cded7fdbf4ce3e425bd18c1d1db78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:52 +0000
Subject: [PATCH 05/22] fix: keep late write ops from reviving removed entries
 and skewing the weight

---
 src/common/concurrent.rs            |  5 ----
 src/common/concurrent/entry_info.rs | 42 ++++++++++++++++++++++++++++-
 src/future/base_cache.rs            | 33 +++++++++++++++--------
 src/sync/base_cache.rs              | 33 +++++++++++++++--------
 4 files changed, 85 insertions(+), 28 deletions(-)

diff --git a/src/common/concurrent.rs b/src/common/concurrent.rs
index eb8fec4..133e9d5 100644
--- a/src/common/concurrent.rs
+++ b/src/common/concurrent.rs
@@ -315,7 +315,6 @@ pub(crate) enum WriteOp<K, V> {
         value_entry: MiniArc<ValueEntry<K, V>>,
         /// Entry generation after the operation.
         entry_gen: u16,
-        old_weight: u32,
         new_weight: u32,
     },
     Remove {
@@ -333,13 +332,11 @@ impl<K, V> Clone for WriteOp<K, V> {
                 key_hash,
                 value_entry,
                 entry_gen,
-                old_weight,
                 new_weight,
             } => Self::Upsert {
                 key_hash: key_hash.clone(),
                 value_entry: MiniArc::clone(value_entry),
                 entry_gen: *entry_gen,
-                old_weight: *old_weight,
                 new_weight: *new_weight,
             },
             Self::Remove {
@@ -368,7 +365,6 @@ impl<K, V> WriteOp<K, V> {
         hash: u64,
         value_entry: &MiniArc<ValueEntry<K, V>>,
         entry_generation: u16,
-        old_weight: u32,
         new_weight: u32,
     ) -> Self {
         let key_hash = KeyHash::new(Arc::clone(key), hash);
@@ -377,7 +373,6 @@ impl<K, V> WriteOp<K, V> {
             key_hash,
             value_entry,
             entry_gen: entry_generation,
-            old_weight,
             new_weight,
         }
     }
diff --git a/src/common/concurrent/entry_info.rs b/src/common/concurrent/entry_info.rs
index 8791a0d..98ebc78 100644
--- a/src/common/concurrent/entry_info.rs
+++ b/src/common/concurrent/entry_info.rs
@@ -11,6 +11,10 @@ pub(crate) struct EntryInfo<K> {
     /// `false`, it means the entry is _temporary_ admitted to the cache or evicted
     /// from the cache (so it should not have LRU nodes).
     is_admitted: AtomicBool,
+    /// `is_removed` indicates that the entry has been removed from the concurrent
+    /// hash table, and the removal has been applied to the cache policies. A
+    /// `WriteOp` of the entry that arrives later must not admit the entry again.
+    is_removed: AtomicBool,
     /// `entry_gen` (entry generation) is incremented every time the entry is updated
     /// in the concurrent hash table.
     entry_gen: AtomicU16,
@@ -35,6 +39,9 @@ pub(crate) struct EntryInfo<K> {
     last_accessed: AtomicInstant,
     last_modified: AtomicInstant,
     policy_weight: AtomicU32,
+    /// The weight of the entry that is included in the weighted size of the cache.
+    /// While a `WriteOp` is pending, it can be different from the `policy_weight`.
+    counted_weight: AtomicU32,
 }
 
 impl<K> EntryInfo<K> {
@@ -46,6 +53,7 @@ impl<K> EntryInfo<K> {
         Self {
             key_hash,
             is_admitted: AtomicBool::default(),
+            is_removed: AtomicBool::default(),
             // `entry_gen` starts at 1 and `policy_gen` start at 0.
             entry_gen: AtomicU16::new(1),
             policy_gen: AtomicU16::new(0),
@@ -54,6 +62,7 @@ impl<K> EntryInfo<K> {
             last_accessed: AtomicInstant::new(timestamp),
             last_modified: AtomicInstant::new(timestamp),
             policy_weight: AtomicU32::new(policy_weight),
+            counted_weight: AtomicU32::new(0),
         }
     }
 
@@ -72,6 +81,16 @@ impl<K> EntryInfo<K> {
         self.is_admitted.store(value, Ordering::Release);
     }
 
+    #[inline]
+    pub(crate) fn is_removed(&self) -> bool {
+        self.is_removed.load(Ordering::Acquire)
+    }
+
+    #[inline]
+    pub(crate) fn set_removed(&self) {
+        self.is_removed.store(true, Ordering::Release);
+    }
+
     /// Returns `true` if the `ValueEntry` having this `EntryInfo` is dirty.
     ///
     /// Dirty means that the entry has been updated in the concurrent hash table but
@@ -98,6 +117,18 @@ impl<K> EntryInfo<K> {
         prev.wrapping_add(1)
     }
 
+    /// Returns `true` if the given generation is newer than the policy generation.
+    /// Note that the generations wrap around.
+    #[inline]
+    pub(crate) fn is_newer_than_policy_gen(&self, gen: u16) -> bool {
+        Self::is_newer_gen(gen, self.policy_gen.load(Ordering::Acquire))
+    }
+
+    #[inline]
+    fn is_newer_gen(gen: u16, current: u16) -> bool {
+        gen != current && gen.wrapping_sub(current) <= u16::MAX / 2
+    }
+
     /// Sets the policy generation to the given value.
     #[inline]
     pub(crate) fn set_policy_gen(&self, value: u16) {
@@ -109,7 +140,7 @@ impl<K> EntryInfo<K> {
             // `policy_gen`. Note that the current value may have been wrapped
             // around. If the value is much larger than the current value, it is
             // likely that the value of `policy_gen` has been wrapped around.
-            if current >= value || value.wrapping_sub(current) > u16::MAX / 2 {
+            if !Self::is_newer_gen(value, current) {
                 break;
             }
 
@@ -131,6 +162,15 @@ impl<K> EntryInfo<K> {
         self.policy_weight.store(size, Ordering::Release);
     }
 
+    #[inline]
+    pub(crate) fn counted_weight(&self) -> u32 {
+        self.counted_weight.load(Ordering::Acquire)
+    }
+
+    pub(crate) fn set_counted_weight(&self, size: u32) {
+        self.counted_weight.store(size, Ordering::Release);
+    }
+
     /// Atomically reads both `expiration_time` and `expiry_gen` as a single unit.
     /// Returns `(expiration_time, expiry_gen)` where expiration_time is None if unset.
     ///
diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index 9f10210..6cfc987 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -516,21 +516,19 @@ where
             // on_insert
             || {
                 let (entry, gen) = self.new_value_entry(&key, hash, value.clone(), ts, weight);
-                let ins_op = WriteOp::new_upsert(&key, hash, &entry, gen, 0, weight);
+                let ins_op = WriteOp::new_upsert(&key, hash, &entry, gen, weight);
                 let cnt = op_cnt1.fetch_add(1, Ordering::Relaxed);
                 op1 = Some((cnt, ins_op));
                 entry
             },
             // on_modify
             |_k, old_entry| {
-                let old_weight = old_entry.policy_weight();
-
                 // Create this OldEntryInfo _before_ creating a new ValueEntry, so
                 // that the OldEntryInfo can preserve the old EntryInfo's
                 // last_accessed and last_modified timestamps.
                 let old_info = OldEntryInfo::new(old_entry);
                 let (entry, gen) = self.new_value_entry_from(value.clone(), ts, weight, old_entry);
-                let upd_op = WriteOp::new_upsert(&key, hash, &entry, gen, old_weight, weight);
+                let upd_op = WriteOp::new_upsert(&key, hash, &entry, gen, weight);
                 let cnt = op_cnt2.fetch_add(1, Ordering::Relaxed);
                 op2 = Some((cnt, old_info, upd_op));
                 entry
@@ -1572,14 +1570,12 @@ where
                     key_hash: kh,
                     value_entry: entry,
                     entry_gen: gen,
-                    old_weight,
                     new_weight,
                 }) => {
                     self.handle_upsert(
                         kh,
                         entry,
                         gen,
-                        old_weight,
                         new_weight,
                         deqs,
                         timer_wheel,
@@ -1611,7 +1607,6 @@ where
         kh: KeyHash<K>,
         entry: MiniArc<ValueEntry<K, V>>,
         gen: u16,
-        old_weight: u32,
         new_weight: u32,
         deqs: &mut Deques<K>,
         timer_wheel: &mut TimerWheel<K>,
@@ -1623,10 +1618,21 @@ where
         {
             let counters = &mut eviction_state.counters;
 
+            if entry.entry_info().is_removed() {
+                // The entry has been removed before this op was received.
+                entry.entry_info().set_policy_gen(gen);
+                return;
+            }
+
             if entry.is_admitted() {
                 // The entry has been already admitted, so treat this as an update.
-                counters.saturating_sub(0, old_weight);
-                counters.saturating_add(0, new_weight);
+                // Do not count the weight if a newer update has been applied already.
+                let info = entry.entry_info();
+                if info.is_newer_than_policy_gen(gen) {
+                    counters.saturating_sub(0, info.counted_weight());
+                    counters.saturating_add(0, new_weight);
+                    info.set_counted_weight(new_weight);
+                }
                 self.update_timer_wheel(&entry, timer_wheel);
                 deqs.move_to_back_ao(&entry);
                 deqs.move_to_back_wo(&entry);
@@ -1665,6 +1671,7 @@ where
                     },
                 );
                 if let Some(entry) = removed {
+                    entry.entry_info().set_removed();
                     if eviction_state.is_notifier_enabled() {
                         let key = Arc::clone(&kh.key);
                         eviction_state
@@ -1773,6 +1780,7 @@ where
                 );
 
                 if let Some(entry) = removed {
+                    entry.entry_info().set_removed();
                     entry.entry_info().set_policy_gen(gen);
                     if eviction_state.is_notifier_enabled() {
                         eviction_state
@@ -1879,6 +1887,7 @@ where
     ) {
         verif_pt!("base.handle_admit");
         counters.saturating_add(1, policy_weight);
+        entry.entry_info().set_counted_weight(policy_weight);
 
         self.update_timer_wheel(entry, timer_wheel);
 
@@ -1981,10 +1990,11 @@ where
         gen: Option<u16>,
         counters: &mut EvictionCounters,
     ) {
+        entry.entry_info().set_removed();
         if entry.is_admitted() {
             entry.set_admitted(false);
             verif_pt!("base.handle_remove.unadmitted");
-            counters.saturating_sub(1, entry.policy_weight());
+            counters.saturating_sub(1, entry.entry_info().counted_weight());
             // The following two unlink_* functions will unset the deq nodes.
             deqs.unlink_ao(&entry);
             Deques::unlink_wo(&mut deqs.write_order, &entry);
@@ -2012,10 +2022,11 @@ where
             // taken (cleared) the timer_node, so we can ignore the return value.
             let _ = timer_wheel.deschedule(timer, expiry_gen);
         }
+        entry.entry_info().set_removed();
         if entry.is_admitted() {
             entry.set_admitted(false);
             verif_pt!("base.handle_remove.unadmitted");
-            counters.saturating_sub(1, entry.policy_weight());
+            counters.saturating_sub(1, entry.entry_info().counted_weight());
             // The following two unlink_* functions will unset the deq nodes.
             Deques::unlink_ao_from_deque(ao_deq_name, ao_deq, &entry);
             Deques::unlink_wo(wo_deq, &entry);
diff --git a/src/sync/base_cache.rs b/src/sync/base_cache.rs
index c5085fd..209316a 100644
--- a/src/sync/base_cache.rs
+++ b/src/sync/base_cache.rs
@@ -516,21 +516,19 @@ where
             // on_insert
             || {
                 let (entry, gen) = self.new_value_entry(&key, hash, value.clone(), ts, weight);
-                let ins_op = WriteOp::new_upsert(&key, hash, &entry, gen, 0, weight);
+                let ins_op = WriteOp::new_upsert(&key, hash, &entry, gen, weight);
                 let cnt = op_cnt1.fetch_add(1, Ordering::Relaxed);
                 op1 = Some((cnt, ins_op));
                 entry
             },
             // on_modify
             |_k, old_entry| {
-                let old_weight = old_entry.policy_weight();
-
                 // Create this OldEntryInfo _before_ creating a new ValueEntry, so
                 // that the OldEntryInfo can preserve the old EntryInfo's
                 // last_accessed and last_modified timestamps.
                 let old_info = OldEntryInfo::new(old_entry);
                 let (entry, gen) = self.new_value_entry_from(value.clone(), ts, weight, old_entry);
-                let upd_op = WriteOp::new_upsert(&key, hash, &entry, gen, old_weight, weight);
+                let upd_op = WriteOp::new_upsert(&key, hash, &entry, gen, weight);
                 let cnt = op_cnt2.fetch_add(1, Ordering::Relaxed);
                 op2 = Some((cnt, old_info, upd_op));
                 entry
@@ -1417,13 +1415,11 @@ where
                     key_hash: kh,
                     value_entry: entry,
                     entry_gen: gen,
-                    old_weight,
                     new_weight,
                 }) => self.handle_upsert(
                     kh,
                     entry,
                     gen,
-                    old_weight,
                     new_weight,
                     deqs,
                     timer_wheel,
@@ -1453,7 +1449,6 @@ where
         kh: KeyHash<K>,
         entry: MiniArc<ValueEntry<K, V>>,
         gen: u16,
-        old_weight: u32,
         new_weight: u32,
         deqs: &mut Deques<K>,
         timer_wheel: &mut TimerWheel<K>,
@@ -1465,10 +1460,21 @@ where
         {
             let counters = &mut eviction_state.counters;
 
+            if entry.entry_info().is_removed() {
+                // The entry has been removed before this op was received.
+                entry.entry_info().set_policy_gen(gen);
+                return;
+            }
+
             if entry.is_admitted() {
                 // The entry has been already admitted, so treat this as an update.
-                counters.saturating_sub(0, old_weight);
-                counters.saturating_add(0, new_weight);
+                // Do not count the weight if a newer update has been applied already.
+                let info = entry.entry_info();
+                if info.is_newer_than_policy_gen(gen) {
+                    counters.saturating_sub(0, info.counted_weight());
+                    counters.saturating_add(0, new_weight);
+                    info.set_counted_weight(new_weight);
+                }
                 self.update_timer_wheel(&entry, timer_wheel);
                 deqs.move_to_back_ao(&entry);
                 deqs.move_to_back_wo(&entry);
@@ -1503,6 +1509,7 @@ where
                     },
                 );
                 if let Some(entry) = removed {
+                    entry.entry_info().set_removed();
                     if eviction_state.is_notifier_enabled() {
                         let key = Arc::clone(&kh.key);
                         eviction_state.notify_entry_removal(key, &entry, RemovalCause::Size);
@@ -1603,6 +1610,7 @@ where
                 );
 
                 if let Some(entry) = removed {
+                    entry.entry_info().set_removed();
                     entry.entry_info().set_policy_gen(gen);
                     if eviction_state.is_notifier_enabled() {
                         eviction_state.notify_entry_removal(key, &entry, RemovalCause::Size);
@@ -1707,6 +1715,7 @@ where
     ) {
         verif_pt!("base.handle_admit");
         counters.saturating_add(1, policy_weight);
+        entry.entry_info().set_counted_weight(policy_weight);
 
         self.update_timer_wheel(entry, timer_wheel);
 
@@ -1810,10 +1819,11 @@ where
         gen: Option<u16>,
         counters: &mut EvictionCounters,
     ) {
+        entry.entry_info().set_removed();
         if entry.is_admitted() {
             entry.set_admitted(false);
             verif_pt!("base.handle_remove.unadmitted");
-            counters.saturating_sub(1, entry.policy_weight());
+            counters.saturating_sub(1, entry.entry_info().counted_weight());
             // The following two unlink_* functions will unset the deq nodes.
             deqs.unlink_ao(&entry);
             Deques::unlink_wo(&mut deqs.write_order, &entry);
@@ -1841,10 +1851,11 @@ where
             // taken (cleared) the timer_node, so we can ignore the return value.
             let _ = timer_wheel.deschedule(timer, expiry_gen);
         }
+        entry.entry_info().set_removed();
         if entry.is_admitted() {
             entry.set_admitted(false);
             verif_pt!("base.handle_remove.unadmitted");
-            counters.saturating_sub(1, entry.policy_weight());
+            counters.saturating_sub(1, entry.entry_info().counted_weight());
             // The following two unlink_* functions will unset the deq nodes.
             Deques::unlink_ao_from_deque(ao_deq_name, ao_deq, &entry);
             Deques::unlink_wo(wo_deq, &entry);
-- 
2.43.0


From 8bbf6d46024b43a2be8255df2faafcede4427db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:11 +0000
Subject: [PATCH 06/22] fix: expire by timer only the entry that the timer was
 set for

---
 src/future/base_cache.rs | 26 +++++++++++++++++---------
 src/sync/base_cache.rs   |  9 +++++++--
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index 6cfc987..5a239e4 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -1540,7 +1540,8 @@ where
                 }) => {
                     let kh = value_entry.entry_info().key_hash();
                     freq.increment(kh.hash);
-                    if is_expiry_modified {
+                    // If not admitted, the timer will be set when it is admitted.
+                    if is_expiry_modified && value_entry.is_admitted() {
                         self.update_timer_wheel(&value_entry, timer_wheel);
                     }
                     deqs.move_to_back_ao(&value_entry);
@@ -2049,22 +2050,21 @@ where
 
         // NOTE: When necessary, the iterator returned from advance() will unset the
         // timer node pointer in the `ValueEntry`, so we do not have to do it here.
-        let expired_keys = timer_wheel
+        let expired_entries = timer_wheel
             .advance(now)
             .filter_map(|event| {
                 // We do not have to do anything if event is `TimerEvent::Descheduled(_)`
                 // or `TimerEvent::Rescheduled(_)`.
                 if let TimerEvent::Expired(node) = event {
                     let entry_info = node.element.entry_info();
-                    let kh = entry_info.key_hash();
-                    Some((Arc::clone(&kh.key), kh.hash, entry_info.is_dirty()))
+                    Some((MiniArc::clone(entry_info), entry_info.is_dirty()))
                 } else {
                     None
                 }
             })
             .collect::<Vec<_>>();
 
-        // Process each expired key.
+        // Process each expired entry.
         //
         // If it is dirty or `cache.remove_if` returns `None`, we will skip it as it
         // may have been read, updated or invalidated by other thread.
@@ -2073,15 +2073,18 @@ where
         //   described above.
         // - When necessary, a new timer node will be recreated for the current or
         //   new `ValueEntry` when its `WriteOp` or `ReadOp` is processed.
-        for (key, hash, is_dirty) in expired_keys {
+        for (entry_info, is_dirty) in expired_entries {
             if is_dirty {
                 // Skip this entry as it has been updated or invalidated by other
                 // thread.
                 continue;
             }
 
+            let KeyHash { key, hash } = entry_info.key_hash();
+            let hash = *hash;
+
             // Lock the key for removal if blocking removal notification is enabled.
-            let kl = self.maybe_key_lock(&key);
+            let kl = self.maybe_key_lock(key);
             let _klg = if let Some(lock) = &kl {
                 Some(lock.lock().await)
             } else {
@@ -2092,12 +2095,17 @@ where
             verif_pt!("base.evict.before_remove");
             let maybe_entry = self.cache.remove_if(
                 hash,
-                |k| k == &key,
-                |_, v| is_expired_by_per_entry_ttl(v.entry_info(), now),
+                |k| k == key,
+                |_, v| {
+                    MiniArc::ptr_eq(v.entry_info(), &entry_info)
+                        && !v.is_dirty()
+                        && is_expired_by_per_entry_ttl(v.entry_info(), now)
+                },
             );
 
             if let Some(entry) = maybe_entry {
                 if eviction_state.is_notifier_enabled() {
+                    let key = Arc::clone(key);
                     eviction_state
                         .notify_entry_removal(key, &entry, RemovalCause::Expired)
                         .await;
diff --git a/src/sync/base_cache.rs b/src/sync/base_cache.rs
index 209316a..b74c806 100644
--- a/src/sync/base_cache.rs
+++ b/src/sync/base_cache.rs
@@ -1385,7 +1385,8 @@ where
                 }) => {
                     let kh = value_entry.entry_info().key_hash();
                     freq.increment(kh.hash);
-                    if is_expiry_modified {
+                    // If not admitted, the timer will be set when it is admitted.
+                    if is_expiry_modified && value_entry.is_admitted() {
                         self.update_timer_wheel(&value_entry, timer_wheel);
                     }
                     deqs.move_to_back_ao(&value_entry);
@@ -1913,7 +1914,11 @@ where
                 let maybe_entry = self.cache.remove_if(
                     hash,
                     |k| k == key,
-                    |_, v| is_expired_by_per_entry_ttl(v.entry_info(), now),
+                    |_, v| {
+                        MiniArc::ptr_eq(v.entry_info(), entry_info)
+                            && !v.is_dirty()
+                            && is_expired_by_per_entry_ttl(v.entry_info(), now)
+                    },
                 );
 
                 if let Some(entry) = maybe_entry {
-- 
2.43.0


From e6488335d41785c2bf85265e90517437b70be660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:58 +0000
Subject: [PATCH 07/22] fix: invalidate_entries_if misses entries when its scan
 is resumed or overtaken

---
 src/common/deque.rs       |  6 ++++++
 src/future/base_cache.rs  | 45 +++++++++++++++++++--------------------
 src/future/invalidator.rs | 31 +++++++++++++++++++++------
 src/sync/base_cache.rs    | 45 +++++++++++++++++++--------------------
 src/sync/invalidator.rs   | 31 +++++++++++++++++++++------
 5 files changed, 100 insertions(+), 58 deletions(-)

diff --git a/src/common/deque.rs b/src/common/deque.rs
index 0f25cfb..96842dc 100644
--- a/src/common/deque.rs
+++ b/src/common/deque.rs
@@ -279,6 +279,12 @@ impl<T> Deque<T> {
     pub(crate) fn reset_cursor(&mut self) {
         self.cursor = None;
     }
+
+    /// Returns `true` if the cursor points to a node, which will be returned by the
+    /// next call of `next`.
+    pub(crate) fn has_cursor_node(&self) -> bool {
+        matches!(self.cursor, Some(DeqCursor::Node(_)))
+    }
 }
 
 impl<'a, T> Iterator for &'a mut Deque<T> {
diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index 5a239e4..e625757 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -1320,6 +1320,7 @@ where
             None
         };
         let mut should_process_logs = true;
+        let mut logs_applied_at = self.current_time();
         let mut calls = 0u32;
         let current_ec = self.entry_count.load();
         let current_ws = self.weighted_size.load();
@@ -1328,6 +1329,8 @@ where
 
         loop {
             if should_process_logs {
+                logs_applied_at = self.current_time();
+
                 let r_len = self.read_op_ch.len();
                 if r_len > 0 {
                     self.apply_reads(&mut deqs, &mut timer_wheel, r_len).await;
@@ -1394,6 +1397,7 @@ where
                 if !invalidator.is_empty() {
                     self.invalidate_entries(
                         invalidator,
+                        logs_applied_at,
                         &mut deqs,
                         &mut timer_wheel,
                         eviction_batch_size,
@@ -2397,6 +2401,7 @@ where
     async fn invalidate_entries(
         &self,
         invalidator: &Invalidator<K, V, S>,
+        logs_applied_at: Instant,
         deqs: &mut Deques<K>,
         timer_wheel: &mut TimerWheel<K>,
         batch_size: u32,
@@ -2404,47 +2409,41 @@ where
     ) where
         V: Clone,
     {
-        let now = self.current_time();
-
         verif_pt!("base.invalidate_entries");
         // If the write order queue is empty, we are done and can remove the predicates
-        // that have been registered by now.
+        // that had been registered when the write ops were applied.
         if deqs.write_order.len() == 0 {
-            invalidator.remove_predicates_registered_before(now);
+            invalidator.remove_predicates_registered_before(logs_applied_at);
             return;
         }
 
         let mut candidates = Vec::default();
         let mut len = 0;
-        let has_next;
-        {
-            let iter = &mut deqs.write_order.peekable();
-
-            while len < batch_size {
-                if let Some(kd) = iter.next() {
-                    if !kd.is_dirty() {
-                        if let Some(ts) = kd.last_modified() {
-                            let key = kd.key();
-                            let hash = self.hash(&**key);
-                            candidates.push(KeyDateLite::new(key, hash, ts));
-                            len += 1;
-                        }
+
+        while len < batch_size {
+            if let Some(kd) = (&mut deqs.write_order).next() {
+                if !kd.is_dirty() {
+                    if let Some(ts) = kd.last_modified() {
+                        let key = kd.key();
+                        let hash = self.hash(&**key);
+                        candidates.push(KeyDateLite::new(key, hash, ts));
+                        len += 1;
                     }
-                } else {
-                    break;
                 }
+            } else {
+                break;
             }
-
-            has_next = iter.peek().is_some();
         }
 
+        let is_truncated = len == batch_size && deqs.write_order.has_cursor_node();
+
         if len == 0 {
+            deqs.write_order.reset_cursor();
             return;
         }
 
-        let is_truncated = len == batch_size && has_next;
         let (invalidated, is_done) = invalidator
-            .scan_and_invalidate(self, candidates, is_truncated)
+            .scan_and_invalidate(self, candidates, is_truncated, logs_applied_at)
             .await;
 
         for KvEntry { key: _key, entry } in invalidated {
diff --git a/src/future/invalidator.rs b/src/future/invalidator.rs
index e50fd29..071e51b 100644
--- a/src/future/invalidator.rs
+++ b/src/future/invalidator.rs
@@ -100,7 +100,11 @@ impl<K, V, S> Invalidator<K, V, S> {
 
         if pred_map.is_empty() {
             verif_pt!("invalidator.before_empty");
-            self.is_empty.store(true, Ordering::Release);
+            self.is_empty.swap(true, Ordering::AcqRel);
+            // Another thread may have registered a predicate in the meantime.
+            if !pred_map.is_empty() {
+                self.is_empty.store(false, Ordering::Release);
+            }
         }
     }
 
@@ -166,6 +170,7 @@ impl<K, V, S> Invalidator<K, V, S> {
         cache: &Inner<K, V, S>,
         candidates: Vec<KeyDateLite<K>>,
         is_truncated: bool,
+        logs_applied_at: Instant,
     ) -> (Vec<KvEntry<K, V>>, bool)
     where
         K: Hash + Eq + Send + Sync + 'static,
@@ -174,7 +179,14 @@ impl<K, V, S> Invalidator<K, V, S> {
     {
         let mut predicates = self.scan_context.predicates.lock().await;
         if predicates.is_empty() {
-            *predicates = self.predicates.iter().map(|(_k, v)| v).collect();
+            // Leave the predicates registered after the write ops were applied, as
+            // the entries inserted before them may not be in the write order queue.
+            *predicates = self
+                .predicates
+                .iter()
+                .map(|(_k, v)| v)
+                .filter(|p| p.registered_at <= logs_applied_at)
+                .collect();
         }
 
         let mut invalidated = Vec::default();
@@ -196,9 +208,9 @@ impl<K, V, S> Invalidator<K, V, S> {
         }
 
         verif_pt!("invalidator.scanned");
-        self.remove_finished_predicates(predicates, is_truncated, newest_timestamp);
+        let is_done = self.remove_finished_predicates(predicates, is_truncated, newest_timestamp);
 
-        (invalidated, self.predicates.is_empty())
+        (invalidated, is_done)
     }
 }
 
@@ -223,12 +235,14 @@ where
         false
     }
 
+    /// Returns `true` if no predicates are left in the scan context.
     fn remove_finished_predicates(
         &self,
         mut predicates: MutexGuard<'_, Vec<Predicate<K, V>>>,
         is_truncated: bool,
         newest_timestamp: Option<Instant>,
-    ) where
+    ) -> bool
+    where
         K: Hash + Eq,
         S: BuildHasher,
     {
@@ -250,6 +264,7 @@ where
             self.remove_predicates(predicates);
             predicates.clear();
         }
+        predicates.is_empty()
     }
 
     fn remove_predicates(&self, predicates: &[Predicate<K, V>])
@@ -265,7 +280,11 @@ where
 
         if pred_map.is_empty() {
             verif_pt!("invalidator.before_empty");
-            self.is_empty.store(true, Ordering::Release);
+            self.is_empty.swap(true, Ordering::AcqRel);
+            // Another thread may have registered a predicate in the meantime.
+            if !pred_map.is_empty() {
+                self.is_empty.store(false, Ordering::Release);
+            }
         }
     }
 
diff --git a/src/sync/base_cache.rs b/src/sync/base_cache.rs
index b74c806..5321f09 100644
--- a/src/sync/base_cache.rs
+++ b/src/sync/base_cache.rs
@@ -1188,6 +1188,7 @@ where
             None
         };
         let mut should_process_logs = true;
+        let mut logs_applied_at = self.current_time();
         let mut calls = 0u32;
         let current_ec = self.entry_count.load();
         let current_ws = self.weighted_size.load();
@@ -1196,6 +1197,8 @@ where
 
         loop {
             if should_process_logs {
+                logs_applied_at = self.current_time();
+
                 let r_len = self.read_op_ch.len();
                 if r_len > 0 {
                     self.apply_reads(&mut deqs, &mut timer_wheel, r_len);
@@ -1249,6 +1252,7 @@ where
                 if !invalidator.is_empty() {
                     self.invalidate_entries(
                         invalidator,
+                        logs_applied_at,
                         &mut deqs,
                         &mut timer_wheel,
                         eviction_batch_size,
@@ -2190,6 +2194,7 @@ where
     fn invalidate_entries(
         &self,
         invalidator: &Invalidator<K, V, S>,
+        logs_applied_at: Instant,
         deqs: &mut Deques<K>,
         timer_wheel: &mut TimerWheel<K>,
         batch_size: u32,
@@ -2197,47 +2202,41 @@ where
     ) where
         V: Clone,
     {
-        let now = self.current_time();
-
         verif_pt!("base.invalidate_entries");
         // If the write order queue is empty, we are done and can remove the predicates
-        // that have been registered by now.
+        // that had been registered when the write ops were applied.
         if deqs.write_order.len() == 0 {
-            invalidator.remove_predicates_registered_before(now);
+            invalidator.remove_predicates_registered_before(logs_applied_at);
             return;
         }
 
         let mut candidates = Vec::new();
         let mut len = 0;
-        let has_next;
-        {
-            let iter = &mut deqs.write_order.peekable();
-
-            while len < batch_size {
-                if let Some(kd) = iter.next() {
-                    if !kd.is_dirty() {
-                        if let Some(ts) = kd.last_modified() {
-                            let key = kd.key();
-                            let hash = self.hash(&**key);
-                            candidates.push(KeyDateLite::new(key, hash, ts));
-                            len += 1;
-                        }
+
+        while len < batch_size {
+            if let Some(kd) = (&mut deqs.write_order).next() {
+                if !kd.is_dirty() {
+                    if let Some(ts) = kd.last_modified() {
+                        let key = kd.key();
+                        let hash = self.hash(&**key);
+                        candidates.push(KeyDateLite::new(key, hash, ts));
+                        len += 1;
                     }
-                } else {
-                    break;
                 }
+            } else {
+                break;
             }
-
-            has_next = iter.peek().is_some();
         }
 
+        let is_truncated = len == batch_size && deqs.write_order.has_cursor_node();
+
         if len == 0 {
+            deqs.write_order.reset_cursor();
             return;
         }
 
-        let is_truncated = len == batch_size && has_next;
         let (invalidated, is_done) =
-            invalidator.scan_and_invalidate(self, candidates, is_truncated);
+            invalidator.scan_and_invalidate(self, candidates, is_truncated, logs_applied_at);
 
         for KvEntry { key: _key, entry } in invalidated {
             Self::handle_remove(deqs, timer_wheel, entry, None, &mut eviction_state.counters);
diff --git a/src/sync/invalidator.rs b/src/sync/invalidator.rs
index 00e389e..1f44160 100644
--- a/src/sync/invalidator.rs
+++ b/src/sync/invalidator.rs
@@ -100,7 +100,11 @@ impl<K, V, S> Invalidator<K, V, S> {
 
         if pred_map.is_empty() {
             verif_pt!("invalidator.before_empty");
-            self.is_empty.store(true, Ordering::Release);
+            self.is_empty.swap(true, Ordering::AcqRel);
+            // Another thread may have registered a predicate in the meantime.
+            if !pred_map.is_empty() {
+                self.is_empty.store(false, Ordering::Release);
+            }
         }
     }
 
@@ -166,6 +170,7 @@ impl<K, V, S> Invalidator<K, V, S> {
         cache: &Inner<K, V, S>,
         candidates: Vec<KeyDateLite<K>>,
         is_truncated: bool,
+        logs_applied_at: Instant,
     ) -> (Vec<KvEntry<K, V>>, bool)
     where
         K: Hash + Eq + Send + Sync + 'static,
@@ -174,7 +179,14 @@ impl<K, V, S> Invalidator<K, V, S> {
     {
         let mut predicates = self.scan_context.predicates.lock();
         if predicates.is_empty() {
-            *predicates = self.predicates.iter().map(|(_k, v)| v).collect();
+            // Leave the predicates registered after the write ops were applied, as
+            // the entries inserted before them may not be in the write order queue.
+            *predicates = self
+                .predicates
+                .iter()
+                .map(|(_k, v)| v)
+                .filter(|p| p.registered_at <= logs_applied_at)
+                .collect();
         }
 
         let mut invalidated = Vec::default();
@@ -196,9 +208,9 @@ impl<K, V, S> Invalidator<K, V, S> {
         }
 
         verif_pt!("invalidator.scanned");
-        self.remove_finished_predicates(predicates, is_truncated, newest_timestamp);
+        let is_done = self.remove_finished_predicates(predicates, is_truncated, newest_timestamp);
 
-        (invalidated, self.predicates.is_empty())
+        (invalidated, is_done)
     }
 }
 
@@ -223,12 +235,14 @@ where
         false
     }
 
+    /// Returns `true` if no predicates are left in the scan context.
     fn remove_finished_predicates(
         &self,
         mut predicates: MutexGuard<'_, Vec<Predicate<K, V>>>,
         is_truncated: bool,
         newest_timestamp: Option<Instant>,
-    ) where
+    ) -> bool
+    where
         K: Hash + Eq,
         S: BuildHasher,
     {
@@ -250,6 +264,7 @@ where
             self.remove_predicates(predicates);
             predicates.clear();
         }
+        predicates.is_empty()
     }
 
     fn remove_predicates(&self, predicates: &[Predicate<K, V>])
@@ -265,7 +280,11 @@ where
 
         if pred_map.is_empty() {
             verif_pt!("invalidator.before_empty");
-            self.is_empty.store(true, Ordering::Release);
+            self.is_empty.swap(true, Ordering::AcqRel);
+            // Another thread may have registered a predicate in the meantime.
+            if !pred_map.is_empty() {
+                self.is_empty.store(false, Ordering::Release);
+            }
         }
     }
 
-- 
2.43.0


From 0c47a7cd4df1975d7acfed45193a570ab285521d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:08 +0000
Subject: [PATCH 08/22] fix: make key locks exclusive when a lock is dropped or
 a key appears concurrently

---
 src/common/concurrent/arc.rs |  1 +
 src/future/cache.rs          | 25 ++++------
 src/future/key_lock.rs       | 89 ++++++++++++++++++++++++++++++------
 src/sync/cache.rs            | 17 ++-----
 src/sync/key_lock.rs         | 89 ++++++++++++++++++++++++++++++------
 5 files changed, 165 insertions(+), 56 deletions(-)

diff --git a/src/common/concurrent/arc.rs b/src/common/concurrent/arc.rs
index 0e70664..b75ef4a 100644
--- a/src/common/concurrent/arc.rs
+++ b/src/common/concurrent/arc.rs
@@ -73,6 +73,7 @@ impl<T> MiniArc<T> {
 
 impl<T: ?Sized> MiniArc<T> {
     /// Gets the number of [`MiniArc`] pointers to this allocation
+    #[cfg(test)]
     pub(crate) fn count(this: &Self) -> u32 {
         use atomic::Ordering::Acquire;
 
diff --git a/src/future/cache.rs b/src/future/cache.rs
index a08c2a2..95b5c86 100644
--- a/src/future/cache.rs
+++ b/src/future/cache.rs
@@ -1948,22 +1948,15 @@ where
         if self.base.is_removal_notifier_enabled() {
             // To lock the key, we have to get Arc<K> for key (&Q).
             //
-            // TODO: Enhance this if possible. This is rather hack now because
-            // it cannot prevent race conditions like this:
-            //
-            // 1. We miss the key because it does not exist. So we do not lock
-            //    the key.
-            // 2. Somebody else (other thread) inserts the key.
-            // 3. We remove the entry for the key, but without the key lock!
-            //
-            if let Some(arc_key) = self.base.get_key_with_hash(key, hash) {
-                kl = self.base.maybe_key_lock(&arc_key);
-                klg = if let Some(lock) = &kl {
-                    Some(lock.lock().await)
-                } else {
-                    None
-                };
-            }
+            // If the key does not exist, there is nothing to remove. We must not try
+            // to remove an entry inserted after this, as we do not have its lock.
+            let arc_key = self.base.get_key_with_hash(key, hash)?;
+            kl = self.base.maybe_key_lock(&arc_key);
+            klg = if let Some(lock) = &kl {
+                Some(lock.lock().await)
+            } else {
+                None
+            };
         }
 
         verif_pt!("cache.invalidate.before_remove");
diff --git a/src/future/key_lock.rs b/src/future/key_lock.rs
index e1c3a06..e985ba0 100644
--- a/src/future/key_lock.rs
+++ b/src/future/key_lock.rs
@@ -1,6 +1,9 @@
 use std::{
     hash::{BuildHasher, Hash},
-    sync::Arc,
+    sync::{
+        atomic::{AtomicUsize, Ordering},
+        Arc,
+    },
 };
 
 use crate::{cht::SegmentedHashMap, common::concurrent::arc::MiniArc};
@@ -9,7 +12,53 @@ use async_lock::{Mutex, MutexGuard};
 
 const LOCK_MAP_NUM_SEGMENTS: usize = 64;
 
-type LockMap<K, S> = SegmentedHashMap<Arc<K>, MiniArc<Mutex<()>>, S>;
+type LockMap<K, S> = SegmentedHashMap<Arc<K>, MiniArc<Lock>, S>;
+
+struct Lock {
+    mutex: Mutex<()>,
+    /// The number of `KeyLock`s using this lock, or `RETIRED` if this lock is no
+    /// longer usable because it is being removed from the lock map.
+    users: AtomicUsize,
+}
+
+impl Lock {
+    const RETIRED: usize = usize::MAX;
+
+    /// Creates a lock with one user.
+    fn new() -> Self {
+        Self {
+            mutex: Mutex::new(()),
+            users: AtomicUsize::new(1),
+        }
+    }
+
+    /// Adds a user. Returns `false` if this lock is retired.
+    fn try_add_user(&self) -> bool {
+        let mut n = self.users.load(Ordering::Acquire);
+        while n != Self::RETIRED {
+            match self.users.compare_exchange_weak(
+                n,
+                n + 1,
+                Ordering::AcqRel,
+                Ordering::Acquire,
+            ) {
+                Ok(_) => return true,
+                Err(actual) => n = actual,
+            }
+        }
+        false
+    }
+
+    /// Removes a user. Returns `true` if there was no other user, and now this lock
+    /// is retired.
+    fn remove_user(&self) -> bool {
+        self.users.fetch_sub(1, Ordering::AcqRel) == 1
+            && self
+                .users
+                .compare_exchange(0, Self::RETIRED, Ordering::AcqRel, Ordering::Acquire)
+                .is_ok()
+    }
+}
 
 // We need the `where` clause here because of the Drop impl.
 pub(crate) struct KeyLock<'a, K, S>
@@ -20,7 +69,7 @@ where
     map: &'a LockMap<K, S>,
     key: Arc<K>,
     hash: u64,
-    lock: MiniArc<Mutex<()>>,
+    lock: MiniArc<Lock>,
 }
 
 impl<K, S> Drop for KeyLock<'_, K, S>
@@ -29,12 +78,12 @@ where
     S: BuildHasher,
 {
     fn drop(&mut self) {
-        if MiniArc::count(&self.lock) <= 2 {
+        if self.lock.remove_user() {
             verif_pt!("key_lock.drop");
             self.map.remove_if(
                 self.hash,
                 |k| k == &self.key,
-                |_k, v| MiniArc::count(v) <= 2,
+                |_k, v| MiniArc::ptr_eq(v, &self.lock),
             );
         }
     }
@@ -45,7 +94,7 @@ where
     K: Eq + Hash,
     S: BuildHasher,
 {
-    fn new(map: &'a LockMap<K, S>, key: &Arc<K>, hash: u64, lock: MiniArc<Mutex<()>>) -> Self {
+    fn new(map: &'a LockMap<K, S>, key: &Arc<K>, hash: u64, lock: MiniArc<Lock>) -> Self {
         Self {
             map,
             key: Arc::clone(key),
@@ -56,7 +105,7 @@ where
 
     pub(crate) async fn lock(&self) -> MutexGuard<'_, ()> {
         verif_apt!("key_lock.before_lock");
-        self.lock.lock().await
+        self.lock.mutex.lock().await
     }
 }
 
@@ -77,13 +126,25 @@ where
 
     pub(crate) fn key_lock(&self, key: &Arc<K>) -> KeyLock<'_, K, S> {
         let hash = self.locks.hash(key);
-        let kl = MiniArc::new(Mutex::new(()));
-        match self
-            .locks
-            .insert_if_not_present(Arc::clone(key), hash, kl.clone())
-        {
-            None => KeyLock::new(&self.locks, key, hash, kl),
-            Some(existing_kl) => KeyLock::new(&self.locks, key, hash, existing_kl),
+        let kl = MiniArc::new(Lock::new());
+        loop {
+            match self
+                .locks
+                .insert_if_not_present(Arc::clone(key), hash, kl.clone())
+            {
+                None => return KeyLock::new(&self.locks, key, hash, kl),
+                Some(existing_kl) if existing_kl.try_add_user() => {
+                    return KeyLock::new(&self.locks, key, hash, existing_kl)
+                }
+                Some(retired_kl) => {
+                    // Its last user may not have removed it from the map yet.
+                    self.locks.remove_if(
+                        hash,
+                        |k| k == key,
+                        |_k, v| MiniArc::ptr_eq(v, &retired_kl),
+                    );
+                }
+            }
         }
     }
 }
diff --git a/src/sync/cache.rs b/src/sync/cache.rs
index 875b4cc..839d735 100644
--- a/src/sync/cache.rs
+++ b/src/sync/cache.rs
@@ -1593,18 +1593,11 @@ where
         if self.base.is_removal_notifier_enabled() {
             // To lock the key, we have to get Arc<K> for key (&Q).
             //
-            // TODO: Enhance this if possible. This is rather hack now because
-            // it cannot prevent race conditions like this:
-            //
-            // 1. We miss the key because it does not exist. So we do not lock
-            //    the key.
-            // 2. Somebody else (other thread) inserts the key.
-            // 3. We remove the entry for the key, but without the key lock!
-            //
-            if let Some(arc_key) = self.base.get_key_with_hash(key, hash) {
-                kl = self.base.maybe_key_lock(&arc_key);
-                klg = kl.as_ref().map(|kl| kl.lock());
-            }
+            // If the key does not exist, there is nothing to remove. We must not try
+            // to remove an entry inserted after this, as we do not have its lock.
+            let arc_key = self.base.get_key_with_hash(key, hash)?;
+            kl = self.base.maybe_key_lock(&arc_key);
+            klg = kl.as_ref().map(|kl| kl.lock());
         }
 
         verif_pt!("cache.invalidate.before_remove");
diff --git a/src/sync/key_lock.rs b/src/sync/key_lock.rs
index 44f6195..5bcfb9c 100644
--- a/src/sync/key_lock.rs
+++ b/src/sync/key_lock.rs
@@ -1,6 +1,9 @@
 use std::{
     hash::{BuildHasher, Hash},
-    sync::Arc,
+    sync::{
+        atomic::{AtomicUsize, Ordering},
+        Arc,
+    },
 };
 
 use crate::{cht::SegmentedHashMap, common::concurrent::arc::MiniArc};
@@ -9,7 +12,53 @@ use parking_lot::{Mutex, MutexGuard};
 
 const LOCK_MAP_NUM_SEGMENTS: usize = 64;
 
-type LockMap<K, S> = SegmentedHashMap<Arc<K>, MiniArc<Mutex<()>>, S>;
+type LockMap<K, S> = SegmentedHashMap<Arc<K>, MiniArc<Lock>, S>;
+
+struct Lock {
+    mutex: Mutex<()>,
+    /// The number of `KeyLock`s using this lock, or `RETIRED` if this lock is no
+    /// longer usable because it is being removed from the lock map.
+    users: AtomicUsize,
+}
+
+impl Lock {
+    const RETIRED: usize = usize::MAX;
+
+    /// Creates a lock with one user.
+    fn new() -> Self {
+        Self {
+            mutex: Mutex::new(()),
+            users: AtomicUsize::new(1),
+        }
+    }
+
+    /// Adds a user. Returns `false` if this lock is retired.
+    fn try_add_user(&self) -> bool {
+        let mut n = self.users.load(Ordering::Acquire);
+        while n != Self::RETIRED {
+            match self.users.compare_exchange_weak(
+                n,
+                n + 1,
+                Ordering::AcqRel,
+                Ordering::Acquire,
+            ) {
+                Ok(_) => return true,
+                Err(actual) => n = actual,
+            }
+        }
+        false
+    }
+
+    /// Removes a user. Returns `true` if there was no other user, and now this lock
+    /// is retired.
+    fn remove_user(&self) -> bool {
+        self.users.fetch_sub(1, Ordering::AcqRel) == 1
+            && self
+                .users
+                .compare_exchange(0, Self::RETIRED, Ordering::AcqRel, Ordering::Acquire)
+                .is_ok()
+    }
+}
 
 // We need the `where` clause here because of the Drop impl.
 pub(crate) struct KeyLock<'a, K, S>
@@ -20,7 +69,7 @@ where
     map: &'a LockMap<K, S>,
     key: Arc<K>,
     hash: u64,
-    lock: MiniArc<Mutex<()>>,
+    lock: MiniArc<Lock>,
 }
 
 impl<K, S> Drop for KeyLock<'_, K, S>
@@ -29,12 +78,12 @@ where
     S: BuildHasher,
 {
     fn drop(&mut self) {
-        if MiniArc::count(&self.lock) <= 2 {
+        if self.lock.remove_user() {
             verif_pt!("key_lock.drop");
             self.map.remove_if(
                 self.hash,
                 |k| k == &self.key,
-                |_k, v| MiniArc::count(v) <= 2,
+                |_k, v| MiniArc::ptr_eq(v, &self.lock),
             );
         }
     }
@@ -45,7 +94,7 @@ where
     K: Eq + Hash,
     S: BuildHasher,
 {
-    fn new(map: &'a LockMap<K, S>, key: &Arc<K>, hash: u64, lock: MiniArc<Mutex<()>>) -> Self {
+    fn new(map: &'a LockMap<K, S>, key: &Arc<K>, hash: u64, lock: MiniArc<Lock>) -> Self {
         Self {
             map,
             key: Arc::clone(key),
@@ -55,7 +104,7 @@ where
     }
 
     pub(crate) fn lock(&self) -> MutexGuard<'_, ()> {
-        self.lock.lock()
+        self.lock.mutex.lock()
     }
 }
 
@@ -76,13 +125,25 @@ where
 
     pub(crate) fn key_lock(&self, key: &Arc<K>) -> KeyLock<'_, K, S> {
         let hash = self.locks.hash(key);
-        let kl = MiniArc::new(Mutex::new(()));
-        match self
-            .locks
-            .insert_if_not_present(Arc::clone(key), hash, kl.clone())
-        {
-            None => KeyLock::new(&self.locks, key, hash, kl),
-            Some(existing_kl) => KeyLock::new(&self.locks, key, hash, existing_kl),
+        let kl = MiniArc::new(Lock::new());
+        loop {
+            match self
+                .locks
+                .insert_if_not_present(Arc::clone(key), hash, kl.clone())
+            {
+                None => return KeyLock::new(&self.locks, key, hash, kl),
+                Some(existing_kl) if existing_kl.try_add_user() => {
+                    return KeyLock::new(&self.locks, key, hash, existing_kl)
+                }
+                Some(retired_kl) => {
+                    // Its last user may not have removed it from the map yet.
+                    self.locks.remove_if(
+                        hash,
+                        |k| k == key,
+                        |_k, v| MiniArc::ptr_eq(v, &retired_kl),
+                    );
+                }
+            }
         }
     }
 }
-- 
2.43.0


From 4737e1ae6bf3e75eac6f7f6a6636af54d271d881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:45 +0000
Subject: [PATCH 09/22] fix: remove the waiter when user code panics in sync
 get_with and compute

---
 src/sync/value_initializer.rs | 123 +++++++++++++++++++++++-----------
 1 file changed, 83 insertions(+), 40 deletions(-)

diff --git a/src/sync/value_initializer.rs b/src/sync/value_initializer.rs
index 0fda439..3a57206 100644
--- a/src/sync/value_initializer.rs
+++ b/src/sync/value_initializer.rs
@@ -1,4 +1,4 @@
-use parking_lot::RwLock;
+use parking_lot::{RwLock, RwLockWriteGuard};
 use std::{
     any::{Any, TypeId},
     fmt,
@@ -39,6 +39,49 @@ impl<V> fmt::Debug for WaiterValue<V> {
 }
 
 type Waiter<V> = MiniArc<RwLock<WaiterValue<V>>>;
+type WaiterMap<K, V, S> = crate::cht::SegmentedHashMap<(Arc<K>, TypeId), Waiter<V>, S>;
+
+/// Removes our waiter from the waiter map when dropped, so that others will not
+/// find it after a panic in a user provided closure or trait implementation.
+struct WaiterGuard<'a, K, V, S>
+where
+    K: Eq + Hash,
+    S: BuildHasher,
+{
+    w_key: (Arc<K>, TypeId),
+    w_hash: u64,
+    waiters: &'a WaiterMap<K, V, S>,
+    write_lock: RwLockWriteGuard<'a, WaiterValue<V>>,
+}
+
+impl<K, V, S> WaiterGuard<'_, K, V, S>
+where
+    K: Eq + Hash,
+    S: BuildHasher,
+{
+    /// Sets the waiter value and removes our waiter.
+    fn set_waiter_value(mut self, v: WaiterValue<V>) {
+        *self.write_lock = v;
+    }
+}
+
+impl<K, V, S> Drop for WaiterGuard<'_, K, V, S>
+where
+    K: Eq + Hash,
+    S: BuildHasher,
+{
+    fn drop(&mut self) {
+        if matches!(*self.write_lock, WaiterValue::Computing) {
+            // Value is not set, so we are panicking.
+            *self.write_lock = WaiterValue::InitClosurePanicked;
+        }
+        let w_key = &self.w_key;
+        verif_pt!("waiter.before_remove");
+        self.waiters.remove(self.w_hash, |k| k == w_key);
+        verif_pt!("waiter.removed");
+        // The write lock will be unlocked after this.
+    }
+}
 
 pub(crate) enum InitResult<V, E> {
     Initialized(V),
@@ -51,7 +94,7 @@ pub(crate) struct ValueInitializer<K, V, S> {
     // try_get_with method. We use the type ID as a part of the key to ensure that
     // we can always downcast the trait object ErrorObject (in Waiter<V>) into
     // its concrete type.
-    waiters: crate::cht::SegmentedHashMap<(Arc<K>, TypeId), Waiter<V>, S>,
+    waiters: WaiterMap<K, V, S>,
 }
 
 impl<K, V, S> ValueInitializer<K, V, S>
@@ -97,7 +140,7 @@ where
         let (w_key, w_hash) = self.waiter_key_hash(key, type_id);
 
         let waiter = MiniArc::new(RwLock::new(WaiterValue::Computing));
-        let mut lock = waiter.write();
+        let lock = waiter.write();
 
         loop {
             let Some(existing_waiter) = self.try_insert_waiter(w_key.clone(), w_hash, &waiter)
@@ -132,15 +175,15 @@ where
             }
         }
 
-        // Our waiter was inserted.
+        // Our waiter was inserted. Create a guard to ensure to remove it.
+        let waiter_guard = self.waiter_guard(w_key, w_hash, lock);
 
         verif_pt!("init.waiter_inserted");
         // Check if the value has already been inserted by other thread.
         if let Some(value) = get() {
             // Yes. Set the waiter value, remove our waiter, and return
             // the existing value.
-            *lock = WaiterValue::Ready(Ok(value.clone()));
-            self.remove_waiter(w_key, w_hash);
+            waiter_guard.set_waiter_value(WaiterValue::Ready(Ok(value.clone())));
             return InitResult::ReadExisting(value);
         }
 
@@ -150,29 +193,24 @@ where
         verif_pt!("init.before_init");
         match catch_unwind(AssertUnwindSafe(init)) {
             // Evaluated.
-            Ok(value) => {
-                let init_res = match post_init(value) {
-                    Ok(value) => {
-                        verif_pt!("init.before_insert");
-                        insert(value.clone());
-                        verif_pt!("init.inserted");
-                        *lock = WaiterValue::Ready(Ok(value.clone()));
-                        InitResult::Initialized(value)
-                    }
-                    Err(e) => {
-                        let err: ErrorObject = Arc::new(e);
-                        *lock = WaiterValue::Ready(Err(Arc::clone(&err)));
-                        InitResult::InitErr(err.downcast().unwrap())
-                    }
-                };
-                self.remove_waiter(w_key, w_hash);
-                init_res
-            }
+            Ok(value) => match post_init(value) {
+                Ok(value) => {
+                    verif_pt!("init.before_insert");
+                    insert(value.clone());
+                    verif_pt!("init.inserted");
+                    waiter_guard.set_waiter_value(WaiterValue::Ready(Ok(value.clone())));
+                    InitResult::Initialized(value)
+                }
+                Err(e) => {
+                    let err: ErrorObject = Arc::new(e);
+                    waiter_guard.set_waiter_value(WaiterValue::Ready(Err(Arc::clone(&err))));
+                    InitResult::InitErr(err.downcast().unwrap())
+                }
+            },
             // Panicked.
             Err(payload) => {
-                *lock = WaiterValue::InitClosurePanicked;
                 // Remove the waiter so that others can retry.
-                self.remove_waiter(w_key, w_hash);
+                waiter_guard.set_waiter_value(WaiterValue::InitClosurePanicked);
                 resume_unwind(payload);
             }
         }
@@ -202,7 +240,7 @@ where
         let waiter = MiniArc::new(RwLock::new(WaiterValue::Computing));
         // NOTE: We have to acquire a write lock before `try_insert_waiter`,
         // so that any concurrent attempt will get our lock and wait on it.
-        let mut lock = waiter.write();
+        let lock = waiter.write();
 
         loop {
             let Some(existing_waiter) = self.try_insert_waiter(w_key.clone(), w_hash, &waiter)
@@ -228,7 +266,8 @@ where
             }
         }
 
-        // Our waiter was inserted.
+        // Our waiter was inserted. Create a guard to ensure to remove it.
+        let waiter_guard = self.waiter_guard(w_key, w_hash, lock);
 
         verif_pt!("compute.waiter_inserted");
         // Get the current value.
@@ -247,15 +286,11 @@ where
         // evaluate the closure again.
         let output = match catch_unwind(AssertUnwindSafe(|| f(maybe_entry))) {
             // Evaluated.
-            Ok(output) => {
-                *lock = WaiterValue::ReadyNone;
-                output
-            }
+            Ok(output) => output,
             // Panicked.
             Err(payload) => {
-                *lock = WaiterValue::InitClosurePanicked;
                 // Remove the waiter so that others can retry.
-                self.remove_waiter(w_key, w_hash);
+                waiter_guard.set_waiter_value(WaiterValue::InitClosurePanicked);
                 resume_unwind(payload);
             }
         };
@@ -264,7 +299,7 @@ where
         let op = match post_init(output) {
             Ok(op) => op,
             Err(e) => {
-                self.remove_waiter(w_key, w_hash);
+                waiter_guard.set_waiter_value(WaiterValue::ReadyNone);
                 return Err(e);
             }
         };
@@ -304,7 +339,7 @@ where
                 }
             }
         };
-        self.remove_waiter(w_key, w_hash);
+        waiter_guard.set_waiter_value(WaiterValue::ReadyNone);
         result
 
         // The lock will be unlocked here.
@@ -367,10 +402,18 @@ where
     }
 
     #[inline]
-    fn remove_waiter(&self, w_key: (Arc<K>, TypeId), w_hash: u64) {
-        verif_pt!("waiter.before_remove");
-        self.waiters.remove(w_hash, |k| k == &w_key);
-        verif_pt!("waiter.removed");
+    fn waiter_guard<'a>(
+        &'a self,
+        w_key: (Arc<K>, TypeId),
+        w_hash: u64,
+        write_lock: RwLockWriteGuard<'a, WaiterValue<V>>,
+    ) -> WaiterGuard<'a, K, V, S> {
+        WaiterGuard {
+            w_key,
+            w_hash,
+            waiters: &self.waiters,
+            write_lock,
+        }
     }
 
     #[inline]
-- 
2.43.0


From 905abd4f12c057a769c4dcf9decfcb94b4cfed80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:09 +0000
Subject: [PATCH 10/22] fix: do not share waiters between get_with and
 try_get_with with the unit error type

---
 src/future/value_initializer.rs | 6 +++++-
 src/sync/value_initializer.rs   | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/future/value_initializer.rs b/src/future/value_initializer.rs
index 43929fa..3ec2622 100644
--- a/src/future/value_initializer.rs
+++ b/src/future/value_initializer.rs
@@ -611,9 +611,13 @@ where
 
     /// Returns the `type_id` for `get_with` method of cache.
     pub(crate) fn type_id_for_get_with() -> TypeId {
+        // This must not be a type that users can use as the error type of the
+        // `try_get_with` method.
+        struct GetWithNone;
+
         // NOTE: We use a regular function here instead of a const fn because TypeId
         // is not stable as a const fn. (as of our MSRV)
-        TypeId::of::<()>()
+        TypeId::of::<GetWithNone>()
     }
 
     /// Returns the `type_id` for `optionally_get_with` method of cache.
diff --git a/src/sync/value_initializer.rs b/src/sync/value_initializer.rs
index 3a57206..64f222f 100644
--- a/src/sync/value_initializer.rs
+++ b/src/sync/value_initializer.rs
@@ -386,9 +386,13 @@ where
 
     /// Returns the `type_id` for `get_with` method of cache.
     pub(crate) fn type_id_for_get_with() -> TypeId {
+        // This must not be a type that users can use as the error type of the
+        // `try_get_with` method.
+        struct GetWithNone;
+
         // NOTE: We use a regular function here instead of a const fn because TypeId
         // is not stable as a const fn. (as of our MSRV)
-        TypeId::of::<()>()
+        TypeId::of::<GetWithNone>()
     }
 
     /// Returns the `type_id` for `optionally_get_with` method of cache.
-- 
2.43.0


From ef2432ceb07615686abc79c78acf92b9758ab049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:50 +0000
Subject: [PATCH 11/22] fix: wake tasks waiting for the write op channel when
 maintenance ends or is cancelled

---
 src/future/base_cache.rs  | 12 +++++++++---
 src/future/housekeeper.rs | 40 ++++++++++++++++++++++-----------------
 src/future/key_lock.rs    | 10 ++++------
 src/sync/key_lock.rs      | 10 ++++------
 4 files changed, 40 insertions(+), 32 deletions(-)

diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index e625757..593caea 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -639,6 +639,7 @@ where
 
         let mut op = op;
         let mut spin_loop_attempts = 0u8;
+        let mut ch_ready_listener = None;
         loop {
             // Run the `Inner::do_run_pending_tasks` method if needed.
             verif_apt!("base.schedule.loop");
@@ -666,7 +667,7 @@ where
                 for _ in 0..SPIN_COUNT {
                     std::hint::spin_loop();
                 }
-            } else {
+            } else if let Some(listener) = ch_ready_listener.take() {
                 spin_loop_attempts = 0;
 
                 // Yield the async runtime scheduler to other async tasks and wait
@@ -679,12 +680,17 @@ where
                 //   try_run_pending_tasks` methods has freed the lock on the
                 //   `current_task`.
                 //
-                verif_pt!("base.schedule.before_listen");
-                ch_ready_event.listen().await;
+                listener.await;
                 verif_apt!("base.schedule.listened");
 
                 // We are going to retry. Now the channel may have some space and/or
                 // one of us is allowed to run `do_run_pending_tasks` method.
+            } else {
+                // Start listening to the event, and then retry once more before
+                // waiting for it. Otherwise, we would wait for an event that had
+                // been sent after our last attempt to send the op.
+                verif_pt!("base.schedule.before_listen");
+                ch_ready_listener = Some(ch_ready_event.listen());
             }
         }
     }
diff --git a/src/future/housekeeper.rs b/src/future/housekeeper.rs
index dc257b3..47173b3 100644
--- a/src/future/housekeeper.rs
+++ b/src/future/housekeeper.rs
@@ -53,6 +53,21 @@ pub(crate) struct Housekeeper {
     pub(crate) complete_count: AtomicUsize,
 }
 
+/// Notifies the async tasks waiting in `BaseCache::schedule_write_op` method for the
+/// write op channel when dropped.
+///
+/// Async Cancellation Safety: This is a drop guard so that these tasks will be notified
+/// even if the async task running the pending tasks is cancelled. One of them will take
+/// over the maintenance task.
+struct NotifyGuard<'a>(&'a event_listener::Event<()>);
+
+impl Drop for NotifyGuard<'_> {
+    fn drop(&mut self) {
+        verif_pt!("housekeeper.before_notify");
+        self.0.notify(usize::MAX);
+    }
+}
+
 impl Housekeeper {
     pub(crate) fn new(
         is_eviction_listener_enabled: bool,
@@ -118,16 +133,11 @@ impl Housekeeper {
         S: BuildHasher + Clone + Send + Sync + 'static,
     {
         verif_apt!("housekeeper.before_lock");
+        // This guard must be dropped after the lock.
+        let _notify_guard = NotifyGuard(&cache.write_op_ch_ready_event);
         let mut current_task = self.current_task.lock().await;
         self.do_run_pending_tasks(Arc::clone(&cache), &mut current_task)
             .await;
-
-        drop(current_task);
-
-        verif_pt!("housekeeper.before_notify");
-        // If there are any async tasks waiting in `BaseCache::schedule_write_op`
-        // method for the write op channel, notify them.
-        cache.write_op_ch_ready_event.notify(usize::MAX);
     }
 
     /// Tries to run the pending tasks if the lock is free. Returns `true` if there
@@ -138,20 +148,16 @@ impl Housekeeper {
         V: Clone + Send + Sync + 'static,
         S: BuildHasher + Clone + Send + Sync + 'static,
     {
-        if let Some(mut current_task) = self.current_task.try_lock() {
+        if let Some(lock) = self.current_task.try_lock() {
+            // This guard must be dropped after the lock.
+            let _notify_guard = NotifyGuard(&cache.write_op_ch_ready_event);
+            let mut current_task = lock;
             self.do_run_pending_tasks(Arc::clone(cache), &mut current_task)
                 .await;
+            true
         } else {
-            return false;
+            false
         }
-
-        // The `current_task` lock should be free now.
-
-        verif_pt!("housekeeper.before_notify");
-        // If there are any async tasks waiting in `BaseCache::schedule_write_op`
-        // method for the write op channel, notify them.
-        cache.write_op_ch_ready_event.notify(usize::MAX);
-        true
     }
 
     async fn do_run_pending_tasks<K, V, S>(
diff --git a/src/future/key_lock.rs b/src/future/key_lock.rs
index e985ba0..b1263be 100644
--- a/src/future/key_lock.rs
+++ b/src/future/key_lock.rs
@@ -36,12 +36,10 @@ impl Lock {
     fn try_add_user(&self) -> bool {
         let mut n = self.users.load(Ordering::Acquire);
         while n != Self::RETIRED {
-            match self.users.compare_exchange_weak(
-                n,
-                n + 1,
-                Ordering::AcqRel,
-                Ordering::Acquire,
-            ) {
+            match self
+                .users
+                .compare_exchange_weak(n, n + 1, Ordering::AcqRel, Ordering::Acquire)
+            {
                 Ok(_) => return true,
                 Err(actual) => n = actual,
             }
diff --git a/src/sync/key_lock.rs b/src/sync/key_lock.rs
index 5bcfb9c..a5f231a 100644
--- a/src/sync/key_lock.rs
+++ b/src/sync/key_lock.rs
@@ -36,12 +36,10 @@ impl Lock {
     fn try_add_user(&self) -> bool {
         let mut n = self.users.load(Ordering::Acquire);
         while n != Self::RETIRED {
-            match self.users.compare_exchange_weak(
-                n,
-                n + 1,
-                Ordering::AcqRel,
-                Ordering::Acquire,
-            ) {
+            match self
+                .users
+                .compare_exchange_weak(n, n + 1, Ordering::AcqRel, Ordering::Acquire)
+            {
                 Ok(_) => return true,
                 Err(actual) => n = actual,
             }
-- 
2.43.0


From 5abadf820b5c09112391625c5731a50421918d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:50 +0000
Subject: [PATCH 12/22] fix: resume interrupted maintenance when waiting for a
 key lock it may have

---
 src/future/base_cache.rs  | 31 ++++++++++++++++++++++++++++++-
 src/future/cache.rs       |  2 +-
 src/future/housekeeper.rs | 19 +++++++++++++++++++
 src/future/key_lock.rs    |  4 ++++
 4 files changed, 54 insertions(+), 2 deletions(-)

diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index 593caea..e25b94f 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -376,6 +376,35 @@ where
         self.inner.remove_entry(key, hash)
     }
 
+    /// Locks the key. This method must not be called from the maintenance task.
+    ///
+    /// Async Cancellation Safety: If the caller of a maintenance task was cancelled,
+    /// the task may be left suspended while having the lock (or being the next one
+    /// to have it). As we could wait forever for the lock in such a case, we resume
+    /// the task here.
+    pub(crate) async fn lock_key<'a>(&self, kl: &'a KeyLock<'_, K, S>) -> MutexGuard<'a, ()> {
+        use futures_util::future::{select, Either};
+
+        if let Some(guard) = kl.try_lock() {
+            return guard;
+        }
+
+        loop {
+            // This event will be sent when a maintenance task has been completed, or
+            // its caller was cancelled.
+            let listener = self.inner.write_op_ch_ready_event.listen();
+
+            if let Some(hk) = &self.housekeeper {
+                hk.resume_interrupted_task(&self.inner).await;
+            }
+
+            let lock = std::pin::pin!(kl.lock());
+            if let Either::Left((guard, _)) = select(lock, listener).await {
+                return guard;
+            }
+        }
+    }
+
     #[inline]
     pub(crate) async fn apply_reads_writes_if_needed(
         inner: &Arc<Inner<K, V, S>>,
@@ -490,7 +519,7 @@ where
         // Lock the key for update if blocking removal notification is enabled.
         let kl = self.maybe_key_lock(&key);
         let _klg = if let Some(lock) = &kl {
-            Some(lock.lock().await)
+            Some(self.lock_key(lock).await)
         } else {
             None
         };
diff --git a/src/future/cache.rs b/src/future/cache.rs
index 95b5c86..ef89e01 100644
--- a/src/future/cache.rs
+++ b/src/future/cache.rs
@@ -1953,7 +1953,7 @@ where
             let arc_key = self.base.get_key_with_hash(key, hash)?;
             kl = self.base.maybe_key_lock(&arc_key);
             klg = if let Some(lock) = &kl {
-                Some(lock.lock().await)
+                Some(self.base.lock_key(lock).await)
             } else {
                 None
             };
diff --git a/src/future/housekeeper.rs b/src/future/housekeeper.rs
index 47173b3..9831166 100644
--- a/src/future/housekeeper.rs
+++ b/src/future/housekeeper.rs
@@ -26,6 +26,8 @@ use super::base_cache::Inner;
 pub(crate) struct Housekeeper {
     /// A shared `Future` of the maintenance task that is currently being resolved.
     current_task: Mutex<Option<Shared<BoxFuture<'static, bool>>>>,
+    /// `true` if `current_task` has a task.
+    has_task: AtomicBool,
     run_after: AtomicInstant,
     /// A flag to indicate if the last call on `run_pending_tasks` method left some
     /// entries to evict.
@@ -85,6 +87,7 @@ impl Housekeeper {
 
         Self {
             current_task: Mutex::default(),
+            has_task: AtomicBool::new(false),
             run_after: AtomicInstant::new(Self::sync_after(now)),
             more_entries_to_evict,
             maintenance_task_timeout,
@@ -160,6 +163,20 @@ impl Housekeeper {
         }
     }
 
+    /// Resumes the maintenance task if its caller was cancelled before completing it.
+    pub(crate) async fn resume_interrupted_task<K, V, S>(&self, cache: &Arc<Inner<K, V, S>>)
+    where
+        K: Hash + Eq + Send + Sync + 'static,
+        V: Clone + Send + Sync + 'static,
+        S: BuildHasher + Clone + Send + Sync + 'static,
+    {
+        // If the caller of the task is still running it, the following call will do
+        // nothing.
+        if self.has_task.load(Ordering::Acquire) {
+            self.try_run_pending_tasks(cache).await;
+        }
+    }
+
     async fn do_run_pending_tasks<K, V, S>(
         &self,
         cache: Arc<Inner<K, V, S>>,
@@ -193,6 +210,7 @@ impl Housekeeper {
             .boxed()
             .shared();
             *current_task = Some(task.clone());
+            self.has_task.store(true, Ordering::Release);
 
             #[cfg(test)]
             self.start_count.fetch_add(1, Ordering::AcqRel);
@@ -203,6 +221,7 @@ impl Housekeeper {
         // If we are here, it means that the maintenance task has been completed.
         // We can remove it from the lock.
         *current_task = None;
+        self.has_task.store(false, Ordering::Release);
         self.run_after.set_instant(Self::sync_after(now));
         self.set_more_entries_to_evict(more_to_evict);
 
diff --git a/src/future/key_lock.rs b/src/future/key_lock.rs
index b1263be..357272b 100644
--- a/src/future/key_lock.rs
+++ b/src/future/key_lock.rs
@@ -101,6 +101,10 @@ where
         }
     }
 
+    pub(crate) fn try_lock(&self) -> Option<MutexGuard<'_, ()>> {
+        self.lock.mutex.try_lock()
+    }
+
     pub(crate) async fn lock(&self) -> MutexGuard<'_, ()> {
         verif_apt!("key_lock.before_lock");
         self.lock.mutex.lock().await
-- 
2.43.0


From a1a27d74ea4c58364916f4a027abc70d94a16679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:58 +0000
Subject: [PATCH 13/22] fix: do not let concurrent invalidate_all calls move
 the watermark back

---
 src/common/time/atomic_time.rs | 20 ++++++++++++++++++++
 src/future/base_cache.rs       |  3 ++-
 src/sync/base_cache.rs         |  3 ++-
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/common/time/atomic_time.rs b/src/common/time/atomic_time.rs
index a4870bc..020e616 100644
--- a/src/common/time/atomic_time.rs
+++ b/src/common/time/atomic_time.rs
@@ -54,4 +54,24 @@ impl AtomicInstant {
 
         self.instant.store(instant.as_nanos(), Ordering::Release);
     }
+
+    /// Sets the `Instant` unless the current one is later.
+    pub(crate) fn advance_instant(&self, instant: Instant) {
+        // Ensure the `Instant` is not `u64::MAX`, which means unset.
+        debug_assert!(instant.as_nanos() != u64::MAX);
+
+        let new = instant.as_nanos();
+        let mut current = self.instant.load(Ordering::Acquire);
+        while current == u64::MAX || current < new {
+            match self.instant.compare_exchange_weak(
+                current,
+                new,
+                Ordering::AcqRel,
+                Ordering::Acquire,
+            ) {
+                Ok(_) => return,
+                Err(actual) => current = actual,
+            }
+        }
+    }
 }
diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index e25b94f..07cd6cb 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -1160,7 +1160,8 @@ impl<K, V, S> Inner<K, V, S> {
 
     #[inline]
     fn set_valid_after(&self, timestamp: Instant) {
-        self.valid_after.set_instant(timestamp);
+        // Do not go back if other thread has called `invalidate_all` after us.
+        self.valid_after.advance_instant(timestamp);
     }
 
     #[inline]
diff --git a/src/sync/base_cache.rs b/src/sync/base_cache.rs
index 5321f09..6e9d451 100644
--- a/src/sync/base_cache.rs
+++ b/src/sync/base_cache.rs
@@ -975,7 +975,8 @@ impl<K, V, S> Inner<K, V, S> {
 
     #[inline]
     fn set_valid_after(&self, timestamp: Instant) {
-        self.valid_after.set_instant(timestamp);
+        // Do not go back if other thread has called `invalidate_all` after us.
+        self.valid_after.advance_instant(timestamp);
     }
 
     #[inline]
-- 
2.43.0


From 4db19a1ce656f2ce78fb10b49bc61d2e4e129966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:58 +0000
Subject: [PATCH 14/22] fix: do not let concurrent accesses move the last
 accessed time back

---
 src/common/concurrent/entry_info.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/concurrent/entry_info.rs b/src/common/concurrent/entry_info.rs
index 98ebc78..1b85ce6 100644
--- a/src/common/concurrent/entry_info.rs
+++ b/src/common/concurrent/entry_info.rs
@@ -258,7 +258,8 @@ impl<K> AccessTime for EntryInfo<K> {
 
     #[inline]
     fn set_last_accessed(&self, timestamp: Instant) {
-        self.last_accessed.set_instant(timestamp);
+        // Do not go back if other thread has accessed the entry after us.
+        self.last_accessed.advance_instant(timestamp);
     }
 
     #[inline]
-- 
2.43.0


From 624911a01b19e44888a057a57fb9a8c3cfb85f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:44 +0000
Subject: [PATCH 15/22] fix: tell an insert from an update by the outcome of
 the table operation

When an insert into the hash table lost a race twice (first to another insert,
then to a removal), it was finally stored as a new entry, made by the first call
of on_insert, but was taken for an update, because on_modify was called last.
The entry then had no write operation: it was never counted, ordered, expired by
the timer wheel nor evicted, and the old value was reported to the listener twice.
---
 src/future/base_cache.rs | 40 +++++++++++++++-------------------------
 src/sync/base_cache.rs   | 39 ++++++++++++++-------------------------
 2 files changed, 29 insertions(+), 50 deletions(-)

diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index 07cd6cb..a8ae413 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -46,7 +46,7 @@ use std::{
     collections::hash_map::RandomState,
     hash::{BuildHasher, Hash},
     sync::{
-        atomic::{AtomicBool, AtomicU8, Ordering},
+        atomic::{AtomicBool, Ordering},
         Arc,
     },
     time::{Duration, Instant as StdInstant},
@@ -511,8 +511,6 @@ where
         self.retry_interrupted_ops().await;
 
         let weight = self.inner.weigh(&key, &value);
-        let op_cnt1 = Arc::new(AtomicU8::new(0));
-        let op_cnt2 = Arc::clone(&op_cnt1);
         let mut op1 = None;
         let mut op2 = None;
 
@@ -527,27 +525,23 @@ where
         let ts = self.current_time();
         verif_pt!("base.insert.ts_taken");
 
-        // TODO: Instead using Arc<AtomicU8> to check if the actual operation was
-        // insert or update, check the return value of insert_with_or_modify. If it
-        // is_some, the value was updated, otherwise the value was inserted.
-
         // Since the cache (cht::SegmentedHashMap) employs optimistic locking
         // strategy, insert_with_or_modify() may get an insert/modify operation
         // conflicted with other concurrent hash table operations. In that case, it
-        // has to retry the insertion or modification, so on_insert and/or on_modify
-        // closures can be executed more than once. In order to identify the last
-        // call of these closures, we use a shared counter (op_cnt{1,2}) here to
-        // record a serial number on a WriteOp, and consider the WriteOp with the
-        // largest serial number is the one made by the last call of the closures.
-        self.inner.cache.insert_with_or_modify(
+        // has to retry the insertion or modification, so both of on_insert and
+        // on_modify closures can be executed, and on_modify can be executed more
+        // than once. (on_insert is executed at most once, as its result is kept and
+        // reused on a retry) So the order of the calls does not tell the actual
+        // operation. The return value does: If it is Some, the value was updated by
+        // the result of the last call of on_modify, otherwise it was inserted.
+        let old_entry = self.inner.cache.insert_with_or_modify(
             Arc::clone(&key),
             hash,
             // on_insert
             || {
                 let (entry, gen) = self.new_value_entry(&key, hash, value.clone(), ts, weight);
                 let ins_op = WriteOp::new_upsert(&key, hash, &entry, gen, weight);
-                let cnt = op_cnt1.fetch_add(1, Ordering::Relaxed);
-                op1 = Some((cnt, ins_op));
+                op1 = Some(ins_op);
                 entry
             },
             // on_modify
@@ -558,23 +552,19 @@ where
                 let old_info = OldEntryInfo::new(old_entry);
                 let (entry, gen) = self.new_value_entry_from(value.clone(), ts, weight, old_entry);
                 let upd_op = WriteOp::new_upsert(&key, hash, &entry, gen, weight);
-                let cnt = op_cnt2.fetch_add(1, Ordering::Relaxed);
-                op2 = Some((cnt, old_info, upd_op));
+                op2 = Some((old_info, upd_op));
                 entry
             },
         );
         verif_pt!("base.insert.map_updated");
 
-        match (op1, op2) {
-            (Some((_cnt, ins_op)), None) => self.do_post_insert_steps(ts, &key, ins_op),
-            (Some((cnt1, ins_op)), Some((cnt2, ..))) if cnt1 > cnt2 => {
-                self.do_post_insert_steps(ts, &key, ins_op)
-            }
-            (_, Some((_cnt, old_entry, upd_op))) => {
-                self.do_post_update_steps(ts, key, old_entry, upd_op, &self.interrupted_op_ch_snd)
+        match (old_entry, op1, op2) {
+            (None, Some(ins_op), _) => self.do_post_insert_steps(ts, &key, ins_op),
+            (Some(_), _, Some((old_info, upd_op))) => {
+                self.do_post_update_steps(ts, key, old_info, upd_op, &self.interrupted_op_ch_snd)
                     .await
             }
-            (None, None) => unreachable!(),
+            _ => unreachable!(),
         }
     }
 
diff --git a/src/sync/base_cache.rs b/src/sync/base_cache.rs
index 6e9d451..f2f0d63 100644
--- a/src/sync/base_cache.rs
+++ b/src/sync/base_cache.rs
@@ -39,9 +39,8 @@ use std::{
     borrow::Borrow,
     collections::hash_map::RandomState,
     hash::{BuildHasher, Hash},
-    rc::Rc,
     sync::{
-        atomic::{AtomicBool, AtomicU8, Ordering},
+        atomic::{AtomicBool, Ordering},
         Arc,
     },
     time::{Duration, Instant as StdInstant},
@@ -486,8 +485,6 @@ where
         value: V,
     ) -> (WriteOp<K, V>, Instant) {
         let weight = self.inner.weigh(&key, &value);
-        let op_cnt1 = Rc::new(AtomicU8::new(0));
-        let op_cnt2 = Rc::clone(&op_cnt1);
         let mut op1 = None;
         let mut op2 = None;
 
@@ -498,27 +495,23 @@ where
         let ts = self.current_time();
         verif_pt!("base.insert.ts_taken");
 
-        // TODO: Instead using Arc<AtomicU8> to check if the actual operation was
-        // insert or update, check the return value of insert_with_or_modify. If it
-        // is_some, the value was updated, otherwise the value was inserted.
-
         // Since the cache (cht::SegmentedHashMap) employs optimistic locking
         // strategy, insert_with_or_modify() may get an insert/modify operation
         // conflicted with other concurrent hash table operations. In that case, it
-        // has to retry the insertion or modification, so on_insert and/or on_modify
-        // closures can be executed more than once. In order to identify the last
-        // call of these closures, we use a shared counter (op_cnt{1,2}) here to
-        // record a serial number on a WriteOp, and consider the WriteOp with the
-        // largest serial number is the one made by the last call of the closures.
-        self.inner.cache.insert_with_or_modify(
+        // has to retry the insertion or modification, so both of on_insert and
+        // on_modify closures can be executed, and on_modify can be executed more
+        // than once. (on_insert is executed at most once, as its result is kept and
+        // reused on a retry) So the order of the calls does not tell the actual
+        // operation. The return value does: If it is Some, the value was updated by
+        // the result of the last call of on_modify, otherwise it was inserted.
+        let old_entry = self.inner.cache.insert_with_or_modify(
             Arc::clone(&key),
             hash,
             // on_insert
             || {
                 let (entry, gen) = self.new_value_entry(&key, hash, value.clone(), ts, weight);
                 let ins_op = WriteOp::new_upsert(&key, hash, &entry, gen, weight);
-                let cnt = op_cnt1.fetch_add(1, Ordering::Relaxed);
-                op1 = Some((cnt, ins_op));
+                op1 = Some(ins_op);
                 entry
             },
             // on_modify
@@ -529,22 +522,18 @@ where
                 let old_info = OldEntryInfo::new(old_entry);
                 let (entry, gen) = self.new_value_entry_from(value.clone(), ts, weight, old_entry);
                 let upd_op = WriteOp::new_upsert(&key, hash, &entry, gen, weight);
-                let cnt = op_cnt2.fetch_add(1, Ordering::Relaxed);
-                op2 = Some((cnt, old_info, upd_op));
+                op2 = Some((old_info, upd_op));
                 entry
             },
         );
         verif_pt!("base.insert.map_updated");
 
-        match (op1, op2) {
-            (Some((_cnt, ins_op)), None) => self.do_post_insert_steps(ts, &key, ins_op),
-            (Some((cnt1, ins_op)), Some((cnt2, ..))) if cnt1 > cnt2 => {
-                self.do_post_insert_steps(ts, &key, ins_op)
-            }
-            (_, Some((_cnt, old_info, upd_op))) => {
+        match (old_entry, op1, op2) {
+            (None, Some(ins_op), _) => self.do_post_insert_steps(ts, &key, ins_op),
+            (Some(_), _, Some((old_info, upd_op))) => {
                 self.do_post_update_steps(ts, key, old_info, upd_op)
             }
-            (None, None) => unreachable!(),
+            _ => unreachable!(),
         }
     }
 
-- 
2.43.0


From b59331c99455ca83c00368193531fb3b12f34b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:48 +0000
Subject: [PATCH 16/22] fix: a get racing with an update clears the new
 expiration time

A get computed the remaining duration of a per-entry expiration time that an
update had set, after the lookup, to a time before the get's own clock reading.
It was taken for 'no expiration', and the time was cleared: the entry stayed.
---
 src/future/base_cache.rs | 11 +++++++++++
 src/sync/base_cache.rs   | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index a8ae413..ec4320d 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -322,6 +322,7 @@ where
                             self.inner.expiration_policy.time_to_idle(),
                             now,
                             self.inner.clock(),
+                            false,
                         );
                     }
 
@@ -603,6 +604,7 @@ where
                 self.inner.expiration_policy.time_to_idle(),
                 ts,
                 self.inner.clock(),
+                true,
             );
         }
 
@@ -827,6 +829,7 @@ impl<K, V, S> BaseCache<K, V, S> {
             .set_expiration_time(expiration_time);
     }
 
+    #[allow(clippy::too_many_arguments)]
     fn expire_after_read_or_update(
         expiry: impl FnOnce(&K, &V, StdInstant, Option<Duration>) -> Option<Duration>,
         key: &K,
@@ -835,6 +838,7 @@ impl<K, V, S> BaseCache<K, V, S> {
         tti: Option<Duration>,
         ts: Instant,
         clock: &Clock,
+        is_update: bool,
     ) -> bool {
         let current_time = clock.to_std_instant(ts);
         let ei = &value_entry.entry_info();
@@ -842,6 +846,13 @@ impl<K, V, S> BaseCache<K, V, S> {
         // Track the current per-entry expiration time
         let current_per_entry_exp_time = ei.expiration_state().0;
 
+        // The entry was live when it was read. If its expiration time has passed now,
+        // another thread has changed it in the meantime (e.g. by updating the entry).
+        // Leave it as is; otherwise we would clear it below.
+        if !is_update && current_per_entry_exp_time.map_or(false, |t| t <= ts) {
+            return false;
+        }
+
         let exp_time = IntoIterator::into_iter([
             current_per_entry_exp_time,
             ttl.and_then(|dur| ei.last_modified().map(|ts| ts.saturating_add(dur))),
diff --git a/src/sync/base_cache.rs b/src/sync/base_cache.rs
index f2f0d63..7d00e5b 100644
--- a/src/sync/base_cache.rs
+++ b/src/sync/base_cache.rs
@@ -347,6 +347,7 @@ where
                     self.inner.expiration_policy.time_to_idle(),
                     now,
                     self.inner.clock(),
+                    false,
                 );
             }
 
@@ -569,6 +570,7 @@ where
                 self.inner.expiration_policy.time_to_idle(),
                 ts,
                 self.inner.clock(),
+                true,
             );
         }
 
@@ -655,6 +657,7 @@ impl<K, V, S> BaseCache<K, V, S> {
             .set_expiration_time(expiration_time);
     }
 
+    #[allow(clippy::too_many_arguments)]
     fn expire_after_read_or_update(
         expiry: impl FnOnce(&K, &V, StdInstant, Option<Duration>) -> Option<Duration>,
         key: &K,
@@ -663,6 +666,7 @@ impl<K, V, S> BaseCache<K, V, S> {
         tti: Option<Duration>,
         ts: Instant,
         clock: &Clock,
+        is_update: bool,
     ) -> bool {
         let current_time = clock.to_std_instant(ts);
         let ei = &value_entry.entry_info();
@@ -670,6 +674,13 @@ impl<K, V, S> BaseCache<K, V, S> {
         // Track the current per-entry expiration time.
         let current_per_entry_exp_time = ei.expiration_state().0;
 
+        // The entry was live when it was read. If its expiration time has passed now,
+        // another thread has changed it in the meantime (e.g. by updating the entry).
+        // Leave it as is; otherwise we would clear it below.
+        if !is_update && current_per_entry_exp_time.map_or(false, |t| t <= ts) {
+            return false;
+        }
+
         let exp_time = IntoIterator::into_iter([
             current_per_entry_exp_time,
             ttl.and_then(|dur| ei.last_modified().map(|ts| ts.saturating_add(dur))),
-- 
2.43.0


From acef11d32e1f31dc500341487df2436abc10594a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:53 +0000
Subject: [PATCH 17/22] fix: a read racing with a scan takes an invalidated
 entry for a valid one

A read looked up the entry, a scan removed it and then the predicates, and the
read found no predicates to apply. Take the predicates before the lookup. Also
count the predicates instead of having a flag, which was briefly wrong when one
was registered while the last one was removed.
---
 src/cht/segment.rs        |  2 ++
 src/future/base_cache.rs  | 39 ++++++++++++++++------
 src/future/invalidator.rs | 68 ++++++++++++++++++++++-----------------
 src/sync/base_cache.rs    | 39 ++++++++++++++++------
 src/sync/invalidator.rs   | 68 ++++++++++++++++++++++-----------------
 5 files changed, 138 insertions(+), 78 deletions(-)

diff --git a/src/cht/segment.rs b/src/cht/segment.rs
index 8a0bbec..ecd5f6b 100644
--- a/src/cht/segment.rs
+++ b/src/cht/segment.rs
@@ -205,6 +205,7 @@ impl<K, V, S> HashMap<K, V, S> {
     ///
     /// This method on its own is safe, but other threads can add or remove
     /// elements at any time.
+    #[cfg(test)]
     pub(crate) fn len(&self) -> usize {
         self.len.load(Ordering::Relaxed)
     }
@@ -215,6 +216,7 @@ impl<K, V, S> HashMap<K, V, S> {
     ///
     /// This method on its own is safe, but other threads can add or remove
     /// elements at any time.
+    #[cfg(test)]
     pub(crate) fn is_empty(&self) -> bool {
         self.len() == 0
     }
diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index ec4320d..1977387 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -1,6 +1,6 @@
 use super::{
     housekeeper::Housekeeper,
-    invalidator::{Invalidator, KeyDateLite, PredicateFun},
+    invalidator::{Invalidator, KeyDateLite, Predicate, PredicateFun},
     key_lock::{KeyLock, KeyLockMap},
     notifier::RemovalNotifier,
     InterruptedOp, PredicateId,
@@ -225,6 +225,8 @@ where
     where
         Q: Equivalent<K> + Hash + ?Sized,
     {
+        let predicates = self.inner.invalidation_predicates();
+
         // TODO: Maybe we can just call ScanningGet::scanning_get.
         self.inner
             .get_key_value_and(key, hash, |k, entry| {
@@ -235,7 +237,7 @@ where
                 !is_expired_by_per_entry_ttl(entry.entry_info(), now)
                     && !is_expired_entry_wo(ttl, va, entry, now)
                     && !is_expired_entry_ao(tti, va, entry, now)
-                    && !i.is_invalidated_entry(k, entry)
+                    && !i.is_invalidated_entry(&predicates, k, entry)
             })
             .unwrap_or_default() // `false` is the default for `bool` type.
     }
@@ -260,6 +262,7 @@ where
             self.retry_interrupted_ops().await;
         }
 
+        let predicates = self.inner.invalidation_predicates();
         let mut now = self.current_time();
 
         let maybe_kv_and_op = self
@@ -271,7 +274,7 @@ where
                 if is_expired_by_per_entry_ttl(entry.entry_info(), now)
                     || is_expired_entry_wo(ttl, va, entry, now)
                     || is_expired_entry_ao(tti, va, entry, now)
-                    || i.is_invalidated_entry(k, entry)
+                    || i.is_invalidated_entry(&predicates, k, entry)
                 {
                     // Expired or invalidated entry.
                     None
@@ -453,6 +456,7 @@ where
 
     fn scanning_get(&self, key: &Arc<K>) -> Option<V> {
         let hash = self.hash(&**key);
+        let predicates = self.inner.invalidation_predicates();
         self.inner.get_key_value_and_then(&**key, hash, |k, entry| {
             let i = &self.inner;
             let (ttl, tti, va) = (&i.time_to_live(), &i.time_to_idle(), &i.valid_after());
@@ -461,7 +465,7 @@ where
             if is_expired_by_per_entry_ttl(entry.entry_info(), now)
                 || is_expired_entry_wo(ttl, va, entry, now)
                 || is_expired_entry_ao(tti, va, entry, now)
-                || i.is_invalidated_entry(k, entry)
+                || i.is_invalidated_entry(&predicates, k, entry)
             {
                 // Expired or invalidated entry.
                 None
@@ -1311,16 +1315,33 @@ where
         }
     }
 
+    /// Returns the predicates registered by `invalidate_entries_if` method. This must
+    /// be called before looking up the entry to call `is_invalidated_entry` with.
+    #[inline]
+    fn invalidation_predicates(&self) -> Vec<Predicate<K, V>>
+    where
+        V: Clone,
+    {
+        self.invalidator
+            .as_ref()
+            .map(|inv| inv.registered_predicates())
+            .unwrap_or_default()
+    }
+
     /// Returns `true` if the entry is invalidated by `invalidate_entries_if` method.
+    /// `predicates` must have been obtained by `invalidation_predicates` method before
+    /// the entry was looked up.
     #[inline]
-    fn is_invalidated_entry(&self, key: &Arc<K>, entry: &MiniArc<ValueEntry<K, V>>) -> bool
+    fn is_invalidated_entry(
+        &self,
+        predicates: &[Predicate<K, V>],
+        key: &Arc<K>,
+        entry: &MiniArc<ValueEntry<K, V>>,
+    ) -> bool
     where
         V: Clone,
     {
-        if let Some(inv) = &self.invalidator {
-            return inv.apply_predicates(key, entry);
-        }
-        false
+        Invalidator::<K, V, S>::apply_predicates(predicates, key, entry)
     }
 
     #[inline]
diff --git a/src/future/invalidator.rs b/src/future/invalidator.rs
index 071e51b..05b01bf 100644
--- a/src/future/invalidator.rs
+++ b/src/future/invalidator.rs
@@ -12,7 +12,7 @@ use async_lock::{Mutex, MutexGuard};
 use std::{
     hash::{BuildHasher, Hash},
     sync::{
-        atomic::{AtomicBool, Ordering},
+        atomic::{AtomicUsize, Ordering},
         Arc,
     },
 };
@@ -50,7 +50,9 @@ impl<K> KeyDateLite<K> {
 
 pub(crate) struct Invalidator<K, V, S> {
     predicates: crate::cht::SegmentedHashMap<PredicateId, Predicate<K, V>, S>,
-    is_empty: AtomicBool,
+    // The number of predicates registered, or being registered or removed. Zero only
+    // if there are no predicates.
+    num_predicates: AtomicUsize,
     scan_context: Arc<ScanContext<K, V>>,
 }
 
@@ -70,13 +72,13 @@ impl<K, V, S> Invalidator<K, V, S> {
         );
         Self {
             predicates,
-            is_empty: AtomicBool::new(true),
+            num_predicates: AtomicUsize::new(0),
             scan_context: Arc::new(ScanContext::default()),
         }
     }
 
     pub(crate) fn is_empty(&self) -> bool {
-        self.is_empty.load(Ordering::Acquire)
+        self.num_predicates.load(Ordering::Acquire) == 0
     }
 
     pub(crate) fn remove_predicates_registered_before(&self, ts: Instant)
@@ -95,15 +97,9 @@ impl<K, V, S> Invalidator<K, V, S> {
 
         for id in removing_ids {
             let hash = pred_map.hash(&id);
-            pred_map.remove(hash, |k| k == &id);
-        }
-
-        if pred_map.is_empty() {
             verif_pt!("invalidator.before_empty");
-            self.is_empty.swap(true, Ordering::AcqRel);
-            // Another thread may have registered a predicate in the meantime.
-            if !pred_map.is_empty() {
-                self.is_empty.store(false, Ordering::Release);
+            if pred_map.remove(hash, |k| k == &id).is_some() {
+                self.num_predicates.fetch_sub(1, Ordering::AcqRel);
             }
         }
     }
@@ -131,8 +127,8 @@ impl<K, V, S> Invalidator<K, V, S> {
                 continue; // Retry
             }
             let pred = Predicate::new(&id, predicate, registered_at);
+            self.num_predicates.fetch_add(1, Ordering::AcqRel);
             preds.insert_entry_and(id.clone(), hash, pred, |_, _| ());
-            self.is_empty.store(false, Ordering::Release);
 
             return Ok(id);
         }
@@ -143,23 +139,41 @@ impl<K, V, S> Invalidator<K, V, S> {
         panic!("Cannot assign a new PredicateId to a predicate");
     }
 
-    // This method will be called by the get method of Cache.
+    /// Returns the predicates registered now.
+    ///
+    /// This must be called _before_ looking up the entry to apply them to. Otherwise,
+    /// a scan may remove the entry and then the predicates between the two, and the
+    /// removed entry would be taken for a valid one.
     #[inline]
-    pub(crate) fn apply_predicates(&self, key: &Arc<K>, entry: &MiniArc<ValueEntry<K, V>>) -> bool
+    pub(crate) fn registered_predicates(&self) -> Vec<Predicate<K, V>>
     where
         K: Hash + Eq + Send + Sync + 'static,
         V: Clone + Send + Sync + 'static,
         S: BuildHasher + Send + Sync + 'static,
     {
         if self.is_empty() {
+            Vec::default()
+        } else {
+            self.predicates.iter().map(|(_, v)| v).collect()
+        }
+    }
+
+    // This method will be called by the get method of Cache.
+    #[inline]
+    pub(crate) fn apply_predicates(
+        predicates: &[Predicate<K, V>],
+        key: &Arc<K>,
+        entry: &MiniArc<ValueEntry<K, V>>,
+    ) -> bool
+    where
+        K: Hash + Eq + Send + Sync + 'static,
+        V: Clone + Send + Sync + 'static,
+        S: BuildHasher + Send + Sync + 'static,
+    {
+        if predicates.is_empty() {
             false
         } else if let Some(ts) = entry.last_modified() {
-            Self::do_apply_predicates(
-                self.predicates.iter().map(|(_, v)| v),
-                key,
-                &entry.value,
-                ts,
-            )
+            Self::do_apply_predicates(predicates.iter().cloned(), key, &entry.value, ts)
         } else {
             false
         }
@@ -275,15 +289,9 @@ where
         let pred_map = &self.predicates;
         for p in predicates {
             let hash = pred_map.hash(p.id());
-            pred_map.remove(hash, |k| k == p.id());
-        }
-
-        if pred_map.is_empty() {
             verif_pt!("invalidator.before_empty");
-            self.is_empty.swap(true, Ordering::AcqRel);
-            // Another thread may have registered a predicate in the meantime.
-            if !pred_map.is_empty() {
-                self.is_empty.store(false, Ordering::Release);
+            if pred_map.remove(hash, |k| k == p.id()).is_some() {
+                self.num_predicates.fetch_sub(1, Ordering::AcqRel);
             }
         }
     }
@@ -374,7 +382,7 @@ impl<K, V> Default for ScanContext<K, V> {
     }
 }
 
-struct Predicate<K, V> {
+pub(crate) struct Predicate<K, V> {
     id: PredicateId,
     f: PredicateFun<K, V>,
     registered_at: Instant,
diff --git a/src/sync/base_cache.rs b/src/sync/base_cache.rs
index 7d00e5b..b9c108a 100644
--- a/src/sync/base_cache.rs
+++ b/src/sync/base_cache.rs
@@ -1,5 +1,5 @@
 use super::{
-    invalidator::{Invalidator, KeyDateLite, PredicateFun},
+    invalidator::{Invalidator, KeyDateLite, Predicate, PredicateFun},
     key_lock::{KeyLock, KeyLockMap},
     PredicateId,
 };
@@ -198,6 +198,8 @@ where
     where
         Q: Equivalent<K> + Hash + ?Sized,
     {
+        let predicates = self.inner.invalidation_predicates();
+
         // TODO: Maybe we can just call ScanningGet::scanning_get.
         self.inner
             .get_key_value_and(key, hash, |k, entry| {
@@ -208,7 +210,7 @@ where
                 !is_expired_by_per_entry_ttl(entry.entry_info(), now)
                     && !is_expired_entry_wo(ttl, va, entry, now)
                     && !is_expired_entry_ao(tti, va, entry, now)
-                    && !i.is_invalidated_entry(k, entry)
+                    && !i.is_invalidated_entry(&predicates, k, entry)
             })
             .unwrap_or_default() // `false` is the default for `bool` type.
     }
@@ -278,6 +280,7 @@ where
             return None;
         }
 
+        let predicates = self.inner.invalidation_predicates();
         let mut now = self.current_time();
 
         let maybe_entry = self
@@ -289,7 +292,7 @@ where
                 if is_expired_by_per_entry_ttl(entry.entry_info(), now)
                     || is_expired_entry_wo(ttl, va, entry, now)
                     || is_expired_entry_ao(tti, va, entry, now)
-                    || i.is_invalidated_entry(k, entry)
+                    || i.is_invalidated_entry(&predicates, k, entry)
                 {
                     // Expired or invalidated entry.
                     None
@@ -430,6 +433,7 @@ where
 
     fn scanning_get(&self, key: &Arc<K>) -> Option<V> {
         let hash = self.hash(&**key);
+        let predicates = self.inner.invalidation_predicates();
         self.inner.get_key_value_and_then(&**key, hash, |k, entry| {
             let i = &self.inner;
             let (ttl, tti, va) = (&i.time_to_live(), &i.time_to_idle(), &i.valid_after());
@@ -438,7 +442,7 @@ where
             if is_expired_by_per_entry_ttl(entry.entry_info(), now)
                 || is_expired_entry_wo(ttl, va, entry, now)
                 || is_expired_entry_ao(tti, va, entry, now)
-                || i.is_invalidated_entry(k, entry)
+                || i.is_invalidated_entry(&predicates, k, entry)
             {
                 // Expired or invalidated entry.
                 None
@@ -1125,16 +1129,33 @@ where
         }
     }
 
+    /// Returns the predicates registered by `invalidate_entries_if` method. This must
+    /// be called before looking up the entry to call `is_invalidated_entry` with.
+    #[inline]
+    fn invalidation_predicates(&self) -> Vec<Predicate<K, V>>
+    where
+        V: Clone,
+    {
+        self.invalidator
+            .as_ref()
+            .map(|inv| inv.registered_predicates())
+            .unwrap_or_default()
+    }
+
     /// Returns `true` if the entry is invalidated by `invalidate_entries_if` method.
+    /// `predicates` must have been obtained by `invalidation_predicates` method before
+    /// the entry was looked up.
     #[inline]
-    fn is_invalidated_entry(&self, key: &Arc<K>, entry: &MiniArc<ValueEntry<K, V>>) -> bool
+    fn is_invalidated_entry(
+        &self,
+        predicates: &[Predicate<K, V>],
+        key: &Arc<K>,
+        entry: &MiniArc<ValueEntry<K, V>>,
+    ) -> bool
     where
         V: Clone,
     {
-        if let Some(inv) = &self.invalidator {
-            return inv.apply_predicates(key, entry);
-        }
-        false
+        Invalidator::<K, V, S>::apply_predicates(predicates, key, entry)
     }
 
     #[inline]
diff --git a/src/sync/invalidator.rs b/src/sync/invalidator.rs
index 1f44160..6c181a6 100644
--- a/src/sync/invalidator.rs
+++ b/src/sync/invalidator.rs
@@ -12,7 +12,7 @@ use parking_lot::{Mutex, MutexGuard};
 use std::{
     hash::{BuildHasher, Hash},
     sync::{
-        atomic::{AtomicBool, Ordering},
+        atomic::{AtomicUsize, Ordering},
         Arc,
     },
 };
@@ -50,7 +50,9 @@ impl<K> KeyDateLite<K> {
 
 pub(crate) struct Invalidator<K, V, S> {
     predicates: crate::cht::SegmentedHashMap<PredicateId, Predicate<K, V>, S>,
-    is_empty: AtomicBool,
+    // The number of predicates registered, or being registered or removed. Zero only
+    // if there are no predicates.
+    num_predicates: AtomicUsize,
     scan_context: Arc<ScanContext<K, V>>,
 }
 
@@ -70,13 +72,13 @@ impl<K, V, S> Invalidator<K, V, S> {
         );
         Self {
             predicates,
-            is_empty: AtomicBool::new(true),
+            num_predicates: AtomicUsize::new(0),
             scan_context: Arc::new(ScanContext::default()),
         }
     }
 
     pub(crate) fn is_empty(&self) -> bool {
-        self.is_empty.load(Ordering::Acquire)
+        self.num_predicates.load(Ordering::Acquire) == 0
     }
 
     pub(crate) fn remove_predicates_registered_before(&self, ts: Instant)
@@ -95,15 +97,9 @@ impl<K, V, S> Invalidator<K, V, S> {
 
         for id in removing_ids {
             let hash = pred_map.hash(&id);
-            pred_map.remove(hash, |k| k == &id);
-        }
-
-        if pred_map.is_empty() {
             verif_pt!("invalidator.before_empty");
-            self.is_empty.swap(true, Ordering::AcqRel);
-            // Another thread may have registered a predicate in the meantime.
-            if !pred_map.is_empty() {
-                self.is_empty.store(false, Ordering::Release);
+            if pred_map.remove(hash, |k| k == &id).is_some() {
+                self.num_predicates.fetch_sub(1, Ordering::AcqRel);
             }
         }
     }
@@ -131,8 +127,8 @@ impl<K, V, S> Invalidator<K, V, S> {
                 continue; // Retry
             }
             let pred = Predicate::new(&id, predicate, registered_at);
+            self.num_predicates.fetch_add(1, Ordering::AcqRel);
             preds.insert_entry_and(id.clone(), hash, pred, |_, _| ());
-            self.is_empty.store(false, Ordering::Release);
 
             return Ok(id);
         }
@@ -143,23 +139,41 @@ impl<K, V, S> Invalidator<K, V, S> {
         panic!("Cannot assign a new PredicateId to a predicate");
     }
 
-    // This method will be called by the get method of Cache.
+    /// Returns the predicates registered now.
+    ///
+    /// This must be called _before_ looking up the entry to apply them to. Otherwise,
+    /// a scan may remove the entry and then the predicates between the two, and the
+    /// removed entry would be taken for a valid one.
     #[inline]
-    pub(crate) fn apply_predicates(&self, key: &Arc<K>, entry: &MiniArc<ValueEntry<K, V>>) -> bool
+    pub(crate) fn registered_predicates(&self) -> Vec<Predicate<K, V>>
     where
         K: Hash + Eq + Send + Sync + 'static,
         V: Clone + Send + Sync + 'static,
         S: BuildHasher,
     {
         if self.is_empty() {
+            Vec::default()
+        } else {
+            self.predicates.iter().map(|(_, v)| v).collect()
+        }
+    }
+
+    // This method will be called by the get method of Cache.
+    #[inline]
+    pub(crate) fn apply_predicates(
+        predicates: &[Predicate<K, V>],
+        key: &Arc<K>,
+        entry: &MiniArc<ValueEntry<K, V>>,
+    ) -> bool
+    where
+        K: Hash + Eq + Send + Sync + 'static,
+        V: Clone + Send + Sync + 'static,
+        S: BuildHasher,
+    {
+        if predicates.is_empty() {
             false
         } else if let Some(ts) = entry.last_modified() {
-            Self::do_apply_predicates(
-                self.predicates.iter().map(|(_, v)| v),
-                key,
-                &entry.value,
-                ts,
-            )
+            Self::do_apply_predicates(predicates.iter().cloned(), key, &entry.value, ts)
         } else {
             false
         }
@@ -275,15 +289,9 @@ where
         let pred_map = &self.predicates;
         for p in predicates.iter() {
             let hash = pred_map.hash(p.id());
-            pred_map.remove(hash, |k| k == p.id());
-        }
-
-        if pred_map.is_empty() {
             verif_pt!("invalidator.before_empty");
-            self.is_empty.swap(true, Ordering::AcqRel);
-            // Another thread may have registered a predicate in the meantime.
-            if !pred_map.is_empty() {
-                self.is_empty.store(false, Ordering::Release);
+            if pred_map.remove(hash, |k| k == p.id()).is_some() {
+                self.num_predicates.fetch_sub(1, Ordering::AcqRel);
             }
         }
     }
@@ -368,7 +376,7 @@ impl<K, V> Default for ScanContext<K, V> {
     }
 }
 
-struct Predicate<K, V> {
+pub(crate) struct Predicate<K, V> {
     id: PredicateId,
     f: PredicateFun<K, V>,
     registered_at: Instant,
-- 
2.43.0


From d240dbdb5a4964c6e8f02cf36bffe03ec311eaef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:34 +0000
Subject: [PATCH 18/22] fix: leak when an insert_if_not_present of the hash
 table loses a race

Dropping a Bucket does not drop its value, so the value made for the failed
attempt (a waiter of get_with and compute, or a key lock) was leaked.
---
 src/cht/map/bucket.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/cht/map/bucket.rs b/src/cht/map/bucket.rs
index 39aef45..8fc4234 100644
--- a/src/cht/map/bucket.rs
+++ b/src/cht/map/bucket.rs
@@ -190,6 +190,7 @@ impl<'g, K: 'g + Eq, V: 'g> BucketArray<K, V> {
 
                 if !is_tombstone(this_bucket_ptr) {
                     // Found. Return it.
+                    state.discard();
                     return Ok(InsertionResult::AlreadyPresent(this_bucket_ptr));
                 }
             }
@@ -620,6 +621,18 @@ impl<K, V, F: FnOnce() -> V> InsertOrModifyState<K, V, F> {
         }
     }
 
+    /// Drops the state, including the value of the bucket made for a failed attempt,
+    /// if any. (Dropping a `Bucket` does not drop its value)
+    fn discard(self) {
+        match self {
+            InsertOrModifyState::New(..) => (),
+            InsertOrModifyState::AttemptedInsertion(mut b)
+            | InsertOrModifyState::AttemptedModification(mut b, _) => {
+                unsafe { ptr::drop_in_place(b.maybe_value.as_mut_ptr()) };
+            }
+        }
+    }
+
     fn into_modify_bucket(self, value: V) -> (Owned<Bucket<K, V>>, ValueOrFunction<V, F>) {
         match self {
             InsertOrModifyState::New(k, f) => (
-- 
2.43.0


From c10ab347333a388a722c11e97ca651f9be09f22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:01 +0000
Subject: [PATCH 19/22] fix: underflow of the frequency sketch's size when most
 counters are odd

With a table larger than the sample allows for (a capacity that is not a power of
two), more than half of the increments can have left odd counters. Subtracting them
after halving underflowed: a panic with overflow checks, and otherwise a huge size
that resets the sketch at every increment. Subtract before halving, as Caffeine does.
---
 src/common/frequency_sketch.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/frequency_sketch.rs b/src/common/frequency_sketch.rs
index 67304f7..e7e876f 100644
--- a/src/common/frequency_sketch.rs
+++ b/src/common/frequency_sketch.rs
@@ -174,7 +174,7 @@ impl FrequencySketch {
             count += (*entry & ONE_MASK).count_ones();
             *entry = (*entry >> 1) & RESET_MASK;
         }
-        self.size = (self.size >> 1) - (count >> 2);
+        self.size = self.size.saturating_sub(count >> 2) >> 1;
     }
 
     /// Returns the table index for the counter at the specified depth.
-- 
2.43.0


From aeb9c418e4527c446b2a160fd2aad5375e308e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:35 +0000
Subject: [PATCH 20/22] verif: small hash table segments under Miri with cfg
 moka_verif

---
 src/cht/map/bucket.rs    | 4 ++++
 src/future/base_cache.rs | 3 +++
 src/sync/base_cache.rs   | 3 +++
 3 files changed, 10 insertions(+)

diff --git a/src/cht/map/bucket.rs b/src/cht/map/bucket.rs
index 8fc4234..5719229 100644
--- a/src/cht/map/bucket.rs
+++ b/src/cht/map/bucket.rs
@@ -13,7 +13,11 @@ use crate::common::concurrent::debug_counters;
 
 use crossbeam_epoch::{Atomic, CompareExchangeError, Guard, Owned, Shared};
 
+#[cfg(not(all(moka_verif, miri)))]
 pub(crate) const BUCKET_ARRAY_DEFAULT_LENGTH: usize = 128;
+// Small, so that little work under Miri goes through many rehashes.
+#[cfg(all(moka_verif, miri))]
+pub(crate) const BUCKET_ARRAY_DEFAULT_LENGTH: usize = 16;
 
 pub(crate) struct BucketArray<K, V> {
     pub(crate) buckets: Box<[Atomic<Bucket<K, V>>]>,
diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index 1977387..55fe8f9 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -1208,6 +1208,9 @@ where
                 .unwrap_or_default();
             (64, ic)
         };
+        // Few, as walking over all of them is slow under Miri.
+        #[cfg(all(moka_verif, miri))]
+        let num_segments = num_segments.min(4);
         let cache = crate::cht::SegmentedHashMap::with_num_segments_capacity_and_hasher(
             num_segments,
             initial_capacity,
diff --git a/src/sync/base_cache.rs b/src/sync/base_cache.rs
index b9c108a..23f350f 100644
--- a/src/sync/base_cache.rs
+++ b/src/sync/base_cache.rs
@@ -1022,6 +1022,9 @@ where
                 .unwrap_or_default();
             (64, ic)
         };
+        // Few, as walking over all of them is slow under Miri.
+        #[cfg(all(moka_verif, miri))]
+        let num_segments = num_segments.min(4);
         let cache = crate::cht::SegmentedHashMap::with_num_segments_capacity_and_hasher(
             num_segments,
             initial_capacity,
-- 
2.43.0


From 3dca12de1193bbfbc9100c001f924f33ce64e83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:38 +0000
Subject: [PATCH 21/22] fix: lost update of the timer of an entry whose
 expiration time was changed by a read

The timer wheel was only updated when the ReadOp of the read reached
apply_reads. When the read channel was full, the read was not recorded, or
the future of the read was dropped, the entry kept its old timer, or none
at all, in which case it was never removed.
---
 src/common/concurrent.rs            |  1 -
 src/common/concurrent/entry_info.rs | 10 ++++
 src/future/base_cache.rs            | 75 +++++++++++++++--------------
 src/sync/base_cache.rs              | 74 ++++++++++++++--------------
 4 files changed, 87 insertions(+), 73 deletions(-)

diff --git a/src/common/concurrent.rs b/src/common/concurrent.rs
index 133e9d5..e77438a 100644
--- a/src/common/concurrent.rs
+++ b/src/common/concurrent.rs
@@ -303,7 +303,6 @@ impl<K, V> AccessTime for MiniArc<ValueEntry<K, V>> {
 pub(crate) enum ReadOp<K, V> {
     Hit {
         value_entry: MiniArc<ValueEntry<K, V>>,
-        is_expiry_modified: bool,
     },
     // u64 is the hash of the key.
     Miss(u64),
diff --git a/src/common/concurrent/entry_info.rs b/src/common/concurrent/entry_info.rs
index 1b85ce6..4e75abf 100644
--- a/src/common/concurrent/entry_info.rs
+++ b/src/common/concurrent/entry_info.rs
@@ -15,6 +15,9 @@ pub(crate) struct EntryInfo<K> {
     /// hash table, and the removal has been applied to the cache policies. A
     /// `WriteOp` of the entry that arrives later must not admit the entry again.
     is_removed: AtomicBool,
+    /// `is_timer_outdated` indicates that a read has changed the `expiration_state`,
+    /// and the change has not been applied to the timer wheel.
+    is_timer_outdated: AtomicBool,
     /// `entry_gen` (entry generation) is incremented every time the entry is updated
     /// in the concurrent hash table.
     entry_gen: AtomicU16,
@@ -54,6 +57,7 @@ impl<K> EntryInfo<K> {
             key_hash,
             is_admitted: AtomicBool::default(),
             is_removed: AtomicBool::default(),
+            is_timer_outdated: AtomicBool::default(),
             // `entry_gen` starts at 1 and `policy_gen` start at 0.
             entry_gen: AtomicU16::new(1),
             policy_gen: AtomicU16::new(0),
@@ -91,6 +95,12 @@ impl<K> EntryInfo<K> {
         self.is_removed.store(true, Ordering::Release);
     }
 
+    /// Sets the `is_timer_outdated` and returns the previous value.
+    #[inline]
+    pub(crate) fn set_timer_outdated(&self, value: bool) -> bool {
+        self.is_timer_outdated.swap(value, Ordering::AcqRel)
+    }
+
     /// Returns `true` if the `ValueEntry` having this `EntryInfo` is dirty.
     ///
     /// Dirty means that the entry has been updated in the concurrent hash table but
diff --git a/src/future/base_cache.rs b/src/future/base_cache.rs
index 55fe8f9..6535c86 100644
--- a/src/future/base_cache.rs
+++ b/src/future/base_cache.rs
@@ -283,8 +283,6 @@ where
                     None
                 } else {
                     // Valid entry.
-                    let mut is_expiry_modified = false;
-
                     // Call the user supplied `expire_after_read` method if any.
                     if let Some(expiry) = &self.inner.expiration_policy.expiry() {
                         let lm = entry.last_modified().expect("Last modified is not set");
@@ -300,24 +298,11 @@ where
 
                         // Call the user supplied `expire_after_read` method.
                         //
-                        // We will put the return value (`is_expiry_modified: bool`) to a
-                        // `ReadOp` so that `apply_reads` method can determine whether or not
-                        // to reschedule the timer for the entry.
-                        //
-                        // NOTE: It is not guaranteed that the `ReadOp` is passed to
-                        // `apply_reads`. Here are the corner cases that the `ReadOp` will
-                        // not be passed to `apply_reads`:
-                        //
-                        // - If the bounded `read_op_ch` channel is full, the `ReadOp` will
-                        //   be discarded.
-                        // - If we were called by `get_with_hash_without_recording` method,
-                        //   the `ReadOp` will not be recorded at all.
-                        //
-                        // These cases are okay because when the timer wheel tries to expire
-                        // the entry, it will check if the entry is actually expired. If not,
-                        // the timer wheel will reschedule the expiration timer for the
-                        // entry.
-                        is_expiry_modified = Self::expire_after_read_or_update(
+                        // If it has changed the expiration time, let the next maintenance
+                        // reschedule the timer for the entry. We do not use a `ReadOp` for
+                        // this because it is not guaranteed that the `ReadOp` is passed to
+                        // `apply_reads`.
+                        if Self::expire_after_read_or_update(
                             |k, v, t, d| expiry.expire_after_read(k, v, t, d, lm),
                             &entry.entry_info().key_hash().key,
                             entry,
@@ -326,7 +311,9 @@ where
                             now,
                             self.inner.clock(),
                             false,
-                        );
+                        ) {
+                            self.inner.record_outdated_timer(entry);
+                        }
                     }
 
                     verif_pt!("base.get.before_touch");
@@ -337,7 +324,6 @@ where
                     let maybe_op = if record_read {
                         Some(ReadOp::Hit {
                             value_entry: MiniArc::clone(entry),
-                            is_expiry_modified,
                         })
                     } else {
                         None
@@ -1044,6 +1030,9 @@ pub(crate) struct Inner<K, V, S> {
     build_hasher: S,
     deques: Mutex<Deques<K>>,
     timer_wheel: Mutex<TimerWheel<K>>,
+    /// The entries whose expiration time has been changed by a read, but the change
+    /// has not been applied to the timer wheel.
+    outdated_timers: parking_lot::Mutex<Vec<MiniArc<ValueEntry<K, V>>>>,
     frequency_sketch: RwLock<FrequencySketch>,
     frequency_sketch_enabled: AtomicBool,
     read_op_ch: Receiver<ReadOp<K, V>>,
@@ -1242,6 +1231,7 @@ where
             build_hasher,
             deques: Mutex::default(),
             timer_wheel,
+            outdated_timers: parking_lot::Mutex::new(Vec::new()),
             frequency_sketch: RwLock::new(FrequencySketch::default()),
             frequency_sketch_enabled: AtomicBool::default(),
             read_op_ch,
@@ -1394,8 +1384,9 @@ where
 
                 let r_len = self.read_op_ch.len();
                 if r_len > 0 {
-                    self.apply_reads(&mut deqs, &mut timer_wheel, r_len).await;
+                    self.apply_reads(&mut deqs, r_len).await;
                 }
+                self.update_outdated_timers(&mut timer_wheel);
 
                 let w_len = self.write_op_ch.len();
                 if w_len > 0 {
@@ -1588,27 +1579,15 @@ where
         self.frequency_sketch_enabled.store(true, Ordering::Release);
     }
 
-    async fn apply_reads(
-        &self,
-        deqs: &mut Deques<K>,
-        timer_wheel: &mut TimerWheel<K>,
-        count: usize,
-    ) {
+    async fn apply_reads(&self, deqs: &mut Deques<K>, count: usize) {
         use ReadOp::{Hit, Miss};
         let mut freq = self.frequency_sketch.write().await;
         let ch = &self.read_op_ch;
         for _ in 0..count {
             match ch.try_recv() {
-                Ok(Hit {
-                    value_entry,
-                    is_expiry_modified,
-                }) => {
+                Ok(Hit { value_entry }) => {
                     let kh = value_entry.entry_info().key_hash();
                     freq.increment(kh.hash);
-                    // If not admitted, the timer will be set when it is admitted.
-                    if is_expiry_modified && value_entry.is_admitted() {
-                        self.update_timer_wheel(&value_entry, timer_wheel);
-                    }
                     deqs.move_to_back_ao(&value_entry);
                 }
                 Ok(Miss(hash)) => freq.increment(hash),
@@ -1969,6 +1948,28 @@ where
         entry.set_admitted(true);
     }
 
+    /// Remembers that the expiration time of the entry has been changed by a read,
+    /// so that the next maintenance will update the timer of the entry.
+    fn record_outdated_timer(&self, entry: &MiniArc<ValueEntry<K, V>>) {
+        if !entry.entry_info().set_timer_outdated(true) {
+            self.outdated_timers.lock().push(MiniArc::clone(entry));
+        }
+    }
+
+    /// Updates the timers of the entries recorded by `record_outdated_timer`.
+    fn update_outdated_timers(&self, timer_wheel: &mut TimerWheel<K>) {
+        let entries = std::mem::take(&mut *self.outdated_timers.lock());
+        for entry in entries {
+            // Clear the flag before reading the expiration time. If it is changed
+            // again after that, the entry will be recorded again.
+            entry.entry_info().set_timer_outdated(false);
+            // If not admitted, the timer will be set when it is admitted.
+            if entry.is_admitted() {
+                self.update_timer_wheel(&entry, timer_wheel);
+            }
+        }
+    }
+
     /// NOTE: This method may enable the timer wheel.
     fn update_timer_wheel(
         &self,
diff --git a/src/sync/base_cache.rs b/src/sync/base_cache.rs
index 23f350f..bf544d0 100644
--- a/src/sync/base_cache.rs
+++ b/src/sync/base_cache.rs
@@ -308,8 +308,6 @@ where
 
         verif_pt!("base.get.looked_up");
         if let Some((maybe_key, entry)) = maybe_entry {
-            let mut is_expiry_modified = false;
-
             // Call the user supplied `expire_after_read` method if any.
             if let Some(expiry) = &self.inner.expiration_policy.expiry() {
                 let lm = entry.last_modified().expect("Last modified is not set");
@@ -325,24 +323,11 @@ where
 
                 // Call the user supplied `expire_after_read` method.
                 //
-                // We will put the return value (`is_expiry_modified: bool`) to a
-                // `ReadOp` so that `apply_reads` method can determine whether or not
-                // to reschedule the timer for the entry.
-                //
-                // NOTE: It is not guaranteed that the `ReadOp` is passed to
-                // `apply_reads`. Here are the corner cases that the `ReadOp` will
-                // not be passed to `apply_reads`:
-                //
-                // - If the bounded `read_op_ch` channel is full, the `ReadOp` will
-                //   be discarded.
-                // - If we were called by `get_with_hash_without_recording` method,
-                //   the `ReadOp` will not be recorded at all.
-                //
-                // These cases are okay because when the timer wheel tries to expire
-                // the entry, it will check if the entry is actually expired. If not,
-                // the timer wheel will reschedule the expiration timer for the
-                // entry.
-                is_expiry_modified = Self::expire_after_read_or_update(
+                // If it has changed the expiration time, let the next maintenance
+                // reschedule the timer for the entry. We do not use a `ReadOp` for
+                // this because it is not guaranteed that the `ReadOp` is passed to
+                // `apply_reads`.
+                if Self::expire_after_read_or_update(
                     |k, v, t, d| expiry.expire_after_read(k, v, t, d, lm),
                     &entry.entry_info().key_hash().key,
                     &entry,
@@ -351,17 +336,16 @@ where
                     now,
                     self.inner.clock(),
                     false,
-                );
+                ) {
+                    self.inner.record_outdated_timer(&entry);
+                }
             }
 
             verif_pt!("base.get.before_touch");
             entry.set_last_accessed(now);
 
             let v = entry.value.clone();
-            let op = ReadOp::Hit {
-                value_entry: entry,
-                is_expiry_modified,
-            };
+            let op = ReadOp::Hit { value_entry: entry };
             read_recorder(op, now);
             Some(Entry::new(maybe_key, v, false, false))
         } else {
@@ -872,6 +856,9 @@ pub(crate) struct Inner<K, V, S> {
     build_hasher: S,
     deques: Mutex<Deques<K>>,
     timer_wheel: Mutex<TimerWheel<K>>,
+    /// The entries whose expiration time has been changed by a read, but the change
+    /// has not been applied to the timer wheel.
+    outdated_timers: Mutex<Vec<MiniArc<ValueEntry<K, V>>>>,
     frequency_sketch: RwLock<FrequencySketch>,
     frequency_sketch_enabled: AtomicBool,
     read_op_ch: Receiver<ReadOp<K, V>>,
@@ -1057,6 +1044,7 @@ where
             build_hasher,
             deques: Mutex::default(),
             timer_wheel,
+            outdated_timers: Mutex::new(Vec::new()),
             frequency_sketch: RwLock::new(FrequencySketch::default()),
             frequency_sketch_enabled: AtomicBool::default(),
             read_op_ch,
@@ -1226,8 +1214,9 @@ where
 
                 let r_len = self.read_op_ch.len();
                 if r_len > 0 {
-                    self.apply_reads(&mut deqs, &mut timer_wheel, r_len);
+                    self.apply_reads(&mut deqs, r_len);
                 }
+                self.update_outdated_timers(&mut timer_wheel);
 
                 let w_len = self.write_op_ch.len();
                 if w_len > 0 {
@@ -1402,22 +1391,15 @@ where
         self.frequency_sketch_enabled.store(true, Ordering::Release);
     }
 
-    fn apply_reads(&self, deqs: &mut Deques<K>, timer_wheel: &mut TimerWheel<K>, count: usize) {
+    fn apply_reads(&self, deqs: &mut Deques<K>, count: usize) {
         use ReadOp::{Hit, Miss};
         let mut freq = self.frequency_sketch.write();
         let ch = &self.read_op_ch;
         for _ in 0..count {
             match ch.try_recv() {
-                Ok(Hit {
-                    value_entry,
-                    is_expiry_modified,
-                }) => {
+                Ok(Hit { value_entry }) => {
                     let kh = value_entry.entry_info().key_hash();
                     freq.increment(kh.hash);
-                    // If not admitted, the timer will be set when it is admitted.
-                    if is_expiry_modified && value_entry.is_admitted() {
-                        self.update_timer_wheel(&value_entry, timer_wheel);
-                    }
                     deqs.move_to_back_ao(&value_entry);
                 }
                 Ok(Miss(hash)) => freq.increment(hash),
@@ -1761,6 +1743,28 @@ where
         entry.set_admitted(true);
     }
 
+    /// Remembers that the expiration time of the entry has been changed by a read,
+    /// so that the next maintenance will update the timer of the entry.
+    fn record_outdated_timer(&self, entry: &MiniArc<ValueEntry<K, V>>) {
+        if !entry.entry_info().set_timer_outdated(true) {
+            self.outdated_timers.lock().push(MiniArc::clone(entry));
+        }
+    }
+
+    /// Updates the timers of the entries recorded by `record_outdated_timer`.
+    fn update_outdated_timers(&self, timer_wheel: &mut TimerWheel<K>) {
+        let entries = std::mem::take(&mut *self.outdated_timers.lock());
+        for entry in entries {
+            // Clear the flag before reading the expiration time. If it is changed
+            // again after that, the entry will be recorded again.
+            entry.entry_info().set_timer_outdated(false);
+            // If not admitted, the timer will be set when it is admitted.
+            if entry.is_admitted() {
+                self.update_timer_wheel(&entry, timer_wheel);
+            }
+        }
+    }
+
     /// NOTE: This method may enable the timer wheel.
     fn update_timer_wheel(
         &self,
-- 
2.43.0


From 256cab7b341bbc4f6678976fc1812fb1cba50f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:38 +0000
Subject: [PATCH 22/22] fix: timers of passed deadlines were kept for a whole
 turn of the timer wheel

When the expiration time of an entry was earlier than the time when the
timer wheel was advanced last time (e.g. the write op of an update was
delayed), its timer was put into a bucket that had been processed already.
---
 src/common/timer_wheel.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/common/timer_wheel.rs b/src/common/timer_wheel.rs
index 54d466a..9fb4d05 100644
--- a/src/common/timer_wheel.rs
+++ b/src/common/timer_wheel.rs
@@ -437,6 +437,11 @@ impl<K> TimerWheel<K> {
     /// Returns the bucket indices to locate the bucket that the timer event
     /// should be added to.
     fn bucket_indices(&self, time: Instant) -> (usize, usize) {
+        // If `time` is earlier than `self.current`, use the bucket of `self.current`,
+        // which will be processed when this timer wheel is advanced next time. The
+        // bucket of `time` may have been processed already, and it will take a whole
+        // turn of the wheel until it is processed again.
+        let time = time.max(self.current);
         let duration_nanos = self.duration_nanos_since_last_advanced(time);
         let time_nanos = self.time_nanos(time);
         for level in 0..=NUM_LEVELS {
-- 
2.43.0

