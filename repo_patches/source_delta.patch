From 8ccc7e0f5d2bfd742ef4f5febb184b70f437f559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:19 +0000
Subject: [PATCH 01/19] fix: request the longest possible host timeout for far
 deadlines

A deadline more than 2^31-1 ms away requested a timeout of 0 ms, so the
timer spun on the event loop until the deadline came into range.
---
 src/timer/global.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/timer/global.rs b/src/timer/global.rs
index 5e183de..3fcc363 100644
--- a/src/timer/global.rs
+++ b/src/timer/global.rs
@@ -72,7 +72,7 @@ fn schedule_callback(timer: Arc<Mutex<Timer>>, when: Duration) {
     } else {
         let _ = set_timeout(
             Closure::once_into_js(cb).unchecked_ref(),
-            i32::try_from(when.as_millis()).unwrap_or(0),
+            i32::try_from(when.as_millis()).unwrap_or(i32::MAX),
         )
         .unwrap();
     }
@@ -80,7 +80,7 @@ fn schedule_callback(timer: Arc<Mutex<Timer>>, when: Duration) {
     #[cfg(not(feature = "tokio-test-util"))]
     let _ = set_timeout(
         Closure::once_into_js(cb).unchecked_ref(),
-        i32::try_from(when.as_millis()).unwrap_or(0),
+        i32::try_from(when.as_millis()).unwrap_or(i32::MAX),
     )
     .unwrap();
 }
-- 
2.43.0


From b31c51a070a707f334d5727920f133e0b07ba1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:41 +0000
Subject: [PATCH 02/19] fix: never leave an armed timer without a host callback

Every wake-up of the timer started a chain of host callbacks, and a
callback that ran while more than 20 chains existed did not request the
next one. When the surviving chains belonged to far deadlines, sleeps and
ticks due earlier were delayed until one of those came around.

Keep track of when the requested callbacks are due and request a new one
exactly if none of them comes in time.
---
 src/timer/global.rs | 147 +++++++++++++++++++++++++++-----------------
 1 file changed, 91 insertions(+), 56 deletions(-)

diff --git a/src/timer/global.rs b/src/timer/global.rs
index 3fcc363..e3db787 100644
--- a/src/timer/global.rs
+++ b/src/timer/global.rs
@@ -12,6 +12,9 @@ use crate::js::set_timeout;
 use crate::std::Instant;
 use crate::timer::{Timer, TimerHandle};
 
+/// Number of outstanding host callbacks above which new ones are spread out.
+const MANY_CALLBACKS: usize = 8;
+
 /// Starts a background task, creates a `Timer`, and returns a handle to it.
 ///
 /// > **Note**: Contrary to the original `futures-timer` crate, we don't have
@@ -20,77 +23,109 @@ use crate::timer::{Timer, TimerHandle};
 pub(crate) fn run() -> TimerHandle {
     let timer = Timer::new();
     let handle = timer.handle();
-    schedule_callback(Arc::new(Mutex::new(timer)), Duration::new(0, 0));
+    let driver = Arc::new(Driver {
+        timer: Mutex::new(timer),
+        pending: Mutex::new(Vec::new()),
+    });
+    schedule_callback(&driver, Duration::new(0, 0));
     handle
 }
 
-/// Calls `Window::setTimeout` with the given `Duration`. The callback wakes up the timer and
-/// processes everything.
-fn schedule_callback(timer: Arc<Mutex<Timer>>, when: Duration) {
-    let cb = move || {
-        let mut timer_lock = timer.lock();
-
-        // We start by polling the timer. If any new `Delay` is created, the waker will be used
-        // to wake up this task pre-emptively. As such, we pass a `Waker` that calls
-        // `schedule_callback` with a delay of `0`.
-        let waker = task::waker(Arc::new(Waker {
-            timer: timer.clone(),
-        }));
-        let _ = Future::poll(Pin::new(&mut *timer_lock), &mut Context::from_waker(&waker));
-
-        // Notify the timers that are ready.
-        let now = Instant::now();
-        timer_lock.advance_to(now);
-
-        // Each call to `schedule_callback` calls `schedule_callback` again, but also leaves
-        // the possibility for `schedule_callback` to be called in parallel. Since we don't
-        // want too many useless callbacks, we...
-        // TODO: ugh, that's a hack
-        if Arc::strong_count(&timer) > 20 {
-            return;
-        }
+/// The global `Timer`, together with what is needed to drive it from host callbacks.
+struct Driver {
+    timer: Mutex<Timer>,
 
-        // We call `schedule_callback` again for the next event.
-        let sleep_dur = timer_lock
-            .next_event()
-            .map(|next_event| {
-                if next_event > now {
-                    next_event - now
-                } else {
-                    Duration::new(0, 0)
-                }
-            })
-            .unwrap_or(Duration::from_secs(5));
-        drop(timer_lock);
-
-        schedule_callback(timer, sleep_dur);
-    };
+    /// When the host callbacks that were requested and didn't run yet are due, on the clock of
+    /// the host.
+    pending: Mutex<Vec<Instant>>,
+}
+
+/// Wakes up the timer and processes everything.
+fn run_callback(driver: &Arc<Driver>) {
+    let mut timer_lock = driver.timer.lock();
+
+    // We start by polling the timer. If any new `Delay` is created, the waker will be used
+    // to wake up this task pre-emptively. As such, we pass a `Waker` that calls
+    // `schedule_callback` with a delay of `0`.
+    let waker = task::waker(Arc::new(Waker {
+        driver: driver.clone(),
+    }));
+    let _ = Future::poll(Pin::new(&mut *timer_lock), &mut Context::from_waker(&waker));
+
+    // Notify the timers that are ready.
+    let now = Instant::now();
+    timer_lock.advance_to(now);
+
+    // While the clock is paused, only a wake-up can make a difference.
+    #[cfg(feature = "tokio-test-util")]
+    if super::clock::clock().paused() {
+        return;
+    }
 
+    // We call `schedule_callback` again for the next event.
+    let sleep_dur = timer_lock
+        .next_event()
+        .map(|next_event| {
+            if next_event > now {
+                next_event - now
+            } else {
+                Duration::new(0, 0)
+            }
+        })
+        .unwrap_or(Duration::from_secs(5));
+    drop(timer_lock);
+
+    schedule_callback(driver, sleep_dur);
+}
+
+/// Calls `Window::setTimeout` with the given `Duration`, unless a callback that was already
+/// requested comes in time.
+fn schedule_callback(driver: &Arc<Driver>, when: Duration) {
     #[cfg(feature = "tokio-test-util")]
     if super::clock::clock().paused() {
-        cb();
-    } else {
-        let _ = set_timeout(
-            Closure::once_into_js(cb).unchecked_ref(),
-            i32::try_from(when.as_millis()).unwrap_or(i32::MAX),
-        )
-        .unwrap();
+        return run_callback(driver);
     }
 
-    #[cfg(not(feature = "tokio-test-util"))]
-    let _ = set_timeout(
-        Closure::once_into_js(cb).unchecked_ref(),
-        i32::try_from(when.as_millis()).unwrap_or(i32::MAX),
-    )
-    .unwrap();
+    // Hosts don't call back earlier than after 1 ms.
+    let mut delay = i32::try_from(when.as_millis()).unwrap_or(i32::MAX).max(1);
+    let now = Instant::now_js();
+    let mut due = now + Duration::from_millis(delay as u64);
+    {
+        let mut pending = driver.pending.lock();
+
+        // A callback that is overdue might be delayed for much longer, don't count on it.
+        if pending.iter().any(|&at| now <= at && at <= due) {
+            return;
+        }
+
+        // Many callbacks mean that the requests came in with decreasing deadlines. Round them,
+        // such that the next ones will find a callback that comes in time.
+        if pending.len() >= MANY_CALLBACKS {
+            delay = 1 << (31 - delay.leading_zeros());
+            due = now + Duration::from_millis(delay as u64);
+        }
+        pending.push(due);
+    }
+
+    let driver = driver.clone();
+    let cb = move || {
+        {
+            let mut pending = driver.pending.lock();
+            if let Some(index) = pending.iter().position(|&at| at == due) {
+                pending.swap_remove(index);
+            }
+        }
+        run_callback(&driver);
+    };
+    let _ = set_timeout(Closure::once_into_js(cb).unchecked_ref(), delay).unwrap();
 }
 
 struct Waker {
-    timer: Arc<Mutex<Timer>>,
+    driver: Arc<Driver>,
 }
 
 impl ArcWake for Waker {
     fn wake_by_ref(arc_self: &Arc<Self>) {
-        schedule_callback(arc_self.timer.clone(), Duration::new(0, 0));
+        schedule_callback(&arc_self.driver, Duration::new(0, 0));
     }
 }
-- 
2.43.0


From 0d7f08d5ed2de1944072ed687923d72dbcfbf389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:55 +0000
Subject: [PATCH 03/19] fix: run wakers without holding the lock of the timer

Wakers of tasks were called and dropped while the timer was locked. A
waker that uses a timer itself while the clock is paused ran into that
lock again ("Parking not supported on this platform").
---
 src/timer/global.rs | 22 ++++++++++++++--------
 src/timer/mod.rs    | 39 +++++++++++++++++++++++++--------------
 2 files changed, 39 insertions(+), 22 deletions(-)

diff --git a/src/timer/global.rs b/src/timer/global.rs
index e3db787..2f8338a 100644
--- a/src/timer/global.rs
+++ b/src/timer/global.rs
@@ -42,19 +42,27 @@ struct Driver {
 
 /// Wakes up the timer and processes everything.
 fn run_callback(driver: &Arc<Driver>) {
-    let mut timer_lock = driver.timer.lock();
-
     // We start by polling the timer. If any new `Delay` is created, the waker will be used
     // to wake up this task pre-emptively. As such, we pass a `Waker` that calls
     // `schedule_callback` with a delay of `0`.
     let waker = task::waker(Arc::new(Waker {
         driver: driver.clone(),
     }));
+    let mut timer_lock = driver.timer.lock();
     let _ = Future::poll(Pin::new(&mut *timer_lock), &mut Context::from_waker(&waker));
 
-    // Notify the timers that are ready.
+    // Notify the timers that are ready. The wakers of the tasks might use timers, so they
+    // must neither be called nor be dropped while the lock is held.
     let now = Instant::now();
-    timer_lock.advance_to(now);
+    while let Some(fired) = timer_lock.advance_to(now) {
+        drop(timer_lock);
+        fired.waker.wake();
+        drop(fired);
+        timer_lock = driver.timer.lock();
+    }
+    let unused = timer_lock.take_unused();
+    drop(timer_lock);
+    drop(unused);
 
     // While the clock is paused, only a wake-up can make a difference.
     #[cfg(feature = "tokio-test-util")]
@@ -63,8 +71,8 @@ fn run_callback(driver: &Arc<Driver>) {
     }
 
     // We call `schedule_callback` again for the next event.
-    let sleep_dur = timer_lock
-        .next_event()
+    let next_event = driver.timer.lock().next_event();
+    let sleep_dur = next_event
         .map(|next_event| {
             if next_event > now {
                 next_event - now
@@ -73,8 +81,6 @@ fn run_callback(driver: &Arc<Driver>) {
             }
         })
         .unwrap_or(Duration::from_secs(5));
-    drop(timer_lock);
-
     schedule_callback(driver, sleep_dur);
 }
 
diff --git a/src/timer/mod.rs b/src/timer/mod.rs
index f2a3f30..c9ccdcc 100644
--- a/src/timer/mod.rs
+++ b/src/timer/mod.rs
@@ -274,6 +274,9 @@ mod heap;
 pub struct Timer {
     inner: Arc<Inner>,
     timer_heap: Heap<HeapTimer>,
+
+    /// Timers which are not in the heap any more and wait for `take_unused`.
+    unused: Vec<Arc<Node<ScheduledTimer>>>,
 }
 
 /// A handle to a `Timer` which is used to create instances of a `Delay`.
@@ -325,6 +328,7 @@ impl Timer {
                 waker: AtomicWaker::new(),
             }),
             timer_heap: Heap::new(),
+            unused: Vec::new(),
         }
     }
 
@@ -347,17 +351,19 @@ impl Timer {
     /// Proces any timers which are supposed to fire before `now` specified.
     ///
     /// This method should be called on `Timer` periodically to advance the
-    /// internal state and process any pending timers which need to fire.
-    pub fn advance_to(&mut self, now: Instant) {
+    /// internal state and process any pending timers which need to fire. It
+    /// returns after each timer that fired, with the timer whose task has to
+    /// be notified: that runs foreign code, which may use the `Timer` again.
+    pub fn advance_to(&mut self, now: Instant) -> Option<Arc<Node<ScheduledTimer>>> {
         loop {
             match self.timer_heap.peek() {
                 Some(head) if head.at <= now => {}
-                Some(_) => break,
-                None => break,
+                Some(_) => return None,
+                None => return None,
             };
 
-            // Flag the timer as fired and then notify its task, if any, that's
-            // blocked.
+            // Flag the timer as fired and then let its task, if any, that's
+            // blocked be notified.
             let heap_timer = self.timer_heap.pop().unwrap();
             *heap_timer.node.slot.lock().unwrap() = None;
             let bits = heap_timer.gen << 2;
@@ -366,8 +372,8 @@ impl Timer {
                 .state
                 .compare_exchange(bits, bits | 0b01, SeqCst, SeqCst)
             {
-                Ok(_) => heap_timer.node.waker.wake(),
-                Err(_b) => {}
+                Ok(_) => return Some(heap_timer.node),
+                Err(_b) => self.unused.push(heap_timer.node),
             }
         }
     }
@@ -393,12 +399,17 @@ impl Timer {
     fn remove(&mut self, node: Arc<Node<ScheduledTimer>>) {
         // If this `idx` is still around and it's still got a registered timer,
         // then we jettison it form the timer heap.
-        let mut slot = node.slot.lock().unwrap();
-        let heap_slot = match slot.take() {
-            Some(slot) => slot,
-            None => return,
-        };
-        self.timer_heap.remove(heap_slot);
+        let slot = node.slot.lock().unwrap().take();
+        if let Some(heap_slot) = slot {
+            self.timer_heap.remove(heap_slot);
+        }
+        self.unused.push(node);
+    }
+
+    /// Returns the timers that were given up since the last call. Dropping them
+    /// drops the wakers of their tasks, which runs foreign code.
+    pub fn take_unused(&mut self) -> Vec<Arc<Node<ScheduledTimer>>> {
+        std::mem::take(&mut self.unused)
     }
 
     fn invalidate(&mut self, node: Arc<Node<ScheduledTimer>>) {
-- 
2.43.0


From b8d0e0a8740b30d9e37ed6a3bb98e0674e1ef4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:15 +0000
Subject: [PATCH 04/19] fix: don't hand out delay queue entries early with
 tokio-test-util

With the feature the wheel was polled for the millisecond after the one
that was reached, so entries came out up to 1 ms before their deadline.
---
 src/tokio_util/delay_queue.rs | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/src/tokio_util/delay_queue.rs b/src/tokio_util/delay_queue.rs
index cb680a5..0e89fb7 100644
--- a/src/tokio_util/delay_queue.rs
+++ b/src/tokio_util/delay_queue.rs
@@ -467,20 +467,7 @@ impl<T> DelayQueue<T> {
                     ready!(Pin::new(&mut *delay).poll(cx));
                 }
 
-                let now = super::ms(delay.deadline() - self.start, super::Round::Down);
-
-                #[cfg(feature = "tokio-test-util")]
-                {
-                    // +1 here is a tricky way to avoid infinite loop
-                    // in tokio the auto advance feature will always advances time to next time
-                    // event and prevent the infinite loop. But this crate doesn't support auto
-                    // advancing and it will lead this loop to run till infinity.
-                    self.wheel_now = now + 1;
-                }
-                #[cfg(not(feature = "tokio-test-util"))]
-                {
-                    self.wheel_now = now;
-                }
+                self.wheel_now = super::ms(delay.deadline() - self.start, super::Round::Down);
             }
 
             // We poll the wheel to get the next value out before finding the next deadline.
-- 
2.43.0


From f63e9ae4304d85d8cc4693ac9a468b6b61919125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:20 +0000
Subject: [PATCH 05/19] fix: wake the task that waits on a delay queue when it
 is emptied

Removing the last entry and clear() dropped the delay the task was waiting
for, or, if the entry was about to be handed out, left an outdated one
behind: the task wasn't told that the queue is empty, or much too late.
---
 src/tokio_util/delay_queue.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/tokio_util/delay_queue.rs b/src/tokio_util/delay_queue.rs
index 0e89fb7..7ed1239 100644
--- a/src/tokio_util/delay_queue.rs
+++ b/src/tokio_util/delay_queue.rs
@@ -370,6 +370,9 @@ impl<T> DelayQueue<T> {
                 (Some(deadline), None) => self.delay = Some(Box::pin(sleep_until(deadline))),
             }
         }
+        if self.slab.is_empty() {
+            self.set_drained();
+        }
 
         Expired {
             key: Key::new(key.index),
@@ -428,7 +431,15 @@ impl<T> DelayQueue<T> {
         self.slab.clear();
         self.expired = Stack::default();
         self.wheel = Wheel::new();
+        self.set_drained();
+    }
+
+    /// There is nothing left to wait for: the next poll returns `None`.
+    fn set_drained(&mut self) {
         self.delay = None;
+        if let Some(waker) = self.waker.take() {
+            waker.wake();
+        }
     }
 
     pub fn capacity(&self) -> usize {
-- 
2.43.0


From 47cc119545412fd99ef8266b8fe7770e16a1be82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:26 +0000
Subject: [PATCH 06/19] fix: wake the task that waits on a delay queue when an
 entry is reset to the past

Such an entry can be handed out at once, but the task kept waiting for the
delay of the next entry in the wheel, or for one that had been replaced.
---
 src/tokio_util/delay_queue.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/tokio_util/delay_queue.rs b/src/tokio_util/delay_queue.rs
index 7ed1239..7ac8e8d 100644
--- a/src/tokio_util/delay_queue.rs
+++ b/src/tokio_util/delay_queue.rs
@@ -406,6 +406,13 @@ impl<T> DelayQueue<T> {
             // This should awaken us if necessary (ie, if already expired)
             delay.as_mut().reset(deadline);
         }
+
+        // The delay doesn't cover entries which have been expired from the start
+        if self.slab[*key].expired {
+            if let Some(waker) = self.waker.take() {
+                waker.wake();
+            }
+        }
     }
 
     pub fn shrink_to_fit(&mut self) {
-- 
2.43.0


From afd8262385d318bb7d8ece65e818255556b70451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:04 +0000
Subject: [PATCH 07/19] fix: keep delay queue deadlines beyond the end of the
 wheel's range

The wheel covers 2^36 ms. Deadlines on the other side of a multiple of
that were assigned to a level that doesn't exist and panicked, whatever
the timeout. Use the slots of the top level for the next round. Selecting
a slot also overflowed on wasm32 with overflow checks once the queue was
about 2^32 ms old.
---
 src/tokio_util/wheel/level.rs | 18 +++++++++++++-----
 src/tokio_util/wheel/mod.rs   |  8 +++++++-
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/tokio_util/wheel/level.rs b/src/tokio_util/wheel/level.rs
index 6427440..eff67d3 100644
--- a/src/tokio_util/wheel/level.rs
+++ b/src/tokio_util/wheel/level.rs
@@ -140,7 +140,13 @@ impl<T: Stack> Level<T> {
 
         // TODO: This can probably be simplified w/ power of 2 math
         let level_start = now - (now % level_range);
-        let deadline = level_start + slot as u64 * slot_range;
+        let mut deadline = level_start + slot as u64 * slot_range;
+
+        // Slots before the current one are only used on the top level, for the
+        // next round. The current slot itself was emptied when it was reached.
+        if self.level == super::NUM_LEVELS - 1 && deadline <= now {
+            deadline += level_range;
+        }
 
         debug_assert!(
             deadline >= now,
@@ -164,11 +170,13 @@ impl<T: Stack> Level<T> {
             return None;
         }
 
-        // Get the slot for now using Maths
-        let now_slot = (now / slot_range(self.level)) as usize;
-        let occupied = self.occupied.rotate_right(now_slot as u32);
+        // Get the slot for now using Maths. On the top level the current slot
+        // is the one that is reached last, at the end of the next round.
+        let first = now / slot_range(self.level) + (self.level == super::NUM_LEVELS - 1) as u64;
+        let first_slot = (first % LEVEL_MULT as u64) as usize;
+        let occupied = self.occupied.rotate_right(first_slot as u32);
         let zeros = occupied.trailing_zeros() as usize;
-        let slot = (zeros + now_slot) % 64;
+        let slot = (zeros + first_slot) % LEVEL_MULT;
 
         Some(slot)
     }
diff --git a/src/tokio_util/wheel/mod.rs b/src/tokio_util/wheel/mod.rs
index 82f59c4..ba5eb30 100644
--- a/src/tokio_util/wheel/mod.rs
+++ b/src/tokio_util/wheel/mod.rs
@@ -193,7 +193,13 @@ fn level_for(elapsed: u64, when: u64) -> usize {
 
     // Mask in the trailing bits ignored by the level calculation in order to cap
     // the possible leading zeros
-    let masked = elapsed ^ when | SLOT_MASK;
+    let mut masked = elapsed ^ when | SLOT_MASK;
+
+    // Timers may cross the end of the range of the top level, whose slots are
+    // then used for the next round.
+    if masked > MAX_DURATION {
+        masked = MAX_DURATION;
+    }
 
     let leading_zeros = masked.leading_zeros() as usize;
     let significant = 63 - leading_zeros;
-- 
2.43.0


From 63201aa82cda0272e42128d7f402228a340036b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:09 +0000
Subject: [PATCH 08/19] fix: accept the same timeouts after clearing a delay
 queue as before

clear() set the wheel back to the creation of the queue. From then on the
time since then counted towards the longest timeout that insert accepts,
and queues older than that panicked on every insert.
---
 src/tokio_util/delay_queue.rs | 2 +-
 src/tokio_util/wheel/mod.rs   | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tokio_util/delay_queue.rs b/src/tokio_util/delay_queue.rs
index 7ac8e8d..b01dacc 100644
--- a/src/tokio_util/delay_queue.rs
+++ b/src/tokio_util/delay_queue.rs
@@ -437,7 +437,7 @@ impl<T> DelayQueue<T> {
     pub fn clear(&mut self) {
         self.slab.clear();
         self.expired = Stack::default();
-        self.wheel = Wheel::new();
+        self.wheel.clear();
         self.set_drained();
     }
 
diff --git a/src/tokio_util/wheel/mod.rs b/src/tokio_util/wheel/mod.rs
index ba5eb30..e131616 100644
--- a/src/tokio_util/wheel/mod.rs
+++ b/src/tokio_util/wheel/mod.rs
@@ -34,6 +34,11 @@ where
         Wheel { elapsed: 0, levels }
     }
 
+    /// Removes all timers. The time that has elapsed stays the same.
+    pub(crate) fn clear(&mut self) {
+        self.levels = (0..NUM_LEVELS).map(Level::new).collect();
+    }
+
     pub(crate) fn elapsed(&self) -> u64 {
         self.elapsed
     }
-- 
2.43.0


From 831fe0511565dfd7c133df378a88544c0ea34e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:35 +0000
Subject: [PATCH 09/19] fix: return None from an emptied delay queue at once

After handing out the last entry, if that had been inserted with a deadline
in the past, polling returned Pending until the delay had fired.
---
 src/tokio_util/delay_queue.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tokio_util/delay_queue.rs b/src/tokio_util/delay_queue.rs
index b01dacc..e5b0da0 100644
--- a/src/tokio_util/delay_queue.rs
+++ b/src/tokio_util/delay_queue.rs
@@ -314,6 +314,11 @@ impl<T> DelayQueue<T> {
             debug_assert!(data.next.is_none());
             debug_assert!(data.prev.is_none());
 
+            // The delay might belong to an entry that expired from the start
+            if self.slab.is_empty() {
+                self.delay = None;
+            }
+
             Expired {
                 key,
                 data: data.inner,
-- 
2.43.0


From 42d1361acd1ae9e5de41db6c834d974537883437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:18 +0000
Subject: [PATCH 10/19] fix: apply what a waker changed before notifying the
 next timer

When several timers were due at once, one whose sleep was dropped by the
waker of another was still notified.
---
 src/timer/global.rs | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/timer/global.rs b/src/timer/global.rs
index 2f8338a..016db9c 100644
--- a/src/timer/global.rs
+++ b/src/timer/global.rs
@@ -42,27 +42,31 @@ struct Driver {
 
 /// Wakes up the timer and processes everything.
 fn run_callback(driver: &Arc<Driver>) {
-    // We start by polling the timer. If any new `Delay` is created, the waker will be used
+    // We poll the timer first. If any new `Delay` is created, the waker will be used
     // to wake up this task pre-emptively. As such, we pass a `Waker` that calls
     // `schedule_callback` with a delay of `0`.
     let waker = task::waker(Arc::new(Waker {
         driver: driver.clone(),
     }));
-    let mut timer_lock = driver.timer.lock();
-    let _ = Future::poll(Pin::new(&mut *timer_lock), &mut Context::from_waker(&waker));
-
-    // Notify the timers that are ready. The wakers of the tasks might use timers, so they
-    // must neither be called nor be dropped while the lock is held.
     let now = Instant::now();
-    while let Some(fired) = timer_lock.advance_to(now) {
+    loop {
+        let mut timer_lock = driver.timer.lock();
+        let _ = Future::poll(Pin::new(&mut *timer_lock), &mut Context::from_waker(&waker));
+
+        // Notify the timers that are ready. The wakers of the tasks might use timers, so they
+        // must neither be called nor be dropped while the lock is held, and what they changed
+        // has to be polled before the next timer is notified.
+        let fired = timer_lock.advance_to(now);
+        let unused = timer_lock.take_unused();
         drop(timer_lock);
-        fired.waker.wake();
-        drop(fired);
-        timer_lock = driver.timer.lock();
+        if let Some(node) = &fired {
+            node.waker.wake();
+        }
+        drop(unused);
+        if fired.is_none() {
+            break;
+        }
     }
-    let unused = timer_lock.take_unused();
-    drop(timer_lock);
-    drop(unused);
 
     // While the clock is paused, only a wake-up can make a difference.
     #[cfg(feature = "tokio-test-util")]
-- 
2.43.0


From dc8e92b581fef093d5af7f39766a324717aeebe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:06 +0000
Subject: [PATCH 11/19] fix: wake the waiting task when a delay queue entry is
 already due

---
 src/tokio_util/delay_queue.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/tokio_util/delay_queue.rs b/src/tokio_util/delay_queue.rs
index e5b0da0..8667087 100644
--- a/src/tokio_util/delay_queue.rs
+++ b/src/tokio_util/delay_queue.rs
@@ -343,6 +343,11 @@ impl<T> DelayQueue<T> {
                 self.slab[key].expired = true;
                 // The delay is already expired, store it in the expired queue
                 self.expired.push(key, &mut self.slab);
+
+                // The delay doesn't cover such entries: they can be taken at once
+                if let Some(waker) = self.waker.take() {
+                    waker.wake();
+                }
             }
             Err((_, err)) => panic!("invalid deadline; err={err:?}"),
         }
@@ -411,13 +416,6 @@ impl<T> DelayQueue<T> {
             // This should awaken us if necessary (ie, if already expired)
             delay.as_mut().reset(deadline);
         }
-
-        // The delay doesn't cover entries which have been expired from the start
-        if self.slab[*key].expired {
-            if let Some(waker) = self.waker.take() {
-                waker.wake();
-            }
-        }
     }
 
     pub fn shrink_to_fit(&mut self) {
-- 
2.43.0


From 6ff1725a956b78d51dbbd2313db3614b947accef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:40 +0000
Subject: [PATCH 12/19] seams for simulating threads, compiled only with --cfg
 wasmtimer_sim

---
 src/js.rs             |   6 +-
 src/lib.rs            |   3 +
 src/sim.rs            | 292 ++++++++++++++++++++++++++++++++++++++++++
 src/timer/arc_list.rs |   5 +
 src/timer/clock.rs    |  17 ++-
 src/timer/global.rs   |   8 ++
 src/timer/mod.rs      |  18 +++
 src/tokio/sleep.rs    |   9 +-
 8 files changed, 355 insertions(+), 3 deletions(-)
 create mode 100644 src/sim.rs

diff --git a/src/js.rs b/src/js.rs
index 33e4a6e..65a0a9f 100644
--- a/src/js.rs
+++ b/src/js.rs
@@ -22,13 +22,17 @@ extern "C" {
     ) -> Result<wasm_bindgen::JsValue, wasm_bindgen::JsValue>;
 }
 
+#[cfg(not(wasmtimer_sim))]
 pub fn performance_now() -> f64 {
     let global_this: Object = js_sys::global();
     let global_scope = global_this.unchecked_ref::<GlobalScope>();
     global_scope.performance().now()
 }
 
-#[cfg(feature = "tokio")]
+#[cfg(wasmtimer_sim)]
+pub(crate) use crate::sim::performance_now;
+
+#[cfg(all(feature = "tokio", not(wasmtimer_sim)))]
 pub fn set_timeout(
     handler: &::js_sys::Function,
     timeout: i32,
diff --git a/src/lib.rs b/src/lib.rs
index 0eb01a5..2d87cbf 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -17,7 +17,10 @@
 // LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING
 // FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER
 // DEALINGS IN THE SOFTWARE.
+#![allow(unexpected_cfgs)]
 mod js;
+#[cfg(wasmtimer_sim)]
+pub mod sim;
 pub mod std;
 #[cfg(feature = "tokio")]
 pub(crate) mod timer;
diff --git a/src/sim.rs b/src/sim.rs
new file mode 100644
index 0000000..9d610fb
--- /dev/null
+++ b/src/sim.rs
@@ -0,0 +1,292 @@
+//! Seams for deterministic simulation, compiled only with `--cfg wasmtimer_sim`.
+//!
+//! The types in here behave like the ones they replace, but tell a simulator about every
+//! operation that other threads could observe, such that it can decide which thread continues.
+//! The clock and the timeouts of the host are taken from the simulator, too.
+
+use std::fmt;
+use std::ops::{Deref, DerefMut};
+use std::sync::atomic::Ordering;
+use std::sync::{LockResult, OnceLock, PoisonError, TryLockError, TryLockResult};
+use std::task::Waker;
+
+pub use std::sync::{Arc, Weak};
+
+/// Implemented by the simulator.
+pub trait Simulator: Sync {
+    /// The calling thread is about to access something shared.
+    fn point(&self);
+    /// The calling thread cannot continue before the lock at `address` is released.
+    fn blocked(&self, address: usize);
+    /// The lock at `address` was released.
+    fn released(&self, address: usize);
+    /// `performance.now()`
+    fn performance_now(&self) -> f64;
+    /// `setTimeout()`
+    fn set_timeout(&self, callback: Box<dyn FnOnce() + Send>, delay: i32);
+}
+
+static SIMULATOR: OnceLock<&'static dyn Simulator> = OnceLock::new();
+
+pub fn install(simulator: &'static dyn Simulator) {
+    let _ = SIMULATOR.set(simulator);
+}
+
+fn sim() -> &'static dyn Simulator {
+    *SIMULATOR.get().expect("no simulator installed")
+}
+
+fn point() {
+    sim().point()
+}
+
+pub(crate) fn performance_now() -> f64 {
+    point();
+    sim().performance_now()
+}
+
+pub(crate) fn set_timeout(callback: impl FnOnce() + Send + 'static, delay: i32) {
+    point();
+    sim().set_timeout(Box::new(callback), delay)
+}
+
+/// Forgets the global timer and the global clock, for the next simulated run.
+pub fn forget_globals() {
+    #[cfg(feature = "tokio")]
+    crate::timer::forget_global();
+    #[cfg(all(feature = "tokio", feature = "tokio-test-util"))]
+    crate::timer::clock::forget_global();
+}
+
+macro_rules! atomic {
+    ($name:ident<$($g:ident)?>, $ty:ty, { $($fetch:ident)* }) => {
+        pub struct $name<$($g)?>(std::sync::atomic::$name<$($g)?>);
+
+        impl<$($g)?> $name<$($g)?> {
+            pub const fn new(value: $ty) -> Self {
+                Self(std::sync::atomic::$name::new(value))
+            }
+            pub fn load(&self, order: Ordering) -> $ty {
+                point();
+                self.0.load(order)
+            }
+            pub fn store(&self, value: $ty, order: Ordering) {
+                point();
+                self.0.store(value, order)
+            }
+            pub fn swap(&self, value: $ty, order: Ordering) -> $ty {
+                point();
+                self.0.swap(value, order)
+            }
+            pub fn compare_exchange(
+                &self,
+                current: $ty,
+                new: $ty,
+                success: Ordering,
+                failure: Ordering,
+            ) -> Result<$ty, $ty> {
+                point();
+                self.0.compare_exchange(current, new, success, failure)
+            }
+            pub fn compare_exchange_weak(
+                &self,
+                current: $ty,
+                new: $ty,
+                success: Ordering,
+                failure: Ordering,
+            ) -> Result<$ty, $ty> {
+                self.compare_exchange(current, new, success, failure)
+            }
+            pub fn fetch_update(
+                &self,
+                success: Ordering,
+                failure: Ordering,
+                mut f: impl FnMut($ty) -> Option<$ty>,
+            ) -> Result<$ty, $ty> {
+                let mut value = self.load(failure);
+                while let Some(new) = f(value) {
+                    match self.compare_exchange(value, new, success, failure) {
+                        Ok(old) => return Ok(old),
+                        Err(old) => value = old,
+                    }
+                }
+                Err(value)
+            }
+            pub fn into_inner(self) -> $ty {
+                self.0.into_inner()
+            }
+            $(pub fn $fetch(&self, value: $ty, order: Ordering) -> $ty {
+                point();
+                self.0.$fetch(value, order)
+            })*
+        }
+
+        impl<$($g)?> Deref for $name<$($g)?> {
+            type Target = std::sync::atomic::$name<$($g)?>;
+            fn deref(&self) -> &Self::Target {
+                &self.0
+            }
+        }
+
+        impl<$($g)?> DerefMut for $name<$($g)?> {
+            fn deref_mut(&mut self) -> &mut Self::Target {
+                &mut self.0
+            }
+        }
+
+        impl<$($g)?> fmt::Debug for $name<$($g)?> {
+            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+                self.0.fmt(f)
+            }
+        }
+    };
+}
+
+atomic!(AtomicPtr<T>, *mut T, {});
+atomic!(AtomicBool<>, bool, { fetch_and fetch_or fetch_xor });
+atomic!(AtomicUsize<>, usize, { fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_max fetch_min });
+atomic!(AtomicU32<>, u32, { fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_max fetch_min });
+atomic!(AtomicU64<>, u64, { fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_max fetch_min });
+
+pub struct Guard<'a, T> {
+    inner: Option<std::sync::MutexGuard<'a, T>>,
+    address: usize,
+}
+
+impl<T> Deref for Guard<'_, T> {
+    type Target = T;
+    fn deref(&self) -> &T {
+        self.inner.as_ref().unwrap()
+    }
+}
+
+impl<T> DerefMut for Guard<'_, T> {
+    fn deref_mut(&mut self) -> &mut T {
+        self.inner.as_mut().unwrap()
+    }
+}
+
+impl<T> Drop for Guard<'_, T> {
+    fn drop(&mut self) {
+        self.inner = None;
+        sim().released(self.address);
+    }
+}
+
+impl<T: fmt::Debug> fmt::Debug for Guard<'_, T> {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        (**self).fmt(f)
+    }
+}
+
+pub type MutexGuard<'a, T> = Guard<'a, T>;
+
+pub struct Mutex<T>(std::sync::Mutex<T>);
+
+impl<T> Mutex<T> {
+    pub const fn new(value: T) -> Self {
+        Self(std::sync::Mutex::new(value))
+    }
+    fn address(&self) -> usize {
+        self as *const Self as usize
+    }
+    fn guard<'a>(&self, inner: std::sync::MutexGuard<'a, T>) -> Guard<'a, T> {
+        Guard {
+            inner: Some(inner),
+            address: self.address(),
+        }
+    }
+    pub fn lock(&self) -> LockResult<Guard<'_, T>> {
+        point();
+        loop {
+            match self.0.try_lock() {
+                Ok(inner) => return Ok(self.guard(inner)),
+                Err(TryLockError::Poisoned(e)) => {
+                    return Err(PoisonError::new(self.guard(e.into_inner())))
+                }
+                Err(TryLockError::WouldBlock) => sim().blocked(self.address()),
+            }
+        }
+    }
+    pub fn try_lock(&self) -> TryLockResult<Guard<'_, T>> {
+        point();
+        match self.0.try_lock() {
+            Ok(inner) => Ok(self.guard(inner)),
+            Err(TryLockError::Poisoned(e)) => Err(TryLockError::Poisoned(PoisonError::new(
+                self.guard(e.into_inner()),
+            ))),
+            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
+        }
+    }
+    pub fn get_mut(&mut self) -> LockResult<&mut T> {
+        self.0.get_mut()
+    }
+    pub fn into_inner(self) -> LockResult<T> {
+        self.0.into_inner()
+    }
+}
+
+impl<T: fmt::Debug> fmt::Debug for Mutex<T> {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        self.0.fmt(f)
+    }
+}
+
+pub mod parking {
+    use super::Guard;
+
+    pub type MutexGuard<'a, T> = Guard<'a, T>;
+
+    /// Like `super::Mutex`, but never poisoned.
+    #[derive(Debug)]
+    pub struct Mutex<T>(super::Mutex<T>);
+
+    impl<T> Mutex<T> {
+        pub const fn new(value: T) -> Self {
+            Self(super::Mutex::new(value))
+        }
+        pub fn lock(&self) -> Guard<'_, T> {
+            self.0.lock().unwrap_or_else(|e| e.into_inner())
+        }
+        pub fn try_lock(&self) -> Option<Guard<'_, T>> {
+            match self.0.try_lock() {
+                Ok(guard) => Some(guard),
+                Err(std::sync::TryLockError::Poisoned(e)) => Some(e.into_inner()),
+                Err(std::sync::TryLockError::WouldBlock) => None,
+            }
+        }
+        pub fn get_mut(&mut self) -> &mut T {
+            self.0.get_mut().unwrap_or_else(|e| e.into_inner())
+        }
+        pub fn into_inner(self) -> T {
+            self.0.into_inner().unwrap_or_else(|e| e.into_inner())
+        }
+    }
+}
+
+/// The operations of `futures::task::AtomicWaker` are atomic for the simulation.
+#[cfg(feature = "tokio")]
+#[derive(Debug)]
+pub struct AtomicWaker(futures::task::AtomicWaker);
+
+#[cfg(feature = "tokio")]
+impl AtomicWaker {
+    #[allow(clippy::new_without_default)]
+    pub const fn new() -> Self {
+        Self(futures::task::AtomicWaker::new())
+    }
+    pub fn register(&self, waker: &Waker) {
+        point();
+        self.0.register(waker)
+    }
+    pub fn take(&self) -> Option<Waker> {
+        point();
+        self.0.take()
+    }
+    pub fn wake(&self) {
+        if let Some(waker) = self.take() {
+            point();
+            waker.wake();
+        }
+    }
+}
diff --git a/src/timer/arc_list.rs b/src/timer/arc_list.rs
index a87201f..9d239f3 100644
--- a/src/timer/arc_list.rs
+++ b/src/timer/arc_list.rs
@@ -3,9 +3,14 @@
 use std::marker;
 use std::ops::Deref;
 use std::sync::atomic::Ordering::SeqCst;
+#[cfg(not(wasmtimer_sim))]
 use std::sync::atomic::{AtomicBool, AtomicPtr};
+#[cfg(not(wasmtimer_sim))]
 use std::sync::Arc;
 
+#[cfg(wasmtimer_sim)]
+use crate::sim::*;
+
 pub struct ArcList<T> {
     list: AtomicPtr<Node<T>>,
     _marker: marker::PhantomData<T>,
diff --git a/src/timer/clock.rs b/src/timer/clock.rs
index 91f5bad..e6a596e 100644
--- a/src/timer/clock.rs
+++ b/src/timer/clock.rs
@@ -1,8 +1,14 @@
 use crate::std::Instant;
-use std::sync::atomic::{AtomicPtr, Ordering::SeqCst};
+#[cfg(not(wasmtimer_sim))]
+use std::sync::atomic::AtomicPtr;
+use std::sync::atomic::Ordering::SeqCst;
+#[cfg(not(wasmtimer_sim))]
 use std::sync::{Arc, Mutex};
 use std::time::Duration;
 
+#[cfg(wasmtimer_sim)]
+use crate::sim::*;
+
 static CLOCK: AtomicPtr<Inner> = AtomicPtr::new(EMPTY_CLOCK);
 const EMPTY_CLOCK: *mut Inner = std::ptr::null_mut();
 
@@ -26,6 +32,15 @@ pub(crate) fn clock() -> Clock {
     }
 }
 
+/// Forgets the clock that `clock` returns.
+#[cfg(wasmtimer_sim)]
+pub(crate) fn forget_global() {
+    let clock = CLOCK.swap(EMPTY_CLOCK, SeqCst);
+    if clock != EMPTY_CLOCK {
+        drop(unsafe { Clock::from_raw(clock) });
+    }
+}
+
 pub(crate) fn now() -> Instant {
     clock().now()
 }
diff --git a/src/timer/global.rs b/src/timer/global.rs
index 016db9c..489681e 100644
--- a/src/timer/global.rs
+++ b/src/timer/global.rs
@@ -1,4 +1,5 @@
 use futures::task::{self, ArcWake};
+#[cfg(not(wasmtimer_sim))]
 use parking_lot::Mutex;
 use std::convert::TryFrom;
 use std::future::Future;
@@ -6,9 +7,13 @@ use std::pin::Pin;
 use std::sync::Arc;
 use std::task::Context;
 use std::time::Duration;
+#[cfg(not(wasmtimer_sim))]
 use wasm_bindgen::{closure::Closure, JsCast};
 
+#[cfg(not(wasmtimer_sim))]
 use crate::js::set_timeout;
+#[cfg(wasmtimer_sim)]
+use crate::sim::{parking::*, set_timeout};
 use crate::std::Instant;
 use crate::timer::{Timer, TimerHandle};
 
@@ -127,7 +132,10 @@ fn schedule_callback(driver: &Arc<Driver>, when: Duration) {
         }
         run_callback(&driver);
     };
+    #[cfg(not(wasmtimer_sim))]
     let _ = set_timeout(Closure::once_into_js(cb).unchecked_ref(), delay).unwrap();
+    #[cfg(wasmtimer_sim)]
+    set_timeout(cb, delay);
 }
 
 struct Waker {
diff --git a/src/timer/mod.rs b/src/timer/mod.rs
index c9ccdcc..a67bfc6 100644
--- a/src/timer/mod.rs
+++ b/src/timer/mod.rs
@@ -234,13 +234,19 @@ use std::cmp::Ordering;
 use std::fmt;
 use std::pin::Pin;
 use std::sync::atomic::Ordering::SeqCst;
+#[cfg(not(wasmtimer_sim))]
 use std::sync::atomic::{AtomicPtr, AtomicUsize};
+#[cfg(not(wasmtimer_sim))]
 use std::sync::{Arc, Mutex, Weak};
 use std::task::{Context, Poll};
 
 use futures::prelude::*;
+#[cfg(not(wasmtimer_sim))]
 use futures::task::AtomicWaker;
 
+#[cfg(wasmtimer_sim)]
+use crate::sim::*;
+
 use arc_list::{ArcList, Node};
 use heap::{Heap, Slot};
 
@@ -571,6 +577,18 @@ impl Default for TimerHandle {
     }
 }
 
+/// Forgets the timer that `TimerHandle::default` returns.
+#[cfg(wasmtimer_sim)]
+pub(crate) fn forget_global() {
+    let fallback = HANDLE_FALLBACK.swap(EMPTY_HANDLE, SeqCst);
+    if fallback != EMPTY_HANDLE {
+        let handle = unsafe { TimerHandle::from_raw(fallback) };
+        if let Some(inner) = handle.inner.upgrade() {
+            drop(inner.waker.take()); // it refers to the timer
+        }
+    }
+}
+
 impl fmt::Debug for TimerHandle {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> Result<(), fmt::Error> {
         f.debug_struct("TimerHandle")
diff --git a/src/tokio/sleep.rs b/src/tokio/sleep.rs
index a54a039..30d5534 100644
--- a/src/tokio/sleep.rs
+++ b/src/tokio/sleep.rs
@@ -1,3 +1,4 @@
+#[cfg(not(wasmtimer_sim))]
 use futures::task::AtomicWaker;
 use futures::Future;
 
@@ -6,11 +7,17 @@ use crate::timer::arc_list::Node;
 use crate::timer::{ScheduledTimer, TimerHandle};
 use std::fmt;
 use std::pin::Pin;
-use std::sync::atomic::{AtomicUsize, Ordering};
+#[cfg(not(wasmtimer_sim))]
+use std::sync::atomic::AtomicUsize;
+use std::sync::atomic::Ordering;
+#[cfg(not(wasmtimer_sim))]
 use std::sync::{Arc, Mutex};
 use std::task::{Context, Poll};
 use std::time::Duration;
 
+#[cfg(wasmtimer_sim)]
+use crate::sim::*;
+
 pub struct Sleep {
     state: Option<Arc<Node<ScheduledTimer>>>,
     deadline: Instant,
-- 
2.43.0


From 444428413bb07dc3297608ef8ebf3989ecf294db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:17 +0000
Subject: [PATCH 13/19] fix: never combine the old instant of a reset sleep
 with its new generation

---
 src/timer/mod.rs   | 11 +++++++----
 src/tokio/sleep.rs |  5 ++++-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/timer/mod.rs b/src/timer/mod.rs
index a67bfc6..c859219 100644
--- a/src/timer/mod.rs
+++ b/src/timer/mod.rs
@@ -386,11 +386,10 @@ impl Timer {
 
     /// Either updates the timer at slot `idx` to fire at `at`, or adds a new
     /// timer at `idx` and sets it to fire at `at`.
-    fn update_or_add(&mut self, at: Instant, node: Arc<Node<ScheduledTimer>>) {
+    fn update_or_add(&mut self, at: Instant, gen: usize, node: Arc<Node<ScheduledTimer>>) {
         // TODO: avoid remove + push and instead just do one sift of the heap?
         // In theory we could update it in place and then do the percolation
         // as necessary
-        let gen = node.state.load(SeqCst) >> 2;
         let mut slot = node.slot.lock().unwrap();
         if let Some(heap_slot) = slot.take() {
             self.timer_heap.remove(heap_slot);
@@ -431,9 +430,13 @@ impl Future for Timer {
         Pin::new(&mut self.inner).waker.register(cx.waker());
         let mut list = self.inner.list.take();
         while let Some(node) = list.pop() {
-            let at = *node.at.lock().unwrap();
+            // A concurrent reset changes the instant and the generation under this lock.
+            let guard = node.at.lock().unwrap();
+            let gen = node.state.load(SeqCst) >> 2;
+            let at = *guard;
+            drop(guard);
             match at {
-                Some(at) => self.update_or_add(at, node),
+                Some(at) => self.update_or_add(at, gen, node),
                 None => self.remove(node),
             }
         }
diff --git a/src/tokio/sleep.rs b/src/tokio/sleep.rs
index 30d5534..a9fccb9 100644
--- a/src/tokio/sleep.rs
+++ b/src/tokio/sleep.rs
@@ -127,6 +127,8 @@ impl Sleep {
             None => return Err(()),
         };
         if let Some(timeouts) = state.inner.upgrade() {
+            // The timer must not see the new generation together with the old instant.
+            let mut state_at = state.at.lock().unwrap();
             let mut bits = state.state.load(Ordering::SeqCst);
             loop {
                 // If we've been invalidated, cancel this reset
@@ -142,7 +144,8 @@ impl Sleep {
                     Err(s) => bits = s,
                 }
             }
-            *state.at.lock().unwrap() = Some(at);
+            *state_at = Some(at);
+            drop(state_at);
             // If we fail to push our node then we've become an inert timer, so
             // we'll want to clear our `state` field accordingly
             timeouts.list.push(state)?;
-- 
2.43.0


From ab55cbdcdf90865a831bc1a4d9ef17e99dcf5569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:35 +0000
Subject: [PATCH 14/19] fix: let only one of several threads publish the global
 test clock

---
 src/timer/clock.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/timer/clock.rs b/src/timer/clock.rs
index e6a596e..565a453 100644
--- a/src/timer/clock.rs
+++ b/src/timer/clock.rs
@@ -16,10 +16,14 @@ pub(crate) fn clock() -> Clock {
     let mut clock = CLOCK.load(std::sync::atomic::Ordering::SeqCst);
 
     if clock == EMPTY_CLOCK {
-        let clock_new = Clock::new(false);
-        CLOCK
-            .compare_exchange(EMPTY_CLOCK, clock_new.into_raw(), SeqCst, SeqCst)
-            .unwrap();
+        let clock_new = Clock::new(false).into_raw();
+        if CLOCK
+            .compare_exchange(EMPTY_CLOCK, clock_new, SeqCst, SeqCst)
+            .is_err()
+        {
+            // Another thread was faster
+            drop(unsafe { Clock::from_raw(clock_new) });
+        }
         clock = CLOCK.load(SeqCst);
     }
 
-- 
2.43.0


From d6940d89efbdc3eb7afb2b6d5fa4e1e16cbb2dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:08 +0000
Subject: [PATCH 15/19] fix: keep the test clock consistent while another
 thread pauses it

---
 src/timer/clock.rs | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/timer/clock.rs b/src/timer/clock.rs
index 565a453..e2f371b 100644
--- a/src/timer/clock.rs
+++ b/src/timer/clock.rs
@@ -88,12 +88,13 @@ impl Clock {
     }
 
     pub(crate) fn resume(&self) {
-        if self.inner.unfrozen.lock().unwrap().is_some() {
+        let mut unfrozen = self.inner.unfrozen.lock().unwrap();
+        if unfrozen.is_some() {
+            drop(unfrozen);
             panic!("time is not frozen");
         }
 
-        let mut unforzen = self.inner.unfrozen.lock().unwrap();
-        (*unforzen) = Some(Instant::now_js());
+        (*unfrozen) = Some(Instant::now_js());
     }
 
     pub(crate) fn paused(&self) -> bool {
@@ -102,22 +103,26 @@ impl Clock {
 
     #[track_caller]
     pub(crate) fn pause(&self) {
-        let unfrozen = self
-            .inner
-            .unfrozen
-            .lock()
-            .unwrap()
-            .expect("time is already frozen");
-        let elapsed = Instant::now_js() - unfrozen;
+        // The base and this instant change together, readers take the lock of the latter first.
+        let mut unfrozen = self.inner.unfrozen.lock().unwrap();
+        let since = match *unfrozen {
+            Some(since) => since,
+            None => {
+                drop(unfrozen);
+                panic!("time is already frozen");
+            }
+        };
+        let elapsed = Instant::now_js() - since;
         let mut base = self.inner.base.lock().unwrap();
         (*base) += elapsed;
-        let mut unfrozen = self.inner.unfrozen.lock().unwrap();
         (*unfrozen) = None;
     }
 
     #[track_caller]
     pub(crate) fn advance(&self, duration: Duration) {
-        if self.inner.unfrozen.lock().unwrap().is_some() {
+        let unfrozen = self.inner.unfrozen.lock().unwrap();
+        if unfrozen.is_some() {
+            drop(unfrozen);
             panic!("time is not frozen");
         }
 
@@ -127,10 +132,10 @@ impl Clock {
     }
 
     pub(crate) fn now(&self) -> Instant {
-        let mut ret = *self.inner.base.lock().unwrap();
-
         let unfrozen = self.inner.unfrozen.lock().unwrap();
 
+        let mut ret = *self.inner.base.lock().unwrap();
+
         if let Some(unfrozen) = *unfrozen {
             ret += Instant::now_js() - unfrozen;
         }
-- 
2.43.0


From a72390404d23df8dd423f6c3d605feae952e95b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:36 +0000
Subject: [PATCH 16/19] fix: read the clock after the timer registered its
 waker

---
 src/timer/global.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/timer/global.rs b/src/timer/global.rs
index 489681e..99a7f9a 100644
--- a/src/timer/global.rs
+++ b/src/timer/global.rs
@@ -53,11 +53,14 @@ fn run_callback(driver: &Arc<Driver>) {
     let waker = task::waker(Arc::new(Waker {
         driver: driver.clone(),
     }));
-    let now = Instant::now();
-    loop {
+    let mut started = None;
+    let now = loop {
         let mut timer_lock = driver.timer.lock();
         let _ = Future::poll(Pin::new(&mut *timer_lock), &mut Context::from_waker(&waker));
 
+        // From here on, the waker reports changes of the clock by other threads.
+        let now = *started.get_or_insert_with(Instant::now);
+
         // Notify the timers that are ready. The wakers of the tasks might use timers, so they
         // must neither be called nor be dropped while the lock is held, and what they changed
         // has to be polled before the next timer is notified.
@@ -69,9 +72,9 @@ fn run_callback(driver: &Arc<Driver>) {
         }
         drop(unused);
         if fired.is_none() {
-            break;
+            break now;
         }
-    }
+    };
 
     // While the clock is paused, only a wake-up can make a difference.
     #[cfg(feature = "tokio-test-util")]
-- 
2.43.0


From 4d5ae8337243a34e7d16687dd3852b4c5ad1abea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:26 +0000
Subject: [PATCH 17/19] fix: leave the test clock usable when an advance
 overflows

---
 src/timer/clock.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/timer/clock.rs b/src/timer/clock.rs
index e2f371b..88fa249 100644
--- a/src/timer/clock.rs
+++ b/src/timer/clock.rs
@@ -127,8 +127,14 @@ impl Clock {
         }
 
         let mut base = self.inner.base.lock().unwrap();
-
-        (*base) += duration;
+        match base.checked_add(duration) {
+            Some(advanced) => (*base) = advanced,
+            None => {
+                drop(base);
+                drop(unfrozen);
+                panic!("overflow when adding duration to instant");
+            }
+        }
     }
 
     pub(crate) fn now(&self) -> Instant {
-- 
2.43.0


From 31687e75e16bb1c41263f0699a671e9c549e4dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:43 +0000
Subject: [PATCH 18/19] fix: no deadlock when another thread wakes the timer
 while it registers its waker

AtomicWaker::register wakes the waker itself if wake is called meanwhile. While the clock is paused,
that processed the timers at once, on the thread that held the lock of the timer.
---
 src/timer/global.rs | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/timer/global.rs b/src/timer/global.rs
index 99a7f9a..5cf9a71 100644
--- a/src/timer/global.rs
+++ b/src/timer/global.rs
@@ -4,6 +4,9 @@ use parking_lot::Mutex;
 use std::convert::TryFrom;
 use std::future::Future;
 use std::pin::Pin;
+#[cfg(not(wasmtimer_sim))]
+use std::sync::atomic::AtomicUsize;
+use std::sync::atomic::Ordering::SeqCst;
 use std::sync::Arc;
 use std::task::Context;
 use std::time::Duration;
@@ -13,7 +16,7 @@ use wasm_bindgen::{closure::Closure, JsCast};
 #[cfg(not(wasmtimer_sim))]
 use crate::js::set_timeout;
 #[cfg(wasmtimer_sim)]
-use crate::sim::{parking::*, set_timeout};
+use crate::sim::{parking::*, set_timeout, AtomicUsize};
 use crate::std::Instant;
 use crate::timer::{Timer, TimerHandle};
 
@@ -50,13 +53,20 @@ fn run_callback(driver: &Arc<Driver>) {
     // We poll the timer first. If any new `Delay` is created, the waker will be used
     // to wake up this task pre-emptively. As such, we pass a `Waker` that calls
     // `schedule_callback` with a delay of `0`.
-    let waker = task::waker(Arc::new(Waker {
+    let waker_state = Arc::new(Waker {
         driver: driver.clone(),
-    }));
+        state: AtomicUsize::new(IDLE),
+    });
+    let waker = task::waker(waker_state.clone());
     let mut started = None;
     let now = loop {
         let mut timer_lock = driver.timer.lock();
+
+        // Another thread might wake the timer while it registers the waker. Then it's this thread
+        // that calls the waker, while it holds the lock, so this is left to the next iteration.
+        waker_state.state.store(POLLING, SeqCst);
         let _ = Future::poll(Pin::new(&mut *timer_lock), &mut Context::from_waker(&waker));
+        let woken = waker_state.state.swap(IDLE, SeqCst) == WOKEN;
 
         // From here on, the waker reports changes of the clock by other threads.
         let now = *started.get_or_insert_with(Instant::now);
@@ -71,7 +81,9 @@ fn run_callback(driver: &Arc<Driver>) {
             node.waker.wake();
         }
         drop(unused);
-        if fired.is_none() {
+        if woken {
+            started = None;
+        } else if fired.is_none() {
             break now;
         }
     };
@@ -143,10 +155,21 @@ fn schedule_callback(driver: &Arc<Driver>, when: Duration) {
 
 struct Waker {
     driver: Arc<Driver>,
+    state: AtomicUsize,
 }
 
+/// The timer isn't being polled with this waker.
+const IDLE: usize = 0;
+/// The timer is being polled with this waker.
+const POLLING: usize = 1;
+/// Like `POLLING`, but it has to be polled once more.
+const WOKEN: usize = 2;
+
 impl ArcWake for Waker {
     fn wake_by_ref(arc_self: &Arc<Self>) {
-        schedule_callback(&arc_self.driver, Duration::new(0, 0));
+        let state = &arc_self.state;
+        if state.compare_exchange(POLLING, WOKEN, SeqCst, SeqCst) == Err(IDLE) {
+            schedule_callback(&arc_self.driver, Duration::new(0, 0));
+        }
     }
 }
-- 
2.43.0


From 0f52bce93d412a57e04e088f52f0d43827b88ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:43 +0000
Subject: [PATCH 19/19] Simulation hook: wakers are registered in two steps

---
 src/sim.rs | 56 +++++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 51 insertions(+), 5 deletions(-)

diff --git a/src/sim.rs b/src/sim.rs
index 9d610fb..d673f61 100644
--- a/src/sim.rs
+++ b/src/sim.rs
@@ -264,24 +264,70 @@ pub mod parking {
     }
 }
 
-/// The operations of `futures::task::AtomicWaker` are atomic for the simulation.
+/// `futures::task::AtomicWaker`, with what it does when `register` and `wake` meet: the thread that
+/// registers wakes the waker itself.
 #[cfg(feature = "tokio")]
 #[derive(Debug)]
-pub struct AtomicWaker(futures::task::AtomicWaker);
+pub struct AtomicWaker(std::sync::Mutex<Registration>);
+
+#[cfg(feature = "tokio")]
+#[derive(Debug)]
+struct Registration {
+    waker: Option<Waker>,
+    registering: bool,
+    woken: bool,
+}
 
 #[cfg(feature = "tokio")]
 impl AtomicWaker {
     #[allow(clippy::new_without_default)]
     pub const fn new() -> Self {
-        Self(futures::task::AtomicWaker::new())
+        Self(std::sync::Mutex::new(Registration {
+            waker: None,
+            registering: false,
+            woken: false,
+        }))
+    }
+    fn state(&self) -> std::sync::MutexGuard<'_, Registration> {
+        self.0.lock().unwrap_or_else(PoisonError::into_inner)
     }
     pub fn register(&self, waker: &Waker) {
         point();
-        self.0.register(waker)
+        let keep = {
+            let mut state = self.state();
+            if state.registering {
+                return;
+            }
+            state.registering = true;
+            matches!(&state.waker, Some(old) if old.will_wake(waker))
+        };
+        if !keep {
+            let new = Some(waker.clone());
+            let old = std::mem::replace(&mut self.state().waker, new);
+            drop(old);
+        }
+        point();
+        let woken = {
+            let mut state = self.state();
+            state.registering = false;
+            if std::mem::take(&mut state.woken) {
+                state.waker.take()
+            } else {
+                None
+            }
+        };
+        if let Some(waker) = woken {
+            waker.wake();
+        }
     }
     pub fn take(&self) -> Option<Waker> {
         point();
-        self.0.take()
+        let mut state = self.state();
+        if state.registering {
+            state.woken = true;
+            return None;
+        }
+        state.waker.take()
     }
     pub fn wake(&self) {
         if let Some(waker) = self.take() {
-- 
2.43.0

