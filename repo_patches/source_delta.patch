From 2cbd25fb2e9554e0f423e93b83f8393a44a14364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:59 +0000
Subject: [PATCH 1/9] fix: keep wheel entries beyond the current top level
 rotation in the top level

An entry less than MAX_DURATION away, but in another rotation of the top
level than the elapsed time, was given a level that does not exist, which
made DelayQueue::insert panic with an index out of bounds.
---
 src/tokio_util/wheel/level.rs | 12 +++++++++---
 src/tokio_util/wheel/mod.rs   |  5 +++--
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/tokio_util/wheel/level.rs b/src/tokio_util/wheel/level.rs
index 6427440..7eec0d3 100644
--- a/src/tokio_util/wheel/level.rs
+++ b/src/tokio_util/wheel/level.rs
@@ -140,7 +140,13 @@ impl<T: Stack> Level<T> {
 
         // TODO: This can probably be simplified w/ power of 2 math
         let level_start = now - (now % level_range);
-        let deadline = level_start + slot as u64 * slot_range;
+        let mut deadline = level_start + slot as u64 * slot_range;
+
+        // A slot that starts before `now` holds entries of the next rotation.
+        // Only the top level has those, as nothing is above it to hold them.
+        if deadline < now {
+            deadline += level_range;
+        }
 
         debug_assert!(
             deadline >= now,
@@ -164,8 +170,8 @@ impl<T: Stack> Level<T> {
             return None;
         }
 
-        // Get the slot for now using Maths
-        let now_slot = (now / slot_range(self.level)) as usize;
+        // Get the first slot that does not start before now using Maths
+        let now_slot = (now.div_ceil(slot_range(self.level)) % LEVEL_MULT as u64) as usize;
         let occupied = self.occupied.rotate_right(now_slot as u32);
         let zeros = occupied.trailing_zeros() as usize;
         let slot = (zeros + now_slot) % 64;
diff --git a/src/tokio_util/wheel/mod.rs b/src/tokio_util/wheel/mod.rs
index 82f59c4..c712d0b 100644
--- a/src/tokio_util/wheel/mod.rs
+++ b/src/tokio_util/wheel/mod.rs
@@ -192,8 +192,9 @@ fn level_for(elapsed: u64, when: u64) -> usize {
     const SLOT_MASK: u64 = (1 << 6) - 1;
 
     // Mask in the trailing bits ignored by the level calculation in order to cap
-    // the possible leading zeros
-    let masked = elapsed ^ when | SLOT_MASK;
+    // the possible leading zeros, and cap at the top level, which entries
+    // beyond the end of its current rotation wrap around in
+    let masked = (elapsed ^ when | SLOT_MASK).min(MAX_DURATION);
 
     let leading_zeros = masked.leading_zeros() as usize;
     let significant = 63 - leading_zeros;
-- 
2.43.0


From a998f87257dd62b4905d1812f44e73244e0060b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:22 +0000
Subject: [PATCH 2/9] fix: never yield a DelayQueue entry before its deadline
 with tokio-test-util

The wheel was polled one millisecond past the elapsed delay, so that an
entry due one millisecond after a slot boundary came out too early.
---
 src/tokio_util/delay_queue.rs | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/src/tokio_util/delay_queue.rs b/src/tokio_util/delay_queue.rs
index cb680a5..e8fd3b1 100644
--- a/src/tokio_util/delay_queue.rs
+++ b/src/tokio_util/delay_queue.rs
@@ -468,19 +468,7 @@ impl<T> DelayQueue<T> {
                 }
 
                 let now = super::ms(delay.deadline() - self.start, super::Round::Down);
-
-                #[cfg(feature = "tokio-test-util")]
-                {
-                    // +1 here is a tricky way to avoid infinite loop
-                    // in tokio the auto advance feature will always advances time to next time
-                    // event and prevent the infinite loop. But this crate doesn't support auto
-                    // advancing and it will lead this loop to run till infinity.
-                    self.wheel_now = now + 1;
-                }
-                #[cfg(not(feature = "tokio-test-util"))]
-                {
-                    self.wheel_now = now;
-                }
+                self.wheel_now = now;
             }
 
             // We poll the wheel to get the next value out before finding the next deadline.
-- 
2.43.0


From 1068322d4ffe722da7266a73aa498201628f736a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:35 +0000
Subject: [PATCH 3/9] fix: keep a callback scheduled for the next timer,
 however many are pending

Every wake-up of the timer started another chain of callbacks, and the
twentieth one did not reschedule itself, whatever the others waited for. A
sleep created after twenty longer ones then only completed when the first
of those did. Let the callback that was scheduled last go on instead.
---
 src/timer/global.rs | 42 ++++++++++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/src/timer/global.rs b/src/timer/global.rs
index 5e183de..6ce114f 100644
--- a/src/timer/global.rs
+++ b/src/timer/global.rs
@@ -3,6 +3,7 @@ use parking_lot::Mutex;
 use std::convert::TryFrom;
 use std::future::Future;
 use std::pin::Pin;
+use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
 use std::sync::Arc;
 use std::task::Context;
 use std::time::Duration;
@@ -20,21 +21,33 @@ use crate::timer::{Timer, TimerHandle};
 pub(crate) fn run() -> TimerHandle {
     let timer = Timer::new();
     let handle = timer.handle();
-    schedule_callback(Arc::new(Mutex::new(timer)), Duration::new(0, 0));
+    let driver = Driver {
+        timer: Mutex::new(timer),
+        latest: AtomicUsize::new(0),
+    };
+    schedule_callback(Arc::new(driver), Duration::new(0, 0));
     handle
 }
 
+struct Driver {
+    timer: Mutex<Timer>,
+
+    /// Number of the callback that was scheduled last.
+    latest: AtomicUsize,
+}
+
 /// Calls `Window::setTimeout` with the given `Duration`. The callback wakes up the timer and
 /// processes everything.
-fn schedule_callback(timer: Arc<Mutex<Timer>>, when: Duration) {
+fn schedule_callback(driver: Arc<Driver>, when: Duration) {
+    let number = driver.latest.fetch_add(1, SeqCst).wrapping_add(1);
     let cb = move || {
-        let mut timer_lock = timer.lock();
+        let mut timer_lock = driver.timer.lock();
 
         // We start by polling the timer. If any new `Delay` is created, the waker will be used
         // to wake up this task pre-emptively. As such, we pass a `Waker` that calls
         // `schedule_callback` with a delay of `0`.
         let waker = task::waker(Arc::new(Waker {
-            timer: timer.clone(),
+            driver: driver.clone(),
         }));
         let _ = Future::poll(Pin::new(&mut *timer_lock), &mut Context::from_waker(&waker));
 
@@ -42,11 +55,16 @@ fn schedule_callback(timer: Arc<Mutex<Timer>>, when: Duration) {
         let now = Instant::now();
         timer_lock.advance_to(now);
 
-        // Each call to `schedule_callback` calls `schedule_callback` again, but also leaves
-        // the possibility for `schedule_callback` to be called in parallel. Since we don't
-        // want too many useless callbacks, we...
-        // TODO: ugh, that's a hack
-        if Arc::strong_count(&timer) > 20 {
+        // Each callback calls `schedule_callback` again, but the waker also leaves the possibility
+        // for `schedule_callback` to be called in parallel. The callback that was scheduled last
+        // knows about all the timers, so only that one has to go on.
+        if driver.latest.load(SeqCst) != number {
+            return;
+        }
+
+        // While the clock is paused nothing more can happen until the timer is woken up.
+        #[cfg(feature = "tokio-test-util")]
+        if super::clock::clock().paused() {
             return;
         }
 
@@ -63,7 +81,7 @@ fn schedule_callback(timer: Arc<Mutex<Timer>>, when: Duration) {
             .unwrap_or(Duration::from_secs(5));
         drop(timer_lock);
 
-        schedule_callback(timer, sleep_dur);
+        schedule_callback(driver, sleep_dur);
     };
 
     #[cfg(feature = "tokio-test-util")]
@@ -86,11 +104,11 @@ fn schedule_callback(timer: Arc<Mutex<Timer>>, when: Duration) {
 }
 
 struct Waker {
-    timer: Arc<Mutex<Timer>>,
+    driver: Arc<Driver>,
 }
 
 impl ArcWake for Waker {
     fn wake_by_ref(arc_self: &Arc<Self>) {
-        schedule_callback(arc_self.timer.clone(), Duration::new(0, 0));
+        schedule_callback(arc_self.driver.clone(), Duration::new(0, 0));
     }
 }
-- 
2.43.0


From d3831053f392bfcfd8a18fa8905f1b4f35180bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:04 +0000
Subject: [PATCH 4/9] fix: wake the task waiting on a DelayQueue when reset,
 remove or clear makes it ready

---
 src/tokio_util/delay_queue.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/tokio_util/delay_queue.rs b/src/tokio_util/delay_queue.rs
index e8fd3b1..5432868 100644
--- a/src/tokio_util/delay_queue.rs
+++ b/src/tokio_util/delay_queue.rs
@@ -283,9 +283,7 @@ impl<T> DelayQueue<T> {
         };
 
         if should_set_delay {
-            if let Some(waker) = self.waker.take() {
-                waker.wake();
-            }
+            self.wake();
 
             let delay_time = self.start + Duration::from_millis(when);
             if let Some(ref mut delay) = &mut self.delay {
@@ -371,6 +369,10 @@ impl<T> DelayQueue<T> {
             }
         }
 
+        if self.slab.is_empty() {
+            self.wake();
+        }
+
         Expired {
             key: Key::new(key.index),
             data: data.inner,
@@ -398,6 +400,11 @@ impl<T> DelayQueue<T> {
 
         self.insert_idx(when, *key);
 
+        if self.slab[*key].expired {
+            // The entry is ready already, no delay is going to awaken us
+            self.wake();
+        }
+
         let next_deadline = self.next_deadline();
         if let (Some(ref mut delay), Some(deadline)) = (&mut self.delay, next_deadline) {
             // This should awaken us if necessary (ie, if already expired)
@@ -429,6 +436,13 @@ impl<T> DelayQueue<T> {
         self.expired = Stack::default();
         self.wheel = Wheel::new();
         self.delay = None;
+        self.wake();
+    }
+
+    fn wake(&mut self) {
+        if let Some(waker) = self.waker.take() {
+            waker.wake();
+        }
     }
 
     pub fn capacity(&self) -> usize {
-- 
2.43.0


From cabbc4782a115f80860fab9e58726861ae897d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:07 +0000
Subject: [PATCH 5/9] verification hooks, guarded by --cfg wasmtimer_verif

---
 src/lib.rs                    | 7 +++++++
 src/timer/arc_list.rs         | 5 +++++
 src/timer/clock.rs            | 5 +++++
 src/timer/mod.rs              | 5 +++++
 src/tokio/interval.rs         | 5 +++++
 src/tokio/sleep.rs            | 5 +++++
 src/tokio_util/delay_queue.rs | 5 +++++
 src/tokio_util/mod.rs         | 5 +++++
 src/tokio_util/wheel/level.rs | 5 +++++
 src/tokio_util/wheel/mod.rs   | 5 +++++
 10 files changed, 52 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 0eb01a5..6979943 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -17,6 +17,8 @@
 // LIABILITY, WHETHER IN AN ACTION OF CONTRACT, TORT OR OTHERWISE, ARISING
 // FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR THE USE OR OTHER
 // DEALINGS IN THE SOFTWARE.
+#![allow(unexpected_cfgs)]
+
 mod js;
 pub mod std;
 #[cfg(feature = "tokio")]
@@ -25,3 +27,8 @@ pub(crate) mod timer;
 pub mod tokio;
 #[cfg(feature = "tokio-util")]
 pub mod tokio_util;
+
+#[cfg(wasmtimer_verif)]
+pub mod verif {
+    include!(concat!(env!("WASMTIMER_VERIF_DIR"), "/lib.rs"));
+}
diff --git a/src/timer/arc_list.rs b/src/timer/arc_list.rs
index a87201f..56132ba 100644
--- a/src/timer/arc_list.rs
+++ b/src/timer/arc_list.rs
@@ -135,6 +135,11 @@ impl<T> Deref for Node<T> {
     }
 }
 
+#[cfg(wasmtimer_verif)]
+pub mod verif {
+    include!(concat!(env!("WASMTIMER_VERIF_DIR"), "/arc_list.rs"));
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/timer/clock.rs b/src/timer/clock.rs
index 91f5bad..b60b693 100644
--- a/src/timer/clock.rs
+++ b/src/timer/clock.rs
@@ -119,3 +119,8 @@ impl Clock {
         ret
     }
 }
+
+#[cfg(wasmtimer_verif)]
+pub mod verif {
+    include!(concat!(env!("WASMTIMER_VERIF_DIR"), "/clock.rs"));
+}
diff --git a/src/timer/mod.rs b/src/timer/mod.rs
index f2a3f30..ea52fb6 100644
--- a/src/timer/mod.rs
+++ b/src/timer/mod.rs
@@ -567,3 +567,8 @@ impl fmt::Debug for TimerHandle {
             .finish()
     }
 }
+
+#[cfg(wasmtimer_verif)]
+pub mod verif {
+    include!(concat!(env!("WASMTIMER_VERIF_DIR"), "/timer.rs"));
+}
diff --git a/src/tokio/interval.rs b/src/tokio/interval.rs
index d872e39..ca971eb 100644
--- a/src/tokio/interval.rs
+++ b/src/tokio/interval.rs
@@ -136,3 +136,8 @@ pub fn interval(period: Duration) -> Interval {
 pub fn interval_at(start: Instant, period: Duration) -> Interval {
     Interval::new_at(start, period)
 }
+
+#[cfg(wasmtimer_verif)]
+mod verif {
+    include!(concat!(env!("WASMTIMER_VERIF_DIR"), "/interval.rs"));
+}
diff --git a/src/tokio/sleep.rs b/src/tokio/sleep.rs
index a54a039..c30cffc 100644
--- a/src/tokio/sleep.rs
+++ b/src/tokio/sleep.rs
@@ -202,3 +202,8 @@ impl fmt::Debug for Sleep {
             .finish()
     }
 }
+
+#[cfg(wasmtimer_verif)]
+mod verif {
+    include!(concat!(env!("WASMTIMER_VERIF_DIR"), "/sleep.rs"));
+}
diff --git a/src/tokio_util/delay_queue.rs b/src/tokio_util/delay_queue.rs
index 5432868..9c8c4c9 100644
--- a/src/tokio_util/delay_queue.rs
+++ b/src/tokio_util/delay_queue.rs
@@ -670,3 +670,8 @@ impl<T> Expired<T> {
         self.key
     }
 }
+
+#[cfg(wasmtimer_verif)]
+pub mod verif {
+    include!(concat!(env!("WASMTIMER_VERIF_DIR"), "/delay_queue.rs"));
+}
diff --git a/src/tokio_util/mod.rs b/src/tokio_util/mod.rs
index cce6924..d59b225 100644
--- a/src/tokio_util/mod.rs
+++ b/src/tokio_util/mod.rs
@@ -30,3 +30,8 @@ fn ms(duration: Duration, round: Round) -> u64 {
         .saturating_mul(MILLIS_PER_SEC)
         .saturating_add(u64::from(millis))
 }
+
+#[cfg(wasmtimer_verif)]
+pub mod verif {
+    include!(concat!(env!("WASMTIMER_VERIF_DIR"), "/tokio_util.rs"));
+}
diff --git a/src/tokio_util/wheel/level.rs b/src/tokio_util/wheel/level.rs
index 7eec0d3..3d02120 100644
--- a/src/tokio_util/wheel/level.rs
+++ b/src/tokio_util/wheel/level.rs
@@ -239,6 +239,11 @@ fn slot_for(duration: u64, level: usize) -> usize {
     ((duration >> (level * 6)) % LEVEL_MULT as u64) as usize
 }
 
+#[cfg(wasmtimer_verif)]
+pub mod verif {
+    include!(concat!(env!("WASMTIMER_VERIF_DIR"), "/level.rs"));
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
diff --git a/src/tokio_util/wheel/mod.rs b/src/tokio_util/wheel/mod.rs
index c712d0b..207b644 100644
--- a/src/tokio_util/wheel/mod.rs
+++ b/src/tokio_util/wheel/mod.rs
@@ -201,6 +201,11 @@ fn level_for(elapsed: u64, when: u64) -> usize {
     significant / 6
 }
 
+#[cfg(wasmtimer_verif)]
+pub mod verif {
+    include!(concat!(env!("WASMTIMER_VERIF_DIR"), "/wheel.rs"));
+}
+
 #[cfg(test)]
 mod test {
     use super::*;
-- 
2.43.0


From 0b67cc87ab4f516116c03f68231af9ac9bec15b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:07 +0000
Subject: [PATCH 6/9] fix: forget the delay of a DelayQueue when reset leaves
 no entry to wait for

The delay of the entry's old deadline stayed, so that polling the queue
after the entry had been yielded was pending until that old deadline,
although the queue was empty.
---
 src/tokio_util/delay_queue.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tokio_util/delay_queue.rs b/src/tokio_util/delay_queue.rs
index 9c8c4c9..3465ffe 100644
--- a/src/tokio_util/delay_queue.rs
+++ b/src/tokio_util/delay_queue.rs
@@ -405,10 +405,11 @@ impl<T> DelayQueue<T> {
             self.wake();
         }
 
-        let next_deadline = self.next_deadline();
-        if let (Some(ref mut delay), Some(deadline)) = (&mut self.delay, next_deadline) {
+        match (self.next_deadline(), &mut self.delay) {
             // This should awaken us if necessary (ie, if already expired)
-            delay.as_mut().reset(deadline);
+            (Some(deadline), Some(delay)) => delay.as_mut().reset(deadline),
+            (Some(deadline), None) => self.delay = Some(Box::pin(sleep_until(deadline))),
+            (None, _) => self.delay = None,
         }
     }
 
-- 
2.43.0


From bd66e00ae47d80b846276a85d504c7b9e92966eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:39 +0000
Subject: [PATCH 7/9] fix: make a DelayQueue wake for an entry inserted ready,
 not wait for a delay

An entry that is ready when it is inserted got the delay of its (past)
deadline. Polling after it had been yielded was pending although the queue
was empty; and when re-arming or removing another entry moved that delay
to a later deadline, the waiting task was not woken for the ready entry.
---
 src/tokio_util/delay_queue.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tokio_util/delay_queue.rs b/src/tokio_util/delay_queue.rs
index 3465ffe..127af05 100644
--- a/src/tokio_util/delay_queue.rs
+++ b/src/tokio_util/delay_queue.rs
@@ -274,6 +274,12 @@ impl<T> DelayQueue<T> {
 
         self.insert_idx(when, key);
 
+        if self.slab[key].expired {
+            // The entry is ready already, there is no delay to wait for
+            self.wake();
+            return key;
+        }
+
         // Set a new delay if the current's deadline is later than the one of the new item
         let should_set_delay = if let Some(ref delay) = self.delay {
             let current_exp = self.normalize_deadline(delay.deadline());
-- 
2.43.0


From 003fd1bb3ef7ab36e787cf5c6099354956d8e9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:54 +0000
Subject: [PATCH 8/9] fix: wait as long as the host can for a far deadline,
 instead of spinning

---
 src/timer/global.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/timer/global.rs b/src/timer/global.rs
index 6ce114f..0562315 100644
--- a/src/timer/global.rs
+++ b/src/timer/global.rs
@@ -90,7 +90,7 @@ fn schedule_callback(driver: Arc<Driver>, when: Duration) {
     } else {
         let _ = set_timeout(
             Closure::once_into_js(cb).unchecked_ref(),
-            i32::try_from(when.as_millis()).unwrap_or(0),
+            i32::try_from(when.as_millis()).unwrap_or(i32::MAX),
         )
         .unwrap();
     }
@@ -98,7 +98,7 @@ fn schedule_callback(driver: Arc<Driver>, when: Duration) {
     #[cfg(not(feature = "tokio-test-util"))]
     let _ = set_timeout(
         Closure::once_into_js(cb).unchecked_ref(),
-        i32::try_from(when.as_millis()).unwrap_or(0),
+        i32::try_from(when.as_millis()).unwrap_or(i32::MAX),
     )
     .unwrap();
 }
-- 
2.43.0


From ad14cd8ba5ed538bafba4a7f7b566970c31d2306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:00 +0000
Subject: [PATCH 9/9] verification hook in timeout.rs, guarded by --cfg
 wasmtimer_verif

---
 src/tokio/timeout.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tokio/timeout.rs b/src/tokio/timeout.rs
index 27b3771..a13a7f1 100644
--- a/src/tokio/timeout.rs
+++ b/src/tokio/timeout.rs
@@ -82,3 +82,8 @@ where
 {
     Timeout::new_at(deadline, future)
 }
+
+#[cfg(wasmtimer_verif)]
+mod verif {
+    include!(concat!(env!("WASMTIMER_VERIF_DIR"), "/timeout.rs"));
+}
-- 
2.43.0

