From 8d34cf5a8ff1878fb50d0d7b982192652bfb0b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:45 +0000
Subject: [PATCH 001/135] fix: AtomicNumber: every in-place operator wakes up
 the waiters

---
 satella/coding/concurrent/atomic.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/satella/coding/concurrent/atomic.py b/satella/coding/concurrent/atomic.py
index 53df01f..d887282 100644
--- a/satella/coding/concurrent/atomic.py
+++ b/satella/coding/concurrent/atomic.py
@@ -80,16 +80,19 @@ class AtomicNumber(Monitor):
     @Monitor.synchronized
     def __iand__(self, other: Number) -> 'AtomicNumber':
         self.value &= other
+        self.condition.notify_all()
         return self
 
     @Monitor.synchronized
     def __ior__(self, other: Number) -> 'AtomicNumber':
         self.value |= other
+        self.condition.notify_all()
         return self
 
     @Monitor.synchronized
     def __ixor__(self, other: Number) -> 'AtomicNumber':
         self.value ^= other
+        self.condition.notify_all()
         return self
 
     @Monitor.synchronized
@@ -119,11 +122,13 @@ class AtomicNumber(Monitor):
     @Monitor.synchronized
     def __ilshift__(self, other: int) -> 'AtomicNumber':
         self.value <<= other
+        self.condition.notify_all()
         return self
 
     @Monitor.synchronized
     def __irshift__(self, other: int) -> 'AtomicNumber':
         self.value >>= other
+        self.condition.notify_all()
         return self
 
     @Monitor.synchronized
@@ -151,6 +156,7 @@ class AtomicNumber(Monitor):
     @Monitor.synchronized
     def __ipow__(self, other) -> 'AtomicNumber':
         self.value **= other
+        self.condition.notify_all()
         return self
 
     @Monitor.synchronized
-- 
2.43.0


From b0f54117d419303e396abf0efff3746232e82aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:45 +0000
Subject: [PATCH 002/135] fix: AtomicNumber: comparing two atomic numbers does
 not nest their locks (a == a deadlocked)

---
 satella/coding/concurrent/atomic.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/satella/coding/concurrent/atomic.py b/satella/coding/concurrent/atomic.py
index d887282..49f76e9 100644
--- a/satella/coding/concurrent/atomic.py
+++ b/satella/coding/concurrent/atomic.py
@@ -231,12 +231,11 @@ class AtomicNumber(Monitor):
         self.condition.notify_all()
         return self
 
-    @Monitor.synchronized
     def __eq__(self, other: tp.Union['AtomicNumber', Number]) -> bool:
         if isinstance(other, AtomicNumber):
             with Monitor.acquire(other):
-                return self.value == other.value
-        else:
+                other = other.value
+        with Monitor.acquire(self):
             return self.value == other
 
     @Monitor.synchronized
-- 
2.43.0


From bdd06710150623820c0e305b9b53d8d378467634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:45 +0000
Subject: [PATCH 003/135] fix: AtomicNumber.wait_until_equal: no lost wake-up
 between the check and the wait

---
 satella/coding/concurrent/atomic.py | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/satella/coding/concurrent/atomic.py b/satella/coding/concurrent/atomic.py
index 49f76e9..2ff4817 100644
--- a/satella/coding/concurrent/atomic.py
+++ b/satella/coding/concurrent/atomic.py
@@ -270,18 +270,13 @@ class AtomicNumber(Monitor):
         :param timeout: maximum time to wait
         :raise WouldWaitMore: timeout expired without the value becoming equal to target
         """
-        if timeout is None:
-            while True:
-                if self == v:
-                    break
-                self.wait()
-        else:
-            with measure(timeout=timeout) as measurement:
-                while not measurement.timeouted:
-                    if self == v:
-                        break
-                    self.wait(measurement.time_remaining, throw_exception=False)
-
-                with Monitor.acquire(self):
-                    if self.value != v:
-                        raise WouldWaitMore()
+        with self.condition:
+            if timeout is None:
+                while self.value != v:
+                    self.condition.wait()
+            else:
+                with measure(timeout=timeout) as measurement:
+                    while self.value != v:
+                        if measurement.timeouted:
+                            raise WouldWaitMore()
+                        self.condition.wait(measurement.time_remaining, dont_raise=True)
-- 
2.43.0


From c5ed95d2d0ade2c266cf38f623e1dc531d43b99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:46 +0000
Subject: [PATCH 004/135] fix: IDAllocator: top_limit bounds the issued
 identifiers also when start_at is given

---
 satella/coding/concurrent/id_allocator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/satella/coding/concurrent/id_allocator.py b/satella/coding/concurrent/id_allocator.py
index b702615..454c2f3 100644
--- a/satella/coding/concurrent/id_allocator.py
+++ b/satella/coding/concurrent/id_allocator.py
@@ -71,13 +71,13 @@ class IDAllocator(Monitor):
         self.start_at = start_at
         self.ints_allocated = set()
         self.free_ints = set()
-        self.top_limit = top_limit or math.inf
+        self.top_limit = math.inf if top_limit is None else top_limit
         self.bound = 0
 
     def _extend_the_bound_to(self, x: int) -> int:
         """Return how many integers added"""
-        if x > self.top_limit:
-            x = self.top_limit
+        if x > self.top_limit - self.start_at:
+            x = max(self.top_limit - self.start_at, self.bound)
         how_many = 0
         for i in range(self.bound, x):
             self.free_ints.add(i)
-- 
2.43.0


From f31036e38409a47a1517d3c199638cd5f3c46972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:16 +0000
Subject: [PATCH 005/135] fix: PeekableQueue: an item put between the emptiness
 check and the wait was missed by the waiter

---
 satella/coding/concurrent/queue.py | 61 +++++++-----------------------
 1 file changed, 13 insertions(+), 48 deletions(-)

diff --git a/satella/coding/concurrent/queue.py b/satella/coding/concurrent/queue.py
index 8df1a49..e2dc87b 100644
--- a/satella/coding/concurrent/queue.py
+++ b/satella/coding/concurrent/queue.py
@@ -2,10 +2,8 @@ import collections
 import threading
 import typing as tp
 
-from satella.coding.concurrent.thread import Condition
-from satella.coding.recast_exceptions import rethrow_as
 from satella.coding.typing import T
-from satella.exceptions import WouldWaitMore, Empty
+from satella.exceptions import Empty
 from satella.time.measure import measure
 
 
@@ -19,7 +17,7 @@ class PeekableQueue(tp.Generic[T]):
         super().__init__()
         self.queue = collections.deque()
         self.lock = threading.Lock()
-        self.inserted_condition = Condition()
+        self.inserted_condition = threading.Condition(self.lock)
 
     def put(self, item: T) -> None:
         """
@@ -29,7 +27,7 @@ class PeekableQueue(tp.Generic[T]):
         """
         with self.lock:
             self.queue.append(item)
-        self.inserted_condition.notify()
+            self.inserted_condition.notify_all()
 
     def put_many(self, items: tp.Sequence[T]) -> None:
         """
@@ -38,53 +36,20 @@ class PeekableQueue(tp.Generic[T]):
         :param items: sequence of items to put
         """
         with self.lock:
-            items_count = 0
             for item in items:
-                items_count += 1
                 self.queue.append(item)
-        self.inserted_condition.notify(items_count)
+            self.inserted_condition.notify_all()
 
-    def __get_timeout_none(self, item_getter):
-        while True:
-            self.lock.release()
-            self.inserted_condition.wait()
-            self.lock.acquire()
-            if len(self.queue):
-                try:
-                    return item_getter(self.queue)
-                finally:
-                    self.lock.release()
-
-    def __get_timeout(self, item_getter, timeout):
-        with measure(timeout=timeout) as measurement:
-            while not measurement.timeouted:
-                self.lock.release()
-                # raises WouldWaitMore
-                self.inserted_condition.wait(timeout=measurement.time_remaining)
-                self.lock.acquire()
-                if len(self.queue):
-                    try:
-                        return item_getter(self.queue)
-                    finally:
-                        self.lock.release()
-            else:
-                self.lock.release()
-                raise Empty('queue is empty')
-
-    @rethrow_as(WouldWaitMore, Empty)
     def __get(self, timeout, item_getter) -> T:
-        self.lock.acquire()
-        if len(self.queue):
-            # Fast path
-            try:
-                return item_getter(self.queue)
-            finally:
-                self.lock.release()
-        else:
-            if timeout is None:
-                return self.__get_timeout_none(item_getter)
-            else:
-                return self.__get_timeout(item_getter, timeout)
+        with measure(timeout=timeout) as measurement, self.lock:
+            while not self.queue:
+                if timeout is None:
+                    self.inserted_condition.wait()
+                elif measurement.timeouted:
+                    raise Empty('queue is empty')
+                else:
+                    self.inserted_condition.wait(measurement.time_remaining)
+            return item_getter(self.queue)
 
     def get(self, timeout: tp.Optional[float] = None) -> T:
         """
-- 
2.43.0


From 59c19f6e569d330c22ba790ddaf15ffc362844d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:16 +0000
Subject: [PATCH 006/135] fix: Future.exception() did not have a default
 timeout

---
 satella/coding/concurrent/futures/futures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/concurrent/futures/futures.py b/satella/coding/concurrent/futures/futures.py
index 38a9473..9b27d38 100644
--- a/satella/coding/concurrent/futures/futures.py
+++ b/satella/coding/concurrent/futures/futures.py
@@ -125,7 +125,7 @@ class Future(PythonFuture, tp.Generic[T]):
         else:
             return super().result(timeout)
 
-    def exception(self, timeout: None) -> tp.Type[Exception]:
+    def exception(self, timeout=None) -> tp.Type[Exception]:
         if self._state == PRE_FINISHED:
             return self._exception
         else:
-- 
2.43.0


From 6c021708c00a01cb37ec35ec4e7d9882a51d909e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:16 +0000
Subject: [PATCH 007/135] fix: Future: set_result() called by a pre-done
 callback was ignored if the future had excepted

---
 satella/coding/concurrent/futures/futures.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/satella/coding/concurrent/futures/futures.py b/satella/coding/concurrent/futures/futures.py
index 9b27d38..005c7d3 100644
--- a/satella/coding/concurrent/futures/futures.py
+++ b/satella/coding/concurrent/futures/futures.py
@@ -138,6 +138,7 @@ class Future(PythonFuture, tp.Generic[T]):
         """
         if self._state == PRE_FINISHED:
             self._result = result
+            self._exception = None
         else:
             with self._condition:
                 if self._state in {CANCELLED, CANCELLED_AND_NOTIFIED, FINISHED}:
-- 
2.43.0


From 44f9e17ac5777ab1452f3b3a9dd8dd7f7ebee89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:16 +0000
Subject: [PATCH 008/135] fix: Future.on_success callbacks were called for
 cancelled futures

---
 satella/coding/concurrent/futures/futures.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/concurrent/futures/futures.py b/satella/coding/concurrent/futures/futures.py
index 005c7d3..60c268b 100644
--- a/satella/coding/concurrent/futures/futures.py
+++ b/satella/coding/concurrent/futures/futures.py
@@ -50,7 +50,7 @@ class Future(PythonFuture, tp.Generic[T]):
         """
 
         def inner(fut: PythonFuture):
-            if fut._exception is not None:
+            if fut.cancelled() or fut._exception is not None:
                 return
             return fun(fut._result)
 
-- 
2.43.0


From c2f54f19be2fac54d0f601a01d13c7577caa3248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:40 +0000
Subject: [PATCH 009/135] fix: WrappingFuture: a source completing during
 construction left the wrapper unfinished forever

---
 satella/coding/concurrent/futures/futures.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/satella/coding/concurrent/futures/futures.py b/satella/coding/concurrent/futures/futures.py
index 60c268b..e40415f 100644
--- a/satella/coding/concurrent/futures/futures.py
+++ b/satella/coding/concurrent/futures/futures.py
@@ -187,7 +187,6 @@ class WrappingFuture(Future):
         super().__init__()
         self.source_future = source_future
         self.source_future.add_done_callback(self._on_future_completed)
-        self._old_state = source_future._state
 
     @property
     def _state(self):
-- 
2.43.0


From 6adc92a427f287973390da8340d75b572260b206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:40 +0000
Subject: [PATCH 010/135] fix: WrappingFuture: cancelling the source future
 left waiters and callbacks of the wrapper hanging

---
 satella/coding/concurrent/futures/futures.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/satella/coding/concurrent/futures/futures.py b/satella/coding/concurrent/futures/futures.py
index e40415f..34bb966 100644
--- a/satella/coding/concurrent/futures/futures.py
+++ b/satella/coding/concurrent/futures/futures.py
@@ -203,13 +203,16 @@ class WrappingFuture(Future):
         return self.source_future.set_running_or_notify_cancel()
 
     def _on_future_completed(self, future: PythonFuture):
-        if future._exception is not None:
+        if future.cancelled():
+            with self._condition:
+                self._condition.notify_all()
+            self._invoke_callbacks()
+        elif future._exception is not None:
             self.set_exception(future._exception)
         else:
             self.set_result(future._result)
 
     def cancel(self) -> bool:
-        super().cancel()
         return self.source_future.cancel()
 
 
-- 
2.43.0


From a04454172cb147787ca34183f85e7d3f017c60b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:40 +0000
Subject: [PATCH 011/135] fix: FutureCollection: cancel() and
 set_running_or_notify_cancel() skipped some of the futures

---
 satella/coding/concurrent/futures/collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/concurrent/futures/collection.py b/satella/coding/concurrent/futures/collection.py
index eeb9f64..e2c047c 100644
--- a/satella/coding/concurrent/futures/collection.py
+++ b/satella/coding/concurrent/futures/collection.py
@@ -62,7 +62,7 @@ class FutureCollection:
         """
         starting = False
         for future in self.futures:
-            starting = starting or future.set_running_or_notify_cancel()
+            starting = future.set_running_or_notify_cancel() or starting
         return starting
 
     def __iadd__(self, other: tp.Union['FutureCollection', Future, tp.Sequence[Future]]):
@@ -150,5 +150,5 @@ class FutureCollection:
         """
         all_cancelled = True
         for future in self.futures:
-            all_cancelled = all_cancelled and future.cancel()
+            all_cancelled = future.cancel() and all_cancelled
         return all_cancelled
-- 
2.43.0


From 7bd229571c37a094b0497d9c10aaca33278a207d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:40 +0000
Subject: [PATCH 012/135] fix: CallableGroup.has_cancelled_callbacks was
 inverted

---
 satella/coding/concurrent/callablegroup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/concurrent/callablegroup.py b/satella/coding/concurrent/callablegroup.py
index 9719236..20d7ab7 100644
--- a/satella/coding/concurrent/callablegroup.py
+++ b/satella/coding/concurrent/callablegroup.py
@@ -113,7 +113,7 @@ class CallableGroup(tp.Generic[T]):
         of them was cancelled
         """
         for clb in self.callables:
-             if clb:
+             if isinstance(clb, CancellableCallback) and not clb:
                 return True
         return False
 
-- 
2.43.0


From 776729da872502f758556d926def1bad6ff1539c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:40 +0000
Subject: [PATCH 013/135] fix: CallableGroup: an exception in one of the
 callables removed all of the remaining ones

---
 satella/coding/concurrent/callablegroup.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/satella/coding/concurrent/callablegroup.py b/satella/coding/concurrent/callablegroup.py
index 20d7ab7..7d44399 100644
--- a/satella/coding/concurrent/callablegroup.py
+++ b/satella/coding/concurrent/callablegroup.py
@@ -169,11 +169,11 @@ class CallableGroup(tp.Generic[T]):
             self.remove_cancelled()
 
         callables = copy.copy(self.callables)
-        self.callables.clear()
-
         results = []
 
         for call, one_shot in callables.items():
+            if one_shot:
+                self.callables.pop(call, None)
             try:
                 q = call(*args, **kwargs)
             except Exception as e:
@@ -184,9 +184,6 @@ class CallableGroup(tp.Generic[T]):
             if self.gather:
                 results.append(q)
 
-            if not one_shot:
-                self.add(call, one_shot)
-
         if self.gather:
             return results
 
-- 
2.43.0


From a3a001e37492118f93c5237ff750dc89b1dec985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:40 +0000
Subject: [PATCH 014/135] fix: CallNoOftenThan did not return the result of the
 callable

---
 satella/coding/concurrent/callablegroup.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/coding/concurrent/callablegroup.py b/satella/coding/concurrent/callablegroup.py
index 7d44399..aa7cac1 100644
--- a/satella/coding/concurrent/callablegroup.py
+++ b/satella/coding/concurrent/callablegroup.py
@@ -208,5 +208,6 @@ class CallNoOftenThan:
 
     def __call__(self, *args, **kwargs):
         if time.monotonic() - self.last_called >= self.interval:
-            self.callable(*args, **kwargs)
+            result = self.callable(*args, **kwargs)
             self.last_called = time.monotonic()
+            return result
-- 
2.43.0


From 8d399f21cc313a4416ce31875b670bb270294c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:40 +0000
Subject: [PATCH 015/135] fix: LockedDataset: leaving the lock marked the
 dataset as unlocked after another thread could have locked it

---
 satella/coding/concurrent/locked_dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/concurrent/locked_dataset.py b/satella/coding/concurrent/locked_dataset.py
index 36b4807..32c92be 100644
--- a/satella/coding/concurrent/locked_dataset.py
+++ b/satella/coding/concurrent/locked_dataset.py
@@ -93,8 +93,8 @@ class LockedDataset:
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        _get_internal(self).lock.release()
         _get_internal(self).locked = False
+        _get_internal(self).lock.release()
         return False
 
 
-- 
2.43.0


From 7306316eb88c943628eeeb1a0fcaa64086a89c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:40 +0000
Subject: [PATCH 016/135] fix: Timer: the heap of timers was popped outside of
 the lock

---
 satella/coding/concurrent/timer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/concurrent/timer.py b/satella/coding/concurrent/timer.py
index 0b99010..ab21756 100644
--- a/satella/coding/concurrent/timer.py
+++ b/satella/coding/concurrent/timer.py
@@ -83,7 +83,7 @@ class TimerBackgroundThread(threading.Thread, Monitor):
                 delay = 1
             time.sleep(delay)
             with Monitor.acquire(self):
-                items_to_exec = self.timer_objects.pop_less_than(time.monotonic())
+                items_to_exec = list(self.timer_objects.pop_less_than(time.monotonic()))
 
             for item in items_to_exec:
                 with log_exceptions(logger, swallow_exception=True):
-- 
2.43.0


From c68db4321ff5cdb71557dce0d5ecc6db477ce5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:40 +0000
Subject: [PATCH 017/135] fix: futures of functions running in separate threads
 were never resolved if SystemExit was raised

---
 satella/coding/concurrent/functions.py | 2 +-
 satella/coding/concurrent/thread.py    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/concurrent/functions.py b/satella/coding/concurrent/functions.py
index cb72b14..d7d7ec9 100644
--- a/satella/coding/concurrent/functions.py
+++ b/satella/coding/concurrent/functions.py
@@ -32,7 +32,7 @@ def run_as_future(fun):
         def separate_target():
             try:
                 fut.set_result(fun(*args, **kwargs))
-            except Exception as e:
+            except BaseException as e:
                 fut.set_exception(e)
 
         Thread(target=separate_target).start()
diff --git a/satella/coding/concurrent/thread.py b/satella/coding/concurrent/thread.py
index 5a35adb..9b7c35e 100644
--- a/satella/coding/concurrent/thread.py
+++ b/satella/coding/concurrent/thread.py
@@ -59,7 +59,7 @@ def call_in_separate_thread(*t_args, no_thread_attribute: bool = False,
                     try:
                         res = fun(*args, **kwargs)
                         self.future.set_result(res)
-                    except Exception as e:
+                    except BaseException as e:
                         self.future.set_exception(e)
 
             t = MyThread()
-- 
2.43.0


From fb749e3a8c51cc8e188c7843473c0df93d0161e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:40 +0000
Subject: [PATCH 018/135] fix: SingleStartThread.start() returns self also when
 called again

---
 satella/coding/concurrent/thread.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/concurrent/thread.py b/satella/coding/concurrent/thread.py
index 9b7c35e..f48016c 100644
--- a/satella/coding/concurrent/thread.py
+++ b/satella/coding/concurrent/thread.py
@@ -160,7 +160,7 @@ class SingleStartThread(threading.Thread):
         :return: self
         """
         if self.__started:
-            return
+            return self
         self.__started = True
         super().start()
         return self
-- 
2.43.0


From 2903c6b5da50847c92471bc726356832fe1354da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:59 +0000
Subject: [PATCH 019/135] fix: sync_threadpool: workers were left blocked
 forever after a timeout or an early notification

---
 satella/coding/concurrent/sync.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/satella/coding/concurrent/sync.py b/satella/coding/concurrent/sync.py
index 5c4f5aa..4870644 100644
--- a/satella/coding/concurrent/sync.py
+++ b/satella/coding/concurrent/sync.py
@@ -1,10 +1,10 @@
 import typing as tp
 import time
 from concurrent.futures import wait, ThreadPoolExecutor
+from threading import Event
 
 from satella.coding.concurrent.atomic import AtomicNumber
 from satella.coding.concurrent.futures import ExecutorWrapper
-from satella.coding.concurrent.thread import Condition
 from satella.exceptions import WouldWaitMore
 from satella.time.measure import measure
 
@@ -49,21 +49,23 @@ def sync_threadpool(tpe: tp.Union[ExecutorWrapper, ThreadPoolExecutor],
     with measure(timeout=max_wait) as measurement:
         workers = tpe._max_workers      # pylint: disable=protected-access
         atm_n = AtomicNumber(workers)
-        cond = Condition()
+        done = Event()
 
         def decrease_atm():
             nonlocal atm_n
             atm_n -= 1
-            cond.wait()
+            done.wait()
 
         futures = [tpe.submit(decrease_atm) for _ in range(workers)]
 
-        # wait for all currently scheduled jobs to be picked up
-        _while_sync_threadpool(tpe, max_wait, measurement, futures)
+        try:
+            # wait for all currently scheduled jobs to be picked up
+            _while_sync_threadpool(tpe, max_wait, measurement, futures)
 
-        if max_wait is None:
-            atm_n.wait_until_equal(0)
-        else:
-            _max_wait_atm_n(measurement, max_wait, atm_n)
-        cond.notify_all()
+            if max_wait is None:
+                atm_n.wait_until_equal(0)
+            else:
+                _max_wait_atm_n(measurement, max_wait, atm_n)
+        finally:
+            done.set()
         wait(futures)
-- 
2.43.0


From 487d40e139ffbcdd5225e928f57aeb2aa0e5ec37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:59 +0000
Subject: [PATCH 020/135] fix: measure.start(): resuming a stopped counter lost
 the time already measured

---
 satella/time/measure.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/satella/time/measure.py b/satella/time/measure.py
index 5ae57a5..969073c 100644
--- a/satella/time/measure.py
+++ b/satella/time/measure.py
@@ -197,7 +197,6 @@ class measure:  # pylint: disable=invalid-name
         if self.stopped_on is not None:
             self.started_on = self.time_getter_callable() - self.elapsed
             self.stopped_on = None
-        self.started_on = self.time_getter_callable()
         self.elapsed = None
 
     def update(self) -> None:
-- 
2.43.0


From 0de4d834554df17b5c51c7d1f89d9824df1608bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:59 +0000
Subject: [PATCH 021/135] fix: ExponentialBackoff.wait_until_available() waited
 past its timeout

---
 satella/time/backoff.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/time/backoff.py b/satella/time/backoff.py
index 74c3a41..833451f 100644
--- a/satella/time/backoff.py
+++ b/satella/time/backoff.py
@@ -84,6 +84,8 @@ class ExponentialBackoff:
                 tn = self.time_until_next_check()
                 if tn is None:
                     return
+                if timeout is not None:
+                    tn = min(tn, m.time_remaining)
                 self.condition.wait(timeout=tn, dont_raise=True)
             raise WouldWaitMore('timeouted while waiting for service to become healthy')
 
-- 
2.43.0


From 9a1f9cc4f26379b8a4f6632cc35dbf09cdb95ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:25 +0000
Subject: [PATCH 022/135] fix: SelfCleaningDefaultDict: iterating over it never
 returned any keys

---
 satella/coding/structures/dictionaries/expiring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/dictionaries/expiring.py b/satella/coding/structures/dictionaries/expiring.py
index 4d4e8ce..78eb9f3 100644
--- a/satella/coding/structures/dictionaries/expiring.py
+++ b/satella/coding/structures/dictionaries/expiring.py
@@ -99,7 +99,7 @@ class SelfCleaningDefaultDict(Monitor, tp.MutableMapping[K, V], Cleanupable):
 
     def __iter__(self) -> tp.Iterator[K]:
         self.cleanup()
-        return super().__iter__()
+        return iter(self.data)
 
     def __delitem__(self, key: K) -> None:
         if key in self.data:
-- 
2.43.0


From 284244ac7656a2964186f49a3d2e902120f64eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:25 +0000
Subject: [PATCH 023/135] fix: SelfCleaningDefaultDict: deleting an entry raced
 with the cleanup thread

---
 satella/coding/structures/dictionaries/expiring.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/satella/coding/structures/dictionaries/expiring.py b/satella/coding/structures/dictionaries/expiring.py
index 78eb9f3..7d102c1 100644
--- a/satella/coding/structures/dictionaries/expiring.py
+++ b/satella/coding/structures/dictionaries/expiring.py
@@ -101,6 +101,7 @@ class SelfCleaningDefaultDict(Monitor, tp.MutableMapping[K, V], Cleanupable):
         self.cleanup()
         return iter(self.data)
 
+    @Monitor.synchronized
     def __delitem__(self, key: K) -> None:
         if key in self.data:
             del self.data[key]
-- 
2.43.0


From e9aade84e209cec93004f276e27dec4b7523fe0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:25 +0000
Subject: [PATCH 024/135] fix: ExpiringEntryDict: reading an expired entry left
 it half-removed and raced with the cleanup thread

---
 satella/coding/structures/dictionaries/expiring.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/satella/coding/structures/dictionaries/expiring.py b/satella/coding/structures/dictionaries/expiring.py
index 7d102c1..58af496 100644
--- a/satella/coding/structures/dictionaries/expiring.py
+++ b/satella/coding/structures/dictionaries/expiring.py
@@ -4,7 +4,7 @@ import typing as tp
 import weakref
 from abc import ABCMeta, abstractmethod
 
-from satella.coding.concurrent.monitor import Monitor
+from satella.coding.concurrent.monitor import Monitor, RMonitor
 from satella.coding.recast_exceptions import rethrow_as, silence_excs
 from satella.coding.structures.heaps import TimeBasedSetHeap
 from satella.coding.structures.singleton import Singleton
@@ -137,7 +137,7 @@ class SelfCleaningDefaultDict(Monitor, tp.MutableMapping[K, V], Cleanupable):
                 del self.data[key]
 
 
-class ExpiringEntryDict(Monitor, tp.MutableMapping[K, V], Cleanupable):
+class ExpiringEntryDict(RMonitor, tp.MutableMapping[K, V], Cleanupable):
     """
     A dictionary whose entries expire automatically after a predefined period of time.
 
@@ -177,6 +177,7 @@ class ExpiringEntryDict(Monitor, tp.MutableMapping[K, V], Cleanupable):
         for key, value in dct.items():
             self[key] = value
 
+    @Monitor.synchronized
     def __contains__(self, item) -> bool:
         try:
             ts = self.key_to_expiration_time.item_to_timestamp[item]
@@ -213,10 +214,11 @@ class ExpiringEntryDict(Monitor, tp.MutableMapping[K, V], Cleanupable):
         self.data[key] = value
 
     @rethrow_as(ValueError, KeyError)
+    @Monitor.synchronized
     def __getitem__(self, item: K) -> V:
         ts = self.key_to_expiration_time.get_timestamp(item)
         if ts < self.time_getter():
-            del self.data[item]
+            del self[item]
             raise KeyError('Entry expired')
 
         return self.data[item]
-- 
2.43.0


From b7dbf7e042f00549f863da312ba9a86d1cfd6e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:25 +0000
Subject: [PATCH 025/135] fix: ExpiringEntryDict: deleting a missing key raises
 KeyError, as for every mapping

---
 satella/coding/structures/dictionaries/expiring.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/satella/coding/structures/dictionaries/expiring.py b/satella/coding/structures/dictionaries/expiring.py
index 58af496..63b6f73 100644
--- a/satella/coding/structures/dictionaries/expiring.py
+++ b/satella/coding/structures/dictionaries/expiring.py
@@ -223,6 +223,7 @@ class ExpiringEntryDict(RMonitor, tp.MutableMapping[K, V], Cleanupable):
 
         return self.data[item]
 
+    @rethrow_as(ValueError, KeyError)
     @Monitor.synchronized
     def __delitem__(self, key: K) -> None:
         self.key_to_expiration_time.pop_item(key)
-- 
2.43.0


From a4c6114307bdf82c9de0edfd7389e734d04555a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:25 +0000
Subject: [PATCH 026/135] fix: CacheDict: reads ignored the custom time_getter

---
 satella/coding/structures/dictionaries/cache_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/dictionaries/cache_dict.py b/satella/coding/structures/dictionaries/cache_dict.py
index 89cedc6..74673a7 100644
--- a/satella/coding/structures/dictionaries/cache_dict.py
+++ b/satella/coding/structures/dictionaries/cache_dict.py
@@ -217,7 +217,7 @@ class CacheDict(tp.Mapping[K, V]):
             return self.get_value_block(key)
 
         timestamp = self.timestamp_data[key]
-        now = time.monotonic()
+        now = self.time_getter()
 
         if key in self.cache_missed:
             return self._on_cache_hit_empty(key, timestamp, now)
-- 
2.43.0


From 2e6b724462f11fa79ce71185a647d2169f1c9cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:25 +0000
Subject: [PATCH 027/135] fix: CacheDict: a cached failure could not be
 invalidated

---
 satella/coding/structures/dictionaries/cache_dict.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/satella/coding/structures/dictionaries/cache_dict.py b/satella/coding/structures/dictionaries/cache_dict.py
index 74673a7..4814ed0 100644
--- a/satella/coding/structures/dictionaries/cache_dict.py
+++ b/satella/coding/structures/dictionaries/cache_dict.py
@@ -234,10 +234,11 @@ class CacheDict(tp.Mapping[K, V]):
             return self.data[key]
 
     def __delitem__(self, key: K) -> None:
-        del self.data[key]
-        del self.timestamp_data[key]
-        with silence_excs(KeyError):
+        if key in self.cache_missed:
             self.cache_missed.remove(key)
+        else:
+            del self.data[key]
+        del self.timestamp_data[key]
 
     def __setitem__(self, key: K, value: V) -> None:
         """
-- 
2.43.0


From d6d6871f6dfec6db2e4d2995cfb8826215bce61f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:25 +0000
Subject: [PATCH 028/135] fix: CacheDict.feed(): feeding a key whose failure
 was cached was ignored, timestamp of 0 was taken as missing

---
 satella/coding/structures/dictionaries/cache_dict.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/coding/structures/dictionaries/cache_dict.py b/satella/coding/structures/dictionaries/cache_dict.py
index 4814ed0..10de16c 100644
--- a/satella/coding/structures/dictionaries/cache_dict.py
+++ b/satella/coding/structures/dictionaries/cache_dict.py
@@ -92,7 +92,8 @@ class CacheDict(tp.Mapping[K, V]):
         Feed this data into the cache
         """
         self.data[key] = value
-        self.timestamp_data[key] = timestamp or self.time_getter()
+        self.timestamp_data[key] = self.time_getter() if timestamp is None else timestamp
+        self.cache_missed.discard(key)
 
     def has_info_about(self, key: K) -> bool:
         """
-- 
2.43.0


From 784d96da8dc4bd2d23103f2b0fd6e782df38b6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:41 +0000
Subject: [PATCH 029/135] fix: CacheDict.has_info_about(): cached failures are
 valid for cache_failures_interval

---
 satella/coding/structures/dictionaries/cache_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/dictionaries/cache_dict.py b/satella/coding/structures/dictionaries/cache_dict.py
index 10de16c..ebbd8b7 100644
--- a/satella/coding/structures/dictionaries/cache_dict.py
+++ b/satella/coding/structures/dictionaries/cache_dict.py
@@ -111,7 +111,7 @@ class CacheDict(tp.Mapping[K, V]):
         if self.cache_failures:
             if key in self.cache_missed:
                 try:
-                    v = self.time_getter() - self.timestamp_data[key] <= self.expiration_interval
+                    v = self.time_getter() - self.timestamp_data[key] <= self.cache_failures_interval
                 except KeyError:
                     v = False
                 return v
-- 
2.43.0


From 0d19a562a028b3663d32c06f79fad3c2c209efa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:41 +0000
Subject: [PATCH 030/135] fix: LRUCacheDict: overwriting a key that is already
 there evicted another one

---
 satella/coding/structures/dictionaries/cache_dict.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/coding/structures/dictionaries/cache_dict.py b/satella/coding/structures/dictionaries/cache_dict.py
index ebbd8b7..c050bb9 100644
--- a/satella/coding/structures/dictionaries/cache_dict.py
+++ b/satella/coding/structures/dictionaries/cache_dict.py
@@ -317,6 +317,7 @@ class LRUCacheDict(CacheDict[K, V]):
         """
         Store a value with current timestamp
         """
-        self.make_room()
+        if key not in self.data:
+            self.make_room()
         self.lru.mark_as_used(key)
         super().__setitem__(key, value)
-- 
2.43.0


From 65c6cd1927697b2977ff095de340dacc7b088962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:41 +0000
Subject: [PATCH 031/135] fix: LRUCacheDict: keys without a value took part in
 the eviction, feeding a key did not mark it as used

---
 .../coding/structures/dictionaries/cache_dict.py   | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/satella/coding/structures/dictionaries/cache_dict.py b/satella/coding/structures/dictionaries/cache_dict.py
index c050bb9..12da1c8 100644
--- a/satella/coding/structures/dictionaries/cache_dict.py
+++ b/satella/coding/structures/dictionaries/cache_dict.py
@@ -292,17 +292,21 @@ class LRUCacheDict(CacheDict[K, V]):
         self.lru.remove(key)
 
     def __getitem__(self, key: K) -> V:
-        self.lru.mark_as_used(key)
-        return super().__getitem__(key)
+        value = super().__getitem__(key)
+        if key in self.data:
+            self.lru.mark_as_used(key)
+        return value
 
     def get_value_block(self, key: K) -> V:
         v = super().get_value_block(key)
-        self.lru.add(key)
+        if key in self.data:
+            self.lru.mark_as_used(key)
         return v
 
     def __delitem__(self, key: K) -> None:
         super().__delitem__(key)
-        self.lru.remove(key)
+        with silence_excs(KeyError):    # cached failures are not tracked
+            self.lru.remove(key)
 
     def feed(self, key: K, value: V, timestamp: tp.Optional[float] = None):
         """
@@ -311,7 +315,7 @@ class LRUCacheDict(CacheDict[K, V]):
         if key not in self.data:
             self.make_room()
         super().feed(key, value, timestamp)
-        self.lru.add(key)
+        self.lru.mark_as_used(key)
 
     def __setitem__(self, key: K, value: V) -> None:
         """
-- 
2.43.0


From 5a18a432a148d1cea3425e51516be7464a12346a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:41 +0000
Subject: [PATCH 032/135] fix: ExclusiveWritebackCache: a read of the storage
 overwrote a value set while it was running

---
 .../coding/structures/dictionaries/writeback_cache.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/satella/coding/structures/dictionaries/writeback_cache.py b/satella/coding/structures/dictionaries/writeback_cache.py
index 8a662e6..96f9763 100644
--- a/satella/coding/structures/dictionaries/writeback_cache.py
+++ b/satella/coding/structures/dictionaries/writeback_cache.py
@@ -78,9 +78,9 @@ class ExclusiveWritebackCache(tp.Generic[K, V]):
         sync_threadpool(self.executor, max_wait=timeout)
 
     def _operate(self):
-        self.operations += 1
-        if self.operations > 100:
-            with self.cache_lock:
+        with self.cache_lock:
+            self.operations += 1
+            if self.operations > 100:
                 self.in_cache = set(self.cache.keys())
                 self.operations = 0
 
@@ -90,8 +90,9 @@ class ExclusiveWritebackCache(tp.Generic[K, V]):
             try:
                 value = self.executor.submit(self.read_method, item).result()
                 with self.cache_lock:
-                    self.in_cache.add(item)
-                    self.cache[item] = value
+                    if item not in self.in_cache:   # else it has been changed while we were reading
+                        self.in_cache.add(item)
+                        self.cache[item] = value
                 return value
             except KeyError:
                 if self.store_key_errors:
-- 
2.43.0


From 1dd532e6cfc31b8c7fe1d72faf1442b167c9c19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:03 +0000
Subject: [PATCH 033/135] fix: ExclusiveWritebackCache: the storage was changed
 in an order other than the cache

---
 .../structures/dictionaries/writeback_cache.py       | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/satella/coding/structures/dictionaries/writeback_cache.py b/satella/coding/structures/dictionaries/writeback_cache.py
index 96f9763..aa0fecb 100644
--- a/satella/coding/structures/dictionaries/writeback_cache.py
+++ b/satella/coding/structures/dictionaries/writeback_cache.py
@@ -108,17 +108,17 @@ class ExclusiveWritebackCache(tp.Generic[K, V]):
     def __delitem__(self, key: K) -> None:
         if self.delete_method is None:
             raise TypeError('Cannot delete from this writeback cache!')
-        if self.store_key_errors:
-            with self.cache_lock:
+        with self.cache_lock:
+            if self.store_key_errors:
                 self.in_cache.add(key)
-        with silence_excs(KeyError):
-            del self.cache[key]
-        self.executor.submit(self.delete_method, key)
+            with silence_excs(KeyError):
+                del self.cache[key]
+            self.executor.submit(self.delete_method, key)
         self._operate()
 
     def __setitem__(self, key: K, value: V) -> None:
         with self.cache_lock:
             self.cache[key] = value
             self.in_cache.add(key)
-        self.executor.submit(self.write_method, key, value)
+            self.executor.submit(self.write_method, key, value)
         self._operate()
-- 
2.43.0


From 1f25856767de63d29cb28519cb2a37a936a9725f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:03 +0000
Subject: [PATCH 034/135] fix: ExclusiveWritebackCache.sync(): waiting for the
 queue ignored the timeout

---
 satella/coding/structures/dictionaries/writeback_cache.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/satella/coding/structures/dictionaries/writeback_cache.py b/satella/coding/structures/dictionaries/writeback_cache.py
index aa0fecb..5e0fdc2 100644
--- a/satella/coding/structures/dictionaries/writeback_cache.py
+++ b/satella/coding/structures/dictionaries/writeback_cache.py
@@ -6,6 +6,7 @@ from satella.coding.concurrent.monitor import Monitor
 from satella.coding.concurrent.sync import sync_threadpool
 from satella.coding.recast_exceptions import silence_excs
 from satella.coding.typing import V, K
+from satella.time.measure import measure
 
 
 class ExclusiveWritebackCache(tp.Generic[K, V]):
@@ -69,13 +70,15 @@ class ExclusiveWritebackCache(tp.Generic[K, V]):
         :param timeout: timeout to wait. None means wait indefinitely.
         :raises WouldWaitMore: if timeout has expired
         """
+        measurement = measure(timeout=timeout)
         while self.get_queue_length() > 0:
+            measurement.assert_not_timeouted()
             time.sleep(0.1)
 
         def fix():
             return
 
-        sync_threadpool(self.executor, max_wait=timeout)
+        sync_threadpool(self.executor, max_wait=measurement.time_remaining)
 
     def _operate(self):
         with self.cache_lock:
-- 
2.43.0


From 4fc01dc2dc17e3926e7139248694fee3fa592cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:03 +0000
Subject: [PATCH 035/135] fix: TimeBasedHeap.get_timestamp() compared only a
 part of the item

---
 satella/coding/structures/heaps/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/heaps/time.py b/satella/coding/structures/heaps/time.py
index fd65ad8..66512df 100644
--- a/satella/coding/structures/heaps/time.py
+++ b/satella/coding/structures/heaps/time.py
@@ -64,7 +64,7 @@ class TimeBasedHeap(Heap):
         Return the timestamp for given item
         """
         for ts, elem in self.data:
-            if elem[1] == item:
+            if elem == item:
                 return ts
 
     def pop_item(self, item: T) -> tp.Tuple[Number, T]:
-- 
2.43.0


From 88314e92bdd4c343c5adb069ff8089c621e20075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:03 +0000
Subject: [PATCH 036/135] fix: TimeBasedSetHeap: remove(), filter_map() and
 push_many() left the timestamps of items out of date

---
 satella/coding/structures/heaps/time.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/satella/coding/structures/heaps/time.py b/satella/coding/structures/heaps/time.py
index 66512df..17a66b9 100644
--- a/satella/coding/structures/heaps/time.py
+++ b/satella/coding/structures/heaps/time.py
@@ -4,7 +4,7 @@ import typing as tp
 
 from satella.coding.recast_exceptions import rethrow_as
 from satella.coding.structures.heaps.base import Heap
-from satella.coding.typing import T, Number, NoArgCallable
+from satella.coding.typing import T, Number, NoArgCallable, Predicate
 
 
 class TimeBasedHeap(Heap):
@@ -264,6 +264,15 @@ class TimeBasedSetHeap(Heap):
                 return
             yield self.pop()
 
+    def push_many(self, items: tp.Iterable[tp.Tuple[Number, T]]) -> None:
+        for item in items:
+            self.push(item)
+
+    def filter_map(self, filter_fun: tp.Optional[Predicate[tp.Tuple[Number, T]]] = None,
+                   map_fun: tp.Optional[tp.Callable[[tp.Tuple[Number, T]], tp.Any]] = None):
+        super().filter_map(filter_fun=filter_fun, map_fun=map_fun)
+        self.item_to_timestamp = {item: timestamp for timestamp, item in self.data}
+
     def remove(self, item: T) -> None:
         """
         Remove all things equal to item
-- 
2.43.0


From f01b7f301ea3948c4af2a19c28acd07b76c39daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:03 +0000
Subject: [PATCH 037/135] fix: SetHeap.pop_item() left the item in the set, so
 it could not be pushed again

---
 satella/coding/structures/heaps/base.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/satella/coding/structures/heaps/base.py b/satella/coding/structures/heaps/base.py
index 41c5da1..ffd54cc 100644
--- a/satella/coding/structures/heaps/base.py
+++ b/satella/coding/structures/heaps/base.py
@@ -166,6 +166,11 @@ class SetHeap(Heap):
         self.set.remove(item)
         return item
 
+    def pop_item(self, item: T) -> T:
+        item = super().pop_item(item)
+        self.set.remove(item)
+        return item
+
     def __contains__(self, item: T) -> bool:
         return item in self.set
 
-- 
2.43.0


From 5073426cde8908d28a5e881156843a731cc0f87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:21 +0000
Subject: [PATCH 038/135] fix: SortedList: the constructor compared items
 having the same key with each other

---
 satella/coding/structures/sorted_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/sorted_list.py b/satella/coding/structures/sorted_list.py
index dd2589c..ed5e151 100644
--- a/satella/coding/structures/sorted_list.py
+++ b/satella/coding/structures/sorted_list.py
@@ -20,7 +20,7 @@ class SortedList(tp.Generic[T]):
     __slots__ = ('items', 'keys', 'key')
 
     def __init__(self, items: tp.Iterable[T] = (), key: tp.Callable[[T], int] = lambda a: a):
-        sort = sorted((key(item), item) for item in items)
+        sort = sorted(((key(item), item) for item in items), key=lambda a: a[0])
         self.items = SliceableDeque(a[1] for a in sort)  # type: SliceableDeque[T]
         self.keys = collections.deque(a[0] for a in sort)  # type: collections.deque[int]
         self.key = key  # type: tp.Callable[[T], int]
-- 
2.43.0


From 693b9411c65d6be7f10ce0e831d1848c3acaaec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:21 +0000
Subject: [PATCH 039/135] fix: Ranking: removed elements kept their position

---
 satella/coding/structures/ranking.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/coding/structures/ranking.py b/satella/coding/structures/ranking.py
index b4761e4..b959aec 100644
--- a/satella/coding/structures/ranking.py
+++ b/satella/coding/structures/ranking.py
@@ -52,7 +52,9 @@ class Ranking(tp.Generic[T]):
         Remove a single element from the ranking and _recalculate it
         """
         index = self.ranking.index(item)
+        item = self.ranking[index]
         self.ranking.remove(item)
+        del self.element_to_position[id(item)]
         for position, item in enumerate(self.ranking[index:], start=index):
             self.element_to_position[id(item)] = position
 
-- 
2.43.0


From b887856a8c024fe64f0da05af8b431adf01420b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:21 +0000
Subject: [PATCH 040/135] fix: SyncableDroppable: adding data raced with the
 cleanups

---
 satella/coding/structures/syncable_droppable.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/coding/structures/syncable_droppable.py b/satella/coding/structures/syncable_droppable.py
index 4bfd297..0d51fed 100644
--- a/satella/coding/structures/syncable_droppable.py
+++ b/satella/coding/structures/syncable_droppable.py
@@ -292,6 +292,7 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
                 return
             self.cleanup_keep_in_db()
 
+    @RMonitor.synchronized
     def on_new_data(self, key: K, value: V) -> None:
         """
         Called by the user when there's new data gathered.
@@ -386,6 +387,7 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
             v = self._on_sync_request_synced_up_is_not_none(maximum_entries)
         return v
 
+    @RMonitor.synchronized
     def on_synced_up_to(self, key: K) -> None:
         """
         Called when data was successfully synced up to key included
-- 
2.43.0


From 7bbd66da72859f70e7c116b0bb55aa1d5be76705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:17 +0000
Subject: [PATCH 041/135] fix: CPManager: a connection released after close()
 was never torn down

---
 satella/coding/resources/cp_manager.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/satella/coding/resources/cp_manager.py b/satella/coding/resources/cp_manager.py
index 91fa3f3..b2db6dd 100644
--- a/satella/coding/resources/cp_manager.py
+++ b/satella/coding/resources/cp_manager.py
@@ -96,14 +96,12 @@ class CPManager(Monitor, Closeable, tp.Generic[T], metaclass=abc.ABCMeta):
 
         :param connection: connection to release
         """
-        obj_id = id(connection)
-        if self.id_to_times[obj_id] >= self.max_cycle_no:
-            self._kill_connection(connection)
-        else:
-            try:
-                self.connections.put(connection, False)
-            except queue.Full:
-                self._kill_connection(connection)
+        with Monitor.acquire(self):
+            if not self.terminating and self.id_to_times[id(connection)] < self.max_cycle_no:
+                with silence_excs(queue.Full):
+                    self.connections.put(connection, False)
+                    return
+        self._kill_connection(connection)
 
     def _kill_connection(self, connection):
         obj_id = id(connection)
-- 
2.43.0


From b9b6c3dd4738b74c064dbdaac706f616faf15a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:17 +0000
Subject: [PATCH 042/135] fix: CPManager: max_number did not limit the number
 of connections

---
 satella/coding/resources/cp_manager.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/satella/coding/resources/cp_manager.py b/satella/coding/resources/cp_manager.py
index b2db6dd..21090e9 100644
--- a/satella/coding/resources/cp_manager.py
+++ b/satella/coding/resources/cp_manager.py
@@ -78,13 +78,16 @@ class CPManager(Monitor, Closeable, tp.Generic[T], metaclass=abc.ABCMeta):
             conn = self.connections.get(False)
         except queue.Empty:
             while True:
-                with silence_excs(queue.Empty), Monitor.acquire(self):
-                    if self.connections.qsize() >= self.max_number:
-                        conn = self.connections.get(False, 5)
-                        break
-                    else:
+                with Monitor.acquire(self):
+                    if len(self.id_to_times) < self.max_number:
                         conn = self.create_connection()
+                        self.id_to_times[id(conn)] = 0
                         break
+                with silence_excs(queue.Empty):
+                    conn = self.connections.get(True, 5)
+                    break
+                if self.terminating:
+                    raise RuntimeError('CPManager is terminating')
         with Monitor.acquire(self):
             obj_id = id(conn)
             self.id_to_times[obj_id] = self.id_to_times.get(obj_id, 0) + 1
-- 
2.43.0


From eb5e9a66e4217329a9ec7251e5695b6f26fc207e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:50 +0000
Subject: [PATCH 043/135] fix: BogusTerminableThread.join() without a timeout
 raised TypeError

---
 satella/coding/concurrent/thread.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/coding/concurrent/thread.py b/satella/coding/concurrent/thread.py
index f48016c..36868e8 100644
--- a/satella/coding/concurrent/thread.py
+++ b/satella/coding/concurrent/thread.py
@@ -220,7 +220,8 @@ class BogusTerminableThread:
 
         if not self.terminated:
             started_elapsing = time.monotonic()
-            while time.monotonic() - started_elapsing < timeout and not self.terminated:
+            while not self.terminated and (
+                    timeout is None or time.monotonic() - started_elapsing < timeout):
                 time.sleep(1)
             if not self.terminated:
                 raise WouldWaitMore('thread failed to terminate')
-- 
2.43.0


From 3a4986c2fde94372be56ade037ee7c61249a6f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:27 +0000
Subject: [PATCH 044/135] fix: DeferredValue: two threads could both set the
 value

---
 satella/coding/concurrent/value.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/satella/coding/concurrent/value.py b/satella/coding/concurrent/value.py
index 71bd9be..a86e8d3 100644
--- a/satella/coding/concurrent/value.py
+++ b/satella/coding/concurrent/value.py
@@ -1,6 +1,6 @@
 import time
 import typing as tp
-from threading import Event
+from threading import Event, Lock
 
 from satella.coding.misc import _BLANK
 from satella.coding.typing import T
@@ -22,10 +22,11 @@ class DeferredValue(tp.Generic[T]):
     >>> val.set_value(3)
     """
 
-    __slots__ = 'val', 'lock'
+    __slots__ = 'val', 'lock', 'set_lock'
 
     def __init__(self):
         self.lock = Event()
+        self.set_lock = Lock()
         self.val = _BLANK
 
     def set_value(self, va: T) -> None:
@@ -35,9 +36,10 @@ class DeferredValue(tp.Generic[T]):
         :param va: value to set
         :raises ValueError: value is already set
         """
-        if self.val is not _BLANK:
-            raise ValueError('Value curently set!')
-        self.val = va
+        with self.set_lock:
+            if self.val is not _BLANK:
+                raise ValueError('Value curently set!')
+            self.val = va
         self.lock.set()
 
     def result(self, timeout=None) -> T:
-- 
2.43.0


From f1283862c1ee53e5d629d0e62e424060c9b3b8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:02 +0000
Subject: [PATCH 045/135] fix: ExponentialBackoff: a success() during
 wait_until_available() raised TypeError in the waiter

---
 satella/time/backoff.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/satella/time/backoff.py b/satella/time/backoff.py
index 833451f..d5d18df 100644
--- a/satella/time/backoff.py
+++ b/satella/time/backoff.py
@@ -91,15 +91,16 @@ class ExponentialBackoff:
 
     def time_until_next_check(self) -> tp.Optional[float]:
         """Return the time until next health check, or None if the service is healthy"""
-        if self.unavailable_until is None:
+        unavailable_until = self.unavailable_until
+        if unavailable_until is None:
             return None
         else:
             t = time.monotonic()
-            if t > self.unavailable_until:
+            if t > unavailable_until:
                 self.unavailable_until = None
                 return None
             else:
-                return self.unavailable_until - t
+                return unavailable_until - t
 
     @property
     def ready_for_next_check(self) -> bool:
@@ -107,9 +108,10 @@ class ExponentialBackoff:
         :return: Has  :meth:`~satella.time.ExponentialBackoff.failure` been called only
             in the last waiting period?
         """
-        if self.unavailable_until is None:
+        unavailable_until = self.unavailable_until
+        if unavailable_until is None:
             return True
-        elif time.monotonic() > self.unavailable_until:
+        elif time.monotonic() > unavailable_until:
             self.unavailable_until = None
             return True
         else:
-- 
2.43.0


From 939b9923a021d20ad6cd956407da5a9a598d81f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:17 +0000
Subject: [PATCH 046/135] fix: read_nowait: a process that filled up the pipe
 was never read from and never ended

---
 satella/processes.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/satella/processes.py b/satella/processes.py
index c60c225..6c92352 100644
--- a/satella/processes.py
+++ b/satella/processes.py
@@ -27,11 +27,11 @@ def read_nowait(process: subprocess.Popen, output_list: tp.List[str]):
     while True:
         with silence_excs(subprocess.TimeoutExpired):
             process.wait(timeout=0.1)
-            line = process.stdout.read(2048)
-            if line:
-                output_list.append(line)
-            else:
-                break
+        line = process.stdout.read(2048)
+        if line:
+            output_list.append(line)
+        else:
+            break
 
 
 def call_and_return_stdout(args: tp.Union[str, tp.List[str]],
-- 
2.43.0


From 0362c04e4c95bc996e13d3dcb27cdf59ab687d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:30 +0000
Subject: [PATCH 047/135] fix: queue_get: an exception_empty raised by the
 decorated method was taken for an empty queue

---
 satella/coding/decorators/flow_control.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/coding/decorators/flow_control.py b/satella/coding/decorators/flow_control.py
index 5ad83c6..15c0730 100644
--- a/satella/coding/decorators/flow_control.py
+++ b/satella/coding/decorators/flow_control.py
@@ -84,7 +84,6 @@ def queue_get(queue_getter: tp.Union[str, tp.Callable[[object], Queue]],
             try:
                 que = my_queue_getter(self)
                 item = queue_get_method(que, timeout)
-                return fun(self, item)
             except exception_empty:
                 if method_to_execute_on_empty is not None:
                     if callable(method_to_execute_on_empty):
@@ -92,6 +91,8 @@ def queue_get(queue_getter: tp.Union[str, tp.Callable[[object], Queue]],
                     elif isinstance(method_to_execute_on_empty, str):
                         method = getattr(self, method_to_execute_on_empty)
                         method()
+                return
+            return fun(self, item)
 
         return inner
 
-- 
2.43.0


From ac8e6272b12ab5f149d26b55ff8c40f49cd9798e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:32 +0000
Subject: [PATCH 048/135] fix: CPUTimeAwareIntervalTerminableThread: a time
 string for seconds raised TypeError

---
 satella/instrumentation/cpu_time/concurrency.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/cpu_time/concurrency.py b/satella/instrumentation/cpu_time/concurrency.py
index 0f847ba..c61800c 100644
--- a/satella/instrumentation/cpu_time/concurrency.py
+++ b/satella/instrumentation/cpu_time/concurrency.py
@@ -30,7 +30,7 @@ class CPUTimeAwareIntervalTerminableThread(IntervalTerminableThread, metaclass=A
                  wakeup_interval: tp.Union[str, float] = '3s', *args, **kwargs):
         self.seconds = parse_time_string(seconds)
         self.wakeup_interval = parse_time_string(wakeup_interval)
-        self.max_sooner = max_sooner or seconds * 0.1
+        self.max_sooner = max_sooner or self.seconds * 0.1
         cp_bt = _CPUProfileBuilderThread.get_instance()
         cp_bt.request_percentile(percentile)
         self.percentile = percentile
-- 
2.43.0


From 44c4a23237d0c7ee99658b275d93e95932020079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:36 +0000
Subject: [PATCH 049/135] fix: Subqueue.qsize and get_any fail if a queue is
 added while they iterate

---
 satella/coding/structures/queues.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/satella/coding/structures/queues.py b/satella/coding/structures/queues.py
index 0fd9018..7a1abfc 100644
--- a/satella/coding/structures/queues.py
+++ b/satella/coding/structures/queues.py
@@ -40,7 +40,9 @@ class Subqueue(tp.Generic[T]):
 
     def qsize(self) -> int:
         """Calculate the total of entries"""
-        return sum(que.qsize() for que in self.subqueues.values())
+        with self.subqueue_lock:
+            queues = list(self.subqueues.values())
+        return sum(que.qsize() for que in queues)
 
     def get_any(self) -> tp.Tuple[str, T]:
         """
@@ -51,7 +53,9 @@ class Subqueue(tp.Generic[T]):
         :return: a tuple of (queue_name, object)
         :raises: queue.Empty()
         """
-        for queue_name, q in self.subqueues.items():
+        with self.subqueue_lock:
+            queues = list(self.subqueues.items())
+        for queue_name, q in queues:
             with silence_excs(queue.Empty):
                 return queue_name, q.get(block=False)
         else:
-- 
2.43.0


From 27e113d6452ef61a2127f91e4e85dcbef86836c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:21 +0000
Subject: [PATCH 050/135] fix: CallNoOftenThan drops the first call if the
 machine was just booted

---
 satella/coding/concurrent/callablegroup.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/concurrent/callablegroup.py b/satella/coding/concurrent/callablegroup.py
index aa7cac1..c549267 100644
--- a/satella/coding/concurrent/callablegroup.py
+++ b/satella/coding/concurrent/callablegroup.py
@@ -204,7 +204,7 @@ class CallNoOftenThan:
     def __init__(self, interval: float, callable_: tp.Callable):
         self.interval = interval  # type: float
         self.callable = callable_  # type: tp.Callable
-        self.last_called = 0  # type: float
+        self.last_called = float('-inf')  # type: float
 
     def __call__(self, *args, **kwargs):
         if time.monotonic() - self.last_called >= self.interval:
-- 
2.43.0


From c9f88c8a4e3ff10a6400ee048702becb11c54dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:48 +0000
Subject: [PATCH 051/135] fix: SetHeap and TimeBasedSetHeap kept equal elements
 given to the constructor or made by filter_map

---
 satella/coding/structures/heaps/base.py | 6 ++++--
 satella/coding/structures/heaps/time.py | 2 ++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/satella/coding/structures/heaps/base.py b/satella/coding/structures/heaps/base.py
index ffd54cc..d8e8dda 100644
--- a/satella/coding/structures/heaps/base.py
+++ b/satella/coding/structures/heaps/base.py
@@ -153,8 +153,8 @@ class SetHeap(Heap):
             self.push(item)
 
     def __init__(self, from_list: tp.Optional[tp.Iterable[T]] = None):
-        super().__init__(from_list=from_list)
-        self.set = set(self.data)
+        self.set = set(() if from_list is None else from_list)
+        super().__init__(from_list=self.set)
 
     def push(self, item: T):
         if item not in self.set:
@@ -178,3 +178,5 @@ class SetHeap(Heap):
                    map_fun: tp.Optional[tp.Callable[[T], tp.Any]] = None):
         super().filter_map(filter_fun=filter_fun, map_fun=map_fun)
         self.set = set(self.data)
+        self.data = list(self.set)
+        heapq.heapify(self.data)
diff --git a/satella/coding/structures/heaps/time.py b/satella/coding/structures/heaps/time.py
index 17a66b9..a50620f 100644
--- a/satella/coding/structures/heaps/time.py
+++ b/satella/coding/structures/heaps/time.py
@@ -272,6 +272,8 @@ class TimeBasedSetHeap(Heap):
                    map_fun: tp.Optional[tp.Callable[[tp.Tuple[Number, T]], tp.Any]] = None):
         super().filter_map(filter_fun=filter_fun, map_fun=map_fun)
         self.item_to_timestamp = {item: timestamp for timestamp, item in self.data}
+        self.data = [(timestamp, item) for item, timestamp in self.item_to_timestamp.items()]
+        heapq.heapify(self.data)
 
     def remove(self, item: T) -> None:
         """
-- 
2.43.0


From d00ff3565404d4aea4009587e9aa78a58d064e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:48 +0000
Subject: [PATCH 052/135] fix: copies of TimeBasedHeap and TimeBasedSetHeap
 were empty

---
 satella/coding/structures/heaps/time.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/satella/coding/structures/heaps/time.py b/satella/coding/structures/heaps/time.py
index a50620f..a849f28 100644
--- a/satella/coding/structures/heaps/time.py
+++ b/satella/coding/structures/heaps/time.py
@@ -1,3 +1,4 @@
+import copy
 import heapq
 import time
 import typing as tp
@@ -46,6 +47,16 @@ class TimeBasedHeap(Heap):
         self.default_clock_source = default_clock_source
         super().__init__(from_list=())
 
+    def __copy__(self) -> 'TimeBasedHeap':
+        heap = self.__class__(self.default_clock_source)
+        heap.data = copy.copy(self.data)
+        return heap
+
+    def __deepcopy__(self, memo={}) -> 'TimeBasedHeap':
+        heap = self.__class__(self.default_clock_source)
+        heap.data = copy.deepcopy(self.data, memo)
+        return heap
+
     def pop_timestamp(self, timestamp: Number) -> T:
         """
         Get first item with given timestamp, while maintaining the heap invariant
@@ -186,6 +197,16 @@ class TimeBasedSetHeap(Heap):
         super().__init__(from_list=())
         self.item_to_timestamp = {}
 
+    def __copy__(self) -> 'TimeBasedSetHeap':
+        heap = self.__class__(self.default_clock_source)
+        heap.push_many(self.data)
+        return heap
+
+    def __deepcopy__(self, memo={}) -> 'TimeBasedSetHeap':
+        heap = self.__class__(self.default_clock_source)
+        heap.push_many(copy.deepcopy(self.data, memo))
+        return heap
+
     def pop_timestamp(self, timestamp: Number) -> T:
         """
         Pop an arbitary object (in case there's two) item with given timestamp,
-- 
2.43.0


From bef6abebb347174cc734c93757762cf8cea40719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:47 +0000
Subject: [PATCH 053/135] fix: Proxy.__await__ delegates to the wrapped object

---
 satella/coding/structures/proxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/proxy.py b/satella/coding/structures/proxy.py
index 54ec9b5..89b568e 100644
--- a/satella/coding/structures/proxy.py
+++ b/satella/coding/structures/proxy.py
@@ -290,7 +290,7 @@ class Proxy(tp.Generic[T]):
         return self
 
     def __await__(self):
-        return self.__obj.__await()
+        return self.__obj.__await__()
 
     def __aenter__(self):
         return self.__obj.__aenter__()
-- 
2.43.0


From 6f296738d88624ea43e5a61c00b1334a5103fc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:47 +0000
Subject: [PATCH 054/135] fix: Proxy | and & honour wrap_operations like other
 operators

---
 satella/coding/structures/proxy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/coding/structures/proxy.py b/satella/coding/structures/proxy.py
index 89b568e..3a1507a 100644
--- a/satella/coding/structures/proxy.py
+++ b/satella/coding/structures/proxy.py
@@ -183,9 +183,11 @@ class Proxy(tp.Generic[T]):
     def __ne__(self, other) -> bool:
         return self.__obj != other
 
+    @wrap_operation
     def __or__(self, other):
         return self.__obj | other
 
+    @wrap_operation
     def __and__(self, other):
         return self.__obj & other
 
-- 
2.43.0


From 212310b50ceec3eff4f66fe6678ee215b3d625e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:47 +0000
Subject: [PATCH 055/135] fix: round() of a Proxy without digits is the round()
 of the object

---
 satella/coding/structures/proxy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/proxy.py b/satella/coding/structures/proxy.py
index 3a1507a..ae2d312 100644
--- a/satella/coding/structures/proxy.py
+++ b/satella/coding/structures/proxy.py
@@ -343,7 +343,7 @@ class Proxy(tp.Generic[T]):
 
     @wrap_operation
     @rethrow_as(AttributeError, TypeError)
-    def __round__(self, n: int = 0):
+    def __round__(self, n: tp.Optional[int] = None):
         return round(self.__obj, n)
 
     @wrap_operation
-- 
2.43.0


From 7be4de7014aad3c3cfdd5c0f5e3f8ffe116ea49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:47 +0000
Subject: [PATCH 056/135] fix: NotEqualToAnything defines __ne__ instead of
 __next__

---
 satella/coding/structures/immutable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/immutable.py b/satella/coding/structures/immutable.py
index 1238553..7bbf250 100644
--- a/satella/coding/structures/immutable.py
+++ b/satella/coding/structures/immutable.py
@@ -57,7 +57,7 @@ class NotEqualToAnything:
     def __eq__(self, other) -> bool:
         return False
 
-    def __next__(self, other) -> bool:
+    def __ne__(self, other) -> bool:
         return True
 
 
-- 
2.43.0


From bddfdcb1e17249ef7388fa4c7117fc7b0adb2526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:47 +0000
Subject: [PATCH 057/135] fix: frozendict refuses every mutating operation

---
 satella/coding/structures/immutable.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/satella/coding/structures/immutable.py b/satella/coding/structures/immutable.py
index 7bbf250..151fcb3 100644
--- a/satella/coding/structures/immutable.py
+++ b/satella/coding/structures/immutable.py
@@ -76,6 +76,24 @@ class frozendict(dict):
     def update(self, *args, **kwargs):
         raise TypeError('Cannot update a frozen dict!')
 
+    def __delitem__(self, key):
+        raise TypeError('Cannot update a frozen dict!')
+
+    def __ior__(self, other):
+        raise TypeError('Cannot update a frozen dict!')
+
+    def pop(self, *args, **kwargs):
+        raise TypeError('Cannot update a frozen dict!')
+
+    def popitem(self):
+        raise TypeError('Cannot update a frozen dict!')
+
+    def setdefault(self, *args, **kwargs):
+        raise TypeError('Cannot update a frozen dict!')
+
+    def clear(self):
+        raise TypeError('Cannot update a frozen dict!')
+
     def __hash__(self):
         o = 0
         for key, value in self.items():
-- 
2.43.0


From cf06d1f1161483412b49eaafcc30f4bce81b1f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:06 +0000
Subject: [PATCH 058/135] fix: DictionaryEQAble considers attributes that only
 the other object has

---
 satella/coding/structures/mixins/eqable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/structures/mixins/eqable.py b/satella/coding/structures/mixins/eqable.py
index 7438bcc..1aa5922 100644
--- a/satella/coding/structures/mixins/eqable.py
+++ b/satella/coding/structures/mixins/eqable.py
@@ -10,7 +10,7 @@ class DictionaryEQAble:
     """
 
     def __eq__(self, other) -> bool:
-        if type(self) != type(other):
+        if type(self) != type(other) or self.__dict__.keys() != other.__dict__.keys():
             return False
         for key in self.__dict__.keys():
             if getattr(other, key, NOT_EQUAL_TO_ANYTHING) != self.__dict__[key]:
@@ -18,7 +18,7 @@ class DictionaryEQAble:
         return True
 
     def __ne__(self, other) -> bool:
-        if type(self) != type(other):
+        if type(self) != type(other) or self.__dict__.keys() != other.__dict__.keys():
             return True
         for key in self.__dict__.keys():
             if getattr(other, key, NOT_EQUAL_TO_ANYTHING) != self.__dict__[key]:
-- 
2.43.0


From c448b5d8bb57d589d9a37c462e0ff016d9abc82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:06 +0000
Subject: [PATCH 059/135] fix: TwoWayDictionary.done() raised AttributeError

---
 satella/coding/structures/dictionaries/objects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/structures/dictionaries/objects.py b/satella/coding/structures/dictionaries/objects.py
index cfbe502..3c733a4 100644
--- a/satella/coding/structures/dictionaries/objects.py
+++ b/satella/coding/structures/dictionaries/objects.py
@@ -145,8 +145,8 @@ class TwoWayDictionary(tp.MutableMapping[K, V]):
 
         Internally this will break the reference cycle, and enable Python GC to collect the objects.
         """
-        self.reverse.reverse = None
-        self.reverse = None
+        self._reverse._reverse = None
+        self._reverse = None
 
     def __init__(self, data=None, _is_reverse: bool = False):
         if not _is_reverse:
-- 
2.43.0


From e7107ceed59daab73c907b8445bd745430b05598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:06 +0000
Subject: [PATCH 060/135] fix: copies of a DictionaryView keep its options

---
 satella/coding/structures/dictionaries/objects.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/satella/coding/structures/dictionaries/objects.py b/satella/coding/structures/dictionaries/objects.py
index 3c733a4..ae1ee6a 100644
--- a/satella/coding/structures/dictionaries/objects.py
+++ b/satella/coding/structures/dictionaries/objects.py
@@ -229,10 +229,14 @@ class DictionaryView(tp.MutableMapping[K, V]):
     __slots__ = 'assign_to_same_dict', 'master_dict', 'dictionaries', 'propagate_deletes'
 
     def __copy__(self) -> DictionaryView:
-        return DictionaryView(*copy.copy(self.dictionaries))
+        return DictionaryView(*self.dictionaries,
+                              propagate_deletes=self.propagate_deletes,
+                              assign_to_same_dict=self.assign_to_same_dict)
 
     def __deepcopy__(self, memo) -> 'DictionaryView':
-        return DictionaryView(*copy.deepcopy(self.dictionaries, memo=memo))
+        return DictionaryView(*copy.deepcopy(self.dictionaries, memo=memo),
+                              propagate_deletes=self.propagate_deletes,
+                              assign_to_same_dict=self.assign_to_same_dict)
 
     def __init__(self, master_dict: tp.Dict[K, V], *rest_of_dicts: tp.Dict[K, V],
                  propagate_deletes: bool = True,
-- 
2.43.0


From 7c107343a97b90cf1da402036ba5d9f22a49500c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:06 +0000
Subject: [PATCH 061/135] fix: typednamedtuple silently dropped surplus
 positional arguments

---
 satella/coding/structures/typednamedtuple.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/coding/structures/typednamedtuple.py b/satella/coding/structures/typednamedtuple.py
index 1211f37..bb7ef97 100644
--- a/satella/coding/structures/typednamedtuple.py
+++ b/satella/coding/structures/typednamedtuple.py
@@ -46,6 +46,8 @@ def typednamedtuple(cls_name: str, *arg_name_type: type) -> tp.Type[tp.Tuple]:
 
         def __new__(cls, *args, **kwargs):
 
+            if len(args) > len(fieldnames):
+                raise TypeError('Too many parameters')
             nargs = list(map(_adjust, zip(args, typeops[:len(args)])))
 
             for next_field_name in fieldnames[len(nargs):]:
-- 
2.43.0


From 1c745ec27e48f7bdccb531d0bf8fce17365f7a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:18 +0000
Subject: [PATCH 062/135] fix: Proxy did not support the modulo operators

---
 satella/coding/structures/proxy.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/satella/coding/structures/proxy.py b/satella/coding/structures/proxy.py
index ae2d312..6a655e1 100644
--- a/satella/coding/structures/proxy.py
+++ b/satella/coding/structures/proxy.py
@@ -330,6 +330,18 @@ class Proxy(tp.Generic[T]):
     def __matmul__(self, other):
         return self.__obj @ other
 
+    @wrap_operation
+    def __mod__(self, other):
+        return self.__obj % other
+
+    def __imod__(self, other) -> 'Proxy':
+        self.__obj %= other
+        return self
+
+    @wrap_operation
+    def __rmod__(self, other):
+        return other % self.__obj
+
     def __imatmul__(self, other):
         self.__obj @= other
         return self
-- 
2.43.0


From b76dbd615f7310695d69ef288e19e7d970f51a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:58 +0000
Subject: [PATCH 063/135] fix: deleting the last element of a SparseMatrix
 raised ValueError

---
 satella/coding/structures/sparse_matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/structures/sparse_matrix.py b/satella/coding/structures/sparse_matrix.py
index 05ade5f..d48bb21 100644
--- a/satella/coding/structures/sparse_matrix.py
+++ b/satella/coding/structures/sparse_matrix.py
@@ -303,11 +303,11 @@ class SparseMatrix(tp.Generic[T]):
                 v = self.rows_dict[row][col]
         return v
 
-    @silence_excs(TypeError, returns=0)
+    @silence_excs(ValueError, returns=0)
     def _calculate_column_count(self) -> int:
         return max(self.known_column_count) + 1
 
-    @silence_excs(TypeError, returns=0)
+    @silence_excs(ValueError, returns=0)
     def _calculate_row_count(self) -> int:
         return max(self.rows_dict) + 1
 
-- 
2.43.0


From 76807358d5f5bdc03bf9e36cf1cc1685d65b85aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:08 +0000
Subject: [PATCH 064/135] fix: SparseMatrix.delete_row of an empty row left a
 phantom row behind

---
 satella/coding/structures/sparse_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/sparse_matrix.py b/satella/coding/structures/sparse_matrix.py
index d48bb21..bc3a0cf 100644
--- a/satella/coding/structures/sparse_matrix.py
+++ b/satella/coding/structures/sparse_matrix.py
@@ -228,7 +228,7 @@ class SparseMatrix(tp.Generic[T]):
 
         :param row_no: number of the row to delete
         """
-        cols = list(self.rows_dict[row_no].keys())  # Copy it here
+        cols = list(self.rows_dict[row_no].keys()) if row_no in self.rows_dict else ()  # Copy it here
         for col_no in cols:
             del self[col_no, row_no]
 
-- 
2.43.0


From 8d2503616fdbe6012777c8eeaba9107cc443b029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:08 +0000
Subject: [PATCH 065/135] fix: an empty SparseMatrix was true and a filled one
 false

---
 satella/coding/structures/sparse_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/sparse_matrix.py b/satella/coding/structures/sparse_matrix.py
index bc3a0cf..2429a48 100644
--- a/satella/coding/structures/sparse_matrix.py
+++ b/satella/coding/structures/sparse_matrix.py
@@ -142,7 +142,7 @@ class SparseMatrix(tp.Generic[T]):
         return self.rows_dict == other.rows_dict
 
     def __bool__(self) -> bool:
-        return self.no_rows == 0
+        return self.no_rows != 0
 
     def _sanitize_key(self, key: KeyArg) -> KeyArg:
         col, row = key
-- 
2.43.0


From f2e6f1d4412d08f40bb9bc1b8eed8c8fda08a2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:08 +0000
Subject: [PATCH 066/135] fix: SparseMatrix.min/max failed when the first
 element is None

---
 satella/coding/structures/sparse_matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/structures/sparse_matrix.py b/satella/coding/structures/sparse_matrix.py
index 2429a48..7e22284 100644
--- a/satella/coding/structures/sparse_matrix.py
+++ b/satella/coding/structures/sparse_matrix.py
@@ -64,7 +64,7 @@ class SparseMatrix(tp.Generic[T]):
             for value in row:
                 if value is None:
                     continue
-                if value > item:
+                if item is None or value > item:
                     item = value
         return item
 
@@ -80,7 +80,7 @@ class SparseMatrix(tp.Generic[T]):
                 if value is None:
                     continue
 
-                if value < item:
+                if item is None or value < item:
                     item = value
         return item
 
-- 
2.43.0


From 1b976adf37e0382511d68025060a5059f24eb682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:08 +0000
Subject: [PATCH 067/135] fix: build_structure dropped all but the first entry
 of a dict and recursed infinitely into strings

---
 satella/coding/predicates.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/satella/coding/predicates.py b/satella/coding/predicates.py
index 46b2387..05dc011 100644
--- a/satella/coding/predicates.py
+++ b/satella/coding/predicates.py
@@ -263,9 +263,8 @@ def build_structure(struct: tp.Union[tuple, list, dict],
                 key = build_structure(key, argument, None, True)
                 value = build_structure(value, argument, None, True)
                 new_dict[key] = value
-                f = new_dict
-                break
-        elif isinstance(struct, tp.Sequence):
+            f = new_dict
+        elif isinstance(struct, tp.Sequence) and not isinstance(struct, (str, bytes)):
             new_seq = []
             for elem in struct:
                 if isinstance(elem, PredicateClass):
-- 
2.43.0


From 60c8dc59cf5efc07fd837157d1d2075d19d8b441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:31 +0000
Subject: [PATCH 068/135] fix: retry repeated a successful operation if
 call_on_success failed, and called call_between_retries after the last
 attempt

---
 satella/coding/decorators/retry_dec.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/satella/coding/decorators/retry_dec.py b/satella/coding/decorators/retry_dec.py
index 5a7de68..da0eb33 100644
--- a/satella/coding/decorators/retry_dec.py
+++ b/satella/coding/decorators/retry_dec.py
@@ -64,14 +64,14 @@ def retry(times: tp.Optional[int] = None,
             for i in iterator:
                 try:
                     y = fun(*args, **kwargs)
-                    if call_on_success is not None:
-                        call_on_success(i)
-                    return y
                 except exc_classes as e:
                     f = e
-                    if call_between_retries is not None:
+                    if call_between_retries is not None and i + 1 != times:
                         call_between_retries(e)
-                    continue
+                else:
+                    if call_on_success is not None:
+                        call_on_success(i)
+                    return y
             else:
                 on_failure(f)
                 if call_on_failure is not None:
-- 
2.43.0


From f98ed7c545608f6188ce1cfe6ec98c209c9a8ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:31 +0000
Subject: [PATCH 069/135] fix: transform_result and transform_arguments took
 the names of keyword arguments for positional arguments

---
 satella/coding/decorators/arguments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/decorators/arguments.py b/satella/coding/decorators/arguments.py
index 32fed98..2f47c30 100644
--- a/satella/coding/decorators/arguments.py
+++ b/satella/coding/decorators/arguments.py
@@ -35,7 +35,7 @@ def transform_result(expr: str):
         @wraps(fun)
         def inner(*args, **kwargs):
             a = fun(*args, **kwargs)
-            local = get_arguments(fun, *args, *kwargs)
+            local = get_arguments(fun, *args, **kwargs)
             local['x'] = a
             return eval(expr, globals(), local)
 
@@ -62,7 +62,7 @@ def transform_arguments(**expressions: str):
     def outer(fun):
         @wraps(fun)
         def inner(*args, **kwargs):
-            old_args = get_arguments(fun, *args, *kwargs)
+            old_args = get_arguments(fun, *args, **kwargs)
             new_args = {}
             for arg, arg_value in expressions.items():
                 new_args[arg] = eval(arg_value, globals(), old_args)
-- 
2.43.0


From 7f4fd4bfe046f175ddccd2e515b1f97391e1626e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:31 +0000
Subject: [PATCH 070/135] fix: log_exceptions lost the return value of
 generators

---
 satella/coding/recast_exceptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/recast_exceptions.py b/satella/coding/recast_exceptions.py
index 7605a87..1b5c617 100644
--- a/satella/coding/recast_exceptions.py
+++ b/satella/coding/recast_exceptions.py
@@ -107,7 +107,7 @@ class log_exceptions:
             def inner(*args, **kwargs):
                 # noinspection PyBroadException
                 try:
-                    yield from fun(*args, **kwargs)
+                    return (yield from fun(*args, **kwargs))
                 except Exception as e:      # pylint: disable=broad-except
                     if not self.analyze_exception(e, args, kwargs) or not self.swallow_exception:
                         raise
-- 
2.43.0


From 18c0ee423981c5e921a53cf729341ef32404e7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:31 +0000
Subject: [PATCH 071/135] fix: rethrow_as/silence_excs discarded the result of
 a recursive function if a nested call had raised

---
 satella/coding/recast_exceptions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/coding/recast_exceptions.py b/satella/coding/recast_exceptions.py
index 1b5c617..876a97b 100644
--- a/satella/coding/recast_exceptions.py
+++ b/satella/coding/recast_exceptions.py
@@ -268,6 +268,8 @@ class rethrow_as:
         def inner(*args, **kwargs):
             with self:
                 v = fun(*args, **kwargs)
+                # a nested call of the same function might have raised something
+                self.__exception_remapped.was_raised = False
             if self.__exception_remapped.was_raised:
                 # This means that the normal flow of execution was interrupted
                 if self.returns is not None:
-- 
2.43.0


From b4154d789027c9a882149fcbad3f0fea9368141e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:57 +0000
Subject: [PATCH 072/135] fix: skip_first and stop_after raised RuntimeError
 for iterators that are too short

---
 satella/coding/sequences/iterators.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/satella/coding/sequences/iterators.py b/satella/coding/sequences/iterators.py
index 706ab49..74802c8 100644
--- a/satella/coding/sequences/iterators.py
+++ b/satella/coding/sequences/iterators.py
@@ -473,7 +473,10 @@ def skip_first(iterator: Iteratable, n: int) -> tp.Iterator[T]:
                   'Please use itertools.islice instead', DeprecationWarning)
 
     for i in range(n):
-        next(iterator)
+        try:
+            next(iterator)
+        except StopIteration:
+            return
     yield from iterator
 
 
@@ -623,7 +626,11 @@ def stop_after(iterator: Iteratable, n: int) -> tp.Iterator[T]:
                   'Please use itertools.islice instead', DeprecationWarning)
 
     for i in range(n):
-        yield next(iterator)
+        try:
+            item = next(iterator)
+        except StopIteration:
+            return
+        yield item
 
 
 @for_argument(iter)
-- 
2.43.0


From 268080e918432ffc37a0a2a8fea95c79c2cdb6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:20 +0000
Subject: [PATCH 073/135] fix: take_n raised StopIteration if there was less to
 take than to skip

---
 satella/coding/sequences/iterators.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/satella/coding/sequences/iterators.py b/satella/coding/sequences/iterators.py
index 74802c8..631d001 100644
--- a/satella/coding/sequences/iterators.py
+++ b/satella/coding/sequences/iterators.py
@@ -851,10 +851,13 @@ def take_n(iterator: Iteratable, n: int, skip: int = 0) -> tp.List[T]:
     :param skip: elements from the start to skip
     :return: list of p_len n (or shorter)
     """
+    output = []
     for i in range(skip):
-        next(iterator)
+        try:
+            next(iterator)
+        except StopIteration:
+            return output
 
-    output = []
     for i in range(n):
         try:
             output.append(next(iterator))
-- 
2.43.0


From abb3660f30c19165b0103a3839864d77639f7bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:20 +0000
Subject: [PATCH 074/135] fix: AlreadySeen failed if given both hashable and
 unhashable objects

---
 satella/coding/sequences/iterators.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/satella/coding/sequences/iterators.py b/satella/coding/sequences/iterators.py
index 631d001..92970b4 100644
--- a/satella/coding/sequences/iterators.py
+++ b/satella/coding/sequences/iterators.py
@@ -235,19 +235,17 @@ class AlreadySeen(tp.Generic[K]):
             hash(key)
             if self.set is None:
                 self.set = set()
-            if key in self.set:
-                return False
-            self.set.add(key)
-            return True
         except TypeError:
             warnings.warn('Passed argument is not hashable, you pay with '
                           'O(n^2) complexity!', RuntimeWarning)
-            if self.set is None:
-                self.set = []
-            if key in self.set:
-                return False
+            self.set = list(self.set or ())
+        if key in self.set:
+            return False
+        if isinstance(self.set, list):
             self.set.append(key)
-            return True
+        else:
+            self.set.add(key)
+        return True
 
 
 def unique(lst: Iteratable) -> tp.Iterator[T]:
-- 
2.43.0


From 5e3ed7ac2e04ff134a728099520a33b756b9dc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:20 +0000
Subject: [PATCH 075/135] fix: ListWrapperIterator took negative indices from
 an incomplete list and failed on open slices

---
 satella/coding/sequences/iterators.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/satella/coding/sequences/iterators.py b/satella/coding/sequences/iterators.py
index 92970b4..be4472c 100644
--- a/satella/coding/sequences/iterators.py
+++ b/satella/coding/sequences/iterators.py
@@ -567,8 +567,12 @@ class ListWrapperIterator(tp.Sequence[T], tp.Iterator[T]):
         :raises IndexError: invalid index
         """
         if isinstance(item, int):
-            if len(self.list) < item + 1:
+            if item < 0:
+                self.exhaust()
+            elif len(self.list) < item + 1:
                 self.advance_to_item(item + 1)
+        elif item.stop is None or item.stop < 0 or (item.start or 0) < 0:
+            self.exhaust()
         else:
             self.advance_to_item(item.stop)
         return self.list[item]
-- 
2.43.0


From c7429e34584be2d129d01c54930d8128b8ef662f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:20 +0000
Subject: [PATCH 076/135] fix: is_last raised RuntimeError for an empty
 sequence

---
 satella/coding/sequences/sequences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/sequences/sequences.py b/satella/coding/sequences/sequences.py
index 99be8c8..d07f45f 100644
--- a/satella/coding/sequences/sequences.py
+++ b/satella/coding/sequences/sequences.py
@@ -1 +1 @@
-import copyimport typing as tpfrom satella.coding.decorators.decorators import wrapsfrom satella.coding.recast_exceptions import rethrow_asfrom .iterators import n_thfrom ..typing import T, Iteratable, NoArgCallable, Predicatedef infinite_iterator(returns: tp.Optional[T] = None,                      return_factory: tp.Optional[NoArgCallable[T]] = None) -> tp.Iterator[T]:    """    Return an infinite number of objects.    :param returns: object to return. Note that this will be this very object, it will        not be copied.    :param return_factory: a callable that takes 0 args and returns an element to return.    :return: an infinite iterator of provided values    """    while True:        if returns is None:            yield None if return_factory is None else return_factory()        else:            yield returnsdef make_list(element: T, n: int, deep_copy: bool = False) -> tp.List[T]:    """    Make a list consisting of n times element. Element will be copied via    copy.copy before adding to list.    :param element: element    :param n: times to repeat the element    :param deep_copy: whether to use copy.deepcopy instead of copy.copy    :return: list of length n    """    output = []    if deep_copy:        copy_op = copy.deepcopy    else:        copy_op = copy.copy    for _ in range(n):        output.append(copy_op(element))    return output# shamelessly copied from# https://medium.com/better-programming/is-this-the-last-element-of-my-python-for-loop-784f5ff90bb5def is_last(lst: Iteratable) -> tp.Iterator[tp.Tuple[bool, T]]:    """    Return every element of the list, alongside a flag telling is this the last element.    Use like:    >>> for is_last, element in is_last(my_list):    >>>     if is_last:    >>>         ...    :param lst: list to iterate thru    :return: a p_gen returning (bool, T)    Note that this returns a nice, O(1) iterator.    """    iterable = iter(lst)    ret_var = next(iterable)    for val in iterable:        yield False, ret_var        ret_var = val    yield True, ret_vardef add_next(lst: Iteratable,             wrap_over: bool = False,             skip_last: bool = False) -> tp.Iterator[tp.Tuple[T, tp.Optional[T]]]:    """    Yields a 2-tuple of given iterable, presenting the next element as second element of the tuple.    The last element will be the last element alongside with a None, if wrap_over is False, or the    first element if wrap_over was True    Example:    >>> list(add_next([1, 2, 3, 4, 5])) == [(1, 2), (2, 3), (3, 4), (4, 5), (5, None)]    >>> list(add_next([1, 2, 3, 4, 5], True)) == [(1, 2), (2, 3), (3, 4), (4, 5), (5, 1)]    :param lst: iterable to iterate over    :param wrap_over: whether to attach the first element to the pair of the last element instead        of None    :param skip_last: if this is True, then last element, alongside with a None, won't be output    """    iterator = iter(lst)    try:        first_val = prev_val = next(iterator)    except StopIteration:        return    for val in iterator:        yield prev_val, val        prev_val = val    if wrap_over:        yield prev_val, first_val    else:        if not skip_last:            yield prev_val, Nonedef half_cartesian(seq: tp.Iterable[T],                   include_same_pairs: bool = True) -> tp.Iterator[tp.Tuple[T, T]]:    """    Generate half of the Cartesian product of both sequences.    Useful when you have a commutative operation that you'd like to execute on both elements    (eg. checking for collisions).    Example:    >>> list(half_cartesian([1, 2, 3], [1, 2, 3])) == \    >>>     [(1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (3, 3)]    :param seq: The sequence    :param include_same_pairs: if True, then pairs returning two of the same objects will be        returned. For example, if False, the following will be true:    >>> list(half_cartesian([1, 2, 3], [1, 2, 3], include_same_pairs=False)) == \    >>>     [(1, 2), (1, 3), (2, 3)]    """    for i, elem1 in enumerate(seq):        for j, elem2 in enumerate(seq):            if include_same_pairs:                if j >= i:                    yield elem1, elem2            else:                if j > i:                    yield elem1, elem2def group_quantity(length: int, seq: Iteratable) -> tp.Iterator[tp.List[T]]:    """    Slice an iterable into lists containing at most len entries.    Eg.    >>> assert list(group_quantity(3, [1, 2, 3, 4, 5, 6, 7, 8, 9, 10])) == [[1, 2, 3], [4, 5, 6],    >>>                                                                     [7, 8, 9], [10]]    This correctly detects sequences, and uses an optimized variant via slicing if    a sequence is passed.    You can safely pass ranges    :param length: p_len for the returning sequences    :param seq: sequence to split    """    if isinstance(seq, tp.Sequence) and not isinstance(seq, range):        i = 0        while i < len(seq):            yield seq[i:i + length]            i += length    else:        entries = []        for elem in seq:            if len(entries) == length:                yield entries                entries = [elem]            else:                entries.append(elem)        if entries:            yield entriesdef filter_out_nones(y: tp.Sequence[T]) -> tp.List[T]:    """    Return all elements, as a list, that are not None    :param y: a sequence of items    :return: a list of all subelements, in order, that are not None    """    output = []    for item in y:        if item is not None:            output.append(item)    return outputdef filter_out_false(y: tp.Sequence[T]) -> tp.List[T]:    """    Return all elements, as a list, that are True    :param y: a sequence of items    :return: a list of all subelements, in order, that are not None    """    output = []    for item in y:        if item:            output.append(item)    return output@rethrow_as(IndexError, ValueError)def index_of_max(seq: tp.Sequence[T]) -> int:    """    Return the index of the maximum element    :param seq: sequence to examine    :return: index of the maximum element    :raise ValueError: sequence was empty    """    max_index = 0    max_elem = seq[0]    for i, elem in enumerate(seq):        if elem > max_elem:            max_index = i            max_elem = elem    return max_indexdef index_of(predicate: Predicate, seq: tp.Sequence[T]) -> int:    """    Return an index of first met element that calling predicate on it returns True    :param predicate: predicate to apply    :param seq: sequence to examine    :return: index of the element    :raises ValueError: if no element found    """    i = 0    for elem in seq:        if predicate(elem):            return i        i += 1    raise ValueError('Element not found')class Multirun:    """    A class to launch the same operation on the entire sequence.    Consider:    >>> class Counter:    >>>     def __init__(self, value=0):    >>>         self.count = value    >>>     def add(self, v):    >>>         self.count += 1    >>>     def __eq__(self, other):    >>>          return self.count == other.count    >>>     def __iadd__(self, other):    >>>         self.add(other)    >>> a = [Counter(), Counter()]    The following:    >>> for b in a:    >>>     b.add(2)    Can be replaced with    >>> Multirun(a).add(2)    And the following:    >>> for b in a:    >>>     b += 3    With this    >>> b = Mulirun(a)    >>> b += 3    Furthermore note that:    >>> Multirun(a).add(2) == [Counter(2), Counter(2)]    :param sequence: sequence to execute these operations for    :param dont_return_list: the operation won't return a list if this is True    """    __slots__ = 'sequence', 'dont_return_list'    def __bool__(self) -> bool:        return bool(self.sequence)    def __init__(self, sequence: tp.Iterable, dont_return_list: bool = False):        self.sequence = sequence        self.dont_return_list = dont_return_list    def __iter__(self):        return iter(self.sequence)    def __getattr__(self, item):        def inner(*args, **kwargs):            if not self.dont_return_list:                results = []                for element in self:                    getattr(element, item)(*args, **kwargs)                    results.append(element)                return results            else:                for element in self:                    getattr(element, item)(*args, **kwargs)        # Take care: the array might just be empty...        try:            fun = getattr(n_th(self), item)            inner = wraps(fun)(inner)        except IndexError:            pass        return inner    def __iadd__(self, other):        for element in self:            element += other        return self    def __isub__(self, other):        for element in self:            element -= other        return self    def __imul__(self, other):        for element in self:            element *= other        return self    def __itruediv__(self, other):        for element in self:            element /= other        return self    def __ifloordiv__(self, other):        for element in self:            element //= other        return self    def __ilshift__(self, other):        for element in self:            element <<= other        return self    def __irshift__(self, other):        for element in self:            element >>= other        return self    def __ipow__(self, other):        for element in self:            element **= other        return self
\ No newline at end of file
+import copyimport typing as tpfrom satella.coding.decorators.decorators import wrapsfrom satella.coding.recast_exceptions import rethrow_asfrom .iterators import n_thfrom ..typing import T, Iteratable, NoArgCallable, Predicatedef infinite_iterator(returns: tp.Optional[T] = None,                      return_factory: tp.Optional[NoArgCallable[T]] = None) -> tp.Iterator[T]:    """    Return an infinite number of objects.    :param returns: object to return. Note that this will be this very object, it will        not be copied.    :param return_factory: a callable that takes 0 args and returns an element to return.    :return: an infinite iterator of provided values    """    while True:        if returns is None:            yield None if return_factory is None else return_factory()        else:            yield returnsdef make_list(element: T, n: int, deep_copy: bool = False) -> tp.List[T]:    """    Make a list consisting of n times element. Element will be copied via    copy.copy before adding to list.    :param element: element    :param n: times to repeat the element    :param deep_copy: whether to use copy.deepcopy instead of copy.copy    :return: list of length n    """    output = []    if deep_copy:        copy_op = copy.deepcopy    else:        copy_op = copy.copy    for _ in range(n):        output.append(copy_op(element))    return output# shamelessly copied from# https://medium.com/better-programming/is-this-the-last-element-of-my-python-for-loop-784f5ff90bb5def is_last(lst: Iteratable) -> tp.Iterator[tp.Tuple[bool, T]]:    """    Return every element of the list, alongside a flag telling is this the last element.    Use like:    >>> for is_last, element in is_last(my_list):    >>>     if is_last:    >>>         ...    :param lst: list to iterate thru    :return: a p_gen returning (bool, T)    Note that this returns a nice, O(1) iterator.    """    iterable = iter(lst)    try:        ret_var = next(iterable)    except StopIteration:        return    for val in iterable:        yield False, ret_var        ret_var = val    yield True, ret_vardef add_next(lst: Iteratable,             wrap_over: bool = False,             skip_last: bool = False) -> tp.Iterator[tp.Tuple[T, tp.Optional[T]]]:    """    Yields a 2-tuple of given iterable, presenting the next element as second element of the tuple.    The last element will be the last element alongside with a None, if wrap_over is False, or the    first element if wrap_over was True    Example:    >>> list(add_next([1, 2, 3, 4, 5])) == [(1, 2), (2, 3), (3, 4), (4, 5), (5, None)]    >>> list(add_next([1, 2, 3, 4, 5], True)) == [(1, 2), (2, 3), (3, 4), (4, 5), (5, 1)]    :param lst: iterable to iterate over    :param wrap_over: whether to attach the first element to the pair of the last element instead        of None    :param skip_last: if this is True, then last element, alongside with a None, won't be output    """    iterator = iter(lst)    try:        first_val = prev_val = next(iterator)    except StopIteration:        return    for val in iterator:        yield prev_val, val        prev_val = val    if wrap_over:        yield prev_val, first_val    else:        if not skip_last:            yield prev_val, Nonedef half_cartesian(seq: tp.Iterable[T],                   include_same_pairs: bool = True) -> tp.Iterator[tp.Tuple[T, T]]:    """    Generate half of the Cartesian product of both sequences.    Useful when you have a commutative operation that you'd like to execute on both elements    (eg. checking for collisions).    Example:    >>> list(half_cartesian([1, 2, 3], [1, 2, 3])) == \    >>>     [(1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (3, 3)]    :param seq: The sequence    :param include_same_pairs: if True, then pairs returning two of the same objects will be        returned. For example, if False, the following will be true:    >>> list(half_cartesian([1, 2, 3], [1, 2, 3], include_same_pairs=False)) == \    >>>     [(1, 2), (1, 3), (2, 3)]    """    for i, elem1 in enumerate(seq):        for j, elem2 in enumerate(seq):            if include_same_pairs:                if j >= i:                    yield elem1, elem2            else:                if j > i:                    yield elem1, elem2def group_quantity(length: int, seq: Iteratable) -> tp.Iterator[tp.List[T]]:    """    Slice an iterable into lists containing at most len entries.    Eg.    >>> assert list(group_quantity(3, [1, 2, 3, 4, 5, 6, 7, 8, 9, 10])) == [[1, 2, 3], [4, 5, 6],    >>>                                                                     [7, 8, 9], [10]]    This correctly detects sequences, and uses an optimized variant via slicing if    a sequence is passed.    You can safely pass ranges    :param length: p_len for the returning sequences    :param seq: sequence to split    """    if isinstance(seq, tp.Sequence) and not isinstance(seq, range):        i = 0        while i < len(seq):            yield seq[i:i + length]            i += length    else:        entries = []        for elem in seq:            if len(entries) == length:                yield entries                entries = [elem]            else:                entries.append(elem)        if entries:            yield entriesdef filter_out_nones(y: tp.Sequence[T]) -> tp.List[T]:    """    Return all elements, as a list, that are not None    :param y: a sequence of items    :return: a list of all subelements, in order, that are not None    """    output = []    for item in y:        if item is not None:            output.append(item)    return outputdef filter_out_false(y: tp.Sequence[T]) -> tp.List[T]:    """    Return all elements, as a list, that are True    :param y: a sequence of items    :return: a list of all subelements, in order, that are not None    """    output = []    for item in y:        if item:            output.append(item)    return output@rethrow_as(IndexError, ValueError)def index_of_max(seq: tp.Sequence[T]) -> int:    """    Return the index of the maximum element    :param seq: sequence to examine    :return: index of the maximum element    :raise ValueError: sequence was empty    """    max_index = 0    max_elem = seq[0]    for i, elem in enumerate(seq):        if elem > max_elem:            max_index = i            max_elem = elem    return max_indexdef index_of(predicate: Predicate, seq: tp.Sequence[T]) -> int:    """    Return an index of first met element that calling predicate on it returns True    :param predicate: predicate to apply    :param seq: sequence to examine    :return: index of the element    :raises ValueError: if no element found    """    i = 0    for elem in seq:        if predicate(elem):            return i        i += 1    raise ValueError('Element not found')class Multirun:    """    A class to launch the same operation on the entire sequence.    Consider:    >>> class Counter:    >>>     def __init__(self, value=0):    >>>         self.count = value    >>>     def add(self, v):    >>>         self.count += 1    >>>     def __eq__(self, other):    >>>          return self.count == other.count    >>>     def __iadd__(self, other):    >>>         self.add(other)    >>> a = [Counter(), Counter()]    The following:    >>> for b in a:    >>>     b.add(2)    Can be replaced with    >>> Multirun(a).add(2)    And the following:    >>> for b in a:    >>>     b += 3    With this    >>> b = Mulirun(a)    >>> b += 3    Furthermore note that:    >>> Multirun(a).add(2) == [Counter(2), Counter(2)]    :param sequence: sequence to execute these operations for    :param dont_return_list: the operation won't return a list if this is True    """    __slots__ = 'sequence', 'dont_return_list'    def __bool__(self) -> bool:        return bool(self.sequence)    def __init__(self, sequence: tp.Iterable, dont_return_list: bool = False):        self.sequence = sequence        self.dont_return_list = dont_return_list    def __iter__(self):        return iter(self.sequence)    def __getattr__(self, item):        def inner(*args, **kwargs):            if not self.dont_return_list:                results = []                for element in self:                    getattr(element, item)(*args, **kwargs)                    results.append(element)                return results            else:                for element in self:                    getattr(element, item)(*args, **kwargs)        # Take care: the array might just be empty...        try:            fun = getattr(n_th(self), item)            inner = wraps(fun)(inner)        except IndexError:            pass        return inner    def __iadd__(self, other):        for element in self:            element += other        return self    def __isub__(self, other):        for element in self:            element -= other        return self    def __imul__(self, other):        for element in self:            element *= other        return self    def __itruediv__(self, other):        for element in self:            element /= other        return self    def __ifloordiv__(self, other):        for element in self:            element //= other        return self    def __ilshift__(self, other):        for element in self:            element <<= other        return self    def __irshift__(self, other):        for element in self:            element >>= other        return self    def __ipow__(self, other):        for element in self:            element **= other        return self
\ No newline at end of file
-- 
2.43.0


From e61ba95c633aa41ee4f98fe23a8483c7e8499125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:20 +0000
Subject: [PATCH 077/135] fix: chain took a TypeError raised during iteration
 for an element that is not iterable

---
 satella/coding/iterators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/satella/coding/iterators.py b/satella/coding/iterators.py
index 2fa2365..f713ccd 100644
--- a/satella/coding/iterators.py
+++ b/satella/coding/iterators.py
@@ -15,9 +15,11 @@ def chain(*args) -> tp.Iterator:
     """
     for elem in args:
         try:
-            yield from iter(elem)
+            iterator = iter(elem)
         except TypeError:
             yield elem
+        else:
+            yield from iterator
 
 
 def exhaust(iterator: tp.Iterator) -> None:
-- 
2.43.0


From f51e3941793ab8ec58d2ba109c02dc6bc8a9742c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:36 +0000
Subject: [PATCH 078/135] fix: SelfClosingGenerator.send lost the value that
 the generator yielded

---
 satella/coding/iterators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/iterators.py b/satella/coding/iterators.py
index f713ccd..6a42023 100644
--- a/satella/coding/iterators.py
+++ b/satella/coding/iterators.py
@@ -61,8 +61,8 @@ class SelfClosingGenerator:
     def __call__(self, *args, **kwargs):
         return SelfClosingGenerator(self.generator(*args, **kwargs))
 
-    def send(self, obj: tp.Any) -> None:
-        self.generator.send(obj)
+    def send(self, obj: tp.Any) -> tp.Any:
+        return self.generator.send(obj)
 
     def __next__(self):
         try:
-- 
2.43.0


From 5acfe7a2eb8a0d28b60f49868c6c2e01d9a2b6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:36 +0000
Subject: [PATCH 079/135] fix: hint_with_length lost its length_factory if it
 decorated a function

---
 satella/coding/iterators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/iterators.py b/satella/coding/iterators.py
index 6a42023..14295a5 100644
--- a/satella/coding/iterators.py
+++ b/satella/coding/iterators.py
@@ -119,7 +119,7 @@ class hint_with_length:
         self.length_factory = length_factory
 
     def __call__(self, *args, **kwargs):
-        return hint_with_length(self.generator(*args, **kwargs), self.length)
+        return hint_with_length(self.generator(*args, **kwargs), self.length, self.length_factory)
 
     def close(self):
         return self.generator.close()
-- 
2.43.0


From 0bafe5624c688870acd9c4e1bc60221c718e10dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:36 +0000
Subject: [PATCH 080/135] fix: ListDeleter went from the first element back to
 the last one

---
 satella/coding/deleters.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/satella/coding/deleters.py b/satella/coding/deleters.py
index 0fb1427..c39b0e0 100644
--- a/satella/coding/deleters.py
+++ b/satella/coding/deleters.py
@@ -161,6 +161,8 @@ class ListDeleter(tp.Generic[T]):
         if self.direction == DIR_FORWARD and self.current_index == len(self.list_to_process):
             raise StopIteration('Last element reached')
         self.current_index += +1 if self.direction == DIR_FORWARD else -1
+        if self.current_index < 0:
+            raise StopIteration('Before the first element')
         try:
             return self.list_to_process[self.current_index]
         except IndexError:
@@ -185,6 +187,8 @@ class ListDeleter(tp.Generic[T]):
         if self.direction == DIR_BACKWARD and self.current_index == len(self.list_to_process):
             raise StopIteration('Cannot go previous on a last element!')
         self.current_index += -1 if self.direction == DIR_FORWARD else +1
+        if self.current_index < 0:
+            raise StopIteration('Before the first element')
         try:
             return self.list_to_process[self.current_index]
         except IndexError:
-- 
2.43.0


From 211e6c01f87cf2d0ec499a1b251b31be7220d162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:36 +0000
Subject: [PATCH 081/135] fix: RunActionAfterGeneratorCompletes missed
 completion through send and throw, and ran its action again if asked for more

---
 satella/coding/generators.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/satella/coding/generators.py b/satella/coding/generators.py
index fd29de6..fdf2e23 100644
--- a/satella/coding/generators.py
+++ b/satella/coding/generators.py
@@ -31,22 +31,26 @@ class RunActionAfterGeneratorCompletes(tp.Generator, metaclass=ABCMeta):
 
     def send(self, value):
         """Send a value to the generator"""
-        return self.generator.send(value)
+        return self._run(self.generator.send, value)
 
     def next(self):
-        return self.generator.__next__()
+        return self.__next__()
 
     def __iter__(self):
         return self
 
     def throw(self, __typ, __val=None, __tb=None):
-        return self.generator.throw(__typ, __val, __tb)
+        return self._run(self.generator.throw, __typ, __val, __tb)
 
     def __next__(self):
+        return self._run(self.generator.__next__)
+
+    def _run(self, method, *args):
         try:
-            return self.generator.__next__()
+            return method(*args)
         except StopIteration:
             if not self.closed:
+                self.closed = True      # the generator completes but once
                 self.action_to_run(*self.args, **self.kwargs)
             raise
 
-- 
2.43.0


From 59aa79173a8727eb5e58da8b1f28fac0957521b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:43 +0000
Subject: [PATCH 082/135] fix: assert_equal failed with TypeError or passed if
 only one of the values was a collection

---
 satella/coding/deep_compare.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/satella/coding/deep_compare.py b/satella/coding/deep_compare.py
index 397d2fc..c23b285 100644
--- a/satella/coding/deep_compare.py
+++ b/satella/coding/deep_compare.py
@@ -38,16 +38,22 @@ def assert_equal(a, b):
             raise Inequal(a, b, InequalityReason.NOT_EQUAL)
         return
     elif isinstance(a, (set, frozenset)):
+        if not isinstance(b, (set, frozenset)):
+            raise Inequal(a, b, InequalityReason.NOT_EQUAL)
         if len(a) != len(b):
             raise Inequal(a, b, InequalityReason.LENGTH_MISMATCH)
         if a != b:
-            raise Inequal(a, b, InequalityReason.LENGTH_MISMATCH)
+            raise Inequal(a, b, InequalityReason.NOT_EQUAL)
     elif isinstance(a, (list, tuple)):
+        if not isinstance(b, (list, tuple)):
+            raise Inequal(a, b, InequalityReason.NOT_EQUAL)
         if len(a) != len(b):
             raise Inequal(a, b, InequalityReason.LENGTH_MISMATCH)
         for c, d in zip(a, b):
             assert_equal(c, d)
     elif isinstance(a, dict):
+        if not isinstance(b, dict):
+            raise Inequal(a, b, InequalityReason.NOT_EQUAL)
         if len(a) != len(b):
             raise Inequal(a, b, InequalityReason.LENGTH_MISMATCH)
         for key in a.keys():
-- 
2.43.0


From 3728e3082a8a31ab1a26ecf8dee5e23b8bdf8ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:43 +0000
Subject: [PATCH 083/135] fix: assert_equal accepted objects that refuse to be
 compared

---
 satella/coding/deep_compare.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/deep_compare.py b/satella/coding/deep_compare.py
index c23b285..7ae6611 100644
--- a/satella/coding/deep_compare.py
+++ b/satella/coding/deep_compare.py
@@ -66,4 +66,4 @@ def assert_equal(a, b):
                 return
             raise Inequal(a, b, InequalityReason.NOT_EQUAL)
         except TypeError:
-            pass
+            raise Inequal(a, b, InequalityReason.NOT_EQUAL)
-- 
2.43.0


From d4b799fe8fef71a05fbd013124f953f5169ae26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:43 +0000
Subject: [PATCH 084/135] fix: ListDeleter iterated over again after a removal
 did not remove anything

---
 satella/coding/deleters.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/satella/coding/deleters.py b/satella/coding/deleters.py
index c39b0e0..e24d297 100644
--- a/satella/coding/deleters.py
+++ b/satella/coding/deleters.py
@@ -153,6 +153,7 @@ class ListDeleter(tp.Generic[T]):
     def __iter__(self) -> 'ListDeleter':
         self.current_index = -1 if self.direction == DIR_FORWARD else len(self.list_to_process)
         self.indices_to_delete = set()
+        self.removed = False
         return self
 
     def __next__(self) -> T:
-- 
2.43.0


From 2966b53315e09667b58827bfd62592d4eda99928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:43 +0000
Subject: [PATCH 085/135] fix: CopyDocsFrom copied the docs of a single method
 only

---
 satella/coding/metaclasses.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/satella/coding/metaclasses.py b/satella/coding/metaclasses.py
index 9e35cf5..585909b 100644
--- a/satella/coding/metaclasses.py
+++ b/satella/coding/metaclasses.py
@@ -46,7 +46,6 @@ def CopyDocsFrom(target_cls: tp.Type):
                     if getattr(target_cls, key).__doc__:
                         value.__doc__ = getattr(target_cls, key).__doc__
                         dictionary[key] = value
-                        break
 
         return type(name, bases, dictionary)
 
-- 
2.43.0


From 792aae583655ecc1586d52a97aeb224519b58cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:43 +0000
Subject: [PATCH 086/135] fix: leaving a nested Context discarded the outer
 ones

---
 satella/coding/environment.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/satella/coding/environment.py b/satella/coding/environment.py
index 17e2dd9..4fcc840 100644
--- a/satella/coding/environment.py
+++ b/satella/coding/environment.py
@@ -87,13 +87,14 @@ class Context:
             return self.parent.does_exist(val)
 
     def __exit__(self, exc_type, exc_val, exc_tb) -> bool:
-        if self.parent is None:
-            try:
+        try:
+            parent = local.thread_context.parent
+            if parent is None:
                 del local.thread_context
-            except AttributeError:
-                pass
-        else:
-            local.thread_context = self.parent
+            else:
+                local.thread_context = parent
+        except AttributeError:
+            pass
         return False
 
     @staticmethod
-- 
2.43.0


From 353f4b75b130921c4930bf8fcd80b0e456367b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:43 +0000
Subject: [PATCH 087/135] fix: entering a Context lost the variables it was
 created with

---
 satella/coding/environment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/environment.py b/satella/coding/environment.py
index 4fcc840..db42c98 100644
--- a/satella/coding/environment.py
+++ b/satella/coding/environment.py
@@ -56,7 +56,7 @@ class Context:
             parent = local.thread_context
         except AttributeError:
             parent = None
-        ctxt = Context(parent=parent)
+        ctxt = Context(parent=parent, **self.variables)
         ctxt.parent = parent
         local.thread_context = ctxt
         return ctxt
-- 
2.43.0


From b8f2f68fb3e43bed539e00b88f719b7eec4031cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:46 +0000
Subject: [PATCH 088/135] fix: transaction left the cursor and the connection
 open if commit or rollback failed

---
 satella/db.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/satella/db.py b/satella/db.py
index d874a89..3b44903 100644
--- a/satella/db.py
+++ b/satella/db.py
@@ -44,17 +44,19 @@ class transaction:
             return self._connection
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        if exc_val is None:
-            self.connection.commit()
-        else:
-            self.connection.rollback()
-
-        if exc_val is not None and self.log_exception:
-            logger.error('Exception occurred of type %s', exc_type, exc_info=exc_val)
-
-        self.cursor.close()
-
-        if self.close_the_connection_after:
-            self.connection.close()
+        try:
+            if exc_val is None:
+                self.connection.commit()
+            else:
+                self.connection.rollback()
+
+            if exc_val is not None and self.log_exception:
+                logger.error('Exception occurred of type %s', exc_type, exc_info=exc_val)
+        finally:
+            try:
+                self.cursor.close()
+            finally:
+                if self.close_the_connection_after:
+                    self.connection.close()
 
         return False
-- 
2.43.0


From 59432d5fa8286b9b004d814de99e0fffd7f7cc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:46 +0000
Subject: [PATCH 089/135] fix: transaction did not call a connection getter
 that is a method

---
 satella/db.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/db.py b/satella/db.py
index 3b44903..19227a3 100644
--- a/satella/db.py
+++ b/satella/db.py
@@ -36,7 +36,7 @@ class transaction:
 
     @property
     def connection(self):
-        if inspect.isfunction(self._connection):
+        if inspect.isroutine(self._connection):
             conn = self._connection()
             self._connection = conn
             return conn
-- 
2.43.0


From 4c22185827ba8ce502619c1acc4c9ca413d7b5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:46 +0000
Subject: [PATCH 090/135] fix: call_and_return_stdout failed if a multi-byte
 character was split between two reads

---
 satella/processes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/processes.py b/satella/processes.py
index 6c92352..3745748 100644
--- a/satella/processes.py
+++ b/satella/processes.py
@@ -84,7 +84,7 @@ def call_and_return_stdout(args: tp.Union[str, tp.List[str]],
     if encoding is None:
         result = b''.join(stdout_list)
     else:
-        result = ''.join((row.decode(encoding) for row in stdout_list))
+        result = b''.join(stdout_list).decode(encoding)
 
     if expected_return_code is not None:
         if proc.returncode != expected_return_code:
-- 
2.43.0


From b0ae3409d6e3313422573792173a60f25d8a9fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:46 +0000
Subject: [PATCH 091/135] fix: find_files ignored apply_wildcard_to_entire_path
 in subdirectories

---
 satella/files.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/satella/files.py b/satella/files.py
index eca9748..d016f98 100644
--- a/satella/files.py
+++ b/satella/files.py
@@ -367,6 +367,7 @@ def find_files(path: str, wildcard: str = r'(.*)',
             new_prefix = _cond_join(prefix_with, filename)
             yield from find_files(os.path.join(path, filename), wildcard,
                                   prefix_with=new_prefix,
+                                  apply_wildcard_to_entire_path=apply_wildcard_to_entire_path,
                                   prefix_with_path=False)
         else:
             if apply_wildcard_to_entire_path:
-- 
2.43.0


From d28dec97446f21af23236495c0d52256feebe5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:46 +0000
Subject: [PATCH 092/135] fix: files.split never ended for an absolute path

---
 satella/files.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/satella/files.py b/satella/files.py
index d016f98..1dca7c7 100644
--- a/satella/files.py
+++ b/satella/files.py
@@ -215,7 +215,10 @@ def split(path: str) -> tp.List[str]:
     """
     data = list(os.path.split(path))
     while _has_separator(data[0]):
-        data = list(os.path.split(data[0])) + data[1:]
+        head, tail = os.path.split(data[0])
+        if head == data[0]:
+            break
+        data = [head, tail] + data[1:]
     return data
 
 
-- 
2.43.0


From ae99130084ed05b574133b6583b1d1d3ecf315b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:46 +0000
Subject: [PATCH 093/135] fix: BinaryParser with an offset or a window of no
 bytes read past its end

---
 satella/parsing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/satella/parsing.py b/satella/parsing.py
index b2e5d9b..2a45343 100644
--- a/satella/parsing.py
+++ b/satella/parsing.py
@@ -40,7 +40,9 @@ class BinaryParser:
         self.b_stream = b_stream
         self.pointer = self.init_ofs = offset
         self.struct_cache = {}
-        self.length = length or len(b_stream)
+        self.length = len(b_stream) - offset
+        if length is not None:
+            self.length = min(self.length, length)
         if offset > len(self.b_stream):
             raise NotEnoughBytes('Offset larger than the stream!')
 
-- 
2.43.0


From 07d49b887e5ebe59bc82c32f2c62fc6004e9e725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:46 +0000
Subject: [PATCH 094/135] fix: comparing a JSONAbleDataObject with any other
 object raised AttributeError

---
 satella/json.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/json.py b/satella/json.py
index ac1286b..b7072eb 100644
--- a/satella/json.py
+++ b/satella/json.py
@@ -146,6 +146,8 @@ class JSONAbleDataObject:
     """
 
     def __eq__(self, other) -> bool:
+        if not isinstance(other, self.__class__):
+            return NotImplemented
         return all(getattr(self, annotation) == getattr(other, annotation) for annotation in self.__class__.__annotations__.keys())
 
     def __hash__(self) -> int:
-- 
2.43.0


From cb9c7d8ea142f10d1dc12583f5989db8c5f33eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:46 +0000
Subject: [PATCH 095/135] fix: read_json_from_file and write_json_to_file used
 the encoding of the locale instead of UTF-8

---
 satella/json.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/satella/json.py b/satella/json.py
index b7072eb..2ef18c9 100644
--- a/satella/json.py
+++ b/satella/json.py
@@ -80,7 +80,7 @@ def write_json_to_file(path: str, value: JSONAble, **kwargs) -> None:
     """
     if kwargs:
         warnings.warn('Do not use kwargs, it has no effect', DeprecationWarning)
-    with open(path, 'w') as f_out:
+    with open(path, 'w', encoding='utf-8') as f_out:
         f_out.write(JSONEncoder().encode(value))
 
 
@@ -113,10 +113,10 @@ def read_json_from_file(path: str) -> JSONAble:
     """
     try:
         import ujson
-        with open(path, 'r') as f_in:
+        with open(path, 'r', encoding='utf-8') as f_in:
             v = ujson.load(f_in)
     except ImportError:
-        with open(path, 'r') as f_in:
+        with open(path, 'r', encoding='utf-8') as f_in:
             try:
                 v = json.load(f_in)
             except json.decoder.JSONDecodeError as e:
-- 
2.43.0


From df80b4353f197d6d1d2fa90f17fc2120acbc3e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:46 +0000
Subject: [PATCH 096/135] fix: Regexp and IPv4 descriptors raised
 AttributeError instead of rejecting a value

---
 satella/configuration/schema/basic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/configuration/schema/basic.py b/satella/configuration/schema/basic.py
index f451d80..858194a 100644
--- a/satella/configuration/schema/basic.py
+++ b/satella/configuration/schema/basic.py
@@ -217,13 +217,13 @@ class Regexp(String):
 
         match = self.regexp.match(value)
         if not match:
-            raise ConfigurationValidationError('value does not match %s' % (self.REGEXP.pattern,),
+            raise ConfigurationValidationError('value does not match %s' % (self.regexp.pattern,),
                                                value)
 
         return match.group(0)
 
     def __str__(self):
-        return 'Regexp(%s)' % (self.REGEXP.pattern,)
+        return 'Regexp(%s)' % (self.regexp.pattern,)
 
 
 @register_custom_descriptor('ipv4')
-- 
2.43.0


From 2f95e5a861f76c842716c0bcdb04d3c1dff636ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:46 +0000
Subject: [PATCH 097/135] fix: FileContents raised OSError instead of rejecting
 a path that cannot be read

---
 satella/configuration/schema/basic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/configuration/schema/basic.py b/satella/configuration/schema/basic.py
index 858194a..b9a726b 100644
--- a/satella/configuration/schema/basic.py
+++ b/satella/configuration/schema/basic.py
@@ -157,6 +157,8 @@ class FileContents(Descriptor):
     the contents of this file, applied with encoding (if given). By default, bytes will be read in
     """
 
+    MY_EXCEPTIONS = Descriptor.MY_EXCEPTIONS + [OSError]
+
     def __init__(self, encoding: tp.Optional[str] = None, strip_afterwards: bool = False):
         super().__init__()
         self.encoding = encoding
-- 
2.43.0


From fe544e55b0d9ffc28946de2361a4cb28090bd299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:46 +0000
Subject: [PATCH 098/135] fix: descriptor_from_dict raised AttributeError for
 unknown types

---
 satella/configuration/schema/from_json.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/configuration/schema/from_json.py b/satella/configuration/schema/from_json.py
index e3b318a..af34ec1 100644
--- a/satella/configuration/schema/from_json.py
+++ b/satella/configuration/schema/from_json.py
@@ -13,7 +13,8 @@ def _get_descriptor_for_str(key: str, value: str) -> Descriptor:
             return create_key(BASE_LOOKUP_TABLE[value](),
                               key, False, None)
     except KeyError:
-        raise ConfigurationSchemaError('Unknown descriptor type %s' % (value,))
+        pass
+    raise ConfigurationSchemaError('Unknown descriptor type %s' % (value,))
 
 
 def _get_descriptor_for_dict(key: str, value: dict) -> Descriptor:
-- 
2.43.0


From 8bad8e11cd308850bae66a6596a26389638be1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:46 +0000
Subject: [PATCH 099/135] fix: MergingSource changed the configuration of its
 sources

---
 satella/configuration/sources/derivative.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/satella/configuration/sources/derivative.py b/satella/configuration/sources/derivative.py
index fac0f78..68ec583 100644
--- a/satella/configuration/sources/derivative.py
+++ b/satella/configuration/sources/derivative.py
@@ -1,3 +1,5 @@
+import copy
+
 from satella.coding.algos import merge_dicts
 from satella.exceptions import ConfigurationError
 from .base import BaseSource
@@ -96,7 +98,7 @@ class MergingSource(BaseSource):
                 else:
                     raise ConfigurationError('Invalid on_fail parameter %s' % (self.on_fail,))
             assert isinstance(p, dict), 'what was provided by the config was not a dict'
-            cfg = merge_dicts(cfg, p)
+            cfg = merge_dicts(cfg, copy.deepcopy(p))
             assert isinstance(cfg, dict), 'what merge_dicts returned wasn''t a dict'
 
         if not correct_sources and self.sources and self.fail_if_no_sources_are_correct:
-- 
2.43.0


From bbdf014bad54ec1ba15433abe3296a61b5982a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:46 +0000
Subject: [PATCH 100/135] fix: load_source_from_dict failed on dictionaries
 that have a type of their own

---
 satella/configuration/sources/from_dict.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/configuration/sources/from_dict.py b/satella/configuration/sources/from_dict.py
index 8300a42..eff600d 100644
--- a/satella/configuration/sources/from_dict.py
+++ b/satella/configuration/sources/from_dict.py
@@ -62,8 +62,8 @@ def load_source_from_dict(dct: dict) -> BaseSource:
                 return load_source_from_dict(arg)
             else:
                 warnings.warn(
-                    'Caught %s attempting to parse a dict with type, returning original value' % (
-                        e,), UserWarning)
+                    'Caught unknown type %s attempting to parse a dict with type, returning original value' % (
+                        a_type,), UserWarning)
                 return arg
         else:
             return arg
-- 
2.43.0


From 41582818fdf0f2ddf49352732ef4055b2142cb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:46 +0000
Subject: [PATCH 101/135] fix: merge_list compared the values of equal keys

---
 satella/coding/transforms/merge_list.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/satella/coding/transforms/merge_list.py b/satella/coding/transforms/merge_list.py
index c47d8f1..5f76ef0 100644
--- a/satella/coding/transforms/merge_list.py
+++ b/satella/coding/transforms/merge_list.py
@@ -36,7 +36,8 @@ class merge_list(tp.Iterator[tp.Tuple[K, V]]):
 
         for i, it in enumerate(self.its):
             try:
-                self.heap.push((*next(it), i))
+                k, v = next(it)
+                self.heap.push((k, i, v))
                 self.available_lists.add(i)
             except StopIteration:
                 pass
@@ -65,11 +66,11 @@ class merge_list(tp.Iterator[tp.Tuple[K, V]]):
             self.k, self.v, self.i = k2, v2, i2
 
     def pop(self):
-        k, v, i = self.heap.pop()
+        k, i, v = self.heap.pop()
         if i in self.available_lists:
             try:
                 k2, v2 = next(self.its[i])
-                self.heap.push((k2, v2, i))
+                self.heap.push((k2, i, v2))
             except StopIteration:
                 self.available_lists.remove(i)
         return k, v, i
-- 
2.43.0


From a0609fd03fc79689715ac2bcbf510bd6eb8a7c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:46 +0000
Subject: [PATCH 102/135] fix: sleep raised ValueError if the time ran out just
 before sleeping

---
 satella/time/misc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/satella/time/misc.py b/satella/time/misc.py
index a7a16c1..9736c5d 100644
--- a/satella/time/misc.py
+++ b/satella/time/misc.py
@@ -25,12 +25,14 @@ def sleep(y: tp.Union[str, float], abort_on_interrupt: bool = False) -> bool:
         return False
 
     with measure() as measurement:
-        while measurement() < y:
+        remaining = y - measurement()
+        while remaining > 0:
             try:
-                time.sleep(y - measurement())
+                time.sleep(remaining)
             except KeyboardInterrupt:
                 if abort_on_interrupt:
                     return False
+            remaining = y - measurement()
     return True
 
 
-- 
2.43.0


From 086844712858785d5a91150a11d3d99df6783e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:46 +0000
Subject: [PATCH 103/135] fix: StoredVariableValue.from_json lost the pickle

---
 satella/instrumentation/trace_back/classes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/instrumentation/trace_back/classes.py b/satella/instrumentation/trace_back/classes.py
index 31d8498..072d690 100644
--- a/satella/instrumentation/trace_back/classes.py
+++ b/satella/instrumentation/trace_back/classes.py
@@ -117,7 +117,8 @@ class StoredVariableValue(JSONAble):
         sv.pickle_type = x['pickle_type']
         if 'pickle' in x:
             sv.pickle = base64.b64decode(x['pickle'].encode('utf8'))
-        sv.pickle = None
+        else:
+            sv.pickle = None
         return sv
 
     def to_json(self) -> dict:
-- 
2.43.0


From e1ecd3a48d725b5e2146f2d9a58e35e8fbad20dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:46 +0000
Subject: [PATCH 104/135] fix: a traceback could not be taken if any variable
 had a failing __repr__

---
 satella/instrumentation/trace_back/classes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/satella/instrumentation/trace_back/classes.py b/satella/instrumentation/trace_back/classes.py
index 072d690..786eb00 100644
--- a/satella/instrumentation/trace_back/classes.py
+++ b/satella/instrumentation/trace_back/classes.py
@@ -138,7 +138,10 @@ class StoredVariableValue(JSONAble):
         return self.repr
 
     def __init__(self, value: tp.Any, policy: tp.Optional[GenerationPolicy] = None):
-        self.repr = repr(value)  # type: str
+        try:
+            self.repr = repr(value)  # type: str
+        except Exception as e:
+            self.repr = 'repr unavailable (due to locally raised %s)' % (type(e),)
         self.type_ = repr(type(value))  # type: str
 
         policy = policy or GenerationPolicy()
-- 
2.43.0


From 142836a8130d160fd395929f323ab9125a5c2ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:46 +0000
Subject: [PATCH 105/135] fix: hang_until_sig was not released by SIGINT, and
 left its signal handlers if interrupted

---
 satella/os/signals.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/satella/os/signals.py b/satella/os/signals.py
index 7b0ba87..7217ef0 100644
--- a/satella/os/signals.py
+++ b/satella/os/signals.py
@@ -36,12 +36,14 @@ def hang_until_sig(extra_signals: tp.Optional[tp.Sequence[int]] = None,
         olds.append(signal.getsignal(s))
         signal.signal(s, __sighandler)
 
-    while not end:
-        sleep(sleep_interval, True)
-
-    # Unset the signal handler
-    signal.signal(signal.SIGTERM, old_term)
-    for s, old_handler in zip(extra_signals, olds):
-        signal.signal(s, old_handler)
-
-    end = False  # reset for next use
+    try:
+        while not end:
+            if not sleep(sleep_interval, True):     # interrupted by SIGINT
+                break
+    finally:
+        # Unset the signal handler
+        signal.signal(signal.SIGTERM, old_term)
+        for s, old_handler in zip(extra_signals, olds):
+            signal.signal(s, old_handler)
+
+        end = False  # reset for next use
-- 
2.43.0


From 95686eee647b75dfbde773badf13003278478432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:46 +0000
Subject: [PATCH 106/135] fix: MetricDataCollection kept its entries under
 their old names after prefixing and postfixing, and prefix_with returned
 nothing

---
 satella/instrumentation/metrics/data.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/satella/instrumentation/metrics/data.py b/satella/instrumentation/metrics/data.py
index 1d1bf61..0191887 100644
--- a/satella/instrumentation/metrics/data.py
+++ b/satella/instrumentation/metrics/data.py
@@ -129,13 +129,20 @@ class MetricDataCollection(JSONAble):
 
     def prefix_with(self, prefix: str) -> 'MetricDataCollection':
         """Prefix every child with given prefix and return self"""
+        output = set()
         for child in self.values:
             child.prefix_with(prefix)
+            output.add(child)
+        self.values = output
+        return self
 
     def postfix_with(self, postfix: str) -> 'MetricDataCollection':
         """Postfix every child with given postfix and return self"""
+        output = set()
         for child in self.values:
             child.postfix_with(postfix)
+            output.add(child)
+        self.values = output
         return self
 
     def __add_metric_data(self, other: MetricData):
-- 
2.43.0


From 390ed6368c6ab50806aa30d4cfab7781edbf9704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:46 +0000
Subject: [PATCH 107/135] fix: MetricDataCollection made out of another one
 shared its entries

---
 satella/instrumentation/metrics/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/data.py b/satella/instrumentation/metrics/data.py
index 0191887..1d4a919 100644
--- a/satella/instrumentation/metrics/data.py
+++ b/satella/instrumentation/metrics/data.py
@@ -89,7 +89,7 @@ class MetricDataCollection(JSONAble):
             if isinstance(values[0], MetricData):
                 self.values = set(values)
             elif isinstance(values[0], MetricDataCollection):
-                self.values = values[0].values
+                self.values = values[0].values.copy()
             else:
                 self.values = set(values[0])
         else:
-- 
2.43.0


From 6b5c6b304ae467bf1fcf4e4b2899b11c515d966d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:46 +0000
Subject: [PATCH 108/135] fix: MetricData.from_json destroyed the dictionary
 that it was given

---
 satella/instrumentation/metrics/data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/satella/instrumentation/metrics/data.py b/satella/instrumentation/metrics/data.py
index 1d4a919..2e4cc6d 100644
--- a/satella/instrumentation/metrics/data.py
+++ b/satella/instrumentation/metrics/data.py
@@ -58,6 +58,7 @@ class MetricData(JSONAble):
 
     @classmethod
     def from_json(cls, x: dict) -> 'MetricData':
+        x = dict(x)
         name = x.pop('_name')
         value = x.pop('_')
         timestamp = x.pop('_timestamp', None)
-- 
2.43.0


From 7f112741ad7110563d9b9b0f5c59fd0e967f53fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:46 +0000
Subject: [PATCH 109/135] fix: labeled children of an internal metric were not
 internal

---
 satella/instrumentation/metrics/metric_types/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/metric_types/base.py b/satella/instrumentation/metrics/metric_types/base.py
index 8427195..7e5e6b1 100644
--- a/satella/instrumentation/metrics/metric_types/base.py
+++ b/satella/instrumentation/metrics/metric_types/base.py
@@ -240,7 +240,7 @@ class EmbeddedSubmetrics(LeafMetric):
         """
 
         return self.__class__(self.name, self, MetricLevel.INHERIT, *self.args, labels=labels,
-                              **self.kwargs)
+                              internal=self.internal, **self.kwargs)
 
 
 from .registry import register_metric
-- 
2.43.0


From dfc5e4b18d5ab417b06d623cad569e1f18860bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:46 +0000
Subject: [PATCH 110/135] fix: counters did not export their timestamp

---
 satella/instrumentation/metrics/metric_types/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/metric_types/base.py b/satella/instrumentation/metrics/metric_types/base.py
index 7e5e6b1..85c072c 100644
--- a/satella/instrumentation/metrics/metric_types/base.py
+++ b/satella/instrumentation/metrics/metric_types/base.py
@@ -164,7 +164,7 @@ class LeafMetric(Metric):
 
     def to_metric_data(self) -> MetricDataCollection:
         return MetricDataCollection(
-            MetricData(self.name, None, self.labels, internal=self.internal))
+            MetricData(self.name, None, self.labels, self.get_timestamp(), self.internal))
 
     def append_child(self, metric: 'Metric'):
         raise TypeError('This metric cannot contain children!')
-- 
2.43.0


From 8ae4d2093b09f4750d630d6c327bd53a0f078933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:46 +0000
Subject: [PATCH 111/135] fix: sums and counts of an internal histogram were
 not internal

---
 .../metrics/metric_types/histogram.py                | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/satella/instrumentation/metrics/metric_types/histogram.py b/satella/instrumentation/metrics/metric_types/histogram.py
index 6b1fbe3..1ea0260 100644
--- a/satella/instrumentation/metrics/metric_types/histogram.py
+++ b/satella/instrumentation/metrics/metric_types/histogram.py
@@ -60,14 +60,18 @@ class HistogramMetric(EmbeddedSubmetrics, MeasurableMixin):
             if self.aggregate_children:
                 mdc = self.containers_to_metric_data()
                 mdc.postfix_with('total')
-                mdc += MetricData(self.name + '.total.sum', self.sum, {}, self.get_timestamp())
-                mdc += MetricData(self.name + '.total.count', self.count, {}, self.get_timestamp())
+                mdc += MetricData(self.name + '.total.sum', self.sum, {}, self.get_timestamp(),
+                                  self.internal)
+                mdc += MetricData(self.name + '.total.count', self.count, {}, self.get_timestamp(),
+                                  self.internal)
                 k += mdc
             return k
 
         mdc = self.containers_to_metric_data()
-        mdc += MetricData(self.name + '.sum', self.sum, self.labels, self.get_timestamp())
-        mdc += MetricData(self.name + '.count', self.count, self.labels, self.get_timestamp())
+        mdc += MetricData(self.name + '.sum', self.sum, self.labels, self.get_timestamp(),
+                          self.internal)
+        mdc += MetricData(self.name + '.count', self.count, self.labels, self.get_timestamp(),
+                          self.internal)
         return mdc
 
     def containers_to_metric_data(self) -> MetricDataCollection:
-- 
2.43.0


From 6a9e7e386703a4f471f6853450e1535d25594914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:46 +0000
Subject: [PATCH 112/135] fix: status of each link overwrote the statuses of
 other addresses

---
 satella/instrumentation/metrics/metric_types/linkfail.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/metric_types/linkfail.py b/satella/instrumentation/metrics/metric_types/linkfail.py
index b25d3bb..1fe5a1c 100644
--- a/satella/instrumentation/metrics/metric_types/linkfail.py
+++ b/satella/instrumentation/metrics/metric_types/linkfail.py
@@ -81,5 +81,5 @@ class LinkfailMetric(EmbeddedSubmetrics):
                               self.consecutive_successes[address],
                               labels, self.get_timestamp(), self.internal)
             mdc += MetricData(self.name + '.status', int(self.working[address]),
-                              self.labels, self.get_timestamp(), self.internal)
+                              labels, self.get_timestamp(), self.internal)
         return mdc
-- 
2.43.0


From f546e85d381cd31cccc348fe9379783fad0f9f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:46 +0000
Subject: [PATCH 113/135] fix: labeled linkfail metrics were not exported

---
 satella/instrumentation/metrics/metric_types/linkfail.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/satella/instrumentation/metrics/metric_types/linkfail.py b/satella/instrumentation/metrics/metric_types/linkfail.py
index 1fe5a1c..cbd6a92 100644
--- a/satella/instrumentation/metrics/metric_types/linkfail.py
+++ b/satella/instrumentation/metrics/metric_types/linkfail.py
@@ -67,6 +67,9 @@ class LinkfailMetric(EmbeddedSubmetrics):
                     self.callback_on_offline(address, self.labels)
 
     def to_metric_data(self) -> MetricDataCollection:
+        if self.embedded_submetrics_enabled:
+            return super().to_metric_data()
+
         mdc = MetricDataCollection()
         keys = set(self.consecutive_successes.keys())
         keys = keys.union(set(self.consecutive_failures.keys()))
-- 
2.43.0


From ffa947433c9a460618ea9aa34cb0f0728614acbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:46 +0000
Subject: [PATCH 114/135] fix: getMetric registered a metric that it failed to
 attach to its parent

---
 satella/instrumentation/metrics/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/__init__.py b/satella/instrumentation/metrics/__init__.py
index 64553ac..ade53bc 100644
--- a/satella/instrumentation/metrics/__init__.py
+++ b/satella/instrumentation/metrics/__init__.py
@@ -49,9 +49,9 @@ def _process_metric(name, name_index, metric_level, metric_level_to_set_for_chil
         else:
             metric = Metric(name_part, root_metric, metric_level_to_set_for_children,
                             **kwargs)
-        metrics[tentative_name] = metric
         if metric != root_metric:  # prevent infinite recursion errors
             root_metric.append_child(metric)
+        metrics[tentative_name] = metric
     else:
         metric = metrics[tentative_name]
     root_metric = metric
-- 
2.43.0


From ffe6eb2865679a46e7d4e1b0ce5e436880ea49a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:46 +0000
Subject: [PATCH 115/135] fix: a generator decorated with measure() lost its
 return value

---
 .../instrumentation/metrics/metric_types/measurable_mixin.py    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/metric_types/measurable_mixin.py b/satella/instrumentation/metrics/metric_types/measurable_mixin.py
index 5b3c519..c49a559 100644
--- a/satella/instrumentation/metrics/metric_types/measurable_mixin.py
+++ b/satella/instrumentation/metrics/metric_types/measurable_mixin.py
@@ -100,7 +100,7 @@ class MeasurableMixin:
                     start_value = value_getter()
                     excepted = None
                     try:
-                        yield from fun(*args, **kwargs)
+                        return (yield from fun(*args, **kwargs))
                     except Exception as e:
                         excepted = e
                     finally:
-- 
2.43.0


From 323cd232e880c86063aaaa8b83f4bbc60b0c7151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:46 +0000
Subject: [PATCH 116/135] fix: a second measure_future() on the same future
 overwrote the start of the first one

---
 .../instrumentation/metrics/metric_types/measurable_mixin.py  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/instrumentation/metrics/metric_types/measurable_mixin.py b/satella/instrumentation/metrics/metric_types/measurable_mixin.py
index c49a559..7d7870e 100644
--- a/satella/instrumentation/metrics/metric_types/measurable_mixin.py
+++ b/satella/instrumentation/metrics/metric_types/measurable_mixin.py
@@ -28,10 +28,10 @@ class MeasurableMixin:
             the value
         :param labels: extra labels to call handle() with
         """
-        future.old_value = value_getter()
+        old_value = value_getter()
 
         def on_future_done(fut: Future):
-            self.handle(logging_level, value_getter() - fut.old_value, **labels)
+            self.handle(logging_level, value_getter() - old_value, **labels)
 
         future.add_done_callback(on_future_done)
 
-- 
2.43.0


From ce2cbeb9a9aaf2b803add759a33efe9944767743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:46 +0000
Subject: [PATCH 117/135] fix: Prometheus exporter did not escape line feeds in
 label values

---
 satella/instrumentation/metrics/exporters/prometheus.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/exporters/prometheus.py b/satella/instrumentation/metrics/exporters/prometheus.py
index ad22217..82fdede 100644
--- a/satella/instrumentation/metrics/exporters/prometheus.py
+++ b/satella/instrumentation/metrics/exporters/prometheus.py
@@ -103,7 +103,8 @@ class RendererObject(io.StringIO):
         if md.labels:
             self.write('{')
             self.write(','.join('%s="%s"' % (
-                key, str(value).replace('\\', '\\\\').replace('"', '\\"')) for
+                key, str(value).replace('\\', '\\\\').replace('"', '\\"').replace(
+                    '\n', '\\n')) for
                                 key, value in md.labels.items()))
             self.write('}')
         self.write(' %s' % (md.value,))
-- 
2.43.0


From 4e555daa8b9414834b89443c59dcd5814b948b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:46 +0000
Subject: [PATCH 118/135] fix: MetrifiedExclusiveWritebackCache called
 get_queue_length once instead of giving it to the metric

---
 satella/instrumentation/metrics/structures/cache_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/metrics/structures/cache_dict.py b/satella/instrumentation/metrics/structures/cache_dict.py
index f1b1d46..8558409 100644
--- a/satella/instrumentation/metrics/structures/cache_dict.py
+++ b/satella/instrumentation/metrics/structures/cache_dict.py
@@ -136,7 +136,7 @@ class MetrifiedExclusiveWritebackCache(ExclusiveWritebackCache[K, V]):
         self.cache_miss = cache_miss
         self.cache_hits = cache_hits
         if entries_waiting is not None:
-            entries_waiting.callable = self.get_queue_length()
+            entries_waiting.callable = self.get_queue_length
 
     def __getitem__(self, item):
         if item in self.in_cache:
-- 
2.43.0


From 10fa325e11ca344d22255002758683e76872f1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:46 +0000
Subject: [PATCH 119/135] fix: MetrifiedThreadPoolExecutor lost pending tasks
 if it was garbage collected

---
 satella/instrumentation/metrics/structures/threadpool.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/satella/instrumentation/metrics/structures/threadpool.py b/satella/instrumentation/metrics/structures/threadpool.py
index 356bcdc..19dc0e3 100644
--- a/satella/instrumentation/metrics/structures/threadpool.py
+++ b/satella/instrumentation/metrics/structures/threadpool.py
@@ -34,14 +34,16 @@ def _worker(executor_reference, work_queue, initializer, initargs):
                 # Measure the time spent in waiting
                 executor = executor_reference()
                 work_item.measure.stop()
-                executor.waiting_time_metric.handle(executor.metric_level, work_item.measure())
+                if executor is not None:
+                    executor.waiting_time_metric.handle(executor.metric_level, work_item.measure())
                 del executor
 
                 with measure() as measurement:
                     work_item.run()
 
                 executor = executor_reference()
-                executor.executing_time_metric.handle(executor.metric_level, measurement())
+                if executor is not None:
+                    executor.executing_time_metric.handle(executor.metric_level, measurement())
                 # Delete references to object. See issue16284
                 del work_item
 
-- 
2.43.0


From b943c9612c89b8abd8c701639611c49a0be0ec9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:46 +0000
Subject: [PATCH 120/135] fix: LocalRelativeValue fired while there was enough
 memory instead of when there was too little

---
 satella/instrumentation/memory/conditions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/instrumentation/memory/conditions.py b/satella/instrumentation/memory/conditions.py
index 18d94b9..a2645f1 100644
--- a/satella/instrumentation/memory/conditions.py
+++ b/satella/instrumentation/memory/conditions.py
@@ -118,7 +118,7 @@ class LocalRelativeValue(MemoryCondition):
     __slots__ = ()
 
     def can_fire(self, local_memory_data, local_maximum_consume: tp.Optional[int]) -> bool:
-        return local_memory_data.rss / local_maximum_consume < (1 - self.value / 100)
+        return local_memory_data.rss / local_maximum_consume > (1 - self.value / 100)
 
 
 class CustomCondition(BaseCondition):
-- 
2.43.0


From a3a8410a34c49036ca05098c72fe768cbc7e33cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:07 +0000
Subject: [PATCH 121/135] fix: parse_time_string failed on full names of units
 such as "2 hours"

---
 satella/time/parse.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/satella/time/parse.py b/satella/time/parse.py
index 329ac86..e4868e7 100644
--- a/satella/time/parse.py
+++ b/satella/time/parse.py
@@ -29,8 +29,9 @@ def parse_time_string(s: tp.Union[int, float, str]) -> float:
     if isinstance(s, (int, float)):
         return s
 
-    for modifier, multiple in TIME_MODIFIERS:
-        if modifier in s:
-            return float(s[:s.index(modifier)]) * multiple
+    found = [(s.index(modifier), multiple) for modifier, multiple in TIME_MODIFIERS if modifier in s]
+    if found:
+        index, multiple = min(found)
+        return float(s[:index]) * multiple
 
     return float(s)
-- 
2.43.0


From e7e9f703c7cf1ecef014485677af7d86bff3d30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:16 +0000
Subject: [PATCH 122/135] fix: repr() of a tainted object returns a string

---
 satella/debug/tainting/tainteds.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/satella/debug/tainting/tainteds.py b/satella/debug/tainting/tainteds.py
index 5f04002..211b821 100644
--- a/satella/debug/tainting/tainteds.py
+++ b/satella/debug/tainting/tainteds.py
@@ -79,7 +79,6 @@ class TaintedObject(tp.Generic[T]):
     def __call__(self, *args, **kwargs):
         return taint(self.__v(*args, **kwargs))
 
-    @might_accept_tainted(taint_result=True)
     def __repr__(self) -> str:
         return '%s TAINTED' % str(self.__v)
 
-- 
2.43.0


From 8dcac8feeec2ca5f78e1dbabe54a80185fda7291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:16 +0000
Subject: [PATCH 123/135] fix: assigning an attribute of a tainted object
 reaches the object

---
 satella/debug/tainting/tainteds.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/debug/tainting/tainteds.py b/satella/debug/tainting/tainteds.py
index 211b821..7980ff5 100644
--- a/satella/debug/tainting/tainteds.py
+++ b/satella/debug/tainting/tainteds.py
@@ -63,7 +63,7 @@ class TaintedObject(tp.Generic[T]):
         if key == '_TaintedObject__environment' or key == '_TaintedObject__v':
             super().__setattr__(key, value)
         else:
-            super().__setattr__(key, taint(value))
+            setattr(self.__v, key, taint(value))
 
     def __iter__(self) -> tp.Iterator[TaintedObject[T]]:
         for item in self.__v:
-- 
2.43.0


From 9af3e11ea6435c1d186f829376375357cef7507e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:16 +0000
Subject: [PATCH 124/135] fix: items of tainted containers can be accessed with
 tainted keys

---
 satella/debug/tainting/tainteds.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/satella/debug/tainting/tainteds.py b/satella/debug/tainting/tainteds.py
index 7980ff5..db4a8d7 100644
--- a/satella/debug/tainting/tainteds.py
+++ b/satella/debug/tainting/tainteds.py
@@ -162,13 +162,13 @@ class TaintedObject(tp.Generic[T]):
         return hash(self.__v)
 
     def __getitem__(self, item: int) -> TaintedObject[T]:
-        return taint(self.__v[item])
+        return taint(self.__v[access_tainted(item)])
 
     def __setitem__(self, key, value: T) -> None:
-        self.__v[key] = taint(value)
+        self.__v[access_tainted(key)] = taint(value)
 
     def __delitem__(self, key: str) -> None:
-        del self.__v[key]
+        del self.__v[access_tainted(key)]
 
 
 def access_tainted(v: tp.Union[T, TaintedObject[T]]) -> T:
-- 
2.43.0


From 74ced4810afcfad10c2faf519dc14cb4fee5ae28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:22 +0000
Subject: [PATCH 125/135] fix: SyncableDroppable.get_archive reads the DB when
 nothing is in memory

---
 satella/coding/structures/syncable_droppable.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/satella/coding/structures/syncable_droppable.py b/satella/coding/structures/syncable_droppable.py
index 0d51fed..2104d20 100644
--- a/satella/coding/structures/syncable_droppable.py
+++ b/satella/coding/structures/syncable_droppable.py
@@ -208,9 +208,7 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
         :param stop: stopping key (included)
         :return: a iterator of KVTuple
         """
-        if not self.data_in_memory:
-            return []
-        if self.first_key_in_memory <= start:
+        if self.data_in_memory and self.first_key_in_memory <= start:
             # We'll serve it from memory
             for key, value in self.data_in_memory:
                 if key < start:
-- 
2.43.0


From b0bd83ff08f949638239e5923edf484c87b52db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:22 +0000
Subject: [PATCH 126/135] fix: SyncableDroppable.on_sync_request serves entries
 of the DB with nothing in memory, and key zero

---
 satella/coding/structures/syncable_droppable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/satella/coding/structures/syncable_droppable.py b/satella/coding/structures/syncable_droppable.py
index 2104d20..6787f5a 100644
--- a/satella/coding/structures/syncable_droppable.py
+++ b/satella/coding/structures/syncable_droppable.py
@@ -311,9 +311,9 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
             self.start_entry = key
 
     def _assert_correctness(self, maximum_entries):
-        if not self.start_entry:
+        if self.start_entry is None:
             raise ValueError('Nothing to synchronize!')
-        if self.synced_up_to == self.data_in_memory[-1][0]:
+        if self.synced_up_to == self.stop_entry:
             raise ValueError('Nothing to synchronize!')
 
     def _on_sync_request_synced_up_none(self, maximum_entries):
-- 
2.43.0


From 41e446601a7e1857f566fe28027392a93c10fc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:22 +0000
Subject: [PATCH 127/135] fix: SyncableDroppable.on_sync_request never returns
 more than maximum_entries

---
 satella/coding/structures/syncable_droppable.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/coding/structures/syncable_droppable.py b/satella/coding/structures/syncable_droppable.py
index 6787f5a..4f14aa6 100644
--- a/satella/coding/structures/syncable_droppable.py
+++ b/satella/coding/structures/syncable_droppable.py
@@ -327,6 +327,8 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
                     data = itertools.chain(data, self.data_in_memory)
                 else:
                     data = itertools.chain(data, self.data_in_memory[:entries_left])
+            else:
+                data = data[:maximum_entries]
             return data
         finally:
             try_close(iterator)
-- 
2.43.0


From 83475f24f989af5c26e9630a5755baf8e3c0cd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:22 +0000
Subject: [PATCH 128/135] fix: SyncableDroppable.on_sync_request returns all
 that is not synced when part of it is in the DB

---
 .../coding/structures/syncable_droppable.py   | 22 ++++++++-----------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/satella/coding/structures/syncable_droppable.py b/satella/coding/structures/syncable_droppable.py
index 4f14aa6..4bf022e 100644
--- a/satella/coding/structures/syncable_droppable.py
+++ b/satella/coding/structures/syncable_droppable.py
@@ -334,20 +334,16 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
             try_close(iterator)
 
     def __append_item(self, data, iterator, maximum_entries):
-        while len(data) < maximum_entries:
-            try:
-                data.append(next(iterator))
-            except StopIteration:
-                for index, tpl in enumerate(self.data_in_memory):
-                    if len(data) >= maximum_entries:
-                        break
-                    if self.synced_up_to is not None:
-                        if tpl[0] > self.synced_up_to:
-                            break
-                return itertools.chain(data, self.data_in_memory[:index])
+        for source in (iterator, self.data_in_memory):
+            for tpl in source:
+                if len(data) >= maximum_entries:
+                    return data
+                if tpl[0] > self.synced_up_to:
+                    data.append(tpl)
+        return data
 
     def _on_sync_request_synced_up_is_not_none(self, maximum_entries):
-        if self.first_key_in_memory <= self.synced_up_to:
+        if self.data_in_memory and self.first_key_in_memory <= self.synced_up_to:
             # Means we have to sync from memory
             if self.synced_up_to is None:
                 v = self.data_in_memory
@@ -361,7 +357,7 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
         else:
             # We have to start off the disk
             data = []
-            iterator = self.db_storage.iterate(self.start_entry)
+            iterator = self.db_storage.iterate(self.synced_up_to)
             try:
                 v = self.__append_item(data, iterator, maximum_entries)
             finally:
-- 
2.43.0


From 8fbc0afcb1c3fe9bf52645021e0b572f6d3a5a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:22 +0000
Subject: [PATCH 129/135] fix: SyncableDroppable.on_sync_request is not
 affected by entries that move to the DB later

---
 satella/coding/structures/syncable_droppable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/coding/structures/syncable_droppable.py b/satella/coding/structures/syncable_droppable.py
index 4bf022e..267efb0 100644
--- a/satella/coding/structures/syncable_droppable.py
+++ b/satella/coding/structures/syncable_droppable.py
@@ -324,7 +324,7 @@ class SyncableDroppable(RMonitor, tp.Generic[K, V]):
             if len(data) < maximum_entries:
                 entries_left = maximum_entries - len(data)
                 if entries_left == math.inf:
-                    data = itertools.chain(data, self.data_in_memory)
+                    data = itertools.chain(data, self.data_in_memory[:])
                 else:
                     data = itertools.chain(data, self.data_in_memory[:entries_left])
             else:
-- 
2.43.0


From 6b09bff82770525815a008d347383543fc4d6ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:22 +0000
Subject: [PATCH 130/135] fix: merge_series skips timestamps before the latest
 of the first ones

---
 satella/coding/transforms/merger.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/satella/coding/transforms/merger.py b/satella/coding/transforms/merger.py
index 70873b7..7c783da 100644
--- a/satella/coding/transforms/merger.py
+++ b/satella/coding/transforms/merger.py
@@ -75,10 +75,9 @@ class merge_series:
         :return: whether every value can report for for_ts
         """
         for i, _ in enumerate(self.series):
-            if self.super_next_preloaded_values[i] is None:
-                if self.next_preloaded_values[i][0] > for_ts:
-                    return False
-            else:
+            if self.next_preloaded_values[i][0] > for_ts:
+                return False
+            if self.super_next_preloaded_values[i] is not None:
                 try:
                     while not (self.next_preloaded_values[i][0] <= for_ts
                                < self.super_next_preloaded_values[i][0]):
-- 
2.43.0


From fa471fdb5edc603f6682e32ef4c9c5612f9317ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:22 +0000
Subject: [PATCH 131/135] fix: str() of a CustomException with keyword
 arguments

---
 satella/exceptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/exceptions.py b/satella/exceptions.py
index 9ac1a0e..8a1a5d4 100644
--- a/satella/exceptions.py
+++ b/satella/exceptions.py
@@ -29,7 +29,7 @@ class CustomException(Exception):
         a = '%s(%s' % (self.__class__.__qualname__.split('.')[-1], ', '.join(map(repr, self.args)))
         try:
             if self.kwargs:
-                a += ', ' + ', '.join(map(lambda k, v: '%s=%s' % (k, repr(v)), self.kwargs.items()))
+                a += ', ' + ', '.join(map(lambda kv: '%s=%s' % (kv[0], repr(kv[1])), self.kwargs.items()))
         except AttributeError:
             pass
         a += ')'
-- 
2.43.0


From 1c65ca01bbcd931ba35cfb89f440412033d3fe36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:22 +0000
Subject: [PATCH 132/135] fix: AutoflushFile accepts the documented modes a+
 and ab+

---
 satella/files.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/satella/files.py b/satella/files.py
index 1dca7c7..b344d51 100644
--- a/satella/files.py
+++ b/satella/files.py
@@ -459,7 +459,8 @@ class AutoflushFile(Proxy[io.FileIO]):
             fle.close()
 
         with reraise_as(KeyError, ValueError, f'Unsupported mode "{mode}"'):
-            mode = {'w': 'a', 'wb': 'ab', 'w+': 'a+', 'wb+': 'ab+', 'a': 'a', 'ab': 'ab'}[mode]
+            mode = {'w': 'a', 'wb': 'ab', 'w+': 'a+', 'wb+': 'ab+', 'a': 'a', 'ab': 'ab',
+                    'a+': 'a+', 'ab+': 'ab+'}[mode]
 
         self.__dict__['con_args'] = file, mode, *con_args
 
-- 
2.43.0


From d12025e15865055ff1ccc96a36bbd522ed036f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:22 +0000
Subject: [PATCH 133/135] fix: AutoflushFile continues where the last operation
 ended

---
 satella/files.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/satella/files.py b/satella/files.py
index b344d51..371a051 100644
--- a/satella/files.py
+++ b/satella/files.py
@@ -512,6 +512,8 @@ class AutoflushFile(Proxy[io.FileIO]):
         file = self._get_file()
         if file is None:
             file = open(*self.con_args, **self.con_kwargs)
+            if self.pointer is not None:
+                file.seek(self.pointer)
             ptr = file.tell()
             self.__dict__['_Proxy__obj'] = file
             self.__dict__['pointer'] = ptr
-- 
2.43.0


From 60cf0496a109474f2fec8b9550da3cada2fc0311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:22 +0000
Subject: [PATCH 134/135] fix: AutoflushFile.readall works for buffered files

---
 satella/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/satella/files.py b/satella/files.py
index 371a051..d109434 100644
--- a/satella/files.py
+++ b/satella/files.py
@@ -506,7 +506,7 @@ class AutoflushFile(Proxy[io.FileIO]):
     def readall(self) -> tp.Union[str, bytes]:
         """Read all contents into the file"""
         fle = self._open_file()
-        return fle.readall()
+        return fle.read()
 
     def _open_file(self) -> io.FileIO:
         file = self._get_file()
-- 
2.43.0


From 0a06a0533c9db8dc765224ef9d35ee3e20edb61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:10 +0000
Subject: [PATCH 135/135] fix: merge_series does not take a TypeError of a
 series for its end

---
 satella/coding/transforms/merger.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/satella/coding/transforms/merger.py b/satella/coding/transforms/merger.py
index 7c783da..c19872b 100644
--- a/satella/coding/transforms/merger.py
+++ b/satella/coding/transforms/merger.py
@@ -77,14 +77,9 @@ class merge_series:
         for i, _ in enumerate(self.series):
             if self.next_preloaded_values[i][0] > for_ts:
                 return False
-            if self.super_next_preloaded_values[i] is not None:
-                try:
-                    while not (self.next_preloaded_values[i][0] <= for_ts
-                               < self.super_next_preloaded_values[i][0]):
-                        self.advance(i)
-                except TypeError:  # we've reached the finale
-                    if self.next_preloaded_values[i][0] > for_ts:
-                        return False
+            while self.super_next_preloaded_values[i] is not None and \
+                    self.super_next_preloaded_values[i][0] <= for_ts:
+                self.advance(i)
         return True
 
     def assert_have_timestamps(self) -> None:
-- 
2.43.0

