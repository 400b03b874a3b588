From 4a8b7b8ddc3a6bcd858e8116c8ab87088d4456d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:29 +0000
Subject: [PATCH 01/65] fix: pool: do not lend an instance whose check raised
 an exception

---
 aiomisc/pool.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aiomisc/pool.py b/aiomisc/pool.py
index c09942c..05b7c80 100644
--- a/aiomisc/pool.py
+++ b/aiomisc/pool.py
@@ -152,11 +152,11 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
             result = await self._check_instance(instance)
         except Exception:
             log.exception("Check instance %r failed", instance)
+            result = False
+
+        if not result:
             self.__recycle_instance(instance)
-        else:
-            if not result:
-                self.__recycle_instance(instance)
-                return await self.__acquire()
+            return await self.__acquire()
 
         self._used.add(instance)
         return instance
-- 
2.43.0


From 4b4712447bd5a72c5699d78de0ce1c7fdb1e6cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:29 +0000
Subject: [PATCH 02/65] fix: pool: give the capacity back when an instance was
 not created

---
 aiomisc/pool.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/aiomisc/pool.py b/aiomisc/pool.py
index 05b7c80..5691d77 100644
--- a/aiomisc/pool.py
+++ b/aiomisc/pool.py
@@ -133,7 +133,12 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
     async def __create_new_instance(self) -> None:
         await self._semaphore.acquire()
 
-        instance: Any = await self._create_instance()
+        try:
+            instance: Any = await self._create_instance()
+        except BaseException:
+            self._semaphore.release()
+            raise
+
         self._len += 1
 
         if self._recycle:
-- 
2.43.0


From a16a4cc1dee9e589b44d1477798d38dadaca46ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:29 +0000
Subject: [PATCH 03/65] fix: pool: do not lose an instance when its check was
 cancelled

---
 aiomisc/pool.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aiomisc/pool.py b/aiomisc/pool.py
index 5691d77..29bce29 100644
--- a/aiomisc/pool.py
+++ b/aiomisc/pool.py
@@ -158,6 +158,9 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
         except Exception:
             log.exception("Check instance %r failed", instance)
             result = False
+        except BaseException:
+            self.__recycle_instance(instance)
+            raise
 
         if not result:
             self.__recycle_instance(instance)
-- 
2.43.0


From 59988f45d5e24d62af0bd8a0c989dacfb6eb870e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:30 +0000
Subject: [PATCH 04/65] fix: pool: wake up a waiter when capacity was released

---
 aiomisc/pool.py | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/aiomisc/pool.py b/aiomisc/pool.py
index 29bce29..8f57a57 100644
--- a/aiomisc/pool.py
+++ b/aiomisc/pool.py
@@ -56,8 +56,11 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
         "_tasks",
         "_len",
         "_used",
+        "_waiters",
     ) + EventLoopMixin.__slots__
 
+    _vacancy = object()
+
     _tasks: Set[Any]
     _used: Set[Any]
     _instances: asyncio.Queue
@@ -73,6 +76,7 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
 
         self._semaphore = asyncio.Semaphore(maxsize)
         self._len = 0
+        self._waiters = 0
 
         self._recycle = recycle
 
@@ -119,9 +123,16 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
     def __len__(self) -> int:
         return self._len
 
+    def __release_capacity(self) -> None:
+        self._semaphore.release()
+
+        if self._waiters:
+            # One of the waiters is able to create a new instance now
+            self._instances.put_nowait(self._vacancy)
+
     def __recycle_instance(self, instance: Any) -> None:
         self._len -= 1
-        self._semaphore.release()
+        self.__release_capacity()
         if instance in self._recycle_times:
             self._recycle_times.pop(instance)
 
@@ -136,7 +147,7 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
         try:
             instance: Any = await self._create_instance()
         except BaseException:
-            self._semaphore.release()
+            self.__release_capacity()
             raise
 
         self._len += 1
@@ -151,7 +162,14 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
         if not self._semaphore.locked():
             await self.__create_new_instance()
 
-        instance = await self._instances.get()
+        self._waiters += 1
+        try:
+            instance = await self._instances.get()
+        finally:
+            self._waiters -= 1
+
+        if instance is self._vacancy:
+            return await self.__acquire()
 
         try:
             result = await self._check_instance(instance)
@@ -187,10 +205,13 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
 
         while self._instances.qsize():
             try:
-                instances.append(self._instances.get_nowait())
+                instance = self._instances.get_nowait()
             except asyncio.QueueEmpty:
                 break
 
+            if instance is not self._vacancy:
+                instances.append(instance)
+
         async def log_exception(coro: Awaitable[Any]) -> None:
             try:
                 await coro
-- 
2.43.0


From d7fddd1cdb0f39ea66cac5a4a3322cdbb1d5d052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:30 +0000
Subject: [PATCH 05/65] fix: pool: close destroys instances which are waiting
 for recycling

---
 aiomisc/pool.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/aiomisc/pool.py b/aiomisc/pool.py
index 8f57a57..f4a3cf0 100644
--- a/aiomisc/pool.py
+++ b/aiomisc/pool.py
@@ -212,6 +212,10 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
             if instance is not self._vacancy:
                 instances.append(instance)
 
+        while self._recycle_bin.qsize():
+            instances.append(self._recycle_bin.get_nowait())
+            self._recycle_bin.task_done()
+
         async def log_exception(coro: Awaitable[Any]) -> None:
             try:
                 await coro
@@ -226,6 +230,7 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
                     )
                     for instance in instances
                 ],
+                self._recycle_bin.join(),
                 return_exceptions=True,
             ),
             timeout=timeout,
-- 
2.43.0


From 9d72358df1a7cb01c1e03a2408b017e382a31722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:23 +0000
Subject: [PATCH 06/65] fix: aggregate: do not join a batch abandoned by its
 cancelled callers

---
 aiomisc/aggregate.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/aiomisc/aggregate.py b/aiomisc/aggregate.py
index 19a2372..c7ad75e 100644
--- a/aiomisc/aggregate.py
+++ b/aiomisc/aggregate.py
@@ -143,6 +143,13 @@ class AggregatorAsync(EventLoopMixin, Generic[V, R]):
                 future.set_exception(exc)
 
     async def aggregate(self, arg: V) -> R:
+        if (
+            self._first_call_at is not None and
+            self.loop.time() > self._first_call_at + self._leeway
+        ):
+            # All callers of this batch were cancelled before it was due
+            self._clear()
+
         if self._first_call_at is None:
             self._first_call_at = self.loop.time()
         first_call_at = self._first_call_at
-- 
2.43.0


From c195fab8ea697aa5fd4fe360c4e3865502844b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:24 +0000
Subject: [PATCH 07/65] fix: keep metrics that are assigned a value

---
 aiomisc/counters.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/aiomisc/counters.py b/aiomisc/counters.py
index d191f6a..15e3abe 100644
--- a/aiomisc/counters.py
+++ b/aiomisc/counters.py
@@ -107,6 +107,13 @@ class Statistic(AbstractStatistic, metaclass=MetaStatistic):
 
         self.__instances__.add(self)
 
+    def __setattr__(self, key: str, value: Any) -> None:
+        if key in self.__metrics__ and not isinstance(value, Metric):
+            # Keep the metric and change its value
+            self._counter[key] = value
+            return
+        super().__setattr__(key, value)
+
 
 @dataclass(frozen=True)
 class StatisticResult:
-- 
2.43.0


From bf4a55ea1c7b11327b48fa8f78f93a5dc95dcfcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:53 +0000
Subject: [PATCH 08/65] fix: a stopped periodic callback does not forget its
 restart

---
 aiomisc/periodic.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aiomisc/periodic.py b/aiomisc/periodic.py
index 78ad86d..e4070a0 100644
--- a/aiomisc/periodic.py
+++ b/aiomisc/periodic.py
@@ -58,8 +58,10 @@ class PeriodicCallback(EventLoopMixin):
             suppress_exceptions=suppress_exceptions,
         )
 
-        def clean_task(_: Any) -> None:
-            self._task = None
+        def clean_task(task: asyncio.Future) -> None:
+            # It might be already started again
+            if self._task is task:
+                self._task = None
 
         self._task.add_done_callback(clean_task)
 
-- 
2.43.0


From 9d4c41da12f676cd9c9db135681deb80972ad1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:11 +0000
Subject: [PATCH 09/65] fix: cancelling a reader of a context value does not
 cancel the others

---
 aiomisc/context.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aiomisc/context.py b/aiomisc/context.py
index cb8de04..d3aa18e 100644
--- a/aiomisc/context.py
+++ b/aiomisc/context.py
@@ -33,7 +33,8 @@ class Context:
 
     def __getitem__(self, item: Any) -> Any:
         self._statistic.get += 1
-        return self._storage[item]
+        # Cancellation of one reader must not affect the others
+        return asyncio.shield(self._storage[item])
 
     def __setitem__(self, item: Any, value: Any) -> None:
         self._statistic.set += 1
-- 
2.43.0


From 8fce6ce973596eb5aae1a9ab0a5cd2bc81290147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:10 +0000
Subject: [PATCH 10/65] fix: a signal can be changed while it is being called

---
 aiomisc/signal.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aiomisc/signal.py b/aiomisc/signal.py
index 24d3106..e36a468 100644
--- a/aiomisc/signal.py
+++ b/aiomisc/signal.py
@@ -36,7 +36,8 @@ class Signal:
         self._receivers.discard(receiver)  # type: ignore
 
     async def call(self, *args: Any, **kwargs: Any) -> None:
-        for receiver in self._receivers:
+        # Receivers may be changed while one of them is being awaited
+        for receiver in tuple(self._receivers):
             await receiver(*args, **kwargs)
 
     def copy(self) -> "Signal":
-- 
2.43.0


From 21544d481c80f1073a7027990477fc6bccb3bb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:48 +0000
Subject: [PATCH 11/65] fix: an interrupt and leaving the entrypoint do not
 stop services twice

---
 aiomisc/entrypoint.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/aiomisc/entrypoint.py b/aiomisc/entrypoint.py
index d8b5cda..ff4424b 100644
--- a/aiomisc/entrypoint.py
+++ b/aiomisc/entrypoint.py
@@ -5,6 +5,7 @@ import signal
 import sys
 import threading
 from concurrent.futures import Executor
+from contextlib import suppress
 from typing import (
     Any, Callable, Coroutine, FrozenSet, Iterable, MutableSet, Optional, Set,
     Tuple, TypeVar, Union,
@@ -178,6 +179,9 @@ class Entrypoint:
         self._tasks: MutableSet[asyncio.Task] = WeakSet()
         self._thread_pool: Optional[ExecutorType] = None
         self._closing: Optional[asyncio.Event] = None
+        self._exiting: bool = False
+        self._interrupt_task: Optional[asyncio.Task] = None
+        self._stop_lock: Optional[asyncio.Lock] = None
 
         if catch_signals is None and is_main_thread():
             # Apply default catch signals only if the entrypoint is creating
@@ -270,6 +274,11 @@ class Entrypoint:
                 buffered=False,
             )
 
+        if self._interrupt_task and not self._interrupt_task.done():
+            # The shutdown is already in progress, let it finish
+            with suppress(Exception):
+                loop.run_until_complete(self._interrupt_task)
+
         loop.run_until_complete(self.__aexit__(exc_type, exc_val, exc_tb))
         if self._loop_owner and self._loop is not None:
             loop.close()
@@ -286,6 +295,7 @@ class Entrypoint:
     async def __aexit__(
         self, exc_type: Any, exc_val: Any, exc_tb: Any,
     ) -> None:
+        self._exiting = True
         await self._stop(exc_val)
 
     if sys.version_info < (3, 9):
@@ -390,7 +400,7 @@ class Entrypoint:
         current_task = asyncio_current_task(self.loop)
         await cancel_tasks(
             filter(
-                lambda x: x is not current_task,
+                lambda x: x not in (current_task, self._interrupt_task),
                 asyncio_all_tasks(self._loop),
             ),
         )
@@ -399,8 +409,13 @@ class Entrypoint:
         if self._closing:
             self._closing.set()
 
-        await cancel_tasks(set(self._tasks))
-        await self.stop_services(*self._services, exc=exception)
+        if self._stop_lock is None:
+            self._stop_lock = asyncio.Lock()
+
+        # The shutdown might be already in progress
+        async with self._stop_lock:
+            await cancel_tasks(set(self._tasks))
+            await self.stop_services(*self._services, exc=exception)
 
         if self._loop_owner:
             await self._cancel_background_tasks()
@@ -416,6 +431,7 @@ class Entrypoint:
         task = loop.create_task(
             self._stop(RuntimeError("Interrupt signal received")),
         )
+        self._interrupt_task = task
         handle = loop.call_later(self.shutdown_timeout, task.cancel)
 
         def on_shutdown_finish(task: asyncio.Future) -> None:
@@ -427,7 +443,9 @@ class Entrypoint:
                     self.shutdown_timeout,
                 )
             handle.cancel()
-            loop.stop()
+
+            if not self._exiting:
+                loop.stop()
 
             if task.cancelled():
                 # 70 from sysexits.h means "internal software error"
-- 
2.43.0


From 61172f34134c18b64ec8f82e3806a72ddb91ba7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:48 +0000
Subject: [PATCH 12/65] fix: a service which failed to stop does not cancel
 stopping of the others

---
 aiomisc/entrypoint.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aiomisc/entrypoint.py b/aiomisc/entrypoint.py
index ff4424b..c5e8044 100644
--- a/aiomisc/entrypoint.py
+++ b/aiomisc/entrypoint.py
@@ -387,6 +387,9 @@ class Entrypoint:
                     log.warning("Failed to stop service %r:\n%r", svc, e)
                     log.debug("Service stop failed traceback", exc_info=True)
 
+            if tasks:
+                # A failed service must not interrupt stopping of the others
+                await asyncio.wait(tasks)
             await asyncio.gather(*tasks)
         finally:
             await cancel_tasks(tasks)
-- 
2.43.0


From 60cfc4c4483b14cb4b474130d94bb6ae553dc262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:49 +0000
Subject: [PATCH 13/65] fix: closing() called when the entrypoint is already
 closing returns

---
 aiomisc/entrypoint.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aiomisc/entrypoint.py b/aiomisc/entrypoint.py
index c5e8044..83308ed 100644
--- a/aiomisc/entrypoint.py
+++ b/aiomisc/entrypoint.py
@@ -409,8 +409,9 @@ class Entrypoint:
         )
 
     async def graceful_shutdown(self, exception: Exception) -> None:
-        if self._closing:
-            self._closing.set()
+        if self._closing is None:
+            self._closing = asyncio.Event()
+        self._closing.set()
 
         if self._stop_lock is None:
             self._stop_lock = asyncio.Lock()
-- 
2.43.0


From 75d62ca5366cc081e08efc971529a2f29c2ff569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:07 +0000
Subject: [PATCH 14/65] fix: background tasks are cancelled even if a service
 failed to stop

---
 aiomisc/entrypoint.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/aiomisc/entrypoint.py b/aiomisc/entrypoint.py
index 83308ed..68db790 100644
--- a/aiomisc/entrypoint.py
+++ b/aiomisc/entrypoint.py
@@ -416,16 +416,24 @@ class Entrypoint:
         if self._stop_lock is None:
             self._stop_lock = asyncio.Lock()
 
+        failure: Optional[Exception] = None
+
         # The shutdown might be already in progress
         async with self._stop_lock:
             await cancel_tasks(set(self._tasks))
-            await self.stop_services(*self._services, exc=exception)
+            try:
+                await self.stop_services(*self._services, exc=exception)
+            except Exception as e:
+                failure = e
 
         if self._loop_owner:
             await self._cancel_background_tasks()
 
         await self.loop.shutdown_asyncgens()
 
+        if failure is not None:
+            raise failure
+
     def _on_interrupt_callback(self, _: Any) -> None:
         loop = self.loop
         self.loop.call_soon_threadsafe(self._on_interrupt, loop)
-- 
2.43.0


From 20fdd40176813a8d82bd3120c467201aa6ec4307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:00 +0000
Subject: [PATCH 15/65] fix: services still starting are cancelled on exit when
 another one failed to start

---
 aiomisc/entrypoint.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/aiomisc/entrypoint.py b/aiomisc/entrypoint.py
index 68db790..cac9ee3 100644
--- a/aiomisc/entrypoint.py
+++ b/aiomisc/entrypoint.py
@@ -340,6 +340,7 @@ class Entrypoint:
         )
 
         self._services.add(svc)
+        self._tasks.add(start_task)
 
         await asyncio.wait(
             (start_task, ev_task),
@@ -352,9 +353,6 @@ class Entrypoint:
         if start_task.done():
             # raise an Exception when failed
             await start_task
-            return
-        else:
-            self._tasks.add(start_task)
 
         return None
 
-- 
2.43.0


From c86eff5e81d8d46f5ed87bc52514d8e3ca48b357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:07 +0000
Subject: [PATCH 16/65] fix: thread pool: a job of a closed event loop does not
 end its thread

---
 aiomisc/thread_pool.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/aiomisc/thread_pool.py b/aiomisc/thread_pool.py
index 26919f0..2facb00 100644
--- a/aiomisc/thread_pool.py
+++ b/aiomisc/thread_pool.py
@@ -158,8 +158,14 @@ def thread_pool_thread_loop(
 
     try:
         while not pool_shutdown_event.is_set():
-            tasks.get()()
-    except (TaskChannelCloseException, asyncio.CancelledError):
+            item = tasks.get()
+            try:
+                item()
+            except (asyncio.CancelledError, RuntimeError):
+                # The event loop of this item is closed,
+                # items of other event loops must be processed.
+                log.debug("Result of %r is dropped", item.func)
+    except TaskChannelCloseException:
         return None
     finally:
         stop_event.set()
-- 
2.43.0


From 977d04c890aa3e8bc0f2581d7a54dcdfa082afb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:07 +0000
Subject: [PATCH 17/65] fix: thread pool: deliver exceptions which are false

---
 aiomisc/thread_pool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc/thread_pool.py b/aiomisc/thread_pool.py
index 2facb00..8103ee2 100644
--- a/aiomisc/thread_pool.py
+++ b/aiomisc/thread_pool.py
@@ -73,7 +73,7 @@ def _set_workitem_result(
     if future.done():
         return
 
-    if exception:
+    if exception is not None:
         future.set_exception(exception)
     else:
         future.set_result(result)
-- 
2.43.0


From babea9a0213550c0c6c7b584617712f3d81ba8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:38 +0000
Subject: [PATCH 18/65] fix: thread pool: shutdown fails pending futures in a
 thread safe way

---
 aiomisc/thread_pool.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/aiomisc/thread_pool.py b/aiomisc/thread_pool.py
index 8103ee2..ada7ad2 100644
--- a/aiomisc/thread_pool.py
+++ b/aiomisc/thread_pool.py
@@ -6,6 +6,7 @@ import threading
 import time
 import warnings
 from concurrent.futures import ThreadPoolExecutor as ThreadPoolExecutorBase
+from contextlib import suppress
 from dataclasses import dataclass, field
 from functools import partial, wraps
 from multiprocessing import cpu_count
@@ -277,11 +278,13 @@ class ThreadPoolExecutor(ThreadPoolExecutorBase):
 
             self.__tasks.close()
 
-            while futures:
-                future = futures.pop()
-                if future.done():
-                    continue
-                future.set_exception(ThreadPoolException("Pool closed"))
+            for future in tuple(futures):
+                with suppress(RuntimeError):
+                    # shutdown() might be called from any thread
+                    future.get_loop().call_soon_threadsafe(
+                        _set_workitem_result, future, None,
+                        ThreadPoolException("Pool closed"),
+                    )
 
             if not wait:
                 return None
-- 
2.43.0


From a8ce5418a1398d178abdf8f870c0727679a87957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:38 +0000
Subject: [PATCH 19/65] fix: thread pool: submit does not block while shutdown
 waits for threads

---
 aiomisc/thread_pool.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/aiomisc/thread_pool.py b/aiomisc/thread_pool.py
index ada7ad2..4d81361 100644
--- a/aiomisc/thread_pool.py
+++ b/aiomisc/thread_pool.py
@@ -286,19 +286,19 @@ class ThreadPoolExecutor(ThreadPoolExecutorBase):
                         ThreadPoolException("Pool closed"),
                     )
 
-            if not wait:
-                return None
+        if not wait:
+            return None
 
-            start_time = time.monotonic()
-            while not all(e.is_set() for e in thread_events):
-                time.sleep(0.01)
-                if (time.monotonic() - start_time) > self.SHUTDOWN_TIMEOUT:
-                    log.warning(
-                        "Waiting for shutting down the pool %r "
-                        "cancelled due to timeout",
-                        self,
-                    )
-                    return None
+        start_time = time.monotonic()
+        while not all(e.is_set() for e in thread_events):
+            time.sleep(0.01)
+            if (time.monotonic() - start_time) > self.SHUTDOWN_TIMEOUT:
+                log.warning(
+                    "Waiting for shutting down the pool %r "
+                    "cancelled due to timeout",
+                    self,
+                )
+                return None
 
     def _adjust_thread_count(self) -> None:
         pool_size = len(self.__pool)
-- 
2.43.0


From e62cc434672f38760b80b551bad4c73201f73b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:03 +0000
Subject: [PATCH 20/65] fix: thread pool: cancelled callers of running jobs do
 not prevent starting threads

---
 aiomisc/thread_pool.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/aiomisc/thread_pool.py b/aiomisc/thread_pool.py
index 4d81361..4550bda 100644
--- a/aiomisc/thread_pool.py
+++ b/aiomisc/thread_pool.py
@@ -129,10 +129,20 @@ class TaskChannelCloseException(RuntimeError):
 
 class TaskChannel(SimpleQueue):
     closed_event: threading.Event
+    unfinished: Set[asyncio.Future]
 
     def __init__(self) -> None:
         super().__init__()
         self.closed_event = threading.Event()
+        # Futures of the items which are queued or being executed.
+        self.unfinished = set()
+
+    def put_item(self, item: WorkItem) -> None:
+        self.unfinished.add(item.future)
+        self.put_nowait(item)
+
+    def item_done(self, item: WorkItem) -> None:
+        self.unfinished.discard(item.future)
 
     def get(self, *args: Any, **kwargs: Any) -> WorkItem:
         if self.closed_event.is_set():
@@ -166,6 +176,8 @@ def thread_pool_thread_loop(
                 # The event loop of this item is closed,
                 # items of other event loops must be processed.
                 log.debug("Result of %r is dropped", item.func)
+            finally:
+                tasks.item_done(item)
     except TaskChannelCloseException:
         return None
     finally:
@@ -241,7 +253,7 @@ class ThreadPoolExecutor(ThreadPoolExecutorBase):
 
             if (
                 len(self.__pool) < self.__max_workers and
-                len(self.__futures) >= len(self.__pool)
+                len(self.__tasks.unfinished) >= len(self.__pool)
             ):
                 self._adjust_thread_count()
 
@@ -250,7 +262,7 @@ class ThreadPoolExecutor(ThreadPoolExecutorBase):
             self.__futures.add(future)
             future.add_done_callback(self.__futures.discard)
 
-            self.__tasks.put_nowait(
+            self.__tasks.put_item(
                 WorkItem(
                     func=fn, args=args, kwargs=kwargs, loop=loop,
                     future=future, statistic=self._statistic,
-- 
2.43.0


From f6f67d3f92924c67f1e4ad9918d889cf8222ca31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:11 +0000
Subject: [PATCH 21/65] fix: thread pool: idle threads do not keep the finished
 job

---
 aiomisc/thread_pool.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aiomisc/thread_pool.py b/aiomisc/thread_pool.py
index 4550bda..13d0edd 100644
--- a/aiomisc/thread_pool.py
+++ b/aiomisc/thread_pool.py
@@ -178,6 +178,8 @@ def thread_pool_thread_loop(
                 log.debug("Result of %r is dropped", item.func)
             finally:
                 tasks.item_done(item)
+                # Waiting for the next item must not keep the finished one.
+                del item
     except TaskChannelCloseException:
         return None
     finally:
-- 
2.43.0


From d5ce835e64ed46d110dcda71c2c8d1d752d252ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:59 +0000
Subject: [PATCH 22/65] fix: threaded iterator does not lose the last item put
 right before the end

---
 aiomisc/iterator_wrapper.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aiomisc/iterator_wrapper.py b/aiomisc/iterator_wrapper.py
index e39e9ae..8cd6ff5 100644
--- a/aiomisc/iterator_wrapper.py
+++ b/aiomisc/iterator_wrapper.py
@@ -122,11 +122,13 @@ class FromThreadChannel:
 
     def __await__(self) -> Any:
         while True:
+            is_closed = self.is_closed
             try:
                 res = self.queue.get()
                 return res
             except QueueEmpty:
-                if self.is_closed:
+                # The last item might be put right before closing
+                if is_closed:
                     raise ChannelClosed
 
                 sleep_time = self._compute_sleep_time()
-- 
2.43.0


From e8209414ee46ed7a1ef252456c333c68203fdebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:17 +0000
Subject: [PATCH 23/65] fix: closing a threaded iterator which was not started
 does not hang

---
 aiomisc/iterator_wrapper.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aiomisc/iterator_wrapper.py b/aiomisc/iterator_wrapper.py
index 8cd6ff5..a80a4da 100644
--- a/aiomisc/iterator_wrapper.py
+++ b/aiomisc/iterator_wrapper.py
@@ -215,6 +215,9 @@ class IteratorWrapper(AsyncIterator, EventLoopMixin):
 
     def close(self) -> Awaitable[None]:
         self.__channel.close()
+        if self.__gen_task is None:
+            # Never started, there is no thread which sets this event.
+            self.__close_event.set()
         return asyncio.ensure_future(self.wait_closed())
 
     async def wait_closed(self) -> None:
-- 
2.43.0


From 6bb917fb471763b2bf6f4186e19c52be44d07e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:59 +0000
Subject: [PATCH 24/65] fix: closing a threaded iterator unblocks its thread
 waiting on a full buffer

---
 aiomisc/iterator_wrapper.py | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/aiomisc/iterator_wrapper.py b/aiomisc/iterator_wrapper.py
index a80a4da..68708fb 100644
--- a/aiomisc/iterator_wrapper.py
+++ b/aiomisc/iterator_wrapper.py
@@ -1,10 +1,10 @@
 import asyncio
 import inspect
+import threading
 from abc import abstractmethod
 from collections import deque
 from concurrent.futures import Executor
 from queue import Empty as QueueEmpty
-from queue import Queue
 from time import time
 from types import TracebackType
 from typing import (
@@ -36,6 +36,9 @@ class QueueWrapperBase:
     def get(self) -> Any:
         raise NotImplementedError
 
+    def close(self) -> None:
+        """ Called when nothing will be put, must unblock waiting ``put`` """
+
 
 class DequeWrapper(QueueWrapperBase):
     __slots__ = "queue",
@@ -52,17 +55,35 @@ class DequeWrapper(QueueWrapperBase):
         return self.queue.append(item)
 
 
-class QueueWrapper(QueueWrapperBase):
-    __slots__ = "queue",
+class QueueWrapper(DequeWrapper):
+    __slots__ = "max_size", "closed", "not_full"
 
     def __init__(self, max_size: int) -> None:
-        self.queue: Queue = Queue(maxsize=max_size)
+        super().__init__()
+        self.max_size = max_size
+        self.closed = False
+        # Based on a reentrant lock, because close() might be called by
+        # the garbage collector.
+        self.not_full = threading.Condition()
+
+    def get(self) -> Any:
+        with self.not_full:
+            item = super().get()
+            self.not_full.notify()
+            return item
 
     def put(self, item: Any) -> None:
-        return self.queue.put(item)
+        with self.not_full:
+            while not self.closed and len(self.queue) >= self.max_size:
+                self.not_full.wait()
+            if self.closed:
+                raise ChannelClosed
+            super().put(item)
 
-    def get(self) -> Any:
-        return self.queue.get_nowait()
+    def close(self) -> None:
+        with self.not_full:
+            self.closed = True
+            self.not_full.notify_all()
 
 
 def make_queue(max_size: int = 0) -> QueueWrapperBase:
@@ -84,6 +105,7 @@ class FromThreadChannel:
 
     def close(self) -> None:
         self.__closed = True
+        self.queue.close()
 
     @property
     def is_closed(self) -> bool:
-- 
2.43.0


From 3e742251be949769cccb54cd3b7f71a67843253a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:14 +0000
Subject: [PATCH 25/65] fix: a thread waiting for a coroutine is released when
 it has been cancelled

---
 aiomisc/thread_pool.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/aiomisc/thread_pool.py b/aiomisc/thread_pool.py
index 13d0edd..440091c 100644
--- a/aiomisc/thread_pool.py
+++ b/aiomisc/thread_pool.py
@@ -488,10 +488,13 @@ class CoroutineWaiter:
         self.__exception: Optional[BaseException] = None
 
     def _on_result(self, task: asyncio.Future) -> None:
-        self.__exception = task.exception()
-        if self.__exception is None:
+        try:
             self.__result = task.result()
-        self.__event.set()
+        except BaseException as e:
+            # Including asyncio.CancelledError
+            self.__exception = e
+        finally:
+            self.__event.set()
 
     def _awaiter(self) -> None:
         task: asyncio.Future = self.__loop.create_task(self.__coro)
-- 
2.43.0


From 857801ccb1a208d1948ec024989fa0c693634471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:14 +0000
Subject: [PATCH 26/65] fix: StopIteration raised by a function in a thread
 reaches its caller

---
 aiomisc/thread_pool.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/aiomisc/thread_pool.py b/aiomisc/thread_pool.py
index 440091c..c64bdf0 100644
--- a/aiomisc/thread_pool.py
+++ b/aiomisc/thread_pool.py
@@ -74,6 +74,12 @@ def _set_workitem_result(
     if future.done():
         return
 
+    if isinstance(exception, StopIteration):
+        # A future refuses it, does the same as a coroutine which raises it.
+        error = RuntimeError("function raised StopIteration")
+        error.__cause__ = exception
+        exception = error
+
     if exception is not None:
         future.set_exception(exception)
     else:
-- 
2.43.0


From 94ae116e5d077ed5ca6c718b0da27ef0364d67f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:50 +0000
Subject: [PATCH 27/65] fix: buffered log handler does not hold its lock while
 it waits for records

---
 aiomisc/log.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/aiomisc/log.py b/aiomisc/log.py
index 14a1bf6..cbd2d5f 100644
--- a/aiomisc/log.py
+++ b/aiomisc/log.py
@@ -65,7 +65,8 @@ class ThreadedHandler(logging.Handler):
         while not self._close_event.is_set():
             self._flush_event.wait(self._flush_interval)
             try:
-                self.acquire()
+                # The handler's lock must not be held here, it's held by
+                # emitters, which might wait until the queue is not full.
                 while True:
                     record = queue.get(timeout=self._flush_interval)
                     if record is None:
@@ -74,8 +75,6 @@ class ThreadedHandler(logging.Handler):
                         self._target.handle(record)
             except Empty:
                 pass
-            finally:
-                self.release()
         self._statistic.threads -= 1
 
 
-- 
2.43.0


From c45c331055d6158bb414cb8963bc88e23fbbacf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:50 +0000
Subject: [PATCH 28/65] fix: log handler does not raise into the application
 when its buffer is full

---
 aiomisc/log.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/aiomisc/log.py b/aiomisc/log.py
index cbd2d5f..7f7b70a 100644
--- a/aiomisc/log.py
+++ b/aiomisc/log.py
@@ -4,7 +4,7 @@ import threading
 import traceback
 import warnings
 from contextlib import suppress
-from queue import Empty, Queue
+from queue import Empty, Full, Queue
 from socket import socket
 from typing import (
     Any, Callable, Dict, Iterable, List, Optional, Tuple, Type, Union,
@@ -55,7 +55,13 @@ class ThreadedHandler(logging.Handler):
 
     def emit(self, record: logging.LogRecord) -> None:
         if self._buffered:
-            self._queue.put_nowait(record)
+            try:
+                self._queue.put_nowait(record)
+            except Full:
+                # The record is dropped
+                self._statistic.errors += 1
+                self.handleError(record)
+                return
         else:
             self._queue.put(record)
         self._statistic.records += 1
-- 
2.43.0


From 3e13bf4382e17423d8277c75c28dd764b37cd8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:02 +0000
Subject: [PATCH 29/65] fix: closing the log handler delivers the records left
 and may be repeated

---
 aiomisc/log.py | 52 ++++++++++++++++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 16 deletions(-)

diff --git a/aiomisc/log.py b/aiomisc/log.py
index 7f7b70a..833b878 100644
--- a/aiomisc/log.py
+++ b/aiomisc/log.py
@@ -24,6 +24,8 @@ class ThreadedHandlerStatistic(Statistic):
 
 
 class ThreadedHandler(logging.Handler):
+    CLOSE_TIMEOUT = 10
+
     def __init__(
         self, target: logging.Handler, flush_interval: float = 0.1,
         buffered: bool = True, queue_size: int = 0,
@@ -43,10 +45,22 @@ class ThreadedHandler(logging.Handler):
         self._thread.start()
 
     def close(self) -> None:
-        self._queue.put(None)
-        del self._queue
+        self.acquire()
+        try:
+            if self._close_event.is_set():
+                return
+            # Nothing will be accepted after that
+            self._close_event.set()
+        finally:
+            self.release()
+
+        with suppress(Full):
+            # The thread is not waiting for records when the queue is full
+            self._queue.put_nowait(None)
         self.flush()
-        self._close_event.set()
+
+        if self._thread.is_alive():
+            self._thread.join(self.CLOSE_TIMEOUT)
         super().close()
 
     def flush(self) -> None:
@@ -54,6 +68,9 @@ class ThreadedHandler(logging.Handler):
         self._flush_event.set()
 
     def emit(self, record: logging.LogRecord) -> None:
+        if self._close_event.is_set():
+            return
+
         if self._buffered:
             try:
                 self._queue.put_nowait(record)
@@ -68,20 +85,23 @@ class ThreadedHandler(logging.Handler):
 
     def _in_thread(self) -> None:
         queue = self._queue
-        while not self._close_event.is_set():
-            self._flush_event.wait(self._flush_interval)
-            try:
-                # The handler's lock must not be held here, it's held by
-                # emitters, which might wait until the queue is not full.
-                while True:
-                    record = queue.get(timeout=self._flush_interval)
-                    if record is None:
+        try:
+            while True:
+                self._flush_event.wait(self._flush_interval)
+                try:
+                    # The handler's lock must not be held here, it's held by
+                    # emitters, which might wait until the queue is not full.
+                    while True:
+                        record = queue.get(timeout=self._flush_interval)
+                        if record is None:
+                            return
+                        with suppress(Exception):
+                            self._target.handle(record)
+                except Empty:
+                    if self._close_event.is_set() and queue.empty():
                         return
-                    with suppress(Exception):
-                        self._target.handle(record)
-            except Empty:
-                pass
-        self._statistic.threads -= 1
+        finally:
+            self._statistic.threads -= 1
 
 
 def suppressor(
-- 
2.43.0


From e31b18d8a8e1905ffb9e135ba82e986063adf1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:00 +0000
Subject: [PATCH 30/65] fix: worker pool: unix socket does not ask for
 SO_REUSEPORT

---
 aiomisc/worker_pool.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aiomisc/worker_pool.py b/aiomisc/worker_pool.py
index e4280bd..1181f93 100644
--- a/aiomisc/worker_pool.py
+++ b/aiomisc/worker_pool.py
@@ -60,6 +60,8 @@ class WorkerPool:
                 socket.AF_UNIX,
                 socket.SOCK_STREAM,
                 address=path,
+                reuse_addr=False,
+                reuse_port=False,
             )
             self.address = path
             chmod(path, 0o600)
-- 
2.43.0


From 46fa73a810318b6acd449bf5c393e87e7deedb01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:00 +0000
Subject: [PATCH 31/65] fix: worker pool: cancelling a call signals only the
 worker running it

---
 aiomisc/worker_pool.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/aiomisc/worker_pool.py b/aiomisc/worker_pool.py
index 1181f93..af292df 100644
--- a/aiomisc/worker_pool.py
+++ b/aiomisc/worker_pool.py
@@ -4,6 +4,7 @@ import hmac
 import os
 import socket
 import sys
+from contextlib import suppress
 from inspect import Traceback
 from multiprocessing import ProcessError
 from os import chmod, urandom
@@ -129,6 +130,7 @@ class WorkerPool:
         self.__cookie = urandom(COOKIE_SIZE)
         self.__loop: Optional[asyncio.AbstractEventLoop] = None
         self.__futures: Set[asyncio.Future] = set()
+        self.__running: Dict[asyncio.Future, int] = {}
         self.__task_store: Set[asyncio.Task] = set()
         self.__closing = False
         self.__closing_lock = asyncio.Lock()
@@ -210,8 +212,10 @@ class WorkerPool:
 
                 try:
                     process_future.set_result(pid)
+                    self.__running[result_future] = pid
                     await proto.send((PacketTypes.REQUEST, func, args, kwargs))
                     packet_type, payload = await proto.receive()
+                    self.__running.pop(result_future, None)
 
                     if result_future.done():
                         log.debug(
@@ -228,12 +232,14 @@ class WorkerPool:
                         result_future.set_exception(payload)
                     del packet_type, payload
                 except (asyncio.IncompleteReadError, ConnectionError):
+                    self.__running.pop(result_future, None)
                     if not result_future.done():
                         result_future.set_exception(
                             ProcessError(f"Process {pid!r} unexpected exited"),
                         )
                     break
                 except Exception as e:
+                    self.__running.pop(result_future, None)
                     if not result_future.done():
                         result_future.set_exception(e)
 
@@ -323,18 +329,24 @@ class WorkerPool:
         result_future = self.__create_future()
         process_future = self.__create_future()
 
-        await self.tasks.put((
-            func, args, kwargs, result_future, process_future,
-        ))
-
-        pid: int = await process_future
-
         try:
+            await self.tasks.put((
+                func, args, kwargs, result_future, process_future,
+            ))
+
+            await process_future
             return await result_future
         except asyncio.CancelledError:
-            log.debug("Sending %r to worker PID: %d", SIGNAL, pid)
-            os.kill(pid, SIGNAL)
+            # Only the worker which is still running it
+            pid = self.__running.pop(result_future, None)
+            if pid is not None:
+                log.debug("Sending %r to worker PID: %d", SIGNAL, pid)
+                with suppress(ProcessLookupError):
+                    os.kill(pid, SIGNAL)
             raise
+        finally:
+            process_future.cancel()
+            result_future.cancel()
 
     async def __aenter__(self) -> "WorkerPool":
         await self.start()
-- 
2.43.0


From 1b8830dee7d9468dc897dc18c4745b821bdda473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:26 +0000
Subject: [PATCH 32/65] fix: worker pool: connections are closed when their
 handlers are done

---
 aiomisc/worker_pool.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aiomisc/worker_pool.py b/aiomisc/worker_pool.py
index af292df..7c9e9fb 100644
--- a/aiomisc/worker_pool.py
+++ b/aiomisc/worker_pool.py
@@ -255,7 +255,9 @@ class WorkerPool:
     def __start_handler(
         self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter,
     ) -> asyncio.Task:
-        return self.__task(self.__handle_client(reader, writer))
+        task = self.__task(self.__handle_client(reader, writer))
+        task.add_done_callback(lambda _: writer.close())
+        return task
 
     def __task_add(self, task: asyncio.Task) -> None:
         self._statistic.task_added += 1
-- 
2.43.0


From a54888ea0daa3d05b29949c2b3e0f46854bbd327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:26 +0000
Subject: [PATCH 33/65] fix: worker pool: a worker lost while it was idle does
 not take a call

---
 aiomisc/worker_pool.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/aiomisc/worker_pool.py b/aiomisc/worker_pool.py
index 7c9e9fb..eecbfb2 100644
--- a/aiomisc/worker_pool.py
+++ b/aiomisc/worker_pool.py
@@ -205,11 +205,16 @@ class WorkerPool:
 
                 (
                     func, args, kwargs, result_future, process_future,
-                ) = await self.tasks.get()
+                ) = item = await self.tasks.get()
 
                 if process_future.done() or result_future.done():
                     continue
 
+                if reader.at_eof() or writer.is_closing():
+                    # This worker is gone, leave the task to another one
+                    self.__task(self.tasks.put(item))
+                    break
+
                 try:
                     process_future.set_result(pid)
                     self.__running[result_future] = pid
-- 
2.43.0


From 9be5f1d3c7f348d112b162810f4290dcddea312a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:27 +0000
Subject: [PATCH 34/65] fix: worker pool: calls waiting in a full queue or made
 after closing do not hang

---
 aiomisc/worker_pool.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/aiomisc/worker_pool.py b/aiomisc/worker_pool.py
index eecbfb2..88488d7 100644
--- a/aiomisc/worker_pool.py
+++ b/aiomisc/worker_pool.py
@@ -333,14 +333,20 @@ class WorkerPool:
         self, func: Callable[..., T],
         *args: Any, **kwargs: Any,
     ) -> T:
+        if self.__closing:
+            raise RuntimeError("Pool closed")
+
         result_future = self.__create_future()
         process_future = self.__create_future()
 
-        try:
-            await self.tasks.put((
+        # Closing the pool cancels it when the queue is full
+        put_task = self.__task(
+            self.tasks.put((
                 func, args, kwargs, result_future, process_future,
-            ))
+            )),
+        )
 
+        try:
             await process_future
             return await result_future
         except asyncio.CancelledError:
@@ -352,6 +358,7 @@ class WorkerPool:
                     os.kill(pid, SIGNAL)
             raise
         finally:
+            put_task.cancel()
             process_future.cancel()
             result_future.cancel()
 
-- 
2.43.0


From 8edd192ee15f19e40f7d94eb4be3ad8af1ec5775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:50 +0000
Subject: [PATCH 35/65] fix: worker protocol: write whole packets to the socket

---
 aiomisc_worker/protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc_worker/protocol.py b/aiomisc_worker/protocol.py
index 4721870..af5999e 100644
--- a/aiomisc_worker/protocol.py
+++ b/aiomisc_worker/protocol.py
@@ -67,7 +67,7 @@ class SocketIOProtocol(Protocol):
             return fp.getvalue()
 
     def _write(self, data: bytes) -> None:
-        self.sock.send(data)
+        self.sock.sendall(data)
 
 
 class AsyncProtocol:
-- 
2.43.0


From ab263057d8bd364887a4eca47f8bb0a661475304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:19 +0000
Subject: [PATCH 36/65] fix: worker pool: a call or an outcome which can not be
 pickled does not lose the worker

---
 aiomisc/worker_pool.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/aiomisc/worker_pool.py b/aiomisc/worker_pool.py
index 88488d7..b25cfee 100644
--- a/aiomisc/worker_pool.py
+++ b/aiomisc/worker_pool.py
@@ -245,14 +245,10 @@ class WorkerPool:
                     break
                 except Exception as e:
                     self.__running.pop(result_future, None)
+                    # The call or its outcome can not be (un)pickled,
+                    # it is not a reason to lose the worker
                     if not result_future.done():
                         result_future.set_exception(e)
-
-                    if not writer.is_closing():
-                        if writer.can_write_eof():
-                            writer.write_eof()
-                        writer.close()
-                    raise
         finally:
             self._statistic.processes -= 1
             self.pids.discard(pid)
-- 
2.43.0


From c2238b9200f15724687c8b4b4065e16299faadee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:05 +0000
Subject: [PATCH 37/65] fix: worker: exactly one whole reply to each request

---
 aiomisc_worker/worker.py | 45 +++++++++++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/aiomisc_worker/worker.py b/aiomisc_worker/worker.py
index beeb7ea..b8d2139 100644
--- a/aiomisc_worker/worker.py
+++ b/aiomisc_worker/worker.py
@@ -6,14 +6,26 @@ import os
 import signal
 import socket
 import sys
+from enum import IntEnum
 from types import TracebackType
-from typing import Any, Optional, Type
+from typing import Any, Optional, Tuple, Type
 
 from . import SIGNAL, AddressType, PacketTypes
 from .protocol import ADDRESS_FAMILY, SocketIOProtocol
 
 
+class State(IntEnum):
+    IDLE = 0
+    RUNNING = 1
+    REPLYING = 2
+
+
+state = State.IDLE
+
+
 def execute(protocol: SocketIOProtocol) -> None:
+    global state
+
     pid = os.getpid()
     try:
         packet_type, func, args, kwargs = protocol.receive()
@@ -27,18 +39,24 @@ def execute(protocol: SocketIOProtocol) -> None:
         raise RuntimeError("Unexpected request")
 
     try:
-        protocol.send((
-            PacketTypes.RESULT,
-            func(*args, **kwargs),
-        ))
+        try:
+            state = State.RUNNING
+            result = func(*args, **kwargs)
+        finally:
+            # From here the only reply must be sent entirely
+            state = State.REPLYING
+        reply: Tuple[PacketTypes, Any] = (PacketTypes.RESULT, result)
     except asyncio.CancelledError:
         logging.exception(
             "Request cancelled for %r", func, extra={"pid": pid},
         )
-        protocol.send((
-            PacketTypes.CANCELLED,
-            asyncio.CancelledError,
-        ))
+        reply = (PacketTypes.CANCELLED, asyncio.CancelledError)
+    except Exception as e:
+        logging.exception("Exception when processing request")
+        reply = (PacketTypes.EXCEPTION, e)
+
+    try:
+        protocol.send(reply)
     except (ConnectionError, ConnectionResetError):
         logging.warning(
             "IPC connection error, worker PID: %d exiting.", pid,
@@ -46,13 +64,20 @@ def execute(protocol: SocketIOProtocol) -> None:
         )
         raise
     except Exception as e:
-        logging.exception("Exception when processing request")
+        logging.exception("Exception when sending reply")
         protocol.send((
             PacketTypes.EXCEPTION, e,
         ))
 
+    state = State.IDLE
+
 
 def on_cancel_signal(*_: Any) -> None:
+    global state
+
+    if state == State.REPLYING:
+        return
+    state = State.REPLYING
     raise asyncio.CancelledError
 
 
-- 
2.43.0


From 1902d4bff66a8e94d7fb487eb1084fb636e34ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:16 +0000
Subject: [PATCH 38/65] fix: all kinds of DNS records can be put into a zone

Only records with a hashable "data" attribute could be added, and all CAA
records of a name were considered equal.
---
 aiomisc/service/dns/records.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/aiomisc/service/dns/records.py b/aiomisc/service/dns/records.py
index 34ddf25..48996e7 100644
--- a/aiomisc/service/dns/records.py
+++ b/aiomisc/service/dns/records.py
@@ -73,8 +73,10 @@ class DNSClass(enum.IntEnum):
 
 
 class RD(dnslib.RD, Hashable, ABC):
+    # Must be in step with dnslib.RD.__eq__, which compares these attributes
+    # (domain names are compared case-insensitively).
     def __hash__(self) -> int:
-        return hash(self.data)
+        return hash(tuple(str(getattr(self, x)).lower() for x in self.attrs))
 
     @classmethod
     @abstractmethod
@@ -135,9 +137,6 @@ class RDLabel(RD):
             ttl=ttl,
         )
 
-    def __hash__(self) -> int:
-        return hash(self.label)
-
 
 class CNAME(dnslib.CNAME, RDLabel):
     __type__ = RecordType.CNAME
@@ -212,6 +211,9 @@ class SRV(dnslib.SRV, RD):
 
 
 class CAA(dnslib.CAA, RD):
+    # dnslib compares "data" only, which is always None
+    attrs = ("flags", "tag", "value")
+
     @classmethod
     def create(
         cls, name: str, flags: int, tag: str, value: str,
-- 
2.43.0


From af668c29a4fffdea9641d4518b663ef0f9690180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:35 +0000
Subject: [PATCH 39/65] fix: NAPTR, RRSIG, NSEC and HTTPS records can be sent

Values accepted by their create() were not what dnslib packs, so every
answer with such a record was SERVFAIL.
---
 aiomisc/service/dns/records.py | 47 +++++++++++++++++++++++++++++++---
 1 file changed, 43 insertions(+), 4 deletions(-)

diff --git a/aiomisc/service/dns/records.py b/aiomisc/service/dns/records.py
index 48996e7..2e18bfe 100644
--- a/aiomisc/service/dns/records.py
+++ b/aiomisc/service/dns/records.py
@@ -84,6 +84,22 @@ class RD(dnslib.RD, Hashable, ABC):
         raise NotImplementedError
 
 
+class RDWire(RD):
+    """
+    For the records whose values are not what dnslib is able to pack.
+    """
+
+    @abstractmethod
+    def wire(self) -> dnslib.RD:
+        raise NotImplementedError
+
+    def pack(self, buffer: dnslib.DNSBuffer) -> None:
+        self.wire().pack(buffer)
+
+    def __repr__(self) -> str:
+        return repr(self.wire())
+
+
 @dataclass(frozen=True)
 class DNSRecord:
     name: str
@@ -227,7 +243,7 @@ class CAA(dnslib.CAA, RD):
         )
 
 
-class NAPTR(dnslib.NAPTR, RD):
+class NAPTR(RDWire, dnslib.NAPTR):
     @classmethod
     def create(
         cls, name: str, order: int, preference: int, flags: str,
@@ -240,6 +256,12 @@ class NAPTR(dnslib.NAPTR, RD):
             ttl=ttl,
         )
 
+    def wire(self) -> dnslib.RD:
+        return dnslib.NAPTR(
+            self.order, self.preference, self.flags.encode(),
+            self.service.encode(), self.regexp.encode(), self.replacement,
+        )
+
 
 class DS(dnslib.DS, RD):
     @classmethod
@@ -269,7 +291,7 @@ class DNSKEY(dnslib.DNSKEY, RD):
         )
 
 
-class RRSIG(dnslib.RRSIG, RD):
+class RRSIG(RDWire, dnslib.RRSIG):
     @classmethod
     def create(
         cls, name: str, type_covered: int, algorithm: int, labels: int,
@@ -286,8 +308,15 @@ class RRSIG(dnslib.RRSIG, RD):
             ttl=ttl,
         )
 
+    def wire(self) -> dnslib.RD:
+        return dnslib.RRSIG(
+            self.covered, self.algorithm, self.labels, self.orig_ttl,
+            self.sig_exp, self.sig_inc, self.key_tag, self.name,
+            self.sig.encode(),
+        )
+
 
-class NSEC(dnslib.NSEC, RD):
+class NSEC(RDWire, dnslib.NSEC):
     @classmethod
     def create(
         cls, name: str, next_domain: str,
@@ -300,8 +329,13 @@ class NSEC(dnslib.NSEC, RD):
             ttl=ttl,
         )
 
+    def wire(self) -> dnslib.RD:
+        return dnslib.NSEC(
+            self.label, [dnslib.QTYPE[rrtype] for rrtype in self.rrlist],
+        )
 
-class HTTPS(dnslib.HTTPS, RD):
+
+class HTTPS(RDWire, dnslib.HTTPS):
     @classmethod
     def create(
         cls, name: str, priority: int, target: str,
@@ -314,6 +348,11 @@ class HTTPS(dnslib.HTTPS, RD):
             ttl=ttl,
         )
 
+    def wire(self) -> dnslib.RD:
+        return dnslib.HTTPS.fromZone(
+            [str(self.priority), self.target, *self.params],
+        )
+
 
 class LOC(dnslib.LOC, RD):
     @classmethod
-- 
2.43.0


From eb3416b5b0bcfae5be591cdee5a757bf7010b6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:35 +0000
Subject: [PATCH 40/65] fix: longest prefix of the radix tree is the key of its
 value

It was deeper than the value when a longer key had been inserted or its
value removed, so names below a valueless node were not found in their zone.
---
 aiomisc/service/dns/tree.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/aiomisc/service/dns/tree.py b/aiomisc/service/dns/tree.py
index 1b32eec..e723b04 100644
--- a/aiomisc/service/dns/tree.py
+++ b/aiomisc/service/dns/tree.py
@@ -1,4 +1,4 @@
-from typing import Any, Dict, Generic, Hashable, List, Optional, Tuple, TypeVar
+from typing import Any, Dict, Generic, Hashable, Optional, Tuple, TypeVar
 
 
 K = Tuple[str, ...]
@@ -39,16 +39,16 @@ class RadixTree(Generic[T]):
 
     def find_prefix(self, key: K) -> Optional[Tuple[K, T]]:
         node = self.root
-        longest_prefix: List[str] = []
+        longest_prefix = 0
         value = None
         part: Hashable
         if node.value is not None:
             value = node.value
-        for part in key:
+        for depth, part in enumerate(key, start=1):
             if part in node.children:
                 node = node.children[part]
-                longest_prefix.append(part)
                 if node.value is not None:
+                    longest_prefix = depth
                     value = node.value
             else:
                 break
@@ -56,4 +56,4 @@ class RadixTree(Generic[T]):
         if value is None:
             return None
 
-        return tuple(longest_prefix), value
+        return key[:longest_prefix], value
-- 
2.43.0


From 83884be797db22129d871c5b61a1008fbed3d3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:35 +0000
Subject: [PATCH 41/65] fix: names of the root DNS zone can be looked up

---
 aiomisc/service/dns/store.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aiomisc/service/dns/store.py b/aiomisc/service/dns/store.py
index bd3d976..51aed78 100644
--- a/aiomisc/service/dns/store.py
+++ b/aiomisc/service/dns/store.py
@@ -36,7 +36,7 @@ class DNSStore:
         if not name.endswith("."):
             name += "."
         zone_tuple = self.get_zone_for_name(name)
-        if not zone_tuple:
+        if zone_tuple is None:
             return ()
         zone = self.zones.search(zone_tuple)
         return zone.get_records(name, record_type) if zone is not None else ()
@@ -48,7 +48,8 @@ class DNSStore:
 
     @staticmethod
     def get_reverse_tuple(zone_name: str) -> Tuple[str, ...]:
-        return tuple(zone_name.strip(".").split("."))[::-1]
+        name = zone_name.strip(".")
+        return tuple(name.split("."))[::-1] if name else ()
 
     def replace(
         self, zones_data: Mapping[str, Iterable[DNSRecord]],
-- 
2.43.0


From d8a206baea05c2be9948e7012dbf298268939477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:35 +0000
Subject: [PATCH 42/65] fix: DNS zone does not accept records of names which
 only end alike

---
 aiomisc/service/dns/zone.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/aiomisc/service/dns/zone.py b/aiomisc/service/dns/zone.py
index 8ed501c..9a224d1 100644
--- a/aiomisc/service/dns/zone.py
+++ b/aiomisc/service/dns/zone.py
@@ -45,7 +45,10 @@ class DNSZone:
         return tuple(self.records.get((name, record_type), ()))
 
     def check_record(self, record: DNSRecord) -> bool:
-        return record.name.endswith(self.name)
+        return (
+            record.name == self.name or
+            record.name.endswith("." + self.name.lstrip("."))
+        )
 
     def replace(self, records: Iterable[DNSRecord]) -> None:
         """
-- 
2.43.0


From b10d7bb657bc9bf44f02c0bcd72431e77cd3f95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:35 +0000
Subject: [PATCH 43/65] fix: DNS TCP server waits for the whole request

---
 aiomisc/service/dns/service.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc/service/dns/service.py b/aiomisc/service/dns/service.py
index 28d6895..2fea997 100644
--- a/aiomisc/service/dns/service.py
+++ b/aiomisc/service/dns/service.py
@@ -114,7 +114,7 @@ class TCPDNSServer(DNSServer, TCPServer):
                 if not data:
                     break
                 length = TCP_HEADER_STRUCT.unpack(data)[0]
-                packet = await reader.read(length)
+                packet = await reader.readexactly(length)
 
                 if not data:
                     break
-- 
2.43.0


From 95cb3af8ff7e7bed398a1ff0603911500c3356c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:14 +0000
Subject: [PATCH 44/65] fix: DNS answers are not cut in the middle

The whole answer was sent when the client had not told its limit, cut in the
middle otherwise (to nothing, if the limit was 0), and those which did fit
were marked as truncated, also over TCP.
---
 aiomisc/service/dns/service.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/aiomisc/service/dns/service.py b/aiomisc/service/dns/service.py
index 2fea997..3f937c2 100644
--- a/aiomisc/service/dns/service.py
+++ b/aiomisc/service/dns/service.py
@@ -15,6 +15,10 @@ from .store import DNSStore
 log = logging.getLogger(__name__)
 
 
+MAX_UDP_SIZE = 512
+MAX_TCP_SIZE = 65535
+
+
 class DNSServer:
     store: DNSStore
 
@@ -60,12 +64,16 @@ class DNSServer:
 
             reply_body = reply.pack()
 
-            if len(reply_body) > 512:
+            max_size = (
+                max(MAX_UDP_SIZE, edns_max_size or 0)
+                if should_truncate else MAX_TCP_SIZE
+            )
+
+            if len(reply_body) > max_size:
+                # A part of the packet would not be parseable
+                reply.rr.clear()
                 reply.header.tc = 1
                 reply_body = reply.pack()
-
-            if should_truncate:
-                reply_body = reply_body[:edns_max_size]
         except Exception as e:
             log.exception(
                 "Failed to process %s request from %r: %s",
-- 
2.43.0


From f504d49c615ee072af67c80de7ed2ff9ddbd35aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:14 +0000
Subject: [PATCH 45/65] fix: LOC records can be put into a zone

---
 aiomisc/service/dns/records.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aiomisc/service/dns/records.py b/aiomisc/service/dns/records.py
index 2e18bfe..2d67a3d 100644
--- a/aiomisc/service/dns/records.py
+++ b/aiomisc/service/dns/records.py
@@ -355,6 +355,9 @@ class HTTPS(RDWire, dnslib.HTTPS):
 
 
 class LOC(dnslib.LOC, RD):
+    # dnslib compares "data", which this record does not have
+    attrs = ("lat", "lon", "alt", "siz", "hp", "vp")
+
     @classmethod
     def create(
         cls, name: str, latitude: float, longitude: float,
-- 
2.43.0


From 8c2281685b6f6cc7d5f98d0c2584d9363fc25d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:04 +0000
Subject: [PATCH 46/65] fix: target of a DNAME record is not compressed

Receivers do not uncompress it, only the first of the targets made sense.
---
 aiomisc/service/dns/records.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aiomisc/service/dns/records.py b/aiomisc/service/dns/records.py
index 2d67a3d..e233352 100644
--- a/aiomisc/service/dns/records.py
+++ b/aiomisc/service/dns/records.py
@@ -169,6 +169,10 @@ class PTR(dnslib.PTR, RDLabel):
 class DNAME(dnslib.DNAME, RDLabel):
     __type__ = RecordType.DNAME
 
+    # RFC 6672: the target must not be sent in compressed form
+    def pack(self, buffer: dnslib.DNSBuffer) -> None:
+        buffer.encode_name_nocompress(self.label)
+
 
 class MX(dnslib.MX, RD):
     @classmethod
-- 
2.43.0


From dee654969f8ec70e438bfd268a66922701f45008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:56 +0000
Subject: [PATCH 47/65] fix: no datagram handler runs after the UDP server was
 stopped

Those started while the others were being cancelled were left running.
---
 aiomisc/service/udp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aiomisc/service/udp.py b/aiomisc/service/udp.py
index 1fadcb2..5abc29f 100644
--- a/aiomisc/service/udp.py
+++ b/aiomisc/service/udp.py
@@ -4,7 +4,7 @@ from abc import abstractmethod
 from functools import partial
 from typing import Any, Awaitable, Callable, Optional, Union
 
-from ..utils import OptionsType, awaitable, bind_socket
+from ..utils import OptionsType, awaitable, bind_socket, cancel_tasks
 from .base import SimpleServer
 
 
@@ -112,3 +112,5 @@ class UDPServer(SimpleServer):
         await super().stop(exc)
         if self._transport:
             self._transport.close()
+        # Datagrams received while the previous tasks were being cancelled
+        await cancel_tasks(self.tasks)
-- 
2.43.0


From 8a8d7983066a85902f4d6989457a997486231f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:56 +0000
Subject: [PATCH 48/65] fix: stopping a stream server closes its connections

stop() waited for the connections, which nobody closed, for as long as the
clients stayed connected. Clients accepted while the handlers were being
cancelled were served after it.
---
 aiomisc/service/base.py | 16 ++++++++++++++--
 aiomisc/service/tcp.py  |  8 +++++++-
 aiomisc/service/tls.py  |  8 +++++++-
 3 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/aiomisc/service/base.py b/aiomisc/service/base.py
index f342574..3a89bf3 100644
--- a/aiomisc/service/base.py
+++ b/aiomisc/service/base.py
@@ -3,6 +3,7 @@ from abc import ABC, ABCMeta, abstractmethod
 from typing import (
     Any, Coroutine, Dict, Generator, Optional, Set, Tuple, TypeVar, Union,
 )
+from weakref import WeakKeyDictionary
 
 from ..context import Context, get_context
 from ..utils import cancel_tasks
@@ -128,6 +129,7 @@ class SimpleServer(TaskStoreBase):
     def __init__(self, **kwargs: Any):
         self.server: Optional[asyncio.AbstractServer] = None
         self.tasks: Set[asyncio.Task] = set()
+        self._transports: "WeakKeyDictionary" = WeakKeyDictionary()
         super().__init__(**kwargs)
 
     @abstractmethod
@@ -135,11 +137,21 @@ class SimpleServer(TaskStoreBase):
         raise NotImplementedError
 
     async def stop(self, exc: Optional[Exception] = None) -> None:
-        await super().stop(exc)
-
+        # New clients must not appear while the tasks are being cancelled
         if self.server:
             self.server.close()
 
+        await super().stop(exc)
+
+        # The server is closed only when all its connections are
+        for transport in tuple(self._transports.values()):
+            transport.close()
+
+    def _add_transport(self, transport: asyncio.BaseTransport) -> None:
+        # Some transports have no weak references, and forget their protocol
+        # when they are closed
+        self._transports[transport.get_protocol()] = transport
+
 
 class SimpleClient(TaskStoreBase):
     @abstractmethod
diff --git a/aiomisc/service/tcp.py b/aiomisc/service/tcp.py
index 850c92b..4a16d2f 100644
--- a/aiomisc/service/tcp.py
+++ b/aiomisc/service/tcp.py
@@ -58,7 +58,13 @@ class TCPServer(SimpleServer):
     def make_client_handler(
         self, reader: asyncio.StreamReader,
         writer: asyncio.StreamWriter,
-    ) -> Any:
+    ) -> Optional[asyncio.Task]:
+        if self.server is not None and not self.server.is_serving():
+            # Accepted just before the server was closed
+            writer.close()
+            return None
+
+        self._add_transport(writer.transport)
         return self.create_task(self.__client_handler(reader, writer))
 
     async def start(self) -> None:
diff --git a/aiomisc/service/tls.py b/aiomisc/service/tls.py
index cd1f59c..3f7b31c 100644
--- a/aiomisc/service/tls.py
+++ b/aiomisc/service/tls.py
@@ -157,7 +157,13 @@ class TLSServer(SimpleServer):
     def make_client_handler(
         self, reader: asyncio.StreamReader,
         writer: asyncio.StreamWriter,
-    ) -> asyncio.Task:
+    ) -> Optional[asyncio.Task]:
+        if self.server is not None and not self.server.is_serving():
+            # Accepted just before the server was closed
+            writer.close()
+            return None
+
+        self._add_transport(writer.transport)
         return self.create_task(self.__client_handler(reader, writer))
 
     @abstractmethod
-- 
2.43.0


From 51715eac4aa259b19b99bf82444052a979572012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:56 +0000
Subject: [PATCH 49/65] fix: connection is closed when its handler has failed

As asyncio does for coroutine functions. The client was never told.
---
 aiomisc/service/tcp.py | 6 +++++-
 aiomisc/service/tls.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/aiomisc/service/tcp.py b/aiomisc/service/tcp.py
index 4a16d2f..cb90642 100644
--- a/aiomisc/service/tcp.py
+++ b/aiomisc/service/tcp.py
@@ -53,7 +53,11 @@ class TCPServer(SimpleServer):
     async def __client_handler(
         self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter,
     ) -> Any:
-        return await awaitable(self.handle_client)(reader, writer)
+        try:
+            return await awaitable(self.handle_client)(reader, writer)
+        except BaseException:
+            writer.close()
+            raise
 
     def make_client_handler(
         self, reader: asyncio.StreamReader,
diff --git a/aiomisc/service/tls.py b/aiomisc/service/tls.py
index 3f7b31c..0cfaf36 100644
--- a/aiomisc/service/tls.py
+++ b/aiomisc/service/tls.py
@@ -152,7 +152,11 @@ class TLSServer(SimpleServer):
     async def __client_handler(
         self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter,
     ) -> Any:
-        return await awaitable(self.handle_client)(reader, writer)
+        try:
+            return await awaitable(self.handle_client)(reader, writer)
+        except BaseException:
+            writer.close()
+            raise
 
     def make_client_handler(
         self, reader: asyncio.StreamReader,
-- 
2.43.0


From a81acfefd900df47cb310bf5c307ea74c99fb23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:34 +0000
Subject: [PATCH 50/65] fix: nothing of a TCP client goes on after it was
 stopped

Attempts to connect were not cancelled, the connection was not closed, and a
handler which had failed left its connection open.
---
 aiomisc/service/base.py | 20 ++++++++++----------
 aiomisc/service/tcp.py  | 34 ++++++++++++++++++++++++++--------
 aiomisc/service/tls.py  |  8 ++------
 3 files changed, 38 insertions(+), 24 deletions(-)

diff --git a/aiomisc/service/base.py b/aiomisc/service/base.py
index 3a89bf3..b002165 100644
--- a/aiomisc/service/base.py
+++ b/aiomisc/service/base.py
@@ -113,6 +113,7 @@ class Service(metaclass=ServiceMeta):
 class TaskStoreBase(Service, ABC):
     def __init__(self, **kwargs: Any):
         self.tasks: Set[asyncio.Task] = set()
+        self._transports: "WeakKeyDictionary" = WeakKeyDictionary()
         super().__init__(**kwargs)
 
     def create_task(self, coro: CoroutineType) -> asyncio.Task:
@@ -121,15 +122,23 @@ class TaskStoreBase(Service, ABC):
         task.add_done_callback(self.tasks.discard)
         return task
 
+    def _add_transport(self, transport: asyncio.BaseTransport) -> None:
+        # Some transports have no weak references, and forget their protocol
+        # when they are closed
+        self._transports[transport.get_protocol()] = transport
+
     async def stop(self, exc: Optional[Exception] = None) -> None:
         await cancel_tasks(self.tasks)
 
+        # A server is closed only when all its connections are
+        for transport in tuple(self._transports.values()):
+            transport.close()
+
 
 class SimpleServer(TaskStoreBase):
     def __init__(self, **kwargs: Any):
         self.server: Optional[asyncio.AbstractServer] = None
         self.tasks: Set[asyncio.Task] = set()
-        self._transports: "WeakKeyDictionary" = WeakKeyDictionary()
         super().__init__(**kwargs)
 
     @abstractmethod
@@ -143,15 +152,6 @@ class SimpleServer(TaskStoreBase):
 
         await super().stop(exc)
 
-        # The server is closed only when all its connections are
-        for transport in tuple(self._transports.values()):
-            transport.close()
-
-    def _add_transport(self, transport: asyncio.BaseTransport) -> None:
-        # Some transports have no weak references, and forget their protocol
-        # when they are closed
-        self._transports[transport.get_protocol()] = transport
-
 
 class SimpleClient(TaskStoreBase):
     @abstractmethod
diff --git a/aiomisc/service/tcp.py b/aiomisc/service/tcp.py
index cb90642..1338b9c 100644
--- a/aiomisc/service/tcp.py
+++ b/aiomisc/service/tcp.py
@@ -125,6 +125,15 @@ class TCPClient(SimpleClient, ABC):
         self.port = port
         super().__init__(**kwargs)
 
+    async def _open_connection(self, **kwargs: Any) -> Tuple[
+        asyncio.StreamReader, asyncio.StreamWriter,
+    ]:
+        reader, writer = await asyncio.open_connection(
+            self.address, self.port, **kwargs,
+        )
+        self._add_transport(writer.transport)
+        return reader, writer
+
     async def connect(self) -> Tuple[
         asyncio.StreamReader, asyncio.StreamWriter,
     ]:
@@ -132,11 +141,7 @@ class TCPClient(SimpleClient, ABC):
 
         for _ in range(self.connect_attempts):
             try:
-                reader, writer = await self.create_task(
-                    asyncio.open_connection(
-                        self.address, self.port,
-                    ),
-                )
+                reader, writer = await self._open_connection()
                 log.info(
                     "Connected to %s://%s:%d",
                     self.PROTO_NAME, self.address, self.port,
@@ -155,10 +160,23 @@ class TCPClient(SimpleClient, ABC):
         raise NotImplementedError
 
     async def start(self) -> None:
+        # All of it must be cancelled when the service is being stopped
+        await self.create_task(self._communicate())
+
+    async def _handle(
+        self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter,
+    ) -> None:
+        try:
+            await self.handle_connection(reader, writer)
+        except BaseException:
+            writer.close()
+            raise
+
+    async def _communicate(self) -> None:
         reader, writer = await self.connect()
         self.loop.call_soon(self.start_event.set)
         try:
-            await self.create_task(self.handle_connection(reader, writer))
+            await self._handle(reader, writer)
         except Exception:
             log.exception("Error when handle TCP connection")
         else:
@@ -169,7 +187,7 @@ class RobustTCPClient(TCPClient, ABC):
     reconnect_timeout: TimeoutType = 5
     connected: asyncio.Event
 
-    async def start(self) -> None:
+    async def _communicate(self) -> None:
         self.connected = asyncio.Event()
 
         while True:
@@ -180,7 +198,7 @@ class RobustTCPClient(TCPClient, ABC):
                 if not self.start_event.is_set():
                     self.start_event.set()
 
-                await self.create_task(self.handle_connection(reader, writer))
+                await self._handle(reader, writer)
                 self.connected.clear()
             except asyncio.CancelledError:
                 raise
diff --git a/aiomisc/service/tls.py b/aiomisc/service/tls.py
index 0cfaf36..70ccef7 100644
--- a/aiomisc/service/tls.py
+++ b/aiomisc/service/tls.py
@@ -242,10 +242,7 @@ class TLSClient(TCPClient, ABC):
                 ssl_context: ssl.SSLContext = await self.loop.run_in_executor(
                     None, self.__ssl_options.create_context,
                 )
-                reader, writer = await asyncio.open_connection(
-                    self.address, self.port,
-                    ssl=ssl_context,
-                )
+                reader, writer = await self._open_connection(ssl=ssl_context)
                 log.info(
                     "Connected to %s://%s:%d",
                     self.PROTO_NAME, self.address, self.port,
@@ -282,8 +279,7 @@ class RobustTLSClient(RobustTCPClient, ABC):
         last_error: Optional[Exception] = None
         for _ in range(self.connect_attempts):
             try:
-                reader, writer = await asyncio.open_connection(
-                    self.address, self.port,
+                reader, writer = await self._open_connection(
                     ssl=await self.loop.run_in_executor(
                         None, self.__ssl_options.create_context,
                     ),
-- 
2.43.0


From 500bcf5748a1afd884e740621342a7b274c0b81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:34 +0000
Subject: [PATCH 51/65] fix: robust TCP client connects again when connecting
 has failed

It gave up, contrary to what it logged, and slept before being cancelled.
---
 aiomisc/service/tcp.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/aiomisc/service/tcp.py b/aiomisc/service/tcp.py
index 1338b9c..d1e2c3e 100644
--- a/aiomisc/service/tcp.py
+++ b/aiomisc/service/tcp.py
@@ -199,9 +199,7 @@ class RobustTCPClient(TCPClient, ABC):
                     self.start_event.set()
 
                 await self._handle(reader, writer)
-                self.connected.clear()
-            except asyncio.CancelledError:
-                raise
+                return
             except Exception:
                 log.exception(
                     "Error when handle TCP connection, "
@@ -209,6 +207,9 @@ class RobustTCPClient(TCPClient, ABC):
                     self.reconnect_timeout,
                 )
             finally:
-                if not self.connected.is_set():
-                    return
-                await asyncio.sleep(self.reconnect_timeout)
+                self.connected.clear()
+
+            if not self.start_event.is_set():
+                self.start_event.set()
+
+            await asyncio.sleep(self.reconnect_timeout)
-- 
2.43.0


From 7c08dcd86fa90ba354581c438843e13e3de7250b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:41 +0000
Subject: [PATCH 52/65] fix: process services start without the logging of the
 entrypoint

The default of LOG_FORMAT is a string.
---
 aiomisc/service/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc/service/process.py b/aiomisc/service/process.py
index 8313aee..23e302a 100644
--- a/aiomisc/service/process.py
+++ b/aiomisc/service/process.py
@@ -68,7 +68,7 @@ class ProcessService(Service):
             log_format = (
                 LogFormat.default()
                 if LOG_FORMAT is None
-                else LOG_FORMAT.get().value
+                else LOG_FORMAT.get()
             )
 
             process = Process(
-- 
2.43.0


From 00186d05411e565dacbb669f861a8ebad900789f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:33 +0000
Subject: [PATCH 53/65] fix: process services do not leave a child behind

stop() knew nothing about a child which had not told that it is up, waited
for it while start() held the lock, did not kill one which had finished its
hook but stayed alive, and start() hung when the child died before.
---
 aiomisc/service/process.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/aiomisc/service/process.py b/aiomisc/service/process.py
index 23e302a..4016e54 100644
--- a/aiomisc/service/process.py
+++ b/aiomisc/service/process.py
@@ -85,12 +85,16 @@ class ProcessService(Service):
             )
 
             process.start()
-
-            await self.loop.run_in_executor(
-                None, self._process_start_event.wait,
-            )
             self.process = process
 
+        while not await self.loop.run_in_executor(
+            None, self._process_start_event.wait, 1,
+        ):
+            if not process.is_alive():
+                raise RuntimeError(
+                    f"The process of {self!r} exited before it was started",
+                )
+
     def __repr__(self) -> str:
         pid: Optional[int] = None
         if hasattr(self, "process"):
@@ -101,11 +105,11 @@ class ProcessService(Service):
         )
 
     async def stop(self, exception: Optional[Exception] = None) -> Any:
-        if not self._is_alive():
-            return
+        alive = self._is_alive()
+        process = self.__dict__.pop("process", None)
 
-        process = self.process
-        del self.process
+        if not alive:
+            return
 
         if not process.pid:
             return
@@ -120,8 +124,11 @@ class ProcessService(Service):
                 None, process.join, self.process_stop_timeout,
             )
 
-        if not stop_result and process.is_alive():
+        if process.is_alive():
             process.kill()
+            await self.loop.run_in_executor(
+                None, process.join, self.process_stop_timeout,
+            )
             log.warning(
                 f"The process {process.pid} didn't stop for "
                 f"{self.process_stop_timeout} seconds "
@@ -148,8 +155,13 @@ class RespawningProcessService(ProcessService, ABC):
         await super().start()
 
     async def start(self) -> None:
-        await super().start()
         self._supervisor = PeriodicCallback(self.__supervise)
+        await super().start()
+
+        if not hasattr(self, "process"):
+            # Stopped meanwhile
+            return
+
         self._supervisor.start(
             self.process_poll_timeout,
         )
-- 
2.43.0


From 94f237392f9259145749cfe639eed844e9ea4977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:52 +0000
Subject: [PATCH 54/65] fix: systemd is not told READY when a service failed to
 start

Post-start hooks are called in this case too. An empty NOTIFY_SOCKET means
that there is none.
---
 aiomisc/entrypoint.py         | 9 +++++++--
 aiomisc/service/sdwatchdog.py | 6 +++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/aiomisc/entrypoint.py b/aiomisc/entrypoint.py
index cac9ee3..9a95702 100644
--- a/aiomisc/entrypoint.py
+++ b/aiomisc/entrypoint.py
@@ -347,8 +347,13 @@ class Entrypoint:
             return_when=asyncio.FIRST_COMPLETED,
         )
 
-        self.loop.call_soon(svc.start_event.set)
-        await ev_task
+        if start_task.done() and (
+            start_task.cancelled() or start_task.exception()
+        ):
+            ev_task.cancel()
+        else:
+            self.loop.call_soon(svc.start_event.set)
+            await ev_task
 
         if start_task.done():
             # raise an Exception when failed
diff --git a/aiomisc/service/sdwatchdog.py b/aiomisc/service/sdwatchdog.py
index 5e7e533..fa36cf8 100644
--- a/aiomisc/service/sdwatchdog.py
+++ b/aiomisc/service/sdwatchdog.py
@@ -22,7 +22,7 @@ def _get_watchdog_interval() -> Optional[TimeoutType]:
 
 def _get_socket_addr() -> Optional[str]:
     addr = os.getenv("NOTIFY_SOCKET")
-    if addr is None:
+    if not addr:
         return None
     if addr[0] == "@":
         addr = "\0" + addr[1:]
@@ -129,6 +129,10 @@ async def _pre_start(*, services: Tuple[Service, ...], **__: Any) -> None:
 
 
 async def _post_start(*, services: Tuple[Service, ...], **__: Any) -> None:
+    if not all(service.start_event.is_set() for service in services):
+        # Some of them failed
+        return
+
     for service in filter_services(services):
         await service.send(f"STATUS=Started {len(services)} services")
         await service.send("READY=1")
-- 
2.43.0


From e777a0b154741e29dc7ed7ee783da809def33dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:59 +0000
Subject: [PATCH 55/65] fix: AsyncFileIO itself can be used

---
 aiomisc/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc/io.py b/aiomisc/io.py
index a95f49b..ad52007 100644
--- a/aiomisc/io.py
+++ b/aiomisc/io.py
@@ -65,7 +65,7 @@ def proxy_method_async(
 @total_ordering
 class AsyncFileIO(EventLoopMixin, Generic[AnyStr]):
     __slots__ = (
-        "_fp", "executor", "__iterator_lock",
+        "_fp", "executor", "__iterator_lock", "__open_args",
     ) + EventLoopMixin.__slots__
 
     _fp: Optional[IO[AnyStr]]
-- 
2.43.0


From 83393e52f767be8eacfea1570ca190ff77cf45f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:59 +0000
Subject: [PATCH 56/65] fix: operations on one file take effect one at a time

---
 aiomisc/io.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/aiomisc/io.py b/aiomisc/io.py
index ad52007..d858401 100644
--- a/aiomisc/io.py
+++ b/aiomisc/io.py
@@ -3,6 +3,7 @@ import bz2
 import gzip
 import lzma
 import sys
+import threading
 from concurrent.futures import Executor
 from enum import Enum
 from functools import partial, total_ordering
@@ -65,7 +66,7 @@ def proxy_method_async(
 @total_ordering
 class AsyncFileIO(EventLoopMixin, Generic[AnyStr]):
     __slots__ = (
-        "_fp", "executor", "__iterator_lock", "__open_args",
+        "_fp", "executor", "__iterator_lock", "__open_args", "__lock",
     ) + EventLoopMixin.__slots__
 
     _fp: Optional[IO[AnyStr]]
@@ -84,6 +85,8 @@ class AsyncFileIO(EventLoopMixin, Generic[AnyStr]):
         self._fp = None
         self.__open_args = (str(fname), mode, *args), kwargs
         self.__iterator_lock = asyncio.Lock()
+        # held in a thread while an operation is running there
+        self.__lock = threading.Lock()
 
     @classmethod
     def open_fp(
@@ -98,10 +101,13 @@ class AsyncFileIO(EventLoopMixin, Generic[AnyStr]):
         if self._fp is not None:
             return
 
-        args, kwargs = self.__open_args
-        self._fp = await self.__execute_in_thread(
-            self.get_opener(), *args, **kwargs,
-        )
+        await self.__execute_in_thread(self.__open)
+
+    def __open(self) -> None:
+        # might be opened by a concurrent call
+        if self._fp is None:
+            args, kwargs = self.__open_args
+            self._fp = self.get_opener()(*args, **kwargs)
 
     @property
     def fp(self) -> IO[AnyStr]:
@@ -128,7 +134,8 @@ class AsyncFileIO(EventLoopMixin, Generic[AnyStr]):
             raise RuntimeError("file is not opened")
 
         await self.loop.run_in_executor(
-            None, self.fp.__exit__, exc_type, exc_val, exc_tb,
+            None, self.__locked,
+            partial(self.fp.__exit__, exc_type, exc_val, exc_tb),
         )
 
     def __del__(self) -> None:
@@ -163,11 +170,16 @@ class AsyncFileIO(EventLoopMixin, Generic[AnyStr]):
     def __hash__(self) -> int:
         return hash((self.__class__, self.fp))
 
+    def __locked(self, method: Callable[..., T]) -> T:
+        # files are not thread safe
+        with self.__lock:
+            return method()
+
     async def __execute_in_thread(
         self, method: Callable[..., Any], *args: Any, **kwargs: Any,
     ) -> Any:
         return await self.loop.run_in_executor(
-            self.executor, partial(method, *args, **kwargs),
+            self.executor, self.__locked, partial(method, *args, **kwargs),
         )
 
     @property
@@ -197,7 +209,7 @@ class AsyncFileIO(EventLoopMixin, Generic[AnyStr]):
         return method
 
     async def tell(self) -> int:
-        return self.fp.tell()
+        return await self.__execute_in_thread(self.fp.tell)
 
     async def readable(self) -> bool:
         return self.fp.readable()
-- 
2.43.0


From dbeaacd60f6700c8336e9cc8fdd4d2d91b8562c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:59 +0000
Subject: [PATCH 57/65] fix: file is closed even if leaving its context was
 cancelled

---
 aiomisc/io.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/aiomisc/io.py b/aiomisc/io.py
index d858401..d532f15 100644
--- a/aiomisc/io.py
+++ b/aiomisc/io.py
@@ -133,9 +133,12 @@ class AsyncFileIO(EventLoopMixin, Generic[AnyStr]):
         if self.fp is None:
             raise RuntimeError("file is not opened")
 
-        await self.loop.run_in_executor(
-            None, self.__locked,
-            partial(self.fp.__exit__, exc_type, exc_val, exc_tb),
+        # has to be closed even if nobody waits for this
+        await asyncio.shield(
+            self.loop.run_in_executor(
+                None, self.__locked,
+                partial(self.fp.__exit__, exc_type, exc_val, exc_tb),
+            ),
         )
 
     def __del__(self) -> None:
-- 
2.43.0


From feb789828a9efb20020555cab67c3a15188e8577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:59 +0000
Subject: [PATCH 58/65] fix: methods of a file accept keyword arguments

---
 aiomisc/io.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aiomisc/io.py b/aiomisc/io.py
index d532f15..75a24ea 100644
--- a/aiomisc/io.py
+++ b/aiomisc/io.py
@@ -203,10 +203,12 @@ class AsyncFileIO(EventLoopMixin, Generic[AnyStr]):
         return await self.__execute_in_thread(self.fp.close)
 
     def __getattr__(self, name: str) -> Callable[..., Awaitable[Any]]:
-        async def method(*args: Any) -> Any:
+        async def method(*args: Any, **kwargs: Any) -> Any:
             getter = getattr(self.fp, name)
             if callable(getter):
-                return await self.__execute_in_thread(getter, *args)
+                return await self.__execute_in_thread(
+                    getter, *args, **kwargs,
+                )
             return getter
         method.__name__ = name
         return method
-- 
2.43.0


From 4ff74f4d296222091aaab2b8dabfaa12c94b4e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:25 +0000
Subject: [PATCH 59/65] fix: process pool counts cancelled jobs

---
 aiomisc/process_pool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc/process_pool.py b/aiomisc/process_pool.py
index 32b6ca4..9940601 100644
--- a/aiomisc/process_pool.py
+++ b/aiomisc/process_pool.py
@@ -84,7 +84,7 @@ class ProcessPoolExecutor(ProcessPoolExecutorBase, EventLoopMixin):
         """
         Callback for statistic
         """
-        if future.exception():
+        if future.cancelled() or future.exception() is not None:
             self._statistic.error += 1
         else:
             self._statistic.success += 1
-- 
2.43.0


From 82d057a947ac9d307579bd58589e24e60ed18892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:00 +0000
Subject: [PATCH 60/65] fix: dropped process pool does not wait for its own
 threads

---
 aiomisc/process_pool.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/aiomisc/process_pool.py b/aiomisc/process_pool.py
index 9940601..b6fa820 100644
--- a/aiomisc/process_pool.py
+++ b/aiomisc/process_pool.py
@@ -75,8 +75,9 @@ class ProcessPoolExecutor(ProcessPoolExecutorBase, EventLoopMixin):
         self._statistic = ProcessPoolStatistic()
         self._statistic.processes = max_workers
 
+    @staticmethod
     def _statistic_callback(
-        self,
+        statistic: ProcessPoolStatistic,
         future: Future,
         start_time: float,
         loop: asyncio.AbstractEventLoop,
@@ -85,11 +86,11 @@ class ProcessPoolExecutor(ProcessPoolExecutorBase, EventLoopMixin):
         Callback for statistic
         """
         if future.cancelled() or future.exception() is not None:
-            self._statistic.error += 1
+            statistic.error += 1
         else:
-            self._statistic.success += 1
-        self._statistic.done += 1
-        self._statistic.sum_time += loop.time() - start_time
+            statistic.success += 1
+        statistic.done += 1
+        statistic.sum_time += loop.time() - start_time
 
     def submit(self, *args: Any, **kwargs: Any) -> Future:
         """
@@ -99,13 +100,19 @@ class ProcessPoolExecutor(ProcessPoolExecutorBase, EventLoopMixin):
         start_time = loop.time()
         future = super().submit(*args, **kwargs)
         self._statistic.submitted += 1
+        # The future must not keep the pool, otherwise the last reference to
+        # it might be dropped by one of its own threads.
+        callback, statistic = self._statistic_callback, self._statistic
         future.add_done_callback(
-            lambda f: self._statistic_callback(f, start_time, loop),
+            lambda f: callback(statistic, f, start_time, loop),
         )
         return future
 
     def __del__(self) -> None:
         """
         Cleanup resources
+
+        The last reference might be dropped by one of the threads which have
+        to be joined, so do not wait for them.
         """
-        self.shutdown()
+        self.shutdown(wait=False)
-- 
2.43.0


From e6dbd11ecb9ac07f1ab98557017d9521f87c9fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:50 +0000
Subject: [PATCH 61/65] fix: worker pool statistic was not maintained

---
 aiomisc/worker_pool.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/aiomisc/worker_pool.py b/aiomisc/worker_pool.py
index b25cfee..8218e28 100644
--- a/aiomisc/worker_pool.py
+++ b/aiomisc/worker_pool.py
@@ -135,6 +135,7 @@ class WorkerPool:
         self.__closing = False
         self.__closing_lock = asyncio.Lock()
         self._statistic = WorkerPoolStatistic(name=statistic_name)
+        self._statistic.queue_size = max_overflow
         self.__max_overflow = max_overflow
         self.workers = workers
         self.pids = set()
@@ -184,6 +185,7 @@ class WorkerPool:
         ).digest()
 
         if expected_digest != digest:
+            self._statistic.bad_auth += 1
             await proto.send(PacketTypes.AUTH_FAIL)
             if writer.can_write_eof():
                 writer.write_eof()
@@ -342,9 +344,15 @@ class WorkerPool:
             )),
         )
 
+        success = False
+        start_time = self.loop.time()
+        self._statistic.submitted += 1
+
         try:
             await process_future
-            return await result_future
+            result = await result_future
+            success = True
+            return result
         except asyncio.CancelledError:
             # Only the worker which is still running it
             pid = self.__running.pop(result_future, None)
@@ -357,6 +365,12 @@ class WorkerPool:
             put_task.cancel()
             process_future.cancel()
             result_future.cancel()
+            if success:
+                self._statistic.success += 1
+            else:
+                self._statistic.error += 1
+            self._statistic.done += 1
+            self._statistic.sum_time += self.loop.time() - start_time
 
     async def __aenter__(self) -> "WorkerPool":
         await self.start()
-- 
2.43.0


From 83402724c71a97cd5eaede9be17ff77caf1a3fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:50 +0000
Subject: [PATCH 62/65] fix: iterator statistic did not maintain queue_length

---
 aiomisc/iterator_wrapper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aiomisc/iterator_wrapper.py b/aiomisc/iterator_wrapper.py
index 68708fb..bc54b50 100644
--- a/aiomisc/iterator_wrapper.py
+++ b/aiomisc/iterator_wrapper.py
@@ -225,6 +225,7 @@ class IteratorWrapper(AsyncIterator, EventLoopMixin):
                         del item
 
                     self._statistic.enqueued += 1
+                    self._statistic.queue_length += 1
             except StopIteration:
                 return
             except Exception as e:
@@ -275,6 +276,7 @@ class IteratorWrapper(AsyncIterator, EventLoopMixin):
             raise item from item
 
         self._statistic.yielded += 1
+        self._statistic.queue_length -= 1
         return item
 
     async def __aenter__(self) -> "IteratorWrapper":
-- 
2.43.0


From 5fbcdab7a410cea0fd2dc06de9828f70c5c04e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:50 +0000
Subject: [PATCH 63/65] fix: an iteration ended silently when its generator
 raised a BaseException

---
 aiomisc/iterator_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc/iterator_wrapper.py b/aiomisc/iterator_wrapper.py
index bc54b50..395e009 100644
--- a/aiomisc/iterator_wrapper.py
+++ b/aiomisc/iterator_wrapper.py
@@ -228,7 +228,7 @@ class IteratorWrapper(AsyncIterator, EventLoopMixin):
                     self._statistic.queue_length += 1
             except StopIteration:
                 return
-            except Exception as e:
+            except BaseException as e:
                 if self.closed:
                     return
                 self.__channel.put((e, True))
-- 
2.43.0


From 86dd019a7582a9697d3a5acddebbe32bf83f979a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:05 +0000
Subject: [PATCH 64/65] fix: worker pool lost a worker whose task ended it with
 status 0

---
 aiomisc_worker/forking.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/aiomisc_worker/forking.py b/aiomisc_worker/forking.py
index 5999d40..27060d1 100644
--- a/aiomisc_worker/forking.py
+++ b/aiomisc_worker/forking.py
@@ -14,6 +14,10 @@ from .protocol import FileIOProtocol
 from .worker import bad_initializer, worker
 
 
+# Exit status of a worker whose connection was closed by the pool. Zero might
+# be a status of a worker which has been finished by its task.
+DISCONNECTED = 113
+
 PROCESSES: MutableMapping[int, bytes] = {}
 STOPPING = Event()
 EXIT_LOCK = Lock()
@@ -57,7 +61,7 @@ def fork(worker_id: bytes, cookie: bytes, address: AddressType) -> None:
     PROCESSES = {}
     signal.signal(INT_SIGNAL, DEFAULT_SIGNAL_HANDLER)
     worker(address, cookie, worker_id)
-    raise SystemExit(0)
+    raise SystemExit(DISCONNECTED)
 
 
 def main() -> int:
@@ -108,10 +112,13 @@ def main() -> int:
         except KeyboardInterrupt:
             return exit(0)
 
-        log_func = log.debug if status == 0 else log.warning
+        disconnected = (
+            os.WIFEXITED(status) and os.WEXITSTATUS(status) == DISCONNECTED
+        )
+        log_func = log.debug if disconnected else log.warning
         log_func("Worker PID: %d exited with status %d", pid, status)
 
-        if status == 0:
+        if disconnected:
             continue
         worker_id = PROCESSES.pop(pid, None)
         if worker_id is None:
-- 
2.43.0


From f2057b8de9e775e5a8ecefdc8998cbbee92a81f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:32 +0000
Subject: [PATCH 65/65] fix: statistic classes lost the metrics of their
 grandparents

---
 aiomisc/counters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc/counters.py b/aiomisc/counters.py
index 15e3abe..4bdc5e4 100644
--- a/aiomisc/counters.py
+++ b/aiomisc/counters.py
@@ -64,7 +64,7 @@ class MetaStatistic(type):
 
         metrics = set()
 
-        for base_class in bases:
+        for base_class in klass.__mro__[1:]:
             if not issubclass(base_class, AbstractStatistic):
                 continue
 
-- 
2.43.0

