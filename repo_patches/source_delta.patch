From c9dc504a9739b371749d7cd9595e966117c82a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:11 +0000
Subject: [PATCH 01/45] fix: pool loses capacity and instances when
 create/check fails or is cancelled

A failed or cancelled _create_instance never gave its permit back, a
cancelled _check_instance dropped the instance, an instance whose check
raised was recycled and handed out all the same, callers waiting for an
idle instance were never woken when capacity was freed by recycling, and
close() abandoned the instances waiting in the recycle bin.
---
 aiomisc/pool.py | 61 ++++++++++++++++++++++++++++++++-----------------
 1 file changed, 40 insertions(+), 21 deletions(-)

diff --git a/aiomisc/pool.py b/aiomisc/pool.py
index c09942c..86374c7 100644
--- a/aiomisc/pool.py
+++ b/aiomisc/pool.py
@@ -55,6 +55,7 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
         "_semaphore",
         "_tasks",
         "_len",
+        "_maxsize",
         "_used",
     ) + EventLoopMixin.__slots__
 
@@ -71,6 +72,7 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
         self._instances = asyncio.Queue()
         self._recycle_bin = asyncio.Queue()
 
+        self._maxsize = maxsize
         self._semaphore = asyncio.Semaphore(maxsize)
         self._len = 0
 
@@ -121,7 +123,6 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
 
     def __recycle_instance(self, instance: Any) -> None:
         self._len -= 1
-        self._semaphore.release()
         if instance in self._recycle_times:
             self._recycle_times.pop(instance)
 
@@ -131,38 +132,55 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
         self._recycle_bin.put_nowait(instance)
 
     async def __create_new_instance(self) -> None:
-        await self._semaphore.acquire()
-
-        instance: Any = await self._create_instance()
         self._len += 1
 
+        try:
+            instance: Any = await self._create_instance()
+        except BaseException:
+            self._len -= 1
+            raise
+
         if self._recycle:
             deadline = self._recycle * (1 + random())
             self._recycle_times[instance] += deadline
 
-        await self._instances.put(instance)
+        self._instances.put_nowait(instance)
 
     async def __acquire(self) -> T:
-        if not self._semaphore.locked():
-            await self.__create_new_instance()
-
-        instance = await self._instances.get()
+        # One permit per instance which is in use (or is about to be), so
+        # when the pool is full at least one of the instances is idle.
+        await self._semaphore.acquire()
 
         try:
-            result = await self._check_instance(instance)
-        except Exception:
-            log.exception("Check instance %r failed", instance)
-            self.__recycle_instance(instance)
-        else:
-            if not result:
+            while True:
+                if self._len < self._maxsize:
+                    await self.__create_new_instance()
+
+                instance = self._instances.get_nowait()
+
+                try:
+                    result = await self._check_instance(instance)
+                except Exception:
+                    log.exception("Check instance %r failed", instance)
+                    result = False
+                except BaseException:
+                    self._instances.put_nowait(instance)
+                    raise
+
+                if result:
+                    break
+
                 self.__recycle_instance(instance)
-                return await self.__acquire()
+        except BaseException:
+            self._semaphore.release()
+            raise
 
         self._used.add(instance)
         return instance
 
     async def __release(self, instance: Any) -> None:
         self._used.discard(instance)
+        self._semaphore.release()
 
         if self._recycle and self._recycle_times[instance] < self.loop.time():
             self.__recycle_instance(instance)
@@ -177,11 +195,12 @@ class PoolBase(ABC, EventLoopMixin, Generic[T]):
         instances = list(self._used)
         self._used.clear()
 
-        while self._instances.qsize():
-            try:
-                instances.append(self._instances.get_nowait())
-            except asyncio.QueueEmpty:
-                break
+        for queue in (self._instances, self._recycle_bin):
+            while queue.qsize():
+                try:
+                    instances.append(queue.get_nowait())
+                except asyncio.QueueEmpty:
+                    break
 
         async def log_exception(coro: Awaitable[Any]) -> None:
             try:
-- 
2.43.0


From b60b2066ed12f630f30f180591bcead331408b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:39 +0000
Subject: [PATCH 02/45] fix: threaded iterator hangs on close, loses items and
 errors

A producer blocked on a full bounded queue was never released when the
consumer closed the iterator, closing an iterator which was never iterated
waited forever, an item put just before the channel was closed could be
missed by the consumer, and a BaseException raised by the generator looked
like its normal end.
---
 aiomisc/iterator_wrapper.py | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/aiomisc/iterator_wrapper.py b/aiomisc/iterator_wrapper.py
index e39e9ae..1cf155e 100644
--- a/aiomisc/iterator_wrapper.py
+++ b/aiomisc/iterator_wrapper.py
@@ -4,6 +4,7 @@ from abc import abstractmethod
 from collections import deque
 from concurrent.futures import Executor
 from queue import Empty as QueueEmpty
+from queue import Full as QueueFull
 from queue import Queue
 from time import time
 from types import TracebackType
@@ -53,13 +54,15 @@ class DequeWrapper(QueueWrapperBase):
 
 
 class QueueWrapper(QueueWrapperBase):
+    PUT_TIMEOUT = 0.1
+
     __slots__ = "queue",
 
     def __init__(self, max_size: int) -> None:
         self.queue: Queue = Queue(maxsize=max_size)
 
     def put(self, item: Any) -> None:
-        return self.queue.put(item)
+        return self.queue.put(item, timeout=self.PUT_TIMEOUT)
 
     def get(self) -> Any:
         return self.queue.get_nowait()
@@ -99,11 +102,18 @@ class FromThreadChannel:
         self.close()
 
     def put(self, item: Any) -> None:
-        if self.is_closed:
-            raise ChannelClosed
+        while not self.is_closed:
+            try:
+                self.queue.put(item)
+            except QueueFull:
+                # The consumer might close the channel instead of
+                # making room for the item
+                continue
+
+            self.__last_received_item = time()
+            return
 
-        self.queue.put(item)
-        self.__last_received_item = time()
+        raise ChannelClosed
 
     def _compute_sleep_time(self) -> Union[float, int]:
         if self.__last_received_item < 0:
@@ -122,11 +132,14 @@ class FromThreadChannel:
 
     def __await__(self) -> Any:
         while True:
+            # Items might be put just before closing, so the queue must be
+            # found empty after the channel has been seen closed
+            is_closed = self.is_closed
             try:
                 res = self.queue.get()
                 return res
             except QueueEmpty:
-                if self.is_closed:
+                if is_closed:
                     raise ChannelClosed
 
                 sleep_time = self._compute_sleep_time()
@@ -203,7 +216,7 @@ class IteratorWrapper(AsyncIterator, EventLoopMixin):
                     self._statistic.enqueued += 1
             except StopIteration:
                 return
-            except Exception as e:
+            except BaseException as e:
                 if self.closed:
                     return
                 self.__channel.put((e, True))
@@ -216,9 +229,11 @@ class IteratorWrapper(AsyncIterator, EventLoopMixin):
         return asyncio.ensure_future(self.wait_closed())
 
     async def wait_closed(self) -> None:
+        if self.__gen_task is None:
+            # Nothing has been started
+            return
         await self.__close_event.wait()
-        if self.__gen_task:
-            await asyncio.gather(self.__gen_task, return_exceptions=True)
+        await asyncio.gather(self.__gen_task, return_exceptions=True)
 
     def _run(self) -> Any:
         return self.loop.run_in_executor(
-- 
2.43.0


From e9368ce1c65ff7be94cc16b9deeeb0505ad968c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:08 +0000
Subject: [PATCH 03/45] fix: sync_await hangs on a cancelled coroutine, falsy
 exceptions are lost

A cancelled task made CoroutineWaiter's callback raise before the event was
set, so the waiting thread slept forever; and an exception instance which is
falsy was reported as a None result.
---
 aiomisc/thread_pool.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/aiomisc/thread_pool.py b/aiomisc/thread_pool.py
index 26919f0..3bafc5c 100644
--- a/aiomisc/thread_pool.py
+++ b/aiomisc/thread_pool.py
@@ -73,7 +73,7 @@ def _set_workitem_result(
     if future.done():
         return
 
-    if exception:
+    if exception is not None:
         future.set_exception(exception)
     else:
         future.set_result(result)
@@ -465,10 +465,12 @@ class CoroutineWaiter:
         self.__exception: Optional[BaseException] = None
 
     def _on_result(self, task: asyncio.Future) -> None:
-        self.__exception = task.exception()
-        if self.__exception is None:
+        try:
             self.__result = task.result()
-        self.__event.set()
+        except BaseException as e:
+            self.__exception = e
+        finally:
+            self.__event.set()
 
     def _awaiter(self) -> None:
         task: asyncio.Future = self.__loop.create_task(self.__coro)
-- 
2.43.0


From 9dfb8a68fe66eabd5700cd2ed896e28c1a8305f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:49 +0000
Subject: [PATCH 04/45] fix: thread pool shutdown touches futures from a
 foreign thread

---
 aiomisc/thread_pool.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/aiomisc/thread_pool.py b/aiomisc/thread_pool.py
index 3bafc5c..ca66abd 100644
--- a/aiomisc/thread_pool.py
+++ b/aiomisc/thread_pool.py
@@ -275,7 +275,14 @@ class ThreadPoolExecutor(ThreadPoolExecutorBase):
                 future = futures.pop()
                 if future.done():
                     continue
-                future.set_exception(ThreadPoolException("Pool closed"))
+                future_loop = future.get_loop()
+                if future_loop.is_closed():
+                    continue
+                # The loop shuts down its default executor in a thread
+                future_loop.call_soon_threadsafe(
+                    _set_workitem_result,
+                    future, None, ThreadPoolException("Pool closed"),
+                )
 
             if not wait:
                 return None
-- 
2.43.0


From 35b4ad349e55b36d91b10b341ed5abcd9cb81c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:37 +0000
Subject: [PATCH 05/45] fix: periodic callback forgets the task of a restarted
 callback

---
 aiomisc/periodic.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/aiomisc/periodic.py b/aiomisc/periodic.py
index 78ad86d..daddef1 100644
--- a/aiomisc/periodic.py
+++ b/aiomisc/periodic.py
@@ -51,7 +51,7 @@ class PeriodicCallback(EventLoopMixin):
                 return delay
             return interval
 
-        self._task = self._recurring_callback.start(
+        task = self._recurring_callback.start(
             strategy=strategy,
             shield=shield,
             loop=loop,
@@ -59,9 +59,12 @@ class PeriodicCallback(EventLoopMixin):
         )
 
         def clean_task(_: Any) -> None:
-            self._task = None
+            # The callback might have been restarted already
+            if self._task is task:
+                self._task = None
 
-        self._task.add_done_callback(clean_task)
+        self._task = task
+        task.add_done_callback(clean_task)
 
     def stop(self, return_exceptions: bool = False) -> asyncio.Future:
         if self._task is None:
-- 
2.43.0


From 926a2d538cf39ef25cd9fed691221ad0faa4f9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:37 +0000
Subject: [PATCH 06/45] fix: circuit breaker accepts any error ratio

---
 aiomisc/circuit_breaker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc/circuit_breaker.py b/aiomisc/circuit_breaker.py
index e3acd63..50c6370 100644
--- a/aiomisc/circuit_breaker.py
+++ b/aiomisc/circuit_breaker.py
@@ -139,7 +139,7 @@ class CircuitBreaker(EventLoopMixin):
         if response_time <= 0:
             raise ValueError("Response time must be greater then zero")
 
-        if 0. > error_ratio >= 1.:
+        if not 0. <= error_ratio <= 1.:
             raise ValueError(
                 "Error ratio must be between 0 and 1 not %r" % error_ratio,
             )
-- 
2.43.0


From 7ad06313f186b53574f6558dec8b16ac700d393c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:37 +0000
Subject: [PATCH 07/45] fix: assigned statistic values are not reported

---
 aiomisc/counters.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/aiomisc/counters.py b/aiomisc/counters.py
index d191f6a..3c55e77 100644
--- a/aiomisc/counters.py
+++ b/aiomisc/counters.py
@@ -107,6 +107,13 @@ class Statistic(AbstractStatistic, metaclass=MetaStatistic):
 
         self.__instances__.add(self)
 
+    def __setattr__(self, key: str, value: Any) -> None:
+        if key in self.__metrics__ and not isinstance(value, Metric):
+            # Assigning must not replace the metric
+            self._counter[key] = value
+            return
+        super().__setattr__(key, value)
+
 
 @dataclass(frozen=True)
 class StatisticResult:
-- 
2.43.0


From bcca1078b100a1d69c5be4928edb6de1e0e04068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:37 +0000
Subject: [PATCH 08/45] fix: cancelled process pool tasks are not counted

---
 aiomisc/process_pool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc/process_pool.py b/aiomisc/process_pool.py
index 32b6ca4..49fc611 100644
--- a/aiomisc/process_pool.py
+++ b/aiomisc/process_pool.py
@@ -84,7 +84,7 @@ class ProcessPoolExecutor(ProcessPoolExecutorBase, EventLoopMixin):
         """
         Callback for statistic
         """
-        if future.exception():
+        if future.cancelled() or future.exception():
             self._statistic.error += 1
         else:
             self._statistic.success += 1
-- 
2.43.0


From 1d004e0ca8a8144ee88a14688a7fb7b2e85ad1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:09 +0000
Subject: [PATCH 09/45] fix: robust client swallows or delays its cancellation

---
 aiomisc/service/tcp.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aiomisc/service/tcp.py b/aiomisc/service/tcp.py
index 850c92b..0fa62ec 100644
--- a/aiomisc/service/tcp.py
+++ b/aiomisc/service/tcp.py
@@ -180,7 +180,7 @@ class RobustTCPClient(TCPClient, ABC):
                     "reconnecting after %.3f seconds",
                     self.reconnect_timeout,
                 )
-            finally:
-                if not self.connected.is_set():
-                    return
-                await asyncio.sleep(self.reconnect_timeout)
+
+            if not self.connected.is_set():
+                return
+            await asyncio.sleep(self.reconnect_timeout)
-- 
2.43.0


From c797dacfc96f9d149e751718bf71e8a10ae3858f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:09 +0000
Subject: [PATCH 10/45] fix: handlers started while a server is stopping
 outlive the server

---
 aiomisc/service/base.py | 6 ++++--
 aiomisc/service/udp.py  | 4 +++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/aiomisc/service/base.py b/aiomisc/service/base.py
index f342574..76910d4 100644
--- a/aiomisc/service/base.py
+++ b/aiomisc/service/base.py
@@ -135,11 +135,13 @@ class SimpleServer(TaskStoreBase):
         raise NotImplementedError
 
     async def stop(self, exc: Optional[Exception] = None) -> None:
-        await super().stop(exc)
-
+        # Stop accepting first, otherwise the tasks of the clients accepted
+        # while the others are being cancelled will outlive the service
         if self.server:
             self.server.close()
 
+        await super().stop(exc)
+
 
 class SimpleClient(TaskStoreBase):
     @abstractmethod
diff --git a/aiomisc/service/udp.py b/aiomisc/service/udp.py
index 1fadcb2..1a9359a 100644
--- a/aiomisc/service/udp.py
+++ b/aiomisc/service/udp.py
@@ -109,6 +109,8 @@ class UDPServer(SimpleServer):
         return None
 
     async def stop(self, exc: Optional[Exception] = None) -> None:
-        await super().stop(exc)
+        # Stop receiving first, otherwise the tasks of the datagrams received
+        # while the others are being cancelled will outlive the service
         if self._transport:
             self._transport.close()
+        await super().stop(exc)
-- 
2.43.0


From 8361d01bf9044b6ab36144aa4d417021f8c0d30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:09 +0000
Subject: [PATCH 11/45] fix: memory tracer keeps running after stop

---
 aiomisc/service/tracer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aiomisc/service/tracer.py b/aiomisc/service/tracer.py
index 5260ebe..a0861df 100644
--- a/aiomisc/service/tracer.py
+++ b/aiomisc/service/tracer.py
@@ -98,4 +98,5 @@ class MemoryTracer(Service):
         return self.log_diff(differences)
 
     async def stop(self, exception: Optional[Exception] = None) -> None:
+        await self._tracer.stop(return_exceptions=True)
         tracemalloc.stop()
-- 
2.43.0


From 571f0e38fe1ad58e1f1ee203215e648b2189ddae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:09 +0000
Subject: [PATCH 12/45] fix: file operations escape the executor of the file

---
 aiomisc/io.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aiomisc/io.py b/aiomisc/io.py
index a95f49b..65a8d24 100644
--- a/aiomisc/io.py
+++ b/aiomisc/io.py
@@ -127,8 +127,8 @@ class AsyncFileIO(EventLoopMixin, Generic[AnyStr]):
         if self.fp is None:
             raise RuntimeError("file is not opened")
 
-        await self.loop.run_in_executor(
-            None, self.fp.__exit__, exc_type, exc_val, exc_tb,
+        await self.__execute_in_thread(
+            self.fp.__exit__, exc_type, exc_val, exc_tb,
         )
 
     def __del__(self) -> None:
@@ -197,7 +197,7 @@ class AsyncFileIO(EventLoopMixin, Generic[AnyStr]):
         return method
 
     async def tell(self) -> int:
-        return self.fp.tell()
+        return await self.__execute_in_thread(self.fp.tell)
 
     async def readable(self) -> bool:
         return self.fp.readable()
-- 
2.43.0


From 225950f6b102419568cb642ac226fe206aa98b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:09 +0000
Subject: [PATCH 13/45] fix: finalizer of a never opened file raises

---
 aiomisc/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aiomisc/io.py b/aiomisc/io.py
index 65a8d24..a36e13e 100644
--- a/aiomisc/io.py
+++ b/aiomisc/io.py
@@ -132,10 +132,10 @@ class AsyncFileIO(EventLoopMixin, Generic[AnyStr]):
         )
 
     def __del__(self) -> None:
-        if not self.fp or self.fp.closed:
+        if self._fp is None or self._fp.closed:
             return
 
-        self.fp.close()
+        self._fp.close()
         del self._fp
 
     def __aiter__(self) -> "AsyncFileIO[AnyStr]":
-- 
2.43.0


From 9e3610836e48b2dbe1a7e9d60a379bb361b0e2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:09 +0000
Subject: [PATCH 14/45] fix: DNS names between two nested zones are not
 resolved

---
 aiomisc/service/dns/tree.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/aiomisc/service/dns/tree.py b/aiomisc/service/dns/tree.py
index 1b32eec..5fdc2e9 100644
--- a/aiomisc/service/dns/tree.py
+++ b/aiomisc/service/dns/tree.py
@@ -39,7 +39,8 @@ class RadixTree(Generic[T]):
 
     def find_prefix(self, key: K) -> Optional[Tuple[K, T]]:
         node = self.root
-        longest_prefix: List[str] = []
+        path: List[str] = []
+        longest_prefix: K = ()
         value = None
         part: Hashable
         if node.value is not None:
@@ -47,13 +48,14 @@ class RadixTree(Generic[T]):
         for part in key:
             if part in node.children:
                 node = node.children[part]
-                longest_prefix.append(part)
+                path.append(part)
                 if node.value is not None:
                     value = node.value
+                    longest_prefix = tuple(path)
             else:
                 break
 
         if value is None:
             return None
 
-        return tuple(longest_prefix), value
+        return longest_prefix, value
-- 
2.43.0


From c91a77455e09c1c95514932fb587d7267d760971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:09 +0000
Subject: [PATCH 15/45] fix: DNS zone accepts records of a foreign zone

---
 aiomisc/service/dns/zone.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aiomisc/service/dns/zone.py b/aiomisc/service/dns/zone.py
index 8ed501c..939b284 100644
--- a/aiomisc/service/dns/zone.py
+++ b/aiomisc/service/dns/zone.py
@@ -45,7 +45,9 @@ class DNSZone:
         return tuple(self.records.get((name, record_type), ()))
 
     def check_record(self, record: DNSRecord) -> bool:
-        return record.name.endswith(self.name)
+        if self.name == ".":
+            return True
+        return f".{record.name}".endswith(f".{self.name}")
 
     def replace(self, records: Iterable[DNSRecord]) -> None:
         """
-- 
2.43.0


From 5dfc818a8393472322927ed7902d4f63af699891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:09 +0000
Subject: [PATCH 16/45] fix: DNS over TCP handles partially received queries

---
 aiomisc/service/dns/service.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/aiomisc/service/dns/service.py b/aiomisc/service/dns/service.py
index 28d6895..74cd3f1 100644
--- a/aiomisc/service/dns/service.py
+++ b/aiomisc/service/dns/service.py
@@ -114,10 +114,7 @@ class TCPDNSServer(DNSServer, TCPServer):
                 if not data:
                     break
                 length = TCP_HEADER_STRUCT.unpack(data)[0]
-                packet = await reader.read(length)
-
-                if not data:
-                    break
+                packet = await reader.readexactly(length)
 
                 reply_body, _ = self.handle_request(data=packet, addr=addr)
 
-- 
2.43.0


From f8abee1077e7d683dc1894575b65bb7a341c94bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:09 +0000
Subject: [PATCH 17/45] fix: process service holds a thread lock while it
 awaits

---
 aiomisc/service/process.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/aiomisc/service/process.py b/aiomisc/service/process.py
index 8313aee..f773d83 100644
--- a/aiomisc/service/process.py
+++ b/aiomisc/service/process.py
@@ -85,12 +85,14 @@ class ProcessService(Service):
             )
 
             process.start()
-
-            await self.loop.run_in_executor(
-                None, self._process_start_event.wait,
-            )
             self.process = process
 
+        # The lock must not be held here, otherwise checking the process
+        # state would block the event loop
+        await self.loop.run_in_executor(
+            None, self._process_start_event.wait,
+        )
+
     def __repr__(self) -> str:
         pid: Optional[int] = None
         if hasattr(self, "process"):
-- 
2.43.0


From 8a61f32b6dac95b9e52f4ccd7f02f078853c92a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:09 +0000
Subject: [PATCH 18/45] fix: process service leaves a process which did not
 exit in time

---
 aiomisc/service/process.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc/service/process.py b/aiomisc/service/process.py
index f773d83..ab264eb 100644
--- a/aiomisc/service/process.py
+++ b/aiomisc/service/process.py
@@ -122,7 +122,7 @@ class ProcessService(Service):
                 None, process.join, self.process_stop_timeout,
             )
 
-        if not stop_result and process.is_alive():
+        if process.is_alive():
             process.kill()
             log.warning(
                 f"The process {process.pid} didn't stop for "
-- 
2.43.0


From a668bd7882ab3abf678f4aae3359604a77c98792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:45 +0000
Subject: [PATCH 19/45] fix: threaded log handler blocks emitting threads

---
 aiomisc/log.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/aiomisc/log.py b/aiomisc/log.py
index 14a1bf6..9ad6e6a 100644
--- a/aiomisc/log.py
+++ b/aiomisc/log.py
@@ -64,8 +64,10 @@ class ThreadedHandler(logging.Handler):
         queue = self._queue
         while not self._close_event.is_set():
             self._flush_event.wait(self._flush_interval)
+            self._flush_event.clear()
+            # The lock of the handler must not be held here, it is
+            # acquired by the threads which are emitting the records
             try:
-                self.acquire()
                 while True:
                     record = queue.get(timeout=self._flush_interval)
                     if record is None:
@@ -74,9 +76,6 @@ class ThreadedHandler(logging.Handler):
                         self._target.handle(record)
             except Empty:
                 pass
-            finally:
-                self.release()
-        self._statistic.threads -= 1
 
 
 def suppressor(
-- 
2.43.0


From 50d95228152a5775cfe8a2c2d5fa04f2279cdedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:45 +0000
Subject: [PATCH 20/45] fix: only the last of the log handlers is closed

---
 aiomisc/log.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/aiomisc/log.py b/aiomisc/log.py
index 9ad6e6a..5641a0f 100644
--- a/aiomisc/log.py
+++ b/aiomisc/log.py
@@ -4,6 +4,7 @@ import threading
 import traceback
 import warnings
 from contextlib import suppress
+from functools import partial
 from queue import Empty, Queue
 from socket import socket
 from typing import (
@@ -160,6 +161,10 @@ class UnhandledLoopHook(aiomisc_log.UnhandledHook):
             self.logger.error("".join(traceback.format_list(source_tb)))
 
 
+def _close_handler(handler: logging.Handler, _: Any) -> None:
+    handler.close()
+
+
 def basic_config(
     level: Union[int, str] = LogLevel.default(),
     log_format: Union[str, LogFormat] = LogFormat.default(),
@@ -190,7 +195,7 @@ def basic_config(
             target=user_handler,
         )
         unhandled_hook.add_handler(handler)
-        forever_task.add_done_callback(lambda _: handler.close())
+        forever_task.add_done_callback(partial(_close_handler, handler))
         log_handlers.append(handler)
         handler.start()
 
-- 
2.43.0


From dec7b170a303fd34263011b12b29329dc1224804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:45 +0000
Subject: [PATCH 21/45] fix: logging raises when the log buffer is full

---
 aiomisc/log.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/aiomisc/log.py b/aiomisc/log.py
index 5641a0f..98bee07 100644
--- a/aiomisc/log.py
+++ b/aiomisc/log.py
@@ -5,7 +5,7 @@ import traceback
 import warnings
 from contextlib import suppress
 from functools import partial
-from queue import Empty, Queue
+from queue import Empty, Full, Queue
 from socket import socket
 from typing import (
     Any, Callable, Dict, Iterable, List, Optional, Tuple, Type, Union,
@@ -56,7 +56,12 @@ class ThreadedHandler(logging.Handler):
 
     def emit(self, record: logging.LogRecord) -> None:
         if self._buffered:
-            self._queue.put_nowait(record)
+            try:
+                self._queue.put_nowait(record)
+            except Full:
+                self._statistic.errors += 1
+                self.handleError(record)
+                return
         else:
             self._queue.put(record)
         self._statistic.records += 1
-- 
2.43.0


From 13804495f199c601dab9372dd368239507ef6faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:18 +0000
Subject: [PATCH 22/45] fix: closing a threaded log handler loses emitted
 records

---
 aiomisc/log.py | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/aiomisc/log.py b/aiomisc/log.py
index 98bee07..935e1ff 100644
--- a/aiomisc/log.py
+++ b/aiomisc/log.py
@@ -68,20 +68,25 @@ class ThreadedHandler(logging.Handler):
 
     def _in_thread(self) -> None:
         queue = self._queue
-        while not self._close_event.is_set():
-            self._flush_event.wait(self._flush_interval)
-            self._flush_event.clear()
-            # The lock of the handler must not be held here, it is
-            # acquired by the threads which are emitting the records
-            try:
-                while True:
-                    record = queue.get(timeout=self._flush_interval)
-                    if record is None:
-                        return
-                    with suppress(Exception):
-                        self._target.handle(record)
-            except Empty:
-                pass
+        try:
+            # Exits only after all the records emitted before closing have
+            # been handled, None is the last item in the queue
+            while True:
+                self._flush_event.wait(self._flush_interval)
+                self._flush_event.clear()
+                # The lock of the handler must not be held here, it is
+                # acquired by the threads which are emitting the records
+                try:
+                    while True:
+                        record = queue.get(timeout=self._flush_interval)
+                        if record is None:
+                            return
+                        with suppress(Exception):
+                            self._target.handle(record)
+                except Empty:
+                    pass
+        finally:
+            self._statistic.threads -= 1
 
 
 def suppressor(
-- 
2.43.0


From b2d9e0104c2936d8c92d21cc9b85fa6d5113592b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:30 +0000
Subject: [PATCH 23/45] fix: closing a threaded log handler twice raises

---
 aiomisc/log.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aiomisc/log.py b/aiomisc/log.py
index 935e1ff..aaa7149 100644
--- a/aiomisc/log.py
+++ b/aiomisc/log.py
@@ -44,6 +44,8 @@ class ThreadedHandler(logging.Handler):
         self._thread.start()
 
     def close(self) -> None:
+        if self._close_event.is_set():
+            return
         self._queue.put(None)
         del self._queue
         self.flush()
-- 
2.43.0


From f37a514716fbaafc630054ca62490cfff9887552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:30 +0000
Subject: [PATCH 24/45] fix: unix sockets can not be bound on recent kernels

---
 aiomisc/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aiomisc/utils.py b/aiomisc/utils.py
index 9613245..cb54ffa 100644
--- a/aiomisc/utils.py
+++ b/aiomisc/utils.py
@@ -91,7 +91,10 @@ def bind_socket(
     if reuse_addr:
         sock.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
 
-    if reuse_port:
+    unix_address_family = getattr(socket, "AF_UNIX", None)
+
+    # The option is rejected for unix sockets by the recent kernels
+    if reuse_port and sock.family != unix_address_family:
         sock_set_reuseport(sock, True)
 
     sock_set_nodelay(sock)
@@ -99,7 +102,6 @@ def bind_socket(
     for level, option, value in options:
         sock.setsockopt(level, option, value)
 
-    unix_address_family = getattr(socket, "AF_UNIX", None)
     if sock.family == unix_address_family:
         proto_name = proto_name or "unix"
         sock.bind(address)
-- 
2.43.0


From a6e27796285a82f76841098271fd86e5f2312252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:43 +0000
Subject: [PATCH 25/45] fix: ConnectionError raised by a function terminates
 the worker

---
 aiomisc_worker/worker.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/aiomisc_worker/worker.py b/aiomisc_worker/worker.py
index beeb7ea..cdd97bb 100644
--- a/aiomisc_worker/worker.py
+++ b/aiomisc_worker/worker.py
@@ -7,7 +7,7 @@ import signal
 import socket
 import sys
 from types import TracebackType
-from typing import Any, Optional, Type
+from typing import Any, Optional, Tuple, Type
 
 from . import SIGNAL, AddressType, PacketTypes
 from .protocol import ADDRESS_FAMILY, SocketIOProtocol
@@ -26,11 +26,17 @@ def execute(protocol: SocketIOProtocol) -> None:
     if packet_type != packet_type.REQUEST:
         raise RuntimeError("Unexpected request")
 
+    response: Tuple[PacketTypes, Any]
+
     try:
-        protocol.send((
-            PacketTypes.RESULT,
-            func(*args, **kwargs),
-        ))
+        try:
+            response = PacketTypes.RESULT, func(*args, **kwargs)
+        except ConnectionError as e:
+            # Raised by the function, not by the IPC connection
+            logging.exception("Exception when processing request")
+            response = PacketTypes.EXCEPTION, e
+
+        protocol.send(response)
     except asyncio.CancelledError:
         logging.exception(
             "Request cancelled for %r", func, extra={"pid": pid},
-- 
2.43.0


From 57f67cf224b9e7726a8dfe9dbcb08cdffeae6679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:43 +0000
Subject: [PATCH 26/45] fix: worker may send a truncated packet

---
 aiomisc_worker/protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc_worker/protocol.py b/aiomisc_worker/protocol.py
index 4721870..af5999e 100644
--- a/aiomisc_worker/protocol.py
+++ b/aiomisc_worker/protocol.py
@@ -67,7 +67,7 @@ class SocketIOProtocol(Protocol):
             return fp.getvalue()
 
     def _write(self, data: bytes) -> None:
-        self.sock.send(data)
+        self.sock.sendall(data)
 
 
 class AsyncProtocol:
-- 
2.43.0


From 038812c87372c29824a51210d47e0e0f2fa94928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:43 +0000
Subject: [PATCH 27/45] fix: closing the worker protocol does not write EOF

---
 aiomisc_worker/protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc_worker/protocol.py b/aiomisc_worker/protocol.py
index af5999e..7fa7d67 100644
--- a/aiomisc_worker/protocol.py
+++ b/aiomisc_worker/protocol.py
@@ -94,5 +94,5 @@ class AsyncProtocol:
         return pickle.loads(payload_bytes)
 
     def close(self) -> None:
-        if not self.writer.can_write_eof():
+        if self.writer.can_write_eof():
             self.writer.write_eof()
-- 
2.43.0


From c72155848a8aae62c862c7ba9838a92c90c38475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:43 +0000
Subject: [PATCH 28/45] fix: not serializable task terminates the worker

---
 aiomisc/worker_pool.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/aiomisc/worker_pool.py b/aiomisc/worker_pool.py
index e4280bd..6368b48 100644
--- a/aiomisc/worker_pool.py
+++ b/aiomisc/worker_pool.py
@@ -232,14 +232,10 @@ class WorkerPool:
                         )
                     break
                 except Exception as e:
+                    # The request or the response could not be serialized,
+                    # the packets are not broken and the worker is alive
                     if not result_future.done():
                         result_future.set_exception(e)
-
-                    if not writer.is_closing():
-                        if writer.can_write_eof():
-                            writer.write_eof()
-                        writer.close()
-                    raise
         finally:
             self._statistic.processes -= 1
             self.pids.discard(pid)
-- 
2.43.0


From 2bba1bea69d1a2d5dcb7aa4ca5297541e8ce081b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:07 +0000
Subject: [PATCH 29/45] fix: worker pool tasks hang when the pool is closed

---
 aiomisc/worker_pool.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/aiomisc/worker_pool.py b/aiomisc/worker_pool.py
index 6368b48..08640d9 100644
--- a/aiomisc/worker_pool.py
+++ b/aiomisc/worker_pool.py
@@ -314,12 +314,22 @@ class WorkerPool:
         self, func: Callable[..., T],
         *args: Any, **kwargs: Any,
     ) -> T:
+        if self.__closing:
+            raise RuntimeError("Pool closed")
+
         result_future = self.__create_future()
         process_future = self.__create_future()
 
-        await self.tasks.put((
-            func, args, kwargs, result_future, process_future,
-        ))
+        try:
+            # Closing the pool cancels it when the queue is full
+            await self.__task(
+                self.tasks.put((
+                    func, args, kwargs, result_future, process_future,
+                )),
+            )
+        except asyncio.CancelledError:
+            process_future.cancel()
+            raise
 
         pid: int = await process_future
 
-- 
2.43.0


From 604746415a2abaa64cefbb142210d9e5fdd73db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:07 +0000
Subject: [PATCH 30/45] fix: cancelled worker pool task interrupts a task of
 another caller

---
 aiomisc/worker_pool.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/aiomisc/worker_pool.py b/aiomisc/worker_pool.py
index 08640d9..cff80af 100644
--- a/aiomisc/worker_pool.py
+++ b/aiomisc/worker_pool.py
@@ -4,6 +4,7 @@ import hmac
 import os
 import socket
 import sys
+from contextlib import suppress
 from inspect import Traceback
 from multiprocessing import ProcessError
 from os import chmod, urandom
@@ -336,8 +337,11 @@ class WorkerPool:
         try:
             return await result_future
         except asyncio.CancelledError:
-            log.debug("Sending %r to worker PID: %d", SIGNAL, pid)
-            os.kill(pid, SIGNAL)
+            # Otherwise the worker might be executing a task of another caller
+            if result_future.cancelled():
+                log.debug("Sending %r to worker PID: %d", SIGNAL, pid)
+                with suppress(ProcessLookupError):
+                    os.kill(pid, SIGNAL)
             raise
 
     async def __aenter__(self) -> "WorkerPool":
-- 
2.43.0


From 3e2c40454eb4d0559f7520168b227c7aed211bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:03 +0000
Subject: [PATCH 31/45] fix: TLS clients never verify the server certificate

---
 aiomisc/service/tls.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aiomisc/service/tls.py b/aiomisc/service/tls.py
index cd1f59c..ea8467e 100644
--- a/aiomisc/service/tls.py
+++ b/aiomisc/service/tls.py
@@ -92,8 +92,8 @@ class SSLOptions(SSLOptionsBase):
             context.verify_mode = ssl.VerifyMode.CERT_REQUIRED
             # Post-handshake authentication is required
             context.post_handshake_auth = True
-        else:
-            # Disable server-side cert verification
+        elif not self.verify or self.purpose is ssl.Purpose.CLIENT_AUTH:
+            # Disable peer cert verification
             context.check_hostname = False
             context.verify_mode = ssl.VerifyMode.CERT_NONE
 
-- 
2.43.0


From 2a12215af91128a6ea606cbd213993597b96b589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:04 +0000
Subject: [PATCH 32/45] fix: backoff loses a falsy exception on deadline

---
 aiomisc/backoff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc/backoff.py b/aiomisc/backoff.py
index 341aa7c..c17ff95 100644
--- a/aiomisc/backoff.py
+++ b/aiomisc/backoff.py
@@ -136,7 +136,7 @@ def asyncbackoff(
             try:
                 return await asyncio.wait_for(run(), timeout=deadline)
             except Exception:
-                if last_exc:
+                if last_exc is not None:
                     raise last_exc
                 raise
 
-- 
2.43.0


From 22ffb2414c04dcc16e9a1572f875667ffb080a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:04 +0000
Subject: [PATCH 33/45] fix: failed service stop interrupts the shutdown of the
 others

---
 aiomisc/entrypoint.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/aiomisc/entrypoint.py b/aiomisc/entrypoint.py
index d8b5cda..1a151d9 100644
--- a/aiomisc/entrypoint.py
+++ b/aiomisc/entrypoint.py
@@ -270,9 +270,11 @@ class Entrypoint:
                 buffered=False,
             )
 
-        loop.run_until_complete(self.__aexit__(exc_type, exc_val, exc_tb))
-        if self._loop_owner and self._loop is not None:
-            loop.close()
+        try:
+            loop.run_until_complete(self.__aexit__(exc_type, exc_val, exc_tb))
+        finally:
+            if self._loop_owner and self._loop is not None:
+                loop.close()
 
     async def __aenter__(self) -> "Entrypoint":
         if self._loop is None:
@@ -377,7 +379,11 @@ class Entrypoint:
                     log.warning("Failed to stop service %r:\n%r", svc, e)
                     log.debug("Service stop failed traceback", exc_info=True)
 
-            await asyncio.gather(*tasks)
+            # A failed service must not interrupt the others
+            results = await asyncio.gather(*tasks, return_exceptions=True)
+            for result in results:
+                if isinstance(result, BaseException):
+                    raise result
         finally:
             await cancel_tasks(tasks)
 
@@ -400,12 +406,14 @@ class Entrypoint:
             self._closing.set()
 
         await cancel_tasks(set(self._tasks))
-        await self.stop_services(*self._services, exc=exception)
 
-        if self._loop_owner:
-            await self._cancel_background_tasks()
+        try:
+            await self.stop_services(*self._services, exc=exception)
+        finally:
+            if self._loop_owner:
+                await self._cancel_background_tasks()
 
-        await self.loop.shutdown_asyncgens()
+            await self.loop.shutdown_asyncgens()
 
     def _on_interrupt_callback(self, _: Any) -> None:
         loop = self.loop
-- 
2.43.0


From 7e0f9335529c950bb949f29566eeaa7d22898fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:53 +0000
Subject: [PATCH 34/45] fix: a cancelled waiter of a context item cancels all
 the others

Everyone who waits for an item gets the same future, so cancelling one of
them (by a timeout for example) cancelled the rest.
---
 aiomisc/context.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aiomisc/context.py b/aiomisc/context.py
index cb8de04..0640ceb 100644
--- a/aiomisc/context.py
+++ b/aiomisc/context.py
@@ -33,7 +33,9 @@ class Context:
 
     def __getitem__(self, item: Any) -> Any:
         self._statistic.get += 1
-        return self._storage[item]
+        # The future is shared between all who wait for this item, so
+        # cancelling of one of them must not affect the others
+        return asyncio.shield(self._storage[item])
 
     def __setitem__(self, item: Any, value: Any) -> None:
         self._statistic.set += 1
-- 
2.43.0


From c30f6c16f14d432095c9416143dc5a073be9c4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:31 +0000
Subject: [PATCH 35/45] fix: records of the DNS root zone are never found

---
 aiomisc/service/dns/store.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aiomisc/service/dns/store.py b/aiomisc/service/dns/store.py
index bd3d976..27d7a78 100644
--- a/aiomisc/service/dns/store.py
+++ b/aiomisc/service/dns/store.py
@@ -36,7 +36,7 @@ class DNSStore:
         if not name.endswith("."):
             name += "."
         zone_tuple = self.get_zone_for_name(name)
-        if not zone_tuple:
+        if zone_tuple is None:
             return ()
         zone = self.zones.search(zone_tuple)
         return zone.get_records(name, record_type) if zone is not None else ()
@@ -48,7 +48,9 @@ class DNSStore:
 
     @staticmethod
     def get_reverse_tuple(zone_name: str) -> Tuple[str, ...]:
-        return tuple(zone_name.strip(".").split("."))[::-1]
+        labels = zone_name.strip(".")
+        # The root zone has no labels at all
+        return tuple(labels.split("."))[::-1] if labels else ()
 
     def replace(
         self, zones_data: Mapping[str, Iterable[DNSRecord]],
-- 
2.43.0


From 282dbfcf0f8d14cde4429e4861fdae5a811800bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:24 +0000
Subject: [PATCH 36/45] fix: logging after a buffered handler was closed
 raises, a late thread loses records

---
 aiomisc/log.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/aiomisc/log.py b/aiomisc/log.py
index aaa7149..9851f88 100644
--- a/aiomisc/log.py
+++ b/aiomisc/log.py
@@ -44,12 +44,17 @@ class ThreadedHandler(logging.Handler):
         self._thread.start()
 
     def close(self) -> None:
-        if self._close_event.is_set():
-            return
-        self._queue.put(None)
-        del self._queue
+        # The lock is held by the threads which are emitting the records,
+        # so nothing can be queued after the None
+        self.acquire()
+        try:
+            if self._close_event.is_set():
+                return
+            self._close_event.set()
+            self._queue.put(None)
+        finally:
+            self.release()
         self.flush()
-        self._close_event.set()
         super().close()
 
     def flush(self) -> None:
@@ -57,6 +62,10 @@ class ThreadedHandler(logging.Handler):
         self._flush_event.set()
 
     def emit(self, record: logging.LogRecord) -> None:
+        if self._close_event.is_set():
+            # Nobody is reading the queue anymore
+            self._target.handle(record)
+            return
         if self._buffered:
             try:
                 self._queue.put_nowait(record)
-- 
2.43.0


From 7f256021e820bb1ddc67a2a2070c2b2925e2cdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:24 +0000
Subject: [PATCH 37/45] fix: process pool counts a falsy exception as success

---
 aiomisc/process_pool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aiomisc/process_pool.py b/aiomisc/process_pool.py
index 49fc611..9940601 100644
--- a/aiomisc/process_pool.py
+++ b/aiomisc/process_pool.py
@@ -84,7 +84,7 @@ class ProcessPoolExecutor(ProcessPoolExecutorBase, EventLoopMixin):
         """
         Callback for statistic
         """
-        if future.cancelled() or future.exception():
+        if future.cancelled() or future.exception() is not None:
             self._statistic.error += 1
         else:
             self._statistic.success += 1
-- 
2.43.0


From 3fb3e407eeeb3cbd3b2f84761284cfb96d48aaf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:36 +0000
Subject: [PATCH 38/45] fix: the supervisor of workers signals PIDs of workers
 that ended before

---
 aiomisc_worker/forking.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/aiomisc_worker/forking.py b/aiomisc_worker/forking.py
index 5999d40..aac08da 100644
--- a/aiomisc_worker/forking.py
+++ b/aiomisc_worker/forking.py
@@ -111,10 +111,9 @@ def main() -> int:
         log_func = log.debug if status == 0 else log.warning
         log_func("Worker PID: %d exited with status %d", pid, status)
 
-        if status == 0:
-            continue
+        # The process does not exist anymore, its PID must not be signalled
         worker_id = PROCESSES.pop(pid, None)
-        if worker_id is None:
+        if status == 0 or worker_id is None:
             continue
         fork(worker_id, cookie, address)
     return 0
-- 
2.43.0


From 3d77e00a52fbada6d6fa209ac0d33c7d07b34593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:57 +0000
Subject: [PATCH 39/45] fix: the connector of the keepalive Sentry transport
 leaked when closing it timed out

---
 aiomisc/service/raven.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/aiomisc/service/raven.py b/aiomisc/service/raven.py
index 0e59c0e..ae20cd2 100644
--- a/aiomisc/service/raven.py
+++ b/aiomisc/service/raven.py
@@ -343,8 +343,10 @@ class QueuedKeepaliveAioHttpTransport(QueuedAioHttpTransport):
         )
 
     async def _close(self) -> None:
-        await super()._close()
-        await self.connector.close()
+        try:
+            await super()._close()
+        finally:
+            await self.connector.close()
 
 
 class RavenSender(Service):
-- 
2.43.0


From 9b5bec7a11ff018135dd9c8cfb0d7f33827b7690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:14 +0000
Subject: [PATCH 40/45] fix: the buffer of an asynchronous text file lost its
 executor and loop

---
 aiomisc/io.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aiomisc/io.py b/aiomisc/io.py
index a36e13e..60e67f5 100644
--- a/aiomisc/io.py
+++ b/aiomisc/io.py
@@ -262,7 +262,9 @@ class AsyncTextIO(AsyncFileIO[str]):
         return self.fp.encoding
 
     def buffer(self) -> AsyncBinaryIO:
-        return AsyncBinaryIO.open_fp(self.fp.buffer)    # type: ignore
+        return AsyncBinaryIO.open_fp(       # type: ignore
+            self.fp.buffer, executor=self.executor, loop=self._loop,
+        )
 
 
 # Aliases
-- 
2.43.0


From 591671d1bdb7175c101b1e52e54f2c525536aac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:54 +0000
Subject: [PATCH 41/45] fix: most kinds of DNS records could not be put into a
 zone

---
 aiomisc/service/dns/records.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/aiomisc/service/dns/records.py b/aiomisc/service/dns/records.py
index 34ddf25..52cd78c 100644
--- a/aiomisc/service/dns/records.py
+++ b/aiomisc/service/dns/records.py
@@ -72,9 +72,18 @@ class DNSClass(enum.IntEnum):
     ASTERISK = 255
 
 
+def _freeze(value: Any) -> Any:
+    if isinstance(value, (list, tuple)):
+        return tuple(map(_freeze, value))
+    if isinstance(value, bytearray):
+        return bytes(value)
+    return value
+
+
 class RD(dnslib.RD, Hashable, ABC):
     def __hash__(self) -> int:
-        return hash(self.data)
+        # dnslib compares the attributes named by ``attrs``
+        return hash(tuple(_freeze(getattr(self, x)) for x in self.attrs))
 
     @classmethod
     @abstractmethod
-- 
2.43.0


From 7b0b3c2e3cdb3f5dc2d81ffd4b2b0ebd7d584909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:12 +0000
Subject: [PATCH 42/45] fix: CAA and LOC records were not told apart by their
 values

---
 aiomisc/service/dns/records.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/aiomisc/service/dns/records.py b/aiomisc/service/dns/records.py
index 52cd78c..3952586 100644
--- a/aiomisc/service/dns/records.py
+++ b/aiomisc/service/dns/records.py
@@ -221,6 +221,8 @@ class SRV(dnslib.SRV, RD):
 
 
 class CAA(dnslib.CAA, RD):
+    attrs = ("flags", "tag", "value")
+
     @classmethod
     def create(
         cls, name: str, flags: int, tag: str, value: str,
@@ -323,6 +325,8 @@ class HTTPS(dnslib.HTTPS, RD):
 
 
 class LOC(dnslib.LOC, RD):
+    attrs = ("_lat", "_lon", "_alt", "_siz", "_hp", "_vp")
+
     @classmethod
     def create(
         cls, name: str, latitude: float, longitude: float,
-- 
2.43.0


From 28c7bfa153796838149fcc55667c8b1796f45475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:57 +0000
Subject: [PATCH 43/45] fix: the JSON formatter lost records of custom levels,
 with unusual keys or without a process

---
 aiomisc_log/formatter/json.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/aiomisc_log/formatter/json.py b/aiomisc_log/formatter/json.py
index 6f8a526..55e8861 100644
--- a/aiomisc_log/formatter/json.py
+++ b/aiomisc_log/formatter/json.py
@@ -21,6 +21,7 @@ DumpsType = Callable[[JSONObjType, Any], str]
 def _dump_json(obj: JSONObjType, *args: Any, **kwargs: Any) -> str:
     kwargs["default"] = repr
     kwargs["ensure_ascii"] = False
+    kwargs["skipkeys"] = True
     return json.dumps(obj, *args, **kwargs)
 
 
@@ -71,7 +72,7 @@ class JSONLogFormatter(logging.Formatter):
 
             v = record_dict.get(key)
 
-            if not isinstance(v, field_type):
+            if v is not None and not isinstance(v, field_type):
                 v = field_type(v)
 
             data[mapping] = v
@@ -81,7 +82,7 @@ class JSONLogFormatter(logging.Formatter):
                 continue
             elif key in self.FIELD_MAPPING:
                 continue
-            elif key[0] == "_":
+            elif str(key).startswith("_"):
                 continue
 
             record_value: Any = record_dict[key]
@@ -99,7 +100,9 @@ class JSONLogFormatter(logging.Formatter):
         payload = {
             "@fields": data,
             "msg": self.formatMessage(record),
-            "level": self.LEVELS[record.levelno],
+            "level": self.LEVELS.get(
+                record.levelno, record.levelname.lower(),
+            ),
         }   # type: JSONObjType
 
         if self.datefmt:
-- 
2.43.0


From 1636d5f8a4f57b7efb57d5eaaaf13a2e2afbb353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:57 +0000
Subject: [PATCH 44/45] fix: the hook of unhandled errors failed on pending and
 cancelled futures

---
 aiomisc/log.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aiomisc/log.py b/aiomisc/log.py
index 9851f88..cf29031 100644
--- a/aiomisc/log.py
+++ b/aiomisc/log.py
@@ -163,10 +163,10 @@ class UnhandledLoopHook(aiomisc_log.UnhandledHook):
         )
 
         if exception is None:
-            if future is not None:
-                exception = future.exception()
-            elif task is not None and task.done():
-                exception = task.exception()
+            for fut in (future, task):
+                if fut is not None and fut.done() and not fut.cancelled():
+                    exception = fut.exception()
+                    break
 
         extra = context
         if handle is not None:
-- 
2.43.0


From d466bfb415ebed198cf3c904098a502f448b207e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:53 +0000
Subject: [PATCH 45/45] fix: a process service could not start before logging
 was set up

---
 aiomisc/service/process.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aiomisc/service/process.py b/aiomisc/service/process.py
index ab264eb..4b0d409 100644
--- a/aiomisc/service/process.py
+++ b/aiomisc/service/process.py
@@ -4,7 +4,7 @@ import signal
 from abc import ABC, abstractmethod
 from multiprocessing import Event, Process, synchronize
 from threading import Lock
-from typing import Any, Callable, Dict, Optional
+from typing import Any, Callable, Dict, Optional, Union
 
 from aiomisc.periodic import PeriodicCallback
 from aiomisc.service.base import Service
@@ -16,8 +16,8 @@ log = logging.getLogger(__name__)
 
 def _process_inner(
     function: Callable[..., Any],
-    log_level: str,
-    log_format: str,
+    log_level: Union[int, str],
+    log_format: Union[str, LogFormat],
     start_event: synchronize.Event,
     stop_event: synchronize.Event,
     **kwargs: Any,
@@ -68,7 +68,7 @@ class ProcessService(Service):
             log_format = (
                 LogFormat.default()
                 if LOG_FORMAT is None
-                else LOG_FORMAT.get().value
+                else LOG_FORMAT.get()
             )
 
             process = Process(
-- 
2.43.0

