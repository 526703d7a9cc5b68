From 1d039266342a5517024d0137a35353956c89c996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:28 +0000
Subject: [PATCH 01/14] fix: only remove a cache computation's own in-flight
 marker

A computation left pending on a stopped loop removed the marker of the
loop that took over when it was cancelled later, which allowed a second
concurrent computation and raised KeyError in the one that took over.
---
 aiuti/asyncio.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 2b71748..1e22394 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -435,8 +435,11 @@ def threadsafe_async_cache(
                         # Wake up any waiting tasks
                         event.set()
                         # Allow garbage collection and/or another loop
-                        # to take over caching if this failed
-                        del events[key]
+                        # to take over caching if this failed. If one
+                        # already did because this loop was stopped,
+                        # the registered event isn't this task's.
+                        if events.get(key) == (caching_loop, event):
+                            del events[key]
                 return result
 
             # Need to wait for another task, possibly across threads
-- 
2.43.0


From 4ca38637951088ee38097ef1887f2a647e4613ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:28 +0000
Subject: [PATCH 02/14] fix: don't leak another loop's shutdown to cache
 waiters

The proxy wait running on the caching loop is cancelled when that loop
shuts down, which was raised as CancelledError in callers on other
loops although nobody cancelled them.
---
 aiuti/asyncio.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 1e22394..a2c2aa8 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -460,13 +460,16 @@ def threadsafe_async_cache(
             # wait_for will swallow CancelledErrors if the wrapped task
             # is already finished. This can cause confusion and missed
             # timeouts when there are multiple nested wait_fors.
-            # Shielding and handling the cancellation directly avoids
+            # Waiting and handling the cancellation directly avoids
             # this confusion by preventing this wait_for from seeing
-            # the outer CancelledError directly.
+            # the outer CancelledError directly. Additionally, wait only
+            # raises if this task is cancelled. The waiter itself can
+            # time out or be cancelled by the shutdown of the caching
+            # loop. Either way, need to loop around and check.
             try:
-                await aio.shield(waiter)
-            except aio.TimeoutError:  # Possible original task lost?
-                pass  # Need to loop around and check
+                await aio.wait([waiter])
+                if not waiter.cancelled():
+                    waiter.exception()  # Mark as retrieved
             except (Exception, aio.CancelledError):
                 if not waiter.done():
                     waiter.cancel()
-- 
2.43.0


From 1121ea11220409a4194af2d07002011314e56638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:28 +0000
Subject: [PATCH 03/14] fix: stop the buffer's background task when it is
 cancelled

A cancellation while collecting arguments or running the function was
mistaken for a flush or a failure of the function, so shutting down a
loop with pending arguments hung forever.
---
 aiuti/asyncio.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index a2c2aa8..679fc1a 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -742,11 +742,16 @@ class BufferAsyncCalls(Generic[T]):
                 input_gens.clear()  # Clear processed input generators
             # Now wait for the next arguments to buffer. If this times
             # out or is cancelled, its time to run the function.
+            # Everything is awaited via gather because that only raises
+            # CancelledError when this task itself is cancelled (e.g.
+            # loop shutdown), in which case it must actually stop.
+            await aio.gather(self._getting, return_exceptions=True)
             try:
-                await _load_inputs(await self._getting)
+                iterable = self._getting.result()
             except (aio.TimeoutError, aio.CancelledError):
-                await self._run_func(inputs)
+                await aio.gather(self._run_func(inputs))
             else:
+                await aio.gather(_load_inputs(iterable))
                 self.q.task_done()
 
     async def _run_func(self, inputs: Set[T]) -> None:
-- 
2.43.0


From 7fa3ebb1745df1f939fdb1cd6d0b214366cb63b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:28 +0000
Subject: [PATCH 04/14] fix: isolate batcher callers from each other's
 cancellation

Cancelling one caller cancelled the future shared with other callers of
the same key, failed or hung the rest of its batch with
InvalidStateError and forgot about the request while it was pending.
---
 aiuti/asyncio.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 679fc1a..30f3b68 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -1101,22 +1101,31 @@ class AsyncBackgroundBatcher(Generic[A_contra, R_co]):
         except KeyError:
             pass
         else:
-            return await fut
+            return await aio.shield(fut)
 
         fut = self._retention_cache[key] = self._loop.create_future()
+        # Tied to the future rather than this caller as the caller could
+        # be cancelled long before the request is completed
+        fut.add_done_callback(partial(self._forget, key))
         await self._queue.put((key, arg, fut))
 
-        try:
-            return await fut
-        finally:
-            if self.retention_timeout > 0:
-                self._loop.call_later(
-                    self.retention_timeout,
-                    self._retention_cache.pop,
-                    key,
-                )
-            else:
-                del self._retention_cache[key]
+        # The future can be shared with other callers and is needed by
+        # the batch, so it must not be cancelled along with this caller
+        return await aio.shield(fut)
+
+    def _forget(self, key: str, _fut: 'aio.Future[R_co]') -> None:
+        """
+        Remove the completed request for the given key from the cache
+        once :attr:`retention_timeout` has passed.
+        """
+        if self.retention_timeout > 0:
+            self._loop.call_later(
+                self.retention_timeout,
+                self._retention_cache.pop,
+                key,
+            )
+        else:
+            del self._retention_cache[key]
 
     def _daemon_task(
         self,
-- 
2.43.0


From cf394f47de8bd7a523871178d2e3cc6f33d45cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:28 +0000
Subject: [PATCH 05/14] fix: answer batch callers when the batch function is
 cancelled

CancelledError (or any other BaseException) raised by the batch function
left its callers pending forever.
---
 aiuti/asyncio.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 30f3b68..1796136 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -1212,10 +1212,12 @@ class AsyncBackgroundBatcher(Generic[A_contra, R_co]):
                         fut.set_exception(result)
                     else:
                         fut.set_result(result)
-        except Exception as e:
+        except BaseException as e:
             logger.debug("Exception while processing batch", exc_info=True)
             for fut in futs.values():
                 fut.set_exception(e)
+            if not isinstance(e, Exception):
+                raise  # Cancelled or exiting
             return
 
         if futs:
-- 
2.43.0


From 6db0c9291c14b9a42ec11253a1d59caffe80089c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:28 +0000
Subject: [PATCH 06/14] fix: pass retention_timeout on when
 async_background_batcher is used with options

---
 aiuti/asyncio.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 1796136..ba1f814 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -820,6 +820,7 @@ def async_background_batcher(
     max_batch_size: int = ...,
     max_concurrent_batches: int = ...,
     batch_timeout: float = ...,
+    retention_timeout: float = ...,
 ) -> Callable[
     [_BatchFunc[A_contra, R_co]],
     _AsyncBackgroundBatcherProto[A_contra, R_co],
@@ -833,6 +834,7 @@ def async_background_batcher(
     max_batch_size: int = ...,
     max_concurrent_batches: int = ...,
     batch_timeout: float = ...,
+    retention_timeout: float = ...,
 ) -> _AsyncBackgroundBatcherProto[A_contra, R_co]: ...
 
 
@@ -914,6 +916,7 @@ def async_background_batcher(
             max_batch_size=max_batch_size,
             max_concurrent_batches=max_concurrent_batches,
             batch_timeout=batch_timeout,
+            retention_timeout=retention_timeout,
         )
 
     batchers: 'WeakKeyDict[Loop, AsyncBackgroundBatcher[A_contra, R_co]]' \
-- 
2.43.0


From 74e50b84f1d1efe068b3b40cd59ed33178a941e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:28 +0000
Subject: [PATCH 07/14] fix: only report exceptions which were actually raised
 in gather_excs

---
 aiuti/asyncio.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index ba1f814..237239b 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -97,8 +97,15 @@ async def gather_excs(
     :param only:
         Optional specific type of exceptions to filter on and yield
     """
-    for res in await aio.gather(*aws, return_exceptions=True):
-        if isinstance(res, only):
+    aws = list(aws)
+    # Just like gather(), only schedule duplicate awaitables once
+    futs = {aw: aio.ensure_future(aw) for aw in dict.fromkeys(aws)}
+    ordered = [futs[aw] for aw in aws]
+    results = await aio.gather(*ordered, return_exceptions=True)
+    for fut, res in zip(ordered, results):
+        # Exceptions which were returned instead of raised don't count
+        raised = fut.cancelled() or fut.exception() is not None
+        if raised and isinstance(res, only):
             yield res
 
 
-- 
2.43.0


From 83db8cc9a04fc430cf2f07aac4985115ea20ee4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:28 +0000
Subject: [PATCH 08/14] fix: fully release a nested FileLock when forced

Only one level of the internal RLock was released, so no other thread
could ever acquire the lock again. The lock counter was also left above
zero if the platform lock failed to unlock.
---
 aiuti/filelock.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aiuti/filelock.py b/aiuti/filelock.py
index 11430cd..65fd81f 100644
--- a/aiuti/filelock.py
+++ b/aiuti/filelock.py
@@ -223,8 +223,10 @@ class BaseFileLock(abc.ABC):
             return
 
         self._decrement_lock_counter()
+        levels = 1  # Number of thread lock levels to release
 
         if self._lock_counter == 0 or force:
+            levels += self._lock_counter
             lid = id(self)
             fn = self._lock_file
 
@@ -234,11 +236,12 @@ class BaseFileLock(abc.ABC):
             except:  # noqa
                 _logger.exception("Failed to release lock %s on %s", lid, fn)
             else:
-                self._lock_counter = 0
                 _logger.info('Lock %s released on %s', lid, fn)
+            self._lock_counter = 0
 
         try:
-            self._thread_lock.release()
+            for _ in range(levels):
+                self._thread_lock.release()
         except RuntimeError:  # not reentrant and already unlocked
             pass
 
-- 
2.43.0


From 8cdfc610c1a7ac05467723794955c7b1017c491f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:28 +0000
Subject: [PATCH 09/14] fix: don't enter the with block of a FileLock that
 timed out

The result of acquire() was ignored, so the block ran without holding
the lock and then released it on behalf of another thread.
---
 aiuti/filelock.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aiuti/filelock.py b/aiuti/filelock.py
index 65fd81f..c84f480 100644
--- a/aiuti/filelock.py
+++ b/aiuti/filelock.py
@@ -307,7 +307,8 @@ class BaseFileLock(abc.ABC):
         self._lock_counter = max(0, self._lock_counter - 1)
 
     def __enter__(self: FileLockT) -> FileLockT:
-        self.acquire()
+        if not self.acquire():
+            raise TimeoutError("Failed to acquire file lock:", self._lock_file)
         return self
 
     def __exit__(self, *_exc: Any) -> None:
-- 
2.43.0


From 07568551fc4f4b43a60ef8fa2f8ef67ad048ccc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:28 +0000
Subject: [PATCH 10/14] fix: close the lock file if locking it is interrupted

---
 aiuti/filelock.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/aiuti/filelock.py b/aiuti/filelock.py
index c84f480..abb4100 100644
--- a/aiuti/filelock.py
+++ b/aiuti/filelock.py
@@ -264,6 +264,9 @@ class BaseFileLock(abc.ABC):
             self._lock(fd, block)
         except (IOError, OSError):
             os.close(fd)
+        except:  # noqa
+            os.close(fd)
+            raise
         else:
             self._lock_file_fd = fd
 
-- 
2.43.0


From a65fe38fe263aac17ba43f69843673867eb04c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:44 +0000
Subject: [PATCH 11/14] fix: complete every ensure_aw call sharing an idle
 target loop

A call finding the loop running because another call borrowed it was
left pending forever once that other call was done. The borrowing thread
now keeps running the loop until all of them are.
---
 aiuti/asyncio.py | 58 +++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 48 insertions(+), 10 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 237239b..21a5a16 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -36,7 +36,7 @@ from asyncio import (
 from itertools import islice
 from threading import Lock
 from functools import partial, wraps
-from concurrent.futures import ThreadPoolExecutor
+from concurrent.futures import Future, ThreadPoolExecutor
 from weakref import WeakKeyDictionary as WeakKeyDict, finalize
 from time import sleep
 from typing import (
@@ -1287,18 +1287,52 @@ async def ensure_aw(aw: Awaitable[T], loop: Loop) -> T:
     if main_loop is loop:
         return await aw
 
-    if loop.is_running():
-        return await run_aw_threadsafe(aw, loop)
-
     if loop.is_closed():
         raise RuntimeError("Target loop is closed!")
 
-    def _loop_thread() -> T:
-        with _get_loop_lock(loop):
-            aio.set_event_loop(loop)
-            return loop.run_until_complete(aw)
+    with _BORROWED_LOOPS_LOCK:
+        fut = _run_aw_ts(aw, loop)
+        if loop in _BORROWED_LOOPS:
+            # Make sure the borrowing thread also waits for this one
+            _BORROWED_LOOPS[loop].append(fut)
+        elif not loop.is_running():
+            _CROSS_LOOP_POOL.submit(_run_borrowed_loop, loop)
+            _BORROWED_LOOPS[loop] = [fut]
+
+    return await aio.wrap_future(fut)
 
-    return await main_loop.run_in_executor(_CROSS_LOOP_POOL, _loop_thread)
+
+#: Idle loops that are being run by :func:`ensure_aw` and the futures
+#: that must be completed before they can be left idle again
+_BORROWED_LOOPS: 'Dict[Loop, List[Future[Any]]]' = {}
+_BORROWED_LOOPS_LOCK = Lock()
+
+
+def _run_borrowed_loop(loop: Loop) -> None:
+    """
+    Run the given idle loop until all of the futures registered for it
+    are done, including those added in the meantime.
+    """
+    with _get_loop_lock(loop):
+        aio.set_event_loop(loop)
+        while True:
+            with _BORROWED_LOOPS_LOCK:
+                futs = [f for f in _BORROWED_LOOPS[loop] if not f.done()]
+                if not futs:
+                    del _BORROWED_LOOPS[loop]
+                    return
+                _BORROWED_LOOPS[loop] = futs
+            try:
+                loop.run_until_complete(aio.gather(
+                    *(aio.wrap_future(f, loop=loop) for f in futs),
+                    return_exceptions=True,
+                ))
+            except BaseException as e:  # Loop was stopped or closed
+                with _BORROWED_LOOPS_LOCK:
+                    for f in _BORROWED_LOOPS.pop(loop):
+                        if not f.done():
+                            f.set_exception(e)
+                raise
 
 
 def loop_in_thread(loop: Loop) -> Callable[[], None]:
@@ -1379,8 +1413,12 @@ async def run_aw_threadsafe(aw: Awaitable[T], loop: Loop) -> T:
         This does not handle event loop conflicts.
         Use :func:`ensure_aw` for that.
     """
+    return await aio.wrap_future(_run_aw_ts(aw, loop))
+
+
+def _run_aw_ts(aw: Awaitable[T], loop: Loop) -> 'Future[T]':
     coro = aw if aio.iscoroutine(aw) else _aw_to_coro(aw)
-    return await aio.wrap_future(run_coro_ts(coro, loop))
+    return run_coro_ts(coro, loop)
 
 
 async def _aw_to_coro(aw: Awaitable[T]) -> T:
-- 
2.43.0


From c115b5e6fc495137b83cd5c9773af6b38cfcfd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:45 +0000
Subject: [PATCH 12/14] fix: wait for the loop thread itself in loop_in_thread

When the loop was being run by an ensure_aw call, loop_in_thread
returned early and its stop function stopped the other run, raising
RuntimeError in that call, and never returned. It also never returned
for a closed loop.
---
 aiuti/asyncio.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 21a5a16..13013c6 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -34,7 +34,7 @@ from asyncio import (
     run_coroutine_threadsafe as run_coro_ts,
 )
 from itertools import islice
-from threading import Lock
+from threading import Event, Lock
 from functools import partial, wraps
 from concurrent.futures import Future, ThreadPoolExecutor
 from weakref import WeakKeyDictionary as WeakKeyDict, finalize
@@ -1369,11 +1369,17 @@ def loop_in_thread(loop: Loop) -> Callable[[], None]:
     def _loop_thread() -> None:
         with _get_loop_lock(loop):
             aio.set_event_loop(loop)
+            loop.call_soon(started.set)
             loop.run_forever()
 
+    started = Event()
     future = _CROSS_LOOP_POOL.submit(_loop_thread)
 
-    while not loop.is_running():
+    # The loop could already be running in another thread
+    while not started.is_set():
+        if future.done():
+            future.result()  # Reveal errors, e.g. if the loop is closed
+            break
         sleep(0)  # Force switching to other threads
 
     def _stopper() -> None:
-- 
2.43.0


From ac2b7e84b589b75b117003e4a0bae154ab990ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:51 +0000
Subject: [PATCH 13/14] fix: don't deliver buffered arguments again after a
 successful call

While the function runs in a task of its own, more arguments may clear the
event before the loop condition is checked, so use the outcome of the call.
---
 aiuti/asyncio.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 13013c6..0833c55 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -756,15 +756,18 @@ class BufferAsyncCalls(Generic[T]):
             try:
                 iterable = self._getting.result()
             except (aio.TimeoutError, aio.CancelledError):
-                await aio.gather(self._run_func(inputs))
+                (success,) = await aio.gather(self._run_func(inputs))
+                if success:  # More args may have cleared the event again
+                    break
             else:
                 await aio.gather(_load_inputs(iterable))
                 self.q.task_done()
 
-    async def _run_func(self, inputs: Set[T]) -> None:
+    async def _run_func(self, inputs: Set[T]) -> bool:
         """
         Run :attr:`func` with the given set of inputs and set
-        :attr:`event` once it has finished successfully.
+        :attr:`event` once it has finished successfully. Returns
+        whether it did.
 
         If an exception is raised, log it with its traceback and return
         without setting the event to prevent the buffered inputs from
@@ -775,8 +778,10 @@ class BufferAsyncCalls(Generic[T]):
                 await self.func(inputs)
         except BaseException as e:  # noqa
             logging.exception("Failed to run %s, retrying", self.func)
+            return False
         else:
             self.event.set()
+            return True
 
     def _schedule_with_timeout(self, coro: Awaitable[X]) -> 'aio.Task[X]':
         """
-- 
2.43.0


From 077f98be1543c0c906f574f1acdc6127c3270033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:38 +0000
Subject: [PATCH 14/14] fix: answer batcher callers when the outcome is a
 StopIteration

---
 aiuti/asyncio.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/aiuti/asyncio.py b/aiuti/asyncio.py
index 0833c55..8d77302 100644
--- a/aiuti/asyncio.py
+++ b/aiuti/asyncio.py
@@ -1224,13 +1224,13 @@ class AsyncBackgroundBatcher(Generic[A_contra, R_co]):
                 async for key, result in self.func(args):
                     fut = futs.pop(key)
                     if isinstance(result, Exception):
-                        fut.set_exception(result)
+                        fut.set_exception(_storable(result))
                     else:
                         fut.set_result(result)
         except BaseException as e:
             logger.debug("Exception while processing batch", exc_info=True)
             for fut in futs.values():
-                fut.set_exception(e)
+                fut.set_exception(_storable(e))
             if not isinstance(e, Exception):
                 raise  # Cancelled or exiting
             return
@@ -1432,6 +1432,15 @@ def _run_aw_ts(aw: Awaitable[T], loop: Loop) -> 'Future[T]':
     return run_coro_ts(coro, loop)
 
 
+def _storable(exc: BaseException) -> BaseException:
+    """Futures reject StopIteration, replace it like a coroutine does."""
+    if isinstance(exc, StopIteration):
+        error = RuntimeError("batch function raised StopIteration")
+        error.__cause__ = exc
+        return error
+    return exc
+
+
 async def _aw_to_coro(aw: Awaitable[T]) -> T:
     """Wrap a given awaitable so it appears as a coroutine."""
     return await aw
-- 
2.43.0

