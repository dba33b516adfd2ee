From 2b3ef3abd52de658ff7c715f69e820cd77aeb781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:18 +0000
Subject: [PATCH 001/176] fix: Task.cancel_with lost the cancellation if the
 waited future was already done

---
 scarletio/core/traps/task.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scarletio/core/traps/task.py b/scarletio/core/traps/task.py
index 34f6ee7..e9ad4be 100755
--- a/scarletio/core/traps/task.py
+++ b/scarletio/core/traps/task.py
@@ -147,8 +147,11 @@ class Task(Future):
                 )
             
             waited_future = self._waited_future
-            if (waited_future is None) or waited_future.cancel():
-                state |= FUTURE_STATE_CANCELLING_SELF
+            if (waited_future is not None):
+                waited_future.cancel()
+            
+            # Even if the waited future is already done we still have to cancel ourselves with our wake up.
+            state |= FUTURE_STATE_CANCELLING_SELF
             
             self._result = exception
             result = 1
-- 
2.43.0


From 86cb57e74475a78a0b2f9729684f0e7478d3acf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:50 +0000
Subject: [PATCH 002/176] fix: acquiring a lock that is cancelled when the lock
 is just released left the lock locked forever

---
 scarletio/core/traps/locks.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scarletio/core/traps/locks.py b/scarletio/core/traps/locks.py
index 2ebe9d5..b084487 100755
--- a/scarletio/core/traps/locks.py
+++ b/scarletio/core/traps/locks.py
@@ -72,7 +72,8 @@ class Lock:
                 try:
                     waiters.remove(waiter)
                 except ValueError:
-                    pass
+                    # The waiter was released meanwhile, so the lock is already ours. Pass it on.
+                    self.release()
                 
                 raise
     
@@ -217,7 +218,8 @@ class ScarletLock(Lock):
                 try:
                     waiters.remove(waiter)
                 except ValueError:
-                    pass
+                    # The waiter was released meanwhile, so the lock is already ours. Pass it on.
+                    self.release()
                 
                 raise
     
-- 
2.43.0


From 5aad22c07178982d93db0385ce3f07bd82041eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:50 +0000
Subject: [PATCH 003/176] fix: cancelling a task awaiting a lock to be free
 cancelled the ones acquiring it too

---
 scarletio/core/traps/locks.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scarletio/core/traps/locks.py b/scarletio/core/traps/locks.py
index b084487..ed05fd4 100755
--- a/scarletio/core/traps/locks.py
+++ b/scarletio/core/traps/locks.py
@@ -112,7 +112,10 @@ class Lock:
         """
         waiters = self._waiters
         while waiters:
-            yield from waiters[0]
+            # Do not wait on the waiter directly, since if we are cancelled, we would cancel it for everyone else too.
+            future = Future(self._loop)
+            waiters[0].add_done_callback(future.set_result_if_pending)
+            yield from future
     
     __await__ = __iter__
     
-- 
2.43.0


From 057bae736fe669645244764cf8e50e4a173e0a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 004/176] fix: AsyncQueue lost elements and wake-ups on
 cancellation, on multiple getters and on not awaited gets

---
 scarletio/core/traps/queues.py | 356 ++++++++++++++++-----------------
 1 file changed, 171 insertions(+), 185 deletions(-)

diff --git a/scarletio/core/traps/queues.py b/scarletio/core/traps/queues.py
index 60b24c0..2a03838 100755
--- a/scarletio/core/traps/queues.py
+++ b/scarletio/core/traps/queues.py
@@ -31,13 +31,13 @@ class AsyncQueue:
         The results of the queue, which can be retrieved by ``.result``, ``.result_no_wait``, or by awaiting it.
     
     _set_result_waiters : `None`, `list` of ``Future``
-        Result setter waiters for the queue to become empty.
+        Result setter waiters for the queue to have room.
     
-    _waiter : ``None | Future``
-        If the queue is empty and it's result is already waited, then this future is set. It's result is set, by the
-        first ``.set_result``, ``.set_exception`` call.
+    _waiters : `None`, `list` of ``Future``
+        If the queue is empty and it's result is already waited, then each getter has its own future here. Every
+        ``.set_result`` call wakes up one of them, ``.set_exception`` wakes up all.
     """
-    __slots__ = ('_exception', '_loop', '_results', '_set_result_waiters', '_waiter',)
+    __slots__ = ('_exception', '_loop', '_results', '_set_result_waiters', '_waiters',)
     
     def __new__(cls, loop, iterable = None, max_length = None, exception = None):
         """
@@ -76,16 +76,69 @@ class AsyncQueue:
         self = object.__new__(cls)
         self._loop = loop
         self._results = results
-        self._waiter = None
+        self._waiters = None
         self._exception = exception
         self._set_result_waiters = None
         return self
     
     
+    def _has_room(self):
+        """
+        Returns whether the queue has room for at least one more element.
+        
+        Returns
+        -------
+        has_room : `bool`
+        """
+        results = self._results
+        max_length = results.maxlen
+        return (max_length is None) or (len(results) < max_length)
+    
+    
+    def _push_result(self, element):
+        """
+        Puts the given `element` on the queue, which must have room for it, and wakes up a getter.
+        
+        Parameters
+        ----------
+        element : `object`
+            The object to put on the queue.
+        """
+        self._results.append(element)
+        self._wake_up_waiter()
+    
+    
+    def _pop_result(self):
+        """
+        Removes the next element of the queue, which must not be empty, and lets a result setter in.
+        
+        Returns
+        -------
+        element : `object`
+        """
+        element = self._results.popleft()
+        self._poll_from_set_result_waiters()
+        return element
+    
+    
+    def _wake_up_waiter(self):
+        """
+        Wakes up one getter.
+        """
+        waiters = self._waiters
+        if (waiters is not None):
+            while waiters:
+                if waiters.pop(0).set_result_if_pending(None):
+                    break
+            
+            if not waiters:
+                self._waiters = None
+    
+    
     def set_result(self, element):
         """
-        Puts the given `element` on the queue. If the queue is empty and it's result is already waited, feeds it to
-        ``._waiter`` instead.
+        Puts the given `element` on the queue. If the queue is empty and it's result is already waited, wakes up a
+        getter too.
         
         Parameters
         ----------
@@ -98,21 +151,11 @@ class AsyncQueue:
             If the result was set instantly, return `0`. If the result was not set, returns `1`.
         """
         # should we raise InvalidStateError?
-        waiter = self._waiter
-        if waiter is None:
-            results = self._results
-            max_length = results.maxlen
-            if (max_length is None) or (len(results) < max_length):
-                results.append(element)
-                set_result = 0
-            else:
-                set_result = 1
-        else:
-            self._waiter = None
-            waiter.set_result_if_pending(element)
-            set_result = 0
+        if not self._has_room():
+            return 1
         
-        return set_result
+        self._push_result(element)
+        return 0
     
     
     async def set_result_wait(self, element):
@@ -132,55 +175,53 @@ class AsyncQueue:
             If the result was set instantly, return `0`. If the result was not set, returns `1`. If you needed to wait
             for setting the result, returns `2`.
         """
-        waiter = self._waiter
-        if waiter is None:
-            results = self._results
-            max_length = results.maxlen
-            if (max_length is None) or (len(results) < max_length):
-                results.append(element)
-                set_result = 0
+        set_result = 0
+        
+        while not self._has_room():
+            set_result_waiters = self._set_result_waiters
+            if (set_result_waiters is None):
+                set_result_waiters = []
+                self._set_result_waiters = set_result_waiters
+            
+            waiter = Future(self._loop)
+            
+            if set_result:
+                # Someone took the room before us, keep our place.
+                set_result_waiters.insert(0, waiter)
             else:
-                set_result_waiters = self._set_result_waiters
-                if (set_result_waiters is None):
-                    set_result_waiters = []
-                    self._set_result_waiters = set_result_waiters
-                
-                waiter = Future(self._loop)
-                
                 set_result_waiters.append(waiter)
-                
+            
+            try:
+                can_set_result = await waiter
+            except:
                 try:
-                    can_set_result = await waiter
-                except:
-                    try:
-                        set_result_waiters.remove(waiter)
-                    except ValueError:
-                        pass
-                    else:
-                        if not set_result_waiters:
-                            self._set_result_waiters = None
-                    
-                    raise
-                
+                    set_result_waiters.remove(waiter)
+                except ValueError:
+                    # We were let in already, let in someone else.
+                    if self._has_room():
+                        self._poll_from_set_result_waiters()
                 else:
-                    if can_set_result:
-                        results.append(element)
-                        set_result = 2
-                    else:
-                        set_result = 1
+                    if (not set_result_waiters) and (self._set_result_waiters is set_result_waiters):
+                        self._set_result_waiters = None
                 
-        else:
-            self._waiter = None
-            waiter.set_result_if_pending(element)
-            set_result = 0
+                raise
+            
+            if not can_set_result:
+                return 1
+            
+            set_result = 2
+            
+            if (self._exception is not None) and (not self._has_room()):
+                return 1
         
+        self._push_result(element)
         return set_result
     
     
     def set_exception(self, exception):
         """
         Sets the given `exception` to raise, when it's queue gets empty. If the queue is empty and it's result is
-        already waited, feeds it to ``._waiter`` instead.
+        already waited, wakes up the getters.
         
         Parameters
         ----------
@@ -203,10 +244,12 @@ class AsyncQueue:
         
         self._exception = exception
         
-        waiter = self._waiter
-        if (waiter is not None):
-            self._waiter = None
-            waiter.set_exception_if_pending(exception)
+        waiters = self._waiters
+        if (waiters is not None):
+            self._waiters = None
+            
+            while waiters:
+                waiters.pop(0).set_result_if_pending(None)
         
         # cancel all waiters
         set_result_waiters = self._set_result_waiters
@@ -235,22 +278,43 @@ class AsyncQueue:
             Exception set to the queue, to raise when it is empty.
         """
         results = self._results
-        if results:
-            return results.popleft()
+        is_first = True
         
-        exception = self._exception
-        if exception is not None:
-            raise exception
-        
-        waiter = self._waiter
-        if waiter is None:
+        while not results:
+            exception = self._exception
+            if exception is not None:
+                raise exception
+            
+            waiters = self._waiters
+            if waiters is None:
+                waiters = []
+                self._waiters = waiters
+            
             waiter = Future(self._loop)
-            self._waiter = waiter
+            
+            if is_first:
+                is_first = False
+                waiters.append(waiter)
+            else:
+                # Someone took the element before us, keep our place.
+                waiters.insert(0, waiter)
+            
+            try:
+                yield from waiter
+            except:
+                try:
+                    waiters.remove(waiter)
+                except ValueError:
+                    # We were woken up already, wake up someone else.
+                    if results:
+                        self._wake_up_waiter()
+                else:
+                    if (not waiters) and (self._waiters is waiters):
+                        self._waiters = None
+                
+                raise
         
-        try:
-            return (yield from waiter)
-        finally:
-            self._poll_from_set_result_waiters()
+        return self._pop_result()
     
     get_result = to_coroutine(copy_func(__await__))
     
@@ -265,15 +329,12 @@ class AsyncQueue:
         """
         set_result_waiters = self._set_result_waiters
         if (set_result_waiters is not None):
-            while True:
-                set_result = set_result_waiters.pop(0).set_result_if_pending(True)
-                
-                if (not set_result_waiters):
-                    self._set_result_waiters = None
-                    break
-                
-                if set_result == 1:
+            while set_result_waiters:
+                if set_result_waiters.pop(0).set_result_if_pending(True):
                     break
+            
+            if (not set_result_waiters):
+                self._set_result_waiters = None
     
     
     def get_result_no_wait(self):
@@ -294,11 +355,8 @@ class AsyncQueue:
         BaseException
             Exception set to the queue, to raise when it is empty.
         """
-        results = self._results
-        if results:
-            result = results.popleft()
-            self._poll_from_set_result_waiters()
-            return result
+        if self._results:
+            return self._pop_result()
         
         exception = self._exception
         if exception is None:
@@ -382,28 +440,14 @@ class AsyncQueue:
         BaseException
             Exception set to the queue, to raise when it is empty.
         """
-        results = self._results
-        if results:
-            result = results.popleft()
-            self._poll_from_set_result_waiters()
-            return result
-        
-        exception = self._exception
-        if exception is not None:
-            if type(exception) is CancelledError:
-                raise StopAsyncIteration from CancelledError
-            
-            raise exception
-        
-        waiter = self._waiter
-        if waiter is None:
-            waiter = Future(self._loop)
-            self._waiter = waiter
-        
         try:
-            return (await waiter)
+            return (await self)
         except CancelledError as err:
-            raise StopAsyncIteration from err
+            # Only stop if it is the exception of the queue and not the cancellation of the task awaiting it.
+            if (not self._results) and (err is self._exception):
+                raise StopAsyncIteration from err
+            
+            raise
     
     # deque operations
     
@@ -423,7 +467,13 @@ class AsyncQueue:
         """
         Clears the queue's results.
         """
-        self._results.clear()
+        results = self._results
+        removed = len(results)
+        results.clear()
+        
+        while removed:
+            removed -= 1
+            self._poll_from_set_result_waiters()
     
     
     def copy(self):
@@ -438,7 +488,7 @@ class AsyncQueue:
         
         new._loop = self._loop
         new._results = self._results.copy()
-        new._waiter = None
+        new._waiters = None
         new._exception = self._exception
         new._set_result_waiters = None
         
@@ -457,20 +507,6 @@ class AsyncQueue:
         Returns the queue's actual length.
         """
         return len(self._results)
-    
-    
-    if __debug__:
-        def __del__(self):
-            """
-            If the queue has ``_waiter`` set, silences it.
-            
-            Notes
-            -----
-            This function is only present, when `__debug__` is set as `True`.
-            """
-            waiter = self._waiter
-            if waiter is not None:
-                waiter.silence()
 
 
 class AsyncLifoQueue(AsyncQueue):
@@ -488,66 +524,16 @@ class AsyncLifoQueue(AsyncQueue):
         The loop to what the queue is bound to.
     _results : `deque`
         The results of the queue, which can be retrieved by ``.result``, ``.result_no_wait``, or by awaiting it.
-    _waiter : ``None | Future``
-        If the queue is empty and it's result is already waited, then this future is set. It's result is set, by the
-        first ``.set_result``, ``.set_exception`` call.
+    _set_result_waiters : `None`, `list` of ``Future``
+        Result setter waiters for the queue to have room.
+    _waiters : `None`, `list` of ``Future``
+        If the queue is empty and it's result is already waited, then each getter has its own future here. Every
+        ``.set_result`` call wakes up one of them, ``.set_exception`` wakes up all.
     """
     __slots__ = ()
     
-    @copy_docs(AsyncQueue.__await__)
-    def __await__(self):
-        results = self._results
-        if results:
-            return results.pop()
-        
-        exception = self._exception
-        if exception is not None:
-            raise exception
-        
-        waiter = self._waiter
-        if waiter is None:
-            waiter = Future(self._loop)
-            self._waiter = waiter
-        
-        return (yield from waiter)
-    
-    @copy_docs(AsyncQueue.result_no_wait)
-    def get_result_no_wait(self):
-        results = self._results
-        if results:
-            return results.pop()
-        
-        exception = self._exception
-        if exception is None:
-            raise IndexError('The queue is empty')
-        
-        raise exception
-    
-    
-    @property
-    def result_no_wait(self):
-        return self.get_result_no_wait
-    
-    
-    @copy_docs(AsyncQueue.__anext__)
-    async def __anext__(self):
-        results = self._results
-        if results:
-            return results.pop()
-        
-        exception = self._exception
-        if exception is not None:
-            if type(exception) is CancelledError:
-                raise StopAsyncIteration from CancelledError
-            
-            raise exception
-        
-        waiter = self._waiter
-        if waiter is None:
-            waiter = Future(self._loop)
-            self._waiter = waiter
-        
-        try:
-            return (await waiter)
-        except CancelledError as err:
-            raise StopAsyncIteration from err
+    @copy_docs(AsyncQueue._pop_result)
+    def _pop_result(self):
+        element = self._results.pop()
+        self._poll_from_set_result_waiters()
+        return element
-- 
2.43.0


From 5aa5f80577e0b9d4020e2f95d49727a95074473d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:11 +0000
Subject: [PATCH 005/176] fix: TaskGroup lost a future popped for an already
 cancelled waiter

---
 scarletio/core/traps/task_group.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scarletio/core/traps/task_group.py b/scarletio/core/traps/task_group.py
index 01806fa..f71076a 100755
--- a/scarletio/core/traps/task_group.py
+++ b/scarletio/core/traps/task_group.py
@@ -459,6 +459,10 @@ class TaskGroup(RichAttributeErrorBaseType):
         should_add_to_done = 1
         
         for waiter, handler in self.waiters.items():
+            # The waiter might be cancelled already, but not yet removed.
+            if waiter.is_done():
+                continue
+            
             try:
                 should_add_to_done &= handler.send(future)
             except StopIteration as err:
-- 
2.43.0


From f6b3db13a328778fda4c5bad1b06d3490be88e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:11 +0000
Subject: [PATCH 006/176] fix: TaskGroupContextManager.__repr__ raised
 AttributeError

---
 scarletio/core/traps/task_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/core/traps/task_group.py b/scarletio/core/traps/task_group.py
index f71076a..e338b58 100755
--- a/scarletio/core/traps/task_group.py
+++ b/scarletio/core/traps/task_group.py
@@ -99,7 +99,7 @@ class TaskGroupContextManager(RichAttributeErrorBaseType):
     
     def __repr__(self):
         """Returns the task group context manager representation."""
-        return f'<{type(self).__name__} task_group = {self.taskk_group}, leaver = {self.leaver.__name__}>'
+        return f'<{type(self).__name__} task_group = {self.task_group}, leaver = {self.leaver.__name__}>'
 
 
 def _handler_wait_next():
-- 
2.43.0


From 8a4c60d475781c7e09df57e62314865e572cf385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:03 +0000
Subject: [PATCH 007/176] fix: ScarletExecutor lost exceptions and
 cancellations, and left its tasks running if cancelled while exiting

---
 scarletio/core/traps/async_executing.py | 126 ++++++++++--------------
 1 file changed, 51 insertions(+), 75 deletions(-)

diff --git a/scarletio/core/traps/async_executing.py b/scarletio/core/traps/async_executing.py
index daff54f..e079a00 100755
--- a/scarletio/core/traps/async_executing.py
+++ b/scarletio/core/traps/async_executing.py
@@ -39,7 +39,13 @@ def _scarlet_executor_callback(parent_reference, future):
     
     active = parent._active
     
-    active.discard(future)
+    try:
+        active.remove(future)
+    except KeyError:
+        # The executor was left since, we only retrieve the result.
+        is_active = False
+    else:
+        is_active = True
     
     try:
         future.get_result()
@@ -47,13 +53,13 @@ def _scarlet_executor_callback(parent_reference, future):
         pass
     
     except BaseException as err:
-        exception = parent._exception
-        if exception is None:
+        if is_active and (parent._exception is None):
             parent._exception = err
     
-    waiter = parent._waiter
-    if (waiter is not None):
-        waiter.set_result_if_pending(None)
+    if is_active:
+        waiter = parent._waiter
+        if (waiter is not None):
+            waiter.set_result_if_pending(None)
 
 
 class ScarletExecutor:
@@ -309,30 +315,31 @@ class ScarletExecutor:
         active = self._active
         active.add(future)
         
-        waiter = self._waiter
-        
-        if waiter is None:
-            waiter = Future(self._loop)
-            self._waiter = waiter
-        
-        else:
-            if waiter.is_done():
-                if self._exception is None:
-                    waiter = Future(self._loop)
-                    self._waiter = waiter
-                else:
-                    raise CancelledError
-        
         limit = self._limit
-        while len(active) >= limit:
-            await waiter
+        while True:
             if (self._exception is not None):
                 raise CancelledError
             
+            if len(active) < limit:
+                break
+            
+            await self._get_waiter()
+    
+    
+    def _get_waiter(self):
+        """
+        Returns the waiter of the executor, which is done when the next active task is finished.
+        
+        Returns
+        -------
+        waiter : ``Future``
+        """
+        waiter = self._waiter
+        if (waiter is None) or waiter.is_done():
             waiter = Future(self._loop)
             self._waiter = waiter
-            
-            break
+        
+        return waiter
     
     
     async def __aexit__(self, exception_type, exception_value, exception_traceback):
@@ -344,65 +351,34 @@ class ScarletExecutor:
         
         This method is a coroutine.
         """
-        if exception_type is None:
-            active = self._active
-            
-            while active:
-                waiter = self._waiter
-                if waiter is None:
-                    waiter = Future(self._loop)
-                    self._waiter = waiter
-                
-                await waiter
-                
-                exception = self._exception
-                if exception is None:
-                    waiter = Future(self._loop)
-                    self._waiter = waiter
-                    continue
-                
-                self._callback = None
-                
-                self._waiter = None
-                self._loop = None
-                self._exception = None
-                
-                for future in active:
-                    future.cancel()
-                
-                active.clear()
-                
-                raise exception
+        active = self._active
+        
+        try:
+            if exception_type is None:
+                while active and (self._exception is None):
+                    await self._get_waiter()
+        
+        finally:
+            # We can get here by being cancelled as well.
+            exception = self._exception
             
             self._callback = None
             
             self._waiter = None
             self._loop = None
             self._exception = None
-            return False
-        
-        active = self._active
-        for future in active:
-            future.cancel()
-        
-        active.clear()
-        
-        exception = self._exception
-        
-        self._callback = None
-        
-        self._waiter = None
-        self._loop = None
-        self._exception = None
+            
+            futures = [*active]
+            active.clear()
+            
+            for future in futures:
+                future.cancel()
         
-        if exception is None:
-            if exception_type is CancelledError:
-                return True
-            else:
-                return False
-        else:
+        if (exception is not None):
             raise exception
-
+        
+        return False
+    
     
     def __repr__(self):
         """Returns the scarlet executor's representation."""
-- 
2.43.0


From 67cb5775bc87ce056e65e170fed59fe8574b0055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:14 +0000
Subject: [PATCH 008/176] fix: Cycler could not be cancelled, rescheduled or
 modified from its own functions, neither when created from an other thread

---
 scarletio/core/event_loop/cycler.py | 41 ++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/scarletio/core/event_loop/cycler.py b/scarletio/core/event_loop/cycler.py
index 372f957..a8efd00 100755
--- a/scarletio/core/event_loop/cycler.py
+++ b/scarletio/core/event_loop/cycler.py
@@ -7,6 +7,8 @@ from ...utils import CallableAnalyzer, include
 from ..time import LOOP_TIME
 from ..traps import Task
 
+from .handles import TimerHandle
+
 
 write_exception_async = include('write_exception_async')
 
@@ -238,19 +240,41 @@ class Cycler:
         self.funcs = validated_funcs
         self.cycle_time = cycle_time
         if current_thread() is loop:
-            handle = loop.call_after(cycle_time, cls._run, self)
+            self.handle = loop.call_after(cycle_time, cls._run, self)
         else:
-            handle = loop.call_soon_thread_safe_lazy(type(loop).call_after, loop, cycle_time, cls._run, self)
-        
-        self.handle = handle
+            # Not scheduled on the loop, replaced when the loop gets to it.
+            handle = TimerHandle(LOOP_TIME() + cycle_time, cls._run, (self,))
+            self.handle = handle
+            loop.call_soon_thread_safe_lazy(cls._start, self, handle)
         
         return self
     
+    
+    def _start(self, handle):
+        """
+        Starts the cycler if it was created outside of its event loop.
+        
+        This method always runs on the cycler's event loop.
+        
+        Parameters
+        ----------
+        handle : ``TimerHandle``
+            The handle the cycler was created with.
+        """
+        # Might be cancelled or rescheduled since.
+        if self.handle is handle:
+            self.handle = self.loop.call_at(handle.when, type(self)._run, self)
+    
     def _run(self):
         """
         Runs all the functions added to the cycler.
         """
-        for func in self.funcs:
+        # Schedule the next cycle before calling anything, so it can be cancelled or rescheduled from inside of it.
+        handle = self.loop.call_after(self.cycle_time, type(self)._run, self)
+        self.handle = handle
+        
+        # The functions might be modified meanwhile.
+        for func in [*self.funcs]:
             try:
                 result = func.func(self)
                 if func.is_async:
@@ -267,7 +291,12 @@ class Cycler:
                     loop = self.loop,
                 )
         
-        self.handle = self.loop.call_after(self.cycle_time, type(self)._run, self)
+        if self.handle is handle:
+            # The cycle time might be modified meanwhile & is counted since the end of the cycle.
+            if (handle is not None):
+                handle.cancel()
+            
+            self.handle = self.loop.call_after(self.cycle_time, type(self)._run, self)
     
     def __repr__(self):
         """Returns the cycler's representation."""
-- 
2.43.0


From 6b38b44127ba0725636d41418d62e015ce8c8c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:14 +0000
Subject: [PATCH 009/176] fix: CyclerCallable ordering compared the priority of
 the other with itself

---
 scarletio/core/event_loop/cycler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scarletio/core/event_loop/cycler.py b/scarletio/core/event_loop/cycler.py
index a8efd00..e9f1a78 100755
--- a/scarletio/core/event_loop/cycler.py
+++ b/scarletio/core/event_loop/cycler.py
@@ -101,7 +101,7 @@ class CyclerCallable:
         if self_priority > other_priority:
             return True
         
-        if other_priority == other_priority:
+        if self_priority == other_priority:
             if self.func == other.func:
                 return True
         
@@ -136,7 +136,7 @@ class CyclerCallable:
         if self_priority < other_priority:
             return True
         
-        if other_priority == other_priority:
+        if self_priority == other_priority:
             if self.func == other.func:
                 return True
         
-- 
2.43.0


From 9c91cce936a77ec4def1afd5a30cfcb9102fed8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:16 +0000
Subject: [PATCH 010/176] fix: starting an event loop from more threads at the
 same time lost calls or failed

---
 scarletio/core/event_loop/event_loop.py        | 18 ++++++++++--------
 .../event_loop_functionality_helpers.py        |  3 ++-
 scarletio/core/event_loop/event_thread_type.py |  7 +++++--
 3 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/scarletio/core/event_loop/event_loop.py b/scarletio/core/event_loop/event_loop.py
index f5a45bb..88f4722 100755
--- a/scarletio/core/event_loop/event_loop.py
+++ b/scarletio/core/event_loop/event_loop.py
@@ -176,10 +176,10 @@ class EventThread(Executor, Thread, metaclass = EventThreadType):
         Returns
         -------
         started : `bool`
-            Whether the thread was started up.
+            Whether the thread was started up. Also true if an other thread started it just now.
         """
         if self.is_started():
-            return False
+            return self.running
         
         self._do_start()
         return True
@@ -196,12 +196,14 @@ class EventThread(Executor, Thread, metaclass = EventThreadType):
         if thread_waiter is None:
             return
         
-        if not self._started.is_set():
-            try:
-                Thread.start(self)
-            except:
-                thread_waiter.set()
-                raise
+        # More threads might want to start it at the same time.
+        with self.context.start_lock:
+            if not self._started.is_set():
+                try:
+                    Thread.start(self)
+                except:
+                    thread_waiter.set()
+                    raise
         
         thread_waiter.wait()
     
diff --git a/scarletio/core/event_loop/event_loop_functionality_helpers.py b/scarletio/core/event_loop/event_loop_functionality_helpers.py
index de6238c..d56ad77 100755
--- a/scarletio/core/event_loop/event_loop_functionality_helpers.py
+++ b/scarletio/core/event_loop/event_loop_functionality_helpers.py
@@ -151,7 +151,8 @@ class EventThreadRunDescriptor:
             return obj.caller
         
         if not obj.started:
-            if obj._started.is_set():
+            # The thread itself runs it, while any other thread just starts it up (or waits till it is started up).
+            if current_thread() is obj:
                 obj.started = True
                 return obj.runner
             else:
diff --git a/scarletio/core/event_loop/event_thread_type.py b/scarletio/core/event_loop/event_thread_type.py
index 6e4ecf3..1c0b217 100755
--- a/scarletio/core/event_loop/event_thread_type.py
+++ b/scarletio/core/event_loop/event_thread_type.py
@@ -2,7 +2,7 @@ __all__ = ()
 
 import threading
 from socket import socketpair as create_socket_pair
-from threading import Event as SyncEvent, Thread, current_thread
+from threading import Event as SyncEvent, Lock as SyncLock, Thread, current_thread
 
 from ...utils import ignore_frame
 
@@ -18,12 +18,14 @@ class EventThreadContextManager:
     
     Attributes
     ----------
+    start_lock : `threading.Lock`
+        Lock to allow only one thread to start the event loop.
     thread : `None`, ``EventThread``
         The wrapped event loop.
     thread_waiter : `None`, `threading.Event`
        Threading event, what is set, when the thread is started up. Set as `None` after set.
     """
-    __slots__ = ('thread', 'thread_waiter',)
+    __slots__ = ('start_lock', 'thread', 'thread_waiter',)
     
     
     def __new__(cls, thread):
@@ -43,6 +45,7 @@ class EventThreadContextManager:
             Threading event, what is set, when the thread is started up.
         """
         self = object.__new__(cls)
+        self.start_lock = SyncLock()
         self.thread = thread
         self.thread_waiter = SyncEvent()
         return self
-- 
2.43.0


From 44f8ad953cb5630d2b82146fab8383e52237f8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:16 +0000
Subject: [PATCH 011/176] fix: waiting for and cancelling futures from an other
 thread raced with their completion and could wait forever

---
 scarletio/core/event_loop/event_loop.py | 11 ++--
 scarletio/core/traps/future.py          | 64 ++++++++++++----------
 scarletio/core/traps/task.py            | 71 ++++++++++++-------------
 3 files changed, 78 insertions(+), 68 deletions(-)

diff --git a/scarletio/core/event_loop/event_loop.py b/scarletio/core/event_loop/event_loop.py
index 88f4722..802cd17 100755
--- a/scarletio/core/event_loop/event_loop.py
+++ b/scarletio/core/event_loop/event_loop.py
@@ -487,9 +487,14 @@ class EventThread(Executor, Thread, metaclass = EventThreadType):
                 callbacks.clear()
                 return
         
-        while callbacks:
-            handle = Handle(callbacks.pop(), (future,))
-            self._ready.append(handle)
+        while True:
+            # An other thread might schedule or remove callbacks as well, so use one atomic operation for each.
+            try:
+                callback = callbacks.pop()
+            except IndexError:
+                break
+            
+            self._ready.append(Handle(callback, (future,)))
     
     
     def create_future(self):
diff --git a/scarletio/core/traps/future.py b/scarletio/core/traps/future.py
index 3a896f6..553d0c8 100755
--- a/scarletio/core/traps/future.py
+++ b/scarletio/core/traps/future.py
@@ -125,15 +125,12 @@ class Future:
         state = self._state
         
         if state & FUTURE_STATE_MASK_DONE:
-            state |= FUTURE_STATE_SILENCED
-            result = 0
-        else:
-            state |= FUTURE_STATE_CANCELLED
-            result = 1
-            self._loop._schedule_callbacks(self)
+            self._state = state | FUTURE_STATE_SILENCED
+            return 0
         
-        self._state = state
-        return result
+        self._state = state | FUTURE_STATE_CANCELLED
+        self._loop._schedule_callbacks(self)
+        return 1
     
     
     def cancel_with(self, exception):
@@ -148,26 +145,22 @@ class Future:
         state = self._state
         
         if state & FUTURE_STATE_MASK_DONE:
-            state |= FUTURE_STATE_SILENCED
-            result = 0
+            self._state = state | FUTURE_STATE_SILENCED
+            return 0
         
-        else:
-            if isinstance(exception, type):
-                exception = exception()
-            
-            if isinstance(exception, StopIteration):
-                raise TypeError(
-                    f'{exception!r} cannot be raised to a(n) `{type(self).__name__}`; {self!r}.'
-                )
-            
-            state |= FUTURE_STATE_CANCELLED | FUTURE_STATE_RESULT_RAISE
-            self._result = exception
-            self._loop._schedule_callbacks(self)
-            result = 1
+        if isinstance(exception, type):
+            exception = exception()
         
-        self._state = state
-        return result
+        if isinstance(exception, StopIteration):
+            raise TypeError(
+                f'{exception!r} cannot be raised to a(n) `{type(self).__name__}`; {self!r}.'
+            )
         
+        self._result = exception
+        self._state = state | FUTURE_STATE_CANCELLED | FUTURE_STATE_RESULT_RAISE
+        self._loop._schedule_callbacks(self)
+        return 1
+    
     
     def silence(self):
         """
@@ -359,6 +352,10 @@ class Future:
             self._loop.call_soon(func, self)
         else:
             self._callbacks.append(func)
+            
+            # The future might have been completed from an other thread since.
+            if self._state & FUTURE_STATE_MASK_DONE:
+                self._loop._schedule_callbacks(self)
     
     
     def remove_done_callback(self, func):
@@ -380,9 +377,22 @@ class Future:
         index = len(callbacks)
         while index:
             index -= 1
-            if callbacks[index] is func:
-                del callbacks[index]
+            
+            # An other thread might modify the callbacks at the same time, so look out for what we are removing.
+            try:
+                if callbacks[index] is not func:
+                    continue
+                
+                callback = callbacks.pop(index)
+            except IndexError:
+                continue
+            
+            if callback is func:
                 count += 1
+                continue
+            
+            self.add_done_callback(callback)
+            index = len(callbacks)
         
         return count
     
diff --git a/scarletio/core/traps/task.py b/scarletio/core/traps/task.py
index e9ad4be..9b63cc4 100755
--- a/scarletio/core/traps/task.py
+++ b/scarletio/core/traps/task.py
@@ -114,50 +114,46 @@ class Task(Future):
     
     @copy_docs(Future.cancel)
     def cancel(self):
-        state = self._state
+        if self._state & FUTURE_STATE_MASK_DONE:
+            self._state |= FUTURE_STATE_SILENCED
+            return 0
         
-        if state & FUTURE_STATE_MASK_DONE:
-            state |= FUTURE_STATE_SILENCED
-            result = 0
-        else:
-            waited_future = self._waited_future
-            if (waited_future is None) or (not waited_future.cancel()):
-                state |= FUTURE_STATE_CANCELLING_SELF
+        waited_future = self._waited_future
+        if (waited_future is None) or (not waited_future.cancel()):
+            self._state |= FUTURE_STATE_CANCELLING_SELF
             
-            result = 1
+            # If we are called from an other thread the task might have started to wait on something since.
+            if (waited_future is None):
+                waited_future = self._waited_future
+                if (waited_future is not None) and waited_future.cancel():
+                    self._state &= ~FUTURE_STATE_CANCELLING_SELF
         
-        self._state = state
-        return result
+        return 1
     
     
     @copy_docs(Future.cancel_with)
     def cancel_with(self, exception):
-        state = self._state
-        if state & FUTURE_STATE_MASK_DONE:
-            state |= FUTURE_STATE_SILENCED
-            result = 0
+        if self._state & FUTURE_STATE_MASK_DONE:
+            self._state |= FUTURE_STATE_SILENCED
+            return 0
         
-        else:
-            if isinstance(exception, type):
-                exception = exception()
-            
-            if isinstance(exception, StopIteration):
-                raise TypeError(
-                    f'{exception} cannot be raised to a(n) `{type(self).__name__}`; {self!r}.'
-                )
-            
-            waited_future = self._waited_future
-            if (waited_future is not None):
-                waited_future.cancel()
-            
-            # Even if the waited future is already done we still have to cancel ourselves with our wake up.
-            state |= FUTURE_STATE_CANCELLING_SELF
-            
-            self._result = exception
-            result = 1
+        if isinstance(exception, type):
+            exception = exception()
+        
+        if isinstance(exception, StopIteration):
+            raise TypeError(
+                f'{exception} cannot be raised to a(n) `{type(self).__name__}`; {self!r}.'
+            )
+        
+        # Even if the waited future is already done we still have to cancel ourselves with our wake up.
+        self._result = exception
+        self._state |= FUTURE_STATE_CANCELLING_SELF
+        
+        waited_future = self._waited_future
+        if (waited_future is not None):
+            waited_future.cancel()
         
-        self._state = state
-        return result
+        return 1
     
     
     @copy_docs(Future.is_cancelling)
@@ -322,10 +318,9 @@ class Task(Future):
                 
                 self._waited_future = result
                 
-                state = self._state
-                if state & FUTURE_STATE_CANCELLING_SELF:
+                if self._state & FUTURE_STATE_CANCELLING_SELF:
                     if result.cancel():
-                        self._state = state & ~FUTURE_STATE_CANCELLING_SELF
+                        self._state &= ~FUTURE_STATE_CANCELLING_SELF
             else:
                 self._loop.call_soon(self._step)
         
-- 
2.43.0


From 7dc856bdce34fe330d2f6de10e765c3868cfba7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:26 +0000
Subject: [PATCH 012/176] fix: cancelling a task inside of (or while entering)
 an executor section could be lost or leave it waiting forever

---
 scarletio/core/traps/task_thread_switcher.py | 127 ++++++++-----------
 1 file changed, 56 insertions(+), 71 deletions(-)

diff --git a/scarletio/core/traps/task_thread_switcher.py b/scarletio/core/traps/task_thread_switcher.py
index b5f3ec0..3ae8357 100755
--- a/scarletio/core/traps/task_thread_switcher.py
+++ b/scarletio/core/traps/task_thread_switcher.py
@@ -13,7 +13,6 @@ from .future_states import (
 from .task import Task
 
 
-FUTURE_MASK_CANCEL_INITIALISED_BEFORE = FUTURE_STATE_CANCELLING_SELF | FUTURE_STATE_CANCELLED
 FUTURE_MASK_CANCEL_WITH_EXCEPTION = FUTURE_STATE_RESULT_RAISE | FUTURE_STATE_CANCELLED
 
 
@@ -106,30 +105,28 @@ class enter_executor:
     
     def _enter_executor(self):
         """
-        Moves the task's execution to an executor thread and wakes it up.
+        Moves the task's execution to an executor thread and wakes it up there.
         """
-        callbacks = self._enter_future._callbacks
-        callbacks.clear()
-        
         task = self._task
-        task.add_done_callback(self._cancel_callback)
+        enter_future = self._enter_future
         
-        task._loop.run_in_executor(self._executor_task)
-    
-    
-    def _cancel_callback(self, future):
-        """
-        Callback added to the wrapped task. If the wrapped task is cancelled, then the section running inside of the
-        executor will be cancelled as well, whenever it gives back the context with an `await`.
-        """
-        if future.is_cancelled():
+        # The task will be woken up by the executor instead of the future.
+        try:
+            enter_future._callbacks.pop()
+        except IndexError:
+            # The task was cancelled since, it is already being woken up.
             return
         
-        waited_future = self._waited_future
-        if waited_future is None:
+        task._waited_future = None
+        if not enter_future.set_result_if_pending(None):
+            # The task is being cancelled right now from an other thread.
+            task._wake_up(enter_future)
             return
         
-        waited_future.cancel()
+        # From now on there is nothing to cancel but the task itself.
+        loop = task._loop
+        self._exit_future = Future(loop)
+        loop.run_in_executor(self._executor_task)
     
     
     def _executor_task(self):
@@ -137,44 +134,23 @@ class enter_executor:
         Wraps the tasks' section's running inside of an executor, still allowing it to use `await`-s.
         """
         task = self._task
-        # relink future task
         loop = task._loop
-        end_future = Future(loop)
-        task._waited_future = end_future
-        self._exit_future = end_future
-        
-        # Set result to the enter task, so it can be retrieved.
-        self._enter_future.set_result(None)
-        
+        end_future = self._exit_future
         coroutine = task._coroutine
         
-        # If some1 await at the block, we will sync_wrap it. If the exit future is awaited, then we quit.
-        local_waited_future = None
-        
         try:
+            if task._state & FUTURE_STATE_CANCELLING_SELF:
+                # Cancelled before it could be entered.
+                loop.call_soon_thread_safe(task._step)
+                return
+            
+            cancelling = False
+            
             while True:
-                if (local_waited_future is not None):
-                    if local_waited_future is end_future:
-                        end_future.set_result(None)
-                        loop.call_soon_thread_safe(task._step)
-                        break
-                    
-                    self._waited_future = local_waited_future
-                    if task._state & FUTURE_MASK_CANCEL_INITIALISED_BEFORE:
-                        local_waited_future.cancel()
-                    
-                    try:
-                        local_waited_future.sync_wrap().wait_for_completion()
-                    finally:
-                        local_waited_future = None
-                
-                if task.is_done():
-                    # there is no reason to raise
-                    break
-                
                 try:
                     # Call either coroutine.throw(err) or coroutine.send(None).
-                    if task._state & FUTURE_STATE_CANCELLING_SELF:
+                    if cancelling:
+                        task._state &= ~FUTURE_STATE_CANCELLING_SELF
                         result = coroutine.throw(CancelledError())
                     else:
                         result = coroutine.send(None)
@@ -183,50 +159,59 @@ class enter_executor:
                     state = task._state
                     if state & FUTURE_STATE_CANCELLING_SELF:
                         state |= FUTURE_STATE_CANCELLED
-                        task._loop._schedule_callbacks(self)
+                        
+                        if (task._result is not None):
+                            state |= FUTURE_STATE_RESULT_RAISE
+                    
                     else:
                         task._result = retrieved_exception.value
                         state |= FUTURE_STATE_RESULT_RETURN
                     
                     task._state = state
-                    loop._schedule_callbacks(self)
-                    loop.wake_up()
+                    loop.call_soon_thread_safe(loop._schedule_callbacks, task)
                     break
                     
                 except CancelledError as retrieved_exception:
-                    task._state |= FUTURE_MASK_CANCEL_WITH_EXCEPTION
-                    
                     result = task._result
                     if (result is None):
                         task._result = retrieved_exception
                     else:
                         result.__cause__ = retrieved_exception
                     
-                    loop._schedule_callbacks(self)
-                    loop.wake_up()
+                    task._state |= FUTURE_MASK_CANCEL_WITH_EXCEPTION
+                    loop.call_soon_thread_safe(loop._schedule_callbacks, task)
                     break
                 
                 except BaseException as retrieved_exception:
                     task._result = retrieved_exception
                     task._state |= FUTURE_STATE_RESULT_RAISE
-                    loop._schedule_callbacks(self)
-                    loop.wake_up()
+                    loop.call_soon_thread_safe(loop._schedule_callbacks, task)
                     break
                 
-                else:
-                    if isinstance(result, Future) and result._blocking:
-                        result._blocking = False
-                        local_waited_future = result
-                        task._waited_future = result
-                        
-                        state = task._state
-                        if state & FUTURE_STATE_CANCELLING_SELF:
-                            if result.cancel():
-                                task._state = state & ~FUTURE_STATE_CANCELLING_SELF
-                    else:
-                        continue
+                if isinstance(result, Future) and result._blocking:
+                    result._blocking = False
+                    
+                    # If the exit future is awaited, then we quit.
+                    if result is end_future:
+                        end_future.set_result(None)
+                        loop.call_soon_thread_safe(task._step)
+                        break
+                    
+                    # If some1 awaits at the block, we will sync_wrap it.
+                    self._waited_future = result
+                    task._waited_future = result
+                    
+                    if task._state & FUTURE_STATE_CANCELLING_SELF:
+                        if result.cancel():
+                            task._state &= ~FUTURE_STATE_CANCELLING_SELF
+                    
+                    result.sync_wrap().wait_for_completion()
+                    self._waited_future = None
+                    task._waited_future = None
+                
+                result = None
+                cancelling = task._state & FUTURE_STATE_CANCELLING_SELF
         
         finally:
-            task.remove_done_callback(self._cancel_callback)
             self = None
             task = None
-- 
2.43.0


From 3200a455c6b7e350941cffac0cb63741488fdb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:50 +0000
Subject: [PATCH 013/176] fix: SyncQueue could give the same element to more
 waiters, failed at cancellation and its repr modified its content

---
 scarletio/core/event_loop/executor.py | 70 ++++++++++++++++-----------
 1 file changed, 42 insertions(+), 28 deletions(-)

diff --git a/scarletio/core/event_loop/executor.py b/scarletio/core/event_loop/executor.py
index 426d37b..0f35d67 100755
--- a/scarletio/core/event_loop/executor.py
+++ b/scarletio/core/event_loop/executor.py
@@ -33,17 +33,20 @@ class SyncWait:
     
     Attributes
     ----------
+    _cancelled : `bool`
+        Whether the waiter is cancelled.
     _result : `object`
         The waiter's result if applicable. Defaults to `None`.
     _waiter : `threading.SyncEvent`
         Threading event, what is set, when the waiter's result is set.
     """
-    __slots__ = ('_result', '_waiter',)
+    __slots__ = ('_cancelled', '_result', '_waiter',)
     
     def __init__(self):
         """
         Creates a new ``SyncWait``.
         """
+        self._cancelled = False
         self._result = None
         self._waiter = SyncEvent()
         
@@ -60,6 +63,14 @@ class SyncWait:
         self._waiter.set()
     
     
+    def cancel(self):
+        """
+        Cancels the waiter.
+        """
+        self._cancelled = True
+        self._waiter.set()
+    
+    
     def wait(self):
         """
         Waits till the waiter's result is set, then returns it.
@@ -70,12 +81,13 @@ class SyncWait:
         
         Raises
         ------
-        TypeError
-            The set exception is not a  `BaseException`.
-        BaseException
-            The set exception.
+        CancelledError
+            The waiter was cancelled.
         """
         self._waiter.wait()
+        if self._cancelled:
+            raise CancelledError()
+        
         return self._result
 
 
@@ -91,10 +103,10 @@ class SyncQueue:
         Threading lock to grant exclusive access to the queue.
     _results : `deque`
         A deque of the results set to the queue.
-    _waiter : `None`, ``SyncWait``
-        Result waiter of the queue.
+    _waiters : `deque` of ``SyncWait``
+        Result waiters of the queue, one for each waiting getter.
     """
-    __slots__ = ('_cancelled', '_lock', '_results', '_waiter',)
+    __slots__ = ('_cancelled', '_lock', '_results', '_waiters',)
     
     def __init__(self, iterable = None, max_length = None, cancelled = False):
         """
@@ -110,7 +122,7 @@ class SyncQueue:
             Whether the queue should be initially cancelled.
         """
         self._results = deque(maxlen = max_length) if iterable is None else deque(iterable, maxlen = max_length)
-        self._waiter = None
+        self._waiters = deque()
         self._cancelled = cancelled
         self._lock = SyncLock()
     
@@ -126,12 +138,11 @@ class SyncQueue:
         """
         with self._lock:
             # Should we raise InvalidStateError?
-            waiter = self._waiter
-            if waiter is None:
-                self._results.append(result)
+            waiters = self._waiters
+            if waiters:
+                waiters.popleft().set_result(result)
             else:
-                waiter.set_result(result)
-                self._waiter = None
+                self._results.append(result)
     
     
     def cancel(self):
@@ -145,10 +156,9 @@ class SyncQueue:
             # Should we raise InvalidStateError?
             self._cancelled = True
             
-            waiter = self._waiter
-            if waiter is not None:
-                waiter.cancel()
-                self._waiter = None
+            waiters = self._waiters
+            while waiters:
+                waiters.popleft().cancel()
     
     
     def get_result(self):
@@ -159,19 +169,22 @@ class SyncQueue:
         Returns
         -------
         result : `object`
+        
+        Raises
+        ------
+        CancelledError
+            If the queue is empty and cancelled.
         """
         with self._lock:
             results = self._results
             if results:
                 return results.popleft()
             
-            waiter = self._waiter
-            if waiter is None:
-                if self._cancelled:
-                    raise CancelledError()
-                
-                waiter = SyncWait()
-                self._waiter = waiter
+            if self._cancelled:
+                raise CancelledError()
+            
+            waiter = SyncWait()
+            self._waiters.append(waiter)
         
         return waiter.wait()
     
@@ -230,7 +243,7 @@ class SyncQueue:
                     result = results[index]
                     index += 1
                     
-                    results.append(repr(result))
+                    repr_parts.append(repr(result))
                     if index == limit:
                         break
                     
@@ -270,7 +283,8 @@ class SyncQueue:
         """
         Clears the queue.
         """
-        self._results.clear()
+        with self._lock:
+            self._results.clear()
 
     
     def copy(self):
@@ -285,7 +299,7 @@ class SyncQueue:
             new = object.__new__(type(self))
             
             new._results = self._results.copy()
-            new._waiter = None
+            new._waiters = deque()
             new._cancelled = self._cancelled
             new._lock = SyncLock()
             
-- 
2.43.0


From f564a08506d0f9b1fdb83f20b8ef8efb9d54e0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:50 +0000
Subject: [PATCH 014/176] fix: releasing a claimed executor with queued
 functions failed and cancelled functions kept blocking the reused threads

---
 scarletio/core/event_loop/executor.py | 100 ++++++++++++--------------
 1 file changed, 47 insertions(+), 53 deletions(-)

diff --git a/scarletio/core/event_loop/executor.py b/scarletio/core/event_loop/executor.py
index 0f35d67..1c236a8 100755
--- a/scarletio/core/event_loop/executor.py
+++ b/scarletio/core/event_loop/executor.py
@@ -393,14 +393,14 @@ class ExecutorThread(Thread):
                     return
                 
                 future = pair.future
-                if future.is_done():
-                    future = None
-                    continue
-                
+                ended_callback = pair.ended_callback
                 func = pair.func
-                self.current_function = func
                 
                 try:
+                    if (func is None) or future.is_done():
+                        continue
+                    
+                    self.current_function = func
                     result = func()
                 except BaseException as exception:
                     if isinstance(exception, StopIteration):
@@ -420,6 +420,11 @@ class ExecutorThread(Thread):
                 
                 finally:
                     self.current_function = None
+                    if (ended_callback is not None):
+                        ended_callback(future)
+                    
+                    pair = None
+                    ended_callback = None
                     future = None
                     func = None
             
@@ -477,9 +482,15 @@ class ExecutorThread(Thread):
         """
         self.state = EXECUTOR_THREAD_STOPPED
         queue = self.queue
-        while queue:
-            future = queue.get_result_no_wait().future
-            future._loop.call_soon_thread_safe(future.cancel)
+        while True:
+            try:
+                pair = queue.get_result_no_wait()
+            except IndexError:
+                break
+            
+            if (pair is not None):
+                future = pair.future
+                future._loop.call_soon_thread_safe(future.cancel)
         
         queue.set_result(None)
     
@@ -491,22 +502,6 @@ class ExecutorThread(Thread):
         self.queue.set_result(None)
     
     
-    def _shrink_queue(self):
-        """
-        Removes all the done elements from the executor's queue.
-        """
-        results = self.queue._results
-        index = 0
-        limit = len(results)
-        while index < limit:
-            future = results[index]
-            if future.is_done():
-                del results[index]
-                limit -= 1
-            else:
-                index += 1
-    
-    
     def get_stack(self, limit = -1):
         """
         Return the list of stack frames for the executor.
@@ -678,25 +673,30 @@ class ExecutionPair:
     
     Attributes
     ----------
-    func : `callable`
+    ended_callback : `None`, `callable`
+        Called from the executor thread with the future when the executor is done with the pair.
+    func : `None`, `callable`
         The function to execute.
     future : ``Future``
         The result waiter future to what ``.func``'s result or exception is set.
     """
-    __slots__ = ('func', 'future', )
+    __slots__ = ('ended_callback', 'func', 'future', )
     
     
-    def __init__(self, func, future):
+    def __init__(self, func, future, ended_callback = None):
         """
         Creates a new ``ExecutionPair``.
         
         Parameters
         ----------
-        func : `callable`
+        func : `None`, `callable`
             The function to execute.
         future : ``Future``
             The result waiter future to what ``.func``'s result or exception is set.
+        ended_callback : `None`, `callable` = `None`, Optional
+            Called from the executor thread with the future when the executor is done with the pair.
         """
+        self.ended_callback = ended_callback
         self.func = func
         self.future = future
     
@@ -707,9 +707,9 @@ class ExecutionPair:
 
 class _ClaimEndedCallback:
     """
-    Future callback set to result waiter futures when calling ``ClaimedExecutor.release``.
+    Called by the executor thread when it is done with everything queued till ``ClaimedExecutor.release`` was called.
     
-    Gives back the executor thread, when it's queue becomes empty.
+    Gives back the executor thread.
     
     Parameters
     ----------
@@ -735,13 +735,9 @@ class _ClaimEndedCallback:
         self.executor = executor
     
     def __call__(self, future):
-        """Gives back the executor thread, when it's queue becomes empty."""
-        loop = future._loop
-        executor = self.executor
-        executor._shrink_queue()
-        if not executor.queue:
-            parent = self.parent
-            loop.call_soon_thread_safe(type(parent)._claim_ended, parent, executor)
+        """Gives back the executor thread."""
+        parent = self.parent
+        future._loop.call_soon_thread_safe(type(parent)._claim_ended, parent, self.executor)
     
     def __eq__(self, other):
         """Returns whether the two claim ended callbacks are the same."""
@@ -757,12 +753,14 @@ class ClaimedExecutor:
     
     Attributes
     ----------
+    _last_future : ``None | Future``
+        The future of the last executed function.
     executor : ``ExecutorThread``
         The claimed executor thread.
     parent : ``Executor``
         The parent executor from where the ``.executor`` is claimed.
     """
-    __slots__ = ('executor', 'parent',)
+    __slots__ = ('_last_future', 'executor', 'parent',)
     
     def __init__(self, parent, executor):
         """
@@ -775,6 +773,7 @@ class ClaimedExecutor:
         executor : ``ExecutorThread``
             The claimed executor thread.
         """
+        self._last_future = None
         self.parent = parent
         self.executor = executor
     
@@ -805,6 +804,7 @@ class ClaimedExecutor:
             )
         
         future = self.parent.create_future()
+        self._last_future = future
         
         executor.queue.set_result(ExecutionPair(func, future,),)
         
@@ -819,21 +819,16 @@ class ClaimedExecutor:
         if executor is None:
             return
         
-        executor._shrink_queue()
+        self.executor = None
+        parent = self.parent
         
-        results = executor.queue._results
-        if results:
-            callback = _ClaimEndedCallback(self.parent, executor)
-            for element in results:
-                future = element.future
-                if future.is_done():
-                    continue
-                
-                future.add_done_callback(callback)
+        last_future = self._last_future
+        if (last_future is None):
+            parent._claim_ended(executor)
         else:
-            self.parent._claim_ended(executor)
-        
-        self.executor = None
+            self._last_future = None
+            # The executor gets to this only after everything before is done.
+            executor.queue.set_result(ExecutionPair(None, last_future, _ClaimEndedCallback(parent, executor)))
     
     __del__ = release
     
@@ -1068,8 +1063,7 @@ class Executor:
         future = self.create_future()
         executor = self._get_free_executor()
         self.running_executors.add(executor)
-        future.add_done_callback(ExecutionEndedCallback(self, executor))
-        executor.queue.set_result(ExecutionPair(func, future,),)
+        executor.queue.set_result(ExecutionPair(func, future, ExecutionEndedCallback(self, executor)))
         return future
     
     
-- 
2.43.0


From d3620135a1dd36b484052864ce2b1086b896af89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:31 +0000
Subject: [PATCH 015/176] fix: reset the offset when reading exactly uses up a
 partially read chunk

---
 scarletio/core/protocols_and_transports/protocol.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scarletio/core/protocols_and_transports/protocol.py b/scarletio/core/protocols_and_transports/protocol.py
index be0b7d1..3832d0e 100755
--- a/scarletio/core/protocols_and_transports/protocol.py
+++ b/scarletio/core/protocols_and_transports/protocol.py
@@ -859,6 +859,7 @@ class ReadProtocolBase(AbstractProtocolBase):
             
             n -= (chunk_size - offset)
             del chunks[0]
+            self._offset = 0
             yield memoryview(chunk)[offset:]
         
         while True:
-- 
2.43.0


From 6d2ff955c5a783fd9a567e92e14a715f70d60d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:31 +0000
Subject: [PATCH 016/176] fix: do not lose or misplace data when the boundary
 is cut over chunks in read_until

---
 scarletio/core/protocols_and_transports/protocol.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/scarletio/core/protocols_and_transports/protocol.py b/scarletio/core/protocols_and_transports/protocol.py
index 3832d0e..a80de41 100755
--- a/scarletio/core/protocols_and_transports/protocol.py
+++ b/scarletio/core/protocols_and_transports/protocol.py
@@ -981,13 +981,14 @@ class ReadProtocolBase(AbstractProtocolBase):
                 offset, intersection_sizes = _finish_intersection_sizes(chunk, boundary, intersection_sizes)
                 # Found boundary in between?
                 if offset != -1:
+                    released, held_back = _get_released_from_held_back(held_back, len(boundary) - offset)
+                    
                     # Do not offset if offset if at the end of the chunk. Delete chunk instead.
                     if offset == len(chunk):
                         del chunks[0]
                         offset = 0
                     self._offset = offset
                     
-                    released, held_back = _get_released_from_held_back(held_back, len(boundary) - offset)
                     if (released is not None):
                         for to_release in released:
                             yield to_release
@@ -1011,7 +1012,9 @@ class ReadProtocolBase(AbstractProtocolBase):
                         _continue_intersection_sizes(chunk, boundary, intersection_sizes),
                         _get_end_intersection_sizes(chunk, 0, boundary),
                     )
-                    released, held_back = _get_released_from_held_back(held_back, len(boundary))
+                    released, held_back = _get_released_from_held_back(
+                        held_back, 0 if intersection_sizes is None else len(boundary)
+                    )
                     if (released is not None):
                         for to_release in released:
                             yield to_release
@@ -1038,7 +1041,7 @@ class ReadProtocolBase(AbstractProtocolBase):
             self._offset = 0
             if offset:
                 chunk = memoryview(chunk)[offset:]
-            intersection_sizes = _get_end_intersection_sizes(chunk, offset, boundary)
+            intersection_sizes = _get_end_intersection_sizes(chunk, 0, boundary)
             if (intersection_sizes is not None):
                 offset = len(chunk) - intersection_sizes[0]
                 held_back = [memoryview(chunk)[offset:]]
-- 
2.43.0


From 59eb9bea734b79cf123632ee7c291ef27e105087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:31 +0000
Subject: [PATCH 017/176] fix: do not mix up paused reading with paused
 writing, wake up every task waiting for drain

---
 .../core/protocols_and_transports/protocol.py | 67 +++++++++++--------
 scarletio/http_server/idea.py                 |  6 +-
 scarletio/web_common/http_protocol.py         |  9 ++-
 scarletio/web_socket/web_socket_client.py     |  6 +-
 .../web_socket/web_socket_common_protocol.py  |  6 +-
 .../web_socket/web_socket_server_protocol.py  |  6 +-
 6 files changed, 61 insertions(+), 39 deletions(-)

diff --git a/scarletio/core/protocols_and_transports/protocol.py b/scarletio/core/protocols_and_transports/protocol.py
index a80de41..89a3901 100755
--- a/scarletio/core/protocols_and_transports/protocol.py
+++ b/scarletio/core/protocols_and_transports/protocol.py
@@ -1213,10 +1213,13 @@ class ReadWriteProtocolBase(ReadProtocolBase):
     _transport : `None | object`
         Asynchronous transport implementation. Is set meanwhile the protocol is alive.
     
-    _drain_waiter : ``None | Future``
-        A future, what is used to block the writing task, till it's writen data is drained.
+    _drain_waiters : ``None | list<Future>``
+        Futures, what are used to block the writing tasks, till their writen data is drained.
+    
+    _writing_paused : `bool`
+        Whether the protocol's respective transport's writing is paused. Defaults to `False`.
     """
-    __slots__ = ('_drain_waiter', )
+    __slots__ = ('_drain_waiters', '_writing_paused')
     
     def __new__(cls, loop):
         """
@@ -1229,26 +1232,42 @@ class ReadWriteProtocolBase(ReadProtocolBase):
         """
         self = ReadProtocolBase.__new__(cls, loop)
         
-        self._drain_waiter = None
+        self._drain_waiters = None
+        self._writing_paused = False
         
         return self
     
     
     @copy_docs(AbstractProtocolBase.pause_writing)
     def pause_writing(self):
-        self._paused = True
+        self._writing_paused = True
     
     
     @copy_docs(AbstractProtocolBase.resume_writing)
     def resume_writing(self):
-        self._paused = False
+        self._writing_paused = False
+        self._wake_up_drain_waiters(None)
+    
+    
+    def _wake_up_drain_waiters(self, exception):
+        """
+        Wakes up the tasks waiting for their data to be drained.
         
-        drain_waiter = self._drain_waiter
-        if drain_waiter is None:
+        Parameters
+        ----------
+        exception : `None | BaseException`
+            Exception to wake the tasks up with, if any.
+        """
+        drain_waiters = self._drain_waiters
+        if drain_waiters is None:
             return
         
-        self._drain_waiter = None
-        drain_waiter.set_result_if_pending(None)
+        self._drain_waiters = None
+        for drain_waiter in drain_waiters:
+            if exception is None:
+                drain_waiter.set_result_if_pending(None)
+            else:
+                drain_waiter.set_exception_if_pending(exception)
     
     
     async def _drain_helper(self):
@@ -1257,11 +1276,16 @@ class ReadWriteProtocolBase(ReadProtocolBase):
         
         This method is a coroutine.
         """
-        if not self._paused:
+        if not self._writing_paused:
             return
         
+        drain_waiters = self._drain_waiters
+        if drain_waiters is None:
+            drain_waiters = []
+            self._drain_waiters = drain_waiters
+        
         drain_waiter = Future(self._loop)
-        self._drain_waiter = drain_waiter
+        drain_waiters.append(drain_waiter)
         await drain_waiter
     
     
@@ -1272,22 +1296,9 @@ class ReadWriteProtocolBase(ReadProtocolBase):
         else:
             self.set_exception(exception)
         
-        # wake up the writer if currently paused.
-        if not self._paused:
-            return
-        
-        drain_waiter = self._drain_waiter
-        if drain_waiter is None:
-            return
-        
-        self._drain_waiter = None
-        if drain_waiter.is_done():
-            return
-        
-        if exception is None:
-            drain_waiter.set_result(None)
-        else:
-            drain_waiter.set_exception(exception)
+        # wake up the writers if currently paused.
+        self._writing_paused = False
+        self._wake_up_drain_waiters(exception)
     
     
     @copy_docs(AbstractProtocolBase.write)
diff --git a/scarletio/http_server/idea.py b/scarletio/http_server/idea.py
index 21f92a6..bb21f27 100755
--- a/scarletio/http_server/idea.py
+++ b/scarletio/http_server/idea.py
@@ -151,8 +151,10 @@ class HTTPRequestHandler(HttpReadWriteProtocol):
         If cancelled or marked by done or any other methods, the payload reader will not be cancelled.
     _transport : `None | object`
         Asynchronous transport implementation. Is set meanwhile the protocol is alive.
-    _drain_waiter : ``None | Future``
-        A future, what is used to block the writing task, till it's writen data is drained.
+    _drain_waiters : ``None | list<Future>``
+        Futures, what are used to block the writing tasks, till their writen data is drained.
+    _writing_paused : `bool`
+        Whether the protocol's respective transport's writing is paused.
     handler_task : `None`, ``Task`` of ``.lifetime_handler``
         Handles the connected http request meanwhile it is alive.
     server : ``HTTPServer``
diff --git a/scarletio/web_common/http_protocol.py b/scarletio/web_common/http_protocol.py
index 334031d..10ef11c 100755
--- a/scarletio/web_common/http_protocol.py
+++ b/scarletio/web_common/http_protocol.py
@@ -682,8 +682,10 @@ class HttpReadWriteProtocol(ReadWriteProtocolBase, HttpReadProtocol):
         If cancelled or marked by done or any other methods, the payload reader will not be cancelled.
     _transport : `None | object`
         Asynchronous transport implementation. Is set meanwhile the protocol is alive.
-    _drain_waiter : ``None | Future``
-        A future, what is used to block the writing task, till it's writen data is drained.
+    _drain_waiters : ``None | list<Future>``
+        Futures, what are used to block the writing tasks, till their writen data is drained.
+    _writing_paused : `bool`
+        Whether the protocol's respective transport's writing is paused.
     """
     __slots__ = ()
     
@@ -814,6 +816,7 @@ class HttpReadWriteProtocol(ReadWriteProtocolBase, HttpReadProtocol):
     def isekai_into(self, other_class):
         new = HttpReadProtocol.isekai_into(self, other_class)
         
-        new._drain_waiter = self._drain_waiter
+        new._drain_waiters = self._drain_waiters
+        new._writing_paused = self._writing_paused
         
         return new
diff --git a/scarletio/web_socket/web_socket_client.py b/scarletio/web_socket/web_socket_client.py
index c4439a0..59f8e8a 100755
--- a/scarletio/web_socket/web_socket_client.py
+++ b/scarletio/web_socket/web_socket_client.py
@@ -51,8 +51,10 @@ class WebSocketClient(WebSocketCommonProtocol):
         If cancelled or marked by done or any other methods, the payload reader will not be cancelled.
     _transport : `None | object`
         Asynchronous transport implementation. Is set meanwhile the protocol is alive.
-    _drain_waiter : ``None | Future``
-        A future, what is used to block the writing task, till it's writen data is drained.
+    _drain_waiters : ``None | list<Future>``
+        Futures, what are used to block the writing tasks, till their writen data is drained.
+    _writing_paused : `bool`
+        Whether the protocol's respective transport's writing is paused.
     _drain_lock : ``Lock``
         Asynchronous lock to ensure, that only `1` frame is written in `1` time.
     close_code : `int`
diff --git a/scarletio/web_socket/web_socket_common_protocol.py b/scarletio/web_socket/web_socket_common_protocol.py
index 5408a84..2f1f873 100755
--- a/scarletio/web_socket/web_socket_common_protocol.py
+++ b/scarletio/web_socket/web_socket_common_protocol.py
@@ -63,8 +63,10 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
         If cancelled or marked by done or any other methods, the payload reader will not be cancelled.
     _transport : `None | object`
         Asynchronous transport implementation. Is set meanwhile the protocol is alive.
-    _drain_waiter : ``None | Future``
-        A future, what is used to block the writing task, till it's writen data is drained.
+    _drain_waiters : ``None | list<Future>``
+        Futures, what are used to block the writing tasks, till their writen data is drained.
+    _writing_paused : `bool`
+        Whether the protocol's respective transport's writing is paused.
     _drain_lock : ``Lock``
         Asynchronous lock to ensure, that only `1` frame is written in `1` time.
     close_code : `int`
diff --git a/scarletio/web_socket/web_socket_server_protocol.py b/scarletio/web_socket/web_socket_server_protocol.py
index d911ed0..3739a34 100755
--- a/scarletio/web_socket/web_socket_server_protocol.py
+++ b/scarletio/web_socket/web_socket_server_protocol.py
@@ -50,8 +50,10 @@ class WebSocketServerProtocol(WebSocketCommonProtocol):
         If cancelled or marked by done or any other methods, the payload reader will not be cancelled.
     _transport : `None | object`
         Asynchronous transport implementation. Is set meanwhile the protocol is alive.
-    _drain_waiter : ``None | Future``
-        A future, what is used to block the writing task, till it's writen data is drained.
+    _drain_waiters : ``None | list<Future>``
+        Futures, what are used to block the writing tasks, till their writen data is drained.
+    _writing_paused : `bool`
+        Whether the protocol's respective transport's writing is paused.
     _drain_lock : ``Lock``
         Asynchronous lock to ensure, that only `1` frame is written in `1` time.
     close_code : `int`
-- 
2.43.0


From 65237cce3ac824d025322952e91a4359901c8c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:47 +0000
Subject: [PATCH 018/176] fix: writing or writing eof to an already closed
 socket transport should do nothing

---
 scarletio/core/protocols_and_transports/transport_layer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scarletio/core/protocols_and_transports/transport_layer.py b/scarletio/core/protocols_and_transports/transport_layer.py
index b372a4d..ad8e3af 100755
--- a/scarletio/core/protocols_and_transports/transport_layer.py
+++ b/scarletio/core/protocols_and_transports/transport_layer.py
@@ -633,7 +633,7 @@ class SocketTransportLayer(SocketTransportLayerBase):
     
     @copy_docs(SocketTransportLayerBase.write_eof)
     def write_eof(self):
-        if self._at_eof:
+        if self._closing or self._at_eof:
             return
         
         self._at_eof = True
@@ -755,6 +755,7 @@ class SocketTransportLayer(SocketTransportLayerBase):
                 self._loop.remove_writer(self._file_descriptor)
                 
                 if self._closing:
+                    self._connection_lost = True
                     self._call_connection_lost(None)
                 
                 elif self._at_eof:
@@ -806,6 +807,7 @@ class SocketTransportLayer(SocketTransportLayerBase):
                 self._loop.remove_writer(self._file_descriptor)
                 
                 if self._closing:
+                    self._connection_lost = True
                     self._call_connection_lost(None)
                 
                 elif self._at_eof:
@@ -1064,4 +1066,5 @@ class DatagramSocketTransportLayer(SocketTransportLayerBase):
         if not buffer:
             self._loop.remove_writer(self._file_descriptor)
             if self._closing:
+                self._connection_lost = True
                 self._call_connection_lost(None)
-- 
2.43.0


From 8228e0f26516a63b76a4388844aa7029260eeccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:47 +0000
Subject: [PATCH 019/176] fix: peer name of socket transports was never
 available

---
 scarletio/core/protocols_and_transports/transport_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/core/protocols_and_transports/transport_layer.py b/scarletio/core/protocols_and_transports/transport_layer.py
index ad8e3af..0d73b4f 100755
--- a/scarletio/core/protocols_and_transports/transport_layer.py
+++ b/scarletio/core/protocols_and_transports/transport_layer.py
@@ -190,7 +190,7 @@ class SocketTransportLayerBase(TransportLayerBase):
         
         extra = set_extra_info(extra, EXTRA_INFO_NAME_SOCKET_NAME, socket_name)
         
-        if has_extra_info(extra, EXTRA_INFO_NAME_PEER_NAME):
+        if not has_extra_info(extra, EXTRA_INFO_NAME_PEER_NAME):
             try:
                 peer_name = socket.getpeername()
             except SocketError:
-- 
2.43.0


From 747f232aee5b7f7ea49cf02ed42e8ad9781f1b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:47 +0000
Subject: [PATCH 020/176] fix: read pipes could not be aborted

---
 .../protocols_and_transports/unix_pipe_transport_layer.py   | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scarletio/core/protocols_and_transports/unix_pipe_transport_layer.py b/scarletio/core/protocols_and_transports/unix_pipe_transport_layer.py
index 59e5e48..57feafd 100755
--- a/scarletio/core/protocols_and_transports/unix_pipe_transport_layer.py
+++ b/scarletio/core/protocols_and_transports/unix_pipe_transport_layer.py
@@ -186,6 +186,12 @@ class UnixReadPipeTransportLayer(TransportLayerBase):
             self._close(None)
     
     
+    @copy_docs(TransportLayerBase.abort)
+    def abort(self, exception = None):
+        if not self._closing:
+            self._close(exception)
+    
+    
     def __del__(self):
         """
         Closes the read pipe transport if not yet closed.
-- 
2.43.0


From 48b8778720553565ee694ae76bbe0f4d92c38dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:47 +0000
Subject: [PATCH 021/176] fix: do not read if the transport was closed or
 paused when its connection was made

---
 .../transport_layer.py                        | 22 +++++++++----------
 .../unix_pipe_transport_layer.py              |  6 +++--
 2 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/scarletio/core/protocols_and_transports/transport_layer.py b/scarletio/core/protocols_and_transports/transport_layer.py
index 0d73b4f..1fd7619 100755
--- a/scarletio/core/protocols_and_transports/transport_layer.py
+++ b/scarletio/core/protocols_and_transports/transport_layer.py
@@ -461,6 +461,16 @@ class SocketTransportLayerBase(TransportLayerBase):
         self._loop.call_soon(self._call_connection_lost, exception)
     
     
+    def _add_reader(self):
+        """
+        Call soon callback added by ``.__init__` to add reader to the event loop.
+        """
+        if self._closing or self._paused:
+            return
+        
+        self._loop.add_reader(self._file_descriptor, self._read_ready)
+    
+    
     def _read_ready(self):
         """
         Added as a read callback on the respective event loop to be called when the data is received on the pipe.
@@ -578,7 +588,7 @@ class SocketTransportLayer(SocketTransportLayerBase):
         _set_nodelay(socket)
         
         # only start reading when connection_made() has been called
-        loop.call_soon(loop.add_reader, self._file_descriptor, self._read_ready)
+        loop.call_soon(self._add_reader)
         if (waiter is not None):
             # only wake up the waiter when connection_made() has been called
             loop.call_soon(type(waiter).set_result_if_pending, waiter, None)
@@ -941,16 +951,6 @@ class DatagramSocketTransportLayer(SocketTransportLayerBase):
         self._force_close(exception)
     
     
-    def _add_reader(self):
-        """
-        Call soon callback added by ``.__init__` to add reader to the event loop.
-        """
-        if self._closing:
-            return
-        
-        self._loop.add_reader(self._file_descriptor, self._read_ready)
-    
-    
     @copy_docs(SocketTransportLayerBase._read_ready)
     def _read_ready(self):
         if self._connection_lost:
diff --git a/scarletio/core/protocols_and_transports/unix_pipe_transport_layer.py b/scarletio/core/protocols_and_transports/unix_pipe_transport_layer.py
index 57feafd..dcf32f5 100755
--- a/scarletio/core/protocols_and_transports/unix_pipe_transport_layer.py
+++ b/scarletio/core/protocols_and_transports/unix_pipe_transport_layer.py
@@ -98,7 +98,9 @@ class UnixReadPipeTransportLayer(TransportLayerBase):
             await skip_ready_cycle()
             
             protocol.connection_made(self)
-            loop.add_reader(file_descriptor, self._read_ready)
+            # the protocol might have closed or paused us already
+            if not (self._closing or self._paused):
+                loop.add_reader(file_descriptor, self._read_ready)
         
         except:
             self.close()
@@ -375,7 +377,7 @@ class UnixWritePipeTransportLayer(TransportLayerBase):
             
             # On AIX, the reader trick (to be notified when the read end of the  socket is closed) only works for
             # sockets. On other platforms it works for pipes and sockets.
-            if is_socket or (is_fifo and not IS_AIX):
+            if (is_socket or (is_fifo and not IS_AIX)) and (not self._closing):
                 loop.add_reader(file_descriptor, self._read_ready)
         except:
             self.close()
-- 
2.43.0


From 2ec8b18c3532582ddb061b31dafb33c57c2a4e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:59 +0000
Subject: [PATCH 022/176] fix: minor version was written wrong in http request
 lines

---
 scarletio/web_common/http_protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/web_common/http_protocol.py b/scarletio/web_common/http_protocol.py
index 10ef11c..b93cb37 100755
--- a/scarletio/web_common/http_protocol.py
+++ b/scarletio/web_common/http_protocol.py
@@ -713,7 +713,7 @@ class HttpReadWriteProtocol(ReadWriteProtocolBase, HttpReadProtocol):
         if transport is None:
             raise RuntimeError(f'Protocol has no attached transport; self = {self!r}.')
         
-        result = [f'{method} {path} HTTP/{version.major}.{version.major}\r\n']
+        result = [f'{method} {path} HTTP/{version.major}.{version.minor}\r\n']
         extend = result.extend
         for k, v in headers.items():
             extend((k, ': ', v, '\r\n'))
-- 
2.43.0


From 8bf6698b9b64f0c8b3877d279c54f0041d5e46fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:40 +0000
Subject: [PATCH 023/176] fix: payload of http requests could not be read

Determining how the payload of a request is received looked up the status of the request; only responses have it.
---
 scarletio/web_common/http_protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/web_common/http_protocol.py b/scarletio/web_common/http_protocol.py
index b93cb37..3c598f1 100755
--- a/scarletio/web_common/http_protocol.py
+++ b/scarletio/web_common/http_protocol.py
@@ -413,7 +413,7 @@ class HttpReadProtocol(ReadProtocolBase):
             length = int(length)
         
         if (not message.upgraded):
-            if should_status_code_have_empty_payload(message.status):
+            if isinstance(message, RawResponseMessage) and should_status_code_have_empty_payload(message.status):
                 return None
             
             if message.chunked:
-- 
2.43.0


From ae36d2b59411c739c92c981a031830542b350ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:40 +0000
Subject: [PATCH 024/176] fix: non ascii digits were accepted as content length

`str.isdigit` is true for superscripts and for the digits of other scripts as well. The first ones failed with `ValueError` instead of
`PayloadError`, the others were silently accepted.
---
 scarletio/web_common/http_protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/web_common/http_protocol.py b/scarletio/web_common/http_protocol.py
index 3c598f1..08feb04 100755
--- a/scarletio/web_common/http_protocol.py
+++ b/scarletio/web_common/http_protocol.py
@@ -407,7 +407,7 @@ class HttpReadProtocol(ReadProtocolBase):
         """
         length = message.headers.get(CONTENT_LENGTH, None)
         if (length is not None):
-            if not length.isdigit():
+            if not (length.isascii() and length.isdigit()):
                 raise PayloadError(f'{CONTENT_LENGTH} must be a non negative int, got: {length!r}.')
             
             length = int(length)
-- 
2.43.0


From dbfa3b2f13775652b38ae57c19448a55cb943deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:40 +0000
Subject: [PATCH 025/176] fix: chunk sizes with sign, prefix or underscore were
 accepted

A negative size stops the payload at a different position than other implementations would, making following messages misinterpreted.
---
 scarletio/web_common/http_protocol.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/scarletio/web_common/http_protocol.py b/scarletio/web_common/http_protocol.py
index 08feb04..fa06f1d 100755
--- a/scarletio/web_common/http_protocol.py
+++ b/scarletio/web_common/http_protocol.py
@@ -3,6 +3,7 @@ __all__ = ('HttpReadProtocol', 'HttpReadWriteProtocol',)
 from base64 import b64decode as base64_decode
 from binascii import a2b_qp as qp_decode
 from functools import partial as partial_func
+from re import compile as re_compile
 from random import getrandbits
 from struct import Struct
 
@@ -23,6 +24,8 @@ from .web_socket_frame import WebSocketFrame, apply_web_socket_mask
 
 PAYLOAD_ERROR_EOF_AT_HTTP_HEADER = 'EOF received meanwhile reading http headers.'
 
+CHUNK_SIZE_RP = re_compile(b'[0-9a-fA-F]+')
+
 
 UNPACK_LENGTH_2 = Struct('!H').unpack_from
 UNPACK_LENGTH_3 = Struct('!Q').unpack_from
@@ -481,12 +484,14 @@ class HttpReadProtocol(ReadProtocolBase):
             if index != -1:
                 line = line[:index]
             
-            try:
-                length = int(line, 16)
-            except ValueError:
+            # `int` would accept signs, prefixes & underscores as well.
+            line = line.strip(b' \t')
+            if CHUNK_SIZE_RP.fullmatch(line) is None:
                 raise PayloadError(
                     f'Not hexadecimal chunk size: {line!r}.'
-                ) from None
+                )
+            
+            length = int(line, 16)
             
             if length == 0:
                 end = await self._read_exactly_as_one(2)
-- 
2.43.0


From 0dfd23ab6e53c5b9406b9cb67447353c2432f7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:55 +0000
Subject: [PATCH 026/176] fix: deflate payloads in zlib format could not be
 read

`HTTPStreamWriter` writes deflate in zlib format (as rfc9110 defines it), but only raw deflate streams could be read back.
---
 scarletio/web_common/compressors.py | 65 ++++++++++++++++++++++++++++-
 1 file changed, 63 insertions(+), 2 deletions(-)

diff --git a/scarletio/web_common/compressors.py b/scarletio/web_common/compressors.py
index c2f26b1..331e25d 100755
--- a/scarletio/web_common/compressors.py
+++ b/scarletio/web_common/compressors.py
@@ -46,6 +46,67 @@ ZLIB_COMPRESSOR = zlib.compressobj
 
 ZLIB_MAX_WBITS = zlib.MAX_WBITS
 
+
+class _DeflateDecompressor:
+    """
+    Decompressor for `deflate` content encoding.
+    
+    `deflate` means zlib format, but raw deflate streams are used commonly as well. They are told apart by their first
+    byte.
+    
+    Attributes
+    ----------
+    _decompressor : `None`, `ZLIB_DECOMPRESSOR`
+        The wrapped decompressor. Set when the first byte is received.
+    """
+    __slots__ = ('_decompressor', )
+    
+    def __init__(self):
+        """Creates a new deflate decompressor."""
+        self._decompressor = None
+    
+    
+    def decompress(self, value):
+        """
+        Decompresses the given data.
+        
+        Parameters
+        ----------
+        value : `bytes-like`
+            Data to decompress.
+        
+        Returns
+        -------
+        value : `bytes`
+        """
+        decompressor = self._decompressor
+        if decompressor is None:
+            if not value:
+                return b''
+            
+            # The lower 4 bits of zlib format's first byte is always 8.
+            # A raw stream never starts with it, because it would be a non-final stored block with set padding.
+            decompressor = ZLIB_DECOMPRESSOR(wbits = ZLIB_MAX_WBITS if value[0] & 0x0f == 8 else -ZLIB_MAX_WBITS)
+            self._decompressor = decompressor
+        
+        return decompressor.decompress(value)
+    
+    
+    def flush(self):
+        """
+        Returns the remaining data.
+        
+        Returns
+        -------
+        value : `bytes`
+        """
+        decompressor = self._decompressor
+        if decompressor is None:
+            return b''
+        
+        return decompressor.flush()
+
+
 def get_decompressor_for(content_encoding):
     """
     Gets decompress object for the given content-encoding if applicable.
@@ -57,7 +118,7 @@ def get_decompressor_for(content_encoding):
     
     Returns
     -------
-    decompressor : `None`, `ZLIB_DECOMPRESSOR`, `BROTLI_DECOMPRESSOR`
+    decompressor : `None`, `ZLIB_DECOMPRESSOR`, `_DeflateDecompressor`, `BROTLI_DECOMPRESSOR`
     
     Raises
     ------
@@ -72,7 +133,7 @@ def get_decompressor_for(content_encoding):
         decompressor = ZLIB_DECOMPRESSOR(wbits = 16 + ZLIB_MAX_WBITS)
     
     elif content_encoding == 'deflate':
-        decompressor = ZLIB_DECOMPRESSOR(wbits = -ZLIB_MAX_WBITS)
+        decompressor = _DeflateDecompressor()
     
     elif content_encoding == 'br':
         if BROTLI_DECOMPRESSOR is None:
-- 
2.43.0


From 92e71496cd6e4eae181b43eae1c8ef5aa44fe70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:46 +0000
Subject: [PATCH 027/176] fix: compressed payloads ended by the end of the
 connection were not decompressed

---
 scarletio/web_common/http_protocol.py | 60 +++++++++++++++++++++++++++
 1 file changed, 60 insertions(+)

diff --git a/scarletio/web_common/http_protocol.py b/scarletio/web_common/http_protocol.py
index fa06f1d..831b928 100755
--- a/scarletio/web_common/http_protocol.py
+++ b/scarletio/web_common/http_protocol.py
@@ -454,6 +454,11 @@ class HttpReadProtocol(ReadProtocolBase):
                 
                 return partial_func(self._read_chunked_encoded, decompressor)
             
+            if (not message.upgraded):
+                decompressor = get_decompressor_for(message.encoding)
+                if (decompressor is not None):
+                    return partial_func(self._read_until_eof_encoded, decompressor)
+            
             return self._read_until_eof
         
         return None
@@ -629,6 +634,61 @@ class HttpReadProtocol(ReadProtocolBase):
             payload_stream.add_received_chunk(chunk)
     
     
+    async def _read_until_eof_encoded(self, decompressor, payload_stream):
+        """
+        Payload reader task, that reads the protocol until EOF is hit and decompresses the received data with the given
+        decompress object.
+        
+        This method is a coroutine.
+        
+        Parameters
+        ----------
+        decompressor : `ZLIB_DECOMPRESSOR`, `BROTLI_DECOMPRESSOR`
+            Decompressor used to decompress the data after receiving it.
+        
+        payload_stream : ``PayloadStream``
+            Payload buffer to read into.
+        
+        Raises
+        ------
+        PayloadError
+            Cannot decompress a chunk.
+        """
+        chunks = self._chunks
+        
+        while True:
+            if not chunks:
+                if self._at_eof:
+                    break
+                
+                try:
+                    await self._wait_for_data()
+                except EOFError:
+                    break
+            
+            chunk = chunks.popleft()
+            offset = self._offset
+            if offset:
+                chunk = memoryview(chunk)[offset :]
+                self._offset = 0
+            
+            try:
+                chunk = decompressor.decompress(chunk)
+            except COMPRESSION_ERRORS:
+                raise PayloadError('Cannot decompress chunk.') from None
+            
+            payload_stream.add_received_chunk(chunk)
+        
+        # Flush decompressor at the end in case it is required.
+        try:
+            chunk = decompressor.flush()
+        except COMPRESSION_ERRORS:
+            raise PayloadError('Cannot decompress chunk.') from None
+        
+        if chunk:
+            payload_stream.add_received_chunk(chunk)
+    
+    
     def isekai_into(self, other_class):
         """
         Copies the protocol's attributes to an other one.
-- 
2.43.0


From 6d4b93f924e80098520a2dc314a94fc6838a8709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:35 +0000
Subject: [PATCH 028/176] fix: multipart payloads could not be read

The boundary was used as string, headers of fields with length were lost, fields without headers and the end of the stream were
not handled and malformed length & base64 ended with unexpected exceptions.
---
 scarletio/web_common/http_protocol.py | 118 +++++++++++++-------------
 1 file changed, 61 insertions(+), 57 deletions(-)

diff --git a/scarletio/web_common/http_protocol.py b/scarletio/web_common/http_protocol.py
index 831b928..0b9a079 100755
--- a/scarletio/web_common/http_protocol.py
+++ b/scarletio/web_common/http_protocol.py
@@ -176,87 +176,86 @@ class HttpReadProtocol(ReadProtocolBase):
         
         Raises
         ------
-        EOFError
+        ConnectionError
             Connection lost before enough data was received.
         PayloadError
             Invalid data received.
         """
         if is_first:
             await self.read_until(b'--' + boundary)
-            
-            try:
-                maybe_end_0 = await self.read_exactly(2)
-            except EOFError:
-                # End of payload? Ok i guess.
+            if not (await self._read_multipart_boundary_end()):
                 return False, None, None
-            else:
-                if maybe_end_0 == b'\r\n':
-                    pass
-                elif maybe_end_0 == b'--':
-                    # End of payload?
-                    try:
-                        maybe_end_1 = await self.read_exactly(2)
-                    except EOFError:
-                        return False, None, None
-                    else:
-                        if maybe_end_1 == b'\r\n':
-                            return False, None, None
-                        else:
-                            raise PayloadError(
-                                f'Multipart boundary not ended with b\'--\' + b\'\r\n\', got '
-                                f'b\'--\'+{maybe_end_1!r}.'
-                            )
-                else:
-                    raise PayloadError(
-                        f'Multipart boundary not ended either with b\'--\' or b\'\r\n\', got '
-                        f'{maybe_end_0!r}.'
-                    )
         
-        data = await self.read_until(b'\r\n\r\n')
-        headers = parse_http_headers(data, 0)
+        # Read headers till the first empty line. There might be none.
+        lines = []
+        while True:
+            line = await self.read_until(b'\r\n')
+            if not line:
+                break
+            
+            lines.append(line)
+            continue
+        
+        headers = parse_http_headers(b'\r\n'.join(lines), 0)
         
         length = headers.get(CONTENT_LENGTH, None)
         if length is None:
             part = await self.read_until(b'\r\n--' + boundary)
         else:
-            length = int(length)
-            part = await self._read_exactly_as_one(length)
-            try:
-                maybe_boundary = await self.read_exactly(len(boundary) + 4)
-            except EOFError:
-                return False, None, part
+            if not (length.isascii() and length.isdigit()):
+                raise PayloadError(f'{CONTENT_LENGTH} must be a non negative int, got: {length!r}.')
             
+            part = await self.read_exactly(int(length))
+            maybe_boundary = await self.read_exactly(len(boundary) + 4)
             if maybe_boundary != b'\r\n--' + boundary:
                 raise PayloadError(
-                    f'Multipart payload not ended with boundary, expected: b\'\r\n\' + b\'--\' + '
+                    f'Multipart payload not ended with boundary, expected: b\'\\r\\n\' + b\'--\' + '
                     f'{boundary!r}, got {maybe_boundary!r}.'
                 )
-            
-            
-        try:
-            maybe_end_0 = await self.read_exactly(2)
-        except EOFError:
-            return False, headers, part
+        
+        is_more = await self._read_multipart_boundary_end()
+        return is_more, headers, part
+    
+    
+    async def _read_multipart_boundary_end(self):
+        """
+        Reads what follows a boundary.
+        
+        This method is a coroutine.
+        
+        Returns
+        -------
+        is_more : `bool`
+            Whether a multipart field follows.
+        
+        Raises
+        ------
+        ConnectionError
+            Connection lost.
+        PayloadError
+            Invalid data received.
+        """
+        maybe_end_0 = await self.read(2)
+        
+        # End of payload? Ok i guess.
+        if not maybe_end_0:
+            return False
         
         if maybe_end_0 == b'\r\n':
-            return True, headers, part
+            return True
         
         if maybe_end_0 == b'--':
-            try:
-                maybe_end_1 = await self.read_exactly(2)
-            except EOFError:
-                return False, headers, part
-            
-            if maybe_end_1 == b'\r\n':
-                return False, headers, part
+            maybe_end_1 = await self.read(2)
+            if (not maybe_end_1) or (maybe_end_1 == b'\r\n'):
+                return False
             
             raise PayloadError(
-                f'Multipart boundary not ended with b\'--\'+b\'\r\n\', got '
-                f'b\'--\'+{maybe_end_1!r}.'
+                f'Multipart boundary not ended with b\'--\' + b\'\\r\\n\', got '
+                f'b\'--\' + {maybe_end_1!r}.'
             )
         
         raise PayloadError(
-            f'Multipart boundary not ended either with  b\'--\' or b\'\r\n\', got '
+            f'Multipart boundary not ended either with b\'--\' or b\'\\r\\n\', got '
             f'{maybe_end_0!r}.'
         )
     
@@ -281,7 +280,7 @@ class HttpReadProtocol(ReadProtocolBase):
         
         Raises
         ------
-        EOFError
+        ConnectionError
             Connection lost before enough data was received.
         PayloadError
             Invalid data received.
@@ -305,6 +304,8 @@ class HttpReadProtocol(ReadProtocolBase):
         if (boundary is None):
             raise PayloadError(f'Missing boundary: {boundary}.')
         
+        boundary = boundary.encode('utf-8', 'surrogateescape')
+        
         is_first = True
         while True:
             is_more, headers, data = await self._read_single_multipart(boundary, is_first)
@@ -316,10 +317,13 @@ class HttpReadProtocol(ReadProtocolBase):
                 else:
                     transfer_encoding = transfer_encoding.casefold()
                     if transfer_encoding == 'base64':
-                        data = base64_decode(data)
+                        try:
+                            data = base64_decode(data)
+                        except ValueError as exception:
+                            raise PayloadError('Cannot decode base64 data.') from exception
                     elif transfer_encoding == 'quoted-printable':
                         data = qp_decode(data)
-                    elif transfer_encoding in ('binary', '8bit', '7bit'):
+                    elif transfer_encoding in ('', 'binary', '8bit', '7bit'):
                         pass
                     else:
                         raise PayloadError(f'Unknown transfer encoding: {transfer_encoding!r}.')
-- 
2.43.0


From d660d1f5621a14cd4a72499e06ffae44bafbf461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:56 +0000
Subject: [PATCH 029/176] fix: wrong size of text file payloads

The size of the file is not the size of the payload if its encoding or line endings differ.
---
 scarletio/web_common/multipart.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/scarletio/web_common/multipart.py b/scarletio/web_common/multipart.py
index 8a87004..a5c0ab2 100755
--- a/scarletio/web_common/multipart.py
+++ b/scarletio/web_common/multipart.py
@@ -468,14 +468,7 @@ class TextIOPayload(IOBasePayload):
                 keyword_parameters['content_type'] = content_type
         
         IOBasePayload.__init__(self, data, keyword_parameters)
-        
-        try:
-            size = stat(data.fileno()).st_size - data.tell()
-        except OSError:
-            # `data.fileno()` is not supported. Example: `io.BufferedReader(io.BytesIO(b'data'))`
-            size = None
-        
-        self.size = size
+        # The size of the underlying file cannot be used as size, since its encoding and its line endings may be different.
     
     
     async def write(self, writer):
-- 
2.43.0


From 7317f21d8bec886fa92eae8a07a4e01c407770b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:56 +0000
Subject: [PATCH 030/176] fix: line endings of quoted-printable encoded
 payloads were not kept

---
 scarletio/web_common/multipart.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scarletio/web_common/multipart.py b/scarletio/web_common/multipart.py
index a5c0ab2..4dc37d9 100755
--- a/scarletio/web_common/multipart.py
+++ b/scarletio/web_common/multipart.py
@@ -1587,7 +1587,8 @@ class MultipartPayloadWriter:
             chunk = base_64_encode(chunk)
         
         elif transfer_encoding == TRANSFER_ENCODING_QUOTED_PRINTABLE:
-            chunk = qp_encode(chunk)
+            # Line endings are also data; chunks may end inside of them too.
+            chunk = qp_encode(chunk, istext = False)
             
         else:
             pass
-- 
2.43.0


From 38d631674865131a7f942bbb23c56fe8e1b152a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:20 +0000
Subject: [PATCH 031/176] fix: delimiters were not quoted in extended content
 disposition parameters

A non ascii file name containing `;` was cut at it (or added further parameters).
---
 scarletio/web_common/header_building_and_parsing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scarletio/web_common/header_building_and_parsing.py b/scarletio/web_common/header_building_and_parsing.py
index 0abe215..ac059d0 100755
--- a/scarletio/web_common/header_building_and_parsing.py
+++ b/scarletio/web_common/header_building_and_parsing.py
@@ -1,8 +1,7 @@
 __all__ = ()
 
 import re
-
-from .quoting import quote
+from urllib.parse import quote
 
 
 _TOKEN_RP = re.compile(r'[-!#$%&\'*+.^_`|~0-9a-zA-Z]+')
@@ -477,7 +476,8 @@ def build_content_disposition_header(disposition_type, parameters, quote_fields)
                 value = f'"{value!s}"'
             else:
                 key = key + '*'
-                value = quote(value)
+                # Delimiters like `;` must be quoted too.
+                value = quote(value, safe = '')
                 value = f'utf-8\'\'{value!s}'
         else:
             value = value.replace('\\', '\\\\').replace('"', '\\"')
-- 
2.43.0


From 69640e7af07e59e7ddfed8a4cb6c022cbaff265f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:54 +0000
Subject: [PATCH 032/176] fix: declared charset of form fields was ignored

---
 scarletio/web_common/form_data.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scarletio/web_common/form_data.py b/scarletio/web_common/form_data.py
index 4d73e57..bed9aaa 100755
--- a/scarletio/web_common/form_data.py
+++ b/scarletio/web_common/form_data.py
@@ -5,6 +5,7 @@ from urllib.parse import urlencode
 
 from ..utils import IgnoreCaseMultiValueDictionary, MultiValueDictionary, RichAttributeErrorBaseType, to_json
 
+from .content_type import parse_content_type
 from .headers import CONTENT_LENGTH, CONTENT_TRANSFER_ENCODING, CONTENT_TYPE
 from .multipart import BytesPayload, MultipartWriter, create_payload
 
@@ -354,6 +355,11 @@ class FormData(RichAttributeErrorBaseType):
                 else:
                     payload_keyword_parameters['content_type'] = content_type
                     
+                    # The charset declared by the field has priority.
+                    charset = parse_content_type(content_type)[0].get_parameter('charset', None)
+                    if (charset is not None):
+                        payload_keyword_parameters['encoding'] = charset
+                    
                     if type_options:
                         payload_keyword_parameters.update(type_options.kwargs())
                 
-- 
2.43.0


From 555a38b4f21f288f463d79039050b1f9704b7db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:16 +0000
Subject: [PATCH 033/176] fix: pings of web sockets were never answered

---
 .../web_socket/web_socket_common_protocol.py    | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/scarletio/web_socket/web_socket_common_protocol.py b/scarletio/web_socket/web_socket_common_protocol.py
index 2f1f873..3c14c29 100755
--- a/scarletio/web_socket/web_socket_common_protocol.py
+++ b/scarletio/web_socket/web_socket_common_protocol.py
@@ -467,7 +467,7 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
         if data is None:
             data = urandom(4)
         elif isinstance(data, (bytes, bytearray, memoryview)):
-            pass
+            data = bytes(data)
         elif isinstance(data, str):
             data = data.encode('utf-8')
         else:
@@ -815,12 +815,15 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
             return True
         
         # operation_code == OP_PONG:
-        if frame.data in self.pings:
-            #checking all pings up to the one matching this pong.
-            ping_id = b''
-            while ping_id != frame.data:
-                ping_id, pong_waiter = self.pings.popitem(0)
-                pong_waiter.set_resultd_if_pending(None)
+        pings = self.pings
+        pong_id = bytes(frame.data)
+        if pong_id in pings:
+            # checking all pings up to the one matching this pong.
+            while True:
+                ping_id, pong_waiter = pings.popitem(0)
+                pong_waiter.set_result_if_pending(None)
+                if ping_id == pong_id:
+                    break
         
         return True
     
-- 
2.43.0


From 018a11e36b6fd320cb4f8766eae285a8179d259c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:30 +0000
Subject: [PATCH 034/176] fix: too long control frames of web sockets were sent

---
 .../web_socket/web_socket_common_protocol.py  | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/scarletio/web_socket/web_socket_common_protocol.py b/scarletio/web_socket/web_socket_common_protocol.py
index 3c14c29..4b68574 100755
--- a/scarletio/web_socket/web_socket_common_protocol.py
+++ b/scarletio/web_socket/web_socket_common_protocol.py
@@ -437,7 +437,13 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
                 f'Status can be in range [3000:5000), got {code!r}.'
             )
         
-        return code.to_bytes(2, 'big') + reason.encode('utf-8')
+        data = code.to_bytes(2, 'big') + reason.encode('utf-8')
+        if len(data) > 125:
+            raise WebSocketProtocolError(
+                f'Reason can be at most 123 bytes long, got {len(data) - 2!r}; {reprlib.repr(reason)}.'
+            )
+        
+        return data
     
     async def ping(self, data = None):
         """
@@ -482,7 +488,12 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
         waiter = Future(self._loop)
         pings[data] = waiter
         
-        await self.write_frame(WEB_SOCKET_OPERATION_PING, data)
+        try:
+            await self.write_frame(WEB_SOCKET_OPERATION_PING, data)
+        except:
+            if pings.get(data, None) is waiter:
+                del pings[data]
+            raise
         
         await waiter
     
@@ -907,8 +918,8 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
                 if (extensions is not None):
                     for extension in extensions:
                         frame = extension.encode(frame)
-                    
-                    frame.check()
+                
+                frame.check()
                 
                 self.write_web_socket_frame(frame, self.is_client)
                 await self.drain()
-- 
2.43.0


From 6a6f0e4c13c5a22b10edc60f3d95b09893edc99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:30 +0000
Subject: [PATCH 035/176] fix: pings received meanwhile closing a web socket
 blocked closing it

---
 scarletio/web_socket/web_socket_common_protocol.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/scarletio/web_socket/web_socket_common_protocol.py b/scarletio/web_socket/web_socket_common_protocol.py
index 4b68574..3fb89eb 100755
--- a/scarletio/web_socket/web_socket_common_protocol.py
+++ b/scarletio/web_socket/web_socket_common_protocol.py
@@ -822,7 +822,14 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
             return False
         
         if operation_code == WEB_SOCKET_OPERATION_PING:
-            await self.pong(frame.data)
+            # If we are already closing we cannot answer.
+            if self.state == WEB_SOCKET_STATE_OPEN:
+                try:
+                    await self.pong(frame.data)
+                except ConnectionClosed:
+                    # closed meanwhile waiting for sending
+                    pass
+            
             return True
         
         # operation_code == OP_PONG:
-- 
2.43.0


From 8f028fc5383bc77eabe6fc18db93bca942373e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:38 +0000
Subject: [PATCH 036/176] fix: closing web sockets did not wait for their
 connection to close or left it open

---
 .../web_socket/web_socket_common_protocol.py  | 28 ++++---------------
 1 file changed, 6 insertions(+), 22 deletions(-)

diff --git a/scarletio/web_socket/web_socket_common_protocol.py b/scarletio/web_socket/web_socket_common_protocol.py
index 3fb89eb..c2c0ef1 100755
--- a/scarletio/web_socket/web_socket_common_protocol.py
+++ b/scarletio/web_socket/web_socket_common_protocol.py
@@ -636,11 +636,6 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
             # connection was closed
             transfer_data_exception = ConnectionClosed(self.close_code or 1000, None, self.close_reason)
             to_reraise = None
-            
-            # If we are a client and we receive this, we closed our own
-            # connection, there is no reason to wait for TCP abort
-            if self.is_client:
-                self.connection_lost_waiter.set_result_if_pending(None)
         
         if self.transfer_data_exception is None:
             self.transfer_data_exception = transfer_data_exception
@@ -988,30 +983,19 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
                 except TimeoutError:
                     pass
             
-            # Cancel all pending pings because they'll never receive a pong.
-            for ping in self.pings.values():
-                ping.cancel()
-            
-            # A client should wait for a TCP close from the server.
-            if self.is_client and (self.transfer_data_task is not None):
-                if (await self.wait_for_connection_lost()):
-                    return
-            
-            if self.can_write_eof():
-                self.write_eof()
-                if (await self.wait_for_connection_lost()):
-                    return
-        
         except GeneratorExit:
             generator_destroyed = True
             raise
         
         finally:
+            # Cancel all pending pings because they'll never receive a pong.
+            for ping in self.pings.values():
+                ping.cancel()
+            
             # finally ensures that the transport never remains open
-            if self.connection_lost_waiter.is_done() and not self.is_ssl:
-                return
             
             # Close the TCP connection
+            # There is no reason to wait for the other side to do it.
             transport = self._transport
             if (transport is not None):
                 transport.close()
@@ -1040,7 +1024,7 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
             Returns `True` if the connection is lost.
         """
         connection_lost_waiter = self.connection_lost_waiter
-        if not connection_lost_waiter.is_done():
+        if connection_lost_waiter.is_done():
             return True
         
         waiter = shield(connection_lost_waiter, self._loop)
-- 
2.43.0


From 7f837e08cdfa21d37277d7b76f35bd865091c11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:18 +0000
Subject: [PATCH 037/176] fix: web sockets reported connections lost by os
 errors as unexpected

---
 scarletio/web_socket/web_socket_common_protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/web_socket/web_socket_common_protocol.py b/scarletio/web_socket/web_socket_common_protocol.py
index c2c0ef1..c270475 100755
--- a/scarletio/web_socket/web_socket_common_protocol.py
+++ b/scarletio/web_socket/web_socket_common_protocol.py
@@ -602,7 +602,7 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
             self.fail_connection(1002)
             to_reraise = None
         
-        except (ConnectionError, EOFError, TimeoutError) as exception:
+        except (OSError, EOFError) as exception:
             transfer_data_exception = ConnectionClosed(1006, exception)
             self.fail_connection(1006)
             to_reraise = None
-- 
2.43.0


From 6a1c9229840fabfcd32bfda74352996eaa8def45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:18 +0000
Subject: [PATCH 038/176] fix: memoryviews were sent with wrong length by web
 sockets

---
 scarletio/web_socket/web_socket_common_protocol.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scarletio/web_socket/web_socket_common_protocol.py b/scarletio/web_socket/web_socket_common_protocol.py
index c270475..8b083a3 100755
--- a/scarletio/web_socket/web_socket_common_protocol.py
+++ b/scarletio/web_socket/web_socket_common_protocol.py
@@ -347,6 +347,9 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
         
         if isinstance(data, (bytes, bytearray, memoryview)):
             operation_code = WEB_SOCKET_OPERATION_BINARY
+            if isinstance(data, memoryview):
+                # its items might not be bytes
+                data = data.tobytes()
         elif isinstance(data, str):
             operation_code = WEB_SOCKET_OPERATION_TEXT
             data = data.encode('utf-8')
@@ -522,7 +525,7 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
         if data is None:
             data = urandom(4)
         elif isinstance(data, (bytes, bytearray, memoryview)):
-            pass
+            data = bytes(data)
         elif isinstance(data, str):
             data = data.encode('utf-8')
         else:
-- 
2.43.0


From 3de572f0a169408ede57e767f448ecf0f026263f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:47 +0000
Subject: [PATCH 039/176] fix: closing a web socket again was cancelled if
 closing it was cancelled before

---
 scarletio/web_socket/web_socket_common_protocol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scarletio/web_socket/web_socket_common_protocol.py b/scarletio/web_socket/web_socket_common_protocol.py
index 8b083a3..8638901 100755
--- a/scarletio/web_socket/web_socket_common_protocol.py
+++ b/scarletio/web_socket/web_socket_common_protocol.py
@@ -395,7 +395,7 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
         # if close() is cancelled during the wait, self.transfer_data_task is cancelled before the close_timeout
         # elapses
         transfer_data_task = self.transfer_data_task
-        if (transfer_data_task is not None):
+        if (transfer_data_task is not None) and (not transfer_data_task.is_done()):
             transfer_data_task.apply_timeout(self.close_timeout)
             try:
                 await transfer_data_task
@@ -983,7 +983,7 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
             if (transfer_data_task is not None):
                 try:
                     await transfer_data_task
-                except TimeoutError:
+                except (TimeoutError, CancelledError):
                     pass
             
         except GeneratorExit:
-- 
2.43.0


From 1ad2095d5ca7f13db1e72cf57e30efea4591da44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:22 +0000
Subject: [PATCH 040/176] fix: sending with web sockets raised os errors if the
 connection was lost by one

---
 scarletio/web_socket/web_socket_common_protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/web_socket/web_socket_common_protocol.py b/scarletio/web_socket/web_socket_common_protocol.py
index 8638901..e522a91 100755
--- a/scarletio/web_socket/web_socket_common_protocol.py
+++ b/scarletio/web_socket/web_socket_common_protocol.py
@@ -928,7 +928,7 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
                 
                 self.write_web_socket_frame(frame, self.is_client)
                 await self.drain()
-            except ConnectionError:
+            except OSError:
                 self.fail_connection()
                 # raise ConnectionClosed with the correct code and reason.
                 await self.ensure_open()
-- 
2.43.0


From 7fab3d3c0c73f563a7c1acc2215695884283c10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:48 +0000
Subject: [PATCH 041/176] fix: closing a web socket failed if the connection
 was lost meanwhile

---
 scarletio/web_socket/web_socket_common_protocol.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scarletio/web_socket/web_socket_common_protocol.py b/scarletio/web_socket/web_socket_common_protocol.py
index e522a91..c7ab9dd 100755
--- a/scarletio/web_socket/web_socket_common_protocol.py
+++ b/scarletio/web_socket/web_socket_common_protocol.py
@@ -963,7 +963,11 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
         # check connection before we write
         if self.state == WEB_SOCKET_STATE_OPEN:
             self.state = WEB_SOCKET_STATE_CLOSING
-            await self.write_frame(WEB_SOCKET_OPERATION_CLOSE, data, WEB_SOCKET_STATE_CLOSING)
+            try:
+                await self.write_frame(WEB_SOCKET_OPERATION_CLOSE, data, WEB_SOCKET_STATE_CLOSING)
+            except ConnectionClosed:
+                # The connection was lost meanwhile.
+                pass
     
     
     async def close_connection(self):
-- 
2.43.0


From ce31920c3996ab0bb6a1265c38bc15d8a92dd456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:28 +0000
Subject: [PATCH 042/176] fix: expired connections of clients were never closed

---
 scarletio/http_client/protocol_basket.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scarletio/http_client/protocol_basket.py b/scarletio/http_client/protocol_basket.py
index 2bf922c..8443939 100755
--- a/scarletio/http_client/protocol_basket.py
+++ b/scarletio/http_client/protocol_basket.py
@@ -108,6 +108,7 @@ class ProtocolBasket(RichAttributeErrorBaseType):
             del available[index]
             
             transport = protocol.get_transport()
+            protocol.close()
             if self.connection_key.secure and (transport is not None):
                 transport.abort()
         
-- 
2.43.0


From 5469103d775b0bde629407785ddc0151e8a205f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:28 +0000
Subject: [PATCH 043/176] fix: connections ended by the server were reused by
 clients

---
 scarletio/web_common/http_protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/web_common/http_protocol.py b/scarletio/web_common/http_protocol.py
index 0b9a079..3afcac4 100755
--- a/scarletio/web_common/http_protocol.py
+++ b/scarletio/web_common/http_protocol.py
@@ -87,7 +87,7 @@ class HttpReadProtocol(ReadProtocolBase):
         if (self._exception is not None):
             return True
         
-        if (not self._at_eof) and (self._offset or self._chunks):
+        if self._at_eof or self._offset or self._chunks:
             return True
         
         return False
-- 
2.43.0


From 5762a2d65fc224c357367c89cc0000b658a2cf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:41 +0000
Subject: [PATCH 044/176] fix: connections were reused by clients while the
 previous request was only partially written

---
 scarletio/http_client/client_response.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/scarletio/http_client/client_response.py b/scarletio/http_client/client_response.py
index 685e510..7e1b1f3 100755
--- a/scarletio/http_client/client_response.py
+++ b/scarletio/http_client/client_response.py
@@ -261,7 +261,13 @@ class ClientResponse(RichAttributeErrorBaseType):
             keep_alive = raw_message.keep_alive
         
         self.connection = None
-        connection.release(keep_alive)
+        
+        # If the request is not fully written yet, nothing else can be written after it.
+        write_body_task = self.write_body_task
+        if (write_body_task is not None) and (not write_body_task.is_done()):
+            connection.close()
+        else:
+            connection.release(keep_alive)
     
     
     def _notify_content(self):
-- 
2.43.0


From af3184156ec9ba61c1e7ce1af2c3f6e040c03c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:35 +0000
Subject: [PATCH 045/176] fix: web socket servers never checked the origin

---
 scarletio/web_socket/web_socket_server_protocol.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/scarletio/web_socket/web_socket_server_protocol.py b/scarletio/web_socket/web_socket_server_protocol.py
index 3739a34..84f0710 100755
--- a/scarletio/web_socket/web_socket_server_protocol.py
+++ b/scarletio/web_socket/web_socket_server_protocol.py
@@ -159,7 +159,7 @@ class WebSocketServerProtocol(WebSocketCommonProtocol):
     
     __slots__ = (
         'available_extensions', 'available_subprotocols', 'extra_response_headers', 'handler', 'handler_task',
-        'origin', 'origin', 'request_processor', 'server', 'subprotocol_selector', 'request', 'response_headers'
+        'origin', 'request_processor', 'server', 'subprotocol_selector', 'request', 'response_headers'
     )
     
     def __new__(cls, server):
@@ -189,7 +189,6 @@ class WebSocketServerProtocol(WebSocketCommonProtocol):
         
         self.request = None
         self.response_headers = None
-        self.origin = None
         
         return self
     
@@ -366,8 +365,8 @@ class WebSocketServerProtocol(WebSocketCommonProtocol):
                 )
             
             while True:
-                origin = self.origin
-                if (origin is None):
+                expected_origin = self.origin
+                if (expected_origin is None):
                     origin = None
                     break
                 
@@ -381,7 +380,7 @@ class WebSocketServerProtocol(WebSocketCommonProtocol):
                 
                 origin = origin_headers[0]
                 
-                if origin in origin:
+                if origin == expected_origin:
                     break
                     
                 raise InvalidOrigin(origin)
-- 
2.43.0


From f8ec4ee0ad097f59901622c598f5ac0b99d7bfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:35 +0000
Subject: [PATCH 046/176] fix: the upgrade header of web socket handshakes was
 not checked

---
 scarletio/web_socket/web_socket_client.py          | 2 +-
 scarletio/web_socket/web_socket_server_protocol.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/scarletio/web_socket/web_socket_client.py b/scarletio/web_socket/web_socket_client.py
index 59f8e8a..42ae754 100755
--- a/scarletio/web_socket/web_socket_client.py
+++ b/scarletio/web_socket/web_socket_client.py
@@ -291,7 +291,7 @@ class WebSocketClient(WebSocketCommonProtocol):
                 for received_upgrade in received_upgrades:
                     upgrade.extend(parse_upgrades(received_upgrade))
             
-            if len(upgrade) != 1 and upgrade[0].lower() != 'websocket': # ignore case
+            if len(upgrade) != 1 or upgrade[0].lower() != 'websocket': # ignore case
                 raise InvalidHandshake(
                     f'Expected \'WebSocket\' for \'Upgrade\', but got {upgrade!r}.',
                     response = response,
diff --git a/scarletio/web_socket/web_socket_server_protocol.py b/scarletio/web_socket/web_socket_server_protocol.py
index 84f0710..6a64eef 100755
--- a/scarletio/web_socket/web_socket_server_protocol.py
+++ b/scarletio/web_socket/web_socket_server_protocol.py
@@ -311,7 +311,7 @@ class WebSocketServerProtocol(WebSocketCommonProtocol):
                 for upgrade_header in upgrade_headers:
                     upgrade.extend(parse_upgrades(upgrade_header))
             
-            if len(upgrade) != 1 and upgrade[0].lower() != 'websocket': # ignore case
+            if len(upgrade) != 1 or upgrade[0].lower() != 'websocket': # ignore case
                 raise InvalidUpgrade(
                     f'Expected \'WebSocket\' for \'Upgrade\', but got {upgrade!r}.'
                 )
-- 
2.43.0


From 393ac381c7b16fc590aa37541e2764a58e73638e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:35 +0000
Subject: [PATCH 047/176] fix: web socket servers refused clients offering
 unknown extensions and failed to answer the accepted ones

---
 .../web_common/header_building_and_parsing.py | 23 +++++++++++++++----
 .../web_socket/web_socket_server_protocol.py  | 10 ++------
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/scarletio/web_common/header_building_and_parsing.py b/scarletio/web_common/header_building_and_parsing.py
index ac059d0..617089c 100755
--- a/scarletio/web_common/header_building_and_parsing.py
+++ b/scarletio/web_common/header_building_and_parsing.py
@@ -32,6 +32,24 @@ def build_extensions(available_extensions):
         - `encode` : `callable`. Encoder method, what processes the web socket frames to send. Should accept `1`
             parameter, the ``WebSocketFrame``.
     
+    Returns
+    -------
+    header_value : `str`
+    """
+    return build_accepted_extensions(
+        (available_extension.name, available_extension.request_params) for available_extension in available_extensions
+    )
+
+
+def build_accepted_extensions(accepted_extensions):
+    """
+    Builds web socket extensions header from the given names and parameters.
+    
+    Parameters
+    ----------
+    accepted_extensions : `iterable<(str, list<(str, None | str)>)>`
+        Extension name and parameters pairs.
+    
     Returns
     -------
     header_value : `str`
@@ -39,10 +57,7 @@ def build_extensions(available_extensions):
     main_parts = []
     sub_parts = []
     
-    for available_extension in available_extensions:
-        name = available_extension.name
-        parameters = available_extension.request_params
-        
+    for name, parameters in accepted_extensions:
         sub_parts.append(name)
         for key, value in parameters:
             if value is None:
diff --git a/scarletio/web_socket/web_socket_server_protocol.py b/scarletio/web_socket/web_socket_server_protocol.py
index 6a64eef..fef6810 100755
--- a/scarletio/web_socket/web_socket_server_protocol.py
+++ b/scarletio/web_socket/web_socket_server_protocol.py
@@ -9,7 +9,7 @@ from ..core import AsyncQueue, CancelledError, Future, Lock, Task, write_excepti
 from ..utils import IgnoreCaseMultiValueDictionary, is_coroutine
 from ..web_common import AbortHandshake, InvalidHandshake, InvalidOrigin, InvalidUpgrade, PayloadError
 from ..web_common.header_building_and_parsing import (
-    build_extensions, parse_connections, parse_extensions, parse_subprotocols, parse_upgrades
+    build_accepted_extensions, parse_connections, parse_extensions, parse_subprotocols, parse_upgrades
 )
 from ..web_common.headers import (
     CONNECTION, CONTENT_LENGTH, CONTENT_TYPE, DATE, ORIGIN, SEC_WEB_SOCKET_ACCEPT, SEC_WEB_SOCKET_EXTENSIONS,
@@ -412,19 +412,13 @@ class WebSocketServerProtocol(WebSocketCommonProtocol):
                             accepted_extensions.append(extension)
                             extension_headers.append((name, parameters))
                             break
-                    else:
-                        # no matching extension
-                        raise InvalidHandshake(
-                            f'Unsupported extension: name = {name!r}, parameters = {parameters!r}.',
-                            request = request,
-                        )
                     
                     # If we didn't break from the loop, no extension in our list matched what the client sent. The
                     # extension is declined.
                 
                 # Serialize extension header.
                 if extension_headers:
-                    extension_header = build_extensions(extension_headers)
+                    extension_header = build_accepted_extensions(extension_headers)
                     break
                 
                 extension_header = None
-- 
2.43.0


From 6f213aa8a9bd6bd8bbd003005b3a968029f9ef92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:35 +0000
Subject: [PATCH 048/176] fix: web socket clients failed to connect with
 credentials and sent the host un-encoded

---
 scarletio/web_socket/web_socket_client.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scarletio/web_socket/web_socket_client.py b/scarletio/web_socket/web_socket_client.py
index 42ae754..3342fbc 100755
--- a/scarletio/web_socket/web_socket_client.py
+++ b/scarletio/web_socket/web_socket_client.py
@@ -227,16 +227,16 @@ class WebSocketClient(WebSocketCommonProtocol):
         request_headers[SEC_WEB_SOCKET_VERSION] = '13'
         
         if url.port == (443 if is_ssl else 80):
-            request_host = url.host
+            request_host = url.raw_host
         else:
-            request_host = f'{url.host}:{url.port}'
+            request_host = f'{url.raw_host}:{url.port}'
         
         request_headers[HOST] = request_host
         
         user = url.user
         password = url.password
         if (user is not None) or (password is not None):
-            request_headers[AUTHORIZATION] = BasicAuthorization(user, password).encode()
+            request_headers[AUTHORIZATION] = BasicAuthorization(user or '', password or '').to_header()
         
         if origin is not None:
             request_headers[ORIGIN] = origin
-- 
2.43.0


From 88c34efdb80358aa0ae8f80d2b851721d2dccd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:35 +0000
Subject: [PATCH 049/176] fix: web socket servers failed to answer aborted
 handshakes

---
 scarletio/web_socket/web_socket_server_protocol.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scarletio/web_socket/web_socket_server_protocol.py b/scarletio/web_socket/web_socket_server_protocol.py
index fef6810..8aaa049 100755
--- a/scarletio/web_socket/web_socket_server_protocol.py
+++ b/scarletio/web_socket/web_socket_server_protocol.py
@@ -289,8 +289,8 @@ class WebSocketServerProtocol(WebSocketCommonProtocol):
                 
             else:
                 raise AbortHandshake(
-                    SERVICE_UNAVAILABLE,
                     'Server is shutting down.',
+                    SERVICE_UNAVAILABLE,
                     request = request,
                 )
             
@@ -515,7 +515,9 @@ class WebSocketServerProtocol(WebSocketCommonProtocol):
                 if headers is None:
                     headers = IgnoreCaseMultiValueDictionary()
                 body = err.message
-                if not body.endswith('\n'):
+                if isinstance(body, str):
+                    body = body.encode()
+                if not body.endswith(b'\n'):
                     body = body + b'\n'
             
             elif isinstance(err, InvalidOrigin):
-- 
2.43.0


From a8e1a18aca2d750c8a3139adc964cb2465fa1685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:35 +0000
Subject: [PATCH 050/176] fix: non-secure web socket servers treated their
 connections as secure

---
 scarletio/web_socket/web_socket_server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/web_socket/web_socket_server.py b/scarletio/web_socket/web_socket_server.py
index 39eb7cd..9cd2bd6 100755
--- a/scarletio/web_socket/web_socket_server.py
+++ b/scarletio/web_socket/web_socket_server.py
@@ -207,7 +207,7 @@ class WebSocketServer:
         if web_socket_keyword_parameters is None:
             web_socket_keyword_parameters = {}
         
-        is_ssl = (ssl is not None)
+        is_ssl = (ssl_context is not None)
         
         if available_extensions is None:
             available_extensions = []
-- 
2.43.0


From a818b246633a9e4b2fdcb36b20789a8b75587a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:25 +0000
Subject: [PATCH 051/176] fix: connections with switched protocol were released
 for other requests

---
 scarletio/http_client/client_response.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scarletio/http_client/client_response.py b/scarletio/http_client/client_response.py
index 7e1b1f3..86f7422 100755
--- a/scarletio/http_client/client_response.py
+++ b/scarletio/http_client/client_response.py
@@ -234,7 +234,7 @@ class ClientResponse(RichAttributeErrorBaseType):
         connection = self.connection
         if (connection is not None):
             # WebSocket, protocol could be `None`, because connection could be detached.
-            if (connection.protocol is not None) and self.raw_message.upgraded:
+            if (connection.protocol is not None) and (self.raw_message.status == 101):
                 return
             
             self._released = True
@@ -262,9 +262,13 @@ class ClientResponse(RichAttributeErrorBaseType):
         
         self.connection = None
         
+        # If the protocol was switched, no other requests can be sent.
         # If the request is not fully written yet, nothing else can be written after it.
         write_body_task = self.write_body_task
-        if (write_body_task is not None) and (not write_body_task.is_done()):
+        if (
+            ((raw_message is not None) and (raw_message.status == 101)) or
+            ((write_body_task is not None) and (not write_body_task.is_done()))
+        ):
             connection.close()
         else:
             connection.release(keep_alive)
-- 
2.43.0


From dfa52bcbc6357020e0c1df7c50ce86e76867ff9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:25 +0000
Subject: [PATCH 052/176] fix: the payload of responses offering upgrade was
 not read

---
 scarletio/web_common/http_protocol.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scarletio/web_common/http_protocol.py b/scarletio/web_common/http_protocol.py
index 3afcac4..a926416 100755
--- a/scarletio/web_common/http_protocol.py
+++ b/scarletio/web_common/http_protocol.py
@@ -419,7 +419,8 @@ class HttpReadProtocol(ReadProtocolBase):
             
             length = int(length)
         
-        if (not message.upgraded):
+        # A response can offer upgrading as well, but it switches protocol only with status 101.
+        if (not message.upgraded) or (isinstance(message, RawResponseMessage) and (message.status != 101)):
             if isinstance(message, RawResponseMessage) and should_status_code_have_empty_payload(message.status):
                 return None
             
-- 
2.43.0


From 5da16640becd72d0dd97772b222a6bba6d371168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:25 +0000
Subject: [PATCH 053/176] fix: web socket servers failed to answer handshakes
 aborted with integer status code

---
 scarletio/web_socket/web_socket_server_protocol.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scarletio/web_socket/web_socket_server_protocol.py b/scarletio/web_socket/web_socket_server_protocol.py
index 8aaa049..8b6b881 100755
--- a/scarletio/web_socket/web_socket_server_protocol.py
+++ b/scarletio/web_socket/web_socket_server_protocol.py
@@ -4,6 +4,7 @@ import hashlib
 from base64 import b64decode, b64encode
 from binascii import Error as BinasciiError
 from email.utils import formatdate
+from http import HTTPStatus
 
 from ..core import AsyncQueue, CancelledError, Future, Lock, Task, write_exception_async
 from ..utils import IgnoreCaseMultiValueDictionary, is_coroutine
@@ -510,7 +511,10 @@ class WebSocketServerProtocol(WebSocketCommonProtocol):
         
         except BaseException as err:
             if isinstance(err, AbortHandshake):
-                status = err.code
+                try:
+                    status = HTTPStatus(err.code)
+                except ValueError:
+                    status = INTERNAL_SERVER_ERROR
                 headers = err.headers
                 if headers is None:
                     headers = IgnoreCaseMultiValueDictionary()
-- 
2.43.0


From 931e94e73a352334d9776c86856621b3bfb58660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:25 +0000
Subject: [PATCH 054/176] fix: web socket servers left connections open if the
 peer ended it while handshaking

---
 scarletio/web_socket/web_socket_server_protocol.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scarletio/web_socket/web_socket_server_protocol.py b/scarletio/web_socket/web_socket_server_protocol.py
index 8b6b881..cdf9899 100755
--- a/scarletio/web_socket/web_socket_server_protocol.py
+++ b/scarletio/web_socket/web_socket_server_protocol.py
@@ -507,6 +507,8 @@ class WebSocketServerProtocol(WebSocketCommonProtocol):
                 ],
                 loop = self._loop,
             )
+            self.fail_connection()
+            await self.wait_for_connection_lost()
             return False
         
         except BaseException as err:
-- 
2.43.0


From 8831e189640a9545dbcbfadfc1f79bdbddbb403b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:25 +0000
Subject: [PATCH 055/176] fix: web socket servers left connections open if
 their handler failed

---
 scarletio/web_socket/web_socket_server_protocol.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scarletio/web_socket/web_socket_server_protocol.py b/scarletio/web_socket/web_socket_server_protocol.py
index cdf9899..6152ba2 100755
--- a/scarletio/web_socket/web_socket_server_protocol.py
+++ b/scarletio/web_socket/web_socket_server_protocol.py
@@ -237,6 +237,7 @@ class WebSocketServerProtocol(WebSocketCommonProtocol):
                     ],
                     loop = self._loop,
                 )
+                await self.close(1011)
                 return
             
             await self.close()
-- 
2.43.0


From 823456068f679eb74c96e4a813a916fa0e74a6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:44 +0000
Subject: [PATCH 056/176] fix: web socket connections stayed open if they were
 closed before the handshake was done

---
 scarletio/web_socket/web_socket_common_protocol.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scarletio/web_socket/web_socket_common_protocol.py b/scarletio/web_socket/web_socket_common_protocol.py
index c7ab9dd..918e0df 100755
--- a/scarletio/web_socket/web_socket_common_protocol.py
+++ b/scarletio/web_socket/web_socket_common_protocol.py
@@ -408,9 +408,12 @@ class WebSocketCommonProtocol(HttpReadWriteProtocol):
             await shield(close_connection_task, self._loop)
         
         else:
-            # If we are connecting manually call connection lost. This can happen on premature closing.
+            # If we are still connecting, close the connection. This can happen on premature closing.
             if self.state == WEB_SOCKET_STATE_CONNECTING:
-                self.connection_lost(None)
+                if self._transport is None:
+                    self.connection_lost(None)
+                else:
+                    await shield(self.fail_connection(), self._loop)
     
     
     @staticmethod
-- 
2.43.0


From ae2c5676dbe903d975bfcea262cae247f7d24f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:11 +0000
Subject: [PATCH 057/176] fix: web socket clients failed on empty sub-protocol
 headers with an unrelated exception

---
 scarletio/web_socket/web_socket_client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scarletio/web_socket/web_socket_client.py b/scarletio/web_socket/web_socket_client.py
index 3342fbc..4344975 100755
--- a/scarletio/web_socket/web_socket_client.py
+++ b/scarletio/web_socket/web_socket_client.py
@@ -357,9 +357,9 @@ class WebSocketClient(WebSocketCommonProtocol):
                 for received_subprotocol in received_subprotocols:
                     parsed_subprotocol_values.extend(parse_subprotocols(received_subprotocol))
                 
-                if len(parsed_subprotocol_values) > 1:
+                if len(parsed_subprotocol_values) != 1:
                     raise InvalidHandshake(
-                        f'Multiple subprotocols: {parsed_subprotocol_values!r}.',
+                        f'Expected exactly 1 subprotocol, got: {parsed_subprotocol_values!r}.',
                         response = response,
                     )
                 
-- 
2.43.0


From 5974a699b19f06250d5b211d7b1fc4fa966b0a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:46 +0000
Subject: [PATCH 058/176] fix: the encoded payload of responses offering
 upgrade was not decoded

---
 scarletio/web_common/http_protocol.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scarletio/web_common/http_protocol.py b/scarletio/web_common/http_protocol.py
index a926416..741c2f0 100755
--- a/scarletio/web_common/http_protocol.py
+++ b/scarletio/web_common/http_protocol.py
@@ -419,8 +419,12 @@ class HttpReadProtocol(ReadProtocolBase):
             
             length = int(length)
         
+        upgraded = message.upgraded
         # A response can offer upgrading as well, but it switches protocol only with status 101.
-        if (not message.upgraded) or (isinstance(message, RawResponseMessage) and (message.status != 101)):
+        if upgraded and isinstance(message, RawResponseMessage) and (message.status != 101):
+            upgraded = False
+        
+        if (not upgraded):
             if isinstance(message, RawResponseMessage) and should_status_code_have_empty_payload(message.status):
                 return None
             
@@ -459,7 +463,7 @@ class HttpReadProtocol(ReadProtocolBase):
                 
                 return partial_func(self._read_chunked_encoded, decompressor)
             
-            if (not message.upgraded):
+            if (not upgraded):
                 decompressor = get_decompressor_for(message.encoding)
                 if (decompressor is not None):
                     return partial_func(self._read_until_eof_encoded, decompressor)
-- 
2.43.0


From 6a8096b06a2ec0af54ed277c51a50328cb727f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:15 +0000
Subject: [PATCH 059/176] fix: weak collections could not be pickled or copied

---
 scarletio/utils/hybrid_value_dictionary.py | 2 +-
 scarletio/utils/weak_item_dictionary.py    | 2 +-
 scarletio/utils/weak_key_dictionary.py     | 2 +-
 scarletio/utils/weak_map.py                | 2 +-
 scarletio/utils/weak_set.py                | 2 +-
 scarletio/utils/weak_value_dictionary.py   | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/scarletio/utils/hybrid_value_dictionary.py b/scarletio/utils/hybrid_value_dictionary.py
index 1283510..2ae87e5 100755
--- a/scarletio/utils/hybrid_value_dictionary.py
+++ b/scarletio/utils/hybrid_value_dictionary.py
@@ -338,7 +338,7 @@ class HybridValueDictionary(dict):
     @has_docs
     def __reduce__(self):
         """Reduces the dictionary to a picklable object."""
-        return (type(self), list(self.items()))
+        return (type(self), (list(self.items()),))
     
     
     @has_docs
diff --git a/scarletio/utils/weak_item_dictionary.py b/scarletio/utils/weak_item_dictionary.py
index d0dacce..683c538 100755
--- a/scarletio/utils/weak_item_dictionary.py
+++ b/scarletio/utils/weak_item_dictionary.py
@@ -368,7 +368,7 @@ class WeakItemDictionary(dict):
     @has_docs
     def __reduce__(self):
         """Reduces the dictionary to a picklable object."""
-        return (type(self), list(self.items()))
+        return (type(self), (list(self.items()),))
     
     
     @has_docs
diff --git a/scarletio/utils/weak_key_dictionary.py b/scarletio/utils/weak_key_dictionary.py
index 2f6ed0e..efb2399 100755
--- a/scarletio/utils/weak_key_dictionary.py
+++ b/scarletio/utils/weak_key_dictionary.py
@@ -341,7 +341,7 @@ class WeakKeyDictionary(dict):
     @has_docs
     def __reduce__(self):
         """Reduces the dictionary to a picklable object."""
-        return (type(self), list(self.items()))
+        return (type(self), (list(self.items()),))
     
     
     @has_docs
diff --git a/scarletio/utils/weak_map.py b/scarletio/utils/weak_map.py
index 67c6718..617a2dc 100755
--- a/scarletio/utils/weak_map.py
+++ b/scarletio/utils/weak_map.py
@@ -257,7 +257,7 @@ class WeakMap(dict):
     @has_docs
     def __reduce__(self):
         """Reduces the map to a picklable object."""
-        return (type(self), list(self))
+        return (type(self), (list(self),))
     
     
     @has_docs
diff --git a/scarletio/utils/weak_set.py b/scarletio/utils/weak_set.py
index 1011e48..c24eb22 100755
--- a/scarletio/utils/weak_set.py
+++ b/scarletio/utils/weak_set.py
@@ -504,7 +504,7 @@ class WeakSet(set):
     @has_docs
     def __reduce__(self):
         """Reduces the set to a picklable object."""
-        return (type(self), list(self))
+        return (type(self), (list(self),))
     
     
     @has_docs
diff --git a/scarletio/utils/weak_value_dictionary.py b/scarletio/utils/weak_value_dictionary.py
index 10c71e8..2290dec 100755
--- a/scarletio/utils/weak_value_dictionary.py
+++ b/scarletio/utils/weak_value_dictionary.py
@@ -367,7 +367,7 @@ class WeakValueDictionary(dict):
     @has_docs
     def __reduce__(self):
         """Reduces the dictionary to a picklable object."""
-        return (type(self), list(self.items()))
+        return (type(self), (list(self.items()),))
     
     
     @has_docs
-- 
2.43.0


From 6d86d65c1962427ee7ff704b45e9b6737a0f1915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:15 +0000
Subject: [PATCH 060/176] fix: weak key dictionary items with `None` value were
 not found

---
 scarletio/utils/weak_key_dictionary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scarletio/utils/weak_key_dictionary.py b/scarletio/utils/weak_key_dictionary.py
index efb2399..b8061bb 100755
--- a/scarletio/utils/weak_key_dictionary.py
+++ b/scarletio/utils/weak_key_dictionary.py
@@ -166,8 +166,8 @@ class _WeakKeyDictionaryItemIterator(DictionaryItemIteratorBase):
         except TypeError:
             return False
         
-        value = dict.get(self._parent, contains_key_reference)
-        if value is None:
+        value = dict.get(self._parent, contains_key_reference, ...)
+        if value is ...:
             return False
         
         return (value == contains_value)
-- 
2.43.0


From 5e116be1db459a957fb3091e926034bdb8adab87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:15 +0000
Subject: [PATCH 061/176] fix: in-place operations of weak sets with themselves
 failed

---
 scarletio/utils/weak_set.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/scarletio/utils/weak_set.py b/scarletio/utils/weak_set.py
index c24eb22..0c2d1dc 100755
--- a/scarletio/utils/weak_set.py
+++ b/scarletio/utils/weak_set.py
@@ -310,7 +310,8 @@ class WeakSet(set):
     def __isub__(self, other):
         """Update the set, removing elements found in others."""
         if isinstance(other, type(self)):
-            for element_reference in set.__iter__(other):
+            # `other` might be `self`
+            for element_reference in [*set.__iter__(other)]:
                 set.discard(self, element_reference)
             
             return self
@@ -359,11 +360,8 @@ class WeakSet(set):
     def __ixor__(self, other):
         """Update the set, keeping only elements found in either set, but not in both."""
         if isinstance(other, type(self)):
-            for element_reference in set.__iter__(other):
-                element = element_reference()
-                if element is None:
-                    add_to_pending_removals(self, element_reference)
-                    continue
+            for element in [*other]:
+                element_reference = WeakReferer(element)
                 
                 try:
                     set.remove(self, element_reference)
@@ -756,7 +754,8 @@ class WeakSet(set):
             - If an element of `iterable` is now weakreferable.
         """
         if isinstance(iterable, type(self)):
-            for element_reference in set.__iter__(iterable):
+            # `iterable` might be `self`
+            for element_reference in [*set.__iter__(iterable)]:
                 set.discard(self, element_reference)
         
         elif is_iterable(iterable):
@@ -1102,11 +1101,8 @@ class WeakSet(set):
             - If an element of `iterable` is now weakreferable.
         """
         if isinstance(iterable, type(self)):
-            for element_reference in set.__iter__(iterable):
-                element = element_reference()
-                if element is None:
-                    add_to_pending_removals(self, element_reference)
-                    continue
+            for element in [*iterable]:
+                element_reference = WeakReferer(element)
                 
                 try:
                     set.remove(self, element_reference)
-- 
2.43.0


From 379793284a1e2be9bf43a8ba2c0b17de4b87613a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:15 +0000
Subject: [PATCH 062/176] fix: popping missing keys from hybrid value
 dictionaries with default failed

---
 scarletio/utils/hybrid_value_dictionary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/utils/hybrid_value_dictionary.py b/scarletio/utils/hybrid_value_dictionary.py
index 2ae87e5..ad899c6 100755
--- a/scarletio/utils/hybrid_value_dictionary.py
+++ b/scarletio/utils/hybrid_value_dictionary.py
@@ -532,7 +532,7 @@ class HybridValueDictionary(dict):
         """
         value_pair = dict.pop(self, key, ...)
         
-        if (value_pair is not default):
+        if (value_pair is not ...):
             value_weakreferable, value_or_reference = value_pair
             
             if (not value_weakreferable):
-- 
2.43.0


From 9b72499d652615625cc22cca8b649147d3aa82c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:15 +0000
Subject: [PATCH 063/176] fix: dead entries were not removed from copies of
 weak item dictionaries

---
 scarletio/utils/weak_item_dictionary.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scarletio/utils/weak_item_dictionary.py b/scarletio/utils/weak_item_dictionary.py
index 683c538..2ff546d 100755
--- a/scarletio/utils/weak_item_dictionary.py
+++ b/scarletio/utils/weak_item_dictionary.py
@@ -474,8 +474,8 @@ class WeakItemDictionary(dict):
                 add_to_pending_removals(self, key_reference)
                 continue
             
-            key_reference = WeakReferer(key, self._key_callback)
-            value_reference = KeyedReferer(value, self._value_callback, key_reference)
+            key_reference = WeakReferer(key, key_callback)
+            value_reference = KeyedReferer(value, value_callback, key_reference)
             
             dict.__setitem__(new, key_reference, value_reference)
             continue
@@ -518,7 +518,7 @@ class WeakItemDictionary(dict):
             if self._iterating:
                 add_to_pending_removals(self, value_reference.key)
             else:
-                dict.__delitem__(self, key)
+                dict.__delitem__(self, value_reference.key)
         
         return default
     
-- 
2.43.0


From f3de6fe0f73582a82c33c4c6dd020f9214b02232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:30 +0000
Subject: [PATCH 064/176] fix: the length of weak collections was wrong while
 they were iterated

---
 scarletio/utils/hybrid_value_dictionary.py | 17 ++++++++++++-----
 scarletio/utils/weak_item_dictionary.py    | 17 ++++++++++++-----
 scarletio/utils/weak_key_dictionary.py     | 14 +++++++++-----
 scarletio/utils/weak_map.py                | 14 +++++++++-----
 scarletio/utils/weak_set.py                | 14 +++++++++-----
 scarletio/utils/weak_value_dictionary.py   | 14 +++++++++-----
 6 files changed, 60 insertions(+), 30 deletions(-)

diff --git a/scarletio/utils/hybrid_value_dictionary.py b/scarletio/utils/hybrid_value_dictionary.py
index ad899c6..0b5d4ef 100755
--- a/scarletio/utils/hybrid_value_dictionary.py
+++ b/scarletio/utils/hybrid_value_dictionary.py
@@ -302,12 +302,19 @@ class HybridValueDictionary(dict):
     @has_docs
     def __len__(self):
         """Returns the length of the hybrid value dictionary."""
-        length = dict.__len__(self)
-        pending_removals = self._pending_removals
-        if (pending_removals is not None):
-            length -= len(pending_removals)
+        if self._pending_removals is None:
+            return dict.__len__(self)
         
-        return length
+        # Entries might be replaced or removed after they died, so count the alive ones.
+        self._iterating += 1
+        try:
+            return sum(
+                (not value_weakreferable) or (value_or_reference() is not None)
+                for value_weakreferable, value_or_reference in dict.values(self)
+            )
+        finally:
+            self._iterating -= 1
+            self._commit_removals()
     
     # __lt__ -> same
     
diff --git a/scarletio/utils/weak_item_dictionary.py b/scarletio/utils/weak_item_dictionary.py
index 2ff546d..650020f 100755
--- a/scarletio/utils/weak_item_dictionary.py
+++ b/scarletio/utils/weak_item_dictionary.py
@@ -333,12 +333,19 @@ class WeakItemDictionary(dict):
     @has_docs
     def __len__(self):
         """Returns the length of the weak item dictionary."""
-        length = dict.__len__(self)
-        pending_removals = self._pending_removals
-        if (pending_removals is not None):
-            length -= len(pending_removals)
+        if self._pending_removals is None:
+            return dict.__len__(self)
         
-        return length
+        # Entries might be replaced or removed after they died, so count the alive ones.
+        self._iterating += 1
+        try:
+            return sum(
+                (key_reference() is not None) and (value_reference() is not None)
+                for key_reference, value_reference in dict.items(self)
+            )
+        finally:
+            self._iterating -= 1
+            self._commit_removals()
     
     # __lt__ -> same
     
diff --git a/scarletio/utils/weak_key_dictionary.py b/scarletio/utils/weak_key_dictionary.py
index b8061bb..ba2bf43 100755
--- a/scarletio/utils/weak_key_dictionary.py
+++ b/scarletio/utils/weak_key_dictionary.py
@@ -306,12 +306,16 @@ class WeakKeyDictionary(dict):
     @has_docs
     def __len__(self):
         """Returns the length of the weak key dictionary."""
-        length = dict.__len__(self)
-        pending_removals = self._pending_removals
-        if (pending_removals is not None):
-            length -= len(pending_removals)
+        if self._pending_removals is None:
+            return dict.__len__(self)
         
-        return length
+        # Entries might be replaced or removed after they died, so count the alive ones.
+        self._iterating += 1
+        try:
+            return sum((key_reference() is not None) for key_reference in dict.__iter__(self))
+        finally:
+            self._iterating -= 1
+            self._commit_removals()
     
     # __lt__ -> same
     
diff --git a/scarletio/utils/weak_map.py b/scarletio/utils/weak_map.py
index 617a2dc..57fbd02 100755
--- a/scarletio/utils/weak_map.py
+++ b/scarletio/utils/weak_map.py
@@ -225,12 +225,16 @@ class WeakMap(dict):
     @has_docs
     def __len__(self):
         """Returns the length of the weak map."""
-        length = dict.__len__(self)
-        pending_removals = self._pending_removals
-        if (pending_removals is not None):
-            length -= len(pending_removals)
+        if self._pending_removals is None:
+            return dict.__len__(self)
         
-        return length
+        # Entries might be replaced or removed after they died, so count the alive ones.
+        self._iterating += 1
+        try:
+            return sum((reference() is not None) for reference in dict.__iter__(self))
+        finally:
+            self._iterating -= 1
+            self._commit_removals()
     
     # __lt__ -> same
     
diff --git a/scarletio/utils/weak_set.py b/scarletio/utils/weak_set.py
index 0c2d1dc..4ce95d7 100755
--- a/scarletio/utils/weak_set.py
+++ b/scarletio/utils/weak_set.py
@@ -421,12 +421,16 @@ class WeakSet(set):
     @has_docs
     def __len__(self):
         """Returns the length of the set."""
-        length = set.__len__(self)
-        pending_removals = self._pending_removals
-        if (pending_removals is not None):
-            length -= len(pending_removals)
+        if self._pending_removals is None:
+            return set.__len__(self)
         
-        return length
+        # Entries might be replaced or removed after they died, so count the alive ones.
+        self._iterating += 1
+        try:
+            return sum((reference() is not None) for reference in set.__iter__(self))
+        finally:
+            self._iterating -= 1
+            self._commit_removals()
     
     
     @has_docs
diff --git a/scarletio/utils/weak_value_dictionary.py b/scarletio/utils/weak_value_dictionary.py
index 2290dec..25dfedb 100755
--- a/scarletio/utils/weak_value_dictionary.py
+++ b/scarletio/utils/weak_value_dictionary.py
@@ -332,12 +332,16 @@ class WeakValueDictionary(dict):
     @has_docs
     def __len__(self):
         """Returns the length of the weak value dictionary."""
-        length = dict.__len__(self)
-        pending_removals = self._pending_removals
-        if (pending_removals is not None):
-            length -= len(pending_removals)
+        if self._pending_removals is None:
+            return dict.__len__(self)
         
-        return length
+        # Entries might be replaced or removed after they died, so count the alive ones.
+        self._iterating += 1
+        try:
+            return sum((value_reference() is not None) for value_reference in dict.values(self))
+        finally:
+            self._iterating -= 1
+            self._commit_removals()
     
     # __lt__ -> same
     
-- 
2.43.0


From e61aa8dd6789f644e1ee23f3fb6d0f6b868b0174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:59 +0000
Subject: [PATCH 065/176] fix: dead entries of weak value dictionaries were
 never removed if they died while iterating

---
 scarletio/utils/hybrid_value_dictionary.py | 5 ++++-
 scarletio/utils/weak_value_dictionary.py   | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/scarletio/utils/hybrid_value_dictionary.py b/scarletio/utils/hybrid_value_dictionary.py
index 0b5d4ef..204d4b2 100755
--- a/scarletio/utils/hybrid_value_dictionary.py
+++ b/scarletio/utils/hybrid_value_dictionary.py
@@ -3,7 +3,7 @@ __all__ = ('HybridValueDictionary', )
 from .dict_iterator_bases import DictionaryItemIteratorBase, DictionaryKeyIteratorBase, DictionaryValueIteratorBase
 from .dict_update_iterable_iterator import _dict_update_iterable_iterator
 from .docs import copy_docs, has_docs
-from .weak_core import KeyedReferer, add_to_pending_removals, is_weakreferable
+from .weak_core import KeyedReferer, WeakHasher, add_to_pending_removals, is_weakreferable
 from .weak_value_dictionary import _WeakValueDictionaryCallback
 
 
@@ -183,6 +183,9 @@ class HybridValueDictionary(dict):
         self._pending_removals = None
         
         for value_reference in pending_removals:
+            if isinstance(value_reference, WeakHasher):
+                value_reference = value_reference.reference
+            
             key = value_reference.key
             try:
                 value_pair = dict.__getitem__(self, key)
diff --git a/scarletio/utils/weak_value_dictionary.py b/scarletio/utils/weak_value_dictionary.py
index 25dfedb..c291a96 100755
--- a/scarletio/utils/weak_value_dictionary.py
+++ b/scarletio/utils/weak_value_dictionary.py
@@ -3,7 +3,7 @@ __all__ = ('WeakValueDictionary', )
 from .dict_iterator_bases import DictionaryItemIteratorBase, DictionaryKeyIteratorBase, DictionaryValueIteratorBase
 from .dict_update_iterable_iterator import _dict_update_iterable_iterator
 from .docs import copy_docs, has_docs
-from .weak_core import KeyedReferer, WeakReferer, add_to_pending_removals
+from .weak_core import KeyedReferer, WeakHasher, WeakReferer, add_to_pending_removals
 
 
 @has_docs
@@ -222,6 +222,9 @@ class WeakValueDictionary(dict):
         self._pending_removals = None
         
         for value_reference in pending_removals:
+            if isinstance(value_reference, WeakHasher):
+                value_reference = value_reference.reference
+            
             key = value_reference.key
             try:
                 actual_value_reference = dict.__getitem__(self, key)
-- 
2.43.0


From 2c890ae789fd88e63b0ac825456a19a7ce09eaa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:59 +0000
Subject: [PATCH 066/176] fix: keys and values of half dead weak item
 dictionary entries were still iterated

---
 scarletio/utils/weak_item_dictionary.py | 56 +++++++++++++++++++++----
 1 file changed, 48 insertions(+), 8 deletions(-)

diff --git a/scarletio/utils/weak_item_dictionary.py b/scarletio/utils/weak_item_dictionary.py
index 650020f..6b08967 100755
--- a/scarletio/utils/weak_item_dictionary.py
+++ b/scarletio/utils/weak_item_dictionary.py
@@ -1,10 +1,10 @@
 __all__ = ('WeakItemDictionary',)
 
-from .dict_iterator_bases import DictionaryItemIteratorBase, DictionaryValueIteratorBase
+from .dict_iterator_bases import DictionaryItemIteratorBase, DictionaryKeyIteratorBase, DictionaryValueIteratorBase
 from .dict_update_iterable_iterator import _dict_update_iterable_iterator
 from .docs import copy_docs, has_docs
 from .weak_core import KeyedReferer, WeakReferer, add_to_pending_removals
-from .weak_key_dictionary import _WeakKeyDictionaryCallback, _WeakKeyDictionaryKeyIterator
+from .weak_key_dictionary import _WeakKeyDictionaryCallback
 
 
 @has_docs
@@ -60,6 +60,38 @@ class _WeakItemDictionaryValueCallback:
                 pass
 
 
+class _WeakItemDictionaryKeyIterator(DictionaryKeyIteratorBase):
+    __slots__ = ()
+    
+    @copy_docs(DictionaryKeyIteratorBase.__iter__)
+    def __iter__(self):
+        parent = self._parent
+        parent._iterating += 1
+        
+        try:
+            for key_reference, value_reference in dict.items(parent):
+                key = key_reference()
+                if (key is None):
+                    add_to_pending_removals(parent, key_reference)
+                    continue
+                
+                if (value_reference() is None):
+                    add_to_pending_removals(parent, key_reference)
+                    continue
+                
+                yield key
+                continue
+        
+        finally:
+            parent._iterating -= 1
+            parent._commit_removals()
+    
+    
+    @copy_docs(DictionaryKeyIteratorBase.__contains__)
+    def __contains__(self, contains_key):
+        return (contains_key in self._parent)
+
+
 class _WeakItemDictionaryValueIterator(DictionaryValueIteratorBase):
     __slots__ = ()
     
@@ -69,10 +101,14 @@ class _WeakItemDictionaryValueIterator(DictionaryValueIteratorBase):
         parent._iterating += 1
         
         try:
-            for value_reference in dict.values(parent):
+            for key_reference, value_reference in dict.items(parent):
+                if (key_reference() is None):
+                    add_to_pending_removals(parent, key_reference)
+                    continue
+                
                 value = value_reference()
                 if (value is None):
-                    add_to_pending_removals(parent, value_reference.key)
+                    add_to_pending_removals(parent, key_reference)
                     continue
                 
                 yield value
@@ -86,10 +122,14 @@ class _WeakItemDictionaryValueIterator(DictionaryValueIteratorBase):
     @copy_docs(DictionaryValueIteratorBase.__contains__)
     def __contains__(self, contains_value):
         parent = self._parent
-        for value_reference in dict.values(parent):
+        for key_reference, value_reference in dict.items(parent):
+            if (key_reference() is None):
+                add_to_pending_removals(parent, key_reference)
+                continue
+            
             value = value_reference()
             if (value is None):
-                add_to_pending_removals(parent, value_reference.key)
+                add_to_pending_removals(parent, key_reference)
                 continue
             
             if value == contains_value:
@@ -326,7 +366,7 @@ class WeakItemDictionary(dict):
     @has_docs
     def __iter__(self):
         """Returns a ``_WeakItemDictionaryKeyIterator`` iterating over the weak item dictionary's keys."""
-        return iter(_WeakKeyDictionaryKeyIterator(self))
+        return iter(_WeakItemDictionaryKeyIterator(self))
     
     # __le__ -> same
     
@@ -551,7 +591,7 @@ class WeakItemDictionary(dict):
         -------
         key_iterator : ``_WeakKeyDictionaryKeyIterator``
         """
-        return _WeakKeyDictionaryKeyIterator(self)
+        return _WeakItemDictionaryKeyIterator(self)
     
     
     @has_docs
-- 
2.43.0


From 455dd2af5a4ff1c23aa8bdb816644dc260282e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:00 +0000
Subject: [PATCH 067/176] fix: replaced weak item dictionary values were
 removed if the old one died while iterating

---
 scarletio/utils/weak_item_dictionary.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/scarletio/utils/weak_item_dictionary.py b/scarletio/utils/weak_item_dictionary.py
index 6b08967..01b084e 100755
--- a/scarletio/utils/weak_item_dictionary.py
+++ b/scarletio/utils/weak_item_dictionary.py
@@ -251,10 +251,15 @@ class WeakItemDictionary(dict):
         self._pending_removals = None
         
         for key_reference in pending_removals:
-            try:
-                dict.__delitem__(self, key_reference)
-            except KeyError:
-                pass
+            value_reference = dict.get(self, key_reference, None)
+            if value_reference is None:
+                continue
+            
+            # The value might have been replaced since.
+            if (key_reference() is not None) and (value_reference() is not None):
+                continue
+            
+            dict.__delitem__(self, key_reference)
     
     # __class__ -> same
     
-- 
2.43.0


From db8cad151abd8ab543d1202af7c82ad52a3924aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:07 +0000
Subject: [PATCH 068/176] fix: weak collections compared as different if dead
 entries were kept while iterating

---
 scarletio/utils/hybrid_value_dictionary.py |  8 ++++----
 scarletio/utils/weak_item_dictionary.py    |  8 ++++----
 scarletio/utils/weak_key_dictionary.py     | 10 +++++-----
 scarletio/utils/weak_map.py                |  8 ++++----
 scarletio/utils/weak_set.py                | 20 ++++++++++----------
 scarletio/utils/weak_value_dictionary.py   |  8 ++++----
 6 files changed, 31 insertions(+), 31 deletions(-)

diff --git a/scarletio/utils/hybrid_value_dictionary.py b/scarletio/utils/hybrid_value_dictionary.py
index 204d4b2..02e3d4a 100755
--- a/scarletio/utils/hybrid_value_dictionary.py
+++ b/scarletio/utils/hybrid_value_dictionary.py
@@ -234,9 +234,9 @@ class HybridValueDictionary(dict):
     def __eq__(self, other):
         """Returns whether the two dictionaries are the same."""
         if isinstance(other, type(self)):
-            return dict.__eq__(self, other)
+            other = dict(other.items())
         
-        if isinstance(other, dict):
+        elif isinstance(other, dict):
             pass
         
         elif hasattr(type(other), '__iter__'):
@@ -325,9 +325,9 @@ class HybridValueDictionary(dict):
     def __ne__(self, other):
         """Returns whether the two dictionaries are different."""
         if isinstance(other, type(self)):
-            return dict.__ne__(self, other)
+            other = dict(other.items())
         
-        if isinstance(other, dict):
+        elif isinstance(other, dict):
             pass
         
         elif hasattr(type(other), '__iter__'):
diff --git a/scarletio/utils/weak_item_dictionary.py b/scarletio/utils/weak_item_dictionary.py
index 01b084e..0b61413 100755
--- a/scarletio/utils/weak_item_dictionary.py
+++ b/scarletio/utils/weak_item_dictionary.py
@@ -304,9 +304,9 @@ class WeakItemDictionary(dict):
     def __eq__(self, other):
         """Returns whether the two dictionaries are the same."""
         if isinstance(other, type(self)):
-            return dict.__eq__(self, other)
+            other = dict(other.items())
         
-        if isinstance(other, dict):
+        elif isinstance(other, dict):
             pass
         
         elif hasattr(type(other), '__iter__'):
@@ -397,9 +397,9 @@ class WeakItemDictionary(dict):
     def __ne__(self, other):
         """Returns whether the two dictionaries are different."""
         if isinstance(other, type(self)):
-            return dict.__ne__(self, other)
+            other = dict(other.items())
         
-        if isinstance(other, dict):
+        elif isinstance(other, dict):
             pass
         
         elif hasattr(type(other), '__iter__'):
diff --git a/scarletio/utils/weak_key_dictionary.py b/scarletio/utils/weak_key_dictionary.py
index ba2bf43..86c60e3 100755
--- a/scarletio/utils/weak_key_dictionary.py
+++ b/scarletio/utils/weak_key_dictionary.py
@@ -218,7 +218,7 @@ class WeakKeyDictionary(dict):
             try:
                 dict.__delitem__(self, key_reference)
             except KeyError:
-                return
+                pass
     
     # __class__ -> same
     
@@ -247,9 +247,9 @@ class WeakKeyDictionary(dict):
     def __eq__(self, other):
         """Returns whether the two dictionaries are the same."""
         if isinstance(other, type(self)):
-            return dict.__eq__(self, other)
+            other = dict(other.items())
         
-        if isinstance(other, dict):
+        elif isinstance(other, dict):
             pass
         
         elif hasattr(type(other), '__iter__'):
@@ -322,9 +322,9 @@ class WeakKeyDictionary(dict):
     def __ne__(self, other):
         """Returns whether the two dictionaries are different."""
         if isinstance(other, type(self)):
-            return dict.__ne__(self, other)
+            other = dict(other.items())
         
-        if isinstance(other, dict):
+        elif isinstance(other, dict):
             pass
         
         elif hasattr(type(other), '__iter__'):
diff --git a/scarletio/utils/weak_map.py b/scarletio/utils/weak_map.py
index 57fbd02..4bf83ce 100755
--- a/scarletio/utils/weak_map.py
+++ b/scarletio/utils/weak_map.py
@@ -136,9 +136,9 @@ class WeakMap(dict):
     def __eq__(self, other):
         """returns whether the two weak maps are equal."""
         if isinstance(other, type(self)):
-            return dict.__eq__(self, other)
+            other = set(iter(other))
         
-        if isinstance(other, set):
+        elif isinstance(other, set):
             pass
         
         elif hasattr(type(other), '__iter__'):
@@ -241,9 +241,9 @@ class WeakMap(dict):
     def __ne__(self, other):
         """returns whether the two weak maps are equal."""
         if isinstance(other, type(self)):
-            return dict.__ne__(self, other)
+            other = set(iter(other))
         
-        if isinstance(other, set):
+        elif isinstance(other, set):
             pass
         
         elif hasattr(type(other), '__iter__'):
diff --git a/scarletio/utils/weak_set.py b/scarletio/utils/weak_set.py
index 4ce95d7..79ec8c0 100755
--- a/scarletio/utils/weak_set.py
+++ b/scarletio/utils/weak_set.py
@@ -150,9 +150,9 @@ class WeakSet(set):
     
     def __eq__(self, other):
         if isinstance(other, type(self)):
-            return set.__eq__(self, other)
+            other = set(iter(other))
         
-        if isinstance(other, set):
+        elif isinstance(other, set):
             pass
         
         elif is_iterable(other):
@@ -176,7 +176,7 @@ class WeakSet(set):
     def __ge__(self, other):
         """Returns whether every element in other is in the set."""
         if isinstance(other, type(self)):
-            return set.__ge__(self, other)
+            other = set(iter(other))
         
         elif isinstance(other, set):
             pass
@@ -199,7 +199,7 @@ class WeakSet(set):
     def __gt__(self, other):
         """Returns whether the set is a proper superset of other."""
         if isinstance(other, type(self)):
-            return set.__gt__(self, other)
+            other = set(iter(other))
         
         elif isinstance(other, set):
             pass
@@ -402,7 +402,7 @@ class WeakSet(set):
     def __le__(self, other):
         """Returns whether every element in the set is in other."""
         if isinstance(other, type(self)):
-            return set.__le__(self, other)
+            other = set(iter(other))
         
         elif isinstance(other, set):
             pass
@@ -437,7 +437,7 @@ class WeakSet(set):
     def __lt__(self, other):
         """Test whether the set is a proper superset of other"""
         if isinstance(other, type(self)):
-            return set.__lt__(self, other)
+            other = set(iter(other))
         
         elif isinstance(other, set):
             pass
@@ -455,9 +455,9 @@ class WeakSet(set):
     
     def  __ne__(self, other):
         if isinstance(other, type(self)):
-            return set.__ne__(self, other)
+            other = set(iter(other))
         
-        if isinstance(other, set):
+        elif isinstance(other, set):
             pass
         
         elif is_iterable(other):
@@ -939,7 +939,7 @@ class WeakSet(set):
             - If an element of `iterable` is not hashable.
         """
         if isinstance(iterable, type(self)):
-            return set.__le__(self, iterable)
+            iterable = set(iter(iterable))
         
         elif isinstance(iterable, set):
             pass
@@ -976,7 +976,7 @@ class WeakSet(set):
             - If an element of `iterable` is not hashable.
         """
         if isinstance(iterable, type(self)):
-            return set.__ge__(self, iterable)
+            iterable = set(iter(iterable))
         
         elif isinstance(iterable, set):
             pass
diff --git a/scarletio/utils/weak_value_dictionary.py b/scarletio/utils/weak_value_dictionary.py
index c291a96..6c3f69f 100755
--- a/scarletio/utils/weak_value_dictionary.py
+++ b/scarletio/utils/weak_value_dictionary.py
@@ -267,9 +267,9 @@ class WeakValueDictionary(dict):
     def __eq__(self, other):
         """Returns whether the two dictionaries are the same."""
         if isinstance(other, type(self)):
-            return dict.__eq__(self, other)
+            other = dict(other.items())
         
-        if isinstance(other, dict):
+        elif isinstance(other, dict):
             pass
         
         elif hasattr(type(other), '__iter__'):
@@ -351,9 +351,9 @@ class WeakValueDictionary(dict):
     def __ne__(self, other):
         """Returns whether the two dictionaries are different."""
         if isinstance(other, type(self)):
-            return dict.__ne__(self, other)
+            other = dict(other.items())
         
-        if isinstance(other, dict):
+        elif isinstance(other, dict):
             pass
         
         elif hasattr(type(other), '__iter__'):
-- 
2.43.0


From 2c92702e31ada0204b520e5d94e125e3317716fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:42 +0000
Subject: [PATCH 069/176] fix: giving up on redirects raised `AttributeError`

---
 scarletio/http_client/client_response.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scarletio/http_client/client_response.py b/scarletio/http_client/client_response.py
index 86f7422..6823ae9 100755
--- a/scarletio/http_client/client_response.py
+++ b/scarletio/http_client/client_response.py
@@ -59,6 +59,9 @@ class ClientResponse(RichAttributeErrorBaseType):
     raw_message : `None | RawResponseMessage`
         Raw received http response.
     
+    request_info : ``RequestInfo``
+        Information about the respective request.
+    
     url : ``URL``
         The requested url.
     
@@ -67,7 +70,7 @@ class ClientResponse(RichAttributeErrorBaseType):
     """
     __slots__ = (
         '_released', 'body', 'closed', 'connection', 'cookies', 'history', 'loop', 'method', 'payload_stream',
-        'raw_message', 'url', 'write_body_task' 
+        'raw_message', 'request_info', 'url', 'write_body_task' 
     )
        
     def __new__(cls, request, connection):
@@ -94,6 +97,7 @@ class ClientResponse(RichAttributeErrorBaseType):
         self.method = request.method
         self.payload_stream = None
         self.raw_message = None
+        self.request_info = request.request_info
         self.url = request.original_url
         self.write_body_task = request.write_body_task
         
-- 
2.43.0


From b0dad6b8239b3d79fb578a2da467dd30b689345f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:42 +0000
Subject: [PATCH 070/176] fix: authorization, cookies and the host were sent to
 the target of cross origin redirects

---
 scarletio/http_client/http_client.py | 39 ++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/scarletio/http_client/http_client.py b/scarletio/http_client/http_client.py
index eb39a7e..bcd60c3 100755
--- a/scarletio/http_client/http_client.py
+++ b/scarletio/http_client/http_client.py
@@ -5,7 +5,7 @@ from warnings import warn
 from ..utils import IgnoreCaseMultiValueDictionary, RichAttributeErrorBaseType, export
 from ..web_common import CookieJar, URL
 from ..web_common.headers import (
-    AUTHORIZATION, CONTENT_LENGTH, LOCATION, METHOD_DELETE, METHOD_GET, METHOD_HEAD, METHOD_OPTIONS, METHOD_PATCH,
+    AUTHORIZATION, CONTENT_LENGTH, COOKIE, HOST, LOCATION, METHOD_DELETE, METHOD_GET, METHOD_HEAD, METHOD_OPTIONS, METHOD_PATCH,
     METHOD_POST, METHOD_PUT, URI
 )
 from ..web_common.helpers import Timeout, set_tcp_nodelay
@@ -212,6 +212,7 @@ class HTTPClient(RichAttributeErrorBaseType):
         
         headers = IgnoreCaseMultiValueDictionary(headers)
         
+        authorization = None
         history = []
         url = URL(url)
         
@@ -223,17 +224,20 @@ class HTTPClient(RichAttributeErrorBaseType):
                     self.loop,
                     method,
                     url,
-                    headers,
+                    headers.copy(),
                     data,
                     query,
                     cookies,
-                    None,
+                    authorization,
                     None,
                     self.proxy,
                     None,
                     None,
                 )
                 
+                # Keep the authorization detected from the url.
+                authorization = request.authorization
+                
                 connection = await self.connector.connect(request)
                 
                 set_tcp_nodelay(connection.get_transport(), True)
@@ -286,11 +290,16 @@ class HTTPClient(RichAttributeErrorBaseType):
                     elif not scheme:
                         redirect_url = url.join(redirect_url)
                     
+                    # Do not leak anything that belongs to the original host.
                     if url.origin() != redirect_url.origin():
-                        try:
-                            del headers[AUTHORIZATION]
-                        except KeyError:
-                            pass
+                        authorization = None
+                        for header_name in (AUTHORIZATION, COOKIE, HOST):
+                            headers.pop_all(header_name, None)
+                    
+                    # The authorization in the url has priority.
+                    if redirect_url.user:
+                        authorization = None
+                        headers.pop_all(AUTHORIZATION, None)
                     
                     url = redirect_url
                     query = None
@@ -485,7 +494,7 @@ class HTTPClient(RichAttributeErrorBaseType):
                     self.loop,
                     method,
                     url,
-                    headers,
+                    headers.copy(),
                     data,
                     query,
                     cookies,
@@ -496,6 +505,9 @@ class HTTPClient(RichAttributeErrorBaseType):
                     ssl_fingerprint,
                 )
                 
+                # Keep the authorization detected from the url.
+                authorization = request.authorization
+                
                 connection = await self.connector.connect(request)
                 
                 set_tcp_nodelay(connection.get_transport(), True)
@@ -548,6 +560,17 @@ class HTTPClient(RichAttributeErrorBaseType):
                     elif not scheme:
                         redirect_url = url.join(redirect_url)
                     
+                    # Do not leak anything that belongs to the original host.
+                    if url.origin() != redirect_url.origin():
+                        authorization = None
+                        for header_name in (AUTHORIZATION, COOKIE, HOST):
+                            headers.pop_all(header_name, None)
+                    
+                    # The authorization in the url has priority.
+                    if redirect_url.user:
+                        authorization = None
+                        headers.pop_all(AUTHORIZATION, None)
+                    
                     url = redirect_url
                     query = None
                     continue
-- 
2.43.0


From 850727058257fc5fa34b6a15aae1cded51b4e80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:42 +0000
Subject: [PATCH 071/176] fix: relative and encoded redirect locations were
 resolved incorrectly

---
 scarletio/http_client/http_client.py | 35 ++++++++++++++++++----------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/scarletio/http_client/http_client.py b/scarletio/http_client/http_client.py
index bcd60c3..042ac2b 100755
--- a/scarletio/http_client/http_client.py
+++ b/scarletio/http_client/http_client.py
@@ -1,12 +1,13 @@
 __all__ = ('HTTPClient', )
 
+from urllib.parse import urljoin as url_join
 from warnings import warn
 
 from ..utils import IgnoreCaseMultiValueDictionary, RichAttributeErrorBaseType, export
 from ..web_common import CookieJar, URL
 from ..web_common.headers import (
-    AUTHORIZATION, CONTENT_LENGTH, COOKIE, HOST, LOCATION, METHOD_DELETE, METHOD_GET, METHOD_HEAD, METHOD_OPTIONS, METHOD_PATCH,
-    METHOD_POST, METHOD_PUT, URI
+    AUTHORIZATION, CONTENT_LENGTH, COOKIE, HOST, LOCATION, METHOD_DELETE, METHOD_GET, METHOD_HEAD, METHOD_OPTIONS,
+    METHOD_PATCH, METHOD_POST, METHOD_PUT, URI
 )
 from ..web_common.helpers import Timeout, set_tcp_nodelay
 from ..web_socket import WebSocketClient
@@ -276,10 +277,18 @@ class HTTPClient(RichAttributeErrorBaseType):
                     
                     response.release()
                     
-                    redirect_url = URL(redirect_url)
+                    try:
+                        redirect_url = URL(url_join(url.value_encoded, redirect_url), True)
+                    except ValueError as exception:
+                        response.close()
+                        raise ConnectionError(
+                            f'Invalid redirect location, got {redirect_url!r}',
+                            history[0].request_info,
+                            tuple(history),
+                        ) from exception
                     
                     scheme = redirect_url.scheme
-                    if scheme not in ('http', 'https', ''):
+                    if scheme not in ('http', 'https'):
                         response.close()
                         raise ConnectionError(
                             f'Can redirect only to http or https, got {scheme!r}',
@@ -287,9 +296,6 @@ class HTTPClient(RichAttributeErrorBaseType):
                             tuple(history),
                         )
                     
-                    elif not scheme:
-                        redirect_url = url.join(redirect_url)
-                    
                     # Do not leak anything that belongs to the original host.
                     if url.origin() != redirect_url.origin():
                         authorization = None
@@ -546,10 +552,18 @@ class HTTPClient(RichAttributeErrorBaseType):
                     
                     response.release()
                     
-                    redirect_url = URL(redirect_url)
+                    try:
+                        redirect_url = URL(url_join(url.value_encoded, redirect_url), True)
+                    except ValueError as exception:
+                        response.close()
+                        raise ConnectionError(
+                            f'Invalid redirect location, got {redirect_url!r}',
+                            history[0].request_info,
+                            tuple(history),
+                        ) from exception
                     
                     scheme = redirect_url.scheme
-                    if scheme not in ('http', 'https', ''):
+                    if scheme not in ('http', 'https'):
                         response.close()
                         raise ConnectionError(
                             f'Can redirect only to http or https, got {scheme!r}',
@@ -557,9 +571,6 @@ class HTTPClient(RichAttributeErrorBaseType):
                             tuple(history),
                         )
                     
-                    elif not scheme:
-                        redirect_url = url.join(redirect_url)
-                    
                     # Do not leak anything that belongs to the original host.
                     if url.origin() != redirect_url.origin():
                         authorization = None
-- 
2.43.0


From 3ce41b5acb79925bc703da0e6a62671c8f0983ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:10 +0000
Subject: [PATCH 072/176] fix: CookieJar compared the expiration dates of
 cookies with the monotonic clock

---
 scarletio/web_common/cookiejar.py | 35 ++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/scarletio/web_common/cookiejar.py b/scarletio/web_common/cookiejar.py
index 1f7c1fd..f14e5eb 100755
--- a/scarletio/web_common/cookiejar.py
+++ b/scarletio/web_common/cookiejar.py
@@ -4,9 +4,7 @@ import re
 from collections import defaultdict
 from datetime import datetime as DateTime, timezone as TimeZone
 from http.cookies import Morsel, SimpleCookie
-from math import ceil
-
-from ..core import LOOP_TIME
+from time import time as time_now
 
 from .helpers import is_ip_address
 from .url import URL
@@ -99,7 +97,11 @@ def parse_cookie_date(date_str):
             or (day > 31) or (hour > 23) or (minute > 59) or (second > 59):
         return None
     
-    return DateTime(year, month, day, hour, minute, second, tzinfo = TimeZone.utc)
+    try:
+        return DateTime(year, month, day, hour, minute, second, tzinfo = TimeZone.utc)
+    except ValueError:
+        # The month is shorter.
+        return None
 
 
 def do_domains_match(domain, host_name):
@@ -181,7 +183,7 @@ class CookieJar:
     host_only_cookies : `set` of `tuple` (`str`, `str`)
         Reference of hosts only cookies in tuples as `host-name`, `host` pairs.
     next_expiration : `float`
-        The next expiration's monotonic time.
+        The next expiration's time.
     unsafe : `bool`
         Whether the jar accepts unsafe cookies as well.
     """
@@ -199,7 +201,7 @@ class CookieJar:
         self.cookies = defaultdict(SimpleCookie)
         self.host_only_cookies = set()
         self.unsafe = unsafe
-        self.next_expiration = ceil(LOOP_TIME())
+        self.next_expiration = time_now()
         self.expirations = {}
     
     def __getstate__(self):
@@ -226,7 +228,7 @@ class CookieJar:
         """
         self.cookies.clear()
         self.host_only_cookies.clear()
-        self.next_expiration = ceil(LOOP_TIME())
+        self.next_expiration = time_now()
         self.expirations.clear()
         
     def __iter__(self):
@@ -245,6 +247,7 @@ class CookieJar:
     
     def __len__(self):
         """Returns the length of the cookie-jar."""
+        self._do_expiration()
         length = 0
         for cookie in self.cookies.values():
             length += len(cookie)
@@ -255,7 +258,7 @@ class CookieJar:
         """
         Removes the expired cookies from the jar.
         """
-        now = LOOP_TIME()
+        now = time_now()
         if self.next_expiration > now:
             return
         
@@ -268,7 +271,7 @@ class CookieJar:
         cookies = self.cookies
         
         for key, when in expirations.items():
-            if when < now:
+            if when <= now:
                 cookies[key[0]].pop(key[1], None)
                 to_del.append(key)
                 self.host_only_cookies.discard(key)
@@ -278,7 +281,7 @@ class CookieJar:
         for key in to_del:
             del expirations[key]
         
-        self.next_expiration = ceil(next_expiration)
+        self.next_expiration = next_expiration
     
     def _expire_cookie(self, when, domain, name):
         """
@@ -352,15 +355,19 @@ class CookieJar:
                 
                 cookie['path'] = path
             
+            # The new cookie does not inherit the expiration of the old one
+            self.expirations.pop((domain, name), None)
+            
             max_age = cookie['max-age']
-            if max_age:
+            if max_age != '':
                 try:
                     delta_seconds = int(max_age)
-                    self._expire_cookie(LOOP_TIME() + delta_seconds, domain, name)
                 except ValueError:
-                    cookie['max-age'] = ''
+                    cookie['max-age'] = max_age = ''
+                else:
+                    self._expire_cookie(time_now() + min(max(delta_seconds, 0), MAX_TIME), domain, name)
             
-            else:
+            if max_age == '':
                 expires = cookie['expires']
                 if (expires is not None):
                     expire_time = parse_cookie_date(expires)
-- 
2.43.0


From 3e3864043c79be99d1e888a3f16b60ca405140fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:10 +0000
Subject: [PATCH 073/176] fix: CookieJar mixed up the cookies of different
 paths, and host only cookies with domain ones

---
 scarletio/web_common/cookiejar.py | 94 +++++++++++++++++++++++--------
 1 file changed, 71 insertions(+), 23 deletions(-)

diff --git a/scarletio/web_common/cookiejar.py b/scarletio/web_common/cookiejar.py
index f14e5eb..d189b8b 100755
--- a/scarletio/web_common/cookiejar.py
+++ b/scarletio/web_common/cookiejar.py
@@ -170,18 +170,58 @@ def do_paths_match(request_path, cookie_path):
     return False
 
 
+def get_cookie_host_name(url):
+    """
+    Returns the host name of the url in the form as domains are compared with it.
+    
+    Parameters
+    ----------
+    url : ``URL``
+        The url.
+    
+    Returns
+    -------
+    host_name : `None | str`
+    """
+    host_name = url.raw_host
+    if host_name is None:
+        return None
+    
+    host_name = host_name.lower()
+    if host_name.startswith('[') and host_name.endswith(']'):
+        host_name = host_name[1 : -1]
+    
+    return host_name
+
+
+def get_cookie_path_length(cookie):
+    """
+    Sort key to order cookies by the length of their path.
+    
+    Parameters
+    ----------
+    cookie : `http.cookies.Morsel`
+        The cookie.
+    
+    Returns
+    -------
+    length : `int`
+    """
+    return len(cookie['path'])
+
+
 class CookieJar:
     """
     Implements cookie storage adhering to RFC 6265.
     
     Attributes
     ----------
-    cookies : `collections.defaultdict` of (`str`, `http.cookies.SimpleCookie`) items
-        Dictionary containing the stored cookies.
-    expirations : `dict` of (`tuple` (`str`, `str`), `float`) item
-        Cookie expirations. The keys are a domain, name pairs, meanwhile the values are their expirations.
-    host_only_cookies : `set` of `tuple` (`str`, `str`)
-        Reference of hosts only cookies in tuples as `host-name`, `host` pairs.
+    cookies : `collections.defaultdict` of (`tuple` (`str`, `str`), `http.cookies.SimpleCookie`) items
+        Dictionary containing the stored cookies. The keys are domain, path pairs.
+    expirations : `dict` of (`tuple` (`str`, `str`, `str`), `float`) item
+        Cookie expirations. The keys are a domain, path, name tuples, meanwhile the values are their expirations.
+    host_only_cookies : `set` of `tuple` (`str`, `str`, `str`)
+        Reference of hosts only cookies as domain, path, name tuples.
     next_expiration : `float`
         The next expiration's time.
     unsafe : `bool`
@@ -272,7 +312,7 @@ class CookieJar:
         
         for key, when in expirations.items():
             if when <= now:
-                cookies[key[0]].pop(key[1], None)
+                cookies[key[:2]].pop(key[2], None)
                 to_del.append(key)
                 self.host_only_cookies.discard(key)
             else:
@@ -283,7 +323,7 @@ class CookieJar:
         
         self.next_expiration = next_expiration
     
-    def _expire_cookie(self, when, domain, name):
+    def _expire_cookie(self, when, domain, path, name):
         """
         Sets the expiration of the cookie jar and of the given `domain`, `name` relation.
         
@@ -297,7 +337,7 @@ class CookieJar:
             The cookie's name.
         """
         self.next_expiration = min(self.next_expiration, when)
-        self.expirations[(domain, name)] = when
+        self.expirations[(domain, path, name)] = when
     
     def update_cookies(self, cookies, response_url = URL()):
         """
@@ -310,7 +350,7 @@ class CookieJar:
         response_url : ``URL`` = `URL()`, Optional
             Respective response's url.
         """
-        host_name = response_url.raw_host
+        host_name = get_cookie_host_name(response_url)
         
         if (not self.unsafe) and is_ip_address(host_name):
             # Don't accept cookies from IPs
@@ -322,17 +362,19 @@ class CookieJar:
                 temporary[name] = cookie
                 cookie = temporary[name]
             
-            domain = cookie['domain']
+            domain = cookie['domain'].lower()
             
             # ignore domains with trailing dots
             if domain.endswith('.'):
                 domain = ''
-                del cookie['domain']
+                cookie['domain'] = ''
             
             if not domain and host_name is not None:
                 # Set the cookie's domain to the response host_name and set its host-only-flag
-                self.host_only_cookies.add((host_name, name))
+                host_only = True
                 domain = cookie['domain'] = host_name
+            else:
+                host_only = False
             
             if domain.startswith('.'):
                 # Remove leading dot
@@ -346,7 +388,7 @@ class CookieJar:
             path = cookie['path']
             if not path or not path.startswith('/'):
                 # Set the cookie's path to the response path
-                path = response_url.path
+                path = response_url.raw_path
                 if path.startswith('/'):
                     # Cut everything from the last slash to the end
                     path = f'/{path[1:path.rfind("/")]}'
@@ -356,7 +398,7 @@ class CookieJar:
                 cookie['path'] = path
             
             # The new cookie does not inherit the expiration of the old one
-            self.expirations.pop((domain, name), None)
+            self.expirations.pop((domain, path, name), None)
             
             max_age = cookie['max-age']
             if max_age != '':
@@ -365,7 +407,7 @@ class CookieJar:
                 except ValueError:
                     cookie['max-age'] = max_age = ''
                 else:
-                    self._expire_cookie(time_now() + min(max(delta_seconds, 0), MAX_TIME), domain, name)
+                    self._expire_cookie(time_now() + min(max(delta_seconds, 0), MAX_TIME), domain, path, name)
             
             if max_age == '':
                 expires = cookie['expires']
@@ -374,9 +416,14 @@ class CookieJar:
                     if expire_time is None:
                         cookie['expires'] = ''
                     else:
-                        self._expire_cookie(expire_time.timestamp(), domain, name)
+                        self._expire_cookie(expire_time.timestamp(), domain, path, name)
+            
+            if host_only:
+                self.host_only_cookies.add((domain, path, name))
+            else:
+                self.host_only_cookies.discard((domain, path, name))
             
-            self.cookies[domain][name] = cookie
+            self.cookies[(domain, path)][name] = cookie
         
         self._do_expiration()
     
@@ -397,15 +444,16 @@ class CookieJar:
         self._do_expiration()
         
         filtered = SimpleCookie()
-        host_name = request_url.raw_host
+        host_name = get_cookie_host_name(request_url)
         if host_name is None:
             host_name = ''
         
         is_not_secure = (request_url.scheme not in ('https', 'wss'))
         
-        for cookie in self:
+        # If there are more cookies with the same name, send the one with the longest path.
+        for cookie in sorted(self, key = get_cookie_path_length):
             name = cookie.key
-            domain = cookie['domain']
+            domain = cookie['domain'].lower()
             
             # Send shared cookies
             if not domain:
@@ -415,14 +463,14 @@ class CookieJar:
             if not self.unsafe and is_ip_address(host_name):
                 continue
             
-            if (domain, name) in self.host_only_cookies:
+            if (domain, cookie['path'], name) in self.host_only_cookies:
                 if domain != host_name:
                     continue
             
             elif not do_domains_match(domain, host_name):
                 continue
             
-            if not do_paths_match(request_url.path, cookie['path']):
+            if not do_paths_match(request_url.raw_path, cookie['path']):
                 continue
             
             if is_not_secure and cookie['secure']:
-- 
2.43.0


From c1333bdc780951106fcb4741c8cf7254214276d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:10 +0000
Subject: [PATCH 074/176] fix: Unpickled CookieJar restarted the life of its
 cookies

---
 scarletio/web_common/cookiejar.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/scarletio/web_common/cookiejar.py b/scarletio/web_common/cookiejar.py
index d189b8b..eacc378 100755
--- a/scarletio/web_common/cookiejar.py
+++ b/scarletio/web_common/cookiejar.py
@@ -245,21 +245,16 @@ class CookieJar:
         self.expirations = {}
     
     def __getstate__(self):
-        return (list(self.cookies.values()), self.host_only_cookies, self.unsafe)
+        return (dict(self.cookies), self.host_only_cookies, self.expirations, self.unsafe)
     
     def __setstate__(self, state):
-        cookies, host_only_cookies, unsafe = state
+        cookies, host_only_cookies, expirations, unsafe = state
         
-        self.cookies = defaultdict(SimpleCookie)
+        self.cookies = defaultdict(SimpleCookie, cookies)
         self.host_only_cookies = host_only_cookies
-        self.unsafe = False
-        self.next_expiration = 0.0
-        self.expirations = {}
-        
-        for cookie in cookies:
-            self.update_cookies(cookie)
-        
         self.unsafe = unsafe
+        self.next_expiration = 0.0
+        self.expirations = expirations
         self._do_expiration()
     
     def clear(self):
-- 
2.43.0


From a6526a0b97457897e889143239766f2787dbcf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:09 +0000
Subject: [PATCH 075/176] fix: connecting did not proceed with the next address
 if the family of the first was not supported

---
 scarletio/core/event_loop/event_loop.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scarletio/core/event_loop/event_loop.py b/scarletio/core/event_loop/event_loop.py
index 802cd17..a772278 100755
--- a/scarletio/core/event_loop/event_loop.py
+++ b/scarletio/core/event_loop/event_loop.py
@@ -1478,9 +1478,10 @@ class EventThread(Executor, Thread, metaclass = EventThreadType):
         exceptions = []
         for socket_family, socket_type, socket_protocol, socket_address_canonical_name, address in infos:
             
-            socket = Socket(family = socket_family, type = socket_type, proto = socket_protocol)
+            socket = None
             
             try:
+                socket = Socket(family = socket_family, type = socket_type, proto = socket_protocol)
                 socket.setblocking(False)
                 
                 if (local_address_infos is not None):
-- 
2.43.0


From 00d5e8820c8da7353245fc6038401f05324fe634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:09 +0000
Subject: [PATCH 076/176] fix: `EventThread.socket_connect` dropped the scope
 of ip v6 addresses

---
 scarletio/core/event_loop/event_loop.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scarletio/core/event_loop/event_loop.py b/scarletio/core/event_loop/event_loop.py
index a772278..c1e0f21 100755
--- a/scarletio/core/event_loop/event_loop.py
+++ b/scarletio/core/event_loop/event_loop.py
@@ -2269,7 +2269,8 @@ class EventThread(Executor, Thread, metaclass = EventThreadType):
                 0,
             )
             
-            address = resolved[0][4]
+            # The resolved address does not include the flow info and the scope of ip v6 addresses, so keep those.
+            address = (*resolved[0][4][:2], *address[2:])
         
         try:
             socket.connect(address)
-- 
2.43.0


From 52f72fa9e75c8ae0f065de4fbcc08e0d2badf4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:10 +0000
Subject: [PATCH 077/176] fix: the socket was left open if creating the
 protocol of a new connection failed

---
 scarletio/core/event_loop/event_loop.py | 26 ++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/scarletio/core/event_loop/event_loop.py b/scarletio/core/event_loop/event_loop.py
index c1e0f21..91b2965 100755
--- a/scarletio/core/event_loop/event_loop.py
+++ b/scarletio/core/event_loop/event_loop.py
@@ -1624,17 +1624,21 @@ class EventThread(Executor, Thread, metaclass = EventThreadType):
         protocol : ``AbstractProtocolBase``
             The protocol returned by `protocol_factory`.
         """
-        socket.setblocking(False)
-        
-        protocol = protocol_factory()
-        waiter = Future(self)
-        
-        if ssl_context is None:
-            transport = self._make_socket_transport(socket, protocol, waiter)
-        else:
-            transport = self._make_ssl_transport(
-                socket, protocol, ssl_context, waiter, server_side = server_side, server_host_name = server_host_name
-            )
+        try:
+            socket.setblocking(False)
+            
+            protocol = protocol_factory()
+            waiter = Future(self)
+            
+            if ssl_context is None:
+                transport = self._make_socket_transport(socket, protocol, waiter)
+            else:
+                transport = self._make_ssl_transport(
+                    socket, protocol, ssl_context, waiter, server_side = server_side, server_host_name = server_host_name
+                )
+        except:
+            socket.close()
+            raise
         
         try:
             await waiter
-- 
2.43.0


From 9f09e8ada44ecdfb734c8d26f0392155d131223e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:10 +0000
Subject: [PATCH 078/176] fix: accepted sockets were left open if creating
 their protocol failed

---
 scarletio/core/event_loop/event_loop.py | 36 ++++++++++++++-----------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/scarletio/core/event_loop/event_loop.py b/scarletio/core/event_loop/event_loop.py
index 91b2965..7f6922b 100755
--- a/scarletio/core/event_loop/event_loop.py
+++ b/scarletio/core/event_loop/event_loop.py
@@ -1091,22 +1091,26 @@ class EventThread(Executor, Thread, metaclass = EventThreadType):
             The respective server if applicable.
         """
         try:
-            protocol = protocol_factory()
-            waiter = Future(self)
-            if (ssl_context is None):
-                transport = self._make_socket_transport(
-                    connection_socket, protocol, waiter = waiter, extra = extra, server = server
-                )
-            else:
-                transport = self._make_ssl_transport(
-                    connection_socket,
-                    protocol,
-                    ssl_context,
-                    waiter = waiter,
-                    server_side = True,
-                    extra = extra,
-                    server = server,
-                )
+            try:
+                protocol = protocol_factory()
+                waiter = Future(self)
+                if (ssl_context is None):
+                    transport = self._make_socket_transport(
+                        connection_socket, protocol, waiter = waiter, extra = extra, server = server
+                    )
+                else:
+                    transport = self._make_ssl_transport(
+                        connection_socket,
+                        protocol,
+                        ssl_context,
+                        waiter = waiter,
+                        server_side = True,
+                        extra = extra,
+                        server = server,
+                    )
+            except:
+                connection_socket.close()
+                raise
             
             try:
                 await waiter
-- 
2.43.0


From 12b42d58e633dde032fcdf3108bb0e58ca3d2504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:10 +0000
Subject: [PATCH 079/176] fix: a cancelled `Server.wait_closed` call made the
 others wait forever

---
 scarletio/core/event_loop/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/core/event_loop/server.py b/scarletio/core/event_loop/server.py
index db1f330..563322e 100755
--- a/scarletio/core/event_loop/server.py
+++ b/scarletio/core/event_loop/server.py
@@ -104,7 +104,7 @@ class Server:
         
         self.close_waiters = None
         for close_waiter in close_waiters:
-            close_waiter.set_result(None)
+            close_waiter.set_result_if_pending(None)
     
     
     def close(self):
-- 
2.43.0


From 30a1df7a6b19d0779a4f91e51f3cb2b9deeeb45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:47 +0000
Subject: [PATCH 080/176] fix: closing a server while accepting is paused
 raised an exception in the event loop later

---
 scarletio/core/event_loop/event_loop.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/scarletio/core/event_loop/event_loop.py b/scarletio/core/event_loop/event_loop.py
index 7f6922b..8f2d12a 100755
--- a/scarletio/core/event_loop/event_loop.py
+++ b/scarletio/core/event_loop/event_loop.py
@@ -992,8 +992,13 @@ class EventThread(Executor, Thread, metaclass = EventThreadType):
         backlog : `int`
             The maximum number of queued connections passed to `socket.listen()`.
         """
+        file_descriptor = socket.fileno()
+        if file_descriptor == -1:
+            # The server was closed while accepting was paused.
+            return
+        
         self.add_reader(
-            socket.fileno(), self._accept_connection, protocol_factory, socket, ssl_context, server, backlog
+            file_descriptor, self._accept_connection, protocol_factory, socket, ssl_context, server, backlog
         )
     
     
@@ -1058,6 +1063,7 @@ class EventThread(Executor, Thread, metaclass = EventThreadType):
                     ],
                     loop = self
                 )
+                return None
             
             else:
                 extra = {'peer_name': address}
-- 
2.43.0


From ed4bfd9ce2d5ae3c824757e9fc3824e7cdd9c016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:47 +0000
Subject: [PATCH 081/176] fix: `EventThread.create_server_to` created a server
 which listens to nothing

---
 scarletio/core/event_loop/event_loop.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scarletio/core/event_loop/event_loop.py b/scarletio/core/event_loop/event_loop.py
index 8f2d12a..70eaf2d 100755
--- a/scarletio/core/event_loop/event_loop.py
+++ b/scarletio/core/event_loop/event_loop.py
@@ -3020,6 +3020,12 @@ class EventThread(Executor, Thread, metaclass = EventThreadType):
             task_group.cancel_all()
             raise
         
+        if not sockets:
+            raise OSError(
+                errno.EAFNOSUPPORT,
+                f'None of the addresses of {host!r} is supported.',
+            )
+        
         for socket in sockets:
             socket.setblocking(False)
         
-- 
2.43.0


From b6685f87b7aa4c5e6eb3303d5e11154523889deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:24 +0000
Subject: [PATCH 082/176] fix: empty `server_host_name` was refused when
 connecting with ssl

---
 scarletio/core/protocols_and_transports/ssl_pipe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/core/protocols_and_transports/ssl_pipe.py b/scarletio/core/protocols_and_transports/ssl_pipe.py
index b885875..5e3864d 100755
--- a/scarletio/core/protocols_and_transports/ssl_pipe.py
+++ b/scarletio/core/protocols_and_transports/ssl_pipe.py
@@ -160,7 +160,7 @@ class SSLPipe:
             raise RuntimeError('Handshake in progress or completed.')
         
         self._ssl_object = self._ssl_context.wrap_bio(
-            self._incoming, self._outgoing, server_side = self._server_side, server_hostname = self._server_host_name
+            self._incoming, self._outgoing, server_side = self._server_side, server_hostname = (self._server_host_name or None)
         )
         
         self._state = SSL_PIPE_STATE_DO_HANDSHAKE
-- 
2.43.0


From 79cf45bdcdc1fc6bcecd090a67fd468132e1cb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:41 +0000
Subject: [PATCH 083/176] fix: closing an ssl connection before its handshake
 is done raised `SSLError`

---
 .../ssl_transport_layer.py                    | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/scarletio/core/protocols_and_transports/ssl_transport_layer.py b/scarletio/core/protocols_and_transports/ssl_transport_layer.py
index 87cba2a..78febac 100755
--- a/scarletio/core/protocols_and_transports/ssl_transport_layer.py
+++ b/scarletio/core/protocols_and_transports/ssl_transport_layer.py
@@ -193,6 +193,10 @@ class SSLBidirectionalTransportLayer(TransportLayerBase, AbstractBidirectionalTr
     @copy_docs(AbstractBidirectionalTransportLayerBase.connection_made)
     def connection_made(self, transport):
         self._transport = transport
+        if self._closing:
+            self._finalize()
+            return
+        
         self._ssl_pipe = SSLPipe(self._ssl_context, self._server_side, self._server_host_name)
         
         self._in_handshake = True
@@ -314,11 +318,12 @@ class SSLBidirectionalTransportLayer(TransportLayerBase, AbstractBidirectionalTr
         extra = set_extra_info(extra, EXTRA_INFO_NAME_SSL_OBJECT, ssl_object)
         self._extra = extra
         
+        self._session_established = True
+        
         if self._call_connection_made:
             self._protocol.connection_made(self)
         
         self._wake_up_connection_made_waiter()
-        self._session_established = True
         
         # Don's call it immediately, other tasks might be scheduled already.
         self._loop.call_soon(self._process_write_backlog)
@@ -417,9 +422,17 @@ class SSLBidirectionalTransportLayer(TransportLayerBase, AbstractBidirectionalTr
     
     @copy_docs(TransportLayerBase.close)
     def close(self):
-        if not self._closing:
-            self._closing = True
+        if self._closing:
+            return
+        
+        self._closing = True
+        
+        if self._session_established:
             self._write_application_data(b'')
+        else:
+            # There is nothing to shut down before the handshake is done.
+            self._write_backlog.clear()
+            self._finalize()
     
     
     @copy_docs(TransportLayerBase.abort)
-- 
2.43.0


From 828f257715d6b0e5d5a8b2a11c05b81778cb7c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:41 +0000
Subject: [PATCH 084/176] fix: data written to a closed ssl connection could be
 sent unencrypted

---
 scarletio/core/protocols_and_transports/ssl_transport_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/core/protocols_and_transports/ssl_transport_layer.py b/scarletio/core/protocols_and_transports/ssl_transport_layer.py
index 78febac..27dfc41 100755
--- a/scarletio/core/protocols_and_transports/ssl_transport_layer.py
+++ b/scarletio/core/protocols_and_transports/ssl_transport_layer.py
@@ -452,7 +452,7 @@ class SSLBidirectionalTransportLayer(TransportLayerBase, AbstractBidirectionalTr
                 f'`data` can be `bytes-like`, got {type(data).__name__}; {reprlib.repr(data)}.'
             )
         
-        if data:
+        if data and (not self._closing):
             self._write_application_data(data)
     
     
-- 
2.43.0


From fa8573cf418ef92ff7e567c127e861c9cd0cc3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:41 +0000
Subject: [PATCH 085/176] fix: the parameters of
 `SSLBidirectionalTransportLayer.set_write_buffer_limits` were swapped

---
 scarletio/core/protocols_and_transports/ssl_transport_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/core/protocols_and_transports/ssl_transport_layer.py b/scarletio/core/protocols_and_transports/ssl_transport_layer.py
index 27dfc41..df2bb16 100755
--- a/scarletio/core/protocols_and_transports/ssl_transport_layer.py
+++ b/scarletio/core/protocols_and_transports/ssl_transport_layer.py
@@ -506,7 +506,7 @@ class SSLBidirectionalTransportLayer(TransportLayerBase, AbstractBidirectionalTr
     
     
     @copy_docs(TransportLayerBase.set_write_buffer_limits)
-    def set_write_buffer_limits(self, low = None, high = None):
+    def set_write_buffer_limits(self, high = None, low = None):
         transport = self._transport
         if (transport is not None):
             transport.set_write_buffer_limits(high, low)
-- 
2.43.0


From b984c26c399d0c8ecfe601b62379235cba9e6dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:16 +0000
Subject: [PATCH 086/176] fix: data received meanwhile closing an ssl
 connection aborted it, losing what was written before

---
 scarletio/core/protocols_and_transports/ssl_pipe.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/scarletio/core/protocols_and_transports/ssl_pipe.py b/scarletio/core/protocols_and_transports/ssl_pipe.py
index 5e3864d..5a7490e 100755
--- a/scarletio/core/protocols_and_transports/ssl_pipe.py
+++ b/scarletio/core/protocols_and_transports/ssl_pipe.py
@@ -1,6 +1,9 @@
 __all__ = ()
 
-from ssl import CertificateError, MemoryBIO, SSLError, SSL_ERROR_SYSCALL, SSL_ERROR_WANT_READ, SSL_ERROR_WANT_WRITE
+from ssl import (
+    CertificateError, MemoryBIO, SSLError, SSLWantReadError, SSLZeroReturnError, SSL_ERROR_SYSCALL, SSL_ERROR_WANT_READ,
+    SSL_ERROR_WANT_WRITE
+)
 
 
 SSL_PIPE_STATE_UNWRAPPED = 0
@@ -274,6 +277,13 @@ class SSLPipe:
                         break
             
             elif state == SSL_PIPE_STATE_SHUTDOWN:
+                # The peer might not know about the shutdown yet. Drop what it sends.
+                try:
+                    while self._ssl_object.read(MAX_SIZE):
+                        pass
+                except (SSLWantReadError, SSLZeroReturnError):
+                    pass
+                
                 # Call shutdown() until it doesn't raise anymore.
                 self._ssl_object.unwrap()
                 self._ssl_object = None
-- 
2.43.0


From 9f7ff8f35159d727b6a3239d8b0308efb7820335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:34 +0000
Subject: [PATCH 087/176] fix: the shutdown of an ssl connection by its peer
 was not acknowledged

---
 .../ssl_transport_layer.py                    | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/scarletio/core/protocols_and_transports/ssl_transport_layer.py b/scarletio/core/protocols_and_transports/ssl_transport_layer.py
index df2bb16..5e5f24c 100755
--- a/scarletio/core/protocols_and_transports/ssl_transport_layer.py
+++ b/scarletio/core/protocols_and_transports/ssl_transport_layer.py
@@ -237,6 +237,9 @@ class SSLBidirectionalTransportLayer(TransportLayerBase, AbstractBidirectionalTr
         for chunk in ssl_data:
             self._transport.write(chunk)
         
+        if self._is_shut_down():
+            self._finalize()
+        
         for chunk in application_data:
             if chunk:
                 self._protocol.data_received(chunk)
@@ -351,13 +354,16 @@ class SSLBidirectionalTransportLayer(TransportLayerBase, AbstractBidirectionalTr
                     if offset:
                         ssl_data = self._ssl_pipe.do_handshake(self._handshake_completed)
                     else:
-                        ssl_data = self._ssl_pipe.shutdown(self._finalize)
+                        ssl_data = self._ssl_pipe.shutdown()
                     
                     offset = 1
                 
                 for chunk in ssl_data:
                     transport.write(chunk)
                 
+                if self._is_shut_down():
+                    self._finalize()
+                
                 if offset < len(data):
                     write_backlog[0] = (data, offset)
                     # A short write means that a write is blocked on a read, we need to enable reading if it is paused!
@@ -387,6 +393,17 @@ class SSLBidirectionalTransportLayer(TransportLayerBase, AbstractBidirectionalTr
             transport._force_close(exception)
     
     
+    def _is_shut_down(self):
+        """
+        Returns whether both sides shut the secure connection down.
+        
+        Returns
+        -------
+        is_shut_down : `bool`
+        """
+        return self._session_established and (self._ssl_pipe._ssl_object is None)
+    
+    
     def _finalize(self):
         """
         Closes the ssl protocol's transport.
-- 
2.43.0


From adb4d3ddab0d06b5d9e1cdbef58e0b3e5074251c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:17 +0000
Subject: [PATCH 088/176] fix: requests to ipv6 addresses tried to resolve the
 address with its brackets

---
 scarletio/http_client/connector_tcp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scarletio/http_client/connector_tcp.py b/scarletio/http_client/connector_tcp.py
index a2371d3..95fddc3 100755
--- a/scarletio/http_client/connector_tcp.py
+++ b/scarletio/http_client/connector_tcp.py
@@ -239,7 +239,8 @@ class ConnectorTCP(ConnectorBase):
         
         # If host is an ip return
         if url.is_host_ip():
-            yield HostInfo.from_ip(host, port, self.family)
+            # ipv6 hosts are inside of brackets within urls
+            yield HostInfo.from_ip(host.removeprefix('[').removesuffix(']'), port, self.family)
             return
         
         # Strip extra dots from the end, keep one.
-- 
2.43.0


From 0f3e7d7c28b047e82dd878d02119429e1338b3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:42 +0000
Subject: [PATCH 089/176] fix: the status and the reason of `ProxyError` were
 swapped

---
 scarletio/http_client/connector_tcp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/http_client/connector_tcp.py b/scarletio/http_client/connector_tcp.py
index 95fddc3..59b9dd3 100755
--- a/scarletio/http_client/connector_tcp.py
+++ b/scarletio/http_client/connector_tcp.py
@@ -503,7 +503,7 @@ class ConnectorTCP(ConnectorBase):
                     if reason is None:
                         reason = HTTPStatus(status).phrase
                     
-                    raise ProxyError(status, reason, response.headers)
+                    raise ProxyError(reason, status, response.headers)
             except:
                 protocol.close()
                 raise
-- 
2.43.0


From a7f9de2a1e12bfb6d0762d876a5188f4e58e76c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:42 +0000
Subject: [PATCH 090/176] fix: `ClientResponse.reason` raised if neither a
 reason is given nor the status is known

---
 scarletio/http_client/client_response.py | 5 ++++-
 scarletio/http_client/connector_tcp.py   | 7 +------
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/scarletio/http_client/client_response.py b/scarletio/http_client/client_response.py
index 6823ae9..e983c48 100755
--- a/scarletio/http_client/client_response.py
+++ b/scarletio/http_client/client_response.py
@@ -161,7 +161,10 @@ class ClientResponse(RichAttributeErrorBaseType):
         if (reason is not None):
             return reason
         
-        return HTTPStatus(message.status).phrase
+        try:
+            return HTTPStatus(message.status).phrase
+        except ValueError:
+            return None
     
     
     @property
diff --git a/scarletio/http_client/connector_tcp.py b/scarletio/http_client/connector_tcp.py
index 59b9dd3..e4b43e1 100755
--- a/scarletio/http_client/connector_tcp.py
+++ b/scarletio/http_client/connector_tcp.py
@@ -1,7 +1,6 @@
 ﻿__all__ = ('ConnectorTCP',)
 
 from functools import partial as partial_func
-from http import HTTPStatus
 from socket import AddressFamily, SOCK_STREAM as SOCKET_TYPE_STREAM
 from ssl import CertificateError as SSLCertificateError, SSLContext, SSLError
 
@@ -499,11 +498,7 @@ class ConnectorTCP(ConnectorBase):
             try:
                 status = response.status
                 if status != 200:
-                    reason = response.reason
-                    if reason is None:
-                        reason = HTTPStatus(status).phrase
-                    
-                    raise ProxyError(reason, status, response.headers)
+                    raise ProxyError(response.reason or '', status, response.headers)
             except:
                 protocol.close()
                 raise
-- 
2.43.0


From 959e050e68c96af08f4c18c75f2e4c6a78f00135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:42 +0000
Subject: [PATCH 091/176] fix: the ssl fingerprint of the server was not
 checked when connecting through a proxy

---
 scarletio/http_client/connector_tcp.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/scarletio/http_client/connector_tcp.py b/scarletio/http_client/connector_tcp.py
index e4b43e1..c763157 100755
--- a/scarletio/http_client/connector_tcp.py
+++ b/scarletio/http_client/connector_tcp.py
@@ -540,6 +540,14 @@ class ConnectorTCP(ConnectorBase):
             
             else:
                 protocol.connection_made(ssl_protocol)
+                
+                ssl_fingerprint = self.get_ssl_fingerprint(request)
+                if (ssl_fingerprint is not None):
+                    try:
+                        ssl_fingerprint.check(protocol)
+                    except ValueError as exception:
+                        protocol.close_transport(force = True)
+                        raise OSError(request.connection_key) from exception
         
         except:
             response.close()
-- 
2.43.0


From 31d1af0eb371f414129cfc679e1876e4d08aa6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:49 +0000
Subject: [PATCH 092/176] fix: losing the connection during an ssl handshake
 counted as if it would have succeeded

---
 .../core/protocols_and_transports/ssl_transport_layer.py      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scarletio/core/protocols_and_transports/ssl_transport_layer.py b/scarletio/core/protocols_and_transports/ssl_transport_layer.py
index 5e5f24c..c688b78 100755
--- a/scarletio/core/protocols_and_transports/ssl_transport_layer.py
+++ b/scarletio/core/protocols_and_transports/ssl_transport_layer.py
@@ -213,6 +213,10 @@ class SSLBidirectionalTransportLayer(TransportLayerBase, AbstractBidirectionalTr
             self._loop.call_soon(type(app_protocol).connection_lost, app_protocol, exception)
         
         self._transport = None
+        
+        # If the waiter still waits the handshake is not done, so it failed.
+        if exception is None:
+            exception = ConnectionResetError('Connection lost before the handshake was completed.')
         self._wake_up_connection_made_waiter(exception)
     
     
-- 
2.43.0


From d13fa8b1cfb065ce27cac4b55c8591ba598e8b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:49 +0000
Subject: [PATCH 093/176] fix: a fatal error of an ssl connection running over
 an other one raised `AttributeError`

---
 scarletio/core/protocols_and_transports/ssl_transport_layer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/core/protocols_and_transports/ssl_transport_layer.py b/scarletio/core/protocols_and_transports/ssl_transport_layer.py
index c688b78..8e6b35c 100755
--- a/scarletio/core/protocols_and_transports/ssl_transport_layer.py
+++ b/scarletio/core/protocols_and_transports/ssl_transport_layer.py
@@ -394,7 +394,7 @@ class SSLBidirectionalTransportLayer(TransportLayerBase, AbstractBidirectionalTr
         
         transport = self._transport
         if (transport is not None):
-            transport._force_close(exception)
+            transport.abort(exception)
     
     
     def _is_shut_down(self):
-- 
2.43.0


From 11a20623fe1f5dea86d20ebb0a3c0eb71e09ebf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:49 +0000
Subject: [PATCH 094/176] fix: connecting to a proxy left its socket open if
 the connector was closed meanwhile

---
 scarletio/http_client/connector_tcp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scarletio/http_client/connector_tcp.py b/scarletio/http_client/connector_tcp.py
index c763157..424c0f5 100755
--- a/scarletio/http_client/connector_tcp.py
+++ b/scarletio/http_client/connector_tcp.py
@@ -489,6 +489,8 @@ class ConnectorTCP(ConnectorBase):
             await response.start_processing()
         except:
             connection.close()
+            # Releasing the connection does nothing if the connector is already closed.
+            protocol.close()
             raise
         
         try:
-- 
2.43.0


From 42f302455e47833d13e0d59eb774ff81f0be41fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:24 +0000
Subject: [PATCH 095/176] fix: http connections were not reused if the end of
 the response arrived after it was started to be read

---
 scarletio/core/protocols_and_transports/protocol.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/scarletio/core/protocols_and_transports/protocol.py b/scarletio/core/protocols_and_transports/protocol.py
index 89a3901..ce52616 100755
--- a/scarletio/core/protocols_and_transports/protocol.py
+++ b/scarletio/core/protocols_and_transports/protocol.py
@@ -498,7 +498,12 @@ class ReadProtocolBase(AbstractProtocolBase):
                     payload_reader.send(data)
             
                 except StopIteration:
-                    self._payload_stream.set_done_success()
+                    # Clean these up first, since the callbacks may check whether we are still reading.
+                    payload_stream = self._payload_stream
+                    self._payload_reader = None
+                    self._payload_stream = None
+                    payload_stream.set_done_success()
+                    break
                 
                 except EOFError as exception:
                     new_exception = ConnectionError('Connection closed unexpectedly with EOF.')
@@ -919,8 +924,6 @@ class ReadProtocolBase(AbstractProtocolBase):
         except EOFError:
             if not allow_eof:
                 raise
-        
-        payload_stream.set_done_success()
     
     
     async def _read_exactly_as_one(self, n):
-- 
2.43.0


From c9eb1abb4a052f6d2ec4ea0f1c1bb37d439baacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:37 +0000
Subject: [PATCH 096/176] fix: requests waiting for resolving their host could
 hang if the connector was closed

---
 scarletio/http_client/connector_tcp.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/scarletio/http_client/connector_tcp.py b/scarletio/http_client/connector_tcp.py
index 424c0f5..71b9930 100755
--- a/scarletio/http_client/connector_tcp.py
+++ b/scarletio/http_client/connector_tcp.py
@@ -126,8 +126,14 @@ class ConnectorTCP(ConnectorBase):
         """
         Closes the connector, it's dns lookup events and it's connections.
         """
-        for task, waiters in self.resolve_host_tasks_and_waiters.values():
+        resolve_host_tasks_and_waiters = self.resolve_host_tasks_and_waiters
+        while resolve_host_tasks_and_waiters:
+            key, (task, waiters) = resolve_host_tasks_and_waiters.popitem()
             task.cancel()
+            
+            # If the task is not yet started it will not wake up the waiters.
+            for waiter in waiters:
+                waiter.set_result_if_pending((None, None))
         
         ConnectorBase.close(self)
     
-- 
2.43.0


From 7236e5d85dc97f402956d78a3fa185ca1cca9d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:26 +0000
Subject: [PATCH 097/176] fix: IgnoreCaseString compared case sensitively with
 != and failed to be compared with other types

---
 scarletio/utils/ignore_case_string.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/scarletio/utils/ignore_case_string.py b/scarletio/utils/ignore_case_string.py
index 476deb2..0c7bd94 100755
--- a/scarletio/utils/ignore_case_string.py
+++ b/scarletio/utils/ignore_case_string.py
@@ -78,9 +78,19 @@ class IgnoreCaseString(str):
             other_value = other._case_fold
         elif other_type is str:
             other_value = other.casefold()
-        elif issubclass(other, str):
+        elif issubclass(other_type, str):
             other_value = str.casefold(other)
         else:
             return NotImplemented
         
         return (self._case_fold == other_value)
+    
+    
+    @has_docs
+    def __ne__(self, other):
+        """Returns whether the two strings are different."""
+        equal = self.__eq__(other)
+        if equal is NotImplemented:
+            return NotImplemented
+        
+        return not equal
-- 
2.43.0


From f3032df4a6b52e337013ce6c235c4676da15e02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:26 +0000
Subject: [PATCH 098/176] fix: multi value dictionaries could not be pickled /
 copied

---
 scarletio/utils/multi_value_dictionary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/utils/multi_value_dictionary.py b/scarletio/utils/multi_value_dictionary.py
index e488c1d..f0230d5 100755
--- a/scarletio/utils/multi_value_dictionary.py
+++ b/scarletio/utils/multi_value_dictionary.py
@@ -199,7 +199,7 @@ class MultiValueDictionary(dict):
     @has_docs
     def __reduce__(self):
         """Reduces the dictionary to a picklable object."""
-        return (type(self), [*self.items()])
+        return (type(self), ([*self.items()],))
     
     
     @has_docs
-- 
2.43.0


From 34be5d35ddefc58ef6c98917e64a39f2cba13f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:26 +0000
Subject: [PATCH 099/176] fix: IgnoreCaseMultiValueDictionary lost values of
 keys differing only in case

---
 scarletio/utils/ignore_case_multi_value_dictionary.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/scarletio/utils/ignore_case_multi_value_dictionary.py b/scarletio/utils/ignore_case_multi_value_dictionary.py
index 388e15f..f5fa430 100755
--- a/scarletio/utils/ignore_case_multi_value_dictionary.py
+++ b/scarletio/utils/ignore_case_multi_value_dictionary.py
@@ -30,12 +30,13 @@ class IgnoreCaseMultiValueDictionary(MultiValueDictionary):
         
         elif isinstance(iterable, MultiValueDictionary):
             for key, values in dict.items(iterable):
-                set_item(self, IgnoreCaseString(key), values.copy())
+                # The other one may have keys differing only in case.
+                for value in values:
+                    self[key] = value
         
         elif isinstance(iterable, dict):
             for key, value in iterable.items():
-                key = IgnoreCaseString(key)
-                set_item(self, key, [value])
+                self[key] = value
         
         else:
             for item in iterable:
-- 
2.43.0


From 3618b493c7facd2fe26570d1bb677089dbcfe816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:26 +0000
Subject: [PATCH 100/176] fix: case was not ignored when checking whether
 IgnoreCaseMultiValueDictionary contains a key

---
 scarletio/utils/ignore_case_multi_value_dictionary.py | 6 ++++++
 scarletio/utils/multi_value_dictionary.py             | 5 ++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/scarletio/utils/ignore_case_multi_value_dictionary.py b/scarletio/utils/ignore_case_multi_value_dictionary.py
index f5fa430..d5ecf4d 100755
--- a/scarletio/utils/ignore_case_multi_value_dictionary.py
+++ b/scarletio/utils/ignore_case_multi_value_dictionary.py
@@ -58,6 +58,12 @@ class IgnoreCaseMultiValueDictionary(MultiValueDictionary):
                         values.append(value)
     
     
+    @copy_docs(MultiValueDictionary.__contains__)
+    def __contains__(self, key):
+        key = IgnoreCaseString(key)
+        return dict.__contains__(self, key)
+    
+    
     @copy_docs(MultiValueDictionary.__getitem__)
     def __getitem__(self, key):
         key = IgnoreCaseString(key)
diff --git a/scarletio/utils/multi_value_dictionary.py b/scarletio/utils/multi_value_dictionary.py
index f0230d5..a0d74a3 100755
--- a/scarletio/utils/multi_value_dictionary.py
+++ b/scarletio/utils/multi_value_dictionary.py
@@ -36,9 +36,8 @@ class _MultiValueDictionaryItemIterator(DictionaryItemIteratorBase):
         
         key, value = item
         
-        try:
-            values = dict.__getitem__(self._parent, key)
-        except KeyError:
+        values = self._parent.get_all(key)
+        if values is None:
             return False
         
         return value in values
-- 
2.43.0


From dd0f31f7070581d1bece15fad86ce8423c51542a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:26 +0000
Subject: [PATCH 101/176] fix: merging multi value dictionaries with |
 corrupted them

---
 scarletio/utils/multi_value_dictionary.py | 32 +++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/scarletio/utils/multi_value_dictionary.py b/scarletio/utils/multi_value_dictionary.py
index a0d74a3..a19ee41 100755
--- a/scarletio/utils/multi_value_dictionary.py
+++ b/scarletio/utils/multi_value_dictionary.py
@@ -195,6 +195,38 @@ class MultiValueDictionary(dict):
         return NotImplemented
     
     
+    @has_docs
+    def __or__(self, other):
+        """Returns a new dictionary with the values of both."""
+        if not isinstance(other, dict):
+            return NotImplemented
+        
+        new = self.copy()
+        new.extend(other)
+        return new
+    
+    
+    @has_docs
+    def __ror__(self, other):
+        """Returns a new dictionary with the values of both."""
+        if not isinstance(other, dict):
+            return NotImplemented
+        
+        new = type(self)(other)
+        new.extend(self)
+        return new
+    
+    
+    @has_docs
+    def __ior__(self, other):
+        """Extends the dictionary with the other."""
+        if not isinstance(other, dict):
+            return NotImplemented
+        
+        self.extend(other)
+        return self
+    
+    
     @has_docs
     def __reduce__(self):
         """Reduces the dictionary to a picklable object."""
-- 
2.43.0


From 863789e6e3c0d2564e6a70d4124840623a737c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:32 +0000
Subject: [PATCH 102/176] fix: sorted lists could not be copied with the copy
 module or pickled

---
 scarletio/utils/sorted_list.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/scarletio/utils/sorted_list.py b/scarletio/utils/sorted_list.py
index 957c39a..e1da454 100755
--- a/scarletio/utils/sorted_list.py
+++ b/scarletio/utils/sorted_list.py
@@ -70,11 +70,16 @@ class SortedList(list):
         
         return ''.join(result)
     
-    def __getstate__(self):
-        return self._reversed
+    def __reduce__(self):
+        # The elements are part of the state, since they can not be added before it is known how to order them.
+        return (type(self), (), (self._reversed, [*self]))
+    
+    def __reduce_ex__(self, version):
+        return self.__reduce__()
     
     def __setstate__(self, state):
-        self._reversed = state
+        self._reversed, elements = state
+        list.extend(self, elements)
     
     @property
     @has_docs
-- 
2.43.0


From 713bd55b3f9de5426e796dd7e48db31c10f48486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:32 +0000
Subject: [PATCH 103/176] fix: extending a sorted list with itself never ended

---
 scarletio/utils/sorted_list.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scarletio/utils/sorted_list.py b/scarletio/utils/sorted_list.py
index e1da454..f5d86c0 100755
--- a/scarletio/utils/sorted_list.py
+++ b/scarletio/utils/sorted_list.py
@@ -160,6 +160,9 @@ class SortedList(list):
         iterable : `iterable`
             Iterable object to extend the SortedList with.
         """
+        if iterable is self:
+            iterable = self.copy()
+        
         ln = len(self)
         insert = list.insert
         bot = 0
-- 
2.43.0


From 3e0a7aaea4ee4e359c2652facaf0034b86af3e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:39 +0000
Subject: [PATCH 104/176] fix: waiting for a datagram of an address ended when
 one arrived from any address

---
 scarletio/core/protocols_and_transports/protocol.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scarletio/core/protocols_and_transports/protocol.py b/scarletio/core/protocols_and_transports/protocol.py
index ce52616..2e30d42 100755
--- a/scarletio/core/protocols_and_transports/protocol.py
+++ b/scarletio/core/protocols_and_transports/protocol.py
@@ -1498,8 +1498,8 @@ class DatagramAddressedReadProtocol(AbstractProtocolBase):
             waiter = Future(self._loop)
             waiters.append(waiter)
             
-            address, protocol = await waiter
-            if address == address:
+            received_address, protocol = await waiter
+            if received_address == address:
                 return protocol
             
             continue
-- 
2.43.0


From e33204073addb404a150f7586df68750409fa391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:39 +0000
Subject: [PATCH 105/176] fix: waiting for datagrams never ended if the
 connection was lost

---
 .../core/protocols_and_transports/protocol.py | 27 ++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/scarletio/core/protocols_and_transports/protocol.py b/scarletio/core/protocols_and_transports/protocol.py
index 2e30d42..20a0b86 100755
--- a/scarletio/core/protocols_and_transports/protocol.py
+++ b/scarletio/core/protocols_and_transports/protocol.py
@@ -1362,6 +1362,8 @@ class DatagramAddressedReadProtocol(AbstractProtocolBase):
     ----------
     _by_address : ``dict<(str, int), ReadProtocolBase>``
         Dictionary to store the alive readers by address.
+    _exception : ``None | BaseException``
+        The exception to raise when waiting for payload after the connection is lost.
     _loop : ``EventThread``
         The loop to what the protocol is bound to.
     _protocol_factory : `type`
@@ -1372,7 +1374,7 @@ class DatagramAddressedReadProtocol(AbstractProtocolBase):
     _waiters : ``None | list<Future>``
         Waiters for any payload receive if applicable.
     """
-    __slots__ = ('_by_address', '_loop', '_protocol_factory', '_transport', '_waiters',)
+    __slots__ = ('_by_address', '_exception', '_loop', '_protocol_factory', '_transport', '_waiters',)
     
     def __new__(cls, loop, protocol_factory):
         """
@@ -1391,6 +1393,7 @@ class DatagramAddressedReadProtocol(AbstractProtocolBase):
         self = object.__new__(cls)
         self._loop = loop
         self._by_address = {}
+        self._exception = None
         self._transport = None
         self._waiters = None
         self._protocol_factory = protocol_factory
@@ -1411,6 +1414,17 @@ class DatagramAddressedReadProtocol(AbstractProtocolBase):
                 reader_protocol.eof_received()
             else:
                 reader_protocol.set_exception(exception)
+        
+        if exception is None:
+            exception = ConnectionError('Connection closed.')
+        self._exception = exception
+        
+        # No payload will be received anymore.
+        waiters = self._waiters
+        if (waiters is not None):
+            self._waiters = None
+            for waiter in waiters:
+                waiter.set_exception_if_pending(exception)
     
     
     @copy_docs(AbstractProtocolBase.datagram_received)
@@ -1458,6 +1472,13 @@ class DatagramAddressedReadProtocol(AbstractProtocolBase):
             - If `timeout` is given and timeout occur, then returns `None`.
             - if `address` is given and data is received from it, then returns the respective ``ReadProtocolBase``.
             - If `address` is not given, then returns a `tuple` of the respective `address` and protocol.
+        
+        Raises
+        ------
+        ConnectionError
+            Connection closed before payload was received.
+        BaseException
+            Connection lost by an other exception.
         """
         by_address = self._by_address
         if address is None:
@@ -1469,6 +1490,10 @@ class DatagramAddressedReadProtocol(AbstractProtocolBase):
             except KeyError:
                 pass
         
+        exception = self._exception
+        if (exception is not None):
+            raise exception
+        
         if (timeout is not None):
             waiter = Task(self._loop, self.wait_for_receive(address))
             waiter.apply_timeout(timeout)
-- 
2.43.0


From 818e3bd3bf31af89e0639149da7930806630c2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:40 +0000
Subject: [PATCH 106/176] fix: socket of datagram connections was left open if
 creating its protocol failed

---
 scarletio/core/event_loop/event_loop.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/scarletio/core/event_loop/event_loop.py b/scarletio/core/event_loop/event_loop.py
index 70eaf2d..511347c 100755
--- a/scarletio/core/event_loop/event_loop.py
+++ b/scarletio/core/event_loop/event_loop.py
@@ -2598,9 +2598,13 @@ class EventThread(Executor, Thread, metaclass = EventThreadType):
         protocol : ``AbstractProtocolBase``
             The protocol returned by `protocol_factory`.
         """
-        protocol = protocol_factory()
-        waiter = Future(self)
-        transport = DatagramSocketTransportLayer(self, None, socket, protocol, waiter, address)
+        try:
+            protocol = protocol_factory()
+            waiter = Future(self)
+            transport = DatagramSocketTransportLayer(self, None, socket, protocol, waiter, address)
+        except:
+            socket.close()
+            raise
         
         try:
             await waiter
-- 
2.43.0


From e9b797fd55258db0e7cba4bf1841f58592e66458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:10 +0000
Subject: [PATCH 107/176] fix: aborting a transport while sending its last data
 left its closed socket watched

---
 scarletio/core/protocols_and_transports/transport_layer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scarletio/core/protocols_and_transports/transport_layer.py b/scarletio/core/protocols_and_transports/transport_layer.py
index 1fd7619..c3d9894 100755
--- a/scarletio/core/protocols_and_transports/transport_layer.py
+++ b/scarletio/core/protocols_and_transports/transport_layer.py
@@ -451,7 +451,9 @@ class SocketTransportLayerBase(TransportLayerBase):
         buffer = self._buffer
         if buffer:
             buffer.clear()
-            self._loop.remove_writer(self._file_descriptor)
+        
+        # The writer might be still there even if the buffer is empty: the last element might be just being sent.
+        self._loop.remove_writer(self._file_descriptor)
         
         if not self._closing:
             self._closing = True
-- 
2.43.0


From a14bbe17beb8d1c8a043013c4edb19bcabdba098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:50 +0000
Subject: [PATCH 108/176] fix: event loops died if their next scheduled
 callback was more than 24 days away

---
 scarletio/core/event_loop/event_loop.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scarletio/core/event_loop/event_loop.py b/scarletio/core/event_loop/event_loop.py
index 511347c..8e8dd94 100755
--- a/scarletio/core/event_loop/event_loop.py
+++ b/scarletio/core/event_loop/event_loop.py
@@ -45,6 +45,8 @@ write_exception_maybe_async = include('write_exception_maybe_async')
 get_address_info_async = include('get_address_info_async')
 get_name_info_async = include('get_name_info_async')
 
+# Selectors refuse to wait for too long, so the event loops wake up at least this often.
+SELECT_TIMEOUT_MAX = 24.0 * 60.0 * 60.0
 
 
 @export
@@ -683,6 +685,9 @@ class EventThread(Executor, Thread, metaclass = EventThreadType):
                 elif scheduled:
                     # compute the desired timeout.
                     timeout = scheduled[0].when - LOOP_TIME()
+                    # the selector fails if the timeout is too large
+                    if timeout > SELECT_TIMEOUT_MAX:
+                        timeout = SELECT_TIMEOUT_MAX
                 else:
                     timeout = None
                 
-- 
2.43.0


From 744da969aa8aa0788aafd7804806e66c30c99bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:21 +0000
Subject: [PATCH 109/176] fix: content types could not be hashed

---
 scarletio/web_common/content_type.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/web_common/content_type.py b/scarletio/web_common/content_type.py
index f3f172a..7c01ded 100755
--- a/scarletio/web_common/content_type.py
+++ b/scarletio/web_common/content_type.py
@@ -706,7 +706,7 @@ class ContentType(RichAttributeErrorBaseType):
         return True
     
     
-    def __hash__(self, other):
+    def __hash__(self):
         """Returns hash(self)."""
         hash_value = 0
         
-- 
2.43.0


From 628e859e1e4fcd3143760b884c6db72dc8af0245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:21 +0000
Subject: [PATCH 110/176] fix: elements of keep alive headers were lost if an
 element without value preceded them

---
 scarletio/web_common/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/web_common/constants.py b/scarletio/web_common/constants.py
index 54ff8a0..5cb8004 100755
--- a/scarletio/web_common/constants.py
+++ b/scarletio/web_common/constants.py
@@ -3,7 +3,7 @@ __all__ = ()
 from re import compile as re_compile
 
 
-KEEP_ALIVE_HEADER_RP = re_compile('\\s*([^ \\t=]+)\\s*=\\s*([^ \\t,$]+)\\s*(?:,|$)')
+KEEP_ALIVE_HEADER_RP = re_compile('(?:^|,)\\s*([^ \\t=,]+)\\s*=\\s*([^ \\t,]+)\\s*(?=,|$)')
 
 KEEP_ALIVE_CONNECTION_TIMEOUT_DEFAULT = 15.0
 KEEP_ALIVE_MAX_REQUESTS_DEFAULT = 0
-- 
2.43.0


From 43685c1e58573129327c3209336c81ad5aae99ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:21 +0000
Subject: [PATCH 111/176] fix: nan, infinite and negative values of keep alive
 headers were used

---
 scarletio/web_common/keep_alive_info.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/scarletio/web_common/keep_alive_info.py b/scarletio/web_common/keep_alive_info.py
index 7d7ff3a..1fc6d79 100755
--- a/scarletio/web_common/keep_alive_info.py
+++ b/scarletio/web_common/keep_alive_info.py
@@ -143,17 +143,24 @@ class KeepAliveInfo(RichAttributeErrorBaseType):
                 
                 if key == KEEP_ALIVE_CONNECTION_TIMEOUT_KEY:
                     try:
-                        connection_timeout = float(value)
+                        value = float(value)
                     except ValueError:
-                        pass
+                        continue
+                    
+                    # Ignore nan, infinite and negative values too.
+                    if 0.0 <= value < float('inf'):
+                        connection_timeout = value
                     
                     continue
                 
                 if key == KEEP_ALIVE_MAX_REQUESTS_KEY:
                     try:
-                        max_requests = int(value)
+                        value = int(value)
                     except ValueError:
-                        pass
+                        continue
+                    
+                    if value >= 0:
+                        max_requests = value
                     
                     continue
                 
-- 
2.43.0


From dfc9b715d036da4fe5f6fde979773891b3567439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:21 +0000
Subject: [PATCH 112/176] fix: commas and tabs were accepted inside of the
 tokens of content dispositions

---
 scarletio/web_common/header_building_and_parsing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scarletio/web_common/header_building_and_parsing.py b/scarletio/web_common/header_building_and_parsing.py
index 617089c..2e1e5b8 100755
--- a/scarletio/web_common/header_building_and_parsing.py
+++ b/scarletio/web_common/header_building_and_parsing.py
@@ -12,9 +12,9 @@ _PROTOCOL_RP = re.compile(r'[-!#$%&\'*+.^_`|~0-9a-zA-Z]+(?:/[-!#$%&\'*+.^_`|~0-9
 CHARS = frozenset((chr(i) for i in range(0, 128)))
 CONTROLS = frozenset((*(chr(i) for i in range(0, 32)), chr(127)))
 SEPARATORS = frozenset(
-    ('(', ')', '<', '>', '@', ', ', ';', ':', '\\', '"', '/', '[', ']', '?', '=', '{', '}', ' ', chr(9)),
+    ('(', ')', '<', '>', '@', ',', ';', ':', '\\', '"', '/', '[', ']', '?', '=', '{', '}', ' ', chr(9)),
 )
-TOKENS = CHARS ^ CONTROLS ^ SEPARATORS
+TOKENS = CHARS - CONTROLS - SEPARATORS
 
 def build_extensions(available_extensions):
     """
-- 
2.43.0


From ef5d8017c30c93a1e1becdcca4738604392da403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:21 +0000
Subject: [PATCH 113/176] fix: line breaks were written into content
 dispositions as they are if not quoting them

---
 scarletio/web_common/header_building_and_parsing.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/scarletio/web_common/header_building_and_parsing.py b/scarletio/web_common/header_building_and_parsing.py
index 2e1e5b8..c0fe8fe 100755
--- a/scarletio/web_common/header_building_and_parsing.py
+++ b/scarletio/web_common/header_building_and_parsing.py
@@ -445,7 +445,7 @@ def _try_usascii_escape(value):
     escaped : `bool`
     value : `str`
     """
-    if not (USASCII_CHARACTERS > {*value}):
+    if not (USASCII_CHARACTERS >= {*value}):
         return False, value
     return True, USASCII_ESCAPABLE_RP.sub(_escape_matched, value)
 
@@ -467,7 +467,7 @@ def build_content_disposition_header(disposition_type, parameters, quote_fields)
     -------
     output : `str`
     """
-    if (not disposition_type) or not (TOKENS > {*disposition_type}):
+    if (not disposition_type) or not (TOKENS >= {*disposition_type}):
         raise ValueError(
             f'Bad content disposition type {disposition_type!r}.'
         )
@@ -480,7 +480,7 @@ def build_content_disposition_header(disposition_type, parameters, quote_fields)
         if key == 'file_name':
             key = 'filename'
         
-        if (not key) or (not (TOKENS > {*key})):
+        if (not key) or (not (TOKENS >= {*key})):
             raise ValueError(
                 f'Bad content disposition parameter {key!r} = {value!r}.'
             )
@@ -495,6 +495,12 @@ def build_content_disposition_header(disposition_type, parameters, quote_fields)
                 value = quote(value, safe = '')
                 value = f'utf-8\'\'{value!s}'
         else:
+            # Control characters (line breaks too) cannot be represented when not quoting.
+            if any((character in CONTROLS) and (character != '\t') for character in value):
+                raise ValueError(
+                    f'Bad content disposition parameter {key!r} = {value!r}.'
+                )
+            
             value = value.replace('\\', '\\\\').replace('"', '\\"')
             value = f'"{value!s}"'
         
-- 
2.43.0


From 967898df2e519a4f936435207919a01709d410ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:21 +0000
Subject: [PATCH 114/176] fix: authorization was not written or read correctly
 with line breaks or non ascii compatible encodings

---
 scarletio/web_common/basic_authorization.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scarletio/web_common/basic_authorization.py b/scarletio/web_common/basic_authorization.py
index a8ab27a..f4b184f 100755
--- a/scarletio/web_common/basic_authorization.py
+++ b/scarletio/web_common/basic_authorization.py
@@ -2,13 +2,13 @@ __all__ = ('BasicAuthorization', )
 
 from binascii import Error as EncodeOrDecodeError
 from base64 import b64decode as base64_decode, b64encode as base64_encode
-from re import compile as re_compile
+from re import DOTALL as RE_DOT_ALL, compile as re_compile
 
 from ..utils import RichAttributeErrorBaseType
 
 
 AUTHORIZATION_HEADER_RP = re_compile('\\s*(.*?)\\s+(.*?)\\s*')
-USER_ID_PASSWORD_JOIN_RP = re_compile('(.*?)(?:\\:(.*))?')
+USER_ID_PASSWORD_JOIN_RP = re_compile('(.*?)(?:\\:(.*))?', RE_DOT_ALL)
 BASIC_AUTH_DEFAULT_ENCODING = 'latin1'
 
 
@@ -207,4 +207,4 @@ class BasicAuthorization(RichAttributeErrorBaseType):
         -------
         authorization_header : `str`
         """
-        return f'Basic {base64_encode((f"{self.user_id}:{self.password}").encode(self.encoding)).decode(self.encoding)}'
+        return f'Basic {base64_encode((f"{self.user_id}:{self.password}").encode(self.encoding)).decode("ascii")}'
-- 
2.43.0


From 08511730b8823cfc1802854591cc85b295e1c5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:21 +0000
Subject: [PATCH 115/176] fix: malformed base64 was accepted as basic
 authorization

---
 scarletio/web_common/basic_authorization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/web_common/basic_authorization.py b/scarletio/web_common/basic_authorization.py
index f4b184f..079eb29 100755
--- a/scarletio/web_common/basic_authorization.py
+++ b/scarletio/web_common/basic_authorization.py
@@ -179,7 +179,7 @@ class BasicAuthorization(RichAttributeErrorBaseType):
             )
         
         try:
-            decoded = base64_decode(token.encode('ascii')).decode(encoding)
+            decoded = base64_decode(token.encode('ascii'), validate = True).decode(encoding)
         except (EncodeOrDecodeError, UnicodeEncodeError, UnicodeDecodeError) as exception:
             raise ValueError(f'Could not decode token; token ={token!r}') from exception
         
-- 
2.43.0


From 11293e6369bda0c86c17e06702480ff4acb2b7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:43 +0000
Subject: [PATCH 116/176] fix: percent encoded 8 and 9 digits were decoded as 0
 and 1

---
 scarletio/web_common/quoting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/web_common/quoting.py b/scarletio/web_common/quoting.py
index d019b90..8c6c3ba 100755
--- a/scarletio/web_common/quoting.py
+++ b/scarletio/web_common/quoting.py
@@ -46,7 +46,7 @@ def _base_16_char_to_int(char):
     -------
     value : `int`
     """
-    value = char & 0x7
+    value = char & 0xf
     if char >= b'0'[0] and char <= b'9'[0]:
         pass
     elif (char >= b'a'[0] and char <= b'f'[0]) or (char >= b'A'[0] and char <= b'F'[0]):
-- 
2.43.0


From 2712f954ec0db1e0e3de74c436334ce9b49fd6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:07 +0000
Subject: [PATCH 117/176] fix: unquoting raised at or lost malformed and
 undecodable escapes, and decoded plus signs outside of query strings

---
 scarletio/web_common/quoting.py       | 203 +++++++++++++++-----------
 scarletio/web_common/url/url_query.py |   2 +-
 2 files changed, 116 insertions(+), 89 deletions(-)

diff --git a/scarletio/web_common/quoting.py b/scarletio/web_common/quoting.py
index 8c6c3ba..9c5bfcc 100755
--- a/scarletio/web_common/quoting.py
+++ b/scarletio/web_common/quoting.py
@@ -59,27 +59,6 @@ def _base_16_char_to_int(char):
     return value
 
 
-def _int_to_base_16_char(value):
-    """
-    Converts a base-16 character to its integer representation.
-    
-    Parameters
-    ----------
-    value : `int`
-        Integer.
-    
-    Returns
-    -------
-    char : `int`
-    """
-    char = 0x30 | value
-    
-    if value > 9:
-        char += 0x27
-    
-    return char
-
-
 def quote(value, safe = None, protected = None, query_string = False):
     """
     Http quotes the given `value`.
@@ -192,85 +171,133 @@ def unquote(value, unsafe = None, query_string = False):
     if not value:
         return ''
     
-    percentages = None
-    result = []
-    joined = -1
-    
-    if (unsafe is not None):
+    if (unsafe is None):
+        unsafe_characters = frozenset()
+    else:
         try:
-            unsafe = UNQUOTE_UNSAFE_MAP[unsafe]
+            unsafe_characters = UNQUOTE_UNSAFE_MAP[unsafe]
         except KeyError:
-            unsafe = UNQUOTE_UNSAFE_MAP[unsafe] = frozenset(unsafe)
+            unsafe_characters = UNQUOTE_UNSAFE_MAP[unsafe] = frozenset(unsafe)
     
-    iterator = iter(value)
-    for char in iterator:
-        if (percentages is not None):
-            try:
-                unquoted = percentages.decode('utf8')
-            except UnicodeDecodeError:
-                pass
-            else:
-                if query_string and (unquoted in QUERY_STRING_NOT_SAFE):
-                    result.append(quote(unquoted, query_string = True))
-                elif (unsafe is not None) and (unquoted in unsafe):
-                    result.append(quote(unquoted))
-                else:
-                    result.append(unquoted)
-                
-                percentages = None
+    result = []
+    index = 0
+    length = len(value)
+    
+    while index < length:
+        char = value[index]
         
         if char == '%':
-            try:
-                char_0 = next(iterator)
-                char_1 = next(iterator)
-            except StopIteration:
-                break
-            
-            joined = (_base_16_char_to_int(ord(char_0)) << 4) | _base_16_char_to_int(ord(char_1))
+            # Decode the escapes following each other together, since a character can be built from more of them.
+            percentages = bytearray()
+            while True:
+                byte = _parse_percentage(value, index)
+                if byte == -1:
+                    break
+                
+                percentages.append(byte)
+                index += 3
             
-            if (percentages is None):
-                percentages = bytearray()
+            if percentages:
+                _unquote_percentages_into(
+                    result,
+                    percentages,
+                    value[index - len(percentages) * 3 : index],
+                    unsafe_characters,
+                    query_string,
+                )
+                continue
             
-            percentages.append(joined)
-            continue
+            # Not an escape, keep it as is.
         
-        if (percentages is not None) and (joined != -1):
-            result.append('%')
-            result.append(char_0)
-            result.append(char_1)
-            joined = -1
+        elif char in unsafe_characters:
+            char = _quote_every_byte(char)
         
-        if char == '+':
-            if (unsafe is None) or (char not in unsafe):
-                char = ' '
-            
-            result.append(char)
-            continue
-        
-        if (unsafe is not None) and (char in unsafe):
-            result.append('%')
-            result.append(chr(_int_to_base_16_char(ord(char) >> 4)))
-            result.append(chr(_int_to_base_16_char(ord(char) & 0xf)))
-            continue
+        elif query_string and (char == '+'):
+            char = ' '
         
         result.append(char)
+        index += 1
     
+    return ''.join(result)
+
+
+def _parse_percentage(value, index):
+    """
+    Parses the percentage escape at the given index.
     
-    if (percentages is not None):
-        try:
-            unquoted = percentages.decode('utf8')
-        except UnicodeDecodeError:
-            if (joined != -1):
-                result.append('%')
-                result.append(char_0)
-                result.append(char_1)
+    Parameters
+    ----------
+    value : `str`
+        The value to parse from.
+    
+    index : `int`
+        The index to parse at.
+    
+    Returns
+    -------
+    byte : `int`
+        Returns `-1` if there is no (valid) escape at the index.
+    """
+    if (index + 3 > len(value)) or (value[index] != '%'):
+        return -1
+    
+    try:
+        return (
+            (_base_16_char_to_int(ord(value[index + 1])) << 4) |
+            _base_16_char_to_int(ord(value[index + 2]))
+        )
+    except ValueError:
+        return -1
+
+
+def _quote_every_byte(value):
+    """
+    Percentage encodes every byte of the given value.
+    
+    Parameters
+    ----------
+    value : `str`
+        The value to encode.
+    
+    Returns
+    -------
+    value : `str`
+    """
+    return ''.join([f'%{byte:02X}' for byte in value.encode('utf8')])
+
+
+def _unquote_percentages_into(into, percentages, raw, unsafe_characters, query_string):
+    """
+    Unquotes the given percentage decoded bytes. The ones which are not building up a character are kept as they were.
+    
+    Parameters
+    ----------
+    into : `list<str>`
+        List to extend with the characters.
+    
+    percentages : `bytearray`
+        The decoded bytes.
+    
+    raw : `str`
+        The escapes from which `percentages` was parsed.
+    
+    unsafe_characters : `frozenset<str>`
+        Characters, which should stay encoded.
+    
+    query_string : `bool`
+        Whether the value is a query string value.
+    """
+    index = 0
+    for char in percentages.decode('utf8', 'surrogateescape'):
+        if '\udc80' <= char <= '\udcff':
+            # Undecodable
+            end = index + 1
+            char = raw[index * 3 : end * 3]
         
         else:
-            if query_string and (unquoted in QUERY_STRING_NOT_SAFE):
-                result.append(quote(unquoted, query_string = True))
-            elif (unsafe is not None) and (unquoted in unsafe):
-                result.append(quote(unquoted))
-            else:
-                result.append(unquoted)
-    
-    return ''.join(result)
+            end = index + len(char.encode('utf8'))
+            if (char in unsafe_characters) or (query_string and (char in QUERY_STRING_NOT_SAFE)):
+                char = _quote_every_byte(char)
+        
+        into.append(char)
+        index = end
diff --git a/scarletio/web_common/url/url_query.py b/scarletio/web_common/url/url_query.py
index 307b091..c747322 100755
--- a/scarletio/web_common/url/url_query.py
+++ b/scarletio/web_common/url/url_query.py
@@ -12,7 +12,7 @@ from .url_part_base_parsed import URLPartBaseParsed
 
 
 encode = lambda value: quote(value, safe = '/?:@=', query_string = True)
-decode = unquote
+decode = lambda value: None if value is None else unquote(value.replace('+', ' '))
 
 
 def parse_query(query_string, encoded):
-- 
2.43.0


From 291e5a9453f751041ec0508bddfe2907c72c6b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:07 +0000
Subject: [PATCH 118/176] fix: equal signs in the keys of url queries were not
 encoded

---
 scarletio/web_common/url/url_query.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scarletio/web_common/url/url_query.py b/scarletio/web_common/url/url_query.py
index c747322..8763f27 100755
--- a/scarletio/web_common/url/url_query.py
+++ b/scarletio/web_common/url/url_query.py
@@ -12,6 +12,7 @@ from .url_part_base_parsed import URLPartBaseParsed
 
 
 encode = lambda value: quote(value, safe = '/?:@=', query_string = True)
+encode_key = lambda value: quote(value, safe = '/?:@', query_string = True)
 decode = lambda value: None if value is None else unquote(value.replace('+', ' '))
 
 
@@ -293,7 +294,7 @@ def serialize_query(query, encoded):
     # Sort the keys to always get the same output.
     for query_key in sorted(query.keys()):
         if encoded:
-            query_key_processed = encode(query_key)
+            query_key_processed = encode_key(query_key)
         else:
             query_key_processed = query_key
         
-- 
2.43.0


From 28cd7d4e844305fee5dade60d8adeb8333d204aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:07 +0000
Subject: [PATCH 119/176] fix: hosts of urls with a single digit port were not
 recognized

---
 scarletio/web_common/url/constants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/web_common/url/constants.py b/scarletio/web_common/url/constants.py
index 9f857fe..e7d437f 100755
--- a/scarletio/web_common/url/constants.py
+++ b/scarletio/web_common/url/constants.py
@@ -80,7 +80,7 @@ URL_RP = re_compile(
     f'{HOST_RP.pattern!s}'
     ')'
     # port number
-    '(?::(\\d{2,5}))?'
+    '(?::(\\d{1,5}))?'
     ')?'
     # resource path
     '(/[-a-z\u00a1-\uffff\U00010000-\U0010ffff0-9._~%!$&\'()*+,;=:@/]*)?'
-- 
2.43.0


From 08465e80207e1b003a884fc581e4540db8c2652f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:05 +0000
Subject: [PATCH 120/176] fix: schemes of urls were case sensitive

---
 scarletio/web_common/url/url.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/scarletio/web_common/url/url.py b/scarletio/web_common/url/url.py
index e969ba9..9ca402f 100755
--- a/scarletio/web_common/url/url.py
+++ b/scarletio/web_common/url/url.py
@@ -207,7 +207,9 @@ class URL(RichAttributeErrorBaseType):
         
         # scheme
         scheme = next(iterator)
-        # nothing to do, we expected it to be already in good format
+        # schemes are case insensitive
+        if (scheme is not None):
+            scheme = scheme.casefold()
         
         # user
         user_name = next(iterator)
@@ -1132,7 +1134,10 @@ class URL(RichAttributeErrorBaseType):
             pass
         
         elif isinstance(scheme, str):
-            if not scheme:
+            if scheme:
+                # schemes are case insensitive
+                scheme = scheme.casefold()
+            else:
                 scheme = None
         
         else:
-- 
2.43.0


From d2e3c7e65dde5f59f682631f575728dfa06caad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:05 +0000
Subject: [PATCH 121/176] fix: leading empty parts of url paths were kept, but
 not read back

---
 scarletio/web_common/url/url_path.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/scarletio/web_common/url/url_path.py b/scarletio/web_common/url/url_path.py
index 36ac192..122599a 100755
--- a/scarletio/web_common/url/url_path.py
+++ b/scarletio/web_common/url/url_path.py
@@ -72,6 +72,11 @@ def normalize_path_parts(parts):
         deleted_count += 1
         parts_length -= 1
         
+    # Leading empty parts would not be read back.
+    while deleted_count and (parts_length > 1) and (not parts[0]):
+        del parts[0]
+        parts_length -= 1
+    
     if deleted_count and (parts_length == 1) and (not parts[0]):
         del parts[0]
         parts_length = 0
@@ -121,6 +126,10 @@ class URLPath(URLPartBaseParsed):
             if not parts[0]:
                 del parts[0]
             
+            # Leading empty parts would not be read back.
+            while (len(parts) > 1) and (not parts[0]):
+                del parts[0]
+            
             parts = normalize_path_parts(parts)
             if (parts is not None):
                 return tuple(parts)
-- 
2.43.0


From 0b2506fc2dd54f631346c6a6d017f155a205e340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:05 +0000
Subject: [PATCH 122/176] fix: slashes inside of the parts of url paths became
 separators, and joining after a trailing slash doubled it

---
 scarletio/web_common/url/url.py      | 16 ++++++++++------
 scarletio/web_common/url/url_path.py |  3 ++-
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/scarletio/web_common/url/url.py b/scarletio/web_common/url/url.py
index 9ca402f..cbf5b07 100755
--- a/scarletio/web_common/url/url.py
+++ b/scarletio/web_common/url/url.py
@@ -550,9 +550,13 @@ class URL(RichAttributeErrorBaseType):
             split = path.parsed
         
         if split is None:
-            split = [name]
+            split = [*name.split('/')]
         else:
-            split = [*split, name]
+            # Do not keep the trailing `/`.
+            if not split[-1]:
+                split = split[:-1]
+            
+            split = [*split, *name.split('/')]
         
         split = normalize_path_parts(split)
         if split is None:
@@ -1020,7 +1024,7 @@ class URL(RichAttributeErrorBaseType):
         )
         path = self._path
         if (path is not None):
-            return (*(quote(part, safe = '@:', protected = '/') for part in path.parsed),)
+            return (*(quote(part, safe = '@:') for part in path.parsed),)
     
     
     @property
@@ -1085,7 +1089,7 @@ class URL(RichAttributeErrorBaseType):
         if (path is not None):
             path_parts = path.parsed
             if (path_parts is not None):
-                return quote(path_parts[-1], safe = '@:', protected = '/')
+                return quote(path_parts[-1], safe = '@:')
     
     
     @cached_property
@@ -1542,10 +1546,10 @@ class URL(RichAttributeErrorBaseType):
             path_parts_length = len(path_parts)
         
         if path_parts_length <= 1:
-            path_parts = [name]
+            path_parts = [*name.split('/')]
         
         else:
-            path_parts = [*islice(path_parts, 0, path_parts_length - 1), name]
+            path_parts = [*islice(path_parts, 0, path_parts_length - 1), *name.split('/')]
         
         path_parts = normalize_path_parts(path_parts)
         if (path_parts is not None):
diff --git a/scarletio/web_common/url/url_path.py b/scarletio/web_common/url/url_path.py
index 122599a..ecebc48 100755
--- a/scarletio/web_common/url/url_path.py
+++ b/scarletio/web_common/url/url_path.py
@@ -8,6 +8,7 @@ from .url_part_base_parsed import URLPartBaseParsed
 
 
 encode = lambda value: quote(value, safe = '@:', protected = '/')
+encode_part = lambda value: quote(value, safe = '@:')
 decode = unquote
 
 
@@ -147,7 +148,7 @@ class URLPath(URLPartBaseParsed):
             else:
                 for part in value:
                     if encoded:
-                        part = encode(part)
+                        part = encode_part(part)
                 
                     built.append('/')
                     built.append(part)
-- 
2.43.0


From eaef3fa91f1e1bbfc298603478b21bf2801de4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:40 +0000
Subject: [PATCH 123/176] fix: draining the stdin of subprocesses never ended

---
 scarletio/core/subprocess/subprocess.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/scarletio/core/subprocess/subprocess.py b/scarletio/core/subprocess/subprocess.py
index ed16a11..d166591 100755
--- a/scarletio/core/subprocess/subprocess.py
+++ b/scarletio/core/subprocess/subprocess.py
@@ -5,7 +5,7 @@ from socket import socketpair as create_socket_pair
 from subprocess import PIPE, Popen, TimeoutExpired
 
 from ..protocols_and_transports import ReadProtocolBase
-from ..traps import Future, Task, TaskGroup, skip_poll_cycle
+from ..traps import Future, Task, TaskGroup, shield, skip_poll_cycle
 
 from .subprocess_protocols import SubprocessReadPipeProtocol, SubprocessWritePipeProtocol
 from .subprocess_writer import SubprocessWriter
@@ -916,5 +916,8 @@ class AsyncProcess:
         if not self._paused:
             return
         
-        self._drain_waiter = drain_waiter = Future(self)
-        await drain_waiter
+        drain_waiter = self._drain_waiter
+        if drain_waiter is None:
+            self._drain_waiter = drain_waiter = Future(self._loop)
+        
+        await shield(drain_waiter, self._loop)
-- 
2.43.0


From 492e730d3ae99652f470414e87968bc33c0bcec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:40 +0000
Subject: [PATCH 124/176] fix: subprocesses were killed if they closed their
 output, and waiting for the ones without output never ended

---
 scarletio/core/subprocess/subprocess.py | 40 ++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 7 deletions(-)

diff --git a/scarletio/core/subprocess/subprocess.py b/scarletio/core/subprocess/subprocess.py
index d166591..f6593ad 100755
--- a/scarletio/core/subprocess/subprocess.py
+++ b/scarletio/core/subprocess/subprocess.py
@@ -76,8 +76,8 @@ class AsyncProcess:
         Asynchronous stdout implementation.
     """
     __slots__ = (
-        '_alive_file_descriptors', '_closed', '_connection_lost', '_drain_waiter', '_exit_waiters', '_extra', '_loop',
-        '_paused', '_pending_calls', '_subprocess_stderr_protocol', '_subprocess_stdin_protocol',
+        '_alive_file_descriptors', '_closed', '_connection_lost', '_drain_waiter', '_exit_task', '_exit_waiters', '_extra',
+        '_loop', '_paused', '_pending_calls', '_subprocess_stderr_protocol', '_subprocess_stdin_protocol',
         '_subprocess_stdout_protocol', 'process', 'process_id', 'return_code', 'stderr', 'stdin', 'stdout'
     )
     
@@ -183,6 +183,7 @@ class AsyncProcess:
         self.process = process
         self.process_id = process.pid
         self.return_code = None
+        self._exit_task = None
         self._exit_waiters = None
         self._pending_calls = []
         self._subprocess_stdin_protocol = None
@@ -232,6 +233,10 @@ class AsyncProcess:
                 pending_call(self, *args)
             
             self._pending_calls = None
+            
+            # If there is nothing to tell about the exit, look for it.
+            if not self._alive_file_descriptors:
+                self._watch_exit()
         except:
             self.close()
             await self.wait()
@@ -342,7 +347,7 @@ class AsyncProcess:
                 except ProcessLookupError:
                     pass
         
-        Task(self._loop, self._process_exited())
+        self._watch_exit()
     
     __del__ = close
     
@@ -559,6 +564,14 @@ class AsyncProcess:
             reader.data_received(data)
     
     
+    def _watch_exit(self):
+        """
+        Starts waiting for the process to exit if not yet waiting for it.
+        """
+        if self._exit_task is None:
+            self._exit_task = Task(self._loop, self._process_exited())
+    
+    
     async def _process_exited(self):
         """
         Task created by ``.close``to wait till the sub-process is closed and to set
@@ -574,12 +587,14 @@ class AsyncProcess:
             
             self._try_finish()
             
+            if not self._alive_file_descriptors:
+                self.close()
+            
             # wake up futures waiting for wait()
             exit_waiters = self._exit_waiters
             if (exit_waiters is not None):
                 for waiter in self._exit_waiters:
-                    if not waiter.is_cancelled():
-                        waiter.set_result(return_code)
+                    waiter.set_result_if_pending(return_code)
             
             self._exit_waiters = None
         finally:
@@ -593,7 +608,11 @@ class AsyncProcess:
         if self._alive_file_descriptors:
             return
         
-        self.close()
+        # The process can close its streams before it exits, so do not end it.
+        if self.return_code is None:
+            self._watch_exit()
+        else:
+            self.close()
     
     
     async def wait(self, timeout = None):
@@ -621,6 +640,7 @@ class AsyncProcess:
         if (return_code is not None):
             return return_code
         
+        self._watch_exit()
         waiter = Future(self._loop)
         
         exit_waiters = self._exit_waiters
@@ -847,7 +867,13 @@ class AsyncProcess:
         -------
         return_code : `None | int`
         """
-        return self.return_code
+        return_code = self.return_code
+        if return_code is None:
+            process = self.process
+            if (process is not None):
+                return_code = process.poll()
+        
+        return return_code
     
     
     def pause_writing(self):
-- 
2.43.0


From e060210bda597c8801fb7977069bf3b882b1411a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:33 +0000
Subject: [PATCH 125/176] fix: communicating with subprocesses without input
 did not close their stdin

---
 scarletio/core/subprocess/subprocess.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scarletio/core/subprocess/subprocess.py b/scarletio/core/subprocess/subprocess.py
index f6593ad..441ac45 100755
--- a/scarletio/core/subprocess/subprocess.py
+++ b/scarletio/core/subprocess/subprocess.py
@@ -795,7 +795,8 @@ class AsyncProcess:
         tasks = []
         
         loop = self._loop
-        if input_value is None:
+        # Without input too, to close it. Else processes reading till the end of their input would never exit.
+        if self.stdin is None:
             stdin_task = None
         else:
             stdin_task = Task(loop, self._feed_stdin(input_value))
-- 
2.43.0


From ce13a45aaa4c49c1124781c67aaf0102bd82bcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:51 +0000
Subject: [PATCH 126/176] fix: the end of subprocesses was not recognized
 correctly if a part of their pipes were still open

---
 scarletio/core/subprocess/subprocess.py       | 22 ++++++++++++-------
 .../core/subprocess/subprocess_protocols.py   |  2 +-
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/scarletio/core/subprocess/subprocess.py b/scarletio/core/subprocess/subprocess.py
index 441ac45..70993e2 100755
--- a/scarletio/core/subprocess/subprocess.py
+++ b/scarletio/core/subprocess/subprocess.py
@@ -476,6 +476,7 @@ class AsyncProcess:
                 pipe.close()
             
             self._do_connection_lost(exception)
+            self._maybe_process_exited()
             return
         
         if file_descriptor == 1:
@@ -587,8 +588,7 @@ class AsyncProcess:
             
             self._try_finish()
             
-            if not self._alive_file_descriptors:
-                self.close()
+            self._maybe_process_exited()
             
             # wake up futures waiting for wait()
             exit_waiters = self._exit_waiters
@@ -611,8 +611,14 @@ class AsyncProcess:
         # The process can close its streams before it exits, so do not end it.
         if self.return_code is None:
             self._watch_exit()
-        else:
-            self.close()
+            return
+        
+        # An other process can still read what is sent.
+        stdin_protocol = self._subprocess_stdin_protocol
+        if (stdin_protocol is not None) and (not stdin_protocol._disconnected):
+            return
+        
+        self.close()
     
     
     async def wait(self, timeout = None):
@@ -674,22 +680,22 @@ class AsyncProcess:
             return
         
         stdin_protocol = self._subprocess_stdin_protocol
-        if (stdin_protocol is None) or stdin_protocol._disconnected:
+        if (stdin_protocol is not None) and (not stdin_protocol._disconnected):
             return
         
         stdout_protocol = self._subprocess_stdout_protocol
-        if (stdout_protocol is None) or stdout_protocol._disconnected:
+        if (stdout_protocol is not None) and (not stdout_protocol._disconnected):
             return
         
         stderr_protocol = self._subprocess_stderr_protocol
-        if (stderr_protocol is None) or stderr_protocol._disconnected:
+        if (stderr_protocol is not None) and (not stderr_protocol._disconnected):
             return
         
         pending_calls = self._pending_calls
         if (pending_calls is None):
             self._do_connection_lost(None)
         else:
-            pending_calls.append((type(self)._do_connection_lost, (self, None,)))
+            pending_calls.append((type(self)._do_connection_lost, (None,)))
     
     
     async def _feed_stdin(self, input_value):
diff --git a/scarletio/core/subprocess/subprocess_protocols.py b/scarletio/core/subprocess/subprocess_protocols.py
index a1101a7..2d5bdbb 100755
--- a/scarletio/core/subprocess/subprocess_protocols.py
+++ b/scarletio/core/subprocess/subprocess_protocols.py
@@ -56,8 +56,8 @@ class SubprocessWritePipeProtocol(AbstractProtocolBase):
         process = self._process
         if (process is not None):
             self._process = None
-            process._pipe_connection_lost(self._file_descriptor, exception)
             self._disconnected = True
+            process._pipe_connection_lost(self._file_descriptor, exception)
     
     
     @copy_docs(AbstractProtocolBase.pause_writing)
-- 
2.43.0


From 522691f5c907326e3f8ed2ec07ce59672d5025f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:51 +0000
Subject: [PATCH 127/176] fix: communicating with subprocesses did not time out
 after their streams ended

---
 scarletio/core/subprocess/subprocess.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/scarletio/core/subprocess/subprocess.py b/scarletio/core/subprocess/subprocess.py
index 70993e2..40b6e62 100755
--- a/scarletio/core/subprocess/subprocess.py
+++ b/scarletio/core/subprocess/subprocess.py
@@ -5,6 +5,7 @@ from socket import socketpair as create_socket_pair
 from subprocess import PIPE, Popen, TimeoutExpired
 
 from ..protocols_and_transports import ReadProtocolBase
+from ..time import LOOP_TIME
 from ..traps import Future, Task, TaskGroup, shield, skip_poll_cycle
 
 from .subprocess_protocols import SubprocessReadPipeProtocol, SubprocessWritePipeProtocol
@@ -801,6 +802,11 @@ class AsyncProcess:
         tasks = []
         
         loop = self._loop
+        if timeout is None:
+            end_time = None
+        else:
+            end_time = LOOP_TIME() + timeout
+        
         # Without input too, to close it. Else processes reading till the end of their input would never exit.
         if self.stdin is None:
             stdin_task = None
@@ -861,7 +867,10 @@ class AsyncProcess:
             stdout = None
             stderr = None
         
-        await self.wait()
+        if end_time is None:
+            await self.wait()
+        else:
+            await self.wait(max(end_time - LOOP_TIME(), 0.0))
         
         return stdout, stderr
     
-- 
2.43.0


From d6d6cd993df3b4d4c80a9cbdae36fcea62a21c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:00 +0000
Subject: [PATCH 128/176] fix: compression loops in dns messages never ended,
 and moved the end of names

---
 scarletio/dns_query/building_and_parsing.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/scarletio/dns_query/building_and_parsing.py b/scarletio/dns_query/building_and_parsing.py
index a9bfb29..505447d 100755
--- a/scarletio/dns_query/building_and_parsing.py
+++ b/scarletio/dns_query/building_and_parsing.py
@@ -112,6 +112,8 @@ def _parse_labels(data, index):
     labels = None
     data_length = len(data)
     furthest_index = index
+    jump_limit = index
+    jumped = False
     
     while True:
         # Bound check index
@@ -125,7 +127,8 @@ def _parse_labels(data, index):
         
         label_length = data[index]
         index += 1
-        furthest_index = max(furthest_index, index)
+        if not jumped:
+            furthest_index = index
         if label_length == 0:
             response_parsing_error = None
             break
@@ -170,17 +173,22 @@ def _parse_labels(data, index):
         
         addition = data[index]
         index += 1
-        furthest_index = max(furthest_index, index)
+        if not jumped:
+            furthest_index = index
+            jumped = True
+        
         index = ((label_length & 0x3f) << 8) | addition
         
-        # Only backwards jumps are allowed.
-        if index > furthest_index:
+        # Only backwards jumps are allowed, before everything that we already read.
+        if index >= jump_limit:
             response_parsing_error =  ResponseParsingError(
                 RESPONSE_PARSING_ERROR_CODE_LABEL_JUMP_FORWARD,
                 data,
                 (furthest_index, index),
             )
             break
+        
+        jump_limit = index
     
     if (response_parsing_error is not None):
         return (None, response_parsing_error)
-- 
2.43.0


From 744fdb8cd2c29094a579060f15d928a395ed98cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:21 +0000
Subject: [PATCH 129/176] fix: invalid and compressed domain name pointers
 raised TypeError

---
 scarletio/dns_query/building_and_parsing.py | 35 ++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/scarletio/dns_query/building_and_parsing.py b/scarletio/dns_query/building_and_parsing.py
index 505447d..4069d01 100755
--- a/scarletio/dns_query/building_and_parsing.py
+++ b/scarletio/dns_query/building_and_parsing.py
@@ -2,7 +2,8 @@ __all__ = ()
 
 from .constants import (
     DATA_VERIFICATION_DESIRED_SHIFT, DATA_VERIFIED_SHIFT, OPERATION_CODE_QUERY_STANDARD, OPERATION_CODE_SHIFT,
-    RECURSION_AVAILABLE_SHIFT, RECURSION_DESIRED_SHIFT, RESPONSE_CODE_MASK, RESPONSE_CODE_SHIFT,
+    RECURSION_AVAILABLE_SHIFT, RECURSION_DESIRED_SHIFT, RESOURCE_RECORD_TYPE_DOMAIN_NAME_POINTER,
+    RESPONSE_CODE_MASK, RESPONSE_CODE_SHIFT,
     RESPONSE_PARSING_ERROR_CODE_HEADER_OUT_OF_BOUND, RESPONSE_PARSING_ERROR_CODE_LABEL_JUMP_FORWARD,
     RESPONSE_PARSING_ERROR_CODE_LABEL_JUMP_READ_OUT_OF_BOUND, RESPONSE_PARSING_ERROR_CODE_LABEL_LENGTH_INVALID_RANGE,
     RESPONSE_PARSING_ERROR_CODE_LABEL_LENGTH_READ_OUT_OF_BOUND, RESPONSE_PARSING_ERROR_CODE_LABEL_READ_END_OUT_OF_BOUND,
@@ -86,6 +87,29 @@ def build_query_data(query, resolve_configuration):
     return b''.join(parts)
 
 
+def _build_labels_data(labels):
+    """
+    Builds the (not compressed) data of the given labels.
+    
+    Parameters
+    ----------
+    labels : `None | tuple<bytes>`
+        Labels to build data of.
+    
+    Returns
+    -------
+    output : `bytes`
+    """
+    parts = []
+    if (labels is not None):
+        for label in labels:
+            parts.append(len(label).to_bytes(1, 'big'))
+            parts.append(label)
+    
+    parts.append(b'\x00')
+    return b''.join(parts)
+
+
 def _parse_labels(data, index):
     """
     Parses labels from the given data.
@@ -328,6 +352,13 @@ def _parse_resource_records(data, index, count):
                 break
             
             record_data = data[index : end]
+            
+            # The name in the data may be compressed, which can be resolved only together with the whole message.
+            if resource_record_type == RESOURCE_RECORD_TYPE_DOMAIN_NAME_POINTER:
+                name_labels_and_end, response_parsing_error = _parse_labels(data, index)
+                if (response_parsing_error is None) and (name_labels_and_end[1] == end):
+                    record_data = _build_labels_data(name_labels_and_end[0])
+            
             index = end
         
         if resource_records is None:
@@ -490,6 +521,8 @@ def parse_domain_name_pointer_data(data):
         return None
     
     labels_and_furthest_index, response_parsing_error = _parse_labels(data, 0)
+    if (response_parsing_error is not None):
+        return None
     
     labels, furthest_index = labels_and_furthest_index
     if labels is None:
-- 
2.43.0


From be2b56b3af165101e2659b8cdbe0793bf2a43358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:21 +0000
Subject: [PATCH 130/176] fix: names with labels which are not idna encoded
 could not be built

---
 scarletio/dns_query/helpers.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/scarletio/dns_query/helpers.py b/scarletio/dns_query/helpers.py
index 82fd3f5..730c6f2 100755
--- a/scarletio/dns_query/helpers.py
+++ b/scarletio/dns_query/helpers.py
@@ -189,7 +189,22 @@ def build_name_from_labels(labels):
         if index:
             characters.append('.')
         
-        for character in labels[index].decode('idna'):
+        label = labels[index]
+        try:
+            label_value = label.decode('idna')
+        except UnicodeError:
+            label_value = label.decode('latin-1')
+            escape_over = 127
+        else:
+            escape_over = 255
+        
+        for character in label_value:
+            character_code_point = ord(character)
+            if escape_over < character_code_point < 256:
+                characters.append('\\')
+                characters.append(str(character_code_point))
+                continue
+            
             if character in ('.', '\\', ';', '@', '$', '(', ')', '"'):
                 characters.append('\\')
                 characters.append(character)
@@ -199,8 +214,7 @@ def build_name_from_labels(labels):
                 characters.append(character)
                 continue
             
-            character_code_point = ord(character)
-            if (not character.isprintable()) or (character_code_point < 33):
+            if (character_code_point < 256) and ((not character.isprintable()) or (character_code_point < 33)):
                 characters.append('\\')
                 if character_code_point < 100:
                     characters.append('0')
-- 
2.43.0


From 8bca5c71fb4f03d7d09bd195a5f60cfc91a51513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:21 +0000
Subject: [PATCH 131/176] fix: escaped bytes of dns names were not encoded as
 themselves

---
 scarletio/dns_query/helpers.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/scarletio/dns_query/helpers.py b/scarletio/dns_query/helpers.py
index 730c6f2..19b282a 100755
--- a/scarletio/dns_query/helpers.py
+++ b/scarletio/dns_query/helpers.py
@@ -29,6 +29,7 @@ def parse_labels_from_name(name):
     # Do split
     split = []
     part_parts = []
+    raw = True
     
     # We split each part by `.`
     # Escaping allowed, escape character is `/`:
@@ -39,12 +40,15 @@ def parse_labels_from_name(name):
     while index < name_length:
         character = name[index]
         if character == '.':
-            split.append(''.join(part_parts))
+            split.append((''.join(part_parts), raw))
             part_parts.clear()
+            raw = True
             index += 1
             continue
         
         if not character == '\\':
+            if character > '\x7f':
+                raw = False
             part_parts.append(character)
             index += 1
             continue
@@ -56,6 +60,8 @@ def parse_labels_from_name(name):
         
         character = name[index]
         if not character.isdigit():
+            if character > '\x7f':
+                raw = False
             part_parts.append(character)
             index += 1
             continue
@@ -89,25 +95,25 @@ def parse_labels_from_name(name):
     
     # If the last part is empty, we can ignore it.
     if part_parts:
-        split.append(''.join(part_parts))
+        split.append((''.join(part_parts), raw))
     part_parts = None
     
-    # If we ended up with an empty split, or if the only split is a `@`, we can return nothing.
-    if (not split) or ((len(split) == 1)) and (split[0] in ('@', '')):
+    # If we ended up with an empty split, or if the only split is a (not escaped) `@`, we can return nothing.
+    if name in ('', '.', '@', '@.'):
         return None
     
     # If we have any empty parts after the splitting and exception case handling, we raise an error.
-    if '' in split:
+    if any(not part for part, raw in split):
         raise ValueError(f'Empty dns label in name; name = {name!r}.')
     
     # Build output
     labels = []
     
-    for part in split:
-        # Use ascii or idna encoding for each part.
-        try:
-            label = part.encode('ascii')
-        except UnicodeEncodeError:
+    for part, raw in split:
+        # If the part has only ascii characters and escaped bytes encode it as is, else use idna encoding.
+        if raw:
+            label = part.encode('latin-1')
+        else:
             label = part.encode('idna')
         
         label_length = len(label)
-- 
2.43.0


From 42b52460a429644cb3eb6959c9e948031e1eb4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:21 +0000
Subject: [PATCH 132/176] fix: upper case, ip v4 ending and scoped unspecified
 ip v6 addresses were not recognized

---
 scarletio/dns_query/constants.py | 20 ++++++++++----------
 scarletio/dns_query/helpers.py   | 10 +++++++++-
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/scarletio/dns_query/constants.py b/scarletio/dns_query/constants.py
index abfbd48..927e6cb 100755
--- a/scarletio/dns_query/constants.py
+++ b/scarletio/dns_query/constants.py
@@ -29,24 +29,24 @@ IP_V4_RP = re_compile(
     '([0-9]|[1-9][0-9]|1[0-9][0-9]|2(?:[0-4][0-9]|5[0-5]))'
 )
 IP_V6_RP = re_compile(
-    '([0-9a-f]{1,4})\\:([0-9a-f]{1,4})\\:([0-9a-f]{1,4})\\:([0-9a-f]{1,4})\\:'
-    '([0-9a-f]{1,4})\\:([0-9a-f]{1,4})\\:([0-9a-f]{1,4})\\:([0-9a-f]{1,4})'
+    '([0-9a-fA-F]{1,4})\\:([0-9a-fA-F]{1,4})\\:([0-9a-fA-F]{1,4})\\:([0-9a-fA-F]{1,4})\\:'
+    '([0-9a-fA-F]{1,4})\\:([0-9a-fA-F]{1,4})\\:([0-9a-fA-F]{1,4})\\:([0-9a-fA-F]{1,4})'
 )
 
 IP_V6_RP_WITH_COLON_AT_START = re_compile(
-    '\\:\\:(?:(?:(?:(?:(?:(?:([0-9a-f]{1,4})\\:)?([0-9a-f]{1,4})\\:)?([0-9a-f]{1,4})\\:)?'
-    '([0-9a-f]{1,4})\\:)?([0-9a-f]{1,4})\\:)?([0-9a-f]{1,4})\\:)?([0-9a-f]{1,4})'
+    '\\:\\:(?:(?:(?:(?:(?:(?:([0-9a-fA-F]{1,4})\\:)?([0-9a-fA-F]{1,4})\\:)?([0-9a-fA-F]{1,4})\\:)?'
+    '([0-9a-fA-F]{1,4})\\:)?([0-9a-fA-F]{1,4})\\:)?([0-9a-fA-F]{1,4})\\:)?([0-9a-fA-F]{1,4})'
 )
 IP_V6_WITH_COLON_AT_END = re_compile(
-    '([0-9a-f]{1,4})(?:\\:([0-9a-f]{1,4})(?:\\:([0-9a-f]{1,4})(?:\\:([0-9a-f]{1,4})(?:\\:'
-    '([0-9a-f]{1,4})(?:\\:([0-9a-f]{1,4})(?:\\:([0-9a-f]{1,4}))?)?)?)?)?)?\\:\\:'
+    '([0-9a-fA-F]{1,4})(?:\\:([0-9a-fA-F]{1,4})(?:\\:([0-9a-fA-F]{1,4})(?:\\:([0-9a-fA-F]{1,4})(?:\\:'
+    '([0-9a-fA-F]{1,4})(?:\\:([0-9a-fA-F]{1,4})(?:\\:([0-9a-fA-F]{1,4}))?)?)?)?)?)?\\:\\:'
 )
 IP_V6_WITH_COLON_IN_MIDDLE = re_compile(
-    '([0-9a-f]{1,4})(?:\\:([0-9a-f]{1,4})(?:\\:([0-9a-f]{1,4})(?:\\:([0-9a-f]{1,4})(?:\\:'
-    '([0-9a-f]{1,4})(?:\\:([0-9a-f]{1,4}))?)?)?)?)?'
+    '([0-9a-fA-F]{1,4})(?:\\:([0-9a-fA-F]{1,4})(?:\\:([0-9a-fA-F]{1,4})(?:\\:([0-9a-fA-F]{1,4})(?:\\:'
+    '([0-9a-fA-F]{1,4})(?:\\:([0-9a-fA-F]{1,4}))?)?)?)?)?'
     '\\:\\:'
-    '(?:(?:(?:(?:(?:([0-9a-f]{1,4})\\:)?([0-9a-f]{1,4})\\:)?([0-9a-f]{1,4})\\:)?'
-    '([0-9a-f]{1,4})\\:)?([0-9a-f]{1,4})\\:)?([0-9a-f]{1,4})'
+    '(?:(?:(?:(?:(?:([0-9a-fA-F]{1,4})\\:)?([0-9a-fA-F]{1,4})\\:)?([0-9a-fA-F]{1,4})\\:)?'
+    '([0-9a-fA-F]{1,4})\\:)?([0-9a-fA-F]{1,4})\\:)?([0-9a-fA-F]{1,4})'
 )
 IP_V6_COLON_ONLY = '::'
 
diff --git a/scarletio/dns_query/helpers.py b/scarletio/dns_query/helpers.py
index 19b282a..37b883d 100755
--- a/scarletio/dns_query/helpers.py
+++ b/scarletio/dns_query/helpers.py
@@ -284,7 +284,15 @@ def parse_ip_v6_string(ip_string):
         else:
             end_position = percentage_index
         
-        if ip_string == IP_V6_COLON_ONLY:
+        # The last 2 parts of the address may be given as an ip v4 address.
+        last_colon_index = ip_string.rfind(':', 0, end_position)
+        if last_colon_index != -1:
+            ip_v4_matched, ip_v4_value = parse_ip_v4_string(ip_string[last_colon_index + 1 : end_position])
+            if ip_v4_matched:
+                ip_string = f'{ip_string[: last_colon_index + 1]}{ip_v4_value >> 16:x}:{ip_v4_value & 0xffff:x}'
+                end_position = len(ip_string)
+        
+        if ip_string[:end_position] == IP_V6_COLON_ONLY:
             matched = True
             break
         
-- 
2.43.0


From c3641fcd7477f80b17d8e764a181b9462d059ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:45 +0000
Subject: [PATCH 133/176] fix: `EventThread.get_name_info` always raised

---
 scarletio/core/event_loop/event_loop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/core/event_loop/event_loop.py b/scarletio/core/event_loop/event_loop.py
index 8e8dd94..d73a899 100755
--- a/scarletio/core/event_loop/event_loop.py
+++ b/scarletio/core/event_loop/event_loop.py
@@ -2185,7 +2185,7 @@ class EventThread(Executor, Thread, metaclass = EventThreadType):
         future : ``Future``
             An awaitable future, what will yield the lookup's result.
         """
-        return await get_address_info_async(
+        return await get_name_info_async(
             self,
             socket_address,
             flags,
-- 
2.43.0


From a943822590c46f7c7d0ae59289fb45f98f1bb466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:45 +0000
Subject: [PATCH 134/176] fix: invalid search domains and options in
 resolv.conf raised when importing the library

---
 scarletio/dns_query/resolve_configuration.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scarletio/dns_query/resolve_configuration.py b/scarletio/dns_query/resolve_configuration.py
index ca5f1c0..440029f 100755
--- a/scarletio/dns_query/resolve_configuration.py
+++ b/scarletio/dns_query/resolve_configuration.py
@@ -608,7 +608,11 @@ def update_resolve_configuration_from_file_content(resolve_configuration, conten
         if key == 'search':
             searches_mentioned = True
             for index in range(1, len(split)):
-                search = parse_labels_from_name(split[index])
+                try:
+                    search = parse_labels_from_name(split[index])
+                except ValueError:
+                    continue
+                
                 if (search is None):
                     continue
                 
@@ -699,7 +703,7 @@ def update_resolve_configuration_from_file_content(resolve_configuration, conten
             continue
         
         option_name, option_value = option_split
-        if not option_value.isdigit():
+        if not option_value.isdecimal():
             continue
         
         option_value = int(option_value)
-- 
2.43.0


From c66b67cf496bf6442badc3ef4ca025494dd33cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:45 +0000
Subject: [PATCH 135/176] fix: drop in configuration files of resolved were
 looked up in the working directory

---
 scarletio/dns_query/resolve_configuration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scarletio/dns_query/resolve_configuration.py b/scarletio/dns_query/resolve_configuration.py
index 440029f..aa5ddcb 100755
--- a/scarletio/dns_query/resolve_configuration.py
+++ b/scarletio/dns_query/resolve_configuration.py
@@ -942,7 +942,7 @@ def _load():
             continue
         
         try:
-            node_names = list_directory()
+            node_names = list_directory(directory_path)
         except PermissionError:
             continue
         
@@ -950,7 +950,7 @@ def _load():
             if not node_name.endswith(end):
                 continue
             
-            file_path = join_paths(directory_path, end)
+            file_path = join_paths(directory_path, node_name)
             if is_file(file_path):
                 configuration_file_paths.append(file_path)
             continue
-- 
2.43.0


From af7b83f8a74cc706ffd7c3576293ca26ea117d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:59 +0000
Subject: [PATCH 136/176] fix: udp answers of ip v6 name servers were never
 received

---
 scarletio/dns_query/requests.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scarletio/dns_query/requests.py b/scarletio/dns_query/requests.py
index d8792aa..f7e7423 100755
--- a/scarletio/dns_query/requests.py
+++ b/scarletio/dns_query/requests.py
@@ -285,10 +285,13 @@ async def _execute_query_udp(event_loop, name_server_configuration, query, resol
         data = build_query_data(query, resolve_configuration)
         protocol._transport.send_to(data)
         await protocol.drain()
-        secondary_protocol = await protocol.wait_for_receive(address, resolve_configuration.option_timeout)
-        if (secondary_protocol is None):
+        # The socket is connected, so every datagram is from the name server. Do not filter by the address, since it is not
+        # represented the same way in every address family.
+        received = await protocol.wait_for_receive(None, resolve_configuration.option_timeout)
+        if (received is None):
             return
         
+        secondary_protocol = received[1]
         data = await secondary_protocol.read_once()
         
         result, response_parsing_error = parse_result_data(data)
-- 
2.43.0


From c6a59fae8c2b872211f002e07f4132919b4e9c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:59 +0000
Subject: [PATCH 137/176] fix: name resolution failed if the connection to the
 first name server failed

---
 scarletio/dns_query/requests.py | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/scarletio/dns_query/requests.py b/scarletio/dns_query/requests.py
index f7e7423..6076696 100755
--- a/scarletio/dns_query/requests.py
+++ b/scarletio/dns_query/requests.py
@@ -157,15 +157,18 @@ async def async_iter_execute_query_async(event_loop, query, resolve_configuratio
             except TimeoutError:
                 continue
             
-            except OSError as exception:
+            except (OSError, EOFError) as exception:
+                if isinstance(exception, GetAddressInfoError):
+                    raise
+                
                 # If we force secure request and we failed to make the connection, increment skipped count.
                 if (
-                    (preference_query_transport_type != QUERY_TRANSPORT_TYPE_TLS) or
-                    (exception.errno != ERROR_CODE_CONNECTION_REFUSED)
+                    (preference_query_transport_type == QUERY_TRANSPORT_TYPE_TLS) and
+                    isinstance(exception, OSError) and
+                    (exception.errno == ERROR_CODE_CONNECTION_REFUSED)
                 ):
-                    raise
+                    name_server_skipped_due_to_secure_connection_not_being_available += len(questions)
                 
-                name_server_skipped_due_to_secure_connection_not_being_available += len(questions)
                 continue
             
             if (result is None):
@@ -198,15 +201,18 @@ async def async_iter_execute_query_async(event_loop, query, resolve_configuratio
             except TimeoutError:
                 continue
             
-            except OSError as exception:
+            except (OSError, EOFError) as exception:
+                if isinstance(exception, GetAddressInfoError):
+                    raise
+                
                 # If we force secure request and we failed to make the connection, increment skipped count.
                 if (
-                    (preference_query_transport_type != QUERY_TRANSPORT_TYPE_TLS) or
-                    (exception.errno != ERROR_CODE_CONNECTION_REFUSED)
+                    (preference_query_transport_type == QUERY_TRANSPORT_TYPE_TLS) and
+                    isinstance(exception, OSError) and
+                    (exception.errno == ERROR_CODE_CONNECTION_REFUSED)
                 ):
-                    raise
+                    name_server_skipped_due_to_secure_connection_not_being_available += 1
                 
-                name_server_skipped_due_to_secure_connection_not_being_available += 1
                 continue
             
             if (result is None):
-- 
2.43.0


From f6622d2978c181db4b5b8e567033683db5849d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:47 +0000
Subject: [PATCH 138/176] fix: udp answers of other queries were accepted

---
 scarletio/dns_query/requests.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/scarletio/dns_query/requests.py b/scarletio/dns_query/requests.py
index 6076696..b486b6a 100755
--- a/scarletio/dns_query/requests.py
+++ b/scarletio/dns_query/requests.py
@@ -298,9 +298,14 @@ async def _execute_query_udp(event_loop, name_server_configuration, query, resol
             return
         
         secondary_protocol = received[1]
-        data = await secondary_protocol.read_once()
+        while True:
+            data = await secondary_protocol.read_once()
+            
+            result, response_parsing_error = parse_result_data(data)
+            # Ignore datagrams which are not the answer of the query.
+            if (result is None) or (result.transaction_id == query.transaction_id):
+                break
         
-        result, response_parsing_error = parse_result_data(data)
         if resolve_configuration.preference_raise_upon_response_parsing_error and (response_parsing_error is not None):
             try:
                 raise response_parsing_error
-- 
2.43.0


From f8359bcb0b82076ccd93fd1f0556ac81a5aca9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:47 +0000
Subject: [PATCH 139/176] fix: `get_name_info_async` took the aliases of
 addresses for their names

---
 scarletio/dns_query/requests.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/scarletio/dns_query/requests.py b/scarletio/dns_query/requests.py
index b486b6a..bbeced5 100755
--- a/scarletio/dns_query/requests.py
+++ b/scarletio/dns_query/requests.py
@@ -903,6 +903,8 @@ async def get_name_info_async(
     
     while True:
         if not (socket_flags & NAME_INFO_NUMERIC_HOST):
+            maybe_host_name = None
+            
             async for result in async_iter_execute_query_async(
                 event_loop,
                 Query(
@@ -922,21 +924,30 @@ async def get_name_info_async(
                 ssl_context,
             ):
                 answers = result.answers
-                if (answers is not None):
+                if (answers is None):
+                    continue
+                
+                # The pointer may be preceded by aliases.
+                for resource_record in answers:
+                    if resource_record.resource_record_type != RESOURCE_RECORD_TYPE_DOMAIN_NAME_POINTER:
+                        continue
+                    
+                    maybe_host_name = parse_domain_name_pointer_data(resource_record.data)
+                    if (maybe_host_name is not None):
+                        break
+                
+                if (maybe_host_name is not None):
                     break
+            
             else:
                 if (socket_flags & NAME_INFO_RAISE_ERROR_IF_NAME_CANNOT_BE_DETERMINED):
                     raise GetAddressInfoError(
                         ERROR_CODE_ADDRESS_INFO_NO_NAME,
                         'Name and service not known.',
                     )
-                
-                answers = None
             
-            if (answers is not None):
-                maybe_host_name = parse_domain_name_pointer_data(answers[0].data)
-                if (maybe_host_name is not None):
-                    host_name = maybe_host_name
+            if (maybe_host_name is not None):
+                host_name = maybe_host_name
                 break
         
         host_name = address
-- 
2.43.0


From 1816c7071da9410c73dad27c54f657ded97b6249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:26 +0000
Subject: [PATCH 140/176] fix: the default zip stream name deduplicator could
 produce the same name multiple times

---
 .../zip_streaming/name_deduplication.py       | 62 ++++++-------------
 1 file changed, 19 insertions(+), 43 deletions(-)

diff --git a/scarletio/streaming/zip_streaming/name_deduplication.py b/scarletio/streaming/zip_streaming/name_deduplication.py
index 58affd0..28c8dbe 100755
--- a/scarletio/streaming/zip_streaming/name_deduplication.py
+++ b/scarletio/streaming/zip_streaming/name_deduplication.py
@@ -57,54 +57,30 @@ def name_deduplicator_default(regex_pattern, name_reconstructor):
     ------
     name : `str`
     """
-    collected = {}
+    produced = set()
+    counters = {}
     name = yield
     
     while True:
-        match = regex_pattern.fullmatch(name)
-        if match is None:
-            path = name
-            index = -1
-            extension = None
-        
-        else:
-            path, index, extension = match.groups()
-            if index is None:
-                index = -1
+        # A name is changed only if it was already produced.
+        if name in produced:
+            match = regex_pattern.fullmatch(name)
+            if match is None:
+                path = name
+                extension = None
             else:
-                index = int(index)
-        
-        key = (path, extension)
-        counter, taken_values = collected.get(key, (-1, None))
-        
-        if (index > counter) and ((taken_values is None) or (index not in taken_values)):
-            new_index = index
+                path, index, extension = match.groups()
             
-            if (taken_values is None):
-                taken_values = set()
+            # Use the first free index.
+            key = (path, extension)
+            counter = counters.get(key, 0)
+            while True:
+                name = name_reconstructor(path, counter, extension)
+                counter += 1
+                if name not in produced:
+                    break
             
-            taken_values.add(new_index)
-        
-        else:
-            new_index = counter + 1
-            if (taken_values is not None):
-                while True:
-                    try:
-                        taken_values.remove(new_index)
-                    except KeyError:
-                        break
-                    
-                    new_index += 1
-                    
-                    if not taken_values:
-                        taken_values = None
-                        break
-            
-            counter = new_index
-        
-        collected[key] = (counter, taken_values)
-        
-        if (index != new_index):
-            name = name_reconstructor(path, new_index, extension)
+            counters[key] = counter
         
+        produced.add(name)
         name = yield name
-- 
2.43.0


From 26bbc61e3f7fa11226375b30549e438b0b81322d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:26 +0000
Subject: [PATCH 141/176] fix: streaming a zip with more than 65535 files
 failed at its end

---
 scarletio/streaming/zip_streaming/zip_stream.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scarletio/streaming/zip_streaming/zip_stream.py b/scarletio/streaming/zip_streaming/zip_stream.py
index 3143a2c..9803883 100755
--- a/scarletio/streaming/zip_streaming/zip_stream.py
+++ b/scarletio/streaming/zip_streaming/zip_stream.py
@@ -196,6 +196,10 @@ def _create_end_of_central_directory_record(files_count):
     -------
     chunk : `bytes`
     """
+    # The field is 2 bytes. If it is not enough, readers use the value in the zip64 record.
+    if files_count > 0xffff:
+        files_count = 0xffff
+    
     return END_OF_CENTRAL_DIRECTORY_RECORD_STRUCT.pack(
         END_OF_CENTRAL_DIRECTORY_RECORD_SIGNATURE,
         0,
-- 
2.43.0


From 603dab31f3d897e1efc825c572e46b640f88fd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:26 +0000
Subject: [PATCH 142/176] fix: files of zip streams modified before 1980 or
 after 2107 got an arbitrary modification date

---
 scarletio/streaming/zip_streaming/file_state.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/scarletio/streaming/zip_streaming/file_state.py b/scarletio/streaming/zip_streaming/file_state.py
index d599aef..8ce8e5d 100755
--- a/scarletio/streaming/zip_streaming/file_state.py
+++ b/scarletio/streaming/zip_streaming/file_state.py
@@ -55,8 +55,17 @@ class ZipStreamFileState(RichAttributeErrorBaseType):
         """
         # Precalculate modification date & time
         modified_at = file.modified_at
-        modification_date = (((modified_at.year - 1980) << 9) | (modified_at.month << 5) | modified_at.day) & 0xffff
-        modification_time = ((modified_at.hour << 11) | (modified_at.minute << 5) | (modified_at.second >> 1)) & 0xffff
+        if modified_at.year < 1980:
+            # before the first representable
+            modification_date = (1 << 5) | 1
+            modification_time = 0
+        elif modified_at.year > 2107:
+            # after the last representable
+            modification_date = (127 << 9) | (12 << 5) | 31
+            modification_time = (23 << 11) | (59 << 5) | 29
+        else:
+            modification_date = ((modified_at.year - 1980) << 9) | (modified_at.month << 5) | modified_at.day
+            modification_time = (modified_at.hour << 11) | (modified_at.minute << 5) | (modified_at.second >> 1)
         
         # precalculate binary name
         name = file.name
-- 
2.43.0


From a9f07eab540bc976a585bda6071f58cee7eed868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:40 +0000
Subject: [PATCH 143/176] fix: ReuBytesIO gave back data of previous write
 sessions, had bad length after rewriting or seeking, ignored seeking from the
 end

---
 scarletio/core/ios.py | 32 +++++++-------------------------
 1 file changed, 7 insertions(+), 25 deletions(-)

diff --git a/scarletio/core/ios.py b/scarletio/core/ios.py
index f16d606..d9b168f 100755
--- a/scarletio/core/ios.py
+++ b/scarletio/core/ios.py
@@ -38,16 +38,13 @@ class ReuBytesIO(BytesIO):
         +-------------------+-------+
         | OPERATION_READ    | 1     |
         +-------------------+-------+
-    _size : `int`
-        The position, till the buffer was written by the last reading session and can be read back.
     """
-    __slots__ = ('_last_operation', '_size')
+    __slots__ = ('_last_operation',)
     
     def __init__(self,):
         """
         Initializes the buffer.
         """
-        self._size = 0
         self._last_operation = OPERATION_WRITE
     
     
@@ -63,13 +60,12 @@ class ReuBytesIO(BytesIO):
             The data to write.
         """
         if self._last_operation != OPERATION_WRITE:
+            # Drop what was written by the last session, so it cannot be read back.
             BytesIO.seek(self, 0)
-            self._size = 0
+            BytesIO.truncate(self, 0)
             self._last_operation = OPERATION_WRITE
         
-        amount = BytesIO.write(self, data)
-        self._size += amount
-        return amount
+        return BytesIO.write(self, data)
     
     
     def read(self, amount = None):
@@ -88,14 +84,6 @@ class ReuBytesIO(BytesIO):
             The red data.
         """
         self._last_operation = OPERATION_READ
-        
-        if amount is None:
-            amount = self._size - self.tell()
-        else:
-            readable = self._size - self.tell()
-            if amount > readable:
-                amount = readable
-        
         return BytesIO.read(self, amount)
     
     
@@ -114,7 +102,7 @@ class ReuBytesIO(BytesIO):
         -------
         length : `int`
         """
-        return self._size
+        return self.getbuffer().nbytes
     
     
     def seek(self, offset, whence = os.SEEK_SET):
@@ -146,14 +134,8 @@ class ReuBytesIO(BytesIO):
         position : `int`
             The new absolute position.
         """
-        if whence == os.SEEK_END:
-            return self._size
-        
-        value = BytesIO.seek(self, offset, whence)
-        if value > self._size:
-            self._size = value
-            
-        return value
+        return BytesIO.seek(self, offset, whence)
+    
     
     def real_close(self):
         """
-- 
2.43.0


From 3f9dd69502e6d8bfd7850d48dde6d92c33704d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:40 +0000
Subject: [PATCH 144/176] fix: leaving a `with` block of a ReuBytesIO did not
 close it

---
 scarletio/core/ios.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scarletio/core/ios.py b/scarletio/core/ios.py
index d9b168f..432f67c 100755
--- a/scarletio/core/ios.py
+++ b/scarletio/core/ios.py
@@ -142,6 +142,12 @@ class ReuBytesIO(BytesIO):
         Closes the buffer.
         """
         BytesIO.close(self)
+    
+    
+    def __exit__(self, exception_type, exception_value, exception_traceback):
+        """Closes the buffer."""
+        self.real_close()
+        return None
 
 
 def get_executor():
-- 
2.43.0


From b34fafb44918227b9a008e0714a0a42cf54c325a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:40 +0000
Subject: [PATCH 145/176] fix: asynchronous files did not release their
 executor if opening or closing failed, or when they were detached

---
 scarletio/core/ios.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/scarletio/core/ios.py b/scarletio/core/ios.py
index 432f67c..5e6fd6f 100755
--- a/scarletio/core/ios.py
+++ b/scarletio/core/ios.py
@@ -240,7 +240,13 @@ class AsyncIO:
         """
         self = object.__new__(cls)
         self._executor = executor = get_executor()
-        self._io = await executor.execute(alchemy_incendiary(open, positional_parameters, keyword_parameters))
+        try:
+            self._io = await executor.execute(alchemy_incendiary(open, positional_parameters, keyword_parameters))
+        except:
+            self._executor = None
+            executor.release()
+            raise
+        
         return self
     
     
@@ -286,9 +292,11 @@ class AsyncIO:
         if executor is None:
             return
         
-        self._io.close()
-        executor.release()
         self._executor = None
+        try:
+            self._io.close()
+        finally:
+            executor.release()
     
     close = __del__
     
@@ -327,6 +335,7 @@ class AsyncIO:
         
         raw = await executor.execute(self._io.detach)
         self._executor = None
+        executor.release()
         return raw
     
     
@@ -979,7 +988,13 @@ class ReuAsyncIO(AsyncIO):
         
         self = object.__new__(cls)
         self._executor = executor = get_executor()
-        self._io = await executor.execute(alchemy_incendiary(open, (path, mode, *positional_parameters), keyword_parameters))
+        try:
+            self._io = await executor.execute(alchemy_incendiary(open, (path, mode, *positional_parameters), keyword_parameters))
+        except:
+            self._executor = None
+            executor.release()
+            raise
+        
         self._should_seek = False
         return self
     
@@ -1043,6 +1058,7 @@ class ReuAsyncIO(AsyncIO):
         
         raw = await executor.execute(self._io.detach)
         self._executor = None
+        executor.release()
         self._should_seek = False
         return raw
     
-- 
2.43.0


From 1e431c2747da1f53c5726daddac5252fe172e264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:34 +0000
Subject: [PATCH 146/176] fix: ReuAsyncIO could lose closing, or rewind more
 times than it was closed, when its operations overlapped or were cancelled

---
 scarletio/core/ios.py | 84 ++++++++++++++-----------------------------
 1 file changed, 26 insertions(+), 58 deletions(-)

diff --git a/scarletio/core/ios.py b/scarletio/core/ios.py
index 5e6fd6f..fb5ea41 100755
--- a/scarletio/core/ios.py
+++ b/scarletio/core/ios.py
@@ -927,12 +927,7 @@ class _ReuAsyncIOIterator:
     
     async def __anext__(self):
         """Reads a line from the respective file."""
-        wrapped = self._wrapped
-        if wrapped._should_seek:
-            await AsyncIO.seek(wrapped, 0)
-            wrapped._should_seek = False
-        
-        result = await wrapped.readline()
+        result = await self._wrapped.readline()
         if result:
             return result
         raise StopAsyncIteration
@@ -1063,29 +1058,21 @@ class ReuAsyncIO(AsyncIO):
         return raw
     
     
-    @staticmethod
-    def _seek_and_call(self, func, *positional_parameters):
+    def _seek_if_required(self, executor):
         """
-        Staticmethod to seek to the respective stream's  `0` start, then call the given `func`.
+        Seeks to the start of the stream before the next operation if the io was closed with ``.close``.
+        
+        The flag is cleared when the operation is started and not when it is executed, so the ones started (or ``.close``
+        called) meanwhile are not affected by it. The seeking is not part of the operation, since that can be cancelled.
         
         Parameters
         ----------
-        self : ``ReuAsyncIO``
-            The respective asynchronous io instance.
-        func : `callable`
-            The callable to call after seeking.
-        *positional_parameters : Positional parameters
-            Additional parameters to call the given `func` with.
-        
-        Returns
-        -------
-        result : `object`
-            The returned value by the given `func`.
+        executor : ``ExecutorThread``, ``ClaimedExecutor``
+            The executor to execute the seeking with.
         """
-        io = self._io
-        io.seek(0)
-        self._should_seek = False
-        return func(self._io, *positional_parameters)
+        if self._should_seek:
+            self._should_seek = False
+            executor.execute(alchemy_incendiary(self._io.seek, (0,))).silence()
     
     
     async def read(self, size=-1):
@@ -1119,10 +1106,8 @@ class ReuAsyncIO(AsyncIO):
             raise ValueError(IO_CLOSED_OR_DETACHED)
         
         func = type(self._io).read
-        if self._should_seek:
-            task = alchemy_incendiary(self._seek_and_call, (self, func, size,),)
-        else:
-            task = alchemy_incendiary(func, (self._io, size,),)
+        self._seek_if_required(executor)
+        task = alchemy_incendiary(func, (self._io, size,),)
         
         return await executor.execute(task)
     
@@ -1158,10 +1143,8 @@ class ReuAsyncIO(AsyncIO):
             raise ValueError(IO_CLOSED_OR_DETACHED)
         
         func = type(self._io).read1
-        if self._should_seek:
-            task = alchemy_incendiary(self._seek_and_call, (self, func, *positional_parameters,),)
-        else:
-            task = alchemy_incendiary(func, (self._io, *positional_parameters),)
+        self._seek_if_required(executor)
+        task = alchemy_incendiary(func, (self._io, *positional_parameters),)
         
         return await executor.execute(task)
     
@@ -1189,10 +1172,8 @@ class ReuAsyncIO(AsyncIO):
             raise ValueError(IO_CLOSED_OR_DETACHED)
         
         func = type(self._io).readinto
-        if self._should_seek:
-            task = alchemy_incendiary(self._seek_and_call, (self, func, b,),)
-        else:
-            task = alchemy_incendiary(func, (self._io, b,),)
+        self._seek_if_required(executor)
+        task = alchemy_incendiary(func, (self._io, b,),)
         
         return await executor.execute(task)
     
@@ -1222,10 +1203,8 @@ class ReuAsyncIO(AsyncIO):
             raise ValueError(IO_CLOSED_OR_DETACHED)
         
         func = type(self._io).readinto1
-        if self._should_seek:
-            task = alchemy_incendiary(self._seek_and_call, (self, func, b,),)
-        else:
-            task = alchemy_incendiary(func, (self._io, b,),)
+        self._seek_if_required(executor)
+        task = alchemy_incendiary(func, (self._io, b,),)
         
         return await executor.execute(task)
     
@@ -1261,10 +1240,8 @@ class ReuAsyncIO(AsyncIO):
             raise ValueError(IO_CLOSED_OR_DETACHED)
         
         func = type(self._io).readline
-        if self._should_seek:
-            task = alchemy_incendiary(self._seek_and_call, (self, func, size,),)
-        else:
-            task = alchemy_incendiary(func, (self._io, size,),)
+        self._seek_if_required(executor)
+        task = alchemy_incendiary(func, (self._io, size,),)
         
         return await executor.execute(task)
     
@@ -1299,10 +1276,8 @@ class ReuAsyncIO(AsyncIO):
             raise ValueError(IO_CLOSED_OR_DETACHED)
         
         func = type(self._io).readlines
-        if self._should_seek:
-            task = alchemy_incendiary(self._seek_and_call, (self, func, hint,),)
-        else:
-            task = alchemy_incendiary(func, (self._io, hint,),)
+        self._seek_if_required(executor)
+        task = alchemy_incendiary(func, (self._io, hint,),)
         
         return await executor.execute(task)
     
@@ -1348,10 +1323,8 @@ class ReuAsyncIO(AsyncIO):
             raise ValueError(IO_CLOSED_OR_DETACHED)
         
         func = type(self._io).seek
-        if self._should_seek:
-            task = alchemy_incendiary(self._seek_and_call, (self, func, offset, whence,),)
-        else:
-            task = alchemy_incendiary(func, (self._io, offset, whence),)
+        self._seek_if_required(executor)
+        task = alchemy_incendiary(func, (self._io, offset, whence),)
         
         return await executor.execute(task)
     
@@ -1377,12 +1350,7 @@ class ReuAsyncIO(AsyncIO):
         if executor is None:
             raise ValueError(IO_CLOSED_OR_DETACHED)
         
-        if self._should_seek:
-            io = self._io
-            await executor.execute(alchemy_incendiary(type(io).seek, (io, 0,),))
-            self._should_seek = False
-            return 0
-        
+        self._seek_if_required(executor)
         return await executor.execute(self._io.tell)
     
     
-- 
2.43.0


From 11c86a8fd9d6e3cdf6e02352364233dcdff8c397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:34 +0000
Subject: [PATCH 147/176] fix: payloads of asynchronous files stopped at the
 first short read

---
 scarletio/web_common/multipart.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scarletio/web_common/multipart.py b/scarletio/web_common/multipart.py
index 4dc37d9..08a41d5 100755
--- a/scarletio/web_common/multipart.py
+++ b/scarletio/web_common/multipart.py
@@ -718,8 +718,9 @@ class AsyncIOPayload(IOBasePayload):
         try:
             while True:
                 chunk = await data.read(BIG_CHUNK_LIMIT)
-                await writer.write(chunk)
-                if len(chunk) < BIG_CHUNK_LIMIT:
+                if chunk:
+                    await writer.write(chunk)
+                else:
                     break
         finally:
             data.close()
-- 
2.43.0


From 548885a92f911b04c2b9f7ed2b65358ae7c076e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:05 +0000
Subject: [PATCH 148/176] fix: asyncio.create_task passed its parameters in the
 wrong order and always raised TypeError

---
 scarletio/ext/asyncio/asyncio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/ext/asyncio/asyncio.py b/scarletio/ext/asyncio/asyncio.py
index cefaf6e..b7e5588 100755
--- a/scarletio/ext/asyncio/asyncio.py
+++ b/scarletio/ext/asyncio/asyncio.py
@@ -3098,7 +3098,7 @@ def create_task(coroutine, *, name = None):
     Return a Task object.
     """
     loop = get_running_loop()
-    return Task(loop, coroutine)
+    return Task(coroutine, loop, name = name)
 
 
 FIRST_COMPLETED = 'FIRST_COMPLETED'
-- 
2.43.0


From f0ea74bf45b541c6e64ad92710b47a06bcf907a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:54 +0000
Subject: [PATCH 149/176] fix: asyncio.timeout never raised TimeoutError, but
 left the cancellation going on

---
 scarletio/ext/asyncio/asyncio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/ext/asyncio/asyncio.py b/scarletio/ext/asyncio/asyncio.py
index b7e5588..3b90293 100755
--- a/scarletio/ext/asyncio/asyncio.py
+++ b/scarletio/ext/asyncio/asyncio.py
@@ -4189,7 +4189,7 @@ class Timeout:
         if self._state is _TimeoutState.EXPIRING:
             self._state = _TimeoutState.EXPIRED
             
-            if isinstance(exception_type, CancelledError):
+            if (exception_type is not None) and issubclass(exception_type, CancelledError):
                 # Since there are no new cancel requests, we're handling this.
                 raise TimeoutError from exception_value
         
-- 
2.43.0


From 21254d4d123e3d28e26217f4aa095514fef82517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:55 +0000
Subject: [PATCH 150/176] fix: representation of an asyncio.Semaphore with
 waiters raised TypeError

---
 scarletio/ext/asyncio/asyncio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/ext/asyncio/asyncio.py b/scarletio/ext/asyncio/asyncio.py
index 3b90293..7d6571a 100755
--- a/scarletio/ext/asyncio/asyncio.py
+++ b/scarletio/ext/asyncio/asyncio.py
@@ -1615,7 +1615,7 @@ class Semaphore:
         waiter_count = len(self._waiters)
         if waiter_count:
             repr_parts.append(', waiters:')
-            repr_parts.append(waiter_count)
+            repr_parts.append(repr(waiter_count))
         
         repr_parts.append('>')
         return ''.join(repr_parts)
-- 
2.43.0


From 2eaf01e32293da26bdfa66ce2a569a2c2e2e812e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:55 +0000
Subject: [PATCH 151/176] fix: asyncio.Lock.acquire returned None instead of
 True, releasing it un-acquired did not raise RuntimeError

---
 scarletio/ext/asyncio/asyncio.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/scarletio/ext/asyncio/asyncio.py b/scarletio/ext/asyncio/asyncio.py
index 7d6571a..2e30830 100755
--- a/scarletio/ext/asyncio/asyncio.py
+++ b/scarletio/ext/asyncio/asyncio.py
@@ -1378,6 +1378,33 @@ class Lock(ScarletLock):
         
         return ScarletLock.__new__(cls, loop)
     
+    async def acquire(self):
+        """
+        Acquires the lock. Returns `True` when acquired.
+        
+        This method is a coroutine.
+        
+        Returns
+        -------
+        acquired : `bool`
+        """
+        await ScarletLock.acquire(self)
+        return True
+    
+    def release(self):
+        """
+        Releases the lock.
+        
+        Raises
+        ------
+        RuntimeError
+            - If the lock is not acquired.
+        """
+        if not self.is_locked():
+            raise RuntimeError('Lock is not acquired.')
+        
+        ScarletLock.release(self)
+    
     def __instancecheck__(cls, instance):
         return isinstance(instance, ScarletLock)
     
-- 
2.43.0


From ae77db54252cd50fd8e6c4d772f37cbe8c4c5f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:55 +0000
Subject: [PATCH 152/176] fix: asyncio.Event.wait returned None instead of True

---
 scarletio/ext/asyncio/asyncio.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/scarletio/ext/asyncio/asyncio.py b/scarletio/ext/asyncio/asyncio.py
index 2e30830..d631650 100755
--- a/scarletio/ext/asyncio/asyncio.py
+++ b/scarletio/ext/asyncio/asyncio.py
@@ -1412,7 +1412,7 @@ class Lock(ScarletLock):
         return issubclass(klass, ScarletLock) or (klass is cls)
 
 
-class Event:
+class Event(ScarletEvent):
     """
     Asynchronous equivalent to threading.Event.
     
@@ -1423,7 +1423,20 @@ class Event:
         if loop is None:
             loop = get_event_loop()
         
-        return ScarletEvent(loop)
+        return ScarletEvent.__new__(cls, loop)
+    
+    async def wait(self):
+        """
+        Waits until the event is set. Always returns `True`.
+        
+        This method is a coroutine.
+        
+        Returns
+        -------
+        is_set : `bool`
+        """
+        await ScarletEvent.wait(self)
+        return True
     
     def __instancecheck__(cls, instance):
         return isinstance(instance, ScarletEvent)
-- 
2.43.0


From 0f44269f0d28cce9ac1647dc448b13c143dd6508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:55 +0000
Subject: [PATCH 153/176] fix: asyncio.LifoQueue had no put method

---
 scarletio/ext/asyncio/asyncio.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scarletio/ext/asyncio/asyncio.py b/scarletio/ext/asyncio/asyncio.py
index d631650..08199fe 100755
--- a/scarletio/ext/asyncio/asyncio.py
+++ b/scarletio/ext/asyncio/asyncio.py
@@ -2083,6 +2083,8 @@ class LifoQueue(AsyncLifoQueue):
         
         return AsyncLifoQueue.__new__(cls, loop, max_length = max_length)
     
+    put = Queue.put
+    
     def put_nowait(self, element):
         if len(self) == self.max_length:
             raise QueueFull()
-- 
2.43.0


From 710f4de3c0dfca3c8cbc40cb27414d7bad229016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:19 +0000
Subject: [PATCH 154/176] fix: asyncio.gather returned the results in arbitrary
 order

---
 scarletio/ext/asyncio/asyncio.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/scarletio/ext/asyncio/asyncio.py b/scarletio/ext/asyncio/asyncio.py
index 08199fe..6f92683 100755
--- a/scarletio/ext/asyncio/asyncio.py
+++ b/scarletio/ext/asyncio/asyncio.py
@@ -3383,11 +3383,12 @@ def ensure_future(coroutine_or_future, *, loop = None):
     return loop.ensure_future(coroutine_or_future)
 
 class _gatherer_done_callback_return_exceptions:
-    __slots__ = ('task_group', 'future', )
+    __slots__ = ('task_group', 'future', 'tasks', )
     
-    def __init__(self, task_group, future):
+    def __init__(self, task_group, future, tasks):
         self.task_group = task_group
         self.future = future
+        self.tasks = tasks
     
     def __call__(self, gatherer):
         self.task_group.cancel_pending()
@@ -3405,7 +3406,7 @@ class _gatherer_done_callback_return_exceptions:
             future.set_exception_if_pending(err)
             return
         
-        for done_future in self.task_group.done:
+        for done_future in self.tasks:
             try:
                 result = done_future.get_result()
             except BaseException as err:
@@ -3417,11 +3418,12 @@ class _gatherer_done_callback_return_exceptions:
 
 
 class _gatherer_done_callback_raise:
-    __slots__ = ('task_group', 'future', )
+    __slots__ = ('task_group', 'future', 'tasks', )
     
-    def __init__(self, task_group, future):
+    def __init__(self, task_group, future, tasks):
         self.task_group = task_group
         self.future = future
+        self.tasks = tasks
     
     
     def __call__(self, gatherer):
@@ -3437,7 +3439,8 @@ class _gatherer_done_callback_raise:
         
         results = []
         
-        iterator = iter(self.task_group.done)
+        done = self.task_group.done
+        iterator = iter([task for task in self.tasks if task in done])
         for done_future in iterator:
             try:
                 result = done_future.get_result()
@@ -3503,7 +3506,7 @@ def gather(*coroutines_or_futures, loop = None, return_exceptions = False):
     any other awaitables.
     """
     # Remove duplicates. This is not an asyncio behavior, but should be.
-    coroutines_or_futures = {*coroutines_or_futures}
+    coroutines_or_futures = dict.fromkeys(coroutines_or_futures)
     
     if loop is None:
         detected_loops = None
@@ -3554,7 +3557,7 @@ def gather(*coroutines_or_futures, loop = None, return_exceptions = False):
         gatherer_done_callback_type = _gatherer_done_callback_raise
     
     future.add_done_callback(_gatherer_cancel_callback(task_group, waiter))
-    waiter.add_done_callback(gatherer_done_callback_type(task_group, future))
+    waiter.add_done_callback(gatherer_done_callback_type(task_group, future, tasks))
     return future
 
 
-- 
2.43.0


From 6652f21ff04348b4809eb9afc85c869d6779c71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:19 +0000
Subject: [PATCH 155/176] fix: asyncio.wait returned at the first completed
 future if it was called with FIRST_EXCEPTION

---
 scarletio/ext/asyncio/asyncio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/ext/asyncio/asyncio.py b/scarletio/ext/asyncio/asyncio.py
index 6f92683..85d3f6b 100755
--- a/scarletio/ext/asyncio/asyncio.py
+++ b/scarletio/ext/asyncio/asyncio.py
@@ -3204,7 +3204,7 @@ async def wait(futures, *, loop = None, timeout = None, return_when = ALL_COMPLE
     if return_when == FIRST_COMPLETED:
         waiter_future = task_group.wait_first()
     elif return_when == FIRST_EXCEPTION:
-        waiter_future = task_group.wait_first()
+        waiter_future = task_group.wait_exception()
     else:
         waiter_future = task_group.wait_all()
     
-- 
2.43.0


From 25e81402d15ac999943943372e94699a29f53ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:16 +0000
Subject: [PATCH 156/176] fix: asyncio.Semaphore let newcomers overtake, and
 lost a wake up when a woken up user was cancelled

---
 scarletio/ext/asyncio/asyncio.py | 42 ++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/scarletio/ext/asyncio/asyncio.py b/scarletio/ext/asyncio/asyncio.py
index 85d3f6b..109f2a7 100755
--- a/scarletio/ext/asyncio/asyncio.py
+++ b/scarletio/ext/asyncio/asyncio.py
@@ -1662,15 +1662,15 @@ class Semaphore:
     
     
     def _wake_up_next(self):
-        while self._waiters:
-            waiter = self._waiters.popleft()
-            if waiter.set_result_if_pending(None) == 1:
+        for waiter in self._waiters:
+            if waiter.set_result_if_pending(None):
+                self._value -= 1
                 return
     
     
     def locked(self):
         """Returns True if semaphore can not be acquired immediately."""
-        return self._value == 0
+        return self._value == 0 or any(not waiter.cancelled() for waiter in self._waiters)
     
     
     async def acquire(self):
@@ -1681,21 +1681,33 @@ class Semaphore:
         If it is zero on entry, block, waiting until some other coroutine has called release() to make it larger than
         0, and then return True.
         """
-        while self._value <= 0:
-            future = ScarletFuture(self._loop)
-            self._waiters.append(future)
-            
+        if not self.locked():
+            self._value -= 1
+            return True
+        
+        future = ScarletFuture(self._loop)
+        self._waiters.append(future)
+        
+        try:
             try:
                 await future
-            except:
+            finally:
+                self._waiters.remove(future)
+        except:
+            if future.done() and (not future.cancelled()):
+                # We were woken up, but we wont use it, pass it on.
+                self._value += 1
+            else:
                 future.cancel()
-                
-                if (self._value > 0) and (not future.cancelled()):
-                    self._wake_up_next()
-                
-                raise
+            
+            if self._value > 0:
+                self._wake_up_next()
+            
+            raise
+        
+        if self._value > 0:
+            self._wake_up_next()
         
-        self._value -= 1
         return True
     
     
-- 
2.43.0


From 142773a7fbcecd182d76112eb9da6bdad0a2160e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:55 +0000
Subject: [PATCH 157/176] fix: asyncio.gather left its futures running if it
 was cancelled in the same instant as one of them failed

---
 scarletio/ext/asyncio/asyncio.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scarletio/ext/asyncio/asyncio.py b/scarletio/ext/asyncio/asyncio.py
index 109f2a7..daca40c 100755
--- a/scarletio/ext/asyncio/asyncio.py
+++ b/scarletio/ext/asyncio/asyncio.py
@@ -3441,6 +3441,10 @@ class _gatherer_done_callback_raise:
     def __call__(self, gatherer):
         future = self.future
         if future.done():
+            if future.cancelled():
+                # We were cancelled in the same instant as one of the futures failed.
+                self.task_group.cancel_pending()
+            
             return
         
         try:
-- 
2.43.0


From fcf04a933d2151024d2c5727205911e6d963d0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:54 +0000
Subject: [PATCH 158/176] fix: draining an asyncio.StreamWriter while an other
 task was draining it raised AssertionError

---
 scarletio/ext/asyncio/asyncio.py | 29 +++++++++++++----------------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/scarletio/ext/asyncio/asyncio.py b/scarletio/ext/asyncio/asyncio.py
index daca40c..60bd762 100755
--- a/scarletio/ext/asyncio/asyncio.py
+++ b/scarletio/ext/asyncio/asyncio.py
@@ -2498,7 +2498,7 @@ class FlowControlMixin(Protocol):
         
         self._loop = loop
         self._paused = False
-        self._drain_waiter = None
+        self._drain_waiters = deque()
         self._connection_lost = False
     
     def pause_writing(self):
@@ -2509,35 +2509,32 @@ class FlowControlMixin(Protocol):
         assert self._paused
         self._paused = False
         
-        waiter = self._drain_waiter
-        if waiter is not None:
-            self._drain_waiter = None
+        for waiter in self._drain_waiters:
             waiter.set_result_if_pending(None)
     
     def connection_lost(self, exception):
         self._connection_lost = True
         if not self._paused:
             return
-        waiter = self._drain_waiter
-        if waiter is None:
-            return
-        self._drain_waiter = None
         
-        if exception is None:
-            waiter.set_result_if_pending(None)
-        else:
-            waiter.set_exception_if_pending(exception)
+        for waiter in self._drain_waiters:
+            if exception is None:
+                waiter.set_result_if_pending(None)
+            else:
+                waiter.set_exception_if_pending(exception)
     
     async def _drain_helper(self):
         if self._connection_lost:
             raise ConnectionResetError('Connection lost')
         if not self._paused:
             return
-        waiter = self._drain_waiter
-        assert waiter is None or waiter.cancelled()
+        
         waiter = self._loop.create_future()
-        self._drain_waiter = waiter
-        await waiter
+        self._drain_waiters.append(waiter)
+        try:
+            await waiter
+        finally:
+            self._drain_waiters.remove(waiter)
     
     def _get_close_waiter(self, stream):
         raise NotImplementedError
-- 
2.43.0


From eb58db8eb97ef467e05b10461e3fe750eaf1edb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:37 +0000
Subject: [PATCH 159/176] fix: control frames in between the frames of a web
 socket message do not count into its size

---
 scarletio/web_common/http_protocol.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scarletio/web_common/http_protocol.py b/scarletio/web_common/http_protocol.py
index 741c2f0..33cb983 100755
--- a/scarletio/web_common/http_protocol.py
+++ b/scarletio/web_common/http_protocol.py
@@ -384,7 +384,8 @@ class HttpReadProtocol(ReadProtocolBase):
             data = await self.read_exactly(8)
             length, = UNPACK_LENGTH_3(data)
         
-        if (max_size is not None) and length > max_size:
+        # Control frames might come in between the frames of a message, they do not count into its size.
+        if (max_size is not None) and length > max_size and (length > 125 or not head_0 & 0b00001000):
             raise PayloadError(f'Payload length exceeds size limit ({length} > {max_size} bytes).')
         
         # Read the data.
-- 
2.43.0


From ce66e85e1bdd202c69d94d3371343fcfdf7d72a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:03 +0000
Subject: [PATCH 160/176] fix: sock_sendto, sock_recvfrom and
 sock_recvfrom_into of the asyncio extension failed, or never stopped
 watching, if they could not be done at once

---
 scarletio/ext/asyncio/asyncio.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/scarletio/ext/asyncio/asyncio.py b/scarletio/ext/asyncio/asyncio.py
index 60bd762..7034b37 100755
--- a/scarletio/ext/asyncio/asyncio.py
+++ b/scarletio/ext/asyncio/asyncio.py
@@ -786,12 +786,12 @@ class EventThread:
     
     
     def _sock_write_done(self, file_descriptor, future, handle = None):
-        if handle is None or not handle.cancelled():
+        if handle is None or not handle.cancelled:
             self.remove_writer(file_descriptor)
 
 
     def _sock_read_done(self, file_descriptor, future, handle = None):
-        if handle is None or not handle.cancelled():
+        if handle is None or not handle.cancelled:
             self.remove_reader(file_descriptor)
     
     
@@ -814,8 +814,7 @@ class EventThread:
         
         future = ScarletFuture(self)
         file_descriptor = sock.fileno()
-        self._ensure_fd_no_transport(file_descriptor)
-        handle = self._add_reader(file_descriptor, self._sock_recvfrom, future, sock, bufsize)
+        handle = self.add_reader(file_descriptor, self._sock_recvfrom, future, sock, bufsize)
         future.add_done_callback(partial_func(self._sock_read_done, file_descriptor, handle = handle))
         return await future
 
-- 
2.43.0


From 23825785602e61090e5c9a9f7384e0aade7136be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:54 +0000
Subject: [PATCH 161/176] fix: asynchronous generators dropped on an event loop
 were not finalized and shutdown_async_generators did not close them

---
 scarletio/core/event_loop/event_loop.py       | 21 ++++---
 .../event_loop_functionality_helpers.py       | 61 +++++++++----------
 2 files changed, 42 insertions(+), 40 deletions(-)

diff --git a/scarletio/core/event_loop/event_loop.py b/scarletio/core/event_loop/event_loop.py
index d73a899..933be4e 100755
--- a/scarletio/core/event_loop/event_loop.py
+++ b/scarletio/core/event_loop/event_loop.py
@@ -31,7 +31,7 @@ from ..traps import Future, FutureWrapperAsync, Task, TaskGroup
 from .cycler import Cycler
 from .event_loop_functionality_helpers import (
     EventThreadRunDescriptor, _create_connection_shared_precheck, _create_unix_connection_shared_precheck,
-    _is_stream_socket, _iter_futures_of, _set_reuse_port, _ssl_deprecation_precheck
+    _is_stream_socket, _iter_futures_of, _set_async_generator_hooks, _set_reuse_port, _ssl_deprecation_precheck
 )
 from .event_thread_suspender import ThreadSuspenderContext
 from .event_thread_type import EventThreadType
@@ -658,6 +658,8 @@ class EventThread(Executor, Thread, metaclass = EventThreadType):
         Hata ``EventThread`` are created as already running event loops.
         """
         with self.context:
+            _set_async_generator_hooks(self)
+            
             key = None
             file_descriptor = None
             reader = None
@@ -788,20 +790,21 @@ class EventThread(Executor, Thread, metaclass = EventThreadType):
         self._async_generators_shutdown_called = True
         
         async_generators = self._async_generators
-        if async_generators:
+        if not async_generators:
             return
         
         closing_async_generators = list(async_generators)
         async_generators.clear()
         
-        results = await TaskGroup(
-            self,
-            (Task(self, ag.aclose()) for ag in closing_async_generators),
-        )
+        tasks = [Task(self, async_generator.aclose()) for async_generator in closing_async_generators]
+        await TaskGroup(self, tasks).wait_all()
         
-        for result, async_generator in zip(results, closing_async_generators):
-            exception = result.exception
-            if (exception is not None) and (not isinstance(exception,CancelledError)):
+        for task, async_generator in zip(tasks, closing_async_generators):
+            if task.is_cancelled():
+                continue
+            
+            exception = task.get_exception()
+            if (exception is not None):
                 await write_exception_async(
                     exception, [
                         'Exception occurred during shutting down async generator:\n',
diff --git a/scarletio/core/event_loop/event_loop_functionality_helpers.py b/scarletio/core/event_loop/event_loop_functionality_helpers.py
index d56ad77..3c30aaf 100755
--- a/scarletio/core/event_loop/event_loop_functionality_helpers.py
+++ b/scarletio/core/event_loop/event_loop_functionality_helpers.py
@@ -1,6 +1,7 @@
 __all__ = ()
 
 import sys
+from functools import partial as partial_func
 from socket import (
     SOCK_DGRAM as SOCKET_TYPE_DATAGRAM, SOCK_STREAM as SOCKET_TYPE_STREAM, SOL_SOCKET as SOCKET_OPTION_LEVEL_SOCKET,
     SO_REUSEPORT as SOCKET_OPTION_REUSE_PORT
@@ -12,7 +13,7 @@ from warnings import warn
 
 from ...utils import DOCS_ENABLED, WeakReferer, docs_property, include
 
-from ..traps import Future, Task, TaskGroup
+from ..traps import Future, TaskGroup
 
 
 EventThread = include('EventThread')
@@ -73,54 +74,52 @@ def _set_reuse_port(socket):
         ) from exception
 
 
-_OLD_ASYNC_GENERATOR_HOOKS = sys.get_asyncgen_hooks()
-
-
-def _async_generator_first_iteration_hook(async_generator):
+def _async_generator_first_iteration_hook(loop, async_generator):
     """
     Adds asynchronous generators to their respective event loop. These async gens are shut down, when the loop is
     stopped.
     
     Parameters
     ----------
+    loop : ``EventThread``
+        The event loop iterating the generator.
     async_generator : `async_generator`
+        The asynchronous generator.
     """
-    loop = current_thread()
-    if isinstance(loop, EventThread):
-        if loop._async_generators_shutdown_called:
-            return
-        
+    if not loop._async_generators_shutdown_called:
         loop._async_generators.add(async_generator)
-        return
-    
-    first_iteration = _OLD_ASYNC_GENERATOR_HOOKS.firstiter
-    if first_iteration is not None:
-        first_iteration(async_generator)
 
 
-def _async_generator_finalizer_hook(async_generator):
+def _async_generator_finalizer_hook(loop, async_generator):
     """
-    Removes asynchronous generator from their respective event loop.
+    Removes asynchronous generator from their respective event loop and closes it. Might be called from any thread.
     
     Parameters
     ----------
+    loop : ``EventThread``
+        The event loop which iterated the generator.
     async_generator : `async_generator`
+        The asynchronous generator.
     """
-    loop = current_thread()
-    if isinstance(loop, EventThread):
-        loop._async_generators.discard(async_generator)
-        if not loop.running:
-            return
-            
-        Task(loop, async_generator.aclose())
-        loop.wake_up()
-        return
-    
-    finalizer = _OLD_ASYNC_GENERATOR_HOOKS.finalizer
-    if finalizer is not None:
-        finalizer(async_generator)
+    loop._async_generators.discard(async_generator)
+    if loop.running:
+        loop.create_task_thread_safe(async_generator.aclose())
+
 
-sys.set_asyncgen_hooks(firstiter = _async_generator_first_iteration_hook, finalizer = _async_generator_finalizer_hook)
+def _set_async_generator_hooks(loop):
+    """
+    Sets the asynchronous generator hooks of the local thread. These hooks are thread specific, so this needs to be called
+    from the event loop's own thread.
+    
+    Parameters
+    ----------
+    loop : ``EventThread``
+        The event loop to set the hooks of.
+    """
+    sys.set_asyncgen_hooks(
+        firstiter = partial_func(_async_generator_first_iteration_hook, loop),
+        finalizer = partial_func(_async_generator_finalizer_hook, loop),
+    )
 
 
 class EventThreadRunDescriptor:
-- 
2.43.0


From 9bbbf8d09f55db02e807999371203edeff988040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:54 +0000
Subject: [PATCH 162/176] fix: loop.shutdown_asyncgens of the asyncio extension
 closed no generators

---
 scarletio/ext/asyncio/asyncio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/ext/asyncio/asyncio.py b/scarletio/ext/asyncio/asyncio.py
index 7034b37..203e757 100755
--- a/scarletio/ext/asyncio/asyncio.py
+++ b/scarletio/ext/asyncio/asyncio.py
@@ -146,7 +146,7 @@ class EventThread:
     
     # Required by aio-http 3.8
     async def shutdown_asyncgens(self):
-        pass
+        await self.shutdown_async_generators()
     
     
     # Required by dead.py 3.8
-- 
2.43.0


From d933cc3652993517d6f2e61d42d8ceeca4ca0e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:54 +0000
Subject: [PATCH 163/176] fix: asyncio.run, Runner.run and
 loop.run_until_complete returned None instead of the result and run ignored
 its loop factory

---
 scarletio/ext/asyncio/asyncio.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/scarletio/ext/asyncio/asyncio.py b/scarletio/ext/asyncio/asyncio.py
index 203e757..e3edaa6 100755
--- a/scarletio/ext/asyncio/asyncio.py
+++ b/scarletio/ext/asyncio/asyncio.py
@@ -165,7 +165,7 @@ class EventThread:
         if isinstance(local_thread, EventThread):
             raise RuntimeError('Cannot call `loop.run_until_complete` inside of a loop')
         
-        self.run(future)
+        return self.run(future)
     
     
     # Required by dead.py 3.8
@@ -2159,16 +2159,15 @@ def run(main, *, debug = None, loop_factory = None):
             # Required by anyio
             main = Task(in_coro(main), loop = loop)
             
-            loop.run(main)
-            return
-    
-    loop = EventThread()
+            return loop.run(main)
+        
+        loop = EventThread()
     
     # Required by anyio
     main = Task(in_coro(main), loop = loop)
     
     try:
-        loop.run(main)
+        return loop.run(main)
     finally:
         loop.stop()
 
-- 
2.43.0


From b6bbbccdbc6843830fcf5f3747876e893d4ee42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:14 +0000
Subject: [PATCH 164/176] fix: EventThread._stop replaced
 threading.Thread._stop: ended event loops stayed alive forever according to
 is_alive

---
 scarletio/core/event_loop/event_loop.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scarletio/core/event_loop/event_loop.py b/scarletio/core/event_loop/event_loop.py
index 933be4e..99252fa 100755
--- a/scarletio/core/event_loop/event_loop.py
+++ b/scarletio/core/event_loop/event_loop.py
@@ -765,13 +765,13 @@ class EventThread(Executor, Thread, metaclass = EventThreadType):
         """
         if self.should_run:
             if current_thread() is self:
-                self._stop()
+                self._stop_running()
             else:
-                self.call_soon(self._stop)
+                self.call_soon(self._stop_running)
                 self.wake_up()
     
     
-    def _stop(self):
+    def _stop_running(self):
         """
         Stops the event loop. Internal function of ``.stop``, called or queued up by it.
         
-- 
2.43.0


From 44c17873907cac686a9e2c596f47a89aa5856457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:14 +0000
Subject: [PATCH 165/176] fix: asyncio.run and Runner.close did not wait for
 their loop to end, so the next asyncio.run could run on a loop which was
 stopping

---
 scarletio/ext/asyncio/asyncio.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scarletio/ext/asyncio/asyncio.py b/scarletio/ext/asyncio/asyncio.py
index e3edaa6..42ded5b 100755
--- a/scarletio/ext/asyncio/asyncio.py
+++ b/scarletio/ext/asyncio/asyncio.py
@@ -2170,6 +2170,7 @@ def run(main, *, debug = None, loop_factory = None):
         return loop.run(main)
     finally:
         loop.stop()
+        loop.join()
 
 
 class _RunnerState(Enum):
@@ -2239,6 +2240,7 @@ class Runner:
                 set_event_loop(None)
             
             loop.close()
+            loop.join()
             self._loop = None
             self._state = _RunnerState.CLOSED
     
-- 
2.43.0


From 5b41f338470458d66459502593cdd018fe08d4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:30 +0000
Subject: [PATCH 166/176] fix: exceptions which are each others reasons can be
 rendered

---
 scarletio/utils/trace/trace.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/scarletio/utils/trace/trace.py b/scarletio/utils/trace/trace.py
index 092919f..bd3c591 100755
--- a/scarletio/utils/trace/trace.py
+++ b/scarletio/utils/trace/trace.py
@@ -133,22 +133,22 @@ def _produce_exception(exception, filter):
     token_type_and_part : `(int, str)`
     """
     renderer_queue = []
-    renderer_queue.append(_produce_exception_step(exception, filter))
+    renderer_queue.append(_produce_exception_step(exception, filter, set()))
     
     while renderer_queue:
         renderer = renderer_queue[-1]
         
         try:
-            exception = yield from renderer.asend(None)
+            exception, produced_ids = yield from renderer.asend(None)
         except StopAsyncIteration:
             del renderer_queue[-1]
             continue
         
-        renderer_queue.append(_produce_exception_step(exception, filter))
+        renderer_queue.append(_produce_exception_step(exception, filter, produced_ids))
         continue
 
 
-async def _produce_exception_step(exception, filter):
+async def _produce_exception_step(exception, filter, produced_ids):
     """
     Produces the given exception's frames into a list of strings.
     When meets a nested exception to render (in a cause group), yields it back.
@@ -163,9 +163,12 @@ async def _produce_exception_step(exception, filter):
     filter : `None | callable`
         Additional filter to check whether a frame should be shown.
     
+    produced_ids : `set<int>`
+        The identifiers of the exceptions being produced around. Their reasons are not produced again.
+    
     Async Yields
     ------------
-    exception : `BaseException`
+    exception_and_produced_ids : `(BaseException, set<int>)`
     
     Yields
     ------
@@ -175,9 +178,14 @@ async def _produce_exception_step(exception, filter):
     reason_type = REASON_TYPE_NONE
     while True:
         exceptions.append((exception, reason_type))
+        produced_ids.add(id(exception))
         
         cause_exception = exception.__cause__
         if (cause_exception is not None):
+            # exceptions can be each other's reason
+            if id(cause_exception) in produced_ids:
+                break
+            
             exception = cause_exception
             if isinstance(exception, CauseGroup):
                 reason_type = REASON_TYPE_CAUSE_GROUP
@@ -188,6 +196,9 @@ async def _produce_exception_step(exception, filter):
         if not exception.__suppress_context__:
             context_exception = exception.__context__
             if (context_exception is not None):
+                if id(context_exception) in produced_ids:
+                    break
+                
                 exception = context_exception
                 reason_type = REASON_TYPE_CONTEXT
                 continue
@@ -205,7 +216,7 @@ async def _produce_exception_step(exception, filter):
             for index, cause in enumerate(exception, 1):
                 await _yield((HIGHLIGHT_TOKEN_TYPES.TOKEN_TYPE_TRACE_TITLE, f'[Exception {index}] '))
                 
-                yield cause
+                yield cause, {*produced_ids}
                 
                 if index != len(exception):
                     await _yield((HIGHLIGHT_TOKEN_TYPES.TOKEN_TYPE_LINE_BREAK, '\n'))
-- 
2.43.0


From 63b52ca5b51dd7100a8dd7251fc3f43b7b84aeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:48 +0000
Subject: [PATCH 167/176] fix: expressions starting with a brace at the start
 of a line are shown till their end

---
 scarletio/utils/trace/expression_parsing/expression_info.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scarletio/utils/trace/expression_parsing/expression_info.py b/scarletio/utils/trace/expression_parsing/expression_info.py
index 4007b6c..8b512d5 100755
--- a/scarletio/utils/trace/expression_parsing/expression_info.py
+++ b/scarletio/utils/trace/expression_parsing/expression_info.py
@@ -224,6 +224,10 @@ def get_expression_area(file_name, line_index):
     
     else:
         layer_index_start = search_layer_index(layers, expression_token_start_index)
+        # A layer starting at the start of the line does not reach over it.
+        while layer_index_start != -1 and layers[layer_index_start].token_start_index == expression_token_start_index:
+            layer_index_start = layers[layer_index_start].layer_outer_index
+        
         layer_index_end = search_layer_index(layers, expression_token_end_index)
         if layer_index_start != layer_index_end:
             if layer_index_start != -1:
-- 
2.43.0


From 797564a9c1d24be8ec9b66c5062c32a43f80a0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:49 +0000
Subject: [PATCH 168/176] fix: rendering attribute errors next to variables
 whose attributes fail

---
 .../suggestion/matching_variable_names_with_attribute.py  | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/scarletio/utils/trace/exception_representation/suggestion/matching_variable_names_with_attribute.py b/scarletio/utils/trace/exception_representation/suggestion/matching_variable_names_with_attribute.py
index 4feeea1..14dbd54 100755
--- a/scarletio/utils/trace/exception_representation/suggestion/matching_variable_names_with_attribute.py
+++ b/scarletio/utils/trace/exception_representation/suggestion/matching_variable_names_with_attribute.py
@@ -22,7 +22,13 @@ def get_matching_variable_names_with_attribute(frame, name):
     matches = []
     
     for variable_name, variable_value in _iter_unique_variables(frame):
-        if hasattr(variable_value, name):
+        try:
+            has_attribute = hasattr(variable_value, name)
+        except Exception:
+            # A property or attribute getter may raise anything.
+            continue
+        
+        if has_attribute:
             matches.append(variable_name)
     
     if not matches:
-- 
2.43.0


From ad2c065ff90b2b8ff4867542e0fb05db7c3b251c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:06 +0000
Subject: [PATCH 169/176] fix: the layer of a token after a nested layer is
 found

---
 scarletio/utils/highlight/utils.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/scarletio/utils/highlight/utils.py b/scarletio/utils/highlight/utils.py
index de5181e..3f029ad 100755
--- a/scarletio/utils/highlight/utils.py
+++ b/scarletio/utils/highlight/utils.py
@@ -358,22 +358,19 @@ def search_layer_index(layers, token_index):
     low = 0
     high = len(layers)
     
+    # Search the last layer that does not start after the token.
     while low < high:
         mid = (low + high) >> 1
         
-        layer = layers[mid]
-        if token_index < layer.token_start_index:
+        if token_index < layers[mid].token_start_index:
             high = mid
-            continue
-        
-        if token_index > layer.token_end_index:
+        else:
             low = mid + 1
-            continue
-        
-        index = mid
-        break
     
-    else:
-        index = -1
+    index = low - 1
+    
+    # If it ended already go outwards till a layer that did not.
+    while (index != -1) and (token_index > layers[index].token_end_index):
+        index = layers[index].layer_outer_index
     
     return index
-- 
2.43.0


From 0527a980d548d89e4cd0a3d6dd6601a0564c538e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:06 +0000
Subject: [PATCH 170/176] fix: rendering attribute errors of instances whose
 attributes cannot be listed

---
 .../suggestion/familiar_instance_attribute_names.py  | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/scarletio/utils/trace/exception_representation/suggestion/familiar_instance_attribute_names.py b/scarletio/utils/trace/exception_representation/suggestion/familiar_instance_attribute_names.py
index 59f4db4..1bdc79f 100755
--- a/scarletio/utils/trace/exception_representation/suggestion/familiar_instance_attribute_names.py
+++ b/scarletio/utils/trace/exception_representation/suggestion/familiar_instance_attribute_names.py
@@ -16,18 +16,24 @@ def _get_instance_attributes(instance):
     -------
     attribute_names : `set<str>`
     """
-    attribute_names = {*object.__dir__(instance)}
+    attribute_names = set()
+    
+    try:
+        default_names = object.__dir__(instance)
+    except Exception:
+        pass
+    else:
+        attribute_names.update(name for name in default_names if isinstance(name, str))
     
     attribute_names_getter = type(instance).__dir__
     if (attribute_names_getter is not None) and (attribute_names_getter is not object.__dir__):
         try:
-            custom_names = attribute_names_getter(instance)
+            custom_names = [name for name in attribute_names_getter(instance) if isinstance(name, str)]
         except Exception:
             pass
         else:
             attribute_names.update(custom_names)
     
-    attribute_names.update()
     return attribute_names
 
 
-- 
2.43.0


From 27a6b01de3fda84e44ff4c7e19532c4ea7f7a79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:06 +0000
Subject: [PATCH 171/176] fix: rendering attribute errors of long attribute
 names does not take forever

---
 .../suggestion/helpers_familiarity.py                      | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/scarletio/utils/trace/exception_representation/suggestion/helpers_familiarity.py b/scarletio/utils/trace/exception_representation/suggestion/helpers_familiarity.py
index cd4f0bc..b4b32d4 100755
--- a/scarletio/utils/trace/exception_representation/suggestion/helpers_familiarity.py
+++ b/scarletio/utils/trace/exception_representation/suggestion/helpers_familiarity.py
@@ -8,6 +8,8 @@ from itertools import permutations as permutate
 
 
 SUGGESTIONS_MAX = 25
+# The amount of permutations grows with the factorial of the amount of words.
+PERMUTATION_WORDS_MAX = 5
 
 
 def _split_part_by_numbers(part):
@@ -159,6 +161,11 @@ def _iter_name_aliases(name):
     alternative_name : `str`
     """
     words = [*_iter_split_name_to_words(name)]
+    
+    if len(words) > PERMUTATION_WORDS_MAX:
+        yield '_'.join([word.casefold() for word in words])
+        return
+    
     for permutation in permutate(words, len(words)):
         yield '_'.join([word.casefold() for word in permutation])
 
-- 
2.43.0


From 107a0b9e51f5e01d85af08a5896aaef9491045d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:16 +0000
Subject: [PATCH 172/176] fix: syntax errors whose end is unknown or in an
 other line are pointed at

---
 .../exception_representation_syntax_error.py                   | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scarletio/utils/trace/exception_representation/exception_representation_syntax_error.py b/scarletio/utils/trace/exception_representation/exception_representation_syntax_error.py
index 5e00f6b..f2a1d1c 100755
--- a/scarletio/utils/trace/exception_representation/exception_representation_syntax_error.py
+++ b/scarletio/utils/trace/exception_representation/exception_representation_syntax_error.py
@@ -50,7 +50,8 @@ class ExceptionRepresentationSyntaxError(ExceptionRepresentationBase):
         pointer_start_offset = frames[2] - 1
         line = frames[3]
         
-        if len(frames) == 6:
+        # The end can be unknown, or it can be in an other line. The point where it starts is shown then.
+        if len(frames) == 6 and frames[4] == frames[1] and frames[5] > frames[2]:
             pointer_end_offset = frames[5] - 1
         else:
             pointer_end_offset = pointer_start_offset + 1
-- 
2.43.0


From 41f50dce3bf8eeb7563fe7373362d08f129c3dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:00 +0000
Subject: [PATCH 173/176] fix: analyze callables having keyword only parameters
 with default before ones without

---
 scarletio/utils/analyzer.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/scarletio/utils/analyzer.py b/scarletio/utils/analyzer.py
index 214309f..58bab5a 100755
--- a/scarletio/utils/analyzer.py
+++ b/scarletio/utils/analyzer.py
@@ -544,14 +544,8 @@ class CallableAnalyzer:
                     default_index += 1
             
             if (default_keyword_only_parameter_values is not None) and default_keyword_only_parameter_values:
-                parameter_index = keyword_only_parameter_count - len(default_keyword_only_parameter_values)
-                while parameter_index < keyword_only_parameter_count:
-                    name = keyword_only_parameter_names[parameter_index]
-                    default = default_keyword_only_parameter_values[name]
-                    
-                    names_to_defaults[name] = default
-                    
-                    parameter_index += 1
+                # Any of them can have default, not only the last ones.
+                names_to_defaults.update(default_keyword_only_parameter_values)
             
             if (method_allocation > parameter_count) and (args_name is None):
                 raise TypeError(
@@ -811,7 +805,7 @@ class CallableAnalyzer:
                 continue
             
             if value.has_default:
-                break
+                continue
             
             count += 1
             continue
-- 
2.43.0


From 6adb67e1cde2190e8ca92fa2bd30f58baaff59ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:00 +0000
Subject: [PATCH 174/176] fix: count only positional non reserved parameters
 for positional parameter range

---
 scarletio/utils/analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/utils/analyzer.py b/scarletio/utils/analyzer.py
index 58bab5a..9858774 100755
--- a/scarletio/utils/analyzer.py
+++ b/scarletio/utils/analyzer.py
@@ -935,7 +935,6 @@ class CallableAnalyzer:
                 continue
             
             if parameter.has_default:
-                start = index
                 break
             
             index += 1
@@ -947,6 +946,7 @@ class CallableAnalyzer:
         
         end = start
         while index < length:
+            parameter = parameters[index]
             if not parameter.is_positional():
                 return start, end
             
-- 
2.43.0


From 5fb2b62f28c358507321eaa44f281f3ac5f84266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:00 +0000
Subject: [PATCH 175/176] fix: types taking any parameters can be instanced to
 async

---
 scarletio/utils/analyzer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scarletio/utils/analyzer.py b/scarletio/utils/analyzer.py
index 9858774..f7ed85f 100755
--- a/scarletio/utils/analyzer.py
+++ b/scarletio/utils/analyzer.py
@@ -746,7 +746,7 @@ class CallableAnalyzer:
             if parameter.reserved:
                 continue
             
-            if parameter.has_default:
+            if parameter.has_default or parameter.is_args() or parameter.is_kwargs():
                 continue
             
             return False
@@ -769,7 +769,7 @@ class CallableAnalyzer:
             if parameter.reserved:
                 continue
             
-            if parameter.has_default:
+            if parameter.has_default or parameter.is_args() or parameter.is_kwargs():
                 continue
             
             return False
-- 
2.43.0


From eca7a1c42609e1e6f1bb79433ad689d252831e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:00 +0000
Subject: [PATCH 176/176] fix: name of rich analyzer

---
 scarletio/utils/analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scarletio/utils/analyzer.py b/scarletio/utils/analyzer.py
index f7ed85f..2b3517d 100755
--- a/scarletio/utils/analyzer.py
+++ b/scarletio/utils/analyzer.py
@@ -1113,7 +1113,7 @@ class RichAnalyzer:
         -------
         name : `str`
         """
-        return self._analyzer.__name__
+        return self._analyzer.callable.__name__
     
     
     @property
-- 
2.43.0

