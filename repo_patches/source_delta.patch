From 7f163c7788fd3c52e4b01acf1ca9feedf228ee14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:39 +0000
Subject: [PATCH 01/32] fix: registering on a token that cannot be cancelled is
 a no-op

CancellationToken.none().register raised ObjectDisposedException, so the none
token could not be passed to start, start_immediate or MailboxProcessor.start.
---
 expression/system/cancellation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/expression/system/cancellation.py b/expression/system/cancellation.py
index 0044e34..e4eba49 100644
--- a/expression/system/cancellation.py
+++ b/expression/system/cancellation.py
@@ -46,6 +46,9 @@ class CancellationToken:
             raise ObjectDisposedException()
 
     def register(self, callback: Callable[[], None]) -> Disposable:
+        if not self.can_be_canceled:
+            # A token that can never be cancelled never calls back.
+            return Disposable.create(lambda: None)
         return self._source.register_internal(callback)
 
     @staticmethod
-- 
2.43.0


From e8d65a8b3297af9ad812dd1ce93dd2801bb6a048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:39 +0000
Subject: [PATCH 02/32] fix: do not lose a callback registered while the source
 is being cancelled

The disposed flag was checked outside the lock: a cancel running between the
check and the insertion never called the callback.
---
 expression/system/cancellation.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/expression/system/cancellation.py b/expression/system/cancellation.py
index e4eba49..07e6e3f 100644
--- a/expression/system/cancellation.py
+++ b/expression/system/cancellation.py
@@ -89,10 +89,11 @@ class CancellationTokenSource(Disposable):
                 pass
 
     def register_internal(self, callback: Callable[[], None]) -> Disposable:
-        if self._is_disposed:
-            raise ObjectDisposedException()
-
         with self._lock:
+            # Must be checked under the lock, else a concurrent cancel may miss the callback.
+            if self._is_disposed:
+                raise ObjectDisposedException()
+
             current = self._id
             self._listeners[current] = callback
             self._id += 1
-- 
2.43.0


From d7f60b7b5f95dc4e59c9880e0cb1aabd8fb0f3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:21 +0000
Subject: [PATCH 03/32] fix: an abandoned mailbox receive must neither block
 nor swallow messages

A receive that timed out or was cancelled left its continuation behind: the next
message was handed to nobody and the next receive raised "Receive can only be
called once!". A message already handed to a receive that was cancelled before
it ran was lost as well. Receive now takes the message itself once it runs.
---
 expression/core/mailbox.py | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/expression/core/mailbox.py b/expression/core/mailbox.py
index 17e05ac..807018d 100644
--- a/expression/core/mailbox.py
+++ b/expression/core/mailbox.py
@@ -44,7 +44,7 @@ class MailboxProcessor(Generic[_Msg]):
 
         # Holds the continuation i.e the `done` callback of Async.from_continuations
         # returned by `receive`.
-        self.continuation: Continuation[_Msg] | None = None
+        self.continuation: Continuation[None] | None = None
         self.cancel: Continuation[OperationCanceledError] | None = None
 
     def post(self, msg: _Msg) -> None:
@@ -116,20 +116,35 @@ class MailboxProcessor(Generic[_Msg]):
             the timeout is exceeded.
         """
 
+        continuation: Continuation[None] | None = None
+
         def callback(
-            done: Continuation[_Msg],
+            done: Continuation[None],
             error: Continuation[Exception],
             cancel: Continuation[OperationCanceledError],
         ):
+            nonlocal continuation
             if self.continuation:
                 raise Exception("Receive can only be called once!")
 
-            self.continuation = done
+            self.continuation = continuation = done
             self.cancel = cancel
 
             self.__process_events()
 
-        return await from_continuations(callback)
+        while True:
+            try:
+                await from_continuations(callback)
+            finally:
+                # If we were abandoned (e.g. timeout) we are no longer waiting.
+                if self.continuation is continuation:
+                    self.continuation = self.cancel = None
+
+            # Take the message only now, so that it stays in the queue if we are
+            # cancelled between being woken up and running.
+            with self.lock:
+                if not self.token.is_cancellation_requested and not self.messages.empty():
+                    return self.messages.get()
 
     def __process_events(self):
         # Cancellation of async workflows is more tricky in Python than
@@ -146,11 +161,10 @@ class MailboxProcessor(Generic[_Msg]):
         with self.lock:
             if self.messages.empty():
                 return
-            msg = self.messages.get()
             self.continuation, cont = None, self.continuation
 
             if cont is not None:  # type: ignore
-                cont(msg)
+                cont(None)
 
     @staticmethod
     def start(
-- 
2.43.0


From c03c8ecab6c59a8b3cac7232900accd467ac0b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:36 +0000
Subject: [PATCH 04/32] fix: a request answered with None completes, and the
 first reply counts

post_and_async_reply never completed when the reply was None, and delivered the
last instead of the first of several replies sent before the requester waited.
---
 expression/core/mailbox.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/expression/core/mailbox.py b/expression/core/mailbox.py
index 807018d..8dfa707 100644
--- a/expression/core/mailbox.py
+++ b/expression/core/mailbox.py
@@ -78,17 +78,17 @@ class MailboxProcessor(Generic[_Msg]):
         Returns:
             The reply from mailbox processor.
         """
-        result: _Reply | None = None
+        # Holds the replies, the first one counts. A reply may be any value, including `None`.
+        replies: list[_Reply] = []
         # This is the continuation for the `done` callback of the awaiting poster.
         continuation: Continuation[_Reply] | None = None
 
         def check_completion() -> None:
-            if result is not None and continuation is not None:
-                continuation(result)
+            if replies and continuation is not None:
+                continuation(replies[0])
 
         def reply_callback(res: _Reply):
-            nonlocal result
-            result = res
+            replies.append(res)
             check_completion()
 
         reply_channel = AsyncReplyChannel(reply_callback)
-- 
2.43.0


From df36d9538dd9b39534a1ee5f7e26635232683b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:27 +0000
Subject: [PATCH 05/32] fix: release started tasks that fail or are cancelled

start and start_immediate only removed a task from the set of running tasks
when it completed normally, so failed and cancelled tasks were kept forever.
---
 expression/core/aiotools.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/expression/core/aiotools.py b/expression/core/aiotools.py
index 2c157b1..840c81b 100644
--- a/expression/core/aiotools.py
+++ b/expression/core/aiotools.py
@@ -79,12 +79,11 @@ def start(computation: Awaitable[Any], token: CancellationToken | None = None) -
     """
 
     async def runner() -> Any:
-        result = await computation
-        __running_tasks.remove(task)
-        return result
+        return await computation
 
     task = asyncio.create_task(runner())
     __running_tasks.add(task)
+    task.add_done_callback(__running_tasks.discard)
 
     def cb():
         task.cancel()
@@ -102,12 +101,11 @@ def start_immediate(computation: Awaitable[Any], token: CancellationToken | None
     """
 
     async def runner() -> Any:
-        result = await computation
-        __running_tasks.remove(task)
-        return result
+        return await computation
 
     task = asyncio.create_task(runner())
     __running_tasks.add(task)
+    task.add_done_callback(__running_tasks.discard)
 
     def cb() -> None:
         task.cancel()
-- 
2.43.0


From f8603ea70af6253f497effe9a5db60fcd8bdbc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:27 +0000
Subject: [PATCH 06/32] fix: cancelling a token from another thread cancels
 started computations

task.cancel() is not thread-safe: the event loop was not woken up, so the
computation (or mailbox agent) was only cancelled at the next unrelated event.
---
 expression/core/aiotools.py | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/expression/core/aiotools.py b/expression/core/aiotools.py
index 840c81b..2fca4fd 100644
--- a/expression/core/aiotools.py
+++ b/expression/core/aiotools.py
@@ -68,6 +68,29 @@ def from_continuations(callback: Callbacks[_TSource]) -> Awaitable[_TSource]:
 __running_tasks: set[Task[Any]] = set()
 
 
+def _cancel_with(task: Task[Any], token: CancellationToken | None) -> None:
+    """Cancel the task when the token is cancelled."""
+    if not token:
+        return
+
+    loop = task.get_loop()
+
+    def cb() -> None:
+        # The token may be cancelled by any thread, but a task may only be
+        # cancelled by the thread that runs its event loop.
+        try:
+            same_loop = asyncio.get_running_loop() is loop
+        except RuntimeError:
+            same_loop = False
+
+        if same_loop:
+            task.cancel()
+        else:
+            loop.call_soon_threadsafe(task.cancel)
+
+    token.register(cb)
+
+
 def start(computation: Awaitable[Any], token: CancellationToken | None = None) -> None:
     """Start computation.
 
@@ -85,11 +108,7 @@ def start(computation: Awaitable[Any], token: CancellationToken | None = None) -
     __running_tasks.add(task)
     task.add_done_callback(__running_tasks.discard)
 
-    def cb():
-        task.cancel()
-
-    if token:
-        token.register(cb)
+    _cancel_with(task, token)
     return None
 
 
@@ -107,11 +126,7 @@ def start_immediate(computation: Awaitable[Any], token: CancellationToken | None
     __running_tasks.add(task)
     task.add_done_callback(__running_tasks.discard)
 
-    def cb() -> None:
-        task.cancel()
-
-    if token:
-        token.register(cb)
+    _cancel_with(task, token)
     return None
 
 
-- 
2.43.0


From 2e941706dd6e429c0751c910c06f62a634363bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:27 +0000
Subject: [PATCH 07/32] fix: a computation started with a cancelled token must
 not run

start and start_immediate raised, but the task had already been scheduled.
---
 expression/core/aiotools.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/expression/core/aiotools.py b/expression/core/aiotools.py
index 2fca4fd..382bcd2 100644
--- a/expression/core/aiotools.py
+++ b/expression/core/aiotools.py
@@ -88,7 +88,12 @@ def _cancel_with(task: Task[Any], token: CancellationToken | None) -> None:
         else:
             loop.call_soon_threadsafe(task.cancel)
 
-    token.register(cb)
+    try:
+        token.register(cb)
+    except BaseException:
+        # The token is already cancelled, so the computation must not run.
+        task.cancel()
+        raise
 
 
 def start(computation: Awaitable[Any], token: CancellationToken | None = None) -> None:
-- 
2.43.0


From 9feea4ea683c6fbfacf6ce43856707881eaff3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:27 +0000
Subject: [PATCH 08/32] fix: a token does not retain finished computations

The callback registered by start and start_immediate kept the task and its
result alive for as long as the token source lived.
---
 expression/core/aiotools.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/expression/core/aiotools.py b/expression/core/aiotools.py
index 382bcd2..65381b7 100644
--- a/expression/core/aiotools.py
+++ b/expression/core/aiotools.py
@@ -89,12 +89,15 @@ def _cancel_with(task: Task[Any], token: CancellationToken | None) -> None:
             loop.call_soon_threadsafe(task.cancel)
 
     try:
-        token.register(cb)
+        registration = token.register(cb)
     except BaseException:
         # The token is already cancelled, so the computation must not run.
         task.cancel()
         raise
 
+    # Do not let the token retain the task (and its result) once it is done.
+    task.add_done_callback(lambda _: registration.dispose())
+
 
 def start(computation: Awaitable[Any], token: CancellationToken | None = None) -> None:
     """Start computation.
-- 
2.43.0


From 150da3a9c6c4a60128a1481e1b199481e09c240a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:38 +0000
Subject: [PATCH 09/32] fix: AsyncSeq.take does not wait for an element beyond
 those taken

---
 expression/collections/asyncseq.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/expression/collections/asyncseq.py b/expression/collections/asyncseq.py
index 7576da8..fd78333 100644
--- a/expression/collections/asyncseq.py
+++ b/expression/collections/asyncseq.py
@@ -167,12 +167,15 @@ class AsyncSeq(AsyncIterable[TSource]):
         """Returns the first N elements of the sequence."""
 
         async def _take(source: AsyncIterable[TSource]) -> AsyncIterable[TSource]:
+            if count <= 0:
+                return
+
             i = 0
             async for value in source:
-                if i >= count:
-                    break
                 yield value
                 i += 1
+                if i >= count:
+                    break
 
         return pipe(self, _take)
 
-- 
2.43.0


From 046fcdefadcf18d58097ad08fea34eb4098e4219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:11 +0000
Subject: [PATCH 10/32] fix: an async effect body without yield short-circuits
 on Nothing and Error

---
 expression/core/async_builder.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/expression/core/async_builder.py b/expression/core/async_builder.py
index 5354d20..b05186b 100644
--- a/expression/core/async_builder.py
+++ b/expression/core/async_builder.py
@@ -116,7 +116,11 @@ class AsyncBuilder(Generic[_T, _M], ABC):  # Corrected Generic definition
                 # to zero().
                 result_value: _T | None
                 if inspect.iscoroutine(body):
-                    result_value = await cast("Awaitable[_T]", body)
+                    try:
+                        result_value = await cast("Awaitable[_T]", body)
+                    except EffectError as error:
+                        # Effect errors (Nothing, Error, etc) short circuits
+                        return await self.run(await self.return_from(cast("_M", error.args[0])))
                 else:
                     result_value = cast("_T | None", body)
                 if result_value is None:
-- 
2.43.0


From 2409d29c5bac893fe8b42d6bee4f4c689dadd502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:15 +0000
Subject: [PATCH 11/32] fix: seq effect blocks with many yields do not exhaust
 the stack

---
 expression/effect/seq.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/expression/effect/seq.py b/expression/effect/seq.py
index 7bf3105..bd77dee 100644
--- a/expression/effect/seq.py
+++ b/expression/effect/seq.py
@@ -1,7 +1,7 @@
 from collections.abc import Callable, Generator, Iterable
 from typing import Any, TypeVar
 
-from expression.collections import seq
+from expression.collections import Seq, seq
 from expression.core import Builder
 
 
@@ -58,7 +58,9 @@ class SeqBuilder(Builder[_TSource, Iterable[Any]]):
         Returns:
             The concatenated sequences
         """
-        return seq.concat(xs, ys)
+        # We do this eagerly (as in bind), since lazily nesting one sequence per
+        # yield would exhaust the stack when iterating the result
+        return [*xs, *ys]
 
     def zero(self) -> Iterable[_TSource]:
         """Return the zero value for sequences.
@@ -95,8 +97,8 @@ class SeqBuilder(Builder[_TSource, Iterable[Any]]):
         Returns:
             The result of the computation including the return value
         """
-        # Simply return the computation as is, including the return value
-        return computation
+        # Return the computation as is, including the return value
+        return Seq(computation)
 
     def __call__(
         self,
-- 
2.43.0


From 38d009749c67121f2c0e216c18c8e2a6aadeed03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:48 +0000
Subject: [PATCH 12/32] fix: Map.change of a missing key to Nothing leaves the
 map unchanged

---
 expression/collections/maptree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expression/collections/maptree.py b/expression/collections/maptree.py
index 7f8a54c..710866f 100644
--- a/expression/collections/maptree.py
+++ b/expression/collections/maptree.py
@@ -325,7 +325,7 @@ def change(k: Key, u: Callable[[Option[Value]], Option[Value]], m: MapTree[Key,
                     return m
 
         case _:
-            for v in u(Nothing):
+            for v in u(Nothing).to_list():
                 return Some(MapTreeLeaf(k, v))
             else:
                 return m
-- 
2.43.0


From 48f45bd06eaf1a864cc0f56b6cddd6bebbf6c45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:58 +0000
Subject: [PATCH 13/32] fix: a Map is not equal to a longer Map that starts
 with the same elements

---
 expression/collections/map.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/expression/collections/map.py b/expression/collections/map.py
index 6dd0b32..279cea4 100644
--- a/expression/collections/map.py
+++ b/expression/collections/map.py
@@ -237,6 +237,10 @@ class Map(Mapping[_Key, _Value], PipeMixin):
             else:
                 if kv != kv_other:
                     return False
+
+        # Not equal if the other map has more elements
+        for _ in iterator:
+            return False
         return True
 
     def __bool__(self) -> bool:
-- 
2.43.0


From 69c721fcd85fbde6f4e7e2dc3ff0ce282df5cf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:08 +0000
Subject: [PATCH 14/32] fix: map.pick raises KeyError when no element is picked

---
 expression/collections/map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expression/collections/map.py b/expression/collections/map.py
index 279cea4..cb236be 100644
--- a/expression/collections/map.py
+++ b/expression/collections/map.py
@@ -368,7 +368,7 @@ def try_pick(table: Map[_Key, _Value], chooser: Callable[[_Key, _Value], Option[
 
 @curry_flip(1)
 def pick(table: Map[_Key, _Value], chooser: Callable[[_Key, _Value], Option[_Result]]) -> _Result:
-    for res in table.try_pick(chooser):
+    for res in table.try_pick(chooser).to_list():
         return res
     else:
         raise KeyError()
-- 
2.43.0


From 1d6783c73efc646796fbe9f458e19b9fab0bf21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:47 +0000
Subject: [PATCH 15/32] fix: building a Map from a sequence does not recurse
 once per element

---
 expression/collections/maptree.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/expression/collections/maptree.py b/expression/collections/maptree.py
index 710866f..a658ca5 100644
--- a/expression/collections/maptree.py
+++ b/expression/collections/maptree.py
@@ -454,12 +454,9 @@ def of_list(xs: Block[tuple[Key, Value]]) -> MapTree[Key, Value]:
 
 
 def mk_from_iterator(acc: MapTree[Key, Value], e: Iterator[tuple[Key, Value]]) -> MapTree[Key, Value]:
-    try:
-        (x, y) = next(e)
-    except StopIteration:
-        return acc
-    else:
-        return mk_from_iterator(add(x, y, acc), e)
+    for x, y in e:
+        acc = add(x, y, acc)
+    return acc
 
 
 def of_seq(xs: Iterable[tuple[Key, Value]]) -> MapTree[Key, Value]:
-- 
2.43.0


From a3bc6637fa3703b2f75e4df3d2bb9626865abbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:35 +0000
Subject: [PATCH 16/32] fix: the sequence returned by Map.to_seq can be
 iterated more than once

---
 expression/collections/maptree.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/expression/collections/maptree.py b/expression/collections/maptree.py
index a658ca5..7123fbd 100644
--- a/expression/collections/maptree.py
+++ b/expression/collections/maptree.py
@@ -27,7 +27,7 @@ from collections.abc import Callable, Iterable, Iterator
 from dataclasses import dataclass
 from typing import Any, Generic, TypeVar
 
-from expression.core import Nothing, Option, Some, failwith, pipe
+from expression.core import Nothing, Option, Some, failwith
 from expression.core.typing import SupportsLessThanAndHash
 
 from . import block, seq
@@ -516,14 +516,5 @@ def mk_iterator(m: MapTree[Key, Value]) -> Iterator[tuple[Key, Value]]:
 
 
 def to_seq(s: MapTree[Key, Value]) -> Iterable[tuple[Key, Value]]:
-    it = mk_iterator(s)
-
-    def folder(it: Iterator[tuple[Key, Value]]):
-        try:
-            current = next(it)
-        except StopIteration:
-            return Nothing
-        else:
-            return Some((current, it))
-
-    return pipe(it, seq.unfold(folder))
+    # Make a new iterator each time the sequence is iterated
+    return seq.delay(lambda: mk_iterator(s))
-- 
2.43.0


From b008f0c8b15b0c7f0e17e46996771bcd2f149a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:32 +0000
Subject: [PATCH 17/32] fix: Block.indexed counts from start

---
 expression/collections/block.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expression/collections/block.py b/expression/collections/block.py
index 76e305f..351d7d9 100644
--- a/expression/collections/block.py
+++ b/expression/collections/block.py
@@ -219,7 +219,7 @@ class Block(
         Returns:
             The list of indexed elements.
         """
-        return of_seq(enumerate(self))
+        return of_seq(enumerate(self, start))
 
     def item(self, index: int) -> _TSource:
         """Indexes into the list. The first element has index 0.
-- 
2.43.0


From 430b65e032a0fd9e9173a7f4293ad12a42808d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:16 +0000
Subject: [PATCH 18/32] fix: sequences made by seq.filter can be iterated more
 than once

---
 expression/collections/seq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expression/collections/seq.py b/expression/collections/seq.py
index 76be2b3..d09568f 100644
--- a/expression/collections/seq.py
+++ b/expression/collections/seq.py
@@ -542,7 +542,7 @@ def filter(source: Iterable[_TSource], predicate: Callable[[_TSource], bool]) ->
     Returns:
         A partially applied filter function.
     """
-    return builtins.filter(predicate, source)
+    return SeqGen(lambda: builtins.filter(predicate, source))
 
 
 @curry_flip(1)
-- 
2.43.0


From 50138ac54d0b2cb254656269b0e6b8a7212c09eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:18 +0000
Subject: [PATCH 19/32] fix: sequences made by scan can be iterated more than
 once

---
 expression/collections/seq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expression/collections/seq.py b/expression/collections/seq.py
index d09568f..4ce07dd 100644
--- a/expression/collections/seq.py
+++ b/expression/collections/seq.py
@@ -279,7 +279,7 @@ class Seq(Iterable[_TSource], PipeMixin):
         Returns:
             The resulting sequence of computed states.
         """
-        return Seq(itertools.accumulate(self._value, scanner, initial=state))
+        return Seq(pipe(self, scan(scanner, state)))
 
     def skip(self, count: int) -> Seq[_TSource]:
         """Skip elements from sequence.
@@ -861,7 +861,7 @@ def scan(
         scanner: A function that updates the state with each element
         state: The initial state.
     """
-    return itertools.accumulate(source, scanner, initial=state)
+    return SeqGen(lambda: itertools.accumulate(source, scanner, initial=state))
 
 
 def singleton(item: _TSource) -> Seq[_TSource]:
-- 
2.43.0


From 4ccd3f76505b1dd9ddfcbe47f68836fe43e34beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:19 +0000
Subject: [PATCH 20/32] fix: sequences made by zip can be iterated more than
 once

---
 expression/collections/seq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expression/collections/seq.py b/expression/collections/seq.py
index 4ce07dd..4b690e0 100644
--- a/expression/collections/seq.py
+++ b/expression/collections/seq.py
@@ -380,7 +380,7 @@ class Seq(Iterable[_TSource], PipeMixin):
         Returns:
             The result sequence.
         """
-        return builtins.zip(self, other)
+        return zip(self)(other)
 
     def __iter__(self) -> Iterator[_TSource]:
         """Return iterator for sequence."""
@@ -1063,7 +1063,7 @@ def zip(
         Returns:
             The result sequence.
         """
-        return builtins.zip(source1, source2)
+        return SeqGen(lambda: builtins.zip(source1, source2))
 
     return _zip
 
-- 
2.43.0


From ae0ee913cac10cecca640d4f9e957b5a257140a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:21 +0000
Subject: [PATCH 21/32] fix: seq.mapi is lazy

---
 expression/collections/seq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expression/collections/seq.py b/expression/collections/seq.py
index 4b690e0..b8c6982 100644
--- a/expression/collections/seq.py
+++ b/expression/collections/seq.py
@@ -756,7 +756,7 @@ def mapi(source: Iterable[_TSource], mapping: Callable[[int, _TSource], _TResult
     Returns:
         The list of transformed elements.
     """
-    return (*itertools.starmap(mapping, builtins.enumerate(source)),)
+    return SeqGen(lambda: itertools.starmap(mapping, builtins.enumerate(source)))
 
 
 def max(source: Iterable[_TSupportsGreaterThan]) -> _TSupportsGreaterThan:
-- 
2.43.0


From 3caa9d16b41f9fb975c315dc60a42bef7f87d493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:23 +0000
Subject: [PATCH 22/32] fix: Seq.concat and Seq.collect are lazy

---
 expression/collections/seq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expression/collections/seq.py b/expression/collections/seq.py
index b8c6982..7ab3764 100644
--- a/expression/collections/seq.py
+++ b/expression/collections/seq.py
@@ -117,7 +117,7 @@ class Seq(Iterable[_TSource], PipeMixin):
         Combines the given variable number of enumerations and/or
         enumeration-of-enumerations as a single concatenated enumeration.
         """
-        return Seq(concat(*self))
+        return self.collect(identity)
 
     def collect(self, mapping: Callable[[_TSource], Seq[_TResult]]) -> Seq[_TResult]:
         """Collect items from the sequence.
@@ -133,7 +133,7 @@ class Seq(Iterable[_TSource], PipeMixin):
             A sequence comprising the concatenated values from the mapping
             function.
         """
-        return self.map(mapping).concat()
+        return Seq(pipe(self, collect(mapping)))
 
     @staticmethod
     def delay(generator: Callable[[], Iterable[_TSource]]) -> Iterable[_TSource]:
-- 
2.43.0


From acfd1e03f32c3cdcab997a2f9f1d25fd001e007f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:23 +0000
Subject: [PATCH 23/32] fix: sequences made by unfold can be iterated more than
 once

---
 expression/collections/seq.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/expression/collections/seq.py b/expression/collections/seq.py
index 7ab3764..1f3d8a3 100644
--- a/expression/collections/seq.py
+++ b/expression/collections/seq.py
@@ -1023,13 +1023,18 @@ def unfold(state: _TState, generator: Callable[[_TState], Option[tuple[_TSource,
         A partially applied unfold function that takes the state and
         returns the result list.
     """
-    while True:
-        result = generator(state)
-        if result.is_none():
-            break
 
-        item, state = result.value
-        yield item
+    def gen():
+        current = state
+        while True:
+            result = generator(current)
+            if result.is_none():
+                break
+
+            item, current = result.value
+            yield item
+
+    return SeqGen(gen)
 
 
 def zip(
-- 
2.43.0


From bbdd94f0df0df0e13174f580c5f5f0bd9243c5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:09 +0000
Subject: [PATCH 24/32] fix: parsing many elements does not recurse once per
 element

---
 expression/extra/parser.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/expression/extra/parser.py b/expression/extra/parser.py
index 1ac1192..b0a78a7 100644
--- a/expression/extra/parser.py
+++ b/expression/extra/parser.py
@@ -278,19 +278,21 @@ def pstring(string_input: str) -> Parser[str]:
 
 
 def parse_zero_or_more(parser: Parser[_A], input: Remaining) -> tuple[Block[_A], Remaining]:
-    # run parser with the input
-    first_result = parser.run(input)
-
-    # test the result for Failure/Success
-    match first_result:
-        case Result(tag="ok", ok=(first_value, input_after_first_parse)):
-            # if parse succeeds, call recursively
-            # to get the subsequent values
-            subsequent_values, remaining_input = parse_zero_or_more(parser, input_after_first_parse)
-            values = subsequent_values.cons(first_value)
-            return values, remaining_input
-        case _:
-            return (block.empty, input)
+    values: list[_A] = []
+    while True:
+        # run parser with the input
+        result = parser.run(input)
+
+        # test the result for Failure/Success
+        match result:
+            case Result(tag="ok", ok=(value, remaining)):
+                if remaining == input:
+                    raise RecursionError("the repeated parser succeeds without consuming input")
+                # if parse succeeds, go on to get the subsequent values
+                values.append(value)
+                input = remaining
+            case _:
+                return Block(values), input
 
 
 def many(parser: Parser[_A]) -> Parser[Block[_A]]:
-- 
2.43.0


From 011a09acc6dcdd2e5140d01d29f97155e018e170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:37 +0000
Subject: [PATCH 25/32] fix: copying a tagged union keeps its class

copy and deepcopy of an instance of a subclass of a union (Try, for
example) gave an instance of the base class.
---
 expression/core/tagged_union.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expression/core/tagged_union.py b/expression/core/tagged_union.py
index fdd17f2..a746d38 100644
--- a/expression/core/tagged_union.py
+++ b/expression/core/tagged_union.py
@@ -168,11 +168,11 @@ def tagged_union(
         # Copy helpers (required by Pydantic)
         # ------------------------------------------------------------------
         def __copy__(self: Any) -> Any:
-            return cls(**{self.tag: getattr(self, self.tag)})
+            return type(self)(**{self.tag: getattr(self, self.tag)})
 
         def __deepcopy__(self: Any, memo: dict[int, Any]) -> Any:
             value = deepcopy(getattr(self, self.tag), memo)
-            return cls(**{self.tag: value})
+            return type(self)(**{self.tag: value})
 
         cls.__copy__ = __copy__
         cls.__deepcopy__ = __deepcopy__
-- 
2.43.0


From 873306855f221f79e67f73573a1892f2418aa8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:06 +0000
Subject: [PATCH 26/32] fix: TypedArray.indexed counts from start

The start argument was ignored.
---
 expression/collections/array.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expression/collections/array.py b/expression/collections/array.py
index 3b54c9b..03937e3 100644
--- a/expression/collections/array.py
+++ b/expression/collections/array.py
@@ -305,7 +305,7 @@ class TypedArray(MutableSequence[_TSource], PipeMixin):
         Returns:
             The list of indexed elements.
         """
-        return of_seq(enumerate(self))
+        return of_seq(enumerate(self, start))
 
     def item(self, index: int) -> _TSource:
         """Indexes into the list. The first element has index 0.
@@ -545,7 +545,7 @@ def indexed(
     source: TypedArray[_TSource],
     start: int = 0,
 ) -> TypedArray[tuple[int, _TSource]]:
-    return source.indexed()
+    return source.indexed(start)
 
 
 def is_empty(source: TypedArray[Any]) -> bool:
-- 
2.43.0


From d66584919130c0ab783bd0cf248a9300027b22b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:08 +0000
Subject: [PATCH 27/32] fix: an Option read from JSON is validated

Any JSON value was accepted for an Option field as it was: values of the
wrong type passed, and nested models stayed plain dicts, so that a model
did not survive a round trip through JSON.
---
 expression/core/option.py | 45 +++++++++++++++------------------------
 1 file changed, 17 insertions(+), 28 deletions(-)

diff --git a/expression/core/option.py b/expression/core/option.py
index 76d627d..54c3256 100644
--- a/expression/core/option.py
+++ b/expression/core/option.py
@@ -342,37 +342,26 @@ class Option(
             _ = handler(v)
             return Nothing
 
-        python_schema = core_schema.union_schema(
-            [
-                core_schema.is_instance_schema(Option),
-                core_schema.chain_schema(
-                    [
-                        core_schema.none_schema(),
-                        core_schema.no_info_wrap_validator_function(validate_none, none_schema),
-                    ]
-                ),
-                core_schema.chain_schema(
-                    [
-                        # item_tp's schema should ensure the value is an instance of _T
-                        # is_instance_schema doesn't work for Annotated[_T, ...]
-                        # Use the value_schema to validate `values`
-                        core_schema.no_info_wrap_validator_function(validate_some, value_schema),
-                    ]
-                ),
-            ]
-        )
-
-        return core_schema.json_or_python_schema(
-            json_schema=core_schema.chain_schema(
+        value_schemas: list[CoreSchema | tuple[CoreSchema, str]] = [
+            core_schema.chain_schema(
+                [
+                    core_schema.none_schema(),
+                    core_schema.no_info_wrap_validator_function(validate_none, none_schema),
+                ]
+            ),
+            core_schema.chain_schema(
                 [
-                    core_schema.any_schema(),
-                    # after validating the json data convert it to python
-                    core_schema.no_info_before_validator_function(
-                        lambda data: cls(some=data) if data is not None else cls(none=data),
-                        python_schema,
-                    ),
+                    # item_tp's schema should ensure the value is an instance of _T
+                    # is_instance_schema doesn't work for Annotated[_T, ...]
+                    # Use the value_schema to validate `values`
+                    core_schema.no_info_wrap_validator_function(validate_some, value_schema),
                 ]
             ),
+        ]
+        python_schema = core_schema.union_schema([core_schema.is_instance_schema(Option), *value_schemas])
+
+        return core_schema.json_or_python_schema(
+            json_schema=core_schema.union_schema(value_schemas),
             python_schema=python_schema,
             serialization=core_schema.plain_serializer_function_ser_schema(lambda instance: instance.dict()),
         )
-- 
2.43.0


From 3ab11acc52f8fa012beb8eea6a3b04b2a7cf704b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:08 +0000
Subject: [PATCH 28/32] fix: a Result can be read from JSON

Validating JSON raised TypeError for every Result, since the constructor
only takes keyword arguments.
---
 expression/core/result.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/expression/core/result.py b/expression/core/result.py
index 384df1a..bd3c300 100644
--- a/expression/core/result.py
+++ b/expression/core/result.py
@@ -333,13 +333,13 @@ class Result(
                     [
                         core_schema.typed_dict_schema(
                             {
-                                "tag": core_schema.typed_dict_field(core_schema.str_schema()),
+                                "tag": core_schema.typed_dict_field(core_schema.literal_schema(["ok"])),
                                 "ok": core_schema.typed_dict_field(ok_schema),
                             }
                         ),
                         core_schema.typed_dict_schema(
                             {
-                                "tag": core_schema.typed_dict_field(core_schema.str_schema()),
+                                "tag": core_schema.typed_dict_field(core_schema.literal_schema(["error"])),
                                 "error": core_schema.typed_dict_field(error_schema),
                             }
                         ),
@@ -347,7 +347,7 @@ class Result(
                 ),
                 # after validating the json data convert it to python
                 core_schema.no_info_before_validator_function(
-                    lambda data: cls(data),
+                    lambda data: cls(**data),
                     python_schema,
                 ),
             ]
-- 
2.43.0


From b80797987930b3fa3ec670fe514b68d52c5044e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:15 +0000
Subject: [PATCH 29/32] fix: a value that is no Result document is a validation
 error

Validating a number, None or a string as a Result raised TypeError.
---
 expression/core/result.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/expression/core/result.py b/expression/core/result.py
index bd3c300..87f045f 100644
--- a/expression/core/result.py
+++ b/expression/core/result.py
@@ -12,7 +12,7 @@ the Result type to Exception.
 from __future__ import annotations
 
 import builtins
-from collections.abc import Awaitable, Callable, Generator, Iterable
+from collections.abc import Awaitable, Callable, Generator, Iterable, Mapping
 from typing import (
     TYPE_CHECKING,
     Any,
@@ -308,13 +308,13 @@ class Result(
         error_schema = handler.generate_schema(type_vars[1])
 
         def validate_ok(v: Any, handler: ValidatorFunctionWrapHandler) -> Result[_TSourceOut, _TErrorOut]:
-            if "ok" not in v:
+            if not isinstance(v, Mapping) or "ok" not in v:
                 raise ValueError("Missing ok field")
             value = handler(v["ok"])
             return cls(ok=value)
 
         def validate_error(v: Any, handler: ValidatorFunctionWrapHandler) -> Result[_TSourceOut, _TErrorOut]:
-            if "error" not in v:
+            if not isinstance(v, Mapping) or "error" not in v:
                 raise ValueError("Missing error field")
 
             value = handler(v["error"])
-- 
2.43.0


From 88cad56c17cf5945337fa72a225cd4df985a4de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:37 +0000
Subject: [PATCH 30/32] fix: options inside lists, tuples and dicts are
 serialized like other options

---
 expression/collections/block.py | 10 ++--------
 expression/core/misc.py         | 18 ++++++++++++++++++
 expression/core/option.py       |  7 ++-----
 expression/core/result.py       | 11 +++--------
 4 files changed, 25 insertions(+), 21 deletions(-)

diff --git a/expression/collections/block.py b/expression/collections/block.py
index 351d7d9..38f0dbc 100644
--- a/expression/collections/block.py
+++ b/expression/collections/block.py
@@ -43,6 +43,7 @@ from expression.core import (
     curry_flip,
     pipe,
 )
+from expression.core.misc import to_plain
 
 from . import seq
 
@@ -445,14 +446,7 @@ class Block(
 
     def dict(self) -> list[_TSource]:
         """Returns a json serializable representation of the list."""
-
-        def to_obj(value: Any) -> Any:
-            attr = getattr(value, "model_dump", None) or getattr(value, "dict", None)
-            if attr and callable(attr):
-                value = attr()
-            return value
-
-        return [to_obj(value) for value in self._value]
+        return [to_plain(value) for value in self._value]
 
     def try_head(self) -> Option[_TSource]:
         """Try to get head of block.
diff --git a/expression/core/misc.py b/expression/core/misc.py
index efdc6e9..5c973de 100644
--- a/expression/core/misc.py
+++ b/expression/core/misc.py
@@ -36,6 +36,24 @@ def flip(fn: Callable[[_A, _B], _TResult]) -> Callable[[_B, _A], _TResult]:
     return _flip
 
 
+def to_plain(value: Any) -> Any:
+    """Return the json serializable representation of a value.
+
+    Looks into models and types with a `dict` method, and into the items
+    of lists, tuples and dictionaries.
+    """
+    attr = getattr(value, "model_dump", None) or getattr(value, "dict", None)
+    if attr and callable(attr):
+        return attr()
+    if type(value) is list:
+        return [to_plain(item) for item in value]
+    if type(value) is tuple:
+        return tuple(to_plain(item) for item in value)
+    if type(value) is dict:
+        return {key: to_plain(item) for key, item in value.items()}
+    return value
+
+
 def snd(value: tuple[Any, _TSource]) -> _TSource:
     """Return second argument of the tuple."""
     _, b = value
diff --git a/expression/core/option.py b/expression/core/option.py
index 54c3256..f95c0e8 100644
--- a/expression/core/option.py
+++ b/expression/core/option.py
@@ -16,6 +16,7 @@ from typing_extensions import TypeVarTuple, Unpack
 
 from .curry import curry_flip
 from .error import EffectError
+from .misc import to_plain
 from .pipe import PipeMixin
 from .tagged_union import case, tag, tagged_union
 
@@ -269,11 +270,7 @@ class Option(
         """Returns a json string representation of the option."""
         match self:
             case Option(tag="some", some=value):
-                attr = getattr(value, "model_dump", None) or getattr(value, "dict", None)
-                if attr and callable(attr):
-                    value = cast(_TSourceOut, attr())
-
-                return value
+                return cast(_TSourceOut, to_plain(value))
             case _:
                 return None
 
diff --git a/expression/core/result.py b/expression/core/result.py
index 87f045f..7ee3d70 100644
--- a/expression/core/result.py
+++ b/expression/core/result.py
@@ -34,6 +34,7 @@ if TYPE_CHECKING:
 
 from .curry import curry_flip
 from .error import EffectError
+from .misc import to_plain
 from .pipe import PipeMixin
 from .tagged_union import case, tag, tagged_union
 
@@ -208,15 +209,9 @@ class Result(
         """Return a json serializable representation of the result."""
         match self:
             case Result(tag="ok", ok=value):
-                attr = getattr(value, "model_dump", None) or getattr(value, "dict", None)
-                if attr and callable(attr):
-                    value = cast(_TSourceOut, attr())
-                return {"tag": "ok", "ok": value}
+                return {"tag": "ok", "ok": cast(_TSourceOut, to_plain(value))}
             case Result(error=error):
-                attr = getattr(error, "model_dump", None) or getattr(error, "dict", None)
-                if attr and callable(attr):
-                    error = cast(_TErrorOut, attr())
-                return {"tag": "error", "error": error}
+                return {"tag": "error", "error": cast(_TErrorOut, to_plain(error))}
 
     def swap(self) -> Result[_TErrorOut, _TSourceOut]:
         """Swaps the value in the result so an Ok becomes an Error and an Error becomes an Ok."""
-- 
2.43.0


From b72a8b970102cb59bd6dcf4f432a5f02063c9051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:08 +0000
Subject: [PATCH 31/32] fix: a TypedArray built from a bytearray does not share
 its storage

---
 expression/collections/array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expression/collections/array.py b/expression/collections/array.py
index 03937e3..75c35cf 100644
--- a/expression/collections/array.py
+++ b/expression/collections/array.py
@@ -124,7 +124,7 @@ def array_from_initializer(
     type_code = TypeCode.Any
 
     if isinstance(initializer, bytearray):
-        arr = initializer
+        arr = bytearray(initializer)
         type_code = TypeCode.Byte
     elif isinstance(initializer, bytes):
         arr = bytearray(initializer)
-- 
2.43.0


From efd817f0c1349a766bbe95dbecc3a02ceedbbc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:28 +0000
Subject: [PATCH 32/32] fix: seq.scan starts with the initial state also when
 that is None

---
 expression/collections/seq.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/expression/collections/seq.py b/expression/collections/seq.py
index 1f3d8a3..0b46432 100644
--- a/expression/collections/seq.py
+++ b/expression/collections/seq.py
@@ -861,7 +861,15 @@ def scan(
         scanner: A function that updates the state with each element
         state: The initial state.
     """
-    return SeqGen(lambda: itertools.accumulate(source, scanner, initial=state))
+
+    def gen():
+        current = state
+        yield current
+        for x in source:
+            current = scanner(current, x)
+            yield current
+
+    return SeqGen(gen)
 
 
 def singleton(item: _TSource) -> Seq[_TSource]:
-- 
2.43.0

