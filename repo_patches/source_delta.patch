From 35faf5429db8bb14fcfc809248277edd9b30f882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:54 +0000
Subject: [PATCH 01/33] fix: maps of different size never compare equal

---
 expression/collections/map.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/expression/collections/map.py b/expression/collections/map.py
index 6dd0b32..ee74e61 100644
--- a/expression/collections/map.py
+++ b/expression/collections/map.py
@@ -227,6 +227,9 @@ class Map(Mapping[_Key, _Value], PipeMixin):
             return False
 
         other = cast(Map[Any, Any], o)
+        if len(self) != len(other):
+            return False
+
         iterator: Iterator[tuple[Any, Any]] = iter(other.to_seq())
 
         for kv in self.to_seq():
-- 
2.43.0


From 7889051a009d5e1c5137a3b9ccb4c6309843daff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:54 +0000
Subject: [PATCH 02/33] fix: Map.change on an empty map accepts a function
 returning Nothing

---
 expression/collections/maptree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expression/collections/maptree.py b/expression/collections/maptree.py
index 7f8a54c..710866f 100644
--- a/expression/collections/maptree.py
+++ b/expression/collections/maptree.py
@@ -325,7 +325,7 @@ def change(k: Key, u: Callable[[Option[Value]], Option[Value]], m: MapTree[Key,
                     return m
 
         case _:
-            for v in u(Nothing):
+            for v in u(Nothing).to_list():
                 return Some(MapTreeLeaf(k, v))
             else:
                 return m
-- 
2.43.0


From 79b4760a668cc03f3444474408c20220c86e01e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:54 +0000
Subject: [PATCH 03/33] fix: map.pick raises KeyError when no element is chosen

---
 expression/collections/map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expression/collections/map.py b/expression/collections/map.py
index ee74e61..230ad76 100644
--- a/expression/collections/map.py
+++ b/expression/collections/map.py
@@ -367,7 +367,7 @@ def try_pick(table: Map[_Key, _Value], chooser: Callable[[_Key, _Value], Option[
 
 @curry_flip(1)
 def pick(table: Map[_Key, _Value], chooser: Callable[[_Key, _Value], Option[_Result]]) -> _Result:
-    for res in table.try_pick(chooser):
+    for res in table.try_pick(chooser).to_list():
         return res
     else:
         raise KeyError()
-- 
2.43.0


From b118f8ad681a897a904ff70743df76526b4383fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:54 +0000
Subject: [PATCH 04/33] fix: build maps from long sequences without recursion

---
 expression/collections/maptree.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/expression/collections/maptree.py b/expression/collections/maptree.py
index 710866f..a658ca5 100644
--- a/expression/collections/maptree.py
+++ b/expression/collections/maptree.py
@@ -454,12 +454,9 @@ def of_list(xs: Block[tuple[Key, Value]]) -> MapTree[Key, Value]:
 
 
 def mk_from_iterator(acc: MapTree[Key, Value], e: Iterator[tuple[Key, Value]]) -> MapTree[Key, Value]:
-    try:
-        (x, y) = next(e)
-    except StopIteration:
-        return acc
-    else:
-        return mk_from_iterator(add(x, y, acc), e)
+    for x, y in e:
+        acc = add(x, y, acc)
+    return acc
 
 
 def of_seq(xs: Iterable[tuple[Key, Value]]) -> MapTree[Key, Value]:
-- 
2.43.0


From 44d55701c72c922412d88ddc78a7ac1b3188623c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:09 +0000
Subject: [PATCH 05/33] fix: indexed honours its start argument

---
 expression/collections/array.py | 4 ++--
 expression/collections/block.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/expression/collections/array.py b/expression/collections/array.py
index 3b54c9b..03937e3 100644
--- a/expression/collections/array.py
+++ b/expression/collections/array.py
@@ -305,7 +305,7 @@ class TypedArray(MutableSequence[_TSource], PipeMixin):
         Returns:
             The list of indexed elements.
         """
-        return of_seq(enumerate(self))
+        return of_seq(enumerate(self, start))
 
     def item(self, index: int) -> _TSource:
         """Indexes into the list. The first element has index 0.
@@ -545,7 +545,7 @@ def indexed(
     source: TypedArray[_TSource],
     start: int = 0,
 ) -> TypedArray[tuple[int, _TSource]]:
-    return source.indexed()
+    return source.indexed(start)
 
 
 def is_empty(source: TypedArray[Any]) -> bool:
diff --git a/expression/collections/block.py b/expression/collections/block.py
index 76e305f..351d7d9 100644
--- a/expression/collections/block.py
+++ b/expression/collections/block.py
@@ -219,7 +219,7 @@ class Block(
         Returns:
             The list of indexed elements.
         """
-        return of_seq(enumerate(self))
+        return of_seq(enumerate(self, start))
 
     def item(self, index: int) -> _TSource:
         """Indexes into the list. The first element has index 0.
-- 
2.43.0


From 81036a8d33c89b790a022bf1a9f2c8a108c0997c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:04 +0000
Subject: [PATCH 06/33] fix: seq.filter, scan, zip, unfold and map.to_seq
 results can be iterated more than once

---
 expression/collections/maptree.py | 14 ++------------
 expression/collections/seq.py     | 27 ++++++++++++++++-----------
 2 files changed, 18 insertions(+), 23 deletions(-)

diff --git a/expression/collections/maptree.py b/expression/collections/maptree.py
index a658ca5..a7d94a4 100644
--- a/expression/collections/maptree.py
+++ b/expression/collections/maptree.py
@@ -27,7 +27,7 @@ from collections.abc import Callable, Iterable, Iterator
 from dataclasses import dataclass
 from typing import Any, Generic, TypeVar
 
-from expression.core import Nothing, Option, Some, failwith, pipe
+from expression.core import Nothing, Option, Some, failwith
 from expression.core.typing import SupportsLessThanAndHash
 
 from . import block, seq
@@ -516,14 +516,4 @@ def mk_iterator(m: MapTree[Key, Value]) -> Iterator[tuple[Key, Value]]:
 
 
 def to_seq(s: MapTree[Key, Value]) -> Iterable[tuple[Key, Value]]:
-    it = mk_iterator(s)
-
-    def folder(it: Iterator[tuple[Key, Value]]):
-        try:
-            current = next(it)
-        except StopIteration:
-            return Nothing
-        else:
-            return Some((current, it))
-
-    return pipe(it, seq.unfold(folder))
+    return seq.delay(lambda: mk_iterator(s))
diff --git a/expression/collections/seq.py b/expression/collections/seq.py
index 76be2b3..d9fd8c4 100644
--- a/expression/collections/seq.py
+++ b/expression/collections/seq.py
@@ -279,7 +279,7 @@ class Seq(Iterable[_TSource], PipeMixin):
         Returns:
             The resulting sequence of computed states.
         """
-        return Seq(itertools.accumulate(self._value, scanner, initial=state))
+        return Seq(pipe(self, scan(scanner, state)))
 
     def skip(self, count: int) -> Seq[_TSource]:
         """Skip elements from sequence.
@@ -380,7 +380,7 @@ class Seq(Iterable[_TSource], PipeMixin):
         Returns:
             The result sequence.
         """
-        return builtins.zip(self, other)
+        return SeqGen(lambda: builtins.zip(self, other))
 
     def __iter__(self) -> Iterator[_TSource]:
         """Return iterator for sequence."""
@@ -542,7 +542,7 @@ def filter(source: Iterable[_TSource], predicate: Callable[[_TSource], bool]) ->
     Returns:
         A partially applied filter function.
     """
-    return builtins.filter(predicate, source)
+    return SeqGen(lambda: builtins.filter(predicate, source))
 
 
 @curry_flip(1)
@@ -861,7 +861,7 @@ def scan(
         scanner: A function that updates the state with each element
         state: The initial state.
     """
-    return itertools.accumulate(source, scanner, initial=state)
+    return SeqGen(lambda: itertools.accumulate(source, scanner, initial=state))
 
 
 def singleton(item: _TSource) -> Seq[_TSource]:
@@ -1023,13 +1023,18 @@ def unfold(state: _TState, generator: Callable[[_TState], Option[tuple[_TSource,
         A partially applied unfold function that takes the state and
         returns the result list.
     """
-    while True:
-        result = generator(state)
-        if result.is_none():
-            break
 
-        item, state = result.value
-        yield item
+    def gen() -> Iterator[_TSource]:
+        current = state
+        while True:
+            result = generator(current)
+            if result.is_none():
+                break
+
+            item, current = result.value
+            yield item
+
+    return SeqGen(gen)
 
 
 def zip(
@@ -1063,7 +1068,7 @@ def zip(
         Returns:
             The result sequence.
         """
-        return builtins.zip(source1, source2)
+        return SeqGen(lambda: builtins.zip(source1, source2))
 
     return _zip
 
-- 
2.43.0


From 71c46ce101053c8a33cb61819cb2208db827d91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:04 +0000
Subject: [PATCH 07/33] fix: seq.mapi is evaluated lazily like the other
 sequence functions

---
 expression/collections/seq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expression/collections/seq.py b/expression/collections/seq.py
index d9fd8c4..48d0c62 100644
--- a/expression/collections/seq.py
+++ b/expression/collections/seq.py
@@ -756,7 +756,7 @@ def mapi(source: Iterable[_TSource], mapping: Callable[[int, _TSource], _TResult
     Returns:
         The list of transformed elements.
     """
-    return (*itertools.starmap(mapping, builtins.enumerate(source)),)
+    return SeqGen(lambda: itertools.starmap(mapping, builtins.enumerate(source)))
 
 
 def max(source: Iterable[_TSupportsGreaterThan]) -> _TSupportsGreaterThan:
-- 
2.43.0


From d30c5ed42f070c82ad1799958b15be4924e8d9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:04 +0000
Subject: [PATCH 08/33] fix: the seq builder handles any number of yields

---
 expression/effect/seq.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/expression/effect/seq.py b/expression/effect/seq.py
index 7bf3105..955473e 100644
--- a/expression/effect/seq.py
+++ b/expression/effect/seq.py
@@ -58,7 +58,8 @@ class SeqBuilder(Builder[_TSource, Iterable[Any]]):
         Returns:
             The concatenated sequences
         """
-        return seq.concat(xs, ys)
+        # Flat, since a chain of nested sequences exhausts the stack when iterated
+        return seq.Seq([*xs, *ys])
 
     def zero(self) -> Iterable[_TSource]:
         """Return the zero value for sequences.
-- 
2.43.0


From 2816c3697342440fb3924b87e4b466845767cd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:04 +0000
Subject: [PATCH 09/33] fix: registering a callback on a token that cannot be
 cancelled is a no-op

---
 expression/system/cancellation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/expression/system/cancellation.py b/expression/system/cancellation.py
index 0044e34..5c1df6e 100644
--- a/expression/system/cancellation.py
+++ b/expression/system/cancellation.py
@@ -46,6 +46,9 @@ class CancellationToken:
             raise ObjectDisposedException()
 
     def register(self, callback: Callable[[], None]) -> Disposable:
+        if not self.can_be_canceled:
+            # Will never be cancelled, so there is nothing to register
+            return Disposable.create(lambda: None)
         return self._source.register_internal(callback)
 
     @staticmethod
-- 
2.43.0


From 5f79ab7320050a71585f47b7590abe7da5a7e203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:04 +0000
Subject: [PATCH 10/33] fix: a callback registered while cancelling is either
 rejected or invoked

---
 expression/system/cancellation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/expression/system/cancellation.py b/expression/system/cancellation.py
index 5c1df6e..b3f1235 100644
--- a/expression/system/cancellation.py
+++ b/expression/system/cancellation.py
@@ -89,10 +89,10 @@ class CancellationTokenSource(Disposable):
                 pass
 
     def register_internal(self, callback: Callable[[], None]) -> Disposable:
-        if self._is_disposed:
-            raise ObjectDisposedException()
-
         with self._lock:
+            if self._is_disposed:
+                raise ObjectDisposedException()
+
             current = self._id
             self._listeners[current] = callback
             self._id += 1
-- 
2.43.0


From 4168630fd7a39d71e658cb2016fd41091ddfd8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:04 +0000
Subject: [PATCH 11/33] fix: copying an instance of a tagged union subclass
 keeps its type

---
 expression/core/tagged_union.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expression/core/tagged_union.py b/expression/core/tagged_union.py
index fdd17f2..a746d38 100644
--- a/expression/core/tagged_union.py
+++ b/expression/core/tagged_union.py
@@ -168,11 +168,11 @@ def tagged_union(
         # Copy helpers (required by Pydantic)
         # ------------------------------------------------------------------
         def __copy__(self: Any) -> Any:
-            return cls(**{self.tag: getattr(self, self.tag)})
+            return type(self)(**{self.tag: getattr(self, self.tag)})
 
         def __deepcopy__(self: Any, memo: dict[int, Any]) -> Any:
             value = deepcopy(getattr(self, self.tag), memo)
-            return cls(**{self.tag: value})
+            return type(self)(**{self.tag: value})
 
         cls.__copy__ = __copy__
         cls.__deepcopy__ = __deepcopy__
-- 
2.43.0


From 72b7ef2cb481705275ac53ce629a1223e1d24d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:04 +0000
Subject: [PATCH 12/33] fix: many parses inputs of any length and terminates

---
 expression/extra/parser.py | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/expression/extra/parser.py b/expression/extra/parser.py
index 1ac1192..f554bb9 100644
--- a/expression/extra/parser.py
+++ b/expression/extra/parser.py
@@ -278,19 +278,16 @@ def pstring(string_input: str) -> Parser[str]:
 
 
 def parse_zero_or_more(parser: Parser[_A], input: Remaining) -> tuple[Block[_A], Remaining]:
-    # run parser with the input
-    first_result = parser.run(input)
-
-    # test the result for Failure/Success
-    match first_result:
-        case Result(tag="ok", ok=(first_value, input_after_first_parse)):
-            # if parse succeeds, call recursively
-            # to get the subsequent values
-            subsequent_values, remaining_input = parse_zero_or_more(parser, input_after_first_parse)
-            values = subsequent_values.cons(first_value)
-            return values, remaining_input
-        case _:
-            return (block.empty, input)
+    values: list[_A] = []
+    while True:
+        # run parser with the remaining input
+        match parser.run(input):
+            case Result(tag="ok", ok=(value, remaining)) if remaining != input:
+                values.append(value)
+                input = remaining
+            case _:
+                # failed, or succeeded without consuming any input
+                return Block(values), input
 
 
 def many(parser: Parser[_A]) -> Parser[Block[_A]]:
-- 
2.43.0


From b2fc246218deae24cf3ebe7b8d3ddc2c863044ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:04 +0000
Subject: [PATCH 13/33] fix: sequence and pstring handle any number of parsers

---
 expression/extra/parser.py | 29 ++++++++++++-----------------
 1 file changed, 12 insertions(+), 17 deletions(-)

diff --git a/expression/extra/parser.py b/expression/extra/parser.py
index f554bb9..259b9d7 100644
--- a/expression/extra/parser.py
+++ b/expression/extra/parser.py
@@ -248,23 +248,18 @@ def lift2(fn: Callable[[_A], Callable[[_B], _C]], xP: Parser[_A], yP: Parser[_B]
 
 
 def sequence(parser_list: Block[Parser[_A]]) -> Parser[Block[_A]]:
-    # define the "cons" function, which is a two parameter function
-    @curry(1)
-    def cons(head: _A, tail: Block[_A]) -> Block[_A]:
-        return tail.cons(head)
-
-    # lift it to Parser World
-    cons_p = lift2(cons)
-
-    # process the list of parsers recursively
-    match parser_list:
-        case block.empty:
-            return preturn(block.empty)
-        case Block([head, *tail]):
-            tail_ = sequence(Block(tail))
-            return cons_p(head)(tail_)
-        case _:
-            raise ValueError("invalid parser list")
+    def run(input: Remaining) -> ParseResult[Block[_A]]:
+        values: list[_A] = []
+        for parser in parser_list:
+            match parser.run(input):
+                case Result(tag="ok", ok=(value, remaining)):
+                    values.append(value)
+                    input = remaining
+                case Result(error=error):
+                    return Error(error)
+        return Ok((Block(values), input))
+
+    return Parser(run, f"sequence({parser_list})")
 
 
 def pstring(string_input: str) -> Parser[str]:
-- 
2.43.0


From fd6950de154f96f4f64af8ad4c19d60cf97b756b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:04 +0000
Subject: [PATCH 14/33] fix: traverse runs its actions from left to right and
 stops at the first error

---
 expression/extra/result/traversable.py | 35 +++++++++-----------------
 1 file changed, 12 insertions(+), 23 deletions(-)

diff --git a/expression/extra/result/traversable.py b/expression/extra/result/traversable.py
index 8d7fbd2..6c642e7 100644
--- a/expression/extra/result/traversable.py
+++ b/expression/extra/result/traversable.py
@@ -1,11 +1,10 @@
 """Data structures that can be traversed from left to right, performing an action on each element."""
 
 from collections.abc import Callable
-from typing import Any, TypeVar
+from typing import TypeVar
 
-from expression import effect
-from expression.collections import Block, block, seq
-from expression.core import Ok, Result, identity, pipe
+from expression.collections import Block
+from expression.core import Error, Ok, Result, identity
 
 
 _TSource = TypeVar("_TSource")
@@ -20,25 +19,15 @@ def traverse(
 
     Threads an applicative computation though a list of items.
     """
-
-    @effect.result[Block[_TResult], _TError]()
-    def folder(head: _TSource, tail: Result[Block[_TResult], _TError]) -> Any:
-        """Fold back function.
-
-        Same as:
-        >>> fn(head).bind(lambda head: tail.bind(lambda tail: Ok([head] + tail))).
-        """
-        h: _TResult = yield from fn(head)
-        t: Block[_TResult] = yield from tail
-
-        return Block([h]) + t
-
-    state: Result[Block[_TResult], _TError] = Ok(block.empty)
-    ret = pipe(
-        state,
-        seq.fold_back(folder, lst),
-    )
-    return ret
+    values: list[_TResult] = []
+    for item in lst:
+        match fn(item):
+            case Result(tag="ok", ok=value):
+                values.append(value)
+            case Result(error=error):
+                return Error(error)
+
+    return Ok(Block(values))
 
 
 def sequence(lst: Block[Result[_TSource, _TError]]) -> Result[Block[_TSource], _TError]:
-- 
2.43.0


From 6330e14cd83978809ad70e8c14ff07560fb065d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:04 +0000
Subject: [PATCH 15/33] fix: async builders short-circuit an async body without
 yield

---
 expression/core/async_builder.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/expression/core/async_builder.py b/expression/core/async_builder.py
index 5354d20..b05186b 100644
--- a/expression/core/async_builder.py
+++ b/expression/core/async_builder.py
@@ -116,7 +116,11 @@ class AsyncBuilder(Generic[_T, _M], ABC):  # Corrected Generic definition
                 # to zero().
                 result_value: _T | None
                 if inspect.iscoroutine(body):
-                    result_value = await cast("Awaitable[_T]", body)
+                    try:
+                        result_value = await cast("Awaitable[_T]", body)
+                    except EffectError as error:
+                        # Effect errors (Nothing, Error, etc) short circuits
+                        return await self.run(await self.return_from(cast("_M", error.args[0])))
                 else:
                     result_value = cast("_T | None", body)
                 if result_value is None:
-- 
2.43.0


From f737e394ee8a697427fef723e683c5b559d54000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:04 +0000
Subject: [PATCH 16/33] fix: asyncseq.repeat without times repeats forever

---
 expression/collections/asyncseq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expression/collections/asyncseq.py b/expression/collections/asyncseq.py
index 7576da8..9df4ace 100644
--- a/expression/collections/asyncseq.py
+++ b/expression/collections/asyncseq.py
@@ -258,7 +258,7 @@ async def empty() -> AsyncIterable[Any]:
 
 
 async def repeat(value: TSource, times: int | None = None) -> AsyncIterable[TSource]:
-    for v in itertools.repeat(value, times or 0):
+    for v in itertools.repeat(value) if times is None else itertools.repeat(value, times):
         yield v
 
 
-- 
2.43.0


From 149e3f00408816dcd93221320dde67ba9efe9599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:04 +0000
Subject: [PATCH 17/33] fix: AsyncSeq.take does not wait for an element after
 the last one taken

---
 expression/collections/asyncseq.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/expression/collections/asyncseq.py b/expression/collections/asyncseq.py
index 9df4ace..c871546 100644
--- a/expression/collections/asyncseq.py
+++ b/expression/collections/asyncseq.py
@@ -167,12 +167,14 @@ class AsyncSeq(AsyncIterable[TSource]):
         """Returns the first N elements of the sequence."""
 
         async def _take(source: AsyncIterable[TSource]) -> AsyncIterable[TSource]:
+            if count <= 0:
+                return
             i = 0
             async for value in source:
-                if i >= count:
-                    break
                 yield value
                 i += 1
+                if i >= count:
+                    break
 
         return pipe(self, _take)
 
-- 
2.43.0


From 36739c6c0062cac853af34aaf0b41ebb6d9f682a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:20 +0000
Subject: [PATCH 18/33] fix: a mailbox reply of None completes the awaiting
 poster

---
 expression/core/mailbox.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/expression/core/mailbox.py b/expression/core/mailbox.py
index 17e05ac..10d4773 100644
--- a/expression/core/mailbox.py
+++ b/expression/core/mailbox.py
@@ -78,17 +78,17 @@ class MailboxProcessor(Generic[_Msg]):
         Returns:
             The reply from mailbox processor.
         """
-        result: _Reply | None = None
+        # Holds the reply once it's there. Any value is a valid reply, even `None`.
+        replies: list[_Reply] = []
         # This is the continuation for the `done` callback of the awaiting poster.
         continuation: Continuation[_Reply] | None = None
 
         def check_completion() -> None:
-            if result is not None and continuation is not None:
-                continuation(result)
+            if replies and continuation is not None:
+                continuation(replies[0])
 
         def reply_callback(res: _Reply):
-            nonlocal result
-            result = res
+            replies.append(res)
             check_completion()
 
         reply_channel = AsyncReplyChannel(reply_callback)
-- 
2.43.0


From c9409640d72f3a47e42d5dbc64cfbdf9056d0308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:20 +0000
Subject: [PATCH 19/33] fix: an abandoned mailbox receive does not take the
 next message

---
 expression/core/mailbox.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/expression/core/mailbox.py b/expression/core/mailbox.py
index 10d4773..7fbd565 100644
--- a/expression/core/mailbox.py
+++ b/expression/core/mailbox.py
@@ -129,7 +129,15 @@ class MailboxProcessor(Generic[_Msg]):
 
             self.__process_events()
 
-        return await from_continuations(callback)
+        future = from_continuations(callback)
+        continuation = self.continuation
+        try:
+            return await future
+        except asyncio.CancelledError:
+            # Given up waiting, so the next message is for the next receiver
+            if continuation is not None and self.continuation is continuation:
+                self.continuation = self.cancel = None
+            raise
 
     def __process_events(self):
         # Cancellation of async workflows is more tricky in Python than
-- 
2.43.0


From 9e6bf8de3092811bebe5604d94a0b4a19b7edf9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:20 +0000
Subject: [PATCH 20/33] fix: release started tasks that fail or are cancelled

---
 expression/core/aiotools.py | 48 ++++++++++++++-----------------------
 1 file changed, 18 insertions(+), 30 deletions(-)

diff --git a/expression/core/aiotools.py b/expression/core/aiotools.py
index 2c157b1..b73ab49 100644
--- a/expression/core/aiotools.py
+++ b/expression/core/aiotools.py
@@ -68,30 +68,32 @@ def from_continuations(callback: Callbacks[_TSource]) -> Awaitable[_TSource]:
 __running_tasks: set[Task[Any]] = set()
 
 
-def start(computation: Awaitable[Any], token: CancellationToken | None = None) -> None:
-    """Start computation.
-
-    Starts the asynchronous computation in the event loop. Do not await
-    its result.
-
-    If no cancellation token is provided then the default cancellation
-    token is used.
-    """
-
+def _start_task(computation: Awaitable[Any], token: CancellationToken | None) -> None:
     async def runner() -> Any:
-        result = await computation
-        __running_tasks.remove(task)
-        return result
+        return await computation
 
     task = asyncio.create_task(runner())
     __running_tasks.add(task)
+    # However the task ends, there is no need to keep it any longer
+    task.add_done_callback(__running_tasks.discard)
 
-    def cb():
+    def cb() -> None:
         task.cancel()
 
     if token:
         token.register(cb)
-    return None
+
+
+def start(computation: Awaitable[Any], token: CancellationToken | None = None) -> None:
+    """Start computation.
+
+    Starts the asynchronous computation in the event loop. Do not await
+    its result.
+
+    If no cancellation token is provided then the default cancellation
+    token is used.
+    """
+    _start_task(computation, token)
 
 
 def start_immediate(computation: Awaitable[Any], token: CancellationToken | None = None) -> None:
@@ -100,21 +102,7 @@ def start_immediate(computation: Awaitable[Any], token: CancellationToken | None
     Runs an asynchronous computation, starting immediately on the
     current operating system thread.
     """
-
-    async def runner() -> Any:
-        result = await computation
-        __running_tasks.remove(task)
-        return result
-
-    task = asyncio.create_task(runner())
-    __running_tasks.add(task)
-
-    def cb() -> None:
-        task.cancel()
-
-    if token:
-        token.register(cb)
-    return None
+    _start_task(computation, token)
 
 
 def run_synchronously(computation: Awaitable[_TSource]) -> _TSource:
-- 
2.43.0


From 67f02649b34c22b976b7004044b1ad77aa18fe62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:20 +0000
Subject: [PATCH 21/33] fix: a started task can be cancelled from another
 thread

---
 expression/core/aiotools.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/expression/core/aiotools.py b/expression/core/aiotools.py
index b73ab49..5699a09 100644
--- a/expression/core/aiotools.py
+++ b/expression/core/aiotools.py
@@ -77,8 +77,19 @@ def _start_task(computation: Awaitable[Any], token: CancellationToken | None) ->
     # However the task ends, there is no need to keep it any longer
     task.add_done_callback(__running_tasks.discard)
 
+    loop = task.get_loop()
+
     def cb() -> None:
-        task.cancel()
+        try:
+            same_loop = asyncio.get_running_loop() is loop
+        except RuntimeError:
+            same_loop = False
+
+        if same_loop:
+            task.cancel()
+        else:
+            # Cancelled from another thread, the event loop might need to be woken up
+            loop.call_soon_threadsafe(task.cancel)
 
     if token:
         token.register(cb)
-- 
2.43.0


From ea05574464677e805a489e9334a44be26e388098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:20 +0000
Subject: [PATCH 22/33] fix: a computation started with a cancelled token does
 not run

---
 expression/core/aiotools.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/expression/core/aiotools.py b/expression/core/aiotools.py
index 5699a09..512f04c 100644
--- a/expression/core/aiotools.py
+++ b/expression/core/aiotools.py
@@ -13,7 +13,7 @@ from asyncio import Future, Task
 from collections.abc import Awaitable, Callable
 from typing import Any, TypeVar
 
-from expression.system import CancellationToken, OperationCanceledError
+from expression.system import CancellationToken, ObjectDisposedException, OperationCanceledError
 
 
 _TSource = TypeVar("_TSource")
@@ -92,7 +92,12 @@ def _start_task(computation: Awaitable[Any], token: CancellationToken | None) ->
             loop.call_soon_threadsafe(task.cancel)
 
     if token:
-        token.register(cb)
+        try:
+            token.register(cb)
+        except ObjectDisposedException:
+            # Already cancelled, do not leave the task behind to run anyway
+            task.cancel()
+            raise
 
 
 def start(computation: Awaitable[Any], token: CancellationToken | None = None) -> None:
-- 
2.43.0


From 038903fefba299758d084bf843ffcb3a1399b5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:20 +0000
Subject: [PATCH 23/33] fix: TypedArray does not share the storage of a
 bytearray initializer

---
 expression/collections/array.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/expression/collections/array.py b/expression/collections/array.py
index 03937e3..52fa298 100644
--- a/expression/collections/array.py
+++ b/expression/collections/array.py
@@ -124,7 +124,8 @@ def array_from_initializer(
     type_code = TypeCode.Any
 
     if isinstance(initializer, bytearray):
-        arr = initializer
+        # Make a copy, never share the storage of the initializer
+        arr = bytearray(initializer)
         type_code = TypeCode.Byte
     elif isinstance(initializer, bytes):
         arr = bytearray(initializer)
-- 
2.43.0


From b9ef783cbf42e7c0d47d31e26e48adb7c69faa65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:48 +0000
Subject: [PATCH 24/33] fix: validate an Option read from JSON against its
 value type

---
 expression/core/option.py | 46 +++++++++++++++------------------------
 1 file changed, 18 insertions(+), 28 deletions(-)

diff --git a/expression/core/option.py b/expression/core/option.py
index 76d627d..41908c3 100644
--- a/expression/core/option.py
+++ b/expression/core/option.py
@@ -342,37 +342,27 @@ class Option(
             _ = handler(v)
             return Nothing
 
-        python_schema = core_schema.union_schema(
-            [
-                core_schema.is_instance_schema(Option),
-                core_schema.chain_schema(
-                    [
-                        core_schema.none_schema(),
-                        core_schema.no_info_wrap_validator_function(validate_none, none_schema),
-                    ]
-                ),
-                core_schema.chain_schema(
-                    [
-                        # item_tp's schema should ensure the value is an instance of _T
-                        # is_instance_schema doesn't work for Annotated[_T, ...]
-                        # Use the value_schema to validate `values`
-                        core_schema.no_info_wrap_validator_function(validate_some, value_schema),
-                    ]
-                ),
-            ]
-        )
-
-        return core_schema.json_or_python_schema(
-            json_schema=core_schema.chain_schema(
+        value_schemas: list[CoreSchema] = [
+            core_schema.chain_schema(
+                [
+                    core_schema.none_schema(),
+                    core_schema.no_info_wrap_validator_function(validate_none, none_schema),
+                ]
+            ),
+            core_schema.chain_schema(
                 [
-                    core_schema.any_schema(),
-                    # after validating the json data convert it to python
-                    core_schema.no_info_before_validator_function(
-                        lambda data: cls(some=data) if data is not None else cls(none=data),
-                        python_schema,
-                    ),
+                    # item_tp's schema should ensure the value is an instance of _T
+                    # is_instance_schema doesn't work for Annotated[_T, ...]
+                    # Use the value_schema to validate `values`
+                    core_schema.no_info_wrap_validator_function(validate_some, value_schema),
                 ]
             ),
+        ]
+        python_schema = core_schema.union_schema([core_schema.is_instance_schema(Option), *value_schemas])
+
+        return core_schema.json_or_python_schema(
+            # json data is never an instance, so validate it as a value
+            json_schema=core_schema.union_schema([*value_schemas], mode="left_to_right"),
             python_schema=python_schema,
             serialization=core_schema.plain_serializer_function_ser_schema(lambda instance: instance.dict()),
         )
-- 
2.43.0


From 7dec1b1bec0373399097da60c9b84d642faf98d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:48 +0000
Subject: [PATCH 25/33] fix: a Result can be read back from the JSON it is
 written to

---
 expression/core/result.py | 43 +++++++++++++++++----------------------
 1 file changed, 19 insertions(+), 24 deletions(-)

diff --git a/expression/core/result.py b/expression/core/result.py
index 384df1a..e7df662 100644
--- a/expression/core/result.py
+++ b/expression/core/result.py
@@ -327,30 +327,25 @@ class Result(
                 core_schema.no_info_wrap_validator_function(validate_ok, ok_schema),
             ]
         )
-        json_schema = core_schema.chain_schema(
-            [
-                core_schema.union_schema(
-                    [
-                        core_schema.typed_dict_schema(
-                            {
-                                "tag": core_schema.typed_dict_field(core_schema.str_schema()),
-                                "ok": core_schema.typed_dict_field(ok_schema),
-                            }
-                        ),
-                        core_schema.typed_dict_schema(
-                            {
-                                "tag": core_schema.typed_dict_field(core_schema.str_schema()),
-                                "error": core_schema.typed_dict_field(error_schema),
-                            }
-                        ),
-                    ]
-                ),
-                # after validating the json data convert it to python
-                core_schema.no_info_before_validator_function(
-                    lambda data: cls(data),
-                    python_schema,
-                ),
-            ]
+        json_schema = core_schema.no_info_after_validator_function(
+            # after validating the json data convert it to python
+            lambda data: cls(**data),
+            core_schema.union_schema(
+                [
+                    core_schema.typed_dict_schema(
+                        {
+                            "tag": core_schema.typed_dict_field(core_schema.literal_schema(["ok"])),
+                            "ok": core_schema.typed_dict_field(ok_schema),
+                        }
+                    ),
+                    core_schema.typed_dict_schema(
+                        {
+                            "tag": core_schema.typed_dict_field(core_schema.literal_schema(["error"])),
+                            "error": core_schema.typed_dict_field(error_schema),
+                        }
+                    ),
+                ]
+            ),
         )
 
         return core_schema.json_or_python_schema(
-- 
2.43.0


From ab56f8b5e2581ab603e994b1404578cf58a1d23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:48 +0000
Subject: [PATCH 26/33] fix: Seq.concat and Seq.collect are lazy like the
 functions they mirror

---
 expression/collections/seq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expression/collections/seq.py b/expression/collections/seq.py
index 48d0c62..c7f0125 100644
--- a/expression/collections/seq.py
+++ b/expression/collections/seq.py
@@ -117,7 +117,7 @@ class Seq(Iterable[_TSource], PipeMixin):
         Combines the given variable number of enumerations and/or
         enumeration-of-enumerations as a single concatenated enumeration.
         """
-        return Seq(concat(*self))
+        return Seq(pipe(self, collect(identity)))
 
     def collect(self, mapping: Callable[[_TSource], Seq[_TResult]]) -> Seq[_TResult]:
         """Collect items from the sequence.
@@ -133,7 +133,7 @@ class Seq(Iterable[_TSource], PipeMixin):
             A sequence comprising the concatenated values from the mapping
             function.
         """
-        return self.map(mapping).concat()
+        return Seq(pipe(self, collect(mapping)))
 
     @staticmethod
     def delay(generator: Callable[[], Iterable[_TSource]]) -> Iterable[_TSource]:
-- 
2.43.0


From fb4a5a5da5d63403e82b1720a53ab073ccd5a264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:41 +0000
Subject: [PATCH 27/33] fix: seq.scan yields an initial state of None like any
 other

---
 expression/collections/seq.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/expression/collections/seq.py b/expression/collections/seq.py
index c7f0125..03e1111 100644
--- a/expression/collections/seq.py
+++ b/expression/collections/seq.py
@@ -861,7 +861,16 @@ def scan(
         scanner: A function that updates the state with each element
         state: The initial state.
     """
-    return SeqGen(lambda: itertools.accumulate(source, scanner, initial=state))
+
+    def gen() -> Iterator[_TState]:
+        # NOTE: not `itertools.accumulate`, where an `initial` of `None` means no initial state
+        current = state
+        yield current
+        for x in source:
+            current = scanner(current, x)
+            yield current
+
+    return SeqGen(gen)
 
 
 def singleton(item: _TSource) -> Seq[_TSource]:
-- 
2.43.0


From 9a777ef94ee8ab7a17fd0cdbb6a9e44b91f09dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:41 +0000
Subject: [PATCH 28/33] fix: choice handles any number of alternatives

---
 expression/extra/parser.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/expression/extra/parser.py b/expression/extra/parser.py
index 259b9d7..1291ffd 100644
--- a/expression/extra/parser.py
+++ b/expression/extra/parser.py
@@ -157,7 +157,17 @@ def or_else(p1: Parser[_A], p2: Parser[_A]) -> Parser[_A]:
 
 
 def choice(list_of_parsers: Block[Parser[_A]]) -> Parser[_A]:
-    return list_of_parsers.reduce(lambda a, b: or_else(a)(b))
+    first, *rest = list_of_parsers
+
+    def run(input: Remaining) -> ParseResult[_A]:
+        result = first.run(input)
+        for parser in rest:
+            if result.is_ok():
+                break
+            result = parser.run(input)
+        return result
+
+    return Parser(run, f"choice({list_of_parsers})")
 
 
 def any_of(list_of_chars: str) -> Parser[str]:
-- 
2.43.0


From b6c22056f47943ea8ce34d68c9f86f12141e1e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:50:37 +0000
Subject: [PATCH 29/33] fix: reject ill-typed data for a Result with a
 validation error

---
 expression/core/result.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/expression/core/result.py b/expression/core/result.py
index e7df662..d17bdc5 100644
--- a/expression/core/result.py
+++ b/expression/core/result.py
@@ -12,7 +12,7 @@ the Result type to Exception.
 from __future__ import annotations
 
 import builtins
-from collections.abc import Awaitable, Callable, Generator, Iterable
+from collections.abc import Awaitable, Callable, Generator, Iterable, Mapping
 from typing import (
     TYPE_CHECKING,
     Any,
@@ -308,13 +308,13 @@ class Result(
         error_schema = handler.generate_schema(type_vars[1])
 
         def validate_ok(v: Any, handler: ValidatorFunctionWrapHandler) -> Result[_TSourceOut, _TErrorOut]:
-            if "ok" not in v:
+            if not isinstance(v, Mapping) or "ok" not in v:
                 raise ValueError("Missing ok field")
             value = handler(v["ok"])
             return cls(ok=value)
 
         def validate_error(v: Any, handler: ValidatorFunctionWrapHandler) -> Result[_TSourceOut, _TErrorOut]:
-            if "error" not in v:
+            if not isinstance(v, Mapping) or "error" not in v:
                 raise ValueError("Missing error field")
 
             value = handler(v["error"])
-- 
2.43.0


From 4af49ced0ab7c60905b019b8875bd37700886d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:52 +0000
Subject: [PATCH 30/33] fix: a message delivered to a cancelled mailbox receive
 goes to the next receiver

---
 expression/core/mailbox.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/expression/core/mailbox.py b/expression/core/mailbox.py
index 7fbd565..8b6bb33 100644
--- a/expression/core/mailbox.py
+++ b/expression/core/mailbox.py
@@ -38,6 +38,8 @@ class AsyncReplyChannel(Generic[_Reply]):
 class MailboxProcessor(Generic[_Msg]):
     def __init__(self, cancellation_token: CancellationToken | None) -> None:
         self.messages: SimpleQueue[_Msg] = SimpleQueue()
+        # Messages given to a receiver that was cancelled before it could take them
+        self.returned: list[_Msg] = []
         self.token = cancellation_token or CancellationToken.none()
         self.loop = asyncio.get_event_loop()
         self.lock = RLock()
@@ -115,6 +117,7 @@ class MailboxProcessor(Generic[_Msg]):
             waiting for further messages. Raises a TimeoutException if
             the timeout is exceeded.
         """
+        delivered: list[_Msg] = []
 
         def callback(
             done: Continuation[_Msg],
@@ -124,7 +127,11 @@ class MailboxProcessor(Generic[_Msg]):
             if self.continuation:
                 raise Exception("Receive can only be called once!")
 
-            self.continuation = done
+            def deliver(msg: _Msg) -> None:
+                delivered.append(msg)
+                done(msg)
+
+            self.continuation = deliver
             self.cancel = cancel
 
             self.__process_events()
@@ -137,6 +144,10 @@ class MailboxProcessor(Generic[_Msg]):
             # Given up waiting, so the next message is for the next receiver
             if continuation is not None and self.continuation is continuation:
                 self.continuation = self.cancel = None
+            elif delivered:
+                # Too late for this receiver, but not for the next one
+                self.returned.extend(delivered)
+                self.__process_events()
             raise
 
     def __process_events(self):
@@ -152,9 +163,12 @@ class MailboxProcessor(Generic[_Msg]):
             return
 
         with self.lock:
-            if self.messages.empty():
+            if self.returned:
+                msg = self.returned.pop(0)
+            elif self.messages.empty():
                 return
-            msg = self.messages.get()
+            else:
+                msg = self.messages.get()
             self.continuation, cont = None, self.continuation
 
             if cont is not None:  # type: ignore
-- 
2.43.0


From b0cba7fbf34d1905d1241f22aa755cead85ddd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:18 +0000
Subject: [PATCH 31/33] fix: a cancellation token does not keep ended
 computations alive

---
 expression/core/aiotools.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/expression/core/aiotools.py b/expression/core/aiotools.py
index 512f04c..24d2c86 100644
--- a/expression/core/aiotools.py
+++ b/expression/core/aiotools.py
@@ -93,11 +93,13 @@ def _start_task(computation: Awaitable[Any], token: CancellationToken | None) ->
 
     if token:
         try:
-            token.register(cb)
+            registration = token.register(cb)
         except ObjectDisposedException:
             # Already cancelled, do not leave the task behind to run anyway
             task.cancel()
             raise
+        # The token might outlive the task, and should not keep it
+        task.add_done_callback(lambda _: registration.dispose())
 
 
 def start(computation: Awaitable[Any], token: CancellationToken | None = None) -> None:
-- 
2.43.0


From 7e5a9d39006a8aa44236676a73559f773814bc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:08 +0000
Subject: [PATCH 32/33] fix: Nothing stays a singleton when copied or pickled

---
 expression/core/option.py       | 19 +++++++++++++++++--
 expression/core/tagged_union.py |  6 ++++--
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/expression/core/option.py b/expression/core/option.py
index 41908c3..e088380 100644
--- a/expression/core/option.py
+++ b/expression/core/option.py
@@ -10,6 +10,7 @@ from __future__ import annotations
 
 import builtins
 from collections.abc import Awaitable, Callable, Generator, Iterable
+from copy import deepcopy
 from typing import TYPE_CHECKING, Any, Literal, TypeGuard, TypeVar, cast, get_args, get_origin
 
 from typing_extensions import TypeVarTuple, Unpack
@@ -60,7 +61,21 @@ class Option(
     @staticmethod
     def Nothing() -> Option[_TSourceOut]:
         """Create a None option."""
-        return Option(none=None)
+        return Nothing
+
+    # `Nothing` stays a singleton when it's copied or pickled.
+    def __copy__(self) -> Option[_TSourceOut]:
+        return self
+
+    def __deepcopy__(self, memo: dict[int, Any]) -> Option[_TSourceOut]:
+        if self.tag == "none":
+            return self
+        return type(self)(some=deepcopy(self.some, memo))
+
+    def __reduce_ex__(self, protocol: Any) -> Any:
+        if self.tag == "none":
+            return Option.Nothing, ()
+        return super().__reduce_ex__(protocol)
 
     def default_value(self, value: _TSource) -> _TSourceOut | _TSource:
         """Get with default value.
@@ -371,7 +386,7 @@ class Option(
 # # The singleton None class. We use the name 'Nothing' here instead of `None` to
 # # avoid conflicts with the builtin `None` value in Python.
 # TODO: also allow None here?
-Nothing: Option[Any] = Option[Any].Nothing()
+Nothing: Option[Any] = Option(none=None)
 """Singleton `Nothing` object.
 
 Since Nothing is a singleton it can be tested e.g using `is`:
diff --git a/expression/core/tagged_union.py b/expression/core/tagged_union.py
index a746d38..4e98088 100644
--- a/expression/core/tagged_union.py
+++ b/expression/core/tagged_union.py
@@ -174,8 +174,10 @@ def tagged_union(
             value = deepcopy(getattr(self, self.tag), memo)
             return type(self)(**{self.tag: value})
 
-        cls.__copy__ = __copy__
-        cls.__deepcopy__ = __deepcopy__
+        if "__copy__" not in cls.__dict__:
+            cls.__copy__ = __copy__
+        if "__deepcopy__" not in cls.__dict__:
+            cls.__deepcopy__ = __deepcopy__
 
         # ------------------------------------------------------------------
         # Pattern matching support
-- 
2.43.0


From 65b51bc8fb2290330d53b1981daf16ed63ba0d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:55 +0000
Subject: [PATCH 33/33] fix: a TypedArray is unequal to objects that are not
 sequences

---
 expression/collections/array.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/expression/collections/array.py b/expression/collections/array.py
index 52fa298..07dc82a 100644
--- a/expression/collections/array.py
+++ b/expression/collections/array.py
@@ -12,7 +12,7 @@ from __future__ import annotations
 import array
 import builtins
 import functools
-from collections.abc import Callable, Iterable, Iterator, MutableSequence
+from collections.abc import Callable, Iterable, Iterator, MutableSequence, Sequence
 from enum import Enum
 from typing import Any, TypeVar, cast
 
@@ -443,6 +443,9 @@ class TypedArray(MutableSequence[_TSource], PipeMixin):
         return pipe(state, unfold(generator))
 
     def __eq__(self, o: Any) -> bool:
+        if not isinstance(o, Sequence):
+            return NotImplemented
+
         if len(self) != len(o):
             return False
 
-- 
2.43.0

