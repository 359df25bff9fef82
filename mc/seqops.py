"""Stages (sequence -> sequence) of Seq in fluent and pipeline form, with a lazy reference."""
from __future__ import annotations

from expression import Nothing, Some, pipe
from expression.collections import Seq, seq


def r_take(n):
    def g(it):
        if n <= 0:
            return
        i = 0
        for x in it:
            yield x
            i += 1
            if i >= n:
                return
    return g


def r_skip(n):
    def g(it):
        i = 0
        for x in it:
            if i >= n:
                yield x
            i += 1
    return g


def r_pairwise(it):
    it = iter(it)
    for a in it:
        break
    else:
        return
    for b in it:
        yield (a, b)
        a = b


def r_scan(f, s):
    def g(it):
        a = s
        yield a
        for x in it:
            a = f(a, x)
            yield a
    return g


def r_zip_left(other):
    """self is the left operand."""
    def g(it):
        o = iter(other)
        for x in it:
            for y in o:
                break
            else:
                return
            yield (x, y)
    return g


def r_zip_right(other):
    def g(it):
        it = iter(it)
        for y in other:
            for x in it:
                break
            else:
                return
            yield (y, x)
    return g


def r_mapi(f):
    def g(it):
        i = 0
        for x in it:
            yield f(i, x)
            i += 1
    return g


def gen(fn):
    """reference from a generator expression factory"""
    return fn


class Log:
    """Counts callback invocations across a pipeline."""

    def __init__(self):
        self.calls = []

    def cb(self, name, f):
        def g(*a):
            self.calls.append((name, a))
            return f(*a)
        return g


def truthy(x):
    return bool(x)


def num(x):
    return x if isinstance(x, (int, float)) else len(x) if isinstance(x, (tuple, list, str)) else 0


# name, fluent(s, L), function(L) -> callable(source), reference(L) -> callable(iterator)
STAGES = [
    ("map", lambda s, L: s.map(L.cb("map", lambda x: (x,))), lambda L: seq.map(L.cb("map", lambda x: (x,))),
     lambda L: (lambda it, f=L.cb("map", lambda x: (x,)): (f(x) for x in it))),
    ("map id", lambda s, L: s.map(L.cb("mid", lambda x: x)), lambda L: seq.map(mapper=L.cb("mid", lambda x: x)),
     lambda L: (lambda it, f=L.cb("mid", lambda x: x): (f(x) for x in it))),
    ("filter even", lambda s, L: s.filter(L.cb("filter", lambda x: num(x) % 2 == 0)), lambda L: seq.filter(L.cb("filter", lambda x: num(x) % 2 == 0)),
     lambda L: (lambda it, f=L.cb("filter", lambda x: num(x) % 2 == 0): (x for x in it if f(x)))),
    ("filter truthy", lambda s, L: s.filter(L.cb("ft", truthy)), lambda L: seq.filter(predicate=L.cb("ft", truthy)),
     lambda L: (lambda it, f=L.cb("ft", truthy): (x for x in it if f(x)))),
    ("filter none", lambda s, L: s.filter(L.cb("fn", lambda x: num(x) > 90)), lambda L: seq.filter(L.cb("fn", lambda x: num(x) > 90)),
     lambda L: (lambda it, f=L.cb("fn", lambda x: num(x) > 90): (x for x in it if f(x)))),
    ("choose", lambda s, L: s.choose(L.cb("choose", lambda x: Some(x) if num(x) % 3 else Nothing)),
     lambda L: seq.choose(L.cb("choose", lambda x: Some(x) if num(x) % 3 else Nothing)),
     lambda L: (lambda it, f=L.cb("choose", lambda x: [x] if num(x) % 3 else []): (y for x in it for y in f(x)))),
    ("choose None", lambda s, L: s.choose(L.cb("cn", lambda x: Some(None))), lambda L: seq.choose(L.cb("cn", lambda x: Some(None))),
     lambda L: (lambda it, f=L.cb("cn", lambda x: [None]): (y for x in it for y in f(x)))),
    ("collect", lambda s, L: s.collect(L.cb("collect", lambda x: Seq([x, 0][:num(x) % 3]))), lambda L: seq.collect(L.cb("collect", lambda x: [x, 0][:num(x) % 3])),
     lambda L: (lambda it, f=L.cb("collect", lambda x: [x, 0][:num(x) % 3]): (y for x in it for y in f(x)))),
    ("concat", lambda s, L: s.map(L.cb("c", lambda x: Seq((x, 7)))).concat(), lambda L: (lambda src, f=seq.map(L.cb("c", lambda x: (x, 7))): seq.collect(lambda q: q)(f(src))),
     lambda L: (lambda it, f=L.cb("c", lambda x: (x, 7)): (y for x in it for y in f(x)))),
    ("append", lambda s, L: s.append([8], (), [9, 10]), lambda L: seq.append([8], (), [9, 10]),
     lambda L: (lambda it: (y for g in (it, [8], (), [9, 10]) for y in g))),
    ("append none", lambda s, L: s.append(), lambda L: seq.append(), lambda L: (lambda it: (y for y in it))),
    ("prepend", lambda s, L: Seq([5]).append(s), lambda L: (lambda src: seq.concat([5], src)), lambda L: (lambda it: (y for g in ([5], it) for y in g))),
    ("mapi", lambda s, L: s.mapi(L.cb("mapi", lambda i, x: (i, x))), lambda L: seq.mapi(L.cb("mapi", lambda i, x: (i, x))),
     lambda L: r_mapi(L.cb("mapi", lambda i, x: (i, x)))),
    ("pairwise", lambda s, L: s.pairwise(), lambda L: seq.pairwise, lambda L: r_pairwise),
    ("scan", lambda s, L: s.scan(L.cb("scan", lambda a, x: a * 2 + num(x)), 1), lambda L: seq.scan(L.cb("scan", lambda a, x: a * 2 + num(x)), 1),
     lambda L: r_scan(L.cb("scan", lambda a, x: a * 2 + num(x)), 1)),
    ("scan None", lambda s, L: s.scan(L.cb("scann", lambda a, x: x), None), lambda L: seq.scan(L.cb("scann", lambda a, x: x), None),
     lambda L: r_scan(L.cb("scann", lambda a, x: x), None)),
    ("skip 0", lambda s, L: s.skip(0), lambda L: seq.skip(0), lambda L: r_skip(0)),
    ("skip 1", lambda s, L: s.skip(1), lambda L: seq.skip(1), lambda L: r_skip(1)),
    ("skip 2", lambda s, L: s.skip(count=2), lambda L: seq.skip(count=2), lambda L: r_skip(2)),
    ("tail", lambda s, L: s.tail(), lambda L: seq.tail, lambda L: r_skip(1)),
    ("take 0", lambda s, L: s.take(0), lambda L: seq.take(0), lambda L: r_take(0)),
    ("take 1", lambda s, L: s.take(1), lambda L: seq.take(1), lambda L: r_take(1)),
    ("take 2", lambda s, L: s.take(2), lambda L: seq.take(count=2), lambda L: r_take(2)),
    ("take 3", lambda s, L: s.take(3), lambda L: seq.take(3), lambda L: r_take(3)),
    ("zip short", lambda s, L: Seq(s.zip([1, 2])), lambda L: (lambda src: seq.zip(src)([1, 2])), lambda L: r_zip_left([1, 2])),
    ("zip long", lambda s, L: Seq(s.zip(range(9))), lambda L: (lambda src: seq.zip(src)(range(9))), lambda L: r_zip_left(range(9))),
    ("zip right", lambda s, L: Seq(Seq([1, 2]).zip(s)), lambda L: seq.zip([1, 2]), lambda L: r_zip_right([1, 2])),
    ("starmap", lambda s, L: s.map(lambda x: (x, 1)).starmap(L.cb("star", lambda a, b: (b, a))),
     lambda L: (lambda src, f=seq.starmap(L.cb("star", lambda a, b: (b, a))): f(seq.map(lambda x: (x, 1))(src))),
     lambda L: (lambda it, f=L.cb("star", lambda a, b: (b, a)): (f(x, 1) for x in it))),
    ("map2", lambda s, L: s.pipe(seq.map(lambda x: (x, 1)), seq.map2(L.cb("m2", lambda a, b: [b, a])), seq.of_iterable),
     lambda L: (lambda src, f=seq.map2(L.cb("m2", lambda a, b: [b, a])): f(seq.map(lambda x: (x, 1))(src))),
     lambda L: (lambda it, f=L.cb("m2", lambda a, b: [b, a]): (f(x, 1) for x in it))),
    ("map3", lambda s, L: s.pipe(seq.map(lambda x: (x, 1, 2)), seq.map3(L.cb("m3", lambda a, b, c: (c, b, a))), seq.of_iterable),
     lambda L: (lambda src, f=seq.map3(L.cb("m3", lambda a, b, c: (c, b, a))): f(seq.map(lambda x: (x, 1, 2))(src))),
     lambda L: (lambda it, f=L.cb("m3", lambda a, b, c: (c, b, a)): (f(x, 1, 2) for x in it))),
    ("wrap", lambda s, L: Seq(s), lambda L: seq.of_iterable, lambda L: (lambda it: (y for y in it))),
    ("delay", lambda s, L: Seq(Seq.delay(L.cb("delay", lambda: s))), lambda L: (lambda src: seq.delay(L.cb("delay", lambda: src))),
     lambda L: (lambda it, f=L.cb("delay", lambda: None): _rdelay(it, f))),
    ("choose big", lambda s, L: s.choose(L.cb("cb", lambda x: Some(x) if num(x) > 1 else Nothing)),
     lambda L: seq.choose(L.cb("cb", lambda x: Some(x) if num(x) > 1 else Nothing)),
     lambda L: (lambda it, f=L.cb("cb", lambda x: [x] if num(x) > 1 else []): (y for x in it for y in f(x)))),
]


def _rdelay(it, f):
    f()
    yield from it


class Source:
    """A re-iterable counting source; ``pulls`` counts elements handed out."""

    def __init__(self, items, infinite=False):
        self.items, self.infinite = items, infinite
        self.pulls = 0
        self.ended = 0

    def __iter__(self):
        i = 0
        while True:
            if i < len(self.items):
                v = self.items[i]
            elif self.infinite:
                v = i
            else:
                self.ended += 1
                return
            i += 1
            self.pulls += 1
            if self.pulls > 100000:
                raise AssertionError("consumes an infinite source without end")
            yield v
