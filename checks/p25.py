"""P25: immutable values, decorated functions and parsers may be shared between threads."""
import copy
import itertools

from expression import (Error, Nothing, Ok, Option, Result, Some, TailCall, case, compose, curry, curry_flip, effect, pipe, pipeable, tag, tagged_union,
                        tailrec, tailrec_async)
from expression import option as fopt
from expression import result as fres
from expression.collections import Block, Map, Seq, TypedArray, block, seq
from expression.collections import asyncseq as aseq
from expression.collections import map as fmap
from expression.core import Failure, Success
from expression.extra import parser as ps
from expression.extra.option.pipeline import pipeline as opipeline
from expression.extra.result import catch
from expression.extra.result.pipeline import pipeline as rpipeline
from expression.extra.result.traversable import sequence, traverse

from mc import sched
from mc.core import Section, check, fail
from mc.values import MErr, MOk, NONE, Just, SeqOf, matches, outcome

T = "thorough"
BOUNDS = ("every pair of operations of each of 22 kinds of shared object (quick: a selection of the pairs of the larger kinds), in two threads that start together, under every schedule with at most "
          "1 preemption (thorough: 2 for the pairs of like operations), preemptions possible at every bytecode of the package that touches "
          "shared state and in every callback, and every schedule with at most 2 or 3 (thorough: 5) preemptions inside callbacks and decorated "
          "bodies; every operation inside every callback of every other in one thread; then every operation once more alone")
ASSUMPTIONS = ["CPython bytecodes and built-in container operations are atomic (GIL)"]

_salt = itertools.cycle(range(10000, 98000, 200))  # fresh values, so that a stale result shows; always 5 digits


_inside = []


def pt():
    """A place inside user code: another thread may go on here, or more work is done right here."""
    if _inside:
        _inside.pop()()
    sched.point()


def cb(f):
    """A user callback: another thread may run in the middle of it."""
    def g(*a):
        pt()
        r = f(*a)
        pt()
        return r
    return g


def drive(coro):
    """Run a coroutine that never suspends for long."""
    try:
        while True:
            coro.send(None)
            pt()
    except StopIteration as e:
        return e.value


def drive_all(agen):
    async def go():
        return [x async for x in agen]
    return drive(go())


class Later:
    def __await__(self):
        yield


@tagged_union(frozen=True, order=True)
class U:
    tag: str = tag()
    a: int = case()
    b: str = case()
    c: tuple = case()


# module-level decorated functions are shared by everything
@effect.option[int]()
def eo(x, y):
    a = yield from x
    pt()
    b = yield from y
    return (a, b)


@effect.result[int, str]()
def er(x, y):
    a = yield from x
    pt()
    b = yield from y
    return (a, b)


@effect.seq[int]()
def es(n, base):
    for i in range(n):
        pt()
        yield base + i
    yield from Seq([base, base])


@effect.async_option[int]()
async def aeo(x, y):
    a = yield x
    await Later()
    b = yield y
    yield (a, b)


@effect.async_result[int, str]()
async def aer(x, y):
    a = yield x
    await Later()
    if y is None:
        raise_err(Error(("bad", x)))
    b = yield y
    yield (a, b)


def raise_err(r):
    from expression.core.error import EffectError
    raise EffectError(r)


@tailrec
def total(n, acc):
    pt()
    return acc if n == 0 else TailCall(n - 1, acc=acc + n)


@tailrec
def ktotal(*, n=3, acc=0):
    pt()
    return acc if n == 0 else TailCall(n=n - 1, acc=acc + n)


@tailrec_async
async def aktotal(n=3, *, acc=0):
    await Later()
    return acc if n == 0 else TailCall(n=n - 1, acc=acc + n)


@tailrec_async
async def atotal(n, acc):
    await Later()
    return acc if n == 0 else TailCall(n - 1, acc=acc + n)


@catch(exception=ValueError)
def risky(x):
    pt()
    if x % 2:
        raise ValueError(x)
    return x


@curry(2)
def c3(a, b, c, *, d=0):
    pt()
    return (a, b, c, d)


@curry_flip(1)
def cf(a, b, c=0):
    pt()
    return (a, b, c)


DIGITS = ps.sep_by1(ps.any_of("0123456789"), ps.pchar(","))
WORD = ps.many1(ps.any_of("abc")).map(cb(lambda b: "".join(b)))
EITHER = ps.pstring("ab").and_then(ps.pchar("c")).map(cb(lambda t: t[0] + t[1])).or_else(ps.pstring("abd"))
NESTED = ps.between(ps.pchar("("))(ps.pchar(")"))(ps.many(ps.pchar("x")).map(cb(lambda b: len(b))))
TWICE = ps.any_of("12").bind(cb(lambda c: ps.pchar(c)))


def s_option(v):
    o, n, t = Some(v), Nothing, Some((v, v + 1))
    return [
        ("map", lambda: o.map(cb(lambda x: x + 1)), Just(v + 1)), ("bind", lambda: o.bind(cb(lambda x: Some(-x))), Just(-v)),
        ("filter", lambda: o.filter(cb(lambda x: x < 0)), NONE), ("default", lambda: n.default_with(cb(lambda: v)), v),
        ("map2", lambda: o.map2(cb(lambda a, b: (a, b)), Some(v + 5)), Just((v, v + 5))), ("starmap", lambda: t.starmap(cb(lambda a, b: a - b)), Just(-1)),
        ("to_list", lambda: o.to_list(), [v]), ("eq", lambda: (o == Some(v), o == n, hash(o) == hash(Some(v)), o < n, n < o), (True, False, True, False, True)),
        ("or_else", lambda: n.or_else_with(cb(lambda: o)), Just(v)), ("str", lambda: str(o), f"Some {v}"),
        ("copy", lambda: copy.deepcopy(t), Just((v, v + 1))), ("to_result", lambda: (o.to_result("e"), n.to_result(v)), (MOk(v), MErr(v))),
    ]


def s_result(v):
    o, e = Ok(v), Error(v)
    return [
        ("map", lambda: o.map(cb(lambda x: x + 1)), MOk(v + 1)), ("bind", lambda: pipe(o, fres.bind(cb(lambda x: Error(-x)))), MErr(-v)),
        ("map_error", lambda: e.map_error(cb(lambda x: x + 2)), MErr(v + 2)), ("swap", lambda: (o.swap(), e.swap()), (MErr(v), MOk(v))),
        ("default_with", lambda: e.default_with(cb(lambda x: x + 3)), v + 3), ("or_else_with", lambda: e.or_else_with(cb(lambda x: Ok(x))), MOk(v)),
        ("map2", lambda: o.map2(Error(v + 9), cb(lambda a, b: 0)), MErr(v + 9)), ("eq", lambda: (o == Ok(v), o == e, hash(o) == hash(Ok(v))), (True, False, True)),
        ("to_option", lambda: (o.to_option(), e.to_option()), (Just(v), NONE)), ("filter", lambda: o.filter(cb(lambda x: False), "no"), MErr("no")),
        ("str", lambda: str(e), f"Error {v}"),
    ]


def s_block(v):
    b = Block([v + 2, v, v + 1])
    L = [v + 2, v, v + 1]
    B = lambda xs: SeqOf(xs, Block)  # noqa: E731
    return [
        ("map", lambda: b.map(cb(lambda x: x * 2)), B([x * 2 for x in L])), ("filter", lambda: pipe(b, block.filter(cb(lambda x: x != v))), B([v + 2, v + 1])),
        ("sort", lambda: b.sort(), B(sorted(L))), ("fold", lambda: b.fold(cb(lambda s, x: (s, x)), 0), (((0, v + 2), v), v + 1)),
        ("collect", lambda: b.collect(cb(lambda x: Block([x, x]))), B([x for x in L for _ in (0, 1)])),
        ("partition", lambda: b.partition(cb(lambda x: x > v)), (B([v + 2, v + 1]), B([v]))), ("cons", lambda: b.cons(0), B([0, *L])),
        ("slice", lambda: b[1:], B(L[1:])), ("zip", lambda: b.zip(b), B(list(zip(L, L)))), ("choose", lambda: b.choose(cb(lambda x: Some(x) if x > v else Nothing)), B([v + 2, v + 1])),
        ("unfold", lambda: block.unfold(cb(lambda s: Some((s, s + 1)) if s < v + 2 else Nothing))(v), B([v, v + 1])), ("list", lambda: list(b), L),
        ("str", lambda: str(b), str(Block(list(L)))), ("reduce", lambda: b.reduce(cb(lambda a, c: a - c)), v + 2 - v - v - 1), ("dict", lambda: b.dict(), L),
        ("concat", lambda: block.concat([b, b]), B(L + L)),
    ]


def s_map(v):
    a, b, c = f"a{v}", f"b{v}", f"c{v}"
    m = Map.of_seq([(v + 2, b), (v, a), (v + 4, c)])
    d = {v: a, v + 2: b, v + 4: c}
    it = lambda q: list(q.to_seq())  # noqa: E731
    L = sorted(d.items())
    k1, k2 = v, v + 2
    same, other = Map.of_seq(L[::-1]), Map.of_seq(L[1:])
    return [
        ("add", lambda: it(m.add(v + 1, "n")), sorted({**d, v + 1: "n"}.items())), ("remove", lambda: it(m.remove(v + 2)), [L[0], L[2]]),
        ("change", lambda: it(m.change(v, cb(lambda o: o.map(lambda x: x + "!")))), [(v, a + "!"), *L[1:]]), ("find", lambda: (m[v + 4], m.try_find(v + 3)), (c, NONE)),
        ("again", lambda: (m[k1], k1 in m, m[k1]), (a, True, a)), ("again 2", lambda: (k2 in m, m[k2], m.try_find(k2)), (True, b, Just(b))),
        ("iter", lambda: list(m), [v, v + 2, v + 4]), ("hash", lambda: hash(m), hash(Map.of_seq(L))), ("eq", lambda: m == same, True), ("ne", lambda: m == other, False),
        ("filter", lambda: it(m.filter(cb(lambda k, x: k != v + 2))), [L[0], L[2]]), ("map", lambda: it(m.map(cb(lambda k, x: (k, x)))), [(k, (k, x)) for k, x in L]),
        ("fold", lambda: pipe(m, fmap.fold(cb(lambda s, kv: [*s, kv]), [])), L), ("len", lambda: (len(m), v in m, v + 9 in m), (3, True, False)),
        ("partition", lambda: [it(q) for q in m.partition(cb(lambda k, x: k == v))], [L[:1], L[1:]]), ("str", lambda: str(m), str(Map.of_seq(L))),
        ("of_list", lambda: it(Map.of_list([(v + 7, 1), (v + 6, 2), (v + 7, 3)])), [(v + 6, 2), (v + 7, 3)]),
    ]


def s_seq(v):
    L = [v + 2, v, v + 1]
    s = Seq(L)
    p = s.map(cb(lambda x: x + 1)).filter(cb(lambda x: x > v + 1))
    sk, sc, u = s.skip(1), s.scan(cb(lambda a, x: a + x), 0), Seq.unfold(cb(lambda q: Some((q, q + 1)) if q < v + 3 else Nothing), v)
    inf = seq.init_infinite(cb(lambda i: i + v))
    dl = seq.delay(cb(lambda: [v, v]))
    return [
        ("pipeline", lambda: list(p), [v + 3, v + 2]), ("skip", lambda: list(sk), L[1:]), ("scan", lambda: list(sc), [0, v + 2, 2 * v + 2, 3 * v + 3]),
        ("unfold", lambda: list(u), [v, v + 1, v + 2]), ("infinite", lambda: list(seq.take(3)(inf)), [v, v + 1, v + 2]), ("delay", lambda: list(dl), [v, v]),
        ("zip", lambda: list(s.zip(p)), list(zip(L, [v + 3, v + 2]))), ("pairwise", lambda: list(s.pairwise()), list(zip(L, L[1:]))),
        ("collect", lambda: list(s.collect(cb(lambda x: [x, x]))), [x for x in L for _ in (0, 1)]), ("fold_back", lambda: seq.fold_back(cb(lambda x, a: (x, a)), s)(0), (v + 2, (v, (v + 1, 0)))),
        ("head", lambda: p.head(), v + 3), ("index", lambda: s.try_find_index(cb(lambda x: x == v)), Just(1)), ("append", lambda: list(s.append(sk)), L + L[1:]),
        ("concat", lambda: list(seq.concat(s, p)), [*L, v + 3, v + 2]), ("length", lambda: p.length(), 2), ("choose", lambda: list(s.choose(cb(lambda x: Some(x)))), L),
    ]


def s_array(v):
    L = [3, 1, v % 100]
    a = TypedArray(L)
    A = lambda xs: SeqOf(xs, TypedArray)  # noqa: E731
    return [
        ("map", lambda: a.map(cb(lambda x: x + v)), A([x + v for x in L])), ("filter", lambda: a.filter(cb(lambda x: x != 1)), A([x for x in L if x != 1])),
        ("fold", lambda: a.fold(cb(lambda s, x: (s, x)), 0), (((0, 3), 1), L[2])), ("slice", lambda: list(a[1:]), L[1:]), ("sort", lambda: a.sort(), A(sorted(L))),
        ("list", lambda: list(a), L), ("bytes", lambda: list(TypedArray(bytes(L))), L),
    ]


def s_parser(v):
    d = v // 100 % 9 + 1
    return [
        ("digits", lambda: DIGITS(f"{d},7"), MOk(SeqOf([str(d), "7"], Block))), ("digits bad", lambda: DIGITS(f"x{d}").is_error(), True), ("int", lambda: ps.pint(str(d)), MOk(d)),
        ("word", lambda: WORD("ab" + "c" * (d % 2)), MOk("ab" + "c" * (d % 2))), ("either 1", lambda: EITHER("abc"), MOk("abc")), ("either 2", lambda: EITHER(f"abd{d}"), MOk("abd")),
        ("either bad", lambda: EITHER(f"ab{d}").is_error(), True), ("nested", lambda: NESTED("(" + "x" * (d % 2) + ")"), MOk(d % 2)), ("nested bad", lambda: NESTED("(x").is_error(), True),
        ("bind", lambda: TWICE("11" if d % 2 else "22"), MOk("1" if d % 2 else "2")), ("bind bad", lambda: TWICE("12").is_error(), True),
    ]


def s_effects(v):
    return [
        ("option", lambda: eo(Some(v), Some(v + 1)), Just((v, v + 1))), ("option none", lambda: eo(Some(v), Nothing), NONE), ("result", lambda: er(Ok(v), Ok(-v)), MOk((v, -v))),
        ("result error", lambda: er(Error(v), Ok(1)), MErr(v)), ("result error 2", lambda: er(Ok(1), Error(v + 1)), MErr(v + 1)), ("seq", lambda: list(es(3, v)), [v, v + 1, v + 2, v, v]),
        ("seq short", lambda: list(es(0, v + 50)), [v + 50, v + 50]),
    ]


def s_async(v):
    return [
        ("option", lambda: drive(aeo(v, v + 1)), Just((v, v + 1))), ("option 2", lambda: drive(aeo(-v, 0)), Just((-v, 0))), ("result", lambda: drive(aer(v, "x")), MOk((v, "x"))),
        ("result error", lambda: drive(aer(v + 3, None)), MErr(("bad", v + 3))), ("tailrec", lambda: drive(atotal(3, v)), v + 6),
        ("tailrec keywords", lambda: drive(aktotal()), 6), ("tailrec keywords 2", lambda: drive(aktotal(acc=v)), v + 6),
    ]


def s_functions(v):
    c1 = c3(v)
    c2 = c1(v + 1)
    f1 = cf(v, c=5)
    p1 = pipeable(lambda a, b, c=0: (a, b, c), v, c=2)
    comp = compose(cb(lambda x: x + 1), cb(lambda x: x * 2), cb(lambda x: x - v))
    return [
        ("curry 1", lambda: c1(v + 7)(1, d=2), (v, v + 7, 1, 2)), ("curry 2", lambda: c2(3), (v, v + 1, 3, 0)), ("flip", lambda: f1(9), (9, v, 5)), ("flip 2", lambda: cf(v + 1)(8), (8, v + 1, 0)),
        ("pipeable", lambda: p1(0), (0, v, 2)), ("compose", lambda: comp(v), v + 2), ("pipe", lambda: pipe(v, cb(lambda x: x - 1), cb(str)), str(v - 1)),
        ("tailrec", lambda: total(4, v), v + 10), ("tailrec 2", lambda: total(2, acc=-v), 3 - v),
        ("tailrec keywords", lambda: (ktotal(), ktotal(n=2)), (6, 3)), ("tailrec keywords 2", lambda: ktotal(acc=v), v + 6),
    ]


def s_union(v):
    a, b, c = U(a=v), U(b=str(v)), U(c=(v, [v]))
    return [
        ("make", lambda: (U(b="z").tag, U(b="z").b, U(a=v + 1).a), ("b", "z", v + 1)), ("eq", lambda: (a == U(a=v), a == b, hash(a) == hash(U(a=v)), a < b, c < b), (True, False, True, True, False)),
        ("repr", lambda: repr(b), repr(U(b=str(v)))), ("copy", lambda: (copy.copy(a) == a, copy.deepcopy(c).c), (True, (v, [v]))), ("match", lambda: _match(a) + _match(b), ("a", v, "b", str(v))),
        ("bad", lambda: _bad(a), "AttributeError"), ("twice", lambda: _two(v), "TypeError"),
    ]


def _match(u):
    match u:
        case U(tag="a", a=x):
            return ("a", x)
        case U(tag="b", b=x):
            return ("b", x)
        case _:
            return ("?", None)


def _bad(u):
    try:
        return u.b
    except AttributeError:
        return "AttributeError"


def _two(v):
    try:
        return U(a=v, b="x")
    except TypeError:
        return "TypeError"


def s_extra(v):
    ev, od = v + v % 2, v + v % 2 + 1
    rp = rpipeline(cb(lambda x: Ok(x + 1)), cb(lambda x: Error(x) if x < 0 else Ok(x * 2)))
    op = opipeline(cb(lambda x: Some(x + 1)), cb(lambda x: Nothing if x < 0 else Some(x * 2)))
    return [
        ("catch ok", lambda: risky(ev), MOk(ev)), ("catch error", lambda: risky(od).error.args, (od,)), ("pipeline", lambda: rp(v), MOk(2 * v + 2)), ("pipeline error", lambda: rp(-v), MErr(1 - v)),
        ("option pipeline", lambda: (op(v), op(-v)), (Just(2 * v + 2), NONE)), ("traverse", lambda: traverse(cb(lambda x: Ok(x + 1)), Block([v, v + 1])), MOk(SeqOf([v + 1, v + 2], Block))),
        ("traverse error", lambda: traverse(cb(lambda x: Error(x)), Block([v + 5, v + 1])), MErr(v + 5)), ("sequence", lambda: sequence(Block([Ok(v), Ok(2)])), MOk(SeqOf([v, 2], Block))),
    ]


def s_shared_iterators(v):
    """Two threads iterate one map, block or sequence at the same time, element by element."""
    m, b = Map.of_seq([(v + i, i) for i in range(4)]), Block(range(v, v + 4))
    s = Seq(range(v, v + 4)).map(lambda x: x)
    e = es(2, v)

    def walk(x):
        out = []
        for q in x:
            pt()
            out.append(q)
        return out
    return [("map", lambda: walk(m), [v, v + 1, v + 2, v + 3]), ("map items", lambda: walk(m.to_seq()), [(v + i, i) for i in range(4)]), ("block", lambda: walk(b), list(range(v, v + 4))),
            ("seq", lambda: walk(s), list(range(v, v + 4))), ("effect", lambda: walk(e), [v, v + 1, v, v]), ("option", lambda: walk(Some(v).to_seq()), [v])]


SUBJECTS = [("option", s_option), ("result", s_result), ("block", s_block), ("map", s_map), ("seq", s_seq), ("array", s_array), ("parser", s_parser), ("effects", s_effects),
            ("async", s_async), ("functions", s_functions), ("union", s_union), ("extra", s_extra), ("iterators", s_shared_iterators)]

# -- the rest of the operations: a second set of subjects, so that pairs stay affordable
def s_option2(v):
    o, n, f = Some(v), Nothing, Some(cb(lambda x: x + 7))
    return [
        ("apply", lambda: o.apply(f), Just(v + 7)), ("module map", lambda: pipe(o, fopt.map(cb(lambda x: -x)), fopt.default_value(0)), -v), ("module bind", lambda: pipe(o, fopt.bind(cb(lambda x: Nothing))), NONE),
        ("default_value", lambda: (o.default_value(0), n.default_value(v)), (v, v)), ("or_else", lambda: (o.or_else(Some(1)), n.or_else(o)), (Just(v), Just(v))),
        ("of", lambda: (Option.of_obj(v), Option.of_optional(None), Option.of_result(Ok(v)), Option.of_result(Error(v))), (Just(v), NONE, Just(v), NONE)),
        ("to_optional", lambda: (o.to_optional(), n.to_optional()), (v, None)), ("to_result_with", lambda: n.to_result_with(cb(lambda: v)), MErr(v)), ("match", lambda: (_mopt(o), _mopt(n)), (("some", v), "none")),
        ("seq", lambda: (list(o.to_seq()), list(n.to_seq())), ([v], [])), ("value", lambda: (o.value, _err(lambda: n.value)), (v, "ValueError")), ("dict", lambda: (o.dict(), n.dict()), (v, None)),
        ("order", lambda: [x.default_value(-1) for x in sorted([o, n, Some(v - 1)])], [-1, v - 1, v]), ("is", lambda: (o.is_some(), n.is_none(), o.is_none()), (True, True, False)),
    ]


def _mopt(x):
    match x:
        case Option(tag="some", some=y):
            return ("some", y)
        case Option(tag="none"):
            return "none"


def _err(f):
    try:
        return ("returned", f())
    except Exception as e:  # noqa: BLE001
        return type(e).__name__


def s_result2(v):
    o, e = Ok(v), Error(v)
    return [
        ("apply", lambda: o.apply(Ok(cb(lambda x: x + 1))), MOk(v + 1)), ("filter_with", lambda: o.filter_with(cb(lambda x: False), cb(lambda x: (x, "no"))), MErr((v, "no"))), ("merge", lambda: (o.merge(), e.merge()), (v, v)),
        ("or_else", lambda: (o.or_else(Ok(1)), e.or_else(Ok(v + 1))), (MOk(v), MOk(v + 1))), ("of_option", lambda: (Result.of_option(Some(v), "e"), Result.of_option(Nothing, v)), (MOk(v), MErr(v))),
        ("of_option_with", lambda: Result.of_option_with(Nothing, cb(lambda: v)), MErr(v)), ("default_value", lambda: (o.default_value(0), e.default_value(v + 1)), (v, v + 1)),
        ("dict", lambda: (o.dict(), e.dict()), ({"tag": "ok", "ok": v}, {"tag": "error", "error": v})), ("module", lambda: pipe(o, fres.map(cb(lambda x: x + 1)), fres.bind(cb(lambda x: Ok(x * 2)))), MOk(2 * v + 2)),
        ("module error", lambda: pipe(e, fres.map(cb(lambda x: 0)), fres.map_error(cb(lambda x: x - 1))), MErr(v - 1)), ("match", lambda: (_mres(o), _mres(e)), (("ok", v), ("error", v))),
        ("is", lambda: (o.is_ok(), e.is_ok(), e.is_error()), (True, False, True)), ("copy", lambda: (copy.copy(o), copy.deepcopy(Error([v]))), (MOk(v), MErr([v]))),
    ]


def _mres(x):
    match x:
        case Result(tag="ok", ok=y):
            return ("ok", y)
        case Result(tag="error", error=y):
            return ("error", y)


def s_block2(v):
    L = [v + 2, v, v + 1]
    b, pairs = Block(L), Block([(v, 1), (v + 1, 2)])
    B = lambda xs: SeqOf(xs, Block)  # noqa: E731
    return [
        ("mapi", lambda: b.mapi(cb(lambda i, x: (i, x))), B(list(enumerate(L)))), ("starmap", lambda: pairs.starmap(cb(lambda a, c: a - c)), B([v - 1, v - 1])), ("sort_with", lambda: b.sort_with(cb(lambda x: -x)), B(sorted(L, reverse=True))),
        ("sum", lambda: (b.sum(), b.sum_by(cb(lambda x: x - v))), (3 * v + 3, 3)), ("take skip", lambda: (b.take(1), b.skip(1), b.take_last(2), b.skip_last(2)), (B(L[:1]), B(L[1:]), B(L[1:]), B(L[:1]))),
        ("head tail", lambda: (b.head(), b.tail(), b.try_head(), Block.empty().try_head()), (v + 2, B(L[1:]), Just(v + 2), NONE)), ("indexed", lambda: b.indexed(5), B([(i + 5, x) for i, x in enumerate(L)])),
        ("forall", lambda: (b.forall(cb(lambda x: x >= v)), b.forall(cb(lambda x: x > v))), (True, False)), ("append", lambda: (b + b, b.append(Block([0]))), (B(L + L), B([*L, 0]))), ("contains", lambda: (v in b, v + 9 in b, len(b)), (True, False, 3)),
        ("of", lambda: (Block.of(v, 1), Block.of_seq(iter(L)), Block.of_option(Some(v)), Block.range(v, v + 2), Block.singleton(v)), (B([v, 1]), B(L), B([v]), B([v, v + 1]), B([v]))),
        ("eq", lambda: (b == Block(list(L)), b == b.sort(), b == Block(L[1:])), (True, False, False)), ("map2", lambda: block.map2(cb(lambda a, c: a + c))(pairs), B([v + 1, v + 3])),
    ]


def s_map2(v):
    d = {v: f"a{v}", v + 2: f"b{v}", v + 4: f"c{v}"}
    L = sorted(d.items())
    m = Map.of_seq(L)
    return [
        ("try_pick", lambda: m.try_pick(cb(lambda k, x: Some(x) if k == v + 2 else Nothing)), Just(f"b{v}")), ("exists", lambda: m.exists(cb(lambda k, x: k == v + 4)), True), ("for_all", lambda: m.for_all(cb(lambda k, x: k < v + 2)), False),
        ("fold_back", lambda: m.fold_back(cb(lambda kv, s: [*s, kv]), []), L[::-1]), ("iterate", lambda: _collect(m), L), ("items", lambda: list(m.items()), L), ("to_list", lambda: m.to_list(), SeqOf(L, Block)),
        ("create", lambda: list(Map.create(reversed(L)).to_seq()), L), ("of", lambda: list(Map.of(**{f"k{v}": 1, f"j{v}": 2}).to_seq()), [(f"j{v}", 2), (f"k{v}", 1)]), ("values", lambda: (list(m.keys()), list(m.values())), ([k for k, _ in L], [x for _, x in L])),
        ("find", lambda: (pipe(m, fmap.find(v)), _err(lambda: pipe(m, fmap.find(v + 1))), pipe(m, fmap.pick(cb(lambda k, x: Some(k))))), (f"a{v}", "KeyError", v)), ("change away", lambda: list(m.change(v, cb(lambda o: Nothing)).to_seq()), L[1:]),
        ("missing", lambda: _err(lambda: m[v + 1]), "KeyError"), ("grow", lambda: list(m.add(v - 1, 0).add(v - 2, 1).to_seq())[:2], [(v - 2, 1), (v - 1, 0)]), ("empty", lambda: (m.is_empty(), Map.empty().is_empty(), bool(m)), (False, True, True)),
    ]


def _collect(m):
    out = []
    m.iterate(cb(lambda k, x: out.append((k, x))))
    return out


def s_seq2(v):
    L = [v + 2, v, v + 1]
    s = Seq(L)
    mi, st_, tk, ap, cc = s.mapi(cb(lambda i, x: (i, x))), Seq([(v, 1)]).starmap(cb(lambda a, c: a - c)), s.take(2), s.append([v], [0]), Seq([s, s]).concat()
    piped = pipe(L, seq.map(cb(lambda x: x + 1)), seq.filter(cb(lambda x: x != v + 1)), seq.skip(1))
    return [
        ("mapi", lambda: list(mi), list(enumerate(L))), ("starmap", lambda: list(st_), [v - 1]), ("take", lambda: list(tk), L[:2]), ("append", lambda: list(ap), [*L, v, 0]), ("concat", lambda: list(cc), L + L),
        ("fold", lambda: s.fold(cb(lambda a, x: (a, x)), 0), (((0, v + 2), v), v + 1)), ("sum", lambda: (s.sum(), s.sum_by(cb(lambda x: x - v))), (3 * v + 3, 3)), ("tail", lambda: list(s.tail()), L[1:]),
        ("try_pick", lambda: s.try_pick(cb(lambda x: Some(-x) if x == v else Nothing)), Just(-v)), ("to_list", lambda: s.to_list(), SeqOf(L, Block)), ("max", lambda: (seq.max(s), seq.min(s), seq.max_by(cb(lambda x: -x))(s)), (v + 2, v, -v)),
        ("piped", lambda: list(piped), [v + 2]), ("iter", lambda: _iterate(s), L), ("of", lambda: (list(Seq.of(v, 1)), list(seq.singleton(v)), list(Seq.range(v, v + 2)), list(Seq.empty())), ([v, 1], [v], [v, v + 1], [])),
        ("str", lambda: str(Seq([v])), str(Seq([v]))), ("delayed", lambda: list(Seq.delay(cb(lambda: iter(L)))), L), ("dict", lambda: list(s.dict()), L),
    ]


def _iterate(s):
    out = []
    seq.iter(cb(out.append))(s)
    return out


def s_array2(v):
    L = [3, 1, v % 100]
    a = TypedArray(L)
    A = lambda xs: SeqOf(xs, TypedArray)  # noqa: E731
    return [
        ("take skip", lambda: (a.take(1), a.skip(1), a.take_last(2), a.skip_last(2)), (A(L[:1]), A(L[1:]), A(L[1:]), A(L[:1]))), ("choose", lambda: a.choose(cb(lambda x: Some(x + v))), A([x + v for x in L])),
        ("collect", lambda: a.collect(cb(lambda x: TypedArray([x, x]))), A([x for x in L for _ in (0, 1)])), ("indexed", lambda: a.indexed(), A(list(enumerate(L)))), ("head", lambda: (a.head(), a.try_head(), a.item(1), a.tail()), (3, Just(3), 1, A(L[1:]))),
        ("sum", lambda: (a.sum(), a.sum_by(cb(lambda x: x + 1))), (sum(L), sum(L) + 3)), ("sort_with", lambda: a.sort_with(cb(lambda x: -x)), A(sorted(L, reverse=True))), ("forall", lambda: a.forall(cb(lambda x: x < 100)), True),
        ("eq", lambda: (a == TypedArray(list(L)), a == TypedArray(L[1:]), len(a)), (True, False, 3)), ("unfold", lambda: TypedArray.unfold(cb(lambda s: Some((s, s + 1)) if s < v + 2 else Nothing), v), A([v, v + 1])),
    ]


FLOAT = ps.pfloat
LETTERS = ps.choice(Block([ps.pstring("xa"), ps.pstring("xb"), ps.pstring("y")]))
SEQ3 = ps.sequence(Block([ps.pchar("a"), ps.any_of("bc"), ps.pchar("d")]))
OPTA = ps.pchar("a").opt().and_then(ps.pchar("b"))
IGN = ps.pchar("<").ignore_then(ps.any_of("pq")).then_ignore(ps.pchar(">"))
STAR = ps.any_of("12").and_then(ps.any_of("34")).starmap(cb(lambda a, b: b + a))
SEP0 = ps.sep_by(ps.pchar("a"), ps.pchar(";"))


def s_parser2(v):
    d = v // 100 % 9 + 1
    return [
        ("float", lambda: FLOAT(f"{d}.5"), MOk(d + 0.5)), ("choice", lambda: LETTERS("xb"), MOk("xb")), ("choice bad", lambda: LETTERS(f"x{d}").is_error(), True), ("sequence", lambda: SEQ3("acd"), MOk(SeqOf(["a", "c", "d"], Block))),
        ("sequence bad", lambda: SEQ3(f"ab{d}").is_error(), True), ("opt", lambda: OPTA("ab"), MOk((Just("a"), "b"))), ("opt none", lambda: OPTA("b"), MOk((NONE, "b"))), ("ignore", lambda: IGN("<q>"), MOk("q")), ("starmap", lambda: STAR("23"), MOk("32")),
        ("sep_by", lambda: SEP0("a;a"), MOk(SeqOf(["a", "a"], Block))), ("preturn", lambda: (ps.preturn(v)(""), ps.fail(f"no {v}")("x")), (MOk(v), MErr(f"no {v}"))),
    ]


class ASrc:
    """An asynchronous source that can be iterated any number of times."""

    def __init__(self, items):
        self.items = items

    async def __aiter__(self):
        for x in self.items:
            await Later()
            yield x


def s_asyncseq(v):
    L = [v + 2, v, v + 1]
    a = aseq.AsyncSeq(ASrc(L))
    m, f, c = aseq.map(cb(lambda x: x + 1)), aseq.filter(cb(lambda x: x != v)), aseq.choose(cb(lambda x: Some(-x) if x > v else Nothing))

    async def via(meth, *args):
        return [x async for x in await getattr(a, meth)(*args)]
    return [
        ("list", lambda: drive_all(a), L), ("map", lambda: drive_all(m(a)), [x + 1 for x in L]), ("filter", lambda: drive_all(f(a)), [v + 2, v + 1]), ("choose", lambda: drive_all(c(a)), [-v - 2, -v - 1]),
        ("method map", lambda: drive(via("map", cb(lambda x: x * 2))), [x * 2 for x in L]), ("method filter", lambda: drive(via("filter", cb(lambda x: x == v))), [v]), ("fold", lambda: drive(a.fold(cb(lambda s, x: (s, x)), 0)), (((0, v + 2), v), v + 1)),
        ("scan", lambda: drive_all(a.scan(cb(lambda s, x: s + x), 0)), [0, v + 2, 2 * v + 2, 3 * v + 3]), ("take", lambda: drive(via("take", 2)), L[:2]), ("skip", lambda: drive(via("skip", 1)), L[1:]), ("head", lambda: drive(a.head()), v + 2),
        ("length", lambda: drive(a.length()), 3), ("max", lambda: (drive(a.max()), drive(a.min()), drive(a.sum())), (v + 2, v, 3 * v + 3)), ("collect", lambda: drive_all(aseq.collect(cb(lambda x: ASrc([x, x])))(a)), [x for x in L for _ in (0, 1)]),
        ("range", lambda: drive_all(aseq.AsyncSeq.range(v, v + 2)), [v, v + 1]), ("append", lambda: drive_all(aseq.append(ASrc([0]))(a)), [*L, 0]),
    ]


class Holder:
    """Decorated methods, one object per caller."""

    def __init__(self, x):
        self.x = x

    @catch(exception=ValueError)
    def risky(self, y):
        pt()
        if y < 0:
            raise ValueError(self.x)
        return (self.x, y)

    @effect.option[int]()
    def opt(self, y):
        a = yield from y
        pt()
        return (self.x, a)

    @effect.result[int, int]()
    def res(self, y):
        a = yield from y
        pt()
        return (self.x, a)

    @tailrec
    def down(self, n):
        pt()
        return self.x if n == 0 else TailCall(self, n - 1)


@effect.try_[int]()
def et(x, y):
    a = yield from x
    pt()
    b = yield from y
    return (a, b)


@effect.async_try[int]()
async def aet(x, y):
    a = yield x
    await Later()
    b = yield y
    yield (a, b)


def s_methods(v):
    h, g = Holder(v), Holder(v + 1)
    bad = ValueError(v)
    return [
        ("catch", lambda: (h.risky(1), g.risky(2)), (MOk((v, 1)), MOk((v + 1, 2)))), ("catch error", lambda: (h.risky(-1).error.args, g.risky(-1).error.args), ((v,), (v + 1,))), ("option", lambda: (h.opt(Some(1)), g.opt(Nothing)), (Just((v, 1)), NONE)),
        ("result", lambda: (g.res(Ok(1)), h.res(Error(v))), (MOk((v + 1, 1)), MErr(v))), ("tailrec", lambda: (h.down(3), g.down(2)), (v, v + 1)), ("try", lambda: et(Success(v), Success(1)), MOk((v, 1))),
        ("try failure", lambda: et(Success(1), Failure(bad)).error is bad, True), ("async try", lambda: drive(aet(v, v + 1)), MOk((v, v + 1))),
    ]


SUBJECTS2 = [("option (rest)", s_option2), ("result (rest)", s_result2), ("block (rest)", s_block2), ("map (rest)", s_map2), ("seq (rest)", s_seq2), ("array (rest)", s_array2), ("parser (rest)", s_parser2), ("asyncseq", s_asyncseq), ("methods", s_methods)]


CHEAP = {"find", "again", "again 2", "fold", "len", "ne"}  # few scheduling points: all their pairs are explored


def body(subject, limit=None, fine=True):
    _, make = subject
    names = [o[0] for o in make(0)]
    n = len(names)
    pairs = [(i, j) for i in range(n) for j in range(i, n)]
    if limit:
        pairs = [p for k, p in enumerate(pairs) if (k % limit == 0 or p[0] == p[1] or {names[q] for q in p} <= CHEAP) and "float" not in (names[p[0]], names[p[1]])]

    def b(ch, st):
        i, j = pairs[ch.choose(len(pairs))]
        v = next(_salt)
        ops = make(v)
        # the second thread works on values of its own when both do the same thing
        ops2 = make(v + 100) if i == j and ch.choose(2) else ops
        got = {}

        def run(k, os):
            def r():
                got[k] = os[(i, j)[k]][1]()
            return r
        res, s = sched.run(ch, [("A", run(0, ops)), ("B", run(1, ops2))], fine=fine)
        ctx = dict(first=ops[i][0], second=ops2[j][0], schedule=s.trace)
        for name, r in res.items():
            if r[0] != "ret":
                fail(f"thread {name} failed: {type(r[1]).__name__}: {r[1]}", **ctx)
        for k, os, q in ((0, ops, i), (1, ops2, j)):
            if not matches(got[k], os[q][2]):
                fail(f"{os[q][0]} of a shared {subject[0]} gave another result than alone", got=got[k], expected=os[q][2], **ctx)
        for os in (ops, ops2):
            for q in {i, j}:
                r = os[q][1]()
                if not matches(r, os[q][2]):
                    fail(f"{os[q][0]} gives another result after concurrent use", got=r, expected=os[q][2], **ctx)
        st.step(4)
        st.outcome((i, j, ops2 is ops))
        st.max("max_points", s.points)
    return b


def nested(subject):
    """Operation j runs to its end inside the n-th callback (or body step) of operation i, in the same thread."""
    _, make = subject
    n = len(make(0))

    def b(ch, st):
        i, j = ch.choose(n), ch.choose(n)
        for k in range(8):
            v = next(_salt)
            ops = make(v)
            got = []

            def inner():
                got.append(outcome(ops[j][1]))
            _inside[:] = [inner] + [lambda: None] * k  # popped from the end: the (k+1)-th step
            r = outcome(ops[i][1])
            done = not _inside
            _inside.clear()
            ctx = dict(outer=ops[i][0], inner=ops[j][0], at_step=k)
            if r[0] == "raise" or not matches(r[1], ops[i][2]):
                fail(f"{ops[i][0]} of a {subject[0]} gives another result when its callback uses the same objects", got=r, expected=ops[i][2], **ctx)
            if got and (got[0][0] == "raise" or not matches(got[0][1], ops[j][2])):
                fail(f"{ops[j][0]} of a {subject[0]} gives another result inside a callback", got=got[0], expected=ops[j][2], **ctx)
            for q in {i, j}:
                r = outcome(ops[q][1])
                if r[0] == "raise" or not matches(r[1], ops[q][2]):
                    fail(f"{ops[q][0]} gives another result after nested use", got=r, expected=ops[q][2], **ctx)
            st.step(4)
            if not done:
                break
        st.outcome((i, j))
    return b


def sections(tier):
    t = tier == T
    out = []
    for s in sorted(SUBJECTS, key=lambda s: s[0] not in ("map", "parser")):
        few = s[0] in ("map", "parser") and not t
        out.append(Section(s[0], body(s, 8 if few else None), dev_bound=1, shards=16 if few else 4,
                           bounds=("pairs of like operations and every eighth other pair" if few else "all pairs of operations") + ", one preemption"))
    for s in SUBJECTS2:
        few = not t
        out.append(Section(s[0], body(s, 20 if few else None), dev_bound=1, shards=8 if t else 4,
                           bounds=("pairs of like operations and every twentieth other pair" if few else "all pairs of operations") + ", one preemption"))
    for s in SUBJECTS + SUBJECTS2:
        out.append(Section(s[0] + "-nested", nested(s), bounds="every operation inside every callback of every operation, one thread"))
    for s in SUBJECTS + SUBJECTS2:
        out.append(Section(s[0] + "-callbacks", body(s, fine=False), dev_bound=5 if t else 3 if s in SUBJECTS else 2, shards=4 if t or s[0] == "seq" else 1,
                           bounds=f"all pairs of operations, at most {5 if t else 3 if s in SUBJECTS else 2} preemptions, all of them in callbacks and bodies"))
    if t:
        for s in SUBJECTS:
            out.append(Section(s[0] + "-2", body(s, 5), dev_bound=2, shards=8, tiers=("thorough",), bounds="pairs of like operations and every fifth other pair, two preemptions"))
    return out
