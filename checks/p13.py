"""P13: seq computations yield exactly the list their program describes."""
import functools

from expression import Nothing, Some, effect
from expression.collections import Seq, seq

from mc.core import Section, check, fail
from mc.raising import kinds as raising
from mc.shapes import shapes
from mc.values import Boom, Exc, Hostile, agree, alphabet, leaf_same, matches, outcome, small, variants

BOUNDS = ("all programs of up to 3 statements (quick) / 4 (thorough) over yield, delegation to sequences of 0..2 elements of "
          "every kind (Seq, generator, derived Seq, nested computation), loop, branch, return, raise, try/finally with "
          "sub-blocks up to 2 statements; every alphabet value in every position; 0..20000 yields and delegations; 43 kinds of exception raised at 7 points of a body; bodies given as 11 kinds of callable")
ASSUMPTIONS = ["delegation is to sequences whose iterator accepts send(), as Python's `yield from` inside the builder needs "
               "(Seq, generators, seq computations); a bare list iterator does not"]
T = "thorough"
BOOM = Boom("body")
DECO = effect.seq[object]()

KINDS = [
    ("Seq", lambda xs: Seq(list(xs))),
    ("gen", lambda xs: (x for x in xs)),
    ("of_iterable", lambda xs: seq.of_iterable(tuple(xs))),
    ("map", lambda xs: Seq(list(xs)).map(lambda x: x)),
    ("filter", lambda xs: Seq(list(xs)).filter(lambda x: True)),
    ("append", lambda xs: Seq(list(xs[:1])).append(Seq(list(xs[1:])))),
    ("comp", lambda xs: _comp(xs)),
    ("compret", lambda xs: _compret(xs)),
]


@DECO
def _comp(xs):
    for x in xs:
        yield x


@DECO
def _compret(xs):
    for x in xs[:-1]:
        yield x
    if xs:
        return xs[-1]


def real(prog, log):
    for s in prog:
        k = s[0]
        log.append(k)
        if k == "yield":
            x = yield s[1]
            log.append(x)
        elif k == "from":
            yield from KINDS[s[1]][1](s[2])
            log.append("done")
        elif k == "ret":
            return 1, s[1]
        elif k == "raise":
            raise BOOM.with_traceback(None)
        elif k == "fin":
            try:
                sig, v = yield from real(s[1], log)
            finally:
                log.append("finally")
            if sig:
                return sig, v
        elif k == "loop":
            for _ in range(2):
                sig, v = yield from real(s[1], log)
                if sig:
                    return sig, v
        elif k == "call":
            yield from make(s[1], log)()
    return 0, None


def make(prog, log):
    @DECO
    def computation():
        _, v = yield from real(prog, log)
        return v
    return computation


class Ret(Exception):
    def __init__(self, v):
        self.v = v


def model(prog, log, out):
    for s in prog:
        k = s[0]
        log.append(k)
        if k == "yield":
            out.append(s[1])
            log.append(s[1])
        elif k == "from":
            out.extend(s[2])
            log.append("done")
        elif k == "ret":
            raise Ret(s[1])
        elif k == "raise":
            raise BOOM.with_traceback(None)
        elif k == "fin":
            try:
                model(s[1], log, out)
            finally:
                log.append("finally")
        elif k == "loop":
            for _ in range(2):
                model(s[1], log, out)
        elif k == "call":
            out.extend(evaluate(s[1], log))


def evaluate(prog, log):
    out = []
    try:
        model(prog, log, out)
    except Ret as r:
        if r.v is not None:
            out.append(r.v)
    return out


LEAF = [("yield", 0), ("yield", None), ("from", 0, (1, 2)), ("from", 1, ()), ("from", 7, (3, 4)), ("ret", 5), ("ret", None),
        ("raise",)]


@functools.cache
def stmts(depth):
    out = list(LEAF)
    if depth:
        sub = [(s,) for s in stmts(depth - 1)] + [(s, t) for s in stmts(depth - 1) for t in stmts(depth - 1)]
        for k in ("fin", "loop", "call"):
            out += [(k, p) for p in sub]
        out.append(("call", ()))
    return out


def same_log(a, b, what):
    if len(a) != len(b) or not all(x is y or leaf_same(x, y) for x, y in zip(a, b)):
        fail(f"{what}: the program ran differently", ran=a, expected=b)


def drain(f):
    r = f()
    a = list(r)
    b = list(r)
    check(len(a) == len(b) and all(x is y for x, y in zip(a, b)), "iterating the result again gives other elements", first=a, again=b)
    return a


def run(st, prog):
    ml, rl = [], []
    r = outcome(evaluate, prog, ml)
    exp = r[1] if r[0] == "ret" else Exc(r[1])
    f = make(prog, rl)
    agree(outcome(drain, f), exp, "seq computation", program=prog)
    same_log(rl, ml, str(prog))
    del rl[:]
    agree(outcome(drain, f), exp, "seq computation, second call", program=prog)
    same_log(rl, ml, str(prog) + " second call")
    st.step(2)
    return exp


def body_programs(n):
    def body(ch, st):
        ss = stmts(1)
        prog = [ss[ch.choose(len(ss))]]
        k = ch.choose(len(ss) + 1)
        if k:
            prog.append(ss[k - 1])
            for _ in range(n - 2):
                j = ch.choose(len(LEAF) + 1)
                if not j:
                    break
                prog.append(LEAF[j - 1])
        st.outcome(repr(run(st, prog)))
    return body


def body_straight(n):
    def body(ch, st):
        k = ch.choose(n + 1)
        st.outcome(repr(run(st, [LEAF[ch.choose(len(LEAF))] for _ in range(k)])))
    return body


def body_delegate(ch, st):
    """Every kind of nested sequence, sizes 0..3, before, between and after other elements."""
    k = ch.choose(len(KINDS))
    n = ch.choose(4)
    k2 = ch.choose(len(KINDS))
    n2 = ch.choose(3)
    pre, mid, post = ch.flag(), ch.flag(), ch.choose(3)
    prog = [("yield", "a")] * pre + [("from", k, tuple(range(n)))] + [("yield", "b")] * mid + [("from", k2, tuple("xyz"[:n2]))]
    prog += [[], [("yield", "c")], [("ret", "r")]][post]
    st.outcome(repr(run(st, prog)))


def body_payloads(ch, st):
    a = alphabet()
    v = a[ch.choose(len(a))]
    w = small()[ch.choose(len(small()))]
    for prog in ([("yield", v)], [("ret", v)], [("yield", v), ("yield", w)], [("from", 0, (v, w))], [("yield", v), ("ret", w)],
                 [("from", 1, (v,)), ("ret", v)], [("call", (("yield", v), ("ret", w))), ("yield", v)], [("from", 6, (v, w))],
                 [("yield", w), ("from", 0, (v,)), ("yield", w)]):
        run(st, prog)

    @DECO
    def f(x, y=2, *z, k=None, **kw):
        yield (x, y, z, k, kw)
        yield x

    agree(outcome(lambda: list(f(v))), [(v, 2, (), None, {}), v], "arguments")
    agree(outcome(lambda: list(f(v, w, v, k=w, o=v))), [(v, w, (v,), w, {"o": v}), v], "arguments")

    @DECO
    def plain(x):
        return x

    agree(outcome(lambda: list(plain(v))), [] if v is None else [v], "body without yield")
    st.step(3)
    st.outcome((type(v).__name__, type(w).__name__))


def fn_long(st, tier):
    for n in (0, 1, 2, 3, 10, 63, 64, 65, 100, 500, 900, 999, 1000, 1001, 1024, 2000, 5000) + ((20000, 70000) if tier == T else (10000, 20000)):
        @DECO
        def yields(start):
            for i in range(n):
                x = yield start + i
                check(x == start + i, "yield gave back another value", x=x)

        agree(outcome(lambda: list(yields(5))), [5 + i for i in range(n)], f"{n} yields")

        @DECO
        def ret():
            for i in range(n):
                yield i
            return "end"

        agree(outcome(lambda: list(ret())), [*range(n), "end"], f"{n} yields and a return")

        @DECO
        def delegates():
            yield from Seq(list(range(n)))
            yield "mid"
            yield from (i for i in range(n))

        if n <= 5000:
            agree(outcome(lambda: list(delegates())), [*range(n), "mid", *range(n)], f"delegating {n} elements")
        st.step(3)
        st.outcome(n)

    @DECO
    def rec(n):
        if n:
            yield n
            yield from rec(n - 1)
            yield -n

    for n in (0, 1, 2, 5, 30, 60):
        agree(outcome(lambda: list(rec(n))), [*range(n, 0, -1), *range(-1, -n - 1, -1)], f"recursion {n}")

    @DECO
    def two(tag, k):
        for i in range(k):
            yield (tag, i)

    # results of separate calls are independent, however their iteration interleaves
    for pat in range(256):
        a, b = two("a", 4), two("b", 4)
        ia, ib = iter(a), iter(b)
        ga, gb = [], []
        for i in range(8):
            (ga.append(next(ia, None)) if pat >> i & 1 else gb.append(next(ib, None)))
        check([x for x in ga if x] == [("a", i) for i in range(4)][:len(ga)] and [x for x in gb if x] == [("b", i) for i in range(4)][:len(gb)],
              "interleaved iteration of two results", pattern=pat, a=ga, b=gb)
        st.step()

    @DECO
    def named():
        """the doc"""
        yield 1
    check(named.__name__ == "named" and named.__doc__ == "the doc", "the decorated function lost its name")


def fn_exceptions(st, tier):
    """An exception of any kind, raised at any point of a body, reaches whoever iterates, once cleanup has run."""
    def run(f, *a):
        try:
            return ("ret", list(f(*a)))
        except BaseException as x:  # noqa: BLE001
            return ("raise", x)
    for e in raising():
        log = []

        @DECO
        def nested():
            yield 1
            raise e.with_traceback(None)

        def plain():
            yield 1
            raise e.with_traceback(None)

        @DECO
        def g(where):
            try:
                if where == 0:
                    raise e.with_traceback(None)
                yield 1
                if where == 1:
                    raise e.with_traceback(None)
                yield from Seq([2, 3])
                if where == 2:
                    raise e.with_traceback(None)
                if where == 3:
                    yield from nested()
                if where == 4:
                    yield from plain()
                if where == 5:
                    yield from Seq([1, 2]).map(lambda x: run_out(x))
                if where == 6:
                    try:
                        raise e.with_traceback(None)
                    except type(e) as x:
                        log.append(x is e)
                yield e
                return 4
            finally:
                log.append("cleanup")

        def run_out(x):
            if x == 2:
                raise e.with_traceback(None)
            return x
        for where in (0, 1, 2, 3, 4, 5, 6, 7, 0):
            log.clear()
            got = run(g, where)
            if where < 6:
                check(got[0] == "raise" and got[1] is e, f"{type(e).__name__} raised at point {where} did not come through", got=got[0])
            else:
                check(got[0] == "ret" and len(got[1]) == 5 and got[1][:3] == [1, 2, 3] and got[1][3] is e and got[1][4] == 4, f"{type(e).__name__} as a value", got=got[0])
            check(log == [True, "cleanup"] if where == 6 else log == ["cleanup"], "cleanup did not run once", log=log)
            st.step()
        st.outcome(type(e).__name__)
    st.executions += 1


def fn_shapes(st, tier):
    """Whatever kind of callable gives the body (a lambda, a partial, a wrapper, a callable object, a method), the sequence is the same."""
    def gen(kind, x, *, k=0):
        if kind == 0:
            yield x
            yield k
        if kind == 1:
            yield from Seq([x, k])
            return x
        if kind == 2:
            return x
        if kind == 3:
            yield from Seq([x] * 3)
            yield x

    for x in (1, 0, "a", (), (1,), Seq([1]), Nothing, Some(1)):
        exp = [[x, 1], [x, 1, x], [x], [x] * 4]
        for name, f in shapes(gen):
            d = DECO(f)
            for kind in (0, 1, 2, 3, 1, 0):
                got = list(d(kind, x, k=1))
                check(len(got) == len(exp[kind]) and all(g is e or (type(g) is type(e) and g == e) for g, e in zip(got, exp[kind])), f"body given as a {name}, program {kind}", got=got, expected=exp[kind])
                st.step()
    st.executions += 1


def sections(tier):
    t = tier == T
    return variants([
        Section("programs", body_programs(4 if t else 3), shards=8, bounds=f"programs over {len(stmts(1))} statements"),
        Section("straight-line", body_straight(5 if t else 4), shards=5, bounds="all leaf sequences"),
        Section("delegation", body_delegate, shards=8, bounds="all pairs of nested sequence kinds and sizes"),
        Section("payloads", body_payloads, shards=8, bounds="every alphabet value in every position"),
        Section("long", fn=fn_long, bounds="up to 20000 yields"),
        Section("exceptions", fn=fn_exceptions, bounds="43 kinds of exception raised at 7 points of a body"),
        Section("callables", fn=fn_shapes, bounds="bodies given as 11 kinds of callable"),
    ], ('straight-line',), __name__, ('base', 'exit'))
