"""P12: option, result and try computations equal their monadic desugaring."""
import functools

from expression import Error, Nothing, Ok, Option, Result, Some, effect, option, result
from expression.core import Try, Success, Failure

from mc.core import Section, check, fail
from mc.raising import kinds as raising
from mc.shapes import shapes
from mc.values import NONE, Boom, Exc, Hostile, Ident, Just, MErr, MOk, agree, alphabet, leaf_same, matches, outcome, small, variants

BOUNDS = ("all programs of up to 2 statements (quick) / 3 (thorough) over bind-success, bind-failure, yield, return, return "
          "nothing, raise, try/finally, try/except, loop, branch, nested computation (sub-blocks up to 2 statements), for all 3 "
          "builders; every payload of a 29-value alphabet in every bind/yield/return position; straight-line programs up to "
          "20000 binds; recursion to depth 100; every pair of outcomes of two interleaved calls; 43 kinds of exception raised at 7 points of a body; bodies given as 11 kinds of callable")
ASSUMPTIONS = ["programs do not catch the library's own short-circuit exception", "nothing yields inside finally"]
T = "thorough"
BOOM = Boom("body")


class Fail(Exception):
    def __init__(self, m):
        self.m = m


class Ret(Exception):
    def __init__(self, v):
        self.v = v


ERR = ["e1"]


class B:
    def __init__(self, name, deco, succ, fails, msucc, zero):
        self.name, self.deco, self.succ, self.fails, self.msucc, self.zero = name, deco, succ, fails, msucc, zero


BUILDERS = [
    B("option", effect.option[int](), Some, [(Nothing, NONE)], Just, NONE),
    B("result", effect.result[int, list](), Ok, [(Error(ERR), MErr(ERR))], MOk, MOk(None)),
    B("try", effect.try_[int](), Success, [(Failure(BOOM), MErr(BOOM))], MOk, MOk(None)),
]


# -- a program is a list of statements; real() runs it as a generator ---------
NEXT, RETURN = 0, 1


def real(b, prog, log):
    """Generator body of the real computation; returns (signal, value)."""
    x = None
    for s in prog:
        k = s[0]
        log.append(k)
        if k == "bind":
            x = yield from b.succ(s[1])
            log.append(x)
        elif k == "bindF":
            x = yield from b.fails[0][0]
            log.append(("ran after a failure", x))
        elif k == "yield":
            x = yield s[1]
            log.append(x)
        elif k == "ret":
            return RETURN, s[1]
        elif k == "raise":
            raise BOOM.with_traceback(None)
        elif k == "fin":
            try:
                sig, v = yield from real(b, s[1], log)
            finally:
                log.append("finally")
            if sig:
                return sig, v
        elif k == "catch":
            try:
                sig, v = yield from real(b, s[1], log)
                if sig:
                    return sig, v
            except Boom:
                log.append("caught")
        elif k == "loop":
            for _ in range(2):
                sig, v = yield from real(b, s[1], log)
                if sig:
                    return sig, v
        elif k == "if":
            sig, v = yield from real(b, s[1] if x else [("yield", 8)], log)
            if sig:
                return sig, v
        elif k == "call":
            inner = make(b, s[1], log)()
            x = yield from inner
            log.append(x)
    return NEXT, None


def make(b, prog, log):
    @b.deco
    def computation():
        sig, v = yield from real(b, prog, log)
        return v
    return computation


def model(b, prog, log, last):
    x = None
    for s in prog:
        k = s[0]
        log.append(k)
        if k in ("bind", "yield"):
            x = s[1]
            last[0] = b.msucc(x)
            log.append(x)
        elif k == "bindF":
            raise Fail(b.fails[0][1])
        elif k == "ret":
            raise Ret(s[1])
        elif k == "raise":
            raise BOOM.with_traceback(None)
        elif k == "fin":
            try:
                model(b, s[1], log, last)
            finally:
                log.append("finally")
        elif k == "catch":
            try:
                model(b, s[1], log, last)
            except Boom:
                log.append("caught")
        elif k == "loop":
            for _ in range(2):
                model(b, s[1], log, last)
        elif k == "if":
            model(b, s[1] if x else [("yield", 8)], log, last)
        elif k == "call":
            r = evaluate(b, s[1], log)
            if r is NONE or isinstance(r, MErr):
                raise Fail(r)
            x = r.v
            last[0] = b.msucc(x)
            log.append(x)


def evaluate(b, prog, log):
    last = [b.zero]
    try:
        model(b, prog, log, last)
    except Fail as f:
        return f.m
    except Ret as r:
        if r.v is not None:
            return b.msucc(r.v)
    return last[0]


LEAF = [("bind", 1), ("bindF",), ("yield", 0), ("yield", None), ("ret", 5), ("ret", None), ("raise",)]


@functools.cache
def stmts(depth):
    out = list(LEAF)
    if depth:
        sub = [(s,) for s in stmts(depth - 1)] + [(s, t) for s in stmts(depth - 1) for t in stmts(depth - 1)]
        for k in ("fin", "catch", "loop", "if", "call"):
            out += [(k, p) for p in sub]
        out.append(("call", ()))
    return out


def same_log(a, b, what):
    if len(a) != len(b) or not all(x is y or leaf_same(x, y) for x, y in zip(a, b)):
        fail(f"{what}: the program ran differently", ran=a, expected=b)


def run(st, b, prog):
    ml, rl = [], []
    r = outcome(evaluate, b, prog, ml)
    exp = r[1] if r[0] == "ret" else Exc(r[1])
    f = make(b, prog, rl)
    got = outcome(f)
    agree(got, exp, f"{b.name} computation", program=prog)
    same_log(rl, ml, f"{b.name} {prog}")
    del rl[:]
    agree(outcome(f), exp, f"{b.name} computation, second call", program=prog)
    same_log(rl, ml, f"{b.name} {prog} second call")
    st.step(2)
    return exp


def body_programs(n, depth):
    def body(ch, st):
        ss = stmts(depth)
        i = ch.choose(len(ss), lambda c: ss[c])
        b = BUILDERS[ch.choose(3)]
        prog = [ss[i]]
        k = ch.choose(len(ss) + 1)
        if k:
            prog.append(ss[k - 1])
            if n > 2:
                j = ch.choose(len(LEAF) + 1)
                if j:
                    prog.append(LEAF[j - 1])
        st.outcome((b.name, repr(run(st, b, prog))[:60]))
    return body


COMP = ("fin", "catch", "loop", "if", "call")


def body_nested(ch, st):
    """Compound within compound (within compound), with a leaf before and after at the outer levels."""
    k1, k2 = divmod(ch.choose(25), 5)
    k1, k2, k3 = COMP[k1], COMP[k2], ch.pick((None, *COMP))
    b = BUILDERS[ch.choose(3)]
    pair = tuple(LEAF[ch.choose(len(LEAF))] for _ in range(1 + ch.choose(2)))
    if k3:
        pair = ((k3, pair),)
    pre = ch.choose(2)
    post = ch.choose(3)
    inner = ((("bind", 1),) if pre else ()) + ((k2, pair),) + (() if post == 0 else (("yield", 0),) if post == 1 else (("bindF",),))
    st.outcome((b.name, repr(run(st, b, [("bind", 3), (k1, inner), ("bind", 4)]))[:60]))


def body_straight(n):
    """All straight-line programs over the leaves, up to length n."""
    def body(ch, st):
        b = BUILDERS[ch.choose(3)]
        k = ch.choose(n + 1)
        prog = [LEAF[ch.choose(len(LEAF))] for _ in range(k)]
        st.outcome((b.name, repr(run(st, b, prog))[:60]))
    return body


def body_payloads(ch, st):
    """Every value travels through every position unchanged and uninspected."""
    a = alphabet()
    v = a[ch.choose(len(a))]
    w = small()[ch.choose(len(small()))]
    b = BUILDERS[ch.choose(3)]
    for prog in ([("bind", v)], [("yield", v)], [("ret", v)], [("bind", v), ("ret", w)], [("bind", v), ("bind", w)],
                 [("yield", v), ("bind", w), ("ret", None)], [("bind", w), ("yield", v)], [("call", (("bind", v),)), ("bind", w)],
                 [("call", (("ret", v),)), ("ret", w)], [("bind", v), ("bind", w), ("ret", v)], [("loop", (("bind", v), ("yield", w)))],
                 [("call", (("bind", w), ("ret", v)))], [("fin", (("bind", v), ("ret", w)))], [("bind", v), ("bindF",), ("ret", w)]):
        ml, rl = [], []
        exp = evaluate(b, prog, ml)
        agree(outcome(make(b, prog, rl)), exp, f"{b.name} computation", program=prog)
        same_log(rl, ml, str(prog))
        st.step()
    # every failure payload comes back as it was
    if b.name != "option":
        for prog in ([("bindF",)], [("bind", 1), ("bindF",), ("ret", 2)], [("fin", (("bindF",),))], [("call", (("bindF",),)), ("ret", 3)]):
            b2 = B(b.name, b.deco, b.succ, [(Error(v), MErr(v))], b.msucc, b.zero)
            ml, rl = [], []
            agree(outcome(make(b2, prog, rl)), evaluate(b2, prog, ml), "failure payload", program=prog)
            same_log(rl, ml, str(prog))
            st.step()
    # arguments
    @b.deco
    def f(x, y=2, *z, k=None, **kw):
        """doc"""
        q = yield from b.succ((x, y, z, k, kw))
        return q

    agree(outcome(f, v), b.msucc((v, 2, (), None, {})), "arguments")
    agree(outcome(f, v, w, v, k=w, other=v), b.msucc((v, w, (v,), w, {"other": v})), "arguments")
    agree(outcome(lambda: f(y=w, x=v)), b.msucc((v, w, (), None, {})), "arguments")

    # a body without yield
    @b.deco
    def plain(x):
        return x

    agree(outcome(plain, v), b.zero if v is None else b.msucc(v), f"{b.name} body without yield")
    st.step(4)
    st.outcome((b.name, type(v).__name__, type(w).__name__))


def fn_long(st, tier):
    """Any number of steps, deep recursion, interleaved and self-nested calls."""
    for b in BUILDERS:
        for n in (0, 1, 2, 3, 10, 100, 500, 999, 1000, 1001, 2000, 5000, 20000):
            @b.deco
            def total(stop_at):
                acc = 0
                for i in range(n):
                    if i == stop_at:
                        yield from b.fails[0][0]
                    x = yield from b.succ(i)
                    acc += x
                return acc

            agree(outcome(total, -1), b.msucc(n * (n - 1) // 2), f"{b.name}: {n} binds")
            if n:
                agree(outcome(total, n - 1), b.fails[0][1], f"{b.name}: failure after {n - 1} binds")

            @b.deco
            def yields():
                for i in range(n):
                    x = yield i
                    check(x == i, "yield gave back another value", i=i, x=x)

            agree(outcome(yields), b.msucc(n - 1) if n else b.zero, f"{b.name}: {n} yields")
            st.step(3)
            st.outcome((b.name, n))

        @b.deco
        def rec(n, bad):
            if n == bad:
                yield from b.fails[0][0]
            if n == 0:
                return 100
            x = yield from rec(n - 1, bad)
            y = yield from b.succ(n)
            return x + y

        for n in (0, 1, 2, 3, 20, 100):
            agree(outcome(rec, n, -1), b.msucc(100 + n * (n + 1) // 2), f"recursion {n}")
            for bad in {0, n // 2, n}:
                agree(outcome(rec, n, bad), b.fails[0][1], f"recursion {n} failing at {bad}")
            st.step()

        # many calls of one decorated function, outcomes alternating in every pattern
        @b.deco
        def once(x, ok):
            y = yield from (b.succ(x) if ok else b.fails[0][0])
            z = yield from b.succ(y)
            return (y, z)

        for pat in range(64):
            for i in range(6):
                ok = bool(pat >> i & 1)
                agree(outcome(once, (pat, i), ok), b.msucc(((pat, i), (pat, i))) if ok else b.fails[0][1], "repeated calls")
                st.step()
        st.executions += 1
    # metadata
    for b in BUILDERS:
        @b.deco
        def named(x: int):
            """the doc"""
            yield x
        check(named.__name__ == "named" and named.__doc__ == "the doc", "the decorated function lost its name")
    # one builder used within a computation of another
    ob, rb = BUILDERS[0], BUILDERS[1]

    @rb.deco
    def mixed(o):
        @ob.deco
        def inner():
            x = yield from o
            y = yield from Some(x)
            return y
        v = inner()
        z = yield from Ok(v)
        return z
    check(matches(mixed(Some(3)), MOk(Just(3))) and matches(mixed(Nothing), MOk(NONE)), "option computation inside a result computation")
    # option bound inside result computation and the reverse: the failure value passes through as such
    st.step(2)


def fn_exceptions(st, tier):
    """An exception of any kind, raised at any point of a body, reaches the caller as it is, once cleanup has run; the next call is not affected."""
    for b in BUILDERS:
        for e in raising():
            log = []

            @b.deco
            def g(where, guard):
                try:
                    if where == 0:
                        raise e.with_traceback(None)
                    x = yield from b.succ(1)
                    if where == 1:
                        raise e.with_traceback(None)
                    y = yield 2
                    if where == 2:
                        raise e.with_traceback(None)
                    if where == 3:
                        yield from outer()
                    if guard and where == 4:
                        try:
                            raise e.with_traceback(None)
                        except type(e) as got:
                            log.append(got is e)
                    if where == 5:
                        yield from nested()
                    return (x, y)
                finally:
                    log.append("cleanup")

            @b.deco
            def nested():
                yield from b.succ(1)
                raise e.with_traceback(None)

            def outer():
                yield from b.succ(0)
                raise e.with_traceback(None)

            @b.deco
            def plain():
                raise e.with_traceback(None)

            def run(f, *a):
                try:
                    return ("ret", f(*a))
                except BaseException as x:  # noqa: BLE001
                    return ("raise", x)
            for where in (0, 1, 2, 3, 5, 6, 0):
                log.clear()
                agree(run(g, where, False), Exc(e) if where < 6 else b.msucc((1, 2)), f"{b.name}: {type(e).__name__} raised at point {where}")
                check(log == ["cleanup"], "cleanup did not run once", log=log)
                st.step()
            log.clear()
            agree(run(g, 4, True), b.msucc((1, 2)), f"{b.name}: {type(e).__name__} handled by the body")
            check(log == [True, "cleanup"], "the body did not see its own exception", log=log)
            for f in (plain, nested):
                agree(run(f), Exc(e), f"{b.name}: {type(e).__name__} raised by a function")
            st.step(3)
            st.outcome((b.name, type(e).__name__))
    st.executions += 1


def fn_shapes(st, tier):
    """Whatever kind of callable gives the body (a lambda, a partial, a wrapper, a callable object, a method), the computation is the same."""
    for b in BUILDERS:
        def gen(kind, x, *, k=0):
            if kind == 0:
                y = yield from b.succ(x)
                return (y, k)
            if kind == 1:
                y = yield from b.fails[0][0]
                return ("after", y)
            if kind == 2:
                y = yield x
                return (y, k)
            if kind == 3:
                yield x
                yield k
            if kind == 4:
                raise BOOM.with_traceback(None)

        def plain(kind, x, *, k=0):
            if kind == 4:
                raise BOOM.with_traceback(None)
            return (x, k)

        for x in small():
            exp = [b.msucc((x, 1)), b.fails[0][1], b.msucc((x, 1)), b.msucc(1), Exc(BOOM)]
            for name, f in shapes(gen):
                d = b.deco(f)
                for kind in (0, 1, 2, 3, 4, 1, 0):
                    agree(outcome(d, kind, x, k=1), exp[kind], f"{b.name}: body given as a {name}, program {kind}")
                    st.step()
            for name, f in shapes(plain):
                d = b.deco(f)
                for kind in (0, 4, 0):
                    agree(outcome(d, kind, x, k=1), exp[kind], f"{b.name}: plain function given as a {name}")
                    st.step()
        st.outcome(b.name)
    st.executions += 1


def sections(tier):
    t = tier == T
    return variants([
        Section("programs", body_programs(3 if t else 2, 1), shards=8, bounds=f"programs over {len(stmts(1))} statements"),
        Section("straight-line", body_straight(6 if t else 4), shards=3, bounds="all leaf sequences"),
        Section("nested", body_nested, shards=8, bounds="three levels of compound statements"),
        Section("payloads", body_payloads, shards=8, bounds="every alphabet value in every position"),
        Section("long", fn=fn_long, bounds="up to 20000 steps"),
        Section("exceptions", fn=fn_exceptions, bounds="43 kinds of exception raised at 7 points of a body"),
        Section("callables", fn=fn_shapes, bounds="bodies given as 11 kinds of callable"),
    ], ('straight-line',), __name__, ('base', 'exit'))
