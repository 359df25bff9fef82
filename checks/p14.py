"""P14: async option/result computations equal their desugaring under every schedule."""
import asyncio
import functools

from expression import Error, Nothing, Ok, Some, effect

from mc.core import Choices, Section, check, fail
from mc.raising import kinds as raising
from mc.shapes import shapes
from mc.simloop import run
from mc.values import NONE, Boom, Exc, Just, MErr, MOk, agree, alphabet, leaf_same, outcome, small

BOUNDS = ("all leaf programs up to 3 statements (quick) / 4 (thorough) and all programs of a compound statement (try/finally, "
          "try/except, loop, branch, nested computation; sub-blocks up to 2) with a leaf before and after, for all 3 builders, each "
          "with immediate, loop-yielding and externally completed awaits; 2 and 3 concurrent calls of one decorated function with "
          "every outcome combination under every completion order; cancellation at every suspension; 29-value alphabet; 5000 binds; 43 kinds of exception raised at 7 points of a body; bodies given as 11 kinds of callable")
ASSUMPTIONS = ["asyncio runs ready callbacks in FIFO order; all orders of external events are explored"]
T = "thorough"
BOOM = Boom("body")
ERR = ["e1"]


class B:
    def __init__(self, name, deco, succ, failure, mfail, msucc, zero):
        self.name, self.deco, self.succ, self.failure, self.mfail, self.msucc, self.zero = name, deco, succ, failure, mfail, msucc, zero


BUILDERS = [
    B("async_option", effect.async_option[int](), Some, Nothing, NONE, Just, NONE),
    B("async_result", effect.async_result[int, list](), Ok, Error(ERR), MErr(ERR), MOk, MOk(None)),
    B("async_try", effect.async_try[int](), Ok, Error(BOOM), MErr(BOOM), MOk, MOk(None)),
]


class R:
    """Runtime of one call: values, log, suspension pattern."""

    def __init__(self, b, susp, env, tag="", values=None):
        self.b, self.susp, self.env, self.tag = b, susp, env, tag
        self.log = []
        self.n = 0
        self.done_waits = 0
        self.values = values

    async def wait(self):
        i = self.n
        self.n += 1
        s = self.susp[i % len(self.susp)]
        if s == 1:
            await asyncio.sleep(0)
        elif s == 2:
            fut = asyncio.get_running_loop().create_future()
            self.env.add(f"{self.tag}{i}", lambda: fut.done() or fut.set_result(None), free=False)
            await fut
        self.done_waits += 1

    async def wsucc(self, v):
        await self.wait()
        return await self.b.succ(v)

    async def wfail(self):
        await self.wait()
        return await self.b.failure

    def call(self, prog):
        return compiled(prog, self.b)(self)


def emit(prog, ind, out, consts):
    p = "    " * ind
    for s in prog:
        k = s[0]
        out.append(f"{p}R.log.append({k!r})")
        if k == "bind":
            out.append(f"{p}x = yield await R.b.succ({s[1]!r})")
            out.append(f"{p}R.log.append(x)")
        elif k == "wbind":
            out.append(f"{p}x = yield await R.wsucc({s[1]!r})")
            out.append(f"{p}R.log.append(x)")
        elif k == "bindF":
            out.append(f"{p}x = yield await R.b.failure")
            out.append(f"{p}R.log.append('ran after a failure')")
        elif k == "wbindF":
            out.append(f"{p}x = yield await R.wfail()")
            out.append(f"{p}R.log.append('ran after a failure')")
        elif k == "wait":
            out.append(f"{p}await R.wait()")
        elif k == "yield":
            out.append(f"{p}x = yield {s[1]!r}")
            out.append(f"{p}R.log.append(x)")
        elif k == "ret":
            out.append(f"{p}return")
        elif k == "raise":
            out.append(f"{p}raise BOOM.with_traceback(None)")
        elif k == "fin":
            out.append(f"{p}try:")
            emit(s[1], ind + 1, out, consts)
            out.append(f"{p}finally:")
            out.append(f"{p}    R.log.append('finally')")
        elif k == "catch":
            out.append(f"{p}try:")
            emit(s[1], ind + 1, out, consts)
            out.append(f"{p}except Boom:")
            out.append(f"{p}    R.log.append('caught')")
        elif k == "loop":
            out.append(f"{p}for _ in range(2):")
            emit(s[1], ind + 1, out, consts)
        elif k == "if":
            out.append(f"{p}if x:")
            emit(s[1], ind + 1, out, consts)
        elif k == "call":
            consts.append(s[1])
            out.append(f"{p}r = await R.call(C[{len(consts) - 1}])")
            out.append(f"{p}x = yield await r")
            out.append(f"{p}R.log.append(x)")
        else:
            raise AssertionError(k)


@functools.cache
def body_of(prog):
    out, consts = [], []
    emit(prog, 1, out, consts)
    src = "async def computation(R):\n    x = None\n" + "\n".join(out) + "\n    if False:\n        yield None\n"
    ns = dict(BOOM=BOOM, Boom=Boom, C=consts)
    exec(compile(src, f"<program {prog}>", "exec"), ns)
    return ns["computation"]


_CACHE = {}


def compiled(prog, b):
    f = _CACHE.get((prog, b.name))
    if f is None:
        f = _CACHE[prog, b.name] = b.deco(body_of(prog))
    return f


class Fail(Exception):
    def __init__(self, m):
        self.m = m


class Ret(Exception):
    pass


class Cancel(BaseException):
    pass


class M:
    def __init__(self, b, cancel_at=None):
        self.b, self.cancel_at, self.log, self.waits = b, cancel_at, [], 0

    def wait(self):
        if self.waits == self.cancel_at:
            raise Cancel()
        self.waits += 1

    def block(self, prog, last):
        x = None
        for s in prog:
            k = s[0]
            self.log.append(k)
            if k == "wbindF":
                self.wait()
                raise Fail(self.b.mfail)
            if k == "bindF":
                raise Fail(self.b.mfail)
            if k == "wait":
                self.wait()
            elif k in ("bind", "wbind", "yield"):
                if k == "wbind":
                    self.wait()
                x = s[1]
                last[0] = self.b.msucc(x)
                self.log.append(x)
            elif k == "ret":
                raise Ret()
            elif k == "raise":
                raise BOOM.with_traceback(None)
            elif k == "fin":
                try:
                    x = self.sub(s[1], last, x)
                finally:
                    self.log.append("finally")
            elif k == "catch":
                last_x = [x]
                try:
                    self.sub(s[1], last, x, last_x)
                except Boom:
                    self.log.append("caught")
                x = last_x[0]
            elif k == "loop":
                for _ in range(2):
                    x = self.sub(s[1], last, x)
            elif k == "if":
                if x:
                    x = self.sub(s[1], last, x)
            elif k == "call":
                r = self.evaluate(s[1])
                if r is NONE or isinstance(r, MErr):
                    raise Fail(r)
                x = r.v
                last[0] = self.b.msucc(x)
                self.log.append(x)
        return x

    def sub(self, prog, last, x, keep=None):
        for s in prog:
            if s[0] in ("fin", "catch", "loop", "if"):
                raise AssertionError("one level of compound statements only")
            y = self.block((s,), last)
            if s[0] in ("bind", "wbind", "yield", "call"):
                x = y
                if keep is not None:
                    keep[0] = x
        return x

    def evaluate(self, prog):
        last = [self.b.zero]
        try:
            self.block(prog, last)
        except Fail as f:
            return f.m
        except Ret:
            pass
        return last[0]


def same_log(a, b, what):
    if len(a) != len(b) or not all(x is y or leaf_same(x, y) for x, y in zip(a, b)):
        fail(f"{what}: the program ran differently", ran=a, expected=b)


LEAF = [("bind", 1), ("yield", 0), ("yield", None), ("bindF",), ("raise",), ("ret",), ("wbind", 2), ("wbindF",), ("wait",)]
SUBLEAF = LEAF[:7]
COMP = ("fin", "catch", "loop", "if", "call")
SUBS = tuple((s,) for s in SUBLEAF) + tuple((s, t) for s in SUBLEAF for t in SUBLEAF)


def one(ch, st, b, prog, susp):
    prog = tuple(prog)
    m = M(b)
    r = outcome(m.evaluate, prog)
    exp = r[1] if r[0] == "ret" else Exc(r[1])
    holder = []

    async def main(loop, env):
        f = compiled(prog, b)
        rt = R(b, susp, env)
        holder.append(rt)
        return await f(rt)

    kind, val, loop = run(ch, main)
    check(kind in ("ret", "raise"), f"{b.name}: the computation ended as {kind}", program=prog)
    agree((kind, val), exp, f"{b.name} computation", program=prog, suspensions=susp)
    same_log(holder[0].log, m.log, f"{b.name} {prog}")
    check(not loop.unhandled, "an error was reported to the event loop", errors=loop.unhandled)
    st.step()
    return exp


def body_leaf(n):
    def body(ch, st):
        i = ch.choose(len(LEAF) * 3)
        b = BUILDERS[i % 3]
        prog = [LEAF[i // 3]]
        for _ in range(n - 1):
            k = ch.choose(len(LEAF) + 1)
            if not k:
                break
            prog.append(LEAF[k - 1])
        susp = ((0,), (1,), (2,), (2, 1))[ch.choose(4)] if any(s[0][0] == "w" for s in prog) else (0,)
        st.outcome((b.name, repr(one(ch, st, b, prog, susp))[:60]))
    return body


def body_comp(ch, st):
    k = COMP[ch.choose(len(COMP))]
    sub = SUBS[ch.choose(len(SUBS))]
    b = BUILDERS[ch.choose(3)]
    pre = ch.choose(len(LEAF) + 1)
    post = ch.choose(len(LEAF) + 1)
    prog = ([LEAF[pre - 1]] if pre else []) + [(k, sub)] + ([LEAF[post - 1]] if post else [])
    waits = any(s[0][0] == "w" for s in (*sub, *prog))
    susp = ((0,), (2,))[ch.choose(2)] if waits else (0,)
    st.outcome((b.name, repr(one(ch, st, b, prog, susp))[:60]))


# -- concurrent calls of one decorated function --------------------------------
OUTS = [("ok",), ("fail", 0), ("fail", 1), ("raise", 0), ("raise", 1)]


def body_concurrent(calls, steps):
    def body(ch, st):
        c = ch.choose(3 * len(OUTS))
        b = BUILDERS[c % 3]
        outs = [OUTS[c // 3]] + [OUTS[ch.choose(len(OUTS))] for _ in range(calls - 1)]
        logs = [[] for _ in range(calls)]

        def make():
            @b.deco
            async def f(tag, out, log, rt):
                acc = []
                try:
                    for i in range(steps):
                        await rt.wait()
                        log.append(("in", tag, i))
                        if out == ("raise", i):
                            raise BOOM.with_traceback(None)
                        x = yield await (b.failure if out == ("fail", i) else b.succ((tag, i)))
                        log.append(x)
                        acc.append(x)
                finally:
                    log.append("finally")
                yield tuple(acc)
            return f

        f = make()
        res = [None] * calls

        async def main(loop, env):
            rts = [R(b, (2,), env, tag="abc"[i]) for i in range(calls)]
            tasks = [asyncio.ensure_future(f("abc"[i], outs[i], logs[i], rts[i])) for i in range(calls)]
            for i, t in enumerate(tasks):
                try:
                    res[i] = ("ret", await t)
                except Boom as e:
                    res[i] = ("raise", e)

        kind, val, loop = run(ch, main)
        check(kind == "ret", f"ended as {kind} {val!r}", order=loop.trace)
        for i in range(calls):
            tag, out = "abc"[i], outs[i]
            elog = []
            exp = b.msucc(tuple((tag, k) for k in range(steps)))
            for k in range(steps):
                elog.append(("in", tag, k))
                if out == ("raise", k):
                    exp = Exc(BOOM)
                    break
                if out == ("fail", k):
                    exp = b.mfail
                    break
                elog.append((tag, k))
            elog.append("finally")
            agree(res[i], exp, f"{b.name}: concurrent call {tag}", order=loop.trace, outcomes=outs)
            same_log(logs[i], elog, f"{b.name}: concurrent call {tag}, order {loop.trace}")
            st.step()
        st.outcome((b.name, outs, loop.trace))
    return body


def body_cancel(ch, st):
    """The calling task is cancelled at every suspension, or a wait fails with an exception."""
    b = BUILDERS[ch.choose(3)]
    progs = [(("wbind", 1), ("wbind", 2), ("yield", 3)), (("fin", (("wbind", 1), ("wbind", 2))), ("wait",)),
             (("catch", (("wait",), ("wbind", 2))), ("wbind", 4)), (("call", (("wbind", 1), ("wait",))), ("wbind", 2)),
             (("loop", (("wbind", 1),)), ("yield", 0)), (("fin", (("call", (("wbind", 1),)), ("wait",))), ("bindF",)),
             (("wait",), ("wbindF",), ("bind", 1))]
    prog = progs[ch.choose(len(progs))]
    holder = {}

    async def main(loop, env):
        rt = holder["rt"] = R(b, (2,), env)
        t = asyncio.ensure_future(compiled(prog, b)(rt))

        def cancel():
            holder["at"] = rt.done_waits
            t.cancel()
        env.add("cancel", cancel, enabled=lambda: not t.done() and rt.n > rt.done_waits, free=False)
        try:
            return ("ret", await t)
        except asyncio.CancelledError:
            return ("cancelled", None)

    kind, val, loop = run(ch, main)
    check(kind == "ret", f"ended as {kind} {val!r}")
    m = M(b, cancel_at=holder.get("at"))
    try:
        exp = m.evaluate(prog)
    except Cancel:
        exp = None
    if exp is None:
        check(val[0] == "cancelled", "a cancelled computation went on", got=val, order=loop.trace)
    else:
        agree(val, exp, "computation", order=loop.trace)
    same_log(holder["rt"].log, m.log, f"{prog} cancelled in {loop.trace}")
    check(not loop.unhandled, "an error was reported to the event loop", errors=loop.unhandled)
    st.step()
    st.outcome((b.name, prog, loop.trace))


def drive(coro):
    async def main(loop, env):
        return await coro()
    kind, val, loop = run(Choices(), main)
    return (kind, val)


def body_payloads(ch, st):
    a = alphabet()
    v = a[ch.choose(len(a))]
    w = small()[ch.choose(len(small()))]
    b = BUILDERS[ch.choose(3)]
    seen = []

    @b.deco
    async def f(x, y=2, *z, k=None, **kw):
        p = yield x
        seen.append(p)
        q = yield await b.succ(y)
        seen.append(q)
        yield (p, q, z, k, kw)

    agree(drive(lambda: f(v)), b.msucc((v, 2, (), None, {})), "arguments")
    agree(drive(lambda: f(v, w, v, k=w, o=v)), b.msucc((v, w, (v,), w, {"o": v})), "arguments")
    same_log(seen, [v, 2, v, w], "values sent back")

    @b.deco
    async def last():
        yield v
        yield w

    agree(drive(last), b.msucc(w), "last yield")

    @b.deco
    async def plain(x):
        await asyncio.sleep(0)
        return x

    agree(drive(lambda: plain(v)), b.zero if v is None else b.msucc(v), "async body without yield")

    @b.deco
    def sync(x):
        return x

    if not hasattr(v, "__await__"):
        agree(drive(lambda: sync(v)), b.zero if v is None else b.msucc(v), "plain body")

    @b.deco
    async def bound(x):
        await asyncio.sleep(0)
        y = await b.succ(x)
        return y

    agree(drive(lambda: bound(v)), b.zero if v is None else b.msucc(v), "async body awaiting a success")
    if b.name != "async_option":
        for where in range(3):
            @b.deco
            async def bad():
                if where == 0:
                    yield 1
                if where == 2:
                    await asyncio.sleep(0)
                yield await Error(v)
                seen.append("ran on")
            agree(drive(bad), MErr(v), "failure payload")

            @b.deco
            async def bad2():
                if where:
                    await asyncio.sleep(0)
                x = await Error(v)
                seen.append("ran on")
                return x
            agree(drive(bad2), MErr(v), "failure payload without yield")
    else:
        @b.deco
        async def none():
            x = await Nothing
            seen.append("ran on")
            return x
        agree(drive(none), NONE, "absence without yield")
    check(len(seen) == 4, "ran past a failure", seen=seen[4:])

    @b.deco
    async def raising():
        await asyncio.sleep(0)
        raise BOOM.with_traceback(None)
    agree(drive(raising), Exc(BOOM), "exception from a body without yield")
    st.step(8)
    st.outcome((b.name, type(v).__name__, type(w).__name__))


def fn_long(st, tier):
    for b in BUILDERS:
        for n in (0, 1, 2, 10, 100, 999, 1000, 1001, 5000, 20000):
            @b.deco
            async def total(stop_at):
                acc = 0
                for i in range(n):
                    if i == stop_at:
                        yield await b.failure
                    x = yield await b.succ(i)
                    acc += x
                yield acc
            agree(drive(lambda: total(-1)), b.msucc(n * (n - 1) // 2), f"{n} binds")
            if n:
                agree(drive(lambda: total(n - 1)), b.mfail, f"failure after {n - 1} binds")
            st.step(2)
            st.outcome((b.name, n))

        @b.deco
        async def rec(n, bad):
            if n == bad:
                yield await b.failure
            if n == 0:
                yield 100
                return
            r = await rec(n - 1, bad)
            x = yield await r
            y = yield await b.succ(n)
            yield x + y
        for n in (0, 1, 2, 3, 20, 50):
            agree(drive(lambda: rec(n, -1)), b.msucc(100 + n * (n + 1) // 2), f"recursion {n}")
            for bad in {0, n // 2, n}:
                agree(drive(lambda: rec(n, bad)), b.mfail, f"recursion {n} failing at {bad}")
        st.step(6)

        @b.deco
        async def named():
            """the doc"""
            yield 1
        check(named.__name__ == "named" and named.__doc__ == "the doc", "the decorated function lost its name")
        st.executions += 1


class Later:
    def __await__(self):
        yield


def by_hand(coro):
    try:
        while True:
            coro.send(None)
    except StopIteration as e:
        return ("ret", e.value)
    except BaseException as e:  # noqa: BLE001
        return ("raise", e)


def fn_exceptions(st, tier):
    """An exception of any kind, raised at any point of a body, reaches the caller as it is, once cleanup has run; the next call is not affected."""
    for b in BUILDERS:
        for e in raising():
            for susp in (False, True):
                log = []

                async def wait():
                    if susp:
                        await Later()

                async def helper():
                    await wait()
                    raise e.with_traceback(None)

                class Bad:
                    def __await__(self):
                        if susp:
                            yield
                        raise e.with_traceback(None)

                @b.deco
                async def nested():
                    yield await b.succ(1)
                    await helper()

                @b.deco
                async def g(where):
                    try:
                        await wait()
                        if where == 0:
                            raise e.with_traceback(None)
                        x = yield await b.succ(1)
                        await wait()
                        if where == 1:
                            raise e.with_traceback(None)
                        y = yield 2
                        if where == 2:
                            await helper()
                        if where == 3:
                            yield await Bad()
                        if where == 4:
                            z = await nested()
                            yield await z
                        if where == 5:
                            try:
                                await helper()
                            except type(e) as got:
                                log.append(got is e)
                        yield (x, y)
                        if where == 6:
                            await helper()
                    finally:
                        await wait()
                        log.append("cleanup")

                @b.deco
                async def plain():
                    await helper()

                @b.deco
                def sync():
                    raise e.with_traceback(None)
                for where in (0, 1, 2, 3, 4, 6, 5, 7, 0):
                    log.clear()
                    agree(by_hand(g(where)), b.msucc((1, 2)) if where in (5, 7) else Exc(e), f"{b.name}: {type(e).__name__} raised at point {where}")
                    check(log == [True, "cleanup"] if where == 5 else log == ["cleanup"], "cleanup did not run once", log=log)
                    st.step()
                for f in (plain, nested, sync):
                    agree(by_hand(f()), Exc(e), f"{b.name}: {type(e).__name__} raised by a function")
                    st.step()
            st.outcome((b.name, type(e).__name__))
    st.executions += 1


def fn_shapes(st, tier):
    """Whatever kind of callable gives the body (a lambda, a partial, a wrapper, a callable object, a method), the computation is the same."""
    for b in BUILDERS:
        for susp in (False, True):
            async def gen(kind, x, *, k=0):
                if susp:
                    await Later()
                if kind == 0:
                    y = yield await b.succ(x)
                    yield (y, k)
                if kind == 1:
                    y = yield await b.failure
                    yield ("after", y)
                if kind == 2:
                    y = yield x
                    if susp:
                        await Later()
                    yield (y, k)
                if kind == 3:
                    yield x
                    raise BOOM.with_traceback(None)

            async def co(kind, x, *, k=0):
                if susp:
                    await Later()
                if kind == 3:
                    raise BOOM.with_traceback(None)
                if kind == 1:
                    x = await b.failure
                return (x, k)

            for x in small():
                exp = [b.msucc((x, 1)), b.mfail, b.msucc((x, 1)), Exc(BOOM)]
                for body in (gen, co):
                    for name, f in shapes(body):
                        d = b.deco(f)
                        for kind in (0, 1, 2, 3, 1, 0):
                            agree(by_hand(d(kind, x, k=1)), exp[kind], f"{b.name}: body {body.__name__} given as a {name}, program {kind}")
                            st.step()
        st.outcome(b.name)
    st.executions += 1


def sections(tier):
    t = tier == T
    return [
        Section("leaf-programs", body_leaf(4 if t else 3), shards=8, bounds="all leaf sequences x suspension kinds"),
        Section("compound-programs", body_comp, shards=5, bounds="compound statement with a leaf before and after"),
        Section("concurrent-2", body_concurrent(2, 2), shards=8, bounds="two calls, every completion order"),
        Section("concurrent-2x3", body_concurrent(2, 3), shards=8, bounds="two calls, 3 suspensions each"),
        Section("concurrent-3", body_concurrent(3, 2), shards=15, bounds="three calls, every completion order"),
        Section("concurrent-3x1", body_concurrent(3, 1), shards=8, bounds="three calls, one suspension each"),
        Section("cancellation", body_cancel, shards=3, bounds="cancel at every suspension"),
        Section("payloads", body_payloads, shards=8, bounds="every alphabet value"),
        Section("long", fn=fn_long, bounds="up to 5000 binds"),
        Section("exceptions", fn=fn_exceptions, bounds="43 kinds of exception raised at 7 points of a body, suspending or not"),
        Section("callables", fn=fn_shapes, bounds="bodies given as 11 kinds of callable"),
    ]
