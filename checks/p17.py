"""P17: tail-recursive functions run in constant stack with plain recursion's result."""
import asyncio
import itertools
import sys

from expression import TailCall, tailrec, tailrec_async

from mc.core import Choices, Section, check, fail
from mc.simloop import run
from mc.values import Boom, Exc, Opaque, agree, alphabet, leaf_same, matches, outcome, small

BOUNDS = ("all tail-recursive programs over 3 states and 10 actions per state (return, return a falsy value, raise, tail call with "
          "positional/keyword/reused arguments, nested non-tail call of itself, call of another tail-recursive function, other calls while the tail call is held), every start "
          "state, fuel 0..5, sync and async; async: 2 and 3 interleaved calls under every resumption order, cancellation and failure at "
          "every suspension; recursion depth to 1000000 (5000000 thorough) with the stack depth measured; 29-value alphabet for arguments and results; every sequence of up to 4 calls over 8 argument shapes (no arguments at all to 30 positional and 20 keyword)")
ASSUMPTIONS = ["asyncio runs ready callbacks in FIFO order; all orders of external events are explored"]
T = "thorough"
BOOM = Boom("rec")
NA = 10


class SubCall(TailCall):
    """A user's own kind of tail call."""


class Stop(Exception):
    pass


def program(table, log, deco, call, other, later, finish):
    """Sync body; `call` is how the nested self-call is made."""
    def f(s, k, kw=None, *extra, key=None):
        log.append((s, k, kw, extra, key))
        if k == 0:
            return ("end", s)
        a = table[s]
        if a == 0:
            return ("ret", s, k)
        if a == 1:
            return None
        if a == 2:
            raise BOOM.with_traceback(None)
        if a == 3:
            return deco(((s + 1) % 3, k - 1), {})
        if a == 4:
            return deco((), dict(s=(s + 2) % 3, k=k - 1, kw=k, key=s))
        if a == 5:
            return deco(((s + 1) % 3, k - 1, "x", "y"), dict(key=k))
        if a == 6:
            r = call((s + 1) % 3, k - 1)
            return deco(((s + 2) % 3, k - 1, r), {})
        if a >= 8:  # the tail call is made ready, then other calls happen before it is returned
            c = later(((s + 1) % 3, k - 1, "ready"), {"key": k})
            if a == 8:
                other(k)
            else:
                call((s + 2) % 3, k - 1)
            return finish(c)
        r = other(k)
        return deco(((s + 1) % 3, k - 1, r), {})
    return f


def plain(table, log):
    """The undecorated recursion."""
    def deco(args, kw):
        return f(*args, **kw)

    def other(k):
        log.append(("other", k))
        return ("o", k) if k <= 1 else other(k - 1)
    f = program(table, log, deco, lambda *a: f(*a), other, lambda a, k: (a, k), lambda c: f(*c[0], **c[1]))
    return f


def real(table, log):
    def deco(args, kw):
        return (SubCall if len(args) == 4 else TailCall)(*args, **kw)

    @tailrec
    def other(k):
        log.append(("other", k))
        return ("o", k) if k <= 1 else TailCall(k - 1)
    g = tailrec(program(table, log, deco, lambda *a: g(*a), other, deco, lambda c: c))
    return g


def areal(table, log, hook=None):
    """Async twin, written out since awaits are needed at the nested calls."""
    @tailrec_async
    async def other(k):
        log.append(("other", k))
        if hook:
            await hook()
        return ("o", k) if k <= 1 else TailCall(k - 1)

    @tailrec_async
    async def f(s, k, kw=None, *extra, key=None):
        log.append((s, k, kw, extra, key))
        if hook:
            await hook()
        if k == 0:
            return ("end", s)
        a = table[s]
        if a == 0:
            return ("ret", s, k)
        if a == 1:
            return None
        if a == 2:
            raise BOOM.with_traceback(None)
        if a == 3:
            return TailCall((s + 1) % 3, k - 1)
        if a == 4:
            return TailCall(s=(s + 2) % 3, k=k - 1, kw=k, key=s)
        if a == 5:
            return SubCall((s + 1) % 3, k - 1, "x", "y", key=k)
        if a == 6:
            r = await f((s + 1) % 3, k - 1)
            return TailCall((s + 2) % 3, k - 1, r)
        if a >= 8:
            c = TailCall((s + 1) % 3, k - 1, "ready", key=k)
            if a == 8:
                await other(k)
            else:
                await f((s + 2) % 3, k - 1)
            return c
        r = await other(k)
        return TailCall((s + 1) % 3, k - 1, r)
    return f


def drive(mk, ch=None):
    async def main(loop, env):
        return await mk(env)
    kind, val, loop = run(ch or Choices(), main)
    check(not loop.unhandled, "an error was reported to the event loop", errors=loop.unhandled)
    return (kind, val)


def body_programs(fuel):
    def body(ch, st):
        t01 = ch.choose(NA * NA)
        table = (t01 // NA, t01 % NA, ch.choose(NA))
        for s in range(3):
            for k in range(fuel + 1):
                l1, l2, l3 = [], [], []
                e = outcome(plain(table, l1), s, k)
                exp = e[1] if e[0] == "ret" else Exc(BOOM)
                f = real(table, l2)
                agree(outcome(f, s, k), exp, "tailrec", table=table, start=s, fuel=k)
                check(l2 == l1, "tailrec ran the function differently", ran=l2, expected=l1)
                # the same decorated function again: calls are independent
                del l2[:]
                agree(outcome(lambda: f(k=k, s=s)), exp, "tailrec, called again", table=table, start=s, fuel=k)
                check(l2 == l1, "tailrec ran differently the second time", ran=l2, expected=l1)
                st.step(2)
                if k in (2, 3):
                    af = areal(table, l3)
                    agree(drive(lambda env: af(s, k)), exp, "tailrec_async", table=table, start=s, fuel=k)
                    check(l3 == l1, "tailrec_async ran the function differently", ran=l3, expected=l1)
                    st.step()
        st.outcome(table)
    return body


def body_interleave(calls, steps, hold=False):
    """Concurrent calls of one decorated async function, all resumption orders, one may fail or be cancelled."""
    def body(ch, st):
        outs = [ch.choose(4) for _ in range(calls)]  # ok, raise at the end, raise in the middle, cancelled
        logs = [[] for _ in range(calls)]
        res = [None] * calls

        async def main(loop, env):
            @tailrec_async
            async def f(tag, k, acc=()):
                fut = loop.create_future()
                env.add(f"{tag}{k}", lambda: fut.done() or fut.set_result(None), free=False)
                await fut
                logs[tag].append(k)
                if outs[tag] == 1 and k == 0 or outs[tag] == 2 and k == 1:
                    raise BOOM.with_traceback(None)
                if k == 0:
                    return (tag, acc)
                tc = TailCall(tag, k - 1, acc=(*acc, (tag, k)))
                if hold:  # suspend once more with the tail call in hand
                    fut2 = loop.create_future()
                    env.add(f"hold{tag}{k}", lambda: fut2.done() or fut2.set_result(None), free=False)
                    await fut2
                return tc
            tasks = [asyncio.ensure_future(f(i, steps - 1)) for i in range(calls)]
            for i, t in enumerate(tasks):
                if outs[i] == 3:
                    env.add(f"cancel{i}", t.cancel, enabled=lambda t=t: not t.done(), free=False)
            for i, t in enumerate(tasks):
                try:
                    res[i] = ("ret", await t)
                except Boom as e:
                    res[i] = ("raise", e)
                except asyncio.CancelledError:
                    res[i] = ("cancelled", None)

        kind, val, loop = run(ch, main)
        check(kind == "ret", f"ended as {kind} {val!r}", order=loop.trace)
        for i in range(calls):
            full = list(range(steps - 1, -1, -1))
            exp = (i, tuple((i, k) for k in range(steps - 1, 0, -1)))
            if outs[i] == 0 or (outs[i] == 3 and res[i][0] == "ret") or (outs[i] == 2 and steps == 1):
                agree(res[i], exp, f"call {i}", order=loop.trace)
                check(logs[i] == full, "wrong steps", got=logs[i])
            elif outs[i] in (1, 2):
                agree(res[i], Exc(BOOM), f"call {i}", order=loop.trace)
                check(logs[i] == full[:steps - (outs[i] == 2)], "wrong steps", got=logs[i])
            else:
                check(res[i][0] == "cancelled", "cancellation was lost", got=res[i])
                n = loop.trace.index(f"cancel{i}")
                check(logs[i] == full[:sum(1 for x in loop.trace[:n] if x.startswith(str(i)))], "a cancelled call went on", got=logs[i], order=loop.trace)
            st.step()
        st.outcome((outs, loop.trace))
    return body


def depth():
    f, n = sys._getframe(1), 0
    while f is not None:
        f, n = f.f_back, n + 1
    return n


def fn_deep(st, tier):
    seen = set()

    @tailrec
    def count(n, acc):
        if n % 97 == 0 and n < 100000:
            seen.add(depth())
        if n == 0:
            return acc
        return TailCall(n - 1, acc + n)

    for n in [*range(0, 12), 100, 500, 900, 990, 1000, 1100, 2000, 10000, 100000, 1000000] + ([5000000] if tier == T else []):
        seen.clear()
        got = outcome(count, n, 0)
        check(got == ("ret", n * (n + 1) // 2), f"tail recursion of depth {n}", got=got)
        check(len(seen) <= 2, "the stack grows with the recursion", depths=sorted(seen)[:5])
        st.step()

    @tailrec
    def kwonly(*, n, acc=0):
        return acc if n == 0 else TailCall(n=n - 1, acc=acc + 1)
    for n in (0, 1, 2, 1000, 50000):
        check(kwonly(n=n) == n, "keyword tail calls", n=n)

    # the arguments need not change from call to call: what ends the recursion may be elsewhere
    for vals in ((), (1,), (1, "a"), ([],), (None, 0)):
        for n in (1, 2, 3, 7, 1000, 3000):
            left = list(range(n))

            @tailrec
            def same(*a, **k):
                if not left:
                    return (a, k)
                left.pop()
                return TailCall(*a, **k)

            @tailrec_async
            async def asame(*a, **k):
                if not left:
                    return (a, k)
                left.pop()
                return TailCall(*a, **k)
            for kw in ({}, {"k": 1}):
                left[:] = range(n)
                got = outcome(same, *vals, **kw)
                check(got == ("ret", (vals, kw)), "tail calls with unchanged arguments", got=got, calls=n)
                left[:] = range(n)
                got = drive(lambda env: asame(*vals, **kw))
                check(got == ("ret", (vals, kw)), "async tail calls with unchanged arguments", got=got, calls=n)
                st.step(2)

    # mutually nested tail-recursive functions, and failure at depth
    @tailrec
    def bad(n):
        if n == 0:
            raise BOOM.with_traceback(None)
        return TailCall(n - 1)
    for n in (0, 1, 5, 20000):
        agree(outcome(bad, n), Exc(BOOM), f"exception at depth {n}")

    @tailrec_async
    async def acount(n, acc):
        if n % 97 == 0:
            seen.add(depth())
        if n % 1000 == 1:
            await asyncio.sleep(0)
        if n == 0:
            return acc
        return TailCall(n - 1, acc + n)
    for n in (0, 1, 2, 10, 900, 1000, 2000, 20000, 300000):
        seen.clear()
        got = drive(lambda env: acount(n, 0))
        check(got == ("ret", n * (n + 1) // 2), f"async tail recursion of depth {n}", got=got)
        check(len(seen) <= 4, "the stack grows with the async recursion", depths=sorted(seen)[:5])
        st.step()

    @tailrec_async
    async def abad(n):
        if n == 0:
            raise BOOM.with_traceback(None)
        return TailCall(n - 1)
    for n in (0, 1, 5, 5000):
        agree(drive(lambda env: abad(n)), Exc(BOOM), f"exception at depth {n}")
    check(count.__name__ == "count" and acount.__name__ == "acount", "names")
    st.executions += 1


def body_values(ch, st):
    """Arguments and results pass through unchanged; a TailCall object can be reused."""
    a = alphabet()
    v = a[ch.choose(len(a))]
    w = small()[ch.choose(len(small()))]
    got = []

    @tailrec
    def f(k, x, *y, z=None, **kw):
        got.append((x, y, z, tuple(kw.items())))
        if k == 0:
            return x
        return TailCall(k - 1, x, *y, z=z, **kw)

    for k in range(4):
        del got[:]
        r = outcome(f, k, v, w, v, z=w, args=v, fn=w)
        check(r[0] == "ret" and r[1] is v, "the result is another object", value=v, got=r)
        exp = (v, (w, v), w, (("args", v), ("fn", w)))
        check(len(got) == k + 1 and all(matches(g, exp) for g in got), "arguments changed on the way", got=got)
        st.step()

    @tailrec_async
    async def g(k, x, *y, z=None, **kw):
        got.append((x, y, z, tuple(kw.items())))
        if k == 0:
            return x
        return TailCall(k - 1, x, *y, z=z, **kw)

    for k in range(3):
        del got[:]
        r = drive(lambda env: g(k, v, w, v, z=w, args=v, fn=w))
        check(r[0] == "ret" and r[1] is v, "the result is another object", value=v, got=r)
        check(len(got) == k + 1 and all(matches(q, exp) for q in got), "arguments changed on the way", got=got)
        st.step()
    # one TailCall object used again and again
    shared = TailCall(0, v, key=w)
    n = []

    @tailrec
    def h(k, x, key=None):
        n.append((k, x, key))
        return shared if k else (x, key)
    for _ in range(3):
        r = outcome(h, 1, None)
        check(r[0] == "ret" and r[1][0] is v and r[1][1] is w, "a reused TailCall", got=r)

    @tailrec_async
    async def ah(k, x, key=None):
        return shared if k else (x, key)
    for _ in range(2):
        r = drive(lambda env: ah(1, None))
        check(r[0] == "ret" and r[1][0] is v and r[1][1] is w, "a reused TailCall (async)", got=r)
    st.step(5)
    st.outcome((type(v).__name__, type(w).__name__))


SHAPES = [((), {}), ((0,), {}), ((None,), {}), ((), {"a": 0}), ((), {"fn": None, "bouncer": 1}), ((1, 2), {"b": ()}), (((), {}), {"args": (), "kw": {}}),
          (tuple(range(30)), {f"k{i}": i for i in range(20)})]


def body_shapes(ch, st):
    """Tail calls of every argument shape, none included, in every sequence; the state lives outside."""
    length = ch.choose(4)
    plan = [SHAPES[ch.choose(len(SHAPES))] for _ in range(length + 1)]
    end = [None, 0, "", [], Opaque("end")][ch.choose(5)]
    sub = ch.choose(2)
    make = SubCall if sub else TailCall

    def step(log, args, kw):
        log.append((args, kw))
        i = len(log)
        if i > length:
            return end
        a, k = plan[i]
        return make(*a, **k)

    def test(what, call, log):
        r = call()
        check(r[0] == "ret" and r[1] is end, f"{what}: the result", got=r, plan=plan)
        check(len(log) == length + 1, f"{what}: number of calls", plan=plan, got=log)
        for (a, k), (b, q) in zip(plan, log):
            check(a == b and k == q and list(k) == list(q) and all(x is y for x, y in zip(a, b)), f"{what}: arguments of a call", plan=plan, got=log)
        st.step(length + 1)

    log = []

    @tailrec
    def f(*args, **kw):
        return step(log, args, kw)
    a0, k0 = plan[0]
    for _ in range(2):
        del log[:]
        test("tailrec", lambda: outcome(f, *a0, **k0), log)

    @tailrec_async
    async def g(*args, **kw):
        return step(log, args, kw)
    for _ in range(2):
        del log[:]
        test("tailrec_async", lambda: drive(lambda env: g(*a0, **k0)), log)

    class Holder:
        @tailrec
        def m(self, *args, **kw):
            r = step(log, args, kw)
            return type(r)(self, *r.args, **r.kw) if isinstance(r, TailCall) else r
    del log[:]
    test("method", lambda: outcome(Holder().m, *a0, **k0), log)
    st.outcome((length, sub))


def sections(tier):
    t = tier == T
    return [
        Section("programs", body_programs(5 if t else 4), shards=8, bounds="all 1000 programs x start states x fuel"),
        Section("interleaved-2", body_interleave(2, 3), shards=4, bounds="two calls, every resumption order"),
        Section("interleaved-3", body_interleave(3, 2), shards=4, bounds="three calls, every resumption order"),
        Section("interleaved-hold", body_interleave(2, 3, True), shards=4, bounds="two calls that suspend with the tail call in hand"),
        Section("interleaved-deep", body_interleave(3, 3), shards=4, tiers=("thorough",), bounds="three calls of 3 steps"),
        Section("values", body_values, shards=8, bounds="every alphabet value"),
        Section("shapes", body_shapes, shards=8, bounds="every sequence of up to 4 calls over 8 argument shapes"),
        Section("deep", fn=fn_deep, bounds="to 1000000 tail calls"),
    ]
