"""P20: disposables run their action exactly once."""
import asyncio
import itertools

from expression.system import (AnonymousDisposable, AsyncAnonymousDisposable, AsyncCompositeDisposable, AsyncDisposable, Disposable,
                               ObjectDisposedException, OperationCanceledError)

from mc import sched, simloop
from mc.core import Section, check, fail

BOUNDS = ("sync: every history of up to 6 (quick) / 7 (thorough) dispose/enter/exit/raise operations over two disposables; 2..3 threads of 1..2 "
          "operations at every shared-state bytecode, up to 2 preemptions (quick) / 4 (thorough); async: 1..3 (quick) / 4 (thorough) tasks disposing "
          "directly, by async with, with raising or cancelled disposers, the action suspending 0..2 times, every order of completions; "
          "composites of 0..4 members, nested, disposed by 1..3 tasks, members of any truth, equality and hash; 17 kinds of exceptions raised by "
          "the block or the action, each kind of disposable")
ASSUMPTIONS = ["when a member of a composite raises, the remaining members need only be disposed by disposing the composite again",
               "members of a composite that is disposed several times are themselves once-only disposables",
               "thread switches happen between bytecodes that touch shared state"]


class Act(Exception):
    pass


class Body(Exception):
    pass


CREATE = [Disposable.create, AnonymousDisposable]


# --- sequential ---------------------------------------------------------------------
def body_history(depth):
    def body(ch, st):
        mk = CREATE[ch.choose(2)]
        mode = ch.choose(3)  # action: plain, raising, re-entrant
        runs = [0, 0]
        ds = []

        def action(i):
            def f():
                runs[i] += 1
                if mode == 1:
                    raise Act(i)
                if mode == 2:
                    ds[i].dispose()
                    ds[1 - i].dispose()
            return f

        ds.append(mk(action(0)))
        ds.append(mk(action(1)))
        disposed = [False, False]
        check(runs == [0, 0], "an action ran at creation")

        def expect_dispose(i):
            first = not disposed[i]
            disposed[i] = True
            if mode == 2 and first:
                disposed[1 - i] = True
            return first

        for _ in range(depth):
            k = ch.choose(6)
            if k == 5:
                break
            i = k % 2 if k < 4 else 0
            if k < 2:
                first = expect_dispose(i)
                try:
                    r = ds[i].dispose()
                    check(not (mode == 1 and first), "a failing action's exception was swallowed")
                    check(r is None, "dispose returns something")
                except Act:
                    check(mode == 1 and first, "the action ran again or raised unexpectedly")
            elif k < 4:
                err = Body("b")
                raising = k == 3
                was = disposed[i]
                inside = False
                try:
                    with ds[i] as e:
                        inside = True
                        check(e is ds[i], "with binds something else than the disposable")
                        check(not was, "entering a disposed disposable is not reported")
                        before = list(runs)
                        expect_dispose(i)
                        check(runs == before, "the action ran while entering")
                        if raising:
                            raise err
                    check(not raising or was, "an exception of the body was swallowed")
                    check(not (mode == 1 and not was), "a failing action's exception was swallowed")
                except ObjectDisposedException:
                    check(was and not inside, "a live disposable cannot be entered")
                except Body as e2:
                    check(e2 is err and mode != 1, "wrong exception")
                except Act:
                    check(mode == 1 and not was, "the action ran again")
            else:
                # dispose inside the block, then leave it
                was = disposed[0]
                try:
                    with ds[0]:
                        check(not was, "entering a disposed disposable is not reported")
                        expect_dispose(0)
                        try:
                            ds[0].dispose()
                        except Act:
                            pass
                        check(runs[0] == 1, "dispose inside the block did not run the action")
                except ObjectDisposedException:
                    check(was, "a live disposable cannot be entered")
            check(runs == [int(d) for d in disposed], "actions did not run exactly once per disposed disposable", runs=runs, disposed=disposed,
                  mode=mode)
            st.step()
        st.outcome((mode, disposed))
    return body


class Custom(Disposable):
    def __init__(self):
        self.n = 0

    def dispose(self):
        self.n += 1


def fn_custom(st, tier):
    for raising in (False, True):
        c = Custom()
        try:
            with c as e:
                check(e is c and c.n == 0, "with on a custom disposable")
                if raising:
                    raise Body()
        except Body:
            check(raising, "?")
        else:
            check(not raising, "the body's exception was swallowed")
        check(c.n == 1, "leaving the block does not dispose exactly once", n=c.n)
        st.step()
    runs = []
    ds = [Disposable.create(lambda i=i: runs.append(i)) for i in range(300)]
    for d in reversed(ds):
        d.dispose()
    for d in ds:
        d.dispose()
    check(runs == list(reversed(range(300))), "independent disposables interfere")
    st.outcome("custom")


# --- threads ----------------------------------------------------------------------
def body_threads(combos):
    def body(ch, st):
        progs = combos[ch.choose(len(combos))]
        mode = ch.choose(2)
        runs = []
        t = [0]

        def tick():
            t[0] += 1
            return t[0]

        disp = []   # [s, e]
        enters = []  # (s, e, ok)
        excs = []

        def action():
            runs.append(tick())
            sched.point()
            if mode == 1:
                raise Act()

        d = Disposable.create(action)

        def do_dispose():
            i = [tick(), None]
            disp.append(i)
            try:
                d.dispose()
            except Act:
                excs.append(1)
            i[1] = tick()

        def do_with():
            s = tick()
            i = None
            try:
                with d:
                    enters.append((s, tick(), True))
                    i = [tick(), None]
                    disp.append(i)
            except ObjectDisposedException:
                enters.append((s, tick(), False))
            except Act:
                excs.append(1)
            if i:
                i[1] = tick()

        def mkprog(p):
            def run():
                for o in p:
                    (do_dispose if o == "D" else do_with)()
            return run

        res, s = sched.run(ch, [(f"T{i}", mkprog(p)) for i, p in enumerate(progs)])
        for n, r in res.items():
            if r[0] != "ret":
                fail(f"thread {n} failed: {type(r[1]).__name__}: {r[1]}", progs=progs, schedule=s.trace)
        ctx = dict(progs=progs, schedule=s.trace, disposals=disp, runs=runs, enters=enters)
        check(len(runs) == (1 if disp else 0), f"the action ran {len(runs)} times", **ctx)
        if disp:
            first = min(i[0] for i in disp)
            check(runs[0] > first, "the action ran before the first disposal", **ctx)
            check(len(excs) == (1 if mode else 0), "the exception of the action was reported the wrong number of times", n=len(excs), **ctx)
            for a in disp:
                if all(b is a or b[0] > a[1] for b in disp):
                    check(runs[0] < a[1], "the first disposal returned before the action ran", **ctx)
            done = min(i[1] for i in disp)
            for es, ee, ok in enters:
                if es > done:
                    check(not ok, "a disposed disposable could be entered", **ctx)
                if ee < first:
                    check(ok, "a live disposable could not be entered", **ctx)
        st.step(len(disp) + len(enters))
        st.outcome((progs, mode, len(runs), sorted(e[2] for e in enters)))
    return body


def body_blocking(ch, st):
    """The action waits for another thread that disposes, too: nobody hangs."""
    how = ch.choose(2)
    runs, done, started = [], [], []

    def action():
        runs.append(1)
        started.append(1)
        if len(runs) == 1:
            sched.wait_until(lambda: bool(done))

    d = Disposable.create(action)

    def other():
        sched.wait_until(lambda: bool(started))
        if how == 0:
            d.dispose()
        else:
            try:
                with d:
                    pass
                fail("a disposable that is being disposed can be entered")
            except ObjectDisposedException:
                pass
        done.append(1)

    res, s = sched.run(ch, [("first", d.dispose), ("other", other)])
    for n, r in res.items():
        if r[0] != "ret":
            fail(f"thread {n} failed: {type(r[1]).__name__}: {r[1]}", schedule=s.trace)
    check(len(runs) == 1, "the action did not run exactly once", runs=len(runs))
    st.step()
    st.outcome(how)


# --- async -------------------------------------------------------------------------
def body_async(maxtasks):
    def body(ch, st):
        c = ch.choose(18)
        mk = AsyncDisposable.create if c % 2 else AsyncAnonymousDisposable
        susp = c // 2 % 3
        mode = c // 6  # plain, raising at end, re-entrant
        n = 1 + ch.choose(maxtasks)
        kinds = [ch.choose(3) for _ in range(n)]  # dispose, async with, async with raising body
        cancel = ch.choose(2) if n > 1 else ch.choose(2)
        runs = []
        entered = []
        t = [0]

        def tick():
            t[0] += 1
            return t[0]

        disp, enters, acts = [], [], []
        holder = {}

        async def main(loop, env):
            async def action():
                runs.append(tick())
                for i in range(susp):
                    fut = loop.create_future()
                    env.add(f"resume{i}", lambda fut=fut: fut.done() or fut.set_result(None))
                    await fut
                if mode == 2:
                    await holder["d"].dispose_async()
                if mode == 1:
                    raise Act()

            d = holder["d"] = mk(action)
            check(not runs, "the action ran at creation")

            async def disposer(kind):
                if kind == 0:
                    i = [tick(), None]
                    disp.append(i)
                    try:
                        await d.dispose_async()
                    except Act:
                        acts.append(1)
                    i[1] = tick()
                    return
                s = tick()
                i = None
                err = Body("b")
                try:
                    async with d as e:
                        check(e is d, "async with binds something else")
                        enters.append((s, tick(), True))
                        if ch.flag():
                            fut = loop.create_future()
                            env.add("body", lambda: fut.done() or fut.set_result(None))
                            try:
                                await fut
                            finally:
                                i = [tick(), None]
                                disp.append(i)
                        else:
                            i = [tick(), None]
                            disp.append(i)
                        if kind == 2:
                            raise err
                    check(kind != 2, "the body's exception was swallowed")
                except ObjectDisposedException:
                    enters.append((s, tick(), False))
                except Body as e2:
                    check(e2 is err, "wrong exception")
                except Act:
                    acts.append(1)
                if i:
                    i[1] = tick()

            tasks = [loop.create_task(disposer(k)) for k in kinds]
            if cancel:
                env.add("cancel0", lambda: tasks[0].cancel(), enabled=lambda: not tasks[0].done())
            res = await asyncio.gather(*tasks, return_exceptions=True)
            for r in res:
                if isinstance(r, BaseException) and not isinstance(r, asyncio.CancelledError):
                    raise r
            return "done"

        kind, val, loop = simloop.run(ch, main, drain=False)
        ctx = dict(kinds=kinds, susp=susp, mode=mode, trace=loop.trace, runs=runs, disposals=disp, enters=enters)
        if kind == "raise":
            raise val
        check(kind == "ret", f"disposing never completes ({kind})", **ctx)
        check(not loop.unhandled, "unhandled errors in the loop", ctx=[str(u) for u in loop.unhandled])
        check(len(runs) == (1 if disp else 0), f"the action ran {len(runs)} times", **ctx)
        if disp:
            first = min(i[0] for i in disp)
            check(runs[0] > first, "the action ran before the first disposal", **ctx)
            if not cancel:
                check(len(acts) == (1 if mode == 1 else 0), "the action's exception was reported the wrong number of times", n=len(acts), **ctx)
            done = [i[1] for i in disp if i[1] is not None]
            for es, ee, ok in enters:
                if done and es > min(done):
                    check(not ok, "a disposed disposable could be entered", **ctx)
                if ee < first:
                    check(ok, "a live disposable could not be entered", **ctx)
        st.step(len(disp) + len(enters))
        st.outcome((mode, susp, kinds, len(runs), loop.trace))
    return body


class Raw(AsyncDisposable):
    """A member that counts every call."""

    def __init__(self, log, name, gate):
        self.log, self.name, self.gate = log, name, gate

    async def dispose_async(self):
        self.log.append(("start", self.name))
        await self.gate()
        self.log.append(("end", self.name))


def body_composite(maxn):
    def body(ch, st):
        shape = ch.choose(3)  # flat, nested, static factory
        n = ch.choose(maxn + 1)
        raw = ch.flag()
        ntasks = 1 if raw else 1 + ch.choose(3)
        pre = ch.choose(n + 1) if not raw else n  # one member disposed beforehand (n = none)
        susp = [ch.flag() for _ in range(min(n, 2))] + [False] * max(0, n - 2)
        withm = ch.flag()
        log = []

        async def main(loop, env):
            def gate(i):
                async def g():
                    if susp[i]:
                        fut = loop.create_future()
                        env.add(f"m{i}", lambda: fut.done() or fut.set_result(None))
                        await fut
                return g

            def member(i):
                if raw:
                    return Raw(log, i, gate(i))

                async def action():
                    log.append(("start", i))
                    await gate(i)()
                    log.append(("end", i))
                return AsyncDisposable.create(action)

            ms = [member(i) for i in range(n)]
            if shape == 0:
                c = AsyncCompositeDisposable(*ms)
            elif shape == 1:
                c = AsyncDisposable.composite(AsyncDisposable.composite(*ms[:n // 2]), AsyncDisposable.empty(), AsyncCompositeDisposable(*ms[n // 2:]))
            else:
                c = AsyncDisposable.composite(*ms)
            check(not log, "a member was disposed when the composite was built")
            if pre < n:
                await ms[pre].dispose_async()

            async def dispose():
                if withm:
                    async with c:
                        pass
                else:
                    await c.dispose_async()
                if ntasks == 1:
                    check([x for x in log if x[0] == "end"].__len__() == n, "disposing the composite returned before its members were disposed", log=log)

            tasks = [loop.create_task(dispose()) for _ in range(ntasks)]
            await asyncio.gather(*tasks)
            return "done"

        kind, val, loop = simloop.run(ch, main)
        if kind == "raise":
            raise val
        check(kind == "ret", f"disposing a composite never completes ({kind})", log=log)
        starts = [x[1] for x in log if x[0] == "start"]
        exp = list(range(n))
        if pre < n:
            exp.remove(pre)
            exp.insert(0, pre)
        check(starts == exp, "members were not disposed exactly once in order", got=starts, expected=exp, tasks=ntasks, trace=loop.trace)
        if ntasks == 1 and pre == n:
            check(log == [x for i in range(n) for x in (("start", i), ("end", i))], "members were not disposed one after the other", log=log)
        st.step(n)
        st.outcome((shape, n, raw, ntasks, pre, susp, loop.trace))
    return body


def fn_async_more(st, tier):
    async def main(loop, env):
        e = AsyncDisposable.empty()
        await e.dispose_async()
        await e.dispose_async()
        try:
            async with e:
                fail("a disposed empty disposable could be entered")
        except ObjectDisposedException:
            pass
        # disposables made alike are still separate: disposing one leaves the others as they were
        async def act():
            pass

        for make in (AsyncDisposable.empty, lambda: AsyncDisposable.create(act), lambda: AsyncAnonymousDisposable(act)):
            a, b = make(), make()
            await a.dispose_async()
            c = make()
            for x in (b, c):
                async with x as y:
                    check(y is x, "a separate disposable could not be entered")
                try:
                    async with x:
                        fail("a disposable could be entered after its block ended")
                except ObjectDisposedException:
                    pass
            async with AsyncDisposable.composite(a, make()):
                pass
            st.step(4)
        for n in list(range(0, 20)) + [100, 500, 3000]:
            log = []

            def mk(i):
                async def f():
                    log.append(i)
                return AsyncDisposable.create(f)
            ms = [mk(i) for i in range(n)]
            c = AsyncDisposable.composite(*ms)
            await c.dispose_async()
            check(log == list(range(n)), "composite order", n=n, log=log)
            await c.dispose_async()
            for m in ms:
                await m.dispose_async()
            check(log == list(range(n)), "composite members ran again", n=n)
            st.step()
        # a member that raises: disposing again (until it does not raise) has disposed every member exactly once
        for n in range(1, 6):
            for bad in range(1 << n):
                for build in (lambda ms: AsyncDisposable.composite(*ms), lambda ms: AsyncCompositeDisposable(*ms),
                              lambda ms: AsyncDisposable.composite(AsyncDisposable.composite(*ms[:n // 2]), AsyncDisposable.composite(*ms[n // 2:]))):
                    log = []

                    def mkb(i):
                        async def f():
                            log.append(i)
                            if bad >> i & 1:
                                raise Body(i)
                        return AsyncDisposable.create(f)
                    c = build([mkb(i) for i in range(n)])
                    for _ in range(n + 1):
                        try:
                            await c.dispose_async()
                        except Exception as e:
                            check(type(e) is Body or isinstance(e, ExceptionGroup), "another exception than the member's", got=e)
                    check(sorted(log) == list(range(n)), "a composite disposed again and again did not dispose every member exactly once",
                          n=n, raising=bad, log=log)
                    st.step()
        # the same member twice
        log = []

        async def f():
            log.append(1)
        m = AsyncDisposable.create(f)
        await AsyncDisposable.composite(m, m, AsyncDisposable.composite(m)).dispose_async()
        check(log == [1], "a member listed twice ran more than once", log=log)
        return 1
    from mc.core import Choices
    kind, val, loop = simloop.run(Choices(), main)
    if kind == "raise":
        raise val
    check(kind == "ret", "async disposables hang")
    st.outcome("more")


# --- exits: every kind of exception, every kind of disposable, members of every kind ---
KINDS = [Body, ObjectDisposedException, OperationCanceledError, asyncio.CancelledError, StopIteration, StopAsyncIteration, KeyboardInterrupt,
         SystemExit, GeneratorExit, RuntimeError, AttributeError, KeyError, TypeError, ValueError, AssertionError, TimeoutError, NotImplementedError]


class Odd(AsyncDisposable):
    """A member whose truth, length, equality and hash are of no use."""

    __hash__ = None

    def __init__(self, log, name):
        self.log, self.name = log, name

    def __bool__(self):
        return False

    def __len__(self):
        return 0

    def __eq__(self, o):
        return True

    async def dispose_async(self):
        self.log.append(self.name)


class OddSync(Custom):
    __hash__ = None

    def __bool__(self):
        return False

    def __len__(self):
        return 0

    def __eq__(self, o):
        return True


def _drive(coro):
    """Run a coroutine that never suspends."""
    try:
        coro.send(None)
    except StopIteration as e:
        return e.value
    coro.close()
    fail("a disposal that has nothing to wait for suspends")


def fn_exits(st, tier):
    from expression.system import CancellationTokenSource

    def sync_makers():
        def anon(mk):
            def f(boom=None):
                runs = []

                def action():
                    runs.append(1)
                    if boom:
                        raise boom
                return mk(action), lambda: len(runs)
            return f

        def custom(cls):
            def f(boom=None):
                c = cls()
                return c, lambda: c.n
            return f

        def source(boom=None):
            c = CancellationTokenSource()
            runs = []
            c.token.register(lambda: runs.append(1))
            return c, lambda: len(runs)
        return [("create", anon(Disposable.create), 1), ("class", anon(AnonymousDisposable), 1), ("custom", custom(Custom), 0),
                ("odd", custom(OddSync), 0), ("source", source, 0)]

    for name, mk, canfail in sync_makers():
        for kind in KINDS:
            err = kind()
            d, runs = mk()
            try:
                with d:
                    check(runs() == 0, f"{name}: the action ran before the end of the block")
                    raise err
            except BaseException as e:  # noqa: BLE001
                check(e is err, f"{name}: the block ended with another exception than the body's", body=kind.__name__, got=repr(e))
            else:
                fail(f"{name}: an exception of the body was swallowed", kind=kind.__name__)
            check(runs() == 1, f"{name}: the action did not run exactly once", kind=kind.__name__, runs=runs())
            if canfail:
                for how in ("dispose", "with", "with raising"):
                    boom = kind()
                    d, runs = mk(boom)
                    try:
                        if how == "dispose":
                            d.dispose()
                        else:
                            with d:
                                if how != "with":
                                    raise Body()
                    except BaseException as e:  # noqa: BLE001
                        check(e is boom, f"{name}: a failing action's exception was replaced", kind=kind.__name__, got=repr(e), how=how)
                    else:
                        fail(f"{name}: a failing action's exception was swallowed", kind=kind.__name__, how=how)
                    d.dispose()
                    d.dispose()
                    try:
                        with d:
                            fail(f"{name}: a disposable whose action failed can be entered", kind=kind.__name__)
                    except ObjectDisposedException:
                        pass
                    check(runs() == 1, f"{name}: a failed action ran again", kind=kind.__name__, runs=runs())
                    st.step()
            st.step()

    def amakers():
        def anon(mk):
            def f(boom=None):
                runs = []

                async def action():
                    runs.append(1)
                    if boom:
                        raise boom
                return mk(action), lambda: len(runs)
            return f

        def comp(mk):
            def f(boom=None):
                runs = []

                async def action():
                    runs.append(1)
                    if boom:
                        raise boom
                return mk(AsyncDisposable.empty(), AsyncDisposable.create(action)), lambda: len(runs)
            return f

        def odd(boom=None):
            log = []
            return Odd(log, 1), lambda: len(log)
        return [("async create", anon(AsyncDisposable.create), 2), ("async class", anon(AsyncAnonymousDisposable), 2),
                ("composite", comp(AsyncDisposable.composite), 1), ("composite class", comp(AsyncCompositeDisposable), 1), ("odd", odd, 0)]

    for name, mk, canfail in amakers():
        for kind in KINDS:
            if kind in (StopIteration, StopAsyncIteration):
                continue
            err = kind()
            d, runs = mk()

            async def block():
                async with d:
                    check(runs() == 0, f"{name}: the action ran before the end of the block")
                    raise err
            try:
                _drive(block())
            except BaseException as e:  # noqa: BLE001
                check(e is err, f"{name}: the block ended with another exception than the body's", body=kind.__name__, got=repr(e))
            else:
                fail(f"{name}: an exception of the body was swallowed", kind=kind.__name__)
            check(runs() == 1, f"{name}: the action did not run exactly once", kind=kind.__name__, runs=runs())
            if canfail:
                for how in ("dispose", "with", "with raising"):
                    boom = kind()
                    d, runs = mk(boom)

                    async def failing():
                        if how == "dispose":
                            await d.dispose_async()
                        else:
                            async with d:
                                if how != "with":
                                    raise Body()
                    try:
                        _drive(failing())
                    except BaseException as e:  # noqa: BLE001
                        check(e is boom, f"{name}: a failing action's exception was replaced", kind=kind.__name__, got=repr(e), how=how)
                    else:
                        fail(f"{name}: a failing action's exception was swallowed", kind=kind.__name__, how=how)
                    _drive(d.dispose_async())
                    if canfail == 2:
                        async def enter():
                            async with d:
                                fail(f"{name}: a disposable whose action failed can be entered", kind=kind.__name__)
                        try:
                            _drive(enter())
                        except ObjectDisposedException:
                            pass
                    check(runs() == 1, f"{name}: a failed action ran again", kind=kind.__name__, runs=runs())
                    st.step()
            st.step()

    for mk in (AsyncDisposable.composite, AsyncCompositeDisposable):
        for n in range(5):
            for pattern in itertools.product((False, True), repeat=n):
                log = []

                def plain(i):
                    async def f():
                        log.append(i)
                    return AsyncDisposable.create(f)
                ms = [Odd(log, i) if p else plain(i) for i, p in enumerate(pattern)]
                _drive(mk(*ms).dispose_async())
                check(log == list(range(n)), "members of a composite were not all disposed once in order", got=log, odd=pattern)
                st.step()
    st.outcome("exits")


def sections(tier):
    th = tier == "thorough"
    P = [p for n in (1, 2) for p in itertools.product("DW", repeat=n)]
    c2 = list(itertools.combinations_with_replacement(P, 2))
    c3 = list(itertools.combinations_with_replacement([("D",), ("W",)], 3))
    return [
        Section("history", body_history(7 if th else 6), shards=2),
        Section("custom", fn=fn_custom),
        Section("exits", fn=fn_exits),
        Section("two-threads", body_threads(c2), dev_bound=4 if th else 2, shards=len(c2)),
        Section("three-threads", body_threads(c3), dev_bound=3 if th else 2, shards=len(c3)),
        Section("blocking-action", body_blocking, dev_bound=3, shards=2),
        Section("async", body_async(4 if th else 3), dev_bound=2 if th else 1, shards=18),
        Section("composite", body_composite(5 if th else 4), dev_bound=1, shards=3),
        Section("async-more", fn=fn_async_more),
    ]
