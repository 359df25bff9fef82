"""P22: async computations run once, report one outcome, and obey cancellation."""
import asyncio
import gc
import weakref

from expression import Error, Nothing, Ok, Some
from expression.core import aiotools
from expression.core.aiotools import from_continuations, run_synchronously, singleton, sleep, start, start_immediate
from expression.system import CancellationToken, CancellationTokenSource, ObjectDisposedException, OperationCanceledError

from mc import sched, simloop
from mc.core import Choices, Section, check, fail
from mc.values import Boom, alphabet, leaf_same

BOUNDS = ("from_continuations: every sequence of up to 3 completions (value/error/cancel), each synchronous or at any later point, the awaiter "
          "arriving at any point and possibly cancelled, 29 values, 8 kinds of error; start/start_immediate: 1..2 computations of 8 kinds suspending 0..2 (quick) / 0..3 "
          "(thorough) times, token absent, never cancellable, live, cancelled before, or cancelled at every point of the run incl. from inside; "
          "cancellation from another thread (also one with an event loop of its own) at every shared-state bytecode, 2 (quick) / 3 (thorough) preemptions; run_synchronously "
          "over 6 awaitable kinds x outcomes, and with up to 5 computations left unfinished; lifetimes checked with the garbage collector for every kind of ending")
ASSUMPTIONS = ["a computation that has not begun when its token is cancelled need not begin at all",
               "run_synchronously is called where no event loop runs in the thread"]


class Val:
    def __repr__(self):
        return "val"


ERRS = [Boom("e0"), Boom("e1"), Boom("e2")]


class Rejected(OperationCanceledError):
    pass


# errors that also mean something to the library or to the event loop are errors like any other
ERRKINDS = [Boom("k0"), OperationCanceledError("k1"), TimeoutError("k2"), ObjectDisposedException(), asyncio.InvalidStateError("k4"), Rejected("k5"),
            ExceptionGroup("k6", [ValueError("x")]), EOFError()]


# --- from_continuations ------------------------------------------------------------
def body_cont(ch, st):
    n = 1 + ch.choose(3)
    kinds = [ch.choose(3) for _ in range(n)]  # 0 value, 1 error, 2 cancel
    sync = ch.choose(n + 1)  # how many of them happen inside the callback
    await_how = ch.choose(3)  # 0 at once, 1 at an arbitrary later point, 2 at once, and the awaiter may be cancelled
    base = ch.choose(8)
    vals = [alphabet()[(base * 4 + i) % len(alphabet())] for i in range(n)]
    errs_ = [ERRKINDS[(base + i) % len(ERRKINDS)] for i in range(n)]
    order = []
    calls = []
    result = []

    async def main(loop, env):
        holder = {}

        def fire(i):
            order.append(i)
            done, error, cancel = holder["c"]
            r = (done, error, cancel)[kinds[i]](vals[i] if kinds[i] == 0 else errs_[i].with_traceback(None) if kinds[i] == 1
                                                else OperationCanceledError("c"))
            check(r is None, "a continuation returns something")

        def callback(done, error, cancel):
            calls.append(1)
            holder["c"] = (done, error, cancel)
            for i in range(sync):
                fire(i)

        aw = from_continuations(callback)
        check(len(calls) == 1, "the callback was not called exactly once", calls=len(calls))
        for i in range(sync, n):
            env.add(f"c{i}", lambda i=i: fire(i))

        async def waiter():
            return await aw

        if await_how == 1:
            fut = loop.create_future()
            env.add("await", lambda: fut.set_result(None))
            await fut
        t = loop.create_task(waiter())
        if await_how == 2:
            def canc():
                if not t.done():
                    result.append("awaiter-cancelled" if not order else "awaiter-cancelled-late")
                    t.cancel()
            env.add("cancel-awaiter", canc)
        try:
            v = await t
            result.append(("ret", v))
        except asyncio.CancelledError:
            result.append(("cancelled", None))
        except Exception as e:  # noqa: BLE001
            result.append(("raise", e))
        return "done"

    kind, val, loop = simloop.run(ch, main)
    ctx = dict(kinds=kinds, order=order, trace=loop.trace, result=result)
    if kind == "raise":
        raise val
    check(kind == "ret", f"the awaiter never gets an outcome ({kind})", **ctx)
    errs = [u for u in loop.unhandled if "never retrieved" not in str(u.get("message"))]
    check(not errs, "a completion failed", errors=[str(u.get("exception") or u) for u in errs], **ctx)
    check(len(order) == n, "not every completion could be delivered", **ctx)
    out = result[-1]
    if result[0] == "awaiter-cancelled":
        check(out[0] == "cancelled", "a cancelled awaiter still got an outcome", **ctx)
    else:
        f = order[0]
        exp = ("ret", "raise", "cancelled")[kinds[f]]
        if result[0] == "awaiter-cancelled-late":
            check(out[0] in (exp, "cancelled"), "the awaiter got a later completion", **ctx)
        else:
            check(out[0] == exp, "the awaiter did not get the first completion", **ctx)
        if out[0] == "ret":
            check(leaf_same(out[1], vals[f]), "the awaiter got another value", expected=vals[f], **ctx)
        if out[0] == "raise":
            check(out[1] is errs_[f], "the awaiter got another exception", expected=errs_[f], **ctx)
    st.step(n)
    st.outcome((kinds, sync, await_how, base, loop.trace))


# --- start / start_immediate ---------------------------------------------------------
KINDS = ["returns", "raises", "cleanup", "future", "custom", "selfcancel", "loops", "task"]


def body_start(maxs, nmax):
    def body(ch, st):
        c = ch.choose(2 * 5 * 8)
        starter = (start, start_immediate)[c % 2]
        tk = c // 2 % 5  # none, never, live, live+cancel event, cancelled before
        kind = KINDS[c // 10]
        susp = ch.choose(maxs + 1)
        n = 1 + (ch.choose(nmax) if nmax > 1 else 0)
        logs = [[] for _ in range(n)]
        src = CancellationTokenSource()
        token = [None, CancellationToken.none(), src.token, src.token, src.token][tk]
        state = dict(cancelled=False)
        rejected = [False] * n
        if kind == "selfcancel" and tk in (0, 1, 4):
            from mc.core import Prune
            raise Prune

        async def main(loop, env):
            def comp(i, k):
                log = logs[i]

                async def run():
                    log.append(("begin", state["cancelled"]))
                    try:
                        for s in range(susp):
                            fut = loop.create_future()
                            env.add(f"r{i}.{s}", lambda fut=fut: fut.done() or fut.set_result(None))
                            await fut
                            log.append(("step", state["cancelled"]))
                        if k == "selfcancel":
                            state["cancelled"] = True
                            src.cancel()
                            log.append(("self", False))
                            await asyncio.sleep(0)
                            log.append(("after-self", False))
                        if k == "raises":
                            raise ERRS[i].with_traceback(None)
                        log.append(("end", False))
                        return i
                    except asyncio.CancelledError:
                        log.append(("cancelled", False))
                        if k == "cleanup":
                            fut = loop.create_future()
                            env.add(f"clean{i}", lambda: fut.done() or fut.set_result(None))
                            await fut
                            log.append(("cleaned", False))
                        raise
                return run

            for i in range(n):
                r = comp(i, kind)
                if kind == "future":
                    fut = loop.create_future()
                    logs[i].append(("begin", False))
                    fut.add_done_callback(lambda f, i=i: logs[i].append(("cancelled" if f.cancelled() else "end", False)))
                    env.add(f"f{i}", lambda fut=fut: fut.done() or fut.set_result(1))
                    aw = fut
                elif kind == "custom":
                    class Aw:
                        def __await__(self, r=r):
                            return r().__await__()
                    aw = Aw()
                elif kind == "task":  # already running
                    aw = loop.create_task(r())
                else:
                    aw = r()
                if tk == 4 and i == 0:
                    state["cancelled"] = True
                    src.cancel()
                    if kind == "future":
                        logs[0].clear()
                try:
                    res = starter(aw, token) if token is not None or ch.flag() else starter(aw)
                    check(res is None, "start returns something")
                    check(tk != 4, "starting with a cancelled token is not reported")
                except ObjectDisposedException:
                    check(tk == 4, "starting with a live token is rejected")
                    rejected[i] = True
            if kind == "task":
                for _ in range(3):
                    await asyncio.sleep(0)
            if tk == 3:
                def canc():
                    state["cancelled"] = True
                    src.cancel()
                env.add("cancel", canc)
            return "done"

        k, val, loop = simloop.run(ch, main)
        ctx = dict(kind=kind, susp=susp, token=tk, logs=logs, trace=loop.trace)
        if k == "raise":
            raise val
        check(k == "ret", f"starting hangs ({k})", **ctx)
        bad = [u for u in loop.unhandled if "never retrieved" not in str(u.get("message"))]
        check(not bad, "unhandled error", errors=[str(u.get("exception") or u) for u in bad], **ctx)
        for i in range(n):
            log = logs[i]
            names = [e[0] for e in log]
            check(names.count("begin") <= 1, "a computation was run more than once", **ctx)
            if rejected[i]:
                if kind not in ("future", "task"):  # (these complete by themselves)
                    check(not names, "a computation rejected because of its cancelled token ran", **ctx)
                continue
            ends = [x for x in names if x in ("end", "cancelled")]
            if kind == "raises" and "cancelled" not in names:
                check("end" not in names, "?", **ctx)
                if not state["cancelled"]:
                    check(names == ["begin"] + ["step"] * susp, "a computation did not run to its end", **ctx)
            elif state["cancelled"]:
                check(len(ends) <= 1, "a computation ended twice", **ctx)
                if "begin" in names:
                    check(len(ends) == 1, "a computation neither ended nor was cancelled", **ctx)
                # after the cancellation nothing of it runs any more
                check(not any(e[0] == "step" and e[1] for e in log), "a computation went on after its token was cancelled", **ctx)
                check(not any(e[0] == "begin" and e[1] for e in log), "a computation began after its token was cancelled", **ctx)
                if "self" in names and tk in (2, 3):
                    check("after-self" not in names, "a computation went on after cancelling its own token", **ctx)
                if kind == "cleanup" and "cancelled" in names:
                    check("cleaned" in names, "a cancelled computation could not clean up", **ctx)
            else:
                if kind == "future":
                    check(names == ["begin", "end"], "a started future did not complete", **ctx)
                else:
                    check(names == ["begin"] + ["step"] * susp + ["end"], "a computation did not run exactly once to its end", **ctx)
        st.step(n)
        st.outcome((starter.__name__, tk, kind, susp, n, logs, loop.trace))
    return body


# --- lifetimes -----------------------------------------------------------------------
class Held:
    pass


def body_life(ch, st):
    """Kept alive while it runs, even if only it knows what it waits for; released however it ends."""
    starter = (start, start_immediate)[ch.choose(2)]
    ending = ch.choose(4)  # returns, raises, cancelled by token, cancelled itself
    tk = ch.choose(3)      # no token, never, live
    if ending == 2 and tk != 2:
        from mc.core import Prune
        raise Prune
    src = CancellationTokenSource()
    others = []
    src.token.register(lambda: others.append(1))
    ends = []
    refs = {}

    async def main(loop, env):
        async def comp(held):
            fut = asyncio.get_running_loop().create_future()
            refs["fut"] = weakref.ref(fut)
            ends.append("begin")
            try:
                await fut
            except asyncio.CancelledError:
                ends.append("cancelled")
                raise
            ends.append("end")
            if ending == 1:
                raise Boom("x")
            if ending == 3:
                raise asyncio.CancelledError()

        h = Held()
        refs["held"] = weakref.ref(h)
        token = [None, CancellationToken.none(), src.token][tk]
        starter(comp(h), token)
        del h
        await asyncio.sleep(0)
        await asyncio.sleep(0)
        gc.collect()
        fut = refs["fut"]()
        check(fut is not None and refs["held"]() is not None, "a running computation was garbage collected", ends=ends)
        if ending == 2:
            del fut
            src.cancel()
        else:
            fut.set_result(None)
            del fut
        for _ in range(3):
            await asyncio.sleep(0)
        return "done"

    k, val, loop = simloop.run(ch, main)
    if k == "raise":
        raise val
    check(k == "ret", "hang")
    check(ends == ["begin", "cancelled" if ending == 2 else "end"], "a computation did not run to its end", ends=ends)
    loop.unhandled.clear()
    del loop, val
    gc.collect()
    check(refs["held"]() is None, "an ended computation is still kept alive", ending=ending, token=tk,
          referrers=[type(r).__name__ for r in gc.get_referrers(refs["held"]())] if refs["held"]() is not None else [])
    check(src.is_cancellation_requested is (ending == 2), "?")
    if ending != 2:
        src.cancel()
    check(others == [1], "another callback of the token was lost", others=others)
    st.step()
    st.outcome((starter.__name__, ending, tk))


def fn_many(st, tier):
    """Many computations on one token: all run, all are released, all are cancelled."""
    for n in (0, 1, 2, 3, 10, 50, 300):
        for cancel in (False, True):
            src = CancellationTokenSource()
            ended = []

            async def main(loop, env):
                async def comp(i):
                    try:
                        await asyncio.sleep(1 + i % 3)
                        ended.append(("end", i))
                    except asyncio.CancelledError:
                        ended.append(("cancelled", i))
                        raise
                for i in range(n):
                    (start if i % 2 else start_immediate)(comp(i), src.token)
                await asyncio.sleep(0.5)
                if cancel:
                    src.cancel()
                await asyncio.sleep(10)
                return 1

            k, v, loop = simloop.run(Choices(), main)
            check(k == "ret", f"{k} {v!r}")
            check(sorted(ended, key=lambda x: x[1]) == [("cancelled" if cancel else "end", i) for i in range(n)], "not every computation ended as it should",
                  n=n, cancel=cancel, ended=ended)
            st.step()
        st.outcome(n)


# --- run_synchronously and the small ones ------------------------------------------------
def fn_sync(st, tier):
    vals = alphabet()
    for num, v in enumerate(vals):
        runs = []
        err = ERRKINDS[num % len(ERRKINDS)]

        async def comp(susp, how):
            runs.append(1)
            for _ in range(susp):
                await asyncio.sleep(0)
            if how == 1:
                raise err.with_traceback(None)
            if how == 2:
                raise asyncio.CancelledError()
            return v

        class Aw:
            def __init__(self, *a):
                self.a = a

            def __await__(self):
                return comp(*self.a).__await__()

        for susp in (0, 1, 3):
            for how in (0, 1, 2):
                for mk in (comp, Aw):
                    runs.clear()
                    try:
                        got = ("ret", run_synchronously(mk(susp, how)))
                    except asyncio.CancelledError:
                        got = ("cancelled", None)
                    except Exception as e:  # noqa: BLE001
                        got = ("raise", e)
                    check(len(runs) == 1, "run_synchronously did not run the computation exactly once", runs=len(runs))
                    check(got[0] == ("ret", "raise", "cancelled")[how], "run_synchronously reported another outcome", got=got, how=how)
                    if how == 0:
                        check(leaf_same(got[1], v), "run_synchronously returned another value", got=got[1], expected=v)
                    if how == 1:
                        check(got[1] is err, "run_synchronously raised another exception", got=got[1])
                    st.step()
        check(leaf_same(run_synchronously(singleton(v)), v), "singleton", v=v)
        check(leaf_same(run_synchronously(aiotools.from_result(v)), v), "from_result", v=v)
        st.step(2)
        st.outcome(repr(type(v)))
    check(run_synchronously(aiotools.empty()) is None, "empty")
    # a value that could itself be awaited is a value like any other
    async def co(x):
        return x
    lp = asyncio.new_event_loop()
    try:
        fut = lp.create_future()
        for v in (co(1), co(None), fut, Some(1), Nothing, Ok(2), Error(3), Some(Nothing), co):
            async def ret(x):
                return x
            for w, c in (("singleton", singleton(v)), ("from_result", aiotools.from_result(v)), ("run_synchronously", ret(v))):
                g = run_synchronously(c)
                check(g is v, f"{w}: a value that can be awaited was not returned as it is", value=v, got=g)
                st.step()

            async def cont():
                return await from_continuations(lambda d, e, c: d(v))
            check(run_synchronously(cont()) is v, "from_continuations: a value that can be awaited was not returned as it is", value=v)
            if asyncio.iscoroutine(v):
                v.close()
    finally:
        lp.close()

    # nested use of the tools inside run_synchronously
    async def outer():
        got = []
        start(inner(got))
        start_immediate(inner(got))
        v = await from_continuations(lambda d, e, c: d(5))
        for _ in range(3):
            await asyncio.sleep(0)
        return v, got

    async def inner(got):
        got.append(1)

    check(run_synchronously(outer()) == (5, [1, 1]), "tools inside run_synchronously")

    # what was started inside and not finished does not outlive the loop it ran on: it is cancelled and cleans up
    for begin in (start, start_immediate):
        for n in (1, 2, 5):
            for how in (0, 1):
                src = CancellationTokenSource()
                seen = []

                async def waiting(i):
                    try:
                        await asyncio.Event().wait()
                    except asyncio.CancelledError:
                        seen.append(("cancelled", i))
                        raise
                    finally:
                        seen.append(("cleanup", i))

                async def starter():
                    for i in range(n):
                        begin(waiting(i), src.token if i % 2 else None)
                    await asyncio.sleep(0)
                    await asyncio.sleep(0)
                    if how:
                        raise ERRKINDS[0].with_traceback(None)
                    return 7
                try:
                    got = run_synchronously(starter())
                except Exception as e:  # noqa: BLE001
                    got = e
                check(got == 7 if not how else got is ERRKINDS[0], "run_synchronously reported another outcome", got=got)
                check(sorted(seen) == sorted([(w, i) for i in range(n) for w in ("cancelled", "cleanup")]),
                      "computations started inside run_synchronously were left behind", n=n, seen=seen)
                src.cancel()
                check(len(seen) == 2 * n, "cancelling later ran something again", seen=seen)
                st.step()
    for ms in (0, 1, 10, 999, 1000, 1500, 60000):
        async def main(loop, env):
            t0 = loop.time()
            r = await sleep(ms)
            check(r is None, "sleep returns something")
            return loop.time() - t0
        k, v, loop = simloop.run(Choices(), main)
        check(k == "ret" and abs(v - ms / 1000) < 1e-9, "sleep does not sleep for the given milliseconds", ms=ms, slept=v)
        st.step()


# --- cancellation from another thread ------------------------------------------------
def body_thread(ch, st):
    _thread_body(ch.choose(16), ch, st)


def body_thread_deep(ch, st):
    _thread_body(ch.pick([0, 5]), ch, st)


def _thread_body(c, ch, st):
    starter = (start, start_immediate)[c % 2]
    susp = 1 + c // 2 % 2
    when = c // 4  # 0: any time, also before start; 1: once it has begun; 2: two cancelling threads; 3: from a thread with an event loop of its own
    src = CancellationTokenSource()
    log = []
    state = dict(begun=False, returned=0)
    box = {}
    cancellers = 2 if when == 2 else 1

    def loop_thread():
        async def main(loop):
            async def comp():
                log.append("begin")
                state["begun"] = True
                try:
                    for s in range(susp):
                        fut = loop.create_future()
                        box["fut"] = fut
                        await fut
                    log.append("end")
                except asyncio.CancelledError:
                    log.append("cancelled")
                    raise
                finally:
                    fin.done() or fin.set_result(None)
            fin = loop.create_future()
            co = comp()
            try:
                starter(co, src.token)
            except ObjectDisposedException:
                log.append("rejected")
                co.close()
                return "rejected"
            done_watch = loop.create_task(watch(loop))
            await asyncio.wait([fin, done_watch], return_when=asyncio.FIRST_COMPLETED)
            return "done"

        async def watch(loop):
            # a computation cancelled before it began never sets fin: then all tasks are over
            me = asyncio.current_task()
            while True:
                others = [t for t in asyncio.all_tasks(loop) if t is not me and t is not box["main"] and not t.done()]
                if not others:
                    return
                await asyncio.wait(others)

        async def outer(loop):
            box["main"] = asyncio.current_task()
            return await main(loop)
        return sched.run_loop(ch, outer, hold=lambda: state["returned"] < cancellers)

    def canceller():
        if when == 1:
            sched.wait_until(lambda: state["begun"])
        if when == 3:
            sched.wait_until(lambda: state["begun"])

            async def there(loop):
                src.cancel()
            r = sched.run_loop(ch, there)
            check(r[0] == "ret", "cancel failed in another event loop", got=r[:2])
        else:
            src.cancel()
        state["returned"] += 1

    res, s = sched.run(ch, [("loop", loop_thread)] + [(f"C{i}", canceller) for i in range(cancellers)])
    ctx = dict(log=log, schedule=s.trace, when=when, susp=susp)
    for name, r in res.items():
        if r[0] != "ret":
            fail(f"thread {name} failed: {type(r[1]).__name__}: {r[1]}", **ctx)
    kind, val, loop = res["loop"][1]
    check(kind == "ret", f"the event loop ended with {kind} {val!r}", **ctx)
    bad = [u for u in loop.unhandled if "never retrieved" not in str(u.get("message"))]
    check(not bad, "unhandled error", errors=[str(u.get("exception") or u) for u in bad], **ctx)
    check(log in (["begin", "cancelled"], ["rejected"], []), "a computation cancelled from another thread did not stop at its suspension", **ctx)
    if when in (1, 3):
        check(log == ["begin", "cancelled"], "a running computation cancelled from another thread did not stop", **ctx)
    st.step()
    st.outcome((c, log))


def sections(tier):
    th = tier == "thorough"
    return [
        Section("from-continuations", body_cont, dev_bound=2 if th else 1, shards=3),
        Section("start", body_start(3 if th else 2, 1), dev_bound=3 if th else 2, shards=40),
        Section("start-two", body_start(1 if not th else 2, 2), dev_bound=1 if not th else 2, shards=40),
        Section("lifetime", body_life, dev_bound=0, shards=2),
        Section("many", fn=fn_many),
        Section("run-synchronously", fn=fn_sync),
        Section("thread-cancel", body_thread, dev_bound=2 if th else 1, shards=12),
        Section("thread-cancel-deep", body_thread_deep, dev_bound=3 if th else 2, shards=2),
    ]
