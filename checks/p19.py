"""P19: cancellation tokens under all interleavings and histories."""
import itertools

from expression.core.error import EffectError
from expression.system import CancellationToken, CancellationTokenSource, ObjectDisposedException, OperationCanceledError

from mc import sched
from mc.core import Section, check, fail

BOUNDS = ("histories: every sequence of up to 5 (quick) / 6 (thorough) operations over two sources (register of a fresh, repeated, raising, "
          "re-entrant callback; unregister; cancel; with-exit; observe); schedules: every pair of threads running 1..2 operations each and "
          "every triple running one, switching at every shared-state bytecode, up to 2 preemptions (quick) / 3 (thorough), plus blocking "
          "callbacks that wait for another thread; callbacks that unregister each other while the token is being cancelled")
ASSUMPTIONS = ["a callback counts as unregistered when its registration's dispose (every one that was begun) has returned before cancel is called",
               "thread switches happen between bytecodes that touch shared state (pure stack/local bytecodes commute)",
               "callbacks raise Exceptions, not BaseExceptions"]


class CbError(Exception):
    pass


class Log:
    """What happened, with logical times; the oracle works on this alone."""

    def __init__(self):
        self.t = 0
        self.cbs = {}      # name -> dict(reg=(s,e)|None, rejected, disp=[(s,e)], runs=[(s,e)])
        self.cancels = []  # [s, e]
        self.reads = []    # (s, e, value)

    def tick(self):
        self.t += 1
        return self.t

    def cb(self, name):
        return self.cbs.setdefault(name, dict(reg=None, rejected=None, disp=[], runs=[]))


def mk(log, name, behave=None):
    c = log.cb(name)

    def callback():
        s = log.tick()
        run = [s, None]
        c["runs"].append(run)
        try:
            if behave is not None:
                behave()
        finally:
            run[1] = log.tick()
    return callback


def op_register(log, token, name, behave=None, cb=None):
    c = log.cb(name)
    f = cb or mk(log, name, behave)
    s = log.tick()
    try:
        d = token.register(f)
    except ObjectDisposedException:
        c["rejected"] = (s, log.tick())
        return None
    c["reg"] = (s, log.tick())
    check(hasattr(d, "dispose"), "register does not return a disposable", got=d)
    return d


def op_dispose(log, name, d):
    if d is None:
        return
    s = log.tick()
    i = [s, None]
    log.cb(name)["disp"].append(i)
    d.dispose()
    i[1] = log.tick()


def op_cancel(log, src, how="cancel"):
    i = [log.tick(), None]
    log.cancels.append(i)
    if how == "cancel":
        src.cancel()
    elif how == "dispose":
        src.dispose()
    i[1] = log.tick()


def op_read(log, src, token, how):
    s = log.tick()
    if how == 0:
        v = token.is_cancellation_requested
    elif how == 1:
        v = src.is_cancellation_requested
    elif how == 2:
        try:
            token.throw_if_cancellation_requested()
            v = False
        except ObjectDisposedException:
            v = True
    else:
        v = src.token.is_cancellation_requested
    check(v is True or v is False, "is_cancellation_requested is not a boolean", got=v)
    log.reads.append((s, log.tick(), v))


def judge(log):
    cs = [c[0] for c in log.cancels]
    first = min(cs) if cs else None
    INF = 10**9
    last_end = max((c[1] or INF) for c in log.cancels) if cs else None
    for name, c in log.cbs.items():
        runs = c["runs"]
        check(len(runs) <= 1, f"callback {name} ran {len(runs)} times", log=vars(log))
        if c["rejected"]:
            check(first is not None and first < c["rejected"][1], f"registering {name} was rejected although nothing was cancelled", log=vars(log))
            check(not runs, f"rejected callback {name} ran", log=vars(log))
            continue
        if c["reg"] is None:
            continue
        rs, re = c["reg"]
        if runs:
            check(first is not None and first < runs[0][0], f"callback {name} ran without a cancel", log=vars(log))
        # unregistered before any cancel began
        if c["disp"]:
            # (a concurrent second dispose may return while the first is still unregistering)
            early = [d for d in c["disp"] if first is None or d[0] < first]
            if early and all((d[1] or INF) < (first or INF) for d in early):
                check(not runs, f"unregistered callback {name} ran", log=vars(log))
        if first is not None:
            undisposed = all(d[0] > last_end for d in c["disp"])
            if undisposed:
                check(len(runs) == 1, f"callback {name} was registered, never unregistered, and the token cancelled, but it did not run",
                      log=vars(log))
            if any(c2[1] is not None and c2[1] < rs for c2 in log.cancels):
                # registered after a cancel returned: not rejected, so it must have run at once
                check(len(runs) == 1 and runs[0][1] is not None and runs[0][1] < re,
                      f"callback {name} registered after cancellation was neither rejected nor run at once", log=vars(log))
            if runs and re < first:
                # before cancel returns to its first caller: inside some cancel that spans the run
                r = runs[0]
                check(any(c2[0] < r[0] and (c2[1] is None or r[1] is not None and r[1] < c2[1]) for c2 in log.cancels),
                      f"callback {name} ran outside of every cancel call", log=vars(log))
                solo = [c2 for c2 in log.cancels if c2[1] is not None and all(o is c2 or o[0] > c2[1] for o in log.cancels)]
                for c2 in solo:
                    check(r[1] is not None and r[1] < c2[1], f"cancel returned before callback {name} had run", log=vars(log))
    seen_true = None
    for s, e, v in sorted(log.reads):
        if first is None or e < first:
            check(not v, "cancellation is visible although nobody cancelled", log=vars(log))
        if any(c[1] is not None and c[1] < s for c in log.cancels):
            check(v, "cancellation is not visible after cancel returned", log=vars(log))
        if seen_true is not None and s > seen_true:
            check(v, "the cancelled state went back", log=vars(log))
        if v:
            seen_true = e if seen_true is None else min(seen_true, e)


# --- sequential histories ---------------------------------------------------------
def body_history(depth):
    def body(ch, st):
        srcs = [CancellationTokenSource(), CancellationTokenSource()]
        logs = [Log(), Log()]
        toks = [s.token for s in srcs]
        regs = []  # (which, name, disposable)
        shared = {}

        def raising():
            raise CbError("listener")

        n = 0
        for step in range(depth):
            # the second source mostly idles: only register/cancel
            k = ch.choose(11)
            if k == 10:
                break
            n += 1
            name = f"k{step}"
            w = 0
            log, src, tok = logs[0], srcs[0], toks[0]
            if k == 0:
                regs.append((0, name, op_register(log, tok, name)))
            elif k == 1:
                regs.append((0, name, op_register(log, tok, name, raising)))
            elif k == 2:
                # a callback that uses the token while being notified
                def reenter(step=step):
                    check(tok.is_cancellation_requested is True, "the cancelled state is not visible inside a callback")
                    op_register(log, tok, f"k{step}in")
                    op_cancel(log, src)
                    for w2, nm, d in list(regs):
                        if w2 == 0 and nm == f"k{step}":
                            op_dispose(log, nm, d)
                regs.append((0, name, op_register(log, tok, name, reenter)))
            elif k == 3:
                # the same callable registered a second time: counts separately
                if "f" not in shared:
                    shared["f"] = [0]
                    shared["g"] = lambda: shared["f"].__setitem__(0, shared["f"][0] + 1)
                    shared["n"] = 0
                try:
                    d = tok.register(shared["g"])
                    shared["n"] += 1
                    if step % 2:
                        d.dispose()
                        shared["n"] -= 1
                except ObjectDisposedException:
                    check(log.cancels, "register rejected although nothing was cancelled")
            elif k in (4, 5):
                live = [r for r in regs if r[2] is not None]
                if live:
                    r = live[0] if k == 4 else live[-1]
                    op_dispose(logs[r[0]], r[1], r[2])
            elif k == 6:
                op_cancel(log, src, "cancel" if step % 2 else "dispose")
            elif k == 7:
                try:
                    with src as entered:
                        check(entered is src, "with does not enter the source")
                        check(not log.cancels, "a cancelled source can be entered")
                        i = [log.tick(), None]
                        log.cancels.append(i)
                    i[1] = log.tick()
                except ObjectDisposedException:
                    check(log.cancels, "entering a live source is rejected")
            elif k == 8:
                regs.append((1, name, op_register(logs[1], toks[1], name)))
                w = 1
            elif k == 9:
                op_cancel(logs[1], srcs[1])
                w = 1
            for i in range(2):
                for how in range(4):
                    op_read(logs[i], srcs[i], toks[i], how)
                check(toks[i].can_be_canceled is True, "a token of a source claims it cannot be cancelled")
                judge(logs[i])
            if "f" in shared:
                check(shared["f"][0] == (shared["n"] if logs[0].cancels else 0), "a callable registered several times ran the wrong number of times",
                      ran=shared["f"][0], expected=shared["n"] if logs[0].cancels else 0)
            st.step()
        st.outcome((n, sorted((nm, len(c["runs"])) for nm, c in logs[0].cbs.items()), bool(logs[0].cancels)))
    return body


RAISES = [CbError, ObjectDisposedException, OperationCanceledError, StopIteration, StopAsyncIteration, RuntimeError, RecursionError, MemoryError, KeyError,
          AttributeError, TypeError, AssertionError, TimeoutError, OSError, NotImplementedError, UnicodeDecodeError, Warning, EffectError]


def fn_raises(st, tier):
    """Every kind of exception at every position: the other callbacks still run once and cancel returns."""
    def exc(k):
        return UnicodeDecodeError("utf8", b"x", 0, 1, "bad") if k is UnicodeDecodeError else k()
    kinds = [None, *RAISES]
    progs = [p for n in (1, 2, 3) for p in itertools.product(range(len(kinds)), repeat=n) if n < 3 or sum(1 for x in p if x) <= 2 or tier == "thorough"]
    for prog in progs:
        for how in ("cancel", "dispose", "with"):
            src = CancellationTokenSource()
            runs = []

            def mkcb(i, k):
                def cb():
                    runs.append(i)
                    if k is not None:
                        raise exc(k)
                return cb
            for i, k in enumerate(prog):
                src.token.register(mkcb(i, kinds[k]))
            if how == "with":
                with src:
                    pass
            else:
                getattr(src, how)()
            check(sorted(runs) == list(range(len(prog))), "not every callback ran exactly once when another raised", kinds=[kinds[k] for k in prog], ran=runs, how=how)
            check(src.token.is_cancellation_requested is True, "not cancelled")
            src.cancel()
            check(len(runs) == len(prog), "callbacks ran again")
            st.step()
            st.executions += 1
        st.outcome(len(prog))


def body_unregister_inside(n):
    """Callbacks that unregister each other while the token is being cancelled: all of them were registered when it was, so all run."""
    def body(ch, st):
        # what callback i does when it runs: nothing, or dispose the registrations of some callbacks
        acts = [ch.choose(2 ** n) for _ in range(n)]
        twice = ch.flag()
        src = CancellationTokenSource()
        runs = []
        regs = []

        def mkcb(i):
            def cb():
                runs.append(i)
                for j in range(n):
                    if acts[i] >> j & 1:
                        regs[j].dispose()
                        if twice:
                            regs[j].dispose()
            return cb
        for i in range(n):
            regs.append(src.token.register(mkcb(i)))
        src.cancel()
        check(sorted(runs) == list(range(n)), "a callback registered when the token was cancelled did not run exactly once", disposes=acts, ran=runs)
        src.cancel()
        for r in regs:
            r.dispose()
        check(len(runs) == n, "callbacks ran again", ran=runs)
        st.step()
        st.outcome((acts, twice))
    return body


def body_none(ch, st):
    """Tokens that can never be cancelled."""
    tok = CancellationToken.none()
    other = CancellationToken.none() if ch.flag() else CancellationTokenSource().token
    ran = []
    for _ in range(4):
        k = ch.choose(6)
        if k == 0:
            d = tok.register(lambda: ran.append(1))
            check(hasattr(d, "dispose"), "register on an uncancellable token gives no disposable")
            if ch.flag():
                d.dispose()
        elif k == 1:
            src = CancellationTokenSource()
            src.token.register(lambda: None)
            src.cancel()
        elif k == 2:
            tok.throw_if_cancellation_requested()
        elif k == 3:
            s = CancellationTokenSource.cancelled_source()
            check(s.is_cancellation_requested is True and s.token.is_cancellation_requested is True, "a cancelled source is not cancelled")
            try:
                s.token.register(lambda: ran.append(1))
                fail("a cancelled source accepts callbacks silently") if not ran else ran.clear()
            except ObjectDisposedException:
                pass
        elif k == 4:
            tok = CancellationToken.none()
        check(tok.is_cancellation_requested is False, "an uncancellable token became cancelled")
        check(tok.can_be_canceled is False, "an uncancellable token claims to be cancellable")
        check(not ran, "a callback of an uncancellable token ran")
        check(other.is_cancellation_requested is False, "an unrelated token became cancelled")
        st.step()
    st.outcome("none")


def fn_many(st, tier):
    """Many callbacks, one or several raising, some unregistered, registered and removed in patterns."""
    for n in list(range(0, 40)) + [64, 100, 257, 1000, 5000]:
        for pat in range(6):
            src = CancellationTokenSource()
            toks = [src.token for _ in range(3)]
            ran = [0] * n
            exp = [1] * n
            ds = []
            for i in range(n):
                def cb(i=i):
                    ran[i] += 1
                    if pat in (1, 3) and i % 3 == 0:
                        raise CbError(i)
                ds.append(toks[i % 3].register(cb))
                if pat in (2, 3) and i % 2:
                    ds[i].dispose()
                    exp[i] = 0
                if pat == 4 and i >= 2 and i % 4 == 0:
                    ds[i - 2].dispose()
                    ds[i - 2].dispose()
                    exp[i - 2] = 0
            if pat == 5:
                for i in reversed(range(n)):
                    if i % 3:
                        ds[i].dispose()
                        exp[i] = 0
            check(ran == [0] * n, "callbacks ran early", n=n, pat=pat)
            src.cancel()
            check(ran == exp, "callbacks ran the wrong number of times", n=n, pat=pat, ran=ran, expected=exp)
            src.cancel()
            for d in ds:
                d.dispose()
            src.dispose()
            check(ran == exp, "callbacks ran again", n=n, pat=pat)
            st.step()
        st.outcome(n)


# --- threads --------------------------------------------------------------------
OPS = ["R", "D", "C", "O", "U"]


def prog(log, src, ops, tname, pre):
    tok = src.token
    own = []

    def run():
        for i, o in enumerate(ops):
            nm = f"{tname}{i}"
            if o == "R":
                own.append((nm, op_register(log, tok, nm)))
            elif o == "D":
                op_dispose(log, "k0", pre)
            elif o == "C":
                op_cancel(log, src)
            elif o == "O":
                op_read(log, src, tok, 0)
                op_read(log, src, tok, 2)
            elif o == "U":
                # unregister what this thread registered, else register-and-unregister
                if own:
                    op_dispose(log, *own[-1])
                else:
                    d = op_register(log, tok, nm)
                    own.append((nm, d))
                    op_dispose(log, nm, d)
    return run


def body_threads(combos):
    def body(ch, st):
        progs = combos[ch.choose(len(combos))]
        log = Log()
        src = CancellationTokenSource()
        pre = op_register(log, src.token, "k0")
        op_register(log, src.token, "k9", lambda: (_ for _ in ()).throw(CbError("x")))
        res, s = sched.run(ch, [(f"T{i}", prog(log, src, p, f"t{i}_", pre)) for i, p in enumerate(progs)])
        for n, r in res.items():
            if r[0] != "ret":
                fail(f"thread {n} failed: {type(r[1]).__name__}: {r[1]}", progs=progs, schedule=s.trace)
        op_read(log, src, src.token, 0)
        try:
            judge(log)
        except Exception as e:
            e.args = (f"{e}\n    programs: {progs}\n    schedule: {' '.join(s.trace)}",)
            raise
        st.step(sum(len(p) for p in progs))
        st.outcome((progs, sorted((n, len(c["runs"]), bool(c["rejected"])) for n, c in log.cbs.items()), [r[2] for r in sorted(log.reads)]))
        st.max("max_points", s.points)
    return body


def body_blocking(ch, st):
    """A callback that waits until another thread got something done with the token: no lock may be held meanwhile."""
    what = ch.choose(5)
    log = Log()
    src = CancellationTokenSource()
    tok = src.token
    done = []
    entered = []

    def waits():
        entered.append(1)
        sched.wait_until(lambda: bool(done))

    k1 = op_register(log, tok, "k1")
    op_register(log, tok, "wait", waits)
    op_register(log, tok, "k2")

    def other():
        sched.wait_until(lambda: bool(entered))
        if what == 0:
            op_read(log, src, tok, 0)
        elif what == 1:
            op_register(log, tok, "late")
        elif what == 2:
            op_dispose(log, "k1", k1)
        elif what == 3:
            op_cancel(log, src)
        else:
            op_read(log, src, src.token, 2)
        done.append(1)

    res, s = sched.run(ch, [("canceller", lambda: op_cancel(log, src)), ("other", other)])
    for n, r in res.items():
        if r[0] != "ret":
            fail(f"thread {n} failed: {type(r[1]).__name__}: {r[1]}", schedule=s.trace)
    judge(log)
    for k in ("k1", "wait", "k2"):
        check(len(log.cbs[k]["runs"]) == 1, f"callback {k} did not run exactly once", log=vars(log))
    st.step()
    st.outcome((what, len(log.cbs)))


def two_thread_combos(maxlen):
    ps = [p for n in range(1, maxlen + 1) for p in itertools.product(OPS, repeat=n)]
    out = []
    for i, p in enumerate(ps):
        for q in ps[i:]:
            if "C" in p + q or len(p) + len(q) == 2:
                out.append((p, q))
    return out


def sections(tier):
    th = tier == "thorough"
    c2 = two_thread_combos(2)
    c3 = [c for c in itertools.combinations_with_replacement([(o,) for o in OPS], 3) if ("C",) in c]
    if th:
        c3 += [(("R", "U"), ("C",), ("O",)), (("R",), ("C",), ("C", "R")), (("R", "R"), ("C",), ("D",))]
    out = [
        Section("history", body_history(6 if th else 5), shards=11),
        Section("uncancellable", body_none),
        Section("many", fn=fn_many),
        Section("raising", fn=fn_raises, bounds="18 kinds of exceptions raised by up to 2 (3) of 1-3 callbacks x 3 ways to cancel"),
        Section("unregister-inside", body_unregister_inside(4 if th else 3), shards=8, bounds="3 (thorough: 4) callbacks, each disposing any set of registrations when it runs"),
        Section("two-threads", body_threads(c2), dev_bound=2 if th else 1, shards=16, bounds=f"{len(c2)} programs"),
        Section("three-threads", body_threads(c3), dev_bound=2 if th else 1, shards=8, bounds=f"{len(c3)} programs"),
        Section("blocking-callbacks", body_blocking, dev_bound=3 if th else 2, shards=5),
    ]
    core = [((("R",)), ("C",)), (("R", "U"), ("C",)), (("D",), ("C",)), (("C",), ("C",)), (("O",), ("C",)), (("R",), ("C", "R"))]
    out.append(Section("two-threads-deep", body_threads(core), dev_bound=4 if th else 2, shards=6))
    return out
