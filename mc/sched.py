"""Stateless model checking of real threads.

Every logical thread of an execution is a real OS thread, but only the one that
holds the baton runs.  The baton can move at every bytecode of the package under
test that can touch shared state (attribute, item, cell and global accesses,
calls, iteration, ``with``), at every lock operation, and wherever the harness
calls ``point()``.  Which thread goes on is a choice of the explorer:
continuing the running thread is free, preempting it costs one deviation, and
when it blocks or ends every enabled thread is tried.

``install()`` must run before the package is imported: it replaces the locks of
``threading`` (and with them Condition, Event, Semaphore) and ``queue.SimpleQueue``
with versions that block cooperatively, so that deadlocks are found rather than
suffered.
"""
from __future__ import annotations

import _thread
import dis
import gc
import os
import queue
import sys
import threading
import time
import types
from collections import deque

from .core import REPO, Diverged, Hang, HarnessError, Prune, Violation

_raw_lock = _thread.allocate_lock
_PKG = os.path.join(os.path.realpath(REPO), "expression") + os.sep
_PKG2 = os.path.join(REPO, "expression") + os.sep

SHARED = {
    "LOAD_ATTR", "LOAD_SUPER_ATTR", "LOAD_METHOD", "STORE_ATTR", "DELETE_ATTR", "BINARY_SUBSCR", "STORE_SUBSCR", "DELETE_SUBSCR",
    "BINARY_SLICE", "STORE_SLICE", "LOAD_DEREF", "STORE_DEREF", "DELETE_DEREF", "STORE_GLOBAL", "DELETE_GLOBAL", "CALL",
    "CALL_FUNCTION_EX", "CALL_KW", "CALL_INTRINSIC_2", "FOR_ITER", "GET_ITER", "CONTAINS_OP", "COMPARE_OP", "BINARY_OP", "BEFORE_WITH",
    "LIST_EXTEND", "SET_UPDATE", "DICT_UPDATE", "DICT_MERGE", "UNPACK_SEQUENCE", "UNPACK_EX", "UNARY_NOT", "TO_BOOL",
}
_codes = {}


def _interesting(code, glob):
    tab = bytearray(len(code.co_code) + 2)
    for ins in dis.get_instructions(code):
        hit = ins.opname in SHARED
        if ins.opname == "LOAD_GLOBAL":
            v = glob.get(ins.argval, _thread)
            hit = not (v is _thread or callable(v) or isinstance(v, types.ModuleType))
        tab[ins.offset] = hit
    return tab


class SchedAbort(BaseException):
    """Unwinds the threads of an execution that is over."""


class LThread:
    __slots__ = ("name", "fn", "baton", "state", "pred", "result", "idx", "timeout", "quiet", "sched")

    def __init__(self, name, fn, idx):
        self.name, self.fn, self.idx = name, fn, idx
        self.baton = _raw_lock()
        self.baton.acquire()
        self.state = "ready"
        self.pred = None
        self.timeout = False
        self.result = None
        self.quiet = False
        self.sched = None


_active = None  # the scheduler of the current execution
_tls = threading.local()


def current():
    return getattr(_tls, "lt", None) if _active is not None else None


class Scheduler:
    def __init__(self, ch, max_points=100000):
        self.ch = ch
        self.threads = []
        self.cur = None
        self.main = _raw_lock()
        self.main.acquire()
        self.aborting = False
        self.failure = None
        self.points = 0
        self.switches = 0
        self.max_points = max_points
        self.fine = True
        self.trace = []
        self.clock = 0
        self.pending_exc = None

    # -- called by the running logical thread
    def point(self, lt):
        if self.aborting:
            raise SchedAbort
        self.points += 1
        if self.points > self.max_points:
            self.abort(Violation(f"no rest within {self.max_points} scheduling points (livelock)"))
            raise SchedAbort
        others = [t for t in self.threads if t is not lt and self.enabled(t)]
        if not others:
            return
        c = self.choose(1 + len(others), True)
        if c:
            self.switch(lt, others[c - 1])

    def choose(self, n, dev):
        try:
            return self.ch.deviate(n) if dev else (self.ch.choose(n) if n > 1 else 0)
        except BaseException as e:  # HarnessError, Diverged, Prune: end the execution
            self.abort(e)
            raise SchedAbort from None

    def enabled(self, t):
        if t.state == "ready":
            return True
        return t.state == "blocked" and t.pred()

    def block(self, lt, pred, timeout=False):
        """Wait until pred() holds; with ``timeout`` also give up when nobody else can run."""
        if self.aborting:
            raise SchedAbort
        if pred():
            return True
        lt.state, lt.pred, lt.timeout = "blocked", pred, timeout
        self.next(lt)
        lt.state = "ready"
        lt.pred = None
        return pred()

    def next(self, lt):
        """lt cannot go on: hand the baton to somebody."""
        cand = [t for t in self.threads if t is not lt and self.enabled(t)]
        if not cand and lt.state == "blocked" and lt.pred():
            return
        if not cand:
            cand = [t for t in self.threads if t.state == "blocked" and t.timeout]
            if cand and lt in cand:
                if len(cand) == 1:
                    return
        if not cand:
            if all(t.state == "done" for t in self.threads):
                self.finish()
                return
            names = [t.name for t in self.threads if t.state == "blocked"]
            self.abort(Violation("deadlock: " + ", ".join(names) + " wait forever"))
            if lt.state != "done":
                raise SchedAbort
            return
        c = self.choose(len(cand), False)
        if cand[c] is lt:
            return
        self.switch(lt, cand[c])

    def switch(self, lt, to):
        self.switches += 1
        self.trace.append(to.name)
        self.cur = to
        if to.state == "blocked":
            to.state = "ready"
        to.baton.release()
        if lt.state != "done":
            lt.baton.acquire()
            if self.aborting:
                raise SchedAbort

    def abort(self, exc):
        if not self.aborting:
            self.aborting = True
            self.failure = exc
            self.main.release()

    def finish(self):
        if not self.aborting:
            self.main.release()

    # -- thread main
    def worker(self, lt):
        lt.baton.acquire()
        _tls.lt = lt
        try:
            if self.aborting:
                raise SchedAbort
            v = lt.fn()
            lt.result = ("ret", v)
        except SchedAbort:
            lt.result = ("abort", None)
        except (Violation, HarnessError, Diverged, Prune) as e:
            lt.result = ("raise", e)
            self.abort(e)
        except BaseException as e:  # noqa: BLE001
            lt.result = ("raise", e)
        finally:
            _tls.lt = None
            lt.state = "done"
            if not self.aborting:
                try:
                    self.next(lt)
                except SchedAbort:
                    pass


_keep = {}  # code objects whose id is used as a key
_TOOL = 4
_armed = False


def _on_instruction(code, offset):
    tab = _codes.get(id(code))
    if tab is None or not tab[offset]:
        return sys.monitoring.DISABLE
    s = _active
    if s is None or not s.fine:
        return None
    lt = getattr(_tls, "lt", None)
    if lt is not None and not lt.quiet and not s.aborting:
        s.point(lt)
    return None


def arm():
    """Instrument every function of the imported package (once, before the first execution)."""
    global _armed
    if _armed:
        return
    _armed = True
    mon = sys.monitoring
    mon.use_tool_id(_TOOL, "verif-sched")
    mon.register_callback(_TOOL, mon.events.INSTRUCTION, _on_instruction)
    todo = []
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType):
            fn = o.__code__.co_filename
            if fn.startswith(_PKG) or fn.startswith(_PKG2):
                todo.append((o.__code__, o.__globals__))
    while todo:
        code, glob = todo.pop()
        if id(code) in _codes:
            continue
        _codes[id(code)] = _interesting(code, glob)
        _keep[id(code)] = code
        mon.set_local_events(_TOOL, code, mon.events.INSTRUCTION)
        todo += [(c, glob) for c in code.co_consts if isinstance(c, types.CodeType)]


class _Pool:
    """Reusable OS threads."""

    def __init__(self):
        self.idle = []

    def submit(self, job):
        if self.idle:
            w = self.idle.pop()
        else:
            w = [_raw_lock(), None]
            w[0].acquire()
            _thread.start_new_thread(self._loop, (w,))
        w[1] = job
        w[0].release()

    def _loop(self, w):
        while True:
            w[0].acquire()
            job, w[1] = w[1], None
            job()
            self.idle.append(w)


_pool = None
_pool_pid = None
_runs = 0


def run(ch, threads, max_points=100000, fine=True):
    """Run ``threads`` = [(name, fn)] under the explorer; returns ({name: outcome}, scheduler).

    ``fine=False``: the baton moves only at ``point()`` and at lock operations."""
    global _active, _pool, _pool_pid, _runs
    if _pool is None or _pool_pid != os.getpid():
        _pool, _pool_pid = _Pool(), os.getpid()
    if gc.isenabled():
        gc.disable()
    arm()
    _runs += 1
    if _runs % 256 == 0:
        gc.collect()
    s = Scheduler(ch, max_points)
    s.fine = fine
    s.threads = [LThread(n, f, i) for i, (n, f) in enumerate(threads)]
    for t in s.threads:
        t.sched = s
    done = [_raw_lock() for _ in s.threads]
    for d in done:
        d.acquire()
    _active = s

    def job(lt, d):
        def j():
            try:
                s.worker(lt)
            finally:
                d.release()
        return j

    try:
        for lt, d in zip(s.threads, done):
            _pool.submit(job(lt, d))
        first = ch.choose(len(s.threads))
        s.cur = s.threads[first]
        s.trace.append(s.cur.name)
        s.cur.baton.release()
        s.main.acquire()
        if s.aborting:
            for t in s.threads:
                # wake whoever still waits for the baton; all of them unwind
                if t.state != "done":
                    try:
                        t.baton.release()
                    except RuntimeError:
                        pass
        for d in done:
            d.acquire()
    finally:
        _active = None
    if s.failure is not None:
        e = s.failure
        if isinstance(e, Violation):
            e.args = (str(e) + f"\n    schedule: {' '.join(s.trace)}",)
        raise e
    return {t.name: t.result for t in s.threads}, s


class Interrupt(BaseException):
    """Stands for a KeyboardInterrupt or a failing allocation."""


class _Fault:
    """Counts the points of a single-threaded execution and raises Interrupt at the k-th."""

    aborting, fine = False, True

    def __init__(self, k):
        self.k, self.n = k, 0

    def point(self, lt):
        self.n += 1
        if self.n == self.k:
            raise Interrupt


def interrupted(fn, k):
    """Run fn() with an Interrupt at its k-th point; returns (outcome, number of points passed)."""
    global _active
    arm()
    if gc.isenabled():
        gc.disable()
    f = _Fault(k)
    _tls.lt = LThread("main", None, 0)
    _active = f
    hook = sys.unraisablehook
    lost = []
    # an exception in a finaliser (a generator that is dropped) is thrown away by Python itself
    sys.unraisablehook = lambda u: lost.append(1) if isinstance(u.exc_value, Interrupt) else hook(u)
    try:
        try:
            r = ("ret", fn())
        except BaseException as e:  # noqa: BLE001
            r = ("raise", e)
        if lost and r[0] == "ret":
            r = ("raise", Interrupt("in a finaliser"))
    finally:
        sys.unraisablehook = hook
        _active = None
        _tls.lt = None
    return r, f.n


def point():
    """An explicit scheduling point for harness code (callbacks)."""
    lt = current()
    if lt is not None and not lt.quiet:
        _active.point(lt)


def wait_until(pred):
    lt = current()
    if lt is None:
        raise HarnessError("wait_until outside a scheduled thread")
    return _active.block(lt, pred)


def now():
    """A logical time stamp: strictly increasing along the execution."""
    s = _active
    if s is None:
        return 0
    s.clock += 1
    return s.clock


# --- cooperative locks --------------------------------------------------------
class SchedLock:
    reentrant = False

    def __init__(self):
        self._owner = None
        self._count = 0

    def _me(self):
        lt = current()
        return lt if lt is not None else ("os", _thread.get_ident())

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        lt = me if isinstance(me, LThread) else None
        if lt is not None and not lt.quiet:
            _active.point(lt)
        if self.reentrant and self._owner is me or self.reentrant and self._owner == me:
            self._count += 1
            return True
        if self._owner is not None:
            if not blocking:
                return False
            if lt is None:
                # not a scheduled thread: wait for real (bounded)
                end = time.monotonic() + 5
                while self._owner is not None:
                    if self._owner == me:
                        raise Violation("a thread waits for a lock it holds itself")
                    if time.monotonic() > end:
                        raise Violation("a lock is still held although nobody is running")
                    time.sleep(0.001)
                self._owner, self._count = me, 1
                return True
            _active.block(lt, lambda: self._owner is None, timeout=timeout is not None and timeout >= 0)
            if self._owner is not None:
                return False
        self._owner, self._count = me, 1
        return True

    __enter__ = acquire

    def release(self):
        if self._owner is None:
            if _active is not None and _active.aborting:
                return
            raise RuntimeError("release unlocked lock")
        me = self._me()
        if self.reentrant and self._owner is not me and self._owner != me:
            if _active is not None and _active.aborting:
                return
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if self._count <= 0:
            self._owner, self._count = None, 0
        if isinstance(me, LThread) and not me.quiet and not _active.aborting:
            _active.point(me)

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self._owner is not None

    def _is_owned(self):
        return self._owner is not None and (self._owner is self._me() or self._owner == self._me())

    def _at_fork_reinit(self):
        self._owner, self._count = None, 0


class SchedRLock(SchedLock):
    reentrant = True

    def _release_save(self):
        st = (self._count, self._owner)
        self._count, self._owner = 0, None
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self._count, self._owner = st


class SchedSimpleQueue:
    """queue.SimpleQueue with the same atomicity, blocking cooperatively."""

    __class_getitem__ = classmethod(types.GenericAlias)

    def __init__(self):
        self._q = deque()

    def put(self, item, block=True, timeout=None):
        point()
        self._q.append(item)

    put_nowait = put

    def get(self, block=True, timeout=None):
        point()
        if not self._q:
            lt = current()
            if block and lt is not None:
                _active.block(lt, lambda: bool(self._q), timeout=timeout is not None)
            elif block and timeout is None:
                raise Violation("the thread blocks forever on an empty queue")
            if not self._q:
                raise queue.Empty
        return self._q.popleft()

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        return not self._q

    def qsize(self):
        return len(self._q)


_installed = False


def install():
    global _installed
    if _installed:
        return
    if any(m == "expression" or m.startswith("expression.") for m in sys.modules):
        raise HarnessError("sched.install() must come before the package is imported")
    import asyncio  # noqa: F401 - these capture the real locks first
    import concurrent.futures.thread  # noqa: F401
    import logging  # noqa: F401
    import multiprocessing  # noqa: F401
    import multiprocessing.connection  # noqa: F401
    import multiprocessing.popen_fork  # noqa: F401
    import functools  # noqa: F401
    threading.Lock = SchedLock
    threading.RLock = SchedRLock
    threading._allocate_lock = SchedLock  # what Condition waits on
    queue.SimpleQueue = SchedSimpleQueue
    _installed = True


# --- an event loop living in a scheduled thread ----------------------------------
def thread_loop_class():
    from .simloop import SimLoop

    class ThreadLoop(SimLoop):
        """Ready callbacks in FIFO order; idle until woken the way a selector loop is (call_soon_threadsafe)."""

        woken = False
        cleaning = False

        def _write_to_self(self):
            self.woken = True

        def _run_once(self):
            self.steps += 1
            s = _active
            if s is not None and s.aborting:
                raise SchedAbort
            if self.steps > self.max_steps:
                raise Violation(f"the event loop did not come to rest within {self.max_steps} steps")
            while self._scheduled and self._scheduled[0]._cancelled:
                import heapq

                heapq.heappop(self._scheduled)._scheduled = False
                self._timer_cancelled_count -= 1
            if not self.cleaning:
                point()
            if self._ready:
                h = self._ready.popleft()
                if not h._cancelled:
                    h._run()
                return
            if self.idle_ok is not None and self.idle_ok():
                self._stopping = True
                return
            if self.cleaning:
                self._stopping = True
                return
            # a selector loop decides on its timeout first and then sleeps until it is woken
            if current() is None:
                if self.woken:
                    self.woken = False
                    return
                from .simloop import Deadlock

                raise Deadlock()
            wait_until(lambda: self.woken or (self.idle_ok is not None and self.idle_ok()))
            self.woken = False

    return ThreadLoop


def run_loop(ch, main, hold=None):
    """To be called in a scheduled thread: runs ``main(loop)`` on a ThreadLoop until it is done.

    ``hold()`` true keeps the loop serving until it turns false (other threads may still post).
    """
    import asyncio

    from .simloop import _cleanup

    loop = thread_loop_class()(ch)
    asyncio.events._set_running_loop(None)
    asyncio.set_event_loop(loop)
    try:
        task = loop.create_task(main(loop))
        loop.idle_ok = lambda: task.done() and not (hold is not None and hold())
        loop.run_forever()
        if not task.done():
            return ("pending", None, loop)
        if task.cancelled():
            return ("cancelled", None, loop)
        if task.exception() is not None:
            return ("raise", task.exception(), loop)
        return ("ret", task.result(), loop)
    finally:
        if current() is not None:
            current().quiet = True
        loop.woken = loop.cleaning = True
        if _active is None or not _active.aborting:
            _cleanup(loop)
        else:
            import asyncio as a
            for t in a.all_tasks(loop):
                t._log_destroy_pending = False
            try:
                loop.close()
            except BaseException:  # noqa: BLE001
                pass
        asyncio.set_event_loop(None)
