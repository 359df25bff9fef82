"""A controlled asyncio event loop.

Ready callbacks run in asyncio's own FIFO order (that order is deterministic in
asyncio); everything the outside world decides - when an external future
completes and how, when a timer fires, when somebody cancels - is an
*environment event*.  At every point where the loop is idle the explorer picks
which enabled event happens next; between two ready callbacks an event may also
be slipped in, which costs one deviation.  Time is virtual.
"""
from __future__ import annotations

import asyncio
import heapq

from .core import HarnessError, Violation


class Deadlock(Exception):
    """Nothing is ready, no event is enabled, and the main coroutine waits."""


class Env:
    """Environment events, each fired at most once when enabled."""

    def __init__(self):
        self.events = []  # [name, fn, enabled]

    def add(self, name, fn, enabled=None, free=True):
        e = [name, fn, enabled, free]
        self.events.append(e)
        return e

    def remove(self, e):
        if e in self.events:
            self.events.remove(e)


class SimLoop(asyncio.BaseEventLoop):
    def __init__(self, ch, env=None, max_steps=20000):
        super().__init__()
        self.ch = ch
        self.env = env or Env()
        self._now = 0.0
        self.steps = 0
        self.max_steps = max_steps
        self.trace = []
        self.unhandled = []
        self.slip_timers = False  # timers may also fire between two ready callbacks (costs a deviation)
        self.idle_ok = None  # callable: True when the run may end at idle
        self.set_exception_handler(lambda loop, ctx: self.unhandled.append(ctx))

    # -- BaseEventLoop plumbing
    def time(self):
        return self._now

    def _write_to_self(self):
        pass

    def _process_events(self, event_list):
        pass

    def _run_once(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Violation(f"the event loop did not come to rest within {self.max_steps} steps")
        # drop cancelled timers
        while self._scheduled and self._scheduled[0]._cancelled:
            h = heapq.heappop(self._scheduled)
            h._scheduled = False
            self._timer_cancelled_count -= 1
        ready = bool(self._ready)
        enabled = [e for e in self.env.events if (e[2] is None or e[2]())]
        timer = bool(self._scheduled)
        if ready:
            slip = [e for e in enabled if e[3]]
            tslip = timer and self.slip_timers
            c = self.ch.deviate(1 + len(slip) + tslip) if slip or tslip else 0
            if c == 1 + len(slip):
                self._fire_timer()
                return
            if c == 0:
                h = self._ready.popleft()
                if not h._cancelled:
                    h._run()
                return
            self._fire(slip[c - 1])
            return
        n = len(enabled) + (1 if timer else 0)
        if n == 0:
            if self.idle_ok is not None and self.idle_ok():
                self._stopping = True
                return
            raise Deadlock()
        c = self.ch.choose(n) if n > 1 else 0
        if c < len(enabled):
            self._fire(enabled[c])
            return
        self._fire_timer()

    def _fire_timer(self):
        h = heapq.heappop(self._scheduled)
        h._scheduled = False
        self._now = max(self._now, h._when)
        self.trace.append(f"t={self._now:g}")
        self._ready.append(h)

    def _fire(self, e):
        self.env.remove(e)
        self.trace.append(e[0])
        e[1]()


def run(ch, main, env=None, drain=True, setup=None, max_steps=20000):
    """Run ``main(loop, env)`` (a coroutine function) to completion under the explorer.

    Returns (kind, value, loop): kind in ret/raise/cancelled/deadlock.
    With ``drain`` the loop then runs until nothing is ready and no event enabled.
    """
    env = env or Env()
    loop = SimLoop(ch, env, max_steps)
    asyncio.events._set_running_loop(None)
    try:
        asyncio.set_event_loop(loop)
        if setup:
            setup(loop, env)
        task = loop.create_task(main(loop, env))
        task.add_done_callback(lambda t: None if drain else loop.stop())
        if drain:
            loop.idle_ok = lambda: task.done()
        try:
            loop.run_forever()
        except Deadlock:
            return ("deadlock", None, loop)
        if task.cancelled():
            return ("cancelled", None, loop)
        if task.exception() is not None:
            return ("raise", task.exception(), loop)
        return ("ret", task.result(), loop)
    finally:
        try:
            _cleanup(loop)
        finally:
            asyncio.set_event_loop(None)


def _cleanup(loop):
    """Cancel leftovers so that no pending-task noise escapes; not part of the verdict."""
    if loop.is_closed():
        return
    loop.env.events.clear()
    loop.ch = _Zero()
    loop.idle_ok = lambda: True
    kept = list(loop.unhandled)
    for _ in range(3):
        pend = [t for t in asyncio.all_tasks(loop) if not t.done()]
        for t in pend:
            t.cancel()
        loop.steps = 0
        try:
            loop.run_forever()
        except (Deadlock, Violation):
            pass
        except BaseException:  # noqa: BLE001
            break
        if not pend:
            break
    try:
        loop.run_until_complete(loop.shutdown_asyncgens())
    except BaseException:  # noqa: BLE001
        pass
    loop.unhandled[:] = kept
    for t in asyncio.all_tasks(loop):
        t._log_destroy_pending = False
    loop.close()


class _Zero:
    def choose(self, n, label=None):
        return 0

    def deviate(self, n, label=None):
        return 0
