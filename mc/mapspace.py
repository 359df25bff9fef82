"""Explicit-state search of the maps reachable by histories of add/remove/change.

Keys are ordered objects that count comparisons.  A state is a real Map plus
its dictionary model; two maps are the same state when their object graphs are
the same up to an order-preserving renaming of keys (values are opaque to the
map).  New keys may be inserted into every gap between existing keys.
"""
from __future__ import annotations

import os
import pickle
import time
from collections import deque

from .core import fail, short
from .values import NONE, Just, matches


class Cmp:
    n = 0


class Key:
    __slots__ = ("x", "rank")

    def __init__(self, x):
        self.x = x
        self.rank = 0

    def __lt__(self, o):
        Cmp.n += 1
        return self.x < o.x

    def __gt__(self, o):
        Cmp.n += 1
        return self.x > o.x

    def __le__(self, o):
        Cmp.n += 1
        return self.x <= o.x

    def __ge__(self, o):
        Cmp.n += 1
        return self.x >= o.x

    def __eq__(self, o):
        Cmp.n += 1
        return isinstance(o, Key) and self.x == o.x

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.x)

    def __reduce__(self):
        return (int, (self.rank,))

    def __repr__(self):
        return f"k{self.x:g}"


class Val:
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __reduce__(self):
        return (int, (-7,))

    def __repr__(self):
        return f"v{self.n}"


def _walk(o, seen, depth=0):
    if isinstance(o, Key):
        return ("k", o.rank)
    if isinstance(o, Val):
        return "v"
    if o is None or isinstance(o, (int, str, bytes, float)):
        return o
    if id(o) in seen or depth > 200:
        return "cycle"
    seen = seen | {id(o)}
    if isinstance(o, (tuple, list)):
        return tuple(_walk(x, seen, depth + 1) for x in o)
    if isinstance(o, dict):
        return tuple((_walk(k, seen, depth + 1), _walk(v, seen, depth + 1)) for k, v in o.items())
    d = dict(getattr(o, "__dict__", {}) or {})
    for c in type(o).__mro__:
        s = c.__dict__.get("__slots__", ())
        for a in (s,) if isinstance(s, str) else s:
            if hasattr(o, a):
                d[a] = getattr(o, a)
    return (type(o).__name__, tuple((k, _walk(v, seen, depth + 1)) for k, v in sorted(d.items())))


_PICKLE = True


def fingerprint(m, keys):
    """Structure of the map up to order-preserving key renaming."""
    global _PICKLE
    for i, k in enumerate(keys):
        k.rank = i
    if _PICKLE:
        try:
            return pickle.dumps(m, 4)
        except Exception:  # noqa: BLE001 - not every implementation is picklable
            _PICKLE = False
    return _walk(m, frozenset())


def probes(keys):
    """Existing keys and one new key per gap."""
    out = list(keys)
    if not keys:
        return [Key(0.0)]
    xs = [k.x for k in keys]
    out.append(Key(xs[0] - 1))
    for a, b in zip(xs, xs[1:]):
        out.append(Key((a + b) / 2))
    out.append(Key(xs[-1] + 1))
    return out


def content(m):
    return list(m.to_seq())


def same_content(m, model, what, hist=None):
    """Cheap content check: ascending order, right values, right length."""
    exp = sorted(model.items(), key=lambda kv: kv[0].x)
    got = list(m.to_seq())
    if len(got) != len(exp) or any(not (g[0].x == e[0].x and g[1] is e[1]) for g, e in zip(got, exp)):
        fail(f"{what}: wrong content", got=got, expected=exp, history=hist)
    if len(m) != len(exp):
        fail(f"{what}: wrong size {len(m)}, expected {len(exp)}", history=hist)


def model_of(model):
    return [(k, model[k]) for k in sorted(model, key=lambda k: k.x)]


class State:
    __slots__ = ("m", "model", "keys", "hist", "peak")

    def __init__(self, m, model, keys, hist, peak):
        self.m, self.model, self.keys, self.hist, self.peak = m, model, keys, hist, peak


def bfs(empty, nmax, st, on_state=None, on_transition=None, ops=("add", "remove", "change"), cap=400000):
    """All maps of at most nmax bindings reachable from ``empty``.

    Removal-only descendants included; ``peak`` is the largest size on the
    first-found (shortest) history of a state.
    """
    from expression import Nothing, Some

    start = State(empty, {}, [], (), 0)
    seen = {fingerprint(empty, [])}
    queue = deque([start])
    states = []
    vn = 0
    t_end = time.monotonic() + (150 if os.environ.get("VERIF_TIER", "quick") == "quick" else 3 * 3600)
    while queue:
        s = queue.popleft()
        if time.monotonic() > t_end:  # a representation that keeps history never closes
            st.note("truncated", 1)
            return states
        states.append(s)
        if on_state is not None:
            on_state(s)
        here = probes(s.keys)
        present = {k.x for k in s.keys}
        for k in here:
            has = k.x in present
            todo = []
            vn += 1
            v = Val(vn)
            if has or len(s.keys) < nmax:
                if "add" in ops:
                    todo.append(("add", v, lambda m: m.add(k, v)))
                if "change" in ops:
                    todo.append(("change", v, lambda m: m.change(k, lambda o: _expect(o, s, k, has) or Some(v))))
            if "remove" in ops:
                todo.append(("remove", None, lambda m: m.remove(k)))
            if "change" in ops:
                todo.append(("change", None, lambda m: m.change(k, lambda o: _expect(o, s, k, has) or Nothing)))
            for name, val, f in todo:
                st.step()
                c0 = Cmp.n
                h = (*s.hist, f"{name}{'' if val else '-'}({k.x:g})")
                try:
                    m2 = f(s.m)
                except Exception as e:  # noqa: BLE001
                    fail(f"{name} failed: {type(e).__name__}: {e}", history=h)
                cost = Cmp.n - c0
                model = dict(s.model)
                if val is None:
                    model.pop(k, None)
                    keys = [q for q in s.keys if q.x != k.x]
                else:
                    model.pop(k, None)
                    model[k] = val
                    keys = sorted([q for q in s.keys if q.x != k.x] + [k], key=lambda q: q.x)
                # the map may keep either the old or the new key object: rank both
                s2 = State(m2, model, keys, h, max(s.peak, len(keys)))
                if on_transition is not None:
                    on_transition(s, name, k, val, s2, cost)
                for q in s.keys:
                    q.rank = -1
                ranks = {q.x: i for i, q in enumerate(keys)}
                for q in s.keys:
                    q.rank = ranks.get(q.x, -1)
                fpr = fingerprint(m2, keys)
                if fpr not in seen:
                    seen.add(fpr)
                    if len(seen) > cap:
                        st.note("truncated", 1)
                        return states
                    queue.append(s2)
    return states


def _expect(o, s, k, has):
    exp = Just(s.model[k]) if has else NONE
    if not matches(o, exp):
        fail("change passed the wrong old value", got=short(o), expected=exp, history=s.hist)
    return None
