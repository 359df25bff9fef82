"""Value alphabet, structural comparison with identity at the leaves, recorders."""
from __future__ import annotations

import math

from .core import check, fail, short


class Hostile:
    """A value that must only ever be moved around: inspecting it is a bug."""

    __hash__ = None

    def __init__(self, name="H"):
        self.name = name

    def _no(self, what):
        raise AssertionError(f"the library inspected a payload value ({what})")

    def __bool__(self):
        self._no("bool")

    def __eq__(self, o):
        self._no("==")

    def __ne__(self, o):
        self._no("!=")

    def __len__(self):
        self._no("len")

    def __iter__(self):
        self._no("iter")

    def __repr__(self):
        return f"<Hostile {self.name}>"


class EqAll:
    """Compares equal to everything."""

    def __eq__(self, o):
        return True

    def __ne__(self, o):
        return False

    def __hash__(self):
        return 0

    def __repr__(self):
        return "EqAll"


class Opaque:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<{self.name}>"


class Duck:
    """Has an attribute of every public name, so nothing may be concluded from having one."""

    def __getattr__(self, name):
        if name.startswith("__") or name in ("dict", "model_dump"):
            raise AttributeError(name)
        return "none" if name == "tag" else Duck()

    def __call__(self, *args, **kw):
        return Duck()

    def __repr__(self):
        return "Duck"


class Boom(AttributeError, KeyError, IndexError, TypeError, ValueError, ZeroDivisionError, AssertionError, NotImplementedError, RecursionError, EOFError, BufferError):
    """Raised by callbacks; must propagate unchanged. It is of every common kind, so that no operation may mistake it for its own."""

    __str__ = Exception.__str__


class StopBoom(StopIteration):
    """A failing callback whose exception looks like the end of an iteration."""


class ExitBoom(GeneratorExit):
    """A failing callback whose exception looks like the closing of a generator."""


class BaseBoom(BaseException):
    """A failing callback whose exception is no Exception, as KeyboardInterrupt."""


BOOMS_ALL = (Boom, StopBoom, BaseBoom, ExitBoom)


class Just:
    """Model option: present."""

    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f"Just({short(self.v)})"


class _None:
    def __repr__(self):
        return "NONE"


NONE = _None()


class MOk:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f"MOk({short(self.v)})"


class MErr:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f"MErr({short(self.v)})"


class Exc:
    """Expected: an exception of this type, or this very exception object."""

    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return f"Exc({self.what!r})"


class Ident:
    """Expected: this very object (not merely an equal one)."""

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f"Ident({short(self.v)})"


class SeqOf:
    """Expected: an iterable yielding these elements (checked by iterating twice when re)."""

    def __init__(self, items, typ=None):
        self.items, self.typ = list(items), typ

    def __repr__(self):
        return f"SeqOf({short(self.items)}, {self.typ and self.typ.__name__})"


def alphabet():
    from expression import Error, Nothing, Ok, Some

    global _ALPHA
    try:
        return _ALPHA
    except NameError:
        pass
    _ALPHA = [
        1,
        0,
        None,
        "",
        "x",
        False,
        True,
        (),
        (1, 2),
        [],
        [0],
        {},
        float("nan"),
        -1.5,
        Some(1),
        Nothing,
        Some(None),
        Some(Nothing),
        Ok(1),
        Error("e"),
        Boom("payload"),
        Hostile(),
        EqAll(),
        Opaque("obj"),
        len,
        int,
        b"",
        10**30,
        Duck(),
    ]
    return _ALPHA


def small():
    a = alphabet()
    return [a[0], a[1], a[2], a[3], a[5], a[9], a[14], a[15], a[19], a[21]]


def outcome(f, *args, **kw):
    try:
        return ("ret", f(*args, **kw))
    except (Exception, BaseBoom, ExitBoom) as e:  # noqa: BLE001
        return ("raise", e)


def leaf_same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    t = type(a)
    if t in (int, str, bool, bytes, bytearray):
        return a == b
    if t is float:
        return a == b and math.copysign(1, a) == math.copysign(1, b) or (a != a and b != b)
    if t in (tuple, list):
        return len(a) == len(b) and all(leaf_same(x, y) for x, y in zip(a, b))
    if t is dict:
        return list(a) == list(b) and all(leaf_same(a[k], b[k]) for k in a)
    return False


def matches(actual, exp):
    """Does the actual value correspond to the model value ``exp``?"""
    from expression import Nothing, Option, Result

    if isinstance(exp, Ident):
        return actual is exp.v
    if exp is NONE:
        return isinstance(actual, Option) and actual is Nothing
    if isinstance(exp, Just):
        return (isinstance(actual, Option) and actual.tag == "some" and actual.is_some() is True
                and actual.is_none() is False and matches(actual.some, exp.v))
    if isinstance(exp, MOk):
        return (isinstance(actual, Result) and actual.tag == "ok" and actual.is_ok() is True
                and actual.is_error() is False and matches(actual.ok, exp.v))
    if isinstance(exp, MErr):
        return (isinstance(actual, Result) and actual.tag == "error" and actual.is_error() is True
                and actual.is_ok() is False and matches(actual.error, exp.v))
    if isinstance(exp, SeqOf):
        if exp.typ is not None and not isinstance(actual, exp.typ):
            return False
        items = list(actual)
        if len(items) != len(exp.items):
            return False
        return all(matches(a, e) for a, e in zip(items, exp.items))
    if isinstance(exp, tuple):
        return type(actual) is tuple and len(actual) == len(exp) and all(matches(a, e) for a, e in zip(actual, exp))
    if isinstance(exp, list):
        return type(actual) is list and len(actual) == len(exp) and all(matches(a, e) for a, e in zip(actual, exp))
    return leaf_same(actual, exp)


def agree(got, exp, what, **kw):
    """``got`` is an outcome(), ``exp`` a model value or Exc."""
    kind, val = got
    if isinstance(exp, Exc):
        if kind != "raise":
            fail(f"{what}: expected {exp}, but it returned a value", returned=val, **kw)
        w = exp.what
        ok = isinstance(val, w) if isinstance(w, (type, tuple)) else val is w
        if not ok:
            fail(f"{what}: expected {exp}, got {type(val).__name__}: {val}", **kw)
        return
    if kind == "raise":
        import traceback

        tb = "".join(traceback.format_exception(type(val), val, val.__traceback__)[-3:])
        fail(f"{what}: raised {type(val).__name__}: {val}; expected {short(exp)}\n{tb}", **kw)
    if not matches(val, exp):
        fail(f"{what}: wrong result", got=val, expected=exp, **kw)


class Rec:
    """A callback that records its calls and answers from a fixed behaviour."""

    def __init__(self, fn=None, exc=None):
        self.calls = []
        self.fn = fn
        self.exc = exc

    def __call__(self, *args):
        self.calls.append(args)
        if self.exc is not None:
            raise self.exc.with_traceback(None)
        return self.fn(*args)


def same_calls(a, b, what):
    """Both call logs list the same arguments (by identity at the leaves) in the same order."""
    check(len(a) == len(b), f"{what}: callback called {len(a)} times instead of {len(b)}", calls=a, expected=b)
    for x, y in zip(a, b):
        check(len(x) == len(y) and all(matches(p, q) for p, q in zip(x, y)),
              f"{what}: callback arguments differ", got=x, expected=y)


def diff(st, what, forms, ref, mkargs, keep=None):
    """Compare every call form with the reference on identical fresh arguments.

    ``mkargs()`` builds the argument list (fresh Recs each time); ``ref(*args)``
    returns a model value or raises; ``forms`` is [(name, callable(*args))].
    ``keep`` re-checks, after every form, that the inputs were left unchanged.
    """
    rargs = mkargs()
    r = outcome(ref, *rargs)
    exp = r[1] if r[0] == "ret" else Exc(r[1])
    for fname, form in forms:
        args = mkargs()
        got = outcome(form, *args)
        agree(got, exp, f"{what} [{fname}]", args=args)
        for x, y in zip(args, rargs):
            if isinstance(x, Rec):
                same_calls(x.calls, y.calls, f"{what} [{fname}]")
        if keep is not None:
            keep(f"{what} [{fname}]")
        st.step()
    return exp


KIND = {"stop": (StopBoom, "StopIteration"), "base": (BaseBoom, "BaseException"), "exit": (ExitBoom, "GeneratorExit")}


def variants(sections, names, module, kinds=("stop", "base")):
    """The named sections once more, with callbacks that raise other kinds of exception."""
    import sys

    from mc.core import Section

    def again(sec, kind):
        cls = KIND[kind][0]

        def swap():
            m = sys.modules[module]
            if hasattr(m, "BOOMS"):
                m.BOOMS[:] = [cls(f"stage{i}") for i in range(len(m.BOOMS))]
            else:
                m.BOOM = cls("callback")

        class Again(Section):
            def run(self, st, shard, tier):
                swap()
                super().run(st, shard, tier)
        new = Again(f"{sec.name} ({kind} exceptions)", sec.body, sec.fn, sec.dev_bound, sec.shards, sec.tiers, sec.bounds + "; the failures are " + KIND[kind][1] + "s", sec.wd)
        return new
    return list(sections) + [again(s, k) for s in sections if s.name in names for k in kinds]


class Acc:
    """A summable whose in-place addition changes it: adding up must not."""

    def __init__(self, items):
        self.items = list(items)

    def __add__(self, o):
        return Acc(self.items + o.items)

    def __radd__(self, o):
        return self if o == 0 else Acc(o.items + self.items)

    def __iadd__(self, o):
        self.items += o.items
        return self

    def __repr__(self):
        return f"Acc{self.items}"


def tie_cases():
    """(kind, values, expected): values that compare equal but can be told apart, and summables."""
    for vals in ([1, True, 1.0], [1.0, True, 1], [True, 1.0, 1, 0, False, 0.0, -0.0], [0.0, -0.0], [-0.0, 0.0], [(1,), (True,), (1.0,)],
                 [(0, "b"), (0.0, "a"), (False, "b")], ["a", "a"], [2, 1, True, 2.0, 1.0], [[1], [True], [1.0]]):
        yield "order", vals, None
    for n in range(5):
        yield "sum", [Acc([i, i]) for i in range(n)], [x for i in range(n) for x in (i, i)]


def sum_case(st, vals, exp, forms):
    before = [list(v.items) for v in vals]
    for _ in range(2):
        for name, f in forms.items():
            r = f()
            got = [] if r == 0 and not isinstance(r, Acc) else r.items
            check(got == exp, f"{name}: wrong sum", got=got, expected=exp)
            check([v.items for v in vals] == before, f"{name} changed an element", before=before, now=[v.items for v in vals])
            st.step()
