"""P15: a tagged union holds exactly one case, is immutable data, and compares by it."""
import copy
import dataclasses
import itertools
import pickle
import sys
from typing import Generic, Literal, TypeVar

from expression import Error, Nothing, Ok, Some, case, tag, tagged_union
from expression.collections import Block

from mc.core import Section, check, fail
from mc.values import EqAll, Hostile, Opaque, alphabet, leaf_same, outcome

BOUNDS = ("all declarations with 1..4 cases, tag first or last, all 16 option combinations (frozen, order, eq, repr), plain, generic and "
          "subclassed; all constructor argument sets over cases/unknown/tag; all pairs of (case, payload) for equality, hash and order; "
          "every mutation sequence up to length 3; every pickle protocol, copy and deepcopy; 29-value payload alphabet")
ASSUMPTIONS = ["private attributes and explicit dunder calls (re-running __init__) are outside the property"]
T = "thorough"
HERE = sys.modules[__name__]
NAMES = ("b", "a", "d", "c")
Tv = TypeVar("Tv")


def declare(n, tagpos, frozen, order, eq, rep, generic=False):
    name = f"U{n}{tagpos}{int(frozen)}{int(order)}{int(eq)}{int(rep)}{int(generic)}"
    ann, ns = {}, {"__module__": __name__, "__qualname__": name}
    if tagpos == 0:
        ann["tag"] = Literal[NAMES[:n]]
        ns["tag"] = tag()
    for c in NAMES[:n]:
        ann[c] = int
        ns[c] = case()
    if tagpos == 1:
        ann["tag"] = Literal[NAMES[:n]]
        ns["tag"] = tag()
    ns["__annotations__"] = ann
    if generic:
        import types
        cls = types.new_class(name, (Generic[Tv],), {}, lambda d: d.update(ns))
    else:
        cls = type(name, (), ns)
    cls = tagged_union(frozen=frozen, order=order, eq=eq, repr=rep)(cls)
    setattr(HERE, name, cls)
    return cls


DECLS = []
for n_, tp_, (fr_, od_, eq_, rp_) in itertools.product((1, 2, 3, 4), (0, 1), itertools.product((True, False), repeat=4)):
    DECLS.append((n_, tp_, fr_, od_, eq_, rp_, declare(n_, tp_, fr_, od_, eq_, rp_)))
for fr_, od_ in itertools.product((True, False), repeat=2):
    DECLS.append((3, 0, fr_, od_, True, True, declare(3, 0, fr_, od_, True, True, True)))


@tagged_union(frozen=True, order=True)
class Shape:
    tag: Literal["square", "circle", "none"] = tag()
    square: float = case()
    circle: int = case()
    none: None = case()

    @staticmethod
    def Square(x):
        return Shape(square=x)


class SubShape(Shape):
    """A subclass keeps its type through copies."""

    def area(self):
        return self.tag


@tagged_union
class Bare:
    tag: Literal["x", "y"] = tag()
    x: int = case()
    y: int = case()


@tagged_union(frozen=True)
class Other:
    tag: Literal["square", "circle"] = tag()
    square: float = case()
    circle: int = case()


def reports(u, cls, name, names, v, what):
    check(isinstance(u, cls) and u.tag == name and type(u.tag) is str, f"{what}: wrong case", tag=u.tag, expected=name)
    got = getattr(u, name)
    check(got is v or leaf_same(got, v), f"{what}: wrong value", got=got, expected=v)
    for o in names:
        if o != name:
            r = outcome(getattr, u, o)
            check(r[0] == "raise" and isinstance(r[1], AttributeError), f"{what}: another case is readable", case=o, got=r)
            check(not hasattr(u, o), f"{what}: hasattr of another case")
    fs = {f.name for f in dataclasses.fields(u)}
    check(fs == {"tag", name}, f"{what}: fields of the instance", fields=fs)


def body_construct(ch, st):
    n, tp, fr, od, eq, rp, cls = DECLS[ch.choose(len(DECLS))]
    names = NAMES[:n]
    # all argument sets: each case absent/present, an unknown name absent/present, tag absent/each name/bogus, every order of the names
    vals = [0, None, "v"]
    pool = [*names, "zz"]
    for k in range(0, 3):
        for chosen in itertools.permutations(pool, k):
            for t in (None, *names, "zz", ""):
                for tag_first in (True, False):
                    kw = {}
                    if t is not None and tag_first:
                        kw["tag"] = t
                    for i, c in enumerate(chosen):
                        kw[c] = vals[i]
                    if t is not None and not tag_first:
                        kw["tag"] = t
                    r = outcome(lambda: cls(**kw))
                    good = len(chosen) == 1 and chosen[0] in names and (t is None or t == chosen[0])
                    if good:
                        check(r[0] == "ret", "a well-formed construction failed", args=kw, got=r)
                        reports(r[1], cls, chosen[0], names, vals[0], "constructed")
                    else:
                        check(r[0] == "raise" and isinstance(r[1], TypeError), "an ill-formed construction was accepted", args=kw, got=r)
                    st.step()
    for args in ((1,), ("b",), ("b", 1)):
        r = outcome(lambda: cls(*args))
        check(r[0] == "raise" and isinstance(r[1], TypeError), "positional construction was accepted", got=r)
    # every payload travels unchanged and uninspected
    for c in names:
        for v in alphabet():
            u = cls(**{c: v})
            reports(u, cls, c, names, v, "payload")
            check(getattr(u, c) is v, "another object came back", value=v)
            w = copy.copy(u)
            reports(w, cls, c, names, v, "copy")
            check(getattr(w, c) is v and type(w) is cls, "copy changed the payload", value=v)
            if rp and not isinstance(v, Hostile):
                check(repr(u) == f"{cls.__name__}({c}={v!r})", "repr", got=repr(u))
                check(repr(w) == repr(u), "repr of a copy")
            st.step(2)
        if rp:
            for v in LONG:
                check(repr(cls(**{c: v})) == f"{cls.__name__}({c}={v!r})", "repr of a long value", got=repr(cls(**{c: v}))[:200])
                st.step()
    st.outcome((n, tp, fr, od, eq, rp))


def _nest(k):
    v = ()
    for _ in range(k):
        v = (v, k)
    return v


LONG = [list(range(m)) for m in (5, 7, 11, 100, 1000)] + ["x" * m for m in (29, 31, 100, 1000, 10000)] + [{i: i for i in range(m)} for m in (3, 5, 50)] + \
    [frozenset(range(m)) for m in (7, 40)] + [10 ** 60, b"b" * 99, 1e300, "quote's", 'both\'"', "new\nline", "\\", "{x}", "%s", "\u00e9\u4e2d", *[_nest(k) for k in (2, 7, 9, 50)]]


PV = [0, 1, None, "", "x", (), (1, 2), True, 1.0, -1, Some(1), Nothing, Ok(1), Error("e"), frozenset()]


def body_pairs(ch, st):
    n, tp, fr, od, eq, rp, cls = DECLS[ch.choose(len(DECLS))]
    names = NAMES[:n]
    space = [(i, c, v, cls(**{c: v})) for i, c in enumerate(names) for v in PV]
    for (i, c, v, u), (j, d, w, x) in itertools.product(space, repeat=2):
        if eq:
            exp = c == d and v == w
        else:
            exp = u is x
        check((u == x) is exp and (u != x) is (not exp), "wrong equality", left=(c, v), right=(d, w), got=u == x)
        if fr and eq and exp:
            check(hash(u) == hash(x), "equal values hash differently", left=(c, v), right=(d, w))
        if od:
            e = outcome(lambda: (i, v) < (j, w))
            g = outcome(lambda: u < x)
            g2 = outcome(lambda: x > u)
            if e[0] == "ret":
                check(g[0] == "ret" and bool(g[1]) is e[1], "wrong order", left=(c, v), right=(d, w), got=g, expected=e[1])
                check(g2[0] == "ret" and bool(g2[1]) is e[1], "wrong order (>)", left=(c, v), right=(d, w), got=g2, expected=e[1])
            else:
                check(g[0] == "raise" and isinstance(g[1], TypeError), "incomparable payloads were ordered", left=v, right=w, got=g)
        st.step()
    if not od and n > 1:
        r = outcome(lambda: cls(b=1) < cls(a=2))
        check(r[0] == "raise" and isinstance(r[1], TypeError), "an unordered union was ordered", got=r)
    for i, c, v, u in space:
        for o in (v, c, None, (c, v), {c: v}, Opaque("o"), Shape(square=1.0)):
            if eq:
                check((u == o) is False and (u != o) is True, "equal to something that is not of the union", value=o)
            if od:
                r = outcome(lambda: u < o)
                check(r[0] == "raise" and isinstance(r[1], TypeError), "ordered with something that is not of the union", value=o, got=r)
        if fr:
            h = hash(u)
            check(h == hash(u) == hash(cls(**{c: v})), "unstable hash")
            check(len({u, cls(**{c: v})}) == (1 if eq else 2), "set membership")
    if fr:
        for bad in ([], {}, [1]):
            r = outcome(lambda: hash(cls(b=bad)))
            check(r[0] == "raise" and isinstance(r[1], TypeError), "hash of an unhashable payload", got=r)
    if od:
        # sorting: declaration order of the cases first, then the values
        pool = [(c, v) for c in reversed(names) for v in (2, 0, 1)]
        for rot in range(len(pool)):
            p = pool[rot:] + pool[:rot]
            got = [(u.tag, getattr(u, u.tag)) for u in sorted(cls(**{c: v}) for c, v in p)]
            exp = sorted(p, key=lambda cv: (names.index(cv[0]), cv[1]))
            check(got == exp, "sorted order", got=got, expected=exp)
            got = [(u.tag, getattr(u, u.tag)) for u in (min(cls(**{c: v}) for c, v in p), max(cls(**{c: v}) for c, v in p))]
            check(got == [exp[0], exp[-1]], "min/max", got=got)
    st.outcome((n, tp, fr, od, eq, rp))


def body_mutate(depth):
    def body(ch, st):
        n, tp, fr, od, eq, rp, cls = FROZEN[ch.choose(len(FROZEN))]
        names = NAMES[:n]
        c = names[ch.choose(n)]
        v = [1, 2]
        u = cls(**{c: v})
        d = copy.copy(u)
        r0 = repr(u) if rp else None
        for _ in range(depth):
            tgt = ch.choose(n + 1)
            name = (*names, "tag")[tgt]
            op = ch.choose(4)
            if op == 0:
                r = outcome(setattr, u, name, 9)
            elif op == 1:
                r = outcome(delattr, u, name)
            elif op == 2:
                r = outcome(setattr, u, name, v if name == c else "a")  # even an unchanged value
            else:
                r = outcome(setattr, u, name, None)
            check(r[0] == "raise" and isinstance(r[1], (TypeError, AttributeError)), "a frozen union was changed", op=op, name=name, got=r)
            reports(u, cls, c, names, v, "after a rejected change")
            st.step()
        check(not eq or u == d, "no longer equal to its copy")
        if rp:
            check(repr(u) == r0, "repr changed")
        st.outcome((n, c))
    return body


FROZEN = [d for d in DECLS if d[2]]


def eqv(a, b):
    """Structural equality, independent of the library's __eq__."""
    if type(a) is not type(b):
        return False
    if hasattr(a, "tag"):
        return a.tag == b.tag and eqv(getattr(a, a.tag), getattr(b, b.tag))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(eqv, a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(eqv(a[k], b[k]) for k in a)
    return a is b or (a != a and b != b) or a == b


def shared_mutable(a, b):
    """A mutable object reachable from both values, or None."""
    seen = {}

    def walk(x, visit):
        if id(x) in visit:
            return
        visit[id(x)] = x
        if isinstance(x, dict):
            for k, v in x.items():
                walk(k, visit)
                walk(v, visit)
        elif isinstance(x, (list, tuple, set, frozenset)):
            for v in x:
                walk(v, visit)
        elif hasattr(x, "tag") and dataclasses.is_dataclass(x):
            walk(getattr(x, x.tag), visit)
        elif hasattr(x, "__dict__") and not isinstance(x, type):
            for v in vars(x).values():
                walk(v, visit)
    walk(a, seen)
    other = {}
    walk(b, other)
    for i, x in other.items():
        if i in seen and isinstance(x, (list, dict, set, bytearray, Box)):
            return x
    return None


class Box:
    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return type(o) is Box and o.v == self.v


def body_copies(ch, st):
    decls = [*DECLS, (3, 0, True, True, True, True, Shape), (3, 0, True, True, True, True, SubShape), (2, 0, False, False, True, True, Bare)]
    n, tp, fr, od, eq, rp, cls = decls[ch.choose(len(decls))]
    names = [f.name for f in dataclasses.fields(cls) if f.name != "tag"]
    for c in names:
        for mk in (lambda: 0, lambda: None, lambda: "", lambda: [1, [2]], lambda: {"k": [1]}, lambda: (1, [2]), lambda: cls(**{names[0]: [3]}),
                   lambda: Some([1]), lambda: Nothing, lambda: Ok({"a": 1}), lambda: Error(None), lambda: [cls(**{c: 1}), cls(**{names[-1]: [2]})],
                   lambda: float("nan"), lambda: 10**30, lambda: b"x", lambda: {1, 2}, lambda: ([1],), lambda: (((), [0]), None), lambda: Some(([1],)), lambda: Box([1]),
                   lambda: (Box(0),), lambda: bytearray(b"q"), lambda: Ok((Nothing, {})), lambda: {"k": (Some([]),)}, lambda: Block([[1], [2]])):
            v = mk()
            u = cls(**{c: v})
            outs = [("deepcopy", copy.deepcopy(u))]
            for p in range(pickle.HIGHEST_PROTOCOL + 1):
                outs.append((f"pickle {p}", pickle.loads(pickle.dumps(u, p))))
            for what, w in outs:
                check(type(w) is cls, f"{what} changed the type", got=type(w))
                check(w is not u, f"{what} returned the same object") if what == "deepcopy" and not fr else None
                check(w.tag == c and eqv(getattr(w, c), v), f"{what}: not equal", got=w, expected=u)
                for o in names:
                    check(o == c or not hasattr(w, o), f"{what}: another case is readable")
                sh = shared_mutable(u, w)
                check(sh is None, f"{what} shares a mutable value with the original", shared=sh, value=v)
                if isinstance(v, (list, dict, set)):
                    check(getattr(w, c) is not v, f"{what} shares a mutable payload")
                    (v.clear())
                    check(eqv(getattr(w, c), mk()), f"{what} follows the original", now=getattr(w, c))
                    v = mk()
                    u = cls(**{c: v})
                if fr:
                    r = outcome(setattr, w, c, 1)
                    check(r[0] == "raise", f"{what} is not frozen")
                if od and isinstance(v, int):
                    check(cls(**{c: v - 1}) < w < cls(**{c: v + 1}), f"{what} lost its place in the order")
                # and again: a copy of a copy
                w2 = copy.copy(copy.deepcopy(w))
                check(w2.tag == c and eqv(getattr(w2, c), mk()) and type(w2) is cls, f"copy of a {what}")
                st.step()
            # sharing inside a deep copied structure survives
            a, b = copy.deepcopy([u, u])
            check(a is b, "deepcopy split a shared union")
            if isinstance(v, (int, str, list)):
                d = dataclasses.asdict(cls(**{c: 5}))
                check(d == {"tag": c, c: 5}, "asdict", got=d)
    cyc = []
    u = cls(**{names[0]: cyc})
    cyc.append(cyc)
    w = copy.deepcopy(u)
    g = getattr(w, names[0])
    check(g is not cyc and g[0] is g, "deepcopy of a cyclic payload")
    st.outcome((n, tp, fr, od, eq, rp, cls.__name__))


def classify(u):
    match u:
        case Shape(tag="square", square=x):
            return ("square", x)
        case Shape(tag="circle", circle=x):
            return ("circle", x)
        case Shape(tag="none"):
            return ("none", None)
        case _:
            return None


def classify2(u):
    match u:
        case Shape(none=_):
            return ("none", None)
        case Shape(circle=x):
            return ("circle", x)
        case Shape(square=x):
            return ("square", x)
        case _:
            return None


def fn_match(st, tier):
    for c, vals in (("square", alphabet()), ("circle", alphabet()), ("none", [None])):
        for v in vals:
            for cls in (Shape, SubShape):
                u = cls(**{c: v})
                for f in (classify, classify2):
                    g = f(u)
                    check(g is not None and g[0] == c and g[1] is v, "pattern matching took the wrong branch", case=c, value=v, got=g)
                    st.step()
            if c in ("square", "circle"):
                check(classify(Other(**{c: v})) is None and classify2(Other(**{c: v})) is None, "matched a different union")
    # equality across unions of the same shape
    for c, d in itertools.product(("square", "circle"), repeat=2):
        for v, w in itertools.product((0, 1, None, ""), repeat=2):
            check((Shape(**{c: v}) == Other(**{d: w})) is False and (Other(**{d: w}) == Shape(**{c: v})) is False,
                  "values of different unions are equal", left=(c, v), right=(d, w))
            check((Shape(**{c: v}) == SubShape(**{d: w})) is (c == d and v == w), "subclass equality", left=(c, v), right=(d, w))
            check((SubShape(**{c: v}) == Shape(**{d: w})) is (c == d and v == w), "subclass equality", left=(c, v), right=(d, w))
            if c == d and v == w:
                check(hash(Shape(**{c: v})) == hash(SubShape(**{d: w})), "equal values hash differently")
            st.step()
    check(Shape.Square(2).tag == "square" and SubShape(circle=1).area() == "circle", "methods")
    # a mutable union keeps comparing by its current value
    for cls in [Bare] + [d[6] for d in DECLS if not d[2] and d[4] and d[0] >= 2]:
        names = [f.name for f in dataclasses.fields(cls) if f.name != "tag"]
        a, b = cls(**{names[0]: 1}), cls(**{names[0]: 1})
        check(a == b, "equality")
        setattr(a, names[0], 2)
        check(a != b and a == cls(**{names[0]: 2}) and getattr(b, names[0]) == 1, "a changed mutable union")
        check(a.tag == names[0], "tag after a change")
        st.step()
    # instances of one union never influence each other
    us = [Shape(**{c: v}) for c in ("square", "circle", "none") for v in (1, None, "x")]
    for _ in range(3):
        for u, (c, v) in zip(us, itertools.product(("square", "circle", "none"), (1, None, "x"))):
            reports(u, Shape, c, ("square", "circle", "none"), v, "one of many")
            st.step()
    st.executions += 1


WIDE = ("m", "c", "k", "a", "l", "b", "j", "d", "i", "e", "h", "f", "g")


def wide(name, names, frozen=True, tagpos=0):
    ann, ns = {}, {"__module__": __name__, "__qualname__": name}
    for c in (("tag", *names) if tagpos == 0 else (*names, "tag")):
        ann[c] = int
        ns[c] = tag() if c == "tag" else case()
    ns["__annotations__"] = ann
    return tagged_union(frozen=frozen, order=True)(type(name, (), ns))


def fn_wide(st, tier):
    """Many cases: order, equality and hash by position of declaration; unions that merely look alike are different."""
    for n in (5, 9, 10, 11, 13):
        for tagpos in (0, 1):
            cls = wide(f"Wide{n}", WIDE[:n], tagpos=tagpos)
            vals = [(i, v, cls(**{c: v})) for i, c in enumerate(WIDE[:n]) for v in (-1, 0, 1, 10)]
            for i, v, u in vals:
                reports(u, cls, WIDE[i], WIDE[:n], v, "a union of many cases")
                for j, w, x in vals:
                    check((u < x) is ((i, v) < (j, w)) and (u > x) is ((i, v) > (j, w)), "wrong order", left=(WIDE[i], v), right=(WIDE[j], w))
                    exp = (i, v) == (j, w)
                    check((u == x) is exp and (u != x) is (not exp), "wrong equality", left=(WIDE[i], v), right=(WIDE[j], w))
                    if exp:
                        check(hash(u) == hash(x), "equal values hash differently", left=(WIDE[i], v), right=(WIDE[j], w))
                    st.step()
            check([u for _, _, u in vals] == sorted([u for _, _, u in vals][::-1]), "sorted by declaration order")
            st.outcome((n, tagpos))
    for same in (("a", "b"), ("b", "a"), ("a", "b", "c"), ("a",)):
        one, two = wide("Twin", ("a", "b")), wide("Twin", same)
        for v in (0, None, "x"):
            for w in (0, None, "x"):
                for c in same:
                    u, x = one(a=v), two(**{c: w})
                    check((u == x) is False and (x == u) is False and (u != x) is True and (x != u) is True, "values of two unions of the same name are equal", u=u, x=x)
                    check(len({u, x}) == 2, "values of two unions of the same name in a set")
                    for f in (lambda: u < x, lambda: x < u, lambda: u > x):
                        r = outcome(f)
                        check(r[0] == "raise" and isinstance(r[1], TypeError), "ordered with a value of another union", got=r)
                    st.step()


def sections(tier):
    t = tier == T
    return [
        Section("construction", body_construct, shards=8, bounds=f"{len(DECLS)} declarations, all argument sets"),
        Section("pairs", body_pairs, shards=8, bounds="all pairs of values: equality, hash, order"),
        Section("wide", fn=fn_wide, bounds="unions of 5 to 13 cases: all pairs; unions of the same name and cases are still different"),
        Section("mutation", body_mutate(3 if t else 2), shards=8, bounds="all sequences of mutation attempts"),
        Section("copies", body_copies, shards=8, bounds="copy, deepcopy, pickle"),
        Section("matching", fn=fn_match, bounds="pattern matching and cross-union equality"),
    ]
