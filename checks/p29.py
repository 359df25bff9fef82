"""P29: equality, hashing and ordering of the package's values are lawful among all values."""
import array
import functools
import itertools

from expression import Error, Nothing, Ok, Option, Result, Some, case, tag, tagged_union
from expression.collections import Block, Map, Seq, TypedArray
from expression.core import Success

from mc.core import Section, check, fail
from mc.values import outcome

T = "thorough"
BOUNDS = ("every ordered pair of a universe of about 700 values (the package's values over 12 payloads nested twice, and plain values of 14 kinds; thorough: about 2300): "
          "==, !=, hash, membership, dictionary and set lookup; ordering of every pair of ordered values, every arrangement of 5 of them sorted, "
          "every triple for transitivity; re-examined after every operation on the values")
ASSUMPTIONS = ["payloads have a lawful equality of their own (no NaN)"]


@tagged_union(frozen=True, order=True)
class U:
    tag: str = tag()
    a: int = case()
    b: object = case()


@tagged_union(frozen=True, order=True)
class V:
    tag: str = tag()
    a: int = case()
    b: object = case()


class Weird:
    """Foreign type with a reflected equality of its own."""
    __hash__ = None

    def __eq__(self, o):
        return isinstance(o, Weird)


class Plain:
    pass


PLAIN = [None, 0, 1, True, 2, -1.5, 1.0, "", "a", "1", b"\x01", (), (1,), (1, "a"), [], [1], [1, 2], {}, {0: 1}, {1}, frozenset({1}), range(0), range(1, 2), Plain(), Weird(),
         int, len, array.array("l", [1]), 10**20, "some", ("some", 1)]


def payloads():
    return [None, 0, 1, True, "", "a", (), (1,), [1], Nothing, Some(1), Ok(1), -1, -2]


CONS = [("Some", Some), ("Ok", Ok), ("Error", Error), ("Success", Success), ("Block1", lambda x: Block([x])), ("Block2", lambda x: Block([x, 1])), ("Map", lambda x: Map.of_seq([(1, x)])),
        ("Map2", lambda x: Map.of_seq([("b", x), ("a", 1)])), ("Ua", lambda x: U(a=x)), ("Ub", lambda x: U(b=x)), ("Vb", lambda x: V(b=x)), ("tuple", lambda x: (x,)), ("list", lambda x: [x])]
FIXED = [lambda: Nothing, lambda: Block([]), lambda: Map.empty(), lambda: TypedArray([]), lambda: TypedArray([1]), lambda: TypedArray([1, 2]), lambda: TypedArray(["a"]), lambda: Seq([1]), lambda: Seq([]),
         lambda: Some(TypedArray([1])), lambda: Block([Block([])]), lambda: Map.of_seq([(1, None), (0, None)]), lambda: Map.of_seq([(i, i) for i in range(9)]),
         lambda: Map.of_seq([(i, i) for i in range(8, -1, -1)]), lambda: Map.of_seq([(i, i) for i in range(10)]).remove(9)]


def universe(deep):
    lvl = [(repr(p), lambda p=p: p) for p in payloads()]
    one = [(f"{n}({m})", lambda c=c, f=f: c(f())) for n, c in CONS for m, f in lvl]
    out = [(repr(p), lambda p=p: p) for p in PLAIN] + one + [(f"fixed{i}", f) for i, f in enumerate(FIXED)]
    two = [(f"{n}({m})", lambda c=c, f=f: c(f())) for n, c in CONS for m, f in one]
    return out + (two if deep else two[::4])


def same(a, b):
    """The model of ==."""
    if a is b:
        return True
    for t in (Option, Result, U, V):
        if isinstance(a, t) or isinstance(b, t):
            return isinstance(a, t) and isinstance(b, t) and a.tag == b.tag and same(getattr(a, a.tag), getattr(b, b.tag))
    if isinstance(a, Map) or isinstance(b, Map):
        return isinstance(a, Map) and isinstance(b, Map) and _each(list(a.to_seq()), list(b.to_seq()))
    if isinstance(a, Seq) or isinstance(b, Seq):
        return False
    if isinstance(a, TypedArray) or isinstance(b, TypedArray):
        o = b if isinstance(a, TypedArray) else a
        return isinstance(o, (list, tuple, str, bytes, range, array.array, Block, TypedArray)) and _each(list(a), list(b))
    if isinstance(a, Block) or isinstance(b, Block):
        return isinstance(a, (Block, tuple)) and isinstance(b, (Block, tuple)) and _each(list(a), list(b))
    if isinstance(a, (tuple, list)) and type(a) is type(b):
        return _each(a, b)
    return bool(a == b)


def _each(a, b):
    return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))


def hashable(v):
    return outcome(hash, v)[0] == "ret"


def pairs(deep):
    def run(st, tier, shard=(0, 1)):
        us = universe(deep)
        left = [(n, f()) for n, f in us]
        right = [(n, f()) for n, f in us]
        hs = [hash(v) if hashable(v) else None for _, v in left]
        for i, (n, v) in enumerate(left):
            if i % shard[1] != shard[0]:
                continue
            for j, (m, w) in enumerate(right):
                exp = same(v, w)
                r = outcome(lambda: (v == w, w == v, v != w, w != v, v in [w], w in (v,)))
                if r[0] == "raise":
                    fail(f"comparing {n} and {m} raised {type(r[1]).__name__}: {r[1]}")
                got = r[1]
                if got != (exp, exp, not exp, not exp, exp, exp):
                    fail(f"{n} and {m} compare wrongly", got=dict(zip(("v == w", "w == v", "v != w", "w != v", "v in [w]", "w in (v,)"), got)), expected_equal=exp)
                if exp and hs[i] is not None and hs[j] is not None:
                    check(hash(v) == hash(w), f"{n} and {m} are equal but hash differently")
                if hs[i] is not None and hs[j] is not None:
                    check(({v: "x"}.get(w) == "x") is exp and (w in {v}) is exp and len({v, w}) == (1 if exp else 2), f"{n} and {m} as keys of a set or dictionary")
            check(v == v and not v != v, f"{n} is not equal to itself")
            if hs[i] is not None:
                check(hash(v) == hs[i], f"the hash of {n} changed")
            st.step(len(us))
            if i % 20 == 0:
                st.outcome(n)
    return run


def ordered():
    o = [Nothing, Some(0), Some(1), Some(2), Some(-1)]
    oo = [Nothing, *[Some(x) for x in o]]
    return [("Option[int]", o + [Some(True), Some(1.5)]), ("Option[str]", [Nothing, Some(""), Some("a"), Some("ab")]), ("Option[Option]", oo), ("Option[tuple]", [Nothing, Some(()), Some((0,)), Some((0, 1)), Some((1,))]),
            ("Result", [Ok(0), Ok(1), Ok(2), Error(0), Error(1), Error(-1), Success(1)]), ("Result[Option]", [Ok(x) for x in o] + [Error(x) for x in o]),
            ("Option[Result]", [Nothing, Some(Ok(1)), Some(Ok(2)), Some(Error(0))]), ("U", [U(a=0), U(a=1), U(b=0), U(b=-1), U(b=5)]), ("U[Option]", [U(b=x) for x in o] + [U(a=9)]),
            ("Option[list]", [Nothing, Some([]), Some([1]), Some([0, 5])])]


def rank(v):
    """The model of <: position of the case, then the payload."""
    if isinstance(v, Option):
        return (0,) if v.tag == "none" else (1, rank(v.some))
    if isinstance(v, Result):
        return (0, rank(v.ok)) if v.tag == "ok" else (1, rank(v.error))
    if isinstance(v, U):
        return (0, rank(v.a)) if v.tag == "a" else (1, rank(v.b))
    return v


def b_order(st, tier):
    for name, vs in ordered():
        for a, b in itertools.product(vs, repeat=2):
            lt = rank(a) < rank(b)
            r = outcome(lambda: (a < b, b > a))
            check(r == ("ret", (lt, lt)), f"{name}: {a!r} and {b!r} are ordered wrongly", got=r, expected=lt)
            check((a < b) + (b < a) + (a == b) == 1, f"{name}: not exactly one of <, == and > holds for {a!r} and {b!r}")
            st.step()
        for a, b, c in itertools.product(vs, repeat=3):
            check(not (a < b and b < c) or a < c, f"{name}: the order is not transitive", a=a, b=b, c=c)
            st.step()
        for k in range(2, 6):
            for p in itertools.permutations(vs[:6], k):
                want = sorted(p, key=rank)
                got = sorted(p)
                check(all(x is y or (x == y and rank(x) == rank(y)) for x, y in zip(got, want)), f"{name}: sorted wrongly", given=p, got=got, expected=want)
                if k <= 4:
                    check(min(p) is min(p, key=rank) and rank(max(p)) == rank(max(p, key=rank)), f"{name}: min/max", given=p)
                    check(list(Block(p).sort()) == want, f"{name}: Block.sort", given=p)
                if k <= 3 and all(hashable(x) for x in p) and len({rank(x) for x in p}) == k:
                    m = Map.of_seq([(x, i) for i, x in enumerate(p)])
                    check([x for x, _ in m.to_seq()] == want and all(m[x] == i for i, x in enumerate(p)), f"{name}: as keys of a map", given=p)
                st.step()
        st.outcome(name)
    # no order with other types
    for a in (Some(1), Nothing, Ok(1), Error(1), U(a=1)):
        for b in (1, None, "a", (1,), V(a=1), Block([1])):
            for f in (lambda: a < b, lambda: a > b, lambda: b < a, lambda: b > a):
                r = outcome(f)
                check(r[0] == "raise" and isinstance(r[1], TypeError), f"{a!r} and {b!r} have an order", got=r)
                st.step()
    for a, b in ((Some(1), Some("a")), (Ok(1), Ok(None)), (Some(Some(1)), Some(Some("a"))), (U(b=1), U(b="x"))):
        r = outcome(lambda: a < b)
        check(r[0] == "raise" and isinstance(r[1], TypeError), f"{a!r} and {b!r} have an order", got=r)


def b_used(st, tier):
    """Using a value leaves its equality and its hash as they were."""
    ops = [lambda v: str(v), lambda v: repr(v), lambda v: hash(v), lambda v: list(v), lambda v: v == Some(1), lambda v: v.map(lambda *a: a), lambda v: v.bind(lambda x: Nothing), lambda v: v.to_list(), lambda v: v.swap(),
           lambda v: v.add(5, 5), lambda v: v.remove(1), lambda v: v.cons(1), lambda v: v.append(Block([1])), lambda v: v.sort(), lambda v: v.dict(), lambda v: v.to_seq(), lambda v: v.filter(lambda *a: True),
           lambda v: v.change(1, lambda o: Nothing), lambda v: v[0], lambda v: v < v, lambda v: len(v), lambda v: bool(v)]
    for n, f in universe(False):
        v, w = f(), f()
        if not isinstance(v, (Option, Result, Block, Map, U)):
            continue
        h = outcome(hash, v)
        for a in ops:
            for b in ops:
                outcome(a, v)
                outcome(b, v)
                if (v == w) is not same(v, w):
                    fail(f"{n}: equality changed by using the value")
                if h[0] == "ret" and hash(v) != h[1]:
                    fail(f"{n}: the hash changed by using the value")
                st.step()
    st.outcome(1)


def sections(tier):
    t = tier == T
    return [Section("pairs", fn=pairs(t), shards=8, bounds="all ordered pairs of the universe"), Section("order", fn=b_order, bounds="all pairs and triples of ordered values, all arrangements of up to 5"),
            Section("used", fn=b_used, bounds="every pair of operations on every value")]
