"""P06: Map values are persistent; equality and hash depend only on content."""
import itertools

from expression import Nothing, Some, pipe
from expression.collections import Block, Map
from expression.collections import map as fmap

from mc import mapspace as ms
from mc.core import Section, check, fail

T = "thorough"
BOUNDS = ("persistence: every map of at most 8 (quick) / 10 (thorough) bindings reachable by add/remove/change histories, re-read after "
          "every operation on it and again after the whole search; equality/hash: every map structure reachable over 5 keys x 2 values "
          "(quick; 6 keys thorough), all structures of equal content pairwise, all pairs of contents; sizes up to 300")
ASSUMPTIONS = ["the implementation depends on keys only through <, == and hash", "values compare by a proper equivalence (no NaN)"]


def fn_persist(st, tier):
    """No operation changes an existing map; everything seen is re-read at the end."""
    snaps = []

    def read(m):
        return [(k.x, v) for k, v in m.to_seq()]

    def on_state(s):
        views = (s.m.to_seq(), s.m.items(), s.m.to_list())
        it = iter(s.m.to_seq())
        first = next(it, None)
        snaps.append((s, read(s.m), len(s.m), views, it, first))

    def on_transition(s, name, k, val, s2, cost):
        snap = snaps[-1]
        now = read(s.m)
        if len(now) != len(snap[1]) or any(a[0] != b[0] or a[1] is not b[1] for a, b in zip(now, snap[1])):
            fail(f"{name}({k}) changed the map it was applied to", before=snap[1], now=now, history=s.hist)
        st.step()

    n = 10 if tier == T else 8
    states = ms.bfs(Map.empty(), n, st, on_state, on_transition)
    for s, before, size, views, it, first in snaps:
        # derived maps, then re-read: nothing may have changed
        for f in (lambda: s.m.filter(lambda k, v: True), lambda: s.m.map(lambda k, v: 0), lambda: s.m.partition(lambda k, v: False),
                  lambda: list(s.m), lambda: hash(s.m.map(lambda k, v: 1)), lambda: s.m == s.m.add(ms.Key(-99.0), 1),
                  lambda: s.m.fold(lambda a, kv: a, 0)):
            f()
        now = read(s.m)
        if len(now) != len(before) or any(a[0] != b[0] or a[1] is not b[1] for a, b in zip(now, before)) or len(s.m) != size:
            fail("a map changed after later operations on its descendants", before=before, now=now, history=s.hist)
        for v in views:
            got = [(k.x, x) for k, x in v]
            if len(got) != len(before) or any(a[0] != b[0] or a[1] is not b[1] for a, b in zip(got, before)):
                fail("an earlier view changed", before=before, now=got, history=s.hist)
        if before:
            rest = [(k.x, x) for k, x in it]
            if [(first[0].x, first[1]), *rest] != before:
                fail("an iterator opened earlier was disturbed", before=before, got=rest, history=s.hist)
        st.states += 1
        st.executions += 1
    st.note("reachable_maps", len(states))


def structures(nkeys, st):
    """All map structures over keys 0..nkeys-1 and values {0, 1}, grouped by content."""
    import pickle
    from collections import deque
    start = Map.empty()

    def fp(m):
        try:
            return pickle.dumps(m, 4)
        except Exception:  # noqa: BLE001
            return ms._walk(m, frozenset())
    seen = {fp(start)}
    q = deque([(start, {})])
    groups = {}
    count = 0
    while q:
        m, model = q.popleft()
        groups.setdefault(tuple(sorted(model.items())), []).append(m)
        count += 1
        for k in range(nkeys):
            for v in (0, 1, None):
                m2 = m.remove(k) if v is None else m.add(k, v)
                md = dict(model)
                if v is None:
                    md.pop(k, None)
                else:
                    md[k] = v
                st.step()
                f = fp(m2)
                if f not in seen:
                    if len(seen) > 60000:
                        st.note("truncated", 1)
                        continue
                    seen.add(f)
                    q.append((m2, md))
    st.note("structures", count)
    return groups


def fn_equal(st, tier, shard):
    groups = structures(6 if tier == T else 5, st)
    reps = []
    for gi, (c, ms_) in enumerate(sorted(groups.items())):
        extra = [Map.of_seq(iter(c)), Map.of_list(list(reversed(c))), fmap.of_block(Block(c)), ms_[0].filter(lambda k, v: True),
                 ms_[-1].map(lambda k, v: v), ms_[-1].partition(lambda k, v: True)[0], ms_[0].add(99, 1).remove(99),
                 ms_[-1].change(-1, lambda o: Some(5)).change(-1, lambda o: Nothing),
                 Map.of_seq(((float(k), v) for k, v in c)), Map.of_seq(((k, bool(v)) for k, v in c))]
        every = ms_ + extra
        reps.append((c, ms_[0], ms_[len(ms_) // 2], ms_[-1]))
        if gi % shard[1] != shard[0]:
            continue
        h0 = hash(every[0])
        for m in every:
            check(hash(m) == h0, "equal maps with different hashes", content=c)
            check(hash(m) == hash(m), "unstable hash", content=c)
            st.step()
        lim = every if len(every) <= 60 else every[:30] + every[-30:]
        for a in lim:
            for b in lim:
                if (a == b) is not True or (a != b) is not False:
                    fail("maps with the same content compare different", content=c, a=list(a.to_seq()), b=list(b.to_seq()))
                st.step(2)
        st.executions += 1
    for i, (c, a0, a1, a2) in enumerate(reps):
        if i % shard[1] != shard[0]:
            continue
        for j, (d, b0, b1, b2) in enumerate(reps):
            exp = i == j
            for x, y in ((a0, b1), (a2, b0)):
                r = x == y
                if r is not exp or (x != y) is exp:
                    fail("wrong equality", a=c, b=d, got=r)
            st.step(4)
        st.outcome(c)
        for o in (None, 0, "", dict(c), list(c), c, Nothing, object()):
            check((a0 == o) is False or (isinstance(o, dict) and False), "a map equals something that is not a map", other=o, content=c)
    # usable as dictionary keys
    d = {m[1]: i for i, m in enumerate(reps)}
    for i, (c, a0, a1, a2) in enumerate(reps):
        check(d.get(a2) == i, "an equal map does not find its dictionary entry", content=c)


def fn_sizes(st, tier):
    sizes = list(range(0, 40)) + [63, 64, 65, 100, 127, 128, 129, 255, 256, 300] + ([1000, 1025, 2000] if tier == T else [1025])
    for n in sizes:
        asc = Map.of_seq((i, i % 3) for i in range(n))
        desc = Map.of_seq((i, i % 3) for i in reversed(range(n)))
        mul = Map.empty()
        for i in range(n):
            j = (i * 7919) % n
            mul = mul.add(j, "old")
        for i in range(n):
            mul = mul.change(i, lambda o: Some(i % 3))
        big = asc
        for i in range(n, 2 * n):
            big = big.add(i, 0)
        for i in range(n, 2 * n):
            big = big.remove(i)
        fam = [asc, desc, big] + ([mul] if len(mul) == n else [])
        for a in fam:
            for b in fam:
                check((a == b) is True and hash(a) == hash(b), "equal content, different equality or hash", n=n)
                st.step(2)
        if n:
            for p in sorted({0, n // 2, n - 1}):
                for a in (asc.add(p, 7), asc.remove(p), asc.add(p + 0.5, 0)):
                    for b in (desc, big):
                        check((a == b) is False and (b == a) is False, "different content compares equal", n=n, at=p)
                        st.step(2)
        check(list(asc.to_seq()) == [(i, i % 3) for i in range(n)], "a map changed", n=n)
        st.outcome(n)
        st.executions += 1


def fn_nested(st, tier):
    """Maps as values and hashes of maps holding options, tuples."""
    vals = [0, None, "", Some(1), Nothing, (1, 2), Some(None), Map.of(a=1), Map.empty(), Block([1])]
    for i, v in enumerate(vals):
        for j, w in enumerate(vals):
            a, b = Map.of_seq([(1, v), (2, 0)]), Map.of_seq([(2, 0), (1, w)])
            exp = i == j
            check((a == b) is exp, "equality of values", v=v, w=w)
            st.step()
        if not isinstance(v, Block):
            check(hash(Map.of_seq([(1, v), (2, 0)])) == hash(Map.of_seq([(2, 0), (1, v)])), "hash", v=v)


def fn_alike(st, tier):
    """Equal keys and values that are other objects, or of other types: equality and hash go by equality alone."""
    from decimal import Decimal
    from fractions import Fraction

    from expression import Ok, Success
    from expression.collections import Map as M2
    families = [
        [1, 1.0, True, Decimal(1), Fraction(1), complex(1)], [0, 0.0, -0.0, False, Decimal(0)], [1.5, float("1.5"), Fraction(3, 2), Decimal("1.5")],
        ["abc" * 9, "".join(["abc"] * 9)], [10**30, int("1" + "0" * 30), 1e30.__class__(10**30) if 1e30 == 10**30 else 10**30], [(1, 2), (1.0, 2), tuple([1, 2])],
        [Some(1), Some(1.0), Some(True)], [Ok((1,)), Ok((1.0,)), Success((True,))], [frozenset([1, 2]), frozenset([2, 1.0])], [b"ab" * 9, b"".join([b"ab"] * 9)],
        [M2.of(a=1), M2.of(a=1.0), M2.of_seq([("a", True)])], [Nothing, Some(1).filter(lambda x: False)], [None], [""], [()], [float("inf"), float("1e999")],
        [-1, -1.0], [-2, -2.0], [2**61 - 1, float(2**61)], [range(3), range(0, 3)],
    ]
    fams = [[v for v in f if v == f[0]] for f in families]
    rest = [(8, "x"), (9, 0)]
    for i, f in enumerate(fams):
        for j, g in enumerate(fams):
            for v in f:
                for w in g:
                    a, b = Map.of_seq([(7, v), *rest]), Map.of_seq([*rest, (7, w)])
                    exp = v == w
                    check((a == b) is exp and (b == a) is exp and (a != b) is not exp, "wrong equality of maps with such values", v=v, w=w)
                    if exp:
                        check(hash(a) == hash(b), "equal maps with different hashes", v=v, w=w)
                        check({a: 1}.get(b) == 1 and b in {a}, "an equal map is not found in a dictionary", v=v, w=w)
                    st.step()
        # at every size, with the other value at every (or selected) position
        for n in list(range(1, 20)) + [33, 64, 65, 130]:
            for v, w in itertools.permutations(f, 2):
                base = Map.of_seq([(k, v) for k in range(n)])
                for pos in (range(n) if n < 12 else (0, 1, n // 2, n - 2, n - 1)):
                    b = base.add(pos, w)
                    check((base == b) is True and (b == base) is True and (base != b) is False and hash(base) == hash(b),
                          "equal maps with values of other types or other objects, at size", size=n, position=pos, v=v, w=w)
                    st.step()
                c = Map.of_seq([(n - 1 - k, w) for k in range(n)])
                check(base == c and c == base and hash(base) == hash(c) and c in {base}, "equal maps built of other values, at size", size=n, v=v, w=w)
        if i < 3 or i in (3, 5, 9):
            for n in (1, 2, 5, 9, 10, 16, 17, 40):
                for v, w in itertools.permutations(f, 2):
                    if isinstance(v, complex) or isinstance(w, complex):
                        continue
                    lo = (lambda q: -1000 + q) if not isinstance(v, (str, bytes, tuple)) else (lambda q: type(v)()) if n == 2 else None
                    if lo is None and n > 1:
                        continue
                    others = [(lo(q), q) for q in range(n - 1)] if n > 1 else []
                    a, b = Map.of_seq([*others, (v, 1)]), Map.of_seq([(w, 1), *others])
                    check((a == b) is True and (b == a) is True and hash(a) == hash(b), "equal maps with keys of other types, at size", size=n, v=v, w=w)
                    st.step()
            for v in f:
                for w in f:
                    if isinstance(v, complex) or isinstance(w, complex):
                        continue
                    a, b = Map.of_seq([(v, 0)]).add(v, 1), Map.of_seq([(w, 1)])
                    check((a == b) is True and hash(a) == hash(b), "equal maps with keys of other types", v=v, w=w)
                    check(a.contains_key(w) and a[w] == 1 and w in a and a.remove(w).is_empty() and len(a.add(w, 2)) == 1, "an equal key is not the same key", v=v, w=w)
                    st.step()
        st.outcome(i)
    st.executions += 1


class Clash:
    """A key (or value) whose hash says nothing: only comparison tells two of them apart."""
    __slots__ = ("x",)

    def __init__(self, x):
        self.x = x

    def __eq__(self, o):
        return isinstance(o, Clash) and self.x == o.x

    def __lt__(self, o):
        return self.x < o.x

    def __hash__(self):
        return 7

    def __repr__(self):
        return f"Clash({self.x})"


def fn_clash(st, tier):
    """Keys and values with one hash for all: every pair of maps over them."""
    n = 7 if tier == "thorough" else 6
    maps = []
    for bits in range(1 << n):
        ks = [i for i in range(n) if bits >> i & 1]
        maps.append((tuple((k, 0) for k in ks), Map.of_seq([(Clash(k), Clash(0)) for k in (ks if bits % 2 else ks[::-1])])))
        if ks:
            for j in {0, len(ks) // 2, len(ks) - 1}:
                maps.append((tuple((k, int(i == j)) for i, k in enumerate(ks)), Map.of_seq([(Clash(k), Clash(int(i == j))) for i, k in enumerate(ks)])))
    for ca, a in maps:
        for cb, b in maps:
            exp = ca == cb
            check((a == b) is exp and (a != b) is not exp, "wrong equality of maps with clashing keys or values", a=ca, b=cb)
            if exp:
                check(hash(a) == hash(b), "equal maps with different hashes", a=ca, b=cb)
        check(all(a.contains_key(Clash(k)) and a[Clash(k)] == Clash(v) for k, v in ca), "lost a clashing key", a=ca)
        st.step(len(maps))
    for size in (1, 2, 3, 4, 5, 8, 16, 17, 33, 65):
        tail = [(i, i) for i in range(1, size)]
        for x, y in ((-1, -2), (-1.0, -2.0), (-(2**61), -1), (-(2**61 - 1), 0)):
            a, b = Map.of_seq([(x, 0), *tail]), Map.of_seq([(y, 0), *tail])
            check(a != b and b != a and not a == b and not a.contains_key(y) and a.try_find(y) == Nothing and len(a.add(y, 1)) == size + 1 and a.remove(y) == a,
                  "different keys with one hash are mixed up", x=x, y=y, size=size)
            a, b = Map.of_seq([*tail, (0.5, x)]), Map.of_seq([*tail, (0.5, y)])
            check(a != b and not a == b, "different values with one hash are mixed up", x=x, y=y, size=size)
            st.step()
    st.executions += 1


def sections(tier):
    return [
        Section("persistence", fn=fn_persist, bounds="BFS over reachable maps"),
        Section("equality", fn=fn_equal, shards=6, bounds="all structures over 5/6 keys x 2 values"),
        Section("sizes", fn=fn_sizes, bounds="size ladder"),
        Section("look-alikes", fn=fn_alike, bounds="all pairs out of 20 families of equal values of other types or identities"),
        Section("clashes", fn=fn_clash, bounds="all pairs of maps over 6 (quick) / 7 keys that share one hash, and single clashing bindings at sizes to 65"),
        Section("values", fn=fn_nested, bounds="all pairs of special values"),
    ]
