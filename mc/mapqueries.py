"""Every public query of a Map against its sorted list of bindings."""
from __future__ import annotations

from expression import Nothing, Some, pipe
from expression.collections import Block, Map
from expression.collections import map as fmap

from .core import check, fail
from .values import NONE, Boom, Exc, Ident, Just, Rec, agree, diff, leaf_same, matches, outcome, same_calls

BOOM = Boom("cb")


def pairs_ok(got, items):
    got = list(got)
    return len(got) == len(items) and all(
        type(g) is tuple and len(g) == 2 and g[0] == i[0] and same_val(g[1], i[1]) for g, i in zip(got, items))


def same_val(a, b):
    return a is b or leaf_same(a, b)


def is_map(m, items):
    return (isinstance(m, Map) and pairs_ok(m.to_seq(), items) and len(m) == len(items)
            and all(matches(m.try_find(k), Just(v)) for k, v in items))


class PairMap:
    """Expected: a Map with exactly these bindings."""


def expect_map(st, what, got, items, hist):
    if not (isinstance(got, Map)):
        fail(f"{what}: not a map", got=got, history=hist)
    if not is_map(got, items):
        fail(f"{what}: wrong map", got=list(got.to_seq()), size=len(got), expected=items, history=hist)
    st.step()


def queries(st, m, items, absent, hist=None, full=True):
    """``items``: sorted (key, value) list; ``absent``: keys not bound."""
    n = len(items)
    keys = [k for k, _ in items]
    vals = [v for _, v in items]

    def eq(what, got, ok):
        if not ok:
            fail(f"{what}: wrong answer", got=got, bindings=items, history=hist)
        st.step()

    # size and emptiness
    for w, g in (("len", len(m)), ("count", fmap.count(m))):
        eq(w, g, g == n)
    for w, g in (("is_empty", m.is_empty()), ("f.is_empty", fmap.is_empty(m))):
        eq(w, g, g is (n == 0))
    eq("bool", bool(m), bool(m) is (n > 0))
    # iteration, twice, always ascending
    for w, g in (("to_seq", m.to_seq()), ("f.to_seq", fmap.to_seq(m)), ("to_list", m.to_list()), ("f.to_list", fmap.to_list(m)),
                 ("items", m.items())):
        eq(w, list(g), pairs_ok(g, items))
        eq(w + " again", list(g), pairs_ok(g, items))
    eq("to_list type", m.to_list(), isinstance(m.to_list(), Block))
    for w, g in (("iter", list(m)), ("keys", list(m.keys())), ("unpacked", [*m])):
        eq(w, g, len(g) == n and all(a == b for a, b in zip(g, keys)))
    g = list(m.values())
    eq("values", g, len(g) == n and all(same_val(a, b) for a, b in zip(g, vals)))
    it1, it2 = iter(m.to_seq()), iter(m.to_seq())
    inter = []
    for _ in range(n):
        inter.append((next(it1)[0], next(it2)[0]))
    eq("overlapping iterators", inter, all(a == k and b == k for (a, b), k in zip(inter, keys)))
    # lookups
    for k, v in items:
        for w, g in (("contains_key", m.contains_key(k)), ("in", k in m), ("f.contains_key", fmap.contains_key(k)(m)),
                     ("p", pipe(m, fmap.contains_key(k)))):
            eq(f"{w} {k!r}", g, g is True)
        for w, g in (("try_find", m.try_find(k)), ("f.try_find", fmap.try_find(k)(m)), ("p.try_find", pipe(m, fmap.try_find(k)))):
            eq(f"{w} {k!r}", g, matches(g, Just(v)))
        for w, g in (("[]", m[k]), ("find", fmap.find(k)(m)), ("get", m.get(k)), ("get d", m.get(k, BOOM))):
            eq(f"{w} {k!r}", g, same_val(g, v))
        box = []
        r = m.try_get_value(k, box)
        eq(f"try_get_value {k!r}", (r, box), r is True and len(box) == 1 and same_val(box[0], v))
    for k in absent:
        for w, g in (("contains_key", m.contains_key(k)), ("in", k in m), ("f.contains_key", fmap.contains_key(k)(m))):
            eq(f"{w} {k!r}", g, g is False)
        for w, g in (("try_find", m.try_find(k)), ("f.try_find", fmap.try_find(k)(m))):
            eq(f"{w} {k!r}", g, matches(g, NONE))
        for w, f in (("[]", lambda: m[k]), ("find", lambda: fmap.find(k)(m))):
            o = outcome(f)
            eq(f"{w} {k!r}", o, o[0] == "raise" and isinstance(o[1], KeyError))
        eq(f"get {k!r}", m.get(k), m.get(k) is None and m.get(k, BOOM) is BOOM)
        box = []
        r = m.try_get_value(k, box)
        eq(f"try_get_value {k!r}", (r, box), r is False and box == [])
    # folds
    fold_in = [(k, v) for k, v in items]
    for w, form in (("fold", lambda f: m.fold(f, ())), ("f.fold", lambda f: fmap.fold(f, ())(m)), ("p.fold", lambda f: pipe(m, fmap.fold(f, ())))):
        g = form(lambda s, kv: (*s, kv))
        eq(w, g, pairs_ok(g, fold_in))
    for w, form in (("fold_back", lambda f: m.fold_back(f, ())), ("f.fold_back", lambda f: fmap.fold_back(f, m)(()))):
        g = form(lambda kv, s: (*s, kv))
        eq(w, g, pairs_ok(g, fold_in[::-1]))
    # iterate
    for w, form in (("iterate", lambda f: m.iterate(f)), ("f.iterate", lambda f: fmap.iterate(f)(m))):
        log = []
        r = form(lambda k, v: log.append((k, v)))
        eq(w, (r, log), r is None and pairs_ok(log, items))
    # map
    for w, form in (("map", lambda f: m.map(f)), ("f.map", lambda f: fmap.map(f)(m)), ("p.map", lambda f: pipe(m, fmap.map(f)))):
        log = []
        g = form(lambda k, v: log.append((k, v)) or ("m", v))
        expect_map(st, w, g, [(k, ("m", v)) for k, v in items], hist)
        eq(w + " order", log, pairs_ok(log, items))
        g = form(lambda k, v: None)
        expect_map(st, w, g, [(k, None) for k, v in items], hist)
    # filters: patterns over positions
    if full:
        pats = patterns(n)
    else:
        pats = [0, (1 << n) - 1, sum(1 << i for i in range(0, n, 2)), sum(1 << i for i in range(1, n, 2)), sum(1 << i for i in range(0, n // 2))]
        pats += [((1 << n) - 1) & ~(1 << i) for i in sorted({0, 1, n // 3, n // 2, n - 2, n - 1})] + [1 << (2 * n // 3), 1 << (n - 1)]
    pos = {k: i for i, k in enumerate(keys)}
    def first(pat):
        """The position of the first hit, the last position when there is none."""
        return (pat & -pat).bit_length() - 1 if pat else n - 1

    for pat in pats:
        def pred(k, v, pat=pat):
            return bool(pat >> pos[k] & 1)

        yes = [kv for i, kv in enumerate(items) if pat >> i & 1]
        no = [kv for i, kv in enumerate(items) if not pat >> i & 1]
        for w, form in (("filter", lambda f: m.filter(f)), ("f.filter", lambda f: fmap.filter(f)(m))):
            log = []
            g = form(lambda k, v: log.append((k, v)) or pred(k, v))
            expect_map(st, f"{w} {pat:b}", g, yes, hist)
            eq(w + " calls", log, pairs_ok(log, items))
        for w, form in (("partition", lambda f: m.partition(f)), ("f.partition", lambda f: fmap.partition(f)(m))):
            log = []
            g = form(lambda k, v: log.append((k, v)) or pred(k, v))
            eq(w, g, type(g) is tuple and len(g) == 2)
            expect_map(st, f"{w} {pat:b}", g[0], yes, hist)
            expect_map(st, f"{w} {pat:b}", g[1], no, hist)
            eq(w + " calls", log, pairs_ok(sorted(log, key=lambda kv: pos[kv[0]]), items))
        for w, form in (("exists", lambda f: m.exists(f)), ("f.exists", lambda f: fmap.exists(f)(m))):
            log = []
            g = form(lambda k, v: log.append((k, v)) or pred(k, v))
            eq(f"{w} {pat:b}", g, bool(g) is bool(yes))
            eq(f"{w} {pat:b} visits", log, pairs_ok(log, items[:first(pat) + 1]))
        for w, form in (("for_all", lambda f: m.for_all(f)), ("f.for_all", lambda f: fmap.for_all(f)(m))):
            log = []
            g = form(lambda k, v: log.append((k, v)) or pred(k, v))
            eq(f"{w} {pat:b}", g, bool(g) is (not no))
            eq(f"{w} {pat:b} visits", log, pairs_ok(log, items[:first(~pat & ((1 << n) - 1)) + 1]))
        for w, form in (("try_pick", lambda f: m.try_pick(f)), ("f.try_pick", lambda f: fmap.try_pick(f)(m))):
            log = []
            g = form(lambda k, v: log.append((k, v)) or (Some(("p", v)) if pred(k, v) else Nothing))
            eq(f"{w} {pat:b} visits", log, pairs_ok(log, items[:first(pat) + 1]))
            eq(f"{w} {pat:b}", g, matches(g, Just(("p", yes[0][1])) if yes else NONE))
            g = form(lambda k, v: Some(None) if pred(k, v) else Nothing)
            eq(f"{w} None {pat:b}", g, matches(g, Just(None) if yes else NONE))
        o = outcome(lambda: fmap.pick(lambda k, v: Some(("p", v)) if pred(k, v) else Nothing)(m))
        if yes:
            eq(f"pick {pat:b}", o, o[0] == "ret" and matches(o[1], ("p", yes[0][1])))
        else:
            eq(f"pick {pat:b}", o, o[0] == "raise" and isinstance(o[1], KeyError))
    # a failing callback propagates and changes nothing
    for i in range(n):
        def bad(*a):
            k = a[0] if a[0] in pos else a[0][0] if isinstance(a[0], tuple) and a[0] and a[0][0] in pos else a[1][0]
            if pos[k] == i:
                raise BOOM.with_traceback(None)
            return Nothing
        for w, form in (("map", lambda: m.map(bad)), ("filter", lambda: m.filter(lambda k, v: bad(k, v) is None)),
                        ("fold", lambda: m.fold(lambda s, kv: bad(kv[0]), 0)), ("fold_back", lambda: m.fold_back(lambda kv, s: bad(kv[0]), 0)),
                        ("iterate", lambda: m.iterate(bad)), ("try_pick", lambda: m.try_pick(bad)),
                        ("partition", lambda: m.partition(lambda k, v: bad(k, v) is None)),
                        ("exists", lambda: m.exists(lambda k, v: bad(k, v) is None)),
                        ("change", lambda: m.change(keys[i], lambda o: bad(keys[i])))):
            o = outcome(form)
            eq(f"{w} failing at {i}", o, o[0] == "raise" and o[1] is BOOM)
        if not full and i > 3:
            break
    # conversions there and back
    for w, g in (("of_seq", Map.of_seq(m.to_seq())), ("f.of_seq", fmap.of_seq(m.to_seq())), ("of_list", Map.of_list(list(m.to_list()))),
                 ("f.of_list", fmap.of_list(list(items))), ("of_block", Map.of_block(m.to_list())), ("f.of_block", fmap.of_block(Block(items[::-1]))),
                 ("create", Map.create(items[::-1])), ("f.create", fmap.create(iter(items))), ("dict", Map.of_seq(dict(m).items()))):
        expect_map(st, w, g, items, hist)
    if not is_map(m, items):
        fail("queries changed the map", now=list(m.to_seq()), expected=items, history=hist)


def patterns(n):
    """All predicates over n positions up to n = 5, then single/pair/complement/alternating ones."""
    if n <= 5:
        return range(1 << n)
    full = (1 << n) - 1
    out = {0, full}
    for i in range(n):
        out |= {1 << i, full & ~(1 << i), (1 << i) - 1, full & ~((1 << i) - 1)}
    out |= {sum(1 << i for i in range(0, n, 2)), sum(1 << i for i in range(1, n, 2))}
    return sorted(out)
