"""P05: Map behaves as a sorted immutable dictionary under every history."""
import functools
import itertools

from expression import Nothing, Ok, Option, Some, Success, pipe
from expression.collections import Block, Map
from expression.collections import map as fmap

from mc import mapspace as ms
from mc.core import Section, check, fail
from mc.mapqueries import expect_map, is_map, queries
from mc.values import Boom, EqAll, NONE, Hostile, Just, Opaque, alphabet, matches

T = "thorough"
BOUNDS = ("every map of at most 8 (quick) / 11 (thorough) bindings reachable by any history of add/remove/change, up to "
          "order-preserving key renaming, inserting into every gap; every query on each; all histories of length 3 / 4 over "
          "3 keys x special values in every call form; key types int, float, str, tuple, bool/int mixes, bytes, frozen dates; size ladder; keys without a hash; rebinding to equal but distinct values")
ASSUMPTIONS = ["the implementation depends on keys only through <, == and hash (order-isomorphic maps are explored once)"]


def fn_states(st, tier, shard):
    n = 11 if tier == T else 8
    cnt = {"i": 0}

    def on_state(s):
        cnt["i"] += 1
        if cnt["i"] % shard[1] == shard[0]:
            items = ms.model_of(s.model)
            absent = [k for k in ms.probes(s.keys) if k.x not in {q.x for q in s.keys}]
            queries(st, s.m, items, absent, hist=s.hist, full=len(items) <= 5)
            st.states += 1
            st.executions += 1
            st.sample({"history": list(s.hist)}, 2)

    def on_transition(s, name, k, val, s2, cost):
        ms.same_content(s2.m, s2.model, name, s2.hist)

    states = ms.bfs(Map.empty(), n, st, on_state, on_transition if shard[0] == 0 else None,
                    ops=("add", "remove", "change") if shard[0] == 0 else ("add", "remove"))
    st.note("reachable_maps", len(states))


VALUES = [1, None, Nothing, 0]
KEYS = [2, 1, 3]


def body_hist(depth):
    """All histories over 3 keys with special values, in every call form."""
    ops = []
    for k in KEYS:
        for v in VALUES:
            ops.append(("add", k, v))
        ops += [("remove", k, 0), ("drop", k, 0), ("set", k, None), ("upd", k, 0)]

    def body(ch, st):
        m, model = (fmap.empty, {}) if True else None
        form = ch.choose(2)
        hist = []
        for _ in range(depth):
            name, k, v = ops[ch.choose(len(ops))]
            hist.append((name, k, v))
            if name == "add":
                m = m.add(k, v) if form == 0 else pipe(m, fmap.add(k, v))
                model[k] = v
            elif name == "remove":
                m = m.remove(k) if form == 0 else fmap.remove(k)(m)
                model.pop(k, None)
            else:
                calls = []
                ret = {"drop": lambda o: Nothing, "set": lambda o: Some(None),
                       "upd": lambda o: Some(("u", o.value)) if o.is_some() else Nothing}[name]

                def f(o):
                    calls.append(o)
                    return ret(o)
                m = m.change(k, f) if form == 0 else pipe(m, fmap.change(k, f))
                if len(calls) != 1:
                    fail("change must call its function exactly once", calls=calls, history=hist)
                had = k in model
                if had != calls[0].is_some() or (had and calls[0].value is not model[k] and calls[0].value != model[k]):
                    fail("change passed the wrong old value", got=calls[0], model=model, history=hist)
                if name == "drop":
                    model.pop(k, None)
                elif name == "set":
                    model[k] = None
                elif had:
                    model[k] = ("u", model[k])
            if not is_map(m, sorted(model.items())):
                fail(f"{name}: wrong map", got=list(m.to_seq()), expected=sorted(model.items()), history=hist)
            st.step()
        for k in KEYS:
            if (k in m) != (k in model):
                fail("membership", key=k, history=hist)
        st.outcome(sorted(model.items(), key=lambda kv: kv[0]))
    return body


def key_sets():
    import datetime
    return [
        [1, 2, 3, 5, -1], [1.5, -0.5, 2, 3.25, 0], ["b", "a", "", "ab", "B"], [(1,), (0, 1), (), (1, 0), (1, 0, 0)],
        [b"a", b"", b"b", b"aa", b"\0"], [True, False, 2, 3, -1], [10**30, -10**30, 0, 1, 7],
        [datetime.date(2024, 1, d) for d in (3, 1, 2, 9, 5)], [Block([1]) if False else "\u00e9", "z", "\U0001f600", "Z", " "],
    ]


def body_keys(ch, st):
    """Key types: every insertion order of 5 keys, every removed subset of size <= 2, all queries."""
    ks = key_sets()
    keys = ks[ch.choose(len(ks))]
    perms = list(itertools.permutations(range(5)))
    perm = perms[ch.choose(len(perms))]
    m, model = Map.empty(), {}
    for i in perm:
        m = m.add(keys[i], ("v", i))
        model[keys[i]] = ("v", i)
    if ch.flag():
        a = ch.choose(5)
        m = m.remove(keys[a])
        model.pop(keys[a], None)
        b = ch.choose(5)
        m = m.remove(keys[b])
        model.pop(keys[b], None)
    else:
        # equal keys of another type replace, as in a dictionary
        for k in keys:
            if type(k) is int and abs(k) < 10**6:
                m = m.add(float(k), "f")
                model[k] = "f"
    items = sorted(model.items())
    absent = [k for k in keys if k not in model]
    if perms.index(perm) in (0, 37, 74, 119):
        queries(st, m, items, absent, hist=(keys, perm), full=False)
    elif not is_map(m, items):
        fail("wrong map", got=list(m.to_seq()), expected=items)
    st.step()
    st.outcome((len(items), perm))


def fn_build(st, tier):
    """Constructors: duplicates, every order; keyword form; special values."""
    for n in range(0, 5):
        for ks in itertools.product((1, 2, 3), repeat=n):
            pairs = [(k, i) for i, k in enumerate(ks)]
            exp = sorted(dict(pairs).items())
            for w, g in (("of_list", Map.of_list(pairs)), ("f", fmap.of_list(pairs)), ("of_seq", Map.of_seq(iter(pairs))),
                         ("fs", fmap.of_seq(tuple(pairs))), ("of_block", Map.of_block(Block(pairs))), ("fb", fmap.of_block(Block(pairs))),
                         ("create", Map.create(pairs)), ("fc", fmap.create(p for p in pairs))):
                expect_map(st, w, g, exp, pairs)
    for d in ({}, {"b": 1}, {"b": 1, "a": None}, {"z": 0, "y": Nothing, "x": Some(1), "w": ""}, {f"k{i}": i for i in range(40)}):
        expect_map(st, "of", Map.of(**d), sorted(d.items()), d)
        expect_map(st, "f.of", fmap.of(**d), sorted(d.items()), d)
    vals = [None, 0, "", Nothing, Some(1), Ok(1), [], {}, (), Hostile(), EqAll(), Opaque("o"), Boom("x"), len, False, float("nan"), Map.empty()]
    for v in vals:
        for n in range(1, 5):
            items = [(i, v) for i in range(n)]
            m = Map.of_seq(items[::-1])
            queries(st, m, items, [-1, n], hist=("value", type(v).__name__, n), full=n < 4)
            st.outcome((type(v).__name__, n))
    for e in (Map.empty(), fmap.empty, Map(), Map.of(), Map.of_list([]), Map.of_seq([]), Map.of_block(Block())):
        queries(st, e, [], [0, 1])
        st.executions += 1
    # views and derived data are detached
    m = Map.of_seq([(1, [1]), (2, [2])])
    l = [(5, 5)]
    m5 = Map.of_list(l)
    l.append((6, 6))
    check(len(m5) == 1, "a map follows later changes of its source list")
    check(str(Map.of_seq([(2, 3), (1, 2)])) == "map [(1, 2); (2, 3)]" and str(Map.of(a=1)) == 'map [("a", 1)]', "str")


@functools.total_ordering
class Ord:
    """A key with an order and an equality but no hash, and nothing else."""
    __slots__ = ("x",)
    __hash__ = None

    def __init__(self, x):
        self.x = x

    def __lt__(self, o):
        return self.x < o.x

    def __eq__(self, o):
        return self.x == o.x

    def __repr__(self):
        return f"Ord({self.x})"


def fn_unhashable(st, tier):
    """Keys need an order, nothing else: keys that cannot be hashed, in every order of insertion, replaced and removed."""
    for mk in (lambda x: [x], lambda x: [0] * x, Ord, lambda x: bytearray([x]), lambda x: (x, [x]), lambda x: ([], x)):
        for n in range(0, 5):
            for perm in itertools.permutations(range(n)):
                items = [(mk(i), ("v", i)) for i in range(n)]
                pairs = [items[i] for i in perm]
                for w, m in (("add", functools.reduce(lambda m, kv: m.add(*kv), pairs, Map.empty())), ("of_list", Map.of_list(pairs)), ("of_seq", fmap.of_seq(iter(pairs))),
                             ("of_block", Map.of_block(Block(pairs))), ("create", Map.create(pairs)), ("twice", Map.of_list([*((k, None) for k, _ in pairs[::-1]), *pairs]))):
                    expect_map(st, w, m, items, perm)
                for k in range(n + 2):
                    if (mk(k) in m) is not (k < n) or not matches(m.try_find(mk(k)), Just(("v", k)) if k < n else NONE) or (k < n and m[mk(k)] != ("v", k)):
                        fail("lookup of a key without a hash", key=mk(k), history=perm)
                for i in range(n):
                    rest = items[:i] + items[i + 1:]
                    expect_map(st, "remove", m.remove(mk(i)), rest, perm)
                    expect_map(st, "change", m.change(mk(i), lambda o: Nothing), rest, perm)
                    expect_map(st, "change", fmap.change(mk(i), lambda o: Some(o.value))(m), items, perm)
        st.outcome(repr(mk(1)))
    st.executions += 1


def fn_answers(st, tier):
    """Whatever a callback answers is taken as it is; a predicate's answer counts by its truth."""
    vals = [v for v in alphabet() if not isinstance(v, Hostile)]
    keys = [3, 1, 2]
    for n in (1, 2, 3):
        m = Map.of_seq([(k, ("v", k)) for k in keys[:n]])
        ks = sorted(keys[:n])
        for a in vals:
            hist = ("answer", repr(a), n)
            for w, form in (("map", lambda f: m.map(f)), ("f.map", lambda f: fmap.map(f)(m))):
                expect_map(st, w, form(lambda k, v: a), [(k, a) for k in ks], hist)
            for w, form in (("fold", lambda f: m.fold(f, a)), ("f.fold", lambda f: fmap.fold(f, a)(m))):
                log = []
                g = form(lambda s, kv: log.append(s) or a)
                check(matches(g, a) and matches(log, [a] * n), f"{w}: the state was not passed on", got=(g, log), state=a)
            for w, form in (("fold_back", lambda f: m.fold_back(f, a)), ("f.fold_back", lambda f: fmap.fold_back(f, m)(a))):
                log = []
                g = form(lambda kv, s: log.append(s) or a)
                check(matches(g, a) and matches(log, [a] * n), f"{w}: the state was not passed on", got=(g, log), state=a)
            for w, form in (("iterate", lambda f: m.iterate(f)), ("f.iterate", lambda f: fmap.iterate(f)(m))):
                log = []
                g = form(lambda k, v: log.append(k) or a)
                check(g is None and log == ks, f"{w}: not every binding was visited", got=(g, log), answer=a)
            t = bool(a)
            for pred, yes in ((lambda k, v: a, ks if t else []), (lambda k, v: a if k == 1 else not t, [k for k in ks if (t if k == 1 else not t)])):
                no = [k for k in ks if k not in yes]
                its = lambda q: [(k, ("v", k)) for k in q]  # noqa: E731
                for w, form in (("filter", lambda f: m.filter(f)), ("f.filter", lambda f: fmap.filter(f)(m))):
                    expect_map(st, w, form(pred), its(yes), hist)
                for w, form in (("partition", lambda f: m.partition(f)), ("f.partition", lambda f: fmap.partition(f)(m))):
                    g = form(pred)
                    expect_map(st, w, g[0], its(yes), hist)
                    expect_map(st, w, g[1], its(no), hist)
                for w, form, exp in (("exists", m.exists, bool(yes)), ("f.exists", lambda f: fmap.exists(f)(m), bool(yes)), ("for_all", m.for_all, not no), ("f.for_all", lambda f: fmap.for_all(f)(m), not no)):
                    g = form(pred)
                    check(bool(g) is exp, f"{w} by truth", got=g, expected=exp, answer=a)
            for w, form in (("try_pick", lambda f: m.try_pick(f)), ("f.try_pick", lambda f: fmap.try_pick(f)(m))):
                g = form(lambda k, v: Some(a))
                check(matches(g, Just(a)), f"{w}: another value than the one picked", got=g, expected=a)
            g = fmap.pick(lambda k, v: Some(a))(m)
            check(matches(g, a), "pick: another value than the one picked", got=g, expected=a)
            for w, form in (("change", lambda k, f: m.change(k, f)), ("f.change", lambda k, f: fmap.change(k, f)(m))):
                for k in (*ks, 0, 9):
                    expect_map(st, w, form(k, lambda o: Some(a)), sorted({**{q: ("v", q) for q in ks}, k: a}.items()), hist)
            st.step(20)
        st.outcome(n)


def fn_replace(st, tier):
    """A replaced value is the new object, also when it equals the old one; folding nothing gives the very state."""
    a1, a2 = [1], [1]
    groups = [[1, True, 1.0], [0, False, 0.0, -0.0], ["ab", "".join(("a", "b"))], [a1, a2], [(1, 2), (True, 2.0), tuple([1, 2])], [EqAll(), EqAll(), 3],
              [Some(1), Some(True), Option(some=1)], [Ok(1), Ok(1.0), Success(1)], [Map.of(a=1), Map.of(a=True)], [Block([1]), Block([True])],
              [None, Nothing, EqAll()], [Opaque("o"), Opaque("o")], [float("nan"), float("nan")], [Hostile(), Hostile(), 1], [{}, {}], [(), []]]
    for n in range(1, 8 if tier != T else 12):
        for order in (list(range(n)), list(range(n))[::-1], [x for i in range(n) for x in (i // 2 if i % 2 == 0 else n - 1 - i // 2,)]):
            for g in groups:
                for v1, v2 in itertools.permutations(g, 2):
                    m = Map.of_seq([(k, v1) for k in order])
                    for k in range(n):
                        exp = [(q, v2 if q == k else v1) for q in range(n)]
                        for w, f in (("add", lambda: m.add(k, v2)), ("f.add", lambda: fmap.add(k, v2)(m)), ("change", lambda: m.change(k, lambda o: Some(v2))),
                                     ("f.change", lambda: fmap.change(k, lambda o: Some(v2))(m)), ("remove and add", lambda: m.remove(k).add(k, v2)),
                                     ("map", lambda: m.map(lambda q, v: v2 if q == k else v)),
                                     ("of_list", lambda: Map.of_list([*((q, v1) for q in order), (k, v2)])),
                                     ("of_block", lambda: Map.of_block(Block([*((q, v1) for q in order), (k, v2)]))),
                                     ("create", lambda: Map.create(iter([*((q, v1) for q in order), (k, v2)])))):
                            m2 = f()
                            got = list(m2.to_seq())
                            st.step()
                            if [q for q, _ in got] != list(range(n)) or any(a is not b for (_, a), (_, b) in zip(got, exp)):
                                fail(f"{w}: not the value that was given", got=got, expected=exp)
                            if m2[k] is not v2 or m2.try_find(k).value is not v2 or m[k] is not v1:
                                fail(f"{w}: lookup does not give the value that was given", key=k, got=m2.try_find(k))
        st.executions += 1
        st.outcome(n)
    for e in (Map.empty(), Map.of(a=1).remove("a"), Map.of(a=1).filter(lambda k, v: False), Map.of_seq([(1, 1), (2, 2)]).remove(1).remove(2)):
        for a in alphabet():
            log = []
            rs = [e.fold(lambda s, kv: log.append(kv), a), fmap.fold(lambda s, kv: log.append(kv), a)(e),
                  e.fold_back(lambda kv, s: log.append(kv), a), fmap.fold_back(lambda kv, s: log.append(kv), e)(a)]
            check(all(r is a for r in rs) and not log, "folding no bindings must give the state", got=rs, calls=log)
            st.step(4)


def fn_sizes(st, tier, shard):
    sizes = list(range(9, 65)) + [100, 127, 128, 129, 200, 255, 256, 257, 1025]
    if tier == T:
        sizes += [512, 1000, 1023, 1024, 1025, 2000]
    for i, n in enumerate(sizes):
        if i % shard[1] != shard[0]:
            continue
        for nm, order in (("asc", list(range(n))), ("desc", list(range(n))[::-1]), ("mul", [(j * 7919) % n if n % 7919 else j for j in range(n)]),
                          ("zig", [j // 2 if j % 2 == 0 else n - 1 - j // 2 for j in range(n)])):
            m, model = Map.empty(), {}
            for j in order:
                m = m.add(j, ("v", j))
                model[j] = ("v", j)
            if nm in ("asc", "mul"):
                queries(st, m, sorted(model.items()), [-1, n, n + 7, 0.5], hist=(nm, n), full=False)
            for r in (2, 3):
                m2, md2 = m, dict(model)
                for j in range(0, n, r):
                    m2 = m2.remove(j)
                    del md2[j]
                check(is_map(m2, sorted(md2.items())), "removal at size", n=n, pattern=nm, got=list(m2.to_seq()))
                for j in range(0, n, r):
                    m2 = m2.change(j, lambda o: Some(o.is_none()))
                    md2[j] = True
                check(is_map(m2, sorted(md2.items())), "re-insertion at size", n=n, pattern=nm)
            for j in order:
                m = m.remove(j)
                del model[j]
                if len(model) % 16 == 0 and not is_map(m, sorted(model.items())):
                    fail("removal of all in order", n=n, pattern=nm, left=list(m.to_seq()))
            st.step(4 * n)
            st.executions += 1


def sections(tier):
    t = tier == T
    return [
        Section("reachable maps", fn=fn_states, shards=8, bounds="BFS, states deduplicated by structure"),
        Section("histories", body_hist(4 if t else 3), shards=2, bounds="all histories over 3 keys, special values, both forms"),
        Section("key types", body_keys, shards=3, bounds="9 key types x 120 insertion orders x removals"),
        Section("answers", fn=fn_answers, bounds="every alphabet value as answer of every callback"),
        Section("replacement", fn=fn_replace, bounds="every pair of equal but distinct values, every key of every map of 1-7 / 11 bindings, 9 ways to replace; folds of empty maps"),
        Section("unhashable keys", fn=fn_unhashable, bounds="6 kinds of keys without a hash, every insertion order of up to 4"),
        Section("construction", fn=fn_build, bounds="all pair lists up to length 4 over 3 keys"),
        Section("sizes", fn=fn_sizes, shards=8, bounds="size ladder"),
    ]
