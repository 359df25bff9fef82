"""P07: Map operations stay logarithmic and work at any size."""
import math

from expression import Nothing, Some, pipe
from expression.collections import Block, Map
from expression.collections import map as fmap

from mc import mapspace as ms
from mc.core import Section, check, fail
from mc.mapspace import Cmp, Key

T = "thorough"
BOUNDS = ("comparisons per lookup/insertion/removal <= 3*(1.9*log2(peak+2)+2) on: every map of at most 9 (quick) / 11 (thorough) bindings "
          "reachable by any history; complete insertion and removal pattern families at sizes up to 1100 (quick) / 6000 (thorough); greedy "
          "adversaries choosing, among all gaps/keys, the costliest next one; bulk operations at sizes up to 7000 / 20000")
ASSUMPTIONS = ["the constant allows three comparisons per level of a height-balanced tree (the present code uses two)"]


def limit(peak):
    return 3 * (1.9 * math.log2(peak + 2) + 2)


def cost(f):
    c = Cmp.n
    f()
    return Cmp.n - c


def guard(st, what, f, peak, **kw):
    c = Cmp.n
    r = f()
    c = Cmp.n - c
    st.step()
    st.max("worst_ratio_x100", int(100 * c / (math.log2(peak + 2))))
    if c > limit(peak):
        fail(f"{what} made {c} comparisons; at most {limit(peak):.0f} are logarithmic for largest size {peak}", **kw)
    return r


def fn_states(st, tier):
    def on_state(s):
        for k in ms.probes(s.keys):
            for w, f in (("lookup", lambda: s.m.try_find(k)), ("contains_key", lambda: s.m.contains_key(k)), ("in", lambda: k in s.m),
                         ("get", lambda: s.m.get(k))):
                guard(st, w, f, s.peak, history=s.hist)
        st.states += 1

    def on_transition(s, name, k, val, s2, c):
        if c > limit(s2.peak):
            fail(f"{name} made {c} comparisons at size {len(s.keys)}", history=s2.hist)
        ms.same_content(s2.m, s2.model, name, s2.hist)

    ms.bfs(Map.empty(), 11 if tier == T else 9, st, on_state, on_transition, ops=("add", "remove"))


def orders(n):
    mid = n // 2
    inside, outside = [], []
    for i in range(n):
        outside.append(i // 2 if i % 2 == 0 else n - 1 - i // 2)
    inside = outside[::-1]
    blocks = []
    b = max(2, int(n ** 0.5))
    for i in range(0, n, b):
        blocks = blocks + list(range(i, min(n, i + b))) if (i // b) % 2 else list(range(i, min(n, i + b)))[::-1] + blocks
    bits = max(1, (n - 1).bit_length())
    bitrev = [int(format(i, f"0{bits}b")[::-1], 2) for i in range(1 << bits)]
    bitrev = [x for x in bitrev if x < n]
    organ = list(range(0, n, 2)) + list(range(1, n, 2))[::-1]
    mul = []
    step = 7919 if n % 7919 else 7907
    mul = sorted(range(n), key=lambda i: (i * step) % (n + 1))
    fib = sorted(range(n), key=lambda i: (i * 0.6180339887498949) % 1)
    pairs = [i ^ 1 for i in range(n) if (i ^ 1) < n] + ([n - 1] if n % 2 else [])
    tri = [x for i in range(0, n, 3) for x in (i + 1, i, i + 2) if x < n]
    tri2 = [x for i in reversed(range(0, n, 3)) for x in (i + 1, i + 2, i) if x < n]
    evenodd = list(range(0, n, 2)) + list(range(1, n, 2))
    halves = [x for i in range(mid) for x in (mid + i, mid - 1 - i)] + ([n - 1] if n % 2 else [])
    out = dict(asc=list(range(n)), desc=list(range(n))[::-1], inside=inside, outside=outside, blocks=blocks, bitrev=bitrev, organ=organ,
               mul=mul, fib=fib, pairs=pairs, tri=tri, tri2=tri2, evenodd=evenodd, halves=halves)
    for k, v in out.items():
        if sorted(v) != list(range(n)):
            from mc.core import HarnessError
            raise HarnessError(f"order {k} is not a permutation of {n}")
    return out


def check_all(st, m, keys, model, peak, what):
    got = [(k.x, v) for k, v in m.to_seq()]
    if got != sorted(model.items()):
        fail(f"{what}: content differs from a dictionary's", size=len(got), expected=len(model))
    for x in list(model)[:: max(1, len(model) // 400)]:
        k = Key(x)
        if guard(st, f"{what}: lookup", lambda: m.try_find(k), peak, key=x).is_none():
            fail(f"{what}: lost key", key=x)
        if not guard(st, f"{what}: contains_key", lambda: m.contains_key(k), peak, key=x):
            fail(f"{what}: lost key", key=x)
        a = Key(x + 0.5)
        if guard(st, f"{what}: absent lookup", lambda: m.try_find(a), peak, key=x).is_some():
            fail(f"{what}: extra key", key=x)


def fn_patterns(st, tier, shard):
    sizes = [33, 100, 257, 1100] if tier != T else [33, 64, 100, 129, 257, 500, 1000, 2049, 6000]
    jobs = [(n, o) for n in sizes for o in orders(n)]
    jobs.sort(key=lambda j: -j[0])
    for i, (n, oname) in enumerate(jobs):
        if i % shard[1] != shard[0]:
            continue
        order = orders(n)[oname]
        for how in ("add", "change"):
            m, model = Map.empty(), {}
            for x in order:
                k = Key(float(x))
                m = guard(st, f"{how} ({oname}, n={n})",
                          (lambda: m.add(k, x)) if how == "add" else (lambda: m.change(k, lambda o: Some(x))), len(model) + 1)
                model[float(x)] = x
            check_all(st, m, None, model, n, f"{how} {oname} n={n}")
        for rname, rorder in (("same", order), ("asc", range(n)), ("desc", range(n - 1, -1, -1)), ("third", [x for x in range(n) if x % 3])):
            m2, md = m, dict(model)
            for j, x in enumerate(rorder):
                k = Key(float(x))
                m2 = guard(st, f"remove {rname} ({oname}, n={n})", (lambda: m2.remove(k)) if j % 2 else (lambda: m2.change(k, lambda o: Nothing)), n)
                del md[float(x)]
                if j in (n // 4, n // 2, 3 * n // 4):
                    check_all(st, m2, None, md, n, f"remove {rname} after {oname}")
            check_all(st, m2, None, md, n, f"removed {rname} after {oname}")
            # refill after removal
            for x in rorder:
                k = Key(float(x))
                m2 = guard(st, f"re-add {rname} ({oname}, n={n})", lambda: m2.add(k, x), n)
                md[float(x)] = x
            check_all(st, m2, None, md, n, f"refilled {rname} after {oname}")
        st.executions += 1
        st.outcome((n, oname))


def fn_churn(st, tier):
    """Queue and deque churn at constant size: the bound follows the largest size."""
    steps = 6000 if tier == T else 1500
    for n in (8, 33, 100):
        for name, nxt in (("fifo", lambda i: (i, n + i)), ("lifo", lambda i: (n - 1 - i if False else n + i - 1, n + i)),
                          ("front", lambda i: (n - 1 - i, -1 - i))):
            m, model = Map.empty(), {}
            for x in range(n):
                m = m.add(Key(float(x)), x)
                model[float(x)] = x
            for i in range(steps):
                out, inn = nxt(i)
                ko, ki = Key(float(out)), Key(float(inn))
                m = guard(st, f"churn {name} remove", lambda: m.remove(ko), n, step=i)
                model.pop(float(out), None)
                m = guard(st, f"churn {name} add", lambda: m.add(ki, inn), n + 1, step=i)
                model[float(inn)] = inn
                if len(model) > n + 1:
                    fail("harness")
            check_all(st, m, None, model, n + 1, f"churn {name} n={n}")
            st.executions += 1


def fn_greedy(st, tier):
    """Adversaries: of all gaps (or keys) take the one costing most."""
    n = 300 if tier == T else 130
    for mode in ("max", "last", "min"):
        m, keys, model = Map.empty(), [], {}
        while len(keys) < n:
            gaps = [k for k in ms.probes(keys)][len(keys):] or [Key(0.0)]
            costs = [cost(lambda: m.try_find(k)) for k in gaps]
            c = min(costs) if mode == "min" else max(costs)
            idx = [i for i, v in enumerate(costs) if v == c]
            pos = idx[-1] if mode == "last" else idx[0]
            k = gaps[pos]
            m = guard(st, f"greedy {mode} insertion", lambda: m.add(k, 0), len(keys) + 1, size=len(keys))
            keys = sorted([*keys, k], key=lambda q: q.x)
            for i, q in enumerate(keys):
                q.x = float(i)
        check(len(m) == n and [k.x for k in m] == [float(i) for i in range(n)], "greedy: content")
        for k in keys:
            guard(st, "greedy lookup", lambda: m.try_find(k), n)
        st.executions += 1
    for n in ((8, 16, 24, 40) if tier == T else (8, 14, 20)):
        m, keys = Map.empty(), [Key(float(i)) for i in range(n)]
        for k in keys:
            m = m.add(k, 0)
        for _ in range(120 if tier == T else 40):
            best = None
            for k in keys:
                m2 = guard(st, "adversarial removal", lambda: m.remove(k), n)
                c = max(cost(lambda: m2.try_find(q)) for q in keys)
                if best is None or c > best[0]:
                    best = (c, k, m2)
            check(best[0] <= limit(n), "lookup cost after adversarial churn", size=n, cost=best[0])
            m = best[2]
            keys = [k for k in keys if k is not best[1]]
            best = None
            for k in ms.probes(keys)[len(keys):]:
                m2 = guard(st, "adversarial insertion", lambda: m.add(k, 0), n)
                c = max(cost(lambda: m2.try_find(q)) for q in keys)
                if best is None or c > best[0]:
                    best = (c, k, m2)
            m = best[2]
            keys = sorted([*keys, best[1]], key=lambda q: q.x)
            for i, q in enumerate(keys):
                q.x = float(i)
            check([k.x for k in m] == [float(i) for i in range(n)], "adversarial churn: content", size=n)
        st.executions += 1


def fn_bulk(st, tier, shard):
    """Bulk operations at sizes far beyond the recursion limit."""
    sizes = [900, 1100, 7000] if tier != T else [900, 1100, 2000, 6000, 20000]
    jobs = [(n, o) for n in sizes for o in ("asc", "desc", "fib", "outside")]
    for i, (n, oname) in enumerate(sorted(jobs, key=lambda j: -j[0])):
        if i % shard[1] != shard[0]:
            continue
        order = orders(n)[oname]
        pairs = [(x, -x) for x in order]
        exp = [(x, -x) for x in range(n)]
        for w, f in (("of_seq", lambda: Map.of_seq(iter(pairs))), ("of_list", lambda: Map.of_list(pairs)),
                     ("of_block", lambda: Map.of_block(Block(pairs))), ("create", lambda: fmap.create(pairs))):
            m = f()
            check(len(m) == n and list(m.to_seq()) == exp, f"{w} at size {n} ({oname})", got=len(m))
            st.step()
        km = Map.of_seq((Key(float(x)), -x) for x in order)
        derived = [
            ("iteration", lambda: list(m) == list(range(n))),
            ("items", lambda: list(m.items()) == exp),
            ("values", lambda: list(m.values()) == [v for _, v in exp]),
            ("to_list", lambda: list(m.to_list()) == exp),
            ("fold", lambda: m.fold(lambda s, kv: s + kv[0], 0) == n * (n - 1) // 2),
            ("fold_back", lambda: m.fold_back(lambda kv, s: [*s[:3], kv[0]], [])[:1] == [n - 1]),
            ("map", lambda: list(m.map(lambda k, v: k).to_seq()) == [(k, k) for k in range(n)]),
            ("filter", lambda: list(m.filter(lambda k, v: k % 2 == 0)) == list(range(0, n, 2))),
            ("partition", lambda: [list(q) for q in m.partition(lambda k, v: k < n // 3)] == [list(range(n // 3)), list(range(n // 3, n))]),
            ("exists", lambda: m.exists(lambda k, v: k == n - 1) and not m.exists(lambda k, v: k == n)),
            ("for_all", lambda: m.for_all(lambda k, v: v == -k)),
            ("try_pick", lambda: m.try_pick(lambda k, v: Some(v) if k == n - 1 else Nothing).value == -(n - 1)),
            ("equality", lambda: m == Map.of_seq(exp) and m != Map.of_seq(exp[1:])),
            ("hash", lambda: n > 2000 or hash(m) == hash(Map.of_seq(exp))),
            ("str", lambda: str(m).count(";") == n - 1),
            ("dict", lambda: dict(m) == dict(exp)),
        ]
        for w, f in derived:
            check(f(), f"{w} at size {n} ({oname})")
            st.step()
        if n <= 1100 or tier == T:
            for w, dm, sel in (("filter", km.filter(lambda k, v: k.x % 2 == 0), range(0, n, 2)), ("map", km.map(lambda k, v: v), range(n)),
                               ("partition yes", km.partition(lambda k, v: k.x < n // 2)[0], range(n // 2)),
                               ("partition no", km.partition(lambda k, v: k.x < n // 2)[1], range(n // 2, n)), ("of_seq", km, range(n)),
                               ("of_list", Map.of_list([(Key(float(x)), -x) for x in order]), range(n)),
                               ("of_block", Map.of_block(Block([(Key(float(x)), -x) for x in order])), range(n))):
                check_all(st, dm, None, {float(x): -x for x in sel}, n, f"{w} result ({oname}, n={n})")
        st.executions += 1
        st.outcome((n, oname))


def fn_mixed(st, tier, shard):
    """Maps rebuilt between insertions: every bulk operation x insertion order x period; removal of inner keys by splicing."""
    n = 1500 if tier == T else 500
    derive = dict(map=lambda m: m.map(lambda k, v: v), fmap=lambda m: pipe(m, fmap.map(lambda k, v: v)), filter=lambda m: m.filter(lambda k, v: True),
                  partition=lambda m: m.partition(lambda k, v: True)[0], partition_no=lambda m: m.partition(lambda k, v: False)[1],
                  list=lambda m: Map.of_list(list(m.to_list())), block=lambda m: Map.of_block(m.to_list()), seq=lambda m: Map.of_seq(m.to_seq()))
    names = ("asc", "desc", "outside", "inside", "fib")
    jobs = [(d, o, p) for d in derive for o in names for p in ((1, 2, 7, 50) if d in ("map", "fmap") else (7, 50))]
    for i, (d, oname, period) in enumerate(jobs):
        if i % shard[1] != shard[0]:
            continue
        size = n if period >= 7 and d in ("map", "fmap") else n // 2 if period >= 50 else n // 3
        m, model = Map.empty(), {}
        for j, x in enumerate(orders(size)[oname]):
            k = Key(float(x))
            m = guard(st, f"add between {d} ({oname}, every {period})", lambda: m.add(k, x), len(model) + 1, size=len(model))
            model[float(x)] = x
            if j % period == period - 1:
                m = derive[d](m)
        check_all(st, m, None, model, size, f"{d} every {period} insertions, {oname}")
        for j, x in enumerate(orders(size)[oname]):
            k = Key(float(x))
            m = guard(st, f"remove between {d} ({oname}, every {period})", lambda: m.remove(k), size, size=len(model))
            del model[float(x)]
            if j % period == period - 1:
                m = derive[d](m)
        check(len(m) == 0, "all removed")
        st.executions += 1
        st.outcome((d, oname, period))
    if shard[0] == 0:
        # take out the key found with fewest comparisons (the root), put one in at an end
        for n in ((40, 200) if tier != T else (40, 200, 800)):
            for where in ("back", "front", "both", "none"):
                m, keys = Map.empty(), [float(x) for x in range(n)]
                for x in keys:
                    m = m.add(Key(x), x)
                lo, hi = -1.0, float(n)
                for step in range(3 * n if where != "none" else n - 1):
                    cand = keys if len(keys) < 60 else keys[len(keys) // 2 - 30: len(keys) // 2 + 30]
                    root = min(cand, key=lambda x: cost(lambda: m.try_find(Key(x))))
                    m = guard(st, f"removal of the root ({where})", lambda: m.remove(Key(root)), n + 1, step=step)
                    keys.remove(root)
                    if where != "none":
                        front = where == "front" or (where == "both" and step % 2)
                        x = lo if front else hi
                        lo, hi = (lo - 1, hi) if front else (lo, hi + 1)
                        m = guard(st, f"insertion at the {where}", lambda: m.add(Key(x), x), n + 1, step=step)
                        keys.insert(0, x) if front else keys.append(x)
                    if step % 50 == 49:
                        check_all(st, m, None, {x: x for x in keys}, n + 1, f"roots removed, insertion {where}")
                check_all(st, m, None, {x: x for x in keys}, n + 1, f"roots removed, insertion {where}")
                st.executions += 1


def sections(tier):
    return [
        Section("mixed", fn=fn_mixed, shards=6, bounds="8 bulk operations x 5 orders x 2-4 periods between insertions and removals; root removals"),
        Section("bulk", fn=fn_bulk, shards=6, bounds="sizes to 7000/20000"),
        Section("patterns", fn=fn_patterns, shards=8, bounds="14 insertion x 4 removal patterns"),
        Section("reachable maps", fn=fn_states, bounds="BFS to 9/11 bindings"),
        Section("churn", fn=fn_churn, bounds="constant-size queues"),
        Section("adversary", fn=fn_greedy, bounds="greedy worst-case insertion and removal"),
    ]
