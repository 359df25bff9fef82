"""P09: Seq is lazy, consumes no more than needed, and can be iterated again."""
import itertools

from expression import Nothing, Some, pipe
from expression.collections import Block, Map, Seq, seq
from expression.collections import map as fmap

from mc.core import Section, check, fail
from mc.seqops import STAGES, Log, Source
from mc.values import NONE, Just, matches, outcome

T = "thorough"
BOUNDS = ("all pipelines of up to 3 (quick) / 4 (thorough) of 33 stages, fluent and pipelined, over counting finite (length 0, 1, 5) and infinite "
          "sources, source consumption compared with a minimal reference after each of up to 6 pulls; all interleavings of two iterators "
          "(3+3 pulls) of one result, then a third full iteration, also for some 40 producers (unfold, delay, a sequence appended to or zipped with itself, ...)")
ASSUMPTIONS = ["sources are re-iterable and callbacks deterministic; 'needed' is what a one-element-at-a-time list transducer pulls"]


class Enough(Exception):
    pass


class Budget(Source):
    """Stops a diverging pipeline after ``cap`` pulls."""

    def __init__(self, items, infinite, cap):
        super().__init__(items, infinite)
        self.cap = cap

    def __iter__(self):
        for v in super().__iter__():
            if self.pulls > self.cap:
                raise Enough()
            yield v


END = object()


def pull(it):
    try:
        return next(it)
    except StopIteration:
        return END
    except Enough:
        return Enough


def build(idx, form, src, L):
    if form == 0:
        s = Seq(src)
        for i in idx:
            s = STAGES[i][1](s, L)
        return s
    if form == 1:
        return pipe(src, *[STAGES[i][2](L) for i in idx])
    s = Seq(src)
    for i in idx:
        s = Seq(STAGES[i][2](L)(s))
    return s


def body_lazy(depth):
    srcs = [((), False), ((1,), False), ((0, 1, 2, 3, 4), False), ((0, 1, 2), True)]

    def body(ch, st):
        idx = [ch.choose(len(STAGES), lambda c: STAGES[c][0]) for _ in range(depth)]
        names = [STAGES[i][0] for i in idx]
        for xs, inf in srcs:
            # reference run
            ref = Budget(xs, inf, 60)
            RL = Log()
            it = iter(ref)
            for i in idx:
                it = STAGES[i][3](RL)(it)
            it = iter(it)
            trace = []
            for _ in range(6):
                v = pull(it)
                trace.append((v, ref.pulls, len(RL.calls)))
                if v is END or v is Enough:
                    break
            for form in range(3):
                src = Budget(xs, inf, 60)
                L = Log()
                s = build(idx, form, src, L)
                if src.pulls or src.ended:
                    fail("building a pipeline consumed its source", stages=names, pulls=src.pulls)
                calls = [c for c in L.calls if c[0] != "delay"]
                if calls:
                    fail("building a pipeline called a callback", stages=names, calls=calls)
                r = iter(s)
                for k, (v, pulls, ncalls) in enumerate(trace):
                    g = pull(r)
                    if v is Enough and g is Enough:
                        break
                    if g is Enough or g is END or v is END:
                        ok = g is v
                    else:
                        ok = matches(g, v)
                    if not ok:
                        fail(f"pull {k + 1} of a lazy pipeline", stages=names, source=(xs, inf), got=g, expected=v)
                    if src.pulls > pulls:
                        fail(f"{k + 1} results consumed {src.pulls} source elements instead of {pulls}", stages=names, source=(xs, inf))
                    nc = len(L.calls)
                    if nc > ncalls:
                        fail(f"{k + 1} results made {nc} callback calls instead of {ncalls}", stages=names, source=(xs, inf), calls=L.calls)
                    st.step()
            st.outcome((len(trace), trace[-1][1]))
    return body


SCHED = sorted(set(itertools.permutations([0, 0, 0, 1, 1, 1])))


def body_again(depth):
    srcs = [(), (2,), (0, 1, 2, 3, 4)]

    def body(ch, st):
        idx = [ch.choose(len(STAGES), lambda c: STAGES[c][0]) for _ in range(depth)]
        names = [STAGES[i][0] for i in idx]
        for xs in srcs:
            it = iter(xs)
            for i in idx:
                it = STAGES[i][3](Log())(it)
            exp = list(it)
            for form in range(3):
                s = build(idx, form, list(xs), Log())
                for sched in SCHED if depth < 3 else SCHED[::7]:
                    its = [iter(s), iter(s)]
                    pos = [0, 0]
                    for w in sched:
                        g = pull(its[w])
                        e = exp[pos[w]] if pos[w] < len(exp) else END
                        pos[w] += 1
                        if not (g is END and e is END) and (g is END or e is END or not matches(g, e)):
                            fail(f"overlapping iteration {sched}", stages=names, source=xs, iterator=w, got=g, expected=e)
                        st.step()
                got = list(s)
                if not matches(got, exp):
                    fail("iterating again gives something else", stages=names, source=xs, got=got, expected=exp)
                got = list(s)
                if not matches(got, exp):
                    fail("iterating again gives something else", stages=names, source=xs, got=got, expected=exp)
            st.outcome(len(exp))
    return body


def fn_eager(st, tier):
    """Consumers stop as soon as they know the answer; sources that can be iterated again stay so."""
    for n in range(0, 6):
        for k in range(0, n + 1):
            src = Source(tuple(range(n)), True)
            r = seq.try_find_index(lambda x: x >= k)(src)
            check(matches(r, Just(k)) and src.pulls == k + 1, "try_find_index consumed too much", k=k, pulls=src.pulls)
            src = Source(tuple(range(n)), True)
            r = Seq(src).try_find_index(lambda x: x >= k)
            check(matches(r, Just(k)) and src.pulls == k + 1, "try_find_index consumed too much", k=k, pulls=src.pulls)
            for form in (lambda f: seq.try_pick(f)(src), lambda f: Seq(src).try_pick(f)):
                src = Source(tuple(range(n)), True)
                r = form(lambda x: Some(("p", x)) if x >= k else Nothing)
                check(matches(r, Just(("p", k))) and src.pulls == k + 1, "try_pick consumed too much", k=k, pulls=src.pulls)
            st.step(4)
        src = Source(tuple(range(n)), True)
        check(seq.head(src) == 0 and src.pulls == 1, "head consumed too much", pulls=src.pulls)
        src = Source(tuple(range(n)), True)
        check(Seq(src).head() == 0 and src.pulls == 1, "head consumed too much", pulls=src.pulls)
        # zip of two lazily consumed infinite sources
        a, b = Source((), True), Source((), True)
        for z in (seq.zip(a)(b), Seq(a).zip(b)):
            a.pulls = b.pulls = 0
            got = list(itertools.islice(iter(z), n))
            check(got == [(i, i) for i in range(n)] and a.pulls <= n and b.pulls <= n, "zip of infinite sources", pulls=(a.pulls, b.pulls))
            st.step()
        # append/concat: a later operand is not touched before it is reached
        a, b = Source(tuple(range(3))), Source((), True)
        for z in (seq.append(b)(a), Seq(a).append(b), seq.concat(a, b)):
            a.pulls = b.pulls = 0
            list(itertools.islice(iter(z), n))
            check(b.pulls <= max(0, n - 3), "append pulled from a later sequence too early", n=n, pulls=b.pulls)
            st.step()
        # concat of sequences made lazily, and infinite collections of sequences
        outer = Source((), True)
        z = Seq(outer).map(lambda i: Seq([i, i])).concat()
        check(outer.pulls == 0, "concat consumed its outer sequence")
        check(list(itertools.islice(iter(z), n)) == [i // 2 for i in range(n)] and outer.pulls <= (n + 1) // 2, "concat is not lazy", pulls=outer.pulls)
        # unfold calls its generator only for what is pulled
        calls = []

        def g(s):
            calls.append(s)
            return Some((s, s + 1))
        for u in (seq.unfold(g)(0), Seq.unfold(g, 0)):
            calls.clear()
            check(list(itertools.islice(iter(u), n)) == list(range(n)) and len(calls) <= n, "unfold is not lazy", calls=len(calls), n=n)
            check(list(itertools.islice(iter(u), n + 1)) == list(range(n + 1)), "unfold cannot be iterated again")
            i1, i2 = iter(u), iter(u)
            check([next(i1), next(i2), next(i1), next(i2)] == [0, 0, 1, 1], "unfold iterators interfere")
            st.step(3)
        calls.clear()
        inf = seq.init_infinite(lambda i: calls.append(i) or i)
        check(not calls and list(itertools.islice(iter(inf), n)) == list(range(n)) and len(calls) == n, "init_infinite is not lazy")
        i1, i2 = iter(inf), iter(inf)
        check([next(i1), next(i1), next(i2), next(i1), next(i2)] == [0, 1, 0, 2, 1], "init_infinite iterators interfere")
        # the text of an infinite sequence is finite and leaves it as it was
        for text in (str, repr):
            src = Budget((), True, 1000)
            s = Seq(src).map(lambda x: x + n)
            check(text(s).startswith(f"[{n}; {n + 1}; ") and src.pulls <= 102, "text of an infinite sequence", pulls=src.pulls)
            check(list(itertools.islice(iter(s), 3)) == [n, n + 1, n + 2], "the text of a sequence consumed it")
        # delay evaluates its factory once per iteration, not before
        made = []
        dl = seq.delay(lambda: made.append(1) or [1, 2])
        check(not made, "delay evaluated early")
        check(list(dl) == [1, 2] and list(dl) == [1, 2] and len(made) == 2, "delay is not re-evaluated per iteration", made=len(made))
    for it in (Seq([1, 2, 3]), seq.of(1, 2, 3), Seq.of(1, 2, 3), seq.range(1, 4), seq.of_iterable([1, 2, 3]), Seq.range(1, 4),
               fmap.to_seq(Map.of_seq([(1, 0), (2, 0), (3, 0)])), Map.of_seq([(1, 0), (2, 0), (3, 0)]).to_seq(), Block([1, 2, 3]).pipe(seq.of_iterable)):
        key = (lambda v: v[0] if isinstance(v, tuple) else v)
        for sched in SCHED:
            its = [iter(it), iter(it)]
            pos = [0, 0]
            for w in sched:
                check(key(next(its[w])) == pos[w] + 1, "overlapping iterators", kind=type(it).__name__, schedule=sched)
                pos[w] += 1
            st.step()
        check([key(v) for v in it] == [1, 2, 3] and [key(v) for v in it] == [1, 2, 3], "iterating again")
        st.executions += 1
    # a partially consumed, closed or failed iteration does not disturb the next one
    for name, flu, fn, ref in STAGES:
        for stop in range(0, 4):
            exp = list(ref(Log())(iter([0, 1, 2, 3])))
            s = flu(Seq([0, 1, 2, 3]), Log())
            it = iter(s)
            for _ in range(stop):
                next(it, None)
            if hasattr(it, "close"):
                it.close()
            check(matches(list(s), exp), f"{name}: after an abandoned iteration", got=list(s), expected=exp)
            st.step()


def producers(n):
    """(name, sequence, its elements): everything that makes a sequence out of something other than one source."""
    xs = list(range(n))
    step = lambda s: Some((("u", s), s + 1)) if s < n else Nothing  # noqa: E731
    down = lambda s: Some((s, s[1:])) if s else Nothing  # noqa: E731
    me = Seq(xs)
    via = seq.map(lambda x: x + 1)(xs)
    opt = [(Some(n), [n]), (Nothing, [])]
    out = [
        ("unfold", seq.unfold(step)(0), [("u", i) for i in xs]), ("Seq.unfold", Seq.unfold(step, 0), [("u", i) for i in xs]),
        ("unfold tuple", seq.unfold(down)(tuple(xs)), [tuple(xs[i:]) for i in xs]),
        ("unfold map", Seq(Seq.unfold(step, 0)).map(lambda v: v[1]), xs),
        ("delay", seq.delay(lambda: iter(xs)), xs), ("Seq.delay", Seq.delay(lambda: (x for x in xs)), xs),
        ("append itself", me.append(me), xs + xs), ("append itself twice", me.append(me, me), xs * 3), ("concat itself", seq.concat(me, me), xs + xs),
        ("append fn", seq.append(me, xs)(me), xs * 3), ("append stage", seq.append(via)(via), [x + 1 for x in xs] * 2),
        ("append result", me.append(xs).append(me.append(xs)), xs * 4),
        ("zip itself", me.zip(me), [(x, x) for x in xs]), ("zip stage", seq.zip(via)(via), [(x + 1, x + 1) for x in xs]),
        ("zip result", Seq(me.zip(me)).zip(me.map(str)), [((x, x), str(x)) for x in xs]),
        ("collect itself", me.collect(lambda x: me), xs * n), ("collect result", me.collect(lambda x: me.take(x)), [y for x in xs for y in range(x)]),
        ("Seq of Seqs", Seq([me, me, via]).concat(), xs + xs + [x + 1 for x in xs]),
        ("nested Seq", Seq(Seq(Seq(xs))), xs), ("of_iterable", Seq.of_iterable(me), xs), ("of_list", seq.of_list(via), [x + 1 for x in xs]),
        ("range", seq.range(n), xs), ("range step", Seq.range(2 * n, 0, -2), list(range(2 * n, 0, -2))), ("of", seq.of(*xs), xs),
        ("singleton", seq.singleton(n), [n]), ("empty", seq.empty, []), ("Seq.empty", Seq.empty(), []),
        ("infinite", seq.take(n)(seq.infinite), xs), ("init_infinite", Seq(seq.init_infinite(lambda i: i * i)).take(n), [i * i for i in xs]),
        ("scan over itself", me.scan(lambda a, b: a + b, 0), list(itertools.accumulate(xs, initial=0))),
        ("pairwise", me.pairwise(), list(itertools.pairwise(xs))),
        ("to_list", me.to_list(), xs), ("Block seq", Block(xs).pipe(seq.of_iterable), xs),
        ("map", Seq(Map.of_seq([(x, -x) for x in xs]).to_seq()), [(x, -x) for x in xs]),
        ("map keys", Seq(Map.of_seq([(x, -x) for x in xs])), xs),
    ]
    for o, exp in opt:
        out += [(f"{o}.to_seq", Seq(o.to_seq()), exp), (f"choose {o}", me.choose(lambda x, o=o: o), exp * n)]
    return out


def body_producers(ch, st):
    n = ch.choose(5)
    ps = producers(n)
    name, s, exp = ps[ch.choose(len(ps), lambda c: ps[c][0])]
    first = ch.choose(2)
    if first:  # once through before anything overlaps
        check(matches(list(s), exp), "elements", producer=name, n=n, got=list(s), expected=exp)
    for sched in SCHED:
        its, pos = [iter(s), iter(s)], [0, 0]
        for w in sched:
            g = pull(its[w])
            e = exp[pos[w]] if pos[w] < len(exp) else END
            pos[w] += 1
            if not (g is END and e is END) and (g is END or e is END or not matches(g, e)):
                fail(f"overlapping iteration {sched}", producer=name, n=n, got=g, expected=e)
            st.step()
    for _ in range(3):
        got = list(s)
        check(matches(got, exp), "iterating again gives something else", producer=name, n=n, got=got, expected=exp)
    st.outcome((name, n))


def fn_far(st, tier):
    """Enormous and endless sequences: only what is asked for is made, however far it lies."""
    big = 10 ** 17
    for r in (seq.range(big), Seq.range(big), Seq(range(big)), seq.range(0, big, 1)):
        check(seq.head(r) == 0 and list(seq.take(3)(r)) == [0, 1, 2] and list(Seq(r).skip(2).take(2)) == [2, 3], "a long range")
        check(seq.try_find_index(lambda x: x == 5)(r) == Some(5), "a long range")
        st.step(4)
    far = 300_000
    for name, inf, at in (("infinite", seq.infinite, lambda i: i), ("init_infinite", seq.init_infinite(lambda i: i * 2), lambda i: i * 2),
                          ("unfold", seq.unfold(lambda i: Some((i, i + 1)))(0), lambda i: i)):
        got = list(seq.take(2)(seq.skip(far)(inf)))
        check(got == [at(far), at(far + 1)], f"{name}: element {far}", got=got)
        it = iter(seq.map(lambda x: x)(inf))
        check(next(itertools.islice(it, far, None)) == at(far), f"{name}: element {far} of a stage")
        check(list(seq.take(3)(inf)) == [at(0), at(1), at(2)], f"{name}: from the start again")
        st.step(3)
    st.executions += 1


def sections(tier):
    t = tier == T
    return [
        Section("laziness", body_lazy(4 if t else 3), shards=8, bounds="all pipelines, minimal consumption"),
        Section("laziness 1", body_lazy(1), bounds="every stage alone"),
        Section("iterate again", body_again(4 if t else 3), shards=8, bounds="all pipelines, all interleavings of two iterators"),
        Section("iterate again 1", body_again(1), bounds="every stage alone"),
        Section("producers", body_producers, shards=4, bounds="40 ways to make a sequence, n 0..4, all interleavings of two iterators"),
        Section("far", fn=fn_far, bounds="ranges of 10^17, elements 300000 of endless sequences"),
        Section("consumers", fn=fn_eager, bounds="short-circuiting consumers, infinite operands"),
    ]
