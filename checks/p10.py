"""P10: AsyncSeq operations compute list results under every suspension pattern."""
import asyncio
import itertools

from expression import Nothing, Some, pipe
from expression.collections import asyncseq
from expression.collections.asyncseq import AsyncSeq

from mc.core import Section, check, fail
from mc.simloop import run
from mc.seqops import num, r_mapi, r_scan, r_skip, r_take
from mc.values import Boom, Hostile, alphabet, matches, outcome, sum_case, tie_cases

T = "thorough"
BOUNDS = ("sources of length 0..3 (quick) / 0..4 (thorough) over 3 letters plus special values; every source step immediate, yielding to the "
          "loop, or awaiting an external event; failure at every source position and every callback call; all pipelines of up to 3 stages; two "
          "interleaved consumers under every order of external events; infinite sources; lengths to 3000; one re-iterable source used in several places")
ASSUMPTIONS = ["asyncio runs ready callbacks in FIFO order; all orders of external events are explored"]
BOOM = Boom("src")


class Src:
    """Async source with a suspension pattern; counts pulls."""

    def __init__(self, items, susp, env=None, fail_at=None, infinite=False, tag=""):
        self.items, self.susp, self.env, self.fail_at, self.infinite, self.tag = items, susp, env, fail_at, infinite, tag
        self.pulls = 0
        self.closed = 0

    def __aiter__(self):
        return self._gen()

    async def _gen(self):
        i = 0
        while True:
            s = self.susp[i % len(self.susp)] if self.susp else 0
            if s == 1:
                await asyncio.sleep(0)
            elif s == 2:
                fut = asyncio.get_running_loop().create_future()
                self.env.add(f"{self.tag}{i}", lambda fut=fut: fut.done() or fut.set_result(None), free=False)
                await fut
            if i == self.fail_at:
                raise BOOM.with_traceback(None)
            if i < len(self.items):
                v = self.items[i]
            elif self.infinite:
                v = i
            else:
                return
            i += 1
            self.pulls += 1
            if self.pulls > 4000:
                raise AssertionError("consumes an infinite source without end")
            yield v


async def agen(xs):
    for x in xs:
        yield x


async def aw(x):
    """Fluent stages are coroutines or async generators."""
    if hasattr(x, "__aiter__"):
        return x
    return await x


def A(x):
    return x if isinstance(x, AsyncSeq) else AsyncSeq(x)


# name, fluent(AsyncSeq) -> awaitable or async iterable, function or None, reference(iterator)
STAGES = [
    ("map", lambda s: s.map(lambda x: (x,)), lambda: asyncseq.map(lambda x: (x,)), lambda it: ((x,) for x in it)),
    ("map None", lambda s: s.map(lambda x: None), lambda: asyncseq.map(lambda x: None), lambda it: (None for x in it)),
    ("filter", lambda s: s.filter(lambda x: num(x) % 2 == 0), lambda: asyncseq.filter(lambda x: num(x) % 2 == 0), lambda it: (x for x in it if num(x) % 2 == 0)),
    ("filter truthy", lambda s: s.filter(lambda x: x), lambda: asyncseq.filter(lambda x: x), lambda it: (x for x in it if x)),
    ("choose", lambda s: s.choose(lambda x: Some(x) if num(x) % 3 else Nothing), lambda: asyncseq.choose(lambda x: Some(x) if num(x) % 3 else Nothing),
     lambda it: (x for x in it if num(x) % 3)),
    ("choose None", lambda s: s.choose(lambda x: Some(None)), lambda: asyncseq.choose(lambda x: Some(None)), lambda it: (None for x in it)),
    ("collect", lambda s: s.collect(lambda x: agen([x, 0][:num(x) % 3])), lambda: asyncseq.collect(lambda x: agen([x, 0][:num(x) % 3])),
     lambda it: (y for x in it for y in [x, 0][:num(x) % 3])),
    ("append", None, lambda: asyncseq.append(agen([8, 9])), lambda it: (y for g in (it, [8, 9]) for y in g)),
    ("append empty", None, lambda: asyncseq.append(asyncseq.empty()), lambda it: (y for y in it)),
    ("prepend", None, lambda: (lambda src: asyncseq.append(src)(agen([5]))), lambda it: (y for g in ([5], it) for y in g)),
    ("scan", lambda s: s.scan(lambda a, x: a * 2 + num(x), 1), None, r_scan(lambda a, x: a * 2 + num(x), 1)),
    ("scan None", lambda s: s.scan(lambda a, x: (a, x), None), None, r_scan(lambda a, x: (a, x), None)),
    ("take 0", lambda s: s.take(0), None, r_take(0)),
    ("take -1", lambda s: s.take(-1), None, r_take(-1)),
    ("take 1", lambda s: s.take(1), None, r_take(1)),
    ("take 2", lambda s: s.take(2), None, r_take(2)),
    ("take 9", lambda s: s.take(9), None, r_take(9)),
    ("skip 0", lambda s: s.skip(0), None, r_skip(0)),
    ("skip -1", lambda s: s.skip(-1), None, r_skip(0)),
    ("skip 1", lambda s: s.skip(1), None, r_skip(1)),
    ("skip 2", lambda s: s.skip(2), None, r_skip(2)),
    ("tail", lambda s: s.tail(), None, r_skip(1)),
]


def foldl(f, s, xs):
    for x in xs:
        s = f(s, x)
    return s


def foldr(f, s, xs):
    for x in reversed(xs):
        s = f(x, s)
    return s


class VErr:
    pass


TERMS = [
    ("fold", lambda s: s.fold(lambda a, x: (a, x), 0), lambda l: foldl(lambda a, x: (a, x), 0, l)),
    ("fold None", lambda s: s.fold(lambda a, x: x, None), lambda l: foldl(lambda a, x: x, None, l)),
    ("fold_back", lambda s: s.fold_back(lambda x, a: (x, a), 0), lambda l: foldr(lambda x, a: (x, a), 0, l)),
    ("head", lambda s: s.head(), lambda l: l[0] if l else VErr),
    ("length", lambda s: s.length(), len),
    ("sum", lambda s: s.sum(), sum),
    ("max", lambda s: s.max(), lambda l: max(l) if l else VErr),
    ("min", lambda s: s.min(), lambda l: min(l) if l else VErr),
]


class RefSrc:
    def __init__(self, items, fail_at=None, infinite=False):
        self.items, self.fail_at, self.infinite, self.pulls = items, fail_at, infinite, 0

    def __iter__(self):
        i = 0
        while True:
            if i == self.fail_at:
                raise BOOM.with_traceback(None)
            if i < len(self.items):
                v = self.items[i]
            elif self.infinite:
                v = i
            else:
                return
            i += 1
            self.pulls += 1
            yield v


def ref_trace(idx, items, fail_at, infinite, limit):
    """[(value | 'end' | exception, pulls)] of the reference."""
    src = RefSrc(items, fail_at, infinite)
    it = iter(src)
    for i in idx:
        it = iter(STAGES[i][3](it))
    out = []
    for _ in range(limit):
        try:
            out.append(("v", next(it), src.pulls))
        except StopIteration:
            out.append(("end", None, src.pulls))
            break
        except Boom as e:
            out.append(("exc", e, src.pulls))
            break
    return out


async def build(idx, form, src):
    s = src
    for i in idx:
        name, flu, fn, ref = STAGES[i]
        if flu is not None and (form == 0 or fn is None):
            s = await aw(flu(A(s)))
        else:
            s = fn()(s)
    return s


def check_pipeline(ch, st, idx, items, susp, fail_at, infinite, form, limit=6):
    names = [STAGES[i][0] for i in idx]
    exp = ref_trace(idx, items, fail_at, infinite, limit)

    async def main(loop, env):
        src = Src(items, susp, env, fail_at, infinite)
        s = await build(idx, form, src)
        if src.pulls:
            fail("building an async pipeline pulled from its source", stages=names, pulls=src.pulls)
        it = A(s).__aiter__()
        for k, (kind, val, pulls) in enumerate(exp):
            try:
                got = ("v", await it.__anext__())
            except StopAsyncIteration:
                got = ("end", None)
            except Boom as e:
                got = ("exc", e)
            ok = got[0] == kind and (kind != "v" or matches(got[1], val)) and (kind != "exc" or got[1] is val)
            if not ok:
                fail(f"element {k + 1} of an async pipeline", stages=names, source=items, suspensions=susp, fails_at=fail_at, got=got,
                     expected=(kind, val))
            if src.pulls > pulls:
                fail(f"{k + 1} results pulled {src.pulls} source elements instead of {pulls}", stages=names, source=items)
            st.step()

    r = run(ch, main)
    if r[0] == "raise":
        raise r[1]
    check(r[0] == "ret", f"an async pipeline ended with {r[0]}", stages=names, source=items, suspensions=susp)
    if r[2].unhandled:
        fail("an error went unhandled inside the event loop", context=r[2].unhandled[0].get("message"))
    st.outcome((len(exp), exp[-1][0]))


def susp_patterns(n):
    return list(itertools.product((0, 1, 2), repeat=n + 1))


def body_single(n):
    srcs = [xs for k in range(n + 1) for xs in itertools.product((1, 0, 2), repeat=k)]
    srcs += [(None, 0, ""), (Some(1), Nothing), ((), [])]

    def body(ch, st):
        i = ch.choose(len(STAGES), lambda c: STAGES[c][0])
        xs = srcs[ch.choose(len(srcs))]
        pats = susp_patterns(min(len(xs), 2))
        pat = pats[ch.choose(len(pats))]
        fa = ch.choose(len(xs) + 2) - 1
        form = ch.choose(2) if STAGES[i][1] is not None and STAGES[i][2] is not None else 0
        check_pipeline(ch, st, [i], xs, pat, None if fa < 0 else fa, False, form)
    return body


def body_pipe(depth):
    srcs = [((), None, False), ((1,), None, False), ((0, 1, 2, 3), None, False), ((0, 1, 2, 3), 2, False), ((), None, True)]
    pats = [(0,), (1,), (2,), (2, 0, 1)]
    skip_inf = {"take -1"}

    def body(ch, st):
        idx = [ch.choose(len(STAGES), lambda c: STAGES[c][0]) for _ in range(depth)]
        xs, fa, inf = srcs[ch.choose(len(srcs))]
        pat = pats[ch.choose(len(pats))]
        if inf:
            try:
                _bounded(idx)
            except OverflowError:
                return
        check_pipeline(ch, st, idx, xs, pat, fa, inf, ch.choose(2), 4)
    return body


def _bounded(idx):
    """Does the reference produce 4 elements (or end) of an infinite source in bounded pulls?"""
    class S(RefSrc):
        def __iter__(self):
            for v in super().__iter__():
                if self.pulls > 200:
                    raise OverflowError
                yield v
    it = iter(S((), None, True))
    for i in idx:
        it = iter(STAGES[i][3](it))
    for _ in range(4):
        try:
            next(it)
        except StopIteration:
            return


def body_terms(n):
    srcs = [xs for k in range(n + 1) for xs in itertools.product((1, 0, 2), repeat=k)]

    def body(ch, st):
        name, real, model = TERMS[ch.choose(len(TERMS), lambda c: TERMS[c][0])]
        xs = srcs[ch.choose(len(srcs))]
        pats = susp_patterns(min(len(xs), 2))
        pat = pats[ch.choose(len(pats))]
        fa = ch.choose(len(xs) + 2) - 1

        async def main(loop, env):
            src = Src(xs, pat, env, None if fa < 0 else fa)
            try:
                return ("ret", await real(AsyncSeq(src)), src.pulls)
            except (Boom, ValueError) as e:
                return ("exc", e, src.pulls)

        r = run(ch, main)
        check(r[0] == "ret", f"{name} ended with {r[0]}", error=r[1], source=xs)
        kind, val, pulls = r[1]
        if fa >= 0 and not (name == "head" and xs and fa > 0):
            check(kind == "exc" and val is BOOM, f"{name}: the source's failure did not reach the consumer", got=(kind, val))
        else:
            e = model(list(xs))
            if e is VErr:
                check(kind == "exc" and isinstance(val, ValueError), f"{name} of nothing must raise ValueError", got=(kind, val))
            else:
                check(kind == "ret" and matches(val, e), f"{name}", source=xs, got=(kind, val), expected=e)
        if name == "head":
            check(pulls <= 1, "head pulled more than one element", pulls=pulls)
        st.step()
        st.outcome((name, kind))
    return body


def body_answers(ch, st):
    """Whatever a callback answers is taken as it is."""
    vals = alphabet()
    i, j = ch.choose(len(vals)), ch.choose(len(vals))
    a = [vals[i], vals[j], vals[i]]
    pat = [(0,), (1,)][ch.choose(2)]
    which = ch.choose(9)
    cnt = {"n": 0}

    def ans(*_):
        cnt["n"] += 1
        return a[(cnt["n"] - 1) % 3]
    mk, exp = [
        (lambda s: s.map(ans), a), (lambda s: asyncseq.map(ans)(s), a), (lambda s: s.choose(lambda x: Some(ans())), a), (lambda s: asyncseq.choose(lambda x: Some(ans()))(s), a),
        (lambda s: s.collect(lambda x: agen([ans()])), a), (lambda s: asyncseq.collect(lambda x: agen([ans()]))(s), a), (lambda s: s.scan(lambda q, x: ans(), vals[j]), [vals[j], *a]),
        (lambda s: s.fold(lambda q, x: ans(), vals[j]), None), (lambda s: s.fold_back(lambda x, q: ans(), vals[j]), None),
    ][which]

    async def main(loop, env):
        src = Src((1, 2, 3), pat, env)
        if exp is None:
            return await mk(AsyncSeq(src))
        return [x async for x in A(await aw(mk(AsyncSeq(src))))]
    r = run(ch, main)
    check(r[0] == "ret", f"ended with {r[0]}", error=r[1])
    check(matches(r[1], exp) if exp is not None else matches(r[1], a[2]), "the answers of a callback were not passed on", which=which, got=r[1], answers=a)
    check(cnt["n"] == 3, "a callback was not called once per element", calls=cnt["n"], which=which)
    st.step()
    st.outcome((which, i, j))


def body_callback_fails(ch, st):
    """A callback failing at its k-th call surfaces exactly there."""
    k = ch.choose(4)
    which = ch.choose(7)
    pat = [(0,), (1,), (2,)][ch.choose(3)]
    cnt = {"n": 0}

    def cb(f):
        def g(*a):
            cnt["n"] += 1
            if cnt["n"] == k + 1:
                raise BOOM.with_traceback(None)
            return f(*a)
        return g

    mk = [
        lambda s: s.map(cb(lambda x: x)), lambda s: s.filter(cb(lambda x: True)), lambda s: s.choose(cb(lambda x: Some(x))),
        lambda s: s.collect(cb(lambda x: agen([x]))), lambda s: s.scan(cb(lambda a, x: x), "s"),
        lambda s: asyncseq.map(cb(lambda x: x))(s), lambda s: asyncseq.collect(cb(lambda x: agen([x])))(s),
    ][which]

    async def main(loop, env):
        src = Src((1, 2, 3), pat, env)
        got = []
        try:
            async for x in A(await aw(mk(AsyncSeq(src)))):
                got.append(x)
        except Boom as e:
            return ("exc", e, got, src.pulls)
        return ("end", None, got, src.pulls)

    r = run(ch, main)
    check(r[0] == "ret", f"ended with {r[0]}", error=r[1])
    kind, e, got, pulls = r[1]
    full = ["s", 1, 2, 3] if which == 4 else [1, 2, 3]
    if k < 3:
        n = k + (1 if which == 4 else 0)
        check(kind == "exc" and e is BOOM and got == full[:n] and pulls == k + 1, "a failing callback", which=which, k=k, got=(kind, got, pulls))
    else:
        check(kind == "end" and got == full, "no failure", got=got)
    st.step()
    st.outcome((which, k))


def body_two(ch, st):
    """Two consumers (of one re-iterable source / of two stages) interleaved by external events."""
    i = ch.choose(len(STAGES), lambda c: STAGES[c][0])
    form = ch.choose(2) if STAGES[i][1] is not None and STAGES[i][2] is not None else 0
    pat_a = [(2,), (1, 2)][ch.choose(2)]
    exp = [v for k, v, _ in ref_trace([i], (0, 1, 2), None, False, 12) if k == "v"]

    async def main(loop, env):
        sa, sb = Src((0, 1, 2), pat_a, env, tag="a"), Src((0, 1, 2), (2, 1), env, tag="b")
        fn = STAGES[i][2]() if form == 1 and STAGES[i][0] not in ("append", "append empty") else None

        async def consume(src):
            s = fn(src) if fn else await build([i], form, src)
            return [x async for x in A(s)]

        return await asyncio.gather(consume(sa), consume(sb))

    r = run(ch, main)
    check(r[0] == "ret", f"ended with {r[0]}", error=r[1], stage=STAGES[i][0])
    for g in r[1]:
        check(matches(g, exp), "interleaved consumers disturb each other", stage=STAGES[i][0], got=g, expected=exp, trace=r[2].trace)
    st.step(2)
    st.outcome((STAGES[i][0], tuple(r[2].trace)))


def body_again(ch, st):
    """An AsyncSeq over a re-iterable source: every iteration, one after another or interleaved, starts from the beginning."""
    xs = [(), (1,), (0, 1, 2), (None, 0, "")][ch.choose(4)]
    pat = [(0,), (1,), (2,), (2, 0, 1)][ch.choose(4)]
    mode = ch.choose(4)
    n = 2 + ch.choose(2)
    if n == 3 and mode in (1, 2) and 2 in pat:
        xs = xs[:1]

    async def main(loop, env):
        if mode == 3 and pat == (2,):
            seq_ = AsyncSeq(AsyncSeq(Src(xs, pat, env)))
        else:
            seq_ = AsyncSeq(Src(xs, pat, env))

        async def use(k):
            if mode == 2:  # different consumers
                if k == 0:
                    return [await seq_.length()] if len(xs) == await seq_.length() else []
                if k == 1:
                    return list(await seq_.fold(lambda a, x: (*a, x), ()))
            return [x async for x in seq_]
        if mode == 0:
            return [await use(k) for k in range(n)]
        if mode == 1 or mode == 2:
            return await asyncio.gather(*[use(k) for k in range(n)])
        # an abandoned iteration, then complete ones
        async for _ in seq_:
            break
        return [await use(k + 2) for k in range(n)]

    r = run(ch, main)
    if r[0] == "raise":
        raise r[1]
    check(r[0] == "ret", f"ended with {r[0]}", source=xs)
    for k, g in enumerate(r[1]):
        exp = [len(xs)] if mode == 2 and k == 0 else list(xs)
        check(matches(g, exp), "iterating an AsyncSeq again does not start from the beginning", iteration=k, got=g, expected=exp, mode=mode)
    st.step(n)
    st.outcome((xs, pat, mode, n, tuple(r[2].trace)))


def fn_misc(st, tier):
    from mc.core import Choices

    def go(coro_fn):
        r = run(Choices(), lambda loop, env: coro_fn())
        if r[0] == "raise":
            raise r[1]
        check(r[0] == "ret", f"ended with {r[0]}")
        st.executions += 1
        st.step()
        return r[1]

    async def collect(ai, limit=None):
        out = []
        async for x in ai:
            out.append(x)
            if limit is not None and len(out) >= limit:
                break
        return out

    for a in [(n,) for n in (-2, 0, 1, 4)] + list(itertools.product((-3, 0, 4), (-3, 0, 5))) + list(itertools.product((-3, 0, 4), (-3, 0, 5), (-2, -1, 1, 3))):
        check(go(lambda: collect(asyncseq.range(*a))) == list(range(*a)), "range", args=a)
        check(go(lambda: collect(AsyncSeq.range(*a))) == list(range(*a)), "AsyncSeq.range", args=a)
    async def gen(xs):
        for x in xs:
            yield x

    for tkind, vals, exp in tie_cases():
        if tkind == "sum":
            sum_case(st, vals, exp, {"sum": lambda: go(lambda: AsyncSeq(gen(vals)).sum())})
        else:
            for nm, f, want in (("max", lambda: AsyncSeq(gen(vals)).max(), max(vals)), ("min", lambda: AsyncSeq(gen(vals)).min(), min(vals))):
                got = go(f)
                check(matches(got, want), f"{nm}: not the first of equal elements", values=vals, got=got, expected=want)
    check(go(lambda: collect(asyncseq.empty())) == [] and go(lambda: collect(AsyncSeq.empty())) == [], "empty")
    for v in (1, None, Nothing):
        for n in (0, 1, 3, 2000):
            check(matches(go(lambda: collect(asyncseq.repeat(v, n))), [v] * n), "repeat", n=n)
        check(matches(go(lambda: collect(asyncseq.repeat(v), 50)), [v] * 50), "repeat without times is infinite")

    async def nested():
        async def outer():
            for k in (2, 0, 1):
                yield agen(range(k))
        return await collect(await AsyncSeq(outer()).concat())
    check(go(nested) == [0, 1, 0], "concat")

    # one re-iterable source in several places: each place iterates it from the start
    class Again:
        def __init__(self, xs):
            self.xs = xs

        def __aiter__(self):
            return gen(self.xs)

        def __eq__(self, o):
            return isinstance(o, Again)

        def __hash__(self):
            return 1

        def __len__(self):
            return 0

        def __bool__(self):
            return False
    for xs, ys in itertools.product([(), (1,), (1, 2), (None, 0), (3, 1, 3)], repeat=2):
        for wrap in (lambda a: a, AsyncSeq):
            a, b = wrap(Again(xs)), wrap(Again(ys))
            for _ in range(2):
                for l, r, exp in ((a, a, xs + xs), (a, b, xs + ys), (b, a, ys + xs), (b, b, ys + ys)):
                    check(go(lambda: collect(asyncseq.append(r)(l))) == list(exp), "append with a source used twice", left=xs, right=ys)
                    check(go(lambda: collect(asyncseq.append(l)(asyncseq.append(r)(l)))) == [x for p in (l, r, l) for x in (xs if p is a else ys)], "append of three with a source used twice")
                    check(go(lambda: collect(asyncseq.collect(lambda k: (l, r)[k])(gen((0, 1, 0, 0))))) == [x for p in (l, r, l, l) for x in (xs if p is a else ys)], "collect with sources used twice")

                    async def cat():
                        return await collect(await AsyncSeq(gen((l, r, l))).concat()), await collect(await AsyncSeq(gen((0, 1))).collect(lambda k: (l, r)[k]))
                    g1, g2 = go(cat)
                    check(g1 == [x for p in (l, r, l) for x in (xs if p is a else ys)] and g2 == list(exp), "concat with sources used twice", got=(g1, g2))

    async def hostile():
        s = AsyncSeq(agen([Hostile("a"), Hostile("b")]))
        s = await s.map(lambda x: x)
        s = A(await s.filter(lambda x: True))
        s = A(await s.skip(1))
        return len(await collect(s))
    check(go(hostile) == 1, "payloads are inspected")
    for n in (0, 1, 2, 63, 64, 65, 999, 1000, 1001, 3000, 20001) + ((70001,) if tier == T else ()):
        xs = list(range(n))
        for i, (name, flu, fn, ref) in enumerate(STAGES):
            if n > 3000 and name == "scan":  # the numbers get as long as the list
                continue
            exp = list(ref(iter(xs)))

            async def one(i=i):
                return await collect(A(await build([i], 0, agen(xs))))
            got = go(one)
            if n > 3000 and name == "scan None":  # states nest as deep as the list is long
                got, exp = [g[1:] for g in got[1:]], [g[1:] for g in exp[1:]]
            check(matches(got, exp) if n < 100 else got == exp, f"{name} at length {n}")
        for back, f in ((False, lambda a, x: (a * 31 + x) % 1000003), (True, lambda x, a: (a * 31 + x) % 1000003)):
            got = go(lambda: AsyncSeq(agen(xs)).fold_back(f, 7) if back else AsyncSeq(agen(xs)).fold(f, 7))
            check(got == (foldr if back else foldl)(f, 7, xs), "a long fold", n=n, back=back)
        check(go(lambda: collect(asyncseq.range(n))) == xs and go(lambda: collect(AsyncSeq.range(0, n, 1))) == xs, "a long range", n=n)
        for name, real, model in TERMS:
            if n > 100 and name in ("fold", "fold_back"):
                continue
            e = model(xs)

            async def term():
                try:
                    return await real(AsyncSeq(agen(xs)))
                except ValueError:
                    return VErr
            check(go(term) == e, f"{name} at length {n}")

    async def long_chain():
        s = AsyncSeq(agen([0, 1]))
        for _ in range(100):
            s = await s.map(lambda v: v + 1)
        return await collect(s)
    check(go(long_chain) == [100, 101], "a long chain of maps")


def sections(tier):
    t = tier == T
    return [
        Section("one stage", body_single(4 if t else 3), shards=8, bounds="every stage x source x suspension pattern x failure position"),
        Section("pipelines", body_pipe(3), shards=8, bounds="all stage sequences"),
        Section("terminals", body_terms(4 if t else 3), shards=4, bounds="every consumer"),
        Section("answers", body_answers, shards=4, bounds="every pair of alphabet values as answers of a callback"),
        Section("failing callbacks", body_callback_fails, bounds="every callback position"),
        Section("two consumers", body_two, shards=4, bounds="all orders of external events"),
        Section("iterated again", body_again, shards=4, bounds="repeated, interleaved and abandoned iterations"),
        Section("misc", fn=fn_misc, bounds="constructors, lengths to 3000"),
    ]
