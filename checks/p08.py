"""P08: Seq operations compute exactly what the same operation on a list computes."""
import itertools

from expression import Nothing, Ok, Some, pipe
from expression.collections import Block, Seq, seq

from mc.core import Section, check, fail
from mc.seqops import STAGES, Log
from mc.values import NONE, Boom, EqAll, Hostile, Just, Opaque, Rec, SeqOf, agree, alphabet, diff, matches, outcome, same_calls, variants, sum_case, tie_cases

T = "thorough"
BOUNDS = ("all sequences over a 3-letter alphabet up to length 3 (quick) / 4 (thorough) plus special-value sequences, as list, tuple, range, "
          "generator, Seq, Block, iterator; every operation in every form with every count in -2..6 and callbacks failing at every position; all "
          "pipelines of up to 3 (quick) / 4 (thorough) of 33 stages, fluent and pipelined, with every terminal; sizes to 5000")
ASSUMPTIONS = ["callbacks are deterministic functions of their arguments or call position"]
BOOM = Boom("cb")

SPECIAL = [(None,), (0, None, ""), (Some(1), Nothing), (Hostile(), Hostile()), (EqAll(), 1), ((), [], {}), (float("nan"), 1.0),
           (Opaque("a"), Opaque("b")), ((1, 2), (3, 4)), (Ok(1), Block([1])), (1, True, 1.0), (len, int), ("ab", "c")]

KINDS = [
    ("list", lambda xs: list(xs)), ("tuple", lambda xs: tuple(xs)), ("generator", lambda xs: (x for x in xs)), ("Seq", lambda xs: Seq(list(xs))),
    ("Seq gen", lambda xs: Seq(x for x in xs)), ("Block", lambda xs: Block(xs)), ("iter", lambda xs: iter(list(xs))), ("Seq.of", lambda xs: Seq.of(*xs)),
    ("of", lambda xs: seq.of(*xs)), ("of_iterable", lambda xs: seq.of_iterable(tuple(xs))), ("of_list", lambda xs: seq.of_list(list(xs))),
    ("SeqSeq", lambda xs: Seq(Seq(xs))), ("delay", lambda xs: seq.delay(lambda: iter(xs))), ("Seq.of_iterable", lambda xs: Seq.of_iterable(xs)),
]


class Pos:
    def __init__(self, answers, fail_at=None, post=None):
        self.answers, self.fail_at, self.post = list(answers), fail_at, post

    def fresh(self):
        it = {"i": 0}

        def f(*a):
            i = it["i"]
            it["i"] += 1
            if i == self.fail_at:
                raise BOOM.with_traceback(None)
            v = self.answers[i % len(self.answers)]
            return self.post(v, *a) if self.post else v

        return Rec(f)


def S(xs):
    return SeqOf(xs)


def force(x):
    """Materialise inside the compared call, so failures surface there."""
    return list(x)


def sources(n):
    out = []
    for k in range(n + 1):
        out += list(itertools.product((1, 0, 2), repeat=k))
    return out


def run_ops(st, xs, mk):
    """``mk()`` makes a fresh source of the kind under test."""
    n = len(xs)
    SQ = lambda: Seq(mk())  # noqa: E731

    def d(what, forms, ref, mkargs=lambda: []):
        diff(st, f"{what} on {xs!r}" if n < 8 else f"{what} on {n} elements", forms, ref, mkargs)

    d("iteration", [("list", lambda: force(mk())), ("Seq", lambda: force(SQ()))], lambda: list(xs))
    d("to_list", [("m", lambda: SQ().to_list()), ("f", lambda: seq.to_list(mk()))], lambda: SeqOf(xs, Block))
    d("length", [("m", lambda: SQ().length()), ("f", lambda: seq.length(mk()))], lambda: n)
    if n:
        d("head", [("m", lambda: SQ().head()), ("f", lambda: seq.head(mk()))], lambda: xs[0])
    else:
        for f in (lambda: SQ().head(), lambda: seq.head(mk()), lambda: pipe(mk(), seq.head)):
            o = outcome(f)
            check(o[0] == "raise" and isinstance(o[1], ValueError), "head of an empty sequence must raise ValueError", got=o)
    d("tail", [("m", lambda: force(SQ().tail())), ("f", lambda: force(seq.tail(mk())))], lambda: list(xs[1:]))
    for c in (range(-2, n + 3) if n < 8 else (-1, 0, 1, 2, n // 2, n - 1, n, n + 1)):
        d(f"skip {c}", [("m", lambda: force(SQ().skip(c))), ("f", lambda: force(seq.skip(c)(mk()))), ("p", lambda: force(pipe(mk(), seq.skip(c))))],
          lambda: list(xs[max(c, 0):]))
        d(f"take {c}", [("m", lambda: force(SQ().take(c))), ("f", lambda: force(seq.take(c)(mk()))), ("p", lambda: force(SQ().pipe(seq.take(c))))],
          lambda: list(xs[:max(c, 0)]))
    d("pairwise", [("m", lambda: force(SQ().pairwise())), ("f", lambda: force(seq.pairwise(mk())))], lambda: list(zip(xs, xs[1:])))
    for others in ((), ([7],), ((8, None), [], (9,)), (xs, [0])):
        exp = list(itertools.chain(xs, *others))
        d("append", [("m", lambda: force(SQ().append(*others))), ("f", lambda: force(seq.append(*others)(mk()))),
                     ("concat", lambda: force(seq.concat(mk(), *others))), ("gens", lambda: force(SQ().append(*[iter(o) for o in others])))], lambda: exp)
        for o in others[:1]:
            d("zip", [("m", lambda: force(SQ().zip(o))), ("f", lambda: force(seq.zip(mk())(o))), ("seq", lambda: force(SQ().zip(Seq(o))))],
              lambda: list(zip(xs, o)))
            d("zip right", [("m", lambda: force(Seq(o).zip(mk()))), ("f", lambda: force(seq.zip(o)(mk())))], lambda: list(zip(o, xs)))
    d("concat none", [("f", lambda: force(seq.concat()))], lambda: [])
    d("concat nested", [("m", lambda: force(Seq([Seq(xs), Seq(), Seq([3])]).concat())), ("f", lambda: force(seq.concat(*[list(xs), [], [3]])))],
      lambda: [*xs, 3])
    fails = [None] + ([*range(min(n, 4))] if n < 8 else [0, n // 2, n - 1])
    for fa in fails:
        mkf = lambda: [Pos([0, None, "v"], fa, lambda v, *a: (v, *a)).fresh()]  # noqa: E731
        d("map", [("m", lambda f: force(SQ().map(f))), ("f", lambda f: force(seq.map(f)(mk()))), ("p", lambda f: force(pipe(mk(), seq.map(f))))],
          lambda f: [f(x) for x in xs], mkf)
        d("mapi", [("m", lambda f: force(SQ().mapi(f))), ("f", lambda f: force(seq.mapi(f)(mk())))], lambda f: [f(i, x) for i, x in enumerate(xs)], mkf)
        mkg = lambda: [Pos([0], fa, lambda v, s, x: (s if n < 8 else 0, x)).fresh()]  # noqa: E731
        d("fold", [("m", lambda f: SQ().fold(f, 5)), ("f", lambda f: seq.fold(f, 5)(mk())), ("p", lambda f: pipe(mk(), seq.fold(f, 5)))],
          lambda f: _fold(f, 5, xs), mkg)
        d("fold None", [("m", lambda f: SQ().fold(f, None)), ("f", lambda f: seq.fold(f, None)(mk()))], lambda f: _fold(f, None, xs), mkg)
        d("fold_back", [("f", lambda f: seq.fold_back(f, mk())(5))], lambda f: _foldb(f, 5, xs),
          lambda: [Pos([0], fa, lambda v, x, s: (x, s if n < 8 else 0)).fresh()])
        d("scan", [("m", lambda f: force(SQ().scan(f, 5))), ("f", lambda f: force(seq.scan(f, 5)(mk())))], lambda f: _scan(f, 5, xs), mkg)
        d("iter", [("f", lambda f: seq.iter(f)(mk())), ("p", lambda f: pipe(mk(), seq.iter(f)))], lambda f: ([f(x) for x in xs], None)[1], mkf)
        d("sum_by", [("m", lambda f: SQ().sum_by(f)), ("f", lambda f: seq.sum_by(f)(mk()))], lambda f: sum([f(x) for x in xs]),
          lambda: [Pos([1, -2, 5], fa).fresh()])
        if n:
            d("max_by", [("f", lambda f: seq.max_by(f)(mk()))], lambda f: max([f(x) for x in xs]), lambda: [Pos([1, 5, -2], fa).fresh()])
            d("min_by", [("f", lambda f: seq.min_by(f)(mk()))], lambda f: min([f(x) for x in xs]), lambda: [Pos([1, 5, -2], fa).fresh()])
    nn = min(n, 4)
    pats = [Pos(p) for p in itertools.product((True, False), repeat=nn)] if n and n < 8 else [Pos([True, False]), Pos([False]), Pos([True])]
    pats += [Pos([1, "", [0], None])] + [Pos([False] * (k + 1), k) for k in range(nn)] + [Pos([True, False], nn - 1 if nn else None)]
    for p in pats:
        mkp = lambda: [p.fresh()]  # noqa: E731
        d("filter", [("m", lambda f: force(SQ().filter(f))), ("f", lambda f: force(seq.filter(f)(mk()))), ("p", lambda f: force(pipe(mk(), seq.filter(f))))],
          lambda f: [x for x in xs if f(x)], mkp)
        d("try_find_index", [("m", lambda f: SQ().try_find_index(f)), ("f", lambda f: seq.try_find_index(f)(mk()))],
          lambda f: next((Just(i) for i, x in enumerate(xs) if f(x)), NONE), mkp)
    for pat in (itertools.product((0, 1, 2), repeat=min(n, 3)) if n and n < 8 else [(0, 1, 2), (0,)]):
        mkc = lambda: [Pos(pat, None, lambda v, x: Nothing if v == 0 else Some(x) if v == 1 else Some(None)).fresh()]  # noqa: E731
        d("choose", [("m", lambda f: force(SQ().choose(f))), ("f", lambda f: force(seq.choose(f)(mk())))],
          lambda f: [o.some for o in [f(x) for x in xs] if o.tag == "some"], mkc)
        d("try_pick", [("m", lambda f: SQ().try_pick(f)), ("f", lambda f: seq.try_pick(f)(mk()))],
          lambda f: next((Just(o.some) for o in (f(x) for x in xs) if o.tag == "some"), NONE), mkc)
        mkk = lambda: [Pos(pat, None, lambda v, x: [x] * v).fresh()]  # noqa: E731
        d("collect", [("m", lambda f: force(SQ().collect(f))), ("f", lambda f: force(seq.collect(f)(mk()))),
                      ], lambda f: [y for x in xs for y in f(x)], mkk)
        mkk2 = lambda: [Pos(pat, None, lambda v, x: Seq(iter([x] * v))).fresh()]  # noqa: E731
        d("collect Seq", [("m", lambda f: force(SQ().collect(f))), ("f", lambda f: force(seq.collect(f)(mk())))],
          lambda f: [y for x in xs for y in f(x)], mkk2)
    for fa in fails[1:]:
        d("collect failing", [("m", lambda f: force(SQ().collect(f))), ("f", lambda f: force(seq.collect(f)(mk())))],
          lambda f: [y for x in xs for y in f(x)], lambda: [Pos([0], fa, lambda v, x: [x]).fresh()])
        d("choose failing", [("m", lambda f: force(SQ().choose(f))), ("f", lambda f: force(seq.choose(f)(mk())))],
          lambda f: [f(x).some for x in xs], lambda: [Pos([0], fa, lambda v, x: Some(x)).fresh()])
    if n and all(isinstance(x, tuple) and len(x) == 2 for x in xs):
        d("starmap", [("m", lambda f: force(SQ().starmap(f))), ("f", lambda f: force(seq.starmap(f)(mk()))), ("map2", lambda f: force(seq.map2(f)(mk())))],
          lambda f: [f(*x) for x in xs], lambda: [Rec(lambda *a: a)])
    if all(type(x) in (int, bool, float) and x == x for x in xs):
        d("sum", [("m", lambda: SQ().sum()), ("f", lambda: seq.sum(mk()))], lambda: sum(xs))
        if n:
            d("max", [("f", lambda: seq.max(mk()))], lambda: max(xs))
            d("min", [("f", lambda: seq.min(mk()))], lambda: min(xs))
        else:
            for f in (seq.max, seq.min, seq.max_by(lambda x: x), seq.min_by(lambda x: x)):
                o = outcome(f, mk())
                check(o[0] == "raise" and isinstance(o[1], ValueError), "max/min of nothing must raise ValueError", got=o)


def _fold(f, s, xs):
    for x in xs:
        s = f(s, x)
    return s


def _foldb(f, s, xs):
    for x in reversed(xs):
        s = f(x, s)
    return s


def _scan(f, s, xs):
    out = [s]
    for x in xs:
        s = f(s, x)
        out.append(s)
    return out


def body_ops(n):
    srcs = sources(n) + SPECIAL

    def body(ch, st):
        xs = srcs[ch.choose(len(srcs))]
        name, mk = KINDS[ch.choose(len(KINDS))]
        kept = []

        def make():
            if name in ("list", "Seq", "of_list"):
                src = list(xs)
                kept.append(src)
                return src if name == "list" else Seq(src) if name == "Seq" else seq.of_list(src)
            return mk(xs)
        run_ops(st, xs, make)
        for src in kept:
            check(len(src) == len(xs) and all(a is b for a, b in zip(src, xs)), "an operation changed the list it was given", now=src, was=xs)
        st.outcome((name, len(xs)))
    return body


def body_answers(ch, st):
    """Whatever a callback answers is taken as it is: nothing is special about None, falsy or nested answers."""
    vals = alphabet()
    i, j = ch.choose(len(vals)), ch.choose(len(vals))
    a = [vals[i], vals[j], vals[i]]
    for n in (1, 2, 3):
        xs = list(range(n))
        mk = lambda: [Pos(a).fresh()]  # noqa: E731
        mko = lambda: [Pos(a, None, lambda v, *_: Some(v)).fresh()]  # noqa: E731
        mkl = lambda: [Pos(a, None, lambda v, *_: [v]).fresh()]  # noqa: E731
        s, ps = Seq(xs), [(x, x) for x in xs]

        def d(what, forms, ref, m=mk):
            diff(st, f"{what} of {n} elements", forms, ref, m)
        d("map", [("m", lambda f: force(s.map(f))), ("f", lambda f: force(seq.map(f)(xs)))], lambda f: [f(x) for x in xs])
        d("mapi", [("m", lambda f: force(s.mapi(f))), ("f", lambda f: force(seq.mapi(f)(xs)))], lambda f: [f(k, x) for k, x in enumerate(xs)])
        d("starmap", [("m", lambda f: force(Seq(ps).starmap(f))), ("f", lambda f: force(seq.starmap(f)(ps))), ("map2", lambda f: force(seq.map2(f)(ps)))], lambda f: [f(x, x) for x in xs])
        d("map3", [("f", lambda f: force(seq.map3(f)([(x, x, x) for x in xs])))], lambda f: [f(x, x, x) for x in xs])
        d("fold", [("m", lambda f: s.fold(f, a[0])), ("f", lambda f: seq.fold(f, a[0])(xs))], lambda f: _fold(f, a[0], xs))
        d("fold_back", [("f", lambda f: seq.fold_back(f, xs)(a[0]))], lambda f: _foldb(f, a[0], xs))
        d("scan", [("m", lambda f: force(s.scan(f, a[0]))), ("f", lambda f: force(seq.scan(f, a[0])(xs)))], lambda f: _scan(f, a[0], xs))
        d("iter", [("f", lambda f: seq.iter(f)(xs))], lambda f: ([f(x) for x in xs], None)[1])
        d("choose", [("m", lambda f: force(s.choose(f))), ("f", lambda f: force(seq.choose(f)(xs)))], lambda f: [f(x).some for x in xs], mko)
        d("try_pick", [("m", lambda f: s.try_pick(f)), ("f", lambda f: seq.try_pick(f)(xs))], lambda f: Just(f(xs[0]).some), mko)
        d("collect", [("m", lambda f: force(s.collect(f))), ("f", lambda f: force(seq.collect(f)(xs)))], lambda f: [y for x in xs for y in f(x)], mkl)
        def mku():
            c = itertools.count()
            return [Rec(lambda s: Some((a[k], vals[j])) if (k := next(c)) < n else Nothing)]

        def unf(f):
            out, s = [], vals[i]
            while True:
                o = f(s)
                if o.tag != "some":
                    return out
                out.append(o.some[0])
                s = o.some[1]
        d("unfold", [("m", lambda f: force(Seq.unfold(f, vals[i]))), ("f", lambda f: force(seq.unfold(f)(vals[i])))], unf, mku)
        d("init_infinite", [("f", lambda f: force(seq.take(n)(seq.init_infinite(f))))], lambda f: [f(x) for x in xs])
    st.outcome((i, j))


TERMINALS = [
    ("list", lambda s: list(s), lambda l: l),
    ("iterate", lambda s: [x for x in s], lambda l: l),
    ("head", lambda s: outcome(seq.head, s)[1] if True else 0, None),
    ("length", lambda s: seq.length(s), len),
    ("fold", lambda s: seq.fold(lambda a, x: (a, x), 0)(s), lambda l: _fold(lambda a, x: (a, x), 0, l)),
    ("fold_back", lambda s: seq.fold_back(lambda x, a: (x, a), s)(0), lambda l: _foldb(lambda x, a: (x, a), 0, l)),
    ("index", lambda s: seq.try_find_index(lambda x: x == 2)(s), lambda l: Just(l.index(2)) if 2 in l else NONE),
    ("block", lambda s: seq.to_list(s), lambda l: SeqOf(l, Block)),
]


def body_pipes(depth):
    srcs = [(), (1,), (0, 1, 2, 3, 4)]

    def body(ch, st):
        idx = [ch.choose(len(STAGES), lambda c: STAGES[c][0]) for _ in range(depth)]
        for xs in srcs:
            rl = Log()
            it = iter(xs)
            for i in idx:
                it = STAGES[i][3](rl)(it)
            exp = list(it)
            for form in range(3):
                L = Log()
                if form == 0:
                    s = Seq(list(xs))
                    for i in idx:
                        s = STAGES[i][1](s, L)
                elif form == 1:
                    s = pipe(tuple(xs), *[STAGES[i][2](L) for i in idx])
                else:
                    s = (x for x in xs)
                    for i in idx:
                        s = STAGES[i][2](L)(s)
                name, real, model = TERMINALS[(sum(idx) + form) % len(TERMINALS)] if form else TERMINALS[0]
                if name == "head":
                    o = outcome(seq.head, s)
                    ok = matches(o[1], exp[0]) if exp else o[0] == "raise" and isinstance(o[1], ValueError)
                    if not ok:
                        fail("head of a pipeline", stages=[STAGES[i][0] for i in idx], source=xs, got=o, expected=exp)
                else:
                    got = real(s)
                    if not matches(got, model(exp)):
                        fail(f"pipeline [{['fluent', 'pipe', 'generator'][form]}] {name}", stages=[STAGES[i][0] for i in idx], source=xs,
                             got=got, expected=exp)
                    if name in ("list", "iterate", "length", "fold", "fold_back", "block"):
                        same_calls([c[1] for c in L.calls], [c[1] for c in rl.calls], f"callbacks of {[STAGES[i][0] for i in idx]} on {xs}")
                st.step()
            st.outcome((len(exp), exp[:2] if len(exp) < 4 else len(exp)))
    return body


def fn_misc(st, tier):
    for a in itertools.product((-3, 0, 1, 4), repeat=1):
        check(list(seq.range(*a)) == list(range(*a)) == list(Seq.range(*a)), "range", args=a)
    for a in itertools.product((-3, 0, 1, 4), repeat=2):
        check(list(seq.range(*a)) == list(range(*a)) == list(Seq.range(*a)), "range", args=a)
    for a in itertools.product((-3, 0, 1, 4), (-3, 0, 5), (-2, -1, 1, 2, 3)):
        check(list(seq.range(*a)) == list(range(*a)) == list(Seq.range(*a)), "range", args=a)
        st.step()
    for v in (0, None, "", (), Nothing, Some(1), Hostile(), [1, 2]):
        for f in (seq.singleton, seq.of, Seq.of):
            check(matches(list(f(v)), [v]), "singleton", value=v)
            st.step()
    for e in (seq.empty, Seq.empty(), Seq(), seq.of(), Seq.of(), seq.concat(), seq.take(0)([1])):
        check(list(e) == [] and list(e) == [], "empty")
    for n in (0, 1, 2, 5, 300, 5000):
        for form in (lambda g, s: Seq.unfold(g, s), lambda g, s: seq.unfold(g)(s), lambda g, s: pipe(s, seq.unfold(g))):
            g = Rec(lambda s: Some((("e", s), s + 1)) if s < n else Nothing)
            check(matches(list(form(g, 0)), [("e", i) for i in range(n)]), "unfold", n=n)
            check([c[0] for c in g.calls] == list(range(n + 1)), "unfold calls", n=n)
            st.step()
    u = seq.unfold(lambda s: Some((None, s - 1)) if s else Nothing)
    check(list(u(0)) == [] and list(u(2)) == [None, None], "unfold of falsy states/items")
    for k in (0, 1, 5, 2000):
        check(list(seq.take(k)(seq.init_infinite(lambda i: ("i", i)))) == [("i", i) for i in range(k)], "init_infinite", k=k)
        check(list(seq.take(k)(seq.infinite)) == list(range(k)), "infinite", k=k)
        st.step(2)
    check(str(Seq([1, 2])) == "[1; 2]" and repr(Seq()) == "[]", "str")
    # constructors give sequences with the fluent interface
    for name, s, want in (("Seq.of", Seq.of(1, 2), [1, 2]), ("Seq.of_iterable", Seq.of_iterable([1, 2]), [1, 2]), ("Seq.empty", Seq.empty(), []),
                          ("of", seq.of(1, 2), [1, 2]), ("of_list", seq.of_list([1, 2]), [1, 2]), ("of_iterable", seq.of_iterable((1, 2)), [1, 2]),
                          ("empty", seq.empty, []), ("singleton", seq.singleton(3), [3]), ("append", Seq.of(1).append([2]), [1, 2]),
                          ("map", Seq.of(1).map(lambda x: x), [1]), ("filter", Seq.of(1).filter(lambda x: True), [1]),
                          ("choose", Seq.of(1).choose(Some), [1]), ("collect", Seq.of(1).collect(lambda x: [x]), [1]), ("skip", Seq.of(1, 2).skip(1), [2]),
                          ("take", Seq.of(1, 2).take(1), [1]), ("tail", Seq.of(1, 2).tail(), [2]), ("mapi", Seq.of(1).mapi(lambda i, x: x), [1]),
                          ("pairwise", Seq.of(1, 2).pairwise(), [(1, 2)])):
        check(isinstance(s, Seq) and list(s.map(lambda x: ("m", x)).filter(lambda x: True)) == [("m", x) for x in want],
              f"{name} does not give a sequence with the fluent interface", got=type(s).__name__)
        st.step()
    # the serialisable form of every element, in order
    for xs, want in (((), []), ((1, None, "a"), [1, None, "a"]), ((Some(1), Nothing, 2, Block([Some(3)])), [1, None, 2, [3]]),
                     ((Some(Some(0)), Ok(None)), [0, Ok(None).dict()])):
        for s in (Seq(xs), Seq(list(xs)), Seq.of(*xs)):
            check(matches(list(s.dict()), want), "dict of a sequence", source=xs, got=list(s.dict()))
            st.step()
    for n in (0, 1, 2, 99, 100, 101, 102, 5000):
        want = "[" + "; ".join(str(i) for i in range(min(n, 100))) + ("; ..." if n > 100 else "") + "]"
        check(str(Seq(range(n))) == repr(Seq(range(n))) == want, "the text of a sequence", n=n, got=str(Seq(range(n)))[-30:])
        st.step()
    # a pipeline stage is a reusable function
    for name, _, fn, ref in STAGES:
        L = Log()
        f = fn(L)
        r1, r2 = list(f([0, 1, 2, 3])), list(f([5, 4]))
        r3 = list(f([0, 1, 2, 3]))
        e1, e2 = list(ref(Log())(iter([0, 1, 2, 3]))), list(ref(Log())(iter([5, 4])))
        check(matches(r1, e1) and matches(r2, e2) and matches(r3, e1), f"reusing the stage {name}", got=(r1, r2, r3), expected=(e1, e2))
        st.step(3)


class Rude:
    """Can be iterated, and nothing else: like the array types whose truth value is an error."""

    def __init__(self, xs):
        self.xs = xs

    def __iter__(self):
        return iter(self.xs)

    def no(self, *a):
        raise ArithmeticError("asked for more than the elements")
    __bool__ = __eq__ = __contains__ = no
    __hash__ = object.__hash__


class Indexed:
    """The old way to be iterable: by index until IndexError."""

    def __init__(self, xs):
        self.xs = xs

    def __getitem__(self, i):
        return self.xs[i]


class Falsy(list):
    def __bool__(self):
        return False


def fn_sources(st, tier):
    """Sequences made of each other and of unusual iterables."""
    from checks.p09 import producers
    for n in range(8):
        for name, s, exp in producers(n):
            got = list(s)
            check(matches(got, exp), "elements", producer=name, n=n, got=got, expected=exp)
            st.step()
        xs = list(range(n))
        for kind in (Rude, Indexed, Falsy, dict.fromkeys):
            for name, flu, fn, ref in STAGES:
                exp = list(ref(Log())(iter(xs)))
                for nm, got in (("fluent", list(flu(Seq(kind(xs)), Log()))), ("function", list(fn(Log())(kind(xs))))):
                    check(matches(got, exp), f"{name} ({nm}) on {getattr(kind, '__name__', kind)}", n=n, got=got, expected=exp)
                    st.step()
            for nm, got, exp in (
                    ("collect", Seq(xs).collect(lambda x: kind(xs)), xs * n), ("f collect", seq.collect(lambda x: kind(xs))(xs), xs * n),
                    ("append", Seq(kind(xs)).append(kind(xs), kind(xs)), xs * 3), ("f append", seq.append(kind(xs))(kind(xs)), xs * 2),
                    ("concat", seq.concat(kind(xs), xs, kind(xs)), xs * 3), ("m concat", Seq([kind(xs), kind(xs)]).concat(), xs * 2),
                    ("zip", Seq(kind(xs)).zip(kind(xs)), [(x, x) for x in xs]), ("f zip", seq.zip(kind(xs))(kind(xs)), [(x, x) for x in xs]),
                    ("delay", seq.delay(lambda: kind(xs)), xs), ("of_iterable", seq.of_iterable(kind(xs)), xs),
                    ("fold_back", [seq.fold_back(lambda x, s: (x, s), kind(xs))(None)], [_right(xs)]),
                    ("fold", [Seq(kind(xs)).fold(lambda s, x: (s, x), None)], [_left(xs)]),
                    ("length", [Seq(kind(xs)).length()], [n]), ("sum", [Seq(kind(xs)).sum()], [sum(xs)])):
                got = list(got)
                check(matches(got, exp), f"{nm} of {getattr(kind, '__name__', kind)}", n=n, got=got, expected=exp)
                st.step()
    st.executions += 1


def _right(xs):
    s = None
    for x in reversed(xs):
        s = (x, s)
    return s


def _left(xs):
    s = None
    for x in xs:
        s = (s, x)
    return s


def fn_ties(st, tier):
    for kind, vals, exp in tie_cases():
        for mk in (lambda: vals, lambda: tuple(vals), lambda: iter(vals), lambda: Seq(vals)):
            if kind == "sum":
                sum_case(st, vals, exp, {"sum": lambda: Seq(mk()).sum(), "f sum": lambda: seq.sum(mk()), "sum_by": lambda: Seq(mk()).sum_by(lambda x: x),
                                         "f sum_by": lambda: seq.sum_by(lambda x: x)(mk())})
                continue
            for nm, got, want in (("max", seq.max(mk()), max(vals)), ("min", seq.min(mk()), min(vals)),
                                  ("max_by", seq.max_by(lambda x: x)(mk()), max(vals)), ("min_by", seq.min_by(lambda x: x)(mk()), min(vals))):
                check(matches(got, want), f"{nm}: not the first of equal elements", values=vals, got=got, expected=want)
                st.step()
    st.executions += 1


def fn_sizes(st, tier, shard):
    sizes = [*range(0, 40), 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 1024, 1500] + ([4096, 5000, 20001, 70001] if tier == T else [3000, 20001])
    for i, n in enumerate(sizes):
        if i % shard[1] != shard[0]:
            continue
        xs = tuple((j * 7919) % 10007 for j in range(n))
        run_ops(st, xs, lambda: list(xs))
        for name, flu, fn, ref in STAGES:
            exp = list(ref(Log())(iter(xs)))
            got = list(flu(Seq(xs), Log()))
            if not matches(got, exp):
                fail(f"stage {name} at size {n}", got=got[:5], expected=exp[:5])
            st.step()
        check(list(Seq(xs).dict()) == list(xs) and list(Seq([Some(x) for x in xs]).dict()) == list(xs), "dict of a long sequence", n=n)
        # many stages in a row
        k = min(n, 150)
        s = Seq([0, 1, 2])
        p = [0, 1, 2]
        for j in range(k):
            s = s.map(lambda v: v + 1)
        check(list(s) == [k, k + 1, k + 2], "a long chain of maps", k=k)
        check(list(pipe(p, *[seq.map(lambda v: v + 1)] * k)) == [k, k + 1, k + 2], "a long pipeline", k=k)
        check(list(seq.concat(*[[j] for j in xs])) == list(xs), "concat of many", n=n)
        st.executions += 1


def sections(tier):
    t = tier == T
    return variants([
        Section("operations", body_ops(4 if t else 3), shards=8, bounds="every op, form, source and source kind"),
        Section("pipelines", body_pipes(4 if t else 3), shards=8, bounds=f"all stage sequences over {len(STAGES)} stages"),
        Section("one stage", body_pipes(1), bounds="every stage alone"),
        Section("answers", body_answers, shards=4, bounds="every pair of alphabet values as answers of a callback"),
        Section("misc", fn=fn_misc, bounds="constructors, unfold, infinite, stage reuse"),
        Section("sources", fn=fn_sources, bounds="sequences made of each other; iterables without length, truth value or order"),
        Section("ties", fn=fn_ties, bounds="elements that compare equal; elements with in-place addition"),
        Section("sizes", fn=fn_sizes, shards=8, bounds="size ladder"),
    ], ('operations',), __name__, ('base',))
