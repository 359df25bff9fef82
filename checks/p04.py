"""P04: Block behaves as an immutable Python sequence under every operation history."""
import itertools

from expression import Error, Nothing, Ok, Some, option, pipe
from expression.collections import Block, block

from mc.core import Section, check, fail
from mc.values import (alphabet, variants, NONE, Boom, EqAll, Hostile, Ident, Just, Opaque, Rec, SeqOf, agree, diff, leaf_same, matches, sum_case, tie_cases,
                       outcome, same_calls)

BOUNDS = ("all blocks over a 3-letter alphabet up to length 3 (quick) / 4 (thorough) and blocks of special values; every "
          "operation in every call form with every count in -6..6, every predicate/chooser/collector pattern, "
          "callbacks failing at every position; all operation histories up to depth 3 (quick) / 4 (thorough) with all "
          "earlier blocks re-read after each step; size ladder 0..70, 100..1030, 5000")
ASSUMPTIONS = ["elements outside the alphabet are treated alike (hostile elements that reject inspection are included)"]
BOOM = Boom("cb")
T = "thorough"


def B(xs):
    return SeqOf(xs, Block)


class Pos:
    """Answers by call position (so evaluation order is part of the behaviour)."""

    def __init__(self, answers, fail_at=None, post=None):
        self.answers, self.fail_at, self.post = list(answers), fail_at, post

    def fresh(self):
        it = {"i": 0}

        def f(*a):
            i = it["i"]
            it["i"] += 1
            if i == self.fail_at:
                raise BOOM.with_traceback(None)
            if not self.answers:
                return None
            v = self.answers[i % len(self.answers)]
            return self.post(v, *a) if self.post else v

        return Rec(f)


SPECIAL = [
    (None,), (0, None, ""), (Some(1), Nothing, Some(None)), (Hostile(), Hostile(), Hostile()), (EqAll(), 1), ((), [], {}),
    (Opaque("a"), Opaque("b")), (float("nan"), 1.0), ((1, 2), (3, 4)), ([0], (1,), "ab"), (Ok(1), Block([1])), (1, True, 1.0),
    (Block(), Block([0])), (len, int),
    (Nothing, Some(2)), (Ok(Nothing), Error(1)), (Nothing,), (Some(Nothing), None), (False, 0), (Block(), ()),
]


def sources(n):
    out = []
    for k in range(n + 1):
        out += list(itertools.product((1, 0, 2), repeat=k))
    return out


def keeper(b, xs):
    def keep(what):
        if not matches(b, B(xs)) or len(b) != len(xs):
            fail(f"{what}: the source block changed", now=list(b), before=xs)
    return keep


def preds(n):
    for pat in itertools.product((True, False), repeat=n):
        yield Pos(pat)
    for k in range(n):
        yield Pos([True] * n, fail_at=k)
    yield Pos([1, "", [0], None])


def mf(f):
    """Model side effect-free helper: apply in order."""
    return f


def run_all_ops(st, b, xs, wide=True, keep=None):
    """Every operation in every form on one block; returns nothing, raises on a difference."""
    n = len(xs)
    keep = keep or keeper(b, xs)

    def d(what, forms, ref, mk=lambda: []):
        diff(st, f"{what} on {xs!r}" if n < 8 else f"{what} on {n} elements", forms, ref, mk, keep)

    # --- observation
    d("iteration", [("iter", lambda: list(b)), ("again", lambda: list(b)), ("unpack", lambda: [*b]),
                    ("index", lambda: [b[i] for i in range(len(b))]),
                    ("neg", lambda: [b[-len(b) + i] for i in range(len(b))]),
                    ("item", lambda: [b.item(i) for i in range(len(b))]),
                    ("fitem", lambda: [block.item(i)(b) for i in range(len(b))])], lambda: list(xs))
    d("len", [("len", lambda: len(b))], lambda: n)
    d("bool", [("bool", lambda: bool(b))], lambda: n > 0)
    d("is_empty", [("m", lambda: b.is_empty()), ("f", lambda: block.is_empty(b))], lambda: n == 0)
    d("head", [("m", lambda: b.head()), ("f", lambda: block.head(b))], lambda: xs[0]) if n else None
    if not n:
        for nm, f in (("head", lambda: b.head()), ("fhead", lambda: block.head(b)), ("tail", lambda: b.tail()),
                      ("ftail", lambda: block.tail(b)), ("reduce", lambda: b.reduce(lambda a, c: a)),
                      ("freduce", lambda: block.reduce(lambda a, c: a)(b))):
            o = outcome(f)
            check(o[0] == "raise" and isinstance(o[1], ValueError), f"{nm} of the empty block must raise ValueError", got=o)
            st.step()
    else:
        d("tail", [("m", lambda: b.tail()), ("f", lambda: block.tail(b))], lambda: B(xs[1:]))
    d("try_head", [("m", lambda: b.try_head()), ("f", lambda: block.try_head(b))], lambda: Just(xs[0]) if n else NONE)
    rng = range(-n - 2, n + 3) if n < 8 else (-n - 1, -n, -n + 1, -2, -1, 0, 1, 2, n // 2, n - 1, n, n + 1)
    for i in rng:
        if -n <= i < n:
            d(f"item {i}", [("m", lambda: b.item(i)), ("f", lambda: block.item(i)(b)), ("[]", lambda: b[i])], lambda: xs[i])
        else:
            for nm, f in (("item", lambda: b.item(i)), ("fitem", lambda: block.item(i)(b)), ("[]", lambda: b[i])):
                o = outcome(f)
                check(o[0] == "raise" and isinstance(o[1], IndexError), f"{nm} {i} of {n} elements must raise IndexError", got=o)
                st.step()
        d(f"skip {i}", [("m", lambda: b.skip(i)), ("f", lambda: block.skip(i)(b)), ("p", lambda: pipe(b, block.skip(i))),
                        ("kw", lambda: b.skip(count=i))], lambda: B(xs[i:]))
        d(f"take {i}", [("m", lambda: b.take(i)), ("f", lambda: block.take(i)(b)), ("p", lambda: b.pipe(block.take(i))),
                        ("kw", lambda: block.take(count=i)(b))], lambda: B(xs[:i]))
        if i > 0:
            d(f"skip_last {i}", [("m", lambda: b.skip_last(i)), ("f", lambda: block.skip_last(i)(b))],
              lambda: B(xs[:max(0, n - i)]))
            d(f"take_last {i}", [("m", lambda: b.take_last(i)), ("f", lambda: block.take_last(i)(b))],
              lambda: B(xs[max(0, n - i):]))
        elif i == 0:
            for nm, got, right, known in (
                    ("skip_last", b.skip_last(0), xs, ()), ("fskip_last", block.skip_last(0)(b), xs, ()),
                    ("take_last", b.take_last(0), (), xs), ("ftake_last", block.take_last(0)(b), (), xs)):
                if matches(got, B(right)):
                    continue
                check(matches(got, B(known)), f"{nm} 0: neither the right answer nor the known finding", got=list(got), source=xs)
                st.finding("zero-last-block", "skip_last(0)/take_last(0)")
        for j in (rng if wide and n < 4 else (i + 1, -1, None)):
            for step in ((None, 1, 2, -1) if wide and n < 4 else (None, -1)):
                d(f"slice {i}:{j}:{step}", [("[]", lambda: b[i:j:step])], lambda: B(xs[i:j:step]))
    d("indexed", [("m", lambda: b.indexed()), ("f", lambda: block.indexed(b))], lambda: B(enumerate(xs)))
    for s in (-1, 0, 1, 7):
        d(f"indexed {s}", [("m", lambda: b.indexed(s)), ("kw", lambda: b.indexed(start=s))], lambda: B(enumerate(xs, s)))
    # --- construction
    for e in (9, None, (), Nothing):
        d("cons", [("m", lambda: b.cons(e)), ("f", lambda: block.cons(e, b))], lambda: B((e, *xs)))
    for o in ((), (7,), (None, 8), xs):
        ob = Block(o)
        d("append", [("m", lambda: b.append(ob)), ("f", lambda: block.append(ob)(b)), ("+", lambda: b + ob),
                     ("p", lambda: pipe(b, block.append(ob)))], lambda: B((*xs, *o)))
        d("zip", [("m", lambda: b.zip(ob)), ("f", lambda: block.zip(ob)(b)), ("p", lambda: pipe(b, block.zip(ob)))],
          lambda: B(list(zip(xs, o))))
        check(matches(ob, B(o)), "append/zip changed its argument", now=list(ob))
        d("concat", [("l", lambda: block.concat([b, ob, b])), ("g", lambda: block.concat(x for x in (b, ob, b))),
                     ("b", lambda: block.concat(Block([b, ob, b])))], lambda: B((*xs, *o, *xs)))
    d("append self", [("m", lambda: b.append(b)), ("+", lambda: b + b)], lambda: B((*xs, *xs)))
    d("zip self", [("m", lambda: b.zip(b))], lambda: B(list(zip(xs, xs))))
    d("rebuild", [("ctor", lambda: Block(b)), ("ctor tuple", lambda: Block(tuple(b))), ("of_seq", lambda: block.of_seq(b)),
                  ("of_seq gen", lambda: Block.of_seq(x for x in xs)), ("of", lambda: Block.of(*xs)), ("fof", lambda: block.of(*xs)),
                  ("ctor gen", lambda: Block(x for x in xs)), ("ctor iter", lambda: Block(iter(xs))),
                  ("ctor list", lambda: Block(list(xs)))], lambda: B(xs))
    # --- callbacks
    nn = min(n, 4)
    fails = [None] + ([*range(nn)] if n < 8 else [0, n // 2, n - 1])
    for fa in fails:
        mk = lambda: [Pos([0, None, "v"], fa, lambda v, *a: (v, *a)).fresh()]  # noqa: E731
        d("map", [("m", lambda f: b.map(f)), ("f", lambda f: block.map(f)(b)), ("p", lambda f: pipe(b, block.map(f))),
                  ("kw", lambda f: b.map(mapping=f))], lambda f: B([f(x) for x in xs]), mk)
        d("mapi", [("m", lambda f: b.mapi(f)), ("f", lambda f: block.mapi(f)(b))], lambda f: B([f(i, x) for i, x in enumerate(xs)]), mk)
        d("fold", [("m", lambda f: b.fold(f, 5)), ("f", lambda f: block.fold(f, 5)(b)), ("p", lambda f: pipe(b, block.fold(f, 5)))],
          lambda f: _fold(f, 5, xs), lambda: [Pos([0], fa, lambda v, s, x: (s if n < 8 else 0, x)).fresh()])
        if n:
            d("reduce", [("m", lambda f: b.reduce(f)), ("f", lambda f: block.reduce(f)(b))],
              lambda f: _fold(f, xs[0], xs[1:]), lambda: [Pos([0], fa, lambda v, s, x: (s if n < 8 else 0, x)).fresh()])
    d("map None", [("m", lambda f: b.map(f))], lambda f: B([f(x) for x in xs]), lambda: [Rec(lambda x: None)])
    d("fold None", [("m", lambda f: b.fold(f, None)), ("f", lambda f: block.fold(f, None)(b))], lambda f: _fold(f, None, xs),
      lambda: [Rec(lambda s, x: s)])
    pats = list(preds(nn)) if wide else [Pos([True, False]), Pos([False]), Pos([True]), Pos([True, True, False], nn - 1 if nn else None)]
    for p in pats:
        mk = lambda: [p.fresh()]  # noqa: E731
        d("filter", [("m", lambda f: b.filter(f)), ("f", lambda f: block.filter(f)(b)), ("p", lambda f: pipe(b, block.filter(f))),
                     ("kw", lambda f: b.filter(predicate=f))], lambda f: B([x for x in xs if f(x)]), mk)
        d("partition", [("m", lambda f: b.partition(f)), ("f", lambda f: block.partition(f)(b))], lambda f: _part(f, xs), mk)
        d("forall", [("m", lambda f: b.forall(f)), ("f", lambda f: block.forall(f)(b))], lambda f: all(f(x) for x in xs), mk)
    ch_pats = itertools.product((0, 1, 2), repeat=min(n, 3)) if wide else [(0, 1, 2), (1,), (0,)]
    for pat in ch_pats:
        mk2 = lambda: [(Pos(pat, None, lambda v, x: Nothing if v == 0 else Some(x) if v == 1 else Some(None)).fresh()),  # noqa: E731
                       ]
        ref = lambda f: B([o.some for o in [f(x) for x in xs] if o.tag == "some"])  # noqa: E731
        d("choose", [("m", lambda f: b.choose(f)), ("f", lambda f: block.choose(f)(b)), ("p", lambda f: pipe(b, block.choose(f)))], ref, mk2)
        mk3 = lambda: [Pos(pat, None, lambda v, x: Block([x] * v)).fresh()]  # noqa: E731
        d("collect", [("m", lambda f: b.collect(f)), ("f", lambda f: block.collect(f)(b))],
          lambda f: B([y for x in xs for y in f(x)]), mk3)
    for fa in fails[1:]:
        d("choose failing", [("m", lambda f: b.choose(f)), ("f", lambda f: block.choose(f)(b))],
          lambda f: B([o.some for o in [f(x) for x in xs]]), lambda: [Pos([0], fa, lambda v, x: Some(x)).fresh()])
        d("collect failing", [("m", lambda f: b.collect(f)), ("f", lambda f: block.collect(f)(b))],
          lambda f: B([y for x in xs for y in f(x)]), lambda: [Pos([0], fa, lambda v, x: Block([x])).fresh()])
    if n and all(isinstance(x, tuple) for x in xs) or not n:
        mk = lambda: [Rec(lambda *a: a)]  # noqa: E731
        forms = [("m", lambda f: b.starmap(f)), ("f", lambda f: block.starmap(f)(b)), ("p", lambda f: pipe(b, block.starmap(f)))]
        if not n or all(len(x) == 2 for x in xs):
            forms.append(("map2", lambda f: block.map2(f)(b)))
        if not n or all(len(x) == 3 for x in xs):
            forms.append(("map3", lambda f: block.map3(f)(b)))
        d("starmap", forms, lambda f: B([f(*x) for x in xs]), mk)
    if all(type(x) in (int, bool, float) and x == x for x in xs):
        d("sum", [("m", lambda: b.sum()), ("f", lambda: block.sum(b))], lambda: sum(xs))
        d("sum_by", [("m", lambda f: b.sum_by(f)), ("f", lambda f: block.sum_by(f)(b)), ("p", lambda f: pipe(b, block.sum_by(f)))],
          lambda f: sum([f(x) for x in xs]), lambda: [Rec(lambda x: x * 3 + 1)])
        for rev in (False, True):
            d("sort", [("m", lambda: b.sort(rev)), ("kw", lambda: b.sort(reverse=rev)), ("f", lambda: block.sort(rev)(b)),
                       ("fkw", lambda: block.sort(reverse=rev)(b))], lambda: B(sorted(xs, reverse=rev)))
        d("sort default", [("m", lambda: b.sort()), ("f", lambda: block.sort()(b))], lambda: B(sorted(xs)))
        for v in (0, 1, 2, 3, None, True, 1.0, "1"):
            d(f"{v!r} in", [("in", lambda: v in b)], lambda: v in xs)
    # stable sort by key: pair elements with their position to observe stability
    ib = b.indexed() if n < 8 else None
    if ib is not None:
        for key in (lambda p: 0, lambda p: p[0] % 2, lambda p: -p[0]):
            for rev in (False, True):
                exp = sorted(enumerate(xs), key=key, reverse=rev)
                d("sort_with", [("m", lambda: ib.sort_with(key, rev)), ("kw", lambda: ib.sort_with(key, reverse=rev)),
                                ("f", lambda: block.sort_with(key, rev)(ib))], lambda: B(exp))
        d("sort_with failing", [("m", lambda f: ib.sort_with(f)), ("f", lambda f: block.sort_with(f)(ib))],
          lambda f: B(sorted(enumerate(xs), key=f)), lambda: [Pos([0], n - 1 if n else None).fresh()])


def _fold(f, s, xs):
    for x in xs:
        s = f(s, x)
    return s


def _part(f, xs):
    a, c = [], []
    for x in xs:
        (a if f(x) else c).append(x)
    return (B(a), B(c))


def body_ops(n):
    srcs = sources(n) + SPECIAL

    def body(ch, st):
        xs = srcs[ch.choose(len(srcs))]
        how = ch.choose(3)
        if how == 0:
            b = Block(xs)
        elif how == 1:
            b = block.of_seq(iter(xs))
        else:
            b = block.empty
            for x in reversed(xs):
                b = b.cons(x)
        run_all_ops(st, b, xs, wide=(how == 0))
        st.outcome((how, len(xs), [type(x).__name__ for x in xs]))
    return body


def body_answers(ch, st):
    """Whatever a callback answers is taken as it is: nothing is special about None, falsy or nested answers."""
    vals = alphabet()
    i, j = ch.choose(len(vals)), ch.choose(len(vals))
    a = [vals[i], vals[j], vals[i]]
    for n in (1, 2, 3):
        xs = list(range(n))
        b, ps = Block(xs), Block((x, x) for x in xs)
        mk = lambda: [Pos(a).fresh()]  # noqa: E731
        mko = lambda: [Pos(a, None, lambda v, *_: Some(v)).fresh()]  # noqa: E731
        mkb = lambda: [Pos(a, None, lambda v, *_: Block([v])).fresh()]  # noqa: E731

        def d(what, forms, ref, m):
            diff(st, f"{what} of {n} elements", forms, ref, m, keeper(b, xs))
        each = lambda f: B([f(x) for x in xs])  # noqa: E731
        d("map", [("m", lambda f: b.map(f)), ("f", lambda f: block.map(f)(b))], each, mk)
        d("mapi", [("m", lambda f: b.mapi(f)), ("f", lambda f: block.mapi(f)(b))], lambda f: B([f(k, x) for k, x in enumerate(xs)]), mk)
        d("starmap", [("m", lambda f: ps.starmap(f)), ("f", lambda f: block.starmap(f)(ps)), ("map2", lambda f: block.map2(f)(ps))], lambda f: B([f(x, x) for x in xs]), mk)
        d("map3", [("map3", lambda f: block.map3(f)(Block((x, x, x) for x in xs)))], lambda f: B([f(x, x, x) for x in xs]), mk)
        d("fold", [("m", lambda f: b.fold(f, a[0])), ("f", lambda f: block.fold(f, a[0])(b))], lambda f: _fold(f, a[0], xs), mk)
        d("reduce", [("m", lambda f: b.reduce(f)), ("f", lambda f: block.reduce(f)(b))], lambda f: _fold(f, xs[0], xs[1:]), mk)
        d("choose", [("m", lambda f: b.choose(f)), ("f", lambda f: block.choose(f)(b))], lambda f: B([f(x).some for x in xs]), mko)
        d("collect", [("m", lambda f: b.collect(f)), ("f", lambda f: block.collect(f)(b))], lambda f: B([y for x in xs for y in f(x)]), mkb)

        def mku():
            c = itertools.count()
            return [Rec(lambda s: Some((a[k], vals[j])) if (k := next(c)) < n else Nothing)]

        def unf(f):
            out, s = [], vals[i]
            while True:
                o = f(s)
                if o.tag != "some":
                    return B(out)
                out.append(o.some[0])
                s = o.some[1]
        d("unfold", [("m", lambda f: Block.unfold(f, vals[i])), ("f", lambda f: block.unfold(f)(vals[i]))], unf, mku)
    st.outcome((i, j))


def body_eq(ch, st):
    """Equality and containment agree with the tuple model, for all pairs."""
    srcs = sources(3)
    xs = srcs[ch.choose(len(srcs))]
    ys = srcs[ch.choose(len(srcs))]
    a, b = Block(xs), Block.of_seq(iter(ys))
    same = xs == ys
    for f, exp in ((lambda: a == b, same), (lambda: b == a, same), (lambda: a != b, not same),
                   (lambda: a == Block(xs), True), (lambda: a == a, True)):
        got = f()
        check(got is exp, "wrong equality", a=xs, b=ys, got=got)
        st.step()
    check(str(a) == "[" + ", ".join(str(x) for x in xs) + "]", "str", got=str(a))
    st.outcome(same)


def fn_misc(st, tier):
    # special elements: membership by identity or equality, like Python's
    nan = float("nan")
    o = Opaque("x")
    for xs in SPECIAL + [(nan, o)]:
        b = Block(xs)
        for v in (nan, o, None, 0, "", (), 1, Nothing, Some(1)):
            if any(isinstance(x, Hostile) for x in xs):
                continue
            check((v in b) is (v in xs), "membership", block=xs, value=v)
            st.step()
    # constructors
    for args in itertools.product((-3, 0, 1, 4), repeat=1):
        check(matches(block.range(*args), B(range(*args))) and matches(Block.range(*args), B(range(*args))), "range", args=args)
    for args in itertools.product((-3, 0, 1, 4), repeat=2):
        check(matches(block.range(*args), B(range(*args))) and matches(Block.range(*args), B(range(*args))), "range", args=args)
    for args in itertools.product((-3, 0, 1, 4), (-3, 0, 5), (-2, -1, 1, 2, 3)):
        check(matches(block.range(*args), B(range(*args))) and matches(Block.range(*args), B(range(*args))), "range", args=args)
        st.step()
    for v in (0, None, "", (), Nothing, Some(1), Hostile()):
        for f in (block.singleton, Block.singleton, lambda x: Block.of(x), lambda x: block.of_option(Some(x)),
                  lambda x: Block.of_option(Some(x))):
            check(matches(f(v), B([v])), "singleton", value=v)
            st.step()
    for e in (Block(), Block.empty(), block.empty, block.nil, Block.of(), block.of(), Block.of_seq([]), block.of_option(Nothing),
              Block.of_option(Nothing), Block(iter(())), block.concat([])):
        check(matches(e, B([])) and len(e) == 0 and not e, "empty", got=e)
        st.step()
    # unfold
    for n in (0, 1, 2, 5, 300, 2000):
        for form in (lambda g, s: Block.unfold(g, s), lambda g, s: block.unfold(g)(s), lambda g, s: pipe(s, block.unfold(g))):
            g = Rec(lambda s: Some((("e", s), s + 1)) if s < n else Nothing)
            check(matches(form(g, 0), B([("e", i) for i in range(n)])), "unfold", n=n)
            check([c[0] for c in g.calls] == list(range(n + 1)), "unfold calls", n=n)
            st.step()
    # aliasing: a later change to the iterable a block was built from does not show
    for build in (Block, block.of_seq, Block.of_seq, lambda l: Block(l).append(Block(l)), lambda l: block.of(*l),
                  lambda l: Block(l).collect(lambda x: [x]), lambda l: Block([0]).collect(lambda _: l)):
        l = [1, 2, 3]
        b = build(l)
        before = list(b)
        l.append(4)
        l[0] = 99
        check(list(b) == before, "a block follows later changes of the list it was built from", before=before, now=list(b))
        l.clear()
        check(list(b) == before, "a block follows later changes of the list it was built from", before=before, now=list(b))
        st.step()
    # a list returned by dict() is not the block's storage
    b = Block([1, Block([2, 3]), Some(4), Nothing])
    d = b.dict()
    check(d[0] == 1 and d[1] == [2, 3], "dict", got=d)
    d.append(5)
    check(len(b) == 4 and block.dict(b)[1] == [2, 3], "dict() shares storage")
    # pattern matching and destructuring
    match Block([1, 2]):
        case Block((x, y)):
            check((x, y) == (1, 2), "match")
        case _:
            fail("a block does not match its own pattern")
    # a block can not be changed through item assignment
    b = Block([1, 2])
    for f in (lambda: b.__setitem__(0, 9), lambda: b.__delitem__(0)):
        o2 = outcome(f)
        check(o2[0] == "raise" and list(b) == [1, 2], "item assignment changed a block", now=list(b))
    # overlapping iterators are independent
    i, j = iter(b), iter(b)
    check([next(i), next(j), next(i), next(j)] == [1, 1, 2, 2], "iterators of one block interfere")


HIST_OPS = [
    ("cons", lambda b, o: b.cons(9), lambda x, y: (9, *x)),
    ("cons None", lambda b, o: block.cons(None, b), lambda x, y: (None, *x)),
    ("append", lambda b, o: b.append(o), lambda x, y: x + y),
    ("+", lambda b, o: b + o, lambda x, y: x + y),
    ("append f", lambda b, o: pipe(b, block.append(o)), lambda x, y: x + y),
    ("tail", lambda b, o: b.tail() if b else b, lambda x, y: x[1:]),
    ("skip 1", lambda b, o: pipe(b, block.skip(1)), lambda x, y: x[1:]),
    ("take 1", lambda b, o: b.take(1), lambda x, y: x[:1]),
    ("take 2", lambda b, o: pipe(b, block.take(2)), lambda x, y: x[:2]),
    ("skip_last 1", lambda b, o: b.skip_last(1), lambda x, y: x[:-1]),
    ("take_last 2", lambda b, o: b.take_last(2), lambda x, y: x[-2:]),
    ("map", lambda b, o: b.map(lambda v: (v,)), lambda x, y: tuple((v,) for v in x)),
    ("mapi", lambda b, o: b.mapi(lambda i, v: i), lambda x, y: tuple(range(len(x)))),
    ("filter truthy", lambda b, o: b.filter(lambda v: v), lambda x, y: tuple(v for v in x if v)),
    ("filter falsy", lambda b, o: pipe(b, block.filter(lambda v: not v)), lambda x, y: tuple(v for v in x if not v)),
    ("choose", lambda b, o: b.choose(lambda v: option.of_optional(v)), lambda x, y: tuple(v for v in x if v is not None)),
    ("collect", lambda b, o: b.collect(lambda v: Block([v, 0])), lambda x, y: tuple(w for v in x for w in (v, 0))),
    ("indexed", lambda b, o: b.indexed(), lambda x, y: tuple(enumerate(x))),
    ("zip", lambda b, o: b.zip(o), lambda x, y: tuple(zip(x, y))),
    ("part0", lambda b, o: b.partition(lambda v: v)[0], lambda x, y: tuple(v for v in x if v)),
    ("part1", lambda b, o: b.partition(lambda v: v)[1], lambda x, y: tuple(v for v in x if not v)),
    ("sort", lambda b, o: b.sort_with(repr), lambda x, y: tuple(sorted(x, key=repr))),
    ("reverse", lambda b, o: b[::-1], lambda x, y: x[::-1]),
    ("slice", lambda b, o: b[1:3], lambda x, y: x[1:3]),
    ("concat", lambda b, o: block.concat([o, b, o]), lambda x, y: y + x + y),
    ("rebuild", lambda b, o: Block(b), lambda x, y: x),
    ("of_seq", lambda b, o: block.of_seq(b), lambda x, y: x),
    ("empty", lambda b, o: block.empty, lambda x, y: ()),
    ("fold cons", lambda b, o: b.fold(lambda s, v: s.cons(v), block.empty), lambda x, y: x[::-1]),
    ("unfold", lambda b, o: Block.unfold(lambda s: Some((s[0], s.tail())) if s else Nothing, b), lambda x, y: x),
]


def body_hist(depth):
    starts = [(), (0,), (None, 1, 0)]

    def body(ch, st):
        xs = starts[ch.choose(len(starts))]
        live = [(Block(xs), xs), (block.empty, ())]
        for k in range(depth):
            i = ch.choose(len(HIST_OPS), HIST_OPS and (lambda c: HIST_OPS[c][0]))
            name, f, m = HIST_OPS[i]
            b, x = live[-1]
            o, y = live[0]
            nb = f(b, o)
            nx = m(x, y)
            if not matches(nb, B(nx)):
                fail(f"{name}: wrong block", got=list(nb), expected=nx, source=x)
            live.append((nb, nx))
            st.step()
        for b, x in live:
            if not matches(b, B(x)) or len(b) != len(x):
                fail("an earlier block changed", now=list(b), before=x)
        st.outcome(nx)
    return body


def fn_ties(st, tier):
    for kind, vals, exp in tie_cases():
        b = Block(vals)
        if kind == "sum":
            sum_case(st, vals, exp, {"sum": b.sum, "f sum": lambda: block.sum(b), "sum_by": lambda: b.sum_by(lambda x: x), "f sum_by": lambda: block.sum_by(lambda x: x)(b)})
            continue
        for rev in (False, True):
            for form in (lambda: b.sort(rev), lambda: block.sort(rev)(b), lambda: b.sort_with(lambda x: x, rev), lambda: block.sort_with(lambda x: x, rev)(b)):
                check(matches(form(), B(sorted(vals, reverse=rev))), "sorting is not stable", values=vals, got=form())
                st.step()
    st.executions += 1


def fn_ladder(st, tier, shard):
    sizes = list(range(0, 71)) + [100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 1030]
    sizes += [2047, 2048, 2049, 5000, 20001, 70001] if tier == T else [2048, 5000, 20001]
    for k, n in enumerate(sizes):
        if k % shard[1] != shard[0]:
            continue
        xs = tuple((i * 7919) % 10007 for i in range(n))
        run_all_ops(st, Block(xs), xs, wide=False)
        b = Block(xs)
        check(b == Block(list(xs)) and b == xs and not b != Block(xs) and b.dict() == list(xs) and block.dict(b) == list(xs), "equality or dict of a long block", n=n)
        for p in sorted({0, 1, n // 3, n // 2, n - 2, n - 1} & set(range(n))):
            for ys in (xs[:p] + (-1,) + xs[p + 1:], xs[:p] + xs[p + 1:], xs[:p] + (-1,) + xs[p:]):
                check(b != Block(ys) and not b == Block(ys) and not Block(ys) == b and b != ys, "different blocks compare equal", n=n, at=p)
            check(xs[p] in b and -1 not in b, "searching a long block", n=n, at=p)
            st.step(4)
        if n <= 1030:
            b = block.empty
            for x in reversed(xs):
                b = b.cons(x)
            check(matches(b, B(xs)), "cons chain", n=n)
            b = block.empty
            for x in xs:
                b = b.append(Block([x]))
            check(matches(b, B(xs)), "append chain", n=n)
            b = block.concat([Block([x]) for x in xs])
            check(matches(b, B(xs)), "concat of many", n=n)
        st.outcome(n)
        st.executions += 1


def sections(tier):
    t = tier == T
    return variants([
        Section("operations", body_ops(4 if t else 3), shards=8, bounds="every op, every form, every source"),
        Section("equality", body_eq, bounds="all pairs of blocks over 3 letters up to length 3"),
        Section("answers", body_answers, shards=4, bounds="every pair of alphabet values as answers of a callback"),
        Section("misc", fn=fn_misc, bounds="constructors, aliasing, membership"),
        Section("ties", fn=fn_ties, bounds="elements that compare equal; elements with in-place addition"),
        Section("histories", body_hist(4 if t else 3), shards=8, bounds=f"all sequences of {len(HIST_OPS)} operations"),
        Section("sizes", fn=fn_ladder, shards=8, bounds="size ladder"),
    ], ('operations',), __name__, ('base',))
