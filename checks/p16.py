"""P16: currying, piping and composing equal plain function application."""
import itertools

from expression import Nothing, Ok, Error, Some, compose, curry, curry_flip, flip, fst, identity, pipe, pipe2, pipe3, pipeable, snd
from expression.collections import Block, Map, Seq, TypedArray
from expression.core.compose import starcompose
from expression.core.misc import starid
from expression.core.pipe import PipeMixin, starpipe

from mc.core import Section, check, fail
from mc.values import Boom, Exc, Hostile, Ident, Opaque, Rec, agree, alphabet, diff, matches, outcome, same_calls, small, variants

BOUNDS = ("curry and curry_flip with 0..6 curried arguments, 0..3 remaining positional and 0..2 keyword arguments, callables of 8 kinds; "
          "every interleaving of completing two partial applications at every level; pipe/compose/starpipe/starcompose/pipe2/pipe3 "
          "with every sequence of up to 5 stages (quick) / 6 (thorough) over 6 stage kinds, failure at every stage, lengths 0..40 and to "
          "20000; 29-value alphabet")
ASSUMPTIONS = ["curried arguments are given one per call, positionally, as the signatures declare; keywords go with the uncurried arguments"]
T = "thorough"
BOOM = Boom("stage")


class V:
    """Distinct argument objects; nothing but identity matters."""

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f"v{self.n}"


VS = [V(i) for i in range(12)]


def mk_callable(kind, log):
    def f(*a, **k):
        log.append((a, k))
        return ("res", a, tuple(sorted(k.items())))
    if kind == 0:
        return f
    if kind == 1:
        return lambda *a, **k: f(*a, **k)
    if kind == 2:
        class C:
            def __call__(self, *a, **k):
                return f(*a, **k)
        return C()
    if kind == 3:
        class D:
            def meth(self, *a, **k):
                return f(*a, **k)
        return D().meth
    if kind == 4:
        import functools
        return functools.partial(f)
    if kind == 5:
        class E:
            def __new__(cls, *a, **k):
                return f(*a, **k)
        return E
    if kind == 6:
        def failing(*a, **k):
            log.append((a, k))
            raise BOOM.with_traceback(None)
        return failing
    def nothing(*a, **k):
        log.append((a, k))
        return None
    return nothing


def body_curry(ch, st):
    kind = ch.choose(8)
    n = ch.choose(7)
    rest = ch.choose(4)
    nkw = ch.choose(3)
    cur = VS[:n]
    pos = VS[n:n + rest] if n + rest <= 12 else VS[-rest:]
    kw = {k: VS[11 - i] for i, k in enumerate(("k1", "fun")[:nkw])}
    log = []
    f = mk_callable(kind, log)
    exp_o = outcome(f, *cur, *pos, **kw)
    exp = exp_o[1] if exp_o[0] == "ret" else Exc(BOOM)
    direct = log.pop()

    def run(name, g, seen):
        got = outcome(g)
        agree(got, exp, f"{name} with {n} curried arguments", rest=rest, keywords=list(kw), kind=kind)
        check(len(log) == seen and all(a is b for a, b in zip(log[-1][0], direct[0])) and len(log[-1][0]) == len(direct[0])
              and log[-1][1] == direct[1], f"{name}: the function was called differently from the direct call",
              calls=log, direct=direct)
        st.step()

    c = curry(n)(f)

    def apply():
        g = c
        for a in cur:
            g = g(a)
        return g(*pos, **kw)

    run("curry", apply, 1)
    run("curry again", apply, 2)
    cf = curry_flip(n)(f)

    def apply_f():
        if n == 0:
            return cf(*cur, *pos, **kw)
        g = cf(*pos, **kw)
        for a in cur:
            g = g(a)
        return g

    run("curry_flip", apply_f, 3)
    run("curry_flip again", apply_f, 4)
    if n == 1:
        run("pipeable", lambda: pipeable(f, *pos, **kw)(cur[0]), 5)
        p = pipeable(f, *pos, **kw)
        run("pipeable in pipe", lambda: pipe(cur[0], p), 6)
        run("pipeable reused", lambda: pipe(cur[0], p), 7)
        log2 = []
        g = mk_callable(0, log2)
        pipeable(g, function=VS[0], args=VS[1], num_args=VS[2])(cur[0])
        check(log2 == [((cur[0],), dict(function=VS[0], args=VS[1], num_args=VS[2]))], "keyword names of the function", calls=log2)
    # the function never runs before its last argument
    log.clear()
    g = c
    for a in cur:
        g = g(a)
        check(not log, "the function ran before its last argument")
    if n:
        g = cf(*pos, **kw)
        for a in cur[:-1]:
            g = g(a)
            check(not log, "the flipped function ran before its last argument")
    st.outcome((kind, n, rest, nkw))


def body_partials(ch, st):
    """Partial applications form a tree; completing its nodes in any order gives each its own arguments."""
    n = 1 + ch.choose(3)
    flipd = ch.flag()
    deco = (curry_flip if flipd else curry)(n)
    f = deco(lambda *a, **k: (a, tuple(sorted(k.items()))))
    # nodes: (partial, arguments so far); always two branches alive
    live = [(f, (), 0)]
    done = []
    steps = 2 * (n + 1) + 1
    for s in range(steps):
        i = ch.choose(len(live))
        g, args, lvl = live[i]
        v = VS[s % 12]
        if flipd:
            if lvl == 0:
                live.append((g(v, k=v), ((v,), (("k", v),)), 1))
            elif lvl < n:
                live.append((g(v), (args[0], args[1], *args[2:], v), lvl + 1))
            else:
                got = g(v)
                exp = ((*args[2:], v, *args[0]), args[1])
                check(matches(got, exp), "a partial application mixed up its arguments", got=got, expected=exp)
                done.append(exp)
        else:
            if lvl < n:
                live.append((g(v), (*args, v), lvl + 1))
            else:
                got = g(v, k=v)
                exp = ((*args, v), (("k", v),))
                check(matches(got, exp), "a partial application mixed up its arguments", got=got, expected=exp)
                done.append(exp)
        if len(live) > 3:
            live = [live[0], *live[-2:]]
        st.step()
    st.outcome((n, flipd, repr(done)))


# -- pipelines ------------------------------------------------------------------
KINDS = 6


def stage(kind, i, log):
    def s(*a):
        log.append((i, a))
        if kind == 0:
            return (i, *a)
        if kind == 1:
            return None
        if kind == 2:
            return a[0] if a else ()
        if kind == 3:
            return []
        if kind == 4:
            return lambda x: x
        raise BOOM.with_traceback(None)
    return s


def nest(x, fs):
    for f in fs:
        x = f(x)
    return x


def same_trace(a, b, what):
    check(len(a) == len(b), f"{what}: stages ran {len(a)} times instead of {len(b)}", ran=[x[0] for x in a], expected=[x[0] for x in b])
    for (i, x), (j, y) in zip(a, b):
        check(i == j and len(x) == len(y), f"{what}: stage order or arguments", ran=(i, x), expected=(j, y))


def body_pipe(maxlen):
    def body(ch, st):
        n = ch.choose(maxlen + 1)
        kinds = []
        for _ in range(n):
            k = ch.choose(KINDS)
            kinds.append(k)
            if k == 5:
                break
        v = Opaque("v")

        def go(name, form):
            l1, l2 = [], []
            e = outcome(nest, v, [stage(k, i, l1) for i, k in enumerate(kinds)])
            g = outcome(form, [stage(k, i, l2) for i, k in enumerate(kinds)])
            if e[0] == "ret" and callable(e[1]) and kinds and kinds[-1] == 4:
                check(g[0] == "ret" and callable(g[1]), f"{name}: wrong result", got=g)
            elif e[0] == "ret" and any(k == 4 for k in kinds):
                check(g[0] == "ret" and repr(type(g[1])) == repr(type(e[1])), f"{name}: wrong result", got=g)
            else:
                agree(g, e[1] if e[0] == "ret" else Exc(BOOM), f"{name} of {kinds}")
            same_trace(l2, l1, f"{name} of {kinds}")
            st.step()

        go("pipe", lambda fs: pipe(v, *fs))
        go("compose", lambda fs: compose(*fs)(v))
        for cut in range(len(kinds) + 1):
            go("compose of compose", lambda fs: compose(compose(*fs[:cut]), compose(*fs[cut:]))(v))
            go("pipe of pipe", lambda fs: pipe(pipe(v, *fs[:cut]), *fs[cut:]))
        go("mixin", lambda fs: _Mix(v).pipe(lambda m: m.v, *fs))
        st.outcome(kinds)
    return body


class _Mix(PipeMixin):
    def __init__(self, v):
        self.v = v


def body_star(maxlen):
    """starpipe/starcompose: every tuple is unpacked into the next stage."""
    def body(ch, st):
        n = ch.choose(maxlen + 1)
        arity = ch.choose(4)
        outs = [ch.choose(4) for _ in range(n)]
        args = tuple(VS[:arity])
        fails = ch.choose(n + 1) - 1 if n else -1

        def mk(log):
            def st_(i):
                def s(*a):
                    log.append((i, a))
                    if i == fails:
                        raise BOOM.with_traceback(None)
                    return tuple(((i, k), *a[:1]) for k in range(outs[i]))
                return s
            return [st_(i) for i in range(n)]

        def ref(fs):
            x = args
            for f in fs:
                x = f(*x)
            return x

        for name, form in (("starpipe", lambda fs: starpipe(args, *fs)), ("starcompose", lambda fs: starcompose(*fs)(args))):
            l1, l2 = [], []
            e = outcome(ref, mk(l1))
            g = outcome(form, mk(l2))
            agree(g, e[1] if e[0] == "ret" else Exc(BOOM), f"{name} {outs}")
            check([i for i, _ in l1] == [i for i, _ in l2] and all(matches(a[1], b[1]) for a, b in zip(l2, l1)), f"{name}: calls", got=l2, expected=l1)
            st.step()
        check(matches(starid(*args), args) and matches(starid(args), (args,)) and matches(starid(args, args), (args, args)), "starid")
        st.outcome((arity, outs, fails))
    return body


def body_pipe23(ch, st):
    w = 2 + ch.choose(2)
    p = pipe2 if w == 2 else pipe3
    a = alphabet()
    vals = tuple([a[ch.choose(len(a))], small()[ch.choose(len(small()))], 7][:w])
    n = ch.choose(5)
    bad = ch.choose(n + 1) - 1
    log = []

    def first(x):
        def second(y):
            if w == 2:
                log.append((0, (x, y)))
                if bad == 0:
                    raise BOOM.with_traceback(None)
                return (x, y)

            def third(z):
                log.append((0, (x, y, z)))
                if bad == 0:
                    raise BOOM.with_traceback(None)
                return (x, y, z)
            return third
        return second

    def mk(i):
        def s(x):
            log.append((i, (x,)))
            if i == bad:
                raise BOOM.with_traceback(None)
            return (i, x)
        return s
    fs = [first, *[mk(i) for i in range(1, n)]][:n]
    got = outcome(p, vals, *fs)
    if n == 0:
        check(got[0] == "ret" and got[1] is vals, "no stages", got=got)
    elif bad >= 0:
        agree(got, Exc(BOOM), f"pipe{w}")
        check([i for i, _ in log] == list(range(bad + 1)), f"pipe{w}: stages after a failure", ran=log)
    else:
        exp = vals
        for i in range(1, n):
            exp = (i, exp)
        agree(got, exp, f"pipe{w}")
        check([i for i, _ in log] == list(range(n)), f"pipe{w}: order", ran=log)
    st.step()
    st.outcome((w, n, bad))


def fn_answers(st, tier):
    """Arguments and results are the very objects given and returned, whatever they are."""
    for v, w in itertools.product(alphabet(), alphabet()):
        log = []

        def f(*a, **k):
            log.append((a, k))
            return v

        def f3(a, b, c=w, *, d=None):
            log.append(((a, b, c), {"d": d}))
            return v

        def once(what, r, *args, **kw):
            check(r is v, f"{what}: another result than the function's", got=r, expected=v)
            check(len(log) == 1 and len(log[0][0]) == len(args) and all(x is y for x, y in zip(log[0][0], args)) and all(log[0][1].get(q, log) is x for q, x in kw.items()),
                  f"{what}: the function was called otherwise", calls=log, expected=(args, kw))
            log.clear()
            st.step()
        for n in range(4):
            c = curry(n)(f)
            for _ in range(n):
                c = c(w)
            once(f"curry {n}", c(v, w, k=w), *[w] * n, v, w, k=w)
        c = curry_flip(1)(f)
        once("curry_flip", c(w, k=v)(v), v, w, k=v)
        once("curry_flip 3", curry_flip(1)(f3)(w, d=v)(v), v, w, w, d=v)
        once("curry 3", curry(1)(f3)(v)(w), v, w, w, d=None)
        once("pipeable", pipeable(f, w, k=w)(v), v, w, k=w)
        once("pipeable 0", pipeable(f)(v), v)
        once("flip", flip(f)(v, w), w, v)
        once("pipe", pipe(w, f), w)
        once("pipe identity", pipe(w, identity, f, identity), w)
        once("compose", compose(f)(w), w)
        once("compose identity", compose(identity, f, identity)(w), w)
        once("pipe2", pipe2((w, v), lambda a: lambda b: f(a, b)), w, v)
        once("pipe3", pipe3((w, v, w), lambda a: lambda b: lambda c: f(a, b, c)), w, v, w)
        once("mixin", _Mix(w).pipe(lambda m: m.v, f), w)
        once("starpipe", starpipe((w, v), f), w, v)
        once("starcompose", starcompose(f)((w, v)), w, v)
        seen = []
        r = pipe(w, lambda x: v, lambda x: seen.append(x) or w, lambda x: seen.append(x) or v)
        check(r is v and seen[0] is v and seen[1] is w, "pipe: a stage got something else than the one before returned", got=(r, seen))
        seen = []
        r = compose(lambda x: v, lambda x: seen.append(x) or w, lambda x: seen.append(x) or v)(w)
        check(r is v and seen[0] is v and seen[1] is w, "compose: a stage got something else than the one before returned", got=(r, seen))
    st.outcome("all")


def fn_misc(st, tier):
    a = alphabet()
    for x in a:
        check(identity(x) is x, "identity", x=x)
        check(pipe(x) is x and compose()(x) is x and starcompose()(x) is x, "no stages")
        check(pipe(x, identity) is x and compose(identity, identity)(x) is x, "identity stages")
        for y in small():
            check(fst((x, y)) is x and snd((x, y)) is y, "fst/snd", x=x, y=y)
            log = []

            def f(p, q):
                log.append((p, q))
                return (p, q)
            r = flip(f)(y, x)
            check(r[0] is x and r[1] is y and len(log) == 1, "flip", got=r)
            r = flip(flip(f))(x, y)
            check(r[0] is x and r[1] is y, "flip of flip", got=r)
            st.step(3)
    for bad in ((), (1,), (1, 2, 3)):
        for g in (fst, snd):
            o = outcome(g, bad)
            check(o[0] == "raise" and isinstance(o[1], (ValueError, IndexError, TypeError)), "fst/snd of something that is not a pair", got=o)
    o = outcome(flip(lambda p, q: (_ for _ in ()).throw(BOOM.with_traceback(None))), 1, 2)
    check(o[1] is BOOM, "flip hides an exception")
    # every fluent container
    for obj in (Some(1), Nothing, Ok(1), Error(1), Block([1]), Map.of(a=1), Seq([1]), TypedArray([1])):
        for n in range(5):
            log = []
            got = obj.pipe(*[stage(0, i, log) for i in range(n)])
            exp = obj
            for i in range(n):
                exp = (i, exp)
            if n == 0:
                check(got is obj, "pipe without stages")
            else:
                g2 = got
                for i in reversed(range(n)):
                    check(g2[0] == i, "stage order")
                    g2 = g2[1]
                check(g2 is obj, "the first stage did not get the object", got=g2)
            check([i for i, _ in log] == list(range(n)), "order", ran=log)
            st.step()
    # long pipelines
    for n in [*range(0, 41), 100, 255, 256, 257, 900, 1000, 1001, 5000, 20000]:
        log = []
        fs = [(lambda i: lambda x: (log.append(i), x + i)[1])(i) for i in range(n)]
        tot = sum(range(n))
        for nm, form in (("pipe", lambda: pipe(1, *fs)), ("compose", lambda: compose(*fs)(1)),
                         ("pipe2", lambda: pipe2((1, 0), lambda x: lambda y: x + y, *fs)),
                         ("pipe3", lambda: pipe3((1, 0, 0), lambda x: lambda y: lambda z: x + y + z, *fs)),
                         ("mixin", lambda: Some(1).pipe(lambda o: o.some, *fs))):
            log.clear()
            check(form() == 1 + tot and log == list(range(n)), f"{nm} of {n} stages")
            st.step()
        gs = [(lambda i: lambda x, y: (log.append(i), (x + i, y))[1])(i) for i in range(n)]
        for nm, form in (("starpipe", lambda: starpipe((1, 2), *gs)), ("starcompose", lambda: starcompose(*gs)((1, 2)))):
            log.clear()
            check(form() == (1 + tot, 2) and log == list(range(n)), f"{nm} of {n} stages")
        c = compose(*fs)
        check(c(0) == tot and c(10) == tot + 10 and c(0) == tot, "a composition is reusable")
    # a composition is not affected by later changes of the list it came from
    ls = [lambda x: x + 1]
    c = compose(*ls)
    ls.append(lambda x: x * 100)
    check(c(1) == 2, "a composition changed afterwards")
    # names survive decoration
    @curry(1)
    def named(a, b):
        """doc"""

    @curry_flip(1)
    def named2(a, b):
        """doc"""
    check(named.__name__ == "named" and named.__doc__ == "doc" and named2.__name__ == "named2" and named2.__doc__ == "doc", "names")
    # defaults
    @curry(1)
    def dflt(a, b=2, *, c=3):
        return (a, b, c)

    @curry_flip(1)
    def dflt2(a, b=2, *, c=3):
        return (a, b, c)
    check(dflt(1)() == (1, 2, 3) and dflt(1)(5) == (1, 5, 3) and dflt(1)(c=6) == (1, 2, 6) and dflt(1)(b=4) == (1, 4, 3), "defaults")
    check(dflt2()(1) == (1, 2, 3) and dflt2(5)(1) == (1, 5, 3) and dflt2(c=6)(1) == (1, 2, 6) and dflt2(b=4)(1) == (1, 4, 3), "defaults")
    st.executions += 1


def sections(tier):
    t = tier == T
    return variants([
        Section("curry", body_curry, shards=8, bounds="all arities, splits and callable kinds"),
        Section("partials", body_partials, shards=3, bounds="all orders of using shared partial applications"),
        Section("pipelines", body_pipe(6 if t else 5), shards=7, bounds="all stage sequences"),
        Section("star", body_star(4 if t else 3), shards=4, bounds="all tuple widths"),
        Section("pipe2-pipe3", body_pipe23, shards=2, bounds="all values and failure positions"),
        Section("answers", fn=fn_answers, bounds="every pair of alphabet values as arguments and result"),
        Section("misc", fn=fn_misc, bounds="small functions, mixins, long pipelines"),
    ], ('curry', 'partials', 'pipelines', 'star', 'pipe2-pipe3', 'misc'), __name__, ('stop', 'base'))
