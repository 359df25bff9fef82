"""P26: the operations of every effect builder obey the monad laws and their documented meaning."""
from expression import Error, Nothing, Ok, Some, effect
from expression.collections import Block, Seq
from expression.core import Builder, Failure, Success
from expression.core.async_builder import AsyncBuilder

from mc.core import Section, check, fail
from mc.raising import kinds as raising
from mc.values import NONE, Boom, Ident, Just, MErr, MOk, SeqOf, agree, alphabet, matches, outcome, same_calls

T = "thorough"
BOUNDS = ("every term of builder operations (return, return from, zero, bind, combine, delay, run) of depth 2, and of depth 3 over fewer leaves (quick: topmost combine with leaves only) "
          "over succeeding, failing and raising leaves and functions, for all 7 builders, the asynchronous ones with every function suspending or not; "
          "the three monad laws for every pair of functions and every payload of a 29-value alphabet; left- and right-nested chains up to 20000 binds; user-made accumulating builders over every body of up to 4 yields; 43 kinds of exception raised by a bound function or carried as a value")
ASSUMPTIONS = ["how often a sequence builder evaluates a delayed part is not judged, only what it yields"]
BOOM = Boom("callback")
E1, E2 = ["e1"], ["e2"]


class Later:
    def __await__(self):
        yield


def drive(coro):
    n = 0
    try:
        while True:
            coro.send(None)
            n += 1
            if n > 100000:
                fail("an async builder operation never ends")
    except StopIteration as e:
        return e.value


class K:
    """One builder: how to make successes and failures, and the model of them."""

    def __init__(self, name, make, succ, msucc, fails, zero, kind="one"):
        self.name, self.make, self.succ, self.msucc, self.fails, self.zero, self.kind = name, make, succ, msucc, fails, zero, kind

    is_async = property(lambda s: s.name.startswith("async"))


def lst(*xs):
    return SeqOf(xs)


KINDS = [
    K("option", effect.option, Some, Just, [(Nothing, NONE)], NONE),
    K("result", effect.result, Ok, MOk, [(Error(E1), MErr(E1)), (Error(E2), MErr(E2))], MOk(None)),
    K("try", effect.try_, Success, MOk, [(Failure(BOOM), MErr(BOOM))], MOk(None)),
    K("seq", effect.seq, lambda x: Seq([x]), lambda x: lst(x), [(Seq([]), lst()), (Block([5, 6]), lst(5, 6)), (Seq([7, 7]).map(lambda x: x), lst(7, 7))], lst(), "many"),
    K("async option", effect.async_option, Some, Just, [(Nothing, NONE)], NONE),
    K("async result", effect.async_result, Ok, MOk, [(Error(E1), MErr(E1)), (Error(E2), MErr(E2))], MOk(None)),
    K("async try", effect.async_try, Ok, MOk, [(Error(BOOM), MErr(BOOM))], MOk(None)),
]


# -- model ------------------------------------------------------------------
def m_bind(k, m, f):
    if k.kind == "many":
        return SeqOf([y for x in m.items for y in f(x).items])
    return f(m.v) if isinstance(m, (Just, MOk)) else m


def m_combine(k, a, b):
    if k.kind == "many":
        return SeqOf(a.items + b.items)
    return b if isinstance(a, (Just, MOk)) else a


# -- functions: name, real(builder, kind, x) -> monadic value, model ---------
def functions(k):
    fs = [("wrap", lambda x: k.succ(("w", x)), lambda x: k.msucc(("w", x))), ("const", lambda x: k.succ(None), lambda x: k.msucc(None))]
    fs += [(f"fail{i}", lambda x, r=r: r, lambda x, m=m: m) for i, (r, m) in enumerate(k.fails)]

    if k.kind == "many":  # anything iterable will do, also what can be iterated once only
        fs += [("iterator", lambda x: iter([x, ("again", x)]), lambda x: lst(x, ("again", x))), ("generator", lambda x: (y for y in (x,)), lambda x: lst(x))]

    def boom(x):
        raise BOOM.with_traceback(None)
    return fs + [("raise", boom, boom)]


def leaves(k, few=False):
    out = [("ret", 1), ("ret", None), ("from", k.succ(0), k.msucc(0)), ("zero",)]
    out += [("from", r, m) for r, m in k.fails]
    return out[1:4] + out[4:5] if few else out


def terms(k, depth, few=False, full=True):
    """All terms of at most the given depth (``full=False``: on top, combinations with leaves only)."""
    ls, fs = leaves(k, few), functions(k)
    if few:
        fs = [fs[0], fs[2], fs[-1]]
    level = list(ls)
    for _ in range(depth - 1):
        level = list(up(k, level, level, ls, fs))
    return up(k, level, level if full else ls, ls, fs)


def up(k, level, others, ls, fs):
    yield from ls
    for t in level:
        yield from (("delay", t), ("run", t), ("refrom", t))
        for f in fs:
            yield ("bind", t, f, 0)
            if k.is_async:
                yield ("bind", t, f, 1)
        for u in others:
            yield ("combine", t, u)
            if others is ls:
                yield ("combine", u, t)


def show(t):
    if t[0] == "bind":
        return f"bind({show(t[1])}, {t[2][0]})"
    if t[0] == "combine":
        return f"combine({show(t[1])}, {show(t[2])})"
    if t[0] in ("delay", "run", "refrom"):
        return f"{t[0]}({show(t[1])})"
    return f"{t[0]}({', '.join(map(repr, t[1:2]))})"


def model(k, t, log):
    if t[0] == "ret":
        return k.msucc(t[1])
    if t[0] == "from":
        return t[2]
    if t[0] == "zero":
        return k.zero
    if t[0] == "bind":
        def f(x):
            log.append((t[2][0], x))
            return t[2][2](x)
        return m_bind(k, model(k, t[1], log), f)
    if t[0] == "combine":
        a = model(k, t[1], log)
        return m_combine(k, a, model(k, t[2], log))
    return model(k, t[1], log)


def real(k, b, t, log):
    if t[0] == "ret":
        return b.return_(t[1])
    if t[0] == "from":
        return b.return_from(t[1])
    if t[0] == "zero":
        return b.zero()
    if t[0] == "bind":
        def f(x):
            log.append((t[2][0], x))
            return t[2][1](x)
        return b.bind(real(k, b, t[1], log), f)
    if t[0] == "combine":
        x = real(k, b, t[1], log)
        return b.combine(x, real(k, b, t[2], log))
    if t[0] == "delay":
        return b.delay(lambda: real(k, b, t[1], log))
    if t[0] == "run":
        return b.run(real(k, b, t[1], log))
    return b.return_from(real(k, b, t[1], log))


async def areal(k, b, t, log):
    if t[0] == "ret":
        return await b.return_(t[1])
    if t[0] == "from":
        return await b.return_from(t[1])
    if t[0] == "zero":
        return await b.zero()
    if t[0] == "bind":
        async def f(x):
            if t[3]:
                await Later()
            log.append((t[2][0], x))
            return t[2][1](x)
        return await b.bind(await areal(k, b, t[1], log), f)
    if t[0] == "combine":
        x = await areal(k, b, t[1], log)
        return await b.combine(x, await areal(k, b, t[2], log))
    m = await areal(k, b, t[1], log)
    if t[0] == "delay":
        return await b.delay(lambda: m)
    return await (b.run(m) if t[0] == "run" else b.return_from(m))


def compute(k, b, t, log):
    if k.is_async:
        return drive(areal(k, b, t, log))
    r = real(k, b, t, log)
    if k.kind == "many":
        return both(r)
    return r


def compare(st, k, b, t):
    mlog, log = [], []
    m = outcome(model, k, t, mlog)
    got = outcome(compute, k, b, t, log)
    what = f"{k.name}: {show(t)}"
    if m[0] == "raise":
        check(got[0] == "raise" and got[1] is m[1], f"{what}: the exception of the function did not come through", got=got)
    else:
        agree(got, SeqOf(m[1].items) if k.kind == "many" else m[1], what)
    if k.kind != "many":
        same_calls(log, mlog, what)
    st.step()


def b_terms(k, depth, few=False, full=True):
    def run(st, tier, shard=(0, 1)):
        b = k.make()
        for i, t in enumerate(terms(k, depth, few, full)):
            if i % shard[1] == shard[0]:
                compare(st, k, b, t)
                if i % 997 == 0:
                    st.outcome((k.name, i))
    return run


def both(m):
    """The elements of a sequence, which are the same when it is iterated again."""
    first = list(m)
    again = list(m)
    check(len(again) == len(first) and all(x is y or repr(x) == repr(y) for x, y in zip(again, first)), "the sequence yields something else the second time", first=first)
    return first


def b_laws(st, tier):
    for k in KINDS:
        b = k.make()
        fs = functions(k)
        go = drive if k.is_async else (lambda x: x)
        rt = both if k.kind == "many" else (lambda m: m)
        ms = [(k.succ(x), k.msucc(x)) for x in alphabet()] + k.fails

        def fun(f):
            if not k.is_async:
                return f[1]

            async def g(x):
                await Later()
                return f[1](x)
            return g

        def bind(m, f):
            return go(b.bind(m, f))

        def ret(x):
            return b.return_(x)

        async def aret(x):
            return await b.return_(x)
        for f in fs:
            for x in alphabet():  # return x >>= f  ==  f x
                exp = outcome(lambda: f[2](x))
                got = outcome(lambda: rt(bind(go(b.return_(x)), fun(f))))
                _same(got, exp, f"{k.name}: return then bind {f[0]}", k)
                st.step()
        for m, mm in ms:  # m >>= return  ==  m
            got = outcome(lambda: rt(bind(m, aret if k.is_async else ret)))
            _same(got, ("ret", mm), f"{k.name}: bind to return", k)
            st.step()
            for x, exp, what in ((b.return_from(m), mm, "return from"), (b.run(m), mm, "run"), (b.delay(lambda: m), mm, "delay")):
                _same(outcome(lambda: rt(go(x))), ("ret", exp), f"{k.name}: {what}", k)
                st.step()
            for m2, mm2 in ms:
                _same(outcome(lambda: rt(go(b.combine(m, m2)))), ("ret", m_combine(k, mm, mm2)), f"{k.name}: combine", k)
                st.step()
            for f in fs:
                for g in fs:  # (m >>= f) >>= g  ==  m >>= (x -> f x >>= g)
                    exp = outcome(lambda: m_bind(k, m_bind(k, mm, f[2]), g[2]))
                    left = outcome(lambda: rt(bind(bind(m, fun(f)), fun(g))))
                    if k.is_async:
                        async def inner(x):
                            return await b.bind(await fun(f)(x), fun(g))
                    else:
                        def inner(x):
                            return b.bind(f[1](x), g[1])
                    right = outcome(lambda: rt(bind(m, inner)))
                    _same(left, exp, f"{k.name}: ({f[0]}) then ({g[0]})", k)
                    _same(right, exp, f"{k.name}: ({f[0]} then {g[0]})", k)
                    st.step(2)
        z = go(b.zero())
        _same(("ret", rt(z)), ("ret", k.zero), f"{k.name}: zero", k)
        st.outcome(k.name)


def b_exceptions(st, tier):
    """What a bound function raises comes out of the bind as it is, whatever kind of exception."""
    def run(f):
        try:
            return ("ret", f())
        except BaseException as x:  # noqa: BLE001
            return ("raise", x)
    for k in KINDS:
        b = k.make()
        go = drive if k.is_async else (lambda x: x)
        rt = both if k.kind == "many" else (lambda m: m)
        for e in raising():
            def boom(x):
                raise e.with_traceback(None)

            async def aboom(x):
                await Later()
                raise e.with_traceback(None)

            def gboom(x):
                yield x
                raise e.with_traceback(None)
            fns = [boom] + ([aboom] if k.is_async else []) + ([gboom] if k.kind == "many" else [])
            for fn in fns:
                for m in [k.succ(1), k.succ(None)]:
                    got = run(lambda: rt(go(b.bind(m, fn))))
                    check(got[0] == "raise" and got[1] is e, f"{k.name}: bind lost a {type(e).__name__} of its function", got=got)
                    if k.kind != "many":
                        got = run(lambda: go(b.bind(k.fails[0][0], fn)))
                        agree(got, k.fails[0][1], f"{k.name}: bind of a failure")
                    st.step(2)
            if not k.is_async:
                got = run(lambda: rt(go(b.delay(lambda: boom(0)))))
                check(got[0] == "raise" and got[1] is e, f"{k.name}: delay lost a {type(e).__name__}", got=got)
            # as a payload an exception is a value like any other
            for r in (lambda: b.return_(e), lambda: b.return_from(k.succ(e)), lambda: b.combine(k.succ(0), k.succ(e)) if k.kind == "one" else b.return_(e)):
                got = run(lambda: rt(go(r())))
                check(got[0] == "ret" and matches(got[1], k.msucc(Ident(e))), f"{k.name}: a {type(e).__name__} as a value", got=got[0])
            st.step(4)
        st.outcome(k.name)
    st.executions += 1


def _same(got, exp, what, k):
    if exp[0] == "raise":
        check(got[0] == "raise" and got[1] is exp[1], f"{what}: the exception of the function did not come through", got=got)
    else:
        agree(got, exp[1], what)


def b_long(st, tier):
    """Chains of many binds and combines, nested to the left."""
    for k in KINDS:
        b = k.make()
        go = drive if k.is_async else (lambda x: x)
        for n in (1, 2, 100, 1500, 20000):
            m = k.succ(0)
            calls = []

            def inc(x):
                calls.append(x)
                return k.succ(x + 1)

            async def ainc(x):
                return inc(x)
            for _ in range(n):
                m = go(b.bind(m, ainc if k.is_async else inc))
            agree(("ret", list(m) if k.kind == "many" else m), k.msucc(n), f"{k.name}: {n} binds")
            check(calls == list(range(n)), f"{k.name}: the {n} binds did not run in order")
            if k.kind == "many":
                for src in (range(n), Seq(range(n)), Block(range(n)), list(range(n))):
                    got = list(b.bind(src, lambda x: Seq([x, -x]) if x % 3 else Seq([])))
                    check(got == [y for x in range(n) if x % 3 for y in (x, -x)], f"{k.name}: bind of {n} elements")
                    check(list(b.combine(src, src)) == [*range(n), *range(n)], f"{k.name}: combine of {n} elements")
                check(list(b.bind(Seq([0]), lambda x: Seq(range(n)))) == list(range(n)), f"{k.name}: bind to {n} elements")
            if k.kind == "many" and n > 1500:
                continue
            m = k.succ(0)
            for i in range(1, n + 1):
                m = go(b.combine(m, k.succ(i)))
            agree(("ret", list(m) if k.kind == "many" else m), SeqOf(range(n + 1)) if k.kind == "many" else k.msucc(n), f"{k.name}: {n} combines")
            for r, mm in k.fails:
                m = r
                for _ in range(n):
                    m = go(b.bind(m, ainc if k.is_async else inc)) if k.kind != "many" else m
                if k.kind != "many":
                    agree(("ret", m), mm, f"{k.name}: a failure through {n} binds")
            st.step(2 * n)
        st.outcome(k.name)


def b_custom(st, tier):
    """Builders of the user's own: unimplemented operations say so, overridden ones are used."""
    for cls, go in ((Builder, lambda x: x), (AsyncBuilder, drive)):
        class Empty(cls):
            pass
        b = Empty()

        for name, args in (("bind", (1, lambda x: x)), ("return_", (1,)), ("return_from", (1,)), ("combine", (1, 2)), ("zero", ())):
            agree(outcome(lambda: go(getattr(b, name)(*args))), _exc(NotImplementedError), f"{cls.__name__}.{name} of a builder without one")
            st.step()
        agree(outcome(lambda: go(b.delay(lambda: 7))), 7, f"{cls.__name__}.delay")
        agree(outcome(lambda: go(b.run(7))), 7, f"{cls.__name__}.run")
    for vals in ([], [1], [1, 2], [None, 0], [1, 2, 3]):
        for fails in range(len(vals) + 1):
            ran = []

            class Runs(effect.option):
                def run(self, computation):
                    ran.append(computation)
                    return ("ran", super().run(computation))

            @Runs()
            def prog():
                for i, v in enumerate(vals):
                    x = yield from (Nothing if i == fails else Some(v))
                    check(x is v, "a bound value arrived as something else", got=x, expected=v)
                return ("end", len(vals))
                yield
            exp = NONE if fails < len(vals) else Just(("end", len(vals)))
            r = prog()
            check(type(r) is tuple and r[0] == "ran" and matches(r[1], exp) and len(ran) == 1, "an overridden run is not applied once to the outcome", got=r, ran=ran)

            aran = []

            class ARuns(effect.async_result):
                async def run(self, computation):
                    aran.append(computation)
                    await Later()
                    return ("ran", await super().run(computation))

            @ARuns()
            async def aprog():
                for v in vals:
                    await Later()
                    x = yield v
                    check(x is v, "a bound value arrived as something else", got=x, expected=v)
                yield ("end", len(vals))
            r = drive(aprog())
            check(type(r) is tuple and r[0] == "ran" and matches(r[1], MOk(("end", len(vals)))) and len(aran) == 1,
                  "an overridden run is not applied once to the outcome (async)", got=r, ran=aran)
            st.step(2)
            st.outcome((len(vals), fails))

    # one builder, many decorated functions: nothing is carried over from one to the other
    for k in KINDS:
        if k.is_async or k.kind == "many":
            continue
        b = k.make()

        def mk(v):
            @b
            def f(x):
                a = yield from x
                return (a, v)
            return f
        f1, f2 = mk(1), mk(2)
        for f, v in ((f1, 1), (f2, 2), (f1, 1)):
            for r, m in k.fails:
                agree(outcome(f, r), m, f"{k.name}: one of two functions of one builder, failing")
            agree(outcome(f, k.succ(9)), k.msucc((9, v)), f"{k.name}: one of two functions of one builder")
            st.step(2)


ACCS = [("sum", int, 0, lambda a, b: a + b), ("text", str, "", lambda a, b: a + b), ("list", lambda x: [x], [], lambda a, b: a + b), ("last", lambda x: x, None, lambda a, b: b),
        ("first", lambda x: x, None, lambda a, b: a), ("pairs", lambda x: x, "z", lambda a, b: (a, b))]


def b_accumulate(st, tier):
    """Builders of the user's own that gather what a computation yields: every statement counts, equal and identical ones too."""
    import itertools
    unwrap = lambda m: m[0] if isinstance(m, list) else m  # noqa: E731
    for name, ret, zero, comb in ACCS:
        for over in (0, 1):
            class Acc(Builder):
                def bind(self, xs, fn):
                    return fn(unwrap(xs))

                def return_(self, x):
                    return ret(x)

                def return_from(self, xs):
                    return xs

                def combine(self, xs, ys):
                    return comb(xs, ys)

                def zero(self):
                    return zero

            class AAcc(AsyncBuilder):
                async def bind(self, xs, fn):
                    return await fn(unwrap(xs))

                async def return_(self, x):
                    await Later()
                    return ret(x)

                async def return_from(self, xs):
                    return xs

                async def combine(self, xs, ys):
                    await Later()
                    return comb(xs, ys)

                async def zero(self):
                    return zero
            if over:
                class Acc(Acc):
                    def run(self, computation):
                        return ("ran", computation)

                class AAcc(AAcc):
                    async def run(self, computation):
                        return ("ran", computation)
            b, ab = Acc(), AAcc()
            for n in range(5):
                for vals in itertools.product((1, 2), repeat=n):
                    for end in ("none", 1, 7):
                        @b
                        def prog():
                            for v in vals:
                                x = yield v
                                check(type(unwrap(ret(v))) is type(x) and x == unwrap(ret(v)), "a bound value arrived as something else", got=x)
                            return None if end == "none" else end
                            yield

                        @ab
                        async def aprog():
                            for v in vals:
                                x = yield v
                                check(x == unwrap(ret(v)), "a bound value arrived as something else", got=x)
                            if end != "none":
                                yield end
                        all_ = [ret(v) for v in vals] + ([] if end == "none" else [ret(end)])
                        exp = all_[0] if all_ else zero
                        for m in all_[1:]:
                            exp = comb(exp, m)
                        exp = ("ran", exp) if over else exp
                        for what, got in (("", prog()), ("async ", drive(aprog()))):
                            check(type(got) is type(exp) and got == exp, f"{what}builder {name}: the statements were put together differently", values=vals, end=end, got=got, expected=exp)
                        st.step(2)
            # bodies without a yield statement
            for v in (None, 1, 0, 7):
                exp = zero if v is None else ret(v)
                exp = ("ran", exp) if over else exp

                def plain():
                    return v

                async def aplain():
                    await Later()
                    return v
                for what, got in (("plain", b(plain)()), ("async plain", drive(ab(plain)())), ("async", drive(ab(aplain)()))):
                    check(type(got) is type(exp) and got == exp, f"builder {name}: {what} body", value=v, got=got, expected=exp)
                st.step(3)
            st.outcome((name, over))
    # run of the library's builders, overridden, on bodies without a yield statement
    for k in KINDS:
        base = type(k.make())
        ran = []
        if k.is_async:
            class Runs(base):
                async def run(self, computation):
                    ran.append(computation)
                    return ("ran", await super().run(computation))
        else:
            class Runs(base):
                def run(self, computation):
                    ran.append(computation)
                    return ("ran", super().run(computation))
        for v in (None, 0, 1, ""):
            def plain():
                return v
            ran.clear()
            got = Runs()(plain)()
            got = drive(got) if k.is_async else got
            check(type(got) is tuple and got[0] == "ran" and len(ran) == 1, f"{k.name}: an overridden run is not applied once to a plain body", value=v, got=got)
            exp = k.zero if v is None else k.msucc(v)
            agree(("ret", list(got[1]) if k.kind == "many" else got[1]), exp, f"{k.name}: plain body")
            st.step()


def _exc(t):
    from mc.values import Exc
    return Exc(t)


def sections(tier):
    t = tier == T
    out = [Section("laws", fn=b_laws, bounds="three monad laws, all functions, all payloads"), Section("exceptions", fn=b_exceptions, bounds="43 kinds of exception raised by a bound function or carried as a value"), Section("long chains", fn=b_long, bounds="up to 20000 binds and combines"),
           Section("custom builders", fn=b_custom, bounds="unimplemented, overridden and shared builders"),
           Section("accumulating builders", fn=b_accumulate, bounds="6 user-made monoids, every body of up to 4 yields and an end, sync and async, run overridden or not")]
    for k in KINDS:
        out.append(Section(f"{k.name} terms", fn=b_terms(k, 2), shards=2, bounds="all terms of depth 2"))
        out.append(Section(f"{k.name} deep terms", fn=b_terms(k, 3, True, t), shards=8 if t else 4, bounds="all terms of depth 3, few leaves" + ("" if t else ", combined with leaves on top")))
    return out
