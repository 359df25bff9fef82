"""P23: catching, Kleisli pipelines and traversal."""
import functools
import itertools

from expression import Error, Failure, Nothing, Ok, Some, Success, compose
from expression.collections import Block
from expression.extra import option as xopt
from expression.extra import result as xres
from expression.extra.result import catch, sequence, traverse

from mc.core import Section, check, fail
from mc.values import (variants, NONE, Boom, Exc, Hostile, Ident, Just, MErr, MOk, Opaque, Rec, SeqOf, agree, alphabet, matches, outcome,
                       same_calls, small)

BOUNDS = ("catch: 14 raised kinds x 9 caught kinds, stacks of up to 3 catchers, 8 callable kinds, 29 return values, every call/raise "
          "history of up to 4 calls; pipelines of 0..5 (quick) / 0..6 (thorough) stages over 5 stage kinds x 2 monads, lengths to 300; "
          "traverse/sequence over every ok/error/raise pattern of lists up to length 6 (quick) / 8 (thorough), lengths to 20000, "
          "and every alphabet value as the error, the success or the element at every position of lists up to 4; caught exceptions chained in 4 ways to 12 kinds of others")
ASSUMPTIONS = ["catch is given exception classes (or tuples of them) as the signature declares"]


class Base(Exception):
    pass


class Derived(Base):
    pass


class Other(Exception):
    def __eq__(self, o):
        return True
    __hash__ = Exception.__hash__


class Meta(BaseException):
    pass


class Falsy(ValueError):
    def __bool__(self):
        return False


RAISED = [Base("b"), Derived("d"), Other("o"), ValueError("v"), KeyError("k"), IndexError(1), ZeroDivisionError(), StopIteration(5),
          Falsy("f"), Exception("e"), Meta("m"), KeyboardInterrupt(), SystemExit(3), GeneratorExit()]
CAUGHT = [Base, Derived, Other, ValueError, LookupError, Exception, ArithmeticError, (Base, KeyError), ()]


def bo(f, /, *a, **k):
    """outcome() that also records BaseExceptions (not the harness's own)."""
    try:
        return ("ret", f(*a, **k))
    except BaseException as e:  # noqa: BLE001
        if type(e) is Hang:
            raise
        return ("raise", e)


from mc.core import Hang  # noqa: E402


def wrap(kind, f):
    """The same function as different kinds of callables."""
    if kind == 0:
        return f
    if kind == 1:
        return lambda *a, **k: f(*a, **k)
    if kind == 2:
        class C:
            def __call__(self, *a, **k):
                return f(*a, **k)
        return C()
    if kind == 3:
        class D:
            def meth(self, *a, **k):
                return f(*a, **k)
        return D().meth
    if kind == 4:
        return functools.partial(f)
    if kind == 5:
        class E:
            def __new__(cls, *a, **k):
                return f(*a, **k)
        return E
    if kind == 6:
        class F:
            @staticmethod
            def meth(*a, **k):
                return f(*a, **k)
        return F.meth
    if kind == 8:
        class G:
            def __call__(self, *a, **k):
                return f(*a, **k)

            def __bool__(self):
                return False

            def __len__(self):
                return 0
        return G()
    return functools.wraps(f)(lambda *a, **k: f(*a, **k))


def model_catch(kinds, out):
    """kinds: from the innermost catcher outwards; out: ('ret', v) or ('raise', e)."""
    from expression import Result
    for k in kinds:
        if out[0] == "raise":
            if isinstance(out[1], k):
                out = ("ret", MErr(Ident(out[1])))
        elif not isinstance(out[1], (Result, MOk, MErr)):
            out = ("ret", MOk(out[1] if not isinstance(out[1], Exception) else Ident(out[1])))
        elif isinstance(out[1], Result):
            r = out[1]
            out = ("ret", MOk(Ident(r.ok)) if r.tag == "ok" else MErr(Ident(r.error)))
    return out


def judge(got, exp, what, **kw):
    agree(got, Exc(exp[1]) if exp[0] == "raise" else exp[1], what, **kw)


def body_catch(ch, st):
    n = 1 + ch.choose(3)
    kinds = [ch.pick(CAUGHT) if i < 2 else ch.pick([Exception, Base, ValueError]) for i in range(n)]
    kind = ch.choose(9) if n == 1 else 0
    direct = ch.choose(2)
    for out in [("raise", e) for e in RAISED] + [("ret", v) for v in RETS]:
        log = []

        def f(*a, **k):
            log.append((a, k))
            if out[0] == "raise":
                raise out[1].with_traceback(None)
            return out[1]

        g = wrap(kind, f)
        for k in kinds:
            g = catch(g, exception=k) if direct else catch(exception=k)(g)
        exp = model_catch(kinds, out)
        check(not log, "catch ran the function before it was called")
        for i, (a, k) in enumerate([((), {}), ((1, 2), {"x": 3}), ((VH,), {"f": 1, "fn": 2, "exception": 3, "args": 4})]):
            got = bo(g, *a, **k)
            judge(got, exp, f"function caught for {kinds}", out=out)
            check(len(log) == i + 1, "the function was not called exactly once per call", calls=len(log), expected=i + 1)
            check(len(log[-1][0]) == len(a) and all(p is q for p, q in zip(log[-1][0], a)) and log[-1][1] == k,
                  "arguments changed on the way to the function", got=log[-1], sent=(a, k))
            st.step()
    st.outcome((n, kind, direct, [str(k) for k in kinds]))


VH = Hostile()
RETS = None


def body_history(ch, st):
    """One wrapped function called repeatedly: each call stands alone; results from earlier calls stay."""
    k = ch.pick([Base, ValueError, Exception])
    method = ch.flag()
    script = []
    n = 1 + ch.choose(4)
    outs = [("ret", 1), ("ret", None), ("raise", RAISED[0]), ("raise", RAISED[3]), ("ret", Ok(0)), ("ret", Error(RAISED[1])),
            ("raise", RAISED[10])]
    seq = [outs[ch.choose(len(outs))] for _ in range(n)]
    it = iter(seq)
    owner = []

    def f(*a):
        owner.append(a)
        o = next(it)
        if o[0] == "raise":
            raise o[1].with_traceback(None)
        return o[1]

    if method:
        class C:
            @catch(exception=k)
            def m(self, x):
                return f(self, x)
        obj = C()
        call = obj.m
    else:
        g = catch(exception=k)(f)
        obj = "o"
        call = lambda x: g(obj, x)
    results = []
    for i, o in enumerate(seq):
        got = bo(call, i)
        exp = model_catch([k], o)
        judge(got, exp, "call in a history", i=i)
        check(owner[-1][0] is obj and owner[-1][1] == i, "method receives the wrong arguments", got=owner[-1])
        if got[0] == "ret":
            results.append((got[1], exp[1]))
        for r, e in results:
            check(matches(r, e), "an earlier result changed", result=r, expected=e)
        st.step()
    st.outcome((str(k), [o[0] for o in seq]))


def fn_catch_more(st, tier):
    # wrong arity is an exception of the call itself
    r = catch(lambda: 1, exception=TypeError)(1, 2)
    check(r.is_error() and isinstance(r.error, TypeError), "a call with wrong arguments is not caught", got=r)
    check(bo(catch(lambda: 1, exception=ValueError), 1)[0] == "raise", "a call with wrong arguments was swallowed")
    # a generator function succeeds with its generator; raising inside it later is not the call's failure
    @catch(exception=ValueError)
    def gen():
        yield 1
        raise RAISED[3].with_traceback(None)
    r = gen()
    check(r.is_ok(), "a generator function should succeed", got=r)
    it = r.ok
    check(next(it) == 1, "generator lost")
    judge(bo(next, it), ("raise", RAISED[3]), "generator failure")
    # re-entrancy: recursion through the wrapper
    @catch(exception=Base)
    def rec(n):
        if n == 0:
            raise RAISED[1].with_traceback(None)
        if n == 5:
            inner = rec(n - 1)
            check(inner.is_error() and inner.error is RAISED[1], "inner failure", got=inner)
            return "recovered"
        return rec(n - 1)
    for n in range(0, 30):
        r = rec(n)
        check(matches(r, MErr(Ident(RAISED[1])) if n < 5 else MOk("recovered")), "recursion through the wrapper", n=n, got=r)
        st.step()
    # an exception with a cause and context keeps them
    @catch(exception=Base)
    def chained():
        try:
            raise KeyError("inner")
        except KeyError as e:
            raise Base("outer") from e
    r = chained()
    check(r.is_error() and isinstance(r.error, Base) and r.error.args == ("outer",) and isinstance(r.error.__cause__, KeyError),
          "the caught exception lost its cause", got=r)
    # ... whatever it is chained to: the caught error is the exception that reached the caller
    def link(e, how, o):
        if how == 0:
            raise e from o
        if how == 1:
            try:
                raise o
            except BaseException:
                raise e
        if how == 2:
            try:
                raise o
            finally:
                raise e
        try:
            raise o
        except BaseException:
            raise e from None
    group = ExceptionGroup("g", [Base("in group"), ValueError("in group")])
    for k, how in itertools.product([Exception, Base, ValueError, (Base, ValueError), LookupError, ExceptionGroup], range(4)):
        for mk1, mk2 in itertools.product([lambda: Base("x"), lambda: Derived("y"), lambda: ValueError("z"), lambda: KeyError(1), lambda: group, lambda: Falsy("f"),
                                           lambda: TimeoutError(), lambda: OSError(2, "no"), lambda: Meta("m"), lambda: StopAsyncIteration(1), lambda: MemoryError(), lambda: RecursionError("r")], repeat=2):
            e, o = mk1(), mk2()
            if e is o:
                continue
            e.__cause__ = e.__context__ = o.__cause__ = o.__context__ = None
            judge(bo(catch(link, exception=k), e, how, o), model_catch([k], ("raise", e)), "a chained exception", kind=k, how=how, other=o)
            check((e.__cause__ is o) is (how == 0) and (e.__context__ is o) is (how != 0), "the caught exception's chain changed", how=how)
            e.__traceback__ = o.__traceback__ = e.__cause__ = e.__context__ = None
            st.step()
    # any exception there is can be caught by its own kind, a base of it, or a tuple with either; no other kind catches it
    from mc.raising import kinds as raising
    for e in raising():
        t = type(e)
        for k in {*t.__mro__[:-1], KeyError, ValueError, KeyboardInterrupt, Meta, Derived} | {(t, IndexError), (IndexError, t), (IndexError,), ()}:
            def thrown():
                raise e.with_traceback(None)
            got = bo(catch(thrown, exception=k))
            want = isinstance(e, k)
            check(got[0] == ("ret" if want else "raise"), "catch caught another kind of exception, or did not catch its own", raised=t.__name__, kind=k)
            check((got[1].is_error() and got[1].error is e) if want else got[1] is e, "not the exception that was raised", raised=t.__name__, kind=k)
            st.step()
    # the function itself handles exceptions: no interference
    @catch(exception=Base)
    def handles():
        try:
            raise Derived("x")
        except Derived:
            return "handled"
        finally:
            log.append("finally")
    log = []
    check(matches(handles(), MOk("handled")) and log == ["finally"], "a function that handles its own exception")
    # independence of two catchers of one function
    def thrower(e):
        raise e.with_traceback(None)
    cs = [(k, catch(thrower, exception=k)) for k in CAUGHT]
    for _ in range(2):
        for (k, c), e in itertools.product(cs, RAISED):
            judge(bo(c, e), model_catch([k], ("raise", e)), "independent catchers", kind=k)
            st.step()
    # different exceptions of one wrapped function, interleaved
    c = catch(thrower, exception=Exception)
    for e1, e2 in itertools.product(RAISED[:10], repeat=2):
        r1, r2 = c(e1), c(e2)
        check(r1.error is e1 and r2.error is e2, "results of two failing calls are mixed up", got=(r1, r2))
        st.step()


# --- pipelines -----------------------------------------------------------------
class St:
    def __init__(self, monad, kind, i, boom):
        self.kind, self.i, self.calls, self.boom, self.monad, self.rot = kind, i, [], boom, monad, 0

    def real(self, x):
        self.calls.append(x)
        k = self.kind
        if self.monad == 0:
            ok, bad = Some, lambda v: Nothing
        elif self.monad == 1:
            ok, bad = Ok, Error
        else:
            ok, bad = Success, Failure
        if k == 0:
            return ok((self.i, x))
        if k == 1:
            return bad(pipe_error(self.i, self.rot)) if self.monad < 2 else bad(self.boom)
        if k == 2:
            raise self.boom.with_traceback(None)
        if k == 3:
            return ok(ok(x))
        if k == 4:
            return ok(None)
        return ok(x)


BOOMS = [Boom(f"stage{i}") for i in range(8)]
PIPE_ERRS = [("err", 0), None, 0, "", VH, False, Nothing, []]


def pipe_error(i, rot):
    """The error of stage i: an ordinary, falsy, empty or uninspectable value."""
    return PIPE_ERRS[(i + rot) % len(PIPE_ERRS)]


def model_stage(monad, kind, i, x, rot):
    ok = Just if monad == 0 else MOk
    if kind == 0:
        return "go", (i, x)
    if kind == 1:
        return "stop", (NONE if monad == 0 else MErr(Ident(pipe_error(i, rot))) if monad == 1 else MErr(Ident(BOOMS[i])))
    if kind == 2:
        return "exc", Exc(BOOMS[i])
    if kind == 3:
        return "go", ok(x)
    if kind == 4:
        return "go", None
    return "go", x


def body_pipeline(ch, st):
    monad = ch.choose(3)
    nmax = 6 if TIER == "thorough" else 5
    n = ch.choose(nmax + 1)
    kinds = [ch.choose(6 if n <= 4 else 4) for _ in range(n)]
    stages = [St(monad, k, i, BOOMS[i]) for i, k in enumerate(kinds)]
    mod = xopt if monad == 0 else xres
    p = mod.pipeline(*[s.real for s in stages])
    check(not any(s.calls for s in stages), "building a pipeline ran a stage")
    OKM = Just if monad == 0 else MOk
    for r, start in enumerate([1, None, VH, Nothing, ()]):
        for s in stages:
            s.calls.clear()
            s.rot = r + n
        x, exp, seen = start, None, []
        for i, k in enumerate(kinds):
            seen.append(x)
            w, v = model_stage(monad, k, i, x, r + n)
            if w == "go":
                x = v
            else:
                exp = v
                break
        else:
            exp = OKM(x)
        got = outcome(p, start)
        agree(got, exp, f"pipeline of {kinds}", start=start, monad=monad)
        for i, s in enumerate(stages):
            want = 1 if i < len(seen) else 0
            check(len(s.calls) == want, "a stage ran the wrong number of times", stage=i, calls=len(s.calls), expected=want, kinds=kinds)
            if want:
                check(matches(s.calls[0], seen[i]), "a stage received the wrong value", stage=i, got=s.calls[0], expected=seen[i])
        st.step()
        # nested pipelines and a split anywhere are the same computation
        if r == 0:
            for cut in range(n + 1):
                q = mod.pipeline(mod.pipeline(*[s.real for s in stages[:cut]]), mod.pipeline(*[s.real for s in stages[cut:]]))
                agree(outcome(q, start), exp, f"pipeline of {kinds} split at {cut}", start=start, monad=monad)
                st.step()
    st.outcome((monad, kinds))


def fn_pipeline_long(st, tier):
    for n in list(range(0, 40)) + [60, 100, 200, 300]:
        for mod, ok, bad, M in ((xopt, Some, lambda: Nothing, Just), (xres, Ok, lambda: Error("e"), MOk)):
            fns = [(lambda x, i=i: ok(x * 2 + i % 2)) for i in range(n)]
            want = 1
            for i in range(n):
                want = want * 2 + i % 2
            p = mod.pipeline(*fns)
            check(matches(p(1), M(want)) and matches(p(1), M(want)), "long pipeline", n=n, got=p(1))
            for cut in sorted({0, n // 2, n - 1} & set(range(n))):
                ran = []
                fns2 = list(fns)
                fns2[cut] = lambda x: bad()
                if cut + 1 < n:
                    fns2[cut + 1] = lambda x: ran.append(1) or ok(x)
                check(matches(mod.pipeline(*fns2)(1), NONE if mod is xopt else MErr("e")) and not ran,
                      "a long pipeline does not stop at its failure", n=n, cut=cut)
            st.step()
        st.outcome(n)


# --- traverse / sequence -----------------------------------------------------------
ELEM = ["ok", "err", "raise", "okerr", "okok"]


def body_traverse(ch, st):
    nmax = 8 if TIER == "thorough" else 6
    n = ch.choose(nmax + 1)
    pats = [ch.choose(5 if n <= 4 else 3) for _ in range(n)]
    reprkind = ch.choose(3) if n <= 4 else 0
    items = [("item", i) if i % 3 else (VH if i == 3 else None if i == 0 else "") for i in range(n)]
    calls = []
    errs = [Opaque(f"e{i}") if (i + n) % 3 else PIPE_ERRS[(i + n + sum(pats)) % len(PIPE_ERRS)] for i in range(n)]
    oks = [(None, 0, Nothing, VH, [], (), False, "x")[i] for i in range(n)]

    def res(i):
        k = pats[i]
        if k == 0:
            return (Ok if i % 2 else Success)(oks[i])
        if k == 1:
            return (Error if i % 2 == 0 else Failure)(errs[i])
        if k == 3:
            return Ok(Error(errs[i]))
        return Ok(Ok(oks[i]))

    def fn(x):
        calls.append(x)
        i = len(calls) - 1
        if i >= n:
            fail("the function was called more often than there are elements")
        if pats[i] == 2:
            raise BOOMS[i % 8].with_traceback(None)
        return res(i)

    exp, ncalls = None, n
    vals = []
    for i, k in enumerate(pats):
        if k == 1:
            exp, ncalls = MErr(Ident(errs[i])), i + 1
            break
        if k == 2:
            exp, ncalls = Exc(BOOMS[i % 8]), i + 1
            break
        vals.append(oks[i] if k == 0 else MErr(Ident(errs[i])) if k == 3 else MOk(oks[i]))
    else:
        exp = MOk(SeqOf(vals, Block))

    def block(xs):
        if reprkind == 0:
            return Block.of_seq(xs)
        b = Block.empty()
        if reprkind == 1:
            for x in reversed(xs):
                b = b.cons(x)
            return b
        k = len(xs) // 2
        return Block.of_seq(xs[:k]).append(Block.of_seq(xs[k:]))

    src = block(items)
    for rep in range(2):
        calls.clear()
        got = outcome(traverse, fn, src)
        agree(got, exp, f"traverse over {[ELEM[p] for p in pats]}")
        check(len(calls) == ncalls and all(a is b for a, b in zip(calls, items)), "traverse called the function wrongly",
              calls=calls, expected=items[:ncalls])
        check(len(src) == n and all(a is b for a, b in zip(src, items)), "traverse changed its source")
        st.step()
    if 2 not in pats:
        rs = [res(i) for i in range(n)]
        b = block(rs)
        agree(outcome(sequence, b), exp, f"sequence of {[ELEM[p] for p in pats]}")
        check(len(b) == n and all(x is y for x, y in zip(b, rs)), "sequence changed its source")
        st.step()
    st.outcome((pats, reprkind))


def fn_traverse_long(st, tier):
    for n in list(range(0, 70)) + [99, 100, 101, 127, 128, 129, 255, 256, 257, 500, 999, 1000, 1001, 1023, 1024, 1025, 4096, 10000, 20000]:
        b = Block.of_seq(range(n))
        r = traverse(lambda x: Ok(x + 1), b)
        check(r.is_ok() and isinstance(r.ok, Block) and list(r.ok) == list(range(1, n + 1)), "long traverse", n=n)
        r = sequence(Block.of_seq([Ok(i) for i in range(n)]))
        check(r.is_ok() and list(r.ok) == list(range(n)), "long sequence", n=n)
        st.step(2)
        for bad in sorted({0, 1, n // 3, n // 2, n - 2, n - 1} & set(range(n))):
            seen = []
            r = traverse(lambda x: seen.append(x) or (Error(("bad", x)) if x >= bad else Ok(x)), b)
            check(r.is_error() and r.error == ("bad", bad) and seen == list(range(bad + 1)), "long traverse with failures", n=n, bad=bad)
            r = sequence(Block.of_seq([Error(i) if i >= bad else Ok(i) for i in range(n)]))
            check(r.is_error() and r.error == bad, "long sequence with failures", n=n, bad=bad)
            st.step(2)
        st.outcome(n)


def fn_traverse_values(st, tier):
    """Every value as an error, as a success and as an element, at every position of a list of up to 4."""
    for v in RETS + PIPE_ERRS:
        for n in range(1, 5):
            for pos in range(n):
                for mk in (Error, Failure):
                    seen = []
                    fn = lambda x: seen.append(x) or (mk(v) if len(seen) == pos + 1 else Ok(x))
                    agree(outcome(traverse, fn, Block.of_seq(range(n))), MErr(Ident(v)), "traverse with one error", n=n, pos=pos)
                    check(seen == list(range(pos + 1)), "traverse went on after its first failure", seen=seen, pos=pos)
                    rs = [Ok(i) for i in range(n)]
                    rs[pos] = mk(v)
                    agree(outcome(sequence, Block.of_seq(rs)), MErr(Ident(v)), "sequence with one error", n=n, pos=pos)
                    for w in range(pos + 1, n):
                        rs[w] = mk("later")
                    agree(outcome(sequence, Block.of_seq(rs)), MErr(Ident(v)), "sequence with several errors", n=n, pos=pos)
                    st.step(3)
                for mk in (Ok, Success):
                    seen = []
                    xs = list(range(n))
                    xs[pos] = v
                    got = outcome(traverse, lambda x: seen.append(x) or mk(x), Block.of_seq(xs))
                    agree(got, MOk(SeqOf([Ident(x) for x in xs], Block)), "traverse of every kind of element", n=n, pos=pos)
                    check(len(seen) == n and all(a is b for a, b in zip(seen, xs)), "traverse called the function wrongly")
                    agree(outcome(sequence, Block.of_seq([mk(x) for x in xs])), MOk(SeqOf([Ident(x) for x in xs], Block)),
                          "sequence of every kind of element", n=n, pos=pos)
                    st.step(2)
        st.outcome(repr(type(v)))


TIER = "quick"


def sections(tier):
    global TIER, RETS
    TIER = tier
    RETS = alphabet() + [ValueError("as value"), Ok(Error("x")), Error(Ok("y")), Success(None), Failure(Base("f"))]
    return variants([
        Section("catch", body_catch, shards=3, bounds="kinds x callables x outcomes x nesting"),
        Section("catch-history", body_history, shards=3),
        Section("catch-more", fn=fn_catch_more),
        Section("pipeline", body_pipeline, shards=3),
        Section("pipeline-long", fn=fn_pipeline_long),
        Section("traverse", body_traverse, shards=7 if tier == "quick" else 9),
        Section("traverse-long", fn=fn_traverse_long),
        Section("traverse-values", fn=fn_traverse_values),
    ], ('pipeline', 'traverse'), __name__, ('stop', 'base'))
