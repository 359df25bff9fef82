"""P02: Result and Try obey the result algebra for every payload, callback and chain."""
from expression import Error, Failure, Ok, Result, Success, Try, pipe, result

from mc.core import Section, check, fail
from mc.values import BOOMS_ALL, Boom, Exc, MErr, MOk, Rec, agree, alphabet, diff, matches, outcome, same_calls, small, variants

BOUNDS = ("sources: Ok(v)/Error(v) for a 29-value alphabet and Success/Failure; callbacks: identity, constants, raising; "
          "all binary operand combinations; all operation chains up to depth 4 (quick) / 5 (thorough) over 15 operations")
ASSUMPTIONS = ["payload values outside the alphabet are treated alike (hostile payloads that raise on inspection are in it)"]

BOOM = Boom("callback")


def res(ch, vals=None, tries=True):
    vals = alphabet() if vals is None else vals
    kind = ch.choose(4 if tries else 2)
    if kind == 0:
        v = ch.pick(vals)
        return Ok(v), MOk(v)
    if kind == 1:
        v = ch.pick(vals)
        return Error(v), MErr(v)
    if kind == 2:
        v = ch.pick(small())
        return Success(v), MOk(v)
    e = ch.pick([Boom("f"), ValueError()])
    return Failure(e), MErr(e)


def ok(m):
    return isinstance(m, MOk)


def unary_cb(ch):
    s = small()
    i = ch.choose(len(s) + 2)
    if i == 0:
        return lambda: Rec(lambda x: x)
    if i == 1:
        return lambda: Rec(exc=BOOM)
    v = s[i - 2]
    return lambda: Rec(lambda x: v)


def keeper(*pairs):
    def keep(what):
        for o, m in pairs:
            if not matches(o, m):
                fail(f"{what}: changed its input", now=o, before=m)
    return keep


def op_map(ch, st):
    o, m = res(ch)
    cb = unary_cb(ch)
    diff(st, "map", [
        ("method", lambda f: o.map(f)),
        ("function", lambda f: result.map(f)(o)),
        ("pipe", lambda f: pipe(o, result.map(f))),
        ("kw", lambda f: result.map(mapper=f)(o)),
    ], lambda f: MOk(f(m.v)) if ok(m) else MErr(m.v), lambda: [cb()], keeper((o, m)))


def op_map_error(ch, st):
    o, m = res(ch)
    cb = unary_cb(ch)
    diff(st, "map_error", [
        ("method", lambda f: o.map_error(f)),
        ("function", lambda f: result.map_error(f)(o)),
    ], lambda f: MOk(m.v) if ok(m) else MErr(f(m.v)), lambda: [cb()], keeper((o, m)))


def op_map2(ch, st):
    o, m = res(ch, small())
    p, n = res(ch, small())
    mk = [lambda: Rec(lambda a, b: (a, b)), lambda: Rec(exc=BOOM), lambda: Rec(lambda a, b: None)][ch.choose(3)]
    diff(st, "map2", [
        ("method", lambda f: o.map2(p, f)),
        ("function", lambda f: result.map2(f)(o)(p)),
    ], lambda f: MErr(m.v) if not ok(m) else MErr(n.v) if not ok(n) else MOk(f(m.v, n.v)),
        lambda: [mk()], keeper((o, m), (p, n)))
    # a result with itself
    diff(st, "map2 with itself", [
        ("method", lambda f: o.map2(o, f)),
        ("function", lambda f: result.map2(f)(o)(o)),
    ], lambda f: MOk(f(m.v, m.v)) if ok(m) else MErr(m.v), lambda: [mk()], keeper((o, m)))
    diff(st, "or_else itself", [
        ("method", lambda: o.or_else(o)), ("lazy", lambda: o.or_else_with(lambda e: o)), ("function", lambda: result.or_else(o)(o)),
    ], lambda: m, lambda: [], keeper((o, m)))


def op_apply(ch, st):
    o, m = res(ch)
    i = ch.choose(2)
    if i:
        cb = unary_cb(ch)
        diff(st, "apply", [
            ("method", lambda f: o.apply(Ok(f))),
            ("function", lambda f: result.apply(Ok(f))(o)),
        ], lambda f: MOk(f(m.v)) if ok(m) else MErr(m.v), lambda: [cb()], keeper((o, m)))
    else:
        e = ch.pick(small())
        diff(st, "apply to an Error function", [
            ("method", lambda: o.apply(Error(e))),
            ("function", lambda: result.apply(Error(e))(o)),
        ], lambda: MErr(e), lambda: [], keeper((o, m)))


def op_bind(ch, st):
    o, m = res(ch)
    s = small()
    i = ch.choose(2 * len(s) + 2)
    if i == 0:
        mk = lambda: (Rec(lambda x: Ok(x)), Rec(lambda x: MOk(x)))  # noqa: E731
    elif i == 1:
        mk = lambda: (Rec(exc=BOOM), Rec(exc=BOOM))  # noqa: E731
    elif i < 2 + len(s):
        v = s[i - 2]
        mk = lambda: (Rec(lambda x: Ok(v)), Rec(lambda x: MOk(v)))  # noqa: E731
    else:
        v = s[i - 2 - len(s)]
        mk = lambda: (Rec(lambda x: Error(v)), Rec(lambda x: MErr(v)))  # noqa: E731
    for name, form in [("method", lambda f: o.bind(f)), ("function", lambda f: result.bind(f)(o))]:
        real, model = mk()
        try:
            exp = model(m.v) if ok(m) else MErr(m.v)
        except BOOMS_ALL as e:
            exp = Exc(e)
        agree(outcome(form, real), exp, f"bind [{name}]", source=m)
        same_calls(real.calls, model.calls, "bind")
        keeper((o, m))("bind")
        st.step()


def op_default(ch, st):
    o, m = res(ch)
    d = ch.pick(alphabet())
    diff(st, "default_value", [
        ("method", lambda x: o.default_value(x)),
        ("function", lambda x: result.default_value(x)(o)),
    ], lambda x: m.v if ok(m) else x, lambda: [d], keeper((o, m)))


def op_default_with(ch, st):
    o, m = res(ch)
    cb = unary_cb(ch)
    diff(st, "default_with", [
        ("method", lambda f: o.default_with(f)),
        ("function", lambda f: result.default_with(f)(o)),
    ], lambda f: m.v if ok(m) else f(m.v), lambda: [cb()], keeper((o, m)))


TRUTHY = [True, False, 1, 0, "", "x", None, []]


def op_filter(ch, st):
    o, m = res(ch)
    i = ch.choose(len(TRUTHY) + 1)
    d = ch.pick(small())
    mk = (lambda: Rec(exc=BOOM)) if i == 0 else (lambda: Rec(lambda x: TRUTHY[i - 1]))
    diff(st, "filter", [
        ("method", lambda f: o.filter(f, d)),
        ("function", lambda f: result.filter(f, d)(o)),
    ], lambda f: m if not ok(m) or f(m.v) else MErr(d), lambda: [mk()], keeper((o, m)))


def op_filter_with(ch, st):
    o, m = res(ch)
    i = ch.choose(len(TRUTHY) + 1)
    mk = (lambda: Rec(exc=BOOM)) if i == 0 else (lambda: Rec(lambda x: TRUTHY[i - 1]))
    cb = unary_cb(ch)
    diff(st, "filter_with", [
        ("method", lambda f, g: o.filter_with(f, g)),
        ("function", lambda f, g: result.filter_with(f, g)(o)),
    ], lambda f, g: m if not ok(m) or f(m.v) else MErr(g(m.v)), lambda: [mk(), cb()], keeper((o, m)))


def op_or_else(ch, st):
    o, m = res(ch, small())
    p, n = res(ch, small())
    diff(st, "or_else", [
        ("method", lambda: o.or_else(p)),
        ("function", lambda: result.or_else(p)(o)),
    ], lambda: m if ok(m) else n, lambda: [], keeper((o, m), (p, n)))


def op_or_else_with(ch, st):
    o, m = res(ch)
    if ch.flag():
        p, n = res(ch, small())
        mk = lambda: Rec(lambda e: p)  # noqa: E731
        exp = m if ok(m) else n
    else:
        mk = lambda: Rec(exc=BOOM)  # noqa: E731
        exp = m if ok(m) else Exc(BOOM)
    for name, form in [("method", lambda f: o.or_else_with(f)), ("function", lambda f: result.or_else_with(f)(o))]:
        f = mk()
        agree(outcome(form, f), exp, f"or_else_with [{name}]", source=m)
        same_calls(f.calls, [] if ok(m) else [(m.v,)], "or_else_with")
        st.step()


def op_swap_merge(ch, st):
    o, m = res(ch)
    diff(st, "swap", [("method", lambda: o.swap()), ("function", lambda: result.swap(o))],
         lambda: MErr(m.v) if ok(m) else MOk(m.v), lambda: [], keeper((o, m)))
    diff(st, "swap twice", [("method", lambda: o.swap().swap())], lambda: m, lambda: [], keeper((o, m)))
    diff(st, "merge", [("method", lambda: o.merge()), ("function", lambda: result.merge(o))],
         lambda: m.v, lambda: [], keeper((o, m)))


def op_query(ch, st):
    o, m = res(ch)
    for what, forms, exp in [
        ("is_ok", [lambda: o.is_ok(), lambda: result.is_ok(o)], ok(m)),
        ("is_error", [lambda: o.is_error(), lambda: result.is_error(o)], not ok(m)),
    ]:
        diff(st, what, [(str(i), f) for i, f in enumerate(forms)], lambda: exp, lambda: [], keeper((o, m)))
    match o:
        case Result(tag="ok", ok=x):
            got = MOk(x)
        case Result(tag="error", error=x):
            got = MErr(x)
        case _:
            fail("no case matched", source=m)
    check(type(got) is type(m) and matches(got.v, m.v), "pattern match bound another case or value", source=m, got=got)
    check(o.tag == ("ok" if ok(m) else "error"), "tag does not name the active case", source=m)
    st.step()


EQ = [1, 1.0, True, 0, None, "", "x", (), (1, 2), [], [1]]


def op_eq(ch, st):
    a, ma = res(ch, EQ, tries=False)
    b, mb = res(ch, EQ, tries=False)
    ca, cb_ = a, b
    exp = type(ma) is type(mb) and ma.v == mb.v
    check((a == b) is exp, "== disagrees with case and payload", a=a, b=b)
    check((a != b) is (not exp), "!= disagrees with ==", a=a, b=b)
    if exp:
        try:
            h = hash(a), hash(b)
        except TypeError:
            pass
        else:
            check(h[0] == h[1], "equal results with different hashes", a=a, b=b)
    if type(ma) is not type(mb):
        check((a < b) is ok(ma), "Ok must order before Error", a=a, b=b)
    elif type(ma.v) is int and type(mb.v) is int:
        check((a < b) is (ma.v < mb.v), "results of the same case must order by payload", a=a, b=b)
    if ok(ma):
        t = Success(ma.v)
        check((t == b) is exp and (b == t) is exp, "a Try and the corresponding Result differ in equality", a=t, b=b)
        check(isinstance(t, Try) and isinstance(t, Result), "Success is not a Try")
    st.step()


OPS = [op_map, op_map_error, op_map2, op_apply, op_bind, op_default, op_default_with, op_filter, op_filter_with,
       op_or_else, op_or_else_with, op_swap_merge, op_query, op_eq]


def chains(depth):
    half = lambda x: Ok(x // 2) if x % 2 == 0 else Error(x)  # noqa: E731
    mhalf = lambda x: MOk(x // 2) if x % 2 == 0 else MErr(x)  # noqa: E731
    inc = lambda x: x + 1  # noqa: E731
    dec = lambda x: x - 1  # noqa: E731
    pos = lambda x: x > 0  # noqa: E731
    steps = [
        ("map", lambda o: o.map(inc), lambda m: MOk(inc(m.v)) if ok(m) else m),
        ("map_fn", lambda o: pipe(o, result.map(inc)), lambda m: MOk(inc(m.v)) if ok(m) else m),
        ("map_error", lambda o: o.map_error(dec), lambda m: m if ok(m) else MErr(dec(m.v))),
        ("bind", lambda o: o.bind(half), lambda m: mhalf(m.v) if ok(m) else m),
        ("bind_fn", lambda o: pipe(o, result.bind(half)), lambda m: mhalf(m.v) if ok(m) else m),
        ("filter", lambda o: o.filter(pos, 7), lambda m: m if not ok(m) or pos(m.v) else MErr(7)),
        ("filter_with", lambda o: o.filter_with(pos, dec), lambda m: m if not ok(m) or pos(m.v) else MErr(dec(m.v))),
        ("swap", lambda o: o.swap(), lambda m: MErr(m.v) if ok(m) else MOk(m.v)),
        ("or", lambda o: o.or_else(Ok(5)), lambda m: m if ok(m) else MOk(5)),
        ("orE", lambda o: o.or_else(Error(6)), lambda m: m if ok(m) else MErr(6)),
        ("orw", lambda o: o.or_else_with(half), lambda m: m if ok(m) else mhalf(m.v)),
        ("map2", lambda o: o.map2(Ok(1), lambda a, b: a - b), lambda m: MOk(m.v - 1) if ok(m) else m),
        ("map2E", lambda o: o.map2(Error(9), lambda a, b: a - b), lambda m: MErr(9) if ok(m) else m),
        ("apply", lambda o: o.apply(Ok(inc)), lambda m: MOk(inc(m.v)) if ok(m) else m),
        ("via", lambda o: o.to_option().to_result(3), lambda m: m if ok(m) else MErr(3)),
    ]

    def body(ch, st):
        i = ch.choose(8)
        v = i % 3 - 1
        o, m = [(Ok(v), MOk(v)), (Error(v), MErr(v)), (Success(v), MOk(v))][i // 3]
        hist = []
        for _ in range(depth):
            name, f, g = steps[ch.choose(len(steps))]
            hist.append(name)
            o2, m2 = f(o), g(m)
            if not matches(o2, m2):
                fail("chain of operations", start=(i, v), chain=hist, got=o2, expected=m2)
            if not matches(o, m):
                fail("chain of operations changed its input", chain=hist, got=o, expected=m)
            o, m = o2, m2
            st.step()
        st.outcome((ok(m), m.v))

    return body


def single(ch, st):
    OPS[ch.choose(len(OPS))](ch, st)
    st.outcome(tuple(ch.taken[:3]))


def sections(tier):
    d = 4 if tier == "quick" else 5
    return variants([
        Section("operations", body=single, shards=len(OPS), bounds="every operation x source x operand x callback"),
        Section("chains", body=chains(d), shards=8, bounds=f"all operation chains of length {d}"),
    ], ('operations',), __name__, ('stop', 'base', 'exit'))
