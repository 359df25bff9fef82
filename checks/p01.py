"""P01: Option obeys the option algebra for every payload, callback and chain."""
import collections

from expression import Nothing, Option, Some, option, pipe

from mc.core import Section, check, fail
from mc.values import BOOMS_ALL, NONE, Boom, Exc, Hostile, Ident, Just, Rec, alphabet, diff, matches, small, variants

BOUNDS = ("sources: Nothing and Some(v) for a 29-value alphabet (falsy, None, NaN, nested Option/Result, unhashable, "
          "hostile, exception and callable payloads); callbacks: identity, constants, raising; all binary operand "
          "combinations; all operation chains up to depth 4 (quick) / 5 (thorough) over 14 operations")
ASSUMPTIONS = ["payload values outside the alphabet are treated alike (the code never inspects payloads; a hostile "
               "payload that raises on inspection is part of the alphabet)"]

BOOM = Boom("callback")


def opt(ch, vals=None):
    vals = alphabet() if vals is None else vals
    i = ch.choose(len(vals) + 1)
    if i == 0:
        return Nothing, NONE
    v = vals[i - 1]
    return Some(v), Just(v)


def unary_cb(ch):
    """Factory of fresh mapper callbacks: identity, constants, raising."""
    s = small()
    i = ch.choose(len(s) + 2)
    if i == 0:
        return lambda: Rec(lambda x: x)
    if i == 1:
        return lambda: Rec(exc=BOOM)
    v = s[i - 2]
    return lambda: Rec(lambda x: v)


def keeper(*pairs):
    def keep(what):
        for o, m in pairs:
            if not matches(o, m):
                fail(f"{what}: changed its input", now=o, before=m)
    return keep


def op_map(ch, st):
    o, m = opt(ch)
    cb = unary_cb(ch)
    diff(st, "map", [
        ("method", lambda f: o.map(f)),
        ("function", lambda f: option.map(f)(o)),
        ("pipe", lambda f: pipe(o, option.map(f))),
        ("fluent", lambda f: o.pipe(option.map(f))),
        ("kw", lambda f: option.map(mapper=f)(o)),
    ], lambda f: NONE if m is NONE else Just(f(m.v)), lambda: [cb()], keeper((o, m)))


def op_map2(ch, st):
    o, m = opt(ch, small())
    p, n = opt(ch, small())
    kind = ch.choose(3)
    mk = [lambda: Rec(lambda a, b: (a, b)), lambda: Rec(exc=BOOM), lambda: Rec(lambda a, b: None)][kind]
    diff(st, "map2", [
        ("method", lambda f: o.map2(f, p)),
        ("function", lambda f: option.map2(f)(o)(p)),
    ], lambda f: Just(f(m.v, n.v)) if m is not NONE and n is not NONE else NONE, lambda: [mk()], keeper((o, m), (p, n)))
    # an option with itself
    diff(st, "map2 with itself", [
        ("method", lambda f: o.map2(f, o)),
        ("function", lambda f: option.map2(f)(o)(o)),
    ], lambda f: Just(f(m.v, m.v)) if m is not NONE else NONE, lambda: [mk()], keeper((o, m)))
    diff(st, "or_else itself", [
        ("method", lambda: o.or_else(o)), ("lazy", lambda: o.or_else_with(lambda: o)), ("function", lambda: option.or_else(o, o)),
    ], lambda: m, lambda: [], keeper((o, m)))


def op_apply(ch, st):
    o, m = opt(ch)
    if ch.flag():
        cb = unary_cb(ch)
        diff(st, "apply", [
            ("method", lambda f: o.apply(Some(f))),
            ("function", lambda f: option.apply(Some(f))(o)),
        ], lambda f: NONE if m is NONE else Just(f(m.v)), lambda: [cb()], keeper((o, m)))
    else:
        diff(st, "apply Nothing", [
            ("method", lambda: o.apply(Nothing)),
            ("function", lambda: option.apply(Nothing)(o)),
        ], lambda: NONE, lambda: [], keeper((o, m)))


Point = collections.namedtuple("Point", "x y")
TUPLES = [(), (1,), (None, 0), ("", [], Nothing), ((1, 2), (3,)), (1, 2, 3, 4, 5), Point(0, None), tuple(range(40)), [1, None]]


def op_starmap(ch, st):
    i = ch.choose(len(TUPLES) + 1)
    o, m = (Nothing, NONE) if i == 0 else (Some(TUPLES[i - 1]), Just(Ident(TUPLES[i - 1])))
    mk = [lambda: Rec(lambda *a: a), lambda: Rec(exc=BOOM), lambda: Rec(lambda *a: None)][ch.choose(3)]
    diff(st, "starmap", [
        ("method", lambda f: o.starmap(f)),
        ("function", lambda f: option.starmap(f)(o)),
    ], lambda f: NONE if m is NONE else Just(f(*m.v.v)), lambda: [mk()], keeper((o, m)))


def op_bind(ch, st):
    o, m = opt(ch)
    s = small()
    i = ch.choose(len(s) + 3)
    if i == 0:
        mk = lambda: (Rec(lambda x: Some(x)), Rec(lambda x: Just(x)))  # noqa: E731
    elif i == 1:
        mk = lambda: (Rec(lambda x: Nothing), Rec(lambda x: NONE))  # noqa: E731
    elif i == 2:
        mk = lambda: (Rec(exc=BOOM), Rec(exc=BOOM))  # noqa: E731
    else:
        v = s[i - 3]
        mk = lambda: (Rec(lambda x: Some(v)), Rec(lambda x: Just(v)))  # noqa: E731
    forms = [("method", lambda f: o.bind(f)), ("function", lambda f: option.bind(f)(o)),
             ("pipe", lambda f: pipe(o, option.bind(f)))]
    for name, form in forms:
        real, model = mk()
        exp = None
        try:
            exp = NONE if m is NONE else model(m.v)
        except BOOMS_ALL as e:
            exp = Exc(e)
        from mc.values import agree, outcome, same_calls
        agree(outcome(form, real), exp, f"bind [{name}]", source=m)
        same_calls(real.calls, model.calls, "bind")
        keeper((o, m))("bind")
        st.step()


def op_default(ch, st):
    o, m = opt(ch)
    d = ch.pick(alphabet())
    diff(st, "default_value", [
        ("method", lambda x: o.default_value(x)),
        ("function", lambda x: option.default_value(x)(o)),
        ("default_arg", lambda x: option.default_arg(o, x)),
    ], lambda x: x if m is NONE else m.v, lambda: [d], keeper((o, m)))


def op_default_with(ch, st):
    o, m = opt(ch)
    s = small()
    i = ch.choose(len(s) + 1)
    mk = (lambda: Rec(exc=BOOM)) if i == 0 else (lambda: Rec(lambda: s[i - 1]))
    diff(st, "default_with", [
        ("method", lambda f: o.default_with(f)),
        ("function", lambda f: option.default_with(f)(o)),
    ], lambda f: f() if m is NONE else m.v, lambda: [mk()], keeper((o, m)))


def op_or_else(ch, st):
    o, m = opt(ch)
    p, n = opt(ch)
    diff(st, "or_else", [
        ("method", lambda: o.or_else(p)),
        ("function", lambda: option.or_else(o, p)),
    ], lambda: n if m is NONE else m, lambda: [], keeper((o, m), (p, n)))


def op_or_else_with(ch, st):
    o, m = opt(ch)
    from mc.values import agree, outcome
    i = ch.choose(2)
    if i:
        r = Rec(exc=BOOM)
        exp = Exc(BOOM) if m is NONE else m
    else:
        p, n = opt(ch, small())
        r = Rec(lambda: p)
        exp = n if m is NONE else m
    agree(outcome(o.or_else_with, r), exp, "or_else_with", source=m)
    check(len(r.calls) == (1 if m is NONE else 0), "or_else_with: alternative evaluated although not needed (or not once)",
          source=m, calls=r.calls)
    st.step()


TRUTHY = [True, False, 1, 0, "", "x", None, [], [0]]


def op_filter(ch, st):
    o, m = opt(ch)
    i = ch.choose(len(TRUTHY) + 1)
    mk = (lambda: Rec(exc=BOOM)) if i == 0 else (lambda: Rec(lambda x: TRUTHY[i - 1]))
    diff(st, "filter", [("method", lambda f: o.filter(f))],
         lambda f: m if m is not NONE and f(m.v) else NONE, lambda: [mk()], keeper((o, m)))


def op_query(ch, st):
    o, m = opt(ch)
    has = m is not NONE
    none = not has
    for what, forms, exp in [
        ("is_some", [lambda: o.is_some(), lambda: option.is_some(o)], has),
        ("is_none", [lambda: o.is_none(), lambda: option.is_none(o)], none),
    ]:
        diff(st, what, [(str(i), f) for i, f in enumerate(forms)], lambda: exp, lambda: [], keeper((o, m)))
    diff_value(o, m)
    st.step()


def diff_value(o, m):
    try:
        v = o.value
    except ValueError:
        check(m is NONE, "value: raised although there is a value", source=m)
        return
    check(m is not NONE, "value: returned something for Nothing", got=v)
    check(matches(v, m.v), "value: wrong value", got=v, expected=m)


def op_match(ch, st):
    """Structural pattern matching sees exactly the active case."""
    o, m = opt(ch)
    match o:
        case Option(tag="some", some=x):
            got = Just(x)
        case Option(tag="none"):
            got = NONE
        case _:
            fail("no case matched", source=m)
    check((got is NONE) == (m is NONE), "pattern match took the wrong case", source=m)
    if got is not NONE:
        check(matches(got.v, m.v), "pattern match bound another value", source=m, got=got)
    check(o.tag == ("none" if m is NONE else "some"), "tag does not name the active case", source=m, tag=o.tag)
    st.step()


EQ = [1, 1.0, True, 0, None, "", "x", (), (1, 2), [], [1]]


def op_eq(ch, st):
    """Equality, hash and order follow the case and the payload."""
    vals = EQ + [Some(1), Nothing, Some(Nothing), Some(Some(1))]
    a, ma = opt(ch, vals)
    b, mb = opt(ch, vals)
    exp = (ma is NONE and mb is NONE) or (ma is not NONE and mb is not NONE and ma.v == mb.v)
    check((a == b) is exp, "== disagrees with case and payload", a=a, b=b)
    check((a != b) is (not exp), "!= disagrees with ==", a=a, b=b)
    if exp:
        try:
            h = hash(a), hash(b)
        except TypeError:
            pass
        else:
            check(h[0] == h[1], "equal options with different hashes", a=a, b=b)
    if (ma is NONE) != (mb is NONE):
        check((a < b) is (ma is NONE), "Nothing must order before Some", a=a, b=b)
    elif ma is not NONE and type(ma.v) is int and type(mb.v) is int:
        check((a < b) is (ma.v < mb.v), "Some values must order by payload", a=a, b=b)
    check((a == (ma.v if ma is not NONE else None)) is False or isinstance(getattr(ma, "v", None), Option),
          "an option equals its bare payload", a=a)
    st.step()


OPS = [op_map, op_map2, op_apply, op_starmap, op_bind, op_default, op_default_with, op_or_else, op_or_else_with,
       op_filter, op_query, op_match, op_eq]


def chains(depth):
    half = lambda x: Some(x // 2) if x % 2 == 0 else Nothing  # noqa: E731
    mhalf = lambda x: Just(x // 2) if x % 2 == 0 else NONE  # noqa: E731
    inc = lambda x: x + 1  # noqa: E731
    pos = lambda x: x > 0  # noqa: E731
    mm = lambda m, f: NONE if m is NONE else Just(f(m.v))  # noqa: E731
    steps = [
        ("map", lambda o: o.map(inc), lambda m: mm(m, inc)),
        ("map_fn", lambda o: pipe(o, option.map(inc)), lambda m: mm(m, inc)),
        ("zero", lambda o: o.map(lambda _: 0), lambda m: mm(m, lambda _: 0)),
        ("bind", lambda o: o.bind(half), lambda m: NONE if m is NONE else mhalf(m.v)),
        ("bind_fn", lambda o: pipe(o, option.bind(half)), lambda m: NONE if m is NONE else mhalf(m.v)),
        ("filter", lambda o: o.filter(pos), lambda m: m if m is not NONE and pos(m.v) else NONE),
        ("or5", lambda o: o.or_else(Some(5)), lambda m: Just(5) if m is NONE else m),
        ("orN", lambda o: o.or_else(Nothing), lambda m: m),
        ("orw", lambda o: o.or_else_with(lambda: Some(0)), lambda m: Just(0) if m is NONE else m),
        ("map2", lambda o: o.map2(lambda a, b: a - b, Some(1)), lambda m: mm(m, lambda a: a - 1)),
        ("map2N", lambda o: o.map2(lambda a, b: a - b, Nothing), lambda m: NONE),
        ("apply", lambda o: o.apply(Some(inc)), lambda m: mm(m, inc)),
        ("wrap", lambda o: Some(o).bind(lambda x: x), lambda m: m),
        ("via", lambda o: Option.of_result(o.to_result("e")), lambda m: m),
    ]

    def body(ch, st):
        v = ch.choose(5)
        o, m = (Nothing, NONE) if v == 0 else (Some(v - 2), Just(v - 2))
        hist = []
        for _ in range(depth):
            name, f, g = steps[ch.choose(len(steps))]
            hist.append(name)
            o2, m2 = f(o), g(m)
            if not matches(o2, m2):
                fail("chain of operations", chain=hist, got=o2, expected=m2)
            if not matches(o, m):
                fail("chain of operations changed its input", chain=hist, got=o, expected=m)
            o, m = o2, m2
            st.step()
        st.outcome((m is NONE, getattr(m, "v", None)))

    return body


def single(ch, st):
    OPS[ch.choose(len(OPS))](ch, st)
    st.outcome(tuple(ch.taken[:2]))


def sections(tier):
    d = 4 if tier == "quick" else 5
    return variants([
        Section("operations", body=single, shards=len(OPS), bounds="every operation x source x operand x callback"),
        Section("chains", body=chains(d), shards=5, bounds=f"all operation chains of length {d}"),
    ], ('operations',), __name__, ('stop', 'base', 'exit'))
