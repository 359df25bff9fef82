"""P03: conversions between Option, Result, None, lists and sequences lose and invent nothing."""
from expression import Error, Nothing, Ok, Option, Result, Some, Success, Failure, option, result
from expression.collections import Block, Seq, block

from mc.core import Section, check, fail
from mc.values import NONE, Boom, Exc, Just, MErr, MOk, Rec, SeqOf, agree, alphabet, diff, matches, outcome, same_calls, variants

BOUNDS = "every conversion x every source over the 29-value alphabet x every error value; all round trips of conversions up to length 4 (quick) / 6"
ASSUMPTIONS = ["payload values outside the alphabet are treated alike"]
BOOM = Boom("callback")


def op_optional(ch, st):
    v = ch.pick(alphabet())
    exp = NONE if v is None else Just(v)
    diff(st, "of_optional", [
        ("Option.of_optional", lambda x: Option.of_optional(x)),
        ("Option.of_obj", lambda x: Option.of_obj(x)),
        ("option.of_optional", lambda x: option.of_optional(x)),
        ("option.of_obj", lambda x: option.of_obj(x)),
    ], lambda x: exp, lambda: [v])
    diff(st, "to_optional(of_optional(x))", [("", lambda x: option.to_optional(Option.of_optional(x)))],
         lambda x: x, lambda: [v])


def _opt(ch):
    a = alphabet()
    i = ch.choose(len(a) + 1)
    return (Nothing, NONE) if i == 0 else (Some(a[i - 1]), Just(a[i - 1]))


def op_option_out(ch, st):
    o, m = _opt(ch)
    has = m is not NONE
    items = [m.v] if has else []
    diff(st, "to_optional", [("method", lambda: o.to_optional()), ("function", lambda: option.to_optional(o))],
         lambda: m.v if has else None, lambda: [])
    diff(st, "to_list", [("method", lambda: o.to_list()), ("function", lambda: option.to_list(o))],
         lambda: list(items), lambda: [])
    diff(st, "to_seq", [("method", lambda: o.to_seq()), ("function", lambda: option.to_seq(o))],
         lambda: SeqOf(items, Seq), lambda: [])
    diff(st, "Block.of_option", [("static", lambda: Block.of_option(o)), ("function", lambda: block.of_option(o))],
         lambda: SeqOf(items, Block), lambda: [])
    s = o.to_seq()
    check(matches(list(s), items) and matches(list(s), items), "to_seq: iterating twice gives different elements", source=m)
    l1 = o.to_list()
    l1.append(99)
    check(matches(o.to_list(), items) and matches(o, m), "to_list: the returned list is shared", source=m)
    st.step(2)


def op_to_result(ch, st):
    o, m = _opt(ch)
    e = ch.pick(alphabet())
    exp = MOk(m.v) if m is not NONE else MErr(e)
    diff(st, "to_result", [
        ("method", lambda: o.to_result(e)),
        ("function", lambda: option.to_result(o, e)),
        ("result.of_option", lambda: result.of_option(o, e)),
        ("Result.of_option", lambda: Result.of_option(o, e)),
    ], lambda: exp, lambda: [])


def op_to_result_with(ch, st):
    o, m = _opt(ch)
    vals = alphabet()
    i = ch.choose(len(vals) + 1)
    mk = (lambda: Rec(exc=BOOM)) if i == 0 else (lambda: Rec(lambda: vals[i - 1]))
    diff(st, "to_result_with", [
        ("method", lambda f: o.to_result_with(f)),
        ("function", lambda f: option.to_result_with(o, f)),
        ("result.of_option_with", lambda f: result.of_option_with(o, f)),
        ("Result.of_option_with", lambda f: Result.of_option_with(o, f)),
    ], lambda f: MOk(m.v) if m is not NONE else MErr(f()), lambda: [mk()])


def op_of_result(ch, st):
    v = ch.pick(alphabet())
    kind = ch.choose(4)
    r = [Ok, Error, Success, Failure][kind](v)
    exp = Just(v) if kind in (0, 2) else NONE
    diff(st, "result to option", [
        ("Option.of_result", lambda: Option.of_result(r)),
        ("option.of_result", lambda: option.of_result(r)),
        ("method", lambda: r.to_option()),
        ("result.to_option", lambda: result.to_option(r)),
    ], lambda: exp, lambda: [])


OPS = [op_optional, op_option_out, op_to_result, op_to_result_with, op_of_result]


def single(ch, st):
    OPS[ch.choose(len(OPS))](ch, st)
    st.outcome(tuple(ch.taken))


def trips(depth):
    """All conversion chains; model: the set of information that must survive."""
    steps = {
        "O": [
            ("R", "to_result", lambda o: o.to_result("E"), lambda m: MOk(m.v) if m is not NONE else MErr("E")),
            ("R", "of_option_with", lambda o: result.of_option_with(o, lambda: "W"),
             lambda m: MOk(m.v) if m is not NONE else MErr("W")),
            ("O", "list", lambda o: Block(o.to_list()).try_head(), lambda m: m),
            ("O", "seq", lambda o: Block.of_seq(o.to_seq()).try_head(), lambda m: m),
            ("O", "block", lambda o: block.of_option(o).try_head(), lambda m: m),
            ("O", "nest", lambda o: Some(o).bind(lambda x: x), lambda m: m),
            ("O", "optional", lambda o: Option.of_optional(o.to_optional()),
             lambda m: NONE if m is NONE or m.v is None else m),
        ],
        "R": [
            ("O", "to_option", lambda r: r.to_option(), lambda m: Just(m.v) if isinstance(m, MOk) else NONE),
            ("O", "of_result", lambda r: Option.of_result(r), lambda m: Just(m.v) if isinstance(m, MOk) else NONE),
            ("O", "swap", lambda r: r.swap().to_option(), lambda m: Just(m.v) if isinstance(m, MErr) else NONE),
        ],
    }

    def body(ch, st):
        o, m = _opt(ch)
        kind, hist = "O", []
        for _ in range(depth):
            k2, name, f, g = steps[kind][ch.choose(len(steps[kind]))]
            hist.append(name)
            o, m, kind = f(o), g(m), k2
            if not matches(o, m):
                fail("conversion chain", chain=hist, got=o, expected=m)
            st.step()
        st.outcome((kind, repr(m)))

    return body


def sections(tier):
    d = 4 if tier == "quick" else 6
    return variants([
        Section("conversions", body=single, shards=len(OPS), bounds="every conversion x every value"),
        Section("round-trips", body=trips(d), shards=8, bounds=f"all conversion chains of length {d}"),
    ], ('conversions',), __name__, ('stop', 'base'))
