"""P18: parser combinators accept and return exactly what the grammar says."""
import functools
import itertools
import re
import string

from expression import Error, Nothing, Result, Some, pipe
from expression.collections import Block
from expression.extra import parser as P
from expression.extra.parser import Parser

from mc.core import Section, check, fail
from mc.values import NONE, Boom, Exc, Hostile, Just, SeqOf, agree, alphabet, matches, outcome, small, variants

BOUNDS = ("all grammars of depth 1 over 8 leaves and of depth 2 (depth-1 operand beside a leaf; thorough: beside any depth-1 operand) over 5 "
          "leaves, 6 unary and 13 binary combinators in function and method form, on all strings over {a,b} up to length 4 and from every "
          "start position; number, letter, blank and delimiter parsers on all strings over 6 characters up to length 5; a recursive grammar "
          "on all bracket strings up to length 8; inputs, literals, sequences and choices up to 70000 characters/parsers; strings of up to 2 "
          "(quick) / 3 (thorough) out of 27 odd characters")
ASSUMPTIONS = ["which error message a failing parser reports is not judged", "the values many() collects from a parser that succeeds without "
               "consuming input are not judged (termination and position are)"]
T = "thorough"
BOOM = Boom("mapper")


# -- grammar terms: tuples; build(g, form) -> Parser, ref(g, s, i) -> None | (value, j)
LEAVES = [("char", "a"), ("char", "b"), ("str", "ab"), ("any", "ab"), ("ret", 7), ("fail",), ("str", ""), ("any", "b")]
UN = ["map", "opt", "many", "many1", "ignore", "bindret"]
BIN = ["and", "or", "ithen", "theni", "sep", "sep1", "bind", "apply", "lift2", "seq", "choice", "betw", "seq3"]


@functools.cache
def nullable(g):
    """Can g succeed without consuming?"""
    k = g[0]
    if k == "char" or k == "any":
        return False
    if k == "str":
        return g[1] == ""
    if k == "ret":
        return True
    if k == "fail":
        return False
    if k in ("map", "ignore", "many1", "bindret"):
        return nullable(g[1])
    if k in ("opt", "many"):
        return True
    if k in ("and", "ithen", "theni", "apply", "lift2", "seq", "bind"):
        return nullable(g[1]) and nullable(g[2])
    if k in ("or", "choice"):
        return nullable(g[1]) or nullable(g[2])
    if k == "sep":
        return True
    if k == "sep1":
        return nullable(g[1])
    if k in ("betw", "seq3"):
        return nullable(g[1]) and nullable(g[2])
    raise AssertionError(k)


@functools.cache
def judged(g):
    """False where many() meets a parser that may succeed on nothing: values are not judged there."""
    if g[0] in ("many", "many1") and nullable(g[1]):
        return False
    if g[0] in ("sep", "sep1") and nullable(g[1]) and nullable(g[2]):
        return False
    return all(judged(x) for x in g[1:] if isinstance(x, tuple))


def ref(g, s, i):
    k = g[0]
    if k == "char":
        return (g[1], i + 1) if i < len(s) and s[i] == g[1] else None
    if k == "any":
        return (s[i], i + 1) if i < len(s) and s[i] in g[1] else None
    if k == "str":
        return (g[1], i + len(g[1])) if s.startswith(g[1], i) else None
    if k == "ret":
        return (g[1], i)
    if k == "fail":
        return None
    if k == "map":
        r = ref(g[1], s, i)
        return r and (("m", r[0]), r[1])
    if k == "ignore":
        r = ref(g[1], s, i)
        return r and (None, r[1])
    if k == "bindret":
        r = ref(g[1], s, i)
        return r and (("b", r[0]), r[1])
    if k == "opt":
        r = ref(g[1], s, i)
        return (Just(r[0]), r[1]) if r else (NONE, i)
    if k in ("many", "many1"):
        out = []
        r = ref(g[1], s, i)
        if k == "many1":
            if r is None:
                return None
            out.append(r[0])
            i = r[1]
            r = ref(g[1], s, i)
        while r is not None and r[1] > i:
            out.append(r[0])
            i = r[1]
            r = ref(g[1], s, i)
        return (SeqOf(out, Block), i)
    if k in ("and", "ithen", "theni", "apply", "lift2", "seq"):
        a = ref(g[1], s, i)
        if a is None:
            return None
        b = ref(g[2], s, a[1])
        if b is None:
            return None
        v = {"and": (a[0], b[0]), "ithen": b[0], "theni": a[0], "apply": ("ap", a[0], b[0]), "lift2": ("l2", a[0], b[0]),
             "seq": SeqOf([a[0], b[0]], Block)}[k]
        return (v, b[1])
    if k in ("or", "choice"):
        return ref(g[1], s, i) or ref(g[2], s, i)
    if k == "bind":
        a = ref(g[1], s, i)
        if a is None:
            return None
        b = ref(g[2] if a[1] - i != 1 else ("ret", "one"), s, a[1]) if False else ref(g[2], s, a[1])
        return b and ((a[0], b[0]), b[1])
    if k == "betw":
        a = ref(g[1], s, i)
        b = a and ref(g[2], s, a[1])
        c = b and ref(g[1], s, b[1])
        return c and (b[0], c[1])
    if k == "seq3":
        a = ref(g[1], s, i)
        b = a and ref(g[2], s, a[1])
        c = b and ref(g[1], s, b[1])
        return c and (SeqOf([a[0], b[0], c[0]], Block), c[1])
    if k in ("sep", "sep1"):
        a = ref(g[1], s, i)
        if a is None:
            return (SeqOf([], Block), i) if k == "sep" else None
        out, j = [a[0]], a[1]
        while True:
            b = ref(g[2], s, j)
            c = b and ref(g[1], s, b[1])
            if not c or c[1] == j:
                break
            out.append(c[0])
            j = c[1]
        return (SeqOf(out, Block), j)
    raise AssertionError(k)


_built = {}


def build(g, form):
    """Parsers are built once and shared by every grammar that contains them."""
    p = _built.get((g, form))
    if p is None:
        p = _built[g, form] = _build(g, form)
        if len(_built) > 60000:
            _built.clear()
    return p


def _build(g, form):
    k = g[0]
    if k == "char":
        return Parser.pchar(g[1]) if form else P.pchar(g[1])
    if k == "any":
        return Parser.any_of(g[1]) if form else P.any_of(g[1])
    if k == "str":
        return P.pstring(g[1])
    if k == "ret":
        return P.preturn(g[1])
    if k == "fail":
        return Parser.fail("no") if form else P.fail("no")
    a = build(g[1], form)
    if len(g) == 2:
        if k == "map":
            return a.map(lambda v: ("m", v)) if form else P.map(lambda v: ("m", v))(a)
        if k == "opt":
            return a.opt() if form else P.opt(a)
        if k == "many":
            return P.many(a)
        if k == "many1":
            return P.many1(a)
        if k == "ignore":
            return a.ignore() if form else P.ignore(a)
        if k == "bindret":
            f = lambda v: P.preturn(("b", v))  # noqa: E731
            return a.bind(f) if form else P.bind(f)(a)
    b = build(g[2], form)
    if k == "and":
        return a.and_then(b) if form else P.and_then(b)(a)
    if k == "or":
        return a.or_else(b) if form else P.or_else(a)(b)
    if k == "ithen":
        return a.ignore_then(b) if form else P.ignore_then(b)(a)
    if k == "theni":
        return a.then_ignore(b) if form else P.then_ignore(b)(a)
    if k == "sep":
        return P.sep_by(a, b)
    if k == "sep1":
        return P.sep_by1(a, b)
    if k == "bind":
        f = lambda v: b.map(lambda w: (v, w)) if form else P.map(lambda w: (v, w))(b)  # noqa: E731
        return a.bind(f) if form else P.bind(f)(a)
    if k == "apply":
        fp = P.map(lambda v: lambda w: ("ap", v, w))(a)
        return P.apply(fp, b)
    if k == "lift2":
        if form:
            return a.and_then(b).starmap(lambda v, w: ("l2", v, w))
        return P.lift2(lambda v: lambda w: ("l2", v, w))(a)(b)
    if k == "seq":
        return P.sequence(Block([a, b]))
    if k == "choice":
        return P.choice(Block([a, b]))
    if k == "betw":
        return b.between(a, a) if form else P.between(a)(a)(b)
    if k == "seq3":
        return P.sequence(Block([a, b, a])) if form else P.sequence(Block.of(a, b, a))
    raise AssertionError(k)


STR4 = ["".join(t) for n in range(5) for t in itertools.product("ab", repeat=n)]
STR3 = [s for s in STR4 if len(s) <= 3]


def run_at(p, s, i, g, exp, value=True):
    r = p.run((s, i)) if i else p.run((s, 0))
    if not isinstance(r, Result):
        fail("a parser did not return a Result", got=r)
    if exp is None:
        if not r.is_error():
            fail("accepted what the grammar rejects", grammar=g, input=s, start=i, got=r)
        return
    if not r.is_ok():
        fail("rejected what the grammar accepts", grammar=g, input=s, start=i, got=r)
    v, (s2, j) = r.ok
    if s2[j:] != s[exp[1]:]:
        fail("wrong unread rest", grammar=g, input=s, start=i, rest=s2[j:], expected=s[exp[1]:])
    if value and not matches(v, exp[0]):
        fail("wrong value", grammar=g, input=s, start=i, got=v, expected=exp[0])


def decide(st, g, strings, forms=(0, 1), offsets=False):
    value = judged(g)
    for form in forms:
        p = build(g, form)
        for s in strings:
            exp = ref(g, s, 0)
            run_at(p, s, 0, g, exp, value)
            st.step()
        s = strings[-1]
        if offsets:
            for s in strings:
                for i in range(1, len(s) + 1):
                    run_at(p, s, i, g, ref(g, s, i), value)
                c = p(s)
                exp = ref(g, s, 0)
                check(c.is_ok() is (exp is not None), "p(input) and p.run disagree", grammar=g, input=s)
                if exp and value:
                    check(matches(c.ok, exp[0]), "p(input): wrong value", grammar=g, input=s, got=c.ok)
                st.step()


def depth1(leaves):
    out = [(u, a) for u in UN for a in leaves]
    out += [(b, x, y) for b in BIN for x in leaves for y in leaves]
    return out


def body_depth1(ch, st):
    gs = LEAVES + depth1(LEAVES)
    g = gs[ch.choose(len(gs))]
    decide(st, g, STR4, offsets=True)
    # reuse: the same answers again, whatever ran in between
    decide(st, g, STR3)
    st.outcome(g)


L5 = LEAVES[:3] + [("ret", 7), ("many", ("char", "a"))]


def body_depth2(full):
    d1 = depth1(L5)

    def body(ch, st):
        k = ch.choose(len(d1))
        x = d1[k]
        for u in UN:
            decide(st, (u, x), STR4, forms=(0,) if not full else (0, 1))
        for b in BIN:
            for y in (d1 if full else L5):
                decide(st, (b, x, y), STR3 if not full else STR4, forms=(0,))
                decide(st, (b, y, x), STR3 if not full else STR4, forms=(1,))
        st.outcome(x)
    return body


def body_depth3(ch, st):
    """Unary/choice chains of depth 3 around every depth-1 grammar of two leaves."""
    d1 = depth1(LEAVES[:2])
    x = d1[ch.choose(len(d1))]
    for u in UN:
        for v in UN:
            g = (u, (v, x))
            decide(st, g, STR3, forms=(1,))
            for b in ("or", "and", "sep", "betw"):
                decide(st, (b, g, ("char", "b")), STR3, forms=(0,))
                decide(st, (b, ("char", "a"), g), STR3, forms=(0,))
                decide(st, ("opt", (b, g, ("str", "ab"))), STR3, forms=(0,))
    st.outcome(x)


def regex_parsers():
    D, W = "[0-9]", r"[ \t\n\r\x0b\x0c]"
    return [
        ("pint", P.pint, r"-?[0-9]+", int),
        ("pfloat", P.pfloat, r"-?[0-9]+(\.[0-9]+)?", float),
        ("digits", P.digits, "[0-9]+", list),
        ("parse_digit", P.parse_digit, "[0-9]", str),
        ("parse_lowercase", P.parse_lowercase, "[a-z]", str),
        ("parse_letters", P.parse_letters, "[a-zA-Z]", str),
        ("whitespace", P.whitespace, W + "+", list),
        ("whitespace_char", P.whitespace_char, W, str),
        ("ints", P.sep_by(P.pint, P.pchar(",")), None, None),
    ]


def fn_regex(st, tier, shard):
    chars = "-.0 9x,Zé\t" if tier == T else "-.09x,"
    alls = ["".join(t) for n in range(6) for t in itertools.product("-.09x,", repeat=n)]
    alls += ["".join(t) for n in range(5) for t in itertools.product(" \tZa1\n", repeat=n)]
    alls += ["٣", "²", "1٣", "_", "é", "ß", "\u00a0", "\u2003", "1e5", "+1", "--1", "-", "1" * 40, "-" + "9" * 40 + "." + "5" * 40, "\x0b\x0c\r"]
    # long and short integer and fraction parts, and decimals that lie a hair above a halfway point
    for i, f in itertools.product((1, 2, 3, 8, 9, 15, 16, 17, 18, 19, 20, 25, 40, 300, 400), (0, 1, 2, 9, 15, 16, 17, 18, 19, 20, 30, 50, 400)):
        for a, b in (("1", "1"), ("9", "9"), ("1234567890", "0987654321"), ("0", "0")):
            alls.append((a * i)[:i] + ("." + (b * f)[:f - 1] + "7" if f else ""))
            alls.append("-" + alls[-1])
    for z in range(0, 60):
        alls += ["9007199254740993." + "0" * z + "1", "0." + "0" * z + "1", "1.00000000000000011102230246251565404236316680908203125" + "0" * z + "1x", "4503599627370496.5" + "0" * z + "1"]
    ps = regex_parsers()
    for k, s in enumerate(alls):
        if k % shard[1] != shard[0]:
            continue
        for name, p, rx, conv in ps:
            if rx is None:
                m = re.match(r"-?[0-9]+(,-?[0-9]+)*", s)
                r = p.run((s, 0))
                exp = [int(x) for x in m.group().split(",")] if m else []
                check(r.is_ok() and list(r.ok[0]) == exp and r.ok[1][0][r.ok[1][1]:] == s[m.end() if m else 0:], "comma separated numbers",
                      input=s, got=r)
                continue
            m = re.match(rx, s)
            r = p.run((s, 0))
            check(r.is_ok() is (m is not None), f"{name}: wrong verdict", input=s, got=r)
            if m:
                v, (s2, j) = r.ok
                v = list(v) if conv is list else v
                check(s2[j:] == s[m.end():], f"{name}: wrong rest", input=s, rest=s2[j:])
                check(type(v) is conv and v == conv(m.group()) and (conv is not float or repr(v) == repr(float(m.group()))), f"{name}: wrong value", input=s, got=v)
            st.step()
    st.executions += 1
    st.outcome(shard)


def fn_recursive(st, tier):
    """expr = '(' expr ')' expr | 'x' expr | nothing, built with a forward reference."""
    slot = []
    expr = Parser(lambda inp: slot[0].run(inp))
    nested = P.between(P.pchar("("))(P.pchar(")"))(expr)
    one = nested.map(lambda v: ("n", v)).or_else(P.pchar("x"))
    slot.append(P.many(one))

    def rec(s, i):
        out = []
        while i < len(s):
            if s[i] == "x":
                out.append("x")
                i += 1
            elif s[i] == "(":
                v, j = rec(s, i + 1)
                if j >= len(s) or s[j] != ")":
                    break
                out.append(("n", v))
                i = j + 1
            else:
                break
        return out, i

    def flat(v):
        return [x if x == "x" else ("n", flat(x[1])) for x in v]
    for n in range(9 if tier == T else 8):
        for t in itertools.product("()x", repeat=n):
            s = "".join(t)
            v, j = rec(s, 0)
            r = expr.run((s, 0))
            check(r.is_ok() and flat(r.ok[0]) == v and r.ok[1][0][r.ok[1][1]:] == s[j:], "recursive grammar", input=s, got=r, expected=(v, j))
            st.step()
    for d in (1, 5, 20):
        s = "(" * d + "x" + ")" * d
        r = expr.run((s, 0))
        check(r.is_ok() and r.ok[1][0][r.ok[1][1]:] == "", "nested brackets", depth=d)
    st.executions += 1


def fn_long(st, tier):
    for n in [*range(0, 20), 100, 255, 256, 500, 900, 999, 1000, 1001, 2000, 5000, 20000, 70000]:
        a = "a" * n
        for nm, p, s, v, rest in (
                ("many", P.many(P.pchar("a")), a + "b", ["a"] * n, "b"),
                ("many end", P.many(P.pchar("a")), a, ["a"] * n, ""),
                ("many of or", P.many(P.or_else(P.pchar("b"))(P.pchar("a"))), a, ["a"] * n, ""),
                ("many1", P.many1(P.pchar("a")), "a" + a + "b", ["a"] * (n + 1), "b"),
                ("sep_by", P.sep_by(P.pchar("a"), P.pchar(",")), ",".join(a) + ";", ["a"] * n, ";"),
                ("sequence", P.sequence(Block([P.pchar("a")] * n)), a + "b", ["a"] * n, "b"),
                ("digits", P.digits, "7" * (n + 1) + "x", ["7"] * (n + 1), "x"),
                ("whitespace", P.whitespace, " " * (n + 1) + "x", [" "] * (n + 1), "x")):
            r = outcome(p.run, (s, 0))
            check(r[0] == "ret" and r[1].is_ok(), f"{nm} on {n} characters", got=r)
            got, (s2, j) = r[1].ok
            check(isinstance(got, Block) and list(got) == v and s2[j:] == rest, f"{nm} on {n} characters: wrong result", rest=s2[j:][:20])
            st.step()
        p = P.pstring(a)
        r = p.run((a + "b", 0))
        check(r.is_ok() and r.ok[0] == a and r.ok[1][0][r.ok[1][1]:] == "b", f"pstring of {n} characters")
        if n:
            check(p.run((a[:-1], 0)).is_error() and p.run((a[:-1] + "b", 0)).is_error(), f"pstring of {n} characters accepts a prefix")
        # choices
        if n:
            cs = "".join(chr(1000 + i) for i in range(n))
            q = P.any_of(cs)
            for c in {cs[0], cs[-1], cs[n // 2]}:
                r = outcome(q.run, (c + "z", 0))
                check(r[0] == "ret" and r[1].is_ok() and r[1].ok[0] == c, f"any_of {n} characters", got=r)
            r = outcome(q.run, ("z", 0))
            check(r[0] == "ret" and r[1].is_error(), f"any_of {n} characters: rejects another", got=r)
        if n <= 2000:
            d = ("9" * n) or "0"
            check(P.pint.run(("-" + d, 0)).ok[0] == -int(d) and P.pint(d).ok == int(d), f"pint of {n} digits")
        st.outcome(n)
    # parsers of non-consuming parsers terminate
    for q in (P.preturn(1), P.opt(P.pchar("b")), P.pstring(""), P.many(P.pchar("b")), P.sep_by(P.pchar("b"), P.pchar("b"))):
        for s in STR3:
            r = P.many(q).run((s, 0))
            check(r.is_ok(), "many of a parser that may consume nothing", input=s)
            r2 = P.sep_by(q, P.opt(P.pchar("b"))).run((s, 0))
            check(r2.is_ok(), "sep_by of parsers that may consume nothing", input=s)
            st.step()
    # values travel unchanged; exceptions of user functions propagate
    for v in alphabet():
        if isinstance(v, Hostile):
            pass
        r = P.preturn(v).run(("ab", 1))
        check(r.is_ok() and r.ok[0] is v and r.ok[1] == ("ab", 1), "preturn", value=v)
        r = P.pchar("a").map(lambda _: v).and_then(P.preturn(v))("ab")
        check(r.is_ok() and r.ok[0] is v and r.ok[1] is v, "mapped value", value=v)
        r = P.opt(P.preturn(v))("x")
        check(matches(r.ok, Just(v)), "optional value", value=v)
        r = P.choice(Block([P.fail("x"), P.preturn(v), P.preturn(1)]))("x")
        check(r.ok is v, "choice", value=v)
        r = P.sequence(Block([P.preturn(v), P.preturn(v)]))("x")
        check([*r.ok][0] is v and [*r.ok][1] is v, "sequence", value=v)
        r = P.preturn(v).bind(lambda x: P.preturn(x))("x")
        check(r.ok is v, "bind", value=v)
        st.step(6)
    def boom(*a):
        raise BOOM.with_traceback(None)
    for p in (P.pchar("a").map(boom), P.pchar("a").bind(boom), P.pchar("a").and_then(P.pchar("b")).starmap(boom), P.lift2(boom)(P.pchar("a"))(P.pchar("b")),
              P.many(P.pchar("a").map(boom)), P.opt(P.map(boom)(P.pchar("a"))), P.choice(Block([P.fail(""), P.pchar("a").map(boom)]))):
        agree(outcome(p, "ab"), Exc(BOOM), "exception of a user function")
        check(p("") is not None, "not applied on failure")
    for s1, s2 in itertools.product(("", "a", "ab", "b"), repeat=2):
        p = P.starts_with(P.pstring(s1))(P.pstring(s2)) if callable(P.starts_with) else None
        r = p(s1 + s2)
        check(r.is_ok() and r.ok == s1.startswith(s2), "starts_with", first=s1, second=s2)
    for k in (1, 2, 3, 4, 6):
        r = P.sequence(Block([P.pchar("a")] * k)).starmap(lambda *v: v)("a" * k)
        check(r.ok == ("a",) * k, "starmap of a sequence")
    st.executions += 1


ODDCH = ["a", "A", " ", "\t", "\n", "\x00", "'", '"', "\\", "(", "%", "{", "é", "e\u0301"[1], "ß", "İ", "٣", "²", "\ufeff", "\u200b", "\x1a", "\x7f", "\U0001F600", "\ud800", "0", "-", "."]


def left(r):
    text, pos = r.ok[1]
    return text[pos:]


def fn_texts(st, tier):
    """Characters are just characters: no letter case, blank, quote, accent or digit is special."""
    n = 3 if tier == T else 2
    for k in range(n + 1):
        for t in itertools.product(ODDCH, repeat=k):
            s = "".join(t)
            p = P.pstring(s)
            for text, pos in ((s, 0), (s + s, 0), (s + s, len(s)), ("x" + s + "y", 1), (s + " ", 0)):
                r = p.run((text, pos))
                check(r.is_ok() and r.ok[0] == s and left(r) == text[pos + len(s):], "pstring does not accept its own string", string=s, input=text, got=r)
                if not pos:
                    r = p(text)
                    check(r.is_ok() and r.ok == s, "calling pstring on its own string", string=s, input=text, got=r)
            for text in {s[:-1], s[:-1] + "z", "z" + s, s.upper() if s.upper() != s else "", s.lower() if s.lower() != s else "", s.strip() if s.strip() != s else ""}:
                if not text.startswith(s):
                    check(p.run((text, 0)).is_error() and p(text).is_error(), "pstring accepts another string", string=s, input=text)
            st.step()
        st.outcome(k)
    for c in ODDCH:
        for d in ODDCH:
            for q in (P.pchar(c), P.any_of(c), P.any_of(c + "z"), P.any_of("z" + c), Parser.pchar(c), Parser.any_of(c + c)):
                for text, pos in ((d, 0), (d + "x", 0), ("x" + d, 1)):
                    r = q.run((text, pos))
                    if c == d:
                        check(r.is_ok() and r.ok[0] == c and left(r) == text[pos + 1:], "a character parser does not accept its character", char=c, got=r)
                    else:
                        check(r.is_error(), "a character parser accepts another character", char=c, input=d)
                for text in (d, d + c, d + "x", d + d + c):
                    r = q(text)
                    check(r.is_ok() == (c == d) and (c != d or r.ok == c), "calling a character parser", char=c, input=text, got=r)
            st.step()
    for c in ODDCH + [chr(i) for i in range(256)] + ["０", "Ⅷ", "\u2003", "\u3000", "\u200b", "α", "ａ"]:
        for nm, q, chars in (("digit", P.parse_digit, "0123456789"), ("letter", P.parse_letters, string.ascii_letters), ("lowercase", P.parse_lowercase, string.ascii_lowercase),
                             ("whitespace_char", P.whitespace_char, string.whitespace), ("digits", P.digits, "0123456789"), ("whitespace", P.whitespace, string.whitespace),
                             ("pint", P.pint, "0123456789"), ("pfloat", P.pfloat, "0123456789")):
            r = q.run((c, 0))
            check(r.is_ok() == (c in chars), f"{nm} is wrong about a character", char=c, got=r)
            st.step()
    st.executions += 1


CLASH = [1, True, 1.0, "1", "True", 0, False, "", None, "None", (), [], "[]", Nothing, Some(1), Some(True), -0.0, "a", (1,), (True,)]


def body_clash(ch, st):
    """One parser object meets two results that compare, hash or print alike: each run stands alone."""
    v, w = ch.pick(CLASH), ch.pick(CLASH)
    k = ch.choose(9)
    a, b = P.pchar("a").map(lambda _: v), P.pchar("b").map(lambda _: w)
    base = a.or_else(b)
    seen = []

    def note(x):
        seen.append(x)
        return ("r", x)

    def bound(x):
        seen.append(x)
        return P.preturn(("r", x))

    one = lambda x: ("r", x)  # noqa: E731
    mk = [
        (lambda: base.bind(bound), one), (lambda: P.bind(bound)(base), one), (lambda: base.map(note), one), (lambda: P.map(note)(base), one),
        (lambda: base.and_then(P.preturn(0)).starmap(lambda x, y: note(x)), one), (lambda: P.lift2(lambda x: lambda y: note(x))(base)(P.preturn(0)), one),
        (lambda: P.apply(P.preturn(note), base), one), (lambda: P.opt(base.map(note)), lambda x: Just(("r", x))),
        (lambda: base.bind(bound).and_then(P.preturn(1)), lambda x: (("r", x), 1)),
    ]
    p, exp = mk[k][0](), mk[k][1]
    for s in ("a", "b", "b", "a", "ab", "b"):
        seen.clear()
        x = v if s[0] == "a" else w
        r = p.run((s, 0))
        check(r.is_ok() and matches(r.ok[0], exp(x)) and r.ok[1][0][r.ok[1][1]:] == s[1:], "a result leaked from another run", input=s, got=r, expected=exp(x),
              other=w if s[0] == "a" else v)
        check(len(seen) == 1 and seen[0] is x, "the user function saw another run's value", got=seen, expected=x)
        st.step()
    m = P.many(p)
    for s in ("abab", "bbaa", "ba"):
        r = m.run((s, 0))
        check(r.is_ok() and matches(r.ok[0], SeqOf([exp(v if c == "a" else w) for c in s], Block)), "many of it", input=s, got=r)
        st.step()
    st.outcome((k, CLASH.index(v), repr(w)))


def fn_errors(st, tier):
    """A failure carries what the failing parser said, unchanged, through everything built around it."""
    a, ok = P.pchar("a"), P.preturn(0)
    for msg in ("", "bad", "0", " x ", "é\n", "Expecting", "no more input", "x" * 5000):
        for f in (P.fail(msg), Parser.fail(msg), Parser(lambda inp: Error(msg)), P.bind(lambda v: P.fail(msg))(ok), ok.bind(lambda v: P.fail(msg))):
            ps = {"itself": f, "map": f.map(str), "f map": P.map(str)(f), "and_then": f.and_then(a), "and_then 2": ok.and_then(f), "ignore_then": f.ignore_then(a),
                  "ignore_then 2": ok.ignore_then(f), "then_ignore": f.then_ignore(a), "then_ignore 2": ok.then_ignore(f), "bind": f.bind(lambda v: a), "bind 2": ok.bind(lambda v: f),
                  "or_else": P.fail("other").or_else(f), "choice": P.choice(Block([P.fail("other"), P.fail("third"), f])), "choice 1": P.choice(Block([f])),
                  "sequence": P.sequence(Block([ok, f, P.fail("late")])), "many1": P.many1(f), "sep_by1": P.sep_by1(f, a), "ignore": f.ignore(), "starmap": f.starmap(lambda x, y: x),
                  "between": P.between(ok)(ok)(f), "between 1": P.between(f)(ok)(a), "between 3": P.between(ok)(f)(ok), "apply": P.apply(f, ok), "apply 2": P.apply(P.preturn(str), f),
                  "lift2": P.lift2(lambda x: lambda y: x)(f)(ok)}
            for name, p in ps.items():
                for s in ("", "a", "aa", "b"):
                    for _ in range(2):
                        r = p(s)
                        check(r.is_error() and r.error == msg, f"{name}: the error is not that of the failing parser", message=msg, input=s, got=r)
                        r = p.run((s, 0))
                        check(r.is_error() and r.error == msg, f"{name}: the error is not that of the failing parser", message=msg, input=s, got=r)
                    st.step(2)
            st.outcome((msg[:9],))
    st.executions += 1


def sections(tier):
    t = tier == T
    return variants([
        Section("depth-1", body_depth1, shards=8, bounds="all grammars of one combinator, all strings and offsets"),
        Section("depth-2", body_depth2(t), shards=8, bounds="all grammars of two nested combinators"),
        Section("depth-3", body_depth3, shards=8, bounds="unary chains inside binary combinators"),
        Section("literals", fn=fn_regex, shards=8, bounds="predefined parsers vs regular expressions"),
        Section("recursive", fn=fn_recursive, bounds="bracket grammar on all strings"),
        Section("errors", fn=fn_errors, bounds="25 contexts of a failing parser, 8 messages"),
        Section("clash", body_clash, shards=4, bounds="one parser object, all pairs of look-alike values"),
        Section("texts", fn=fn_texts, bounds="strings of up to 2 (quick) / 3 (thorough) odd characters; every Latin-1 character"),
        Section("long", fn=fn_long, bounds="up to 70000 characters and parsers"),
    ], ('long',), __name__, ('stop', 'base'))
