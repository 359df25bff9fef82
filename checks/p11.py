"""P11: TypedArray behaves as a Python list under every mutation history."""
import itertools
import struct

from expression import Nothing, Some, pipe
from expression.collections import Block
from expression.collections import array as ta
from expression.collections.array import TypeCode, TypedArray

from mc.core import Section, check, fail
from mc.values import NONE, Boom, Hostile, Just, Opaque, Rec, SeqOf, agree, alphabet, diff, matches, outcome, variants, sum_case, tie_cases

BOUNDS = ("every element type code (12) and every typed literal class (11); arrays over 3 values up to length 3 (quick) / 4 "
          "(thorough): every operation, every call form, every count/index/slice in -5..5, callbacks failing at every "
          "position; all histories of 36 mutating/deriving operations up to depth 2 per type and 3 for three representative "
          "types (quick) / 3 and 4 (thorough) with every live array re-read after each step; size ladder 0..70..5000")
ASSUMPTIONS = ["slice assignment of a plain list to a machine-typed array may be refused with TypeError (array unchanged), as "
               "Python's array.array does; the type code of arrays derived from a typed one is not judged, except for filter"]
T = "thorough"
BOOM = Boom("cb")
INTS = {"Byte": (0, 255), "Int8": (-128, 127), "Int16": (-2**15, 2**15 - 1), "Uint8": (0, 255), "Uint16": (0, 2**16 - 1),
        "Int32": (-2**31, 2**31 - 1), "Int64": (-2**63, 2**63 - 1), "Uint32": (0, 2**32 - 1), "Uint64": (0, 2**64 - 1)}
MARK = {"Int8": ta.int8, "Int16": ta.int16, "Int32": ta.int32, "Int64": ta.int64, "Uint8": ta.uint8, "Uint16": ta.uint16,
        "Uint32": ta.uint32, "Uint64": ta.uint64, "Float": ta.float32, "Double": ta.float64, "Double2": ta.double}
WORD = {"Int32", "Uint32"}  # held in a C long: the range is at least 32 bits


def conv(code, v):
    """What reading back gives for a stored legal value."""
    if code in INTS:
        return int(v)
    if code == "Float":
        return struct.unpack("f", struct.pack("f", v))[0]
    if code == "Double":
        return float(v)
    return v


OBJ = Opaque("o")


def legal(code):
    if code in INTS:
        lo, hi = INTS[code]
        return [hi, lo, 1]
    if code in ("Float", "Double"):
        return [0.1, -2.5, 1e30]
    return [OBJ, None, ""]


def illegal(code):
    if code in INTS:
        lo, hi = INTS[code]
        out = ["x", None, 1.5, [1]]
        return out if code in WORD else out + [hi + 1, lo - 1]
    if code in ("Float", "Double"):
        return ["x", None, [1.0]]
    return []


def tc(code):
    return getattr(TypeCode, code)


CODES = [*INTS, "Float", "Double", "Any"]


def L(xs):
    return SeqOf(xs, TypedArray)


def holds(t, xs, what):
    got = list(t)
    if len(t) != len(xs) or not matches(got, list(xs)):
        fail(f"{what}: wrong contents", got=got, expected=xs)
    for i in range(len(xs)):
        if not matches(t[i], xs[i]) or not matches(t[i - len(xs)], xs[i]):
            fail(f"{what}: item {i} differs", got=t[i], expected=xs[i])


class Pos:
    def __init__(self, fn, fail_at=None):
        self.fn, self.fail_at = fn, fail_at

    def fresh(self):
        c = [0]

        def f(*a):
            i = c[0]
            c[0] += 1
            if i == self.fail_at:
                raise BOOM.with_traceback(None)
            return self.fn(i, *a)
        return Rec(f)


def run_ops(st, t, xs, code, wide=True):
    n = len(xs)
    xs = list(xs)

    def keep(what):
        if list(t) != xs and not matches(list(t), xs):
            fail(f"{what}: the source array changed", now=list(t), before=xs)

    def d(what, forms, ref, mk=lambda: []):
        diff(st, f"{what} on {code} {xs!r}" if n < 8 else f"{what} on {n} {code}", forms, ref, mk, keep)

    d("iteration", [("iter", lambda: list(t)), ("again", lambda: [*t]), ("idx", lambda: [t[i] for i in range(len(t))]),
                    ("item", lambda: [t.item(i) for i in range(len(t))]), ("fitem", lambda: [ta.item(i)(t) for i in range(len(t))]),
                    ("reversed", lambda: list(reversed(t))[::-1])], lambda: xs)
    d("len", [("len", lambda: len(t))], lambda: n)
    d("is_empty", [("m", lambda: t.is_empty()), ("f", lambda: ta.is_empty(t))], lambda: n == 0)
    d("bool", [("b", lambda: bool(t))], lambda: n > 0)
    d("try_head", [("m", lambda: t.try_head()), ("f", lambda: ta.try_head(t))], lambda: Just(xs[0]) if n else NONE)
    if n:
        d("head", [("m", lambda: t.head())], lambda: xs[0])
        d("tail", [("m", lambda: t.tail())], lambda: L(xs[1:]))
    else:
        for nm, f in (("head", lambda: t.head()), ("tail", lambda: t.tail())):
            o = outcome(f)
            check(o[0] == "raise" and isinstance(o[1], ValueError), f"{nm} of the empty array must raise ValueError", got=o)
    rng = range(-n - 2, n + 3) if n < 8 else (-n - 1, -n, -n + 1, -1, 0, 1, n // 2, n - 1, n, n + 1)
    for i in rng:
        if -n <= i < n:
            d(f"item {i}", [("m", lambda: t.item(i)), ("f", lambda: ta.item(i)(t)), ("[]", lambda: t[i])], lambda: xs[i])
        else:
            for nm, f in (("item", lambda: t.item(i)), ("fitem", lambda: ta.item(i)(t)), ("[]", lambda: t[i]),
                          ("set", lambda: t.__setitem__(i, xs[0] if n else 1)), ("del", lambda: t.__delitem__(i)), ("pop", lambda: t.pop(i))):
                o = outcome(f)
                check(o[0] == "raise" and isinstance(o[1], IndexError), f"{nm} {i} of {n} elements must raise IndexError", got=o)
                keep(nm)
                st.step()
        d(f"skip {i}", [("m", lambda: t.skip(i)), ("kw", lambda: t.skip(count=i))], lambda: L(xs[i:]))
        d(f"take {i}", [("m", lambda: t.take(i)), ("f", lambda: ta.take(i)(t)), ("p", lambda: t.pipe(ta.take(i)))], lambda: L(xs[:i]))
        if i > 0:
            d(f"skip_last {i}", [("m", lambda: t.skip_last(i))], lambda: L(xs[:max(0, n - i)]))
            d(f"take_last {i}", [("m", lambda: t.take_last(i)), ("f", lambda: ta.take_last(i)(t))], lambda: L(xs[max(0, n - i):]))
        elif i == 0:
            for nm, got, right, known in (("skip_last", t.skip_last(0), xs, []), ("take_last", t.take_last(0), [], xs),
                                          ("ftake_last", ta.take_last(0)(t), [], xs)):
                if matches(got, L(right)):
                    continue
                check(matches(got, L(known)), f"{nm} 0: neither the right answer nor the known finding", got=list(got), source=xs)
                st.finding("zero-last-array", "skip_last(0)/take_last(0)")
        for j in (rng if wide and n < 4 else (i + 1, -1, None)):
            for step in ((None, 2, -1) if wide and n < 4 else (None, -1)):
                d(f"slice {i}:{j}:{step}", [("[]", lambda: list(t[i:j:step]))], lambda: xs[i:j:step])
    for s in (0, 3, -1):
        d(f"indexed {s}", [("m", lambda: t.indexed(s)), ("kw", lambda: t.indexed(start=s)), ("f", lambda: ta.indexed(s)(t))],
          lambda: L(enumerate(xs, s)))
    d("indexed", [("m", lambda: t.indexed())], lambda: L(enumerate(xs)))
    d("rebuild", [("ctor", lambda: TypedArray(t)), ("of_seq", lambda: ta.of_seq(t)), ("mof_seq", lambda: TypedArray.of_seq(iter(xs))),
                  ("of", lambda: ta.of(*xs)), ("mof", lambda: TypedArray.of(*xs)), ("gen", lambda: TypedArray(x for x in xs)),
                  ("coded", lambda: TypedArray(t, t.typecode)), ("coded gen", lambda: TypedArray((x for x in xs), typecode=t.typecode))],
      lambda: L(xs))
    # callbacks
    fails = [None] + ([*range(n)] if n < 8 else [0, n // 2, n - 1])
    for fa in fails:
        mk = lambda: [Pos(lambda i, x: (i % 3, x), fa).fresh()]  # noqa: E731
        d("map", [("m", lambda f: t.map(f)), ("f", lambda f: ta.map(f)(t)), ("p", lambda f: pipe(t, ta.map(f)))],
          lambda f: L([f(x) for x in xs]), mk)
        mk2 = lambda: [Pos(lambda i, s, x: (s if n < 8 else 0, x), fa).fresh()]  # noqa: E731
        d("fold", [("m", lambda f: t.fold(f, 5)), ("f", lambda f: ta.fold(f, 5)(t)), ("p", lambda f: pipe(t, ta.fold(f, 5)))],
          lambda f: _fold(f, 5, xs), mk2)
        mk3 = lambda: [Pos(lambda i, x: TypedArray([x] * (i % 3)), fa).fresh()]  # noqa: E731
        d("collect", [("m", lambda f: t.collect(f))], lambda f: L([y for x in xs for y in f(x)]), mk3)
        mk4 = lambda: [Pos(lambda i, x: Some(x) if i % 2 == 0 else Nothing, fa).fresh()]  # noqa: E731
        d("choose", [("m", lambda f: t.choose(f))], lambda f: L([o.some for o in map(f, xs) if o.tag == "some"]), mk4)
    if n and n < 8 and wide:
        for a in alphabet():
            mka = lambda: [Rec(lambda *_: a)]  # noqa: E731
            d(f"map to {a!r}", [("m", lambda f: t.map(f)), ("f", lambda f: ta.map(f)(t))], lambda f: L([f(x) for x in xs]), mka)
            d(f"fold to {a!r}", [("m", lambda f: t.fold(f, a)), ("f", lambda f: ta.fold(f, a)(t))], lambda f: _fold(f, a, xs), mka)
            d(f"choose {a!r}", [("m", lambda f: t.choose(f))], lambda f: L([f(x).some for x in xs]), lambda: [Rec(lambda *_: Some(a))])
    d("map None", [("m", lambda f: t.map(f))], lambda f: L([f(x) for x in xs]), lambda: [Rec(lambda x: None)])
    pats = list(itertools.product((True, False), repeat=min(n, 4))) if wide else [(True, False), (False, True), (True,), (False,)]
    for pat in pats:
        for fa in ([None] + [k for k in range(n)] if wide else [None]):
            mk = lambda: [Pos(lambda i, x: pat[i % len(pat)] if pat else True, fa).fresh()]  # noqa: E731
            d("filter", [("m", lambda f: t.filter(f)), ("f", lambda f: ta.filter(f)(t)), ("p", lambda f: pipe(t, ta.filter(f)))],
              lambda f: L([x for x in xs if f(x)]), mk)
            d("forall", [("m", lambda f: t.forall(f))], lambda f: all(f(x) for x in xs), mk)
    check(t.filter(lambda x: True).typecode == t.typecode, "filter changed the element type", code=code)
    d("filter truthiness", [("m", lambda f: t.filter(f)), ("f", lambda f: ta.filter(f)(t))], lambda f: L([x for x in xs if f(x)]),
      lambda: [Pos(lambda i, x: (1, "", [0], None)[i % 4]).fresh()])
    if code != "Any":
        d("sum", [("m", lambda: t.sum()), ("f", lambda: ta.sum(t))], lambda: sum(xs))
        d("sum_by", [("m", lambda f: t.sum_by(f)), ("f", lambda f: ta.sum_by(f)(t)), ("p", lambda f: pipe(t, ta.sum_by(f)))],
          lambda f: sum([f(x) for x in xs]), lambda: [Rec(lambda x: x * 3 + 1)])
        for rev in (False, True):
            d("sort", [("m", lambda: t.sort(rev)), ("kw", lambda: t.sort(reverse=rev))], lambda: L(sorted(xs, reverse=rev)))
        d("sort default", [("m", lambda: t.sort())], lambda: L(sorted(xs)))
        d("str", [("str", lambda: str(t)), ("repr", lambda: repr(t))], lambda: f"[|{', '.join(str(x) for x in xs)}|]")
        for v in (*legal(code), 7, "x"):
            d("in/count", [("in", lambda: (v in t, t.count(v)))], lambda: (v in xs, xs.count(v)))
            if v in xs:
                d("index", [("index", lambda: t.index(v))], lambda: xs.index(v))
            else:
                check(isinstance(outcome(lambda: t.index(v))[1], ValueError), "index of a missing value", v=v)
                check(isinstance(outcome(lambda: t.remove(v))[1], ValueError), "remove of a missing value", v=v)
                keep("remove")
    for key in ((lambda x: 0), (lambda x: repr(x)), (lambda x: len(repr(x)))):
        for rev in (False, True):
            d("sort_with", [("m", lambda: t.sort_with(key, rev)), ("kw", lambda: t.sort_with(key, reverse=rev))],
              lambda: L(sorted(xs, key=key, reverse=rev)))
    # equality
    for other, same in ((list(xs), True), (tuple(xs), True), (TypedArray(xs), True), (TypedArray(list(xs) + [1]), False),
                        (xs[:-1], n == 0), ([Opaque("z")] + xs[1:], False)):
        check((t == other) is same and (t != other) is (not same), "wrong equality", array=xs, other=list(other))
        st.step()
    # illegal writes leave the array as it was
    for bad in illegal(code):
        for nm, f in (("append", lambda: t.append(bad)), ("insert", lambda: t.insert(0, bad)), ("extend", lambda: t.extend([bad])),
                      *((("set", lambda: t.__setitem__(0, bad)), ("set last", lambda: t.__setitem__(-1, bad))) if n else ())):
            o = outcome(f)
            check(o[0] == "raise" and isinstance(o[1], (TypeError, ValueError, OverflowError)), f"{nm} of an ill-typed value to {code} must fail",
                  value=bad, got=o)
            keep(f"{nm} of {bad!r}")
            st.step()


def _fold(f, s, xs):
    for x in xs:
        s = f(s, x)
    return s


def body_ops(depth):
    def body(ch, st):
        code = CODES[ch.choose(len(CODES))]
        n = ch.choose(depth + 1)
        vals = legal(code)
        xs = [vals[ch.choose(len(vals))] for _ in range(n)]
        how = ch.choose(3)
        if how == 0:
            t = TypedArray(xs, tc(code))
        elif how == 1:
            t = TypedArray(typecode=tc(code))
            for x in xs:
                t.append(x)
        else:
            t = TypedArray((x for x in xs), typecode=tc(code))
            check(t.typecode == tc(code), "type code not kept")
        ms = [conv(code, x) for x in xs]
        holds(t, ms, f"built with {code}")
        run_ops(st, t, ms, code, wide=how == 0)
        st.outcome((code, n, how))
    return body


class SubList(list):
    pass


class SubTuple(tuple):
    pass


class SubBytearray(bytearray):
    pass


class SubBytes(bytes):
    pass


def body_ctor(ch, st):
    """Every initializer kind; the array never shares storage with it."""
    kind = ch.choose(12 + len(MARK))
    if kind < 12:
        mk = [lambda: [3, 1, 2], lambda: (3, 1, 2), lambda: bytearray(b"\x03\x01\x02"), lambda: b"\x03\x01\x02", lambda: iter([3, 1, 2]),
              lambda: TypedArray([3, 1, 2]), lambda: range(3, 0, -1), lambda: TypedArray(bytearray(b"\x03\x01\x02")),
              lambda: SubList([3, 1, 2]), lambda: SubTuple([3, 1, 2]), lambda: SubBytearray(b"\x03\x01\x02"), lambda: SubBytes(b"\x03\x01\x02")][kind]
        src = mk()
        want = list(mk())
        t = TypedArray(src)
        code = "Byte" if kind in (2, 3, 10, 11) else "Any"
    else:
        code = list(MARK)[kind - 12]
        cls = MARK[code]
        code = code.rstrip("2") if code == "Double2" else code
        vals = legal(code)
        src = [cls(v) for v in vals]
        t = TypedArray(src)
        check(t.typecode == tc(code), "typed literals select the element type", code=code, got=t.typecode)
        want = [conv(code, v) for v in vals]
        for bad in illegal(code):
            if bad is None or isinstance(bad, list) or True:
                o = outcome(lambda: TypedArray([cls(1), bad]))
                check(o[0] == "raise" and isinstance(o[1], (TypeError, ValueError, OverflowError)), "an ill-typed element was accepted",
                      code=code, value=bad, got=o)
    holds(t, want, "constructed")
    check(t.typecode == tc(code), "the element type of a constructed array", initializer=type(src).__name__, got=t.typecode, expected=code)
    for bad in illegal(code):
        for what, act in (("append", lambda: t.append(bad)), ("insert", lambda: t.insert(0, bad)), ("extend", lambda: t.extend([bad])),
                          ("set", lambda: t.__setitem__(0, bad))):
            o = outcome(act)
            check(o[0] == "raise" and isinstance(o[1], (TypeError, ValueError, OverflowError)), f"{what} of an ill-typed element was accepted",
                  code=code, value=bad, got=o)
            holds(t, want, f"after a refused {what}")
    empty = [ta.empty(), TypedArray(), TypedArray.empty(), TypedArray([]), TypedArray(iter(())), ta.of(), ta.of_option(Nothing),
             TypedArray(None), TypedArray(b""), TypedArray(bytearray())]
    for e in empty:
        holds(e, [], "empty")
        e.append(1)
        holds(e, [1], "append to empty")
    holds(ta.empty(), [], "the empty array after others were changed")
    holds(TypedArray.empty(), [], "the empty array after others were changed")
    v = want[0]
    for s in (ta.singleton(v), ta.of_option(Some(v)), ta.of(v)):
        holds(s, [v], "singleton")
    for v2 in (None, 0, "", Nothing, Hostile()):
        check(matches(ta.of_option(Some(v2)), L([v2])) and matches(ta.singleton(v2), L([v2])), "singleton", v=v2)
    # independence of source and array
    if isinstance(src, (list, bytearray, TypedArray)):
        act = ch.choose(4)
        x = src[1]
        if act == 0:
            src[0] = x
        elif act == 1:
            del src[0]
        elif act == 2:
            src.append(x)
        else:
            src.clear()
        holds(t, want, "the array follows its initializer")
        before = list(src)
        t[0] = want[1]
        t.append(want[1])
        check(list(src) == before, "the initializer follows the array", before=before, now=list(src))
    for n in (0, 1, 2, 5, 300, 2000):
        for form in (lambda g, s: TypedArray.unfold(g, s), lambda g, s: ta.unfold(g)(s), lambda g, s: pipe(s, ta.unfold(g))):
            g = Rec(lambda s: Some((("e", s), s + 1)) if s < n else Nothing)
            check(matches(form(g, 0), L([("e", i) for i in range(n)])), "unfold", n=n)
            check([c[0] for c in g.calls] == list(range(n + 1)), "unfold calls", n=n)
    st.step(20)
    st.outcome(kind)


def body_coded(ch, st):
    """An explicit type code with every kind of initializer: the array holds the same elements and shares nothing with it."""
    import array as pyarray
    code = CODES[ch.choose(len(CODES))]
    lv = [conv(code, v) for v in legal(code)]
    n = ch.choose(4)
    xs = [lv[i % len(lv)] for i in range(n)]
    kind = ch.choose(8)
    fmt = "d" if code in ("Double", "Float") else "q"
    whole = all(isinstance(x, (int, float)) for x in xs)
    fits = whole and all(isinstance(x, float) or -2**63 <= x < 2**63 for x in xs)
    mk = [lambda: list(xs), lambda: tuple(xs), lambda: iter(xs), lambda: TypedArray(xs), lambda: TypedArray(xs, tc(code)), lambda: Block(xs),
          lambda: pyarray.array(fmt, xs) if fits and not (fmt == "q" and any(isinstance(x, float) for x in xs)) else list(xs),
          lambda: bytearray(xs) if all(isinstance(x, int) and 0 <= x < 256 for x in xs) else list(xs)][kind]
    for change in range(6):
        src = mk()
        t = TypedArray(src, tc(code))
        want = [conv(code, x) for x in xs]
        holds(t, want, "constructed with a type code")
        check(t.typecode == tc(code), "the type code given is not the array's", code=code, got=t.typecode)
        if not isinstance(src, (list, bytearray, TypedArray, pyarray.array)):
            if change:
                continue
        elif change == 0:
            src.append(xs[0] if n else 1)
        elif change == 1 and n:
            src[0] = src[-1]
        elif change == 2 and n:
            del src[0]
        elif change == 3:
            src.reverse()
        holds(t, want, "the array follows its initializer")
        if isinstance(src, (list, bytearray, TypedArray, pyarray.array)):
            before = list(src)
            if change < 4:
                t.append(lv[0])
            elif change == 4 and n:
                t[0] = lv[-1]
            elif n:
                del t[0]
            check(len(src) == len(before) and all(a == b for a, b in zip(src, before)), "the initializer follows the array", before=before, now=list(src))
        st.step()
    st.outcome((code, n, kind))


def body_slices(maxn):
    """Whatever slice is taken: it and the array it was taken from are independent from then on."""
    ends = [None, *range(-maxn - 1, maxn + 2)]

    def body(ch, st):
        code = CODES[ch.choose(len(CODES))]
        n = ch.choose(maxn + 1)
        lv = [conv(code, v) for v in legal(code)]
        xs = [lv[i % len(lv)] for i in range(n)]
        key = slice(ends[ch.choose(len(ends))], ends[ch.choose(len(ends))], (None, 1, -1, 2)[ch.choose(4)])
        for how in range(5):
            t = TypedArray(xs, tc(code))
            raw = t[key]
            was = xs[key]
            check(matches(list(raw), was), "slice", key=key, got=list(raw), expected=was)
            v = lv[-1]
            if how == 0:
                raw.append(v)
            elif how == 1:
                raw.reverse()
                raw.append(v)
            elif how == 2:
                del raw[:]
            elif how == 3:
                t.append(v)
                t.reverse()
                t.append(lv[0])
            else:
                t.clear()
            if how < 3:
                check(matches(list(t), xs), "changing a slice changed the array", key=key, before=xs, now=list(t), code=code)
            else:
                check(matches(list(raw), was), "changing the array changed a slice", key=key, before=was, now=list(raw), code=code)
            st.step()
        st.outcome((code, n, len(was)))
    return body


def fn_ties(st, tier):
    for kind, vals, exp in tie_cases():
        t = TypedArray(vals, TypeCode.Any) if hasattr(TypeCode, "Any") else TypedArray(vals)
        if kind == "sum":
            sum_case(st, vals, exp, {"sum": lambda: t.sum(), "f sum": lambda: ta.sum(t), "sum_by": lambda: t.sum_by(lambda x: x),
                                     "f sum_by": lambda: ta.sum_by(lambda x: x)(t)})
            continue
        for rev in (False, True):
            check(matches(list(t.sort_with(lambda x: x, rev)), sorted(vals, key=lambda x: x, reverse=rev)), "sort_with is not stable", values=vals)
            check(matches(list(t.sort(rev)), sorted(vals, reverse=rev)), "sort is not stable", values=vals)
            st.step(2)
    st.executions += 1


# -- histories ---------------------------------------------------------------
# each op: name, f(world, t, m, v) -> None | (new array, new model)
def mut(real, model=None):
    def f(t, m, v):
        a = outcome(real, t, v)
        before = list(m)
        b = outcome(model or real, m, v)
        if a[0] != b[0]:
            fail("one of array and list model failed, the other did not", array=a, model=b, before=before)
        if a[0] == "raise":
            check(isinstance(a[1], type(b[1])), "failed differently from a list", array=a[1], model=b[1])
            m[:] = before
        elif not matches(a[1], b[1]) and a[1] is not t:
            fail("returned a different value than a list would", array=a[1], model=b[1])
        return None
    return f


def der(real, model):
    def f(t, m, v):
        return real(t, v), list(model(m, v))
    return f


def setslice(t, m, v, key):
    new = list(m[key])[::-1] + [v]
    o = outcome(t.__setitem__, key, new)
    if o[0] == "ret":
        m[key] = new
    else:
        check(isinstance(o[1], TypeError), "slice assignment failed", got=o[1])


def slice_from_slice(t, m, v):
    t[0:1] = t[0:2]
    m[0:1] = m[0:2]


def iadd(t, v):
    s = t
    s += [v, v]
    check(s is t, "+= made another array")


OPS = [
    ("t[0]=v", mut(lambda t, v: t.__setitem__(0, v))),
    ("t[-1]=v", mut(lambda t, v: t.__setitem__(-1, v))),
    ("append", mut(lambda t, v: t.append(v))),
    ("insert 0", mut(lambda t, v: t.insert(0, v))),
    ("insert 1", mut(lambda t, v: t.insert(1, v))),
    ("insert -1", mut(lambda t, v: t.insert(-1, v))),
    ("insert 99", mut(lambda t, v: t.insert(99, v))),
    ("del 0", mut(lambda t, v: t.__delitem__(0))),
    ("del -1", mut(lambda t, v: t.__delitem__(-1))),
    ("del 1:", mut(lambda t, v: t.__delitem__(slice(1, None)))),
    ("del ::2", mut(lambda t, v: t.__delitem__(slice(None, None, 2)))),
    ("pop", mut(lambda t, v: t.pop())),
    ("pop 0", mut(lambda t, v: t.pop(0))),
    ("remove", mut(lambda t, v: t.remove(v))),
    ("reverse", mut(lambda t, v: t.reverse())),
    ("clear", mut(lambda t, v: t.clear())),
    ("extend", mut(lambda t, v: t.extend([v, v]))),
    ("extend self", mut(lambda t, v: t.extend(t))),
    ("+=", lambda t, m, v: (iadd(t, v), m.extend([v, v]), None)[2]),
    ("t[0:1]=list", lambda t, m, v: setslice(t, m, v, slice(0, 1))),
    ("t[1:]=list", lambda t, m, v: setslice(t, m, v, slice(1, None))),
    ("t[0:1]=t[0:2]", slice_from_slice),
    ("take 2", der(lambda t, v: t.take(2), lambda m, v: m[:2])),
    ("take all", der(lambda t, v: ta.take(99)(t), lambda m, v: m[:])),
    ("skip 0", der(lambda t, v: t.skip(0), lambda m, v: m[:])),
    ("skip_last 1", der(lambda t, v: t.skip_last(1), lambda m, v: m[:-1])),
    ("take_last 2", der(lambda t, v: t.take_last(2), lambda m, v: m[-2:])),
    ("filter all", der(lambda t, v: t.filter(lambda x: True), lambda m, v: m)),
    ("filter ne", der(lambda t, v: ta.filter(lambda x: x != v)(t), lambda m, v: [x for x in m if x != v])),
    ("map id", der(lambda t, v: t.map(lambda x: x), lambda m, v: m)),
    ("sort_with", der(lambda t, v: t.sort_with(repr), lambda m, v: sorted(m, key=repr))),
    ("rebuild", der(lambda t, v: TypedArray(t), lambda m, v: m)),
    ("of_seq", der(lambda t, v: ta.of_seq(t), lambda m, v: m)),
    ("slice", der(lambda t, v: TypedArray(t[:]), lambda m, v: m)),
    ("collect", der(lambda t, v: t.collect(lambda x: TypedArray([x, v])), lambda m, v: [y for x in m for y in (x, v)])),
    ("choose", der(lambda t, v: t.choose(lambda x: Some(x) if x != v else Nothing), lambda m, v: [x for x in m if x != v])),
    ("raw slice", None),
]


def body_hist(codes, depth, lens=(0, 1, 2)):
    def body(ch, st):
        c0 = ch.choose(len(codes) * len(OPS))
        code = codes[c0 // len(OPS)]
        lv = [conv(code, v) for v in legal(code)]
        n = lens[ch.choose(len(lens))]
        xs = lv[:n]
        world = [(TypedArray(xs, tc(code)), list(xs))]
        raws = []
        cur = 0
        for k in range(depth):
            i = ch.choose(len(OPS), lambda c: OPS[c][0]) if k else c0 % len(OPS)
            if k and len(world) > 1:
                cur = (0, len(world) - 1)[ch.choose(2)]
            name, f = OPS[i]
            t, m = world[cur]
            v = lv[-1] if k % 2 == 0 else lv[0]
            if f is None:
                raw = t[0:2]
                raws.append((raw, list(raw)))
                check(matches(list(raw), m[0:2]), "slice", got=list(raw))
            else:
                r = f(t, m, v)
                if r is not None:
                    world.append(r)
                    cur = len(world) - 1
            for j, (a, b) in enumerate(world):
                if not matches(list(a), b) or len(a) != len(b):
                    fail(f"after {name}: array {j} holds the wrong elements", got=list(a), expected=b, code=code)
            for raw, was in raws:
                check(list(raw) == was, "a slice taken earlier changed", was=was, now=list(raw))
            st.step()
        for a, b in world:
            holds(a, b, "at the end")
        st.outcome((code, world[-1][1]))
    return body


def fn_far(st, tier):
    """Single index operations at every position, far beyond both ends too."""
    for code in CODES:
        lv = [conv(code, v) for v in legal(code)]
        for n in range(0, 7 if tier == T else 6):
            xs = [lv[i % 3] for i in range(n)]
            for i in [*range(-3 * n - 3, 3 * n + 4), -10**6, 10**6, True, False]:
                for v in lv[:2]:
                    for nm, f in (("insert", lambda a: a.insert(i, v)), ("set", lambda a: a.__setitem__(i, v)), ("del", lambda a: a.__delitem__(i)),
                                  ("pop", lambda a: a.pop(i)), ("get", lambda a: a[i])):
                        t, m = TypedArray(xs, tc(code)), list(xs)
                        a, b = outcome(lambda: f(t)), outcome(lambda: f(m))
                        check(a[0] == b[0] and (matches(a[1], b[1]) if a[0] == "ret" else isinstance(a[1], type(b[1]))),
                              f"{nm} at {i} of {n} elements differs from a list's", code=code, got=a, expected=b)
                        holds(t, m, f"{nm} at {i} of {n} elements, {code}")
                        st.step()
                for j in (0, 1, -1, n, -n, 2 * n, -2 * n - 1):
                    t, m = TypedArray(xs, tc(code)), list(xs)
                    for v in lv[:2]:
                        a, b = outcome(lambda: t.index(v, i, j)), outcome(lambda: m.index(v, i, j))
                        check(a[0] == b[0] and (a[1] == b[1] if a[0] == "ret" else isinstance(a[1], ValueError)),
                              f"index from {i} to {j} of {n} elements differs from a list's", code=code, got=a, expected=b)
                        st.step()
        st.executions += 1
        st.outcome(code)


def fn_ladder(st, tier, shard):
    sizes = list(range(0, 71)) + [100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 5000, 20001] + ([70001] if tier == T else [])
    for k, n in enumerate(sizes):
        if k % shard[1] != shard[0]:
            continue
        for code in (CODES if n < 40 or tier == T else ("Byte", "Int16", "Double", "Any")):
            lv = [conv(code, v) for v in legal(code)]
            xs = [lv[(i * i + i) % 3] for i in range(n)]
            t = TypedArray(xs, tc(code))
            run_ops(st, t, xs, code, wide=False)
            for same in (xs, tuple(xs), TypedArray(xs, tc(code)), Block(xs)):
                check((t == same) is True and (t != same) is False, "equal sequences compare different", n=n, code=code)
            other = next(v for v in lv if v != lv[0])
            for p in sorted({0, 1, n // 3, n // 2, n - 2, n - 1} & set(range(n))):
                ys = list(xs)
                ys[p] = other if xs[p] == lv[0] else lv[0]
                for diff in (ys, TypedArray(ys, tc(code)), tuple(ys), xs[:p] + xs[p + 1:], TypedArray(xs[:p] + [xs[p]] + xs[p:], tc(code))):
                    check((t == diff) is False and (t != diff) is True, "different sequences compare equal", n=n, code=code, at=p)
                st.step(5)
            m = list(xs)
            for i in range(min(n, 70)):
                t.insert(i * 2, lv[i % 3])
                m.insert(i * 2, lv[i % 3])
                t[-1 - i] = lv[(i + 1) % 3]
                m[-1 - i] = lv[(i + 1) % 3]
            t.reverse()
            m.reverse()
            holds(t, m, f"{n} {code}")
        st.outcome(n)
        st.executions += 1


def sections(tier):
    t = tier == T
    return variants([
        Section("operations", body_ops(4 if t else 3), shards=8, bounds="every op, every form, every type code"),
        Section("constructors", body_ctor, bounds="initializer kinds and typed literals"),
        Section("coded", body_coded, bounds="every type code x 8 initializer kinds x lengths to 3, changed on either side"),
        Section("histories-all-types", body_hist(CODES, 3 if t else 2), shards=8, bounds=f"all sequences of {len(OPS)} operations"),
        Section("histories-deep", body_hist(["Int16", "Byte", "Any"], 4 if t else 3, (2,)), shards=8, bounds=f"all sequences of {len(OPS)} operations"),
        Section("slices", body_slices(4 if t else 3), shards=8, bounds="every slice of every array of up to 3 (quick) / 4 elements, changed on either side"),
        Section("far", fn=fn_far, bounds="index operations at every position to three lengths beyond both ends, every type code"),
        Section("ties", fn=fn_ties, bounds="elements that compare equal; elements with in-place addition"),
        Section("sizes", fn=fn_ladder, shards=8, bounds="size ladder"),
    ], ('operations',), __name__, ('base',))
