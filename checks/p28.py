"""P28: copies and pickles of the package's values behave like the original."""
import copy
import os
import pickle
import subprocess
import sys

from expression import Error, Nothing, Ok, Option, Result, Some
from expression import option as fopt
from expression.collections import Block, Map, Seq, TypedArray
from expression.collections.array import TypeCode
from expression.core import Failure, Success

from mc.core import REPO, VERIF, Section, check, fail
from mc.values import outcome

T = "thorough"
BOUNDS = ("every value built from 8 leaves by 15 constructors (Some, Ok, Error, blocks, maps, arrays, sequences, and plain containers around them) nested twice "
          "(quick) / three times (thorough), copied by copy, deepcopy and every pickle protocol, copies of copies, copies inside containers with sharing, "
          "and pickles read in another process; every operation of a list on original and copy; sizes up to 20000")
ASSUMPTIONS = ["payloads are themselves copyable and picklable; sequences are over re-iterable picklable sources"]
PROTOS = range(pickle.HIGHEST_PROTOCOL + 1)


class Key:
    """An orderable, mutable-looking key without value equality beyond its number."""

    def __init__(self, n):
        self.n = n

    def __lt__(self, o):
        return self.n < o.n

    def __eq__(self, o):
        return isinstance(o, Key) and self.n == o.n

    def __hash__(self):
        return hash(self.n)

    def __repr__(self):
        return f"Key({self.n})"


def leaves():
    return [lambda: 0, lambda: None, lambda: "", lambda: (1, 2), lambda: [1], lambda: {"k": [0]}, lambda: Nothing, lambda: Key(3)]


CONS = [
    ("Some", lambda x: Some(x)), ("Ok", lambda x: Ok(x)), ("Error", lambda x: Error(x)), ("Success", lambda x: Success(x)), ("Block0", lambda x: Block([])),
    ("Block1", lambda x: Block([x])), ("Block2", lambda x: Block([x, 0])), ("Map0", lambda x: Map.empty()), ("Map1", lambda x: Map.of_seq([("a", x)])),
    ("Map3", lambda x: Map.of_seq([(3, x), (1, None), (2, 0)])), ("MapKey", lambda x: Map.of_seq([(Key(2), x), (Key(1), 1)])), ("Seq", lambda x: Seq([x, 1])),
    ("Array", lambda x: TypedArray([1, 2, 3])), ("list", lambda x: [x, x]), ("dict", lambda x: {"a": x}),
]


def terms(depth):
    """(name, factory) of every value of the given nesting."""
    level = [(repr(f()), f) for f in leaves()]
    for _ in range(depth):
        level = [(f"{n}({m})", lambda c=c, f=f: c(f())) for n, c in CONS for m, f in level if n not in ("Block0", "Map0", "Array") or m == "0"]
    return level


def shape(v):
    """Plain data describing a value completely."""
    if isinstance(v, Option):
        check(v.is_none() is (v.tag == "none") and v.is_some() is (v.tag == "some"), "an option contradicts itself", value=v)
        if v.tag == "none":
            check(v is Nothing, "an empty option is not Nothing")
            return ("Nothing",)
        return ("Some", shape(v.some))
    if isinstance(v, Result):
        check(v.is_ok() is (v.tag == "ok"), "a result contradicts itself", value=v)
        return (v.tag, shape(v.ok if v.tag == "ok" else v.error))
    if isinstance(v, Block):
        return (type(v).__name__, [shape(x) for x in v], len(v))
    if isinstance(v, Map):
        return (type(v).__name__, [(shape(k), shape(x)) for k, x in v.to_seq()], len(v))
    if isinstance(v, TypedArray):
        return ("TypedArray", list(v), getattr(v, "typecode", None) and v.typecode)
    if isinstance(v, Seq):
        a = [shape(x) for x in v]
        check(a == [shape(x) for x in v], "a sequence cannot be iterated again")
        return ("Seq", a)
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [shape(x) for x in v])
    if isinstance(v, dict):
        return ("dict", [(k, shape(x)) for k, x in v.items()])
    if isinstance(v, Exception):
        return (type(v), v.args)
    return (type(v).__name__, repr(v))


def mutables(v, out, seen):
    if id(v) in seen:
        return out
    seen[id(v)] = v
    if isinstance(v, Option):
        if v.tag == "some":
            mutables(v.some, out, seen)
    elif isinstance(v, Result):
        mutables(v.ok if v.tag == "ok" else v.error, out, seen)
    elif isinstance(v, Map):
        for k, x in v.to_seq():
            mutables(k, out, seen)
            mutables(x, out, seen)
    elif isinstance(v, (Block, tuple, Seq)):
        for x in v:
            mutables(x, out, seen)
    elif isinstance(v, list):
        out[id(v)] = v
        for x in v:
            mutables(x, out, seen)
    elif isinstance(v, dict):
        out[id(v)] = v
        for x in v.values():
            mutables(x, out, seen)
    elif isinstance(v, (TypedArray, Key)):
        out[id(v)] = v
    return out


def ways():
    w = [("copy", copy.copy, False), ("deepcopy", copy.deepcopy, True)]
    w += [(f"pickle {p}", lambda v, p=p: pickle.loads(pickle.dumps(v, p)), True) for p in PROTOS]
    w += [("python pickle", lambda v: pickle._loads(pickle._dumps(v, 5)), True), ("copy of a deepcopy", lambda v: copy.copy(copy.deepcopy(v)), True),
          ("twice pickled", lambda v: pickle.loads(pickle.dumps(pickle.loads(pickle.dumps(v)))), True),
          ("deepcopy in a list", lambda v: copy.deepcopy([v, v])[1], True), ("deepcopy as dict value", lambda v: copy.deepcopy({"x": (v,)})["x"][0], True)]
    return w


def comparable(v):
    return not isinstance(v, Seq) and "Seq(" not in repr(v) and "seq" not in repr(shape(v)).lower()


def ops(v):
    """Operations whose outcome must be the same for original and copy; outcomes as plain data."""
    if isinstance(v, Option):
        fs = [lambda o: o.map(lambda x: (x, 1)), lambda o: o.bind(lambda x: Nothing), lambda o: o.to_list(), lambda o: o.default_value("d"), lambda o: o.or_else(Some(5)),
              lambda o: o.to_result("e"), lambda o: list(o.to_seq()), lambda o: str(o), lambda o: o.to_optional(), lambda o: fopt.is_none(o), lambda o: _match(o), lambda o: o is Nothing,
              lambda o: o == Nothing]
    elif isinstance(v, Result):
        fs = [lambda r: r.map(lambda x: (x, 1)), lambda r: r.map_error(lambda e: (e, 2)), lambda r: r.swap(), lambda r: r.to_option(), lambda r: r.default_value("d"), lambda r: str(r),
              lambda r: r.bind(lambda x: Error(x)), lambda r: _match(r), lambda r: r.or_else(Ok(9))]
    elif isinstance(v, Block):
        fs = [lambda b: b.cons(7), lambda b: b.append(Block([8])), lambda b: b.map(lambda x: (x,)), lambda b: b.tail() if len(b) else None, lambda b: b.skip(len(b)), lambda b: b[::-1],
              lambda b: b.indexed(), lambda b: b.is_empty(), lambda b: b.try_head(), lambda b: str(b), lambda b: b == Block(list(b)), lambda b: b.fold(lambda s, x: [*s, x], [])]
    elif isinstance(v, Map):
        fs = [lambda m: [(k in m, m.try_find(k)) for k in ("a", 1, 2) if _lt(k, m)], lambda m: m.map(lambda k, x: (k, x)), lambda m: m.filter(lambda k, x: x is not None), lambda m: list(m.keys()) if hasattr(m, "keys") else 0,
              lambda m: m.remove(next(iter(m))) if len(m) else m, lambda m: m.add(next(iter(m)), "new") if len(m) else m.add("z", 1), lambda m: str(m), lambda m: len(m), lambda m: list(m),
              lambda m: m.change(next(iter(m)), lambda o: Nothing) if len(m) else m, lambda m: m == Map.of_seq(list(m.to_seq())), lambda m: m.partition(lambda k, x: x is None)]
    elif isinstance(v, TypedArray):
        fs = [lambda a: a.map(lambda x: x + 1), lambda a: a.filter(lambda x: x > 1), lambda a: list(a[1:]), lambda a: str(a), lambda a: len(a), lambda a: a.fold(lambda s, x: s + x, 0)]
    elif isinstance(v, Seq):
        fs = [lambda s: list(s.map(lambda x: (x,))), lambda s: s.length(), lambda s: list(s.skip(1)), lambda s: s.head(), lambda s: list(s.append(s))]
    else:
        fs = []
    return fs


def _lt(k, m):
    return all(type(x) is type(k) for x in m)


def _match(v):
    match v:
        case Option(tag="some", some=x):
            return ("some", x)
        case Option(tag="none"):
            return "none"
        case Result(tag="ok", ok=x):
            return ("ok", x)
        case Result(tag="error", error=x):
            return ("error", x)


def flat(r):
    return ("raise", type(r[1])) if r[0] == "raise" else shape(r[1])


def one(st, name, make, deep_ops=True):
    v = make()
    want = shape(v)
    fs = ops(v)
    expect = [flat(outcome(f, v)) for f in fs]
    eq = comparable(v)
    h = outcome(hash, v)
    mine = mutables(v, {}, {})
    for what, cp, deep in ways():
        r = outcome(cp, v)
        d = dict(value=name, how=what)
        if r[0] == "raise":
            fail(f"{what} of {name} failed: {type(r[1]).__name__}: {r[1]}", **d)
        w = r[1]
        check(type(w) is type(v), f"{what} changed the type", got=type(w), **d)
        check(shape(w) == want, f"{what} is not the same value", got=shape(w), expected=want, **d)
        if eq:
            check((w == v) is True and (v == w) is True and (v != w) is False, f"{what} is not equal to the original", **d)
        hw = outcome(hash, w)
        check(h[0] == hw[0], f"{what} can be hashed differently", **d)
        if eq and h[0] == "ret":
            check(h[1] == hw[1], f"{what} has another hash", **d)
        if deep:
            both = [x for i, x in mutables(w, {}, {}).items() if i in mine]
            check(not both, f"{what} shares mutable data with the original", shared=both[:1], **d)
        else:
            inner = [x for x in _direct(v)]
            got = [x for x in _direct(w)]
            check(len(inner) == len(got) and all(a is b for a, b in zip(inner, got)), "a shallow copy replaced the contents", **d)
        for f, e in zip(fs, expect):
            g = flat(outcome(f, w))
            check(g == e, f"an operation on the {what} gives something else", got=g, expected=e, **d)
        check(shape(v) == want, f"{what} changed the original", got=shape(v), expected=want, **d)
        st.step(1 + len(fs))


def _direct(v):
    if isinstance(v, Option):
        return [v.some] if v.tag == "some" else []
    if isinstance(v, Result):
        return [v.ok if v.tag == "ok" else v.error]
    if isinstance(v, Map):
        return [x for kv in v.to_seq() for x in kv]
    if isinstance(v, (Block, Seq, list)):
        return list(v)
    if isinstance(v, dict):
        return list(v.values())
    return []


def b_values(depth):
    def run(st, tier, shard=(0, 1)):
        for i, (n, f) in enumerate(terms(depth)):
            if i % shard[1] == shard[0]:
                one(st, n, f)
                if i % 50 == 0:
                    st.outcome(n)
    return run


def b_special(st, tier):
    # Nothing is a singleton however it is made, copied or read back
    made = [Option.Nothing(), Option[int].Nothing(), Some(1).bind(lambda x: Nothing), fopt.of_optional(None), Some(1).filter(lambda x: False)]
    for v in [Nothing, *made]:
        for what, cp, _ in ways():
            w = cp(v)
            check(w is Nothing, f"{what} of Nothing is not Nothing", how=what)
            st.step()
    for outer in (lambda x: [x], lambda x: (x,), lambda x: {"a": x}, Some, Ok, lambda x: Block([x]), lambda x: Map.of_seq([(1, x)]), lambda x: Map.of_seq([(x, 1)])):
        for what, cp, _ in ways():
            shape(cp(outer(Nothing)))
            st.step()
    # exceptions as payloads keep kind and arguments
    for e in (ValueError(1, "a"), KeyError("k"), Exception()):
        for r in (Failure(e), Error(e), Some(e), Block([e])):
            for what, cp, _ in ways():
                check(shape(cp(r)) == shape(r), f"{what} changed an exception payload", value=repr(r))
                st.step()
    # sharing inside one deep copy or pickle survives
    for mk in (lambda x: Some(x), lambda x: Ok(x), lambda x: Block([x, x]), lambda x: Map.of_seq([(1, x), (2, x)])):
        for what, cp, deep in ways():
            if not deep:
                continue
            pay = [1]
            v = mk(pay)
            w = cp([v, v, pay])
            check(w[0] is w[1], f"{what} split one value into two", how=what)
            ds = _direct(w[0])
            check(all(x is w[2] for x in ds if isinstance(x, list)), f"{what} split a shared payload", how=what)
            w[2].append(2)
            check(pay == [1], f"{what} is not independent", how=what)
            st.step()
    # copies of a mutable array are independent both ways, for every typecode
    for tc in TypeCode:
        a = TypedArray([1, 2, 3], tc)
        for what, cp, _ in ways():
            if what == "copy":
                continue  # a shallow copy may share its storage
            w = cp(a)
            w[0] = 9
            check(list(a) == [1, 2, 3] and list(w) == [9, 2, 3], f"{what} of an array is not independent", typecode=tc)
            a[1] = 8
            check(list(w) == [9, 2, 3], f"{what} of an array is not independent", typecode=tc)
            r1, r2 = outcome(a.__setitem__, 2, 300), outcome(w.__setitem__, 2, 300)
            check(r1[0] == r2[0], f"{what} of an array has another element type", typecode=tc)
            a = TypedArray([1, 2, 3], tc)
            st.step()
    st.outcome(1)


def b_sizes(st, tier):
    for n in (0, 1, 2, 7, 50, 999, 1001, 20000):
        for name, v in ((f"block of {n}", Block(range(n))), (f"map of {n}", Map.of_seq([(i, str(i)) for i in range(n)])), (f"array of {n}", TypedArray(range(n)) if n else TypedArray([])),
                        (f"seq of {n}", Seq(list(range(n))))):
            for what, cp, _ in ways():
                if what in ("python pickle", "pickle 0", "pickle 1", "pickle 3") and n > 1001:
                    continue
                r = outcome(cp, v)
                if r[0] == "raise":
                    fail(f"{what} of a {name} failed: {type(r[1]).__name__}: {r[1]}")
                check(list(r[1]) == list(v), f"{what} of a {name} differs")
                if isinstance(v, Map):
                    check(all(r[1][i] == str(i) for i in range(0, n, max(1, n // 50))) and len(r[1]) == n, f"{what} of a {name} lost entries")
                    m2 = r[1].add(n + 1, "new").remove(0) if n else r[1].add(0, 1)
                    check(len(m2) == (n or 1), f"{what} of a {name} cannot be extended")
                st.step()
    # chains of nested options
    v = Nothing
    for _ in range(60):
        v = Some(v)
    for what, cp, _ in ways():
        check(shape(cp(v)) == shape(v), f"{what} of 60 nested options")
        st.step()
    st.outcome(1)


CHILD = """
import pickle, sys
sys.path[:0] = [{verif!r}, {repo!r}]
from checks import p28
vals = pickle.load(sys.stdin.buffer)
sys.stdout.buffer.write(pickle.dumps([p28.shape(v) for v in vals]))
"""


def b_process(st, tier):
    """Pickles are read in a process that has seen nothing yet."""
    ts = terms(2)
    for p in PROTOS:
        vals = [f() for _, f in ts]
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH="")
        r = subprocess.run([sys.executable, "-c", CHILD.format(verif=VERIF, repo=REPO)], input=pickle.dumps(vals, p), capture_output=True, env=env, timeout=300)
        check(r.returncode == 0, f"another process cannot read the values (protocol {p})", error=r.stderr.decode(errors="replace")[-600:])
        got = pickle.loads(r.stdout)
        for (n, _), g, v in zip(ts, got, vals):
            check(g == shape(v), f"a value arrives changed in another process (protocol {p})", value=n, got=g)
            st.step()
    st.outcome(1)


def sections(tier):
    t = tier == T
    return [Section("depth 1", fn=b_values(1), bounds="every constructor over every leaf"), Section("depth 2", fn=b_values(2), shards=4, bounds="every constructor over every constructor over every leaf"),
            *([Section("depth 3", fn=b_values(3), shards=8, tiers=("thorough",), bounds="three constructors")] if t else []),
            Section("special", fn=b_special, bounds="Nothing, exceptions, sharing, arrays of every typecode"), Section("sizes", fn=b_sizes, bounds="up to 20000 elements"),
            Section("other process", fn=b_process, bounds="every value of depth 2, every protocol")]
