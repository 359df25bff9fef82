"""P24: pydantic round trips of Option, Result and Block."""
import datetime as dt
import decimal
import enum
import itertools
import json
import typing
import uuid
import warnings
from typing import Annotated, Any, Literal, Optional, Union

from pydantic import BaseModel, Field, TypeAdapter, ValidationError

from expression import Error, Nothing, Ok, Option, Result, Some
from expression.collections import Block

from mc.core import Section, check, fail, short

BOUNDS = ("types: all nestings of Option/Result/Block/model over 17 leaf types to depth 2 (quick) / 3 (thorough, 6 leaf types), each as "
          "type adapter and as model field; values: all small values of each type (up to 40 quick / 200 thorough per type); documents: "
          "every JSON document of a universe of ~150 (scalars, lists, objects to depth 3) against every type of depth <= 2, accepted "
          "and decoded exactly when a recursive reference reader does; block lengths to 5000")
ASSUMPTIONS = ["the verdict of pydantic on leaf types (int, str, ...) is the reference for ill-typed content",
               "Some(x) whose x is itself written as null is not expressible in JSON and not judged",
               "objects with both an ok and an error field, or a tag that disagrees with the field in Python mode, are not judged",
               "an Option/Result/Block instance given directly in Python mode is trusted by the library; its content is not judged"]


class Color(enum.Enum):
    RED = "red"
    BLUE = "blue"


class Inner(BaseModel):
    a: int
    b: str = "d"


class Deep(BaseModel):
    o: Option[int] = Nothing
    r: Result[int, str] = Error("dflt")
    bl: Block[int] = Block.empty()


Pos = Annotated[int, Field(gt=0)]

LEAVES = {
    "int": (int, [0, 1, -3, 10**12]),
    "str": (str, ["", "x", "null", "ok", "é\u2028\""]),
    "bool": (bool, [False, True]),
    "float": (float, [0.0, 1.5, -2.0]),
    "pos": (Pos, [1, 7]),
    "inner": (Inner, [Inner(a=0), Inner(a=2, b="")]),
    "deep": (Deep, [Deep(), Deep(o=Some(0), r=Ok(0), bl=Block.of(0, 1))]),
    "color": (Color, [Color.RED, Color.BLUE]),
    "lit": (Literal["a", "b"], ["a", "b"]),
    "date": (dt.date, [dt.date(2020, 1, 2)]),
    "uuid": (uuid.UUID, [uuid.UUID(int=5)]),
    "dec": (decimal.Decimal, [decimal.Decimal("1.50"), decimal.Decimal(0)]),
    "list": (list[int], [[], [0, 1]]),
    "tuple": (tuple[int, str], [(0, ""), (1, "y")]),
    "dict": (dict[str, int], [{}, {"ok": 1}, {"tag": 0, "some": 2}]),
    "union": (Union[int, str], [5, "5", ""]),
    "any": (Any, [None, 0, "", [1], {"a": 1}, True]),
}
CORE = ["int", "str", "bool", "inner", "list", "union"]


class TNode:
    def __init__(self, kind, args=(), leaf=None):
        self.kind, self.args, self.leaf = kind, args, leaf

    def __repr__(self):
        if self.kind == "leaf":
            return self.leaf
        return f"{self.kind}[{', '.join(map(repr, self.args))}]"

    @property
    def py(self):
        if self.kind == "leaf":
            return LEAVES[self.leaf][0]
        if self.kind == "Option":
            return Option[self.args[0].py]
        if self.kind == "Result":
            return Result[self.args[0].py, self.args[1].py]
        if self.kind == "Block":
            return Block[self.args[0].py]
        if self.kind == "model":
            return model_for(self.args[0])
        raise AssertionError


_models = {}


def model_for(t):
    key = repr(t)
    if key not in _models:
        _models[key] = type("M" + str(len(_models)), (BaseModel,), {"__annotations__": {"f": t.py, "g": int}, "__module__": __name__, "g": 9})
    return _models[key]


def L(n):
    return TNode("leaf", leaf=n)


def types(depth, leaves):
    level = [L(n) for n in leaves]
    allt = list(level)
    for _ in range(depth):
        nxt = []
        for t in level:
            nxt.append(TNode("Option", (t,)))
            nxt.append(TNode("Block", (t,)))
            nxt.append(TNode("Result", (t, L("str"))))
            nxt.append(TNode("Result", (L("int"), t)))
            nxt.append(TNode("Result", (t, t)))
            if t.kind != "leaf":
                nxt.append(TNode("model", (t,)))
        level = nxt
        allt += nxt
    return allt


def values(t, cap):
    """All small values of the type (bounded), as (value, null?) where null? says it is written as null."""
    k = t.kind
    if k == "leaf":
        return [(v, v is None) for v in LEAVES[t.leaf][1]][:cap]
    if k == "Option":
        return [(Nothing, True)] + [(Some(v), False) for v, n in values(t.args[0], cap) if not n]
    if k == "Result":
        return [(Ok(v), False) for v, _ in values(t.args[0], cap // 2)] + [(Error(v), False) for v, _ in values(t.args[1], cap // 2)]
    if k == "Block":
        inner = [v for v, _ in values(t.args[0], cap)]
        small = inner[:max(2, min(5, cap // 8))]
        out = [()] + [(v,) for v in inner] + list(itertools.product(small, repeat=2)) + [tuple(small[:2] * 2), tuple(reversed(inner))]
        return [(Block.of_seq(x), False) for x in out][:cap]
    return [(model_for(t.args[0])(f=v, g=i), False) for i, (v, _) in enumerate(values(t.args[0], cap))]


def same(a, b):
    if isinstance(a, Option) or isinstance(b, Option):
        if not (isinstance(a, Option) and isinstance(b, Option)) or a.tag != b.tag:
            return False
        if a.tag == "none":
            return b is Nothing
        return same(a.some, b.some)
    if isinstance(a, Result) or isinstance(b, Result):
        if not (isinstance(a, Result) and isinstance(b, Result)) or a.tag != b.tag:
            return False
        return same(a.ok, b.ok) if a.tag == "ok" else same(a.error, b.error)
    if isinstance(a, Block) or isinstance(b, Block):
        return isinstance(a, Block) and isinstance(b, Block) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if type(a) is not type(b):
        return False
    if isinstance(a, BaseModel):
        return all(same(getattr(a, f), getattr(b, f)) for f in type(a).model_fields)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    return a == b


_ad = {}


def adapter(py, key=None):
    key = key or repr(py)
    if key not in _ad:
        _ad[key] = TypeAdapter(py)
    return _ad[key]


def plain(x):
    """No value of the library is left in written data."""
    if isinstance(x, (Option, Result, Block, BaseModel)):
        return False
    if isinstance(x, dict):
        return all(plain(y) for y in x.values())
    return all(plain(y) for y in x) if isinstance(x, (list, tuple)) else True


def trips(st, A, v, t, ctx=""):
    def back(how, data, f, **kw):
        try:
            got = f(data, **kw)
        except Exception as e:  # noqa: BLE001
            fail(f"{ctx}{t}: what was written by {how} cannot be read back: {type(e).__name__}: {str(e)[:300]}", value=v, written=data)
        check(same(v, got), f"{ctx}{t}: {how} does not round trip", value=v, written=data, read=got)
        st.step()

    try:
        js = A.dump_json(v)
        py = A.dump_python(v)
        pj = A.dump_python(v, mode="json")
    except Exception as e:  # noqa: BLE001
        fail(f"{ctx}{t}: the value cannot be written: {type(e).__name__}: {str(e)[:300]}", value=v)
    if isinstance(v, (Option, Result, Block)) and isinstance(t, TNode):
        check(plain(py) and plain(pj), f"{ctx}{t}: the Python data still holds values of the library", value=v, written=py)
        d = v.dict()
        check(plain(d), f"{ctx}{t}: dict() still holds values of the library", value=v, written=d)
        back("dict()", d, A.validate_python)
    back("dump_json", js, A.validate_json)
    back("dump_json as text", js.decode(), A.validate_json)
    back("dump_python", py, A.validate_python)
    back("dump_python(mode=json)", pj, A.validate_python)
    back("re-encoded JSON", json.dumps(pj), A.validate_json)
    back("instance", v, A.validate_python)
    back("second dump", A.dump_json(A.validate_json(js)), A.validate_json)
    check(json.loads(js) == json.loads(json.dumps(pj)), f"{ctx}{t}: the two JSON forms differ", a=js, b=pj)


def body_round(depth, leaves, cap):
    ts = [t for t in types(depth, leaves) if t.kind != "leaf"]

    def body(ch, st):
        warnings.simplefilter("ignore")
        t = ts[ch.choose(len(ts), None)]
        try:
            A = TypeAdapter(t.py)
            M = model_for(t)
        except Exception as e:  # noqa: BLE001
            fail(f"no schema for {t}: {type(e).__name__}: {e}")
        MA = TypeAdapter(M)
        vs = values(t, cap)
        for v, null in vs:
            trips(st, A, v, t)
        for v, null in vs[:max(4, cap // 4)]:
            m = M(f=v)
            check(same(m.f, v), f"{t}: model field changed its value", value=v, got=m.f)
            js = m.model_dump_json()
            m2 = M.model_validate_json(js)
            check(same(m, m2) and m == m2, f"model with {t}: JSON round trip", value=v, written=js, read=m2)
            m3 = M.model_validate(m.model_dump())
            check(same(m, m3), f"model with {t}: Python round trip", value=v, written=m.model_dump(), read=m3)
            m4 = M(**m.model_dump())
            check(same(m, m4), f"model with {t}: keyword round trip", value=v, read=m4)
            st.step(3)
        st.outcome(repr(t))
    return body, len(ts)


# --- documents against the reference reader --------------------------------------
class Reject(Exception):
    pass


class Unjudged(Exception):
    pass


def read(t, doc, mode):
    k = t.kind
    if k == "leaf":
        A = adapter(LEAVES[t.leaf][0], "leaf" + t.leaf)
        try:
            return A.validate_json(json.dumps(doc)) if mode == "json" else A.validate_python(doc)
        except ValidationError:
            raise Reject from None
    if k == "Option":
        if doc is None:
            return Nothing
        return Some(read(t.args[0], doc, mode))
    if k == "Block":
        if mode == "python" and isinstance(doc, str):
            raise Unjudged  # a Python str is a sequence too
        if not isinstance(doc, list):
            raise Reject
        return Block.of_seq([read(t.args[0], d, mode) for d in doc])
    if k == "Result":
        if not isinstance(doc, dict):
            raise Reject
        has = [x for x in ("ok", "error") if x in doc]
        if len(has) == 2:
            raise Unjudged
        if not has:
            raise Reject
        if set(doc) - {"tag", "ok", "error"}:
            raise Unjudged
        c = has[0]
        if mode == "json" and doc.get("tag") != c:
            raise Reject
        if mode == "python" and "tag" in doc and doc["tag"] != c:
            raise Unjudged
        v = read(t.args[0 if c == "ok" else 1], doc[c], mode)
        return Ok(v) if c == "ok" else Error(v)
    if not isinstance(doc, dict) or "f" not in doc:
        raise Reject
    if set(doc) - {"f", "g"}:
        raise Unjudged
    g = read(L("int"), doc.get("g", 9), mode)
    return model_for(t.args[0]).model_construct(f=read(t.args[0], doc["f"], mode), g=g)


def universe():
    sc = [None, 0, 1, -1, 2.5, True, False, "", "1", "x", "ok", "red"]
    d1 = [[]] + [[s] for s in sc] + [[1, None], [None, "x"], [1, "x"], ["x", 1], [None, None], [1, 2, "z"]]
    objs = [{}]
    for c in ("ok", "error"):
        for s in sc[:9] + [[], [1], [None], {"a": 1}, {"tag": "ok", "ok": 1}, {"tag": "error", "error": "e"}, {"tag": "ok", "ok": None},
                           {"ok": 1}, {"f": 1}]:
            objs.append({"tag": c, c: s})
        objs += [{c: 1}, {c: "s"}, {c: None}, {"tag": c}, {"tag": "zz", c: 1}, {"tag": None, c: 1}, {"tag": [c], c: 1}]
    objs += [{"tag": "ok", "error": "e"}, {"tag": "error", "ok": 1}, {"some": 1}, {"none": None}, {"tag": "some", "some": 1}, {"a": 1},
             {"a": "x"}, {"f": 1}, {"f": None}, {"f": [1]}, {"f": "x"}, {"f": {"tag": "ok", "ok": 1}}, {"g": 1}]
    nested = [[[]], [[1]], [[None]], [[1], "x"], [[1], None], [{}], [{"tag": "ok", "ok": 1}], [{"tag": "error", "error": "e"}, {"tag": "ok", "ok": 1}],
              [{"tag": "ok", "ok": "x"}], [{"tag": "ok", "ok": 1}, 5], [{"a": 1}], [{"a": 1}, {"b": 2}], [[["x"]]],
              [{"tag": "ok", "ok": [1, "x"]}], {"tag": "ok", "ok": [1, 2]}, {"tag": "ok", "ok": [1, "x"]},
              {"tag": "ok", "ok": {"tag": "error", "error": 5}}, {"tag": "error", "error": ["e"]}, {"tag": "error", "error": {"tag": "ok", "ok": 1}}]
    return sc + d1 + objs + nested


def body_docs(depth, leaves):
    ts = [t for t in types(depth, leaves) if t.kind != "leaf"]
    docs = universe()

    def body(ch, st):
        warnings.simplefilter("ignore")
        t = ts[ch.choose(len(ts))]
        A = TypeAdapter(t.py)
        acc = 0
        for doc in docs:
            for mode in ("json", "python"):
                try:
                    exp = ("ok", read(t, doc, mode))
                    acc += 1
                except Reject:
                    exp = ("reject", None)
                except Unjudged:
                    continue
                try:
                    got = ("ok", A.validate_json(json.dumps(doc)) if mode == "json" else A.validate_python(doc))
                except ValidationError:
                    got = ("reject", None)
                except Exception as e:  # noqa: BLE001
                    fail(f"{t}: {mode} document raises {type(e).__name__} instead of a validation error: {e}", document=doc)
                if exp[0] != got[0]:
                    fail(f"{t}: {mode} document should be {'accepted' if exp[0] == 'ok' else 'rejected'}", document=doc, got=got, expected=exp)
                if exp[0] == "ok":
                    check(same(exp[1], got[1]), f"{t}: {mode} document decoded wrongly", document=doc, got=got[1], expected=exp[1])
                st.step()
        st.outcome((repr(t), acc))
    return body, len(ts)


def fn_misc(st, tier):
    warnings.simplefilter("ignore")
    # missing field with default, unparameterised containers, lengths, malformed text
    class M(BaseModel):
        a: Option[int] = Nothing
        b: Block[str] = Block.empty()
        r: Result[int, str] = Ok(0)
    for js, exp in [("{}", (Nothing, [], Ok(0))), ('{"a":null}', (Nothing, [], Ok(0))), ('{"a":0}', (Some(0), [], Ok(0))),
                    ('{"b":[""]}', (Nothing, [""], Ok(0))), ('{"r":{"tag":"error","error":""}}', (Nothing, [], Error("")))]:
        for m in (M.model_validate_json(js), M.model_validate(json.loads(js)), M(**json.loads(js))):
            check(same(m.a, exp[0]) and same(m.b, Block.of_seq(exp[1])) and same(m.r, exp[2]), "model with defaults", json=js, got=m)
            check(same(M.model_validate_json(m.model_dump_json()), m), "model with defaults round trips", got=m)
            st.step(2)
    for bad in ('{"a":"x"}', '{"a":[]}', '{"b":null}', '{"b":[1]}', '{"b":{}}', '{"r":null}', '{"r":1}', '{"r":{"tag":"ok","ok":"x"}}',
                '{"r":{"tag":"error","error":5}}', '{"a":{"some":1}}'):
        for f in (M.model_validate_json, lambda s: M.model_validate(json.loads(s)), lambda s: M(**json.loads(s))):
            try:
                m = f(bad)
            except ValidationError:
                st.step()
            else:
                fail("ill-typed model data was accepted", json=bad, got=m)
    for T in (Option, Result, Block, Option[Any], Result[Any, Any], Block[Any], Option[Result], Block[Option], Option[Block]):
        A = TypeAdapter(T)
        vs = {"Option": [Nothing, Some(1), Some("x"), Some([1])], "Result": [Ok(1), Error("e"), Ok(None), Error(None)],
              "Block": [Block.empty(), Block.of(1, "x", None)]}
        if T == Option[Result]:
            xs = [Nothing, Some(Ok(1)), Some(Error(0))]
        elif T == Block[Option]:
            xs = [Block.of(Nothing, Some(1))]
        elif T == Option[Block]:
            xs = [Some(Block.empty()), Nothing, Some(Block.of(0))]
        else:
            xs = vs[(typing.get_origin(T) or T).__name__]
        for v in xs:
            trips(st, A, v, T)
    for n in list(range(0, 40)) + [99, 100, 255, 256, 1000, 5000, 20000]:
        b = Block.of_seq(range(n))
        trips(st, adapter(Block[int]), b, "Block[int]")
        ob = Block.of_seq([Some(i) if i % 3 else Nothing for i in range(n)])
        trips(st, adapter(Block[Option[int]]), ob, "Block[Option[int]]")
        rb = Block.of_seq([Ok(i) if i % 2 else Error(i) for i in range(n)])
        trips(st, adapter(Block[Result[int, int]]), rb, "Block[Result[int, int]]")
        b2 = Block.empty()
        for i in range(min(n, 300)):
            b2 = b2.cons(i)
        trips(st, adapter(Block[int]), b2, "Block[int] built by cons")
        st.outcome(n)
    t = int
    v = 7
    for d in range(1, 13):
        t, v = (Block[t], Block.of(v)) if d % 3 == 0 else (Result[t, str], Ok(v)) if d % 3 == 1 else (Option[t], Some(v))
        trips(st, TypeAdapter(t), v, f"depth {d}")
    # mixed instances and plain data in Python mode
    A = adapter(Block[Option[int]])
    for items in itertools.product([Some(1), Nothing, None, 2, Some(0)], repeat=3):
        got = A.validate_python(list(items))
        exp = Block.of_seq([i if isinstance(i, Option) else Nothing if i is None else Some(i) for i in items])
        check(same(got, exp), "mixed plain data and instances", given=items, got=got)
        st.step()
    A = adapter(Option[Result[int, str]])
    for x, exp in [(Ok(1), Some(Ok(1))), (Some(Error("e")), Some(Error("e"))), (None, Nothing), ({"ok": 3}, Some(Ok(3)))]:
        check(same(A.validate_python(x), exp), "mixed plain data and instances", given=x, got=A.validate_python(x))
        st.step()
    # containers in ordinary collections outside
    for T, v in [(list[Option[int]], [Some(1), Nothing]), (dict[str, Result[int, str]], {"a": Ok(1), "b": Error("")}),
                 (tuple[Block[int], Option[str]], (Block.of(1), Some(""))), (Optional[Block[Option[int]]], Block.of(Nothing)),
                 (Union[Block[int], str], "x"), (Union[Block[int], str], Block.of(1))]:
        trips(st, TypeAdapter(T), v, T)


def fn_known(st, tier):
    """Ordinary collections between two of the containers (listed finding)."""
    warnings.simplefilter("ignore")
    for T, v in [(Option[list[Option[int]]], Some([Some(1), Nothing])), (Result[list[Option[int]], str], Ok([Some(1)])),
                 (Block[dict[str, Option[int]]], Block.of({"a": Some(1)})), (Option[tuple[Block[int], int]], Some((Block.of(1), 2)))]:
        A = TypeAdapter(T)
        try:
            ok = same(A.validate_json(A.dump_json(v)), v)
        except Exception:  # noqa: BLE001
            ok = False
        if not ok:
            st.finding("std-collection-between", f"{T} {v!r}")
        st.step()


def sections(tier):
    th = tier == "thorough"
    b1, n1 = body_round(2, list(LEAVES) if th else list(LEAVES), 200 if th else 24)
    b2, n2 = body_docs(2, [x for x in LEAVES if x != "dec"] if th else ["int", "str", "inner", "list", "union", "any"])
    out = [
        Section("round-trip", b1, shards=8, bounds=f"{n1} types"),
        Section("documents", b2, shards=6, bounds=f"{n2} types x {len(universe())} documents x 2 modes"),
        Section("misc", fn=fn_misc),
        Section("std-collections", fn=fn_known),
    ]
    if th:
        b3, n3 = body_round(3, CORE, 40)
        b4, n4 = body_docs(3, ["int", "str", "inner"])
        out += [Section("round-trip-3", b3, shards=16, bounds=f"{n3} types"), Section("documents-3", b4, shards=16, bounds=f"{n4} types")]
    return out
