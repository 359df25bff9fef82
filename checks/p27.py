"""P27: casts decide by the run-time type alone and hand back the very value they were given."""
import abc
import collections
import collections.abc
import typing
from typing import Generic, Protocol, TypeVar, get_origin, runtime_checkable

from expression import Error, Nothing, Ok, Option, Result, Some, downcast, failwith, try_downcast, upcast
from expression.collections import Block, Map, Seq, TypedArray

from mc.core import Section, check
from mc.values import Exc, Hostile, Ident, agree, alphabet, outcome

T = "thorough"
BOUNDS = ("every value of a 60-value universe against each of 60 types (class lattices with diamonds, builtins with bool below int, abstract classes with registered "
          "and hooked subclasses, run-time protocols, metaclasses, generic and subscripted types, the package's own types), every pair of casts in sequence")
ASSUMPTIONS = ["assertions are enabled (no -O)", "types accepted by isinstance, or generic aliases of such types; unions and Any are not judged"]
X = TypeVar("X")


class A: ...
class B(A): ...
class C(A): ...
class D(B, C): ...


class Falsy(A):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


class Raiser(B):
    """Refuses to be compared, tested or counted."""
    __hash__ = None

    def __eq__(self, o):
        raise AssertionError("compared")

    def __bool__(self):
        raise AssertionError("tested")


class G(Generic[X]): ...
class GInt(G[int]): ...
class GList(list[X], Generic[X]): ...


class Shape(abc.ABC):
    @abc.abstractmethod
    def area(self): ...


class Square(Shape):
    def area(self):
        return 1


class Registered: ...


Shape.register(Registered)


class Hooked(abc.ABC):
    @classmethod
    def __subclasshook__(cls, c):
        return True if any("quack" in k.__dict__ for k in c.__mro__) else NotImplemented


class Duck:
    def quack(self): ...


class SubDuck(Duck): ...


@runtime_checkable
class HasArea(Protocol):
    def area(self): ...


@runtime_checkable
class Named(Protocol):
    name: str


class Meta(type):
    def __instancecheck__(cls, o):
        return getattr(o, "kind", None) == cls.__name__


class Kind(metaclass=Meta): ...


class HasKind:
    kind = "Kind"


class Claims:
    """Says it is a B without being one: isinstance believes it."""
    @property
    def __class__(self):
        return B


class NT(typing.NamedTuple):
    a: int
    b: int


class MyInt(int): ...
class MyErr(ValueError): ...


def values():
    nm = Duck()
    nm.name = "x"
    return [A(), B(), C(), D(), Falsy(), Raiser(), G(), G[int](), GInt(), GList([1]), Square(), Registered(), Duck(), SubDuck(), nm, HasKind(), Claims(),
            NT(1, 2), MyInt(0), MyErr("e"), collections.OrderedDict(), collections.deque(), range(3), (x for x in ()), set(), frozenset({1}), object(), type, A, Meta,
            Block([1]), Block([]), Map.empty(), Seq([1]), TypedArray([1]), Error(0), *alphabet()]


def types_():
    return [object, A, B, C, D, Falsy, Raiser, G, GInt, GList, Shape, Square, Registered, Hooked, Duck, SubDuck, HasArea, Named, Kind, NT, MyInt, MyErr,
            int, bool, float, str, bytes, tuple, list, dict, set, frozenset, type, range, type(None), Exception, ValueError, BaseException,
            collections.abc.Iterable, collections.abc.Sequence, collections.abc.Mapping, collections.abc.Callable, collections.abc.Hashable, collections.abc.Sized,
            Option, Result, Block, Map, Seq, TypedArray]


def generic():
    return [list[int], dict[str, int], tuple[int, ...], set[int], frozenset[int], type[int], typing.List[int], typing.Dict[str, int], typing.Sequence[int],
            collections.abc.Iterable[int], collections.abc.Sequence[int], collections.abc.Mapping[str, int], collections.abc.Callable[[int], int], collections.deque[int],
            G[int], G[str], GList[int], Option[int], Result[int, str], Block[int], Map[str, int], Seq[int], TypedArray[int], list[Option[int]], typing.List, typing.Sequence]


def inst(v, t):
    try:
        return isinstance(v, t)
    except AssertionError:
        return None


def b_all(st, tier):
    for n, t in enumerate(types_() + generic()):
        plain = n < len(types_())
        origin = t if plain else (get_origin(t) or t)
        for v in values():
            yes = inst(v, origin)
            if yes is None:
                continue  # this value does not let itself be asked
            d = dict(type=repr(t), value=type(v).__name__)
            agree(outcome(try_downcast, t, v), Ident(v) if yes else None, f"try_downcast to {t!r} of a {type(v).__name__}", **d)
            agree(outcome(upcast, t, v), Ident(v), f"upcast to {t!r} of a {type(v).__name__}", **d)
            if plain:
                agree(outcome(downcast, t, v), Ident(v) if yes else Exc(AssertionError), f"downcast to {t!r} of a {type(v).__name__}", **d)
            st.step(3)
        st.outcome(repr(t))


def b_pairs(st, tier):
    """Casting twice, in either order, is casting to both; nothing is remembered of earlier casts."""
    ts = types_()
    vs = values()
    ok = {(i, j): inst(v, t) for i, t in enumerate(ts) for j, v in enumerate(vs)}
    for i, t in enumerate(ts):
        for j, u in enumerate(ts):
            for k, v in enumerate(vs):
                if ok[i, k] is None or ok[j, k] is None:
                    continue
                a = try_downcast(t, v)
                b = try_downcast(u, v)
                if (a is v if ok[i, k] else a is None) is False or (b is v if ok[j, k] else b is None) is False:
                    agree(("ret", a), Ident(v) if ok[i, k] else None, f"try_downcast to {t!r} before {u!r}", value=type(v).__name__)
                    agree(("ret", b), Ident(v) if ok[j, k] else None, f"try_downcast to {u!r} after {t!r}", value=type(v).__name__)
                if ok[i, k] and ok[j, k]:
                    check(downcast(u, upcast(t, v)) is v, "a value cast up and down again is another one", up=t, down=u)
            st.step(len(vs))
        st.outcome(i)


def b_later(st, tier):
    """The answer follows the type as it is now: classes registered or changed later are seen."""
    class Late: ...

    class Iface(abc.ABC): ...

    class P1: ...

    class P2: ...

    class Moves(P1): ...

    x, m = Late(), Moves()
    agree(outcome(try_downcast, Iface, x), None, "before registration")
    Iface.register(Late)
    agree(outcome(try_downcast, Iface, x), Ident(x), "after registration")
    agree(outcome(downcast, Iface, x), Ident(x), "after registration")
    agree(outcome(try_downcast, P2, m), None, "before the bases changed")
    Moves.__bases__ = (P2,)
    agree(outcome(try_downcast, P2, m), Ident(m), "after the bases changed")
    agree(outcome(try_downcast, P1, m), None, "after the bases changed")
    x.__class__ = Moves
    agree(outcome(try_downcast, P2, x), Ident(x), "after the class changed")
    agree(outcome(downcast, Moves, x), Ident(x), "after the class changed")

    class Bad(type):
        def __instancecheck__(cls, o):
            raise KeyError("cannot tell")

    class Asks(metaclass=Bad): ...
    agree(outcome(try_downcast, Asks, 1), Exc(KeyError), "an instance check that raises")
    agree(outcome(downcast, Asks, 1), Exc(KeyError), "an instance check that raises")
    for v in ("", "boom", "%s {x} {", "\n" * 3, "é" * 1000):
        r = outcome(failwith, v)
        check(r[0] == "raise" and type(r[1]) is Exception and r[1].args == (v,), "failwith does not raise an Exception with the message", got=r)
        st.step()
    st.step(10)
    st.outcome(1)


def sections(tier):
    return [Section("all", fn=b_all, bounds="all types x all values"), Section("pairs", fn=b_pairs, bounds="all pairs of types x all values"),
            Section("later", fn=b_later, bounds="registration, changed bases and classes, raising checks")]
