"""The ways one function can be handed to a decorator: as itself, or as some other callable giving the same results."""
import functools


class Callable_:
    def __init__(self, fn):
        self.fn = fn

    def __call__(self, *a, **k):
        return self.fn(*a, **k)

    def method(self, *a, **k):
        return self.fn(*a, **k)


def shapes(fn):
    """(name, callable) for every way of wrapping fn; each gives exactly what fn gives."""
    @functools.wraps(fn)
    def wrapped(*a, **k):
        return fn(*a, **k)

    class Holder:
        stat = staticmethod(fn)

        @classmethod
        def cls(cls, *a, **k):
            return fn(*a, **k)

        def meth(self, *a, **k):
            return fn(*a, **k)
    return [
        ("function", fn),
        ("lambda", lambda *a, **k: fn(*a, **k)),
        ("wrapper", wrapped),
        ("partial", functools.partial(fn)),
        ("partial of lambda", functools.partial(lambda _, *a, **k: fn(*a, **k), 0)),
        ("callable object", Callable_(fn)),
        ("bound method", Callable_(fn).method),
        ("static method", Holder.stat),
        ("class method", Holder.cls),
        ("method", Holder().meth),
        ("partial method", functools.partial(Holder().meth)),
    ]
