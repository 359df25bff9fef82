"""Exceptions of every kind a callback or body may raise; none of them is special to the library."""
import asyncio
import concurrent.futures


class Base(Exception):
    pass


class Falsy(ValueError):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


class Alike(Exception):
    def __eq__(self, o):
        return True
    __hash__ = Exception.__hash__


class Meta(BaseException):
    pass


class NoArgs(Exception):
    def __init__(self):
        pass

    def __str__(self):
        raise RuntimeError("not to be printed")
    __repr__ = __str__


def kinds():
    """Fresh exceptions; StopIteration and StopAsyncIteration are not here: Python itself turns them into RuntimeError in generators."""
    chained = Base("outer")
    chained.__cause__ = KeyError("inner")
    return [Base("b"), Falsy(""), Alike("a"), NoArgs(), Exception(), Exception(None), Exception("e", 1), Exception(Base("nested")), ValueError("v"), TypeError("t"), KeyError("k"), IndexError(0),
            AttributeError("x"), NameError("n"), LookupError(), ArithmeticError(), ZeroDivisionError(), OverflowError(), AssertionError(), NotImplementedError(), RuntimeError("r"),
            RuntimeError("generator raised StopIteration"), RecursionError("r"), MemoryError(), OSError(2, "no"), FileNotFoundError(), TimeoutError(), ConnectionError(), EOFError(), BufferError(),
            asyncio.InvalidStateError(), asyncio.IncompleteReadError(b"", 1), asyncio.QueueEmpty(), concurrent.futures.BrokenExecutor(), UnicodeDecodeError("utf-8", b"", 0, 1, "x"),
            DeprecationWarning("w"), ExceptionGroup("g", [Base("1"), ValueError("2")]), BaseExceptionGroup("g", [Meta("m")]), chained, asyncio.CancelledError("c"), Meta("m"), KeyboardInterrupt(),
            SystemExit(3)]
