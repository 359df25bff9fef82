"""P30: an operation interrupted at any point leaves every value, function and parser as it was."""
import itertools

from checks import p25
from mc import sched
from mc.core import Section, check, fail
from mc.values import matches, outcome

T = "thorough"
BOUNDS = ("every operation of 22 kinds of objects (about 240 operations), interrupted by an exception at every single bytecode of the package that reads or writes an "
          "object, makes a call or iterates, and in every callback; afterwards that operation and all others of the kind are run again on the same objects; "
          "every operation interrupted 1500 (thorough: 6000) times in a row on the same objects, at each of its points in turn; "
          "thorough: every pair of interrupts in two successive operations (all kinds but maps and parsers)")
ASSUMPTIONS = ["an interrupt arrives between bytecodes (CPython delivers signals there)"]


def twice(subject):
    """Operation i is interrupted, then operation j is, then both are run."""
    name, make = subject

    def run(st, tier, shard):
        ops0 = make(10000)
        pts = [sched.interrupted(o[1], -1)[1] for o in ops0]
        salt = itertools.cycle(range(10000, 98000, 200))
        for i in range(len(ops0)):
            for k in range(1 + shard[0], pts[i] + 1, shard[1]):
                for j in range(len(ops0)):
                    for k2 in range(1, pts[j] + 1):
                        ops = make(next(salt))
                        sched.interrupted(ops[i][1], k)
                        sched.interrupted(ops[j][1], k2)
                        for q in {i, j}:
                            r = outcome(ops[q][1])
                            if r[0] == "raise" or not matches(r[1], ops[q][2]):
                                fail(f"{ops[q][0]} of a {name} gives another result after two interrupts", first=(ops[i][0], k), second=(ops[j][0], k2), got=r, expected=ops[q][2])
                        st.step(4)
                        st.executions += 1
            st.outcome((name, ops0[i][0]))
    return run


def body(subject):
    name, make = subject

    def run(st, tier, shard=(0, 1)):
        ops0 = make(10000)
        salt = itertools.cycle(range(10000, 98000, 200))
        for i in range(shard[0], len(ops0), shard[1]):
            points = sched.interrupted(ops0[i][1], -1)[1]
            for k in range(1, points + 1):
                ops = make(next(salt))
                r, n = sched.interrupted(ops[i][1], k)
                ctx = dict(operation=ops[i][0], interrupted_at_point=k, of=points)
                if n < k:
                    # fewer points than the first time (something is remembered between calls): nothing was interrupted
                    if r[0] != "ret" or not matches(r[1], ops[i][2]):
                        fail(f"{ops[i][0]} of a {name} gave another result", got=r, expected=ops[i][2], **ctx)
                    continue
                if r[0] == "ret":
                    fail(f"{ops[i][0]} of a {name} swallowed the interrupt", got=r[1], **ctx)
                if not isinstance(r[1], sched.Interrupt):
                    fail(f"{ops[i][0]} of a {name} turned the interrupt into {type(r[1]).__name__}: {r[1]}", **ctx)
                for q in range(len(ops)):
                    r = outcome(ops[q][1])
                    if r[0] == "raise" or not matches(r[1], ops[q][2]):
                        fail(f"{ops[q][0]} of a {name} gives another result after {ops[i][0]} was interrupted", got=r, expected=ops[q][2], **ctx)
                st.step(1 + len(ops))
                st.executions += 1
            st.outcome((name, ops0[i][0], points))
    return run


def often(subject, rounds):
    """Operation i is interrupted again and again, at each of its points in turn, always on the same objects."""
    name, make = subject

    def run(st, tier, shard=(0, 1)):
        n = len(make(10000))
        for i in range(shard[0], n, shard[1]):
            ops = make(10000 + 200 * i)
            points = sched.interrupted(ops[i][1], -1)[1]
            if not points:
                continue
            for r in range(rounds):
                sched.interrupted(ops[i][1], r % points + 1)
            for q in range(n):
                r = outcome(ops[q][1])
                if r[0] == "raise" or not matches(r[1], ops[q][2]):
                    fail(f"{ops[q][0]} of a {name} gives another result after {ops[i][0]} was interrupted {rounds} times", got=r, expected=ops[q][2], interrupted=ops[i][0])
            st.step(rounds + n)
            st.executions += 1
            st.outcome((name, ops[i][0]))
    return run


def sections(tier):
    t = tier == T
    rounds = 6000 if t else 1500
    return [Section(s[0] + " often", fn=often(s, rounds), shards=4, bounds=f"every operation interrupted {rounds} times on the same objects, at each of its points in turn") for s in p25.SUBJECTS + p25.SUBJECTS2] + [
        Section(s[0], fn=body(s), shards=4 if s[0] in ("map", "parser", "effects", "seq", "async") or "rest" in s[0] or t else 1, bounds="every operation, every point") for s in p25.SUBJECTS + p25.SUBJECTS2] + [
        Section(s[0] + " twice", fn=twice(s), shards=16, tiers=("thorough",), bounds="every pair of interrupts in two successive operations")
        for s in p25.SUBJECTS if t and s[0] not in ("map", "parser")]
