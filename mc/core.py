"""Exhaustive exploration engine shared by all checks.

An *execution* is a deterministic function ``body(ch)`` over the real code in
/repo.  Every source of nondeterminism in it (which value, which operation,
which thread or callback runs next, what the environment answers) is one call
of ``ch.choose(n)``.  ``explore`` enumerates *all* choice sequences depth
first; the sequence of choices identifies the execution and is what a replay
file stores.
"""
from __future__ import annotations

import hashlib
import itertools
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

sys.dont_write_bytecode = True


class Violation(Exception):
    """The property does not hold on the current execution."""


class Prune(Exception):
    """The current execution is outside the stated bound; not a verdict."""


class Diverged(Exception):
    """The same choice prefix did not lead to the same execution (the code under test is not deterministic there)."""


class HarnessError(Exception):
    """The harness itself is wrong (nondeterministic replay, bad choice)."""


class Hang(BaseException):
    """Raised by the watchdog inside a non-terminating execution."""


def fail(msg, **kw):
    detail = "".join(f"\n    {k} = {short(v)}" for k, v in kw.items())
    raise Violation(msg + detail)


def check(cond, msg, **kw):
    if not cond:
        fail(msg, **kw)


def short(v, limit=400):
    try:
        s = repr(v)
    except BaseException as e:  # noqa: BLE001 - values may have hostile reprs
        s = f"<{type(v).__name__} with failing repr: {type(e).__name__}>"
    return s if len(s) <= limit else s[:limit] + "..."


class Choices:
    """One execution's choice sequence: replays ``prefix``, then takes 0."""

    __slots__ = ("prefix", "taken", "sizes", "labels", "devs", "dev_bound", "shard")

    def __init__(self, prefix=(), dev_bound=None, shard=None):
        self.prefix = prefix
        self.taken = []
        self.sizes = []
        self.labels = []
        self.devs = 0
        self.dev_bound = dev_bound
        self.shard = shard

    def choose(self, n, label=None):
        """Pick one of ``range(n)``; every alternative gets explored."""
        if n <= 0:
            raise HarnessError("choose() from an empty set")
        i = len(self.taken)
        if i < len(self.prefix):
            c = self.prefix[i]
            if c >= n:
                raise Diverged(f"choice {c} of {n} at point {i}")
        else:
            c = 0
            if i == 0 and self.shard:
                c = self.shard[0]
                if c >= n:
                    raise Prune("empty shard")
        self.taken.append(c)
        self.sizes.append(n)
        if label is not None:
            self.labels.append(label if not callable(label) else label(c))
        return c

    def deviate(self, n, label=None):
        """Like choose, but alternatives other than 0 cost one deviation."""
        if n > 1 and self.dev_bound is not None and self.devs >= self.dev_bound:
            n_eff = 1
        else:
            n_eff = n
        c = self.choose(n_eff, label)
        if c:
            self.devs += 1
        return c

    def pick(self, seq, label=None):
        c = self.choose(len(seq))
        v = seq[c]
        if label is not None:
            self.labels.append((label, short(v, 60)))
        return v

    def flag(self):
        return bool(self.choose(2))


class Stats:
    def __init__(self):
        self.executions = 0
        self.transitions = 0
        self.outcomes = set()
        self.states = 0
        self.samples = []
        self.notes = {}
        self.max_depth = 0
        self.findings = {}

    def step(self, n=1):
        self.transitions += n

    def outcome(self, key):
        self.outcomes.add(hashlib.blake2b(repr(key).encode("utf-8", "replace"), digest_size=8).digest())

    def sample(self, s, cap=3):
        if len(self.samples) < cap:
            self.samples.append(s)

    def note(self, key, value):
        self.notes[key] = value

    def max(self, key, value):
        if key not in self.notes or self.notes[key] < value:
            self.notes[key] = value

    def finding(self, key, what):
        """Record a listed, known finding as observed."""
        self.findings[key] = what

    def dump(self):
        return dict(
            executions=self.executions,
            transitions=self.transitions,
            outcomes=list(self.outcomes),
            states=self.states,
            samples=self.samples,
            notes=self.notes,
            max_depth=self.max_depth,
            findings=self.findings,
        )


EXEC_LIMIT_S = 60.0


def _on_alarm(signum, frame):
    raise Hang()


class watchdog:
    """Bounds one execution's wall time; generous, so only real hangs trip it."""

    def __init__(self, limit=None):
        self.limit = limit or EXEC_LIMIT_S

    def __enter__(self):
        signal.signal(signal.SIGALRM, _on_alarm)
        signal.setitimer(signal.ITIMER_REAL, self.limit, 5.0)

    def __exit__(self, *exc):
        signal.setitimer(signal.ITIMER_REAL, 0)
        return False


def run_one(body, ch, st):
    """Run one execution; any failure of the code under test is a Violation."""
    try:
        body(ch, st)
    except (Violation, Prune, HarnessError, Diverged):
        raise
    except Hang:
        raise Violation(f"the execution did not terminate within {EXEC_LIMIT_S:.0f} s") from None
    except RecursionError as e:
        raise Violation("stack exhausted (RecursionError)\n" + tb_tail(e)) from None
    except MemoryError:
        raise Violation("memory exhausted") from None
    except Exception as e:  # noqa: BLE001
        raise Violation(f"unexpected {type(e).__name__}: {e}\n{tb_tail(e)}") from None


def tb_tail(e, n=8):
    return "".join(traceback.format_exception(type(e), e, e.__traceback__)[-n:])


def explore(body, st, dev_bound=None, shard=None, max_exec=None, wd=True):
    """Enumerate every choice sequence of ``body`` depth first.

    ``shard=(i, n)`` restricts the first choice to alternatives = i mod n.
    Returns the number of executions.
    """
    prefix, psizes = [], []
    n = retries = 0
    wd_at = time.monotonic()
    if wd:
        signal.signal(signal.SIGALRM, _on_alarm)
        signal.setitimer(signal.ITIMER_REAL, EXEC_LIMIT_S, 5.0)
    try:
        while True:
            ch = Choices(prefix, dev_bound, shard)
            try:
                run_one(body, ch, st)
            except Prune:
                pass
            except Diverged:
                ch.taken = ch.taken[:0]
            except Violation as v:
                v.choices = list(ch.taken)
                v.labels = list(ch.labels)
                raise
            n += 1
            if wd and not n % 16:
                now = time.monotonic()
                if now - wd_at > 1.0:
                    signal.setitimer(signal.ITIMER_REAL, EXEC_LIMIT_S, 5.0)
                    wd_at = now
            if len(ch.taken) < len(prefix):
                # e.g. an iteration order that depends on addresses: try again, then leave this branch out
                st.notes["diverged_replays"] = st.notes.get("diverged_replays", 0) + 1
                retries += 1
                if retries <= 3:
                    continue
                ch.taken, ch.sizes = prefix, psizes
            retries = 0
            if len(ch.taken) > st.max_depth:
                st.max_depth = len(ch.taken)
            if n <= 2 or (n & (n - 1)) == 0:
                if len(st.samples) < 3:
                    st.samples.append({"choices": list(ch.taken), "labels": [str(x) for x in ch.labels][:40]})
            # next sequence in lexicographic order
            taken, sizes = ch.taken, ch.sizes
            i = len(taken) - 1
            while i >= 0:
                step = shard[1] if (i == 0 and shard) else 1
                if taken[i] + step < sizes[i]:
                    prefix, psizes = taken[:i] + [taken[i] + step], sizes[:i + 1]
                    break
                i -= 1
            else:
                break
            if max_exec is not None and n >= max_exec:
                raise HarnessError(f"execution cap {max_exec} hit: enlarge the cap or shrink the bound")
    finally:
        if wd:
            signal.setitimer(signal.ITIMER_REAL, 0)
    st.executions += n
    return n


# ---------------------------------------------------------------------------
# Sections, parallel runner, evidence
# ---------------------------------------------------------------------------
class Section:
    """One exploration: ``fn(st, tier)``; reproducible via its own name."""

    def __init__(self, name, body=None, fn=None, dev_bound=None, shards=1, tiers=("quick", "thorough"), bounds="",
                 wd=True):
        self.name, self.body, self.fn = name, body, fn
        self.dev_bound, self.shards, self.tiers, self.bounds, self.wd = dev_bound, shards, tiers, bounds, wd

    def run(self, st, shard, tier):
        if self.fn is not None:
            if self.shards > 1:
                self.fn(st, tier, shard)
            else:
                self.fn(st, tier)
        else:
            explore(self.body, st, dev_bound=self.dev_bound, shard=shard if self.shards > 1 else None, wd=self.wd)


def _limit():
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass


def _child(sec, shard, tier, conn):
    _limit()
    st = Stats()
    t0 = time.time()
    msg = None
    try:
        sec.run(st, shard, tier)
        st.executions = st.executions or 1
        if not st.samples:
            st.samples.append({"case": sec.bounds or "the whole section is one complete sweep", "operations": st.transitions})
        msg = ("ok", st.dump(), time.time() - t0)
    except Violation as v:
        msg = ("violation", st.dump(), str(v), getattr(v, "choices", None), [str(x) for x in getattr(v, "labels", None) or []])
    except HarnessError as e:
        # Divergence while replaying: the code under test is nondeterministic
        # for an identical schedule/history.
        msg = ("harness", st.dump(), f"HarnessError: {e}\n{tb_tail(e)}")
    except Hang:
        msg = ("violation", st.dump(), "the section did not terminate", None, [])
    except MemoryError:
        msg = ("violation", st.dump(), "memory exhausted", None, [])
    except BaseException as e:  # noqa: BLE001
        msg = ("violation", st.dump(), f"unexpected {type(e).__name__}: {e}\n{tb_tail(e)}", None, [])
    try:
        conn.send(msg)
        conn.close()
    finally:
        os._exit(0)


def import_repo():
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import expression

    f = os.path.realpath(expression.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise SystemExit(f"expression imported from {f}, not from {REPO}")
    return expression


def load_known(pid):
    """Known findings of a property: {key: text} (open), fixed ones ignored."""
    out = {}
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known: "):
                parts = line[len("known: "):].split(" ", 2)
                d = dict(p.split("=", 1) for p in parts[:2])
                if d.get("property") == pid:
                    out[d["key"]] = parts[2]
    return out


def run_check(pid, sections, assumptions=(), bounds="", tier=None, budget=None):
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    jobs = []
    for s in sections:
        if tier not in s.tiers:
            continue
        for i in range(s.shards):
            jobs.append((s, (i, s.shards)))
    par = min(8, os.cpu_count() or 1)
    limit = budget or (800 if tier == "quick" else 6 * 3600)
    running, results, violation, harness = [], [], None, None
    queue = list(jobs)
    ctx = mp.get_context("fork")
    sec_time = {}
    while queue or running:
        while queue and len(running) < par:
            sec, shard = queue.pop(0)
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=_child, args=(sec, shard, tier, b), daemon=True)
            p.start()
            b.close()
            running.append((sec, shard, p, a, time.time()))
        ready = mp.connection.wait([r[3] for r in running], timeout=1.0)
        for r in list(running):
            sec, shard, p, a, ts = r
            if a in ready:
                try:
                    msg = a.recv()
                except (EOFError, OSError):
                    p.join(5)
                    msg = ("violation", Stats().dump(), f"the exploring process died (exit code {p.exitcode})", None, [])
                running.remove(r)
                a.close()
                p.join(10)
                results.append((sec, shard, msg))
                sec_time[sec.name] = sec_time.get(sec.name, 0) + time.time() - ts
                if msg[0] == "violation" and violation is None:
                    violation = (sec, shard, msg)
                if msg[0] == "harness" and harness is None:
                    harness = (sec, shard, msg)
            elif time.time() - t0 > limit:
                violation = violation or (sec, shard, ("violation", Stats().dump(), f"no answer from the code within {limit} s", None, []))
        if violation is not None or time.time() - t0 > limit:
            for r in running:
                r[2].kill()
            for r in running:
                r[2].join(5)
            break
    agg = Stats()
    per = {}
    for sec, shard, msg in results:
        d = msg[1]
        agg.executions += d["executions"]
        agg.transitions += d["transitions"]
        agg.states += d["states"]
        agg.outcomes |= {(sec.name, o) for o in d["outcomes"]}
        agg.findings.update(d["findings"])
        for k, v in d["notes"].items():
            agg.notes[f"{sec.name}.{k}"] = max(v, agg.notes.get(f"{sec.name}.{k}", v)) if isinstance(v, (int, float)) else v
        per.setdefault(sec.name, dict(executions=0, transitions=0, distinct_outcomes=0, max_choice_depth=0, bounds=sec.bounds))
        q = per[sec.name]
        q["executions"] += d["executions"]
        q["transitions"] += d["transitions"]
        q["distinct_outcomes"] += len(d["outcomes"])
        q["max_choice_depth"] = max(q["max_choice_depth"], d["max_depth"])
        for s in d["samples"][:2]:
            if len(agg.samples) < 12:
                agg.samples.append({"section": sec.name, **(s if isinstance(s, dict) else {"case": s})})
    bad = violation or harness
    known = load_known(pid)
    unlisted = sorted(k for k in agg.findings if k not in known)
    if unlisted and not bad:
        k = unlisted[0]
        bad = (sections[0], (0, 1), ("violation", None, f"finding {k} is not listed as known: {agg.findings[k]}", None, []))
    wall = time.time() - t0
    ev = dict(
        property=pid,
        tier=tier,
        seed=seed,
        level="model_checking",
        coverage=dict(
            states=agg.states + len(agg.outcomes),
            transitions=agg.transitions,
            traces_validated_against_impl=agg.executions,
            samples=agg.samples or ["(stopped before the first complete execution)"],
            exhaustive=bad is None and not any("diverged_replays" in k or "truncated" in k for k in agg.notes),
            bounds=bounds,
            sections=per,
            notes=agg.notes,
            known_findings_observed=sorted(agg.findings),
            method="every execution is run on the real code of /repo; states = distinct observed states/outcomes, "
                   "transitions = operations whose result was compared with the oracle, "
                   "traces_validated_against_impl = complete executions on the implementation",
        ),
        assumptions=list(assumptions),
        wall_s=round(wall, 3),
        violations=0 if bad is None else 1,
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, default=str)
    for name in sorted(per):
        q = per[name]
        print(f"{pid} {name}: executions={q['executions']} transitions={q['transitions']} "
              f"outcomes={q['distinct_outcomes']} cpu={sec_time.get(name, 0):.1f}s")
    for k in sorted(agg.findings):
        if k in known:
            print(f"KNOWN-FINDING: property={pid} {known[k]}")
    if bad is None:
        print(f"{pid}: held on {agg.executions} executions, {agg.transitions} checked operations, {wall:.1f}s")
        return 0
    sec, shard, msg = bad
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, f"{pid}.json")
    with open(path, "w", encoding="utf-8") as f:
        json.dump(dict(property=pid, section=sec.name, shard=shard, tier=tier,
                       choices=msg[3] if len(msg) > 3 else None,
                       labels=msg[4] if len(msg) > 4 else [], message=msg[2],
                       how=f"/opt/venv/bin/python /verif/check.py {pid} --replay {path}"), f, indent=1)
    print(f"{pid} section {sec.name} failed: {msg[2]}")
    if len(msg) > 4 and msg[4]:
        print("  trace: " + " ".join(msg[4]))
    print(f"VIOLATION property={pid} replay={path}")
    return 1


def replay(pid, sections, path):
    d = json.load(open(path, encoding="utf-8"))
    for s in sections:
        if s.name == d["section"]:
            st = Stats()
            try:
                if s.body is not None and d["choices"] is not None:
                    ch = Choices(d["choices"], s.dev_bound)
                    with watchdog():
                        run_one(s.body, ch, st)
                else:
                    s.run(st, tuple(d["shard"]), d["tier"])
            except Violation as v:
                print(f"replayed: {v}")
                return 1
            print("the execution satisfies the property")
            return 0
    print("unknown section")
    return 2
