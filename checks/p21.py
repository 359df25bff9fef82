"""P21: the mailbox delivers every message exactly once in order and answers every ask."""
import asyncio
import itertools

from expression import AsyncReplyChannel, MailboxProcessor
from expression.system import CancellationTokenSource, OperationCanceledError

from mc import sched, simloop
from mc.core import Choices, Section, check, fail

BOUNDS = ("event loop: up to 3 (quick) / 4 (thorough) messages posted by the environment at every point, receiver programs of up to 3 receives "
          "(plain, after a pause, with a timeout, in a task that may be cancelled at every point), up to 2 (quick) / 3 (thorough) events slipped "
          "between ready callbacks; asks: up to 3 askers, replies immediate, delayed, in any order, repeated, 9 reply values; threads: 1..2 "
          "posting threads x 1..2 messages against the loop thread at every shared-state bytecode (also threads running an event loop of their own), 1-2 (quick) / 2-3 (thorough) preemptions; "
          "histories of up to 2000 messages")
ASSUMPTIONS = ["one receiver at a time (a second concurrent receive is rejected by the library)",
               "asks and replies are made from the thread of the event loop, as the asyncio futures they return require",
               "after the mailbox's own cancellation token is cancelled only at-most-once and order are judged"]


class M:
    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f"m{self.n}"


MSGS = [M(0), None, 0, Exception("msg"), "", False, M(6), ()]


def finish(kind, val, loop, **ctx):
    if kind == "raise":
        if isinstance(val, Exception) and not isinstance(val, asyncio.CancelledError):
            raise val
        fail(f"the run ended with {val!r}", **ctx)
    check(kind == "ret", f"a receiver waits forever although messages were posted ({kind})", trace=loop.trace, **ctx)
    check(not loop.unhandled, "unhandled error in the event loop", errors=[str(u.get("exception") or u) for u in loop.unhandled],
          trace=loop.trace, **ctx)


def same(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


# --- environment posts, receiver programs -----------------------------------------
def body_receive(nmax, maxprog):
    def body(ch, st):
        c = ch.choose(nmax * 3)
        n = 1 + c % nmax
        start_how = c // nmax  # 0: static start, 1: constructed, received by main, 2: started with a live token
        plen = ch.choose(maxprog + 1)
        prog = [ch.choose(4) for _ in range(plen)]
        early = ch.choose(n + 1)  # messages posted before the receiver runs at all
        msgs = MSGS[:n]
        posted, got, events = [], [], []

        async def main(loop, env):
            loop.slip_timers = True
            fin = loop.create_future()

            async def receiver(mbox):
                it = iter(prog)
                pauses = 0
                while len(got) < n:
                    k = next(it, 0)
                    if k == 1:
                        fut = loop.create_future()
                        env.add("resume", lambda fut=fut: fut.done() or fut.set_result(None))
                        await fut
                        continue
                    if k == 2:
                        try:
                            got.append(await asyncio.wait_for(mbox.receive(), 1.0))
                            events.append("got")
                        except (asyncio.TimeoutError, TimeoutError):
                            events.append("timeout")
                        continue
                    if k == 3:
                        async def once():
                            m = await mbox.receive()
                            got.append(m)
                        t = loop.create_task(once())
                        e = env.add("cancel", t.cancel, enabled=lambda: not t.done())
                        try:
                            await t
                            events.append("got")
                        except asyncio.CancelledError:
                            events.append("cancelled")
                        env.remove(e)
                        continue
                    got.append(await mbox.receive())
                fin.done() or fin.set_result(None)

            if start_how == 1:
                mbox = MailboxProcessor(None)
            else:
                src = CancellationTokenSource() if start_how == 2 else None
                mbox = MailboxProcessor.start(receiver, src.token) if src else MailboxProcessor.start(receiver)
            state = {"i": 0}

            def post():
                i = state["i"]
                state["i"] += 1
                posted.append(msgs[i])
                r = mbox.post(msgs[i])
                check(r is None, "post returns something")
                if state["i"] < n:
                    env.add(f"post{i + 1}", post)

            for _ in range(early):
                if state["i"] < n:
                    i = state["i"]
                    state["i"] += 1
                    posted.append(msgs[i])
                    mbox.post(msgs[i])
            if state["i"] < n:
                env.add(f"post{state['i']}", post)
            if start_how == 1:
                await receiver(mbox)
            else:
                await fin
            return "done"

        kind, val, loop = simloop.run(ch, main)
        finish(kind, val, loop, posted=posted, received=got, events=events, program=prog)
        check(same(got, msgs), "messages were lost, duplicated or reordered", posted=posted, received=got, events=events, program=prog,
              trace=loop.trace)
        st.step(n)
        st.outcome((n, start_how, prog, early, events, loop.trace))
    return body


# --- asks -------------------------------------------------------------------------
REPLIES = [M(1), None, False, 0, "", Exception("reply"), (), [], M(2)]


def body_ask(nmax):
    def body(ch, st):
        c = ch.choose(nmax * 12)
        posts = c % 2  # plain posts in between
        delay_await = c // 2 % 2  # the asker awaits only later
        base = c // 4 % 3
        n = 1 + c // 12
        # when: 0 immediately, 1 later (environment decides the order), 2 twice (second ignored), 3 already while the message is built
        how = [ch.choose(4) for _ in range(n)]
        vals = [REPLIES[(base * 3 + i) % 9] for i in range(n)]
        log, answers, plain = [], {}, []

        async def main(loop, env):
            async def receiver(mbox):
                while True:
                    msg = await mbox.receive()
                    log.append(msg)
                    if isinstance(msg, tuple):
                        i, ch_ = msg
                        check(isinstance(ch_, AsyncReplyChannel), "no reply channel in the message")
                        if how[i] == 0:
                            ch_.reply(vals[i])
                        elif how[i] == 1:
                            env.add(f"reply{i}", lambda i=i, c=ch_: c.reply(vals[i]))
                        else:
                            ch_.reply(vals[i])  # how 3: a second reply, of the same value
                            ch_.reply(M(99))
                    else:
                        plain.append(msg)

            mbox = MailboxProcessor.start(receiver)

            async def asker(i):
                if posts:
                    mbox.post(f"before{i}")
                def build(rc):
                    if how[i] == 3:
                        rc.reply(vals[i])
                    return (i, rc)

                aw = mbox.post_and_async_reply(build)
                if posts:
                    mbox.post(f"after{i}")
                if delay_await:
                    fut = loop.create_future()
                    env.add(f"await{i}", lambda: fut.done() or fut.set_result(None))
                    await fut
                answers[i] = await aw

            tasks = [loop.create_task(asker(i)) for i in range(n)]
            await asyncio.gather(*tasks)
            return "done"

        kind, val, loop = simloop.run(ch, main)
        finish(kind, val, loop, answers=answers, how=how)
        for i in range(n):
            check(i in answers and answers[i] is vals[i], "an asker got somebody else's reply or none", asker=i, got=answers.get(i), expected=vals[i],
                  trace=loop.trace)
        order = [m if isinstance(m, str) else f"ask{m[0]}" for m in log]
        exp = []
        for i in range(n):
            exp += ([f"before{i}"] if posts else []) + [f"ask{i}"] + ([f"after{i}"] if posts else [])
        check(order == exp, "posts and asks were not delivered exactly once in order", got=order, expected=exp, trace=loop.trace)
        st.step(n)
        st.outcome((n, how, posts, delay_await, base, loop.trace))
    return body


def body_ask_history(nmax):
    """Asks one after another; at each message the receiver may answer any channel it has ever been given, again or for the first time."""
    def body(ch, st):
        n = 1 + ch.choose(nmax)
        acts = []
        for k in range(n):
            m = ch.choose(3)  # replies sent while handling message k
            acts.append([ch.choose(k + 1) for _ in range(m)])
        together = ch.choose(2)  # all asks at once / each after the answer to the one before
        first, chans, answers, seen = {}, [], {}, []

        async def main(loop, env):
            def reply(i, v):
                first.setdefault(i, v)
                chans[i].reply(v)

            async def receiver(mbox):
                while True:
                    i, rc = await mbox.receive()
                    seen.append(i)
                    chans.append(rc)
                    for q, j in enumerate(acts[i]):
                        reply(j, REPLIES[(i * 2 + q * 3 + j) % 9])
                    if i not in first:
                        env.add(f"reply{i}", lambda i=i: reply(i, REPLIES[(i + 4) % 9]))

            mbox = MailboxProcessor.start(receiver)

            async def ask(i):
                answers[i] = await mbox.post_and_async_reply(lambda rc: (i, rc))
            if together:
                await asyncio.gather(*[loop.create_task(ask(i)) for i in range(n)])
            else:
                for i in range(n):
                    await ask(i)
            for i in range(n):  # answers after everything is over change nothing
                reply(i, M(77))
            await asyncio.sleep(0)
            return "done"

        kind, val, loop = simloop.run(ch, main)
        finish(kind, val, loop, answers=answers, replies=acts)
        check(seen == list(range(n)), "asks were not delivered exactly once in order", got=seen)
        for i in range(n):
            check(i in answers and answers[i] is first[i], "an asker did not get the first reply sent on its own channel", asker=i, got=answers.get(i),
                  expected=first[i], replies=acts, trace=loop.trace)
        st.step(n)
        st.outcome((n, acts, together, loop.trace))
    return body


# --- cancellation of the mailbox ------------------------------------------------------
def body_token(ch, st):
    n = 1 + ch.choose(3)
    got = []
    ended, began, stopped = [], [], []
    extra = ch.choose(2)

    async def main(loop, env):
        src = CancellationTokenSource()
        fin = loop.create_future()

        async def receiver(mbox):
            began.append(1)
            try:
                while True:
                    got.append(await mbox.receive())
            except asyncio.CancelledError:
                ended.append("cancelled")
                raise
            except OperationCanceledError:
                ended.append("cancelled")

        mbox = MailboxProcessor.start(receiver, src.token)
        st_ = {"i": 0, "cancelled": False}

        def post():
            mbox.post(MSGS[st_["i"]])
            st_["i"] += 1
            if st_["i"] < n:
                env.add(f"post{st_['i']}", post)

        def cancel():
            st_["cancelled"] = True
            st_["got"] = len(got)
            src.cancel()
            if extra:
                mbox.post("late")
            fin.set_result(None)

        env.add("post0", post)
        env.add("cancel", cancel)
        await fin
        for _ in range(8):
            await asyncio.sleep(0)
        # no further post is needed to stop it
        stopped.append(len(ended) == len(began))
        return "done"

    kind, val, loop = simloop.run(ch, main)
    finish(kind, val, loop, got=got)
    check(stopped == [True], "cancelling the mailbox's token did not stop its waiting receiver", received=got, ended=ended, began=began, trace=loop.trace)
    check(same(got, MSGS[:len(got)]), "messages were duplicated, reordered or skipped", received=got, trace=loop.trace)
    check(len(ended) == len(began) <= 1, "the receiver did not end exactly once on cancellation", ended=ended)
    st.step(n)
    st.outcome((n, len(got), loop.trace))


def fn_long(st, tier):
    """Long histories; bursts; two mailboxes; a second concurrent receive."""
    for n in list(range(0, 30)) + [100, 500, 2000, 5000, 20000] + ([70000] if tier == "thorough" else []):
        for burst in (1, 3, n or 1):
            got, got2 = [], []

            async def main(loop, env):
                fin = loop.create_future()

                async def receiver(mbox):
                    while True:
                        got.append(await mbox.receive())

                async def receiver2(mbox):
                    while len(got2) < n:
                        got2.append(await mbox.receive())
                        if len(got2) % 7 == 0:
                            await asyncio.sleep(0)
                    fin.set_result(None)

                a, b = MailboxProcessor.start(receiver), MailboxProcessor.start(receiver2)
                for i in range(n):
                    a.post(i)
                    b.post(("b", i))
                    if i % burst == burst - 1:
                        await asyncio.sleep(0)
                if n:
                    await fin
                return 1

            kind, val, loop = simloop.run(Choices(), main, max_steps=20000 + 20 * n)
            finish(kind, val, loop, n=n)
            check(got == list(range(n)) and got2 == [("b", i) for i in range(n)], "a long history was not delivered exactly once in order", n=n, burst=burst)
            st.step(2)
        st.outcome(n)


# --- posting from other threads -------------------------------------------------------
def body_threads(combos):
    def body(ch, st):
        counts, mode = combos[ch.choose(len(combos))]
        total = sum(counts)
        got = []
        box = {}
        spans = {}
        ended = []
        t = [0]

        def tick():
            t[0] += 1
            return t[0]

        def loop_thread():
            async def main(loop):
                fin = loop.create_future()

                async def receiver(mbox):
                    while len(got) < total:
                        got.append(await mbox.receive())
                        if mode == 1 and len(got) == 1:
                            # the receiver is busy in the loop's thread until every post has returned
                            sched.wait_until(lambda: len(spans) == total and all(s[1] for s in spans.values()))
                    fin.set_result(None)

                mbox = MailboxProcessor.start(receiver)
                box["m"] = mbox
                await fin
                return "done"
            return sched.run_loop(ch, main, hold=lambda: len(ended) < len(counts))

        def poster(p, n):
            def run():
                sched.wait_until(lambda: "m" in box)

                def posts():
                    for i in range(n):
                        s = [tick(), None]
                        spans[(p, i)] = s
                        r = box["m"].post((p, i))
                        check(r is None, "post returns something")
                        s[1] = tick()
                if mode == 2:
                    # the posting thread runs an event loop of its own
                    async def there(loop):
                        posts()
                    r = sched.run_loop(ch, there)
                    check(r[0] == "ret", "post failed in another event loop", got=r[:2])
                else:
                    posts()
                ended.append(p)
            return run

        res, s = sched.run(ch, [("loop", loop_thread)] + [(f"P{p}", poster(p, n)) for p, n in enumerate(counts)])
        ctx = dict(counts=counts, received=got, schedule=s.trace)
        for name, r in res.items():
            if r[0] != "ret":
                fail(f"thread {name} failed: {type(r[1]).__name__}: {r[1]}", **ctx)
        kind, val, loop = res["loop"][1]
        if kind != "ret":
            fail(f"the event loop ended with {kind} {val!r}", **ctx)
        check(not loop.unhandled, "unhandled error in the event loop", errors=[str(u.get("exception") or u) for u in loop.unhandled], **ctx)
        check(sorted(got) == sorted(spans), "messages were lost or duplicated", **ctx)
        for i, a in enumerate(got):
            for b in got[i + 1:]:
                check(not (spans[b][1] < spans[a][0]), "messages were delivered out of the order they were posted in", first=b, delivered_first=a, **ctx)
        st.step(total)
        st.outcome((counts, mode, got))
        st.max("max_points", s.points)
    return body


def sections(tier):
    th = tier == "thorough"
    combos = [((1,), 0), ((2,), 0), ((1, 1), 0), ((2,), 1), ((1, 1), 1), ((2, 1), 0), ((1,), 2), ((2,), 2)]
    if th:
        combos += [((3,), 0), ((2, 2), 0), ((1, 1, 1), 0)]
    out = [
        Section("receive", body_receive(3, 3), dev_bound=2 if th else 1, shards=9),
        Section("ask", body_ask(3), dev_bound=2 if th else 1, shards=36),
        Section("ask-history", body_ask_history(4 if th else 3), dev_bound=1, shards=4 if th else 3),
        Section("token", body_token, dev_bound=3 if th else 2, shards=3),
        Section("long", fn=fn_long),
        Section("threads", body_threads(combos), dev_bound=2 if th else 1, shards=len(combos)),
        Section("threads-deep", body_threads([((1,), 0), ((2,), 1)]), dev_bound=3 if th else 2, shards=2),
    ]
    if th:
        out.append(Section("receive-4", body_receive(4, 2), dev_bound=3, shards=12))
    return out
