"""C05: the event loop"""
from . import lib

EPOCH_DAYS = 19732


def epoch_ms(us):
    """epoch milliseconds of an instant given in microseconds since the base midnight (zone +8)"""
    return (EPOCH_DAYS * lib.DAY - 8 * 3600) * 1000 + us // 1000


class Loop:
    def __init__(self, w, p):
        self.w = w
        w.set_now(w.int("now", 0, lib.DAY * lib.US - 1) if p.get("clock") else 36000 * lib.US + w.int("now", 0, 999))
        w.uv_phase = w.int("phase", 0, 999)
        if p.get("late"):
            w.uv_latency = lambda w2: w2.int("late", 0, p["late"] * lib.US)
        self.M = w.mod("jqtrade.scheduler.message")
        self.loop = w.mod("jqtrade.scheduler.loop").EventLoop()
        self.t0 = w.now_us()
        self.calls = []
        self.due = {}

    def push(self, tag, ms, prio, body=None):
        """queue a callback due `ms` milliseconds after the start (of the current millisecond)"""
        w = self.w
        due = self.t0 - self.t0 % 1000 + ms * 1000
        self.due[tag] = (due, prio)

        def cb():
            self.calls.append((tag, w.now_us(), lib.us_of(w, self.loop.strategy_dt)))
            if body is not None:
                body()
        cb.__name__ = "cb_%s" % tag
        self.loop.push_message(self.M.Message(time=epoch_ms(due), callback=cb, priority=prio))

    def judge(self):
        w = self.w
        for tag, at, sdt in self.calls:
            w.check(at >= self.due[tag][0], "no callback starts before its due time", (tag, at, self.due[tag][0]))
            w.check(sdt == self.due[tag][0], "logical time is the due time", (tag, sdt))
        tags = [c[0] for c in self.calls]
        w.check(len(set(tags)) == len(tags), "no callback runs twice", tags)
        w.observe("tags", tags)
        return tags


def drain(w, p):
    """n callbacks, some of which queue more; everything runs, once, in due order, not early"""
    L = Loop(w, p)
    n = p["n"]

    def child(k):
        def body():
            if p.get("nest") and k < p["nest"]:
                L.push("c%d" % k, w.int("child%d" % k, p.get("lo", -5), 100000), 0)
        return body
    for k in range(n):
        L.push(k, w.int("due%d" % k, p.get("lo", -5), p.get("hi", 100000)), w.int("prio%d" % k, 0, 2) if p.get("prio") else 0, child(k))
    err = w.raises(L.loop.run)
    w.check(err is None, "the loop ends without an error", err)
    tags = L.judge()
    w.check(set(tags) == set(L.due), "every queued callback runs", (tags, sorted(map(str, L.due))))
    for a, b in zip(tags, tags[1:]):
        if isinstance(a, int) and isinstance(b, int):
            w.check(L.due[a][0] <= L.due[b][0], "non-decreasing due time", tags)
    w.cover("drained")


def stopping(w, p):
    """one of the callbacks requests a stop or fails; nothing starts afterwards"""
    L = Loop(w, p)
    how = w.choice("how", ["stop", "raise", "signal"])
    n = p["n"]
    k0 = w.pick("k", 0, n - 1)

    class Boom(Exception):
        pass

    def body():
        if how == "raise":
            raise Boom("b")
        if how == "stop":
            L.loop.stop()
        else:
            L.loop.handle_signal(15)
        if p.get("after"):
            L.push("x", w.int("x", -5, 1000), 0)
    for k in range(n):
        L.push(k, w.int("due%d" % k, -5, 100000), 0, body if k == k0 else None)
    err = w.raises(L.loop.run)
    if how == "raise":
        w.check(isinstance(err, Boom), "the callback's exception is raised out of run", err)
    else:
        w.check(err is None, "a requested stop is not an error", err)
    tags = L.judge()
    w.check(tags[-1:] == [k0], "no callback starts after the stop", tags)
    for k in range(n):
        if k in tags:
            w.check(L.due[k][0] <= L.due[k0][0], "only earlier callbacks ran before")
        else:
            w.check(L.due[k][0] >= L.due[k0][0], "all earlier callbacks ran before", tags)
    w.cover(how)


def signals(w, p):
    """a termination or interrupt signal is delivered to the loop while it waits"""
    L = Loop(w, p)
    n = p["n"]
    at = L.t0 + w.int("sig", 0, 2000) * 1000
    num = w.choice("num", [15, 2])
    for k in range(n):
        L.push(k, w.int("due%d" % k, -1, 1500), 0)
    sent = []

    def hook(uv):
        if not sent and w.now_us() >= at:
            sent.append(len(L.calls))
            sent.append(w.now_us())
            for s in list(uv.signals):
                if s.signum == num:
                    s.callback(s, num)
    w.uv_hook = hook
    # the loop sleeps at most until the signal arrives
    wait = w.uv_wait

    def uv_wait(due):
        wait(due if sent or due <= at or at <= w.now_us() else at)
    w.uv_wait = uv_wait
    err = w.raises(L.loop.run)
    w.check(err is None, "ends without an error", err)
    tags = L.judge()
    if sent:
        w.check(len(tags) == sent[0], "no callback starts after the signal", (tags, sent))
        w.check(w.now_us() <= sent[1] + p.get("late", 0) * lib.US, "the loop ends at once, not at the next due time", (w.now_us(), sent))
        w.cover("delivered")
    else:
        w.check(len(tags) == n, "everything ran")


def exit_condition(w, p):
    """an exit checker says stop before some future callback"""
    L = Loop(w, p)
    n = p["n"]
    limit = w.int("limit", -5, 3000)
    end = L.t0 - L.t0 % 1000 + limit * 1000
    other = w.conc_bool(w.bool("two"))
    if other:
        L.loop.register_exit_checker(lambda now, ts: False)
    L.loop.register_exit_checker(lambda now, ts: w.conc_bool(ts > epoch_ms(end)))
    for k in range(n):
        L.push(k, w.int("due%d" % k, 0, 5000), 0)
    err = w.raises(L.loop.run)
    w.check(err is None, "ends without an error", err)
    tags = L.judge()
    for k in range(n):
        due = L.due[k][0]
        if k in tags:
            w.check(w.Or(due <= end, due <= L.t0), "nothing beyond the exit condition runs", tags)
            w.cover("ran")
        else:
            w.check(due > end, "everything before the exit condition runs", tags)
            w.cover("exited")


def deferred(w, p):
    """defer(delay, f): once, with its arguments, not before the delay has passed"""
    L = Loop(w, p)
    got = []
    d = w.int("delay", 0, 100000)

    def f(*a, **k):
        got.append((a, k, w.now_us()))
    L.loop.defer(d, f, 1, x=2)
    if p.get("other"):
        L.push(0, w.int("due0", -5, 100000), 0)
    err = w.raises(L.loop.run)
    w.check(err is None, "ends without an error", err)
    w.check(len(got) == 1, "a deferred call happens once", got)
    w.check(got[0][0] == (1,) and list(got[0][1].items()) == [("x", 2)], "with its arguments")
    w.check(got[0][2] + L.t0 % 1000 >= L.t0 + d * 1000, "not before the delay")


SCENARIOS = [
    dict(name="drain", fn=drain, covers=("drained",), bounds="n queued callbacks due at any millisecond from 5 ms ago to 100 s (in one case 40 days) ahead, `nest` of which queue another; any sub-millisecond clock phase; waking up to `late` s late",
         quick=[dict(n=3), dict(n=2, nest=1, late=3), dict(n=3, prio=1, late=60), dict(n=2, hi=40 * 86400000)], thorough=[dict(n=4), dict(n=2, nest=2, late=3), dict(n=4, prio=1, late=60), dict(n=2, clock=1)]),
    dict(name="stopping", fn=stopping, covers=("stop", "raise", "signal"), bounds="n callbacks with any due times, any one of which stops the loop, raises or handles a signal, possibly queueing more work",
         quick=[dict(n=3), dict(n=2, after=1)], thorough=[dict(n=4), dict(n=3, after=1, late=3)]),
    dict(name="signals", fn=signals, covers=("delivered",), bounds="a SIGTERM or SIGINT delivered at any millisecond while n callbacks are waiting",
         quick=[dict(n=2)], thorough=[dict(n=3), dict(n=3, late=1)]),
    dict(name="exit_condition", fn=exit_condition, covers=("ran", "exited"), bounds="an exit checker with any limit, n callbacks, prompt wake-ups (the condition is consulted before each wait)", quick=[dict(n=2)], thorough=[dict(n=3)]),
    dict(name="deferred", fn=deferred, bounds="any delay up to 100 s", quick=[dict(), dict(other=1)], thorough=[dict(other=1, late=2)]),
]
ASSUMPTIONS = ["libuv is modelled: whole-millisecond monotonic loop time with arbitrary phase against the wall clock, timers never early by that clock, async wake-ups coalesced",
               "the wall clock is not set back while the loop runs",
               "signals take effect when the uv loop delivers them; SystemExit/KeyboardInterrupt raised by a callback are outside the claim"]
