"""C04: order of due work"""
from . import lib

KIND = ["minute", "open", "clock", "close"]


def mixed(w, p):
    """tasks of every kind (and account synchronisation) competing for the same instants"""
    base_s = w.int("open", 9 * 3600, 10 * 3600)
    length = p.get("minutes", 1) * 60
    start = w.int("start", 0, lib.DAY * lib.US - 1) if p.get("anystart") else 0
    w.set_now(start)
    tm = dt_time(w, base_s)
    period = [(tm, dt_time(w, base_s + length))]
    kinds = []
    gate = lib.Gate(w) if p.get("account") else None

    def init(r):
        opts = dict(market_period=period)
        if gate is None:
            opts["use_account"] = False
        else:
            opts.update(account_no="1", sync_period=period, sync_internal=p.get("sync", 60))
        if p.get("late_options") is None:
            r.set_options(**opts)
        for k in range(p["tasks"]):
            kind = w.choice("kind%d" % k, KIND if not p.get("kinds") else p["kinds"])
            kinds.append(kind)
            if kind == "minute":
                e = "every_minute"
            elif kind == "clock":
                e = clock_text(w, base_s)
            else:
                e = kind
            r.run_daily(r.task(k), e)
        if p.get("late_options") is not None:
            r.set_options(**opts)
    if p.get("late"):
        when = w.pick("when", 0, p.get("wakeups", 1))
        wakes = []

        def latency(w2):
            wakes.append(1)
            return w2.int("late", 0, p["late"]) * lib.US if len(wakes) - 1 == when else 0
        w.uv_latency = latency
    r = lib.Run(w, init)
    r.setup()
    if gate is not None:
        del gate.log[:]
        gate.on_balance = lambda: r.calls.append(("bal", us_due(w, r), 0)) or dict(cash={}, positions=[])
        gate.on_orders = lambda: r.calls.append(("ord", us_due(w, r), 0)) or []
    r.run(max_calls=p["calls"])
    calls = r.calls
    w.check(len(calls) >= p["calls"], "the tasks are called", len(calls))
    rank = {"bal": (0, 0), "ord": (0, 1)}
    for k, kind in enumerate(kinds):
        rank[k] = (1 if kind == "minute" else 2, k)
    for a, b in zip(calls, calls[1:]):
        w.check(a[1] <= b[1], "delivered in non-decreasing due time", (a, b))
        if rank[a[0]] >= rank[b[0]]:
            w.check(a[1] != b[1], "ties: synchronisation, every-minute tasks, other tasks, each in registration order", (a, b))
        else:
            w.cover("tie or later")
    w.observe("tags", [c[0] for c in calls])


def us_due(w, r):
    return lib.us_of(w, r.ctx.strategy_dt)


def dt_time(w, s):
    return w.datetime.time(s // 3600, (s // 60) % 60, s % 60)


def clock_text(w, s):
    return two(w, s // 3600) + ":" + two(w, (s // 60) % 60) + ":" + two(w, s % 60)


def two(w, v):
    return "%02d" % v


def keys(w, p):
    """messages in the queue: due time, then priority, then age"""
    M = w.mod("jqtrade.scheduler.message").Message
    Q = w.mod("jqtrade.scheduler.queue").ThreadSafeQueue()
    n = p["n"]
    desc = []
    for k in range(n):
        t, pr = w.int("t%d" % k, 0, 5), w.int("p%d" % k, 0, 2)
        m = M(time=t, callback=keys, priority=pr)
        desc.append((t, pr))
        m.tag = k
        Q.push(m, m.sort_key)
    out = [Q.pop().tag for _ in range(n)]
    w.check(sorted(out) == list(range(n)), "every message comes out")
    for a, b in zip(out, out[1:]):
        (ta, pa), (tb, pb) = desc[a], desc[b]
        w.check(w.Or(ta < tb, w.And(ta == tb, w.Or(pa > pb, w.And(pa == pb, a < b)))), "due time, priority, age", out)
    w.cover("popped")


def long(w, p):
    """the order of tasks due together is the same on every day of a long run, whatever was delivered before"""
    # messages made earlier in the process
    M = w.mod("jqtrade.scheduler.message").Message
    for _ in range(w.choice("before", p["before"])):
        M(time=0, callback=keys)
    text, sec = lib.hms_text(w, "t")
    w.set_now(0)
    n = p["tasks"]
    r = lib.Run(w, lambda r: (r.set_options(use_account=False), [r.run_daily(r.task(k), text) for k in range(n)]))
    r.setup()
    r.run(max_calls=n * p["days"])
    w.check([c[0] for c in r.calls] == list(range(n)) * p["days"], "every day in the order of registration", [c[0] for c in r.calls][-3 * n:])
    for i, c in enumerate(r.calls):
        w.check(c[1] == (i // n * lib.DAY + sec) * lib.US, "day after day", i)
    w.cover("long")


SCENARIOS = [
    dict(name="mixed", fn=mixed, covers=("tie or later",), bounds="up to `tasks` tasks, each of any kind, all competing for the same instants at any open time, optional account synchronisation, the loop late by up to `late` whole seconds at any one of the first wake-ups, the first `calls` deliveries",
         quick=[dict(tasks=3, calls=8), dict(tasks=2, calls=16, account=1, sync=30, late=200000), dict(tasks=2, calls=10, late=200000, anystart=1, late_options=1)],
         thorough=[dict(tasks=4, calls=16), dict(tasks=3, calls=20, account=1, late=400000, minutes=2), dict(tasks=2, calls=20, account=1, sync=20), dict(tasks=3, calls=16, late=200000, anystart=1)]),
    dict(name="long", fn=long, covers=("long",), bounds="`tasks` tasks at one time, any second of the day, `days` days; after up to 65535 earlier messages",
         quick=[dict(tasks=3, days=30, before=[0, 90, 980, 9950, 32720, 65500])], thorough=[dict(tasks=4, days=400, before=[0]), dict(tasks=2, days=20, before=[240, 500, 4080, 99980])]),
    dict(name="keys", fn=keys, covers=("popped",), bounds="n messages with any due times and priorities", quick=[dict(n=3)], thorough=[dict(n=4)]),
]
ASSUMPTIONS = ["clock as in C05"]
