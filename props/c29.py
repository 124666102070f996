"""C29: the account synchronisation timer"""
from . import lib

US, DAY = lib.US, lib.DAY


def whole(x):
    return -int(-x // 1)


def calls(w, run, g):
    """instants (us) at which the timer called the trading interface, with what was called at each"""
    out = []
    for what, t in g.log:
        if what not in ("balance", "orders"):
            continue
        if out and w.conc_bool(w.eq(out[-1][0], t)):
            out[-1][1].append(what)
        else:
            out.append((t, [what]))
    return out


def kinds(w, p):
    sb = w.choice("sync_balance", p.get("balance", [True, False]))
    so = w.choice("sync_order", p.get("order", [True, False]))
    w.assume(bool(sb or so))
    return sb, so, (["balance"] if sb else []) + (["orders"] if so else [])


def begin(w, p, interval, sb, so, **more):
    g = lib.Gate(w)
    lo, hi = p.get("start", (0, DAY - 1))
    s = w.int("start", lo, hi)
    w.set_now(s * US + (w.int("us", 0, US - 1) if p.get("us") else 0))
    opts = dict(account_no="1001", sync_balance=sb, sync_order=so)
    if interval is not None:
        opts["sync_internal"] = interval
    opts.update(more)
    ok = []
    first = w.choice("first", [None] + p["again"]) if p.get("again") else None

    def init(r):
        if first is not None:
            # the options are given twice: the last ones count
            ok.append(w.raises(r.set_options, account_no="1002", **first))
        ok.append(w.raises(r.set_options, **opts))
    run = lib.Run(w, init)
    run.setup()
    w.check(ok == [None] * len(ok), "the options are accepted", ok)
    return g, run


def always(w, p):
    """no period: never a pause longer than the interval"""
    interval = w.choice("interval", p["intervals"])
    sb, so, want = kinds(w, p)
    g, run = begin(w, p, interval, sb, so)
    t0 = w.now_us()
    g.log[:] = []
    end = (p["days"] * DAY + p.get("extra", 0)) * US
    run.run(horizon=end)
    step = whole(interval) * US
    prev = t0
    n = 0
    for t, what in calls(w, run, g):
        w.check(t - prev <= step, "the pause is no longer than one interval", (prev, t, interval))
        m = [x for x in what]
        w.check(m == want * (len(m) // len(want)) and len(m) >= len(want), "what is enabled, balance first", (m, want))
        prev = t
        n += 1
    w.check(end - prev <= step, "it goes on", (prev, end, interval))
    w.check(n <= p["days"] * (DAY // int(max(interval, 1)) + 2) + 1, "not more often than needed", (n, interval))
    w.cover("always")


def day_times(periods, interval):
    out = []
    for a, b in periods:
        t = a * 1.0
        while t <= b:
            out.append(int(t))
            t += interval
    return sorted(set(out))


def periods(w, p):
    """sync periods: due exactly on each period's grid, every day"""
    interval = w.choice("interval", p["intervals"])
    sb, so, want = kinds(w, p)
    pick = w.choice("periods", p["periods"])
    as_text = w.conc_bool(w.bool("as text")) if p.get("text") else False

    def tm(s):
        if as_text:
            return "%02d:%02d:%02d" % (s // 3600, s // 60 % 60, s % 60)
        return w.datetime.time(s // 3600, s // 60 % 60, s % 60)
    if p.get("symbolic"):
        a = w.int("from", 0, DAY - 1)
        pick = [(a, a)]
        h = a // 3600
        arg = [(w.datetime.time(a // 3600, a // 60 % 60, a % 60), w.datetime.time(a // 3600, a // 60 % 60, a % 60))]
    else:
        arg = [(tm(a), tm(b)) for a, b in pick]
    g, run = begin(w, p, interval, sb, so, sync_period=arg)
    t0 = w.now_us()
    g.log[:] = []
    end = (p["days"] * DAY) * US
    run.run(horizon=end + 1)
    due = [(d * DAY + t) * US for d in range(p["days"] + 1) for t in (day_times(pick, interval) if not p.get("symbolic") else [pick[0][0]])]
    got = calls(w, run, g)
    # events that are already past when the process starts are not due; at the horizon the loop may stop before or after
    expect = [t for t in due if w.conc_bool(w.And(t > t0, t <= end))]
    at_start = [t for t in due if w.conc_bool(w.eq(t, t0))]
    ts = [t for t, _ in got]
    if at_start and ts and w.conc_bool(w.eq(ts[0], t0)):
        ts = ts[1:]
    while ts and w.conc_bool(ts[-1] > end):
        w.check(any(w.conc_bool(w.eq(ts[-1], t)) for t in due), "only at due instants", ts[-1])
        ts = ts[:-1]
    w.check(len(ts) == len(expect), "as often as due", (ts, expect))
    for a, b in zip(ts, expect):
        w.check(w.eq(a, b), "exactly when due", (a, b))
    for _, what in got:
        w.check(what == want, "what is enabled, balance first", (what, want))
    w.cover("period")


H = 3600
SCENARIOS = [
    dict(name="always", fn=always, covers=("always",), bounds="any start second (and microsecond) of day; intervals from 25 minutes to over a day, whole and fractional; 2-3 days",
         quick=[dict(intervals=[5], days=1, start=(DAY - 8, DAY - 2), extra=30, order=[False]), dict(intervals=[5000, 7199.9583, 40000], days=2, order=[False]), dict(intervals=[20000, 86400, 100000], days=3, us=1), dict(intervals=[1800], days=1, start=(DAY - 3000, DAY - 1), order=[False], extra=H),
                dict(intervals=[30000.25], days=2, balance=[False]), dict(intervals=[43190, 28797, 43201], days=2, order=[False])],
         thorough=[dict(intervals=[1500, 3600, 4999.9, 7001.5], days=2, order=[False]), dict(intervals=[20000, 43200, 86399, 86400.5], days=4, us=1)]),
    dict(name="periods", fn=periods, covers=("period",), bounds="one to three periods with grids that end exactly on, before or at the period's end, a single instant at any second of day; any start second; 1-3 days; other options given before or not",
         quick=[dict(intervals=[3600, 1000], periods=[[(9 * H, 11 * H)], [(9 * H + 1800, 11 * H + 1800), (13 * H, 15 * H)]], days=2, order=[False]), dict(intervals=[1, 2, 4.5], periods=[[(9 * H, 9 * H + 9)]], days=1, order=[False]), dict(intervals=[7], periods=[[(DAY - 15, DAY - 1)], [(0, 14)]], days=2, text=1, balance=[True], us=1),
                dict(intervals=[5], symbolic=1, periods=[[]], days=2, balance=[True, 0], order=[True, 1]), dict(intervals=[10000], periods=[[(9 * H, 15 * H)]], days=1, again=[dict(sync_internal=9000), dict(sync_balance=False, sync_period=[("10:00:00", "10:00:00")]), dict(sync_balance=False, sync_order=False), dict(use_account=False)]),
                dict(intervals=[700.5], periods=[[(9 * H, 10 * H), (11 * H, 12 * H), (23 * H, DAY - 1)]], days=1, order=[False])],
         thorough=[dict(intervals=[600, 1500.5], periods=[[(9 * H + 1800, 11 * H + 1800), (13 * H, 15 * H)], [(0, 2 * H)]], days=3), dict(intervals=[5], symbolic=1, periods=[[]], days=3, us=1)]),
]
ASSUMPTIONS = ["the clock does not jump", "intervals are at least one second"]
