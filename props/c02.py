"""C02: every-minute tasks"""
from . import lib


def run_days(w, init, days, start=0):
    w.set_now(start)
    r = lib.Run(w, init)
    r.setup()
    r.run(horizon=days * lib.DAY * lib.US - 1)
    return r


def expected(w, secs, days):
    out = []
    for d in range(days):
        for a, b in secs:
            n = w.conc((b - a) // 60) + 1
            for k in range(n):
                out.append((d * lib.DAY + a + 60 * k) * lib.US)
    return out


def compare(w, r, want):
    got = [c[1] for c in r.calls]
    w.observe("calls", len(got))
    w.observe("first", got[:3])
    for i in range(min(len(got), len(want))):
        w.check(got[i] == want[i], "the task is due at the start of the period and every 60 s up to its end")
        w.check(r.calls[i][2] == got[i], "the task is called at its due time")
    w.check(len(got) == len(want), "each minute once, no other instant", "%d calls, expected %d" % (len(got), len(want)))


def custom(w, p):
    n = p["n"]
    vals, secs = [], []
    for k in range(n):
        f = lib.hms_text if p["kind"] == "text" else lib.hms_time
        a, sa = f(w, "p%da" % k)
        b, sb = f(w, "p%db" % k)
        w.assume(w.And(sa <= sb, sb - sa < 60 * p["minutes"]))
        if secs:
            w.assume(secs[-1][1] < sa)
        vals.append((a, b))
        secs.append((sa, sb))
    if p.get("turn"):
        vals = vals[p["turn"]:] + vals[:p["turn"]]   # the periods are not listed in the order of the day
    more = dict(sync_period=[("01:00:00", "02:00:00")], sync_internal=7) if p.get("more") else {}

    def init(r):
        if p["when"] == "before":
            r.set_options(use_account=False, market_period=vals, **more)
        r.run_daily(r.task("m"), "every_minute")
        if p["when"] == "after":
            r.set_options(use_account=False, market_period=vals, **more)
    r = run_days(w, init, p["days"])
    compare(w, r, expected(w, secs, p["days"]))
    if len(r.calls) > n * p["days"]:
        w.cover("more than one minute")


def default(w, p):
    """default periods, process starting at any second"""
    start = w.int("start", p["lo"], p["hi"])

    def init(r):
        r.set_options(use_account=False)
        r.run_daily(r.task("m"), "every_minute")
    r = run_days(w, init, 1, start * lib.US)
    want = [t for t in expected(w, [(34200, 41400), (46800, 54000)], 1)]
    left = [t for t in want if w.conc_bool(t >= start * lib.US)]
    compare(w, r, left)


def two_tasks(w, p):
    """two every-minute tasks and periods given as strings; both fire at every minute"""
    a, sa = lib.hms_text(w, "a")
    b, sb = lib.hms_text(w, "b")
    w.assume(w.And(sa <= sb, sb - sa < 60 * p["minutes"]))

    def init(r):
        r.run_daily(r.task("m"), "every_minute")
        r.set_options(use_account=False, market_period=[(a, b)])
        r.run_daily(r.task("n"), "every_minute")
    r = run_days(w, init, p["days"])
    want = expected(w, [(sa, sb)], p["days"])
    for tag in "mn":
        got = [c for c in r.calls if c[0] == tag]
        w.check(len(got) == len(want), "each task fires at each minute")
        for g, e in zip(got, want):
            w.check(g[1] == e, "each task fires at the minute")


SCENARIOS = [
    dict(name="custom", fn=custom, covers=("more than one minute",), bounds="n disjoint periods of less than `minutes` minutes at every second of the day, as text or time, listed in any rotation, set before or after run_daily; `days` days",
         quick=[dict(n=1, minutes=4, kind="text", when="after", days=2), dict(n=2, minutes=2, kind="time", when="before", days=2), dict(n=4, minutes=1, kind="time", when="after", days=1), dict(n=3, minutes=2, kind="time", when="after", days=2, turn=2, more=1)],
         thorough=[dict(n=n, minutes=m, kind=k, when=o, days=d) for n, m, d in ((1, 8, 3), (2, 4, 2), (3, 2, 2), (4, 2, 1)) for k in ("text", "time") for o in ("before", "after")] + [dict(n=n, minutes=2, kind="text", when="before", days=2, turn=t) for n, t in ((2, 1), (3, 1), (4, 3))]),
    dict(name="two_tasks", fn=two_tasks, bounds="two tasks, one period of less than `minutes` minutes",
         quick=[dict(minutes=2, days=1)], thorough=[dict(minutes=5, days=2)]),
    dict(name="default", fn=default, bounds="default periods (242 minutes); every start second in [lo,hi]",
         quick=[dict(lo=0, hi=34200), dict(lo=53761, hi=53990)],
         thorough=[dict(lo=a, hi=a + 1800) for a in range(30600, 54000, 1800)]),
]
ASSUMPTIONS = ["whole-second period bounds; periods sharing an endpoint are not disjoint and are not judged"]
