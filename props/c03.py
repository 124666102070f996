"""C03: each registered time once per day, within start and end"""
from . import lib

D = lib.DAY * lib.US


def live(w, p):
    """live run: any start instant, any time of day, `days` days, late processing"""
    if "tz" in p:
        w.set_tz(p["tz"])
    w.mod("jqtrade.scheduler.config").get_config()
    if p.get("count"):
        override(w, "EVENT_DAYS_COUNT", p["count"])
    start = w.int("start", 0, D - 1)
    text, sec = lib.hms_text(w, "t")
    w.set_now(start)
    n = p["days"]
    late = [w.int("late", 0, p["late"] * D) if p.get("late") and i in p.get("at", ()) else 0 for i in range(n)]

    def init(r):
        r.set_options(use_account=False)
        r.run_daily(r.task("t"), text)
    r = lib.Run(w, init)

    def on_call(run, tag):
        w.tick(late[min(len(run.calls) - 1, n - 1)])
    r.on_call = on_call
    r.setup()
    r.run(max_calls=n)
    first = 0 if w.conc_bool(sec * lib.US >= start) else 1
    w.cover("today" if first == 0 else "tomorrow")
    w.check(len(r.calls) >= n, "the task keeps firing", len(r.calls))
    for i in range(n):
        w.check(r.calls[i][1] == (first + i) * D + sec * lib.US, "the task fires exactly once on each day, without gap or repetition", i)
    w.observe("calls", [c[1] for c in r.calls][:4])


def override(w, name, value):
    path = w.path("conf.py")
    w.write_file(path, "SCHEDULER_%s = %d\n" % (name, value))
    w.mod("jqtrade.scheduler.config").setup_scheduler_config(path)


def bounded(w, p):
    """a run between two instants: both bounds inclusive"""
    w.mod("jqtrade.scheduler.config").get_config().ENABLE_HISTORY_START = True
    if p.get("count"):
        override(w, "EVENT_DAYS_COUNT", p["count"])
    start = w.int("start", 0, D - 1)
    span = w.int("span", 0, p["days"] * D)
    end = start + span
    now = w.int("now", 0, (p["days"] + 2) * D)
    w.set_now(now)
    texts, secs = [], []
    for k in range(p["tasks"]):
        t, s = lib.hms_text(w, "t%d" % k)
        texts.append(t)
        secs.append(s)

    def init(r):
        r.set_options(use_account=False)
        for k in range(p["tasks"]):
            r.run_daily(r.task("t%d" % k), texts[k])
    r = lib.Run(w, init, start=lib.dt_of(w, start), end=lib.dt_of(w, end))
    r.setup()
    r.run()
    for k in range(p["tasks"]):
        want = [t for t in [d * D + secs[k] * lib.US for d in range(p["days"] + 2)] if w.conc_bool(w.And(t >= start, t <= end))]
        got = [c[1] for c in r.calls if c[0] == "t%d" % k]
        w.check(len(got) == len(want), "fires on exactly the days on which its instant lies in the run", (len(got), len(want)))
        for g, e in zip(got, want):
            w.check(g == e, "fires at its instant")
        if want:
            w.cover("fired")
        else:
            w.cover("never")
        w.observe("n%d" % k, got)


def live_end(w, p):
    """a live run with an end: starts from now"""
    if p.get("count"):
        override(w, "EVENT_DAYS_COUNT", p["count"])
    start = w.int("start", 0, D - 1)
    end = start + w.int("span", 0, p["days"] * D)
    w.set_now(start)
    text, sec = lib.hms_text(w, "t")

    def init(r):
        r.set_options(use_account=False)
        r.run_daily(r.task("t"), text)
    r = lib.Run(w, init, end=lib.dt_of(w, end))
    r.setup()
    r.run()
    want = [t for t in [d * D + sec * lib.US for d in range(p["days"] + 2)] if w.conc_bool(w.And(t >= start, t <= end))]
    got = [c[1] for c in r.calls]
    w.check(len(got) == len(want), "fires on exactly the days on which its instant lies in the run", (len(got), len(want)))
    for g, e in zip(got, want):
        w.check(g == e, "fires at its instant")


def many(w, p):
    """several tasks, each day each of them once"""
    start = w.int("start", 0, D - 1)
    w.set_now(start)
    n = p["tasks"]
    ts = [lib.hms_text(w, "t%d" % k) for k in range(n)]

    def init(r):
        r.set_options(use_account=False)
        for k in range(n):
            r.run_daily(r.task("t%d" % k), ts[k][0])
    r = lib.Run(w, init)
    r.setup()
    r.run(horizon=p["days"] * D - 1)
    for k in range(n):
        want = [t for t in [d * D + ts[k][1] * lib.US for d in range(p["days"])] if w.conc_bool(t >= start)]
        got = [c[1] for c in r.calls if c[0] == "t%d" % k]
        w.check(len(got) == len(want), "each task fires once on each day", (len(got), len(want)))
        for g, e in zip(got, want):
            w.check(g == e, "fires at its instant")


SCENARIOS = [
    dict(name="live", fn=live, covers=("today", "tomorrow"), bounds="any start microsecond, any time of day, `days` consecutive firings with a day horizon of `count`; processing late by up to `late` days at the given calls; zones east and west of Greenwich",
         quick=[dict(days=5, count=2, late=0), dict(days=5, count=2, late=3, at=[0, 1]), dict(days=4, count=1, late=1, at=[0, 1, 2]), dict(days=740, late=0), dict(days=3, late=0, tz=-5 * 3600)],
         thorough=[dict(days=9, count=c, late=l, at=a) for c in (1, 2, 3, 4) for l, a in ((0, []), (4, [0, 1, 2, 3]), (9, [1, 3, 5]))] + [dict(days=1500, late=0), dict(days=370, late=3, at=[363, 364, 365])]),
    dict(name="bounded", fn=bounded, covers=("fired", "never"), bounds="any start, any end up to `days` later, any current time, `tasks` tasks",
         quick=[dict(days=2, tasks=1), dict(days=1, tasks=2), dict(days=3, tasks=1, count=1)], thorough=[dict(days=5, tasks=1), dict(days=2, tasks=2), dict(days=1, tasks=3)]),
    dict(name="live_end", fn=live_end, bounds="live start, any end up to `days` later",
         quick=[dict(days=2), dict(days=3, count=2)], thorough=[dict(days=4), dict(days=5, count=1)]),
    dict(name="many", fn=many, bounds="several tasks over `days` days",
         quick=[dict(tasks=2, days=2)], thorough=[dict(tasks=3, days=3), dict(tasks=2, days=4)]),
]
ASSUMPTIONS = ["fixed UTC offset (no DST)", "the clock stands still while process_initialize runs"]
