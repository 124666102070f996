"""C41: options that are not well-formed"""
from . import lib

US, DAY = lib.US, lib.DAY
BASE = 10 * 3600            # the earlier options: every minute 10:00 to 10:02, synchronised at 10:05 and 10:10


def good(w, **more):
    T = w.datetime.time
    return dict(dict(account_no="1001", sync_balance=True, sync_order=True, sync_internal=300,
                     market_period=[(T(10, 0), T(10, 2))], sync_period=[(T(10, 5), T(10, 10))]), **more)


def entry(w, kind, name):
    """one malformed period"""
    T = w.datetime.time
    a, b = T(13, 0), T(13, 1)
    if kind == "clock":
        # hours, minutes or seconds too large, in either time
        h, hv = lib.two(w, name + ".h")
        m, mv = lib.two(w, name + ".m")
        s, sv = lib.two(w, name + ".s")
        w.assume(w.Or(hv > 23, mv > 59, sv > 59))
        t = h + ":" + m + ":" + s
        return (t, "23:59:59") if w.conc_bool(w.bool(name + ".first")) else ("00:00:00", t)
    if kind == "junk":
        t = "13:00:00"
        c = w.char(name + ".c", ":.x+-9 ")
        w.assume(w.Not(w.eq(c, " ")))
        return (t + c, "23:59:59") if w.conc_bool(w.bool(name + ".first")) else (t, t + c)
    if kind == "sign":
        c = w.char(name + ".c", "-+.:x")
        return ("1" + c + ":00:00", b)
    return {"one": (a,), "three": (a, b, b), "empty": (), "number": (13, 14), "float": (13.0, b), "none": (a, None), "no period": None,
            "one time": a, "short": ("13:00", "13:01"), "seconds": (46800, "13:01:00"), "blank": ("", "13:01:00"), "day": ("2024-01-10 13:00:00", b),
            "bytes": (b"13:00:00", b), "datetime": (w.datetime.datetime(2024, 1, 10, 13, 0), b), "date": (w.datetime.date(2024, 1, 10), b)}[kind]


KINDS = ["clock", "junk", "sign", "one", "three", "empty", "number", "float", "none", "no period", "one time", "short", "seconds", "blank", "day", "bytes", "datetime", "date"]


def malformed(w, p):
    """a refused set_options changes nothing"""
    g = lib.Gate(w)
    w.set_now((BASE - 600) * US)
    which = w.choice("option", p["options"])
    seen = []
    n = []
    T = w.datetime.time

    def bad():
        if which == "sync_internal":
            return dict(sync_internal=w.choice("value", ["", "abc", None, "5s", [], "1,5", (5,)]))
        kind = w.choice("kind", p["kinds"])
        e = entry(w, kind, "bad")
        fine = (T(14, 0), T(14, 1))
        at = w.choice("place", ["only", "last", "first"])
        value = [e] if at == "only" else [fine, e] if at == "last" else [e, fine]
        if p.get("tuples") and w.conc_bool(w.bool("as a tuple")):
            value = tuple(value)
        return {which: value}

    def init(r):
        if p.get("earlier", True):
            w.check(w.raises(r.set_options, **good(w)) is None, "the earlier options are accepted")
        n.append(len(g.log))
        more = dict(account_no="1002", sync_balance=False, market_period=[("14:00:00", "14:03:00")], sync_period=[("14:00:00", "14:01:00")], sync_internal=60,
                    runtime_dir=w.path("other"))
        more.update(bad())
        err = w.raises(r.set_options, **more)
        w.check(err is not None, "malformed options are refused", (which, more[which]))
        seen.append(err)
        w.check(len(g.log) == n[0], "and reach nobody", g.log[n[0]:])
        w.check(not w.exists(w.path("other")), "nothing is created")
        if p.get("after"):
            w.check(w.raises(r.set_options, **good(w)) is None, "well-formed options are accepted afterwards")
            n.append(len(g.log))
        r.run_daily(r.task("m"), "every_minute")
    run = lib.Run(w, init)
    run.setup()
    del g.log[:]
    run.run(horizon=(BASE + DAY // 4) * US)
    w.check([t for _, t, _ in run.calls] == [(BASE + 60 * i) * US for i in range(3)], "the earlier market period is still in effect", run.calls)
    w.check([(k, t) for k, t in g.log] == [(k, (BASE + 300 * i) * US) for i in (1, 2) for k in ("balance", "orders")], "the earlier synchronisation is still in effect", g.log)
    if p.get("order"):
        api = w.mod("jqtrade.account.api")
        i = api.order("600000.XSHG", 100)
        w.check(i is not None and g.count("order") == 1, "the account still takes orders", g.log)
    w.cover("refused")


def text(w, p):
    """a period given as text is accepted exactly when both are times of day, and then in effect"""
    lib.Gate(w)
    w.set_now(0)
    parts = [lib.two(w, n) for n in ("hour", "minute", "second")]
    t = parts[0][0] + ":" + parts[1][0] + ":" + parts[2][0]
    h, m, s = [v for _, v in parts]
    ok = w.conc_bool(w.And(h < 24, m < 60, s < 60))
    option = "market_period"
    errs = []

    def init(r):
        errs.append(w.raises(r.set_options, **{"use_account": False, option: [(t, t)] if not p.get("tuple") else ((t, t),)}))
        r.run_daily(r.task("m"), "every_minute")
    run = lib.Run(w, init)
    if not ok:
        run.setup()
        w.check(errs[0] is not None, "refused", t)
        w.cover("no time")
        return
    run.setup()
    w.check(errs == [None], "accepted", (t, errs))
    run.run(max_calls=2)
    sec = h * 3600 + m * 60 + s
    w.check(len(run.calls) == 2, "called", run.calls)
    first = [at for _, at, _ in run.calls]
    if w.conc_bool(w.eq(sec, 0)):
        w.check(w.conc_bool(w.Or(w.eq(first[0], 0), w.eq(first[0], DAY * US))), "at the next such instant", first)
    else:
        w.check(w.eq(first[0], sec * US), "at that time", first)
    w.check(w.eq(first[1] - first[0], DAY * US), "and a day later", first)
    w.cover("time")


def scalar(w, p):
    """switches and the interval: what they say is what happens"""
    g = lib.Gate(w)
    w.set_now(0)
    which = w.choice("which", ["sync_balance", "sync_order", "use_account"])
    value = w.choice("value", p["values"])
    opts = dict(account_no="1001", sync_balance=False, sync_order=False, sync_internal=3600)
    opts[which] = value
    run = lib.Run(w, lambda r: r.set_options(**opts))
    run.setup()
    n = {k: g.count(k) for k in ("setup", "balance", "orders")}
    on = bool(value)
    want = dict(setup=1, balance=0, orders=0)
    if which == "use_account":
        want["setup"] = 1 if on else 0
    else:
        want["balance" if which == "sync_balance" else "orders"] = 1 if on else 0
    w.check(n == want, "the switch is followed", (which, value, n))
    w.cover("on" if on else "off")


SCENARIOS = [
    dict(name="malformed", fn=malformed, covers=("refused",), bounds="market_period, sync_period or sync_internal malformed, the malformed period alone, first or last, times with symbolic digits; earlier options given before",
         quick=[dict(options=["market_period", "sync_period"], kinds=KINDS, order=1), dict(options=["sync_internal"], kinds=[], order=1)],
         thorough=[dict(options=["market_period", "sync_period"], kinds=KINDS, order=1, tuples=1), dict(options=["market_period", "sync_period", "sync_internal"], kinds=KINDS, after=1),
                   dict(options=["market_period", "sync_period", "sync_internal"], kinds=KINDS, after=1, earlier=False)]),
    dict(name="text", fn=text, covers=("time", "no time"), bounds="a period from and to HH:MM:SS with six symbolic digits, two days", quick=[dict()], thorough=[dict(tuple=1), dict()]),
    dict(name="scalar", fn=scalar, covers=("on", "off"), bounds="sync_balance, sync_order, use_account with values true or false in Python's sense",
         quick=[dict(values=[True, False, 1, 0, "yes", "", None])], thorough=[dict(values=[True, False, 1, 0, 2, "yes", "", None, [], [0], 0.0, 0.1])]),
]
ASSUMPTIONS = ["the strategy catches the exception and goes on"]
