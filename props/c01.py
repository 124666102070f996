"""C01: what a time expression means"""
from . import lib

UNIT = {"h": 3600, "m": 60, "s": 1}


def first_call(w, expr, period=None, when="before", horizon=7 * lib.DAY):
    """set up a strategy with one task; (run, error raised by setup)"""
    # options of the account do not touch the trading periods
    more = w.choice("more", [{}, dict(sync_period=[("01:00:00", "02:00:00")], sync_internal=7, account_no="1001")])
    def init(r):
        if when == "replaced":
            # the options are given twice: the last ones count
            r.set_options(use_account=False, market_period=[("01:02:03", "04:05:06")])
            r.set_options(use_account=False, **dict(more, **({} if period is None else dict(market_period=period))))
        if when == "before" and period is not None:
            r.set_options(use_account=False, market_period=period, **more)
        if when == "before" and period is None:
            r.set_options(use_account=False, **more)
        r.run_daily(r.task("t"), expr)
        if when == "after":
            if period is not None:
                r.set_options(use_account=False, market_period=period, **more)
            else:
                r.set_options(use_account=False, **more)
    r = lib.Run(w, init)
    err = w.raises(r.setup)
    if err is None:
        r.run(horizon=horizon * lib.US, max_calls=1)
    return r, err


def clock(w, p):
    """HH:MM, HH:MM:SS with every digit"""
    vals, parts = [], []
    for k in range(p["fields"]):
        if p["digits"][k] == 2:
            t, v = lib.two(w, "f%d" % k)
        else:
            t = w.char("f%d" % k, "0123456789")
            v = lib.digit(w, t)
        parts.append(t)
        vals.append(v)
    expr = parts[0]
    for x in parts[1:]:
        expr = expr + ":" + x
    ok = w.And(vals[0] < 24, vals[1] < 60, len(vals) < 3 or vals[2] < 60)
    r, err = first_call(w, expr)
    w.check((err is None) == ok, "a clock time is accepted iff its fields are in range", err)
    if err is None:
        due = vals[0] * 3600 + vals[1] * 60 + (vals[2] if len(vals) > 2 else 0)
        w.check(len(r.calls) == 1, "the task is called")
        w.check(r.calls[0][1] == due * lib.US, "strategy_dt is the documented instant")
        w.check(r.calls[0][2] == due * lib.US, "the task is called at the documented instant")
        w.observe("at", r.calls[0][1])
        w.cover("scheduled")
    else:
        w.cover("refused")


def periods(w, p):
    """trading periods in effect: (option value or None, open second, close second)"""
    kind = p["period"]
    if kind == "default":
        return None, 34200, 54000
    n = p.get("n", 2)
    vals, secs = [], []
    for k in range(n):
        row = []
        for e in "ab":
            v, s = (lib.hms_text if kind == "text" else lib.hms_time)(w, "p%d%s" % (k, e))
            row.append(v)
            secs.append(s)
        vals.append(tuple(row))
    if not p.get("unsorted"):
        for a, b in zip(secs, secs[1:]):
            w.assume(a < b)
    if kind == "config":
        w.mod("jqtrade.scheduler.config").get_config().MARKET_PERIOD = vals
        return None, secs[0], secs[-1]
    return vals, secs[0], secs[-1]


def words(w, p):
    pv, op, cl = periods(w, p)
    word = w.choice("word", ["open", "close", "before_open", "after_close"])
    x = {"open": op, "close": cl, "before_open": op - 1800, "after_close": cl + 1800}[word]
    r, err = first_call(w, word, pv, p["when"])
    judge(w, r, err, x)


def offset(w, p):
    pv, op, cl = periods(w, p)
    base = w.choice("base", ["open", "close"])
    sign = w.choice("sign", ["+", "-"])
    expr, off = base + sign, 0
    for k, (u, nd) in enumerate(p["units"]):
        if nd == 2:
            t, v = lib.two(w, "o%d" % k)
        else:
            t = w.char("o%d" % k, "0123456789")
            v = lib.digit(w, t)
        expr = expr + t + u
        off = off + v * UNIT[u]
    b = op if base == "open" else cl
    x = b + off if sign == "+" else b - off
    if p.get("inday", True):
        w.assume(w.And(x >= 0, x < lib.DAY))
    r, err = first_call(w, expr, pv, p["when"])
    judge(w, r, err, x)


def days(w, p):
    """a run between two instants: each day of the run has its own instant, even where it lies on another day"""
    w.mod("jqtrade.scheduler.config").get_config().ENABLE_HISTORY_START = True
    base = w.choice("base", ["open", "close"])
    sign = w.choice("sign", ["+", "-"])
    t, v = lib.two(w, "o")
    u = w.choice("unit", p["unit"])
    off = v * UNIT[u]
    b = 34200 if base == "open" else 54000
    x = b + off if sign == "+" else b - off
    start = w.int("start", 0, lib.DAY - 1)
    end = start + w.int("span", 0, p["days"] * lib.DAY)
    w.set_now(w.int("now", 0, 5 * lib.DAY) * lib.US)

    def init(r):
        r.set_options(use_account=False)
        r.run_daily(r.task("t"), base + sign + t + u)
    r = lib.Run(w, init, start=lib.dt_of(w, start * lib.US), end=lib.dt_of(w, end * lib.US))
    err = w.raises(r.setup)
    w.check(err is None, "a valid expression is accepted", err)
    r.run()
    want = [d * lib.DAY + x for d in range(p["days"] + 2) if w.conc_bool(w.And(d * lib.DAY <= end, d * lib.DAY + x >= start, d * lib.DAY + x <= end))]
    w.check(len(r.calls) == len(want), "due once for each day of the run whose instant lies in it", (r.calls, want))
    for c, e in zip(r.calls, want):
        w.check(c[1] == e * lib.US, "due at the documented instant of the day", (r.calls, want))
    w.cover("some" if want else "none")
    if want and w.conc_bool(w.Or(x < 0, x >= lib.DAY)):
        w.cover("another day")


def judge(w, r, err, x):
    """x: documented second, relative to the midnight of each day"""
    w.check(err is None, "a valid expression is accepted", err)
    w.check(len(r.calls) == 1, "the task is called")
    t = r.calls[0][1]
    w.check(r.calls[0][2] == t, "the task is called at its due time")
    w.check(w.And((t - x * lib.US) % (lib.DAY * lib.US) == 0, t >= x * lib.US, t >= 0),
            "due exactly at the documented instant of a day")
    w.check(w.Or(t == x * lib.US, t < lib.DAY * lib.US), "due on the first day on which the instant lies ahead")
    w.observe("at", t)
    w.cover("called")


def malformed(w, p):
    """every text of the given shape: accepted only inside the grammar"""
    tail = w.text("c", p["n"], p["alphabet"]) if p["n"] else ""
    expr = p["head"] + tail
    r = None

    def init(r):
        r.set_options(use_account=False)
        r.run_daily(r.task("t"), expr)
    r = lib.Run(w, init)
    err = w.raises(r.setup)
    if err is None:
        v = verdict(w, p["head"], tail, p["n"])
        w.check(v, "what the grammar does not allow is refused", expr)
        w.cover("accepted")
    else:
        w.cover("refused")


def verdict(w, head, tail, n):
    """grammar, decided character by character: True when head+tail may be accepted"""
    s = [head[i] for i in range(len(head))] + [tail[i] for i in range(n)]
    if head in ("open", "close", ""):
        if n == 0:
            return head != ""
    if head in ("open", "close"):
        if not w.Or(s[len(head)] == "+", s[len(head)] == "-"):
            return False
        i, units = len(head) + 1, []
        while i < len(s):
            k = 0
            while i < len(s) and k < 2 and isdig(w, s[i]):
                i += 1
                k += 1
            if k == 0 or i >= len(s):
                return False
            u = None
            for c in "hms":
                if s[i] == c:
                    u = c
            if u is None:
                return False
            i += 1
            units.append(u)
        return 1 <= len(units) <= 3          # a repeated unit is not judged
    # clock: D?D:D?D[:D?D]
    i, fields = 0, []
    while True:
        k, v = 0, 0
        while i < len(s) and k < 2 and isdig(w, s[i]):
            v = v * 10 + w.ord(s[i]) - 48
            i += 1
            k += 1
        if k == 0:
            return False
        fields.append(v)
        if i == len(s):
            break
        if not (s[i] == ":"):
            return False
        i += 1
    if len(fields) not in (2, 3):
        return False
    return w.And(fields[0] < 24, *[f < 60 for f in fields[1:]])


def isdig(w, c):
    return bool(w.And(w.ord(c) >= 48, w.ord(c) <= 57))


def unit_sets(nd):
    out = []
    for a in "hms":
        out.append([(a, nd)])
        for b in "hms":
            if b != a:
                out.append([(a, nd), (b, nd)])
    return out


U3 = [[("h", 2), ("m", 2), ("s", 2)], [("s", 1), ("m", 2), ("h", 1)]]
SCENARIOS = [
    dict(name="clock", fn=clock, covers=("scheduled", "refused"), bounds="every digit of HH:MM and HH:MM:SS (1 or 2 digits per field)",
         quick=[dict(fields=2, digits=[2, 2]), dict(fields=2, digits=[1, 2]), dict(fields=3, digits=[2, 2, 2]), dict(fields=3, digits=[1, 1, 1])],
         thorough=[dict(fields=f, digits=d) for f in (2, 3) for d in ([1, 1, 1], [1, 1, 2], [1, 2, 1], [1, 2, 2], [2, 1, 1], [2, 1, 2], [2, 2, 1], [2, 2, 2])]),
    dict(name="words", fn=words, covers=("called",), bounds="all word expressions, all period bounds of one to three periods in any order, given as option or in the configuration",
         quick=[dict(period="default", when="before"), dict(period="text", when="after"), dict(period="time", when="before", n=1), dict(period="time", when="after", n=3),
               dict(period="time", when="before", n=2, unsorted=1), dict(period="config", when="before", n=3), dict(period="config", when="after", n=1), dict(period="default", when="replaced"), dict(period="time", when="replaced", n=1)],
         thorough=[dict(period=k, when=o, n=n) for k in ("default", "text", "time", "config") for o in ("before", "after") for n in (1, 2, 3)] + [dict(period=k, when=o, n=3, unsorted=1) for k in ("text", "time", "config") for o in ("before", "after")]),
    dict(name="offset", fn=offset, covers=("called",), bounds="open/close plus/minus every h/m/s offset of the given units, all period bounds",
         quick=[dict(period="default", when="before", units=u) for u in unit_sets(2)] +
               [dict(period="time", when="after", units=U3[0], n=1), dict(period="text", when="before", units=[("m", 2)]),
                dict(period="default", when="before", units=U3[1], inday=False)],
         thorough=[dict(period=k, when=o, units=u, n=n, inday=i) for k in ("default", "time", "text") for o in ("before", "after")
                   for u in unit_sets(2) + unit_sets(1) + U3 for n in (1, 2) for i in (True, False)]),
    dict(name="days", fn=days, covers=("some", "none", "another day"), bounds="runs of any start and end within so many days, open/close plus/minus any two-digit offset of one unit, also beyond midnight",
         quick=[dict(days=1, unit="h")], thorough=[dict(days=2, unit="hm"), dict(days=3, unit="h")]),
    dict(name="malformed", fn=malformed, covers=("refused",), bounds="every text: head word plus n characters of the alphabet",
         quick=[dict(head="", n=n, alphabet="0125:hm+ \n") for n in (1, 2, 3, 4)] + [dict(head="0:00", n=3, alphabet="05: x\n")] +
               [dict(head=h, n=n, alphabet="07hms+-:\n x") for h in ("open", "close") for n in (0, 1, 2, 3)] +
               [dict(head=h, n=4, alphabet="+3m\n\u0663") for h in ("open", "close")] + [dict(head="0:", n=2, alphabet="05\u0663\uff15\n"), dict(head="0:00", n=2, alphabet=":5\u0663\n")] +
               [dict(head=h, n=n, alphabet="+3m") for h in ("opens", "Open", "noon", "before_open", "every_minute") for n in (1, 2, 3)] +
               [dict(head=h, n=0, alphabet="") for h in ("", "opens", "Open", "CLOSE", "Before_Open", " open", "noon", "minute", "every_day")],
         thorough=[dict(head="", n=n, alphabet="012569:hms+- \n.\u0663") for n in (1, 2, 3, 4, 5, 6)] + [dict(head="00:00", n=n, alphabet="0569: x\n_") for n in (1, 2, 3, 4)] +
               [dict(head=h, n=n, alphabet="079hms+-:\n x") for h in ("open", "close") for n in (1, 2, 3, 4, 5)] +
               [dict(head=h, n=n, alphabet="+3m") for h in ("opens", "Open", "noon", "before_open", "every_minute", "clos") for n in (1, 2, 3)]),
]
ASSUMPTIONS = ["process starts at local midnight of the first day (start instants are C03's subject)", "fixed UTC offset (no DST)"]
