"""C09: custom configuration files"""
from . import lib

PREFIX = {"jqtrade.scheduler.config": "SCHEDULER_", "jqtrade.account.config": "ACCOUNT_"}
SETUP = {"jqtrade.scheduler.config": "setup_scheduler_config", "jqtrade.account.config": "setup_account_config"}
DEFAULTS = {"jqtrade.scheduler.config": ("EVENT_DAYS_COUNT", "ENABLE_HISTORY_START", "MARKET_PERIOD", "SETUP_ACCOUNT", "RUNTIME_DIR"),
            "jqtrade.account.config": ("SYNC_BALANCE", "SYNC_ORDER", "SYNC_INTERNAL", "SYNC_PERIOD", "TRADE_GATE")}
LETTERS = "ABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789abcdefghijklmnopqrstuvwxyz"


def names(w, p):
    """a file with n assignments `NAME = <int>`; the names are prefix + any suffix (or without the prefix)"""
    mn = p["module"]
    prefix, other = PREFIX[mn], [v for k, v in PREFIX.items() if k != mn][0]
    cfgmod = w.mod(mn)
    cfg = cfgmod.get_config()
    before = {n: getattr(cfg, n) for n in DEFAULTS[mn]}
    path = w.path("custom.py")
    src, want, strange, shown = [], [], [], set(vars(cfg))
    for k in range(p["n"]):
        kind = w.choice("kind%d" % k, p["kinds"])
        suffix = w.char("s%d.0" % k, LETTERS if kind != "plain" else LETTERS.replace("0123456789", "")) + w.textv("s%d" % k, 0, p["len"] - 1, LETTERS)
        pre = dict(own=prefix, other=other, plain="", tail=prefix[:-1], inside="XY" + prefix, twice=prefix * 2)[kind]
        name = pre + suffix
        val = w.int("v%d" % k, 0, 99)
        src.append(name + " = " + w.tostr(val) + "\n")
        if kind == "own":
            want.append((suffix, val))
        elif kind == "twice":
            want.append((prefix + suffix, val))
        else:
            strange.append((suffix, val))
        if kind == "plain":
            # a bare name may spell the prefix itself only when it is long enough
            w.assume(w.Not(name.startswith(prefix)))
        elif kind == "tail":
            w.assume(w.Not(suffix.startswith("_")))
    w.write_file(path, w.concat(src))
    err = w.raises(getattr(cfgmod, SETUP[mn]), path)
    w.check(err is None, "a valid file is accepted", err)
    final = []
    for suffix, val in want:
        final = [(s, v) for s, v in final if not w.conc_bool(w.eq(s, suffix))] + [(suffix, val)]
    for suffix, val in final:
        got, e = w.attempt(lambda: getattr(cfg, suffix))
        w.check(e is None, "a named setting exists under exactly its name", (suffix, e))
        w.check(w.eq(got, val), "a named setting has the given value", (suffix, got, val))
        w.cover("set")
    for n in DEFAULTS[mn]:
        hit = [1 for s, _ in final if w.conc_bool(w.eq(s, n))]
        if not hit:
            w.check(getattr(cfg, n) == before[n], "settings not named keep their value", (n, getattr(cfg, n)))
            w.cover("kept")
    for n, got in list(vars(cfg).items()):
        if n in shown or not w.is_num(got) or any(w.conc_bool(w.eq(n, s)) for s, _ in final):
            continue
        w.check(w.Not(w.Or(*[w.And(n.endswith(s), w.eq(got, v)) for s, v in strange])) if strange else True, "a name without the prefix does not become a setting", n)
    w.observe("final", [(s, v) for s, v in final])


def documented(w, p):
    """each documented setting, given by its real name, is the value the configuration then shows; others unchanged"""
    mn = p["module"]
    cfgmod = w.mod(mn)
    cfg = cfgmod.get_config()
    before = {n: getattr(cfg, n) for n in DEFAULTS[mn]}
    vals = {}
    src = ["import datetime\n", "_x = 1\n", "datetimes = 2\n"]
    for n in DEFAULTS[mn]:
        if w.conc_bool(w.bool("has_" + n)):
            vals[n] = w.int("v_" + n, 0, 9999)
    path = w.path("custom.py")
    # symbolic values are passed through assignments of names only
    src = [PREFIX[mn] + n + " = " + w.tostr(v) + "\n" for n, v in vals.items()]
    w.write_file(path, w.concat(src) if src else "")
    err = w.raises(getattr(cfgmod, SETUP[mn]), path)
    w.check(err is None, "a valid file is accepted", err)
    for n in DEFAULTS[mn]:
        if n in vals:
            w.check(getattr(cfg, n) == vals[n], "the setting has the given value", n)
        else:
            w.check(getattr(cfg, n) == before[n], "settings not named keep their value", n)
    w.cover("done")


def use_days(w, p):
    """SCHEDULER_EVENT_DAYS_COUNT set in the file is the number of days generated ahead, whatever it is"""
    n = w.int("n", 1, p["max"])
    path = w.path("custom.py")
    w.write_file(path, w.concat(["SCHEDULER_EVENT_DAYS_COUNT = ", w.tostr(n), "\n"]))
    w.mod("jqtrade.scheduler.config").setup_scheduler_config(path)
    w.set_now(8 * 3600 * lib.US)
    r = lib.Run(w, lambda r: (r.set_options(use_account=False), r.run_daily(r.task("a"), "09:30:00")))
    r.setup()
    r.run(max_calls=p["calls"])
    w.check([(x[0], x[1]) for x in r.calls] == [("a", (k * lib.DAY + 34200) * lib.US) for k in range(p["calls"])],
            "days keep following each other", r.calls)
    w.cover("ran")


def use_period(w, p):
    """SCHEDULER_MARKET_PERIOD set in the file moves open and close"""
    sec = w.choice("open", [9 * 3600 + 15 * 60, 10 * 3600, 8 * 3600 + 31])
    t = "datetime.time(%d, %d, %d)" % (sec // 3600, sec // 60 % 60, sec % 60)
    path = w.path("custom.py")
    w.write_file(path, "import datetime\nSCHEDULER_MARKET_PERIOD = [(%s, datetime.time(12, 0)), (datetime.time(13, 0), datetime.time(14, 30))]\n"
                       "SCHEDULER_SETUP_ACCOUNT = False\n" % t)
    w.mod("jqtrade.scheduler.config").setup_scheduler_config(path)
    w.set_now(w.int("now", 0, 7 * 3600) * lib.US)
    off = w.int("off", 0, 59)
    r = lib.Run(w, lambda r: (r.set_options(), r.run_daily(r.task("o"), w.concat(["open+", w.tostr(off), "m"])), r.run_daily(r.task("c"), "close")), config=path)
    r.setup()
    r.run(max_calls=2)
    w.check([x[0] for x in r.calls] == ["o", "c"], "both run", r.calls)
    w.check(r.calls[0][1] == (sec + off * 60) * lib.US, "open is the configured one", r.calls)
    w.check(r.calls[1][1] == (14 * 3600 + 1800) * lib.US, "close is the configured one", r.calls)
    w.check(w.raises(lambda: r.user_ctx.portfolio) is not None, "SETUP_ACCOUNT=False turns the account off by default")
    w.cover("ran")


def use_account(w, p):
    """account settings in the file are those the account uses: trade gate, sync switches, interval"""
    g = lib.Gate(w)
    w.mod("jqtrade.account.config").get_config().TRADE_GATE = "nowhere.Nothing"
    path = w.path("custom.py")
    b, o = w.conc_bool(w.bool("balance")), w.conc_bool(w.bool("order"))
    iv = w.int("interval", p["lo"], p["hi"])
    w.write_file(path, w.concat(["ACCOUNT_SYNC_BALANCE = ", "1" if b else "0", "\nACCOUNT_SYNC_ORDER = ", "1" if o else "0",
                                 "\nACCOUNT_SYNC_INTERNAL = ", w.tostr(iv), "\n"]))
    cfg2 = w.path("gate.py")
    w.write_file(cfg2, "ACCOUNT_TRADE_GATE = 'fakegate.FakeGate'\nACCOUNTX = 3\n")
    w.mod("jqtrade.account.config").setup_account_config(path)
    w.set_now((22 * 3600 - 1) * lib.US)
    T = w.datetime.time
    r = lib.Run(w, lambda r: r.set_options(account_no="1", sync_period=[(T(22, 0), T(22, 0, 40))]), config=cfg2)
    err = w.raises(r.setup)
    w.check(err is None, "the configured trade gate is used", err)
    w.check(g.count("setup") == 1, "the configured trade gate is set up once", g.log)
    w.check(g.count("balance") == (1 if b else 0) and g.count("orders") == (1 if o else 0), "initial synchronisation as configured", g.log)
    t0 = w.now_us()
    r.run(horizon=t0 + 45 * lib.US)
    what = "balance" if b else "orders"
    if b or o:
        times = [t for k, t in g.log if k == what]
        w.check(len(times) >= 3, "synchronised in the period", times)
        for a, b in zip(times[1:], times[2:]):
            w.check(b - a == iv * lib.US, "the configured interval is used", (times, iv))
        w.cover("synced")
    else:
        w.check(g.count("balance") + g.count("orders") == 0, "nothing synchronised", g.log)
        w.cover("off")


def runner(w, p):
    """the file named on the command line is applied by the runner to both modules; a missing one is refused"""
    g = lib.Gate(w)
    w.mod("jqtrade.account.config").get_config().TRADE_GATE = "nowhere.Nothing"
    cfg = w.path("cfg.py")
    code = w.path("strat.py")
    w.write_file(code, "calls = []\ndef process_initialize(context):\n    set_options(account_no='1')\n    run_daily(f, 'open')\n"
                       "def f(context):\n    calls.append(context.strategy_dt)\n")
    days = w.int("days", 1, 5)
    exists = w.conc_bool(w.bool("exists"))
    given = cfg
    if p.get("named"):
        # named relative to the directory the task is started in or to the home directory; the strategy may change directory first
        given = w.choice("named", ["cfg.py", "./cfg.py", "~/cfg.py"])
        w.makedirs(w.path("b"))
        w.chdir(w.path("b"))
        cfg = w.path("home" if given[0] == "~" else "b", "cfg.py")
        if w.conc_bool(w.bool("moves")):
            w.makedirs(w.path("c"))
            w.mod("jqtrade.scheduler.api").MOVE = lambda: w.chdir(w.path("c"))
            w.write_file(code, "calls = []\ndef process_initialize(context):\n    print.__globals__['MOVE']()\n    set_options(account_no='1')\n    run_daily(f, 'open')\n"
                               "def f(context):\n    calls.append(context.strategy_dt)\n")
    if exists:
        w.write_file(cfg, w.concat(["SCHEDULER_EVENT_DAYS_COUNT = ", w.tostr(days), "\nACCOUNT_SYNC_BALANCE = 0\nACCOUNT_SYNC_ORDER = 1\n"]))
        w.mod("jqtrade.account.config").get_config().TRADE_GATE = "fakegate.FakeGate"
    R = w.mod("jqtrade.scheduler.runner")
    t, err = w.attempt(R.TaskRunner, code, None, "demo", None, False, given)
    if not exists:
        w.check(err is not None, "a missing configuration file is refused")
        w.cover("missing")
        return
    w.check(err is None, "accepted", err)
    w.set_now(8 * 3600 * lib.US)
    n = [0]

    def hook(uv):
        n[0] += 1
        if n[0] > 2:
            w.mod("jqtrade.scheduler.context").Context.get_instance().loop.stop()
    w.uv_hook = hook
    err = w.raises(t.run)
    w.check(err is None, "the task runs", err)
    w.check(w.mod("jqtrade.scheduler.config").get_config().EVENT_DAYS_COUNT == days, "scheduler settings applied")
    w.check(g.count("balance") == 0 and g.count("orders") >= 1, "account settings applied", [k for k, _ in g.log])
    w.cover("applied")


PROGRAMS = [
    ("import datetime\n_h = [9, 13]\ndef t(h):\n    return datetime.time(h, 30)\n{P}X = [(t(h), t(h + 1)) for h in _h]\n", "X", [(9, 10), (13, 14)]),
    ("a = 3\n{P}X = [a * k for k in range(4)]\n", "X", [0, 3, 6, 9]),
    ("{P}A = 5\ndef f():\n    return {P}A + 1\n{P}B = f()\n", "B", 6),
    ("class C:\n    v = 4\ndef g(n):\n    return n if n < 2 else g(n - 1) + g(n - 2) + C.v\n{P}X = g(4)\n", "X", 19),
    ("{P}X = 1\nfor k in range(5):\n    {P}X = {P}X + k\nif {P}X > 10:\n    {P}X = 'big'\n", "X", "big"),
    ("{P}SYNC_PERIOD = None\n", "SYNC_PERIOD", None),
    ("{P}X = None\n{P}X2 = 1\n", "X", None),
    ("{P}X = ''\n", "X", ""), ("{P}X = []\n", "X", []), ("{P}X = False\n", "X", False), ("{P}X = -1.5\n", "X", -1.5), ("{P}X = {'a': {'b': (1, None)}}\n", "X", {"a": {"b": (1, None)}}),
    ("{P}TRADE_GATE = None\n", "TRADE_GATE", None), ("{P}MARKET_PERIOD = ()\n", "MARKET_PERIOD", ()),
    ("{P}X = len\n", "X", len), ("{P}X = dict\n", "X", dict), ("{P}X = range(3)\n", "X", range(3)),
    ("{P}X = lambda: {P}Y\n{P}Y = 7\n{P}Z = {P}X()\n", "Z", 7),
]


def program(w, p):
    """the file is an ordinary Python file: helpers, loops and functions using names of the file"""
    mn = p["module"]
    cfgmod = w.mod(mn)
    src, name, want = w.choice("program", PROGRAMS)
    path = w.path("custom.py")
    w.write_file(path, src.replace("{P}", PREFIX[mn]))
    before = {n: getattr(cfgmod.get_config(), n) for n in DEFAULTS[mn]}
    err = w.raises(getattr(cfgmod, SETUP[mn]), path)
    w.check(err is None, "a valid file is accepted", err)
    got = getattr(cfgmod.get_config(), name)
    if isinstance(want, list) and want and isinstance(want[0], tuple):
        got = [(a.hour, b.hour) for a, b in got]
    w.check(got == want and type(got) is type(want), "the setting has the value the file gives it", (got, want))
    w.check(all(getattr(cfgmod.get_config(), n) == before[n] for n in DEFAULTS[mn] if n != name), "other settings keep their values")
    w.check(not [n for n in vars(cfgmod.get_config()) if n in ("a", "k", "f", "g", "t", "C", "_h", "datetime", "__builtins__")], "helpers are no settings")
    w.cover("ran")


S, A = "jqtrade.scheduler.config", "jqtrade.account.config"
SCENARIOS = [
    dict(name="names", fn=names, covers=("set", "kept"), bounds="n assignments; names = prefix (own, the other module's, the own prefix without underscore, after another letter, or twice, none) followed by 1..len characters of [A-Za-z0-9_]; any value 0..99",
         quick=[dict(module=m, n=1, len=10, kinds=["own", "other", "plain", "tail", "inside", "twice"]) for m in (S, A)] + [dict(module=m, n=2, len=2, kinds=["own", "plain"]) for m in (S, A)] + [dict(module=m, n=2, len=1, kinds=["own", "inside", "twice"]) for m in (S, A)],
         thorough=[dict(module=m, n=1, len=12, kinds=["own", "other", "plain", "tail", "inside", "twice"]) for m in (S, A)] + [dict(module=m, n=2, len=4, kinds=["own", "other", "plain"]) for m in (S, A)] + [dict(module=m, n=3, len=2, kinds=["own", "plain"]) for m in (S, A)]),
    dict(name="documented", fn=documented, covers=("done",), bounds="every subset of the five documented settings of each module, any values 0..9999", quick=[dict(module=S), dict(module=A)]),
    dict(name="program", fn=program, covers=("ran",), bounds="files with values of any type, None included, and helper functions, comprehensions, loops, classes and names used across them", quick=[dict(module=S), dict(module=A)]),
    dict(name="use_days", fn=use_days, covers=("ran",), bounds="any day count up to max, `calls` consecutive days run", quick=[dict(max=4, calls=5)], thorough=[dict(max=8, calls=12)]),
    dict(name="use_period", fn=use_period, covers=("ran",), bounds="three configured opens, any offset in minutes", quick=[dict()]),
    dict(name="use_account", fn=use_account, covers=("synced", "off"), bounds="all switch settings, any interval lo..hi s", quick=[dict(lo=5, hi=12)], thorough=[dict(lo=2, hi=39)]),
    dict(name="runner", fn=runner, covers=("applied", "missing"), bounds="the configuration file given to start_task present or missing, named absolutely, relatively or with ~, the strategy changing directory or not; any day count", quick=[dict(), dict(named=1)]),
]
ASSUMPTIONS = ["configuration files with symbolic names consist of lines `NAME = <decimal integer>`; values of other types are exercised with concrete text",
               "the settings object's attributes are read through the documented names"]
