"""C10: registration only inside process_initialize; the function passed is the function run"""
from . import lib


class Callable:
    def __init__(self, f):
        self.f = f

    def __call__(self, context):
        return self.f(context)

    def method(self, context):
        return self.f(context)


def make(w, r, kind, tag):
    """a function object recording (tag, context) when called"""
    def record(context):
        r.hits.append((tag, lib.us_of(w, context.strategy_dt), context is r.user_ctx))
    if kind == "module":
        def f(context):
            record(context)
        f.__name__ = "f%s" % tag
        setattr(r.module, f.__name__, f)
    elif kind == "same":
        # several functions of one name, the module attribute is another one
        def f(context):
            record(context)
        f.__name__ = "work"
        r.module.work = f
    elif kind == "shadowed":
        def f(context):
            record(context)
        f.__name__ = "g%s" % tag

        def other(context):
            r.hits.append(("other", None, True))
        setattr(r.module, f.__name__, other)
    elif kind == "local":
        def f(context):
            record(context)
    elif kind == "lambda":
        f = lambda context: record(context)
    elif kind == "method":
        f = Callable(record).method
    elif kind == "builtin_name":
        def f(context):
            record(context)
        f.__name__ = "print"
    else:
        f = Callable(record)
    return f


KINDS = ["module", "same", "shadowed", "local", "lambda", "method", "builtin_name", "object"]


def functions(w, p):
    """n registrations of functions of any kind at any times"""
    n = p["n"]
    w.set_now(w.int("now", 0, 23 * 3600) * lib.US)
    t0 = w.now_us()
    kinds = [w.choice("kind%d" % k, p.get("kinds") or KINDS) for k in range(n)]
    secs = []

    def init(r):
        for k in range(n):
            text, sec = lib.hms_text(w, "t%d" % k)
            secs.append(sec)
            r.run_daily(make(w, r, kinds[k], k), text)
    r = lib.Run(w, init)
    r.hits = []
    err = w.raises(r.setup)
    w.check(err is None, "registrations with callables are accepted", (kinds, err))
    r.run(horizon=(lib.DAY - 1) * lib.US)
    for k in range(n):
        mine = [h for h in r.hits if h[0] == k]
        if w.conc_bool(secs[k] * lib.US >= t0):
            w.check(len(mine) == 1 and mine[0][1] == secs[k] * lib.US, "the function passed is called at its time", (k, kinds, r.hits))
            w.check(mine[0][2], "with the strategy context", (k, kinds))
            w.cover("called " + kinds[k])
        else:
            w.check(not mine, "not called before its time", (k, kinds, r.hits))
    w.check(not [h for h in r.hits if h[0] == "other"], "no other function is called", (kinds, r.hits))


def many(w, p):
    """more than ten registrations of functions whose names end in digits"""
    w.set_now(0)
    n = p["n"]
    both = w.conc_bool(w.bool("both"))
    names = [w.choice("name%d" % k, ["f", "f1", "f0", "f_1", "f_"]) if k in p["free"] else "f" + "x" * k for k in range(n)]

    def init(r):
        for k in range(n):
            def f(context, k=k):
                r.hits.append((k, lib.us_of(w, context.strategy_dt)))
            f.__name__ = names[k]
            if both:
                setattr(r.module, names[k], f)
            r.run_daily(f, "09:%02d:00" % (k % 60))
    r = lib.Run(w, init)
    r.hits = []
    w.check(w.raises(r.setup) is None, "registrations with callables are accepted")
    r.run(horizon=(lib.DAY - 1) * lib.US)
    w.check(r.hits == [(k, (9 * 3600 + k * 60) * lib.US) for k in range(n)], "each registration's function is called once at its time", (names, r.hits))
    w.cover("done")


def shared(w, p):
    """one function registered several times (same or different times) is called once per registration"""
    w.set_now(0)
    n = p["n"]
    secs = []

    def init(r):
        f = make(w, r, "module", "x")
        for k in range(n):
            text, sec = lib.hms_text(w, "t%d" % k)
            secs.append(sec)
            r.run_daily(f, text)
    r = lib.Run(w, init)
    r.hits = []
    r.setup()
    r.run(horizon=(lib.DAY - 1) * lib.US)
    w.check(len(r.hits) == n, "one call per registration", r.hits)
    for k in range(n):
        w.check(sum([w.ite(h[1] == secs[k] * lib.US, 1, 0) for h in r.hits]) == sum([w.ite(s == secs[k], 1, 0) for s in secs]), "at the registered times", k)
    w.cover("done")


def outside(w, p):
    """calls of run_daily and set_options at any moment outside process_initialize are refused without effect"""
    w.set_now(w.int("now", 0, 8 * 3600) * lib.US)
    when = w.choice("when", ["before", "after", "in_task", "second_time"])
    what = w.choice("what", ["run_daily", "set_options", "both"])
    has_options = w.conc_bool(w.bool("options"))
    extra_text, extra = lib.hms_text(w, "x")
    period = [(w.datetime.time(9, 0), w.datetime.time(14, 0))]
    errs = []

    def intrude(r):
        if what in ("run_daily", "both"):
            errs.append(w.raises(r.strategy.run_daily, make(w, r, "module", "late"), extra_text))
        if what in ("set_options", "both"):
            errs.append(w.raises(r.strategy.set_options, use_account=False, market_period=period))

    def init(r):
        if has_options:
            r.set_options(use_account=False, market_period=[(w.datetime.time(10, 0), w.datetime.time(15, 0))])
        r.run_daily(make(w, r, "module", "a"), "open")

        def b(context):
            r.hits.append(("b", lib.us_of(w, context.strategy_dt), True))
            if when == "in_task":
                intrude(r)
        b.__name__ = "b"
        r.module.b = b
        r.run_daily(b, "08:30:00")
    r = lib.Run(w, init)
    r.hits = []
    if when == "before":
        intrude(r)
    r.setup()
    if when == "after":
        intrude(r)
    opts = r.strategy.options
    if when == "second_time":
        r.run(horizon=12 * 3600 * lib.US)
        intrude(r)
        r.run(horizon=(lib.DAY - 1) * lib.US)
    else:
        r.run(horizon=(lib.DAY - 1) * lib.US)
    w.check(len(errs) >= 1 and all([e is not None for e in errs]), "a call outside process_initialize raises", (when, what, errs))
    w.check(len([e for e in errs if type(e).__name__ == "InvalidCall"]) == len(errs), "as an invalid call", errs)
    want = [("b", 8 * 3600 + 1800), ("a", (10 if has_options else 9) * 3600 + (0 if has_options else 1800))]
    w.check([(h[0], h[1]) for h in r.hits] == [(a, s * lib.US) for a, s in want], "tasks and options are as before", (when, what, r.hits))
    w.cover(when)


def history(w, p):
    """a history of registrations: only those made while process_initialize runs have an effect"""
    n = p["n"]
    w.set_now(0)
    acts = [w.choice("act%d" % k, ["reg", "leave"]) for k in range(n)]
    inside = []
    errs = []

    def init(r):
        for k in range(n):
            if acts[k] == "leave":
                break
            r.run_daily(make(w, r, "module", k), "%02d:00:00" % (k + 1))
            inside.append(k)
    r = lib.Run(w, init)
    r.hits = []
    r.setup()
    for k in range(len(inside), n):
        errs.append(w.raises(r.strategy.run_daily, make(w, r, "module", k), "%02d:00:00" % (k + 1)))
    w.check(all([e is not None for e in errs]), "refused outside", errs)
    r.run(horizon=(lib.DAY - 1) * lib.US)
    w.check([h[0] for h in r.hits] == inside, "exactly the accepted registrations run", (inside, r.hits))
    w.cover("done")


def refused(w, p):
    """no process_initialize, or something that is not callable"""
    what = w.choice("what", ["none", "text", "int", "nothing"])
    if what == "none":
        r = lib.Run(w, None)
        r.hits = []
        w.check(w.raises(r.setup) is not None, "a strategy without process_initialize is refused")
        w.cover("none")
        return
    errs = []

    def init(r):
        errs.append(w.raises(r.strategy.run_daily, dict(text="f", int=3, nothing=None)[what], "09:30:00"))
        r.run_daily(make(w, r, "module", "a"), "09:30:00")
    w.set_now(0)
    r = lib.Run(w, init)
    r.hits = []
    r.setup()
    w.check(errs[0] is not None, "only callables are accepted", what)
    r.run(horizon=(lib.DAY - 1) * lib.US)
    w.check([h[0] for h in r.hits] == ["a"], "the refused registration has no effect", r.hits)
    w.cover("refused")


SCENARIOS = [
    dict(name="functions", fn=functions, covers=tuple("called " + k for k in KINDS), bounds="n registrations, each of any kind of callable (module function, same name, shadowed name, local, lambda, bound method, name of a built-in, callable object), at any second of the day, any start second",
         quick=[dict(n=1), dict(n=2)], thorough=[dict(n=3)]),
    dict(name="shared", fn=shared, covers=("done",), bounds="one function registered n times at any times", quick=[dict(n=2)], thorough=[dict(n=3)]),
    dict(name="many", fn=many, covers=("done",), bounds="n registrations, those listed with names out of f f1 f0 f_1 f_", quick=[dict(n=12, free=[0, 1, 10])], thorough=[dict(n=22, free=[0, 1, 2, 10, 20])]),
    dict(name="outside", fn=outside, covers=("before", "after", "in_task", "second_time"), bounds="run_daily and/or set_options called before or after process_initialize, inside a task, or between runs of the loop; any extra time, any start second", quick=[dict()]),
    dict(name="history", fn=history, covers=("done",), bounds="n registrations, process_initialize ending after any of them", quick=[dict(n=4)], thorough=[dict(n=7)]),
    dict(name="refused", fn=refused, covers=("none", "refused"), bounds="strategy without process_initialize; non-callables", quick=[dict()]),
]
ASSUMPTIONS = ["one strategy per process"]
