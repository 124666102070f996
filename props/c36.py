"""C36: print in a strategy"""
from . import lib


class Sink:
    """a file-like object of the caller"""

    def __init__(self):
        self.parts, self.flushed = [], 0

    def write(self, s):
        self.parts.append(s)

    def flush(self):
        self.flushed += 1


class Quiet(Sink):
    """the same, counting as false"""

    def __len__(self):
        return 0


def txt(w, name, p, n, alpha):
    return w.text(name, n, alpha) if p.get("fixed") else w.textv(name, 0, n, alpha)


def value(w, name, p):
    kind = w.pick(name + ".kind", 0, p.get("kinds", 3))
    if kind == 0:
        return txt(w, name, p, p.get("len", 2), p.get("alpha") or "ab \n")
    if kind == 1:
        return w.int(name + ".i", -1000, 1000)
    return [None, 1.5][kind - 2]


def expect(w, args, sep, end):
    out = []
    for k, a in enumerate(args):
        if k:
            out.append(sep)
        out.append(a if w.is_str(a) else w.tostr(a))
    out.append(end)
    return "".join(out)


def prints(w, p):
    """a sequence of prints; each goes to exactly one place"""
    log = w.path("task.log")
    old = "earlier\n" if p.get("old") else ""
    if old:
        w.write_file(log, old)
    run = lib.Run(w, lambda r: r.set_options(use_account=False), out=log if p["out"] else None)
    run.setup()
    pr = run.module.print
    sink, mine = Quiet() if p.get("quiet") else Sink(), w.path("mine.txt")
    sink_want, mine_want, log_want, std_want = "", "", old, ""
    for k in range(p["n"]):
        args = [value(w, "v%d.%d" % (k, i), p) for i in range(w.pick("argc%d" % k, 0, p.get("args", 2)))]
        kw = {}
        sep, end = " ", "\n"
        if p.get("sep") and w.conc_bool(w.bool("sep%d" % k)):
            sep = kw["sep"] = txt(w, "sept%d" % k, p, p["sep"], ",\t")
        if p.get("end") and w.conc_bool(w.bool("end%d" % k)):
            end = kw["end"] = txt(w, "endt%d" % k, p, p["end"], ".\n")
        text = expect(w, args, sep, end)
        if p.get("flush") and w.conc_bool(w.bool("flush%d" % k)):
            kw["flush"] = w.conc_bool(w.bool("flushv%d" % k))
        where = w.choice("to%d" % k, ["default", "sink", "file"] if not p.get("only") else p["only"])
        before = len(w.stdout)
        if where == "sink":
            kw["file"] = sink
            sink_want = sink_want + text
        elif where == "file":
            kw["file"] = w.open(mine, "a")
            mine_want = mine_want + text
        elif p["out"]:
            log_want = log_want + text
        else:
            std_want = std_want + text
        err = w.raises(lambda: pr(*args, **kw))
        w.check(err is None, "print does not raise", err)
        if where == "file":
            w.check(not kw["file"].closed, "the caller's file stays open")
            kw["file"].close()
        # visible at once, in the one place it belongs to
        w.check(w.eq("".join(w.stdout), std_want), "standard output shows exactly what belongs there", ("".join(w.stdout), std_want))
        w.check(w.eq("".join(sink.parts), sink_want), "the caller's file-like object gets exactly its text", (sink.parts, sink_want))
        if p["out"] or old:
            got = w.read_file(log) if w.exists(log) else ""
            w.check(w.eq(got, log_want), "the log file shows exactly what belongs there", (got, log_want))
        else:
            w.check(not w.exists(log), "no log file appears")
        got = w.read_file(mine) if w.exists(mine) else ""
        w.check(w.eq(got, mine_want), "the caller's file gets exactly its text", (got, mine_want))
        w.cover(where)


def through_start(w, p):
    """the same through start_task, with the strategy file calling print"""
    path, log, mine = w.path("strategy.py"), w.path("task.log"), w.path("mine.txt")
    text = w.textv("t", 0, p.get("len", 3), "ab \n")
    w.write_file(path, """
def process_initialize(context):
    set_options(use_account=False)
    TEXT[2]()
    print(TEXT[0])
    with open(TEXT[1], "a") as f:
        print(TEXT[0], "x", file=f, sep="-", end="!")
    print("end")
""".replace("TEXT", "print.__globals__['TEXT']"))
    M = w.mod("jqtrade.scheduler.api")
    given = log
    if p.get("named"):
        # the log is named relative to the directory the task is started in; the strategy may change directory
        given = w.choice("named", ["task.log", "./task.log", "../b/task.log"])
        w.makedirs(w.path("a"))
        w.makedirs(w.path("b"))
        w.chdir(w.path("b"))
        log = w.path("b", "task.log")
    moves = bool(p.get("named")) and w.conc_bool(w.bool("moves"))
    M.TEXT = (text, mine, (lambda: w.chdir(w.path("a"))) if moves else (lambda: None))
    args = ["jqtrade", "start_task", "-n", "t1", "-c", path]
    if p["out"]:
        args += ["-o", given]
    w.argv[:] = args
    err = w.raises(lambda: w.mod("jqtrade.__main__").main())
    w.check(err is None, "the task runs", err)
    want = text + "\nend\n"
    if p["out"]:
        w.check(w.eq(w.read_file(log), want), "the log holds the text", w.read_file(log))
        w.check(w.eq("".join(w.stdout), ""), "nothing on standard output", w.stdout)
    else:
        w.check(w.eq("".join(w.stdout), want), "standard output holds the text", w.stdout)
        w.check(not w.exists(log), "no log")
    w.check(w.eq(w.read_file(mine), text + "-x!"), "the named file holds its text", w.read_file(mine))
    w.cover("started")


SCENARIOS = [
    dict(name="prints", fn=prints, covers=("default",),
         bounds="1-3 prints of 0-6 values (symbolic text, integer, None, float), sep and end given or not, to the default place, a caller's object or a caller's file",
         quick=[dict(n=1, out=1, old=1, flush=1, len=1, sep=1, end=1), dict(n=1, out=0, flush=1, len=1, sep=1, end=1), dict(n=1, out=1, args=3, kinds=0, len=2, fixed=1, sep=2),
                dict(n=2, out=1, args=1, kinds=1, fixed=1, end=1, quiet=1), dict(n=2, out=0, args=1, kinds=1, fixed=1, end=1), dict(n=3, out=1, args=1, kinds=0, len=1, fixed=1, old=1),
                dict(n=1, out=1, args=6, kinds=0, len=1, fixed=1, only=["default"]), dict(n=1, out=0, args=6, kinds=0, len=1, fixed=1, only=["default", "sink"])],
         thorough=[dict(n=2, out=1, args=1, kinds=1, len=1, quiet=1), dict(n=2, out=0, args=1, kinds=1, len=1, quiet=1), dict(n=1, out=1, old=1, flush=1, args=3, sep=1, end=1), dict(n=1, out=0, flush=1, args=2, sep=2, end=2), dict(n=2, out=1, args=1, kinds=1, len=1, end=1), dict(n=2, out=0, args=1, kinds=1, len=1, sep=1),
                   dict(n=3, out=1, args=1, kinds=1, len=1, fixed=1, old=1), dict(n=4, out=1, args=1, kinds=0, len=1, fixed=1, old=1)]),
    dict(name="through_start", fn=through_start, covers=("started",), bounds="start_task with and without -o, the log named absolutely or relatively, the strategy changing directory or not", quick=[dict(out=0), dict(out=1), dict(out=1, named=1)], thorough=[dict(out=1, named=1, len=5), dict(out=0, len=6), dict(out=1, len=6)]),
]
ASSUMPTIONS = ["the log handler's own lines are not modelled (logging is stubbed)", "the text is written under the default encoding without translation (POSIX line ends)"]
