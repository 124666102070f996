"""C39: log messages"""
from . import lib

LEVELS = ["debug", "info", "warning", "error", "critical"]


def entries(w, p):
    """log messages and prints of a strategy started with start_task"""
    w.use_logging()
    path, log = w.path("strategy.py"), w.path(w.choice("file", ["task.log", "task.txt", "task", "日志.out"]) if p.get("files") else "task.log")
    w.write_file(path, """
def process_initialize(context):
    set_options(use_account=False)
    print.__globals__['HOOK'](log, print)
    LATERrun_daily(later, "00:00:05")
def later(context):
    print.__globals__['HOOK'](log, print)
    raise SystemExit(77)
""".replace("LATER", "" if p.get("late") else "#"))
    old = "earlier line\n" if p.get("old") else ""
    if old:
        w.write_file(log, old)
    args = ["jqtrade", "start_task", "-n", "t1", "-c", path]
    if p["out"]:
        args += ["-o", log]
    debug = w.conc_bool(w.bool("debug"))
    if debug:
        args += ["--debug"]
    w.argv[:] = args
    calls = [0]

    def judge(shown, hidden):
        std = "".join(w.stdout)
        if p["out"]:
            w.check(w.eq(std, ""), "nothing on standard output", std)
            text = w.read_file(log)
        else:
            w.check(not w.exists(log), "no log file appears")
            text = std
        w.check(w.eq(text[:len(old)], old), "what the file held stays", text)
        at = len(old) - 1
        for mark, body in shown:
            k = text.find(mark)
            w.check(k > at, "every message appears, in the order written", (mark, text))
            w.check(text.find(mark, k + 1) < 0, "exactly once", (mark, text))
            w.check(w.eq(text[k + len(mark):k + len(mark) + len(body)], body), "complete, with its own line end", (body, text))
            at = k + len(mark) + len(body) - 1
        for mark in hidden:
            w.check(text.find(mark) < 0, "a message below the level does not appear", (mark, text))

    shown, hidden = [], []

    def hook(logger, pr):
        calls[0] += 1
        for k in range(p["n"] * (calls[0] - 1), p["n"] * calls[0]):
            how = w.choice("how%d" % k, LEVELS[:p.get("levels", 5)] + (["print"] if p.get("print", 1) else []) + (["log", "exception"] if p.get("more") else []))
            body = w.textv("text%d" % k, 0, p.get("len", 2), p.get("alpha") or "a%\n")
            mark = "M%d<" % k
            if how == "print":
                pr(mark + body + ">")
                visible = True
            else:
                form = w.pick("form%d" % k, 0, p.get("forms", 3) - 1)
                a = [(mark + body + ">",), (mark + "%s>", body), (mark + "%s%s>", body, "")][form]
                if how == "log":
                    level = w.choice("level%d" % k, [10, 20, 25, 40])
                    logger.log(level, *a)
                elif how == "exception":
                    level = 40
                    try:
                        raise ValueError("x")
                    except ValueError:
                        logger.exception(*a)
                else:
                    level = 10 + 10 * LEVELS.index(how)
                    getattr(logger, how)(*a)
                visible = debug or level >= 20
            if visible:
                shown.append((mark, body + ">\n"))
                w.cover("print" if how == "print" else "shown")
            else:
                hidden.append(mark)
                w.cover("hidden")
            judge(shown, hidden)
    w.mod("jqtrade.scheduler.api").HOOK = hook
    try:
        err = w.raises(lambda: w.mod("jqtrade.__main__").main())
    except SystemExit as e:
        err = e
    w.check((isinstance(err, SystemExit) and calls[0] == 2) if p.get("late") else (err is None and calls[0] == 1), "the task runs", (err, calls))
    judge(shown, hidden)


SCENARIOS = [
    dict(name="entries", fn=entries, covers=("shown", "hidden", "print"),
         bounds="1-3 messages of any level, with and without arguments, and prints, of symbolic text, with and without --debug, -o, and earlier content; from process_initialize and from a task run later",
         quick=[dict(n=2, out=1, len=0, forms=1, levels=2, files=1), dict(n=1, out=1, old=1, more=1), dict(n=1, out=0, more=1), dict(n=2, out=1, len=1, forms=2), dict(n=2, out=0, len=0, forms=1), dict(n=3, out=1, old=1, len=0, forms=1, levels=3), dict(n=1, out=1, alpha="策a", forms=2), dict(n=1, out=1, late=1, len=1, forms=1), dict(n=1, out=0, late=1, len=0, forms=2)],
         thorough=[dict(n=1, out=1, old=1, more=1, len=4), dict(n=1, out=0, more=1, len=4), dict(n=2, out=1, old=1, len=2, forms=2), dict(n=2, out=0, len=1, forms=2), dict(n=3, out=1, old=1, len=1, forms=1), dict(n=4, out=1, len=0, forms=1, levels=3)]),
]
ASSUMPTIONS = ["the standard logging module is modelled (loggers, levels, propagation, filters, stream and file handlers); the replay uses the real one"]
