"""C32: stop_task signals exactly the selected tasks"""
from . import lib
from .c31 import LAUNCH, N_UNRELATED, main, unrelated


def rows(w, p):
    """a process table; returns [(pid, name)] of the running tasks"""
    tasks = []
    for k in range(p["n"]):
        kind = w.pick("kind%d" % k, 0, p.get("kinds", 2))
        nm = w.textv("name%d" % k, 1, 3, p.get("alphabet", "aA.")) if p.get("vary") else w.text("name%d" % k, p.get("len", 1), "ab")
        pid = 100 + k
        if kind == 0:
            tasks.append((pid, nm))
            w.procs.append(lib.proc(w, pid, 1, list(LAUNCH[(k + p.get("shift", 0)) % len(LAUNCH)]) + ["start_task"] + w.choice("line%d" % k, [["-c", "a.py", "-n", nm], ["-n" + nm, "--code=a.py", "--debug"]][:p.get("lines", 2)])))
        elif kind == 1:
            u = w.pick("u%d" % k, 0, N_UNRELATED - 1) if p.get("all") else (k * 5 + p.get("shift", 0)) % N_UNRELATED
            w.procs.append(lib.proc(w, pid, 1, unrelated(w, nm, u)))
        else:
            line = ["python", "-m", "jqtrade", "start_task", "-n", nm, "-c", "x.py"]
            tasks.append((pid, nm))
            wrap = w.choice("wrap%d" % k, [["sudo"] + line, ["jqtrade.exe", "start_task", "-n", nm, "-c", "x.py"], line, ["sh", "-c", " ".join(line)]])
            w.procs.append(lib.proc(w, pid + 20, 1, wrap))
            w.procs.append(lib.proc(w, pid, pid + 20, line))
    return tasks


def selectors(w, p):
    """(arguments, all?, pid, name) in any combination and spelling"""
    args, use_all, pid, name = [], False, None, None
    if w.conc_bool(w.bool("use_name")):
        name = w.textv("want", p.get("minlen", 1), p.get("len", 1), p.get("alphabet", "aA.") if p.get("vary") else "abc")
        args = args + w.choice("nform", [["-n", name], ["--name=" + name]][:p.get("forms", 2)])
    if w.conc_bool(w.bool("use_pid")):
        pid = w.choice("pid", [0, 1, 100, 101, 120, 121, 777][:p.get("pids", 7)])
        args = w.choice("pform", [["-p", str(pid)], ["--pid=%d" % pid]][:p.get("forms", 2)]) + args
    if w.conc_bool(w.bool("use_all")):
        use_all = True
        args = args + ["--all"]
    return args, use_all, pid, name


def stop(w, p):
    tasks = rows(w, p)
    args, use_all, pid, name = selectors(w, p)
    force = w.conc_bool(w.bool("force"))
    if force:
        args = w.choice("fform", [["-f"], ["--force"]][:p.get("forms", 2)]) + args
    w.procs.append(lib.proc(w, w.pid, w.ppid, ["python", "-m", "jqtrade", "stop_task"] + args))
    err = main(w, "stop_task", *args)
    want = []
    if use_all:
        want = [k for k, _ in tasks]
        w.cover("all")
    elif pid is not None:
        want = [k for k, _ in tasks if k == pid]
        w.cover("pid")
    elif name is not None:
        want = [k for k, nm in tasks if w.conc_bool(w.eq(nm, name))]
        w.cover("name")
    else:
        w.check(err is not None, "without a selector it is refused")
        w.check(w.signals_sent == [], "and nothing is signalled", w.signals_sent)
        w.cover("refused")
        return
    w.check(err is None, "the command ends normally", (args, err))
    got = sorted(w.signals_sent)
    w.check(got == sorted((k, "KILL" if force else "TERM") for k in want), "exactly the selected tasks get the signal, once each", (args, got, want))
    if want:
        w.cover("signalled")


def exiting(w, p):
    """a task that ends meanwhile does not keep the others from being stopped"""
    names = [w.text("name%d" % k, 1, "ab") for k in range(p["n"])]
    for k, nm in enumerate(names):
        w.procs.append(lib.proc(w, 100 + k, 1, ["python", "-m", "jqtrade", "start_task", "-c", "a.py", "-n", nm]))
    victim = w.pick("victim", 0, p["n"] - 1)
    w.procs[victim].live = w.pick("live", 0, 6)
    how = w.choice("how", [["--all"], ["-n", "a"], ["--all", "-f"]])
    err = main(w, "stop_task", *how)
    w.check(err is None, "the command ends normally", err)
    for k, nm in enumerate(names):
        if k == victim:
            continue
        want = 1 if how[0] == "--all" or w.conc_bool(w.eq(nm, "a")) else 0
        w.check(len([1 for q, _ in w.signals_sent if q == 100 + k]) == want, "every other selected task is signalled once", (w.signals_sent, how))
    w.cover("exited")


SCENARIOS = [
    dict(name="stop", fn=stop, covers=("all", "pid", "name", "refused", "signalled"),
         bounds="1-3 rows of the process table: tasks, unrelated processes of 16 kinds, tasks under a wrapper (sudo, launcher, same command line, shell), symbolic names; any selectors in any spelling with and without --force",
         quick=[dict(n=1, all=1), dict(n=2, lines=1, pids=4, forms=1), dict(n=2, kinds=1, shift=7, lines=1, pids=3), dict(n=3, kinds=0, lines=1, pids=3, forms=1), dict(n=1, kinds=0, vary=1, len=3, pids=3), dict(n=2, kinds=0, vary=1, len=2, pids=0, alphabet="a ", lines=1, forms=1)],
         thorough=[dict(n=1, all=1, len=2, minlen=0), dict(n=2, shift=3), dict(n=2, all=1, kinds=1, lines=1, pids=3), dict(n=3, lines=1, pids=3)]),
    dict(name="exiting", fn=exiting, covers=("exited",), bounds="2-3 tasks, one of which ends after any number (0-6) of looks at it", quick=[dict(n=2)], thorough=[dict(n=3)]),
]
ASSUMPTIONS = ["signals are recorded by a stand-in process table, none is sent", "the user may signal the tasks"]
