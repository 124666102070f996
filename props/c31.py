"""C31: a running task is recognised from any accepted command line"""
from . import lib

STRATEGY = """
def process_initialize(context):
    set_options(use_account=False)
"""

LAUNCH = [["python", "-m", "jqtrade"], ["/opt/venv/bin/python3.12", "-u", "-m", "jqtrade"], ["python3", "-W", "ignore", "-X", "dev", "-m", "jqtrade"],
          ["/opt/venv/bin/python", "/opt/venv/bin/jqtrade"], ["python", "-mjqtrade"], ["python", "-Bm", "jqtrade"], ["python3", "-m", "jqtrade.__main__"],
          ["/opt/pypy/bin/pypy3", "-m", "jqtrade"], ["jqtrade"], ["/usr/local/bin/jqtrade"], ["PYTHON.EXE", "-OO", "-m", "jqtrade"], ["python3.12", "-IsP", "-m", "jqtrade"], ["python", "-bbqE", "--check-hash-based-pycs", "never", "-m", "jqtrade"]]


def main(w, *argv):
    """run a command; the exception it ends with, or None"""
    w.argv[:] = ["jqtrade"] + list(argv)
    M = w.mod("jqtrade.__main__")
    try:
        M.main()
    except SystemExit as e:
        return e
    except Exception as e:
        return e
    return None


def strategy_file(w, name="s.py"):
    path = w.path(name)
    w.write_file(path, STRATEGY)
    return path


def spelled(w, tag, opt, long, abbr, value, forms):
    """one option in a spelling of the command line's choosing"""
    form = w.choice(tag + ".form", forms)
    if form == "-o v":
        return ["-" + opt, value]
    if form == "-ov":
        if w.is_str(value) and w.text_len(value):
            w.assume(w.Not(w.eq(value[0], "=")))
        return ["-" + opt + value]
    if form == "-o=v":
        return ["-" + opt + "=" + value]
    if form == "--opt v":
        return ["--" + long, value]
    if form == "--opt=v":
        return ["--" + long + "=" + value]
    if form == "--op v":
        return ["--" + abbr, value]
    return ["--" + abbr + "=" + value]


ALL = ["-o v", "-ov", "-o=v", "--opt v", "--opt=v", "--op v", "--op=v"]
JOINED = ["-ov", "-o=v", "--opt=v", "--op=v"]
PLAIN = ["-o v", "--opt v"]


def perms(xs):
    if not xs:
        return [[]]
    return [[x] + r for x in xs for r in perms([y for y in xs if y != x])]


def listed(w):
    """what get_tasks shows: [(pid, {label: text})]"""
    del w.stdout[:]
    err = main(w, "get_tasks")
    w.check(err is None, "get_tasks answers", err)
    out, cur = [], {}
    for line in "".join(w.stdout).split("\n"):
        for label in ("名称", "pid", "代码路径", "日志路径", "自定义环境变量", "是否debug模式"):
            if w.conc_bool(line.startswith(label + ": ")):
                if label == "名称":
                    cur = {}
                    out.append(cur)
                cur[label] = line[len(label) + 2:]
                break
    return [(int(w.tostr(c["pid"])), c) for c in out]


def value_of(w, name, p):
    kind = w.choice(name + ".kind", p.get("values") or ["text"])
    if kind == "text":
        return w.textv(name, p.get("min", 1), p.get("len", 2), p.get("alpha") or "an-= ")
    return kind


def spelling(w, p):
    """start_task accepts the line; the process is then recognised with exactly its settings"""
    w.makedirs(w.path("d"))
    code = w.path("d") + "/" + w.text("code", p.get("clen", 1), "a-=")
    w.write_file(code, STRATEGY)
    name = value_of(w, "name", p)
    parts = {"name": ("n", "name", "na", name), "code": ("c", "code", "cod", code)}
    out = env = None
    debug = False
    if "out" in p["opts"]:
        out = parts_out = w.path("d") + "/log" + w.text("out", 1, "x-=")
        parts["out"] = ("o", "out", "o", parts_out)
    if "env" in p["opts"]:
        env = "A=" + w.text("env", 1, "b-=")
        parts["env"] = ("e", "env", "en", env)
    order = w.choice("order", perms(["name", "code"] + p["opts"]))
    line = []
    for o in order:
        if o == "debug":
            debug = True
            line = line + [w.choice("debug.form", ["--debug", "--de"])]
        elif o == "config":
            cfg = w.path("d/cfg.py")
            w.write_file(cfg, "")
            line = line + w.choice("config.form", [["--config", cfg], ["--config=" + cfg], ["--con", cfg]])
        elif o == "again":
            line = line + ["-n", "overridden"] if order.index("again") < order.index("name") else line + ["-o", w.path("d/later")]
            if order.index("again") > order.index("name"):
                out = w.path("d/later")
        else:
            opt, long, abbr, value = parts[o]
            forms = p.get("forms_" + o) or (ALL if o in p["free"] else PLAIN[:1])
            if o == "name":
                # an empty value or one that looks like an option can only be given joined or after checking
                n = w.text_len(value) if w.is_str(value) else 0
                dash = n > 0 and w.conc_bool(w.eq(value[0], "-"))
                if n == 0:
                    forms = [f for f in forms if f != "-ov"]
                elif dash:
                    forms = [f for f in forms if f in JOINED]
                if not forms:
                    w.assume(False)
            line = line + spelled(w, o, opt, long, abbr, value, forms)
    err = main(w, "start_task", *line)
    w.check(err is None, "start_task accepts the line", (line, err))
    launch = w.choice("launch", p.get("launch") or LAUNCH[:1])
    w.procs[:] = [lib.proc(w, 100, 1, list(launch) + ["start_task"] + line)]
    seen = listed(w)
    w.check([k for k, _ in seen] == [100], "the running process is recognised", (line, seen))
    got = seen[0][1]
    w.check(w.eq(got["名称"], name), "with its name", (got, name))
    w.check(w.eq(got["代码路径"], code), "its code path", (got, code))
    w.check(w.eq(got["日志路径"], "None" if out is None else out), "its output", (got, out))
    w.check(w.eq(got["自定义环境变量"], "None" if env is None else env), "its environment", (got, env))
    w.check(w.eq(got["是否debug模式"], "True" if debug else "False"), "its debug flag", got)
    other = strategy_file(w)
    err = main(w, "start_task", "-c", other, "--name=" + name)
    w.check(err is not None, "a second task of that name is refused", (line, name))
    diff = w.text("other", 1, "an") if p.get("other", 1) else name + "x"
    w.assume(w.Not(w.eq(diff, name)))
    err = main(w, "start_task", "-c", other, "-n", diff)
    w.check(err is None, "a different name is not refused", (line, diff, err))
    w.cover("recognised")


def unrelated(w, name, k):
    return [
        ["vim", "/home/u/jqtrade/start_task_notes.txt"],
        ["grep", "-rn", "jqtrade start_task", "."],
        ["tail", "-f", "/var/log/jqtrade/start_task.log"],
        ["python", "-m", "jqtrade", "stop_task", "-n", "start_task"],
        ["python", "-m", "jqtrade", "get_tasks"],
        ["python", "/home/u/jqtrade/start_task_report.py", "-c", "a.py", "-n", name],
        ["ssh", "host", "jqtrade", "start_task", "-c", "a.py", "-n", name],
        ["python", "tool.py", "jqtrade", "start_task", "-c", "a.py", "-n", name],
        ["python", "-m", "http.server", "--directory", "/home/jqtrade", "start_task"],
        ["bash", "-c", "sleep 9; python -m jqtrade start_task -c a.py -n " + name],
        ["python", "-c", "import jqtrade", "start_task", "-n", name, "-c", "a.py"],
        ["python", "-m", "jqtrade", "start_task", "--help"],
        ["python", "-m", "jqtrade", "start_task", "-c", "a.py"],
        ["python", "-m", "jqtrade", "start_task", "-n"],
        ["python", "-m", "pytest", "jqtrade/start_task", "-n", name],
        ["python", "/opt/bin/xjqtrade", "start_task", "-c", "a.py", "-n", name],
        ["/opt/bin/my-jqtrade", "start_task", "-c", "a.py", "-n", name],
        ["python", "/home/u/jqtrade/run.py", "start_task", "-c", "a.py", "-n", name],
        ["python", "-m", "jqtrade.scheduler", "start_task", "-c", "a.py", "-n", name],
        ["python", "-m", "xjqtrade", "start_task", "-c", "a.py", "-n", name],
        ["python", "-c", "pass", "jqtrade", "start_task", "-n", name, "-c", "a.py"],
        [],
    ][k]


N_UNRELATED = 22


def name_of(w, key, p):
    return w.textv(key, 1, 3, "aA.") if p.get("vary") else w.text(key, p.get("len", 1), "ab")


def table(w, p):
    """any set of running processes: the new task is refused iff one of the running tasks has its name"""
    names, used = [], []
    for k in range(p["n"]):
        kind = w.pick("kind%d" % k, 0, p.get("kinds", 3))
        nm = name_of(w, "name%d" % k, p)
        pid = 100 + k
        if kind == 0:
            names.append((pid, nm))
            w.procs.append(lib.proc(w, pid, 1, list(LAUNCH[k % 4]) + ["start_task", "-c", "a.py", "--name=" + nm]))
        elif kind == 1:
            u = w.pick("u%d" % k, 0, N_UNRELATED - 1) if p.get("all") else (k * 5 + p.get("shift", 0)) % N_UNRELATED
            w.procs.append(lib.proc(w, pid, 1, unrelated(w, nm, u)))
        elif kind == 2:
            names.append((pid, nm))
            line = ["python", "-m", "jqtrade", "start_task", "-n", nm, "--code=x.py"]
            w.procs.append(lib.proc(w, pid + 20, 1, w.choice("wrap%d" % k, [["sudo", "-E"], ["timeout", "99"], []]) + line))
            w.procs.append(lib.proc(w, pid, pid + 20, line))
        else:
            gone = w.conc_bool(w.bool("gone%d" % k))
            w.procs.append(lib.proc(w, pid, 1, ["python", "-m", "jqtrade", "start_task", "-n", nm, "-c", "a.py"] if gone else ["secret"], name="System", gone=gone, denied=not gone))
    if p.get("own"):
        me = name_of(w, "new", p)
        line = ["python", "-m", "jqtrade", "start_task", "-c", "a.py", "-n", me]
        w.procs.append(lib.proc(w, w.ppid, 1, ["sudo"] + line))
        w.procs.append(lib.proc(w, w.pid, w.ppid, line))
    seen = [(k, c) for k, c in listed(w) if k != w.pid]
    w.check(sorted(k for k, _ in seen) == sorted(k for k, _ in names), "exactly the tasks are listed", (seen, names))
    for k, c in seen:
        w.check(w.eq(c["名称"], dict(names)[k]), "each with its name", (c, names))
    new = name_of(w, "new", p) if not p.get("own") else me
    err = main(w, "start_task", "-c", strategy_file(w), "-n", new)
    same = w.Or(*[w.eq(new, nm) for _, nm in names]) if names else False
    if w.conc_bool(same):
        w.check(err is not None, "a running task's name is refused", (new, names))
        w.cover("refused")
    else:
        w.check(err is None, "another name is never refused", (new, names, err))
        w.cover("accepted")


def protected(w, p):
    """a python process that may not be looked at: a second task of a running name is still not started"""
    rows = [lib.proc(w, 100, 1, ["python", "-m", "jqtrade", "start_task", "-c", "a.py", "-n", "n0"]), lib.proc(w, 101, 1, ["x"], name="python3", denied=True)]
    if w.conc_bool(w.bool("protected first")):
        rows.reverse()
    w.procs.extend(rows)
    err = main(w, "start_task", "-c", strategy_file(w), "-n", "n0")
    w.check(err is not None, "a second task of the name is not started", err)
    w.cover("protected")


def exiting(w, p):
    """a process that ends while the others are looked at changes nothing for them"""
    for k in range(2):
        w.procs.append(lib.proc(w, 100 + k, 1, ["python", "-m", "jqtrade", "start_task", "-c", "a.py", "-n", "n%d" % k]))
    victim = w.pick("victim", 0, 1)
    w.procs[victim].live = w.pick("live", 0, 4)
    how = w.choice("how", ["get", "start"])
    if how == "get":
        seen = [k for k, _ in listed(w)]
        w.check(101 - victim in seen, "the other task is listed", seen)
    else:
        new = w.choice("new", ["n0", "n1", "n2"])
        err = main(w, "start_task", "-c", strategy_file(w), "-n", new)
        if new == "n%d" % (1 - victim):
            w.check(err is not None, "its name is refused", err)
        elif new == "n2":
            w.check(err is None, "another name is not refused", err)
    w.cover("exited")


SCENARIOS = [
    dict(name="spelling", fn=spelling, covers=("recognised",),
         bounds="all orders of --name, --code and one or two more options, every spelling (-n v, -nv, -n=v, --name v, --name=v, abbreviations), values of symbolic characters incl. '-', '=', blanks, option names as values, an option given twice",
         quick=[dict(opts=[], free=["name", "code"], len=1), dict(opts=[], free=["name"], len=3, forms_name=["--opt=v", "-ov", "-o v"]), dict(opts=["out"], free=["out"], len=1, alpha="an"), dict(opts=["env"], free=["env"], len=1, alpha="an"),
                dict(opts=["debug", "config"], free=[], len=1, alpha="an"), dict(opts=["again"], free=["name"], len=1, alpha="an"),
                dict(opts=[], free=["name"], values=["start_task", "--debug", "-c", "jqtrade", "-n", "", "--name=x"]), dict(opts=[], free=[], launch=LAUNCH, len=1, alpha="an")],
         thorough=[dict(opts=[], free=["name", "code"], len=3, clen=2), dict(opts=["out", "env"], free=["out", "env"], len=1, alpha="an"), dict(opts=["debug", "config", "out"], free=["name"], len=1, alpha="an"),
                   dict(opts=["again", "debug"], free=["name", "out"], len=1, alpha="an"), dict(opts=[], free=["name", "code"], values=["start_task", "--debug", "-c", "jqtrade", "-n", "", "--name=x"], launch=LAUNCH)]),
    dict(name="table", fn=table, covers=("refused", "accepted"),
         bounds="0-3 processes: tasks in several launch forms, tasks under a wrapper, unrelated processes of 22 kinds, vanished and protected processes; symbolic names",
         quick=[dict(n=1, all=1), dict(n=2), dict(n=2, shift=7), dict(n=2, shift=11, own=1), dict(n=3, kinds=2, shift=9), dict(n=1, kinds=0, vary=1)],
         thorough=[dict(n=2, all=1), dict(n=3), dict(n=3, shift=6, own=1), dict(n=1, all=1, len=2), dict(n=4, kinds=2)]),
    dict(name="protected", fn=protected, covers=("protected",), bounds="one task and one python process of another user, in either order", quick=[dict()], thorough=[dict()]),
    dict(name="exiting", fn=exiting, covers=("exited",), bounds="two tasks, one of which ends after any number of looks at it", quick=[dict()], thorough=[dict()]),
]
ASSUMPTIONS = ["the process table returned by psutil is a snapshot; command lines are the argument vectors the processes were started with",
               "processes whose command line may not be read and whose name contains 'python' may make start_task refuse any name (the program asks for privileges then)"]
