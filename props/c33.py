"""C33: environment settings of -e"""
from . import lib

STRATEGY = """
import os
def process_initialize(context):
    set_options(use_account=False)
"""


def blank(w, name, p):
    return w.choice(name, p.get("blanks") or ["", " ", "  "])


def inner(w, v):
    """no leading or trailing blank (blanks around values are ignored)"""
    n = w.text_len(v)
    if n:
        w.assume(w.And(w.ord(v[0]) != 32, w.ord(v[n - 1]) != 32))


def pairs(w, p):
    """(text, [(key, value)])"""
    segs, want = [], []
    for k in range(p["n"]):
        key = w.choice("key%d" % k, list(p["preset"]) + ["KEEP"]) if p.get("preset") else w.text("key%d" % k, p.get("klen", 2), p.get("kalpha") or "Ab_1")
        val = w.textv("val%d" % k, 0, p.get("vlen", 3), p.get("valpha") or "a=/ ")
        inner(w, val)
        for other, _ in want:
            w.assume(w.Not(w.eq(other, key)) if not p.get("preset") else other != key)
        want.append((key, val))
        segs.append(blank(w, "b1.%d" % k, p) + key + blank(w, "b2.%d" % k, p) + "=" + blank(w, "b3.%d" % k, p) + val + blank(w, "b4.%d" % k, p))
    return ";".join(segs), want


def start(w, env, how="runner"):
    path = w.path("strategy.py")
    w.write_file(path, STRATEGY)
    if how == "main":
        w.argv[:] = ["jqtrade", "start_task", "-c", path, "-n", "t1", "-e", env]
        return w.raises(lambda: w.mod("jqtrade.__main__").main())
    R = w.mod("jqtrade.scheduler.runner")
    return w.raises(lambda: R.TaskRunner(path, None, "t1", env, False, None).run())


def exact(w, p):
    env, want = pairs(w, p)
    w.environ["KEEP"] = "1"
    for n in p.get("preset") or ():
        # variables the process already has
        w.environ[n] = "/old:" + n
    before = [(k, w.environ[k]) for k in list(w.environ.keys())]
    err = start(w, env, p.get("how", "runner"))
    w.check(err is None, "the task starts", err)
    for k, v in want:
        w.check(k in w.environ, "the variable is set", k)
        w.check(w.eq(w.environ[k], v), "with exactly the given value", (w.environ[k], v))
    for k, v in before:
        if not w.conc_bool(w.Or(*[w.eq(k, x) for x, _ in want])):
            w.check(w.eq(w.environ[k], v), "other variables keep their values", k)
    w.check(len(list(w.environ.keys())) <= len(before) + len(want), "no further variable appears", list(w.environ.keys()))
    w.cover("set")


def pythonpath(w, p):
    entries = []
    for k in range(p["n"]):
        e = w.choice("known%d" % k, ["/lib/a", "/lib/b"]) if p.get("known") == k else "/" + w.text("dir%d" % k, p.get("len", 2), p.get("alpha") or "ab/.")
        for o in entries:
            w.assume(w.Not(w.eq(o, e)))
        entries.append(e)
    if "known" in p:
        # one of the entries is on the import path already, behind others
        w.sys_path[:] = list(w.sys_path) + ["/lib/a", "/lib/b"]
    old = list(w.sys_path)
    for o in [o for o in old if o not in ("/lib/a", "/lib/b")]:
        for e in entries:
            w.assume(w.Not(w.eq(o, e)))
    text = "A=1;PYTHONPATH=" + ":".join(entries) + ";B=x" if p.get("middle") else "PYTHONPATH = " + ":".join(entries)
    w.environ["PYTHONPATH"] = "/old"
    err = start(w, text, p.get("how", "runner"))
    w.check(err is None, "the task starts", err)
    w.check(w.eq(w.environ["PYTHONPATH"], ":".join(entries)), "PYTHONPATH itself is set", w.environ["PYTHONPATH"])
    path = list(w.sys_path)

    def index(x):
        for i, y in enumerate(path):
            if w.conc_bool(w.eq(x, y)):
                return i
        return None
    at = [index(e) for e in entries]
    w.check(None not in at, "each entry is on the import path", (entries, path))
    w.check(at == sorted(at), "in the given order", (entries, path))
    old = [o for o in old if o not in ("/lib/a", "/lib/b")]
    olds = [index(o) for o in old]
    w.check(None not in olds, "earlier entries stay", (old, path))
    w.check(max(at) < min(olds), "before every entry that was there", (entries, path))
    w.cover("path")


def nothing(w, p):
    """without -e nothing is set"""
    before = sorted(w.environ.keys())
    err = start(w, p["env"])
    w.check(err is None, "the task starts", err)
    w.check(sorted(w.environ.keys()) == before, "nothing is set", sorted(w.environ.keys()))
    w.cover("none")


SCENARIOS = [
    dict(name="exact", fn=exact, covers=("set",),
         bounds="1-3 pairs, keys and values symbolic text over small alphabets containing '=', '/', blanks, any blanks (0-2) around keys and values",
         quick=[dict(n=1, klen=3, vlen=4, valpha="aZ=/ :.~"), dict(n=2, klen=2, vlen=2, blanks=["", " "]), dict(n=3, klen=1, vlen=1, blanks=[""], kalpha="AB_"), dict(n=1, klen=2, vlen=2, valpha="a=-'\" ", how="main", blanks=[""]),
                dict(n=2, vlen=1, blanks=[""], preset=["PATH", "LANG", "TZ", "USER", "LD_LIBRARY_PATH"]), dict(n=1, vlen=2, blanks=[""], preset=["PATH", "LANG", "PYTHONHOME", "LOGNAME", "TMPDIR"], how="main")],
         thorough=[dict(n=1, klen=6, vlen=8, valpha="aZ=/ :.\t$\\"), dict(n=2, klen=2, vlen=4), dict(n=3, klen=2, vlen=2, blanks=["", " "]), dict(n=4, klen=1, vlen=1, blanks=[""], kalpha="ABCD"), dict(n=2, klen=2, vlen=3, valpha="a=-'\" ", how="main", blanks=["", " "])]),
    dict(name="pythonpath", fn=pythonpath, covers=("path",), bounds="1-3 distinct entries of symbolic characters",
         quick=[dict(n=1), dict(n=2, known=1), dict(n=2, known=0, len=1), dict(n=2), dict(n=3, len=1, middle=1)], thorough=[dict(n=1, len=5), dict(n=2, len=3), dict(n=4, len=2, middle=1, alpha="ab")]),
    dict(name="nothing", fn=nothing, covers=("none",), bounds="no -e, empty -e", quick=[dict(env=None), dict(env="")], thorough=[dict(env=None)]),
]
ASSUMPTIONS = ["os.environ accepts any text without NUL", "keys of one -e value are distinct and not empty; ';' and ':' act only as separators"]
