"""C38: the strategy that runs is the named file"""
from . import lib

BODY = """
import os
import helper_in_dir
marker_of_strategy = 1
os.environ["LOADED"] = os.environ.get("LOADED", "") + "NAME;"
def process_initialize(context):
    set_options(use_account=False)
    import json
    os.environ["JSON"] = str(hasattr(json, "marker_of_strategy"))
    os.environ["RUN"] = os.environ.get("RUN", "") + "NAME," + helper_in_dir.WHERE + ";"
"""


def body(tag):
    return BODY.replace("NAME", tag)


def start(w, path):
    w.argv[:] = ["jqtrade", "start_task", "-n", "t1", "-c", path]
    try:
        return w.raises(lambda: w.mod("jqtrade.__main__").main())
    except SystemExit as e:
        return e


def named(w, p):
    """several files with look-alike names in one or two directories; the one named runs"""
    if p.get("chars"):
        stem = w.text("stem", p["chars"], p.get("alpha") or "ab.-")
        w.assume(w.Not(w.eq(stem, "." * p["chars"])))
        stem = w.conc(stem)
    else:
        stem = w.choice("stem", p["stems"])
    ext = w.choice("ext", p.get("exts") or [".py"])
    d = w.choice("dir", p.get("dirs") or ["proj"])
    mode = w.choice("spelling", p.get("spelling") or ["absolute"])
    file = stem + ext
    base = w.path("cwd") if mode != "absolute" else w.path("else")
    root = w.norm(".") if mode != "absolute" else base
    where = root + "/" + d if d else root
    w.makedirs(where)
    w.environ["NAME"], w.environ["HOME"] = "x", w.path("home")
    other = w.path("other")
    w.makedirs(other)
    target = where + "/" + file
    # look-alikes: the first part of the name, the same name elsewhere on the import path, a package of that name
    decoys = [stem.split(".")[0] + ".py", stem + ".py", stem.replace("-", "_") + ".py", stem.replace("$NAME", "x") + ext, stem.replace("${NAME}", "x") + ext, stem.split(".")[0], stem + ".pyc.py"]
    for k, n in enumerate(decoys):
        if n not in ("", ".py") and n != file and not w.exists(where + "/" + n):
            w.write_file(where + "/" + n, body("decoy%d" % k))
    w.write_file(where + "/helper_in_dir.py", "WHERE = 'right'\n")
    w.write_file(other + "/helper_in_dir.py", "WHERE = 'wrong'\n")
    w.write_file(other + "/" + stem + ".py", body("elsewhere"))
    w.write_file(target, body("target"))
    before = w.choice("on_path", ["none", "other", "own behind other", "own first"])
    if before == "own first":
        w.sys_path.insert(0, where)
    if before == "own behind other":
        w.sys_path.insert(0, where)
    if before in ("other", "own behind other"):
        w.sys_path.insert(0, other)
    path = target if mode == "absolute" else (d + "/" + file if d else file) if mode == "relative" else "./" + (d + "/" + file if d else file)
    err = start(w, path)
    w.check(err is None, "the strategy starts", (path, err))
    w.check(w.eq(w.environ["LOADED"], "target;"), "exactly the named file was loaded, once", (path, w.environ["LOADED"]))
    w.check(w.eq(w.environ["RUN"], "target,right;"), "its process_initialize ran, with its directory importable", w.environ["RUN"])
    w.check(w.eq(w.environ["JSON"], "False"), "library modules stay as they are", w.environ["JSON"])
    w.cover("named")


def missing(w, p):
    stem = w.choice("stem", ["a", "a.b", "json"])
    d = w.path("proj")
    w.makedirs(d)
    near = stem.split(".")[0] + ".py"
    path = d + "/" + stem + w.choice("ext", [".py", ".txt", ""])
    if d + "/" + near != path:
        w.write_file(d + "/" + near, body("near"))
    err = start(w, path)
    w.check(err is not None, "a missing file is refused", path)
    w.check("RUN" not in w.environ, "nothing runs", None)
    w.cover("missing")


SCENARIOS = [
    dict(name="named", fn=named, covers=("named",),
         bounds="file names of 1-3 free characters over 'ab.-', names of library modules, of jqtrade, with blanks, shell and URL characters, digits first, non-ASCII, several extensions; absolute and relative paths; directories with dots; look-alike files beside it and elsewhere on the import path",
         quick=[dict(chars=3), dict(stems=["json", "os", "jqtrade", "1st", "my strategy", "strategy.v2.final", "策略", "class", "a$NAME", "${NAME}b", "~", "%41", "a*b", "[ab]"]), dict(stems=["demo", "demo.v1"], exts=[".py", "", ".txt", ".strategy"]),
                dict(stems=["demo", "demo.v1"], dirs=["", "sub", "a.b/c d"], spelling=["relative", "dot"])],
         thorough=[dict(chars=4, alpha="ab.-_"), dict(stems=["json", "os", "jqtrade", "1st", "my strategy", "strategy.v2.final", "策略", "class", "$NAME", "${NAME}", "~", "%41", "a*", "A", "__main__", "test"], dirs=["proj", "a.b"], exts=[".py", ".txt"]),
                   dict(stems=["demo", "demo.v1", "json"], exts=[".py", "", ".txt", ".strategy"], dirs=["", "sub", "a.b/c d"], spelling=["relative", "dot", "absolute"])]),
    dict(name="missing", fn=missing, covers=("missing",), bounds="missing files next to look-alikes", quick=[{}], thorough=[{}]),
]
ASSUMPTIONS = ["importlib is modelled: sys.modules first, then the files on sys.path in order; a file location is executed as given"]
