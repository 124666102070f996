"""Runs scenarios against the real code with concrete inputs.

    replay.py FILE            replay one recorded counterexample; exit 1 if the violation shows, 0 otherwise
    replay.py --batch         one JSON case per stdin line -> one JSON result per stdout line
"""
import json
import os
import signal
import sys
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != os.path.join(HERE, "sx")]
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import _strptime  # noqa  (must see the real datetime module)
import argparse, getopt, gettext, locale, logging, pandas, shutil, tempfile  # noqa

from sx import world_real as R   # noqa

LIMIT = int(os.environ.get("SX_REPLAY_LIMIT", "60"))


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


def plain(x):
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, bool) or x is None or isinstance(x, (int, str)):
        return x
    if isinstance(x, float):
        return round(x, 9)
    if hasattr(x, "item"):
        return plain(x.item())
    return str(x)


def run(case):
    import importlib
    mod = importlib.import_module("props." + case["prop"].lower())
    fn = {s["name"]: s for s in mod.SCENARIOS}[case["scenario"]]["fn"]
    w = R.RealWorld(case["assignment"], case["params"])
    res = {"id": case.get("id"), "status": "ok", "label": "", "detail": ""}
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(LIMIT)
    try:
        fn(w, w.params)
        res["obs"] = plain(w.observations)
        res["covers"] = sorted(w.covered)
    except R.CheckFailed as e:
        res.update(status="violation", label=e.label, detail=str(e.detail))
    except R.Pruned as e:
        res.update(status="pruned", detail=str(e))
    except Timeout:
        res.update(status="violation", label="does not terminate", detail="still running after %d s" % LIMIT)
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        res.update(status="violation", label="uncaught %s" % type(e).__name__, detail="".join(traceback.format_exception(e)[-8:]))
    finally:
        signal.alarm(0)
        w.close()
    return res


def main():
    if sys.argv[1:] == ["--batch"]:
        out = os.fdopen(os.dup(1), "w")
        for line in sys.stdin:
            if line.strip():
                out.write(json.dumps(run(json.loads(line))) + "\n")
                out.flush()
        return 0
    with open(sys.argv[1]) as f:
        case = json.load(f)
    r = run(case)
    print("property %s scenario %s" % (case["prop"], case["scenario"]))
    print("params", json.dumps(case["params"]))
    print("inputs", json.dumps(case["assignment"]))
    print("expected: %s" % case.get("label"))
    print("result: %s: %s\n%s" % (r["status"], r["label"], r["detail"]))
    return 1 if r["status"] == "violation" else 0


if __name__ == "__main__":
    sys.exit(main())
