"""Explores the scenarios of one property: every path of the instrumented real code up to the stated bounds, in
parallel; replays counterexamples on the real code; writes the evidence file."""
import argparse
import json
import multiprocessing as mp
import os
import queue
import random
import subprocess
import sys
import time
import traceback
import zlib

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VENV = "/opt/venv/bin/python"


# ------------------------------------------------------------------------------------------- worker
_props = {}


def load_props(prop):
    """the property's scenarios, instrumented like the code under test"""
    from . import instrument as I
    if prop not in _props:
        class NoRecord(I.Modules):
            def _exec(self, m, path, name):
                src = I._read(path)
                exec(I.compile_source(src, path, name, record=False), m.__dict__)
        m = NoRecord(HERE, {}, package="props")
        from . import core
        core.ENG = core.Engine()
        core.ENG.start_path([])
        _props[prop] = m.load("props." + prop.lower())
    return _props[prop]


def scenarios(prop, tier):
    mod = load_props(prop)
    out = []
    for s in mod.SCENARIOS:
        ps = s.get(tier) or s["quick"]
        for k, p in enumerate(ps):
            out.append((s, p))
    return out


def worker(prop, tier, opts, tasks, results, outstanding, idle, stop, seed):
    try:
        sys.setrecursionlimit(20000)
        import gc
        gc.disable()
        from . import core, world_sym
        from .core import Engine, Work, Stats, run_path
        eng = Engine(query_timeout_ms=opts["query_ms"], max_steps=opts["max_steps"])
        scen = scenarios(prop, tier)
        rng = random.Random(seed)
        totals = {}
        samples = {}
        seen = {}
        n = sent = 0
        while not stop.value:
            with idle.get_lock():
                idle.value += 1
            item = None
            while item is None and not stop.value:
                try:
                    item = tasks.get(timeout=0.05)
                except queue.Empty:
                    if outstanding.value == 0:
                        break
            with idle.get_lock():
                idle.value -= 1
            if item is None:
                break
            si, dec, vals = item
            stack = [Work(dec, vals)]
            s, params = scen[si]
            st = totals.setdefault(si, Stats())
            while stack and not stop.value:
                wk = stack.pop()
                eng.stats = st
                holder = {}

                def go(e):
                    w = world_sym.SymWorld(e, params)
                    holder["w"] = w
                    s["fn"](w, params)
                    for c in w.covered:
                        st.covers[c] = st.covers.get(c, 0) + 1
                    return w.observations
                cnt = seen.get(si, 0)
                want = cnt < 4 or (zlib.crc32(repr(wk.decisions).encode()) + seed) % 16 == 0
                res, more = run_path(eng, wk, go, want_assignment=want)
                n += 1
                if n % 200 == 0:
                    gc.collect()
                stack.extend(more)
                if res.status == "ok":
                    seen[si] = cnt + 1
                    if res.assignment is not None:
                        bucket = samples.setdefault(si, [])
                        item2 = (res.assignment, res.obs)
                        if len(bucket) < opts["samples"]:
                            bucket.append(item2)
                        else:
                            j = rng.randrange(seen[si])
                            if j < len(bucket):
                                bucket[j] = item2
                elif res.status in ("violation", "inconclusive"):
                    a = res.assignment
                    if a is None:
                        try:
                            eng.control = None
                            a = eng.assignment()
                        except BaseException:
                            a = None
                    sent += 1
                    results.put((res.status, si, text(res.label), text(res.detail), a))
                if len(stack) > 1 and idle.value > 0 and tasks.empty():
                    give = max(1, len(stack) // 2)
                    with outstanding.get_lock():
                        outstanding.value += give
                    for x in stack[:give]:
                        tasks.put((si, x.decisions, x.vals))
                    del stack[:give]
            with outstanding.get_lock():
                outstanding.value -= 1
        results.put(("done", None, totals, samples, sent))
    except BaseException:
        results.put(("crash", None, traceback.format_exc(), "", None))


def text(x):
    try:
        return x if type(x) is str else "%s: %s" % (type(x).__name__, x) if isinstance(x, BaseException) else str(x)
    except BaseException:
        return "<%s>" % type(x).__name__


# ------------------------------------------------------------------------------------------- replay
def replay_batch(cases, jobs=4):
    if not cases:
        return {}
    groups = [cases[i::jobs] for i in range(jobs)]
    procs = []
    for g in groups:
        if g:
            p = subprocess.Popen([VENV, os.path.join(HERE, "sx", "replay.py"), "--batch"], stdin=subprocess.PIPE,
                                 stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                                 env=dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1"))
            procs.append((p, g))
    import threading
    out = {}
    errs = []

    def talk(p, g):
        o, e = p.communicate("".join(json.dumps(c) + "\n" for c in g))
        for line in o.splitlines():
            r = json.loads(line)
            out[r["id"]] = r
        if p.returncode:
            errs.append(e[-2000:])
    ts = [threading.Thread(target=talk, args=x) for x in procs]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        sys.stderr.write("replay process failed:\n%s\n" % errs[0])
    return out


def plain(x):
    if isinstance(x, dict):
        return {str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if isinstance(x, bool) or x is None or isinstance(x, (int, str)):
        return x
    if isinstance(x, float):
        return round(x, 9)
    return str(x)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("SX_JOBS", "8")))
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("--budget", type=float, default=None)
    o = ap.parse_args(argv)
    prop = o.prop.upper()
    tier = o.tier if o.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    sys.path.insert(0, HERE)
    mod = load_props(prop)
    opts = dict(query_ms=60000, max_steps=600000, samples=6)
    opts.update(getattr(mod, "OPTIONS", {}))
    budget = o.budget or (600 if tier == "quick" else 10 * 3600)
    scen = scenarios(prop, tier)
    tasks, results = mp.Queue(), mp.Queue()
    outstanding, idle, stop = mp.Value("i", 0), mp.Value("i", 0), mp.Value("i", 0)
    for si, (s, p) in enumerate(scen):
        if o.only and o.only != s["name"]:
            continue
        outstanding.value += 1
        tasks.put((si, [], {}))
    todo = outstanding.value
    ws = [mp.Process(target=worker, args=(prop, tier, opts, tasks, results, outstanding, idle, stop, seed), daemon=True)
          for _ in range(o.jobs)]
    [p.start() for p in ws]
    from .core import Stats
    per, samples, viol, inc = {}, {}, [], []
    announced = 0
    done, crashed, first_v, timed_out = 0, None, None, False
    while done < len(ws):
        try:
            kind, si, a, b, c = results.get(timeout=1.0)
        except queue.Empty:
            kind = None
        now = time.time()
        if kind == "done":
            done += 1
            announced += c
            for k, st in a.items():
                per.setdefault(k, Stats()).merge(st)
            for k, v in b.items():
                samples.setdefault(k, []).extend(v)
        elif kind == "crash":
            crashed = a
            done += 1
            stop.value = 1
        elif kind == "violation":
            viol.append((si, a, b, c))
            if first_v is None:
                first_v = now
            if o.v:
                print("cex", scen[si][0]["name"], a, c, b, flush=True)
        elif kind == "inconclusive":
            inc.append((si, a, b, c))
            if o.v:
                print("inconclusive", scen[si][0]["name"], a, c, b, flush=True)
            if len(inc) > 300:
                stop.value = 1
        elif kind is None and not any(p.is_alive() for p in ws) and results.empty():
            crashed = crashed or "worker processes ended (memory?)"
            break
        if first_v is not None and (now - first_v > 10 or len(viol) > 200):
            stop.value = 1
        if now - t0 > budget and not stop.value:
            stop.value = 1
            timed_out = True
    t1 = time.time()
    while not crashed and len(viol) + len(inc) < announced and time.time() - t1 < 20:
        try:
            kind, si, a, b, c = results.get(timeout=1.0)
            (viol if kind == "violation" else inc).append((si, a, b, c))
        except queue.Empty:
            pass
    if len(viol) + len(inc) < announced:
        crashed = crashed or "results of the workers were lost"
    for p in ws:
        p.join(timeout=5)
        if p.is_alive():
            p.terminate()
    explore_s = time.time() - t0

    total = Stats()
    for st in per.values():
        total.merge(st)
    # --- counterexamples: replay on the real code
    rdir = os.path.join(HERE, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    cases, meta = [], {}
    for f in os.listdir(rdir):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(rdir, f))
    per_label = {}
    for kind, lst in (("violation", viol), ("inconclusive", inc)):
        for si, label, detail, asg in lst:
            key = (kind, si, label)
            if asg is None or per_label.get(key, 0) >= 3:
                continue
            per_label[key] = per_label.get(key, 0) + 1
            s, p = scen[si]
            cid = "%s-%d" % (kind[0], len(cases))
            cases.append(dict(id=cid, prop=prop, scenario=s["name"], params=p, assignment=asg, label=label))
            meta[cid] = (kind, si, label, detail)
    vrng = random.Random(seed)
    for si, lst in samples.items():
        s, p = scen[si]
        # the paths validated concretely are spread evenly over the scenarios
        k = max(1, min(len(lst), opts.get("validate", 240) // max(1, len(samples))))
        for n, (asg, obs) in enumerate(vrng.sample(lst, k)):
            cid = "s-%d-%d" % (si, n)
            cases.append(dict(id=cid, prop=prop, scenario=s["name"], params=p, assignment=asg, label=""))
            meta[cid] = ("sample", si, "", obs)
    tr = time.time()
    rep = replay_batch(cases, jobs=min(8, max(1, len(cases) // 4)))
    replay_s = time.time() - tr
    by_id = {c["id"]: c for c in cases}
    confirmed, unconfirmed, mism, validated, shown = [], [], [], 0, []
    for cid, (kind, si, label, extra) in meta.items():
        r = rep.get(cid)
        if r is None:
            mism.append((cid, "no replay result"))
            continue
        if r["status"] == "violation":
            confirmed.append((cid, r))
        elif kind == "violation":
            unconfirmed.append((cid, label, extra, r))
        elif kind == "sample":
            if r["status"] == "pruned":
                mism.append((cid, "real run left the assumed inputs: %s" % r["detail"]))
            elif plain(extra) != r["obs"]:
                mism.append((cid, "observations differ: symbolic %s real %s (%s)" % (plain(extra), r["obs"], by_id[cid])))
            else:
                validated += 1
                if len(shown) < 6 and not any(x["scenario"] == by_id[cid]["scenario"] for x in shown):
                    shown.append(dict(scenario=by_id[cid]["scenario"], params=by_id[cid]["params"],
                                      inputs=by_id[cid]["assignment"], observed=r["obs"]))
    # --- vacuity
    missing = []
    names = {}
    for si, st in per.items():
        names.setdefault(scen[si][0]["name"], []).append(st)
    if not viol and not stop.value and not o.only:
        for s in mod.SCENARIOS:
            sts = names.get(s["name"], [])
            if not sum(x.paths for x in sts):
                missing.append("%s: no feasible path" % s["name"])
            for cv in s.get("covers", ()):
                if not any(cv in x.covers for x in sts):
                    missing.append("%s: cover %s not reached" % (s["name"], cv))
    rc = 0
    lines = []
    seen_v = set()
    for cid, r in confirmed:
        case = by_id[cid]
        key = (case["scenario"], r["label"])
        if key in seen_v:
            continue
        seen_v.add(key)
        path = os.path.join(rdir, "%s-%d.json" % (prop, len(seen_v)))
        case = dict(case, label=r["label"], detail=r["detail"])
        with open(path, "w") as f:
            json.dump(case, f, indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (prop, path))
        print("%s [%s %s]: %s\n  inputs %s\n  %s" % (prop, case["scenario"], json.dumps(case["params"]), r["label"],
                                                    json.dumps(case["assignment"]), r["detail"].strip().replace("\n", "\n  ")[-1500:]))
        rc = 1
    if rc == 0:
        problems = []
        if crashed:
            problems.append("worker failed: %s" % crashed)
        if timed_out:
            problems.append("time budget exhausted before all paths were explored")
        for cid, label, extra, r in unconfirmed[:5]:
            problems.append("counterexample for '%s' does not replay on the real code: %s -> %s\n%s" % (label, by_id[cid], r, extra))
        uniq = {}
        for si, label, detail, asg in inc:
            uniq.setdefault((scen[si][0]["name"], label), (detail, 0))
            d, k = uniq[(scen[si][0]["name"], label)]
            uniq[(scen[si][0]["name"], label)] = (d, k + 1)
        for (nm, label), (d, k) in list(uniq.items())[:5]:
            problems.append("inconclusive (%d paths) in %s: %s\n%s" % (k, nm, label, d))
        for m in mism[:5]:
            problems.append("symbolic/real mismatch %s: %s" % m)
        problems += missing
        if problems:
            rc = 2
            for p in problems:
                print("UNDECIDED property=%s %s" % (prop, p))
    for k in known_findings(prop):
        print(k)
    for l in lines:
        print(l)
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", wall_s=round(wall, 2), violations=len(lines),
              coverage=dict(
                  states=total.paths, transitions=total.decisions + total.forced,
                  traces_validated_against_impl=validated, samples=shown or [dict(note="no path sampled")],
                  exhaustive=bool(rc == 0),
                  rule="states = feasible symbolic paths executed to the end; transitions = symbolic branches decided by the solver; "
                       "each path covers every input value satisfying its path condition",
                  solver_queries=total.queries, solver_s=round(total.solver_s, 2),
                  assertions_discharged_by_solver=total.obligations, assertions_folded=total.trivial,
                  assertion_labels=dict(sorted(total.labels.items())), covers=dict(sorted(total.covers.items())),
                  pruned_paths=total.pruned,
                  functions_encoded=sorted(f for f in total.functions if f.startswith("jqtrade")),
                  bounds={s["name"]: dict(params=s.get(tier) or s["quick"], text=s.get("bounds", "")) for s in mod.SCENARIOS},
                  explore_s=round(explore_s, 2), replay_s=round(replay_s, 2)),
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False, default=str)
    print("%s %s: rc=%d paths=%d pruned=%d branches=%d queries=%d solver=%.1fs obligations=%d (+%d folded) validated=%d/%d wall=%.1fs"
          % (prop, tier, rc, total.paths, total.pruned, total.decisions + total.forced, total.queries, total.solver_s,
             total.obligations, total.trivial, validated, sum(1 for m in meta.values() if m[0] == "sample"), wall))
    if o.v:
        for si, st in sorted(per.items()):
            print("   %-26s %s paths=%d pruned=%d q=%d solver=%.1f" % (scen[si][0]["name"], scen[si][1], st.paths, st.pruned, st.queries, st.solver_s))
    return rc


def known_findings(prop):
    p = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                if line.startswith("KNOWN-FINDING: property=%s " % prop):
                    out.append(line.rstrip("\n"))
    return out
