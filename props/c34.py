"""C34: simple_retry"""


class Boom(Exception):
    pass


def retry(w, p):
    """every attempt may succeed or fail with its own failure, which the filter may refuse; the operation and the
    filter take time; attempts and pause are configured freely"""
    U = w.mod("jqtrade.common.utils")
    n = w.pick("max", 0, p["max"])
    pause = w.int("pause_ms", 0, 10000)
    calls, args_seen, results = [], [], []
    kinds = [ValueError, OSError, Boom, KeyError]
    outcome, rnd = [], [0]
    value = object() if p.get("value") == "object" else [None, 0, "", False][p.get("value") or 0]

    def fn(*a, **k):
        i = len(calls)
        calls.append(w.now_us())
        args_seen.append((a, k))
        w.tick(w.int("took%d" % (i + 100 * rnd[0]), 0, 10 ** 7))
        kind = w.pick("out%d" % (i + 100 * rnd[0]), 0, 2) if i <= p["max"] else 2
        if kind == 0:
            outcome.append(("ok", value))
            return value
        e = kinds[i % 4]("failure %d" % i)
        outcome.append(("retry" if kind == 1 else "refused", e))
        raise e

    def keep(e):
        # the filter sees exactly the failure
        w.check(e is outcome[-1][1], "the filter judges the last failure", (e, outcome))
        return [True, 1, "x"][p.get("true", 0)] if outcome[-1][0] == "retry" else [False, None, 0][p.get("true", 0)]
    kw = dict(max_attempts=n, attempt_internal=pause / 1000)
    if p.get("filter"):
        kw["on_exception"] = keep
    f = U.simple_retry(**kw)(fn)
    rounds = p.get("rounds", 1)
    for r in range(rounds):
        rnd[0] = r
        del calls[:], args_seen[:], outcome[:]
        s0 = len(w.sleeps)
        val, err = w.attempt(f, 1, "two", k=3)
        sleeps = w.sleeps[s0:]
        # oracle
        want = 0
        while True:
            want += 1
            kind = outcome[want - 1][0] if want <= len(outcome) else None
            w.check(kind is not None, "keeps trying after a failure", outcome)
            if kind == "ok" or (kind == "refused" and p.get("filter")) or want > n:
                break
        w.check(len(calls) == want, "called until the first success, at most the configured extra times", (len(calls), want, outcome))
        last = outcome[-1]
        if last[0] == "ok":
            w.check(err is None and val is last[1], "the first success is returned unchanged", (val, err))
            w.cover("success")
        else:
            w.check(err is last[1], "the last failure is raised unchanged", (err, last))
            w.cover("exhausted" if want == n + 1 else "refused")
        w.check(len(sleeps) == want - 1, "one pause before each further attempt", sleeps)
        for s in sleeps:
            w.check(w.eq(s, pause / 1000), "the configured pause", s)
        for a, k in args_seen:
            w.check(a == (1, "two") and k == {"k": 3}, "the same arguments", (a, k))


def leaving(w, p):
    """a request to leave the program is not a failure to try again"""
    U = w.mod("jqtrade.common.utils")
    at, kind = w.pick("at", 0, p["max"]), w.choice("kind", [SystemExit(3), KeyboardInterrupt()])
    calls = []

    def fn():
        calls.append(1)
        if len(calls) > at:
            raise kind
        raise ValueError("x")
    f = U.simple_retry(max_attempts=p["max"], **(dict(on_exception=lambda e: True) if w.conc_bool(w.bool("filter")) else {}))(fn)
    got = None
    try:
        f()
    except (SystemExit, KeyboardInterrupt) as e:
        got = e
    w.check(got is kind and len(calls) == at + 1, "it leaves at once", (got, calls))
    w.cover("left")


def bad(w, p):
    U = w.mod("jqtrade.common.utils")
    for x in (1, "x", [1]):
        w.check(w.raises(lambda: U.simple_retry(on_exception=x)) is not None, "a filter that cannot be called is refused")
    w.cover("bad filter")


SCENARIOS = [
    dict(name="retry", fn=retry, covers=("success", "exhausted"),
         bounds="0..max extra attempts, each attempt succeeding, failing or failing with a refused failure, any pause 0..10 s, any duration of the operation; two calls of the same wrapped function",
         quick=[dict(max=4), dict(max=3, filter=1, true=0), dict(max=2, filter=1, true=1, value="object"), dict(max=1, filter=1, true=2, value=1, rounds=2), dict(max=2, value=2, rounds=2)],
         thorough=[dict(max=8), dict(max=6, filter=1, true=0), dict(max=5, filter=1, true=1, value="object"), dict(max=2, filter=1, true=2, value=1, rounds=3), dict(max=4, value=2, rounds=2)]),
    dict(name="leaving", fn=leaving, covers=("left",), bounds="SystemExit or KeyboardInterrupt at any of the first attempts", quick=[dict(max=3)], thorough=[dict(max=6)]),
    dict(name="bad", fn=bad, covers=("bad filter",), bounds="three non-callables", quick=[{}], thorough=[{}]),
]
ASSUMPTIONS = ["time.sleep waits exactly as long as it is asked to"]
