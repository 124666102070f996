"""C15: waiting for the lock of an order file"""
from . import lib


def wait(w, p):
    """the lock is held by another process until some instant, or at arbitrary attempts; any configured interval and
    time-out; other work takes time as well"""
    w.set_now(10 * 3600 * lib.US)
    every = w.int("interval_ms", 1, p.get("imax", 2000))
    limit = w.int("timeout_ms", 0, p.get("tmax", 5000))
    w.assume(limit <= every * p["tries"])
    opts = dict(wait_lock_internal=every / 1000, wait_lock_time_out=limit / 1000)
    d = lib.Dma(w, **opts)
    kind = p.get("kind", "algoOrder")
    oid = None
    if kind == "algoOrderStop":
        oid = d.api.order("000001.XSHE", 100)
    f = d.file(kind)
    before = None
    if w.conc_bool(w.bool("exists")):
        before = lib.HEADERS[kind] + "\n" + ",".join(["x"] * (lib.HEADERS[kind].count(",") + 1)) + "\n"
        w.write_file(f, before)
    start = w.now_us()
    attempts = []

    if p["by"] == "time":
        free_at = start + w.int("free_after_us", 0, (p.get("tmax", 5000) + 3 * p.get("imax", 2000)) * 1000)

        def busy(path):
            b = w.conc_bool(w.now_us() < free_at)
            attempts.append((w.now_us(), b))
            return b
    else:
        def busy(path):
            b = w.conc_bool(w.bool("busy%d" % len(attempts)))
            attempts.append((w.now_us(), b))
            return b
    w.locks.foreign = busy
    slack = 50000 * (p["tries"] + 2) if p.get("slow") else 10

    def asleep(s):
        w.check(w.now_us() - start <= limit * 1000 + every * 1000 + slack, "waiting is bounded", (w.now_us() - start, limit, every))
        w.check(len(attempts) <= p["tries"] + 2, "as many attempts as fit in the time", (attempts, limit, every))
        if p.get("slow"):
            w.tick(w.int("late%d" % len(w.sleeps), 0, 50000))
    w.sleep_fn = asleep
    unlocked = []

    def watch(ev):
        if ev[0] == "op" and ev[1] in ("data", "truncate") and ev[2] == f and f not in w.locks.held:
            unlocked.append(ev)
    w.on_event = watch
    s0 = len(w.sleeps)
    if kind == "algoOrder":
        o = d.O.Order(code="000001.XSHE", price=1, amount=100, action="open", order_id="77", status="new", style="market", create_time=w.datetime.datetime.now(), side=d.O.OrderSide.long)
        err = w.raises(lambda: d.run.ctx.trade_gate.order(o))
        oid = "77"
    else:
        err = w.raises(lambda: d.run.ctx.trade_gate.cancel_order(oid))
    w.on_event = None
    w.locks.foreign = None
    sleeps = w.sleeps[s0:]
    elapsed = w.now_us() - start
    w.sleep_fn = None
    w.check(unlocked == [], "nothing is written without the lock", unlocked)
    w.check(f not in w.locks.held, "the lock is released", w.locks.log)
    got = w.read_file(f) if w.exists(f) else None
    for s in sleeps:
        w.check(w.eq(s, every / 1000), "retries at the configured interval", (s, every))
    w.check(len(attempts) == len(sleeps) + 1, "one pause between attempts", (attempts, sleeps))
    if err is None:
        w.check(not attempts[-1][1], "written when the lock was obtained", attempts)
        w.check(elapsed <= limit * 1000 + every * 1000 + slack, "waiting is bounded", (elapsed, limit, every))
        rows = d.rows(kind)
        w.check(len(rows) == (2 if before is not None else 1), "the line is written exactly once", rows)
        w.check(w.eq(rows[-1]["custBatchNo"], oid), "the right line", rows)
        w.cover("waited" if len(attempts) > 1 else "at once")
    else:
        w.check(type(err).__name__ == "TimeOut", "gives up with a time-out error", err)
        w.check(attempts[-1][1], "gives up only while the lock is unavailable", attempts)
        w.check(elapsed >= limit * 1000 - 10, "not before the configured time has passed", (elapsed, limit))
        w.check(elapsed <= limit * 1000 + every * 1000 + slack, "waiting is bounded", (elapsed, limit, every))
        w.check((got is None or w.conc_bool(w.eq(got, ""))) if before is None else w.conc_bool(w.eq(got, before)), "nothing has been written", got)
        if p["by"] == "time" and not p.get("slow"):
            w.check(free_at > start + limit * 1000 - 10, "a lock that becomes available in time is used", (free_at, limit))
        w.cover("gave up")


SCENARIOS = [
    dict(name="wait", fn=wait, covers=("waited", "at once", "gave up"),
         bounds="any interval 1 ms..2 s, any time-out 0..5 s with at most `tries` retries, the lock free from any instant or at arbitrary attempts, oversleeping up to 50 ms, order and cancel file, existing or new",
         quick=[dict(tries=4, by="time"), dict(tries=3, by="attempt"), dict(tries=3, by="time", kind="algoOrderStop"), dict(tries=2, by="time", slow=1)],
         thorough=[dict(tries=10, by="time"), dict(tries=8, by="attempt"), dict(tries=8, by="time", kind="algoOrderStop"), dict(tries=4, by="time", slow=1)]),
]
ASSUMPTIONS = ["the lock is exclusive per file and held by a handle until it unlocks or closes it; a non-blocking attempt raises AlreadyLocked when another process holds it",
               "data reaches the file when it is flushed or the file is closed"]
