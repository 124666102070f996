"""C25: cancelling"""
from . import lib

ROW = dict(code="000001.XSHE", price=1, amount=100, action="open", style="limit", side="long", create_time="2024-01-10 09:30:00")


def snapshot(w, a):
    return [(k, o.status, o.code, o.amount, o.filled_amount, o.canceled_amount) for k, o in a.api.get_orders().items()]


def cancel(w, p):
    """a book of submitted and reported orders; n cancel requests with any id as text or number"""
    a = lib.Acc(w)
    known = []
    if p.get("own"):
        w.uuid_fn = lambda: 2 ** 40 + 5
        known.append(a.api.order("600000.XSHG", 100))
    rows = []
    for k in range(p["remote"]):
        oid = w.digits("id%d" % k, p["idlen"]) if not p.get("num") else w.int("id%d" % k, 0, 10 ** p["idlen"] - 1)
        for x in known:
            w.assume(w.Not(w.eq(x, w.tostr(oid))))
        known.append(w.tostr(oid))
        rows.append(dict(ROW, confirm_id=w.choice("cid%d" % k, [None, "77", 8]) if p.get("confirm") else None, order_id=oid, status=w.choice("st%d" % k, p.get("status") or ["open", "filled"])))
    a.gate.on_orders = lambda: [dict(r) for r in rows]
    a.api.sync_orders()
    w.check(len(a.api.get_orders()) == len(known), "all orders are known")
    for k in range(p["n"]):
        q = w.digits("q%d" % k, p["idlen"]) if w.conc_bool(w.bool("text%d" % k)) else w.int("qn%d" % k, 0, 10 ** p["idlen"] - 1)
        fail = w.conc_bool(w.bool("fail%d" % k))

        def on_cancel(i):
            if fail:
                raise RuntimeError("no")
        a.gate.on_cancel = on_cancel
        before = snapshot(w, a)
        n0 = a.gate.count("cancel")
        r, err = w.attempt(a.api.cancel_order, q)
        w.check(err is None, "cancelling never raises", err)
        hit = any([w.conc_bool(w.eq(w.tostr(q), x)) for x in known])
        if hit:
            w.check(a.gate.count("cancel") == n0 + 1, "a known order's cancel is passed on exactly once", a.gate.log)
            w.check(w.eq(a.gate.log[-1][1], w.tostr(q)), "with that id", (a.gate.log[-1][1], q))
            w.cover("failed" if fail else "passed")
        else:
            w.check(a.gate.count("cancel") == n0, "an unknown id reaches nobody", (q, a.gate.log))
            w.cover("unknown")
        w.check(snapshot(w, a) == before, "the order book is unchanged")


def junk(w, p):
    """ids that are neither text nor number, or of any text"""
    a = lib.Acc(w)
    oid = a.api.order("600000.XSHG", 100)
    q = w.textv("q", 0, p["len"], "0123456789 ,.-ab")
    w.assume(w.Not(w.eq(q, oid)))
    err = w.raises(a.api.cancel_order, w.choice("kind", [q, None, 1.5, (), oid + " "]))
    w.check(err is None, "cancelling never raises", err)
    w.check(a.gate.count("cancel") == 0, "an unknown id reaches nobody")
    w.cover("junk")


SCENARIOS = [
    dict(name="cancel", fn=cancel, covers=("passed", "failed", "unknown"), bounds="orders of this run and `remote` reported orders with any ids of idlen digits (text or number); n cancel requests with any id as text or number, each possibly failing",
         quick=[dict(remote=1, n=1, idlen=1, confirm=1, status=["open"]), dict(remote=2, n=1, idlen=2, own=1), dict(remote=1, n=2, idlen=1, status=["canceling", "partly_canceled", "open"]), dict(remote=1, n=1, idlen=1, status=["new", "filling", "canceled", "rejected"]), dict(remote=1, n=1, idlen=2, num=1)],
         thorough=[dict(remote=3, n=1, idlen=3, own=1), dict(remote=2, n=2, idlen=2, status=["open"]), dict(remote=2, n=1, idlen=2, num=1)]),
    dict(name="junk", fn=junk, covers=("junk",), bounds="any text up to len, None, float, tuple", quick=[dict(len=3)]),
]
