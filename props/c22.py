"""C22: get_orders filters"""
from . import lib

STATUS = ["new", "open", "filling", "filled", "canceling", "partly_canceled", "canceled", "rejected"]


def book(w, p):
    """an account whose book holds n orders with any ids, codes and statuses"""
    a = lib.Acc(w)
    n = p["n"]
    rows = []
    for k in range(n):
        oid = w.digits("id%d" % k, p.get("idlen", 1)) if not p.get("num") else w.int("id%d" % k, 1, 99)
        for r in rows:
            w.assume(w.Not(w.eq(r["oid"], w.tostr(oid))))
        code = w.digits("c%d" % k, p.get("codelen", 1)) + w.choice("x%d" % k, p.get("ex") or [".XSHE", ".XSHG"])
        st = w.choice("s%d" % k, p.get("status") or STATUS)
        rows.append(dict(oid=w.tostr(oid), raw=oid, code=code, status=st))
    a.gate.on_orders = lambda: [dict(order_id=r["raw"], code=r["code"], price=1, amount=100, action="open", status=r["status"], style="limit",
                                     side="long", create_time="2024-01-10 09:30:00") for r in rows]
    a.api.sync_orders()
    return a, rows


def judge(w, got, rows, match):
    want = [r for r in rows if w.conc_bool(match(r))]
    items = list(got.items())
    w.check(len(items) == len(want), "exactly the matching orders", (len(items), len(want)))
    for r in want:
        hit = [o for k, o in items if w.conc_bool(w.eq(w.tostr(k), r["oid"]))]
        w.check(len(hit) == 1, "each matching order under its id", r["oid"])
        w.check(w.And(w.eq(hit[0].code, r["code"]), w.eq(w.tostr(hit[0].order_id), r["oid"])), "with its data")
        w.check(hit[0].status == r["status"], "with its status")
    w.cover("empty" if not want else "all" if len(want) == len(rows) else "some")


def query(w, p):
    a, rows = book(w, p)
    k = {}
    conds = []
    if p["by_id"] and w.conc_bool(w.bool("by_id")):
        q = w.digits("qid", p.get("idlen", 1)) if w.conc_bool(w.bool("qtext")) else w.int("qidn", 1, 9 if p.get("idlen", 1) == 1 else 99)
        k["order_id"] = q
        conds.append(lambda r: w.eq(r["oid"], w.tostr(q)))
    if p["by_code"] and w.conc_bool(w.bool("by_code")):
        c = w.digits("qc", p.get("codelen", 1)) + w.choice("qx", p.get("ex") or [".XSHE", ".XSHG"])
        k["code"] = c
        conds.append(lambda r: w.eq(r["code"], c))
    if p["by_status"] and w.conc_bool(w.bool("by_status")):
        s = w.choice("qs", p.get("qstatus") or STATUS)
        k["status"] = a.O.OrderStatus[s] if w.conc_bool(w.bool("enum")) else s
        conds.append(lambda r: r["status"] == s)
    got, err = w.attempt(a.api.get_orders, **k)
    w.check(err is None, "valid filters are accepted", err)
    judge(w, got, rows, lambda r: w.And(*[c(r) for c in conds]) if conds else True)


def invalid(w, p):
    """invalid codes and statuses raise"""
    a, rows = book(w, dict(n=1, status=["open"]))
    if p["what"] == "status":
        s = w.textv("s", 1, p["len"], "acdefilnoprtw_gOPENjy ")
        w.assume(w.And(*[w.Not(w.eq(s, x)) for x in STATUS]))
        e = w.raises(a.api.get_orders, status=s)
        w.check(e is not None, "an invalid status raises", s)
    else:
        s = w.textv("s", 1, p["len"], "012.XSHEG")
        n = w.text_len(s)
        if n > 5:
            w.assume(w.Not(w.And(w.Or(s[n - 5:] == ".XSHE", s[n - 5:] == ".XSHG"), *[w.And(w.ord(s[k]) >= 48, w.ord(s[k]) <= 57) for k in range(n - 5)])))
        e = w.raises(a.api.get_orders, code=s)
        w.check(e is not None, "an invalid code raises", s)
    w.cover("raised")


def submitted(w, p):
    """orders submitted in this run are found like those learned from the broker, and each list is a fresh one"""
    a = lib.Acc(w)
    n = p["n"]
    rows = []
    for k in range(n):
        code = w.digits("c%d" % k, 1) + ".XSHE"
        fail = w.conc_bool(w.bool("fail%d" % k))

        def on_order(o):
            if fail:
                raise ValueError("no")
        a.gate.on_order = on_order
        amount = w.int("a%d" % k, 1, 9999)
        oid = a.api.order(code, amount)
        if not fail:
            rows.append(dict(oid=oid, code=code, status="new"))
    q = w.digits("q", 1) + ".XSHE"
    got = {k: v for k, v in a.api.get_orders(code=q, status="new").items()}
    judge(w, got, rows, lambda r: w.eq(r["code"], q))
    a.api.get_orders().clear()
    judge(w, a.api.get_orders(status="new"), rows, lambda r: True)


SCENARIOS = [
    dict(name="query", fn=query, covers=("empty", "some", "all"), bounds="n orders with any ids (text or number), codes and statuses; any combination of id (text or number), code and status (text or enumeration) filters",
         quick=[dict(n=2, by_id=1, by_code=0, by_status=0, status=["open"]), dict(n=2, by_id=0, by_code=1, by_status=0, status=["open", "filled"]),
                dict(n=1, by_id=0, by_code=0, by_status=1), dict(n=2, by_id=1, by_code=1, by_status=1, ex=[".XSHE"], status=["open", "partly_canceled"], qstatus=["open", "filled"]),
                dict(n=2, num=1, by_id=1, by_code=0, by_status=0, status=["open"], ex=[".XSHE"], idlen=2)],
         thorough=[dict(n=3, by_id=1, by_code=1, by_status=1, ex=[".XSHE"], status=["open", "partly_canceled"], qstatus=["open", "filled"]),
                   dict(n=2, by_id=0, by_code=0, by_status=1), dict(n=4, by_id=1, by_code=0, by_status=0, idlen=2, ex=[".XSHE"], status=["open"])]),
    dict(name="invalid", fn=invalid, covers=("raised",), bounds="any status text or code text up to len that is not a valid one", quick=[dict(what="status", len=6), dict(what="code", len=7)], thorough=[dict(what="status", len=15), dict(what="code", len=10)]),
    dict(name="submitted", fn=submitted, bounds="n orders submitted, any subset refused by the trading interface", quick=[dict(n=2)], thorough=[dict(n=3)]),
]
ASSUMPTIONS = ["an empty or zero filter counts as not given"]
