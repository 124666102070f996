"""C23: batches"""
from . import lib

BAD = ["missing code", "missing amount", "bad code", "zero amount", "float amount", "bad style", "bad side", "refused", "none code", "not a dict"]


def submit(w, p):
    a = lib.Acc(w)
    n = p["n"]
    entries, exp, sides = [], [], []
    for k in range(n):
        kind = w.choice("kind%d" % k, p.get("kinds") or (["good"] + BAD))
        code = w.digits("c%d" % k, 1) + ".XSHG"
        amount = w.int("a%d" % k, -1000, 1000)
        w.assume(amount != 0)
        price = w.price("p%d" % k, 0, 100)
        e = dict(code=code, amount=amount)
        side = "long"
        full = w.conc_bool(w.bool("full%d" % k)) if p.get("full") else True
        if full:
            e["style"] = a.api.LimitOrderStyle(price)
            e["side"] = side = w.choice("side%d" % k, ["long", "short"]) if p.get("sides") else "long"
        if kind == "missing code":
            del e["code"]
        elif kind == "none code":
            e["code"] = None
        elif kind == "missing amount":
            del e["amount"]
        elif kind == "bad code":
            e["code"] = "000001"
        elif kind == "zero amount":
            e["amount"] = 0
        elif kind == "float amount":
            e["amount"] = 1.5
        elif kind == "bad style":
            e["style"] = "limit"
        elif kind == "bad side":
            e["side"] = "both"
        elif kind == "not a dict":
            e = None
        entries.append(e)
        exp.append((kind, code, amount, price if full else None))
        sides.append(side)
    submitted = []
    turn = [0]
    asked = [k for k in range(n) if exp[k][0] in ("good", "refused")]

    def on_order(o):
        k = asked[turn[0]]
        turn[0] += 1
        if exp[k][0] == "refused":
            raise IOError("no")
        submitted.append((k, o))
    a.gate.on_order = on_order
    res, err = w.attempt(a.api.batch_submit_orders, entries)
    w.check(err is None, "a bad entry never prevents the batch", err)
    w.check(len(res) == n, "one result per entry", res)
    good = [k for k in range(n) if exp[k][0] == "good"]
    w.check([k for k, o in submitted] == good, "every good entry is submitted, in order", submitted)
    w.check(a.gate.count("order") == len(asked), "each well-formed entry is submitted once, malformed ones never", a.gate.log)
    book = a.api.get_orders()
    for k in range(n):
        kind, code, amount, price = exp[k]
        if kind != "good":
            w.check(res[k] is None, "None for a bad entry", (k, kind, res))
            w.cover(kind)
            continue
        w.cover("good")
        o = dict(submitted)[k]
        w.check(res[k] is not None and w.conc_bool(w.eq(res[k], o.order_id)), "the id in its position", (k, res))
        w.check(w.eq(o.code, code), "unaltered code")
        w.check(o.amount == w.ite(amount < 0, -amount, amount), "unaltered amount")
        w.check(w.Implies(amount < 0, o.action is a.O.OrderAction.close) if o.action is not a.O.OrderAction.close else amount < 0, "unaltered action")
        w.check(o.side.value == sides[k], "unaltered side", (o.side, sides[k]))
        if price is None:
            w.check(isinstance(o.style, a.O.MarketOrderStyle), "default style")
        else:
            w.check(isinstance(o.style, a.O.LimitOrderStyle) and w.conc_bool(w.eq(o.style.price, price)), "unaltered price")
        w.check(res[k] in book and w.conc_bool(w.eq(book[res[k]].code, code)), "in the order book")
    ids = [r for r in res if r is not None]
    w.check(len(set(ids)) == len(ids), "ids are different", ids)


def cancel(w, p):
    """a batch of cancels: known, unknown, repeated ids, with failures in between"""
    a = lib.Acc(w)
    known = [a.api.order("000001.XSHE", 100), a.api.order("000001.XSHE", 200)]
    lst, want = [], []
    for k in range(p["n"]):
        i = w.choice("i%d" % k, ["first", "second", "unknown", "number"] + p.get("more", []))
        if i in ("None", "empty", "text"):
            # what a batch submission returns for an entry that failed, and other junk
            lst.append({"None": None, "empty": "", "text": "x"}[i])
            continue
        lst.append({"first": known[0], "second": known[1], "unknown": "nope%d" % k, "number": int(known[0])}[i])
        if i != "unknown":
            want.append(known[1] if i == "second" else known[0])
    bad = w.pick("fail", 0, p["n"])
    cnt = [0]

    def on_cancel(oid):
        cnt[0] += 1
        if cnt[0] == bad:
            raise ValueError("no")
    a.gate.on_cancel = on_cancel
    err = w.raises(a.api.batch_cancel_orders, lst)
    w.check(err is None, "cancelling never raises", err)
    w.check([x for k, x in a.gate.log if k == "cancel"] == want, "every listed known order is requested", (lst, a.gate.log))
    w.cover("done")


SCENARIOS = [
    dict(name="submit", fn=submit, covers=tuple(["good"] + BAD), bounds="n entries, each good or bad in one of ten ways, any code digit, amount up to 1000, price",
         quick=[dict(n=2), dict(n=2, full=1, kinds=["good", "refused", "bad code"]), dict(n=3, full=1, sides=1, kinds=["good", "bad code"]), dict(n=3, kinds=["good", "refused", "bad code", "missing amount"])],
         thorough=[dict(n=3), dict(n=3, full=1, kinds=["good", "refused", "bad code"]), dict(n=5, kinds=["good", "refused", "bad code"])]),
    dict(name="cancel", fn=cancel, covers=("done",), bounds="n ids each known (text or number) or unknown; the trading interface failing at any of them", quick=[dict(n=3), dict(n=2, more=["None", "empty", "text"])], thorough=[dict(n=5), dict(n=3, more=["None", "empty", "text"])]),
]
