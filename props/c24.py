"""C24: closing orders reserve the closeable amount"""
from . import lib

A, B, C = "000001.XSHE", "600000.XSHG", "300001.XSHE"


def reserve(w, p):
    """n orders against long and short holdings of two codes; a third code is not held"""
    a = lib.Acc(w)
    pos = {}

    def rep(tag):
        out = []
        for code, side in p["held"]:
            amount = w.int("%s.amount.%s.%s" % (tag, code, side), 0, p["max"])
            avail = w.int("%s.free.%s.%s" % (tag, code, side), 0, p["max"])
            w.assume(avail <= amount)
            pos[(code, side)] = [amount, avail]
            out.append(dict(code=code, amount=amount, available_amount=avail, avg_cost=1, side=side, last_price=1, position_value=1))
        return out
    r1 = rep("a")
    a.gate.on_balance = lambda: dict(cash=dict(total_asset=1, available_cash=1, locked_cash=0), positions=[dict(x) for x in r1])
    a.api.sync_balance()

    def judge(label):
        for side in ("long", "short"):
            d = a.portfolio.long_positions if side == "long" else a.portfolio.short_positions
            want = [c for c, s in p["held"] if s == side]
            w.check(sorted([c for c in d.keys()]) == sorted(want), "no position appears or vanishes", (label, side, list(d.keys())))
            for code in want:
                amount, avail = pos[(code, side)]
                w.check(d[code].total_amount == amount, "the total amount is untouched", (label, code, side))
                w.check(d[code].closeable_amount == avail, "closeable amount", (label, code, side, d[code].closeable_amount, avail))
    judge("start")
    for k in range(p["n"]):
        what = w.choice("what%d" % k, p.get("what") or ["order", "refused", "bad"])
        code = w.choice("code%d" % k, p.get("codes") or [A, B, C])
        side = w.choice("side%d" % k, p.get("sides") or ["long", "short"])
        amount = w.int("amount%d" % k, -p["max"], p["max"])
        w.assume(amount != 0)
        limit = p.get("limit", 0)

        def on_order(o):
            if what == "refused":
                raise ValueError("no")
        a.gate.on_order = on_order
        style = a.api.LimitOrderStyle(w.price("price%d" % k, 0, 100)) if limit else None
        if w.conc_bool(w.bool("batch%d" % k)) if p.get("batch") else False:
            a.api.batch_submit_orders([dict(code=code, amount=amount if what != "bad" else 0, style=style, side=side)])
        else:
            w.attempt(a.api.order, code, amount if what != "bad" else 0, style, side)
        if what == "order" and (code, side) in pos:
            cur = pos[(code, side)][1]
            left = cur + amount
            pos[(code, side)][1] = w.ite(amount < 0, w.ite(left > 0, left, 0), cur)
            w.cover("reserved")
        judge(k)
    if p.get("orders"):
        # whatever is learned about the orders, the closeable amounts stay until balances are synchronised
        book = a.api.get_orders()
        rep_ = []
        for n, (i, u) in enumerate(book.items()):
            rep_.append(dict(order_id=i, code=u.code, price=u.order_price, amount=u.amount, action=u.action, style="market", side=u.side, create_time=u.create_time,
                             status=w.choice("st%d" % n, ["new", "open", "filling", "filled", "canceled", "rejected"]), filled_amount=w.int("filled%d" % n, 0, p["max"]), confirm_id="9"))
        if w.conc_bool(w.bool("foreign")):
            rep_.append(dict(order_id="77", code=A, price=1, amount=10, action="close", style="limit", side="long", create_time=w.datetime.datetime(2024, 1, 10), status="new"))
        a.gate.on_orders = lambda: [dict(x) for x in rep_]
        a.api.sync_orders()
        judge("orders")
        for i in list(book):
            a.api.cancel_order(i)
        judge("cancelled")
        w.cover("orders")
    if p.get("resync"):
        r2 = rep("b")
        a.gate.on_balance = lambda: dict(cash=dict(total_asset=1, available_cash=1, locked_cash=0), positions=[dict(x) for x in r2])
        a.api.sync_balance()
        judge("resync")
        w.cover("resync")


H = [(A, "long"), (B, "long"), (A, "short")]
SCENARIOS = [
    dict(name="reserve", fn=reserve, covers=("reserved", "resync", "orders"), bounds="holdings of two codes, long and short, any amounts up to max; n orders of any amount, side and code (held or not), accepted, refused by the interface or malformed; followed by reports on the orders in any state, cancellations and another balance synchronisation",
         quick=[dict(n=1, max=10 ** 6, held=H, resync=1, limit=1), dict(n=2, max=1000, held=[(A, "long"), (A, "short")], codes=[A], what=["order", "refused"]), dict(n=2, max=100, held=[(A, "long")], codes=[A], sides=["long"], batch=1), dict(n=1, max=100, held=[(A, "long"), (A, "short")], codes=[A], what=["order", "refused"], orders=1),
               dict(n=2, max=100, held=[(A, "short"), (B, "long")], codes=[A, B], what=["order"])],
         thorough=[dict(n=2, max=10 ** 6, held=H, resync=1), dict(n=4, max=1000, held=[(A, "long")], codes=[A], sides=["long"], what=["order", "refused"]), dict(n=3, max=100, held=[(A, "long"), (A, "short")], codes=[A], what=["order"], batch=1)]),
]
