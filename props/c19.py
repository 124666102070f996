"""C19: order synchronisation"""
from . import lib

STATUS = ["new", "open", "filling", "filled", "canceling", "partly_canceled", "canceled", "rejected"]
ATTRS = ("order_id", "code", "status", "side", "order_price", "amount", "filled_amount", "avg_price", "action", "commission", "err_msg",
         "canceled_amount", "deal_balance")


def report(w, tag, oid, p, status=None):
    """one reported order with any values, as documented"""
    st = status or w.choice(tag + ".status", p.get("status") or STATUS)
    style = w.choice(tag + ".style", p.get("styles") or ["limit", "market"])
    r = dict(order_id=oid, code=w.digits(tag + ".code", 1) + ".XSHE", price=w.price(tag + ".price", 0, 1000), amount=w.int(tag + ".amount", 1, 10 ** 6),
             action=w.choice(tag + ".action", p.get("actions") or ["open", "close"]), status=st, style=style, create_time="2024-01-10 09:30:00.000000",
             side=w.choice(tag + ".side", p.get("sides") or ["long"]))
    if p.get("full", 1):
        r.update(entrust_time="2024-01-10 09:30:0" + w.char(tag + ".sec", "0123456789"), confirm_id=w.digits(tag + ".confirm", 1), filled_amount=w.int(tag + ".filled", 0, 10 ** 6),
                 canceled_amount=w.int(tag + ".cancelled", 0, 10 ** 6), deal_balance=w.price(tag + ".deal", 0, 10 ** 6),
                 avg_cost=w.price(tag + ".avg", 0, 1000), err_msg=w.choice(tag + ".msg", ["", "no money"]))
    return r


def copy(r):
    return dict([(k, v) for k, v in r.items()])


def shows(w, u, r):
    w.check(w.eq(w.tostr(u.order_id), w.tostr(r["order_id"])), "the reported id")
    w.check(w.eq(u.code, r["code"]), "the reported code", u.code)
    w.check(u.status == r["status"], "the reported status", (u.status, r["status"]))
    w.check(u.side == r.get("side", "long"), "the reported side")
    w.check(u.action == r["action"], "the reported action")
    w.check(w.eq(u.order_price, r["price"]), "the reported price", (u.order_price, r["price"]))
    w.check(u.amount == r["amount"], "the reported amount", (u.amount, r["amount"]))
    w.check(u.style.value == r["style"], "the reported style")
    if "filled_amount" in r:
        w.check(u.filled_amount == r["filled_amount"], "the reported filled amount", (u.filled_amount, r["filled_amount"]))
        w.check(u.canceled_amount == r["canceled_amount"], "the reported cancelled amount")
        w.check(w.eq(u.avg_price, r["avg_cost"]), "the reported cost")
        w.check(w.eq(u.deal_balance, r["deal_balance"]), "the reported deal balance")
        w.check(u.err_msg == r["err_msg"], "the reported message")
        w.check(u.entrust_time == w.datetime.datetime(2024, 1, 10, 9, 30, lib.digit(w, r["entrust_time"][18])), "the reported entrust time", u.entrust_time)


def values(w, u):
    return [getattr(u, n) for n in ATTRS] + [u.entrust_time, u.create_time, u.style.value]


def unchanged(w, u, old, label):
    new = values(w, u)
    for a, b in zip(old, new):
        w.check(w.eq(a, b) if a is not None and b is not None else a is b, label, (old, new))


def mirror(w, p):
    """n synchronisations, each reporting any subset of m orders with any values; one of them may fail"""
    a = lib.Acc(w)
    m, n = p["m"], p["n"]
    last = {}
    own = None
    if p.get("own"):
        w.uuid_fn = lambda: 2 ** 40 + 5
        if p.get("refused"):
            def no(o):
                raise RuntimeError("no")
            a.gate.on_order = no
        own = a.api.order("600000.XSHG", 100, a.api.LimitOrderStyle(w.price("own", 1, 100)))
        own = own or list(a.api.get_orders())[0]
    ids = ["%d" % (70 + k) for k in range(m)]
    if own:
        ids[0] = own
    snaps = []
    for step in range(n):
        fail = w.choice("fail%d" % step, p.get("fails") or [None])
        rows = []
        for k in range(m):
            if w.conc_bool(w.bool("has%d.%d" % (step, k))) if p.get("subset", 1) else True:
                rows.append(report(w, "r%d.%d" % (step, k), ids[k], p))

        def on_orders():
            if fail == "raise":
                raise IOError("no")
            if fail == "none":
                return None
            out = [copy(r) for r in rows]
            if p.get("intids"):
                for r in out:
                    r["order_id"] = int(r["order_id"])
            if fail == "bad status":
                out.append(dict(copy(report(w, "x", "999", dict(full=0, styles=["limit"], actions=["open"]), status="open")), status="weird"))
            if fail == "incomplete":
                out.append(dict(order_id="998"))
            return out
        a.gate.on_orders = on_orders
        before = a.api.get_orders()
        before = dict([(w.tostr(k), u) for k, u in before.items()])
        old = dict([(k, values(w, u)) for k, u in before.items()])
        snaps.append((before, old))
        err = w.raises(a.api.sync_orders)
        w.check(err is None, "a synchronisation never raises", err)
        if not fail:
            for r in rows:
                last[r["order_id"]] = r
        book = dict([(w.tostr(k), u) for k, u in a.api.get_orders().items()])
        for k in book:
            one = a.api.get_orders(order_id=k)
            w.check(len(one) == 1, "each is found by its id", (k, one))
        if fail:
            w.cover("failed")
            w.check(len(book) == len(before), "a failed synchronisation changes nothing", (len(book), len(before)))
            for k, u in book.items():
                unchanged(w, u, old[k], "a failed synchronisation changes nothing")
        want = len(last) + (1 if own and own not in last else 0)
        w.check(len(book) == want, "exactly the reported orders and those kept", (len(book), want))
        for k, r in last.items():
            w.check(k in book, "each reported order is in the book", k)
            shows(w, book[k], r)
            w.cover("mirrored")
        if own and own not in last:
            w.check(own in book and book[own].status == ("rejected" if p.get("refused") else "new"), "an order not reported is kept")
            w.cover("kept")
    for before, old in snaps:
        for k, u in before.items():
            unchanged(w, u, old[k], "an order object obtained earlier keeps its values")


F1 = dict(styles=["limit"], actions=["open"], status=["open", "filling"])
SCENARIOS = [
    dict(name="mirror", fn=mirror, covers=("mirrored", "failed", "kept"), bounds="n synchronisations each reporting any subset of m orders (one possibly submitted in this run) with any values (all statuses, styles, actions; prices and amounts up to 10^6); a synchronisation failing by exception, None, an unknown status or an incomplete entry",
         quick=[dict(m=1, n=1, sides=["long", "short"], subset=0), dict(m=2, n=2, **F1), dict(m=1, n=2, own=1, status=["new", "open", "filling", "filled"], styles=["limit"], actions=["open"]),
                dict(m=1, n=2, fails=[None, "raise", "none", "bad status", "incomplete"], **F1), dict(m=1, n=2, full=0, styles=["limit"], actions=["open"], subset=0),
                dict(m=2, n=1, own=1, intids=1, full=0, **F1), dict(m=2, n=2, own=1, refused=1, full=0, styles=["limit"], actions=["open"], status=["open", "filled"])],
         thorough=[dict(m=2, n=1, sides=["long", "short"], subset=0), dict(m=2, n=3, styles=["limit"], actions=["open"], status=["open"]), dict(m=1, n=2, subset=0),
                   dict(m=2, n=2, own=1, fails=[None, "raise", "bad status", "incomplete"], subset=0, styles=["limit"], actions=["open"], status=["open", "filling"])]),
]
ASSUMPTIONS = ["the trading interface reports each order at most once per synchronisation, in the documented form"]
