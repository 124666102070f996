"""C12: submission of accepted orders"""
from . import lib


BIG = [2 ** 53 + 1, 10 ** 17 + 1, -(2 ** 63) - 1, 2 ** 64]


def make_order(w, a, k, p):
    """symbolic well-formed request: (arguments, expectations)"""
    if p.get("plain"):
        amount = w.int("amount%d" % k, 1, 10 ** 7)
        return ("000001.XSHE", amount, None, "long"), dict(code="000001.XSHE", amount=amount, limit=False, price=0, side="long")
    code = w.digits("code%d" % k, p.get("digits", 6)) + w.choice("ex%d" % k, [".XSHE", ".XSHG"])
    amount = w.choice("amount%d" % k, BIG) if p.get("big") else w.int("amount%d" % k, -10 ** 7, 10 ** 7)
    w.assume(amount != 0)
    limit = w.conc_bool(w.bool("limit%d" % k))
    price = w.price("price%d" % k, 0, 10000, 1000)
    style = a.api.LimitOrderStyle(price) if limit else a.api.MarketOrderStyle()
    side = w.choice("side%d" % k, p.get("sides") or ["long", "short"])
    return (code, amount, style, side), dict(code=code, amount=amount, limit=limit, price=price, side=side)


class Refused(Exception):
    """a failure of the trading interface's own kind, without a message"""


def same(w, a, o, e, oid):
    """an order object handed to the trading interface carries the request"""
    w.check(w.eq(o.order_id, oid), "under the returned id", (o.order_id, oid))
    w.check(w.eq(o.code, e["code"]), "the same code", (o.code, e["code"]))
    w.check(o.amount == w.ite(e["amount"] < 0, -e["amount"], e["amount"]), "the absolute amount", (o.amount, e["amount"]))
    w.check(w.Implies(e["amount"] > 0, o.action is a.O.OrderAction.open), "a positive amount opens", o.action)
    w.check(w.Implies(e["amount"] < 0, o.action is a.O.OrderAction.close), "a negative amount closes", o.action)
    w.check(o.side.value == e["side"], "the same side", (o.side, e["side"]))
    w.check(isinstance(o.style, a.O.LimitOrderStyle if e["limit"] else a.O.MarketOrderStyle), "the same style", o.style)
    if e["limit"]:
        w.check(w.eq(o.style.price, e["price"]), "the same limit price", o.style.price)
        w.check(w.eq(o.price, e["price"]), "the same order price", o.price)


def shown(w, a, u, e, oid, status):
    w.check(w.eq(u.order_id, oid), "found under its id")
    w.check(w.eq(u.code, e["code"]), "get_orders: the same code")
    w.check(u.amount == w.ite(e["amount"] < 0, -e["amount"], e["amount"]), "get_orders: the absolute amount", u.amount)
    w.check(w.Implies(e["amount"] > 0, u.action == "open"), "get_orders: opens", u.action)
    w.check(w.Implies(e["amount"] < 0, u.action == "close"), "get_orders: closes", u.action)
    w.check(u.side == e["side"], "get_orders: the same side", u.side)
    w.check(isinstance(u.style, a.O.LimitOrderStyle if e["limit"] else a.O.MarketOrderStyle), "get_orders: the same style")
    if e["limit"]:
        w.check(w.eq(u.order_price, e["price"]), "get_orders: the same price", u.order_price)
    w.check(u.status == status, "get_orders: status", (u.status, status))
    w.check(u.filled_amount == 0 and u.canceled_amount == 0, "nothing filled or cancelled yet")


def relay(w, p):
    """n orders with all data symbolic; the trading interface may fail on any of them"""
    w.set_now(w.int("now", 0, lib.DAY * lib.US - 1))
    a = lib.Acc(w)
    if p.get("uuid"):
        # any 128-bit ids, with collisions among their low bits; eventually a fresh one
        drawn = [0]

        def uid():
            drawn[0] += 1
            k = drawn[0]
            if k > p["uuid"]:
                return k * 2 ** 70 + 1000 + k
            return w.int("uhi%d" % k, 0, 2 ** 60) * 2 ** 64 + w.int("ulo%d" % k, 0, p.get("lo", 2 ** 32 - 1))
        w.uuid_fn = uid
    elif p.get("dup"):
        # generators that repeat themselves
        seq = [w.pick("u%d" % k, 0, p["dup"] - 1) for k in range(p["n"])]
        drawn = [0]

        def uid():
            drawn[0] += 1
            return seq[drawn[0] - 1] * 2 ** 40 + 7 if drawn[0] <= len(seq) else 2 ** 33 * drawn[0] + drawn[0] + 100
        w.uuid_fn = uid
    ids, exps = [], []
    for k in range(p["n"]):
        args, e = make_order(w, a, k, p)
        fail = w.conc_bool(w.bool("fail%d" % k)) if p.get("fail") else False

        error = w.choice("error%d" % k, [OSError(5, "io"), KeyError("k"), Refused(), TimeoutError()] if k == 0 else [ValueError("x")]) if fail else None

        def on_order(o):
            if fail:
                raise error
        a.gate.on_order = on_order
        n0 = a.gate.count("order")
        before = a.api.get_orders()
        oid, err = w.attempt(a.api.order, *args)
        w.check(err is None, "no exception escapes", err)
        w.check(a.gate.count("order") == n0 + 1, "submitted exactly once", a.gate.log)
        o = a.gate.log[-1][1]
        book = a.api.get_orders()
        if fail:
            w.check(oid is None, "None is returned when the trading interface fails", oid)
            alive = [x for x in book.values() if w.conc_bool(w.eq(x.order_id, o.order_id))]
            w.check(alive != [], "a failed order is shown", book)
            w.check(all([x.status == "rejected" for x in alive]), "a failed order is not left looking alive", [x.status for x in alive])
            w.cover("failed")
        else:
            w.check(oid is not None and w.is_str(oid), "the id is returned", oid)
            same(w, a, o, e, oid)
            w.check(o.status is a.O.OrderStatus.new, "submitted as a new order")
        for x in before.values():
            w.check(w.Not(w.eq(x.order_id, o.order_id)), "the id is new among the known orders", (x.order_id, o.order_id))
        ids.append(oid)
        exps.append((e, fail))
    book = a.api.get_orders()
    for oid, (e, fail) in zip(ids, exps):
        if not fail:
            w.check(oid in book, "the returned id finds the order", oid)
            shown(w, a, book[oid], e, oid, "new")
            w.cover("relayed")
    w.check(a.gate.count("order") == p["n"], "each order is submitted exactly once", a.gate.log)
    w.check(len(book) >= len([1 for e, f in exps if not f]) and len(book) <= p["n"], "no further orders appear", len(book))


def known(w, p):
    """a new id differs from the ids of orders learned from the broker"""
    a = lib.Acc(w)
    n = p["n"]
    ids = ["%d" % (100 + k) for k in range(n)]
    status = w.choice("status", ["open", "filled", "rejected", "canceled", "partly_canceled", "canceling"])
    a.gate.on_orders = lambda: [dict(order_id=i, code="000001.XSHE", price=1, amount=100, action="open", status=status, style="limit",
                                     side="long", create_time="2024-01-10 09:30:00") for i in ids]
    a.api.sync_orders()
    drawn = [0]

    def uid():
        drawn[0] += 1
        if drawn[0] > p["draws"]:
            return 5 * 2 ** 64 + 9000 + drawn[0]
        return w.int("hi%d" % drawn[0], 0, 3) * 2 ** 32 + w.int("u%d" % drawn[0], 100, 100 + n + 1)
    w.uuid_fn = uid
    oid = a.api.order("600000.XSHG", 100)
    w.check(oid is not None, "accepted")
    for i in ids:
        w.check(w.Not(w.eq(oid, i)), "the id is new among all known orders", oid)
    book = a.api.get_orders()
    w.check(len(book) == n + 1, "no known order is replaced", len(book))
    for i in ids:
        w.check(book[i].status == status and book[i].code == "000001.XSHE", "known orders are unchanged", i)
    w.cover("fresh")


def created(w, p):
    """the order's creation time is the time of the request"""
    w.set_now(w.int("now", 0, lib.DAY * lib.US - 1))
    a = lib.Acc(w)
    w.tick(w.int("later", 0, 3600 * lib.US))
    oid = a.api.order("600000.XSHG", 100)
    w.check(lib.us_of(w, a.api.get_orders()[oid].create_time) == w.now_us(), "creation time")


def held(w, p):
    """the real trading interface refuses: the order file is locked for longer than it waits, or cannot be written"""
    d = lib.Dma(w, wait_lock_internal=1, wait_lock_time_out=p["waits"])
    n = p["n"]
    bad = [w.conc_bool(w.bool("bad%d" % k)) for k in range(n)]
    ids = []
    for k in range(n):
        known = set(d.api.get_orders())
        w.locks.foreign = (lambda path: True) if bad[k] else None
        oid, err = w.attempt(d.api.order, "000001.XSHE", w.int("amount%d" % k, 1, 10000), None)
        w.locks.foreign = None
        w.check(err is None, "no exception escapes", err)
        w.check((oid is None) == bad[k], "None is returned when the trading interface fails", (oid, bad))
        new = [i for i in d.api.get_orders() if i not in known]
        w.check(len(new) == 1 and (bad[k] or new == [oid]), "one more order", new)
        ids += new
    more = []
    when = w.choice("then", ["nothing", "sync", "another", "day end"])
    if when == "sync":
        d.api.sync_orders()
    elif when == "another":
        more = [d.api.order("600000.XSHG", 5)]
        w.check(more[0] is not None, "accepted")
        d.api.sync_orders()
    elif when == "day end":
        w.tick(3600 * lib.US)
        d.api.sync_orders()
        d.api.sync_orders()
    book = d.api.get_orders()
    for i, b in zip(ids, bad):
        w.check(book[i].status == ("rejected" if b else "new"), "a failed order is shown as rejected, the others are not", (book[i].status, b))
    sent = [] if w.conc_bool(w.eq(d.text("algoOrder") or "", "")) else [r["custBatchNo"] for r in d.rows("algoOrder")]
    w.check(sent == [i for i, b in zip(ids, bad) if not b] + more, "only the accepted ones were submitted", sent)
    w.cover("refused" if any(bad) else "all accepted")


SCENARIOS = [
    dict(name="relay", fn=relay, covers=("relayed",), bounds="n orders with any six-digit code, amount up to 10^7 (and amounts around 2^53 to 2^64), style, price in thousandths up to 10000 and side; any random ids (including repeated ones); any subset failing",
         quick=[dict(n=1, fail=1), dict(n=1, digits=1, big=1), dict(n=2, fail=1, digits=1, sides=["long"]), dict(n=2, uuid=2, digits=1, sides=["long"]), dict(n=3, dup=3, plain=1)],
         thorough=[dict(n=1, fail=1), dict(n=2, fail=1, digits=6), dict(n=3, uuid=3, digits=1, sides=["long"]), dict(n=5, dup=4, plain=1)]),
    dict(name="known", fn=known, covers=("fresh",), bounds="n orders of any status learned from the broker, any random ids hitting them", quick=[dict(n=2, draws=2)], thorough=[dict(n=4, draws=4)]),
    dict(name="held", fn=held, covers=("refused", "all accepted"), bounds="n orders on the file trading interface, any of them finding its file locked until the time-out, then synchronised or not", quick=[dict(n=2, waits=2)], thorough=[dict(n=4, waits=1)]),
    dict(name="created", fn=created, bounds="any instant", quick=[dict()]),
]
ASSUMPTIONS = ["the random source eventually yields an unused number (after the stated number of arbitrary draws)",
               "failures of the trading interface are exceptions derived from Exception"]
