"""C28: serialised orders"""
from . import lib

STATUS = ["new", "open", "filling", "filled", "canceling", "partly_canceled", "canceled", "rejected"]


def moment(w, name, p):
    """any instant of one of some days, to the microsecond"""
    d = w.choice(name + ".day", p.get("days") or [0])
    return lib.dt_of(w, d * lib.DAY * lib.US + w.int(name, 0, lib.DAY * lib.US - 1))


def number(w, name, p):
    kind = w.pick(name + ".kind", 0, 2) if p.get("nums") else 1
    if kind == 0:
        return 0
    return w.int(name + ".i", -10 ** 9, 10 ** 9) if kind == 1 else w.price(name + ".f", 0, 10 ** 6, 1000)


def any_order(w, p, tag=""):
    O = w.mod("jqtrade.account.order")
    style = w.choice(tag + "style", p.get("styles") or ["market", "limit"])
    price = w.price(tag + "price", 0, 10 ** 5, 1000) if p.get("float") else w.int(tag + "iprice", 0, 10 ** 5)
    st = (O.MarketOrderStyle if style == "market" else O.LimitOrderStyle)(price)
    if p.get("by_text"):
        st = style
    enum = p.get("enum")
    status = w.choice(tag + "status", p.get("status") or STATUS)
    side = w.choice(tag + "side", p.get("sides") or ["long", "short"])
    action = w.choice(tag + "action", p.get("actions") or ["open", "close"])
    f = dict(code=w.digits(tag + "code", 6) + ".XSHE", price=price, amount=w.int(tag + "amount", 0, 10 ** 8),
             action=O.OrderAction.get_action(action) if enum else action, order_id=w.digits(tag + "oid", 3),
             status=O.OrderStatus.get_status(status) if enum else status, style=st, create_time=moment(w, tag + "created", p),
             side=O.OrderSide.get_side(side) if enum else side)
    if p.get("entrusted") or (not p.get("fields") and w.conc_bool(w.bool(tag + "entrusted"))):
        f["entrust_time"] = moment(w, tag + "entrust", p)
    if p.get("extra"):
        f.update(confirm_id=w.textv(tag + "cid", 0, 2, "0A"), filled_amount=number(w, tag + "filled", p), canceled_amount=number(w, tag + "canceled", dict(p, nums=0)),
                 deal_balance=number(w, tag + "balance", dict(p, nums=0)), avg_cost=w.price(tag + "cost", 0, 1000, 1000), commission=w.price(tag + "fee", 0, 1000, 10 ** p.get("fee", 4)),
                 err_msg=w.textv(tag + "msg", 0, p.get("msg", 1), "a\"\\\n资"))
    return O, O.Order(**f), f


ATTRS = ("code", "price", "amount", "order_id", "confirm_id", "filled_amount", "canceled_amount", "deal_balance", "avg_cost", "commission", "err_msg",
         "action", "side", "status", "create_time", "entrust_time")


def made(w, O, o, f):
    """the order shows what it was made with"""
    for n, v in f.items():
        x = getattr(o, n)
        if n == "style":
            w.check(isinstance(x, O.MarketOrderStyle if (v if w.is_str(v) else v.value) == "market" else O.LimitOrderStyle), "made with this style", (x, v))
            continue
        if n in ("action", "status", "side"):
            x, v = x.value, v if w.is_str(v) else v.value
        w.check(w.eq(x, v), "made with this " + n, (x, v))


def plain(w, x):
    if isinstance(x, dict):
        return all([w.is_str(k) and plain(w, v) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return all([plain(w, v) for v in x])
    return x is None or w.is_str(x) or w.is_num(x)


def equal(w, a, b, what):
    for n in ATTRS:
        x, y = getattr(a, n), getattr(b, n)
        if w.is_str(x) or w.is_str(y):
            w.check(w.is_str(x) and w.is_str(y), what + ": the same kind of " + n, (x, y))
            w.check(w.eq(x, y), what + ": the same " + n, (x, y))
        elif w.is_num(x) and w.is_num(y):
            w.check(x == y, what + ": the same " + n, (x, y))
        else:
            w.check(x == y, what + ": the same " + n, (x, y))
    w.check(type(a.style) is type(b.style), what + ": the same style", (a.style, b.style))
    w.check(a.style.price == b.style.price, what + ": the same style price", (a.style, b.style))
    w.check(a == b, what + ": orders compare equal")


def roundtrip(w, p):
    O, o, f = any_order(w, p)
    made(w, O, o, f)
    d = o.json()
    w.check(isinstance(d, dict) and plain(w, d), "the serialised form is plain data", d)
    keep = dict(d)
    o2 = O.Order.load(**d)
    equal(w, o, o2, "loaded")
    J = w.env["json"]
    o3 = O.Order.load(**J.loads(J.dumps(d)))
    equal(w, o, o3, "loaded from JSON text")
    d2 = o2.json()
    w.check(sorted(d2.keys()) == sorted(keep.keys()), "serialising again gives the same fields")
    for k in keep:
        w.check(w.eq(d2[k], keep[k]), "serialising again gives the same data", (k, d2[k], keep[k]))
    w.cover("same")


def unknown(w, p):
    """one enumerated field replaced by any other text"""
    O = w.mod("jqtrade.account.order")
    o = O.Order(code="000001.XSHE", price=1.5, amount=100, action="open", order_id="1", status="open", style="limit", create_time="2024-01-10 09:30:00", side="long")
    d = o.json()
    field = w.choice("field", ["status", "side", "action", "style"])
    known = dict(status=STATUS, side=["long", "short"], action=["open", "close"], style=["market", "limit"])[field]
    if p.get("other"):
        v = w.choice("other", ["FILLED", "Long", " open", "open ", "limit\n", "none", "__class__", "get_side", "value"])
    else:
        v = w.text("v", p["len"], p["alpha"])
    for k in known:
        w.assume(w.Not(w.eq(v, k)))
    d[field] = v
    err = w.raises(lambda: O.Order.load(**d))
    w.check(err is not None, "an unknown %s is rejected" % field, v)
    w.cover("rejected")


SCENARIOS = [
    dict(name="roundtrip", fn=roundtrip, covers=("same",),
         bounds="codes of 6 free digits, any int or decimal price, any amount, all statuses/sides/actions/styles as text or enumeration, any instant of some days (1974-2097, leap day included; thorough: 115 days) to the microsecond, optional fields given or not, messages with quotes, newlines and non-ASCII text",
         quick=[dict(enum=1), dict(by_text=1, float=1), dict(extra=1, float=1, nums=1, status=["filling", "filled"], sides=["short"], actions=["open"], styles=["limit"], entrusted=1),
                dict(extra=1, enum=1, status=["rejected"], sides=["long"], actions=["close"], msg=3, styles=["market"], fields=1),
                dict(days=[0, 50, -3650, 27000, -3652 * 5 + 1], status=["open"], sides=["long"], actions=["open"], styles=["limit"])],
         thorough=[dict(extra=1, float=1, nums=1, enum=e, by_text=1 - e, msg=1) for e in (0, 1)] + [dict(days=list(range(-400, 401, 7)), status=["open"], sides=["long"], actions=["open"], styles=["limit"], fields=1), dict(extra=1, status=["filled"], msg=5, styles=["limit"], sides=["long"], fields=1)]),
    dict(name="unknown", fn=unknown, covers=("rejected",), bounds="texts of 4-5 free letters and look-alikes in each enumerated field",
         quick=[dict(len=4, alpha="opentrlgm"), dict(len=5, alpha="limtshor"), dict(len=1, alpha="olsm"), dict(other=1)],
         thorough=[dict(len=8, alpha="canceldrjti"), dict(len=6, alpha="marketfil"), dict(len=4, alpha="opentrlgmw"), dict(other=1)]),
]
ASSUMPTIONS = ["decimal prices are exact reals; JSON text of a number reads back as that number", "complete orders: status, style and creation time are set"]
