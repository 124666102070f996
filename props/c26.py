"""C26: the portfolio view"""
from . import lib

CODES = ["000001.XSHE", "600000.XSHG", "300001.XSHE"]


def build(w, p):
    a = lib.Acc(w)
    rows = []
    for side in p.get("sides") or ["long", "short"]:
        for k in range(p["m"]):
            if w.conc_bool(w.bool("has.%s.%d" % (side, k))):
                t = "%s.%d." % (side, k)
                rows.append(dict(code=CODES[k], side=side, amount=w.int(t + "amount", 0, 10 ** 6), available_amount=w.int(t + "free", 0, 10 ** 6),
                                 avg_cost=w.price(t + "cost", 0, 1000), last_price=w.price(t + "last", 0, 1000), position_value=w.price(t + "value", 0, 10 ** 7)))
    cash = dict(total_asset=w.price("total", 0, 10 ** 8), available_cash=w.price("avail", 0, 10 ** 8), locked_cash=w.price("locked", 0, 10 ** 8))
    a.gate.on_balance = lambda: dict(cash=dict(cash), positions=[dict(r) for r in rows])
    a.api.sync_balance()
    return a, rows, cash


def one(w, u, r, code, side):
    w.check(u.security == code and u.code == code, "the code", u.security)
    w.check(u.side == side, "the side", u.side)
    for n, f in (("total_amount", "amount"), ("closeable_amount", "available_amount"), ("avg_cost", "avg_cost"), ("acc_avg_cost", "avg_cost"), ("last_price", "last_price"),
                 ("price", "last_price"), ("position_value", "position_value"), ("value", "position_value")):
        w.check(w.eq(getattr(u, n), r[f] if r else 0), "the holding's " + n, (getattr(u, n), r))
    w.check(u.locked_amount == (r["amount"] - r["available_amount"] if r else 0), "the holding's locked amount")


def view(w, p):
    a, rows, cash = build(w, p)
    pf = a.portfolio
    w.check(w.eq(pf.total_value, cash["total_asset"]), "total value")
    w.check(w.eq(pf.available_cash, cash["available_cash"]), "available cash")
    w.check(w.eq(pf.locked_cash, cash["locked_cash"]), "locked cash")
    long_rows = [r for r in rows if r["side"] == "long"]
    pv = sum([r["position_value"] for r in long_rows])
    w.check(w.eq(pf.position_value, pv), "position value is the sum over the long positions", (pf.position_value, pv))
    for side in ("long", "short"):
        mine = dict([(r["code"], r) for r in rows if r["side"] == side])
        names = ["long_positions", "positions"] if side == "long" else ["short_positions"]
        for nm in names:
            d = getattr(pf, nm)
            w.check(sorted([c for c in d]) == sorted(mine) and len(d) == len(mine), "exactly the holdings of the side", (nm, list(d)))
            # look up codes, held or not, in any order; the holdings stay what they are
            for q in range(p["lookups"]):
                code = w.choice("q%s%d" % (nm, q), CODES)
                one(w, d[code], mine.get(code), code, side)
                w.cover("held" if code in mine else "not held")
            w.check(sorted([c for c in d.keys()]) == sorted(mine) and len(d) == len(mine), "looking up does not add a holding", (nm, list(d)))
            w.check(sorted([u.security for u in d.values()]) == sorted(mine), "values are the holdings")
            for c, u in d.items():
                one(w, u, mine[c], c, side)
            for c in CODES:
                w.check((c in d) == (c in mine), "membership", c)
            d2 = getattr(pf, nm)
            w.check(sorted([c for c in d2]) == sorted(mine), "looking up leaves the account's holdings alone", nm)
    w.check(w.eq(pf.position_value, pv), "position value unchanged by look-ups")


def follow(w, p):
    """the portfolio object keeps showing the account's current holdings"""
    a, rows, cash = build(w, dict(m=1))
    pf = a.portfolio
    t = w.int("newtotal", 0, 1000)
    keep = w.conc_bool(w.bool("keep"))
    new = [dict(code=CODES[2], side="short", amount=w.int("na", 0, 100), available_amount=1, avg_cost=1, last_price=2, position_value=w.int("nv", 0, 100))] if keep else []
    a.gate.on_balance = lambda: dict(cash=dict(total_asset=t, available_cash=0, locked_cash=0), positions=[dict(r) for r in new])
    a.api.sync_balance()
    for v in (pf, a.portfolio):
        w.check(w.eq(v.total_value, t) and w.eq(v.available_cash, 0), "current cash", (v.total_value, t))
        w.check(not len(v.long_positions) and not len(v.positions), "current long positions")
        w.check(list(v.short_positions) == [r["code"] for r in new], "current short positions")
        w.check(v.position_value == 0, "short positions do not count into the position value", v.position_value)
    w.check(w.is_str(str(pf)), "the portfolio can be printed")
    w.cover("done")


SCENARIOS = [
    dict(name="view", fn=view, covers=("held", "not held"), bounds="any subset of m codes on each side with any amounts, prices, values and cash; any look-ups",
         quick=[dict(m=1, lookups=2), dict(m=2, lookups=1, sides=["long"])], thorough=[dict(m=2, lookups=1), dict(m=3, lookups=2, sides=["long"])]),
    dict(name="follow", fn=follow, covers=("done",), bounds="any second report", quick=[dict()]),
]
