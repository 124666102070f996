"""C20: cash and positions mirror the broker's report"""
from . import lib


def money(w, name, p):
    if p.get("num") == "float":
        return w.price(name, -p["max"], p["max"])
    return w.int(name, -p["max"], p["max"])


def report(w, tag, p, codes, total="total_asset"):
    r = dict(cash={total: money(w, tag + ".total", p), "available_cash": money(w, tag + ".avail", p), "locked_cash": money(w, tag + ".locked", p)}, positions=[])
    for k, (code, side) in enumerate(codes):
        if w.conc_bool(w.bool("%s.has%d" % (tag, k))):
            amount = w.int("%s.amount%d" % (tag, k), 0, p["max"])
            avail = w.int("%s.free%d" % (tag, k), 0, p["max"])
            pos = dict(code=code, amount=amount, available_amount=avail, avg_cost=w.price("%s.cost%d" % (tag, k), 0, 1000))
            if not p.get("bare"):
                pos.update(last_price=w.price("%s.last%d" % (tag, k), 0, 1000), position_value=w.price("%s.value%d" % (tag, k), 0, 10 ** 6))
            if side is not None:
                pos["side"] = side
            r["positions"].append(pos)
    return r


def side_name(w, s):
    return "long" if s is None else s if isinstance(s, str) else s.value


def copy(r):
    out = dict(r)
    if "positions" in out:
        out["positions"] = [dict(x) for x in out["positions"]]
    if "cash" in out:
        out["cash"] = dict(out["cash"])
    return out


def cash(w, pf, r):
    for k, v in r["cash"].items():
        got = pf.total_value if k.startswith("total_") else getattr(pf, k)
        w.check(w.eq(got, v), "the reported " + k.replace("_", " "), (got, v))


def holds(w, pf, r):
    for name in ("long", "short"):
        d = pf.long_positions if name == "long" else pf.short_positions
        want = [x for x in r["positions"] if side_name(w, x.get("side")) == name]
        w.check(len(d) == len(want), "exactly the reported positions", (name, list(d.keys()), want))
        for x in want:
            w.check(x["code"] in d, "each under its side and code", (name, x["code"]))
            u = d[x["code"]]
            w.check(w.eq(u.total_amount, x["amount"]), "the reported amount", (u.total_amount, x["amount"]))
            w.check(w.eq(u.closeable_amount, x["available_amount"]), "the reported closeable amount")
            w.check(w.eq(u.avg_cost, x["avg_cost"]), "the reported cost")
            w.check(u.side == name, "the reported side", u.side)
            if "last_price" in x:
                w.check(w.eq(u.last_price, x["last_price"]), "the reported price")
                w.check(w.eq(u.position_value, x["position_value"]), "the reported value")


def mirror(w, p):
    """n synchronisations, any of which may fail; afterwards the account shows the last good report"""
    a = lib.Acc(w)
    good = None
    codes = p["codes"]
    for step in range(p["n"]):
        fail = w.choice("fail%d" % step, p.get("fails") or [None])
        r = report(w, "r%d" % step, p, codes, p.get("total", "total_asset"))
        if p.get("partial"):
            # the interface leaves fields out
            for x in list(r["cash"]):
                if w.conc_bool(w.bool("out%d.%s" % (step, x))):
                    del r["cash"][x]
        sent = copy(r)
        if fail == "no cash":
            del sent["cash"]
        elif fail == "no positions":
            del sent["positions"]
        elif fail == "null cash":
            sent["cash"] = None
        elif fail == "null positions":
            sent["positions"] = None
        elif fail == "bad position":
            sent["positions"].append(dict(code="000009.XSHE"))
        elif fail == "bad side":
            sent["positions"].append(dict(code="000009.XSHE", amount=1, available_amount=1, avg_cost=1, side="up"))

        def on_balance():
            if fail == "raise":
                raise IOError("no")
            if fail == "none":
                return None
            return sent
        a.gate.on_balance = on_balance
        err = w.raises(a.api.sync_balance)
        w.check(err is None, "a synchronisation never raises", err)
        if not fail:
            good = r
            w.cover("good")
            if p.get("again"):
                # the interface hands out the same object again, brought up to date
                more = w.int("more%d" % step, 0, 100)
                for x in (r, sent):
                    x["cash"]["available_cash"] = x["cash"]["available_cash"] + more
                    for q in x["positions"]:
                        q["amount"] = q["amount"] + more
                err = w.raises(a.api.sync_balance)
                w.check(err is None, "a synchronisation never raises", err)
        else:
            w.cover(fail)
        pf = a.portfolio
        if good is None:
            w.check(pf.total_value == 0 and pf.available_cash == 0 and pf.locked_cash == 0 and not len(pf.long_positions) and not len(pf.short_positions), "nothing yet")
        else:
            cash(w, pf, good)
            holds(w, pf, good)
            w.cover("held")


A, B = "000001.XSHE", "600000.XSHG"
FAILS = [None, "raise", "none", "no cash", "no positions", "null cash", "null positions", "bad position", "bad side"]
SCENARIOS = [
    dict(name="mirror", fn=mirror, covers=tuple(["good", "held"] + FAILS[1:]), bounds="n reports with any cash -max..max, amounts 0..max and any subset of the listed positions (long, short, side omitted or given as enumeration), any of them failing in one of eight ways; a report handed out twice; the documented key total_assert",
         quick=[dict(n=2, max=10 ** 9, codes=[(A, "long"), (B, "short")]), dict(n=1, max=10 ** 6, num="float", codes=[(A, "long"), (A, "short")]),
                dict(n=2, max=100, codes=[(A, "long")], fails=FAILS), dict(n=1, max=100, codes=[(A, "long"), (B, None)], bare=1), dict(n=1, max=100, codes=[(A, "long")], again=1),
                dict(n=1, max=100, codes=[(A, "long")], total="total_assert"), dict(n=2, max=100, codes=[(A, "long")], partial=1)],
         thorough=[dict(n=3, max=10 ** 9, codes=[(A, "long"), (B, "short")]), dict(n=2, max=10 ** 6, num="float", codes=[(A, "long"), (A, "short"), (B, "long")]),
                   dict(n=3, max=100, codes=[(A, "long")], fails=FAILS)]),
]
ASSUMPTIONS = ["reports have the documented form apart from the stated failures; a malformed position entry counts as a failed report"]
