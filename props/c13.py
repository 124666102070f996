"""C13: order and cancel files"""
from . import lib


def submit(w, d, k, p):
    """one request through the strategy's order function: (id, expectation)"""
    code = w.digits("code%d" % k, p.get("digits", 6))
    ex = w.choice("ex%d" % k, p.get("ex") or [(".XSHE", ".SZ"), (".XSHG", ".SH")])
    amount = w.int("amount%d" % k, -10 ** 7, 10 ** 7)
    w.assume(amount != 0)
    limit = w.conc_bool(w.bool("limit%d" % k))
    price = w.price("price%d" % k, 0, 10000, 1000) if p.get("float") else w.int("iprice%d" % k, 0, 10000)
    style = d.api.LimitOrderStyle(price) if limit else w.choice("market%d" % k, [None, d.api.MarketOrderStyle()] + ([d.api.MarketOrderStyle(5), d.api.MarketOrderStyle(price)] if p.get("marked") else []))
    oid = d.api.order(code + ex[0], amount, style)
    return oid, dict(symbol=code + ex[1], amount=amount, limit=limit, price=price, now=w.now_us())


def clock(w, us):
    """HHMMSS.ffffff"""
    return lib.dt_of(w, us).strftime("%H%M%S.%f")


def match(w, d, row, oid, e):
    buy = w.conc_bool(e["amount"] > 0)
    w.check(w.eq(row["custBatchNo"], oid), "the order's id", (row, oid))
    w.check(w.eq(row["acctType"], d.opts.get("counter_type", "UM0")), "the counter type in use", row)
    w.check(w.eq(row["acct"], w.tostr(d.opts["account_no"])), "the account in use", row)
    w.check(w.eq(row["symbol"], e["symbol"]), "the broker's symbol", (row, e))
    w.check(w.eq(row["tradeSide"], "1" if buy else "2"), "side 1 opens, 2 closes", (row, e))
    w.check(int(row["targetQty"]) == (e["amount"] if buy else -e["amount"]), "the unsigned quantity", (row, e))
    w.check(w.eq(row["algoId"], d.opts.get("algo_type", "DMA")), "the algorithm type", row)
    if e["limit"]:
        w.check(w.eq(row["priceType"], "AT"), "limit orders: AT", row)
        for n in ("highLimitPrice", "lowLimitPrice"):
            w.check(w.eq(float(row[n]), e["price"] * 1.0), "limit orders: the limit price twice", (row, e))
        w.cover("limit")
    else:
        w.check(w.eq(row["priceType"], "P6" if buy else "P7"), "market orders: P6 buys, P7 sells", row)
        for n in ("highLimitPrice", "lowLimitPrice"):
            w.check(float(row[n]) == 0, "market orders: no price", row)
        w.cover("market")
    w.check(float(row["ticks"]) == 0, "no ticks", row)
    w.check(w.eq(row["updTime"], clock(w, e["now"])), "the time of writing", row)


def orders(w, p):
    """n orders, the day's file existing (with lines of others) or not"""
    w.set_now(w.int("now", 0, (lib.DAY - 100) * lib.US))
    opts = {}
    if p.get("opts"):
        opts = dict(account_no=w.choice("acct", ["0042", 1001]), counter_type=w.choice("counter", ["UF0", "AT0", "at0x"]), algo_type="TWAP")
    d = lib.Dma(w, **opts)
    old = 0
    if w.conc_bool(w.bool("exists")):
        w.write_file(d.file("algoOrder"), lib.HEADERS["algoOrder"] + "\n" + ",".join(["x"] * 12) + "\n")
        old = 1
    done = []
    for k in range(p["n"]):
        done.append(submit(w, d, k, p))
        w.tick(w.int("dt%d" % k, 0, 10 * lib.US))
        rows = d.rows("algoOrder")
        w.check(rows is not None and len(rows) == old + len(done), "one line per order", rows)
    rows = d.rows("algoOrder")
    for row, (oid, e) in zip(rows[old:], done):
        w.check(oid is not None, "accepted", oid)
        match(w, d, row, oid, e)
    w.check(d.text("algoOrderStop") is None, "the cancel file is not touched")
    if old:
        w.check(w.eq(rows[0]["acct"], "x"), "earlier lines stay")


def cancels(w, p):
    w.set_now(w.int("now", 0, (lib.DAY - 100) * lib.US))
    d = lib.Dma(w)
    old = 0
    if w.conc_bool(w.bool("exists")):
        w.write_file(d.file("algoOrderStop"), lib.HEADERS["algoOrderStop"] + "\nx,y\n")
        old = 1
    ids = [d.api.order("000001.XSHE", 100), d.api.order("600000.XSHG", -100)]
    synced = w.conc_bool(w.bool("synced")) if p.get("sync") else False
    if synced:
        w.write_file(d.file("orderUpdate"), lib.HEADERS["orderUpdate"] + "\n")
        w.write_file(d.file("execResult"), lib.HEADERS["execResult"] + "\n")
        d.api.sync_orders()
    before = d.text("algoOrder")
    want = []
    for k in range(p["n"]):
        i = w.choice("which%d" % k, ids)
        w.tick(w.int("dt%d" % k, 0, 10 * lib.US))
        w.check(w.raises(d.api.cancel_order, i) is None, "cancel does not raise")
        want.append((i, w.now_us()))
        rows = d.rows("algoOrderStop")
        w.check(rows is not None and len(rows) == old + len(want), "one line per cancel", rows)
    for row, (i, now) in zip(d.rows("algoOrderStop")[old:], want):
        w.check(w.eq(row["custBatchNo"], i), "the cancelled id", (row, i))
        w.check(w.eq(row["updTime"], clock(w, now)), "the time of writing", row)
    w.check(w.eq(d.text("algoOrder"), before), "the order file is not touched")
    w.cover("cancelled")


def refused(w, p):
    """orders this interface cannot trade"""
    why = w.choice("why", ["short", "type", "no account", "code"])
    opts = dict(short={}, code={})
    if why == "type":
        opts["type"] = dict(account_type=w.choice("kind", ["CREDIT", "STO", "", "stock", "STOCKS"]))
    d = lib.Dma(w, **(dict(account_no=w.choice("acct", ["", None])) if why == "no account" else opts[why]))
    before = None
    if w.conc_bool(w.bool("exists")):
        w.write_file(d.file("algoOrder"), lib.HEADERS["algoOrder"] + "\n")
        before = lib.HEADERS["algoOrder"] + "\n"
    amount = w.int("amount", -1000, 1000)
    w.assume(amount != 0)
    style = d.api.LimitOrderStyle(w.int("price", 0, 100)) if w.conc_bool(w.bool("limit")) else None
    if why == "code":
        # below the code check of the strategy's order function
        o = d.O.Order(code="000001" + w.choice("ex", [".XXXX", ".SZ", "", ".CCFX"]), price=1, amount=100, action="open", order_id="7", status="new", style="market",
                      create_time=w.datetime.datetime.now(), side=d.O.OrderSide.long)
        w.check(w.raises(lambda: d.run.ctx.trade_gate.order(o)) is not None, "the interface refuses an unknown exchange")
    else:
        oid, err = w.attempt(d.api.order, "000001.XSHE", amount, style, "short" if why == "short" else "long")
        w.check(err is None and oid is None, "refused", (oid, err))
        w.check(all([x.status == "rejected" for x in d.api.get_orders().values()]), "shown as rejected")
    got = d.text("algoOrder")
    w.check((got is None) == (before is None) and (before is None or w.conc_bool(w.eq(got, before))), "without touching the file", got)
    w.cover(why)


def raw_cancels(w, p):
    """cancels handed to the interface itself, with ids as a broker's file may hold them"""
    d = lib.Dma(w)
    i = w.text("id", p["len"], p.get("alpha") or "0a-Z9")
    err = w.raises(d.run.ctx.trade_gate.cancel_order, i)
    w.check(err is None, "accepted", err)
    rows = d.rows("algoOrderStop")
    w.check(rows is not None and len(rows) == 1, "one line", rows)
    w.check(w.eq(rows[0]["custBatchNo"], i), "the id as given", (rows, i))
    w.cover("cancelled")


SCENARIOS = [
    dict(name="orders", fn=orders, covers=("limit", "market"), bounds="1-3 orders: any 6-digit code, both exchanges, any amount up to 10^7 either sign, market or limit with any price, any time of day; file existing or not; account, counter and algorithm types given or not",
         quick=[dict(n=1, float=1), dict(n=1, digits=1, marked=1), dict(n=1, opts=1), dict(n=1, digits=4), dict(n=2, ex=[(".XSHE", ".SZ")]), dict(n=3, ex=[(".XSHG", ".SH")])],
         thorough=[dict(n=1, float=1, opts=1), dict(n=2, float=1), dict(n=3, float=1, ex=[(".XSHE", ".SZ")]), dict(n=4, ex=[(".XSHG", ".SH")])]),
    dict(name="cancels", fn=cancels, covers=("cancelled",), bounds="1-3 cancels of two known orders, file existing or not", quick=[dict(n=1, sync=1), dict(n=3)], thorough=[dict(n=4, sync=1)]),
    dict(name="raw_cancels", fn=raw_cancels, covers=("cancelled",), bounds="a cancel handed to the interface with an id of len free characters", quick=[dict(len=3)], thorough=[dict(len=6)]),
    dict(name="refused", fn=refused, covers=("short", "type", "no account", "code"), bounds="short side, another account type, no account number, unknown exchange", quick=[{}], thorough=[{}]),
]
ASSUMPTIONS = ["files behave as plain POSIX text files; the lock is free"]
