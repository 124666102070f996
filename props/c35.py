"""C35: the broker's order reports"""
from . import lib

CODES = {"0": "open", "1": "filling", "2": "filled", "3": "partly_canceled", "4": "canceled", "5": "rejected", "7": "new", "8": "canceling"}


def number(w, name, p, places):
    """(text, value in units of 10^-places)"""
    i = w.digits(name + ".i", p.get("int", 2))
    iv = 0
    for c in i:
        iv = iv * 10 + lib.digit(w, c)
    if not places:
        return i, iv
    f = w.digits(name + ".f", places)
    fv = 0
    for c in f:
        fv = fv * 10 + lib.digit(w, c)
    return i + "." + f, iv * 10 ** places + fv


def moment(w, name):
    """(time text HHMMSS, seconds)"""
    h, hv = lib.two(w, name + ".h")
    m, mv = lib.two(w, name + ".m")
    s, sv = lib.two(w, name + ".s")
    w.assume(w.And(hv < 24, mv < 60, sv < 60))
    return h + m + s, hv * 3600 + mv * 60 + sv


def snap(o):
    return (o.status, o.filled_amount, o.canceled_amount, o.avg_price, o.deal_balance, o.err_msg, o.entrust_time)


def confirm(d, oid):
    return d.run.ctx.account.orders[oid].confirm_id


def update(w, p):
    """one complete line for one of two orders, every value free"""
    enc = p.get("enc", "utf-8")
    d = lib.Dma(w, **(dict(file_encoding=enc) if "enc" in p else {}))
    ids = [d.api.order("000001.XSHE", p.get("ordered", 1000)), d.api.order("600000.XSHG", -500, d.api.LimitOrderStyle(12))]
    if p.get("prior"):
        # lines may repeat and arrive late: also an order that looked finished follows the file
        d.add("orderUpdate", lib.update_line(w, ids[0], status=w.choice("was", p.get("was") or ["1", "2", "4", "5", "8"]), filled=50, cancel=5, price="9.5", amount="475", order_no="OLD", text="before"))
        d.api.sync_orders()
    before = {i: snap(o) for i, o in d.api.get_orders().items()}
    st = w.char("status", p.get("codes") or "0123456789")
    fq, fv = number(w, "filled", p, 0)
    cq, cv = number(w, "cancel", p, 0)
    pr, pv = number(w, "price", p, p.get("pp", 3))
    am, av = number(w, "amount", p, p.get("ap", 2))
    at, sec = moment(w, "at")
    no = w.textv("no", 0, p.get("nolen", 2), "0A")
    msg = w.choice("msg", ["", "ok"]) if "enc" not in p else w.choice("msg", ["废单", "余额不足 é" if enc == "utf-8" else "余额不足"])
    pad = w.choice("pad", ["", " "]) if p.get("pad") else ""
    acct = w.choice("acct", ["1001", " 1001", "", "01001", "88"]) if p.get("acct") else "1001"
    line = lib.update_line(w, ids[0] + pad, status=pad + st, filled=fq + pad, cancel=pad + cq, price=pr, amount=am, order_no=no, text=msg, time=at, acct=acct)
    w.write_file(d.file("orderUpdate"), line, encoding=enc, append=True)
    d.api.sync_orders()
    book = d.api.get_orders()
    w.check(len(book) == 2, "no order appears or disappears", book)
    w.check(snap(book[ids[1]]) == before[ids[1]], "the other order is untouched")
    code = w.conc(st)
    o = book[ids[0]]
    if code not in CODES:
        w.check(snap(o) == before[ids[0]], "a line with an unknown status code affects nothing", (code, snap(o)))
        w.cover("unknown code")
        return
    w.check(o.status == CODES[code], "the status by the code table", (code, o.status))
    w.check(o.filled_amount == fv, "the filled quantity", (o.filled_amount, fq))
    w.check(o.canceled_amount == cv, "the cancelled quantity", (o.canceled_amount, cq))
    w.check(w.eq(o.avg_price * 10 ** p.get("pp", 3), pv * 1.0), "the average price", (o.avg_price, pr))
    w.check(w.eq(o.deal_balance * 10 ** p.get("ap", 2), av * 1.0), "the deal amount", (o.deal_balance, am))
    w.check(w.eq(o.err_msg, msg), "the message, decoded", (o.err_msg, msg))
    w.check(w.eq(confirm(d, ids[0]), no), "the broker's id", confirm(d, ids[0]))
    w.check(lib.us_of(w, o.entrust_time) == sec * lib.US, "the entrust time", (o.entrust_time, at))
    w.check(o.amount == p.get("ordered", 1000) and w.conc_bool(w.eq(o.code, "000001.XSHE")) and o.action == "open", "what was ordered stays")
    w.cover("mapped")


def result(w, p):
    """lines of the result file: refused orders, refused cancels, successes, of either order or of others"""
    enc = p.get("enc", "utf-8")
    d = lib.Dma(w, **(dict(file_encoding=enc) if "enc" in p else {}))
    ids = [d.api.order("000001.XSHE", 1000), d.api.order("600000.XSHG", -500)]
    if p.get("prior"):
        d.add("orderUpdate", lib.update_line(w, ids[0], status="1", filled=50, price="9.5", amount="475", text="before"))
        d.api.sync_orders()
    before = {i: snap(o) for i, o in d.api.get_orders().items()}
    refused = {}
    text = ""
    for k in range(p["n"]):
        who = w.choice("who%d" % k, ids + ["other"])
        kind = w.char("kind%d" % k, "123")
        st = w.char("status%d" % k, "012")
        msg = w.choice("msg%d" % k, ["资金不足", "x y", ""]) if not p.get("free") else w.text("msgt%d" % k, p["free"], "a 1:")
        if p.get("free"):
            w.assume(w.And(w.ord(msg[0]) != 32, w.ord(msg[p["free"] - 1]) != 32))
        text = text + lib.result_line(w, who, kind, st, "17", msg)
        if w.conc_bool(w.And(w.eq(kind, "1"), w.eq(st, "1"))) and who in ids:
            refused[who] = msg
        if p.get("steps"):
            w.write_file(d.file("execResult"), text, encoding=enc, append=True)
            d.api.sync_orders()
            text = ""
    if not p.get("steps"):
        w.write_file(d.file("execResult"), text, encoding=enc, append=True)
        d.api.sync_orders()
    book = d.api.get_orders()
    w.check(len(book) == 2, "no order appears or disappears", book)
    for i in ids:
        o = book[i]
        if i in refused:
            w.check(o.status == "rejected", "a refused order is rejected", o.status)
            w.check(w.eq(o.err_msg, refused[i]), "with the given message", (o.err_msg, refused[i]))
            w.check(snap(o)[1:5] == before[i][1:5], "quantities stay")
            w.cover("refused")
        else:
            w.check(snap(o) == before[i], "an order that was not refused is untouched", (before[i], snap(o)))
            w.cover("untouched")


SCENARIOS = [
    dict(name="update", fn=update, covers=("mapped", "unknown code"), bounds="one line for one of two orders: any status digit, quantities and prices of free digits, any time of day, any short broker id, messages in UTF-8 and GBK, blanks around values, the account column filled in any way (orders are identified by custBatchNo)",
         quick=[dict(int=3), dict(int=1, codes="25", acct=1), dict(int=1, prior=1, pad=1), dict(int=1, enc="gbk", codes="256", pp=2), dict(int=1, enc="utf-8", codes="05", ap=4), dict(int=2, ordered=7, codes="1234")],
         thorough=[dict(int=7, prior=1), dict(int=4, prior=1, pad=1, nolen=4), dict(int=2, enc="gbk", pp=2), dict(int=2, enc="utf-8", ap=4)]),
    dict(name="result", fn=result, covers=("refused", "untouched"), bounds="1-3 result lines of any kind and status for either order or another one, UTF-8 and GBK messages, read at once or one by one",
         quick=[dict(n=2), dict(n=2, enc="gbk", prior=1), dict(n=1, free=3), dict(n=2, steps=1)], thorough=[dict(n=3), dict(n=3, enc="gbk", prior=1, steps=1), dict(n=2, free=3, steps=1)]),
]
ASSUMPTIONS = ["average prices have at most 3 decimals and deal amounts at most 4 (what the interface keeps)", "messages contain no comma"]
