"""C27: security codes and the broker's symbols"""
from . import lib


def symbol_of(w, d, code):
    """the symbol the trading interface writes for a code, or the exception"""
    n0 = len(d.rows("algoOrder") or [])
    o = d.O.Order(code=code, price=1, amount=100, action="open", order_id="9%d" % n0, status="new", style="market", create_time=w.datetime.datetime.now(), side=d.O.OrderSide.long)
    err = w.raises(lambda: d.run.ctx.trade_gate.order(o))
    rows = d.rows("algoOrder") or []
    if err is not None:
        w.check(len(rows) == n0, "a refused code writes nothing")
        return None, err
    w.check(len(rows) == n0 + 1, "one line")
    return rows[-1]["symbol"], None


def code_of(w, d, symbol):
    """the code under which a holding of that symbol is shown, or the exception"""
    blank = lib.HEADERS["positionInfo"].count(",") * "," + "\n"
    w.write_file(d.file("assetInfo"), lib.HEADERS["assetInfo"] + "\n0930,UM0,1001,,100,50,50,100\n" + lib.HEADERS["assetInfo"].count(",") * "," + "\n")
    w.write_file(d.file("positionInfo"), lib.HEADERS["positionInfo"] + "\n0930,UM0,1001," + symbol + ",100,100,1.5,1.5,150\n" + blank)
    r, err = w.attempt(d.run.ctx.trade_gate.sync_balance)
    if err is not None:
        return None, err
    w.check(len(r["positions"]) == 1, "one position", r)
    return r["positions"][0]["code"], None


def forth_and_back(w, p):
    d = lib.Dma(w, sync_retry_kwargs=dict(max_attempts=0, attempt_internal=0))
    n = w.pick("digits", 1, p["digits"])
    num = w.digits("num", n)
    ex = w.choice("ex", [("XSHE", "SZ"), ("XSHG", "SH")])
    code = num + "." + ex[0]
    s, err = symbol_of(w, d, code)
    w.check(err is None, "a valid code is translated", (code, err))
    w.check(w.eq(s, num + "." + ex[1]), "the symbol keeps digits and exchange", (code, s))
    c, err = code_of(w, d, s)
    w.check(err is None, "translating back works", (s, err))
    w.check(w.eq(c, code), "translating back returns the code", (code, s, c))
    s2, err = symbol_of(w, d, c)
    w.check(err is None and w.conc_bool(w.eq(s2, s)), "and its symbol again", (s, s2))
    w.cover("round trip")


def distinct(w, p):
    d = lib.Dma(w)
    a = w.digits("a", w.pick("na", 1, p["digits"])) + "." + w.choice("exa", ["XSHE", "XSHG"])
    b = w.digits("b", w.pick("nb", 1, p["digits"])) + "." + w.choice("exb", ["XSHE", "XSHG"])
    w.assume(w.Not(w.eq(a, b)))
    sa, ea = symbol_of(w, d, a)
    sb, eb = symbol_of(w, d, b)
    w.check(ea is None and eb is None, "both are translated")
    w.check(w.Not(w.eq(sa, sb)), "two codes never share a symbol", (a, b, sa, sb))
    w.cover("two codes")


def unknown_code(w, p):
    d = lib.Dma(w)
    ex = w.text("ex", p["len"], p.get("alpha") or "XSHEGZ")
    code = "000001." + ex
    w.assume(w.And(w.Not(w.eq(ex, "XSHE")), w.Not(w.eq(ex, "XSHG"))))
    s, err = symbol_of(w, d, code)
    w.check(err is not None, "an unknown exchange is refused", (code, s))
    w.cover("refused")


def unknown_symbol(w, p):
    d = lib.Dma(w, sync_retry_kwargs=dict(max_attempts=0, attempt_internal=0))
    ex = w.text("ex", p["len"], p.get("alpha") or "SZHXEG")
    w.assume(w.And(w.Not(w.eq(ex, "SZ")), w.Not(w.eq(ex, "SH"))))
    c, err = code_of(w, d, "000001." + ex)
    w.check(err is not None, "an unknown exchange is refused", (ex, c))
    w.cover("refused")


SCENARIOS = [
    dict(name="forth_and_back", fn=forth_and_back, covers=("round trip",), bounds="codes of 1-8 free digits on both exchanges", quick=[dict(digits=8)], thorough=[dict(digits=16)]),
    dict(name="distinct", fn=distinct, covers=("two codes",), bounds="any two different codes of 1-6 digits", quick=[dict(digits=6)], thorough=[dict(digits=12)]),
    dict(name="unknown_code", fn=unknown_code, covers=("refused",), bounds="any other suffix of `len` letters over XSHEGZ in either case", quick=[dict(len=n) for n in (1, 2, 3, 4, 5)] + [dict(len=4, alpha="XSHEGxsheg")], thorough=[dict(len=n) for n in range(0, 9)]),
    dict(name="unknown_symbol", fn=unknown_symbol, covers=("refused",), bounds="any other suffix of `len` letters over SZHXEG in either case and blanks", quick=[dict(len=n) for n in (1, 2, 3, 4)] + [dict(len=2, alpha="SZHszh "), dict(len=3, alpha="SZHszh ")], thorough=[dict(len=n) for n in range(0, 7)]),
]
ASSUMPTIONS = ["codes and symbols are observed where users and brokers see them: in the order file and in the positions"]
