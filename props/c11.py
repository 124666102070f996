"""C11: which order requests are accepted"""
from . import lib


def is_code(w, code):
    """digits followed by .XSHE or .XSHG"""
    n = w.text_len(code)
    if n < 6:
        return False
    ok = [w.Or(code[n - 5:] == ".XSHE", code[n - 5:] == ".XSHG")]
    for k in range(n - 5):
        o = w.ord(code[k])
        ok.append(w.And(o >= 48, o <= 57))
    return w.And(*ok)


def judge(w, a, valid, call, want=None):
    """call the order API once and compare with what the request deserves"""
    before = a.api.get_orders()
    n0 = a.gate.count("order")
    oid, err = w.attempt(call)
    after = a.api.get_orders()
    if w.conc_bool(valid):
        w.check(err is None, "a well-formed order is accepted", err)
        w.check(oid is not None, "an accepted order has an id")
        w.check(a.gate.count("order") == n0 + 1, "an accepted order is submitted once", a.gate.log)
        w.check(len(after) == len(before) + 1, "an accepted order is in the order book", len(after))
        if want is not None:
            want(a.gate.log[-1][1], after[oid])
        w.cover("accepted")
    else:
        w.check(err is not None, "a malformed order raises an error", oid)
        w.check(a.gate.count("order") == n0, "a refused order reaches nobody", a.gate.log)
        w.check(len(after) == len(before), "a refused order leaves the order book unchanged", len(after))
        w.cover("refused")


def codes(w, p):
    """any code text: free characters, or digits with a free separator and exchange"""
    a = lib.Acc(w)
    kind = p["kind"]
    if kind == "free":
        code = w.textv("code", 0, p["len"], p["alphabet"])
    elif kind == "near":
        # a valid code with one free character inserted or replaced somewhere
        body = w.digits("d", p["digits"]) + w.choice("suffix", [".XSHE", ".XSHG"])
        n = p["digits"] + 5
        k = w.pick("at", 0, n)
        c = w.char("c", p["alphabet"])
        how = w.choice("how", ["insert", "replace", "none"])
        code = body[:k] + c + body[k:] if how == "insert" else body[:k] + c + body[k + 1:] if how == "replace" else body
    else:
        code = w.textv("digits", 0, p["digits"], p["alphabet"]) + w.char("sep", ".-0X ") + w.choice("ex", ["XSHE", "XSHG", "XSH", "SH", "SZ", "xshe", "XSHEX", "XHKG", ""])
    w.observe("code", code)
    judge(w, a, is_code(w, code), lambda: a.api.order(code, 100), lambda o, u: (
        w.check(w.And(o.code == code, u.code == code), "the code is kept")))


def amounts(w, p):
    """any integer amount; non-integers"""
    a = lib.Acc(w)
    kind = w.choice("kind", ["int", "float", "text", "none", "whole float", "list"])
    amount = dict(int=None, float=100.5, text="100", none=None, list=[100])
    if kind == "int":
        x = w.int("amount", -p["max"], p["max"])
        valid = x != 0
    else:
        x = {"float": w.price("f", 0, 10), "text": "100", "none": None, "whole float": 100.0, "list": [100]}[kind]
        valid = False
    judge(w, a, valid, lambda: a.api.order("000001.XSHE", x))


def styles(w, p):
    """any style and side"""
    a = lib.Acc(w)
    kind = w.choice("style", ["omitted", "none", "market", "limit", "base", "class", "text", "number", "limit class", "subclass"])
    price = w.price("price", 0, 1000)
    O = a.O

    class Mine(O.LimitOrderStyle):
        pass
    k = {}
    if kind != "omitted":
        k["style"] = {"none": None, "market": a.api.MarketOrderStyle(), "limit": a.api.LimitOrderStyle(price), "base": O.OrderStyle(price),
                      "class": a.api.MarketOrderStyle, "text": "market", "number": 3, "limit class": a.api.LimitOrderStyle,
                      "subclass": Mine(price)}[kind]
    skind = w.choice("sidekind", ["omitted", "none", "long", "short", "text", "number", "list"])
    if skind != "omitted":
        k["side"] = {"none": None, "long": "long", "short": "short", "number": 1, "list": ["long"]}.get(skind)
        if skind == "text":
            k["side"] = w.textv("side", 1, p["side"], "longshrt LS")
    valid = kind in ("omitted", "none", "market", "limit", "subclass")
    if skind == "text":
        valid = w.And(valid, w.Or(k["side"] == "long", k["side"] == "short"))
    elif skind in ("number", "list"):
        valid = False

    def want(o, u):
        if kind in ("omitted", "none", "market"):
            w.check(isinstance(o.style, O.MarketOrderStyle), "an omitted style means market", kind)
        else:
            w.check(isinstance(o.style, O.LimitOrderStyle), "a limit style stays a limit style", kind)
            w.check(w.eq(o.style.price, price), "with its price")
        if skind in ("omitted", "none"):
            w.check(o.side is O.OrderSide.long, "an omitted side means long", o.side)
        else:
            w.check(o.side.value == k["side"], "the side is the given one", (o.side, k["side"]))
        w.check(u.side == o.side.value, "the order book shows the side")
    judge(w, a, valid, lambda: a.api.order("000001.XSHE", w.int("amount", 1, 10 ** 6), **k), want)


def others(w, p):
    """codes that are not text"""
    a = lib.Acc(w)
    code = w.choice("code", [None, 1, 600000, 1.5, ["000001.XSHE"], {}, ("000001", ".XSHE"), b"000001.XSHE"])
    judge(w, a, False, lambda: a.api.order(code, 100))


def after(w, p):
    """refused requests between accepted ones leave no trace"""
    a = lib.Acc(w)
    n = p["n"]
    ids = []
    for k in range(n):
        bad = w.choice("bad%d" % k, [None, "code", "amount", "style", "side"])
        amount = w.int("amount%d" % k, 1, 1000)
        args = ["000001.XSHE", amount, None, "long"]
        if bad:
            i = ["code", "amount", "style", "side"].index(bad)
            args[i] = ["000001XSHE", 0, "limit", "both"][i]
        oid, err = w.attempt(a.api.order, *args)
        if bad:
            w.check(err is not None, "refused", bad)
        else:
            w.check(err is None, "accepted", err)
            ids.append((oid, amount))
    book = a.api.get_orders()
    w.check(len(book) == len(ids), "only accepted orders are in the book", len(book))
    w.check(a.gate.count("order") == len(ids), "only accepted orders were submitted")
    for oid, amount in ids:
        w.check(book[oid].amount == amount, "each with its amount")
    w.cover("done")


U = "\u00b2\u0663\uff11"
SCENARIOS = [
    dict(name="codes", fn=codes, covers=("accepted", "refused"), bounds="any text up to len over an alphabet with digits, separators, exchange letters and non-ASCII digits; any valid code with any one character inserted or replaced; any digit part with 5 separators and 9 exchanges",
         quick=[dict(kind="free", len=7, alphabet="09.XSHEG" + U[0]), dict(kind="near", digits=6, alphabet="0123456789.XSHEG \n-xe" + U), dict(kind="parts", digits=7, alphabet="0123456789." + U)],
         thorough=[dict(kind="free", len=9, alphabet="0123456789.XSHEGsz \n-" + U), dict(kind="near", digits=9, alphabet="0123456789.XSHEG \n-xe" + U), dict(kind="parts", digits=12, alphabet="0123456789.XS " + U)]),
    dict(name="amounts", fn=amounts, covers=("accepted", "refused"), bounds="any integer up to max in absolute value; floats, text, None, list", quick=[dict(max=10 ** 12)]),
    dict(name="styles", fn=styles, covers=("accepted", "refused"), bounds="ten styles x seven kinds of side (any text up to `side` characters), any limit price, any positive amount", quick=[dict(side=4)], thorough=[dict(side=6)]),
    dict(name="others", fn=others, covers=("refused",), bounds="eight non-text codes", quick=[dict()]),
    dict(name="after", fn=after, covers=("done",), bounds="n requests each well-formed or wrong in one of four ways", quick=[dict(n=3)], thorough=[dict(n=5)]),
]
ASSUMPTIONS = ["Boolean amounts and falsy non-None styles or sides are not judged"]
