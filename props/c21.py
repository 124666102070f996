"""C21: the broker's asset and position files"""
from . import lib

ACCT = "1001"
OTHERS = ["1002", "01001", "10010", "1001A", "21001"]


def num(w, name, i, f=0, neg=False):
    """number text with its value in units of 10^-f"""
    t = w.digits(name, i + f)
    v = 0
    for c in t:
        v = v * 10 + lib.digit(w, c)
    if f:
        t = t[:i] + "." + t[i:]
    if neg and w.conc_bool(w.bool(name + ".neg")):
        return "-" + t, -v
    return t, v


def assets(w, p):
    """text of an asset file, the expected (total, available, locked) or None"""
    want = None
    lines = [lib.HEADERS["assetInfo"] + (",remark" if p.get("remark") else "")]
    for k in range(p.get("assets", 2)):
        acct = w.choice("a%d.acct" % k, [ACCT] + OTHERS[:p.get("others", 5)])
        exch = w.choice("a%d.exchange" % k, ["", "SH"])
        cur, cv = num(w, "a%d.cur" % k, p.get("i", 2), p.get("f", 0), p.get("neg"))
        en, ev = num(w, "a%d.en" % k, p.get("i", 2), p.get("f", 0), p.get("neg"))
        tot, tv = num(w, "a%d.tot" % k, p.get("i", 2), p.get("f", 0), p.get("neg"))
        if acct == ACCT and exch == "":
            w.assume(want is None)
            want = (tv, ev, cv - ev)
        lines.append(",".join(["093000", "UM0", acct, exch, cur, en, "0", tot] + ([p["remark"]] if p.get("remark") else [])))
    lines.append("," * lines[0].count(","))
    return "\n".join(lines) + "\n", want


def positions(w, p, tag="p"):
    lines = [lib.HEADERS["positionInfo"] + (",name" if p.get("remark") else "")]
    want = {}
    for k in range(p.get("positions", 2)):
        n = "%s%d" % (tag, k)
        acct = w.choice(n + ".acct", [ACCT] + OTHERS[:p.get("others", 5)])
        market = w.choice(n + ".market", [("SZ", "XSHE"), ("SH", "XSHG")])
        code = "00000%d" % k if not p.get("codes") else w.digits(n + ".code", 6)
        qty, qv = num(w, n + ".qty", p.get("i", 2))
        fr, fv = num(w, n + ".free", p.get("i", 2))
        cost, costv = num(w, n + ".cost", 1, p.get("pf", 3), p.get("neg"))
        last, lastv = num(w, n + ".last", 1, p.get("pf", 3))
        val, valv = num(w, n + ".val", p.get("i", 2), p.get("f", 0), p.get("neg"))
        symbol = code + "." + market[0]
        if p.get("blank") and acct != ACCT and w.conc_bool(w.bool(n + ".blank")):
            symbol = ""
        lines.append(",".join(["093000", "UM0", acct, symbol, qty, fr, cost, last, val] + ([p["remark"]] if p.get("remark") else [])))
        if acct == ACCT and w.conc_bool(qv != 0):
            full = w.conc(code) + "." + market[1]
            w.assume(full not in want)
            want[full] = (qv, fv, costv, lastv, valv)
    lines.append("," * lines[0].count(","))
    return "\n".join(lines) + "\n", want


def holds(w, pf, cash, want, p):
    u = 10 ** p.get("f", 0)
    pu = 10 ** p.get("pf", 3)
    w.check(w.eq(pf.total_value * u, cash[0] * 1.0), "the total of the summary row", (pf.total_value, cash[0]))
    w.check(w.eq(pf.available_cash * u, cash[1] * 1.0), "the available cash of the summary row", (pf.available_cash, cash[1]))
    w.check(w.eq(pf.locked_cash * u, cash[2] * 1.0), "the locked cash of the summary row", (pf.locked_cash, cash[2]))
    d = pf.long_positions
    w.check(len(d) == len(want) and len(pf.short_positions) == 0, "exactly the held positions of this account", (list(d.keys()), list(want)))
    for c, (q, f, cost, last, val) in want.items():
        w.check(c in d, "under its code", (c, list(d.keys())))
        x = d[c]
        w.check(w.eq(x.total_amount, q), "its quantity", (x.total_amount, q))
        w.check(w.eq(x.closeable_amount, f), "its available quantity", x.closeable_amount)
        w.check(w.eq(x.avg_cost * pu, cost * 1.0), "its cost", (x.avg_cost, cost))
        w.check(w.eq(x.last_price * pu, last * 1.0), "its price", x.last_price)
        w.check(w.eq(x.position_value * u, val * 1.0), "its value", x.position_value)


def start(w, p, **kw):
    opts = dict(account_no=int(ACCT) if p.get("intacct") else ACCT)
    if "enc" in p:
        opts["file_encoding"] = p["enc"]
    opts.update(kw)
    if p.get("again"):
        # the options are given twice; the last ones count
        first = dict(opts, sync_retry_kwargs=w.choice("first", [dict(max_attempts=2, attempt_internal=0.5), dict(max_attempts=0), dict(on_exception=lambda e: False)]))
        last = dict(opts, order_dir=w.path("orders"), runtime_dir=w.path("rt"), sync_balance=False, sync_order=False)
        return lib.Dma(w, init=lambda r: r.set_options(**last), **first)
    return lib.Dma(w, **opts)


def read(w, p):
    """complete files of any content"""
    d = start(w, p)
    enc = p.get("enc", "utf-8")
    a, cash = assets(w, p)
    b, want = positions(w, p)
    w.write_file(d.file("assetInfo"), a, encoding=enc)
    w.write_file(d.file("positionInfo"), b, encoding=enc)
    d.run.ctx.account.sync_balance()
    pf = d.run.user_ctx.portfolio
    if cash is None:
        w.check(pf.total_value == 0 and len(pf.long_positions) == 0, "without a summary row nothing is taken over", (pf.total_value, list(pf.long_positions)))
        w.cover("no summary")
        return
    holds(w, pf, cash, want, p)
    w.cover("read")


FIX = dict(assets=1, positions=1)


def fixed(n):
    """a pair of complete files and what they mean"""
    return ("%s\n093000,UM0,1001,,%d,%d,0,%d\n093000,UM0,1001,SH,7,7,0,7\n,,,,,,,\n" % (lib.HEADERS["assetInfo"], 50 + n, 40 + n, 90 + n),
            "%s\n093000,UM0,1002,600000.SH,5,5,1,1,5\n093000,UM0,1001,000001.SZ,%d,%d,1.5,2.5,30\n093000,UM0,1001,600000.SH,%d,1,1,1,9\n,,,,,,,,\n" % (lib.HEADERS["positionInfo"], 10 + n, 5, 20 + n))


def meaning(pf):
    return (pf.total_value, pf.available_cash, pf.locked_cash, {k: (v.total_amount, v.closeable_amount, v.avg_cost, v.last_price, v.position_value) for k, v in pf.long_positions.items()})


def wanted(n):
    return (90 + n, 40 + n, 10, {"000001.XSHE": (10 + n, 5, 1.5, 2.5, 30), "600000.XSHG": (20 + n, 1, 1, 1, 9)})


def partial(w, p):
    """while the broker writes its files anew only a part is visible; the rest appears after some time or not at all"""
    tries = w.pick("max_attempts", 0, p.get("tries", 3)) if not p.get("default") else 3
    wait = w.choice("wait", [150, 1000]) if not p.get("default") else 150
    d = start(w, p, **({} if p.get("default") else dict(sync_retry_kwargs=dict(max_attempts=tries, attempt_internal=wait / 1000.0))))
    fa, fb = d.file("assetInfo"), d.file("positionInfo")
    a, b = fixed(1)
    w.write_file(fa, a)
    w.write_file(fb, b)
    pf = d.run.user_ctx.portfolio
    d.run.ctx.account.sync_balance()
    w.check(meaning(pf) == wanted(1), "the first files are taken over", meaning(pf))
    a, b = fixed(2)
    which = w.choice("which", ["asset", "position"])
    full = a if which == "asset" else b
    blank = w.byte_len(full) - (8 if which == "asset" else 9)     # where the terminating blank record starts
    lo, hi = p.get("cut", (0, 10 ** 6))
    cut = w.pick("cut", max(-1, lo), min(blank, hi)) if not p.get("tail") else w.pick("cut", blank - p["tail"], blank)
    f = fa if which == "asset" else fb
    w.write_file(fa, a)
    w.write_file(fb, b)
    w.write_file(f, "")
    if cut < 0:
        w.store.remove(f)
    else:
        w.write_part(f, full, 0, cut)
    when = w.int("complete after", 1, 6 if not p.get("default") else 4)     # the rest appears before that many-th repetition
    n = [0]
    slept = []

    def on_sleep(s):
        slept.append(s)
        n[0] += 1
        if w.conc_bool(when == n[0]):
            w.write_file(f, full)
    w.sleep_fn = on_sleep
    d.run.ctx.account.sync_balance()
    w.sleep_fn = None
    for s in slept:
        w.check(w.eq(s * 1000, wait * 1.0), "at the configured interval", s)
    ok = cut >= 0 and w.conc_bool(when <= tries)
    if cut < 0:
        w.check(meaning(pf) == wanted(1) or w.conc_bool(when <= tries) and meaning(pf) == wanted(2), "a missing file is a failure", meaning(pf))
        w.cover("missing")
        return
    if ok:
        w.check(meaning(pf) == wanted(2), "once complete within the retries, the file is taken over completely", (cut, meaning(pf)))
        w.cover("completed")
    else:
        w.check(meaning(pf) == wanted(1), "an incomplete file changes nothing", (cut, meaning(pf)))
        w.check(len(slept) == tries, "after the configured number of retries", (len(slept), tries))
        w.cover("incomplete")
    # the next synchronisation takes the complete file
    w.write_file(f, full)
    d.run.ctx.account.sync_balance()
    w.check(meaning(pf) == wanted(2), "the next synchronisation succeeds", meaning(pf))


SCENARIOS = [
    dict(name="read", fn=read, covers=("read", "no summary"), bounds="0-3 asset rows and 0-3 position rows of this or other accounts (equal up to leading zeros, prefixes, suffixes; also without a symbol), with and without exchange, numbers of free digits (negative money and cost too), both markets, extra text columns in UTF-8 or GBK",
         quick=[dict(assets=1, positions=1, others=1), dict(assets=2, positions=0, i=3, f=2), dict(assets=1, positions=2, others=1, intacct=1, i=1), dict(assets=1, positions=1, others=0, enc="gbk", remark="平安银行", i=1),
                dict(assets=1, positions=1, others=0, i=4, f=4), dict(assets=1, positions=1, i=1, pf=1), dict(assets=1, positions=2, others=1, blank=1, i=1), dict(assets=1, positions=1, others=0, i=1, f=1, pf=2, neg=1)],
         thorough=[dict(assets=2, positions=2), dict(assets=3, positions=0, f=4), dict(assets=1, positions=3, others=2, intacct=1), dict(assets=1, positions=1, others=1, i=8, f=3), dict(assets=1, positions=2, others=1, enc="gbk", remark="平安", f=2)]),
    dict(name="partial", fn=partial, covers=("completed", "incomplete"), bounds="either file visible up to any byte before its terminating blank record (or missing), completed before the first to sixth repetition; 0-3 retries, two intervals; the options given once, or twice with other retry settings before",
         quick=[dict(tail=45, default=1), dict(tail=1, tries=2), dict(cut=(-1, 2), default=1), dict(tail=1, tries=2, again=1)], thorough=[dict(tries=3, tail=60), dict(default=1)]),
]
ASSUMPTIONS = ["an account has at most one summary row", "prices have at most 3 decimals and amounts of money at most 4"]
