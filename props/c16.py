"""C16: how the broker's order files grow does not matter"""
from . import lib

STATUS = {"0": "open", "1": "filling", "2": "filled", "3": "partly_canceled", "4": "canceled", "5": "rejected", "7": "new", "8": "canceling"}


def snap(o):
    return (o.status, o.filled_amount, o.canceled_amount, o.avg_price, o.deal_balance, o.err_msg, o.entrust_time)


def content(w, d, ids, p):
    """lines of the update file, with the state each gives its order"""
    own = d.O
    lines = [lib.HEADERS["orderUpdate"] + p.get("eol", "\n")] if p.get("header") else []
    what = [None for _ in lines]        # per line: the order and the state it is given
    last = {}
    eol = p.get("eol", "\n")
    for k in range(p["n"]):
        kind = w.choice("kind%d" % k, p.get("kinds", ("own", "second", "other", "bad")))
        st = w.char("status%d" % k, p.get("codes", "0128"))
        fl, fv = lib.two(w, "filled%d" % k)
        msg = p.get("msg", "")
        if kind in ("own", "second", "other"):
            i = ids[0] if kind == "own" else ids[1] if kind == "second" else "77777777"
            line = lib.update_line(w, i, status=st, filled=fl, text=msg, cli=p.get("cli", ""), order_no="N%d" % k if p.get("cli") else "")[:-1] + eol
            if kind != "other":
                last[i] = (st, fv, msg)
            what.append((i, (st, fv, msg)) if kind != "other" else None)
        else:
            line = bad_line(w, w.choice("how%d" % k, p.get("how", ("short", "status", "number", "empty"))), ids[0], msg) + eol
            what.append(None)
        lines.append(line)
    return lines, last, what


def visible(w, lines, what, pos, enc):
    """(states given by the lines complete within the first pos bytes, state given by the line visible in part)"""
    have, part, e = {}, {}, 0
    for x, t in zip(lines, what):
        b = e
        e += w.byte_len(x, enc)
        if t is not None:
            if e <= pos:
                have[t[0]] = t[1]
            elif b < pos:
                part[t[0]] = t[1]
    return have, part


def bad_line(w, how, i, msg):
    if how == "short":
        return "093000000,20240110,093000,UM0"
    if how == "empty":
        return ""
    if how == "status":
        return lib.update_line(w, i, status="9", filled=3, text=msg)[:-1]
    if how == "bytes":      # not text in the file's encoding
        return lib.update_line(w, i, status="4", filled=3, text="\xff")[:-1]
    if how == "cols":
        return lib.update_line(w, i, status="4", filled=3, text=msg)[:-2]
    if how == "time":
        return lib.update_line(w, i, status="4", filled=3, text=msg, time="9x3000")[:-1]
    return lib.update_line(w, i, status="4", filled="1x", text=msg)[:-1]


def grow(w, p):
    """the update file becomes visible in two or three pieces cut anywhere"""
    enc = p.get("raw") or p.get("enc", "utf-8")
    d = lib.Dma(w, **dict(dict(file_encoding=enc) if "enc" in p else {}, **dict(ignore_error_line=False) if p.get("strict") else {}))
    ids = [d.api.order("000001.XSHE", 1000), d.api.order("600000.XSHG", -500)]
    before = {i: snap(o) for i, o in d.api.get_orders().items()}
    f = d.file("orderUpdate")
    lines, last, what = content(w, d, ids, p)
    w.write_file(f, "")
    text = w.concat(lines)
    n = w.byte_len(text, enc)
    pos = 0
    for c in range(p.get("cuts", 1)):
        if p.get("near"):       # around the line boundaries
            ends, e = [], 0
            for x in lines:
                e += w.byte_len(x, enc)
                ends.append(e)
            base = ends[w.pick("line%d" % c, 0, len(lines) - 1)]
            cut = base + w.pick("off%d" % c, 0, 2 * p["near"]) - p["near"]
        else:
            cut = w.pick("cut%d" % c, 0, n)
        cut = min(max(cut, pos), n)
        w.write_part(f, text, pos, cut, enc)
        pos = cut
        d.api.sync_orders()
        w.cover("partly visible")
        have, part = visible(w, lines, what, pos, enc)
        judge(w, d, ids, before, have, part)
    w.write_part(f, text, pos, n, enc)
    d.api.sync_orders()
    judge(w, d, ids, before, last)
    if p.get("again"):
        d.api.sync_orders()
        judge(w, d, ids, before, last)


def judge(w, d, ids, before, last, part={}):
    book = d.api.get_orders()
    w.check(len(book) == 2, "exactly this strategy's orders", len(book))
    for i in ids:
        o = book[i]
        if i in part:
            # a line visible in part counts as a whole or not at all
            st, fl, msg = part[i]
            new = w.And(w.eq(o.status, STATUS[w.conc(st)]), o.filled_amount == fl, w.eq(o.err_msg, msg))
            if i in last:
                st, fl, msg = last[i]
                old = w.And(w.eq(o.status, STATUS[w.conc(st)]), o.filled_amount == fl, w.eq(o.err_msg, msg))
            else:
                old = snap(o) == before[i]
            w.check(w.Or(old, new), "a line visible in part counts as a whole or not at all", snap(o))
            continue
        if i not in last:
            w.check(snap(o) == before[i], "an order without lines is untouched", (before[i], snap(o)))
            continue
        st, fl, msg = last[i]
        w.check(w.eq(o.status, STATUS[w.conc(st)]), "the status of its last line", (o.status, st))
        w.check(o.filled_amount == fl, "the quantity of its last line", (o.filled_amount, fl))
        w.check(w.eq(o.err_msg, msg), "the message of its last line", (o.err_msg, msg))
        w.cover("updated")


def results(w, p):
    """the result file becomes visible in pieces"""
    enc = p.get("enc", "utf-8")
    d = lib.Dma(w, **(dict(file_encoding=enc) if "enc" in p else {}))
    ids = [d.api.order("000001.XSHE", 1000), d.api.order("600000.XSHG", -500)]
    before = {i: snap(o) for i, o in d.api.get_orders().items()}
    f = d.file("execResult")
    lines = [lib.HEADERS["execResult"] + "\n"] if p.get("header") else []
    what = [None for _ in lines]
    refused = {}
    for k in range(p["n"]):
        who = w.choice("who%d" % k, list(p.get("who", ["own", "second", "other", "bad"])))
        kind = w.choice("kind%d" % k, list(p.get("kinds", "12")))
        st = w.choice("status%d" % k, list(p.get("states", "01")))
        if who == "bad":
            lines.append(w.choice("how%d" % k, ["", "x", "1,2,3", ",", lib.result_line(w, ids[0], "1", "1", "17", "m")[:-3]]) + "\n")
            what.append(None)
            continue
        i = ids[0] if who == "own" else ids[1] if who == "second" else "77777777"
        msg = p.get("msg", "m%d" % k)
        lines.append(lib.result_line(w, i, kind, st, "17", msg))
        if i in ids and kind == "1" and st == "1":
            refused[i] = msg
        what.append((i, msg) if i in ids and kind == "1" and st == "1" else None)
    w.write_file(f, "")
    text = w.concat(lines)
    n = w.byte_len(text, enc)
    pos = 0
    for c in range(p.get("cuts", 1)):
        cut = min(max(w.pick("cut%d" % c, 0, n), pos), n)
        w.write_part(f, text, pos, cut, enc)
        pos = cut
        d.api.sync_orders()
        have, part = visible(w, lines, what, pos, enc)
        for i, o in d.api.get_orders().items():
            if i in have or i in part:
                ok = o.status == "rejected" and w.conc_bool(w.eq(o.err_msg, have[i])) if i in have else False
                if i in part:
                    # its message may still be incomplete
                    ok = ok or o.status == "rejected" or snap(o) == before[i]
                w.check(ok, "a refusal visible completely has taken effect", (o.status, o.err_msg))
            else:
                w.check(snap(o) == before[i], "other orders are untouched")
    w.write_part(f, text, pos, n, enc)
    d.api.sync_orders()
    book = d.api.get_orders()
    for i in ids:
        o = book[i]
        if i in refused:
            w.check(o.status == "rejected" and w.conc_bool(w.eq(o.err_msg, refused[i])), "a refusal takes effect with its whole message", (o.status, o.err_msg, refused[i]))
            w.cover("refused")
        else:
            w.check(snap(o) == before[i], "other orders are untouched")
            w.cover("untouched")


SCENARIOS = [
    dict(name="grow", fn=grow, covers=("partly visible", "updated"), bounds="update files of 1-4 lines (own order, second order, another strategy's, malformed) visible in 2-3 pieces cut at any byte, UTF-8 and GBK, both line endings",
         quick=[dict(n=1, header=1, kinds=("own",), codes="2"), dict(n=2, msg="废", enc="gbk", kinds=("own", "bad"), how=("number",), codes="8"), dict(n=2, near=2, cuts=2, codes="2", kinds=("own", "second")),
                dict(n=1, eol="\r\n", msg="é废", codes="5", kinds=("own", "bad"), again=1), dict(n=3, near=1, codes="2", kinds=("own", "bad"), again=1, how=("short", "time")),
                dict(n=2, near=1, codes="0128"), dict(n=2, near=4, strict=1, codes="2", kinds=("own",)), dict(n=2, near=5, strict=1, codes="12", kinds=("own",), cli="8815"), dict(n=3, near=2, codes="2", kinds=("own",), cli="1", again=1), dict(n=2, near=3, cuts=1, codes="2", kinds=("own", "bad"), how=("cols", "bytes"), raw="latin-1")],
         thorough=[dict(n=2, header=1), dict(n=3, codes="12", how=("short", "status")), dict(n=2, msg="废", enc="gbk", cuts=2, codes="2", how=("short",)), dict(n=4, near=2, codes="2"), dict(n=2, near=25, cuts=3, eol="\r\n", codes="2")]),
    dict(name="results", fn=results, covers=("refused", "untouched"), bounds="result files of 1-3 lines visible in two or three pieces cut at any byte",
         quick=[dict(n=1, msg="m1"), dict(n=1, header=1, who=("own",), kinds="1", states="1"), dict(n=2, msg="资", who=("own", "bad"), kinds="1", states="1"), dict(n=1, cuts=2, msg="资", enc="gbk", who=("own",), kinds="1", states="1")],
         thorough=[dict(n=2, msg="资"), dict(n=3, who=("own", "second", "bad"), states="1"), dict(n=2, cuts=2, kinds="1"), dict(n=2, msg="资金", enc="gbk", cuts=2, who=("own", "second"), states="1", kinds="1")]),
]
ASSUMPTIONS = ["the broker only appends to its files", "an order refused in the result file gets no lines in the update file"]
