"""C42: what the log reports"""
from . import lib

US, DAY = lib.US, lib.DAY
FINISHED = ("filled", "partly_canceled", "canceled", "rejected")
STATUS = ("new", "open", "filling", "filled", "canceling", "partly_canceled", "canceled", "rejected")
WORDS = {"open": ["已报"], "filling": ["部分成交"], "filled": ["全部成交"], "canceling": ["撤单已报"], "partly_canceled": ["已撤单"], "canceled": ["已撤单"], "rejected": ["废单"]}


class Log:
    """the standard output of a process that logs there"""

    def __init__(self, w, level="INFO"):
        self.w = w
        w.use_logging()
        w.mod("jqtrade.common.log").setup_logger(level)
        self.at = 0

    def new(self):
        t = "".join(self.w.stdout)
        old, self.at = self.at, len(t)
        return t[old:]

    def records(self):
        """the records since the last call: the line with the level and what follows it"""
        out = []
        for l in self.new().split("\n"):
            if self.w.conc_bool(self.w.And(self.w.eq(l[:1], "["), l.find("] [") > 0)):
                out.append(l)
            elif out:
                out[-1] = out[-1] + "\n" + l
        return out


def errors(recs):
    return [r for r in recs if r[:r.find("] [") + 40].find("[ERROR]") >= 0 or r[:r.find("] [") + 40].find("[CRITICAL]") >= 0]


def reported(w, log, failed, marks, what):
    bad = errors(log.records())
    if not failed:
        w.check(not bad, "nothing is reported for what succeeds", (what, bad))
        return
    w.check(len(bad) >= 1, "the failure is reported as an error", what)
    for m in marks:
        hit = [r for r in bad if r.find(m) >= 0]
        w.check(len(hit) == 1, "one report, with the cause", (what, m, bad))


def failures(w, p):
    """operations that fail inside the account"""
    w.set_now(10 * 3600 * US)
    log = Log(w)
    a = lib.Acc(w)
    g = a.gate
    known = a.api.order("600000.XSHG", 100)
    log.new()
    bad = {}

    def answer(what, fine):
        def f(*args):
            if what in bad:
                raise bad[what]
            return fine()
        return f
    cash = dict(total_asset=1, available_cash=1, locked_cash=0)
    reply = {"balance": dict(cash=cash, positions=[]), "orders": []}
    g.on_order = answer("order", lambda: None)
    g.on_cancel = answer("cancel", lambda: None)
    g.on_balance = answer("balance", lambda: reply["balance"])
    g.on_orders = answer("orders", lambda: reply["orders"])
    for n in range(p["n"]):
        op = w.choice("op%d" % n, p["ops"])
        fails = w.conc_bool(w.bool("fails%d" % n))
        mark = "E%d<" % n + w.textv("why%d" % n, 0, p.get("len", 1), "a%{\n") + ">"
        err = w.choice("type%d" % n, [RuntimeError, OSError, ValueError][:p.get("types", 1)])(mark)
        bad.clear()
        reply["balance"] = dict(cash=cash, positions=[])
        reply["orders"] = []
        marks = [mark]
        if op in ("order", "cancel", "balance", "orders"):
            if fails:
                bad[op] = err
            if op == "order":
                w.check((a.api.order("600000.XSHG", 100) is None) == fails, "as refused", op)
            elif op == "cancel":
                a.api.cancel_order(known)
            elif op == "balance":
                a.api.sync_balance()
            else:
                a.api.sync_orders()
        elif op == "unknown":
            a.api.cancel_order(known if not fails else "999%d" % n)
            marks = ["999%d" % n]
        elif op == "batch":
            ids = a.api.batch_submit_orders([dict(code="600000.XSHG", amount=100), dict(code="60000%d.BAD" % n if fails else "000001.XSHE", amount=100)])
            w.check((ids[1] is None) == fails, "as refused", ids)
            marks = ["60000%d.BAD" % n]
        elif op == "batch refused":
            if fails:
                bad["order"] = err
            a.api.batch_submit_orders([dict(code="600000.XSHG", amount=100)])
        elif op == "no cash":
            if fails:
                reply["balance"] = dict(positions=[])
            a.api.sync_balance()
            marks = ["trade_gate.sync_balance未返回资金数据"]
        elif op == "bad order":
            if fails:
                reply["orders"] = [dict(order_id="55", code="600000.XSHG", price=1, amount=100, action="open", status="no such %d" % n, style="limit")]
            a.api.sync_orders()
            marks = ["no such %d" % n]
        reported(w, log, fails, marks, op)
        w.cover("failed" if fails else "fine")


def timer(w, p):
    """synchronisation failing on the timer: reported each time, and only then"""
    w.set_now(10 * 3600 * US - US)
    log = Log(w)
    g = lib.Gate(w)
    fails, n = [], [0]

    def answer(what, fine):
        def f():
            if not n[0]:
                return fine
            k = len(fails)
            fails.append(k < p["n"] and w.conc_bool(w.bool("fails%d" % k)))
            if fails[-1]:
                w.cover("failed")
                raise RuntimeError("E%d<>" % k)
            w.cover("fine")
            return fine
        return f
    g.on_balance = answer("balance", dict(cash=dict(total_asset=1, available_cash=1, locked_cash=0), positions=[]))
    g.on_orders = answer("orders", [])
    run = lib.Run(w, lambda r: r.set_options(account_no="1001", sync_internal=60, sync_balance=p["balance"], sync_order=p["order"]))
    run.setup()
    n[0] = 1
    log.new()
    run.run(horizon=(10 * 3600 + p["minutes"] * 60) * US)
    bad = errors(log.records())
    w.check(len(bad) == len([f for f in fails if f]), "one report for each failure", (fails, bad))
    for k, f in enumerate(fails):
        w.check(len([r for r in bad if r.find("E%d<>" % k) >= 0]) == (1 if f else 0), "with its cause", (k, bad))
    w.check(len(fails) >= p["minutes"], "synchronisation goes on", fails)


def lines(w, p):
    """lines of the broker's files that cannot be read: reported once each"""
    w.set_now(10 * 3600 * US)
    log = Log(w)
    d = lib.Dma(w)
    ids = [d.api.order("600000.XSHG", 100) for _ in range(2)]
    d.api.sync_orders()
    log.new()
    expect = 0
    for n in range(p["n"]):
        kind = w.choice("kind%d" % n, p["kinds"])
        i = ids[n % 2]
        if kind == "update":
            d.add("orderUpdate", lib.update_line(w, i, status=w.choice("status%d" % n, ["0", "1", "2", "4"])))
        elif kind == "status":
            c = w.char("status%d" % n, "xyz-")
            d.add("orderUpdate", lib.update_line(w, i, status=c))
            expect += 1
        elif kind == "number":
            d.add("orderUpdate", lib.update_line(w, i, status="1", filled="x"))
            expect += 1
        elif kind == "short":
            d.add("orderUpdate", "093001.000000,20240110\n")
            expect += 1
        elif kind == "refused":
            d.add("execResult", lib.result_line(w, i))
        elif kind == "result":
            d.add("execResult", "093001.000000,1\n")
            expect += 1
        elif kind in ("cut update", "cut result"):
            # complete lines with any smaller number of columns
            t = lib.update_line(w, i, status="2", filled="100") if kind == "cut update" else lib.result_line(w, i)
            cols = t.strip().split(",")
            d.add("orderUpdate" if kind == "cut update" else "execResult", ",".join(cols[:w.pick("columns%d" % n, 1, len(cols) - 1)]) + "\n")
            expect += 1
        elif kind == "part":
            d.add("orderUpdate", "093001.0000")
        if n + 1 < p["n"] and kind != "part" and not w.conc_bool(w.bool("sync%d" % n)):
            continue
        if kind == "part":
            d.api.sync_orders()
            recs = errors(log.records())
            w.check(len(recs) == expect, "an unfinished line is not reported", recs)
            d.add("orderUpdate", "00,20240110\n")
            expect = 1
        d.api.sync_orders()
        recs = errors(log.records())
        w.check(len(recs) == expect, "each unreadable line is reported once, nothing else", (expect, recs))
        w.cover("unreadable" if expect else "fine")
        expect = 0
        if kind[:3] == "cut":
            w.check(all(d.api.get_orders()[x].status == "new" for x in ids), "and has no effect", [o.status for o in d.api.get_orders().values()])
        d.api.sync_orders()
        w.check(not errors(log.records()), "and not again")


def files(w, p):
    """the asset and position files: reported when they cannot be read, after the retries"""
    w.set_now(10 * 3600 * US)
    log = Log(w)
    d = lib.Dma(w, sync_retry_kwargs=dict(max_attempts=w.pick("attempts", 0, p.get("attempts", 2)), attempt_internal=0))
    log.new()
    H = lib.HEADERS
    day = d.day()
    for n in range(p["n"]):
        what = w.choice("what%d" % n, p["what"])
        def body(kind, row):
            return H[kind] + "\n" + row + "\n" + "," * H[kind].count(",") + "\n"
        assets = body("assetInfo", "093000,UM0,%s,,1,%s,3,4" % ("1001" if what != "no account" else "77", "2" if what != "bad" else "x"))
        pos = body("positionInfo", "093000,UM0,1001,000001.SZ,100,%s,1,1,1" % ("100" if what != "position" else "x"))
        if what == "empty":
            assets = ""
        if what == "half":
            pos = pos[:len(pos) // 2]
        w.write_file(d.dir + "/assetInfo_" + day + ".csv", assets)
        w.write_file(d.dir + "/positionInfo_" + day + ".csv", pos)
        d.api.sync_balance()
        bad = errors(log.records())
        if what == "fine":
            w.check(not bad, "nothing is reported for complete files", bad)
        else:
            w.check(len(bad) >= 1, "files that cannot be read are reported", what)
            if what == "no account":
                w.check(any(r.find("trade_gate.sync_balance未返回资金数据") >= 0 for r in bad), "as documented", bad)
        w.cover(what)


def expected(local, remote, more, other):
    """how many notices: (least, most)"""
    if local in FINISHED or remote == "new":
        return 0, 0
    if remote == "open":
        return (1, 1) if local == "new" else (0, 0)
    if remote != local:
        return 1, 1
    if remote == "filling":
        return (1, 1) if more else (0, 1) if other else (0, 0)
    return 0, 0


def notices(w, p):
    """an order's progress is announced once, with its numbers"""
    w.set_now(10 * 3600 * US)
    log = Log(w)
    a = lib.Acc(w)
    ids = [a.api.order(c, 4321) for c in ("600000.XSHG", "000001.XSHE")[:p.get("orders", 1)]]
    log.new()
    local = {i: ("new", 0) for i in ids}
    for n in range(p["n"]):
        reply, expect = [], {}
        for k, i in enumerate(ids):
            if p.get("orders", 1) > 1 and not w.conc_bool(w.bool("in%d.%d" % (n, k))):
                continue
            st = w.choice("status%d.%d" % (n, k), p["status"])
            was, had = local[i]
            filled = w.choice("filled%d.%d" % (n, k), [1111, 2222]) if st in ("filling", "partly_canceled", "canceling") else 4321 if st == "filled" else had if st in ("open",) else 0
            info = dict(order_id=i, code=("600000.XSHG", "000001.XSHE")[k], price=0, amount=4321, action="open", status=st, style="market", side="long", filled_amount=filled,
                        canceled_amount=w.choice("cancelled%d.%d" % (n, k), [4321 - filled, 0]) if st in ("partly_canceled", "canceled") and p.get("orders", 1) == 1 else 0, deal_balance=filled * 2, avg_cost=2 if filled else 0,
                        err_msg="because %d" % n if st == "rejected" else "")
            reply.append(info)
            expect[i] = (expected(was, st, filled != had, (filled, was) != (had, st) or n == 0), info)
            local[i] = (st, filled)
        a.gate.on_orders = lambda: [dict(x) for x in reply]
        a.api.sync_orders()
        recs = log.records()
        for i in ids:
            mine = [r for r in recs if r.find(i) >= 0]
            (least, most), info = expect.get(i, ((0, 0), None))
            w.check(least <= len(mine) <= most, "announced once when it changes, not otherwise", (info, mine))
            for r in mine:
                st = info["status"]
                words = WORDS[st] if st != "open" else ["订单已报"]
                for x in words + ([str(info["filled_amount"])] if st in ("filling", "filled", "partly_canceled") else []) \
                        + ([str(info["canceled_amount"])] if st in ("partly_canceled", "canceled") else []) + ([info["err_msg"]] if st == "rejected" else []) \
                        + ([info["code"], "4321"] if st != "canceling" else []):
                    w.check(r.find(x) >= 0, "with its numbers", (x, r))
                w.cover(st)
            if not mine:
                w.cover("silent")
        a.api.sync_orders()
        w.check(not [r for r in log.records() if any(r.find(i) >= 0 for i in ids)], "an unchanged answer announces nothing")


OPS = ["order", "cancel", "balance", "orders", "unknown", "batch", "batch refused", "no cash", "bad order"]
SCENARIOS = [
    dict(name="failures", fn=failures, covers=("failed", "fine"), bounds="1-3 operations of nine kinds failing or not, causes with a symbolic character (including % and {)",
         quick=[dict(n=1, ops=OPS, types=3), dict(n=2, ops=["order", "balance", "orders", "cancel"], len=0)],
         thorough=[dict(n=1, ops=OPS, types=3, len=2), dict(n=2, ops=OPS), dict(n=3, ops=["order", "balance", "orders", "cancel"], len=0)]),
    dict(name="timer", fn=timer, covers=("failed", "fine"), bounds="the synchronisation timer for some minutes, any of the first n calls failing",
         quick=[dict(n=5, minutes=3, balance=True, order=True)], thorough=[dict(n=8, minutes=5, balance=True, order=True), dict(n=6, minutes=6, balance=True, order=False), dict(n=6, minutes=6, balance=False, order=True)]),
    dict(name="lines", fn=lines, covers=("unreadable", "fine"), bounds="1-4 lines of the broker's order files, readable or not, synchronised after any of them",
         quick=[dict(n=2, kinds=["update", "status", "number", "short", "refused", "result", "part"]), dict(n=1, kinds=["cut update", "cut result"])],
         thorough=[dict(n=3, kinds=["update", "status", "number", "short", "refused", "result", "part"]), dict(n=4, kinds=["update", "status", "result"])]),
    dict(name="files", fn=files, covers=("fine", "bad", "no account"), bounds="one or two contents of the asset and position files, 0-2 retries",
         quick=[dict(n=2, what=["fine", "bad", "empty", "no account", "position", "half"], attempts=1)], thorough=[dict(n=3, what=["fine", "bad", "empty", "no account", "position", "half"], attempts=2)]),
    dict(name="notices", fn=notices, covers=("open", "filling", "filled", "canceling", "partly_canceled", "canceled", "rejected", "silent"), bounds="1-2 orders, 2-3 synchronisations with any sequence of statuses",
         quick=[dict(n=2, status=STATUS), dict(n=2, status=["open", "filling", "filled"], orders=2)], thorough=[dict(n=3, status=STATUS), dict(n=2, status=STATUS, orders=2)]),
]
ASSUMPTIONS = ["the log goes to standard output at the INFO level, as when a task is started without -o"]
