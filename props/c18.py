"""C18: the calendar day changes while the process runs"""
from . import lib
from .c16 import STATUS, snap


def files_of_day(w, d):
    for kind in ("orderUpdate", "execResult"):
        if not w.exists(d.file(kind)):
            w.write_file(d.file(kind), lib.HEADERS[kind] + "\n")


def report(w, d, oid, name, p, refuse=False):
    """the broker reports on an order; returns the expected (status, quantity, message)"""
    if refuse:
        d.add("execResult", lib.result_line(w, oid, "1", "1", "17", name))
        return ("rejected", None, name)
    out = None
    for k in range(w.pick(name + ".lines", p.get("minl", 0), p.get("maxl", 2))):
        st = w.char("%s.status%d" % (name, k), "12")
        fl, fv = lib.two(w, "%s.filled%d" % (name, k))
        d.add("orderUpdate", lib.update_line(w, oid, status=st, filled=fl, text=name, date=d.day()))
        out = (st, fv, name)
    return out


def expect(w, book, oid, want, what):
    w.check(oid in book, what + " is known", list(book))
    o = book[oid]
    if want is None:
        w.check(o.status == "new", what + " has no report yet", o.status)
    elif want[0] == "rejected":
        w.check(o.status == "rejected", what + " is refused", o.status)
    else:
        w.check(w.And(w.eq(o.status, STATUS[w.conc(want[0])]), o.filled_amount == want[1], w.eq(o.err_msg, want[2])), what + " has the state of its last line", (snap(o), want))


def midnight(w, p):
    """orders on one day and on a later one, reports of any length on both, optionally a restart on the later day"""
    start = w.int("start", 0, lib.DAY * lib.US - 1)
    w.set_now(start)
    d = lib.Dma(w, start=lib.base(w))
    book = d.api.get_orders()
    first, w1 = [], {}
    for k in range(p.get("first", 1)):
        i = d.api.order("000001.XSHE", 1000)
        first.append(i)
    for n, i in enumerate(first):
        w1[i] = report(w, d, i, "day0", p, refuse=p.get("refuse0") and n == len(first) - 1)
    if w.choice("sync before midnight", [True, False]) if p.get("maysync") else True:
        d.api.sync_orders()
        for i in first:
            expect(w, d.api.get_orders(), i, w1[i], "the order of the first day")
    else:
        w1 = None
    if p.get("cancel_both"):
        d.api.cancel_order(first[0])
        rows = d.rows("algoOrderStop")
        w.check(rows is not None and len(rows) == 1 and w.conc_bool(w.eq(rows[0]["custBatchNo"], first[0])), "a cancellation of the first day is in that day's file", rows)
    day = w.choice("days", p.get("days", [1, 3]))
    tod = w.int("tod", 0, lib.DAY * lib.US - 1)
    w.set_now(day * lib.DAY * lib.US + tod)
    if p.get("broker_late"):
        w.attempt(d.api.sync_orders)        # the broker has not started its files of the day yet
    files_of_day(w, d)
    if p.get("sync_first"):
        d.api.sync_orders()
    if p.get("cancel0"):
        # the first thing to happen on the new day is a cancellation
        d.api.cancel_order(first[0])
        rows = d.rows("algoOrderStop")
        w.check(rows is not None and len(rows) == 1 and w.conc_bool(w.eq(rows[0]["custBatchNo"], first[0])), "a cancellation of the new day is in the new day's file", rows)
    new = []
    for k in range(p.get("second", 1)):
        new.append(d.api.order("600000.XSHG", 500))
        w.check(new[-1] is not None, "the order is accepted")
    rows = d.rows("algoOrder")
    w.check(len(rows) == len(new) and all(w.conc_bool(w.eq(r["custBatchNo"], i)) for r, i in zip(rows, new)), "the orders of the new day are in the new day's file", rows)
    if p.get("cancel"):
        d.api.cancel_order(new[0])
        rows = d.rows("algoOrderStop")
        w.check(rows is not None and len(rows) == 1 and w.conc_bool(w.eq(rows[0]["custBatchNo"], new[0])), "so is the cancellation", rows)
    w2 = {}
    for n, i in enumerate(new):
        w2[i] = report(w, d, i, "new%d" % n, p, refuse=p.get("refuse") and n == 0)
    if p.get("restart"):
        if w.choice("sync before restart", [True, False]):
            d.api.sync_orders()
        w.restart()
        d = lib.Dma(w, start=lib.base(w))
    d.api.sync_orders()
    book = d.api.get_orders()
    for i in new:
        expect(w, book, i, w2[i], "the order of the new day")
    if not p.get("restart"):
        if w1 is not None:
            for i in first:
                expect(w, book, i, w1[i], "the order of the first day, later,")
        w.check(len(book) == len(first) + len(new), "no other orders", len(book))
    else:
        w.check(len(book) == len(new), "only this day's orders", len(book))
        w.cover("restarted")
    more = d.api.order("000002.XSHE", 100)
    w3 = report(w, d, more, "more", dict(minl=1, maxl=1))
    d.api.sync_orders()
    expect(w, d.api.get_orders(), more, w3, "a later order of the day")
    w.cover("next day")


def across(w, p):
    """the clock passes midnight while an order is being submitted"""
    before = w.int("before", 0, 5)
    w.set_now(lib.DAY * lib.US - 1 - before)
    d = lib.Dma(w, start=lib.base(w))
    w.uv_latency = None
    i = [None]

    def ev(e):
        # time passes between any two file operations
        if e[0] in ("open", "op", "close", "locked"):
            w.tick(w.int("pass", 0, 2))
    w.on_event = ev
    i = d.api.order("000001.XSHE", 100)
    w.on_event = None
    w.check(i is not None, "the order is accepted")
    days = [w.conc_bool(w.now_us() >= lib.DAY * lib.US)]
    w.set_now(lib.DAY * lib.US + 60 * lib.US)
    where = []
    for day in ("20240110", "20240111"):
        rows = d.rows("algoOrder", day)
        if rows:
            where.append(day)
            w.check(len(rows) == 1 and w.conc_bool(w.eq(rows[0]["custBatchNo"], i)), "submitted once", rows)
    w.check(len(where) == 1, "to exactly one day's file", where)
    w.check(where[0] == "20240110" or days[0], "not before that day", where)
    # a restart on the day of the file finds it
    w.set_now((0 if where[0] == "20240110" else 1) * lib.DAY * lib.US + (lib.DAY - 1) * lib.US)
    w.restart()
    d = lib.Dma(w, start=lib.base(w))
    files_of_day(w, d)
    d.add("orderUpdate", lib.update_line(w, i, status="2", filled=100))
    d.api.sync_orders()
    expect(w, d.api.get_orders(), i, ("2", 100, ""), "the order")
    w.cover("across")


def late(w, p):
    """a task due before midnight is run after it"""
    w.set_now((lib.DAY - 60) * lib.US)
    ids = []

    def init(r):
        r.run_daily(r.task("slow"), "23:59:30")
        r.run_daily(r.task("trade"), "23:59:%02d" % p["due"])
    d = lib.Dma(w, start=lib.base(w), init=init)

    def on_call(r, tag):
        if tag == "slow":
            w.tick(w.int("busy", 0, 120) * lib.US)
        else:
            ids.append((d.api.order("000001.XSHE", 100), w.now_us()))
            day = d.day()
            rows = d.rows("algoOrder", day)
            w.check(rows is not None and len(rows) == 1 and w.conc_bool(w.eq(rows[0]["custBatchNo"], ids[0][0])), "the order is in the file of the day it was given", rows)
            files_of_day(w, d)
            d.add("orderUpdate", lib.update_line(w, ids[0][0], status="2", filled=100, date=day))
            d.api.sync_orders()
            expect(w, d.api.get_orders(), ids[0][0], ("2", 100, ""), "the order")
            w.cover("late" if w.conc_bool(w.now_us() >= lib.DAY * lib.US) else "in time")
    d.run.on_call = on_call
    d.run.run(max_calls=2)
    w.check(len(ids) == 1, "the task ran")


def money(w, p):
    """balances are read from the files of the day"""
    w.set_now(w.int("start", 0, lib.DAY * lib.US - 1))
    d = lib.Dma(w, start=lib.base(w))
    for day in p["days"]:
        if day:
            w.set_now(day * lib.DAY * lib.US + w.int("tod%d" % day, 0, lib.DAY * lib.US - 1))
        total, cash = w.int("total%d" % day, 0, 99999), w.int("cash%d" % day, 0, 99999)
        qty = w.int("qty%d" % day, 1, 999)
        d.add("assetInfo", "".join([lib.HEADERS["assetInfo"], "\n093000,UM0,1001,,", w.tostr(cash), ",", w.tostr(cash), ",0,", w.tostr(total), "\n,,,,,,,\n"]))
        d.add("positionInfo", "".join([lib.HEADERS["positionInfo"], "\n093000,UM0,1001,000001.SZ,", w.tostr(qty), ",", w.tostr(qty), ",1,1,1\n,,,,,,,,\n"]))
        d.run.ctx.account.sync_balance()
        a = d.run.user_ctx.portfolio
        w.check(w.And(a.total_value == total, a.available_cash == cash), "the balance of the day", (a.available_cash, cash))
        w.check(w.And(a.long_positions["000001.XSHE"].total_amount == qty), "the positions of the day", a.long_positions)
        w.cover("balance")


SCENARIOS = [
    dict(name="midnight", fn=midnight, covers=("next day", "restarted"), bounds="1-2 orders with 0-2 report lines on a first day, 1-2 orders with 0-2 lines, cancellation or refusal one, three, 22, 31 or 366 days later, at any time of day, with and without a restart on that day",
         quick=[dict(), dict(restart=1, maxl=1), dict(maxl=1, cancel=1, second=2, refuse=1, days=[1]), dict(maxl=1, broker_late=1, sync_first=1, days=[1]), dict(first=2, maxl=1, maysync=1, days=[22]),
                dict(first=2, refuse0=1, maxl=1, days=[1], second=2, refuse=1), dict(minl=0, maxl=1, days=[31, 366]), dict(minl=0, maxl=0, cancel0=1, days=[1], second=1), dict(minl=0, maxl=0, cancel_both=1, cancel=1, days=[1, 30])],
         thorough=[dict(maxl=3, first=2), dict(restart=1, first=2, second=2, maxl=1), dict(maxl=2, cancel=1, second=2, refuse=1, maysync=1), dict(maxl=2, sync_first=1, restart=1, maysync=1)]),
    dict(name="across", fn=across, covers=("across",), bounds="the clock advances 0-2 microseconds at every file operation of a submission around midnight", quick=[dict()], thorough=[dict()]),
    dict(name="late", fn=late, covers=("late", "in time"), bounds="a task due 15 or 1 seconds before midnight held up for 0-120 seconds by the one before it", quick=[dict(due=45)], thorough=[dict(due=45), dict(due=59)]),
    dict(name="money", fn=money, covers=("balance",), bounds="a balance synchronisation on each of two or three days, the balance the first thing to happen on the later ones", quick=[dict(days=[0, 1])], thorough=[dict(days=[0, 1, 31])]),
]
ASSUMPTIONS = ["the clock does not run backwards"]
