"""C40: file operations that fail (full disk, I/O error, missing permission)"""
from . import lib
from .c16 import STATUS

ERRORS = [(28, "No space left on device"), (13, "Permission denied"), (5, "Input/output error")]
NOT_DATA = ("open", "read", "create", "truncate", "rename", "mkdir", "remove")


class State:
    def __init__(self):
        self.done, self.last, self.failed = {}, {}, 0
        self.maybe = {}


def lines(d, kind):
    rows = d.rows(kind)
    return [] if rows is None else [r["custBatchNo"] for r in rows]


def fail(w, d, n, p):
    """from now on one file operation fails, and the later ones of the same call too or not"""
    w.fault_hit, w.fault_n = False, 0
    w.fault_at = w.int("op%d" % n, 0, p.get("ops", 12))
    w.fault_error = w.choice("error%d" % n, p.get("errors") or [ERRORS[0]])
    w.fault_under = w.choice("where%d" % n, [None, d.dir, d.rt])
    w.fault_last = w.conc_bool(w.bool("lasting%d" % n))
    # a write that fails once and succeeds on the spot is no failure the process can see through
    w.fault_kinds = None if w.fault_last else NOT_DATA


def heal(w):
    if w.fault_hit:
        w.cover("failed")
    w.fault_at = None


def step(w, d, s, k, n, p, faulty):
    at = "during a failing file operation" if faulty else "afterwards"
    if s == "b":
        if k.done:
            ids = list(k.done)
            i = ids[w.pick("of%d" % n, 0, len(ids) - 1)] if len(ids) > 1 else ids[0]
            st = w.char("status%d" % n, p.get("codes", "24"))
            fl, fv = lib.two(w, "filled%d" % n)
            d.add("orderUpdate", lib.update_line(w, i, status=st, filled=fl, text="m%d" % n))
            k.last[i] = (st, fv, "m%d" % n)
        return
    before, stops = whole(w, d, "algoOrder"), whole(w, d, "algoOrderStop")
    if faulty:
        fail(w, d, n, p)
    if s == "o":
        amount = w.int("amount%d" % n, 1, 9999)
        i, err = w.attempt(d.api.order, "000001.XSHE", amount, None)
        heal(w)
        w.check(err is None, "order does not raise " + at, err)
        got = whole(w, d, "algoOrder")
        if i is None:
            w.check(faulty and w.fault_hit, "an order is refused only when an operation failed", at)
            w.check(got == before, "a refused order is not in the order file", (before, got))
            k.failed += 1
            w.cover("refused")
        else:
            w.check(got == before + [i], "an order with an id is in the order file once", (before, got, i))
            k.done[i] = amount
            w.cover("accepted")
    elif s == "c":
        i = list(k.done)[0] if k.done else None
        known = i is not None and i in d.api.get_orders()
        err = w.raises(d.api.cancel_order, i) if i else None
        heal(w)
        w.check(err is None, "cancelling does not raise " + at, err)
        got = whole(w, d, "algoOrderStop")
        w.check(got == (stops + [i] if known else stops) if not (faulty and w.fault_hit) else got in (stops, stops + [i]), "the cancel is in the file once, or not at all when an operation failed", (stops, got))
        w.check(whole(w, d, "algoOrder") == before, "the order file is untouched")
    elif s == "s":
        err = w.raises(d.api.sync_orders)
        heal(w)
        w.check(err is None, "synchronising does not raise " + at, err)
        w.check(whole(w, d, "algoOrder") == before, "the order file is untouched")
        w.check(not [i for i in k.done if i not in d.api.get_orders()], "no order is forgotten")
    w.check(not w.locks.held, "no lock is kept", w.locks.held)


def whole(w, d, kind):
    """ids in the file; a file that was only created holds nothing"""
    t = d.text(kind)
    if t is None or not w.text_len(t):
        return []
    return lines(d, kind)


def judge(w, d, k, when):
    book = d.api.get_orders()
    for i, amount in k.done.items():
        w.check(i in book, "an accepted order is found " + when, (i, list(book)))
        o = book[i]
        w.check(o.amount == amount, "with its amount")
        if i in k.last:
            st, fv, msg = k.last[i]
            w.check(w.And(w.eq(o.status, STATUS[w.conc(st)]), o.filled_amount == fv, w.eq(o.err_msg, msg)), "as the broker's file says, " + when, (o.status, o.filled_amount, k.last[i]))
        else:
            w.check(o.status == "new", "in its first state", o.status)
    rest = [o for i, o in book.items() if i not in k.done and i not in k.maybe]
    w.check(all(o.status == "rejected" for o in rest), "nothing else looks alive", [(o.order_id, o.status) for o in rest])


def failing(w, p):
    d = lib.Dma(w)
    k = State()
    plan = p["plan"]
    bad = [n for n in range(len(plan)) if plan[n] in "ocs"]
    which = bad[w.pick("which", 0, len(bad) - 1)] if "at" not in p else p["at"]
    for n, s in enumerate(plan):
        safe = list(k.done)
        step(w, d, s, k, n, p, n == which)
        if n == which and p.get("restart"):
            # the process ends before the disk works again; what had been saved before is not damaged
            w.restart()
            d = lib.Dma(w)
            for i in list(k.done):
                if i not in safe:
                    (k.maybe if i not in d.api.get_orders() else k.done).setdefault(i, k.done[i])
            for i in k.maybe:
                k.done.pop(i, None)
            w.cover("restarted")
    # the disk works again
    step(w, d, "s", k, 70, p, False)
    judge(w, d, k, "after the failure")
    step(w, d, "o", k, 71, p, False)
    step(w, d, "b", k, 72, p, False)
    step(w, d, "s", k, 73, p, False)
    judge(w, d, k, "later")
    w.restart()
    d = lib.Dma(w)
    step(w, d, "s", k, 80, p, False)
    judge(w, d, k, "after a restart")
    w.cover("recovered")


SCENARIOS = [
    dict(name="failing", fn=failing, covers=("failed", "refused", "accepted", "recovered"),
         bounds="plans of up to 5 steps (order, broker report, synchronise, cancel), during any one of which the file operation number 0..ops fails, alone or with all later ones of that call, on every disk or only below the order directory or the runtime directory",
         quick=[dict(plan="o"), dict(plan="obs", errors=ERRORS), dict(plan="oc", at=1), dict(plan="obso", at=3), dict(plan="oo", at=1, restart=1), dict(plan="obs", at=2, restart=1)],
         thorough=[dict(plan="obs", errors=ERRORS, codes="0128"), dict(plan="obosc"), dict(plan="osbso"), dict(plan="obsbs"), dict(plan="obso", restart=1), dict(plan="obsc", restart=1, errors=ERRORS)]),
]
ASSUMPTIONS = ["a failing operation has no effect at all (no partial writes)", "a failing write stays failing until the call returns; opening, reading, creating and renaming may fail once"]
