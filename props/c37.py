"""C37: the event queue used by several threads.  Each thread's operations run as far as the schedule says; the history
of results must be one that some order of the operations, consistent with what came before what, explains."""
import itertools

from .c06 import le, Item
from sx import threads


def explained(w, ops, waiting):
    """is there an order of the remaining operations that gives their results?"""
    if not ops:
        return True
    alts = []
    first_end = min(o["end"] for o in ops)
    for o in ops:
        if o["start"] > first_end:
            continue                         # another operation was over before this one began
        rest = [x for x in ops if x is not o]
        if o["op"] == "push":
            alts.append(explained(w, rest, waiting + [o["item"]]))
        elif o["op"] == "empty":
            if bool(o["got"]) == (not waiting):
                alts.append(explained(w, rest, waiting))
        elif o["got"] is None:
            if not waiting:
                alts.append(explained(w, rest, waiting))
        elif any(o["got"] is x for x in waiting):
            left = [x for x in waiting if x is not o["got"]] if o["op"] == "pop" else waiting
            alts.append(w.And(*([le(w, o["got"].key, x.key) for x in waiting] + [explained(w, rest, left)])))
    return w.Or(*alts) if alts else False


def several(w, p):
    s = threads.Scheduler(w, p["switches"])
    for n, m in s.modules().items():
        w.extra_env[n] = w.env[n] = m
    qm = w.mod("jqtrade.scheduler.queue")
    q = s.share(getattr(qm, "ThreadSafeQueue"))()
    ops = []
    n = [0]

    def new_item():
        key = tuple(w.int("key%d" % k) for k in range(p.get("width", 1)))
        n[0] += 1
        return Item(n[0], key)
    for i in range(p.get("before", 0)):
        it = new_item()
        start = s.tick()
        q.push(it, it.key)
        ops.append(dict(op="push", item=it, start=start, end=s.tick()))
    plans = [[w.choice("op", p.get("ops", ["push", "pop"])) if x == "?" else {"u": "push", "o": "pop", "t": "top", "e": "empty"}[x] for x in plan] for plan in p["plans"]]
    items = [[new_item() if x == "push" else None for x in plan] for plan in plans]

    def thread(plan, its):
        def body():
            for x, it in zip(plan, its):
                o = dict(op=x, item=it, start=s.tick(), got=None)
                if x == "push":
                    got, err = w.attempt(lambda: q.push(it, it.key))
                elif x == "empty":
                    got, err = w.attempt(q.empty)
                else:
                    got, err = w.attempt(q.pop if x == "pop" else q.top)
                o["end"] = s.tick()
                if err is not None:
                    w.check(isinstance(err, qm.QueueEmptyError) and x in ("pop", "top"), "no operation fails because of another thread", err)
                else:
                    o["got"] = got
                    w.check(x in ("push", "empty") or isinstance(got, Item), "what comes out is an item", got)
                ops.append(o)
        return body
    done = s.run([thread(a, b) for a, b in zip(plans, items)])
    w.check(done, "the threads never block each other for ever")
    if s.used:
        w.cover("switched")
    # afterwards one thread alone takes what is left
    while True:
        start = s.tick()
        got, err = w.attempt(q.pop)
        ops.append(dict(op="pop", item=None, got=got, start=start, end=s.tick()))
        if err is not None:
            w.check(isinstance(err, qm.QueueEmptyError), "a drained queue signals emptiness", err)
            break
        w.check(len(ops) < 40, "the queue can be drained")
    for o in ops:
        if o["op"] in ("pop", "top"):
            w.observe(o["op"], o["got"].n if o["got"] is not None else None)
    out = [o["got"] for o in ops if o["op"] == "pop" and o["got"] is not None]
    w.check(all(a is not b for a, b in itertools.combinations(out, 2)), "no item comes out twice")
    w.check(len(out) == n[0], "no item is lost", (len(out), n[0]))
    w.check(explained(w, ops, []), "the results are those of some order of the operations")


SCENARIOS = [
    dict(name="several", fn=several, covers=("switched",),
         bounds="two or three threads of one to three operations each (push, pop, top, empty) after 0-2 pushes, up to the given number of switches at any access to the queue's state, any integer keys",
         quick=[dict(plans=["uo", "uo"], before=0, switches=2), dict(plans=["oo", "u"], before=1, switches=2), dict(plans=["u", "o", "o"], before=1, switches=2),
                dict(plans=["?", "?"], ops=["push", "pop", "top", "empty"], before=1, switches=3)],
         thorough=[dict(plans=["uo", "uo"], before=1, switches=2), dict(plans=["oo", "uu"], before=1, switches=2), dict(plans=["to", "uo"], before=1, switches=2),
                   dict(plans=["uo", "uo"], before=0, switches=2, width=2), dict(plans=["o", "o"], before=2, switches=4), dict(plans=["?", "?"], ops=["push", "pop", "top", "empty"], before=2, switches=3)]),
]
ASSUMPTIONS = ["a switch happens between accesses to the queue's attributes and containers, never inside a C-level call (the global interpreter lock)", "at most the given number of switches away from a thread that could go on"]
