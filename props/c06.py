"""C06: the event queue"""


class Item:
    def __init__(self, n, key):
        self.n, self.key = n, key


class Empty(Item):
    """an item that counts as false, and says it equals every other one"""

    def __len__(self):
        return 0

    def __eq__(self, other):
        return True

    __hash__ = None


def item(w, p, n, key):
    return Empty(n, key) if p.get("odd") and w.conc_bool(w.bool("odd")) else Item(n, key)


def le(w, a, b):
    """lexicographic a <= b over tuples of numbers"""
    r = True
    for x, y in reversed(list(zip(a, b))):
        r = w.Or(x < y, w.And(x == y, r))
    return r


def history(w, p):
    qm = w.mod("jqtrade.scheduler.queue")
    q = getattr(qm, p["cls"])()
    waiting = []
    pushed = 0
    popped = 0
    for i in range(p["steps"]):
        op = w.choice("op", ["push", "pop", "top"] if p["peek"] else ["push", "pop"])
        if op == "push":
            key = tuple(w.int("key%d" % k) for k in range(p["width"]))
            it = item(w, p, pushed, key)
            pushed += 1
            q.push(it, key)
            waiting.append(it)
        else:
            got, err = w.attempt(q.pop if op == "pop" else q.top)
            if not waiting:
                w.check(err is not None and isinstance(err, qm.QueueEmptyError), "an empty queue signals emptiness")
                w.cover("empty")
            else:
                w.check(err is None, "no error while items are waiting", err)
                w.check(any(got is x for x in waiting), "what comes out was pushed and not yet taken")
                w.check(w.And(*[le(w, got.key, x.key) for x in waiting]), "what comes out has the smallest key")
                w.observe(op, got.n)
                if op == "pop":
                    waiting = [x for x in waiting if x is not got]
                    popped += 1
        w.check(bool(q.empty()) == (not waiting), "empty() tells whether items are waiting")
    if popped >= 2:
        w.cover("two popped")
    # drain: everything pushed comes out exactly once, in key order
    last = None
    while waiting:
        got, err = w.attempt(q.pop)
        w.check(err is None, "nothing is lost", err)
        w.check(any(got is x for x in waiting), "nothing comes out twice")
        w.check(last is None or le(w, last, got.key), "items come out in key order")
        last = got.key
        waiting = [x for x in waiting if x is not got]
    w.check(isinstance(w.raises(q.pop), qm.QueueEmptyError), "a drained queue is empty")
    w.check(isinstance(w.raises(q.top), qm.QueueEmptyError), "peeking a drained queue signals emptiness")


def pushes(w, p):
    """n pushes, then all pops"""
    qm = w.mod("jqtrade.scheduler.queue")
    q = getattr(qm, p["cls"])()
    waiting = []
    for i in range(p["n"]):
        key = tuple(w.int("key%d" % k) for k in range(p["width"]))
        it = item(w, p, i, key)
        q.push(it, key)
        waiting.append(it)
    for i in range(p["n"]):
        top = q.top()
        got = q.pop()
        w.check(got is top, "peek shows what pop returns")
        w.check(any(got is x for x in waiting), "each item comes out once")
        w.check(w.And(*[le(w, got.key, x.key) for x in waiting]), "smallest key first")
        w.observe("pop", got.n)
        waiting = [x for x in waiting if x is not got]
    w.check(q.empty(), "queue is empty at the end")


SCENARIOS = [
    dict(name="history", fn=history, covers=("empty", "two popped"),
         bounds="all sequences of push/pop(/peek) of the given length, then a drain; unbounded integer keys; items that count as true or false",
         quick=[dict(cls=c, steps=5, width=1, peek=True) for c in ("PriorityQueue", "ThreadSafeQueue")] +
               [dict(cls="ThreadSafeQueue", steps=6, width=1, peek=False)] +
               [dict(cls=c, steps=4, width=1, peek=True, odd=1) for c in ("PriorityQueue", "ThreadSafeQueue")],
         thorough=[dict(cls=c, steps=6, width=1, peek=True) for c in ("PriorityQueue", "ThreadSafeQueue")] +
                  [dict(cls="ThreadSafeQueue", steps=5, width=2, peek=True), dict(cls="ThreadSafeQueue", steps=7, width=1, peek=False)]),
    dict(name="pushes", fn=pushes, bounds="n pushes then n pops, unbounded integer (pair) keys",
         quick=[dict(cls="ThreadSafeQueue", n=4, width=2), dict(cls="PriorityQueue", n=4, width=1), dict(cls="ThreadSafeQueue", n=3, width=1, odd=1)],
         thorough=[dict(cls="ThreadSafeQueue", n=5, width=2), dict(cls="PriorityQueue", n=7, width=1)]),
]
ASSUMPTIONS = ["heapq (C) is executed as is over symbolic keys"]
