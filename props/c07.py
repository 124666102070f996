"""C07: event bus"""


def classes(w):
    E = w.mod("jqtrade.scheduler.event")

    class A(E.Event):
        pass

    class B(A):
        pass

    class C(E.Event):
        pass

    class D(B):
        pass

    class F(D):
        pass

    class M(C, B):
        pass
    return [E.Event, A, B, C, D, F, M]


def result(tag):
    """what a callback returns: also nothing at all, and other values that count as false"""
    return (None, [tag], ("r", tag), False, 0, "", True)[tag % 7]


class Owner:
    """callbacks that are bound methods: every access makes another object, equal to the earlier ones"""

    def __init__(self, log, tag):
        self.log, self.tag = log, tag

    def cb(self, event):
        self.log.append((self.tag, event))
        return result(self.tag)


def callback(log, tag):
    def cb(event):
        log.append((tag, event))
        return result(tag)
    cb.__name__ = "cb_%s" % tag
    return cb


def ordered(w, regs):
    """registrations of one class in descending priority, then age"""
    out = []
    for r in regs:
        k = len(out)
        while k > 0 and w.conc_bool(out[k - 1][1] < r[1]):
            k -= 1
        out.insert(k, r)
    return out


def expect(w, live, cls, ev):
    """[(class, ordered callbacks)] for the classes the event belongs to, classes by first registration"""
    return {c: [t for t, _ in ordered(w, [(r[1], r[2]) for r in live if r[0] is c])] for c in cls if isinstance(ev, c)}


def judge(w, live, cls, ev, log, ret):
    want = expect(w, live, cls, ev)
    got = [t for t, _ in log]
    w.check(sorted(got) == sorted(t for v in want.values() for t in v), "exactly the registered callbacks are called, once per registration", (got, str(want)))
    w.check(all(e is ev for _, e in log), "callbacks receive the emitted event")
    w.check(list(ret) == [result(t) for t in got], "results are collected in calling order")
    return want, got


def priorities(w, p):
    """one class, arbitrary integer priorities, callbacks possibly registered more than once, one unregistration"""
    B = w.mod("jqtrade.scheduler.bus").EventBus()
    cls = classes(w)
    log = []
    cbs = [callback(log, t) for t in range(p["cbs"])]
    live = []
    for k in range(p["n"]):
        t = k if k < p.get("fixed", 0) else w.pick("cb%d" % k, 0, min(k, p["cbs"] - 1))
        pr = w.int("prio%d" % k, -3, 3) / p.get("parts", 1) if not p.get("default") or w.conc_bool(w.bool("given%d" % k)) else None
        if pr is None:
            B.register(cls[1], cbs[t])
            pr = 0
        else:
            B.register(cls[1], cbs[t], pr)
        live.append((cls[1], t, pr))
    if p.get("unreg"):
        t = w.pick("unreg", 0, p["cbs"] - 1)
        one = [r for r in live if r[1] == t]
        if len(one) <= 1:
            B.unregister(cls[1], cbs[t])
            live = [r for r in live if r[1] != t]
            w.cover("unregistered" if one else "not there")
    ev = cls[1]()
    ret = B.emit(ev)
    want, got = judge(w, live, cls, ev, log, ret)
    w.check(got == want[cls[1]], "descending priority, then registration order", (got, want[cls[1]]))
    w.observe("order", got)
    # emitting again gives the same
    del log[:]
    B.emit(ev)
    w.check([t for t, _ in log] == got, "emission does not change the registrations")


def methods(w, p):
    """bound methods registered at several priorities or for several classes, unregistered for one class"""
    B = w.mod("jqtrade.scheduler.bus").EventBus()
    cls = classes(w)
    log = []
    own = [Owner(log, t) for t in range(p["n"])]
    live = []
    for t in range(p["n"]):
        a, b = w.int("a%d" % t, -2, 2), w.int("b%d" % t, -2, 2)
        B.register(cls[1], own[t].cb, a)
        live.append((cls[1], t, a))
        how = w.choice("how%d" % t, ["once", "priority", "class"])
        if how == "priority":
            w.assume(w.Not(a == b))
            B.register(cls[1], own[t].cb, b)
            live.append((cls[1], t, b))
        elif how == "class":
            B.register(cls[0], own[t].cb, b)
            live.append((cls[0], t, b))
    for t in range(p["n"]):
        if w.conc_bool(w.bool("off%d" % t)):
            c = w.choice("from%d" % t, [1, 0])
            B.unregister(cls[c], own[t].cb)
            live = [r for r in live if not (r[0] is cls[c] and r[1] == t)]
            w.cover("unregistered")
    ev = cls[1]()
    ret = B.emit(ev)
    want, got = judge(w, live, cls, ev, log, ret)
    if not want.get(cls[0]):
        w.check(got == want[cls[1]], "descending priority, then registration order", (got, want))


def hierarchy(w, p):
    """registrations for classes and base classes; unregistration; emission of any class"""
    B = w.mod("jqtrade.scheduler.bus").EventBus()
    cls = classes(w)
    log = []
    live = []
    cbs = []
    for k in range(p["n"]):
        c = w.choice("cls%d" % k, p.get("classes", [0, 1, 2, 3]))
        cb = callback(log, k)
        cbs.append(cb)
        pr = w.int("prio%d" % k, -2, 2)
        B.register(cls[c], cb, pr)
        live.append((cls[c], k, pr))
    if p.get("unreg"):
        u = w.pick("ucb", 0, p["n"] - 1)
        c = w.choice("ucls", p.get("classes", [0, 1, 2, 3]))
        B.unregister(cls[c], cbs[u])
        w.cover("unregistered" if any(r[0] is cls[c] and r[1] == u for r in live) else "not there")
        live = [r for r in live if not (r[0] is cls[c] and r[1] == u)]
    e = w.choice("emit", p.get("classes", [0, 1, 2, 3]))
    ev = cls[e]()
    ret = B.emit(ev)
    want, got = judge(w, live, cls, ev, log, ret)
    for c, tags in want.items():
        w.check([t for t in got if t in tags] == tags, "descending priority, then registration order, within a class", (got, tags))
    w.observe("order", got)
    if got:
        w.cover("called")


def reentrant(w, p):
    """a callback changes the registrations while the event is being delivered; the others are still called"""
    B = w.mod("jqtrade.scheduler.bus").EventBus()
    cls = classes(w)
    log = []
    n = p["n"]
    who = w.pick("who", 0, n - 1)
    what = w.choice("what", ["unregister", "register"])
    cbs = []

    def make(k):
        def cb(event):
            log.append(k)
            if k == who and len(log) <= n:
                if what == "unregister":
                    B.unregister(cls[1], cbs[k])
                else:
                    B.register(cls[3], late)
            return k
        cb.__name__ = "cb%d" % k
        return cb

    def late(event):
        log.append("late")
    for k in range(n):
        cbs.append(make(k))
        B.register(cls[1], cbs[k], w.int("prio%d" % k, 0, 2))
    B.emit(cls[1]())
    w.check(sorted(log) == list(range(n)), "every registered callback is called", log)
    del log[:]
    B.emit(cls[1]())
    w.check(sorted(log) == [k for k in range(n) if what == "register" or k != who], "the next emission sees the change", log)
    w.cover(what)


SCENARIOS = [
    dict(name="priorities", fn=priorities, covers=("unregistered", "not there"), bounds="n registrations of up to `cbs` callbacks for one class, every priority in -3..3 symbolic (or fractions of these), one unregistration",
         quick=[dict(n=3, cbs=3, fixed=3, parts=2), dict(n=3, cbs=2, unreg=1), dict(n=4, cbs=4, fixed=4, unreg=1), dict(n=2, cbs=2, default=1)],
         thorough=[dict(n=4, cbs=3, unreg=1), dict(n=5, cbs=5, fixed=5, unreg=1), dict(n=3, cbs=2, default=1)]),
    dict(name="methods", fn=methods, covers=("unregistered",), bounds="n bound methods, each registered once, at two priorities or for two classes, any of them unregistered for one class",
         quick=[dict(n=2)], thorough=[dict(n=3)]),
    dict(name="hierarchy", fn=hierarchy, covers=("called",), bounds="n registrations for classes of a hierarchy of 4 or 7 classes up to 6 deep, one with two bases, symbolic priorities, one unregistration of any (class, callback)",
         quick=[dict(n=2, unreg=1), dict(n=3), dict(n=1, classes=list(range(7)), unreg=1), dict(n=2, classes=[0, 1, 5, 6])], thorough=[dict(n=3, unreg=1), dict(n=4), dict(n=2, classes=list(range(7)), unreg=1)]),
    dict(name="reentrant", fn=reentrant, covers=("unregister", "register"), bounds="n callbacks with symbolic priorities, one of which unregisters itself or registers for another class during delivery",
         quick=[dict(n=3)], thorough=[dict(n=4)]),
]

ASSUMPTIONS = ["what happens to a callback registered or unregistered by another callback during the same emission is not judged",
               "unregistering a callback that is registered several times for one class is not judged"]
