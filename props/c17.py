"""C17: a crash at any file operation, and a restart on the same day"""
from . import lib
from .c16 import STATUS


class Known:
    """what has happened: completed submissions and the broker's last line for each"""

    def __init__(self):
        self.done = {}      # id -> (code, signed amount, limit price or None)
        self.last = {}      # id -> (status text, value, message)
        self.pending = []   # submissions that had not returned


def start(w, p, k):
    d = lib.Dma(w, name=p.get("name", "demo"))
    w.mounts = [d.dir, d.rt]        # the order files may be on a file system of their own
    return d


def neighbour(w, d):
    """what another strategy, sharing all directories, has left"""
    w.restart()
    n = lib.Dma(w, name="demo_b")
    n.api.order("600000.XSHG", 7)
    n.api.sync_orders()
    w.restart()


def submit(w, d, k, p, n):
    name = "order%d" % n
    code = "600000.XSHG" if n % 2 else "000001.XSHE"
    amount = 100 * (n + 1) if p.get("concrete") else w.int(name + ".amount", 1, 9999)
    buy = w.bool(name + ".buy") if p.get("sides") else True
    sgn = w.conc_bool(buy)
    px = w.price(name + ".price", 1, 99999) if p.get("prices") and n == 0 else None
    style = d.api.LimitOrderStyle(px) if px is not None else None
    k.pending.append(n)
    w.tick(w.int(name + ".wait", 0, lib.US) if p.get("times") else 0)
    at = w.now_us()
    i = d.api.order(code, amount if sgn else -amount, style)
    w.check(i is not None, "the order is accepted")
    k.pending.remove(n)
    k.done[i] = (code, amount, sgn, px, at)


def broker(w, d, k, n, p):
    """the broker writes a line for some known order"""
    if not k.done:
        return
    ids = list(k.done)
    i = ids[w.pick("report%d.of" % n, 0, len(ids) - 1)] if len(ids) > 1 and p.get("anyorder") else ids[-1]
    if p.get("refuse") and i not in k.last:
        d.add("execResult", lib.result_line(w, i, "1", "1", "9", "no%d" % n))
        k.last[i] = (None, 0, "no%d" % n)
        return
    st = w.char("report%d.status" % n, "24")
    fl, fv = lib.two(w, "report%d.filled" % n)
    d.add("orderUpdate", lib.update_line(w, i, status=st, filled=fl, text="m%d" % n))
    k.last[i] = (st, fv, "m%d" % n)


def steps(w, d, k, p, plan, base):
    for n, s in enumerate(plan):
        n += base
        if s == "o":
            submit(w, d, k, p, n)
        elif s == "b":
            broker(w, d, k, n, p)
        elif s == "s":
            d.api.sync_orders()
        elif s == "c" and k.done:
            d.api.cancel_order(list(k.done)[0])


def judge(w, d, k, synced=True):
    book = d.api.get_orders()
    for i, (code, amount, buy, px, at) in k.done.items():
        w.check(i in book, "a completed submission is found after the restart", (i, list(book)))
        o = book[i]
        w.check(w.And(w.eq(o.code, code), o.amount == amount, w.eq(o.action, "open" if buy else "close"), w.eq(o.side, "long")), "with what was ordered", (o.code, o.amount, o.action, o.side))
        w.check(w.eq(o.order_price, px) if px is not None else w.eq(o.order_price, 0), "at its price", (o.order_price, px))
        w.check(isinstance(o.style, d.api.LimitOrderStyle if px is not None else d.api.MarketOrderStyle), "in its style", o.style)
        w.check(lib.us_of(w, o.create_time) == at, "with its submission time", (o.create_time, at))
        if i in k.last:
            st, fv, msg = k.last[i]
            if st is None:
                w.check(o.status == "rejected" and w.conc_bool(w.eq(o.err_msg, msg)), "refused as the broker said", o.status)
            else:
                w.check(w.And(w.eq(o.status, STATUS[w.conc(st)]), o.filled_amount == fv, w.eq(o.err_msg, msg)), "in the state given by the broker's files", (o.status, o.filled_amount, k.last[i]))
        else:
            w.check(o.status == "new", "in its initial state", o.status)
    extra = len(book) - len(k.done)
    w.check(extra == 0 or (extra == 1 and len(k.pending) == 1), "no other orders", list(book))


def crash(w, p):
    k = Known()
    plans = list(p["plans"])
    d = None
    if p.get("neighbour"):
        neighbour(w, d)
    for n, plan in enumerate(plans):
        def life():
            nonlocal d
            d = start(w, p, k)
            steps(w, d, k, p, plan, n * 10)
        # the process dies before, or in the middle of, any of its file operations
        lo = w.op_count
        w.crash_at = w.int("crash%d" % n, lo, lo + p.get("ops", 60))
        w.crash_torn = w.bool("torn%d" % n) if p.get("torn") else False
        alive = w.survive(life)
        w.crash_at = None
        w.cover("survived" if alive else "crashed")
        if alive:
            w.tick(0)
            if not p.get("kill"):
                for h in list(w.open_handles):
                    h.abandon()
                w.open_handles = []
        w.restart()
        k.pending = k.pending[:1] if k.pending else []
        if p.get("down") and d is not None:
            broker(w, d, k, 90 + n, p)
            k.down = True
    d = start(w, p, k)
    if p.get("late"):
        broker(w, d, k, 99, p)
    d.api.sync_orders()
    judge(w, d, k)
    # and it goes on working
    steps(w, d, k, p, "o", 70)
    d.api.sync_orders()
    judge(w, d, k)
    w.cover("restarted")


def beside(w, p):
    """another task shares the directories and does a whole submission at any file operation of this one's"""
    C = w.mod("jqtrade.scheduler.context")
    a = start(w, dict(name="demo_a"), None)
    b = start(w, dict(name="demo_b"), None)
    slots = [(o, n) for o in (C, C.Context) for n, v in list(vars(o).items()) if v is b.run.ctx]

    def become(d):
        for o, n in slots:
            setattr(o, n, d.run.ctx)
    w.check(slots != [], "the process has one context")
    theirs, state = {}, dict(n=0, busy=False)

    def other(ev):
        if state["busy"] or w.locks.held or len(theirs) >= p["others"]:
            return
        state["n"] += 1
        if not w.conc_bool(w.bool("act%d" % state["n"])):
            return
        state["busy"] = True
        become(b)
        amount = 7 + len(theirs)
        theirs[b.api.order("600000.XSHG", amount)] = amount
        if p.get("sync"):
            b.api.sync_orders()
        become(a)
        state["busy"] = False
        w.cover("beside")
    k = Known()
    become(a)
    w.on_event = other
    steps(w, a, k, dict(p, concrete=1), p["plan"], 0)
    w.on_event = None
    for name in ("demo_b", "demo_a"):
        w.restart()
        d = start(w, dict(name=name), k)
        d.api.sync_orders()
        if name == "demo_a":
            judge(w, d, k)
        else:
            got = {i: o.amount for i, o in d.api.get_orders().items()}
            w.check(got == theirs, "the other task finds exactly its own", (got, theirs))
    w.cover("both")


def elsewhere(w, p):
    """the runtime directory is where the option says, whichever directory the process is in"""
    by, spelled, same = w.choice("runtime_dir", p["dirs"])
    a, b = w.path("a"), w.path("b")
    w.makedirs(a)
    w.makedirs(b)
    w.chdir(a)
    moves = w.conc_bool(w.bool("moves on"))
    value = w.path("kept") if spelled == "absolute" else spelled
    opts, config = {}, None
    if by == "option":
        opts["runtime_dir"] = value
    elif by == "config":
        config = w.path("cfg.py")
        w.write_file(config, "SCHEDULER_RUNTIME_DIR = %r\n" % value)

    def life():
        if config is not None:
            w.mod("jqtrade.scheduler.config").setup_scheduler_config(config)
        d = lib.Dma(w, name="demo", **dict(dict(runtime_dir=None), **opts)) if opts else Plain(w)
        if moves:
            w.chdir(w.path("orders"))
        return d
    d = life()
    amount = w.int("amount", 1, 9999)
    i = d.api.order("600000.XSHG", amount)
    w.check(i is not None, "the order is accepted")
    j = d.api.order("000001.XSHE", -amount) if p.get("two") else None
    w.restart()
    w.chdir(a if same else b)
    d = life()
    d.api.sync_orders()
    book = d.api.get_orders()
    for x, code in ((i, "600000.XSHG"), (j, "000001.XSHE")):
        if x is not None:
            w.check(x in book, "the order is known after the restart", (x, list(book)))
            w.check(w.And(w.eq(book[x].code, code), w.eq(book[x].amount, amount)), "as it was placed", x)
    w.cover("elsewhere")


class Plain(lib.Dma):
    """options without a runtime directory"""

    def __init__(self, w):
        self.w = w
        self.dir = w.path("orders")
        w.makedirs(self.dir)
        for kind in ("orderUpdate", "execResult"):
            if not w.exists(self.file(kind)):
                w.write_file(self.file(kind), lib.HEADERS[kind] + "\n")
        self.run = lib.Run(w, lambda r: r.set_options(account_no="1001", sync_balance=False, sync_order=False, order_dir=self.dir), name="demo")
        self.run.setup()
        self.api = w.mod("jqtrade.account.api")


DIRS = [("option", "absolute", False), ("option", "~/rt", False), ("option", "rt", True), ("option", "./rt", True), ("default", None, False),
        ("config", "~/rt2", False), ("config", "absolute", False), ("config", "rt2", True)]

SCENARIOS = [
    dict(name="crash", fn=crash, covers=("crashed", "survived", "restarted"), bounds="one or two lives of a process with up to 6 steps each (order, broker report, synchronise, cancel), dying before or half-way through any file operation, then a restart",
         quick=[dict(plans=["oo"], prices=1, sides=1, times=1), dict(plans=["obsos"], torn=1, concrete=1), dict(plans=["ob", "os"], concrete=1, late=1), dict(plans=["ocbs"], concrete=1, torn=1, refuse=1), dict(plans=["obbs"], late=1),
                dict(plans=["oobs"], concrete=1, down=1, anyorder=1, ops=40), dict(plans=["osooo"], concrete=1, ops=40), dict(plans=["obs"], concrete=1, neighbour=1, name="demo_a")],
         thorough=[dict(plans=["oobsos"], prices=1, sides=1, torn=1), dict(plans=["obs", "obs"], torn=1, anyorder=1, late=1), dict(plans=["o", "o", "bs"], torn=1, concrete=1, anyorder=1, late=1), dict(plans=["ocbsobs"], torn=1, refuse=1, concrete=1)]),
    dict(name="beside", fn=beside, covers=("beside", "both"), bounds="one task's steps as above, whole submissions of another task at up to `others` of its file operations (while it holds no lock)",
         quick=[dict(plan="o", others=1), dict(plan="obs", others=1, sync=1)], thorough=[dict(plan="oobs", others=2, sync=1)]),
    dict(name="elsewhere", fn=elsewhere, covers=("elsewhere",), bounds="runtime_dir absolute, with ~, relative or by default, from the option or a configuration file; the process starts and goes on in other directories; 1-2 orders",
         quick=[dict(dirs=DIRS)], thorough=[dict(dirs=DIRS, two=1)]),
]
ASSUMPTIONS = ["the process dies, not the machine: what was handed to the operating system stays", "a submission interrupted by the death may or may not have taken effect"]
