"""Helpers shared by the scenarios."""

DAY = 86400
US = 10 ** 6


class Bag:
    """plain attribute holder"""


class FakeLoader:
    def __init__(self, module):
        self.module = module

    def load(self):
        return self.module


def user_module(name="user_strategy"):
    m = Bag()
    m.__name__ = name
    return m


class Run:
    """one strategy process"""

    def __init__(self, w, init, start=None, end=None, config=None, module=None, name="task", out=None):
        self.w = w
        L = w.mod("jqtrade.scheduler.loop")
        self.module = module or user_module()
        if init is not None:
            def process_initialize(context):
                self.user_ctx = context
                init(self)
            self.module.process_initialize = process_initialize
        self.loop = L.EventLoop()
        C = w.mod("jqtrade.scheduler.context")
        B = w.mod("jqtrade.scheduler.bus")
        E = w.mod("jqtrade.scheduler.event_source")
        S = w.mod("jqtrade.scheduler.strategy")
        self.ctx = C.Context(task_name=name, event_bus=B.EventBus(), loop=self.loop, scheduler=E.EventSourceScheduler(),
                             loader=FakeLoader(self.module), debug=False, config=config, out=out, start=start, end=end)
        self.strategy = S.Strategy(self.ctx)
        self.calls = []

    def setup(self):
        self.strategy.setup()

    def run_daily(self, f, t):
        self.module.run_daily(f, t)

    def set_options(self, **k):
        self.module.set_options(**k)

    def task(self, tag):
        """a task function recording when it is called"""
        def fn(context):
            self.calls.append((tag, us_of(self.w, context.strategy_dt), self.w.now_us()))
            if self.on_call is not None:
                self.on_call(self, tag)
        fn.__name__ = "task_%s" % tag
        setattr(self.module, fn.__name__, fn)
        return fn

    on_call = None

    def run(self, horizon=None, max_calls=None):
        """run the event loop until the clock passes the horizon (microseconds) or so many calls were made"""
        w, loop = self.w, self.loop

        def hook(L):
            if max_calls is not None and len(self.calls) >= max_calls:
                loop.stop()
            elif horizon is not None and w.now_us() > horizon:
                loop.stop()
        w.uv_hook = hook
        self.loop.run()


def no_account(**k):
    return dict(use_account=False, **k)


def base(w):
    return w.datetime.datetime(2024, 1, 10)


def us_of(w, dt):
    """microseconds since the base midnight, or None"""
    if dt is None:
        return None
    d = dt - base(w)
    return (d.days * DAY + d.seconds) * US + d.microseconds


def dt_of(w, us):
    return base(w) + w.datetime.timedelta(microseconds=us)


def two(w, name):
    """two symbolic digits and their value"""
    a = w.char(name + ".d1", "0123456789")
    b = w.char(name + ".d0", "0123456789")
    return a + b, digit(w, a) * 10 + digit(w, b)


def digit(w, c):
    return w.ord(c) - 48


def hms_text(w, name, valid=True):
    """(text HH:MM:SS, seconds of day)"""
    h, hv = two(w, name + ".h")
    m, mv = two(w, name + ".m")
    s, sv = two(w, name + ".s")
    if valid:
        w.assume(w.And(hv < 24, mv < 60, sv < 60))
    return h + ":" + m + ":" + s, hv * 3600 + mv * 60 + sv


def hms_time(w, name):
    """(datetime.time, seconds of day)"""
    h, m, s = w.int(name + ".h", 0, 23), w.int(name + ".m", 0, 59), w.int(name + ".s", 0, 59)
    return w.datetime.time(h, m, s), h * 3600 + m * 60 + s


class Gate:
    """trading interface whose answers the scenario gives"""

    def __init__(self, w):
        self.w = w
        self.log = []                # (what, details) in call order
        self.on_order = self.on_cancel = None
        self.on_balance = lambda: dict(cash=dict(total_asset=0, available_cash=0, locked_cash=0), positions=[])
        self.on_orders = lambda: []
        g = self

        class FakeGate:
            def setup(self, options):
                g.log.append(("setup", options))

            def order(self, o):
                g.log.append(("order", o))
                if g.on_order is not None:
                    g.on_order(o)

            def cancel_order(self, order_id):
                g.log.append(("cancel", order_id))
                if g.on_cancel is not None:
                    g.on_cancel(order_id)

            def sync_balance(self):
                g.log.append(("balance", w.now_us()))
                return g.on_balance()

            def sync_orders(self):
                g.log.append(("orders", w.now_us()))
                return g.on_orders()
        m = Bag()
        m.__name__ = "fakegate"
        m.FakeGate = FakeGate
        w.extra_env["fakegate"] = m
        w.env["fakegate"] = m
        w.mod("jqtrade.account.config").get_config().TRADE_GATE = "fakegate.FakeGate"

    def count(self, what):
        return len([1 for k, _ in self.log if k == what])


class Acc:
    """an account attached to a fake trading interface, outside any strategy"""

    def __init__(self, w, **options):
        self.w = w
        self.gate = Gate(w)
        self.now = w.now_us()
        opts = dict(account_no="1001", sync_balance=False, sync_order=False)
        opts.update(options)
        self.run = Run(w, lambda r: r.set_options(**opts))
        self.run.setup()
        self.api = w.mod("jqtrade.account.api")
        self.O = w.mod("jqtrade.account.order")
        self.P = w.mod("jqtrade.account.position")

    @property
    def account(self):
        return self.run.ctx.account

    @property
    def portfolio(self):
        return self.run.user_ctx.portfolio


HEADERS = dict(algoOrder="updTime,custBatchNo,acctType,acct,symbol,tradeSide,targetQty,algoId,priceType,ticks,highLimitPrice,lowLimitPrice",
               algoOrderStop="updTime,custBatchNo",
               orderUpdate="updTime,orderDate,orderTime,acctType,acct,symbol,tradeSide,status,orderQty,orderPrice,orderType,filledQty,avgPrice,filledAmt,cancelQty,orderNo,corrId,custBatchNo,text,cliOrderId",
               execResult="updTime,resultType,custBatchNo,status,errorCode,errorMsg",
               assetInfo="updTime,acctType,acct,exchange,currentBalance,enabledBalance,stockValue,totalAsset",
               positionInfo="updTime,acctType,acct,symbol,currentQty,enabledQty,costPrice,lastPrice,mktValue")


class Dma:
    """an account on the real file trading interface, order files in a scratch directory"""

    def __init__(self, w, name="task", broker=True, config=None, start=None, init=None, **options):
        self.w = w
        self.dir = w.path("orders")
        self.rt = w.path("rt")
        w.makedirs(self.dir)
        opts = dict(account_no="1001", sync_balance=False, sync_order=False, sync_internal=DAY, order_dir=self.dir, runtime_dir=self.rt)
        opts.update(options)
        self.opts = opts
        if broker:
            for kind in ("orderUpdate", "execResult"):
                if not w.exists(self.file(kind)):
                    w.write_file(self.file(kind), HEADERS[kind] + "\n")
        def begin(r):
            r.set_options(**opts)
            if init is not None:
                init(r)
        self.run = Run(w, begin, name=name, config=config, start=start)
        self.run.setup()
        self.api = w.mod("jqtrade.account.api")
        self.O = w.mod("jqtrade.account.order")

    def day(self, us=None):
        return dt_of(self.w, self.w.now_us() if us is None else us).strftime("%Y%m%d")

    def file(self, kind, day=None):
        return self.dir + "/" + kind + "_" + (day or self.day()) + ".csv"

    def text(self, kind, day=None):
        f = self.file(kind, day)
        return self.w.read_file(f) if self.w.exists(f) else None

    def add(self, kind, text, day=None):
        """the broker appends text to one of its files"""
        self.w.write_file(self.file(kind, day), text, append=True)

    def rows(self, kind, day=None):
        """the rows of a file as dictionaries by its header, after checking its shape"""
        w, t = self.w, self.text(kind, day)
        if t is None:
            return None
        lines = t.split("\n")
        w.check(w.eq(lines[-1], ""), "the file ends with a complete line", t)
        w.check(w.eq(lines[0], HEADERS[kind]), "the header is the first line", lines[0])
        names = HEADERS[kind].split(",")
        out = []
        for l in lines[1:-1]:
            cells = l.split(",")
            w.check(len(cells) == len(names), "each line has the header's columns", l)
            out.append({n: c for n, c in zip(names, cells)})
        return out


def update_line(w, oid, status="0", qty=100, filled=0, cancel=0, price="0", amount="0", order_no="", text="", date="20240110", time="093000", code="000001.SZ", side="1", acct="1001", cli=""):
    v = dict(updTime="093001.000000", orderDate=date, orderTime=time, acctType="UM0", acct=acct, symbol=code, tradeSide=side, status=status, orderQty=qty,
             orderPrice="0", orderType="0", filledQty=filled, avgPrice=price, filledAmt=amount, cancelQty=cancel, orderNo=order_no, corrId="", custBatchNo=oid,
             text=text, cliOrderId=cli)
    return ",".join([x if w.is_str(x) else w.tostr(x) for x in [v[n] for n in HEADERS["orderUpdate"].split(",")]]) + "\n"


def result_line(w, oid, kind="1", status="1", code="1", msg="no"):
    return ",".join(["093001.000000", kind, oid, status, code, msg]) + "\n"


def proc(w, pid, ppid, cmdline, **kw):
    """a row of the process table"""
    return w.proc(pid, ppid, cmdline, **kw)
