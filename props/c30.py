"""C30: the account module turned off and on"""
from . import lib

US = lib.US


def functions(w, run, code, amount, oid):
    """every account function of a strategy (name, call)"""
    m = run.module
    style = m.LimitOrderStyle(3)
    return [("order", lambda: m.order(code, amount)), ("order with style", lambda: m.order(code, amount, style, "long")), ("cancel_order", lambda: m.cancel_order(oid)),
            ("batch_cancel_orders", lambda: m.batch_cancel_orders([oid])), ("get_orders", lambda: m.get_orders()), ("get_orders of one", lambda: m.get_orders(order_id=oid)),
            ("sync_balance", lambda: m.sync_balance()), ("sync_orders", lambda: m.sync_orders()),
            ("portfolio", lambda: run.user_ctx.portfolio), ("portfolio cash", lambda: run.user_ctx.portfolio.available_cash),
            ("portfolio positions", lambda: run.user_ctx.portfolio.positions), ("context.portfolio", lambda: m.context.portfolio.total_value)]


def refused(w, run, g, p, where):
    amount = w.int("amount", -1000, 1000)
    w.assume(amount != 0)
    oid = w.choice("oid", ["12", 12])
    for name, f in functions(w, run, "000001.XSHE", amount, oid):
        w.check(w.raises(f) is not None, name + " raises " + where)
    r, e = w.attempt(run.module.batch_submit_orders, [dict(code="000001.XSHE", amount=amount), dict(code="600000.XSHG", amount=100, side="long")])
    w.check(e is not None or r == [None, None], "a batch reports every entry as failed", (r, e))
    w.check([k for k, _ in g.log] == [], "nothing reaches the trading interface", g.log)


def off(w, p):
    g = lib.Gate(w)
    w.set_now(w.int("start", 0, lib.DAY * US - 1))
    value = w.choice("value", [False, 0, "", None, "unset"]) if not p.get("cfg") else "config"
    seen = []

    def init(r):
        if value == "config":
            w.mod("jqtrade.scheduler.config").get_config().SETUP_ACCOUNT = True
        if value != "unset":
            k = dict(use_account=value)
            if w.conc_bool(w.bool("with account number")):
                k.update(account_no="1001", sync_balance=True, sync_order=True)
            r.set_options(**k)
        refused(w, r, g, p, "in process_initialize")
        if p.get("task"):
            r.run_daily(first, "10:00:00")
            r.run_daily(second, "10:00:%02d" % w.pick("gap", 0, 1))

    def first(context):
        seen.append(("first", w.now_us()))
        refused(w, run, g, p, "in a task")

    def second(context):
        seen.append(("second", w.now_us()))

    run = lib.Run(w, init)
    run.setup()
    refused(w, run, g, p, "after the setup")
    if p.get("task"):
        run.run(horizon=(lib.DAY + 11 * 3600) * US)
        n = [s for s, _ in seen]
        w.check(n.count("first") in (1, 2) and n.count("second") in (1, 2), "the tasks run", seen)
        w.check("first" in n[-2:] and "second" in n[-2:], "also on the next day", seen)
        w.cover("scheduled")
    w.check(g.log == [], "nothing was synchronised", g.log)
    w.cover("off")


def on(w, p):
    g = lib.Gate(w)
    w.set_now(w.int("start", 0, lib.DAY * US - 1))
    if p.get("fail"):
        def fail():
            raise RuntimeError("no broker")
        if w.conc_bool(w.bool("balance fails")):
            g.on_balance = fail
        if w.conc_bool(w.bool("orders fail")):
            g.on_orders = fail
    sb = w.choice("sync_balance", [True, False, 1, 0, "unset"])
    so = w.choice("sync_order", [True, False, 1, 0, "unset"])
    ua = w.choice("use_account", [True, 1, "unset"])
    no = w.choice("account number", ["given", "int", "missing"])
    out = []

    def init(r):
        k = dict(sync_internal=lib.DAY)
        if sb != "unset" or isinstance(sb, bool):
            k["sync_balance"] = sb
        if so != "unset" or isinstance(so, bool):
            k["sync_order"] = so
        if ua != "unset" or isinstance(ua, bool):
            k["use_account"] = ua
        if no != "missing":
            k["account_no"] = "1001" if no == "given" else 1001
        out.append(w.raises(r.set_options, **k))
        out.append([x for x, _ in g.log if x in ("balance", "orders")])
        out.append([x for x, _ in g.log if x in ("order", "cancel")])

    run = lib.Run(w, init)
    run.setup()
    e, syncs, orders = out
    w.check(orders == [], "nothing is submitted", orders)
    if no == "missing":
        w.check(e is not None, "without an account number set_options is refused")
        w.check(syncs == [], "and nothing is synchronised", syncs)
        w.cover("refused")
        return
    w.check(e is None, "set_options is accepted", e)
    want = (["balance"] if sb == "unset" or sb else []) + (["orders"] if so == "unset" or so else [])
    w.check(syncs == want, "each enabled kind was synchronised once, balance first", (syncs, want))
    w.check(w.raises(lambda: run.user_ctx.portfolio.available_cash) is None and w.raises(run.module.get_orders) is None, "the account functions work")
    w.cover("on")


def twice(w, p):
    """options given twice: the last call decides"""
    w.set_now(lib.DAY // 2 * lib.US)
    g = lib.Gate(w)
    uses = []

    def init(r):
        for k in range(p["n"]):
            uses.append(w.choice("use%d" % k, [True, False, "unset"]))
            o = dict(account_no="1001", sync_balance=False, sync_order=False, sync_internal=lib.DAY)
            if uses[-1] != "unset":
                o["use_account"] = uses[-1]
            if p.get("sync"):
                o.update(sync_balance=True, sync_order=True)
            del g.log[:]
            r.set_options(**o)
            got = [x for x, _ in g.log if x != "setup"]
            w.check(got == (["balance", "orders"] if p.get("sync") and uses[-1] is not False else []), "every set_options synchronises once when the module is on", (uses, got))
        del g.log[:]
        if uses[-1] is False:
            refused(w, r, g, p, "in process_initialize")
    run = lib.Run(w, init)
    run.setup()
    if uses[-1] is False:
        refused(w, run, g, p, "after the setup")
        w.cover("turned off")
    else:
        w.check(w.raises(lambda: run.user_ctx.portfolio.available_cash) is None and w.raises(run.module.get_orders) is None, "the account functions work", uses)
        w.cover("turned on")
    if p.get("sync"):
        del g.log[:]
        run.run(horizon=(lib.DAY + 3600) * lib.US)
        got = [x for x, _ in g.log if x in ("balance", "orders")]
        w.check(got == ([] if uses[-1] is False else ["balance", "orders"]), "afterwards only the last call's account synchronises, once when it is due", (uses, got))


def again(w, p):
    """options given a second time without the account number"""
    g = lib.Gate(w)
    w.set_now(w.int("start", 0, lib.DAY * US - 1))
    first = w.choice("first", [True, False])

    def init(r):
        r.set_options(account_no="1001", use_account=first, sync_balance=True, sync_order=True, sync_internal=lib.DAY)
        del g.log[:]
        err = w.raises(r.set_options, sync_internal=lib.DAY, use_account=w.choice("second", [True, 1]))
        w.check(err is not None, "without an account number set_options is refused", err)
        w.check([x for x, _ in g.log if x != "setup"] == [], "and nothing is synchronised", g.log)
    lib.Run(w, init).setup()
    w.cover("refused")


def later(w, p):
    """set_options and run_daily only in process_initialize"""
    g = lib.Gate(w)
    run = lib.Run(w, lambda r: r.set_options(use_account=False))
    run.setup()
    w.check(w.raises(run.module.set_options, use_account=True, account_no="1001") is not None, "set_options later is refused")
    refused(w, run, g, p, "still")
    w.cover("later")


SCENARIOS = [
    dict(name="off", fn=off, covers=("off", "scheduled"), bounds="every account function and portfolio attribute, called in process_initialize, afterwards and in a scheduled task, with the module off (any false value, or options never set) and any start time of day",
         quick=[dict(), dict(task=1)], thorough=[dict(task=1)]),
    dict(name="on", fn=on, covers=("on", "refused"), bounds="all combinations of sync_balance, sync_order, use_account and account number, any start time of day, synchronisations that fail", quick=[dict(), dict(fail=1)], thorough=[dict(fail=1)]),
    dict(name="twice", fn=twice, covers=("turned off", "turned on"), bounds="options set two or three times with any use_account, synchronisation off or on", quick=[dict(n=2), dict(n=2, sync=1), dict(n=3, sync=1)], thorough=[dict(n=3), dict(n=3, sync=1)]),
    dict(name="again", fn=again, covers=("refused",), bounds="options set again without the account number, the module on or off before, any start time of day", quick=[{}]),
    dict(name="later", fn=later, covers=("later",), bounds="set_options after the setup", quick=[dict()], thorough=[dict()]),
]
ASSUMPTIONS = ["an empty or false account number is not considered"]
