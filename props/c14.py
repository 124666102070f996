"""C14: several writers of one order file.

Rely/guarantee: one writer runs the real code; at every file or lock operation at which it does not hold the lock, other
processes may act.  They either append well-formed text as the property allows (rely), or are further instances of the
real writer, interrupted themselves in the same way.  Guarantee, checked at every write: the lock is held, the text
written is header+line into an empty file and the line alone otherwise, and nothing else is done to the file.  As every
writer gives the guarantee under the rely, any number of them in any interleaving keep the file well formed."""
from . import lib


def make(w, d, oid, gate=None):
    return d.O.Order(code="000001.XSHE", price=1, amount=100, action="open", order_id=oid, status="new", style="market",
                     create_time=w.datetime.datetime.now(), side=d.O.OrderSide.long)


def writers(w, p):
    w.set_now(10 * 3600 * lib.US)
    kind = p.get("kind", "algoOrder")
    d = lib.Dma(w)
    tg = w.mod("jqtrade.account.trade_gate")
    gates = [d.run.ctx.trade_gate]
    for k in range(p.get("others", 0)):
        g = tg.AnXinDMATradeGate()
        g.setup(dict(d.opts))
        gates.append(g)
    f = d.file(kind)
    cols = lib.HEADERS[kind].count(",") + 1
    header = lib.HEADERS[kind] + "\n"
    wrote = []                      # ids in the order in which they reached the file
    state = dict(point=0, depth=0, foreign=0)
    if w.conc_bool(w.bool("exists")):
        w.write_file(f, header + ("," * (cols - 1)).join(["old", "\n"]) if w.conc_bool(w.bool("full")) else "")
    elif p.get("absent", 1):
        pass

    def submit(who, oid):
        if kind == "algoOrder":
            gates[who].order(make(w, d, oid))
        else:
            gates[who].cancel_order(oid)
        wrote.append(oid)

    def interfere():
        """other processes act here"""
        if state["depth"] >= len(gates) and p["by"] == "real":
            return
        if state["foreign"] >= p["total"]:
            return
        state["point"] += 1
        if not w.conc_bool(w.bool("act%d" % state["point"])):
            return
        state["foreign"] += 1
        if p["by"] == "rely":
            old = w.read_file(f) if w.exists(f) else ""
            oid = "f%d" % state["foreign"]
            state["quiet"] = True
            w.write_file(f, (header if w.conc_bool(w.eq(old, "")) else "") + "t," + oid + "," * (cols - 2) + "\n", append=True)
            state["quiet"] = False
            wrote.append(oid)
        elif state["depth"] < len(gates) - 1:
            state["depth"] += 1
            submit(state["depth"], "f%d" % state["foreign"])
            state["depth"] -= 1

    def watch(ev):
        if state.get("quiet") or not ((ev[0] == "op" and ev[2] == f) or (ev[0] != "op" and ev[1] == f)):
            return
        if ev[0] == "op" and ev[1] in ("data", "truncate", "rename", "remove"):
            w.check(f in w.locks.held, "the file is written only under its lock", ev)
            w.check(ev[1] == "data", "the file is only appended to", ev)
        if f not in w.locks.held:
            interfere()
    w.on_event = watch

    def contended(path):
        """another process holds the lock at this attempt"""
        if state.get("contended", 0) >= p.get("contend", 0):
            return False
        state["attempts"] = state.get("attempts", 0) + 1
        if w.conc_bool(w.bool("contend%d" % state["attempts"])):
            state["contended"] = state.get("contended", 0) + 1
            return True
        return False
    w.locks.foreign = contended
    for k in range(p["n"]):
        err = w.raises(lambda: submit(0, "m%d" % k))
        w.check(err is None, "the writer succeeds", err)
    w.on_event = w.locks.foreign = None
    text = w.read_file(f)
    lines = text.split("\n")
    w.check(w.eq(lines[-1], ""), "the file ends with a complete line", text)
    w.check(w.eq(lines[0], lib.HEADERS[kind]), "the header comes first", text)
    body = [l.split(",") for l in lines[1:-1]]
    for b in body:
        w.check(len(b) == cols and not w.conc_bool(w.eq(b[0], "updTime")), "every line is intact and the header appears once", text)
    got = [b[1] for b in body if not w.conc_bool(w.eq(b[0], "old"))]
    w.check(sorted(got) == sorted(wrote), "every written line is there exactly once", (got, wrote))
    mine = [g for g in got if g.startswith("m")]
    w.check(mine == sorted(mine), "a writer's lines keep their order", got)
    w.cover("interfered" if state["foreign"] else "alone")


SCENARIOS = [
    dict(name="writers", fn=writers, covers=("interfered", "alone"),
         bounds="n lines by the observed writer, up to `total` appends by any other processes at any operation at which the lock is free; file absent, empty or with lines; others as rely-conforming appends or as further real writers interrupted likewise",
         quick=[dict(n=1, by="rely", total=4), dict(n=2, by="rely", total=2), dict(n=1, by="rely", total=2, contend=2), dict(n=1, by="real", total=3, others=2), dict(n=1, by="rely", total=3, kind="algoOrderStop"),
                dict(n=2, by="real", total=1, others=1, kind="algoOrderStop", contend=1)],
         thorough=[dict(n=1, by="rely", total=8), dict(n=3, by="rely", total=4), dict(n=1, by="rely", total=4, contend=3), dict(n=1, by="real", total=5, others=3), dict(n=2, by="real", total=3, others=2, contend=1),
                   dict(n=2, by="rely", total=4, kind="algoOrderStop")]),
]
ASSUMPTIONS = ["locks are exclusive per file across processes; the operating system appends each flushed block at the end of the file (O_APPEND)",
               "a process acts on the file only through the operations observed here (open, seek, tell, write, flush, lock, unlock, close)"]
