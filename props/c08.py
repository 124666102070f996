"""C08: instants and epoch milliseconds"""
from . import lib

EPOCH_DAYS = 19732      # 1970-01-01 .. 2024-01-10


def instant(w, p, name="t"):
    """(naive local datetime, epoch microseconds): any instant of the range, any whole-minute zone offset"""
    us = w.int(name, p["lo"] * lib.DAY * lib.US, p["hi"] * lib.DAY * lib.US - 1)
    return lib.dt_of(w, us), us


def zone(w, p):
    """a fixed zone offset, in seconds east"""
    z = w.choice("zone", p.get("zones", [8]))
    w.set_tz(z * 1800)
    return z * 1800


def convert(w, p):
    U = w.mod("jqtrade.common.utils")
    tz = zone(w, p)
    if p.get("rounding"):
        w.float_rounding(p["rounding"] == "exact")
    dt, us = instant(w, p)
    ms = U.dt_to_milliseconds(dt)
    want = (EPOCH_DAYS * lib.DAY - tz) * 1000 + us // 1000
    w.check(ms == want, "epoch milliseconds, rounded down", ms)
    back = U.milliseconds_to_dt(ms)
    w.check(lib.us_of(w, back) == us - us % 1000, "back: the instant truncated to the millisecond", back)
    w.observe("ms", ms)


def from_ms(w, p):
    U = w.mod("jqtrade.common.utils")
    tz = zone(w, p)
    if p.get("rounding"):
        w.float_rounding(p["rounding"] == "exact")
    base = (EPOCH_DAYS * lib.DAY - tz) * 1000
    ms = base + w.int("ms", p["lo"] * lib.DAY * 1000, p["hi"] * lib.DAY * 1000)
    dt = U.milliseconds_to_dt(ms)
    w.check(lib.us_of(w, dt) == (ms - base) * 1000, "the instant of a millisecond count", dt)
    w.check(U.dt_to_milliseconds(dt) == ms, "whole milliseconds survive the round trip")
    w.observe("dt", lib.us_of(w, dt))


def order(w, p):
    U = w.mod("jqtrade.common.utils")
    zone(w, p)
    if p.get("rounding"):
        w.float_rounding(p["rounding"] == "exact")
    a, ua = instant(w, p, "a")
    b, ub = instant(w, p, "b")
    w.assume(ua <= ub)
    w.check(U.dt_to_milliseconds(a) <= U.dt_to_milliseconds(b), "a later instant never gets a smaller number")


def clock(w, p):
    """the clock shown by the loop: context.current_dt is the wall clock truncated to the millisecond"""
    L = w.mod("jqtrade.scheduler.loop")
    zone(w, p)
    us = w.int("now", p["lo"] * lib.DAY * lib.US, p["hi"] * lib.DAY * lib.US - 1)
    w.set_now(us)
    loop = L.EventLoop()
    w.check(lib.us_of(w, loop.current_dt) == us - us % 1000, "current_dt is the wall clock", loop.current_dt)


def daylight(w, p):
    """a zone with daylight saving: instants of 2024 away from the repeated and the skipped hour"""
    U = w.mod("jqtrade.common.utils")
    trans = w.set_zone(w.choice("zone", p["zones"]))
    if p.get("rounding"):
        w.float_rounding(exact=True)
    us = w.int("t", -9 * lib.DAY * lib.US, 355 * lib.DAY * lib.US)
    off, day = trans[0][1], EPOCH_DAYS * lib.DAY
    for (_, old), (at, new) in zip(trans, trans[1:]):
        edge = (at - day + min(old, new)) * lib.US, (at - day + max(old, new)) * lib.US
        w.assume(w.Or(us < edge[0], us >= edge[1]))
        if w.conc_bool(us >= edge[1]):
            off = new
    ms = U.dt_to_milliseconds(lib.dt_of(w, us))
    w.check(ms == (day - off) * 1000 + us // 1000, "epoch milliseconds, rounded down", ms)
    w.check(lib.us_of(w, U.milliseconds_to_dt(ms)) == us - us % 1000, "back: the instant truncated to the millisecond")
    w.set_now(us)
    w.check(lib.us_of(w, w.mod("jqtrade.scheduler.loop").EventLoop().current_dt) == us - us % 1000, "current_dt is the wall clock")
    w.cover("summer" if off == max(trans[0][1], trans[1][1]) else "winter")


WIDE = dict(lo=-19732 + 1, hi=40000)
NEAR = dict(lo=-20, hi=20)
BINADE = dict(lo=-7000, hi=5000, zones=[16], rounding="exact")     # 2004-11 .. 2037-09
SCENARIOS = [
    dict(name="convert", fn=convert, bounds="every microsecond instant in lo..hi days around 2024-01-10, fixed zone offsets in half hours; `rounding`: IEEE double rounding modelled exactly, else real arithmetic",
         quick=[dict(WIDE, zones=[16, 0, -7, 11]), BINADE, dict(WIDE, zones=[16], rounding="exact")],
         thorough=[dict(WIDE, zones=list(range(-24, 29))), BINADE, dict(WIDE, zones=[16], rounding="exact")]),
    dict(name="from_ms", fn=from_ms, bounds="every whole millisecond in lo..hi days around 2024-01-10",
         quick=[dict(WIDE, zones=[16, 0, -7, 11]), BINADE, dict(WIDE, zones=[16], rounding="exact")],
         thorough=[dict(WIDE, zones=list(range(-24, 29))), BINADE, dict(WIDE, zones=[16], rounding="exact")]),
    dict(name="order", fn=order, bounds="every pair of instants",
         quick=[dict(WIDE, zones=[16]), BINADE], thorough=[dict(WIDE, zones=[16, 0, -7]), BINADE]),
    dict(name="daylight", fn=daylight, covers=("summer", "winter"), bounds="every microsecond instant of 2024 in three zones with daylight saving, outside the skipped and repeated hours",
         quick=[dict(zones=["Berlin", "Auckland", "New York"])], thorough=[dict(zones=["Berlin", "Auckland", "New York"], rounding=1)]),
    dict(name="clock", fn=clock, bounds="every microsecond instant", quick=[dict(NEAR, zones=[16])], thorough=[dict(WIDE, zones=[16, 0, -7])]),
]
ASSUMPTIONS = ["local time has a fixed offset from UTC, except in scenario daylight",
               "IEEE double rounding (nearest, ties to even) is encoded exactly for + - * / and timestamp(); other functions of the C runtime are taken as exact"]
