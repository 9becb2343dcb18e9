"""Time ranges."""
import datetime

from .cfgs import *


def one(ctx, line, exp):
    s = f"time-range t\n {line}\n"
    ctx.case(s)
    try:
        c = parse(fwsmConfig, s)
    except Exception as e:
        ctx.ok("accepted", exp is None, exp, repr(e)[:200])
        return
    if exp is None:
        ctx.fail("an impossible time or date", "refused", [asa.d_time(o) for o in c.objects.time["t"].objects])
    else:
        ctx.eq("entries", [exp], [asa.d_time(o) for o in c.objects.time["t"].objects])


def valid(y, mo, d, h, mi):
    try:
        return datetime.datetime(y, mo, d, h, mi)
    except ValueError:
        return None


def judge(ctx, g, c):
    compare(ctx, "time", {n: (n, list(v)) for n, v in g.exp["time"].items()}, asa.tables(c)["time"])
    for r, e in zip(c.rules.rules, g.exp["rules"]):
        o = r.options.get("time-range")
        compare(ctx, "time range of the rule", e["opts"].get("time-range"), o and (o.name, [asa.d_time(x) for x in o.objects]))


def run(ctx):
    r = ctx.rng
    ctx.part("every hour, minute, day and month", "absolute and periodic lines with every hour 0-29, minute 0-69, each day 1-39 of every month, both ends, leap years")
    M = asa.MONTHS
    for h in range(0, 30):
        for mi in (0, 1, 30, 59, 60, 69) if h < 26 else (0,):
            y, mo, d = r.randint(1993, 2035), r.randint(1, 12), r.randint(1, 28)
            v = valid(y, mo, d, h, mi)
            w = r.choice(["start", "end"])
            one(ctx, f"absolute {w} {h:02d}:{mi:02d} {d:02d} {M[mo-1]} {y}", v and ("abs", v if w == "start" else None, v if w == "end" else None))
            if v:
                z = valid(2020, 1, 1, (h * 7) % 24, (mi * 11) % 60)
                dd = r.choice(asa.DAYS + ["weekdays", "weekend", "daily"])
                one(ctx, f"periodic {dd} {h}:{mi:02d} to {z.hour:02d}:{z.minute:02d}", ("per", [dd], v.time(), z.time(), []))
            else:
                one(ctx, f"periodic daily {h}:{mi:02d} to 12:00", None)
                one(ctx, f"periodic daily 12:00 to {h}:{mi:02d}", None)
    for mo in range(1, 13):
        for d in list(range(0, 34)) if ctx.tier != "quick" else (0, 1, r.randint(2, 27), 28, 29, 30, 31, 32, 39):
            for y in (2011, 2012) if mo == 2 else (r.randint(1993, 2035),):
                v, e = valid(y, mo, d, 8, 5), valid(y + 1, 13 - mo, 7, 23, 59)
                one(ctx, f"absolute start 8:05 {d} {M[mo-1]} {y} end 23:59 07 {M[12-mo]} {y+1}", v and ("abs", v, e))
    for a in asa.DAYS:
        for b in asa.DAYS:
            one(ctx, f"periodic {a} 07:15 to {b} 19:45", ("per", [a], datetime.time(7, 15), datetime.time(19, 45), [b]))
            one(ctx, f"periodic {a} {b}  Sunday 07:15 to 19:45", ("per", [a, b, "Sunday"], datetime.time(7, 15), datetime.time(19, 45), []))
    one(ctx, "periodic " + " ".join(asa.DAYS) + " 0:00 to 23:59", ("per", asa.DAYS, datetime.time(0, 0), datetime.time(23, 59), []))
    one(ctx, "absolute", ("abs", None, None))
    ctx.part("ASA", "generated configurations with about 15 time ranges of few names and rules using them")
    asa_loop(ctx, 1, cap(ctx, 60), judge, kinds=["timerange"], defs=15, uses=6, nats=0)
