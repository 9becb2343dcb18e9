"""C26: time ranges keep their start, end and days.

hour/minute/day/year: the number the text stands for (contract of int()).  month: the position of the English name, every
other text refused.  time/timedate: a time of day / a point in time made of exactly the stated parts, refused when the
contract of the datetime module refuses it.  time_range_object: an absolute entry with the stated start and end (absent
stays absent), a periodic one with start, days, end and end days; any other type of line refused.  time_range (list in
order under its name) is proved as in C15.
"""
from .match import *
from .seq import *
from .c15 import rec, SEMS, TYPES, time_range
from .c17 import call
from .c24 import is_a, with_class_sem as sem

MONTHS = ("January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December")



def number(rule, cls):
    def fn(I):
        p = I.p
        t = arg(I, TStr(nonempty=True), "t")
        try:
            r = I.force(I.call_method(sem(I, cls), rule, [t], {}))
        except PyExc:
            outcome(I, "refused")
            p.prove(z3.Not(lib.f_intok(t.t)), f"{rule}: a number is accepted")
            return
        outcome(I, "end")
        frame_ok(I, rule)
        p.prove(isinstance(r, (int, SInt)), f"{rule}: a number")
        p.prove(I.zint(r) == lib.f_int(t.t), f"{rule}: the stated number")

    return fn


def month(cls):
    def fn(I):
        p = I.p
        t = arg(I, TStr(nonempty=True), "t")
        try:
            r = I.force(I.call_method(sem(I, cls), "month", [t], {}))
        except PyExc:
            outcome(I, "refused")
            p.prove(z3.And(*[t.t != z3.StringVal(m) for m in MONTHS]), "month: every English month is known")
            return
        outcome(I, "end")
        frame_ok(I, "month")
        p.prove(isinstance(r, (int, SInt)), "month: a number")
        p.prove(z3.Or(*[z3.And(t.t == z3.StringVal(m), I.zint(r) == i + 1) for i, m in enumerate(MONTHS)]), "month: its position in the year")

    return fn


def moment(rule, cls):
    kind, parts = {"time": ("time", ("hour", "minute")), "timedate": ("datetime", ("hour", "minute", "day", "month", "year"))}[rule]

    def fn(I):
        p = I.p
        v = {k: arg(I, TInt(), k) for k in parts}
        ok = [v["hour"].t >= 0, v["hour"].t <= 23, v["minute"].t >= 0, v["minute"].t <= 59]
        if kind == "datetime":
            ok += [v["month"].t >= 1, v["month"].t <= 12, v["day"].t >= 1, v["day"].t <= 31, v["year"].t >= 1, v["year"].t <= 9999,
                   lib.f_dateok(v["year"].t, v["month"].t, v["day"].t)]
        try:
            r = call(I, cls, rule, v)
        except PyExc:
            outcome(I, "refused")
            p.prove(z3.Not(z3.And(*ok)), f"{rule}: a possible {kind} is accepted")
            return
        outcome(I, "end")
        frame_ok(I, rule)
        p.prove(isinstance(r, lib.SDate) and r.kind == kind, f"{rule}: a {kind}")
        p.prove(z3.And(*ok), f"{rule}: an impossible {kind} is refused")
        for k in parts:
            p.prove(I.zint(I.getattr(r, k)) == v[k].t, f"{rule}: the stated {k}")
        for k in ("second", "microsecond"):
            p.prove(zt(I.eq(r.parts.get(k, 0), 0)), f"{rule}: no {k}")

    return fn


def date(I, name, kind):
    parts = ("hour", "minute") + (("year", "month", "day") if kind == "datetime" else ())
    return lib.SDate(kind, {k: arg(I, TInt(), name + k) for k in parts})


def entry(kind, cls):
    def fn(I):
        p = I.p
        if kind == "absolute":
            s, e = [date(I, n, "datetime") if p.choose(2, n) else None for n in ("start", "end")]
            r = is_a(I, call(I, cls, "time_range_object", {"type": "absolute", "start": s, "end": e}), "TimeRangeObjectAbsolute", kind)
            p.prove(I.getattr(r, "start") is s, "absolute: the stated start, absent if absent")
            p.prove(I.getattr(r, "end") is e, "absolute: the stated end, absent if absent")
        elif kind == "periodic":
            s, e = date(I, "start", "time"), date(I, "end", "time")
            d, f = arg(I, TList(TStr()), "days"), arg(I, TOpt(TStr()), "edays")
            segs = p.content(d)
            r = is_a(I, call(I, cls, "time_range_object", {"type": "periodic", "start": s, "end": e, "days": d, "edays": f}), "TimeRangeObjectPeriodic", kind)
            p.prove(I.getattr(r, "startTime") is s, "periodic: the stated start")
            p.prove(I.getattr(r, "endTime") is e, "periodic: the stated end")
            same_seq(I, p.content(I.getattr(r, "startDays")), segs, "periodic", what="the stated days in order")
            p.prove(zt(I.eq(I.getattr(r, "endDays"), f)), "periodic: the stated end day")
        else:
            t = arg(I, TStr(nonempty=True), "t")
            known = z3.Or(*[t.t == z3.StringVal(x) for x in ("absolute", "periodic", "no")])
            try:
                call(I, cls, "time_range_object", {"type": t, "start": None, "end": None, "days": None, "edays": None})
            except PyExc:
                outcome(I, "refused")
                p.prove(z3.Not(known), "time range line: a known kind of line is accepted")
                return
            p.prove(known, "time range line: an unknown kind of line is refused")
        frame_ok(I, kind)
        outcome(I, "end")

    return fn


def proofs():
    out = []
    for c in SEMS:
        d = c[:-9]
        for r in ("hour", "minute", "day", "year"):
            out.append(Proof(f"{r} ({d})", number(r, c), [f"{c}.{r}"], ["end", "refused"], types=TYPES))
        out.append(Proof(f"month ({d})", month(c), [f"{c}.month"], ["end", "refused"], types=TYPES))
        for r in ("time", "timedate"):
            out.append(Proof(f"{r} ({d})", moment(r, c), [f"{c}.{r}"], ["end", "refused"], types=TYPES))
        for k in ("absolute", "periodic"):
            out.append(Proof(f"{k} line ({d})", entry(k, c), [f"{c}.time_range_object", f"TimeRangeObject{k.title()}.__init__"], ["end"], types=TYPES))
        out.append(Proof(f"other line ({d})", entry("other", c), [f"{c}.time_range_object"], ["refused"], types=TYPES))
        out.append(Proof(f"time range ({d})", time_range(c), [f"{c}.time_range", "TimeRange.add", "aclParser._learn"], ["end", "found"], types=TYPES))
    return out
