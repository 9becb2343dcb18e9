"""pfSense/OPNsense filter rules."""
from .cfgs import *
from . import pf
from acltk.pfsenseObjects import pfsenseConfig


def run(ctx):
    r = ctx.rng
    ctx.part("rules", "generated configurations with up to 8 rules, every documented element present or absent, in any order")
    n = 0
    while ctx.left(0.7) and n < cap(ctx, 2500):
        n += 1
        g = pf.Gen(r)
        s = g.config(rules=r.choice([1, 2, 4, 8]))
        ctx.case(s)
        c = parse(pfsenseConfig, s)
        compare(ctx, "rules", g.exp["rules"], pf.tables(c)["rules"])
    ctx.part("unknown elements", "one element of a rule outside the documented set")
    n = 0
    while ctx.left() and n < cap(ctx, 600):
        n += 1
        g = pf.Gen(r)
        t = r.choice(pf.UNKNOWN)
        s = g.config(extra=pf.xml(t, r.choice([None, "x", "pass"])), rules=r.choice([1, 2, 3]))
        if r.random() < 0.2 and "<any/>" in s:
            s = s.replace("<any/>", r.choice(["<any/><not/>", "<what/>", "<any/><bridge>x</bridge>"]), 1)
        ctx.case(s)
        try:
            c = parse(pfsenseConfig, s)
        except Exception:
            continue
        ctx.fail(f"rule with {t}", "parsing fails", [repr(x) for x in c.rules.rules])
    ctx.part("unknown names", "network of an interface that does not exist, address that is neither address nor alias")
    for x in ("<network>nope</network>", "<address>nope</address>", "<address>1.2.3.4.5</address>", "<network>1.2.3.4</network>", "<address>1.2.3.4/33</address>"):
        s = f"<pfsense><filter><rule><type>pass</type><descr/><interface>lan</interface><source>{x}</source></rule></filter></pfsense>"
        ctx.case(s)
        try:
            c = parse(pfsenseConfig, s)
        except Exception:
            continue
        ctx.fail("unknown address", "parsing fails", [repr(x) for x in c.rules.rules])
