"""Matching and filtering change nothing."""
from .cfgs import *
from .caf import *
from . import pf
from .h_c06 import rand_nat, mk_nat
from .h_c02 import rule as mkrule
from acltk import ACLConfig
from acltk.pfsenseObjects import pfsenseConfig


def match(ctx, r):
    a, b = rand_expr(r, 3), rand_expr(r, 3)
    x, y = build(a), build(b)
    ctx.case(("match", a, b))
    s = (snapshot(x), snapshot(y))
    m = bool(x & y)
    ctx.eq("unchanged", s, (snapshot(x), snapshot(y)))
    ctx.eq("same answer again", m, bool(x & y))
    ctx.eq("still unchanged", s, (snapshot(x), snapshot(y)))


def whole(o):
    """everything but the time stamp"""
    return snapshot({k: v for k, v in o.__dict__.items()})


def config(ctx, r, c, what, n, pool):
    for _ in range(n):
        f = rand_filter(r, 2, pool)
        t = text(r, f)
        if len(t) > 2500:
            continue
        caf = cafBlock.fromString(t)
        ctx.case((what, t))
        s = (whole(c), snapshot(caf))
        with limit(30), silent():
            a = c.filter(caf)
        ctx.eq("configuration and filter unchanged", s, (whole(c), snapshot(caf)))
        with limit(30), silent():
            rr = caf.run(c.rules)
            b = c.filter(caf)
        ctx.eq("configuration and filter unchanged", s, (whole(c), snapshot(caf)))
        ctx.ok("same result again", {id(x) for x in a} == {id(x) for x in b}, a, b)
        ctx.ok("same rules again", {id(x) for x in rr} == {id(x) for x in a if isinstance(x, ACLRule)}, a, rr)
        a.clear()
        ctx.eq("the result is not part of the configuration", s, (whole(c), snapshot(caf)))


def lits(c):
    from .h_c06 import desc

    out = []
    for x in c.rules.rules:
        for h in (x.src.host, x.dst.host):
            d = desc(h)
            if d:
                out += [l for l in leaves(d) if l[0] in ("host", "net", "any", "any4", "any6")]
    return out or None


def run(ctx):
    r = ctx.rng
    ctx.part("matching", "random address expressions to depth 3")
    n = 0
    while ctx.left(0.2) and n < cap(ctx, 3000):
        n += 1
        match(ctx, r)
    ctx.part("rules and conditions", "rule & rule, rule & NAT entry, ACLRules.filter")
    n = 0
    while ctx.left(0.35) and n < cap(ctx, 2000):
        n += 1
        pool = rand_pool(r)
        R = rand_rules(r, 5, lower(pool))
        T = rand_rules(r, 3, lower(pool))
        N = [rand_nat(r, lower(pool)) for _ in range(3)]
        objs = [mkrule(r, z) for z in R] + [mk_nat(z) for z in N]
        tg = [mkrule(r, z) for z in T]
        rules = ACLRules()
        rules.rules = list(objs)
        ctx.case((R, T, N))
        s = snapshot([rules, tg])
        a = rules.filter(tg)
        ctx.eq("unchanged", s, snapshot([rules, tg]))
        b = rules.filter(tg)
        ctx.ok("same result", a == b and a is not b)
        a.clear()
        ctx.eq("unchanged", s, snapshot([rules, tg]))
    ctx.part("configurations", "filters over generated ASA, IOS and pfSense configurations")
    n = 0
    while ctx.left() and n < cap(ctx, 45):
        n += 1
        k = n % 3
        g = [asa.Gen, ios.Gen, pf.Gen][k](r)
        s = g.config()
        c = parse([fwsmConfig, iosConfig, pfsenseConfig][k], s)
        config(ctx, r, c, s, 4, lits(c))
