from .common import *
from .caf import *


def check(ctx, f, R, objs, rules, txt):
    ctx.case((txt, R))
    with limit(20):
        res = cafBlock.fromString(txt).run(rules)
    pos = {id(o): i for i, o in enumerate(objs)}
    ctx.eq("selected positions", ev(f, R, m_rule), {pos.get(id(o)) for o in res})


def mk(r, R):
    rules = ACLRules()
    objs = [mkrule(r, z) for z in R]
    rules.rules = list(objs)
    return objs, rules


def literals(ctx):
    ctx.part("literals", "hosts, networks with host bits and every prefix length, the six any keywords")
    r = ctx.rng
    for v in (4, 6):
        for n in POOL[v]:
            cases = [(("host", v, n), str(ip(v, n)))] + [(("net", v, n, p), f"{ip(v, n)}/{p}") for p in range(0, BITS[v] + 1, 1 if v == 4 else 7)]
            for d, t in cases:
                c = cafBlock.fromString(f"ip src {t}\n")
                h = c.expr.src.host
                ctx.case(("lit", t))
                b = [n, n ^ 1, n ^ 0x100, 0, FULL[v], n ^ (1 << (BITS[v] - 1))] + [addrs(r, v) for _ in range(3)]
                for w, x in [(v, x) for x in b] + [(10 - v, addrs(r, 10 - v))]:
                    ctx.eq(f"{t} contains {ip(w, x)}", covers(d, w, x), bool(h & build(("host", w, x))))


def run(ctx):
    r = ctx.rng
    literals(ctx)
    ctx.part("clauses", "one clause: id, up to 4 src/dst parts with up to 3 literals, 12 rules; comments and white space at random")
    n = 0
    while ctx.left(0.6) and (ctx.tier != "quick" or n < 2000):
        n += 1
        pool = rand_pool(r)
        R = rand_rules(r, 12, lower(pool))
        f = ("chain", [rand_clause(r, pool)], [])
        objs, rules = mk(r, R)
        check(ctx, f, R, objs, rules, text(r, f))
    ctx.part("id blocks", "id in front of a bracketed expression, nested to depth 3")
    n = 0
    while ctx.left() and (ctx.tier != "quick" or n < 600):
        n += 1
        pool = rand_pool(r)
        R = rand_rules(r, 12, lower(pool))
        f = ("chain", [("block", r.choice(CIDS), rand_filter(r, 2, pool))], [])
        objs, rules = mk(r, R)
        t = text(r, f)
        if len(t) < 2500:
            check(ctx, f, R, objs, rules, t)
