from .common import *
from .caf import *

OPS = ["union", "intersect", "except"]


def check(ctx, f, R, objs, rules, txt):
    ctx.case((txt, R))
    with limit(20):
        res = cafBlock.fromString(txt).run(rules)
    pos = {id(o): i for i, o in enumerate(objs)}
    ctx.eq("selected positions", ev(f, R, m_rule), {pos.get(id(o)) for o in res})


def mk(r, R):
    rules = ACLRules()
    objs = [mkrule(r, z) for z in R]
    rules.rules = list(objs)
    return objs, rules


def run(ctx):
    r = ctx.rng
    import itertools

    ctx.part("operator chains", "every chain of up to 5 operators (363) over id clauses, on 6 single-id rules + overlapping globs")
    ids = ["r0", "r1", "r2", "r3", "r4", "r5"]
    pats = ["/r[012]/", "/r[0345]/", "/r[13]/", "/r[!2]/", "/r[45]/", "/r*/"]
    R = [{"id": i, "src": ("any",), "dst": ("any",)} for i in ids]
    objs, rules = mk(r, R)
    for n in range(1, 6):
        for ops in itertools.product(OPS, repeat=n):
            perm = r.sample(pats, n + 1)
            f = ("chain", [("clause", p, []) for p in perm], list(ops))
            check(ctx, f, R, objs, rules, text(r, f))
    ctx.part("long chains", "chains of 6 to 39 operators: random operators, and a single intersect / except / union at every position")
    for n, step in ((8, 1), (16, 3), (28, 3)):
        for at in range(n - 1, -1, -step):
            for op, rest in (("intersect", "union"), ("except", "union"), ("union", "intersect")):
                ops = [rest] * n
                ops[at] = op
                # one clause is needed on either side of the operator for the result to show it
                ps = [r.choice(pats) for _ in range(n + 1)]
                f = ("chain", [("clause", p, []) for p in ps], ops)
                check(ctx, f, R, objs, rules, text(r, f))
    for _ in range(100):
        n = r.randrange(6, 40)
        f = ("chain", [("clause", r.choice(pats), []) for _ in range(n + 1)], [r.choice(OPS) for _ in range(n)])
        check(ctx, f, R, objs, rules, text(r, f))
    ctx.part("one operator", "each operator applied to two clauses / blocks, results compared as sets")
    for op in OPS:
        for a in pats:
            for b in pats:
                f = ("chain", [("clause", a, []), ("clause", b, [])], [op])
                check(ctx, f, R, objs, rules, text(r, f))
                fa = ("chain", [f[1][0]], [])
                g = ("chain", [("block", None, fa), ("block", None, ("chain", [("block", None, f)], []))], [op])
                check(ctx, g, R, objs, rules, text(r, g))
    ctx.part("random filters", "chains up to 5 items, brackets nested to depth 4, 10 rules")
    while ctx.left() and (ctx.tier != "quick" or ctx.evaluations < 2500):
        pool = rand_pool(r)
        R = rand_rules(r, 10, lower(pool))
        f = rand_filter(r, 4, pool)
        objs, rules = mk(r, R)
        t = text(r, f)
        if len(t) > 2500:
            continue
        check(ctx, f, R, objs, rules, t)
        # wrapping an expression in brackets changes nothing
        check(ctx, f, R, objs, rules, "(" + t + ")")
