from .common import *
from .addr import *
from .h_c01 import corpus


def one(ctx, a, b):
    ctx.case((a, b))
    with limit(10):
        r = build(a) & build(b)
    ctx.eq("ANY/ANY4/ANY6 & address", ov(a, b), bool(r))


def run(ctx):
    r = ctx.rng
    L, C = corpus()
    ctx.part("matrix", "ANY, ANY4, ANY6 alone and as list member x boundary values of all kinds")
    for k in ("ANY", "ANY4", "ANY6"):
        for b in L + C:
            one(ctx, (k,), b)
            one(ctx, ("group", "", [(k,), ("host", 4, 5)]), b)
            one(ctx, ("group", "", [("host", 4, 5), (k,)]), b)
    ctx.part("random", "random rule addresses nested to depth 4; as list member")
    n = 0
    while ctx.left(0.5) and n < 12000:
        n += 1
        b = rand_expr(r, 4)
        k = r.choice(("ANY", "ANY4", "ANY6"))
        one(ctx, (k,), b)
        one(ctx, ("group", "", [rand_leaf(r, ["host", "net", "any4", "any6"]) for _ in range(r.randrange(3))] + [(k,)]), b)
    ctx.part("end to end", "CAF text with ANY kinds over one rule per address kind")
    from acltk.cafObjects import cafBlock

    for k in ("ANY", "ANY4", "ANY6"):
        for side in ("src", "dst"):
            for extra in ("", " 9.9.9.9"):
                caf = cafBlock.fromString(f"ip {side} {k}{extra}\n")
                rules = ACLRules()
                ds = L + C
                for b in ds:
                    n1, n2 = ACLNode(build(b)), ACLNode(NetworkHost("8.8.8.8"))
                    rules.add(ACLRule(src=n1 if side == "src" else n2, dst=n2 if side == "src" else n1))
                res = caf.run(rules)
                for b, o in zip(ds, rules.rules):
                    ctx.case(("caf", k, side, extra, b))
                    want = lit(k, b) or (bool(extra) and share(("host", 4, int(ipaddress.ip_address("9.9.9.9"))), b))
                    ctx.eq("selected by CAF", want, o in res)
