from .common import *
from .addr import *


def corpus():
    """every pair of kinds with boundary values, both versions"""
    L = []
    for v in (4, 6):
        b, f, a = BITS[v], FULL[v], POOL[v][0]
        L += [("host", v, a), ("host", v, a ^ 1), ("host", v, 0), ("host", v, f), ("host", v, POOL[4][0])]
        L += [("net", v, a, b), ("net", v, a, b - 1), ("net", v, a, 24), ("net", v, a, 0), ("net", v, a ^ (1 << 8), 16), ("net", v, a, 1)]
        L += [("wild", v, a, 0), ("wild", v, a, 255), ("wild", v, a, 0xFF00), ("wild", v, a, f), ("wild", v, a ^ 0x100, 0x0100), ("wild", v, a, 1 << (b - 1)), ("wild", v, a, 5)]
    L += [("any",), ("any4",), ("any6",), ("iface", "inside")]
    C = [("group", "e", []), ("obj", "e", [])]
    for l in L:
        if l[0] not in ("wild", "iface"):
            C.append(("group", "g", [l]))
        if l[0] in ("host", "net", "any", "any4", "any6"):
            C.append(("obj", "o", [l]))
    C += [("group", "g", [("group", "i", [("host", 4, POOL[4][0])]), ("any6",)]), ("group", "g", [("obj", "o", [("any",)])]), ("group", "g", [("host", 6, 1), ("net", 4, POOL[4][0], 24)])]
    return L, C


def one(ctx, a, b):
    ctx.case(("match", a, b))
    x, y = build(a), build(b)
    with limit(10):
        r = x & y
    ctx.ok("the answer is yes or no", r is True or r is False, "True or False", r)
    ctx.eq("address & address", ov(a, b), r)


def run(ctx):
    L, C = corpus()
    ctx.part("pair matrix", "all ordered pairs of boundary values of the 9 kinds, IPv4 and IPv6")
    for a in L + C:
        for b in L + C:
            one(ctx, a, b)
            if not ctx.left(0.6):
                break
    ctx.part("random", "random expressions, groups nested to depth 3, up to 4 members")
    while ctx.left():
        one(ctx, rand_expr(ctx.rng, 3), rand_expr(ctx.rng, 3))
        if ctx.evaluations > 40000 and ctx.tier == "quick":
            break
