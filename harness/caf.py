"""CAF filters: random structured filters, rendering to text, oracle."""
from .addr import *
from .h_c02 import idm, IDS, rule as mkrule
from acltk.cafObjects import cafBlock

CIDS = ["inside_in", "outside_in", "/in*/", "/*_in/", "101", "/10?/", "inside", "INSIDE_IN", "/*/", "/[!o]*/", "a-b.c"]


def lit_txt(d):
    if d[0] == "host":
        return str(ip(d[1], d[2]))
    if d[0] == "net":
        return f"{ip(d[1], d[2])}/{d[3]}"
    return d[0]


def rand_lit(r, pool=None):
    if pool and r.random() < 0.6:
        return r.choice(pool)
    k = r.choice(["host", "host", "net", "net", "any", "any4", "any6", "ANY", "ANY4", "ANY6"])
    if k in ("host", "net"):
        return rand_leaf(r, [k])
    return (k,)


def rand_clause(r, pool=None):
    parts = []
    for _ in range(r.choice([0, 1, 1, 2, 2, 3, 4])):
        parts.append((r.choice(["src", "dst"]), [rand_lit(r, pool) for _ in range(r.choice([1, 1, 2, 3]))]))
    i = r.choice(CIDS) if (r.random() < 0.4 or not parts) else None
    return ("clause", i, parts)


def rand_filter(r, depth=3, pool=None):
    """chain of items; an item is a clause, a bracketed filter, or an id in front of a bracketed filter"""
    n = r.choice([1, 1, 2, 2, 3, 4, 5])
    items = []
    for _ in range(n):
        if depth and r.random() < 0.35:
            items.append(("block", r.choice(CIDS) if r.random() < 0.25 else None, rand_filter(r, depth - 1, pool)))
        else:
            items.append(rand_clause(r, pool))
    return ("chain", items, [r.choice(["union", "intersect", "except"]) for _ in range(n - 1)])


def ws(r):
    return r.choice([" ", " ", "\n", "\t", "  \n  "])


def cm(r):
    return r.choice(["", "", "", "", " /* c */ ", "/* ip src 1.1.1.1 */", " /* a * b / ( */\n/* id x */ ", "/***/", " /* src any **/ ", "/** dst 1.2.3.4 ***/ /*/ */"])


def text(r, f):
    k = f[0]
    if k == "clause":
        t = cm(r)
        if f[1] is not None:
            t += "id" + ws(r) + f[1] + ws(r)
        for d, l in f[2]:
            t += cm(r) + "ip" + ws(r) + d + ws(r) + ws(r).join(lit_txt(x) for x in l) + ws(r)
        return t + cm(r)
    if k == "block":
        t = cm(r)
        if f[1] is not None:
            t += "id" + ws(r) + f[1] + ws(r)
        return t + "(" + r.choice(["", ws(r)]) + text(r, f[2]) + r.choice(["", ws(r)]) + ")" + r.choice(["", ws(r)]) + cm(r)
    t = text(r, f[1][0])
    for op, i in zip(f[2], f[1][1:]):
        t += ws(r) + op + ws(r) + text(r, i)
    return t


def ev(f, Z, m):
    """positions of Z selected by the filter; m(idpart, srcs, dsts, z) decides one clause"""
    k = f[0]
    if k == "clause":
        src = [x for d, l in f[2] if d == "src" for x in l] or [("any",)]
        dst = [x for d, l in f[2] if d == "dst" for x in l] or [("any",)]
        return {i for i, z in enumerate(Z) if m(f[1], src, dst, z)}
    if k == "block":
        s = ev(f[2], Z, m)
        if f[1] is not None:
            s = {i for i in s if m(f[1], [("any",)], [("any",)], Z[i])}
        return s
    vals = [ev(i, Z, m) for i in f[1]]
    ops = list(f[2])
    i = 0
    while i < len(ops):
        if ops[i] == "intersect":
            vals[i : i + 2] = [vals[i] & vals[i + 1]]
            del ops[i]
        else:
            i += 1
    v = vals[0]
    for o, x in zip(ops, vals[1:]):
        v = v | x if o == "union" else v - x
    return v


def m_rule(i, src, dst, z):
    return idm(i, z["id"]) and any(ov(a, z["src"]) for a in src) and any(ov(a, z["dst"]) for a in dst)


def rand_rules(r, n, pool):
    R = []
    for _ in range(n):
        d = {"id": r.choice(["inside_in", "outside_in", "101", "102", "inside", "a-b.c", "", None])}
        for s in ("src", "dst"):
            d[s] = r.choice(pool) if r.random() < 0.6 else rand_expr(r, 2)
        R.append(d)
    return R


def rand_pool(r):
    return [rand_lit(r) for _ in range(5)]


def lower(pool):
    """rule addresses from filter literals"""
    return [(x[0].lower(),) if x[0] in ("ANY", "ANY4", "ANY6") else x for x in pool]
