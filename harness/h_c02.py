import fnmatch

from .common import *
from .addr import *

IDS = [None, "", "inside_in", "outside_in", "inside", "/in*/", "/*_in/", "/inside_in/", "/[io]n*/", "101", "/10?/", "/*/", "INSIDE_IN", "inside_in2", "/inside/", "a/b", "/IN*/"]


def idm(a, b):
    """ids of filter a and rule b match"""
    if not a or not b:
        return True
    ga = len(a) > 2 and a[0] == "/" == a[-1]
    gb = len(b) > 2 and b[0] == "/" == b[-1]
    if ga:
        return fnmatch.fnmatchcase(b, a[1:-1])
    if gb:
        return fnmatch.fnmatchcase(a, b[1:-1])
    return a == b


def rule(r, d):
    opts = {"log": ACLRuleOptionLog([])} if r.random() < 0.3 else None
    return ACLRule(
        line=r.choice([None, 1]),
        id=d["id"],
        extended=r.choice(["extended", "standard", None]),
        mode=r.choice(["permit", "deny"]),
        protocol=r.choice([None, Protocol("tcp"), Protocol("ip"), ProtocolGroup("x", "")]),
        src=ACLNode(build(d["src"]), r.choice([None, Port("eq", "80"), PortRange("1", "9")])),
        dst=ACLNode(build(d["dst"]), r.choice([None, Port("eq", "80"), PortRange("1", "9")])),
        remark=r.choice([None, ["x"]]),
        options=opts,
    )


def rd(r, filt=False):
    return {"id": r.choice(IDS), "src": rand_expr(r, 1), "dst": rand_expr(r, 1)}


def match(t, z):
    return idm(t["id"], z["id"]) and ov(t["src"], z["src"]) and ov(t["dst"], z["dst"])


def run(ctx):
    r = ctx.rng
    ctx.part("rule & rule", "all id pairs of a pool of 17 x random addresses")
    for a in IDS:
        for b in IDS:
            for _ in range(2):
                x, y = rd(r), rd(r)
                x["id"], y["id"] = a, b
                if r.random() < 0.6:
                    x["src"] = x["dst"] = ("any",)
                ctx.case(("rule", x, y))
                ctx.eq("rule & rule", match(x, y), bool(rule(r, x) & rule(r, y)))
    ctx.part("filter", "random rule lists up to 12 rules, up to 3 conditions")
    n = 0
    while ctx.left() and n < (3000 if ctx.tier == "quick" else 10**9):
        n += 1
        R = [rd(r) for _ in range(r.randrange(0, 12))]
        T = [rd(r) for _ in range(r.randrange(0, 4))]
        if r.random() < 0.5:
            for t in T:
                t["src"] = ("any",)
        ctx.case(("filter", R, T))
        rules = ACLRules()
        objs = [rule(r, z) for z in R]
        for o in objs:
            rules.add(o)
        res = rules.filter([rule(r, t) for t in T])
        want = {i for i, z in enumerate(R) if any(match(t, z) for t in T)}
        pos = {id(o): i for i, o in enumerate(objs)}
        ctx.ok("only rules of the list are returned", all(id(o) in pos for o in res))
        ctx.eq("selected rules (positions)", want, {pos.get(id(o)) for o in res})
        ctx.eq("rule list unchanged", objs, rules.rules)
