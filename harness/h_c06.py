"""NAT entries as filter targets, and filtering of a whole configuration."""
from .cfgs import *
from .caf import *
from acltk import ACLConfig
from .h_c02 import rule as mkrule, IDS

# node kinds of the four places of a NAT entry
SRC = ["host", "net", "any", "obj", "iface", "group"]
DST = ["any", "obj", "iface", "group"]


def rand_node(r, kinds, pool):
    if r.random() < 0.25:
        return None
    p = [x for x in pool if x[0] in kinds]
    if p and r.random() < 0.6:
        return r.choice(p)
    k = r.choice(kinds)
    while True:
        d = rand_expr(r, 2 if k in ("obj", "group") else 0, None)
        if d[0] == k:
            return d


def rand_nat(r, pool):
    return {
        "real": (rand_node(r, SRC, pool), rand_node(r, DST, pool)),
        "mapped": (rand_node(r, SRC, pool), rand_node(r, DST, pool)),
        "empty": r.random() < 0.5,
    }


class If:
    def __init__(self, n):
        self.nameif = n
        self.alias = n


def mk_nat(d, options=None):
    e = d["empty"]  # a missing address is given as no node, or as a node without address

    def rn(x):
        return NATRealNode(build(x)) if x else (NATRealNode(None) if e else None)

    s, t = d["real"]
    real = NATReal(If("inside"), rn(s), rn(t), None)
    s, t = d["mapped"]
    ms = NATMappedSource("static", build(s), None) if s else (NATMappedSource("static", None, None) if e else None)
    md = NATMappedDestination(build(t)) if t else (NATMappedDestination(None) if e else None)
    return NATObject(real, NATMapped(If("outside"), ms, md, None), None, options)


def m_nat(i, src, dst, z):
    """a condition selects the entry: every stated address of one side"""
    for side in ("real", "mapped"):
        s, d = z[side]
        if s is None and d is None:
            continue
        if (s is None or any(ov(a, s) for a in src)) and (d is None or any(ov(a, d) for a in dst)):
            return True
    return False


def run(ctx):
    r = ctx.rng
    ctx.part("condition & entry", "one condition, one NAT entry; every combination of stated and missing addresses")
    n = 0
    while ctx.left(0.35) and n < cap(ctx, 5000):
        n += 1
        pool = rand_pool(r)
        z = rand_nat(r, lower(pool))
        c = {"id": r.choice(IDS), "src": rand_lit(r, pool), "dst": rand_lit(r, pool)}
        if r.random() < 0.3:
            c["src"] = ("group", "", [rand_lit(r, pool) for _ in range(2)])
        if r.random() < 0.3:
            c["dst"] = ("any",)
        ctx.case((c, z))
        rl, nat = mkrule(r, c), mk_nat(z)
        want = m_nat(None, [c["src"]], [c["dst"]], z)
        ctx.eq("rule & nat", want, bool(rl & nat))
        ctx.eq("nat & rule", want, bool(nat & rl))
        l = ACLRules()
        l.add(nat)
        ctx.eq("filter", {nat} if want else set(), l.filter([rl]))
    ctx.part("configuration", "random filters over up to 10 rules and up to 10 NAT entries in all three sections")
    n = 0
    while ctx.left(0.85) and n < cap(ctx, 700):
        n += 1
        pool = rand_pool(r)
        f = rand_filter(r, r.choice([0, 1, 2]), pool)
        t = text(r, f)
        if len(t) > 2500:
            continue
        R = rand_rules(r, r.randrange(0, 11), lower(pool))
        N = [rand_nat(r, lower(pool)) for _ in range(r.randrange(0, 11))]
        c = r.choice([ACLConfig, fwsmConfig])([])
        objs = [mkrule(r, z) for z in R]
        c.rules.rules = list(objs)
        nats = []
        for z in N:
            o = mk_nat(z)
            c.nat[r.choice([1, 2, 3])].append(o)
            nats.append(o)
        ctx.case((t, R, N))
        with limit(20), silent():
            res = c.filter(cafBlock.fromString(t))
        pos = {id(o): ("rule", i) for i, o in enumerate(objs)}
        pos.update({id(o): ("nat", i) for i, o in enumerate(nats)})
        want = {("rule", i) for i in ev(f, R, m_rule)} | {("nat", i) for i in ev(f, N, m_nat)}
        ctx.eq("selected", want, {pos.get(id(o), "?") for o in res})
    ctx.part("parsed configuration", "ASA configurations with NAT statements, filters over their addresses")
    n = 0
    while ctx.left() and n < cap(ctx, 40):
        n += 1
        g = asa.Gen(r)
        s = g.config(defs=5, uses=6, nats=8)
        c = parse(fwsmConfig, s)
        nats = [x for k in c.nat.values() for x in k]
        N = [nat_desc(x) for x in nats]
        R = [rule_desc(x) for x in c.rules.rules]
        if any(x is None for x in R):
            continue
        lits = [l for x in N for sd in ("real", "mapped") for y in x[sd] if y for l in leaves(y) if l[0] in ("host", "net", "any", "any4", "any6")]
        for _ in range(4):
            f = rand_filter(r, 1, lits or None)
            t = text(r, f)
            if len(t) > 2500:
                continue
            ctx.case((t, s))
            with limit(20), silent():
                res = c.filter(cafBlock.fromString(t))
            pos = {id(o): ("rule", i) for i, o in enumerate(c.rules.rules)}
            pos.update({id(o): ("nat", i) for i, o in enumerate(nats)})
            want = {("rule", i) for i in ev(f, R, m_rule)} | {("nat", i) for i in ev(f, N, m_nat)}
            ctx.eq("selected", want, {pos.get(id(o), "?") for o in res})


def desc(h):
    """descriptor of a model address"""
    if type(h) is NetworkHost:
        return ("host", h.address.version, int(h.address))
    if type(h) is Network:
        return ("net", h.network.version, int(h.network.network_address), h.network.prefixlen)
    if type(h) is NetworkWildcard:
        return ("wild", h.address.version, int(h.address), int(h.wildcard))
    if type(h) in (NetworkAny, NetworkAny4, NetworkAny6):
        return (type(h).__name__[7:].lower(),)
    if type(h) is NetworkInterface:
        return ("iface", h.name)
    if type(h) is NetworkObject:
        return ("obj", h.name, [desc(x) for x in h.addresses])
    if type(h) is NetworkGroup:
        return ("group", h.name, [desc(x) for x in h.objects])
    return None


def nat_desc(n):
    d = {}
    for side in ("real", "mapped"):
        x = getattr(n, side)
        d[side] = tuple(desc(y.node) if y and y.node else None for y in (x.src, x.dst))
    return d


def rule_desc(x):
    a, b = desc(x.src.host), desc(x.dst.host)
    if a is None or b is None:
        return None
    return {"id": x.id, "src": a, "dst": b}
