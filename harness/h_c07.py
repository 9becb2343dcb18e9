"""Expansion of groups."""
from .cfgs import *
from .groups import *
from acltk import ACLConfig

GROUPS = (NetworkGroup, PortGroup, ServiceGroup, ProtocolGroup, ICMPGroup)


def inplace(ctx, r, kind):
    pool = []
    g = group(r, kind, 3, pool)
    before = list(g.objects)
    want = flat(before)
    ctx.case("expand " + dump(g))
    others = [(x, snapshot(x)) for x in pool if x is not g]
    name, desc = g.name, g.description
    probes = [build(rand_leaf(r, ["host", "net", "wild"])) for _ in range(6)] if kind == "network" else []
    m = [bool(g & p) for p in probes]
    with limit(20):
        res = g.expand()
    ctx.ok("expand() returns the group", res is g)
    ctx.ok("members", same(want, g.objects), [dump(x) for x in want], [dump(x) for x in g.objects])
    ctx.ok("no group left", not any(isinstance(x, GROUPS) for x in g.objects))
    ctx.eq("name and description", (name, desc), (g.name, g.description))
    for x, s in others:
        ctx.eq("nested groups unchanged", s, snapshot(x))
    ctx.eq("matched addresses", m, [bool(g & p) for p in probes])
    once = list(g.objects)
    g.expand()
    ctx.ok("expanding twice", same(once, g.objects), [dump(x) for x in once], [dump(x) for x in g.objects])


def copy(ctx, r, kind):
    pool = []
    g = group(r, kind, 3, pool)
    want = flat(g.objects)
    ctx.case("expand copy " + dump(g))
    s = [snapshot(x) for x in pool]
    objs = g.objects
    with limit(20):
        res = g.expand(insitu=False)
    ctx.ok("a new group", res is not g and type(res) is type(g) and res.objects is not g.objects)
    ctx.eq("name", g.name, res.name)
    ctx.eq("description", g.description, res.description)
    if kind == "port":
        ctx.ok("protocol", res.protocol is g.protocol)
    ctx.ok("members", same(want, res.objects), [dump(x) for x in want], [dump(x) for x in res.objects])
    ctx.ok("original keeps its member list", g.objects is objs)
    ctx.eq("original and nested groups unchanged", s, [snapshot(x) for x in pool])
    if r.random() < 0.5:
        res.objects.append(None)
        res.objects.clear()
        ctx.eq("original does not follow the copy", s, [snapshot(x) for x in pool])


def config(ctx, r):
    c = r.choice([ACLConfig, fwsmConfig])([])
    pools = {}
    for k in KINDS5:
        pool = []
        for _ in range(r.choice([1, 2, 3])):
            group(r, k, 2, pool)
        t = getattr(c.groups, k)
        l = list(pool)
        r.shuffle(l)
        for i, g in enumerate(l):
            t[f"{g.name}/{i}"] = g
        pools[k] = pool
    want = {k: {n: flat(g.objects) for n, g in getattr(c.groups, k).items()} for k in KINDS5}
    ctx.case("config " + "; ".join(dump(g) for p in pools.values() for g in p))
    with limit(20):
        c.expand()
    for k in KINDS5:
        t = getattr(c.groups, k)
        ctx.eq("names", list(want[k]), list(t))
        for n, g in t.items():
            if k == "service":
                # a member that is shared between groups may have become a service before
                ctx.ok(f"{k} group", [d_s(x) for x in want[k][n]] == [d_s(x) for x in g.objects], [dump(x) for x in want[k][n]], [dump(x) for x in g.objects])
            else:
                ctx.ok(f"{k} group", same(want[k][n], g.objects), [dump(x) for x in want[k][n]], [dump(x) for x in g.objects])
            ctx.ok("only services", not any(isinstance(x, ServiceObject) for x in g.objects))


def d_s(x):
    return (id(x.protocol), id(x.src), id(x.dst), x.icmp_type, x.icmp_code)


def run(ctx):
    r = ctx.rng
    ctx.part("in place", "groups of the five kinds, nested to depth 3, shared groups and repeated members")
    n = 0
    while ctx.left(0.4) and n < cap(ctx, 3000):
        n += 1
        inplace(ctx, r, KINDS5[n % 5])
    ctx.part("copy", "expand(insitu=False)")
    n = 0
    while ctx.left(0.7) and n < cap(ctx, 3000):
        n += 1
        copy(ctx, r, KINDS5[n % 5])
    ctx.part("configuration", "ACLConfig.expand() over tables of groups that contain each other, in any order")
    n = 0
    while ctx.left(0.9) and n < cap(ctx, 400):
        n += 1
        config(ctx, r)
    ctx.part("parsed configuration", "expand() of parsed ASA configurations")
    n = 0
    while ctx.left() and n < cap(ctx, 20):
        n += 1
        g = asa.Gen(r)
        s = g.config(defs=20, uses=4, nats=0)
        ctx.case(s)
        c = parse(fwsmConfig, s)
        want = {k: {x: flat(y.objects) for x, y in getattr(c.groups, k).items()} for k in KINDS5}
        c.expand()
        for k in KINDS5:
            for x, y in getattr(c.groups, k).items():
                w = want[k][x]
                if k == "service":
                    ctx.ok("members", [d_s(i) for i in w] == [d_s(i) for i in y.objects] and not any(isinstance(i, ServiceObject) for i in y.objects), w, y.objects)
                else:
                    ctx.ok("members", same(w, y.objects), w, y.objects)
