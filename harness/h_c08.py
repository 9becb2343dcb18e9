"""Collapsing of network groups."""
from .cfgs import *
from .groups import *


def ivals(objs):
    """covered addresses as sorted disjoint intervals; any members left out"""
    out = []
    for o in objs:
        if type(o) is NetworkHost:
            out.append((o.address.version, int(o.address), int(o.address)))
        elif type(o) is Network:
            out.append((o.network.version, int(o.network.network_address), int(o.network.broadcast_address)))
    out.sort()
    res = []
    for v, a, b in out:
        if res and res[-1][0] == v and a <= res[-1][2] + 1:
            if b > res[-1][2]:
                res[-1] = (v, res[-1][1], b)
        else:
            res.append((v, a, b))
    return res


def disjoint(objs):
    l = []
    for o in objs:
        if type(o) is NetworkHost:
            l.append((o.address.version, int(o.address), int(o.address)))
        else:
            l.append((o.network.version, int(o.network.network_address), int(o.network.broadcast_address)))
    l.sort()
    return all(x[0] != y[0] or x[2] < y[1] for x, y in zip(l, l[1:]))


def leaf(r):
    k = r.random()
    if k < 0.12:
        return build((r.choice(["any", "any4", "any6"]),))
    v = r.choice([4, 4, 6])
    b = BITS[v]
    if k < 0.5:
        # neighbours, so that merging happens
        return build(("host", v, (addrs(r, v) & ~7) | r.randrange(8)))
    return build(("net", v, addrs(r, v), r.choice([0, 1, 8, 16, 23, 24, 25, 28, 29, 30, 31, 32, b - 1, b, r.randint(0, b)])))


def judge(ctx, want, res):
    ctx.ok("only hosts and networks", all(type(o) in (NetworkHost, Network) for o in res.objects), "hosts and networks", res.objects)
    ctx.eq("covered addresses", want, ivals(res.objects))
    ctx.ok("no overlap", disjoint(res.objects), "disjoint entries", res.objects)


def flatgroup(r, deep):
    g = NetworkGroup("g", r.choice([None, "d"]))
    for _ in range(r.choice([0, 1, 2, 3, 5, 8, 12])):
        k = r.random()
        if deep and k < 0.15:
            o = NetworkObject("o", "")
            o.addresses = [leaf(r) for _ in range(r.choice([0, 1, 2, 3]))]
            g.add(o)
        elif deep and k < 0.35:
            g.add(flatgroup(r, deep - 1))
        else:
            g.add(r.choice(g.objects) if g.objects and k > 0.93 else leaf(r))
    return g


def run(ctx):
    r = ctx.rng
    ctx.part("in place", "groups of up to 12 hosts, networks and any members of both families")
    n = 0
    while ctx.left(0.4) and n < cap(ctx, 4000):
        n += 1
        g = flatgroup(r, 0)
        ctx.case("collapse " + dump(g))
        members = [snapshot(o) for o in g.objects]
        olds = list(g.objects)
        want = ivals(g.objects)
        name = g.name
        with limit(20):
            res = g.collapse()
        ctx.ok("returns the group", res is g and g.name == name)
        judge(ctx, want, g)
        ctx.eq("former members unchanged", members, [snapshot(o) for o in olds])
        if r.random() < 0.2:
            g.collapse()
            judge(ctx, want, g)
    ctx.part("copy", "nested groups and objects, collapse(insitu=False)")
    n = 0
    while ctx.left(0.75) and n < cap(ctx, 4000):
        n += 1
        g = flatgroup(r, r.choice([0, 1, 2, 3]))
        ctx.case("collapse copy " + dump(g))
        want, s, objs = ivals(flat(g.objects)), snapshot(g), g.objects
        with limit(20):
            res = g.collapse(insitu=False)
        ctx.ok("a new group", res is not g and isinstance(res, NetworkGroup))
        judge(ctx, want, res)
        ctx.ok("original keeps its list", g.objects is objs)
        ctx.eq("original unchanged", s, snapshot(g))
        res.objects.clear()
        ctx.eq("original does not follow the copy", s, snapshot(g))
    ctx.part("refused", "in-place collapse of groups with groups or objects among their members")
    n = 0
    while ctx.left() and n < cap(ctx, 1500):
        n += 1
        g = flatgroup(r, r.choice([1, 2]))
        if not any(isinstance(o, (NetworkGroup, NetworkObject)) for o in g.objects):
            x = flatgroup(r, 0) if r.random() < 0.5 else build(("obj", "o", [rand_leaf(r, ["host", "net"]) for _ in range(r.randrange(3))]))
            g.objects.insert(r.randint(0, len(g.objects)), x)
        ctx.case("refuse " + dump(g))
        s = snapshot(g)
        try:
            with limit(20):
                g.collapse()
        except Exception:
            ctx.eq("unchanged", s, snapshot(g))
        else:
            ctx.fail("in-place collapse", "an error", dump(g))
