"""Sorting of groups."""
from .cfgs import *
from .groups import *

SORTABLE = ["network", "port", "service", "protocol"]


def pnum(p):
    """documented number of a port, None for names"""
    if p is None:
        return 0
    x = p.start if isinstance(p, PortRange) else p.num
    return int(x) if x.isdigit() else None


def key(kind, o):
    """the documented key, None where there is none"""
    if kind == "network":
        if type(o) is Network:
            return int(o.network.network_address)
        return int(o.address) if type(o) is NetworkHost else None
    if kind == "port":
        return pnum(o) if isinstance(o, (Port, PortRange)) else None
    if kind == "service":
        if not isinstance(o, Service):
            return None
        a, b = pnum(o.src), pnum(o.dst)
        return None if a is None or b is None else (o.protocol.name, a, b)
    return int(o.name) if isinstance(o, Protocol) and o.name.isdigit() else None


def multiset(l):
    return collections.Counter(map(id, l))


def judge(ctx, kind, want, got):
    ctx.ok("same members", multiset(want) == multiset(got), [dump(x) for x in want], [dump(x) for x in got])
    k = [x for x in (key(kind, o) for o in got) if x is not None]
    ctx.ok("ascending", all(a <= b for a, b in zip(k, k[1:])), sorted(k), k)


def rgroup(r, kind, named):
    pool = []
    return group(r, kind, r.choice([0, 0, 1, 2]), pool, named), pool


def wide(r, kind):
    """many members with a number as key"""
    g = new(r, kind, "wide")
    for _ in range(r.randrange(2, 15)):
        if kind == "network":
            g.add(build(rand_leaf(r, ["host", "net"])))
        else:
            g.add(member(r, kind, 0))
    return g, [g]


def run(ctx):
    r = ctx.rng
    ctx.part("in place", "groups of the sortable kinds, also nested and with names")
    n = 0
    while ctx.left(0.5) and n < cap(ctx, 4000):
        n += 1
        kind = SORTABLE[n % 4]
        g, pool = wide(r, kind) if r.random() < 0.5 else rgroup(r, kind, r.choice([0, 0.3]))
        ctx.case("sort " + dump(g))
        want = list(g.objects)
        inner = [(x, snapshot(x)) for x in want]
        name = (g.name, g.description)
        with limit(20):
            res = g.sort()
        ctx.ok("returns the group", res is g)
        judge(ctx, kind, want, g.objects)
        ctx.eq("name", name, (g.name, g.description))
        for x, s in inner:
            ctx.eq("members unchanged", s, snapshot(x))
    ctx.part("copy", "sort(insitu=False)")
    n = 0
    while ctx.left() and n < cap(ctx, 4000):
        n += 1
        kind = SORTABLE[n % 4]
        g, pool = wide(r, kind) if r.random() < 0.5 else rgroup(r, kind, r.choice([0, 0.3]))
        ctx.case("sort copy " + dump(g))
        want = flat(g.objects) if kind == "port" else list(g.objects)
        s, objs = [snapshot(x) for x in pool], g.objects
        order = list(objs)
        with limit(20):
            res = g.sort(insitu=False)
        ctx.ok("another group", res is not g and type(res) is type(g) and res.objects is not g.objects)
        ctx.eq("name", g.name, res.name)
        judge(ctx, kind, want, res.objects)
        ctx.ok("original list", g.objects is objs and all(a is b for a, b in zip(order, objs)) and len(order) == len(objs))
        ctx.eq("original unchanged", s, [snapshot(x) for x in pool])
        res.objects.clear()
        ctx.eq("original does not follow the copy", s, [snapshot(x) for x in pool])
