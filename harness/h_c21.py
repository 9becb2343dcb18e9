"""Static routes and the interfaces they are attached to."""
from .cfgs import *


def judge(ctx, g, c):
    e, t = ios.expected(g), ios.tables(c)
    compare(ctx, "routes", e["routes"], t["routes"])
    compare(ctx, "attached", e["attached"], t["attached"])
    for i in c.interfaces.values():
        for r in i.routes:
            ctx.ok("attached routes are routes of the configuration", any(r is x for x in c.routes))


def run(ctx):
    ctx.part("IOS", "generated configurations with about 8 interfaces (several and overlapping networks) and 20 static routes with gateways inside, at the edge of and next to the networks")
    ios_loop(ctx, 1, cap(ctx, 300), judge, kinds=["interface"], defs=8, uses=20, use=["route"])
