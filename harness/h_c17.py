"""Every access-list entry keeps its action, list, protocol, addresses, ports, icmp entry, options and remarks."""
from .cfgs import *


def judge_asa(ctx, g, c):
    compare(ctx, "rules", g.exp["rules"], [asa.d_rule(x) for x in c.rules.rules])


def judge_ios(ctx, g, c):
    compare(ctx, "rules", g.exp["rules"], [ios.d_rule(x) for x in c.rules.rules])


def run(ctx):
    ctx.part("ASA", "generated configurations, about 30 access-list entries each: extended, standard, webtype, icmp, every address and port form")
    asa_loop(ctx, 0.55, cap(ctx, 70), judge_asa, uses=30, nats=0)
    ctx.part("IOS", "generated configurations, about 30 entries each: named and numbered, standard and extended, IPv6")
    ios_loop(ctx, 1, cap(ctx, 90), judge_ios, uses=25)
