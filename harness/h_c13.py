"""Every item of the input is in the parsed configuration exactly once, in order and in its own table."""
from .cfgs import *




def proj(rules):
    return [(r["id"], r["mode"], tuple(r["remark"])) for r in rules]


class Numbered(asa.Gen):
    k = 0

    def remarks(self, i):
        self.k += 1
        t = f"rule number {self.k}"
        self.lines.append(f"access-list {i} remark {t}")
        return [t]


class NumberedIos(ios.Gen):
    k = 0

    def iremarks(self, prefix):
        self.k += 1
        t = f"rule number {self.k}"
        self.lines.append(f"{prefix}remark {t}")
        return [t]


KEYS_ASA = ["network", "service", "time", "gnetwork", "gport", "gservice", "gicmp", "gprotocol", "interfaces", "bindings", "names", "hostname", "empty"]
KEYS_IOS = ["gnetwork", "gport", "gservice", "gprotocol", "interfaces", "bindings", "routes", "hostname", "domain", "nat"]


def judge_asa(ctx, g, c):
    e, t = asa.expected(g), asa.tables(c)
    compare(ctx, "rules", proj(e["rules"]), proj(t["rules"]))
    compare(ctx, "nat", {k: [(x["real"][0], x["mapped"][0], x["type"], x["desc"], sorted(x["opts"])) for x in v] for k, v in e["nat"].items()},
            {k: [(x["real"][0], x["mapped"][0], x["type"], x["desc"], sorted(x["opts"])) for x in v] for k, v in t["nat"].items()})
    for k in KEYS_ASA:
        compare(ctx, k, e[k], t[k])
    ctx.ok("no item twice", len(set(map(id, c.rules.rules))) == len(c.rules.rules))


def judge_ios(ctx, g, c):
    e, t = ios.expected(g), ios.tables(c)
    compare(ctx, "rules", proj(e["rules"]), proj(t["rules"]))
    for k in KEYS_IOS:
        compare(ctx, k, e[k], t[k])
    compare(ctx, "order of interfaces", list(e["interfaces"]), list(t["interfaces"]))


def run(ctx):
    asa_, ios_ = asa.Gen, ios.Gen
    try:
        asa.Gen, ios.Gen = Numbered, NumberedIos
        ctx.part("ASA", "generated configurations of about 60 lines: names, interfaces, objects and groups of every kind with colliding and repeated names, rules, NAT, bindings")
        asa_loop(ctx, 0.35, cap(ctx, 60), judge_asa, use=["acl", "acl", "acl", "access_group"])
        ctx.part("ASA repeated definitions", "many definitions of few names")
        asa_loop(ctx, 0.6, cap(ctx, 60), judge_asa, defs=30, uses=4, nats=6)
        ctx.part("IOS", "generated configurations of about 55 lines")
        ios_loop(ctx, 1, cap(ctx, 150), judge_ios)
    finally:
        asa.Gen, ios.Gen = asa_, ios_
