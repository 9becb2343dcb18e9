"""References resolve to the definition with exactly that name and kind."""
import itertools

from .cfgs import *


def judge_asa(ctx, g, c):
    # the descriptors carry the content of the referenced definition at that place of the text
    compare(ctx, "rules", [(r["proto"], r["src"], r["dst"], r["icmp"], r["opts"]) for r in g.exp["rules"]],
            [(r["proto"], r["src"], r["dst"], r["icmp"], r["opts"]) for r in map(asa.d_rule, c.rules.rules)])
    e, t = asa.expected(g), asa.tables(c)
    for k in ("gnetwork", "gport", "gservice", "gicmp", "gprotocol"):
        compare(ctx, k, e[k], t[k])
    compare(ctx, "nat", {k: [(x["real"], x["mapped"], x["fallback"]) for x in v] for k, v in e["nat"].items()}, {k: [(x["real"], x["mapped"], x["fallback"]) for x in v] for k, v in t["nat"].items()})
    # the very object of the table, where the name was defined once only
    text = "\n".join(g.lines)

    def once(kw, n):
        return sum(1 for l in g.lines if l.split()[: len(kw.split()) + 1] == kw.split() + [n]) == 1

    for r in c.rules.rules:
        for n in (r.src, r.dst):
            h = n.host
            if type(h) is asa.NetworkGroup and once("object-group network", h.name):
                ctx.ok(f"rule address is the group {h.name}", h is c.groups.network[h.name])
            if type(h) is asa.NetworkObject and once("object network", h.name):
                ctx.ok(f"rule address is the object {h.name}", h is c.objects.network[h.name])
            if type(n.port) is asa.PortGroup and once("object-group service", n.port.name):
                ctx.ok(f"rule port is the group {n.port.name}", n.port is c.groups.port[n.port.name])
        tr = r.options.get("time-range")
        if tr is not None and once("time-range", tr.name):
            ctx.ok(f"time range {tr.name}", tr is c.objects.time[tr.name])


def judge_ios(ctx, g, c):
    e, t = ios.expected(g), ios.tables(c)
    compare(ctx, "rules", [(r["proto"], r["src"], r["dst"]) for r in e["rules"]], [(r["proto"], r["src"], r["dst"]) for r in t["rules"]])
    for k in ("gnetwork", "gport", "gservice", "gprotocol", "routes"):
        compare(ctx, k, e[k], t[k])


NAMES = ["a", "ab", "a-b", "a-b-c", "a.b", "a_b", "A", "abc", "b", "1", "10", "100", "any", "host", "inside", "in"]
RESERVED = ("any", "host")  # words of the syntax where an address is due
# kind, how it is defined, how it is referred to, what the reference is
KINDS = {
    "network object": (lambda n, i: [f"object network {n}", f" host 10.0.0.{i}"], lambda n: f"access-list t extended permit ip object {n} any", lambda c: c.rules.rules[0].src.host, lambda x, i: str(x.addresses[0].address) == f"10.0.0.{i}"),
    "network group": (lambda n, i: [f"object-group network {n}", f" network-object host 10.0.0.{i}"], lambda n: f"access-list t extended permit ip object-group {n} any", lambda c: c.rules.rules[0].src.host, lambda x, i: str(x.objects[0].address) == f"10.0.0.{i}"),
    "port group": (lambda n, i: [f"object-group service {n} tcp", f" port-object eq {i}"], lambda n: f"access-list t extended permit tcp any any object-group {n}", lambda c: c.rules.rules[0].dst.port, lambda x, i: x.objects[0].num == str(i)),
    "service group": (lambda n, i: [f"object-group service {n}", f" service-object {i}"], lambda n: f"access-list t extended permit object-group {n} any any", lambda c: c.rules.rules[0].protocol, lambda x, i: x.objects[0].protocol.name == str(i)),
    "protocol group": (lambda n, i: [f"object-group protocol {n}", f" protocol-object p{i}"], lambda n: f"access-list t extended permit object-group {n} any any", lambda c: c.rules.rules[0].protocol, lambda x, i: x.objects[0].name == f"p{i}"),
    "service object": (lambda n, i: [f"object service {n}", f" service {i}"], lambda n: f"access-list t extended permit object {n} any any", lambda c: c.rules.rules[0].protocol, lambda x, i: x.protocol.name == str(i)),
    "icmp group": (lambda n, i: [f"object-group icmp-type {n}", f" icmp-object {i}"], lambda n: f"access-list t extended permit icmp any any object-group {n}", lambda c: c.rules.rules[0].icmp, lambda x, i: x.objects[0].type == str(i)),
    "time range": (lambda n, i: [f"time-range {n}", f" absolute start 10:{i:02d} 01 May 2012"], lambda n: f"access-list t extended permit ip any any time-range {n}", lambda c: c.rules.rules[0].options["time-range"], lambda x, i: x.objects[0].start.minute == i),
    "name": (lambda n, i: [f"name 10.0.0.{i} {n}"], lambda n: f"access-list t extended permit ip host {n} any", lambda c: c.rules.rules[0].src.host, lambda x, i: str(x.address) == f"10.0.0.{i}"),
    "name of a network": (lambda n, i: [f"name 10.0.{i}.0 {n}"], lambda n: f"access-list t extended permit ip any {n} 255.255.255.0", lambda c: c.rules.rules[0].dst.host, lambda x, i: str(x.network) == f"10.0.{i}.0/24"),
    "interface": (lambda n, i: [f"interface Vlan{i}", f" nameif {n}"], lambda n: f"nat ({n},{n}) source static any any", lambda c: (c.nat[1][0].real.iface.name, c), lambda x, i: x[1].interfaces[f"Vlan{i}"].nameif == x[0]),
    "member group": (lambda n, i: [f"object-group network {n}", f" network-object host 10.0.0.{i}"], lambda n: f"object-group network zz\n group-object {n}", lambda c: c.groups.network["zz"].objects[0], lambda x, i: str(x.objects[0].address) == f"10.0.0.{i}"),
    "member object": (lambda n, i: [f"object network {n}", f" host 10.0.0.{i}"], lambda n: f"object-group network zz\n network-object object {n}", lambda c: c.groups.network["zz"].objects[0], lambda x, i: str(x.addresses[0].address) == f"10.0.0.{i}"),
}
DECOYS = ["network object", "network group", "port group", "service object", "icmp group", "time range"]


def direct(ctx):
    """one reference among definitions whose names are prefixes of each other, plus the same name in other kinds"""
    r = ctx.rng
    k = r.choice(sorted(KINDS))
    define, refer, get, good = KINDS[k]
    names = r.sample([n for n in NAMES if not (n in RESERVED and k.startswith('name')) and not (k in ("interface", "name", "name of a network") and n[0].isdigit())], r.choice([1, 2, 3, 5]))
    if k == "interface":
        names = [n for n in names if n != "any"] or ["inside"]
    L = []
    for i, n in enumerate(names):
        L += define(n, i + 1)
    target = r.choice(names)
    want = names.index(target) + 1
    again = k != "network object" and k != "member object" and k != "interface" and r.random() < 0.3
    if again:
        L += define(target, 50)
        want = 50
    for d in r.sample(DECOYS, 2):
        confusing = {"service group", "protocol group", "port group", k}
        if d in confusing or {d, k} <= {"network group", "member group"} or {d, k} <= {"network object", "member object"}:
            continue
        L += KINDS[d][0](target, 77 if d != "time range" else 59)
    s = "\n".join(L + refer(target).split("\n")) + "\n"
    ctx.case(s)
    x = get(parse(fwsmConfig, s))
    ctx.ok(f"reference to the {k} {target}", good(x, want), f"definition number {want}", repr(x))
    # not defined at all: never another object
    undef = r.choice([n for n in NAMES + [target + "x", target + "-1", target[:-1] + "q", target.swapcase() if target.isalpha() else "Q"] if n not in names and n != "any"])
    if k in ("name", "name of a network", "interface") and (undef[0].isdigit() or undef in RESERVED):
        return
    s = "\n".join(L + refer(undef).split("\n")) + "\n"
    ctx.case(s)
    try:
        c = parse(fwsmConfig, s)
    except Exception:
        return
    try:
        x = get(c)
    except Exception:
        return
    ctx.fail(f"reference to the {k} {undef} which is not defined", "refused", repr(x))


def run(ctx):
    ctx.part("one reference", "one reference of each of 13 kinds among up to 5 definitions with names that are prefixes of each other, decoys of other kinds, and references to undefined names")
    n = 0
    while ctx.left(0.4) and n < cap(ctx, 900):
        n += 1
        direct(ctx)
    ctx.part("ASA", "generated configurations with colliding names of all kinds")
    asa_loop(ctx, 0.8, cap(ctx, 70), judge_asa)
    ctx.part("IOS", "generated configurations")
    ios_loop(ctx, 1, cap(ctx, 50), judge_ios)
