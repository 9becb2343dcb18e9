"""Object definitions denote exactly the stated addresses."""
import ipaddress

from .cfgs import *
from .addr import FULL, BITS, ip, addrs

INT = lambda s: int(ipaddress.ip_address(s))


def pieces(L):
    """sorted disjoint intervals (version, first, last) of a list of model addresses"""
    out = []
    for x in L:
        if type(x) is asa.NetworkHost:
            out.append((x.address.version, int(x.address), int(x.address)))
        elif type(x) is asa.Network:
            n = x.network
            out.append((n.version, int(n.network_address), int(n.broadcast_address)))
        elif type(x) is asa.NetworkAny4:
            out.append((4, 0, FULL[4]))
        elif type(x) is asa.NetworkAny6:
            out.append((6, 0, FULL[6]))
        elif type(x) is asa.NetworkAny:
            out += [(4, 0, FULL[4]), (6, 0, FULL[6])]
        else:
            out.append(("?", type(x).__name__, 0))
    return merge(out)


def merge(L):
    L = sorted(L)
    r = []
    for v, a, b in L:
        if r and r[-1][0] == v and a <= r[-1][2] + 1:
            r[-1] = (v, r[-1][1], max(b, r[-1][2]))
        else:
            r.append((v, a, b))
    return r


def netrange(v, a, p):
    m = (1 << (BITS[v] - p)) - 1
    return (v, a & ~m & FULL[v], a | m)


def obj(ctx, line, exp, name="o"):
    s = f"object network {name}\n {line}\n"
    ctx.case(s)
    c = parse(fwsmConfig, s)
    o = c.objects.network[name]
    ctx.eq("name", name, o.name)
    ctx.eq("addresses", merge(exp), pieces(o.addresses))
    return o


def member(ctx, line, exp, pre="", name=None):
    s = f"{pre}object-group network g\n {line}\n"
    ctx.case(s)
    c = parse(fwsmConfig, s)
    m = c.groups.network["g"].objects
    ctx.eq("members", 1, len(m))
    ctx.eq("addresses", merge([exp]), pieces(m))
    ctx.eq("name", name, m[0].target.hostname if m[0].target else None)
    if name:
        ctx.ok("the defined name", m[0].target is c.names.objects[0])


def run(ctx):
    r = ctx.rng
    M = lambda p: str(ipaddress.IPv4Network(f"0.0.0.0/{p}").netmask)
    ctx.part("all masks", "subnet, group member and direct construction with every prefix length 0-32 and 0-128, host bits set")
    for p in range(33):
        a = addrs(r, 4)
        obj(ctx, f"subnet {ip(4, a)} {M(p)}", [netrange(4, a, p)])
        a = r.getrandbits(32)
        member(ctx, f"network-object {ip(4, a)} {M(p)}", netrange(4, a, p))
        for f in (str(p), M(p), p):
            a = r.getrandbits(32)
            ctx.case(("Network", str(ip(4, a)), f))
            ctx.eq("Network(address, mask)", [netrange(4, a, p)], pieces([asa.Network(str(ip(4, a)), f)]))
            ctx.case(("Network", ip(4, a), f))
            ctx.eq("Network(address, mask)", [netrange(4, a, p)], pieces([asa.Network(ip(4, a), f)]))
    for p in range(129) if ctx.tier != "quick" else sorted(set([0, 1, 32, 47, 48, 63, 64, 65, 96, 126, 127, 128] + r.sample(range(129), 20))):
        a = r.getrandbits(128) | (1 << 120)
        obj(ctx, f"subnet {ip(6, a)}/{p}", [netrange(6, a, p)])
        member(ctx, f"network-object {ip(6, a)}/{p}", netrange(6, a, p))
        ctx.case(("Network", str(ip(6, a)), p))
        ctx.eq("Network(address, prefix)", [netrange(6, a, p)], pieces([asa.Network(str(ip(6, a)), p)]))
    ctx.part("fqdn", "the three limits")
    obj(ctx, "fqdn www.example.com", [(4, 0, FULL[4]), (6, 0, FULL[6])])
    obj(ctx, "fqdn v4 www.example.com", [(4, 0, FULL[4])])
    obj(ctx, "fqdn v6 www.example.com", [(6, 0, FULL[6])])
    ctx.part("ranges", "IPv4 and IPv6 ranges of boundary and random length, hosts, names")
    n = 0
    while ctx.left(0.6) and n < cap(ctx, 400):
        n += 1
        v = r.choice([4, 4, 6])
        a = addrs(r, v)
        b = min(FULL[v], a + r.choice([0, 1, 2, 3, 254, 255, 256, 257, 65535, r.getrandbits(20), r.getrandbits(BITS[v] - 1)]))
        if v == 6 and a < 2**32:
            a, b = a | (1 << 112), b | (1 << 112)
            b = max(a, b)
        o = obj(ctx, f"range {ip(v, a)} {ip(v, b)}", [(v, a, b)])
        x = sum(int(i.network.num_addresses) for i in o.addresses if type(i) is asa.Network)
        if all(type(i) is asa.Network for i in o.addresses):
            ctx.eq("number of addresses", b - a + 1, x)
        a = addrs(r, v) | ((1 << 112) if v == 6 else 0)
        obj(ctx, f"host {ip(v, a)}", [(v, a, a)])
        member(ctx, f"network-object host {ip(v, a)}", (v, a, a))
        nm = r.choice(["alpha", "alpha-2", "b.c"])
        member(ctx, f"network-object host {nm}", (v, a, a), f"name {ip(v, a)} {nm}\n", nm)
        p = r.randint(0, 32)
        if v == 4:
            member(ctx, f"network-object {nm} {M(p)}", netrange(4, a, p), f"name {ip(v, a)} {nm}\n", nm)
        ctx.case(("NetworkObject", v, a, b))
        if a <= b:
            ctx.eq("NetworkObject range", [(v, a, b)], pieces(asa.NetworkObject("o", None, "range", start=str(ip(v, a)), stop=str(ip(v, b))).addresses))
    ctx.part("ASA", "generated configurations with objects and groups")
    asa_loop(ctx, 1, cap(ctx, 40), judge, kinds=["name", "object_network", "group_network"], defs=30, uses=5, nats=0)


def judge(ctx, g, c):
    e, t = asa.expected(g), asa.tables(c)
    for k in ("network", "gnetwork"):
        compare(ctx, k, e[k], t[k])
    compare(ctx, "addresses of rules", [(x["src"][0], x["dst"][0]) for x in e["rules"]], [(x["src"][0], x["dst"][0]) for x in t["rules"]])
