"""Address expressions: descriptors, construction of the real objects, oracle on the descriptors."""
import ipaddress

from acltk.aclObjects import *
from acltk.cafObjects import cafNetworkAny, cafNetworkAny4, cafNetworkAny6

FULL = {4: 2**32 - 1, 6: 2**128 - 1}
BITS = {4: 32, 6: 128}
KINDS = ["host", "net", "wild", "any", "any4", "any6", "iface", "obj", "group"]


def ip(v, n):
    return ipaddress.IPv4Address(n) if v == 4 else ipaddress.IPv6Address(n)


def build(d):
    k = d[0]
    if k == "host":
        return NetworkHost(str(ip(d[1], d[2])))
    if k == "net":
        return Network(str(ip(d[1], d[2])), d[3])
    if k == "wild":
        return NetworkWildcard(str(ip(d[1], d[2])), str(ip(d[1], d[3])))
    if k == "any":
        return NetworkAny()
    if k == "any4":
        return NetworkAny4()
    if k == "any6":
        return NetworkAny6()
    if k == "iface":
        return NetworkInterface(d[1])
    if k == "ANY":
        return cafNetworkAny()
    if k == "ANY4":
        return cafNetworkAny4()
    if k == "ANY6":
        return cafNetworkAny6()
    if k == "obj":
        o = NetworkObject(d[1], "")
        o.addresses = [build(i) for i in d[2]]
        return o
    if k == "group":
        g = NetworkGroup(d[1], "")
        for i in d[2]:
            g.add(build(i))
        return g
    raise KeyError(k)


def leaves(d):
    k = d[0]
    if k in ("obj", "group"):
        r = []
        for i in d[2]:
            r += leaves(i)
        return r
    return [d]


def sets(d):
    """the (version, base, wild) sets of one leaf"""
    k = d[0]
    if k == "host":
        return [(d[1], d[2], 0)]
    if k == "net":
        return [(d[1], d[2], (1 << (BITS[d[1]] - d[3])) - 1)]
    if k == "wild":
        return [(d[1], d[2], d[3])]
    if k == "any4":
        return [(4, 0, FULL[4])]
    if k == "any6":
        return [(6, 0, FULL[6])]
    if k in ("any", "iface"):
        return [(4, 0, FULL[4]), (6, 0, FULL[6])]
    raise KeyError(k)


def hasany(d):
    return any(l[0] in ("any", "iface") for l in leaves(d))


def share(a, b):
    sa = [s for l in leaves(a) for s in sets(l)]
    sb = [s for l in leaves(b) for s in sets(l)]
    return any(v == w and ((x ^ y) & ~m & ~n) == 0 for v, x, m in sa for w, y, n in sb)


def lit(caf, d):
    return any(l[0] == caf.lower() for l in leaves_groups(d))


def leaves_groups(d):
    if d[0] == "group":
        r = []
        for i in d[2]:
            r += leaves_groups(i)
        return r
    return [d]


def ov(a, b):
    """expected answer of build(a) & build(b)"""
    if a[0] == "group" and any(l[0] in ("ANY", "ANY4", "ANY6") for l in leaves(a)):
        return any(ov(i, b) for i in a[2])
    if a[0] in ("ANY", "ANY4", "ANY6"):
        return lit(a[0], b)
    return hasany(a) or share(a, b)


def covers(d, v, n):
    """address n of version v belongs to the expression"""
    return any(w == v and ((n ^ x) & ~m) == 0 for l in leaves(d) for w, x, m in sets(l))


def addrs(r, v):
    """a small pool of related addresses so that matches and near misses are frequent"""
    pool = POOL[v]
    k = r.random()
    if k < 0.75:
        n = r.choice(pool)
        if r.random() < 0.4:
            n ^= 1 << r.choice([0, 1, 7, 8, 15, 16, 24, 31] + ([32, 63, 64, 96, 127] if v == 6 else []))
        return n
    if k < 0.85:
        return r.choice([0, FULL[v]])
    return r.getrandbits(BITS[v])


_a = int(ipaddress.ip_address("10.1.2.3"))
_b = int(ipaddress.ip_address("2001:db8::1:2"))
POOL = {
    4: [_a, _a & ~0xFF, _a | 0xFF, _a + 1, int(ipaddress.ip_address("192.168.0.1")), int(ipaddress.ip_address("10.1.0.0")), 1, 2**31],
    6: [_b, _b & ~0xFFFF, _a, _b + 1, _b | (1 << 32), int(ipaddress.ip_address("fe80::1")), 0xFFFF0A010203, 1],
}


def rand_leaf(r, kinds=None):
    k = r.choice(kinds or ["host", "net", "wild", "host", "net", "any", "any4", "any6", "iface"])
    v = r.choice([4, 4, 4, 6])
    if k == "host":
        return ("host", v, addrs(r, v))
    if k == "net":
        b = BITS[v]
        p = r.choice([0, 1, 8, 15, 16, 17, 23, 24, 25, 30, 31, 32, r.randint(0, b)] + ([64, 96, 127, 128] if v == 6 else []))
        return ("net", v, addrs(r, v), p)
    if k == "wild":
        w = r.choice([0, 1, 2, 255, 0x0F00, 0xFF00, 0x00FF00FF, 0x80000000, FULL[v], FULL[v] - 1, r.getrandbits(BITS[v]), 1 << r.randrange(BITS[v])])
        return ("wild", v, addrs(r, v), w & FULL[v])
    if k == "iface":
        return ("iface", r.choice(["inside", "outside"]))
    return (k,)


def rand_expr(r, depth=2, kinds=None):
    if depth and r.random() < 0.45:
        if r.random() < 0.3 and (kinds is None or "obj" in kinds):
            n = r.choice([0, 1, 1, 2, 3])
            return ("obj", f"o{r.randrange(99)}", [rand_leaf(r, ["host", "net", "net", "any", "any4", "any6"]) for _ in range(n)])
        n = r.choice([0, 1, 2, 3, 4])
        return ("group", f"g{r.randrange(99)}", [rand_member(r, depth - 1) for _ in range(n)])
    return rand_leaf(r, [k for k in kinds if k not in ("obj", "group")] if kinds else None)


def rand_member(r, depth):
    """what a group may contain"""
    while True:
        d = rand_expr(r, depth)
        if d[0] not in ("wild", "iface"):
            return d


def snapshot(o, seen=None):
    """deep content of a model object, by value; shared objects by identity"""
    seen = {} if seen is None else seen
    if o is None or isinstance(o, (str, int, float, bool, bytes, type)):
        return o
    if isinstance(o, (ipaddress._BaseAddress, ipaddress._BaseNetwork)):
        return str(o)
    if id(o) in seen:
        return ("seen", seen[id(o)])
    seen[id(o)] = len(seen)
    if isinstance(o, dict):
        return (type(o).__name__, [(snapshot(k, seen), snapshot(v, seen)) for k, v in list(o.items())])
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, [snapshot(i, seen) for i in o])
    if isinstance(o, (set, frozenset)):
        return (type(o).__name__, sorted((id(i), repr(snapshot(i, seen))) for i in o))
    if hasattr(o, "__dict__"):
        return (type(o).__name__, id(o), [(k, snapshot(v, seen)) for k, v in sorted(o.__dict__.items())])
    return repr(o)
