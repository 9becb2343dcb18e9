"""Random groups of the five kinds (real objects) and views on them."""
from .addr import *

NUMS = ["0", "1", "6", "17", "50", "58", "99", "100", "255"]
PN = ["0", "7", "9", "10", "22", "80", "443", "99", "100", "1023", "8080", "65535"]
NAMED = ["www", "ssh", "domain", "ftp-data", "https"]
KINDS5 = ["network", "port", "service", "protocol", "icmp"]
CLS5 = {"network": NetworkGroup, "port": PortGroup, "service": ServiceGroup, "protocol": ProtocolGroup, "icmp": ICMPGroup}


def rport(r, named=0.25):
    if r.random() < 0.3:
        a, b = sorted(r.sample(range(0, 65536), 2))
        return PortRange(str(a), str(b))
    return Port(r.choice(["eq", "gt", "lt", "neq"]), r.choice(NAMED) if r.random() < named else r.choice(PN))


def rservice(r, named=0.25, obj=True):
    p = Protocol(r.choice(["tcp", "udp", "tcp", "udp", "icmp", "gre", "17", "6"]))
    kw = dict(protocol=p)
    if p.name in ("tcp", "udp"):
        if r.random() < 0.6:
            kw["src"] = rport(r, named)
        if r.random() < 0.7:
            kw["dst"] = rport(r, named)
    if p.name == "icmp":
        kw["icmp_type"] = r.choice(["echo", "8", "3"])
        if r.random() < 0.5:
            kw["icmp_code"] = r.choice(["0", "1", "13"])
    if obj and r.random() < 0.4:
        return ServiceObject(f"so{r.randrange(9)}", r.choice([None, "d"]), **kw)
    return Service(**kw)


def member(r, kind, named=0.25):
    if kind == "network":
        while True:
            d = rand_expr(r, 1)
            if d[0] not in ("wild", "iface", "group"):
                return build(d)
    if kind == "port":
        return rport(r, named)
    if kind == "service":
        return rservice(r, named)
    if kind == "protocol":
        return Protocol(r.choice(NUMS + (["tcp", "udp", "gre"] if named else [])))
    return ICMP(r.choice(["echo", "8", "3", "unreachable"]), r.choice([None, "0", "1"]))


def new(r, kind, name):
    d = r.choice([None, "", "text"])
    if kind == "port":
        return PortGroup(name, Protocol(r.choice(["tcp", "udp", "tcp-udp"])), d)
    return CLS5[kind](name, d)


def group(r, kind, depth=3, pool=None, named=0.25):
    """pool: groups made so far, which are nested again (shared members)"""
    pool = [] if pool is None else pool
    g = new(r, kind, f"{kind}{len(pool)}-{r.randrange(100)}")
    for _ in range(r.choice([0, 1, 2, 3, 4])):
        if depth and r.random() < 0.4:
            if pool and r.random() < 0.4:
                g.add(r.choice(pool))
            else:
                g.add(group(r, kind, depth - 1, pool, named))
        elif g.objects and r.random() < 0.2:
            g.add(r.choice(g.objects))
        else:
            g.add(member(r, kind, named))
    pool.append(g)
    return g


def flat(objects):
    """the members in order, groups replaced by theirs, network objects by their addresses"""
    out = []
    for o in objects:
        if isinstance(o, (NetworkGroup, PortGroup, ServiceGroup, ProtocolGroup, ICMPGroup)):
            out += flat(o.objects)
        elif type(o) is NetworkObject:
            out += o.addresses
        else:
            out.append(o)
    return out


def view(o):
    """a member after expansion: by identity, a named service by its fields"""
    if isinstance(o, ServiceObject):
        return ("service of", o.protocol, o.src, o.dst, o.icmp_type, o.icmp_code)
    return o


def same(want, got):
    """got: the members expected in want"""
    if len(want) != len(got):
        return False
    for w, g in zip(want, got):
        if isinstance(w, ServiceObject):
            if type(g) is not Service or not (
                g.protocol is w.protocol and g.src is w.src and g.dst is w.dst and g.icmp_type == w.icmp_type and g.icmp_code == w.icmp_code
            ):
                return False
        elif w is not g:
            return False
    return True


def dump(o, depth=0):
    """text of a group with its members, to name the case"""
    if isinstance(o, (NetworkGroup, PortGroup, ServiceGroup, ProtocolGroup, ICMPGroup)):
        return f"{type(o).__name__}({o.name}: " + ", ".join(dump(i) for i in o.objects) + ")"
    if type(o) is NetworkObject:
        return f"NetworkObject({o.name}: " + ", ".join(dump(i) for i in o.addresses) + ")"
    return repr(o)
