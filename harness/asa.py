"""Random ASA/FWSM configurations together with the model they must be parsed into (independent of the code under test).

Gen(r).config() -> text; g.exp holds the expected rules, tables and NAT entries as plain tuples."""
import ipaddress

from acltk.aclObjects import *
from acltk.fwsmObjects import Webtype, fwsmConfig
from acltk import ACLConfig

PORTS = ["www", "https", "ssh", "domain", "ftp", "ftp-data", "sip", "snmp", "snmptrap", "ldap", "ldaps", "rip", "radius", "radius-acct", "who", "whois", "time", "pop3"]
PROTOS = ["ip", "tcp", "udp", "gre", "esp", "ah", "ahp", "ospf", "igmp", "igrp", "eigrp", "ipinip", "ipsec", "pim", "pcp", "snp", "nos"]
ICMPT = ["echo", "echo-reply", "echo-request", "redirect", "unreachable", "host-unreachable", "time-exceeded", "timestamp-reply", "traceroute"]
DAYS = ["Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday", "Sunday"]
MONTHS = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"]
BASE = ["web", "web-1", "web-10", "web-100", "we", "db", "db.a", "db.ab", "DMZ", "DMZ_x", "dmz", "host1", "host11", "any-net", "inside-net", "n1", "n10", "N1", "srv", "srv2"]


def num(x):
    return x


# ------------------------------------------------------------------ descriptors of the real objects
def d_addr(h):
    if type(h) is NetworkHost:
        return ("host", str(h.address), h.target.hostname if h.target else None)
    if type(h) is Network:
        return ("net", str(h.network), h.target.hostname if h.target else None)
    if type(h) is NetworkWildcard:
        return ("wild", str(h.address), str(h.wildcard))
    if type(h) in (NetworkAny, NetworkAny4, NetworkAny6):
        return (type(h).__name__[7:].lower(),)
    if type(h) is NetworkInterface:
        return ("iface", h.name)
    if type(h) is NetworkObject:
        return ("obj", h.name, tuple(d_addr(x) for x in h.addresses))
    if type(h) is NetworkGroup:
        return ("group", h.name, tuple(d_addr(x) for x in h.objects))
    if type(h) is Webtype:
        return ("url", h.url)
    return ("?", type(h).__name__)


def d_port(p):
    if p is None or isinstance(p, str):
        return p
    if type(p) is Port:
        return ("port", p.op, p.num)
    if type(p) is PortRange:
        return ("range", p.start, p.stop)
    if type(p) is PortGroup:
        return ("pgroup", p.name, tuple(d_port(x) for x in p.objects))
    return ("?", type(p).__name__)


def d_proto(p):
    if p is None:
        return None
    if type(p) is Protocol:
        return ("proto", p.name)
    if isinstance(p, (ServiceGroup, ServiceObject, ProtocolGroup)):
        return d_member(p)
    return ("?", type(p).__name__, getattr(p, "name", None))


def d_icmp(i):
    if i is None:
        return None
    if type(i) is ICMP:
        return ("icmp", i.type, i.code)
    return ("icmpgroup", i.name, tuple(d_icmp(x) for x in i.objects))


def d_node(n):
    return (d_addr(n.host), d_port(n.port))


def d_rule(x):
    return {
        "id": x.id,
        "ext": x.extended,
        "mode": x.mode,
        "proto": d_proto(x.protocol),
        "src": d_node(x.src),
        "dst": d_node(x.dst),
        "icmp": d_icmp(x.icmp),
        "opts": {k: ((v.name, [d_time(o) for o in v.objects]) if isinstance(v, TimeRange) else type(v).__name__) for k, v in x.options.items()},
        "remark": list(x.remark),
    }


def d_service(s):
    if s is None:
        return None
    if type(s) is ServiceObject:
        return ("sobj", s.name, d_service_full(s))
    return ("service", s.protocol.name, d_port(s.src), d_port(s.dst), s.icmp_type, s.icmp_code)


def d_service_full(s):
    return (s.protocol.name, d_port(s.src), d_port(s.dst), s.icmp_type, s.icmp_code)


def d_member(m):
    if isinstance(m, (Port, PortRange, PortGroup)):
        return d_port(m)
    if type(m) is ServiceGroup:
        return ("sgroup", m.name, tuple(d_member(x) for x in m.objects))
    if isinstance(m, Service):
        return d_service(m)
    if type(m) is Protocol:
        return ("proto", m.name)
    if type(m) is ProtocolGroup:
        return ("prgroup", m.name, tuple(d_member(x) for x in m.objects))
    if isinstance(m, (ICMP, ICMPGroup)):
        return d_icmp(m)
    return d_addr(m)


def d_time(o):
    if type(o) is TimeRangeObjectAbsolute:
        return ("abs", o.start, o.end)
    days = lambda x: [] if x is None else list(x) if isinstance(x, (list, tuple)) else [x]
    return ("per", days(o.startDays), o.startTime, o.endTime, days(o.endDays))


def d_nat(n):
    def node(x):
        return None if x is None or x.node is None else d_addr(x.node)

    fb = getattr(n.mapped.src, "fallback", None) if n.mapped.src else None
    return {
        "real": (n.real.iface.name, node(n.real.src), node(n.real.dst), d_service(n.real.service)),
        "mapped": (n.mapped.iface.name, node(n.mapped.src), node(n.mapped.dst), d_service(n.mapped.service)),
        "type": n.mapped.src.type if n.mapped.src else None,
        "fallback": None if not fb else d_addr(fb.interface),
        "desc": n.description,
        "opts": {k: v for k, v in n.options.items()},
    }


def tables(c):
    """the tables of a parsed configuration as plain data"""
    o, g = c.objects, c.groups
    return {
        "rules": [d_rule(x) for x in c.rules.rules],
        "nat": {k: [d_nat(x) for x in v] for k, v in c.nat.items()},
        "network": {k: (v.name, [d_addr(x) for x in v.addresses]) for k, v in o.network.items()},
        "service": {k: (v.name, d_service_full(v)) for k, v in o.service.items()},
        "time": {k: (v.name, [d_time(x) for x in v.objects]) for k, v in o.time.items()},
        "gnetwork": {k: (v.name, [d_addr(x) for x in v.objects]) for k, v in g.network.items()},
        "gport": {k: (v.name, v.protocol.name, [d_port(x) for x in v.objects]) for k, v in g.port.items()},
        "gservice": {k: (v.name, [d_member(x) for x in v.objects]) for k, v in g.service.items()},
        "gicmp": {k: (v.name, [d_icmp(x) for x in v.objects]) for k, v in g.icmp.items()},
        "gprotocol": {k: (v.name, [d_member(x) for x in v.objects]) for k, v in g.protocol.items()},
        "interfaces": {k: (v.alias, v.nameif, {d: (a.name, a.direction, a.iface is v) for d, a in v.access_groups.items()}) for k, v in c.interfaces.items()},
        "bindings": {k: [(a.name, a.direction, a.iface.alias) for a in v] for k, v in c.access_groups.items() if v},
        "names": [(n.hostname, str(n.address)) for n in c.names.objects],
        "hostname": c.hostname,
        "empty": [len(o.port), len(o.protocol), len(o.icmp), len(g.time)],
    }


def expected(g):
    e = g.exp
    ifs = {a: (a, n, {}) for a, n in e["interfaces"]}
    by = {n: a for a, n in e["interfaces"] if n}
    b = {}
    for name, d, i in e["access"]:
        ifs[by[i]][2][d] = (name, d, True)
        b.setdefault(name, []).append((name, d, by[i]))
    m = {k: {n: (n, list(v)) for n, v in e[k].items()} for k in ("network", "time", "gnetwork", "gservice", "gicmp", "gprotocol")}
    m.update(
        rules=e["rules"], nat=e["nat"], service={n: (n, v) for n, v in e["service"].items()},
        gport={n: (n, v[0], list(v[1])) for n, v in e["gport"].items()},
        interfaces=ifs, bindings=b, names=e["names"], hostname=e["hostname"], empty=[0, 0, 0, 0],
    )
    return m


# ------------------------------------------------------------------ generator
class Gen:
    def __init__(self, r, minimal=False):
        self.r = r
        self.lines = []
        self.names = {}  # hostname -> ip text (latest)
        self.ifaces = {}  # lookup name -> nameif or alias
        self.nameifs = {}  # nameif -> alias
        self.netobj = {}  # parse time: name -> addresses; first definition wins
        self.netgrp = {}
        self.svcobj = {}
        self.svcgrp = {}
        self.portgrp = {}
        self.icmpgrp = {}
        self.protgrp = {}
        self.times = {}
        self.exp = {
            "rules": [], "nat": {1: [], 2: [], 3: []}, "network": {}, "service": {}, "time": {}, "gnetwork": {}, "gport": {}, "gservice": {},
            "gicmp": {}, "gprotocol": {}, "interfaces": [], "access": [], "names": [], "hostname": "", "domain": "",
        }
        self.n = 0

    def ref(self, kind, n):
        """what a reference to n must denote here: the definition made last (first for network objects) with its content"""
        t = {"obj": self.netobj, "group": self.netgrp, "pgroup": self.portgrp, "sgroup": self.svcgrp, "sobj": self.svcobj, "prgroup": self.protgrp, "icmpgroup": self.icmpgrp}[kind]
        return (kind, n, tuple(t[n]))

    # ---- small pieces
    def ip4(self):
        r = self.r
        return f"{r.choice([10, 172, 192, 1, 223])}.{r.randint(0, 255)}.{r.choice([0, 1, 128, 255, r.randint(0, 255)])}.{r.randint(0, 255)}"

    def ip6(self):
        r = self.r
        return str(ipaddress.IPv6Address((0x2001 << 112) | r.getrandbits(r.choice([16, 48, 112]))))

    def mask(self):
        p = self.r.choice([8, 16, 23, 24, 25, 30, 31, 0, 32, self.r.randint(0, 32)])
        return p, str(ipaddress.IPv4Address((0xFFFFFFFF << (32 - p)) & 0xFFFFFFFF))

    def ident(self, table):
        """a name: often one that is the prefix of another or used in another table"""
        r = self.r
        if r.random() < 0.75:
            return r.choice(BASE)
        self.n += 1
        return f"x{self.n}"

    def pick(self, t):
        return self.r.choice(sorted(t)) if t else None

    def eol(self):
        return self.r.choice([""] * 8 + [" ", "\t"])

    # ---- addresses: (text, descriptor)
    def addr(self, names=True, iface=True):
        r = self.r
        while True:
            k = r.choice(["host", "host6", "hostname", "any", "any4", "any6", "obj", "group", "net", "netname", "net6", "iface"])
            if k == "host":
                a = self.ip4()
                return f"host {a}", ("host", a, None)
            if k == "host6":
                a = self.ip6()
                return f"host {a}", ("host", a, None)
            if k == "hostname" and self.names and names:
                n = self.pick(self.names)
                return f"host {n}", ("host", self.names[n], n)
            if k in ("any", "any4", "any6"):
                return k, (k,)
            if k == "obj" and self.netobj:
                n = self.pick(self.netobj)
                return f"object {n}", self.ref("obj", n)
            if k == "group" and self.netgrp:
                n = self.pick(self.netgrp)
                return f"object-group {n}", self.ref("group", n)
            if k == "net":
                a = self.ip4()
                p, m = self.mask()
                return f"{a} {m}", ("net", str(ipaddress.ip_network(f"{a}/{p}", strict=False)), None)
            if k == "netname" and names:
                c = [n for n in self.names if ":" not in self.names[n]]
                if c:
                    n = r.choice(sorted(c))
                    p, m = self.mask()
                    return f"{n} {m}", ("net", str(ipaddress.ip_network(f"{self.names[n]}/{p}", strict=False)), n)
            if k == "net6":
                a = self.ip6()
                p = r.choice([0, 8, 32, 48, 64, 127, 128])
                return f"{a}/{p}", ("net", str(ipaddress.ip_network(f"{a}/{p}", strict=False)), None)
            if k == "iface" and iface and self.nameifs:
                n = self.pick(self.nameifs)
                return f"interface {n}", ("iface", n)

    def portv(self):
        r = self.r
        return r.choice(PORTS) if r.random() < 0.4 else str(r.choice([0, 1, 9, 10, 80, 99, 100, 443, 1024, 9999, 10000, 65535, r.randint(0, 65535)]))

    def prange(self):
        r = self.r
        if r.random() < 0.8:
            a, b = sorted(r.sample([0, 1, 9, 10, 90, 100, 999, 1000, 9999, 10000, 65534, 65535], 2))
            return str(a), str(b)
        return r.choice(PORTS), self.portv()

    def port(self, group=True):
        r = self.r
        k = r.choice([None, None, "op", "op", "range", "group"])
        if k is None:
            return "", None
        if k == "op":
            o, v = r.choice(["eq", "gt", "lt", "neq"]), self.portv()
            return f" {o} {v}", ("port", o, v)
        if k == "group" and group and self.portgrp:
            n = self.pick(self.portgrp)
            return f" object-group {n}", self.ref("pgroup", n)
        a, b = self.prange()
        return f" range {a} {b}", ("range", a, b)

    def opts(self):
        r = self.r
        t, o = "", {}
        for k in r.sample(["log", "time-range", "inactive"], r.choice([0, 0, 1, 2, 3])):
            if k == "log":
                t += " log" + r.choice(["", " warnings", " 3", " debugging interval 300", " disable"])
                o["log"] = "ACLRuleOptionLog"
            elif k == "time-range" and self.times:
                n = self.pick(self.times)
                t += f" time-range {n}"
                o["time-range"] = (n, self.times[n])
            elif k == "inactive":
                t += " inactive"
                o["inactive"] = "ACLRuleOptionInActive"
        return t, o

    # ---- statements
    def hostname(self):
        n = self.r.choice(["fw1", "fw-a.b", "ASA_5500"])
        self.lines.append(f"hostname {n}")
        self.exp["hostname"] = n

    def name(self):
        r = self.r
        n = r.choice(["alpha", "alpha-2", "alpha-20", "beta", "be", "gamma.x", "hostA", "hostAB", "hosta", "Alpha", "web"])
        a = self.ip4() if r.random() < 0.75 else self.ip6()
        self.lines.append(f"name {a} {n}" + r.choice(["", "", " description some text"]))
        self.names[n] = a
        self.exp["names"].append((n, a))

    def interface(self):
        r = self.r
        self.n += 1
        alias = r.choice(["Vlan", "GigabitEthernet0/", "Ethernet0/0."]) + str(self.n)
        nameif = r.choice(["inside", "inside2", "in", "outside", "dmz", "DMZ", "web", None])
        if nameif in self.nameifs:
            nameif = None
        self.lines.append(f"interface {alias}")
        if r.random() < 0.3:
            self.lines.append(" shutdown")
        if r.random() < 0.3:
            self.lines.append(" description uplink any host")
        if nameif:
            self.lines.append(f" nameif {nameif}")
            self.nameifs[nameif] = alias
            self.ifaces[nameif] = nameif
        if r.random() < 0.4:
            self.lines.append(" security-level 50")
        self.ifaces[alias] = nameif or alias
        self.exp["interfaces"].append((alias, nameif))

    def timerange(self):
        import datetime

        r = self.r
        n = self.r.choice(["work", "work-2", "work-20", "night", "web", "Work", "WORK-2", "w", "no-work"])
        self.lines.append(f"time-range {n}")
        objs = []
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            hm = lambda: (r.randint(0, 23), r.randint(0, 59))

            def tt(x):
                return f"{x[0]:02d}:{x[1]:02d}" if r.random() < 0.8 else f"{x[0]}:{x[1]:02d}"

            if r.random() < 0.5:
                se = []
                t = " absolute"
                for w in ("start", "end"):
                    if r.random() < 0.65:
                        h = hm()
                        d = (r.randint(1, 28), r.randint(1, 12), r.randint(1993, 2035))
                        t += f" {w} {tt(h)} {d[0]:02d} {MONTHS[d[1] - 1]} {d[2]}"
                        se.append(datetime.datetime(d[2], d[1], d[0], h[0], h[1]))
                    else:
                        se.append(None)
                objs.append(("abs", se[0], se[1]))
                self.lines.append(t)
            else:
                a, b = hm(), hm()
                ds = [r.choice(["weekdays", "weekend", "daily"])] if r.random() < 0.3 else r.sample(DAYS, r.choice((1, 1, 1, 2, 3, 7)))
                ed = r.sample(DAYS, r.choice((1, 1, 2))) if ds[0] in DAYS and r.random() < 0.5 else []
                self.lines.append(f" periodic {' '.join(ds)} {tt(a)} to " + "".join(e + " " for e in ed) + tt(b))
                objs.append(("per", ds, datetime.time(*a), datetime.time(*b), ed))
        self.times[n] = objs
        self.exp["time"][n] = objs

    def object_network(self):
        r = self.r
        n = self.ident("netobj")
        k = r.choice(["host", "host6", "subnet", "subnet6", "range", "fqdn", "none"])
        self.lines.append(f"object network {n}")
        ad = []
        if k == "host":
            a = self.ip4()
            self.lines.append(f" host {a}")
            ad = [("host", a, None)]
        elif k == "host6":
            a = self.ip6()
            self.lines.append(f" host {a}")
            ad = [("host", a, None)]
        elif k == "subnet":
            a = self.ip4()
            p, m = self.mask()
            self.lines.append(f" subnet {a} {m}")
            ad = [("net", str(ipaddress.ip_network(f"{a}/{p}", strict=False)), None)]
        elif k == "subnet6":
            a, p = self.ip6(), r.choice([0, 32, 64, 128])
            self.lines.append(f" subnet {a}/{p}")
            ad = [("net", str(ipaddress.ip_network(f"{a}/{p}", strict=False)), None)]
        elif k == "range":
            a = int(ipaddress.ip_address(self.ip4()))
            b = min(a + r.choice([0, 1, 5, 255, 1000]), 2**32 - 1)
            self.lines.append(f" range {ipaddress.IPv4Address(a)} {ipaddress.IPv4Address(b)}")
            ad = [("net", str(x), None) for x in ipaddress.summarize_address_range(ipaddress.IPv4Address(a), ipaddress.IPv4Address(b))]
        elif k == "fqdn":
            v = r.choice(["", "v4 ", "v6 "])
            self.lines.append(f" fqdn {v}www.example.com")
            ad = [{"": ("any",), "v4 ": ("any4",), "v6 ": ("any6",)}[v]]
        if k != "none" and r.random() < 0.3:
            self.lines.append(" description a host any")
        if n not in self.netobj:
            self.netobj[n] = ad
            self.exp["network"][n] = ad

    def object_service(self):
        r = self.r
        n = self.ident("svcobj")
        if n in self.svcobj:
            return
        self.lines.append(f"object service {n}")
        t, d = self.service("service")
        self.lines.append(t)
        self.svcobj[n] = d
        self.exp["service"][n] = d

    def sport(self, r):
        if r.random() < 0.3:
            a, b = self.prange()
            return f"range {a} {b}", ("range", a, b)
        o, v = r.choice(["eq", "gt", "lt", "neq"]), self.portv()
        return f"{o} {v}", ("port", o, v)

    def service(self, kw, plain=False):
        r = self.r
        k = r.choice(["icmp", "tcp", "tcp", "tcp", "int"])
        if k == "icmp":
            p = "icmp"
            t, ty, co = f" {kw} {p}", None, None
            if r.random() < 0.7:
                ty = r.choice(ICMPT) if r.random() < 0.6 else str(r.choice([0, 8, 255]))
                t += " " + ty
                if r.random() < 0.4:
                    co = str(r.choice([0, 3, 255]))
                    t += " " + co
            return t, (p, None, None, ty, co)
        if k == "int":
            p = str(r.choice([0, 47, 50, 255]))
            return f" {kw} {p}", (p, None, None, None, None)
        p = r.choice(["tcp", "udp", "tcp-udp"]) if kw == "service-object" else r.choice(["tcp", "udp"])
        t, s, d = f" {kw} {p}", None, None
        if r.random() < 0.5:
            x, s = self.sport(r)
            t += " source " + x
        if r.random() < 0.6:
            x, d = self.sport(r)
            t += " destination " + x
        if s is None and d is None:
            t += " "
        return t, (p, s, d, None, None)

    def group_network(self):
        r = self.r
        n = self.ident("netgrp")
        self.lines.append(f"object-group network {n}")
        if r.random() < 0.3:
            self.lines.append(" description these are hosts")
        m = []
        for _ in range(r.choice([0, 1, 2, 4])):
            k = r.choice(["host", "host6", "hostname", "obj", "net", "netname", "net6", "group"])
            if k == "host":
                a = self.ip4()
                self.lines.append(f" network-object host {a}")
                m.append(("host", a, None))
            elif k == "host6":
                a = self.ip6()
                self.lines.append(f" network-object host {a}")
                m.append(("host", a, None))
            elif k == "hostname" and self.names:
                x = self.pick(self.names)
                self.lines.append(f" network-object host {x}")
                m.append(("host", self.names[x], x))
            elif k == "obj" and self.netobj:
                x = self.pick(self.netobj)
                self.lines.append(f" network-object object {x}")
                m.append(self.ref("obj", x))
            elif k == "net":
                a = self.ip4()
                p, ms = self.mask()
                self.lines.append(f" network-object {a} {ms}")
                m.append(("net", str(ipaddress.ip_network(f"{a}/{p}", strict=False)), None))
            elif k == "netname":
                c = [x for x in self.names if ":" not in self.names[x]]
                if c:
                    x = r.choice(sorted(c))
                    p, ms = self.mask()
                    self.lines.append(f" network-object {x} {ms}")
                    m.append(("net", str(ipaddress.ip_network(f"{self.names[x]}/{p}", strict=False)), x))
            elif k == "net6":
                a, p = self.ip6(), r.choice([0, 48, 64, 128])
                self.lines.append(f" network-object {a}/{p}")
                m.append(("net", str(ipaddress.ip_network(f"{a}/{p}", strict=False)), None))
            elif k == "group":
                c = [x for x in self.netgrp if x != n]
                if c:
                    x = r.choice(sorted(c))
                    self.lines.append(f" group-object {x}")
                    m.append(self.ref("group", x))
        self.netgrp[n] = m
        self.exp["gnetwork"][n] = m

    def group_port(self):
        r = self.r
        n = self.ident("portgrp")
        if n in self.svcgrp:
            return
        p = r.choice(["tcp", "udp", "tcp-udp"])
        self.lines.append(f"object-group service {n} {p}")
        m = []
        for _ in range(r.choice([0, 1, 2, 3])):
            k = r.choice(["eq", "range", "group"])
            if k == "eq":
                v = self.portv()
                self.lines.append(f" port-object eq {v}")
                m.append(("port", "eq", v))
            elif k == "range":
                a, b = self.prange()
                self.lines.append(f" port-object range {a} {b}")
                m.append(("range", a, b))
            else:
                c = [x for x in self.portgrp if x != n]
                if c:
                    x = r.choice(sorted(c))
                    self.lines.append(f" group-object {x}")
                    m.append(self.ref("pgroup", x))
        self.portgrp[n] = m
        self.exp["gport"][n] = (p, m)

    def group_service(self):
        r = self.r
        n = self.ident("svcgrp")
        if n in self.portgrp or n in self.protgrp:
            return
        self.lines.append(f"object-group service {n}")
        m = []
        for _ in range(r.choice([0, 1, 2, 3])):
            k = r.choice(["svc", "svc", "obj", "group", "code"])
            if k == "svc":
                t, d = self.service("service-object")
                self.lines.append(t)
                m.append(("service",) + d)
            elif k == "code":
                c = r.choice(["gre", "esp", "ip", "ospf"])
                self.lines.append(f" service-object {c}")
                m.append(("service", c, None, None, None, None))
            elif k == "obj" and self.svcobj:
                x = self.pick(self.svcobj)
                self.lines.append(f" service-object object {x}")
                m.append(self.ref("sobj", x))
            elif k == "group":
                c = [x for x in self.svcgrp if x != n]
                if c:
                    x = r.choice(sorted(c))
                    self.lines.append(f" group-object {x}")
                    m.append(self.ref("sgroup", x))
        self.svcgrp[n] = m
        self.exp["gservice"][n] = m

    def group_icmp(self):
        r = self.r
        n = self.ident("icmpgrp")
        self.lines.append(f"object-group icmp-type {n}")
        m = []
        for _ in range(r.choice([0, 1, 2])):
            c = [x for x in self.icmpgrp if x != n]
            if c and r.random() < 0.3:
                x = r.choice(sorted(c))
                self.lines.append(f" group-object {x}")
                m.append(self.ref("icmpgroup", x))
            else:
                t = r.choice(ICMPT + ["0", "8", "255"])
                self.lines.append(f" icmp-object {t}")
                m.append(("icmp", t, None))
        self.icmpgrp[n] = m
        self.exp["gicmp"][n] = m

    def group_protocol(self):
        r = self.r
        n = self.ident("protgrp")
        if n in self.svcgrp:
            return
        self.lines.append(f"object-group protocol {n}")
        m = []
        for _ in range(r.choice([0, 1, 2])):
            c = [x for x in self.protgrp if x != n]
            if c and r.random() < 0.3:
                x = r.choice(sorted(c))
                self.lines.append(f" group-object {x}")
                m.append(self.ref("prgroup", x))
            else:
                t = r.choice(["tcp", "udp", "icmp", "gre"])
                self.lines.append(f" protocol-object {t}")
                m.append(("proto", t))
        self.protgrp[n] = m
        self.exp["gprotocol"][n] = m

    def remarks(self, i):
        out = []
        for _ in range(self.r.choice([0, 0, 0, 1, 2])):
            t = self.r.choice(["first remark", "permit ip any any", "x", "*** a [b] <c> & d ***", "  indented"])
            self.lines.append(f"access-list {i} remark {t}")
            out.append(t)
        return out

    def acl(self):
        r = self.r
        i = r.choice(["inside_in", "inside", "outside_in", "101", "acl-x.y", "inside_in2", "Inside_in", "inside_in-1", "10"])
        k = r.choice(["ext", "ext", "ext", "ext", "icmp", "std", "web"])
        rem = self.remarks(i)
        mode = r.choice(["permit", "deny"])
        x = {"id": i, "mode": mode, "icmp": None, "opts": {}, "remark": rem}
        if k == "std":
            t, d = self.addr(iface=False)
            self.lines.append(f"access-list {i} standard {mode} {t}")
            x.update(ext="standard", proto=("proto", "ip"), src=(d, None), dst=(("any",), None))
        elif k == "web":
            ot, o = self.opts()
            if r.random() < 0.5:
                u = r.choice(["https://a.b/*", "any", "cifs://x/y?z"])
                self.lines.append(f"access-list {i} webtype {mode} url {u}{ot}")
                x.update(ext="webtype", proto=("proto", "url"), src=(("any",), None), dst=(("url", u), None), opts=o)
            else:
                t, d = self.addr()
                pt, p = self.port()
                self.lines.append(f"access-list {i} webtype {mode} tcp {t}{pt}{ot}")
                x.update(ext="webtype", proto=("proto", "tcp"), src=(("any",), None), dst=(d, p), opts=o)
        elif k == "icmp":
            s, sd = self.addr()
            t, td = self.addr()
            c, cd = "", None
            q = r.random()
            if q < 0.2 and self.icmpgrp:
                n = self.pick(self.icmpgrp)
                c, cd = f" object-group {n}", self.ref("icmpgroup", n)
            elif q < 0.7:
                ty = r.choice(ICMPT) if r.random() < 0.6 else str(r.choice([0, 3, 8, 255]))
                co = str(r.choice([0, 1, 255])) if r.random() < 0.4 else None
                c, cd = f" {ty}" + (f" {co}" if co else ""), ("icmp", ty, co)
            ot, o = self.opts()
            pn = r.choice(["icmp", "icmp", "icmp6"])
            self.lines.append(f"access-list {i} extended {mode} {pn} {s} {t}{c}{ot}{self.eol()}")
            x.update(ext="extended", proto=("proto", pn), src=(sd, None), dst=(td, None), icmp=cd, opts=o)
        else:
            q = r.random()
            if q < 0.12 and self.svcgrp:
                n = self.pick(self.svcgrp)
                p, pd = f"object-group {n}", self.ref("sgroup", n)
            elif q < 0.2 and self.protgrp:
                n = self.pick(self.protgrp)
                p, pd = f"object-group {n}", self.ref("prgroup", n)
            elif q < 0.3 and self.svcobj:
                n = self.pick(self.svcobj)
                p, pd = f"object {n}", self.ref("sobj", n)
            elif q < 0.4:
                n = str(r.choice([0, 6, 17, 89, 255]))
                p, pd = n, ("proto", n)
            else:
                n = r.choice(PROTOS + ["tcp", "udp"] * 6)
                p, pd = n, ("proto", n)
            s, sd = self.addr()
            sp, spd = self.port()
            t, td = self.addr()
            while spd is None and td[0] == "group" and (td[1] in self.portgrp or td[1] in self.svcgrp):
                t, td = self.addr()  # object-group x could be meant as the port of the source
            tp, tpd = self.port()
            ot, o = self.opts()
            self.lines.append(f"access-list {i} extended {mode} {p} {s}{sp} {t}{tp}{ot}{self.eol()}")
            x.update(ext="extended", proto=pd, src=(sd, spd), dst=(td, tpd), opts=o)
        self.exp["rules"].append(x)

    def access_group(self):
        r = self.r
        if not self.nameifs:
            return
        n, d, i = r.choice(["inside_in", "outside_in", "101", "Inside_in", "inside_in2"]), r.choice(["in", "out"]), self.pick(self.nameifs)
        self.lines.append(f"access-group {n} {d} interface {i}")
        self.exp["access"].append((n, d, i))

    # ---- NAT
    def natifs(self):
        r = self.r
        out = []
        for _ in range(2):
            k = r.choice(sorted(self.ifaces) + ["any"])
            out.append((k, "any" if k == "any" else self.ifaces[k]))
        return out

    def netref(self, anyok=True):
        """object or group usable in NAT, or any"""
        r = self.r
        both = set(self.netobj) & set(self.netgrp)
        c = [self.ref("obj", n) for n in self.netobj if n not in both] + [self.ref("group", n) for n in self.netgrp if n not in both]
        if anyok and r.random() < 0.25 or not c:
            return ("any",)
        return r.choice(sorted(c))

    def nat(self):
        r = self.r
        if not self.ifaces:
            return
        txt = lambda d: "any" if d == ("any",) else d[1]
        (ri, rn), (mi, mn) = self.natifs()
        typ = r.choice(["static", "dynamic"])
        rs = self.netref()
        fb = None
        if typ == "static":
            k = r.choice(["node", "iface"])
            ms = ("iface", mn) if k == "iface" else self.netref()
            mt = "interface" if k == "iface" else txt(ms)
        else:
            k = r.choice(["node", "iface", "pool", "node+", "pool+"])
            ms = ("iface", mn) if k == "iface" else self.netref(anyok=False)
            if ms == ("any",):
                return
            mt = "interface" if k == "iface" else ("pat-pool " if k.startswith("pool") else "") + txt(ms)
            if k.endswith("+"):
                mt += " interface"
                fb = ("iface", mn)
        pos = r.choice(["", "", "after-auto", "after-object"])
        if pos and r.random() < 0.3:
            pos += " 2"
        t = f"nat ({ri},{mi}) " + (pos + " " if pos else "") + f"source {typ} {txt(rs)} {mt}"
        rd = md = None
        if r.random() < 0.4:
            rd = self.netref(anyok=False)
            if rd == ("any",):
                return
            if r.random() < 0.3:
                md = ("iface", mn)
                t += f" destination static interface {txt(rd)}"
            else:
                md = self.netref()
                t += f" destination static {txt(md)} {txt(rd)}"
        rsv = msv = None
        if r.random() < 0.5:
            if typ == "dynamic":
                c = sorted(self.svcobj)
                if c:
                    a, b = r.choice(c), r.choice(c)
                    t += f" service {a} {b}"
                    rsv, msv = a, b
            else:
                so = [n for n, d in self.svcobj.items() if d[1] and not d[2]]
                do = [n for n, d in self.svcobj.items() if d[2] and not d[1]]
                if so and (not do or r.random() < 0.5):
                    rsv, msv = r.choice(so), r.choice(so)
                    t += f" service {rsv} {msv}"
                elif do:
                    rsv, msv = r.choice(do), r.choice(do)
                    t += f" service {msv} {rsv}"
        o = {}
        for k in r.sample(["net-to-net", "dns", "unidirectional", "no-proxy-arp", "inactive", "route-lookup"], r.choice([0, 0, 1, 2])):
            t += " " + k
            o[k] = True
        desc = None
        if r.random() < 0.3:
            desc = "moved to dmz"
            t += " description " + desc
        if pos:
            o["after-auto"] = True
        self.lines.append(t)
        e = {
            "real": (rn, rs, rd, self.ref("sobj", rsv) if rsv else None),
            "mapped": (mn, ms, md, self.ref("sobj", msv) if msv else None),
            "type": typ, "fallback": fb, "desc": desc, "opts": o,
        }
        self.exp["nat"][3 if pos else 1].append(e)

    def objnat(self):
        """object NAT of an object: in its definition or apart from it"""
        r = self.r
        if not self.ifaces:
            return
        (ri, rn), (mi, mn) = self.natifs()
        typ = r.choice(["static", "dynamic"])
        k = r.choice(["obj", "group", "addr", "addr6", "iface", "pool"])
        fb = None
        ms = None
        if k in ("obj", "group", "pool"):
            ms = self.netref(anyok=False)
            if ms == ("any",):
                return
            mt = ("pat-pool " if k == "pool" else "") + ms[1]
        elif k == "addr":
            a = self.ip4()
            ms, mt = ("host", a, None), a
        elif k == "addr6":
            a = self.ip6()
            p = r.choice([None, 64, 128])
            ms, mt = (("host", a, None), a) if p is None else (("net", str(ipaddress.ip_network(f"{a}/{p}", strict=False)), None), f"{a}/{p}")
        else:
            ms, mt = ("iface", mn), "interface"
        if k != "iface" and r.random() < 0.3:
            mt += " interface"
            fb = ("iface", mn)
        o = {"auto": True}
        t = f" nat ({ri},{mi}) {typ} {mt}"
        rsv = msv = None
        if typ == "static" and r.random() < 0.5:
            if r.random() < 0.3:
                t += " dns"
                o["dns"] = True
            else:
                p, a, b = r.choice(["tcp", "udp"]), self.portv(), self.portv()
                t += f" service {p} {a} {b}"
                rsv, msv = ("service", p, None, a, None, None), ("service", p, None, b, None, None)
        for x in r.sample(["route-lookup", "no-proxy-arp"], r.choice([0, 0, 1, 2])):
            t += " " + x
            o[x] = True
        if r.random() < 0.5 and self.netobj:
            n = self.pick(self.netobj)
            self.lines += [f"object network {n}", t]
        else:
            n = self.ident("netobj")
            a = self.ip4()
            self.lines += [f"object network {n}", f" host {a}", t]
            if n not in self.netobj:
                self.netobj[n] = [("host", a, None)]
                self.exp["network"][n] = [("host", a, None)]
        e = {"real": (rn, ms, ("any",), rsv), "mapped": (mn, ms, ("any",), msv), "type": typ, "fallback": fb, "desc": None, "opts": o}
        e["real"] = (rn, self.ref("obj", n), ("any",), rsv)
        self.exp["nat"][2].append(e)

    DEFS = ["name", "name", "interface", "interface", "timerange", "object_network", "object_network", "object_network", "object_service", "object_service",
            "group_network", "group_network", "group_port", "group_port", "group_service", "group_icmp", "group_protocol"]
    IGN = ["!", ": saved", "pager lines 24", "mtu inside 1500", "no failover", "timeout xlate 3:00:00", "crypto map outside_map 1 match address 101", "class-map x\n match any"]

    def config(self, defs=14, uses=12, nats=4, kinds=None, use=None):
        r = self.r
        if r.random() < 0.5:
            self.lines.append("ASA Version 9.1(2) ")
        if r.random() < 0.7:
            self.hostname()
        steps = [r.choice(kinds or self.DEFS) for _ in range(defs)] + [r.choice(use or ["acl"]) for _ in range(uses)] + [r.choice(["nat", "objnat"]) for _ in range(nats)]
        # definitions mostly first, uses may be in between
        steps.sort(key=lambda s: (0 if s in self.DEFS or s == "interface" else 1) + r.random() * 1.4)
        for s in steps:
            getattr(self, s)()
            if r.random() < 0.12:
                self.lines.append(r.choice(self.IGN))
        if r.random() < 0.7:
            self.access_group()
            self.access_group()
        return "\n".join(self.lines) + "\n"
