"""Random IOS configurations together with the model they must be parsed into (independent of the code under test)."""
import ipaddress

from . import asa
from .asa import d_addr, d_port, d_proto, d_icmp, d_member, PORTS, ICMPT
from acltk.aclObjects import *
from acltk.iosObjects import iosConfig, Route

PROTOS = ["ip", "tcp", "udp", "tcp", "udp", "gre", "esp", "ahp", "ospf", "igmp", "igrp", "eigrp", "pim", "ipv6"]
FULL = 0xFFFFFFFF


def i4(x):
    return str(ipaddress.IPv4Address(x))


def n4(s):
    return int(ipaddress.IPv4Address(s))


def norm(d):
    """an IPv4 address set written as base and free bits, whatever the class used for it"""
    if d[0] == "host" and ":" not in d[1]:
        return ("set", n4(d[1]), 0)
    if d[0] == "net" and ":" not in d[1]:
        n = ipaddress.IPv4Network(d[1])
        return ("set", int(n.network_address), int(n.hostmask))
    if d[0] == "wild":
        w = n4(d[2])
        return ("set", n4(d[1]) & ~w & FULL, w)
    return d


def d_node(n):
    return (norm(d_addr(n.host)), d_port(n.port))


def d_rule(x):
    return {
        "id": x.id,
        "mode": x.mode,
        "proto": d_proto(x.protocol),
        "src": d_node(x.src),
        "dst": d_node(x.dst),
        "icmp": d_icmp(x.icmp),
        "opts": {k: v for k, v in x.options.items()},
        "remark": list(x.remark),
    }


def tables(c):
    g = c.groups
    return {
        "rules": [d_rule(x) for x in c.rules.rules],
        "gnetwork": {k: (v.name, [d_addr(x) for x in v.objects]) for k, v in g.network.items()},
        "gport": {k: (v.name, v.protocol.name, [d_port(x) for x in v.objects]) for k, v in g.port.items()},
        "gservice": {k: (v.name, [d_member(x) for x in v.objects]) for k, v in g.service.items()},
        "gprotocol": {k: (v.name, [d_member(x) for x in v.objects]) for k, v in g.protocol.items()},
        "interfaces": {k: (v.alias, [str(a.interface) for a in v.addresses], {d: (a.name, a.direction, a.iface is v) for d, a in v.access_groups.items()}) for k, v in c.interfaces.items()},
        "bindings": {k: [(a.name, a.direction, a.iface.alias) for a in v] for k, v in c.access_groups.items() if v},
        "routes": [d_route(r) for r in c.routes],
        "attached": {k: sorted(map(repr, (d_route(r) for r in v.routes))) for k, v in c.interfaces.items()},
        "hostname": c.hostname,
        "domain": c.domainname,
        "nat": [len(v) for v in c.nat.values()],
    }


def d_route(r):
    return (str(r.network), r.gw.alias if isinstance(r.gw, Interface) else str(r.gw))


def expected(g):
    e = g.exp
    m = {"rules": e["rules"], "hostname": e["hostname"], "domain": e["domain"], "nat": [0, 0, 0], "routes": [(n, w) for n, w, _ in e["routes"]]}
    for k in ("gnetwork", "gservice", "gprotocol"):
        m[k] = {n: (n, list(v)) for n, v in e[k].items()}
    m["gport"] = {n: (n, v[0], list(v[1])) for n, v in e["gport"].items()}
    m["interfaces"] = {a: (a, ad, gr) for a, ad, gr in e["interfaces"]}
    b = {}
    for a, ad, gr in e["interfaces"]:
        for k, (n, d, _) in gr.items():
            b.setdefault(n, []).append((n, d, a))
    m["bindings"] = b
    at = {}
    for a, ad, gr in e["interfaces"]:
        at[a] = sorted(repr((n, w)) for n, w, kind in set(e["routes"]) for _ in range(e["routes"].count((n, w, kind))) if attached(a, ad, w, kind))
    m["attached"] = at
    return m


def attached(alias, addresses, gw, kind):
    if kind == "iface":
        return gw == alias
    x = ipaddress.ip_address(gw)
    for s in addresses:
        n = ipaddress.ip_interface(s)
        if n.version == 4 and int(n.ip) >> (32 - n.network.prefixlen) == int(x) >> (32 - n.network.prefixlen):
            return True
    return False


class Gen(asa.Gen):
    def __init__(self, r):
        asa.Gen.__init__(self, r)
        self.exp["routes"] = []
        self.aliases = []

    # ---- masks
    def wildcard(self):
        r = self.r
        k = r.choice(["c", "c", "zero", "all", "n", "n", "bit", "net", "top"])
        if k == "c":
            return (1 << r.randint(0, 32)) - 1
        if k == "zero":
            return 0
        if k == "all":
            return FULL
        if k == "bit":
            return 1 << r.randint(0, 31)
        if k == "net":  # a netmask where a wildcard is due
            return (FULL << r.randint(1, 31)) & FULL
        if k == "top":
            return 0x80000000 | ((1 << r.randint(0, 30)) - 1)
        return r.getrandbits(32) & r.getrandbits(32)

    def address(self):
        r = self.r
        return r.choice([n4(self.ip4()), n4(self.ip4()), r.getrandbits(32), 0, FULL, 0x80000000, 0x0A000000])

    def wild(self):
        a, w = self.address(), self.wildcard()
        return f"{i4(a)} {i4(w)}", ("set", a & ~w & FULL, w)

    def ihost(self, bare=True):
        """address of a named list or of a numbered standard list"""
        r = self.r
        while True:
            k = r.choice(["wild", "wild", "wild", "bare", "host", "group", "any"])
            if k == "wild":
                return self.wild()
            if k == "bare" and bare:
                a = self.address()
                return i4(a), ("set", a, 0)
            if k == "host":
                a = self.address()
                return f"host {i4(a)}", ("set", a, 0)
            if k == "group" and self.netgrp:
                n = self.pick(self.netgrp)
                return f"object-group {n}", self.ref("group", n)
            if k == "any":
                return "any", ("any",)

    def v6host(self):
        r = self.r
        k = r.choice(["net", "host", "any"])
        if k == "any":
            return "any", ("any",)
        a = self.ip6()
        if k == "host":
            return f"host {a}", ("host", a, None)
        p = r.choice([0, 16, 48, 64, 127, 128])
        return f"{a}/{p}", ("net", str(ipaddress.ip_network(f"{a}/{p}", strict=False)), None)

    def iopts(self, std=False):
        r = self.r
        c = [("log", None)] if std else [("log", None), ("fragments", None), ("established", None), ("dscp", "af11"), ("tos", "min-delay"), ("precedence", "critical"), ("time-range", "work"), ("log-input", None)]
        t, o = "", {}
        ch = r.sample(c, r.choice([0, 0, 0, 1, 1, 2]) if not std else r.choice([0, 0, 1]))
        ch.sort(key=lambda x: x[0].startswith("log"))  # log takes the next word as its own
        if len(ch) == 2 and ch[0][0].startswith("log"):
            ch.pop()
        for k, v in ch:
            t += f" {k}" + (f" {v}" if v else "")
            o[k] = v
        return t, o

    def iremarks(self, prefix):
        out = []
        for _ in range(self.r.choice([0, 0, 0, 1, 2])):
            t = self.r.choice(["first remark", "permit ip any any", "x", "*** a [b] <c> & d ***"])
            self.lines.append(f"{prefix}remark {t}")
            out.append(t)
        return out

    def iproto(self):
        r = self.r
        q = r.random()
        if q < 0.1 and self.svcgrp:
            n = self.pick(self.svcgrp)
            return f"object-group {n}", self.ref("sgroup", n)
        if q < 0.15 and self.protgrp:
            n = self.pick(self.protgrp)
            return f"object-group {n}", self.ref("prgroup", n)
        if q < 0.25:
            n = str(r.choice([0, 6, 17, 89, 255]))
            return n, ("proto", n)
        n = r.choice(PROTOS)
        return n, ("proto", n)

    def iicmp(self):
        r = self.r
        if r.random() < 0.6:
            ty = r.choice(ICMPT) if r.random() < 0.6 else str(r.choice([0, 3, 8, 255]))
            co = str(r.choice([0, 1, 255])) if r.random() < 0.4 else None
            return f" {ty}" + (f" {co}" if co else ""), ("icmp", ty, co)
        return "", None

    def ends(self, f):
        """source and destination with ports; an object-group behind the source must not be both a port and a network group"""
        s, sd = f()
        sp, spd = self.port()
        t, td = f()
        while spd is None and td[0] == "group" and (td[1] in self.portgrp or td[1] in self.svcgrp):
            t, td = f()
        tp, tpd = self.port()
        return s + sp, (sd, spd), t + tp, (td, tpd)

    # ---- access lists
    def named(self):
        r = self.r
        i = r.choice(["inside_in", "inside", "outside-in", "acl.x", "111", "Inside_in", "inside_in2", "11"])
        typ = r.choice(["extended", "extended", "standard"])
        self.lines.append(f"ip access-list {typ} {i}")
        for k in range(r.choice([1, 1, 2, 4])):
            rem = self.iremarks(" " + r.choice(["", "15 "]))
            mode = r.choice(["permit", "deny"])
            seq = r.choice(["", f"{10 * k + 10} "])
            x = {"id": i, "mode": mode, "icmp": None, "remark": rem}
            if typ == "standard":
                s, sd = self.ihost()
                ot, o = self.iopts(std=True)
                self.lines.append(f" {seq}{mode} {s}{ot}")
                x.update(proto=("proto", "ip"), src=(sd, None), dst=(("any",), None), opts=o)
            elif r.random() < 0.25:
                s, sd = self.nhost()
                t, td = self.nhost()
                c, cd = self.iicmp()
                ot, o = self.iopts()
                self.lines.append(f" {seq}{mode} icmp {s} {t}{c}{ot}")
                x.update(proto=("proto", "icmp"), src=(sd, None), dst=(td, None), icmp=cd, opts=o)
            else:
                p, pd = self.iproto()
                s, sd, t, td = self.ends(self.nhost)
                ot, o = self.iopts()
                self.lines.append(f" {seq}{mode} {p} {s} {t}{ot}")
                x.update(proto=pd, src=sd, dst=td, opts=o)
            self.exp["rules"].append(x)

    def nhost(self):
        """address of a numbered extended list"""
        r = self.r
        while True:
            k = r.choice(["wild", "wild", "wild", "host", "group", "any"])
            if k == "wild":
                return self.wild()
            if k == "host":
                a = self.address()
                return f"host {i4(a)}", ("set", a, 0)
            if k == "group" and self.netgrp:
                n = self.pick(self.netgrp)
                return f"object-group {n}", self.ref("group", n)
            if k == "any":
                return "any", ("any",)

    def numbered(self):
        r = self.r
        mode = r.choice(["permit", "deny"])
        if r.random() < 0.4:
            i = str(r.choice([1, 9, 10, 19, 99, 1300, 1399]))
            rem = self.iremarks(f"access-list {i} ")
            s, sd = self.ihost()
            ot, o = self.iopts(std=True)
            self.lines.append(f"access-list {i} {mode} {s}{ot}")
            x = {"id": i, "mode": mode, "proto": ("proto", "ip"), "src": (sd, None), "dst": (("any",), None), "icmp": None, "opts": o, "remark": rem}
        else:
            i = str(r.choice([100, 101, 111, 199, 2000, 2699]))
            rem = self.iremarks(f"access-list {i} ")
            x = {"id": i, "mode": mode, "icmp": None, "remark": rem}
            if r.random() < 0.3:
                s, sd = self.nhost()
                t, td = self.nhost()
                c, cd = self.iicmp()
                ot, o = self.iopts()
                self.lines.append(f"access-list {i} {mode} icmp {s} {t}{c}{ot}")
                x.update(proto=("proto", "icmp"), src=(sd, None), dst=(td, None), icmp=cd, opts=o)
            else:
                p, pd = self.iproto()
                s, sd, t, td = self.ends(self.nhost)
                ot, o = self.iopts()
                self.lines.append(f"access-list {i} {mode} {p} {s} {t}{ot}")
                x.update(proto=pd, src=sd, dst=td, opts=o)
        self.exp["rules"].append(x)

    def v6list(self):
        r = self.r
        i = r.choice(["v6in", "v6-out", "V6in", "v6in2"])
        self.lines.append(f"ipv6 access-list {i}")
        for k in range(r.choice([1, 2])):
            mode = r.choice(["permit", "deny"])
            p = r.choice(["ipv6", "tcp", "udp", "58", "esp"])
            s, sd = self.v6host()
            sp, spd = self.port(group=False)
            t, td = self.v6host()
            tp, tpd = self.port(group=False)
            o = {"sequence": str(10 * k + 10)}
            ot = ""
            for n, v in r.sample([("log", None), ("fragments", None), ("dscp", "af11"), ("time-range", "work")], r.choice([0, 0, 1])):
                ot += f" {n}" + (f" {v}" if v else "")
                o[n] = v
            self.lines.append(f" sequence {10 * k + 10} {mode} {p} {s}{sp} {t}{tp}{ot}")
            self.exp["rules"].append({"id": i, "mode": mode, "proto": ("proto", p), "src": (sd, spd), "dst": (td, tpd), "icmp": None, "opts": o, "remark": []})

    # ---- groups
    def group_network(self):
        r = self.r
        n = self.ident("netgrp")
        self.lines.append(f"object-group network {n}")
        if r.random() < 0.3:
            self.lines.append(" description these are hosts")
        m = []
        for _ in range(r.choice([0, 1, 2, 4])):
            k = r.choice(["host", "host6", "net", "net6", "group"])
            if k in ("host", "host6"):
                a = self.ip4() if k == "host" else self.ip6()
                self.lines.append(f" host {a}")
                m.append(("host", a, None))
            elif k == "net":
                a = self.ip4()
                p, ms = self.mask()
                self.lines.append(f" {a} {ms}")
                m.append(("net", str(ipaddress.ip_network(f"{a}/{p}", strict=False)), None))
            elif k == "net6":
                a, p = self.ip6(), r.choice([0, 48, 64, 128])
                self.lines.append(f" {a}/{p}")
                m.append(("net", str(ipaddress.ip_network(f"{a}/{p}", strict=False)), None))
            else:
                c = [x for x in self.netgrp if x != n]
                if c:
                    x = r.choice(sorted(c))
                    self.lines.append(f" group-object {x}")
                    m.append(self.ref("group", x))
        self.netgrp[n] = m
        self.exp["gnetwork"][n] = m

    def group_service(self):
        r = self.r
        n = self.ident("svcgrp")
        if n in self.portgrp or n in self.protgrp:
            return
        self.lines.append(f"object-group service {n}")
        m = []
        for _ in range(r.choice([0, 1, 2, 3])):
            k = r.choice(["svc", "svc", "group", "code"])
            if k == "svc":
                t, d = self.service("service-object")
                self.lines.append(t.replace(" service-object ", " ", 1))
                m.append(("service",) + d)
            elif k == "code":
                c = r.choice(["gre", "esp", "ip", "ospf"])
                self.lines.append(f" {c}")
                m.append(("service", c, None, None, None, None))
            else:
                c = [x for x in self.svcgrp if x != n]
                if c:
                    x = r.choice(sorted(c))
                    self.lines.append(f" group-object {x}")
                    m.append(self.ref("sgroup", x))
        self.svcgrp[n] = m
        self.exp["gservice"][n] = m

    # ---- interfaces and routes
    def interface(self):
        r = self.r
        self.n += 1
        alias = r.choice(["Vlan", "GigabitEthernet0/", "Eth", "Gi1/0/"]) + str(r.choice([1, 10, 100, 2, 20]))
        if alias in self.aliases:
            alias += str(self.n)
        self.aliases.append(alias)
        self.lines.append(f"interface {alias}")
        ad, gr = [], {}
        det = []
        for k in range(r.choice([0, 1, 1, 2, 3])):
            a = r.choice([self.ip4(), f"10.{r.randint(0, 1)}.{r.choice([0, 1, 128])}.{r.randint(1, 254)}", "192.0.2.129"])
            p = r.choice([8, 16, 23, 24, 25, 30, 31, 32])
            det.append((f" ip address {a} {ipaddress.IPv4Network(f'0.0.0.0/{p}').netmask}" + (" secondary" if k else ""), ("a", f"{a}/{p}")))
        if r.random() < 0.3:
            a, p = self.ip6(), r.choice([64, 128, 0])
            det.append((f" ipv6 address {a}/{p}", ("a", str(ipaddress.ip_interface(f"{a}/{p}")))))
        for k, w in (("ip", "access-group"), ("ipv6", "traffic-filter")):
            for d in ("in", "out"):
                if r.random() < 0.25:
                    n = r.choice(["inside_in", "101", "v6in", "x", "Inside_in", "inside_in2"])
                    det.append((f" {k} {w} {n} {d}", ("g", k, n, d)))
        if r.random() < 0.4:
            det.append((r.choice([" description link to x", " shutdown", " no ip address", " duplex auto"]), None))
        r.shuffle(det)
        for t, e in det:
            self.lines.append(t)
            if e and e[0] == "a":
                ad.append(e[1])
            elif e:
                gr[f"{e[1]}-{e[3]}"] = (e[2], e[3], True)
        self.exp["interfaces"].append((alias, ad, gr))

    def route(self):
        r = self.r
        p = r.choice([0, 8, 16, 24, 25, 30, 32])
        a = n4(self.ip4()) & (FULL << (32 - p)) & FULL
        n = f"{i4(a)}/{p}"
        if self.aliases and r.random() < 0.35:
            gw, kind = r.choice(self.aliases), "iface"
        else:
            c = [s for _, ad, _ in self.exp["interfaces"] for s in ad if ":" not in s]
            if c and r.random() < 0.8:
                w = ipaddress.ip_interface(r.choice(c)).network
                x = r.choice([int(w.network_address), int(w.broadcast_address), int(w.network_address) - 1, int(w.broadcast_address) + 1, int(w.network_address) + 1])
                gw = i4(max(0, min(FULL, x)))
            else:
                gw = self.ip4()
            kind = "ip"
        self.lines.append(f"ip route {i4(a)} {ipaddress.IPv4Network(f'0.0.0.0/{p}').netmask} {gw}" + r.choice(["", "", "", "", " ", " 200", " name x", " 250 name Vlan1 track 3", " tag 7", " permanent", " 10.9.9.9 5" if kind == "iface" else " 5"]))
        self.exp["routes"].append((n, gw, kind))

    def domain(self):
        self.lines.append("ip domain name example.com")
        self.exp["domain"] = "example.com"

    DEFS = ["interface", "interface", "interface", "group_network", "group_network", "group_network", "group_port", "group_port", "group_service", "group_protocol"]
    IGN = ["!", "no ip http server", "ip cef", "logging 10.0.0.1", "snmp-server community x", "line1" and "boot-start-marker", "ip nat inside", "spanning-tree mode pvst",
           "ip dhcp pool work", "ip dhcp pool p\n   network 10.0.0.0 255.0.0.0\n   domain-name a.b (c|d)!\n   default-router 10.0.0.1"]

    def config(self, defs=10, uses=10, kinds=None, use=None):
        r = self.r
        self.hostname()
        steps = [r.choice(kinds or self.DEFS) for _ in range(defs)] + [r.choice(use or ["named", "named", "numbered", "numbered", "v6list", "route", "route", "domain"]) for _ in range(uses)]
        steps.sort(key=lambda s: (0 if s in self.DEFS else 1) + r.random() * 1.4)
        for s in steps:
            getattr(self, s)()
            if r.random() < 0.12:
                self.lines.append(r.choice(self.IGN))
        if r.random() < 0.5:
            self.lines.append("end")
        return "\n".join(self.lines) + "\n"
