"""Random pfSense/OPNsense configurations with the expected rules, aliases and interfaces."""
import html
import ipaddress
import re
from xml.sax.saxutils import escape

from acltk.aclObjects import *
from .asa import d_addr, d_port, d_icmp

DOCUMENTED = {"tracker", "type", "interface", "floating", "direction", "quick", "protocol", "descr", "disabled", "statetype", "log", "source", "destination", "created", "updated", "icmptype",
              "id", "ipprotocol", "tag", "tagged", "max", "max-src-nodes", "max-src-conn", "max-src-states", "statetimeout", "os"}
UNKNOWN = ["gateway", "sched", "dnpipe", "tcpflags_any", "associated-rule-id", "defaultqueue", "ackqueue", "nopfsync", "allowopts", "what", "Source", "src", "protocols", "vlanprio", "types"]
TEXTS = ["allow web", "a &amp; b", "x &lt;y&gt;", "&quot;q&quot;", "", "täst", "100%", "two  words", "&#39;s"]


def xml(tag, text=None):
    return f"<{tag}/>" if text is None else f"<{tag}>{escape(text)}</{tag}>"


class Gen:
    def __init__(self, r):
        self.r = r
        self.n = 0
        self.nets = {}
        self.ports = {}
        self.ifs = {}  # display name -> descriptor
        self.map = {}  # internal name -> display name
        self.exp = {"rules": [], "network": {}, "port": {}, "interfaces": {}, "hostname": ""}

    def chance(self, p):
        return self.r.random() < p

    # -- pieces
    def ip4(self):
        r = self.r
        return ".".join(str(r.choice([0, 1, 10, 127, 168, 192, 255, r.randrange(256)])) for _ in range(4))

    def ip6(self):
        r = self.r
        return str(ipaddress.IPv6Address(r.getrandbits(128) & r.choice([2**128 - 1, 0xFFFF << 112 | 0xFF])))

    def host(self):
        return self.ip6() if self.chance(0.25) else self.ip4()

    def net(self):
        if self.chance(0.25):
            return f"{self.ip6()}/{self.r.choice([0, 32, 48, 64, 127, 128, self.r.randint(0, 128)])}"
        return f"{self.ip4()}/{self.r.choice([0, 8, 16, 24, 31, 32, self.r.randint(0, 32)])}"

    def port(self):
        return str(self.r.choice([0, 1, 22, 80, 443, 8080, 65535, self.r.randrange(65536)]))

    def pair(self):
        a, b = sorted(self.r.sample(range(65536), 2))
        if self.chance(0.3):
            a, b = self.r.choice([(9, 100), (900, 1000), (80, 81), (0, 65535)])
        return str(a), str(b)

    def name(self, stem):
        self.n += 1
        return self.r.choice([stem, stem + "_", stem + "-", stem.upper(), stem[:1]]) + str(self.r.choice([self.n, self.n, f"1{self.n}", f"{self.n}0"])) + f"_{self.n}"

    def descr(self):
        """escaped text and what it says; None: the element is missing"""
        t = self.r.choice(TEXTS)
        return t, html.unescape(t)

    # -- aliases
    def alias(self):
        r = self.r
        kind = r.choice(["host", "network", "port"])
        n = self.name({"host": "srv", "network": "net", "port": "ports"}[kind])
        if self.chance(0.06) and (self.nets if kind != "port" else self.ports):
            # the same name for the other kind of alias
            n = r.choice(list(self.ports if kind != "port" else self.nets) or [n])
        k = r.choice([0, 1, 1, 2, 3, 5])
        texts, exp = [], []
        for _ in range(k):
            if kind == "host":
                if self.chance(0.2):
                    t = r.choice(["www.example.com", "host1", "srv_9", "1.2.3.256", "1.2.3.0/24"])
                    exp.append(("any",))
                else:
                    t = self.host()
                    if self.chance(0.2):
                        t = next((x for x in texts if re.fullmatch(r"[0-9.]+|[0-9a-f:]+", x) and not x.endswith("256")), t)
                    exp.append(("host", str(ipaddress.ip_address(t)), None))
            elif kind == "network":
                t = self.net()
                if texts and self.chance(0.35):
                    # the same address again, with another or the same prefix
                    a = r.choice(texts).split("/")[0]
                    t = f"{a}/{r.randint(0, 32)}"
                exp.append(("net", str(ipaddress.ip_network(t, strict=False)), None))
            elif self.chance(0.35):
                a, b = self.pair()
                if texts and self.chance(0.3):
                    c = r.choice(texts).split(":")[0]
                    a, b = (c, b) if int(c) < int(b) else (a, b)
                t = f"{a}:{b}"
                exp.append(("range", a, b))
            else:
                t = self.port()
                if texts and self.chance(0.25):
                    t = r.choice(r.choice(texts).split(":"))
                exp.append(("port", "eq", t))
            texts.append(t)
        parts = [xml("name", n), xml("type", kind), xml("address", " ".join(texts) if texts else None)]
        if self.chance(0.9):
            t, d = self.descr()
            parts.append(xml("descr", t if t or self.chance(0.5) else None))
        else:
            d = ""
        if self.chance(0.4):
            parts.append(xml("detail", "Entry added||x"))
        r.shuffle(parts)
        self.xaliases.append("<alias>" + "".join(parts) + "</alias>")
        if kind == "port":
            self.ports[n] = ("pgroup", n, tuple(exp))
            self.exp["port"][n] = ("pgroup", n, tuple(exp), d)
        else:
            self.nets[n] = ("group", n, tuple(exp))
            self.exp["network"][n] = ("group", n, tuple(exp), d)

    # -- interfaces
    def interface(self, tag):
        r = self.r
        parts = [xml("if", f"em{r.randrange(9)}")]
        addr = None
        if self.chance(0.6):
            a, p = self.ip4(), r.choice([8, 24, 30, 32, r.randint(0, 32)])
            addr = str(ipaddress.ip_interface(f"{a}/{p}"))
            parts += [xml("ipaddr", a), xml("subnet", str(p))]
        elif self.chance(0.5):
            parts += [xml("ipaddr", r.choice(["dhcp", "dhcp", "pppoe", None]))]
        alias, d = tag, ""
        if self.chance(0.85):
            if tag.startswith("opt"):
                t = r.choice(["DMZ", "GUEST", "VPN", "A &amp; B", "lan2", "opt"]) + f"{self.n}"
                self.n += 1
            else:
                t = r.choice(["LAN", "WAN", "opt1", "x &amp; y", ""])
            d = html.unescape(t)
            parts.append(xml("descr", t if t else None))
        if tag.startswith("opt"):
            alias = d or tag
            d = tag
        if self.chance(0.7):
            parts.append(xml("enable"))
        if self.chance(0.3):
            parts += [xml("ipaddrv6", "2001:db8::1"), xml("subnetv6", "64")]
        r.shuffle(parts)
        self.xifs.append(f"<{tag}>" + "".join(parts) + f"</{tag}>")
        self.map[tag] = alias
        self.ifs[alias] = (alias, addr, d)
        self.exp["interfaces"][alias] = (alias, addr, d)

    # -- rules
    def endpoint(self, tag, proto):
        """(xml or None, expected node)"""
        r = self.r
        if self.chance(0.1):
            return None, (("any",), None)
        k = r.choice(["any", "address", "address", "alias", "network", "alias"])
        if k == "alias" and not self.nets:
            k = "any"
        if k == "network" and not self.ifs:
            k = "any"
        if k == "any":
            p, e = [xml("any")], ("any",)
        elif k == "address":
            if self.chance(0.5):
                t = self.host()
                e = ("host", str(ipaddress.ip_address(t)), None)
            else:
                t = self.net()
                e = ("net", str(ipaddress.ip_network(t, strict=False)), None)
            p = [xml("address", t)]
        elif k == "alias":
            n = r.choice(list(self.nets))
            p, e = [xml("address", n)], self.nets[n]
        else:
            i = r.choice(list(self.map))
            p, e = [xml("network", i)], ("iface", self.map[i])
        port = None
        if self.chance(0.5):
            q = r.random()
            if q < 0.3 and self.ports:
                n = r.choice(list(self.ports))
                t, port = n, self.ports[n]
            elif q < 0.6:
                a, b = self.pair()
                t, port = f"{a}-{b}", ("range", a, b)
            else:
                t = self.port()
                port = ("port", "eq", t)
            p.append(xml("port", t))
        r.shuffle(p)
        return f"<{tag}>" + "".join(p) + f"</{tag}>", (e, port)

    def rule(self, extra=None):
        r = self.r
        mode = r.choice(["pass", "pass", "pass", "block", "reject", "match"])
        parts = [xml("type", mode)]
        proto = r.choice(["tcp", "udp", "tcp/udp", "icmp", "esp", None])
        if proto:
            parts.append(xml("protocol", proto))
        exp = {"mode": "permit" if mode == "pass" else "deny", "proto": proto or "any", "icmp": None, "opts": {}}
        for t in ("source", "destination"):
            x, e = self.endpoint(t, proto)
            if x:
                parts.append(x)
            exp["src" if t == "source" else "dst"] = e
        if self.chance(0.9):
            t, d = self.descr()
            parts.append(xml("descr", t if t or self.chance(0.5) else None))
        else:
            d = ""
        exp["descr"] = d
        tags = list(self.map)
        if self.chance(0.2):
            dr = r.choice(["in", "out", "any"])
            l = r.sample(tags, r.randint(1, len(tags))) if tags else ["wan"]
            if self.chance(0.2):
                l.append("unassigned")
            parts += [xml("floating", "yes"), xml("direction", dr), xml("interface", ",".join(l)), xml("quick", "yes")]
            exp["id"] = "floating"
            exp["opts"]["floating"] = (tuple(self.map.get(i, i) for i in l), dr)
        else:
            i = r.choice(tags + ["enc0", "openvpn"])
            parts.append(xml("interface", i))
            exp["id"] = self.map.get(i, i)
            if self.chance(0.1):
                parts.append(xml("floating", "no"))
            if self.chance(0.2):
                parts.append(xml("direction", "in"))
        if self.chance(0.2):
            parts.append(xml("disabled"))
            exp["opts"]["inactive"] = True
        if self.chance(0.3):
            parts.append(xml("log"))
            exp["opts"]["log"] = True
        if self.chance(0.4):
            st = r.choice(["keep state", "sloppy state", "synproxy state", "none"])
            parts.append(xml("statetype", st))
            if st != "keep state":
                exp["opts"]["statetype"] = st
        tr = str(r.randrange(10**9))
        if self.chance(0.8):
            parts.append(xml("tracker", tr))
            exp["opts"]["xref"] = tr
        else:
            exp["opts"]["xref"] = -1
        if proto == "icmp" and self.chance(0.6):
            t = r.choice(["echoreq", "unreach", "any"])
            parts.append(xml("icmptype", t))
            exp["icmp"] = ("icmp", t, None)
        for t in ("created", "updated"):
            if self.chance(0.5):
                parts.append(f"<{t}><time>{r.randrange(10**9, 17 * 10**8)}</time><username>x</username></{t}>")
        for t in r.sample(["id", "ipprotocol", "tag", "tagged", "max", "max-src-nodes", "max-src-conn", "max-src-states", "statetimeout", "os"], r.choice([0, 0, 1, 2, 4])):
            parts.append(xml(t, r.choice([None, "inet", "1", "pass"])))
        if extra:
            parts.append(extra)
        r.shuffle(parts)
        self.xrules.append("<rule>" + "".join(parts) + "</rule>")
        self.exp["rules"].append(exp)

    def config(self, extra=None, aliases=None, rules=None, **kw):
        r = self.r
        self.xaliases, self.xifs, self.xrules = [], [], []
        for _ in range(r.choice([0, 2, 4, 6]) if aliases is None else aliases):
            self.alias()
        tags = ["wan", "lan", "opt1", "opt2", "opt10", "opt3"][: r.choice([0, 1, 2, 4, 6])]
        for t in tags:
            self.interface(t)
        n = r.choice([0, 1, 3, 6]) if rules is None else rules
        at = r.randrange(n) if extra and n else None
        for i in range(n):
            self.rule(extra if i == at else None)
        if self.chance(0.3) and n:
            self.xrules.append("<separator><wan><sep0><row>fr0</row><text>T</text><color>bg-info</color><if>wan</if></sep0></wan></separator>")
        blocks = []
        if self.xaliases:
            blocks.append("<aliases>" + "".join(self.xaliases) + "</aliases>")
        if self.xifs:
            blocks.append("<interfaces>" + "".join(self.xifs) + "</interfaces>")
        if self.chance(0.8):
            blocks.append("<system><hostname>fw</hostname><domain>example.org</domain></system>")
            self.exp["hostname"] = "fw.example.org"
        if self.chance(0.3):
            blocks.append("<nat><outbound/></nat>")
        blocks.append("<filter>" + "\n".join(self.xrules) + "</filter>")
        r.shuffle(blocks)
        root = r.choice(["pfsense", "opnsense"])
        return f"<{root}>\n" + "\n".join(blocks) + f"\n</{root}>"


def d_rule(x):
    o = {}
    for k, v in x.options.items():
        if isinstance(v, ACLRuleOptionInterface):
            o[k] = (tuple(v.interfaces), v.direction)
        elif isinstance(v, (ACLRuleOptionLog, ACLRuleOptionInActive)):
            o[k] = True
        else:
            o[k] = v
    return {
        "mode": x.mode,
        "proto": x.protocol.name,
        "icmp": d_icmp(x.icmp),
        "opts": o,
        "src": (d_addr(x.src.host), d_port(x.src.port)),
        "dst": (d_addr(x.dst.host), d_port(x.dst.port)),
        "descr": x.remark[0],
        "id": x.id,
    }


def tables(c):
    def ifd(i):
        return (i.alias, str(i.addresses[0].interface) if i.addresses else None, i.description)

    return {
        "rules": [d_rule(x) for x in c.rules.rules],
        "network": {k: d_addr(g) + (g.description,) for k, g in c.groups.network.items()},
        "port": {k: d_port(g) + (g.description,) for k, g in c.groups.port.items()},
        "interfaces": {k: ifd(i) for k, i in c.interfaces.items()},
        "hostname": c.hostname,
    }
