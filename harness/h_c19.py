"""pfSense/OPNsense aliases and interfaces."""
import shutil
import tempfile

from .cfgs import *
from . import pf
from acltk.pfsenseObjects import pfsenseConfig, pfsenseParserOptions


def table(ctx, d, r, n):
    """address tables fetched from a file"""
    p = os.path.join(d, f"table{n}")
    g = pf.Gen(r)
    lines, exp = [], []
    for _ in range(r.choice([0, 1, 3, 8])):
        k = r.random()
        if k < 0.2:
            lines.append(r.choice(["", "# comment", "; x / y", "not an address"]))
        elif k < 0.6:
            t = g.host()
            exp.append(("host", str(ipaddress.ip_address(t)), None))
            lines.append(t + r.choice(["", " ", "\r"]))
        else:
            t = ipaddress.ip_network(g.net(), strict=False)
            exp.append(("net", str(t), None))
            lines.append(str(t))
    with open(p, "w") as f:
        f.write("\n".join(lines) + r.choice(["", "\n"]))
    s = f"<pfsense><aliases><alias><name>T</name><type>urltable</type><url>file://{p}</url><address/><descr>x</descr></alias></aliases></pfsense>"
    ctx.case((s, lines))
    c = parse(pfsenseConfig, s)
    compare(ctx, "table", {"T": ("group", "T", tuple(exp), "x")}, pf.tables(c)["network"])
    with silent():
        c = pfsenseConfig.fromString(s, options=pfsenseParserOptions(fetch_urltable=False))
    compare(ctx, "table that is not fetched", {"T": ("group", "T", (("any",),), "x")}, pf.tables(c)["network"])


def run(ctx):
    r = ctx.rng
    ctx.part("aliases and interfaces", "generated configurations with up to 8 aliases and 6 interfaces, rules refer to them")
    n = 0
    while ctx.left(0.8) and n < cap(ctx, 2500):
        n += 1
        g = pf.Gen(r)
        s = g.config(aliases=r.choice([0, 1, 4, 8]))
        ctx.case(s)
        c = parse(pfsenseConfig, s)
        t = pf.tables(c)
        for k in ("network", "port", "interfaces"):
            compare(ctx, k, g.exp[k], t[k])
        compare(ctx, "references", [(x["src"], x["dst"], x["id"]) for x in g.exp["rules"]], [(x["src"], x["dst"], x["id"]) for x in t["rules"]])
        for x in c.rules.rules:
            for nd in (x.src, x.dst):
                if isinstance(nd.host, NetworkGroup):
                    ctx.ok("alias referenced by the rule", nd.host is c.groups.network.get(nd.host.name))
                if isinstance(nd.port, PortGroup):
                    ctx.ok("alias referenced by the rule", nd.port is c.groups.port.get(nd.port.name))
    ctx.part("unknown kinds", "aliases of another kind are refused")
    for k in ("url", "geoip", "Host", "urltable_ports", "", "networks", "ports", "mac", "external"):
        for a in ("1.2.3.4", None):
            s = "<pfsense><aliases><alias>" + pf.xml("name", "x") + pf.xml("type", k) + pf.xml("address", a) + "<descr/></alias></aliases></pfsense>"
            ctx.case(s)
            try:
                parse(pfsenseConfig, s)
            except Exception:
                continue
            ctx.fail("alias kind " + k, "refused", "accepted")
    ctx.part("tables", "urltable aliases read from files")
    d = tempfile.mkdtemp(prefix="acltk-c19-")
    try:
        n = 0
        while ctx.left() and n < cap(ctx, 100):
            n += 1
            table(ctx, d, r, n)
    finally:
        shutil.rmtree(d)


from acltk.aclObjects import *
