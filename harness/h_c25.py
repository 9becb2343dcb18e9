"""The service table."""
from .common import *
from acltk.aclObjects import PortUtil
from .servtable import ROWS


def table():
    T = []
    for line in PortUtil._servnames.split("\n"):
        f = [x.strip() for x in line.split("|")]
        if len(f) == 4:
            for p in f[1].split(","):
                T.append((f[0].split()[0], p.strip().upper(), int(f[2])))
    return T


def run(ctx):
    r = ctx.rng
    T = table()
    ctx.part("every name", "every name of the table with every protocol in several spellings, and names not listed")
    ctx.case("services()")
    with limit(10):
        S = list(PortUtil.services())
    ctx.eq("services", T, [(s.name, s.protocol.strip().upper(), s.port) for s in S])
    for row in ROWS:
        ctx.ok(f"published row {row}", row in T, row, [t for t in T if t[0] == row[0]])
    for s in S:
        ctx.ok("numeric port", type(s.port) is int, "int", s.port)
    names = sorted({n for n, _, _ in T})
    for n in names + ["", "nosuch", "ww", "www ", "WWW", "ftp-", "sunrpc (rpc)", "80", "|"]:
        for p in [None, "tcp", "TCP", "Tcp", "udp", "UDP", "uDp", "icmp", "ICMP", "Icmp", "gre", "tc", "tcp,udp"]:
            ctx.case((n, p))
            e = [q for m, k, q in T if m == n and (p is None or p.upper() == k)]
            with limit(10):
                g = PortUtil.getservbyname(n) if p is None and r.random() < 0.5 else PortUtil.getservbyname(n, p)
            ctx.eq(f"getservbyname({n!r}, {p!r})", e[0] if e else None, g)
