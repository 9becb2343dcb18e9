"""C20: NAT statements keep real and mapped sides apart.

Every semantic action of NAT statements, from the leaves (the interfaces, a real or mapped part) over the statement to the
object definition carrying one, for all parts: what is stated for one side is found on that side and nowhere else.
"""
from .match import *
from .seq import *
from .c15 import rec, start, SEMS
from .c13 import PARSER
from .c24 import is_a, with_class_sem as sem, mask_of
from .c17 import call, passed

NODE = TObj("NetworkObject", "NetworkGroup")
PORT = TOpt(TObj("Port", "PortRange", "PortGroup"))
NETNODE = TObj("NetworkAny", "NetworkObject", "NetworkGroup")
OPTS = ("net-to-net", "dns", "unidirectional", "no-proxy-arp", "inactive", "route-lookup")
TYPES = {
    **PARSER,
    ("Interface", "nameif"): TOpt(TStr()),
    ("NATMappedSourceFallback", "interface"): TConst("interface"),
    ("NATMappedSourceFallback", "ipv6"): TOpt(TConst("ipv6")),
    ("NATObject", "options"): TMap(TOpaque("option")),
    ("NATReal", "src"): TObj("NATRealNode"),
}


def side_iface(I, side, iface, name):
    """the interface of a side is named by its nameif, else by its alias"""
    p = I.p
    n = is_a(I, I.getattr(side, "iface"), "NetworkInterface", f"{name}: interface")
    p.prove(zt(I.eq(I.getattr(n, "name"), ifname(I, iface))), f"{name}: the interface of this side")


def ifname(I, iface):
    n = I.getattr(iface, "nameif")
    return n if I.truth(n) else I.getattr(iface, "alias")


def same_node(I, got, want, iface, name):
    """want: an object, the word interface or any"""
    if want == "interface":
        n = is_a(I, got, "NetworkInterface", name)
        I.p.prove(zt(I.eq(I.getattr(n, "name"), ifname(I, iface))), f"{name}: the interface of the same side")
    elif want == "any":
        is_a(I, got, "NetworkAny", name)
    else:
        I.p.prove(zt(got is not None and I.same(I.force(got), want)), f"{name}: the stated one")


def same_opt(I, got, want, name):
    I.p.prove(zt(got is None if want is None else got is not None and I.same(got, want)), f"{name}: the stated one")


# ---------------------------------------------------------------- parts of a nat statement
def real_node(I):
    p = I.p
    w = ["any", "object", "group"][p.choose(3, "kind")]
    o = arg(I, NODE, "o")
    r = call(I, "fwsmSemantics", "nat_real_node", {"type": w, "node": None if w == "any" else o})
    same_node(I, r, "any" if w == "any" else o, None, f"real part {w}")
    outcome(I, "end")


MAPPED = {"src": ("object", "group", "interface", "pool", "any"), "dst": ("object", "group", "interface", "any")}


def part(which):
    def fn(I):
        p = I.p
        w = MAPPED[which][p.choose(len(MAPPED[which]), "mapped kind")]
        real, o = arg(I, NETNODE, "real"), arg(I, NODE, "o")
        fb = arg(I, TOpt(TObj("NATMappedSourceFallback")), "fallback") if which == "src" else None
        m = {"type": w, "fallback": fb}
        if w in ("object", "group"):
            m["name"] = o
        if w == "pool":
            m["pool"] = rec(I, {"range": o})
        t = ["static", "dynamic"][p.choose(2, "type")] if which == "src" else "static"
        r = call(I, "fwsmSemantics", f"nat_{which}", {"type": t, "real": real, "mapped": rec(I, m)})
        p.prove(isinstance(r, HDict), f"{which}: two sides")
        a, b = I.getitem(r, "real"), I.getitem(r, "mapped")
        is_a(I, a, "NATRealNode", f"{which} real")
        same_node(I, I.getattr(a, "node"), real, None, f"{which}: real side")
        is_a(I, b, "NATMappedSource" if which == "src" else "NATMappedDestination", f"{which} mapped")
        n = I.getattr(b, "node")
        if w == "interface":
            p.prove(zt(I.eq(n, "interface")), f"{which}: the word interface")
        else:
            same_node(I, n, "any" if w == "any" else o, None, f"{which}: mapped side")
        if which == "src":
            p.prove(zt(I.eq(I.getattr(b, "type"), t)), "src: static or dynamic")
            same_opt(I, I.getattr(b, "fallback"), fb, "src: fallback")
        outcome(I, w)

    return fn


def interfaces(cls):
    def fn(I):
        p = I.p
        ps, s, ts, old = start(I, cls)
        ns = []
        for k in ("real", "mapped"):
            if p.choose(2, k) == 0:
                ns.append((k, "any", None))
            else:
                n = arg(I, TStr(nonempty=True), k)
                p.assume(n.t != z3.StringVal("any"))
                ns.append((k, n, I.dict_get_segs(old["interfaces"], n, lambda: None)))
        try:
            r = I.force(I.call_method(s, "nat_interfaces", [rec(I, {k: n for k, n, i in ns})], {}))
        except PyExc:
            outcome(I, "unknown")
            p.prove(any(n != "any" and i is None for k, n, i in ns), "interfaces: only an unknown one is refused")
            return
        outcome(I, "end")
        for k, n, i in ns:
            x = is_a(I, I.getitem(r, k), "Interface", f"{k} interface")
            if isinstance(n, str):
                p.prove(zt(I.eq(ifname(I, x), "any")), f"{k} interface: any")
            else:
                p.prove(zt(i is not None and I.same(x, i)), f"{k} interface: the one with that name")

    return fn


# ---------------------------------------------------------------- the nat statement
def sides(I, what):
    """the two sides of a part as handed over by its action"""
    p = I.p
    real = arg(I, NETNODE, f"{what} real")
    w = ["given", "interface"][p.choose(2, f"{what} mapped")]
    m = "interface" if w == "interface" else arg(I, NETNODE, f"{what} mapped")
    return real, m


def statement(case):
    def fn(I):
        p = I.p
        C = I.prog.classes
        i, j = arg(I, TObj("Interface"), "i"), arg(I, TObj("Interface"), "j")
        f = {"type": "service", "iface": p.new_dict([Elem(("real", i)), Elem(("mapped", j))])}
        sreal, smap = arg(I, NETNODE, "src real"), arg(I, NETNODE, "src mapped")
        dst = None
        fb, typ = None, "static"
        if case == "source":
            sreal, smap = sides(I, "src")
            typ = ["static", "dynamic"][p.choose(2, "type")]
            if smap != "interface":
                fb = arg(I, TOpt(TObj("NATMappedSourceFallback")), "fallback")
        elif case == "destination":
            if p.choose(2, "dst") == 1:
                dst = sides(I, "dst")
        elif case.startswith("service"):
            typ = case.split()[1]
        else:
            typ = ["static", "dynamic"][p.choose(2, "type")]
        serv = case.startswith("service")
        if case == "all parts":
            # every part at once, each stated or not
            dst = (arg(I, TObj("NetworkObject"), "dst real"), ["interface", arg(I, TObj("NetworkObject"), "dst mapped")][p.choose(2, "dst mapped")]) if p.choose(2, "dst") else None
            fb = arg(I, TOpt(TObj("NATMappedSourceFallback")), "fallback")
            serv = p.choose(2, "service") == 1
        src = I.construct(C["NATMappedSource"], [typ, smap, fb], {})
        f["src"] = p.new_dict([Elem(("real", I.construct(C["NATRealNode"], [sreal], {}))), Elem(("mapped", src))])
        if dst:
            f["dst"] = p.new_dict([Elem(("real", I.construct(C["NATRealNode"], [dst[0]], {}))), Elem(("mapped", I.construct(C["NATMappedDestination"], [dst[1]], {})))])
        else:
            f["dst"] = None
        s1 = s2 = None
        if serv:
            s1, s2 = arg(I, TObj("ServiceObject"), "s1"), arg(I, TObj("ServiceObject"), "s2")
            f["service"] = p.new_list([Elem("service"), Elem(None), Elem(s1), Elem(None), Elem(s2)])
        else:
            f["service"] = None
        opts, segs = None, ()
        if case in ("options", "all parts"):
            opts = arg(I, TList(TRec({"type": TStr(pred=lambda t: z3.And(t != z3.StringVal("description"), t != z3.StringVal("after-auto")))})), "opts")
            segs = p.content(opts)
            f["options"] = opts
            f["pos"] = [None, ("after-", "auto"), ("after-", "object")][p.choose(3, "after")]
        elif case == "description":
            d = arg(I, TStr(), "desc")
            f["options"] = p.new_list([Elem(rec(I, {"type": "dns"})), Elem(rec(I, {"type": "description", "value": d}))])
        else:
            f["options"] = p.new_list([])
        try:
            r = call(I, "fwsmSemantics", "nat", f)
        except PyExc as e:
            if not serv or typ != "static":
                raise
            outcome(I, "refused")
            a = [I.getattr(s, k) is not None for s in (s1, s2) for k in ("src", "dst")]
            p.prove(a not in ([True, False, True, False], [False, True, False, True]), "port translation: refused only if it is neither of source nor of destination ports")
            return
        outcome(I, "end")
        is_a(I, r, "NATObject", "nat")
        real, mapped = is_a(I, I.getattr(r, "real"), "NATReal", "real side"), is_a(I, I.getattr(r, "mapped"), "NATMapped", "mapped side")
        side_iface(I, real, i, "real side")
        side_iface(I, mapped, j, "mapped side")
        x = I.getattr(real, "src")
        is_a(I, x, "NATRealNode", "real source")
        same_node(I, I.getattr(x, "node"), sreal, i, "real source")
        y = I.getattr(mapped, "src")
        is_a(I, y, "NATMappedSource", "mapped source")
        same_node(I, I.getattr(y, "node"), smap, j, "mapped source")
        p.prove(zt(I.eq(I.getattr(y, "type"), typ)), "static or dynamic is kept")
        g = I.getattr(y, "fallback")
        if fb is None:
            p.prove(g is None, "no fallback unless stated")
        else:
            outcome(I, "fallback")
            p.prove(zt(g is not None and I.same(g, fb)), "fallback is kept")
            n = is_a(I, I.getattr(g, "interface"), "NetworkInterface", "fallback")
            p.prove(zt(I.eq(I.getattr(n, "name"), ifname(I, j))), "fallback: the mapped interface")
        rd, md = I.getattr(real, "dst"), I.getattr(mapped, "dst")
        if dst is None:
            p.prove(rd is None and md is None, "no destination unless stated")
        else:
            outcome(I, "dst")
            is_a(I, rd, "NATRealNode", "real destination")
            same_node(I, I.getattr(rd, "node"), dst[0], i, "real destination")
            is_a(I, md, "NATMappedDestination", "mapped destination")
            same_node(I, I.getattr(md, "node"), dst[1], j, "mapped destination")
        rs, ms = I.getattr(real, "service"), I.getattr(mapped, "service")
        if s1 is None:
            p.prove(rs is None and ms is None, "no service unless stated")
        elif typ == "dynamic":
            same_opt(I, rs, s1, "dynamic: real service")
            same_opt(I, ms, s2, "dynamic: mapped service")
        else:
            a = [I.getattr(s, k) is not None for s in (s1, s2) for k in ("src", "dst")]
            p.prove(a in ([True, False, True, False], [False, True, False, True]), "static: source or destination ports")
            by_src = a[0]
            outcome(I, "by source" if by_src else "by destination")
            same_opt(I, rs, s1 if by_src else s2, "static: real service")
            same_opt(I, ms, s2 if by_src else s1, "static: mapped service")
        d = I.getattr(r, "description")
        if case == "description":
            p.prove(zt(I.eq(d, f_desc(I))), "the description is kept")
        else:
            p.prove(d is None, "no description unless stated")
        o = I.getattr(r, "options")
        if case in ("options", "all parts"):
            outcome(I, "options")
            after = [Elem(("after-auto", True))] if f["pos"] is not None else []
            same_entries(I, o, tuple(FM(x, lambda pp, e: (Elem((I.getattr(e, "type"), True)),), "types") for x in segs) + tuple(after), "nat")
        elif case == "description":
            p.prove(I.dict_has(o, "dns") and not I.dict_has(o, "description"), "the other options are kept")
        else:
            p.prove(p.content(o) == (), "no option unless stated")

    return fn


def same_entries(I, o, want, name):
    """the options are the stated ones, all of them set"""

    def same(I, got, e):
        e = I.force(I.lazy(e))
        I.p.prove(zt(I.eq(got[0], e[0])), f"{name}: an option under its name")
        I.p.prove(I.truth(got[1]), f"{name}: an option is set")
        return True

    def order(x):  # a table: the order of different entries does not matter
        return (1, repr(x.src.key)) if isinstance(x, FM) else (0, repr(x.v[0]) if isinstance(x, Elem) else repr(x.key))

    got, want = sorted(I.resolve(I.p.content(o)), key=order), sorted(want, key=order)
    same_seq(I, got, want, f"{name} options", same, "exactly the stated ones")


def f_desc(I):
    return arg(I, TStr(), "desc")


def old_syntax(I):
    I.p.prove(call(I, "fwsmSemantics", "nat", {"type": None, "iface": None}) is None, "a statement in the old syntax is left out")


# ---------------------------------------------------------------- NAT of an object
def obj_mapped(cls):
    def fn(I):
        p = I.p
        w = ["object", "group", "address", "address with prefix", "interface", "pool"][p.choose(6, "kind")]
        fb = arg(I, TOpt(TObj("NATMappedSourceFallback")), "fallback")
        o = arg(I, NODE, "o")
        f = {"type": w.split()[0], "fallback": fb}
        if w in ("object", "group"):
            f["object"] = o
            if w == "group":
                f["group"] = None
        elif w == "interface":
            f = {"type": "interface", "option": None, "interface": None}
            fb = None
        elif w == "pool":
            f["pool"] = rec(I, {"range": o, "options": None})
        else:
            a = arg(I, TIp(), "a")
            f["address"] = a
            if w == "address":
                f["mask"] = None
            else:
                f["mask"], h = mask_of(I, "mask text", a)
        r = is_a(I, call(I, cls, "network_nat_mapped", f), "NATMappedSource", "mapped part")
        n = I.getattr(r, "node")
        if w in ("object", "group", "pool"):
            same_node(I, n, o, None, f"mapped part {w}")
        elif w == "interface":
            p.prove(zt(I.eq(n, "interface")), "mapped part: the word interface")
        elif w == "address":
            from .c24 import host_is

            host_is(I, n, a, "mapped part address")
        else:
            from .c24 import net_is

            net_is(I, n, a, h, "mapped part network")
        same_opt(I, I.getattr(r, "fallback"), fb, "mapped part: fallback")
        outcome(I, "end")

    return fn


def obj_service(cls):
    def fn(I):
        p = I.p
        a, b, t = arg(I, TObj("Port"), "a"), arg(I, TObj("Port"), "b"), arg(I, TEnum("tcp", "udp"), "t")
        if p.choose(2, "kind") == 0:
            p.prove(zt(I.eq(call(I, cls, "network_object_nat_service", {"type": "dns"}), "dns")), "dns")
            return
        r = is_a(I, call(I, cls, "network_object_nat_service", {"type": "service", "protocol": t, "real": a, "mapped": b}), "Service", "port translation")
        outcome(I, "end")
        p.prove(zt(I.eq(I.getattr(I.getattr(r, "protocol"), "name"), t)), "port translation: protocol")
        same_opt(I, I.getattr(r, "src"), a, "port translation: real port first")
        same_opt(I, I.getattr(r, "dst"), b, "port translation: mapped port second")

    return fn


def obj_nat(cls, opts):
    def fn(I):
        p = I.p
        C = I.prog.classes
        i, j = arg(I, TObj("Interface"), "i"), arg(I, TObj("Interface"), "j")
        m = "interface" if not opts and p.choose(2, "mapped") else arg(I, TObj("NetworkObject", "NetworkGroup", "NetworkHost", "Network"), "m")
        fb = None if m == "interface" or opts else arg(I, TOpt(TObj("NATMappedSourceFallback")), "fallback")
        mapped = I.construct(C["NATMappedSource"], ["dummy", m, fb], {})
        typ = ["static", "dynamic"][p.choose(2, "type")]
        f = {"iface": p.new_dict([Elem(("real", i)), Elem(("mapped", j))]), "type": typ, "mapped": mapped}
        w = ["none", "dns", "ports"][p.choose(3, "service")]
        sv = None
        if w == "dns":
            f["service"] = "dns"
        elif w == "ports":
            sv = arg(I, TObj("Service"), "sv")
            f["service"] = sv
        l = arg(I, TList(TStr()), "opts") if opts else p.new_list([])
        segs = p.content(l)
        f["options"] = l
        r = is_a(I, call(I, cls, "network_object_nat", f), "NATObject", "object nat")
        outcome(I, w)
        real, mp = I.getattr(r, "real"), I.getattr(r, "mapped")
        side_iface(I, real, i, "object nat, real side")
        side_iface(I, mp, j, "object nat, mapped side")
        y = is_a(I, I.getattr(mp, "src"), "NATMappedSource", "object nat, mapped source")
        same_node(I, I.getattr(y, "node"), m, j, "object nat, mapped source")
        p.prove(zt(I.eq(I.getattr(y, "type"), typ)), "object nat: static or dynamic is kept")
        g = I.getattr(y, "fallback")
        same_opt(I, g, fb, "object nat: fallback")
        if fb is not None:
            n = is_a(I, I.getattr(g, "interface"), "NetworkInterface", "object nat, fallback")
            p.prove(zt(I.eq(I.getattr(n, "name"), ifname(I, j))), "object nat, fallback: the mapped interface")
        for s in (real, mp):
            is_a(I, I.getattr(I.getattr(s, "dst"), "node"), "NetworkAny", "object nat: any destination")
        rs, ms = I.getattr(real, "service"), I.getattr(mp, "service")
        if sv is None:
            p.prove(rs is None and ms is None, "object nat: no service unless stated")
        else:
            for x, k, n in ((rs, "src", "real"), (ms, "dst", "mapped")):
                is_a(I, x, "Service", f"object nat, {n} service")
                same_opt(I, I.getattr(x, "protocol"), I.getattr(sv, "protocol"), f"object nat, {n} protocol")
                same_opt(I, I.getattr(x, "dst"), I.getattr(sv, k), f"object nat, {n} port")
                p.prove(I.getattr(x, "src") is None, f"object nat, {n} service: no other port")
        o = I.getattr(r, "options")
        pre = [Elem(("auto", True))] + ([Elem(("dns", True))] if w == "dns" else [])
        same_entries(I, o, tuple(pre) + tuple(FM(x, lambda pp, e: (Elem((e, True)),), "opts") for x in segs), "object nat")

    return fn


def fallback(cls):
    def fn(I):
        v6 = [None, "ipv6"][I.p.choose(2, "ipv6")]
        r = is_a(I, call(I, cls, "nat_mapped_fallback", {"interface": "interface", "ipv6": v6}), "NATMappedSourceFallback", "fallback")
        I.p.prove(zt(I.eq(I.getattr(r, "interface"), "interface")), "fallback: interface")
        I.p.prove(I.getattr(r, "ipv6") == v6, "fallback: ipv6")

    return fn


def definition(cls, how):
    """an object definition that carries a NAT statement"""

    def fn(I):
        p = I.p
        ps, s, ts, old = start(I, cls)
        n = arg(I, TStr(nonempty=True), "n")
        nat = arg(I, TObj("NATObject"), "nat")
        first = I.dict_get_segs(old["network_objects"], n, lambda: None)
        f = {"type": "network", "name": n, "description": None if p.choose(2, "description") else arg(I, TStr(), "d")}
        if how == "within":
            k = p.choose(3, "addresses")
            f["args"] = [None, rec(I, {"type": "host", "address": arg(I, TIp(), "a")}), rec(I, {"type": "fqdn", "fqdn": "x", "limit": None})][k]
            f["nat"] = nat
        else:
            f["args"] = rec(I, {"type": "nat", "nat": nat})
        r = is_a(I, I.force(I.call_method(s, "object_type", [rec(I, f)], {})), "NetworkObject", "definition")
        outcome(I, "again" if first is not None else "new")
        same_opt(I, I.getattr(r, "nat"), nat, "definition: its NAT")
        x = I.getattr(I.getattr(I.getattr(nat, "real"), "src"), "node")
        same_opt(I, x, first if first is not None else r, "definition: the real source is the object of that name")

    return fn


def proofs():
    F = "fwsmSemantics."
    out = [Proof("real part", real_node, [F + "nat_real_node"], ["end"], types=TYPES)]
    out.append(Proof("source part", part("src"), [F + "nat_src", "NATRealNode.__init__", "NATMappedSource.__init__"], list(MAPPED["src"]), types=TYPES))
    out.append(Proof("destination part", part("dst"), [F + "nat_dst", "NATMappedDestination.__init__"], list(MAPPED["dst"]), types=TYPES))
    need = {"source": ["fallback"], "destination": ["dst"], "service static": ["refused", "by source", "by destination"], "options": ["options"],
            "all parts": ["refused", "by source", "by destination", "options", "fallback", "dst"]}
    for c in ("source", "destination", "service static", "service dynamic", "options", "description", "all parts"):
        out.append(Proof(f"statement: {c}", statement(c), [F + "nat", "NATObject.__init__", "NATReal.__init__", "NATMapped.__init__"], ["end"] + need.get(c, []), types=TYPES))
    out.append(Proof("old syntax", old_syntax, [F + "nat"]))
    for c in SEMS:
        m = c[:-9]
        out.append(Proof(f"interfaces ({m})", interfaces(c), [f"{c}.nat_interfaces"], ["end", "unknown"], types=TYPES))
        out.append(Proof(f"mapped part of an object NAT ({m})", obj_mapped(c), [f"{c}.network_nat_mapped"], ["end"], types=TYPES))
        out.append(Proof(f"port translation of an object ({m})", obj_service(c), [f"{c}.network_object_nat_service"], ["end"], types=TYPES))
        for o in (False, True):
            out.append(Proof(f"object NAT{' with options' if o else ''} ({m})", obj_nat(c, o), [f"{c}.network_object_nat"], ["none", "dns", "ports"], types=TYPES))
        out.append(Proof(f"fallback ({m})", fallback(c), [f"{c}.nat_mapped_fallback"], types=TYPES))
        for h in ("within", "apart"):
            out.append(Proof(f"object definition with NAT {h} ({m})", definition(c, h), [f"{c}.object_type"], ["new", "again"], types=TYPES))
    return out
