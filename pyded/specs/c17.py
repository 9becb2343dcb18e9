"""C17: access-list entries keep their addresses, ports, protocol and action.

The semantic actions of both dialects, from the leaves (an address, a port condition, a protocol) over the node (address
with port) to the entry: each puts every part it is handed where it belongs and nothing else, for all parts.  By
composition along the parse tree the rule carries what the entry states.  Numeric limits of ports are C14, wildcard masks
C12, references C15, masks C24.
"""
from .match import *
from .seq import *
from .c15 import rec, start, SEMS
from .c13 import PARSER
from .c24 import host_is, net_is, mask_of, named, MASKS, is_a, target_is, with_class_sem as sem

HOST = TObj("Network", "NetworkHost", "NetworkAny", "NetworkAny4", "NetworkAny6", "NetworkGroup", "NetworkObject", "NetworkInterface")
PORT = TObj("Port", "PortRange", "PortGroup")
PROTOCOL = TObj("Protocol", "ProtocolGroup", "Service", "ServiceObject", "ServiceGroup")
OPT = TMap(TOpaque("option"))
TYPES = {**PARSER, ("ACLRule", "options"): OPT}


def call(I, cls, rule, fields):
    r = I.force(I.call_method(sem(I, cls), rule, [rec(I, fields)], {}))
    return r


def passed(I, r, o, name):
    I.p.prove(zt(r is not None and I.same(r, o)), f"{name}: that definition itself")


# ---------------------------------------------------------------- addresses
def host(what, cls):
    name = f"address {what}, {cls[:-9]}"

    def fn(I):
        p = I.p
        if what in ("host", "ip"):
            a, ip, t = named(I, None)
            r = call(I, cls, "acl_host", {"type": what, "address": a})
            frame_ok(I, name)
            host_is(I, r, ip, name, t)
        elif what == "interface":
            n = arg(I, TStr(nonempty=True), "n")
            r = is_a(I, call(I, cls, "acl_host", {"type": "interface", "name": n}), "NetworkInterface", name)
            p.prove(zt(I.eq(I.getattr(r, "name"), n)), f"{name}: the stated interface")
        elif what in ("any", "any4", "any6"):
            r = call(I, cls, "acl_host", {"type": what})
            is_a(I, r, {"any": "NetworkAny", "any4": "NetworkAny4", "any6": "NetworkAny6"}[what], name)
        elif what in ("object", "object-group"):
            o = arg(I, TObj("NetworkObject" if what == "object" else "NetworkGroup"), "o")
            r = call(I, cls, "acl_host", {"type": what, "object" if what == "object" else "group": o})
            passed(I, r, o, name)
        else:
            a, ip, t = named(I, None)
            m, h = mask_of(I, what[8:], ip)
            r = call(I, cls, "acl_host", {"type": "network", "address": a, "netmask": m})
            frame_ok(I, name)
            net_is(I, r, ip, h, name, t)
        outcome(I, "end")

    return fn


def ios_host(what):
    name = f"address {what} of a named list"

    def fn(I):
        if what == "host":
            a = arg(I, TIp(4), "a")
            host_is(I, call(I, "iosSemantics", "ios_host", {"type": "host", "address": a}), a, name)
        elif what == "any":
            is_a(I, call(I, "iosSemantics", "ios_host", {"type": "any"}), "NetworkAny", name)
        elif what == "object-group":
            o = arg(I, TObj("NetworkGroup"), "o")
            passed(I, call(I, "iosSemantics", "ios_host", {"type": what, "group": o}), o, name)
        elif what == "ipv6 host":
            a = arg(I, TIp(6), "a")
            host_is(I, call(I, "iosSemantics", "ios_ipv6_host", {"address": a, "prefix": None}), a, name)
        elif what == "ipv6 any":
            is_a(I, call(I, "iosSemantics", "ios_ipv6_host", {"address": "any", "prefix": None}), "NetworkAny", name)
        else:
            a = arg(I, TIp(6), "a")
            m, h = mask_of(I, "mask text", a)
            net_is(I, call(I, "iosSemantics", "ios_ipv6_host", {"address": a, "prefix": m}), a, h, name)
        outcome(I, "end")

    return fn


def node(rule, cls):
    name = f"{rule}, {cls[:-9]}"

    def fn(I):
        p = I.p
        h = arg(I, HOST, "h")
        port = None if rule == "acl_icmp_node" else arg(I, TOpt(PORT), "port")
        if rule == "acl_icmp_node":
            r = I.force(I.call_method(sem(I, cls), rule, [h], {}))
        else:
            r = call(I, cls, rule, {"host": h, "port": port})
        frame_ok(I, name)
        is_a(I, r, "ACLNode", name)
        outcome(I, "end")
        passed(I, I.getattr(r, "host"), h, f"{name} address")
        x = I.getattr(r, "port")
        p.prove(zt(x is None if port is None else x is not None and I.same(x, port)), f"{name}: the stated port condition")

    return fn


# ---------------------------------------------------------------- ports, protocols, services
def ports(cls):
    def fn(I):
        p = I.p
        k = p.choose(2, "kind")
        if k == 0:
            o = arg(I, TObj("PortGroup"), "o")
            passed(I, call(I, cls, "acl_port", {"type": "object-group", "group": o}), o, "port group")
            passed(I, call(I, cls, "port_group_object", {"type": "group-object", "object": o}), o, "port group in a group")
        else:
            a, b = arg(I, TStr(nonempty=True), "a"), arg(I, TStr(nonempty=True), "b")
            p.assume(z3.Implies(z3.And(lib.f_intok(a.t), lib.f_intok(b.t)), lib.f_int(a.t) < lib.f_int(b.t)))
            for rule, f in (("acl_port", {"type": "range", "start": a, "stop": b}), ("service_object_op", {"op": "range", "begin": a, "end": b})):
                r = is_a(I, call(I, cls, rule, f), "PortRange", f"{rule} range")
                p.prove(zt(I.eq(I.getattr(r, "start"), a)), f"{rule}: first end")
                p.prove(zt(I.eq(I.getattr(r, "stop"), b)), f"{rule}: last end")
        op, n = arg(I, TEnum("eq", "neq", "lt", "gt"), "op"), arg(I, TStr(nonempty=True), "n")
        for rule, f in (("acl_port", {"type": "port", "op": op, "port": n}), ("service_object_op", {"op": op, "port": n})):
            r = is_a(I, call(I, cls, rule, f), "Port", f"{rule} single")
            p.prove(zt(I.eq(I.getattr(r, "op"), op)), f"{rule}: operator")
            p.prove(zt(I.eq(I.getattr(r, "num"), n)), f"{rule}: port")
        outcome(I, "end")

    return fn


def protocol(cls):
    def fn(I):
        p = I.p
        w = p.choose(4, "kind")
        if w == 0:
            o = arg(I, TObj("Protocol"), "o")
            passed(I, call(I, cls, "acl_protocol", {"type": "name", "name": o}), o, "protocol")
        elif w == 1:
            o = arg(I, TObj("ServiceObject"), "o")
            passed(I, call(I, cls, "acl_protocol", {"type": "object", "object": o}), o, "service object as protocol")
        elif w == 2:
            o = arg(I, TObj("ProtocolGroup", "ServiceGroup"), "o")
            passed(I, call(I, cls, "acl_protocol", {"type": "object-group", "group": o}), o, "group as protocol")
        else:
            t = arg(I, TStr(nonempty=True), "t")
            for rule in ("protocol_icmp", "protocol_tcp_udp", "protocol_code"):
                r = is_a(I, I.force(I.call_method(sem(I, cls), rule, [t], {})), "Protocol", rule)
                p.prove(zt(I.eq(I.getattr(r, "name"), t)), f"{rule}: the stated protocol")
        outcome(I, "end")

    return fn


def icmp(cls):
    def fn(I):
        p = I.p
        w = p.choose(4, "kind")
        if w == 0:
            o = arg(I, TObj("ICMPGroup"), "o")
            passed(I, call(I, cls, "acl_icmp_options", {"type": "object-group", "group": o}), o, "icmp group")
            passed(I, call(I, cls, "icmp_group_object", {"type": "group-object", "group": o}), o, "icmp group in a group")
        elif w == 1:
            t, c = arg(I, TStr(nonempty=True), "t"), arg(I, TOpt(TStr()), "c")
            p.assume(t.t != z3.StringVal("object-group"))
            r = is_a(I, call(I, cls, "acl_icmp_options", {"type": t, "code": c}), "ICMP", "icmp")
            p.prove(zt(I.eq(I.getattr(r, "type"), t)), "icmp: type")
            p.prove(zt(I.eq(I.getattr(r, "code"), c)), "icmp: code")
        elif w == 2:
            t = arg(I, TStr(nonempty=True), "t")
            r = is_a(I, call(I, cls, "icmp_group_object", {"type": "icmp-object", "name": t}), "ICMP", "icmp in a group")
            p.prove(zt(I.eq(I.getattr(r, "type"), t)), "icmp in a group: type")
            p.prove(I.getattr(r, "code") is None, "icmp in a group: no code")
        else:
            p.prove(call(I, cls, "acl_icmp_options", {"type": None}) is None, "icmp: nothing stated")
        outcome(I, "end")

    return fn


def service(cls):
    def fn(I):
        p = I.p
        w = p.choose(4, "kind")
        if w == 0:
            o = arg(I, TObj("ServiceObject"), "o")
            passed(I, call(I, cls, "service_group_object", {"type": "service-object", "protocol": "object", "object": o}), o, "service object in a group")
        elif w == 1:
            o = arg(I, TObj("ServiceGroup"), "o")
            passed(I, call(I, cls, "service_group_object", {"type": "group-object", "group": o}), o, "service group in a group")
        elif w == 2:
            o, s, d = arg(I, TObj("Protocol"), "p"), arg(I, TOpt(PORT), "s"), arg(I, TOpt(PORT), "d")
            f = {"type": "service-object", "protocol": o}
            if p.choose(2, "shape") == 0:
                f.update(src=s, dst=d)
                if p.choose(2, "keys") == 0:
                    f.update(object=None, group=None)
                r = is_a(I, call(I, cls, "service_group_object", f), "Service", "service in a group")
                for k, v in (("protocol", o), ("src", s), ("dst", d)):
                    x = I.getattr(r, k)
                    p.prove(zt(x is None if v is None else x is not None and I.same(x, v)), f"service in a group: {k}")
            else:
                t, c = arg(I, TOpt(TStr()), "t"), arg(I, TOpt(TStr()), "c")
                f.update(icmp_type=t, icmp_code=c)
                r = is_a(I, call(I, cls, "service_group_object", f), "Service", "icmp service in a group")
                for k, v in (("icmp_type", t), ("icmp_code", c)):
                    p.prove(zt(I.eq(I.getattr(r, k), v)), f"icmp service in a group: {k}")
                passed(I, I.getattr(r, "protocol"), o, "icmp service in a group")
        else:
            o = arg(I, TObj("ProtocolGroup"), "o")
            passed(I, call(I, cls, "protocol_group_object", {"type": "group-object", "group": o}), o, "protocol group in a group")
            n = arg(I, TStr(nonempty=True), "n")
            r = is_a(I, call(I, cls, "protocol_group_object", {"type": "protocol-object", "name": n}), "Protocol", "protocol in a group")
            p.prove(zt(I.eq(I.getattr(r, "name"), n)), "protocol in a group: the stated one")
        outcome(I, "end")

    return fn


# ---------------------------------------------------------------- options
LOGREC = TRec({"type": TConst("log"), "options": TOpaque("log options")})
TIMEREC = TRec({"type": TConst("time-range"), "option": TObj("TimeRange")})
OPTREC = TUnion(TConst(None), TRec({"type": TConst(None)}), LOGREC, TIMEREC, TRec({"type": TConst("inactive")}))


def options(cls):
    def fn(I):
        p = I.p
        l = arg(I, TList(OPTREC), "opts")
        segs = p.content(l)
        r = I.force(I.call_method(sem(I, cls), "acl_options", [l], {}))
        p.prove(isinstance(r, HDict), "options: a table")
        outcome(I, "end")

        def want(pp, e):
            e = I.force(e)
            if e is None or I.getattr(e, "type") is None:
                return ()
            return (Elem(e),)

        def same(I, got, e):
            k = I.getattr(e, "type")
            outcome(I, k)
            p.prove(isinstance(got, tuple) and zt(I.eq(got[0], k)), f"options: {k}: under its kind")
            v = is_a(I, got[1], {"log": "ACLRuleOptionLog", "time-range": "TimeRange", "inactive": "ACLRuleOptionInActive"}[k], f"options: {k}")
            if k == "time-range":
                passed(I, v, I.getattr(e, "option"), f"options: {k}")
            if k == "log":
                p.prove(zt(I.same(I.getattr(v, "options"), I.getattr(e, "options"))), "options: log: its options")
            return True

        same_seq(I, p.content(r), tuple(FM(x, want, "options") for x in segs), "options", same, "one entry per stated option")

    return fn


# ---------------------------------------------------------------- entries
def rule_is(I, r, name, **want):
    p = I.p
    is_a(I, r, "ACLRule", name)
    outcome(I, "rule")
    for k, v in want.items():
        x = I.getattr(r, k)
        what = f"{name}: {k}"
        if k == "remark":
            same_seq(I, p.content(x), v, what, what="the remarks before the entry in order")
        elif k == "options":
            if v is None:
                p.prove(p.content(x) == (), f"{what}: none")
            else:
                p.prove(zt(I.same(x, v)), f"{what}: the stated ones")
        elif k in ("src", "dst") and not isinstance(v, Obj):
            # (address, port)
            is_a(I, x, "ACLNode", what)
            h = I.getattr(x, "host")
            if isinstance(v, str):
                is_a(I, h, v, what)
            else:
                passed(I, h, v[0], f"{what} address")
            p.prove(I.getattr(x, "port") is None, f"{what}: no port")
        elif isinstance(v, Obj):
            p.prove(zt(isinstance(x, Obj) and I.same(x, v)), f"{what}: the stated one")
        elif k == "protocol" and isinstance(v, str):
            is_a(I, x, "Protocol", what)
            p.prove(zt(I.eq(I.getattr(x, "name"), v)), f"{what}: {v}")
        else:
            p.prove(zt(x is None if v is None else I.eq(x, v)), f"{what}: the stated one")


def common(I, remark=True):
    """what is stated with every entry"""
    p = I.p
    f = {"id": arg(I, TStr(nonempty=True), "id"), "mode": arg(I, TEnum("permit", "deny"), "mode")}
    w = dict(f)
    w["remark"] = ()
    f["remark"] = None
    if remark and p.choose(2, "remark") == 1:
        l = arg(I, TList(TRec({"remark": TStr()})), "remarks")
        segs = p.content(l)
        f["remark"] = l
        w["remark"] = I.map_segs(segs, lambda e: I.getattr(e, "remark"))
    return f, w


def nodes(I):
    return arg(I, TObj("ACLNode"), "src"), arg(I, TObj("ACLNode"), "dst")


def fwsm_entry(kind):
    def fn(I):
        p = I.p
        f, w = common(I)
        f["extended"] = kind.split()[0]
        if kind == "extended":
            s, d = nodes(I)
            f.update(protocol=arg(I, PROTOCOL, "proto"), src=s, dst=d)
            w.update(protocol=f["protocol"], src=s, dst=d)
            if p.choose(2, "options") == 1:
                f["options"] = w["options"] = arg(I, OPT, "options")
            else:
                f["options"] = w["options"] = None
            if p.choose(2, "icmp") == 1:
                f["icmp"] = w["icmp"] = arg(I, TOpt(TObj("ICMP", "ICMPGroup")), "icmp")
        elif kind == "standard":
            h = arg(I, HOST, "src")
            f["src"] = h
            w.update(src=(h,), dst="NetworkAny", protocol="ip", options=None)
        elif kind == "webtype url":
            u = arg(I, TStr(), "url")
            f.update(protocol="url", url=u)
            w.update(src="NetworkAny", dst="Webtype", protocol="url")
        else:
            d = arg(I, TObj("ACLNode"), "dst")
            f.update(protocol="tcp", dst=d)
            w.update(src="NetworkAny", dst=d, protocol="tcp")
        r = call(I, "fwsmSemantics", "access_list", f)
        rule_is(I, r, f"{kind} entry", **w)

    return fn


def ios_entry(rule):
    def fn(I):
        p = I.p
        f, w = common(I)
        f["options"] = w["options"] = arg(I, OPT, "options") if p.choose(2, "options") else None
        if "standard" in rule:
            h = arg(I, HOST, "src")
            f["src"] = h
            w.update(src=(h,), dst="NetworkAny", protocol="ip")
        else:
            s, d = nodes(I)
            f.update(protocol=arg(I, PROTOCOL, "proto"), src=s, dst=d, icmp=arg(I, TOpt(TObj("ICMP", "ICMPGroup")), "icmp"))
            w.update(protocol=f["protocol"], src=s, dst=d, icmp=f["icmp"])
        r = call(I, "iosSemantics", rule, f)
        rule_is(I, r, rule, **w)

    return fn


def entry_rec(kind):
    """an entry of a named list as it is handed to the action of the list"""
    side = TUnion(HOST, TObj("ACLNode")) if kind == "extended" else HOST
    f = {"mode": TEnum("permit", "deny"), "src": side, "remark": TOpt(TList(TStr())), "options": TOpt(OPT)}
    if kind != "standard":
        f.update({"protocol": PROTOCOL, "dst": side})
    if kind == "extended":
        f["icmp"] = TOpt(TObj("ICMP", "ICMPGroup"))
    return TRec(f)


def named_list(kind):
    rule = "ipv6_access_list" if kind == "ipv6" else "ip_access_list"

    def fn(I):
        p = I.p
        ident = arg(I, TStr(nonempty=True), "id")
        k = "extended" if kind == "ipv6" else kind
        l = arg(I, TList(entry_rec(k)), "objects")
        segs = p.content(l)
        r = I.force(I.call_method(sem(I, "iosSemantics"), rule, [rec(I, {"type": kind, "name": ident, "objects": l})], {}))

        def same(I, got, e):
            w = {"id": ident, "mode": I.getattr(e, "mode")}
            part = [("src", "dst"), ("options", "remark", "protocol", "icmp")][p.choose(2, "part")]
            for x in part:
                if x == "icmp" and kind == "standard":
                    continue
                if kind == "standard" and x in ("dst", "protocol"):
                    w[x] = "NetworkAny" if x == "dst" else "ip"
                    continue
                v = I.getattr(e, x)
                if x in ("src", "dst") and not (I.classes_of(v) == {"ACLNode"}):
                    v = (v,)
                if x == "remark":
                    v = p.content(v) if v is not None else ()
                w[x] = v
            rule_is(I, got, f"entry of a named {kind} list", **w)
            return True

        same_seq(I, p.content(I.getattr(r, "rules")), segs, f"named {kind}", same, "one rule per entry, in order")

    return fn


def remarks(rule):
    """remark lines of an entry of a named list"""

    def fn(I):
        p = I.p
        f, w = common(I)
        s, d = nodes(I)
        f.update(protocol=arg(I, TObj("Protocol"), "proto"), src=s, dst=d, options=None)
        r = call(I, "iosSemantics", rule, f)
        outcome(I, "end")
        rm = I.getattr(r, "remark")
        same_seq(I, p.content(rm) if rm is not None else (), w["remark"], rule, what="the remarks before the entry in order")
        for k in ("id", "mode", "protocol", "src", "dst", "options"):
            x, v = I.getattr(r, k), f[k]
            p.prove(zt(I.same(x, v) if isinstance(v, Obj) else (x is None if v is None else I.eq(x, v))), f"{rule}: {k} is kept")

    return fn


def seq_entry(I):
    """ipv6 entries with a sequence number"""
    p = I.p
    o = arg(I, OPT, "options")
    old = p.content(o)
    q = arg(I, TStr(nonempty=True), "seq")
    rl = rec(I, {"mode": "permit", "options": o})
    r = call(I, "iosSemantics", "ipv6_access_list_seq", {"rule": rl, "seq": q})
    p.prove(zt(I.same(r, rl)), "ipv6 entry with a number: the entry itself")
    o2 = I.getattr(r, "options")
    k = arg(I, TStr(), "k")
    v = I.dict_get(o2, k, lambda: None)
    if I.tr(I.eq(k, "sequence")):
        outcome(I, "end")
        p.prove(zt(v is not None and I.eq(v, q)), "ipv6 entry with a number: the number is an option")
    else:
        was = I.dict_get_segs(old, k, lambda: None)
        p.prove((v is None) == (was is None), "ipv6 entry with a number: the other options are kept")


def ios_options(rule):
    def fn(I):
        p = I.p
        l = arg(I, TList(TRec({"type": TStr(nonempty=True), "value": TStr()})), "opts")
        segs = p.content(l)
        r = I.force(I.call_method(sem(I, "iosSemantics"), rule, [l], {}))
        p.prove(isinstance(r, HDict), f"{rule}: a table")

        def same(I, got, e):
            outcome(I, "kept")
            p.prove(isinstance(got, tuple) and zt(I.eq(got[0], I.getattr(e, "type"))), f"{rule}: under its kind")
            p.prove(zt(I.eq(got[1], I.getattr(e, "value"))), f"{rule}: its value")
            return True

        same_seq(I, p.content(r), segs, rule, same, "one entry per stated option")

    return fn


def command(which):
    """an access list below ip / ipv6 is handed on as it is"""

    def fn(I):
        o = arg(I, TObj("ACLRules"), "o")
        r = call(I, "iosSemantics", f"{which}_command", {"cmd": "access-list", "object": o})
        passed(I, r, o, f"{which} access-list")
        passed(I, call(I, "iosSemantics", which, {"cmd": r}), o, f"{which} command")

    return fn


def proofs():
    out = []
    for c in SEMS:
        for w in ["host", "ip", "interface", "any", "any4", "any6", "object", "object-group", *[f"network {k}" for k in MASKS if not (c == "iosSemantics" and k == "dotted mask")]]:
            out.append(Proof(f"address {w} ({c[:-9]})", host(w, c), [f"{c}.acl_host", "aclSemantics._resolve_addr"], ["end"], types=TYPES))
        for r in ("node", "acl_icmp_node"):
            out.append(Proof(f"{r} ({c[:-9]})", node(r, c), [f"{c}.{r}", "ACLNode.__init__"], ["end"], types=TYPES))
        out.append(Proof(f"port conditions ({c[:-9]})", ports(c), [f"{c}.acl_port", f"{c}.service_object_op", f"{c}.port_group_object", "Port.__init__", "PortRange.__init__"], ["end"], types=TYPES))
        out.append(Proof(f"protocols ({c[:-9]})", protocol(c), [f"{c}.acl_protocol", f"{c}.protocol_icmp", f"{c}.protocol_tcp_udp", f"{c}.protocol_code", "Protocol.__init__"], ["end"], types=TYPES))
        out.append(Proof(f"icmp ({c[:-9]})", icmp(c), [f"{c}.acl_icmp_options", f"{c}.icmp_group_object", "ICMP.__init__"], ["end"], types=TYPES))
        out.append(Proof(f"services ({c[:-9]})", service(c), [f"{c}.service_group_object", f"{c}.protocol_group_object", "Service.__init__"], ["end"], types=TYPES))
        out.append(Proof(f"options ({c[:-9]})", options(c), [f"{c}.acl_options", "ACLRuleOptionLog.__init__"], ["end", "log", "time-range", "inactive"], types=TYPES))
    for w in ("host", "any", "object-group", "ipv6 host", "ipv6 any", "ipv6 network"):
        out.append(Proof(f"address {w} of a named list", ios_host(w), ["iosSemantics.ios_ipv6_host" if "ipv6" in w else "iosSemantics.ios_host"], ["end"], types=TYPES))
    for r in ("ios_node", "ios_ipv6_node"):
        out.append(Proof(r, node(r, "iosSemantics"), [f"iosSemantics.{r}", "ACLNode.__init__"], ["end"], types=TYPES))
    for k in ("extended", "standard", "webtype url", "webtype tcp"):
        out.append(Proof(f"{k} entry (fwsm)", fwsm_entry(k), ["fwsmSemantics.access_list", f"fwsmSemantics.access_list_rule_{k.split()[0]}", "ACLRule.__init__"], ["rule"], types=TYPES))
    for r in ("access_list_ip_standard", "access_list_ip_extended"):
        out.append(Proof(f"{r} (ios)", ios_entry(r), [f"iosSemantics.{r}", f"iosSemantics.{r}_rule", "ACLRule.__init__"], ["rule"], types=TYPES))
    for k in ("extended", "standard", "ipv6"):
        out.append(Proof(f"named {k} list (ios)", named_list(k), [f"iosSemantics.{'ipv6_access_list' if k == 'ipv6' else 'ip_access_list'}", "ACLRule.__init__", "ACLNode.__init__"], ["rule"], types=TYPES))
    for r in ("ip_access_list_extended", "ip_access_list_standard"):
        out.append(Proof(f"remarks {r} (ios)", remarks(r), [f"iosSemantics.{r}"], ["end"], types=TYPES))
    for w in ("ip", "ipv6"):
        out.append(Proof(f"{w} command", command(w), [f"iosSemantics.{w}", f"iosSemantics.{w}_command"], types=TYPES))
    out.append(Proof("numbered ipv6 entry (ios)", seq_entry, ["iosSemantics.ipv6_access_list_seq"], ["end"], types=TYPES))
    for r in ("ipv6_access_list_rule_options", "ipv6_access_list_rule_icmp_options", "ip_access_list_extended_rule_options", "ip_access_list_standard_rule_options"):
        out.append(Proof(f"{r} (ios)", ios_options(r), [f"iosSemantics.{r}"], ["kept"], types=TYPES))
    return out
