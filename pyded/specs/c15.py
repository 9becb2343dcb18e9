"""C15: references resolve to the definition with exactly that name and kind.

Lookup actions return the object that the table of the kind holds under exactly the name, and raise otherwise.
Definition actions enter the new definition under exactly its name in the table of its kind and nowhere else (with
aclParser._learn, C13), with its members in order.  With a state "table[k] = last definition of k of that kind" as the
invariant of the input read so far, every reference is to the last definition before it.
The name alternatives offered to the recogniser at a reference are exactly the names of the table of the kind, longer
names before their prefixes (descending order of text).
"""
from .match import *
from .seq import *
from .c13 import LEARN, PARSER, ANYDEF, learned

TABLE = {
    "acl_name_ws": "names", "acl_name_slash": "names", "acl_interface": "interfaces", "acl_time_range": "time_ranges",
    "acl_object_group_icmp": "icmp_groups", "acl_object_group_network": "network_groups", "acl_object_group_port": "port_groups",
    "acl_object_group_protocol": "protocol_groups", "acl_object_group_service": "service_groups",
    "acl_object_network": "network_objects", "acl_object_service": "service_objects",
}
IDS = {
    "_acl_interface_id_": "interfaces", "_acl_object_group_network_id_": "network_groups", "_acl_object_network_id_": "network_objects",
    "_acl_object_group_service_id_": "service_groups", "_acl_object_group_port_id_": "port_groups", "_acl_object_service_id_": "service_objects",
    "_acl_object_group_icmp_id_": "icmp_groups", "_acl_object_group_protocol_id_": "protocol_groups", "_acl_names_id_": "names",
    "_acl_time_range_id_": "time_ranges",
}
SEMS = {"fwsmSemantics": "fwsmParser", "iosSemantics": "iosParser"}
TYPES = {("TimeRange", "name"): TStr(), ("Interface", "access_groups"): TMap(TObj("InterfaceAccessGroup")), **PARSER}


def rec(I, fields):
    return I.p.new_dict([Elem((k, v)) for k, v in fields.items()], ast=True)


def start(I, cls):
    ps = with_class(I, "parser", SEMS[cls])
    s = I.construct(I.prog.classes[cls], [ps], {})
    ts = {t: I.getattr(ps, t) for t in list(LEARN.values()) + ["objects"]}
    return ps, s, ts, {t: I.p.content(d) for t, d in ts.items()}


def lookup(rule, cls):
    def fn(I):
        p = I.p
        ps, s, ts, old = start(I, cls)
        n = arg(I, TStr(nonempty=True), "n")
        t = TABLE[rule]
        want = None
        try:
            r = I.force(I.call_method(s, rule, [rec(I, {"name": n})], {}))
        except PyExc:
            outcome(I, "unknown")
            frame_ok(I, rule)
            p.prove(zt(I.dict_get_segs(old[t], n, lambda: None) is None), f"{rule}: a defined name is resolved")
            return
        frame_ok(I, rule)
        want = I.dict_get_segs(old[t], n, lambda: None)
        if want is None:
            p.fail(f"{rule}: a name that is not defined is not resolved to anything", repr(r))
        outcome(I, "resolved")
        p.prove(zt(I.same(r, want)), f"{rule}: the definition of that name and kind")

    return fn


# ---------------------------------------------------------------- definitions
GROUPTYPE = {
    "network": ("NetworkGroup", TObj("Network", "NetworkHost", "NetworkObject", "NetworkGroup"), None),
    "service": ("ServiceGroup", TObj("Service", "ServiceObject", "ServiceGroup"), None),
    "tcp": ("PortGroup", TObj("Port", "PortRange", "PortGroup"), "tcp"),
    "udp": ("PortGroup", TObj("Port", "PortRange", "PortGroup"), "udp"),
    "tcp-udp": ("PortGroup", TObj("Port", "PortRange", "PortGroup"), "tcp-udp"),
    "icmp-type": ("ICMPGroup", TObj("ICMP", "ICMPGroup"), None),
    "protocol": ("ProtocolGroup", TObj("Protocol", "ProtocolGroup"), None),
}


def group(kind, cls, by_protocol):
    def fn(I):
        p = I.p
        ps, s, ts, old = start(I, cls)
        c, member, proto = GROUPTYPE[kind]
        n, d = arg(I, TStr(nonempty=True), "n"), arg(I, TOpt(TStr()), "d")
        l = arg(I, TList(member), "objects")
        segs = p.content(l)
        ty = I.construct(I.prog.classes["Protocol"], [kind], {}) if by_protocol else kind
        r = I.force(I.call_method(s, "object_group_type", [rec(I, {"type": ty, "name": n, "description": d, "objects": l})], {}))
        p.prove(isinstance(r, Obj) and I.classes_of(r) == {c}, f"{kind} group: a {c}")
        outcome(I, "end")
        p.prove(zt(I.eq(I.getattr(r, "name"), n)), f"{kind} group: name")
        p.prove(zt(I.eq(I.getattr(r, "description"), d)), f"{kind} group: description")
        if proto:
            p.prove(zt(I.eq(I.getattr(I.getattr(r, "protocol"), "name"), proto)), f"{kind} group: protocol")
        same_seq(I, p.content(I.getattr(r, "objects")), segs, f"{kind} group", what="the listed members in order")
        learned(I, ps, c, n, r, ts, old)

    return fn


def time_range(cls):
    def fn(I):
        p = I.p
        ps, s, ts, old = start(I, cls)
        n = arg(I, TStr(nonempty=True), "n")
        l = arg(I, TList(TObj("TimeRangeObjectAbsolute", "TimeRangeObjectPeriodic")), "objects")
        segs = p.content(l)
        r = I.force(I.call_method(s, "time_range", [rec(I, {"name": n, "objects": l})], {}))
        p.prove(isinstance(r, Obj) and I.classes_of(r) == {"TimeRange"}, "time range: a TimeRange")
        outcome(I, "end")
        p.prove(zt(I.eq(I.getattr(r, "name"), n)), "time range: name")
        same_seq(I, p.content(I.getattr(r, "objects")), segs, "time range", what="the listed entries in order")
        learned(I, ps, "TimeRange", n, r, ts, old)

    return fn


def interface(cls, nameif):
    def fn(I):
        p = I.p
        ps, s, ts, old = start(I, cls)
        n, m = arg(I, TStr(nonempty=True), "n"), arg(I, TStr(nonempty=True), "m")
        det = [Elem(None)] + ([Elem(rec(I, {"type": "nameif", "value": m}))] if nameif else [])
        r = I.force(I.call_method(s, "interface", [rec(I, {"alias": n, "detail": p.new_list(det)})], {}))
        p.prove(isinstance(r, Obj) and I.classes_of(r) == {"Interface"}, "interface: an Interface")
        outcome(I, "end")
        p.prove(zt(I.eq(I.getattr(r, "alias"), n)), "interface: name")
        names = [n] + ([m] if nameif else [])
        if nameif:
            p.prove(zt(I.eq(I.getattr(r, "nameif"), m)), "interface: nameif")
        t = list(ts)[p.choose(len(ts), "table")]
        k = arg(I, TStr(), "any name")
        now = I.dict_get(I.getattr(ps, t), k, lambda: None)
        mine = t in ("interfaces", "objects") and any([I.tr(I.eq(k, x)) for x in names])
        if mine:
            outcome(I, "found")
            if t == "interfaces":
                p.prove(zt(now is not None and I.same(now, r)), "interface: found under its names")
            return
        was = I.dict_get_segs(old[t], k, lambda: None)
        p.prove(zt(was is None if now is None else was is not None and I.same(now, was)), "interface: no other entry of the tables is affected")

    return fn


def obj(kind, cls):
    """object network / object service"""

    def fn(I):
        p = I.p
        ps, s, ts, old = start(I, cls)
        n, d = arg(I, TStr(nonempty=True), "n"), arg(I, TOpt(TStr()), "d")
        if kind == "network":
            args = [None, lambda: {"type": "host", "address": arg(I, TIp(), "a")}][p.choose(2, "definition")]
            args = args and rec(I, args())
        else:
            args = rec(I, {"protocol": arg(I, TObj("Protocol"), "proto"), "src": arg(I, TOpt(TObj("Port")), "src"), "dst": arg(I, TOpt(TObj("PortRange")), "dst")})
        c = "NetworkObject" if kind == "network" else "ServiceObject"
        r = I.force(I.call_method(s, "object_type", [rec(I, {"type": kind, "name": n, "description": d, "args": args})], {}))
        p.prove(isinstance(r, Obj) and I.classes_of(r) == {c}, f"object {kind}: a {c}")
        outcome(I, "end")
        p.prove(zt(I.eq(I.getattr(r, "name"), n)), f"object {kind}: name")
        p.prove(zt(I.eq(I.getattr(r, "description"), d)), f"object {kind}: description")
        if kind == "service":
            for f in ("protocol", "src", "dst"):
                p.prove(zt(I.same(I.getattr(r, f), I.getattr(args, f))), f"object service: {f}")
            learned(I, ps, c, n, r, ts, old)
            return
        first = I.dict_get_segs(old["network_objects"], n, lambda: None)
        if first is None:
            learned(I, ps, c, n, r, ts, old)
            return
        outcome(I, "again")
        t = list(ts)[p.choose(len(ts), "table")]
        k = arg(I, TStr(), "any name")
        if t == "objects":
            return
        now = I.dict_get(I.getattr(ps, t), k, lambda: None)
        was = I.dict_get_segs(old[t], k, lambda: None)
        p.prove(zt(was is None if now is None else was is not None and I.same(now, was)), "object network: a repeated definition changes no table")

    return fn


def name(I):
    p = I.p
    ps, s, ts, old = start(I, "fwsmSemantics")
    n, d, a = arg(I, TStr(nonempty=True), "n"), arg(I, TOpt(TStr()), "d"), arg(I, TIp(4), "a")
    r = I.force(I.call_method(s, "name", [rec(I, {"address": a, "hostname": n, "description": d})], {}))
    p.prove(isinstance(r, Obj) and I.classes_of(r) == {"Name"}, "name: a Name")
    outcome(I, "end")
    p.prove(zt(I.eq(I.getattr(r, "hostname"), n)), "name: host name")
    p.prove(zt(I.eq(I.getattr(r, "address"), a)), "name: address")
    learned(I, ps, "Name", n, r, ts, old)


# ---------------------------------------------------------------- the recogniser of names
EV = ("obj", "events")


def event(what):
    def contract(I, o, args, kwargs):
        x = (what, args[0] if args else None)
        I.p.log("event", EV, x)
        I.p.events.append(Elem(x))
        return Opaque(what)

    return contract


CTX = {("aclParser", m): event(m) for m in ("_choice", "_option", "_ifnot", "_token", "_fail", "_error", "_pattern", "_constant")}


def longer_first(I, src, name):
    """the order puts every name before its proper prefixes"""
    p = I.p
    if not isinstance(src, lib.SortedSeg):
        p.fail(name, "unspecified order")
    a, b = arg(I, TStr(), "long"), arg(I, TStr(nonempty=True), "short")
    p.assume(z3.PrefixOf(b.t, a.t))
    p.assume(a.t != b.t)
    p.assume(I.rank(b.t) < I.rank(a.t))  # trusted: a proper prefix is the smaller text
    ka, kb = (a, b) if src.keyfn is None else (I.call(src.keyfn, [a], {}), I.call(src.keyfn, [b], {}))
    p.prove(I.lt(kb, ka) if src.reverse else I.lt(ka, kb), name)


def ids(rule, cls):
    def fn(I):
        p = I.p
        ps = with_class(I, "parser", SEMS[cls])
        t = I.getattr(ps, IDS[rule])
        old = p.content(t)
        try:
            I.call_method(ps, rule, [], {})
        except PyExc as e:
            p.fail(f"{rule}: no exception", str(e))
        frame_ok(I, rule)
        evs = list(I.resolve(tuple(p.events)))
        toks = [e for e in evs if not isinstance(e, Elem)]
        flat = [e.v[0] for e in evs if isinstance(e, Elem)]
        if not toks:
            outcome(I, "none")
            p.prove("_token" not in flat and "_ifnot" in flat, f"{rule}: without a definition nothing is recognised")
            k = arg(I, TStr(), "k")
            p.prove(zt(I.dict_get_segs(old, k, lambda: None) is None), f"{rule}: without a definition nothing is recognised")
            return
        outcome(I, "names")
        p.prove(len(toks) == 1 and "_token" not in flat and flat[:1] == ["_choice"], f"{rule}: one alternative per name")
        fm = toks[0]
        src = fm.src
        longer_first(I, src, f"{rule}: longer names are tried before their prefixes")
        same_seq(I, src.srcs, I.map_segs(old, lambda kv: kv[0]), f"{rule}: the names of the table")
        e = p.member(src)
        x = [y.v for y in I.resolve(fm.fn(p, e))]
        p.prove([y[0] for y in x] == ["_option", "_token"], f"{rule}: one alternative per name")
        p.prove(zt(I.eq(x[1][1], e)), f"{rule}: the alternative is the name itself")

    return fn


def proofs():
    out = []
    for r in TABLE:
        for c in SEMS:
            out.append(Proof(f"{r} ({c[:-9]})", lookup(r, c), [f"{c}.{r}"], ["resolved", "unknown"], types=TYPES))
    for c in SEMS:
        for k in GROUPTYPE:
            for b in (False, True) if k in ("tcp", "udp", "tcp-udp") else (False,):
                out.append(Proof(f"{k} group{' by protocol' if b else ''} ({c[:-9]})", group(k, c, b), [f"{c}.object_group_type", "_Group.add", "aclParser._learn"], ["end", "found"], types=TYPES))
        out.append(Proof(f"time range ({c[:-9]})", time_range(c), [f"{c}.time_range", "TimeRange.add", "aclParser._learn"], ["end", "found"], types=TYPES))
        for m in (False, True):
            out.append(Proof(f"interface {'with nameif ' if m else ''}({c[:-9]})", interface(c, m), [f"{c}.interface", "Interface.__init__", "aclParser._learn"], ["end", "found"], types=TYPES))
        for k in ("network", "service"):
            out.append(Proof(f"object {k} ({c[:-9]})", obj(k, c), [f"{c}.object_type", "aclParser._learn"], ["end", "found"] + (["again"] if k == "network" else []), types=TYPES))
    out.append(Proof("name", name, ["fwsmSemantics.name", "Name.__init__"], ["end", "found"], types=TYPES))
    for r, c in ((r, c) for r in IDS for c in SEMS):
        out.append(Proof(f"names offered: {r} ({c[:-9]})", ids(r, c), [f"aclParser.{r}", "aclParser.__acl_internal_ids"], ["names", "none"], contracts=CTX, types=TYPES))
    return out
