"""C12: IOS wildcard masks denote the addresses IOS would match.

Postcondition of the semantic actions for an address followed by a dotted mask (a, w: any two IPv4 addresses):
  x in result  <=>  x is IPv4 and (x ^ a) & ~w == 0
The grammar hands the address of a numbered / ASA style entry over as an address or as a Name; the address of a named
list entry as an address.  The node and rule actions keep the object they are given on its side (see also C17).
"""
from .match import *
from .seq import *

S = "iosSemantics."


def sem(I):
    return I.construct(I.prog.classes["iosSemantics"], [Opaque("parser")], {})


def rec(I, fields):
    return I.p.new_dict([Elem((k, v)) for k, v in fields.items()], ast=True)


def denotes(I, r, a, w, name):
    p = I.p
    r = I.force(r)
    ok = isinstance(r, Obj) and len(I.classes_of(r)) == 1 and cls_of(I, r) in LEAF
    if not ok:
        p.fail(f"{name}: an address expression", repr(r))
        return
    outcome(I, cls_of(I, r))
    x = (z3.Bool("x6"), z3.Const("x", BV))
    p.assume(valid(x))
    got = leaf_mem(I, r, cls_of(I, r), x)
    want = z3.And(z3.Not(x[0]), ((x[1] ^ a.val) & ~w.val & lib.V4MAX) == 0)
    p.prove(z3.Implies(want, got), f"{name}: every address agreeing on the zero bits is matched")
    p.prove(z3.Implies(got, want), f"{name}: only addresses agreeing on the zero bits are matched")


def wild(case):
    def fn(I):
        a, w = arg(I, TIp(4), "a"), arg(I, TIp(4), "w")
        f = {"type": "wildcard", "address": a, "wildcard": w, "group": None}
        if case == "acl":
            f = {"type": "network", "address": a, "netmask": w}
        s = sem(I)
        r = I.call_method(s, "acl_host" if case == "acl" else "ios_host", [rec(I, f)], {})
        frame_ok(I, "host")
        denotes(I, r, a, w, "address and wildcard")

    return fn


def named(I):
    p = I.p
    n = with_class(I, "n", "Name")
    a = I.getattr(n, "address")
    p.assume(z3.Not(a.is6))
    w = arg(I, TIp(4), "w")
    r = I.force(I.call_method(sem(I), "acl_host", [rec(I, {"type": "network", "address": n, "netmask": w})], {}))
    frame_ok(I, "host")
    denotes(I, r, a, w, "name and wildcard")
    if cls_of(I, r) == "Network":
        p.prove(zt(I.same(I.getattr(r, "target"), n)), "name and wildcard: the name is kept")


def side(which):
    """node and rule actions keep source and destination where they are"""

    def fn(I):
        p = I.p
        h = arg(I, TObj("Network", "NetworkWildcard", "NetworkHost", "NetworkAny", "NetworkGroup"), "h")
        port = arg(I, TOpt(TObj("Port", "PortRange")), "port")
        n = I.force(I.call_method(sem(I), which, [rec(I, {"host": h, "port": port})], {}))
        ok = isinstance(n, Obj) and I.classes_of(n) == {"ACLNode"}
        p.prove(ok, f"{which}: a node")
        if ok:
            p.prove(zt(I.same(I.getattr(n, "host"), h)), f"{which}: the address is kept")
            p.prove(zt(I.same(I.getattr(n, "port"), port)), f"{which}: the port is kept")

    return fn


HOST = TObj("Network", "NetworkWildcard", "NetworkHost", "NetworkAny", "NetworkGroup")
OPT = TMap(TOpaque("option"))


def standard(I):
    """numbered standard list"""
    p = I.p
    h = arg(I, TUnion(HOST, TObj("ACLNode")), "src")
    ident, mode = arg(I, TStr(), "id"), arg(I, TStr(), "mode")
    r = I.force(I.call_method(sem(I), "access_list_ip_standard", [rec(I, {"id": ident, "mode": mode, "src": h, "remark": None, "options": arg(I, OPT, "options")})], {}))
    rule(I, r, ident, mode, h, None, "numbered standard")


def extended(I):
    p = I.p
    s, d = arg(I, TObj("ACLNode"), "src"), arg(I, TObj("ACLNode"), "dst")
    ident, mode = arg(I, TStr(), "id"), arg(I, TStr(), "mode")
    f = {"id": ident, "mode": mode, "protocol": arg(I, TObj("Protocol"), "proto"), "src": s, "dst": d, "remark": None, "icmp": None, "options": arg(I, OPT, "options")}
    r = I.force(I.call_method(sem(I), "access_list_ip_extended", [rec(I, f)], {}))
    rule(I, r, ident, mode, s, d, "numbered extended")


def rule(I, r, ident, mode, s, d, name):
    p = I.p
    ok = isinstance(r, Obj) and I.classes_of(r) == {"ACLRule"}
    p.prove(ok, f"{name}: a rule")
    if not ok:
        return
    p.prove(zt(I.eq(I.getattr(r, "id"), ident)), f"{name}: list name")
    p.prove(zt(I.eq(I.getattr(r, "mode"), mode)), f"{name}: action")
    node(I, I.getattr(r, "src"), s, f"{name}: source")
    if d is None:
        h = I.getattr(I.getattr(r, "dst"), "host")
        p.prove(I.classes_of(h) == {"NetworkAny"}, f"{name}: destination any")
    else:
        node(I, I.getattr(r, "dst"), d, f"{name}: destination")


def node(I, n, h, name):
    """n states h: h is the node itself or its address"""
    p = I.p
    if not (isinstance(n, Obj) and I.classes_of(n) == {"ACLNode"}):
        p.fail(f"{name} is a node", repr(n))
        return
    if I.classes_of(h) == {"ACLNode"}:
        p.prove(zt(I.same(I.getattr(n, "host"), I.getattr(h, "host"))), f"{name} is the stated one")
        p.prove(zt(I.eq(I.getattr(n, "port"), I.getattr(h, "port"))), f"{name} port is the stated one")
    else:
        p.prove(zt(I.same(I.getattr(n, "host"), h)), f"{name} is the stated one")


def objs(kind):
    f = {"mode": TStr(), "src": TUnion(HOST, TObj("ACLNode")) if kind == "extended" else HOST, "remark": TConst(None), "options": OPT}
    if kind == "extended":
        f.update({"protocol": TObj("Protocol"), "dst": TUnion(HOST, TObj("ACLNode"))})
    return TRec(f)


def named_list(kind):
    """a named list: every entry becomes the rule of that entry"""

    def fn(I):
        p = I.p
        ident = arg(I, TStr(), "id")
        l = arg(I, TList(objs(kind)), "objects")
        segs = p.content(l)
        r = I.force(I.call_method(sem(I), "ip_access_list", [rec(I, {"type": kind, "name": ident, "objects": l})], {}))

        def same(I, got, e):
            outcome(I, "entry")
            rule(I, got, ident, I.getattr(e, "mode"), I.getattr(e, "src"), I.getattr(e, "dst") if kind == "extended" else None, f"named {kind}")
            return True

        same_seq(I, p.content(I.getattr(r, "rules")), segs, f"named {kind}", same, "one rule per entry, in order")

    return fn


def proofs():
    out = [
        Proof("address and wildcard of a named list", wild("ios"), [S + "ios_host", S + "_wildcard", "Network.__init__", "NetworkWildcard.__init__"], ["Network", "NetworkWildcard"]),
        Proof("address and wildcard of a numbered list", wild("acl"), [S + "acl_host", S + "_wildcard", "aclSemantics._resolve_addr"], ["Network", "NetworkWildcard"]),
        Proof("name and wildcard", named, [S + "acl_host", "aclSemantics._resolve_addr"], ["Network", "NetworkWildcard"]),
        Proof("node", side("ios_node"), [S + "ios_node", "ACLNode.__init__"]),
        Proof("node of a numbered list", side("node"), ["aclSemantics.node", "ACLNode.__init__"]),
        Proof("numbered standard entry", standard, [S + "access_list_ip_standard", S + "access_list_ip_standard_rule", "ACLRule.__init__"]),
        Proof("numbered extended entry", extended, [S + "access_list_ip_extended", S + "access_list_ip_extended_rule", "ACLRule.__init__"]),
    ]
    for k in ("standard", "extended"):
        out.append(Proof(f"named {k} list", named_list(k), [S + "ip_access_list", "ACLRule.__init__", "ACLNode.__init__"], ["entry"]))
    return out
