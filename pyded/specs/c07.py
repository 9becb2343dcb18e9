"""C07: group expansion flattens without losing, adding or reordering members.

flat(g) = concatenation over the members m of g, in order, of
             flat(m)                        m a group of the same kind
             the addresses of m             m a network object in a network group
             [service with m's fields]      m a named service in a service group
             [m]                            otherwise
The recursion is discharged by induction over the nesting (groups are finite trees): the recursive call on a member
yields flat(member) without groups; the top call must then yield flat(self).
"""
from .match import *
from .seq import *

LEAVES = {
    "NetworkGroup": ("Network", "NetworkHost", "NetworkObject", "NetworkAny", "NetworkAny4", "NetworkAny6", "Webtype"),
    "PortGroup": ("Port", "PortRange"),
    "ServiceGroup": ("Service", "ServiceObject"),
    "ProtocolGroup": ("Protocol",),
    "ICMPGroup": ("ICMP",),
}
ADDRS = ("Network", "NetworkHost", "NetworkAny", "NetworkAny4", "NetworkAny6")
TYPES = {("NetworkGroup", "objects"): TList(TObj(*LEAVES["NetworkGroup"], "NetworkGroup"))}


def flat_seg(I, cls, m):
    """the flattened members of a nested group, before objects and named services are replaced"""
    s = TList(TObj(*LEAVES[cls])).seg(I, f"flat({m.key})")
    return s


def flat_full(I, cls, m):
    """flat(m) as a new list"""
    return replaced(I, cls, (flat_seg(I, cls, m),))


def replaced(I, cls, segs):
    def one(p, e):
        if isinstance(e, Obj):
            if cls == "NetworkGroup" and I.isinst(e, I.prog.classes["NetworkObject"]):
                return tuple(I.segs_of(I.getattr(e, "addresses")))
            if cls == "ServiceGroup" and I.isinst(e, I.prog.classes["ServiceObject"]):
                return (Elem(("service of", e)),)
        return (Elem(e),)

    return tuple(FM(s, one, "replaced") if not isinstance(s, (Elem, FM)) else FM(s.src, lambda p, e, s=s: replaced_l(I, one, s.fn(p, e)), "replaced") for s in segs)


def replaced_l(I, one, segs):
    out = []
    for s in segs:
        if isinstance(s, Elem):
            out += one(I.p, I.force(I.lazy(s.v)))
        elif isinstance(s, FM):
            out.append(FM(s.src, lambda p, e, s=s: replaced_l(I, one, s.fn(p, e)), "replaced"))
        else:
            out.append(FM(s, one, "replaced"))
    return tuple(out)


def spec(I, cls, segs):
    """flat of the given member list"""

    def one(p, e):
        e = I.force(I.lazy(e))
        if I.isinst(e, I.prog.classes[cls]):
            return replaced(I, cls, (flat_seg(I, cls, e),))
        return one_leaf(p, e)

    def one_leaf(p, e):
        if cls == "NetworkGroup" and I.isinst(e, I.prog.classes["NetworkObject"]):
            return tuple(I.segs_of(I.getattr(e, "addresses")))
        if cls == "ServiceGroup" and I.isinst(e, I.prog.classes["ServiceObject"]):
            return (Elem(("service of", e)),)
        return (Elem(e),)

    return tuple(FM(s, one, "flat") for s in segs)


def same(I, a, b):
    """a member of the result is the expected one; a service made for a named service has its fields"""
    if isinstance(b, tuple) and b[0] == "service of":
        if not isinstance(a, Obj) or I.one_class(a).name != "Service":
            return False
        if not I.is_new(("obj", a.key)) and not a.fresh:
            return False
        return z3.And([zt(val_same(I, I.getattr(a, f), I.getattr(b[1], f))) for f in ("protocol", "src", "dst", "icmp_type", "icmp_code")])
    return I.elem_same(a, b)


def val_same(I, x, y):
    if x is None or y is None:
        return x is None and y is None
    return I.elem_same(x, y)


def recursion(cls, top):
    """induction hypothesis: expanding a nested group (given as group, or as its member list) yields flat of it"""

    def cand(I, f, args, kwargs):
        for a in args:
            a = I.force(a)
            if isinstance(a, Obj) and a.key != top and I.classes_of(a) <= {cls}:
                return I.p.new_list((flat_seg(I, cls, a),))
            if isinstance(a, HList):
                for m in I.p.members.get(("list", f"objects({top})"), []):
                    if isinstance(m, Obj) and I.classes_of(m) <= {cls} and I.getattr(m, "objects").oid == a.oid:
                        return I.p.new_list((flat_seg(I, cls, m),))
        return NotImplemented

    return cand


def result_list(I, g):
    return tuple(I.segs_of(I.getattr(g, "objects")))


def expand(cls, insitu):
    def fn(I):
        p = I.p
        g = with_class(I, "g", cls)
        old = I.getattr(g, "objects")
        segs = tuple(I.p.content(old))
        n, d = I.getattr(g, "name"), I.getattr(g, "description")
        kw = {} if insitu is None else {"insitu": insitu}
        r = I.force(I.call_method(g, "expand", [], kw))
        nm = f"{cls}.expand({'' if insitu is None else 'insitu=' + str(insitu)})"
        if insitu is False:
            frame_ok(I, nm + ": the original group")
            p.prove(isinstance(r, Obj) and r.fresh and I.classes_of(r) == {cls}, f"{nm}: a new group of the same class")
            p.prove(I.getattr(r, "objects").oid != old.oid, f"{nm}: with a member list of its own")
            if cls == "PortGroup":
                p.prove(zt(I.same(I.getattr(r, "protocol"), I.getattr(g, "protocol"))), f"{nm}: same protocol")
        else:
            frame_ok(I, nm, allowed=(("obj", g.key),))
            for x in p.wlog:
                if x[0] == "setattr" and x[1] == ("obj", g.key) and x[2] != "objects":
                    p.fail(f"{nm}: only the member list changes", x[2])
            p.prove(zt(I.same(r, g)), f"{nm}: the group itself")
        p.prove(zt(val_same(I, I.getattr(r, "name"), n)), f"{nm}: same name")
        p.prove(zt(val_same(I, I.getattr(r, "description"), d)), f"{nm}: same description")
        outcome(I, "end")
        same_seq(I, result_list(I, r), spec(I, cls, segs), nm, same, "the members are flat(group)")

    return fn


def nogroup(cls):
    """no group and no object to be replaced is left"""

    def fn(I):
        p = I.p
        g = with_class(I, "g", cls)
        r = I.force(I.call_method(g, "expand", [], {"insitu": bool(p.choose(2, "insitu"))}))
        e = lib.pick(I, result_list(I, r))
        outcome(I, "end")
        bad = {cls} | {"NetworkGroup": {"NetworkObject"}, "ServiceGroup": {"ServiceObject"}}.get(cls, set())
        for b in sorted(bad):
            p.prove(not I.isinst(e, I.prog.classes[b]), f"{cls}.expand: no {b} is left")

    return fn


def twice(cls):
    """expanding an expanded group changes nothing"""

    def fn(I):
        p = I.p
        g = with_class(I, "g", cls)
        segs = tuple(I.p.content(I.getattr(g, "objects")))
        r = I.force(I.call_method(g, "expand", [], {"insitu": bool(p.choose(2, "insitu"))}))
        outcome(I, "end")
        same_seq(I, result_list(I, r), segs, f"{cls}.expand of an expanded group")

    return fn


f_hit = z3.Function("hit", Z, Z, B)


def matched(side):
    """the group matches an address iff its expansion does"""

    def hit(I, e, x):
        return f_hit(e.ref, x.ref)

    def fn(I):
        p = I.p
        g = with_class(I, "g", "NetworkGroup")
        x = arg(I, TObj("NetworkHost"), "x")
        segs = tuple(I.p.content(I.getattr(g, "objects")))

        def leaves(e):
            if I.isinst(e, I.prog.classes["NetworkGroup"]):
                return replaced(I, "NetworkGroup", (flat_seg(I, "NetworkGroup", e),))
            if I.isinst(e, I.prog.classes["NetworkObject"]):
                return tuple(I.segs_of(I.getattr(e, "addresses")))
            return (Elem(e),)

        r = I.force(I.call_method(g, "expand", [], {}))
        if side == "keep":
            m = lib.pick(I, segs)
            # contract of & (C01): a composite matches through one of its (flattened) members
            l = lib.pick(I, leaves(m))
            p.assume(hit(I, l, x))
            outcome(I, "end")
            p.prove(zt(I.in_segs(result_list(I, r), l)), "NetworkGroup.expand: every matching address is kept")
        else:
            l = lib.pick(I, result_list(I, r))
            want = spec(I, "NetworkGroup", segs)
            outcome(I, "end")
            p.prove(zt(I.in_segs(want, l)), "NetworkGroup.expand: no matching address is added")

    return fn


# ---------------------------------------------------------------- the whole configuration
KINDS = {"network": "NetworkGroup", "port": "PortGroup", "service": "ServiceGroup", "protocol": "ProtocolGroup", "icmp": "ICMPGroup"}
CONF = {("ACLConfig", "groups"): TObj("ACLObjects"), **{("ACLObjects", k): TMap(TObj(c)) for k, c in KINDS.items()}}


def config(I):
    p = I.p
    c = with_class(I, "config", "ACLConfig")
    done = p.new_list()

    def exp(I, o, args, kwargs):
        """contract of expand() in place"""
        a = list(args) + list(kwargs.values())
        if a and I.truth(a[0]) is not True:
            return NotImplemented
        I.list_extend(done, (Elem(o),))
        return o

    for k in KINDS.values():
        I.contracts[(k, "expand")] = exp
    I.call_method(c, "expand", [], {})
    frame_ok(I, "ACLConfig.expand: apart from the expansion of the groups", allowed=(done.oid,))
    for k in KINDS:
        m = I.getattr(I.getattr(c, "groups"), k)
        if p.choose(2, k) == 0:
            g = lib.pick(I, tuple(I.segs_of(I.call_method(m, "values", [], {}))))
            outcome(I, k)
            p.prove(zt(I.in_segs(tuple(p.content(done)), g)), f"ACLConfig.expand: every {k} group is expanded")
            return
    raise PathInfeasible()


def proofs():
    out = []
    for c in LEAVES:
        fns = [f"{c}.expand", "_Group._expand", "_Group.expand", f"{c}.__init__"]
        kw = dict(types=TYPES, rec=[recursion(c, "g")])
        for i in (None, True, False):
            out.append(Proof(f"{c}.expand(insitu={i})", expand(c, i), fns, ["end"], **kw))
        out.append(Proof(f"{c}.expand: nothing to expand is left", nogroup(c), fns, ["end"], **kw))
        done = ADDRS if c == "NetworkGroup" else ("Service",) if c == "ServiceGroup" else LEAVES[c]
        out.append(Proof(f"{c}.expand twice", twice(c), fns, ["end"], types={(c, "objects"): TList(TObj(*done))}, rec=[recursion(c, "g")]))
    for s in ("keep", "add"):
        out.append(Proof(f"matched addresses {s}", matched(s), ["NetworkGroup.expand"], ["end"], types=TYPES, rec=[recursion("NetworkGroup", "g")]))
    out.append(Proof("ACLConfig.expand", config, ["ACLConfig.expand"], list(KINDS), types=CONF))
    return out
