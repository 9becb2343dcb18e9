"""C09: sorting a group only reorders it.

sort():       the new member list is sorted(old members, key) - by the contract of sorted the same objects with the same
              multiplicity in ascending order of the key function; only the member list changes
sort(False):  the same of the members (of the expansion, for port groups: contract of expand, C07) in a new group; the
              original group is not modified and does not share its list
key:          for two arbitrary members a, b: key(a) <= key(b)  =>  documented(a) <= documented(b)

Contract of sorted / list.sort (assumed): a permutation of the input, no element before another with a smaller key.
"""
import ast

from .match import *
from .seq import *

MEM = {
    "NetworkGroup": ("Network", "NetworkHost", "NetworkObject", "NetworkAny", "NetworkAny4", "NetworkAny6", "NetworkGroup"),
    "PortGroup": ("Port", "PortRange", "PortGroup"),
    "ServiceGroup": ("Service", "ServiceObject", "ServiceGroup"),
    "ProtocolGroup": ("Protocol", "ProtocolGroup"),
}
LEAVES = {c: tuple(x for x in m if x != c) for c, m in MEM.items()}
DOC = {"NetworkGroup": ("Network", "NetworkHost"), "PortGroup": ("Port", "PortRange"), "ServiceGroup": ("Service", "ServiceObject"), "ProtocolGroup": ("Protocol",)}
TYPES = {("NetworkGroup", "objects"): TList(TObj(*MEM["NetworkGroup"])), ("Service", "src"): TOpt(TObj("Port", "PortRange")), ("Service", "dst"): TOpt(TObj("Port", "PortRange"))}


def expanded(I, cls, top):
    """contract of expand (C07)"""

    def exp(I, o, args, kwargs):
        a = [I.truth(I.force(v)) for v in list(args) + list(kwargs.values())]
        seg = TList(TObj(*LEAVES[cls])).seg(I, f"flat({o.key})")
        I.p.notes["flat"] = (seg,)
        if a == [False] and o.key == top:
            n = I.force(I.call(I.prog.classes[cls], [I.getattr(o, f) for f in ("name", "protocol", "description") if f != "protocol" or cls == "PortGroup"], {}))
            I.setattr(n, "objects", I.p.new_list((seg,)))
            return n
        if not a or a == [True]:
            I.setattr(o, "objects", I.p.new_list((seg,)))
            return o
        return NotImplemented

    return exp


def sort(cls, insitu):
    def fn(I):
        p = I.p
        g = with_class(I, "g", cls)
        old = I.getattr(g, "objects")
        segs = tuple(p.content(old))
        n = I.getattr(g, "name")
        I.contracts[(cls, "expand")] = expanded(I, cls, g.key)
        kw = {} if insitu is None else {"insitu": insitu}
        r = I.force(I.call_method(g, "sort", [], kw))
        nm = f"{cls}.sort({'' if insitu is None else 'insitu=' + str(insitu)})"
        if insitu is False:
            frame_ok(I, nm + ": the original group")
            p.prove(isinstance(r, Obj) and r.fresh and I.classes_of(r) == {cls}, f"{nm}: a new group of the same class")
            p.prove(I.getattr(r, "objects").oid != old.oid, f"{nm}: with a member list of its own")
            p.prove(I.getattr(g, "objects").oid == old.oid, f"{nm}: the original keeps its list")
            if cls == "PortGroup":
                segs = p.notes.get("flat")
                p.prove(segs is not None, f"{nm}: is expanded first")
        else:
            for x in p.wlog:
                if not I.is_new(x[1]) and x[1] not in (old.oid, ("obj", g.key)) or (x[0] == "setattr" and x[1] == ("obj", g.key) and x[2] != "objects"):
                    p.fail(f"{nm}: changes only the member list", f"{x}")
            p.prove(zt(I.same(r, g)), f"{nm}: the group itself")
        p.prove(zt(I.elem_same(I.getattr(r, "name"), n)), f"{nm}: same name")
        outcome(I, "end")
        got = tuple(I.segs_of(I.getattr(r, "objects")))
        p.prove(len(got) == 1 and isinstance(got[0], lib.SortedSeg), f"{nm}: the members are a sorted list", f"{got}")
        s = got[0]
        p.prove(s.reverse is False, f"{nm}: ascending")
        src = s.src
        while len(src) == 1 and isinstance(src[0], lib.SortedSeg):  # sorted before
            src = src[0].src
        if p.choose(2, "members or order") == 0:
            same_seq(I, src, segs, nm, what="the members are those of before")
            return
        # the order
        ordered(I, cls, nm, s.keyfn, src)

    return fn


def number(I, v):
    """the number a text states"""
    try:
        return I.force(lib.call_class(I, int, [v], {}))
    except PyExc as e:
        if e.cls is not ValueError:
            raise
        raise PathInfeasible()  # a name: no numeric key is documented


def port_key(I, o):
    if o is None:
        return 0
    return number(I, I.getattr(o, "num" if I.one_class(o).name == "Port" else "start"))


def documented(I, cls, o):
    c = I.one_class(o).name
    if c not in DOC[cls]:
        raise PathInfeasible()
    if c == "Network":
        return lib.call_class(I, int, [I.getattr(I.getattr(o, "network"), "network_address")], {})
    if c == "NetworkHost":
        return lib.call_class(I, int, [I.getattr(o, "address")], {})
    if c in ("Port", "PortRange"):
        return port_key(I, o)
    if c == "Protocol":
        return number(I, I.getattr(o, "name"))
    return (I.getattr(I.getattr(o, "protocol"), "name"), port_key(I, I.getattr(o, "src")), port_key(I, I.getattr(o, "dst")))


def less(I, a, b):
    r = I.compare(ast.Lt(), a, b)
    return I.truth(SBool(r) if isinstance(r, z3.BoolRef) else r)


def is_key(I, k, d):
    """the documented key is what the key function yields, or its beginning"""
    if isinstance(k, tuple) and not isinstance(d, tuple):
        d = (d,)
    if isinstance(d, tuple):
        if not isinstance(k, tuple) or len(k) < len(d):
            return False
        return all(is_key(I, x, y) for x, y in zip(k, d))
    num = lambda v: (isinstance(v, int) and not isinstance(v, bool)) or isinstance(v, (SInt, SBV))
    txt = lambda v: isinstance(v, (str, SStr))
    if not (num(k) and num(d) or txt(k) and txt(d)):
        return False
    r = I.eq(k, d)
    return r is True or not isinstance(r, bool) and I.p.entails(zt(r.t if isinstance(r, SBool) else r))


def key(I, keyfn, a):
    return I.force(I.call(keyfn, [a], {})) if keyfn is not None else a


def ordered(I, cls, nm, keyfn, segs):
    p = I.p
    a = lib.pick(I, segs)
    da = documented(I, cls, a)
    ka = key(I, keyfn, a)
    outcome(I, "ordered")
    if is_key(I, ka, da):
        p.prove(True, f"{nm}: ascending by the documented key")
        return
    # another key: compare two members
    b = lib.pick(I, segs)
    db = documented(I, cls, b)
    kb = key(I, keyfn, b)
    try:
        lt = less(I, kb, ka)
    except PyExc as e:
        p.prove(False, f"{nm}: the key of two members is comparable", f"{e}")
        return
    if lt:
        raise PathInfeasible()  # b before a
    p.prove(not less(I, db, da), f"{nm}: ascending by the documented key")


def names(I, f, args, kwargs):
    return SInt(z3.Function("nstrsum", S, Z)(I.zstr(args[0])))


def refused(cls):
    def fn(I):
        g = with_class(I, "g", cls)
        try:
            I.call_method(g, "sort", [], {"insitu": bool(I.p.choose(2, "insitu"))})
        except PyExc as e:
            I.p.prove(e.cls is NotImplementedError, f"{cls}.sort is refused")
            frame_ok(I, f"{cls}.sort")
            outcome(I, "refused")
            return
        I.p.fail(f"{cls}.sort is refused", "accepted")

    return fn


def proofs():
    out = []
    for c in MEM:
        for i in (None, True, False):
            out.append(Proof(f"{c}.sort(insitu={i})", sort(c, i), [f"{c}.sort", f"{c}.key_of", "nstrsum", f"{c}.__init__"], ["end", "ordered"], types=TYPES, contracts={("", "nstrsum"): names}))
    return out
