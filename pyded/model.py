"""Types of the verified program's inputs: how a symbolic value of a field, an element or an argument is made.

acc(suffix, sort) yields the z3 term that stands for the value (a constant for an argument, a function of the object's
reference for a field)."""
import z3

from .core import *
from .interp import LazyV, MapSeg
from . import lib

Z = z3.IntSort()
S = z3.StringSort()
B = z3.BoolSort()
BV = z3.BitVecSort(128)


class Type:
    def make(self, I, acc, key):
        raise NotImplementedError

    def field(self, I, o, name):
        """the value of a field of an input object (memoised per path)"""
        p = I.p
        k = ("field", o.key, name)
        if k not in p.singletons_path():
            acc = lambda suf, sort: z3.Function(f"{name}{suf}", Z, sort)(o.ref)
            p.singletons_path()[k] = self.make(I, acc, f"{name}({o.key})")
        return I.force(p.singletons_path()[k])


class TStr(Type):
    def __init__(self, nonempty=False, pred=None):
        self.nonempty, self.pred = nonempty, pred

    def make(self, I, acc, key):
        t = acc("", S)
        if self.nonempty:
            I.p.assume(t != z3.StringVal(""))
        if self.pred:
            I.p.assume(self.pred(t))
        return SStr(t)


class TInt(Type):
    def __init__(self, lo=None, hi=None):
        self.lo, self.hi = lo, hi

    def make(self, I, acc, key):
        t = acc("", Z)
        if self.lo is not None:
            I.p.assume(t >= self.lo)
        if self.hi is not None:
            I.p.assume(t <= self.hi)
        return SInt(t)


class TBool(Type):
    def make(self, I, acc, key):
        return SBool(acc("", B))


class TConst(Type):
    def __init__(self, v):
        self.v = v

    def make(self, I, acc, key):
        return self.v


class TOpaque(Type):
    """an object of a kind nothing is done with"""

    def __init__(self, what):
        self.what = what

    def make(self, I, acc, key):
        return Opaque(f"{self.what}:{key}")


class TUnion(Type):
    def __init__(self, *ts):
        self.ts = ts

    def make(self, I, acc, key):
        p = I.p
        sel = acc(".sel", Z)
        n = len(self.ts)
        for i in range(n - 1):
            if p.branch(sel == i):
                return self.ts[i].make(I, lambda s, so, i=i: acc(f".{i}{s}", so), f"{key}.{i}")
        p.assume(sel == n - 1)
        return self.ts[-1].make(I, lambda s, so: acc(f".{n-1}{s}", so), f"{key}.{n-1}")


def TOpt(t):
    return TUnion(TConst(None), t)


class TEnum(Type):
    """one of a few constants"""

    def __init__(self, *vs):
        self.vs = vs

    def make(self, I, acc, key):
        sel = acc(".enum", Z)
        for i, v in enumerate(self.vs[:-1]):
            if I.p.branch(sel == i):
                return v
        I.p.assume(sel == len(self.vs) - 1)
        return self.vs[-1]


class TIp(Type):
    def __init__(self, v=None):
        self.v = v

    def make(self, I, acc, key):
        val = acc(".ip", BV)
        is6 = acc(".is6", B) if self.v is None else z3.BoolVal(self.v == 6)
        r = SIp(is6, val)
        I.p.assume(lib.valid_ip(r))
        return r


class TNet(Type):
    def __init__(self, v=None):
        self.v = v

    def make(self, I, acc, key):
        num, host = acc(".num", BV), acc(".host", BV)
        is6 = acc(".is6", B) if self.v is None else z3.BoolVal(self.v == 6)
        I.p.assume(lib.ones(host))
        I.p.assume((num & host) == 0)
        I.p.assume(z3.Implies(z3.Not(is6), z3.And(z3.ULE(num, lib.V4MAX), z3.ULE(host, lib.V4MAX))))
        return SNet(is6, num, host)


class TIface(Type):
    def make(self, I, acc, key):
        ip = TIp().make(I, lambda s, so: acc(".a" + s, so), key)
        host = acc(".host", BV)
        I.p.assume(lib.ones(host))
        I.p.assume(z3.Implies(z3.Not(ip.is6), z3.ULE(host, lib.V4MAX)))
        return SIface(ip, SNet(ip.is6, ip.val & ~host, host))


class TObj(Type):
    def __init__(self, *classes, subs=True):
        self.classes = classes

    def make(self, I, acc, key):
        p = I.p
        o = Obj(acc("", Z))
        if o.key in p.classes:
            return o
        p.assume(o.ref >= 0)
        p.classes[o.key] = frozenset(self.classes)
        p.assume(z3.Or([I.clsfact(o, c) for c in self.classes]))
        return o


class TList(Type):
    def __init__(self, elem, nonempty=False):
        self.elem = elem

    def seg(self, I, key):
        elem = self.elem

        def make(p, name):
            return elem.make(p.I, lambda suf, sort: z3.Const(name + suf, sort), name)

        return SymSeg(("list", key), make)

    def make(self, I, acc, key):
        oid = ("in", key)
        if oid not in I.p.heap:
            I.p.heap[oid] = (self.seg(I, key),)
        return HList(oid)


class TSet(TList):
    def make(self, I, acc, key):
        oid = ("in", key)
        if oid not in I.p.heap:
            I.p.heap[oid] = ("segs", (self.seg(I, key),))
        return HSet(oid)


class TMap(Type):
    """dict with string keys and values of one type"""

    def __init__(self, vtype, default=None):
        self.vtype, self.default = vtype, default

    def make(self, I, acc, key):
        oid = ("in", key)
        if oid not in I.p.heap:
            I.p.heap[oid] = (MapSeg(("map", key), self.vtype),)
        return HDict(oid, default=self.default)


class TRec(Type):
    """dict with fixed keys (ast: a TatSu AST: missing attributes are None)"""

    def __init__(self, fields, ast=True):
        self.fields, self.ast = fields, ast

    def make(self, I, acc, key):
        oid = ("in", key)
        if oid not in I.p.heap:
            I.p.heap[oid] = tuple(
                Elem((k, LazyF(I, t, (lambda suf, sort, k=k: acc(f".{k}{suf}", sort)), f"{key}.{k}")))
                for k, t in self.fields.items()
            )
        return HDict(oid, ast=self.ast)


class LazyF(LazyV):
    """a field made once per path when it is first read"""

    def __init__(self, I, type_, acc, key):
        self.type, self.acc, self.key = type_, acc, key

    def get(self, I):
        s = I.p.singletons_path()
        k = ("lazy", self.key)
        if k not in s:
            s[k] = self.type.make(I, self.acc, self.key)
        return s[k]


class TTuple(Type):
    def __init__(self, *ts, as_list=False):
        self.ts, self.as_list = ts, as_list

    def make(self, I, acc, key):
        vs = [t.make(I, lambda s, so, i=i: acc(f".{i}{s}", so), f"{key}.{i}") for i, t in enumerate(self.ts)]
        if self.as_list:
            oid = ("in", key)
            if oid not in I.p.heap:
                I.p.heap[oid] = tuple(Elem(v) for v in vs)
            return HList(oid)
        return tuple(vs)


class TFn(Type):
    def __init__(self, fn):
        self.fn = fn

    def make(self, I, acc, key):
        return self.fn(I, acc, key)


def arg(I, t, name):
    return I.force(t.make(I, lambda suf, sort: z3.Const(name + suf, sort), name))


# ---------------------------------------------------------------- the data model (field types of input objects)
ADDR = ("Network", "NetworkWildcard", "NetworkHost", "NetworkObject", "NetworkGroup", "NetworkAny", "NetworkAny4",
        "NetworkAny6", "NetworkInterface")
CAFADDR = ("cafNetworkAny", "cafNetworkAny4", "cafNetworkAny6")
MEMBER = ("Network", "NetworkHost", "NetworkObject", "NetworkAny", "NetworkAny4", "NetworkAny6", "NetworkGroup", "Webtype")
OPTNAME = TOpt(TObj("Name"))
PORTT = TOpt(TObj("Port", "PortRange", "PortGroup"))
PROTO = TObj("Protocol")


def data_model():
    s = TStr()
    os_ = TOpt(TStr())
    m = {
        ("NetworkHost", "address"): TIp(),
        ("NetworkHost", "target"): OPTNAME,
        ("Network", "network"): TNet(),
        ("Network", "target"): OPTNAME,
        ("NetworkWildcard", "address"): TIp(),
        ("NetworkWildcard", "wildcard"): TIp(4),
        ("NetworkInterface", "name"): s,
        ("NetworkObject", "name"): s,
        ("NetworkObject", "description"): os_,
        ("NetworkObject", "type"): TOpaque("type"),
        ("NetworkObject", "addresses"): TList(TObj("Network", "NetworkHost", "NetworkAny", "NetworkAny4", "NetworkAny6")),
        ("_Group", "name"): s,
        ("_Group", "description"): os_,
        ("NetworkGroup", "objects"): TList(TObj(*MEMBER)),
        ("PortGroup", "objects"): TList(TObj("Port", "PortRange", "PortGroup")),
        ("PortGroup", "protocol"): PROTO,
        ("ServiceGroup", "objects"): TList(TObj("Service", "ServiceObject", "ServiceGroup")),
        ("ProtocolGroup", "objects"): TList(TObj("Protocol", "ProtocolGroup")),
        ("ICMPGroup", "objects"): TList(TObj("ICMP", "ICMPGroup")),
        ("Protocol", "name"): s,
        ("ICMP", "type"): s,
        ("ICMP", "code"): os_,
        ("Service", "protocol"): PROTO,
        ("Service", "src"): PORTT,
        ("Service", "dst"): PORTT,
        ("Service", "icmp_type"): os_,
        ("Service", "icmp_code"): os_,
        ("ServiceObject", "name"): s,
        ("ServiceObject", "description"): os_,
        ("Port", "op"): s,
        ("Port", "num"): s,
        ("PortRange", "start"): s,
        ("PortRange", "stop"): s,
        ("Name", "hostname"): s,
        ("Name", "address"): TIp(),
        ("Name", "description"): os_,
        ("ACLNode", "host"): TObj(*(ADDR + ("Webtype",))),
        ("ACLNode", "port"): PORTT,
        ("ACLRule", "id"): os_,
        ("ACLRule", "line"): os_,
        ("ACLRule", "extended"): os_,
        ("ACLRule", "mode"): os_,
        ("ACLRule", "protocol"): TOpt(TObj("Protocol", "ProtocolGroup", "Service", "ServiceObject", "ServiceGroup")),
        ("ACLRule", "src"): TObj("ACLNode"),
        ("ACLRule", "dst"): TObj("ACLNode"),
        ("ACLRule", "remark"): TList(TStr()),
        ("ACLRule", "icmp"): TOpt(TObj("ICMP", "ICMPGroup")),
        ("ACLRule", "head"): TOpaque("head"),
        ("ACLRules", "rules"): TList(TObj("ACLRule")),
        ("InterfaceAddress", "interface"): TIface(),
        ("InterfaceAddress", "priority"): TOpaque("priority"),
        ("Interface", "alias"): s,
        ("Interface", "nameif"): os_,
        ("Interface", "addresses"): TList(TObj("InterfaceAddress")),
        ("Interface", "access_groups"): TMap(TObj("InterfaceAccessGroup")),
        ("InterfaceAccessGroup", "iface"): TObj("Interface"),
        ("InterfaceAccessGroup", "name"): s,
        ("InterfaceAccessGroup", "direction"): s,
        ("NATObject", "real"): TObj("NATReal"),
        ("NATObject", "mapped"): TObj("NATMapped"),
        ("NATReal", "iface"): TObj("NetworkInterface"),
        ("NATReal", "src"): TOpt(TObj("NATRealNode")),
        ("NATReal", "dst"): TOpt(TObj("NATRealNode")),
        ("NATReal", "service"): TOpt(TObj("Service", "ServiceObject", "ServiceGroup")),
        ("NATRealNode", "node"): TOpt(TObj("NetworkAny", "NetworkObject", "NetworkGroup", "NetworkInterface", "NetworkHost", "Network")),
        ("NATMapped", "iface"): TObj("NetworkInterface"),
        ("NATMapped", "src"): TOpt(TObj("NATMappedSource")),
        ("NATMapped", "dst"): TOpt(TObj("NATMappedDestination")),
        ("NATMapped", "service"): TOpt(TObj("Service", "ServiceObject", "ServiceGroup")),
        ("NATMappedSource", "node"): TOpt(TObj("NetworkAny", "NetworkObject", "NetworkGroup", "NetworkInterface", "NetworkHost", "Network")),
        ("NATMappedDestination", "node"): TOpt(TObj("NetworkAny", "NetworkObject", "NetworkGroup", "NetworkInterface")),
        ("cafBlock", "expr"): TObj("ACLRule", "cafBlock", "cafOpUnion", "cafOpIntersect", "cafOpExcept"),
        ("cafOp", "a"): TObj("cafBlock", "cafOpUnion", "cafOpIntersect", "cafOpExcept"),
        ("cafOp", "b"): TObj("cafBlock", "cafOpUnion", "cafOpIntersect", "cafOpExcept"),
    }
    return m
