"""C21: static routes attach to exactly the interfaces that reach them.

iosConfig.__init__ from an arbitrary list of items and an arbitrary table of interfaces (ACLConfig.__init__ is C13): the
list of routes is the routes of the items in order; a pair (interface, route) is attached iff the route's gateway is that
interface, or is an address inside the network of one of the addresses of that interface of the configuration; nothing
else is written.  iosSemantics.ip_route: network and gateway are the stated ones, a named interface is the one defined
under that name.  Interface.__init__: one address per address line, in order, no route.
"""
from .match import *
from .seq import *
from .c13 import arbitrary, begin, PARSER, TYPES as T13, Stop
from .c15 import rec, start

EV = ("obj", "attached")
IFACE = TObj("Interface")


class Attached(Type):
    """Interface.routes: only additions, recorded as (interface, route)"""

    def make(self, I, acc, key):
        raise Unsupported("routes of an unknown interface")

    def field(self, I, o, name):
        r = Opaque("routes")

        def add(I, args, kwargs):
            x = (o, args[0])
            I.p.log("event", EV, x)
            I.p.events.append(Elem(x))

        def update(I, args, kwargs):
            for a in args:
                I.iterate(I.segs_of(a), lambda e: add(I, [I.force(I.lazy(e))], {}))

        r.methods = {"add": add, "update": update}
        return r


TYPES = {
    **T13, **PARSER,
    ("Interface", "routes"): Attached(),
    ("Route", "network"): TNet(4),
    ("Route", "gw"): TUnion(TIp(4), IFACE),
}


def run(I):
    """iosConfig.__init__ -> (configuration, list of routes, interfaces)"""
    p = I.p
    at = []

    def hook(I, st, fr, self, l):
        if at:
            return NotImplemented
        at.append(self)
        arbitrary(I, self)

    l, segs = begin(I, "iosConfig", ["Route", "ACLRules", "Interface", "none"], hook)
    p.events.clear()
    c = I.force(I.construct(I.prog.classes["iosConfig"], [l], {}))
    if not at:
        raise Unsupported("no loop over the items")

    def route(pp, e):
        e = I.force(e)
        return (Elem(e),) if isinstance(e, Obj) and I.classes_of(e) <= {"Route"} else ()

    return c, (FM(segs[0], route, "routes"),), p.content(I.getattr(c, "interfaces"))


def kept(I):
    c, routes, ifaces = run(I)
    same_seq(I, I.p.content(I.getattr(c, "routes")), routes, "routes", what="the routes of the items in order")
    outcome(I, "end")


def exists(I, segs, pred):
    def body(e):
        if pred(I.force(I.lazy(e))):
            raise BreakExc()

    try:
        I.iterate(segs, body)
    except BreakExc:
        return True
    return False


def reaches(I, j, r, ifaces):
    g = I.force(I.getattr(r, "gw"))
    if isinstance(g, Obj):
        return I.tr(I.same(g, j))
    if not exists(I, ifaces, lambda kv: I.tr(I.same(I.force(I.lazy(kv[1])), j))):
        return False
    return exists(I, I.p.content(I.getattr(j, "addresses")), lambda a: I.tr(lib.ip_in_net(I, g, I.getattr(a, "interface").net)))


def only(I):
    """what is attached is a route of the configuration, at an interface that reaches its gateway"""
    p = I.p
    c, routes, ifaces = run(I)
    x = lib.pick(I, tuple(p.events))
    j, r = I.force(I.lazy(x[0])), I.force(I.lazy(x[1]))
    p.prove(isinstance(r, Obj) and I.classes_of(r) == {"Route"} and I.in_segs(routes, r), "attached: a route of the configuration")
    g = I.force(I.getattr(r, "gw"))
    outcome(I, "by name" if isinstance(g, Obj) else "by address")
    p.prove(reaches(I, j, r, ifaces), "attached: only to interfaces that reach the gateway")
    frame_ok(I, "routes", allowed=(("in", "items"),))


def all_(I):
    """every interface that reaches the gateway of a route has it"""
    p = I.p
    c, routes, ifaces = run(I)
    r = I.force(I.lazy(lib.pick(I, routes)))
    g = I.force(I.getattr(r, "gw"))
    if isinstance(g, Obj):
        outcome(I, "by name")
        j = g
    else:
        outcome(I, "by address")
        j = I.force(I.lazy(lib.pick(I, ifaces)[1]))
        a = I.force(I.lazy(lib.pick(I, p.content(I.getattr(j, "addresses")))))
        p.assume(lib.ip_in_net(I, g, I.getattr(a, "interface").net))
    outcome(I, "end")
    p.prove(exists(I, tuple(p.events), lambda x: I.tr(I.same(I.force(I.lazy(x[0])), j)) and I.tr(I.same(I.force(I.lazy(x[1])), r))),
            "attached: to every interface that reaches the gateway")


def statement(kind):
    def fn(I):
        p = I.p
        ps, s, ts, old = start(I, "iosSemantics")
        a, m = arg(I, TIp(4), "prefix"), arg(I, TIp(4), "mask")
        if kind == "none":
            r = I.force(I.call_method(s, "ip_route", [rec(I, {"prefix": None})], {}))
            p.prove(r is None, "route: a statement without a network is no route")
            return
        gw = arg(I, TIp(4), "gw") if kind == "address" else arg(I, TStr(nonempty=True), "gw")
        known = kind == "name" and I.dict_get_segs(old["interfaces"], gw, lambda: None)
        try:
            r = I.force(I.call_method(s, "ip_route", [rec(I, {"prefix": a, "mask": m, "gw": gw})], {}))
        except PyExc:
            outcome(I, "refused")
            ok = z3.And(lib.ones(m.val ^ lib.V4MAX), (a.val & (m.val ^ lib.V4MAX)) == 0)
            if kind == "address" or known:
                p.prove(z3.Not(ok), "route: a route with a network as destination is accepted")
            return
        outcome(I, "end")
        frame_ok(I, "route")
        p.prove(isinstance(r, Obj) and I.classes_of(r) == {"Route"}, "route: a Route")
        n = I.force(I.getattr(r, "network"))
        x = arg(I, TIp(4), "x")
        inside = (x.val & ~n.host) == n.num
        hb = m.val ^ lib.V4MAX
        p.prove(z3.Not(n.is6), "route: an IPv4 network")
        p.prove(z3.Implies(lib.ones(hb), inside == (((x.val ^ a.val) & ~hb) == 0)), "route: the stated network")
        g = I.force(I.getattr(r, "gw"))
        if kind == "address":
            p.prove(isinstance(g, SIp) and zt(I.eq(g, gw)), "route: the stated gateway")
        elif known:
            p.prove(isinstance(g, Obj) and zt(I.same(g, known)), "route: through the interface defined under that name")
        else:
            p.prove(isinstance(g, SIp) and z3.And(lib.f_ipok(gw.t), z3.Not(lib.f_ip6(gw.t)), lib.f_ipval(gw.t) == g.val), "route: the stated gateway")

    return fn


def T(*x):
    return TTuple(*[TConst(y) if isinstance(y, str) else y for y in x], as_list=True)


ADDR4 = TRec({"type": T("ip", " ", "address"), "value": T(TIp(4), " ", TIp(4))})
ADDR6 = TRec({"type": T("ipv6", " ", "address"), "value": T(TIp(6), "/", TStr(nonempty=True))})
HOST6 = TRec({"type": T("ipv6", " ", "address"), "value": TIp(6)})
DETAIL = {
    "none": TConst(None), "name": TRec({"type": TConst("nameif"), "value": TStr()}), "description": TRec({"type": TConst("description"), "value": TStr()}),
    "ip address": ADDR4, "ipv6 address": ADDR6, "ipv6 host": HOST6,
    "ip access-group": TRec({"type": T("ip", " ", "access-group"), "value": T(TStr(), " ", TStr())}),
    "ipv6 traffic-filter": TRec({"type": T("ipv6", " ", "traffic-filter"), "value": T(TStr(), " ", TStr())}),
}


def interface(I):
    p = I.p
    n = arg(I, TStr(), "alias")
    l = arg(I, TList(TUnion(*DETAIL.values())), "details")
    segs = p.content(l)
    try:
        i = I.force(I.construct(I.prog.classes["Interface"], [n, l], {}))
    except PyExc:
        outcome(I, "refused")
        frame_ok(I, "interface")
        return
    outcome(I, "end")
    frame_ok(I, "interface")
    p.prove(zt(I.eq(I.getattr(i, "alias"), n)), "interface: its name")
    r = p.content(I.getattr(i, "routes"))
    p.prove(r == ("segs", ()), "interface: no route attached yet")

    def address(pp, d):
        d = I.force(d)
        if d is None:
            return ()
        t, v = I.getattr(d, "type"), I.getattr(d, "value")
        if isinstance(t, str) or I.getitem(t, 2) != "address":
            return ()
        return (Elem((I.getitem(t, 0), v)),)

    def same(I, a, d):
        outcome(I, "address")
        a = I.force(a)
        x = I.force(I.getattr(a, "interface"))
        v = I.force(I.lazy(d[1]))
        full = 32 if d[0] == "ip" else 128
        ip = v if isinstance(v, SIp) else I.force(I.getitem(v, 0))
        if isinstance(v, SIp):
            h = z3.BitVecVal(0, 128)
        elif full == 32:
            h = I.force(I.getitem(v, 2)).val ^ lib.V4MAX
            p.assume(lib.ones(h))  # a dotted netmask; host masks are read as ipaddress reads them
        else:
            h = lib.f_nethost(ip.is6, I.force(I.getitem(v, 2)).t)
        return z3.And(x.ip.is6 == ip.is6, x.ip.val == ip.val, x.net.host == h, x.net.num == (ip.val & ~h))

    same_seq(I, p.content(I.getattr(i, "addresses")), tuple(FM(s, address, "addresses") for s in segs), "interface", same, "the stated addresses in order")


def proofs():
    f = ["iosConfig.__init__"]
    out = [
        Proof("routes kept", kept, f, ["end"], types=TYPES),
        Proof("only reaching interfaces", only, f, ["by name", "by address"], types=TYPES),
        Proof("every reaching interface", all_, f, ["by name", "by address", "end"], types=TYPES),
    ]
    for k in ("address", "name", "none"):
        out.append(Proof(f"route statement ({k})", statement(k), ["iosSemantics.ip_route", "Route.__init__"], ["end"] if k != "none" else [], types=TYPES))
    out.append(Proof("interface", interface, ["Interface.__init__", "InterfaceAddress.__init__"], ["end", "refused", "address"], types=TYPES))
    return out
