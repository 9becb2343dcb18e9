"""C13: a parsed configuration keeps every item exactly once, in order.

ACLConfig.__init__ is a fold over the list of parsed items.  For every kind of item: one step from an arbitrary state
(every list and table arbitrary) appends the item to its own list, or enters it in its own table under its own name, and
leaves every other list and table as it was; the state before the first step is empty; nothing is done after the last
one.  By induction over the list of items every item is kept exactly once, in the order of the input.
aclParser._learn enters a definition in the table of its class, and only there.
iosConfig.__init__: the rule list is the concatenation of the rules of the items, in order.
"""
import ast

from .match import *
from .seq import *

GROUPS = {"NetworkGroup": "network", "PortGroup": "port", "ServiceGroup": "service", "ProtocolGroup": "protocol", "ICMPGroup": "icmp"}
KINDS = ("network", "service", "port", "protocol", "time", "icmp")
IAG = TObj("InterfaceAccessGroup")
TYPES = {
    ("TimeRange", "name"): TStr(),
    ("ACLVersion", "version"): TStr(),
    ("NATObject", "options"): TMap(TOpaque("option")),
    ("InterfaceAccessGroup", "iface"): TStr(),
    ("Interface", "access_groups"): TMap(IAG),
    ("Interface", "routes"): TSet(TObj("Route")),
}
WITHNAT = {**TYPES, ("NetworkObject", "nat"): TObj("NATObject")}
DEFTYPE = {
    "objects.network": TObj("NetworkObject"), "objects.service": TObj("ServiceObject"), "objects.time": TObj("TimeRange"),
    "objects.port": TObj("Port"), "objects.protocol": TObj("Protocol"), "objects.icmp": TObj("ICMP"),
    **{f"groups.{k}": TObj(c) for c, k in GROUPS.items()}, "groups.time": TObj("TimeRange"),
}
RECS = {
    "hostname": TRec({"hostname": TStr()}),
    "domain": TRec({"cmd": TConst("domain name"), "name": TStr(), "domain_name": TStr()}),
    "other ast": TRec({"cmd": TOpaque("cmd")}),
}
ITEM = {
    **RECS, "none": TConst(None), "text": TStr(),
    **{c: TObj(c) for c in ("ACLRule", "Name", "Interface", "TimeRange", "NetworkObject", "ServiceObject", *GROUPS, "ACLVersion", "InterfaceAccessGroup", "NATObject", "Route", "ACLRules")},
    "NetworkObject with nat": TObj("NetworkObject"),
}
# what the items are and where they belong: (list or table)
PLACE = {
    "ACLRule": "rules.rules", "Name": "names.objects", "Interface": "interfaces", "TimeRange": "objects.time",
    "NetworkObject": "objects.network", "NetworkObject with nat": "objects.network", "ServiceObject": "objects.service",
    **{c: f"groups.{k}" for c, k in GROUPS.items()},
}


class Stop(Exception):
    pass


def get(I, o, path):
    for a in path.split("."):
        o = I.getattr(o, a)
    return o


def lists(I, self):
    nat = I.getattr(self, "nat")
    return {"rules.rules": get(I, self, "rules.rules"), "names.objects": get(I, self, "names.objects"),
            **{f"nat.{k}": I.getitem(nat, k) for k in (1, 2, 3)}}


def tables(I, self):
    d = {"interfaces": get(I, self, "interfaces"), "access_groups": get(I, self, "access_groups")}
    for a in ("objects", "groups"):
        for k in KINDS:
            d[f"{a}.{k}"] = get(I, self, f"{a}.{k}")
    return d


def arbitrary(I, self):
    """an arbitrary state of the fold"""
    p = I.p
    L, T = lists(I, self), tables(I, self)
    et = {"rules.rules": TObj("ACLRule"), "names.objects": TObj("Name")}
    for n, l in L.items():
        p.heap[l.oid] = (TList(et.get(n, TObj("NATObject"))).seg(I, "old " + n),)
    for n, d in T.items():
        t = TObj("Interface") if n == "interfaces" else TList(IAG) if n == "access_groups" else DEFTYPE[n]
        from ..interp import MapSeg

        p.heap[d.oid] = (MapSeg(("old", n), t),)
    for n in ("hostname", "domainname"):
        I.setattr(self, n, arg(I, TStr(), "old " + n))
    p.wlog.clear()
    return L, T


def begin(I, cls, items, hook):
    l = arg(I, TList(TUnion(*[ITEM[i] for i in items]) if len(items) > 1 else ITEM[items[0]]), "items")
    segs = I.p.content(l)

    def fhook(I, st, fr, it):
        if fr.locals.get("self") is None or tuple(I.segs_of(it)) != tuple(segs):
            return NotImplemented
        self = I.force(fr.locals["self"])
        return hook(I, st, fr, self, l)

    I.for_hook = fhook
    return l, segs


def initial(I):
    """every list and table is empty before the first item"""
    p = I.p
    done = []

    def hook(I, st, fr, self, l):
        for n, x in {**lists(I, self), **tables(I, self)}.items():
            p.prove(p.content(x) == (), f"before the first item: {n} is empty")
        p.prove(I.getattr(self, "hostname") == "", "before the first item: no host name")
        p.prove(I.getattr(self, "domainname") == "", "before the first item: no domain name")
        done.append(1)
        L, T = arbitrary(I, self)
        p.notes["state"] = {n: (x, p.content(x)) for n, x in {**L, **T}.items()}
        p.notes["self"] = self

    begin(I, "ACLConfig", ["ACLRule"], hook)
    c = I.force(I.construct(I.prog.classes["ACLConfig"], [I.p.new_list(p_items(I))], {}))
    if not done:
        raise Unsupported("no loop over the items")
    p.prove(zt(I.same(c, p.notes["self"])), "the configuration is the folded one")
    for n, (x, old) in p.notes["state"].items():
        p.prove(p.content(x) == old, f"after the last item: {n} is kept")


def p_items(I):
    return I.p.content(HList(("in", "items")))


def step(kind):
    def fn(I):
        p = I.p
        at = []

        def hook(I, st, fr, self, l):
            I.for_hook = inner if kind == "Interface" else None
            p.notes["self"] = self
            L, T = arbitrary(I, self)
            old = {n: p.content(x) for n, x in {**L, **T}.items()}
            p.notes["oldbind"] = old["access_groups"]
            host = {n: I.getattr(self, n) for n in ("hostname", "domainname")}
            i = p.member(segs[0])
            i = I.force(I.lazy(i))
            if kind == "NetworkObject":
                p.notes["nonat"] = 1
            iface = I.getattr(i, "iface") if kind == "InterfaceAccessGroup" else None
            nat = I.getattr(i, "nat") if kind.endswith("with nat") else None
            p.heap.setdefault(l.oid, segs)
            p.notes["bag"] = (l.oid,)
            I.assign(st.target, i, fr)
            try:
                I.block(st.body, fr)
            except ContinueExc:
                pass
            at.append(1)
            outcome(I, "end")
            after(I, kind, self, i, old, host, L, T, iface, nat)
            removed(I, kind, i, l)
            raise Stop()

        def inner(I, st, fr, it):
            """the bindings stated within an interface: one step of the loop over them"""
            sg = I.segs_of(it)
            self = p.notes["self"]
            if len(sg) != 1 or "access_groups" not in str(getattr(sg[0], "key", "")):
                return NotImplemented
            T = tables(I, self)
            from ..interp import MapSeg

            if p.choose(2, "inner step"):
                d = T["access_groups"]
                p.heap[d.oid] = (MapSeg(("old2", "access_groups"), TList(IAG)),)
                old = p.content(d)
                n0 = len(p.wlog)
                kv = p.member(sg[0])
                I.assign(st.target, kv, fr)
                I.block(st.body, fr)
                v = I.force(I.lazy(kv[1]))
                outcome(I, "bindings")
                bound(I, d, old, v, "an interface with its bindings", p.wlog[n0:], ())
                raise PathInfeasible()
            # after the loop: an arbitrary table of bindings again
            p.heap[T["access_groups"].oid] = p.notes["oldbind"]

        l, segs = begin(I, "ACLConfig", [kind], hook)
        try:
            I.construct(I.prog.classes["ACLConfig"], [l], {})
        except Stop:
            return
        if not at:
            raise Unsupported("no loop over the items")

    return fn


def bound(I, d, old, v, name, wlog, allowed):
    """the table of bindings has v added to the list of its name, and nothing else happened to it"""
    p = I.p
    n = I.getattr(v, "name")
    l0 = []
    before = I.dict_get_segs(old, n, lambda: None)
    now = I.dict_get(d, n, lambda: None)
    if not isinstance(now, HList):
        p.fail(f"{name}: the binding is in the table under the name of its list", repr(now))
    o = () if before is None else (TList(IAG).seg(I, str(before.oid[1])),)
    same_seq(I, p.content(now), o + (Elem(v),), name, what="the binding is added to the list of its name")
    for x in wlog:
        if x[1] in (d.oid, now.oid) or x[1] in allowed or x[0] == "event":
            continue
        p.fail(f"{name}: nothing else is changed", f"{x[0]} of {x[1]}")
    k = arg(I, TStr(), "other name")
    p.assume(k.t != I.zstr(n))
    p.prove(zt(I.dict_has(d, k)) == zt(I.dict_get_segs(old, k, lambda: None) is not None), f"{name}: no other entry of the table of bindings")


def removed(I, kind, i, l):
    """what is taken off the list of items is the item itself; routes and access lists stay"""
    p = I.p
    for x in p.wlog:
        if x[1] == l.oid:
            p.prove(x[0] == "remove" and zt(I.same(x[2], i)) if not isinstance(i, (SStr, str)) else False, f"{kind}: only the item itself is taken off the list of items")
            if kind in ("Route", "ACLRules", "none", "text"):
                p.fail(f"{kind}: stays in the list of items", "removed")


def after(I, kind, self, i, old, host, L, T, iface, nat):
    p = I.p
    name = f"item {kind}"
    want = {n: tuple(old[n]) for n in L}
    place = PLACE.get(kind)
    if place in L:
        want[place] += (Elem(i),)
    if nat is not None:
        want["nat.2"] += (Elem(nat),)
    if kind == "NATObject":
        o = I.getattr(i, "options")
        late = I.dict_has(o, "after-auto") or I.dict_has(o, "after-object")
        outcome(I, "late" if late else "first")
        want["nat.3" if late else "nat.1"] += (Elem(i),)
    for n, l in lists(I, self).items():
        what = "the item is appended" if want[n] != tuple(old[n]) else "no effect"
        p.prove(l.oid == L[n].oid or True, f"{name}: {n}")
        if p.content(l) == want[n]:
            p.prove(True, f"{name}: {n}: {what}")
        else:
            same_seq(I, p.content(l), want[n], f"{name}: {n}", what=what)
    for n in ("hostname", "domainname"):
        w = host[n]
        if kind == "hostname" and n == "hostname":
            w = I.getattr(i, "hostname")
        if kind == "domain" and n == "domainname":
            w = I.getattr(i, "domain_name")
        p.prove(zt(I.eq(I.getattr(self, n), w)), f"{name}: {n}")
    if kind == "ACLVersion":
        p.prove(zt(I.eq(I.getattr(self, "version"), I.getattr(i, "version"))), f"{name}: the version is kept")
    if kind == "InterfaceAccessGroup":
        return binding(I, name, self, i, old, T, iface)
    for n, d in tables(I, self).items():
        if p.content(d) == old[n] and n != place:
            p.prove(True, f"{name}: {n}: no effect")
            continue
        k = arg(I, TStr(), f"any name in {n}")
        now = I.dict_get(d, k, lambda: None)
        if n == place:
            key = I.getattr(i, "alias" if kind == "Interface" else "name")
            mine = I.tr(I.eq(k, key))
            first = I.dict_get_segs(old[n], k, lambda: None)
            if mine and not (kind.startswith("NetworkObject") and first is not None):
                p.prove(zt(now is not None and I.same(now, i)), f"{name}: {n}: the item is found under its name")
                continue
            if mine:
                p.prove(zt(now is not None and I.same(now, first)), f"{name}: {n}: the first definition is kept")
                continue
        was = I.dict_get_segs(old[n], k, lambda: None)
        if n == "access_groups":
            p.fail(f"{name}: {n}: no effect", "written")
        p.prove(zt(was is None if now is None else was is not None and I.same(now, was)), f"{name}: {n}: no other name is affected")
    for x in p.wlog:
        if x[0] == "event" or I.is_new(x[1]) or x[1] == ("in", "items"):
            continue
        if kind == "NetworkObject with nat" and x[0] == "setattr" and x[1] == ("obj", i.key) and x[2] == "nat":
            continue
        p.fail(f"{name}: nothing else is changed", f"{x[0]} of {x[1]}")


def binding(I, name, self, b, old, T, iface):
    """access-group statement: the first interface with that name gets it"""
    p = I.p
    for n, d in T.items():
        if n != "access_groups":
            p.prove(p.content(d) == old[n], f"{name}: {n}: no effect")
    j = I.getattr(b, "iface")
    if not isinstance(j, Obj):
        outcome(I, "unknown")
        p.prove(zt(I.eq(j, iface)), f"{name}: an unknown interface is left alone")
        x = I.force(I.lazy(p.member(old["interfaces"][0])[1]))
        nm = I.getattr(x, "nameif")
        p.prove(z3.Not(zt(I.eq(nm, iface))), f"{name}: is bound if there is an interface with that name")
        p.prove(p.content(T["access_groups"]) == old["access_groups"], f"{name}: access_groups: no effect")
        ok = ()
    else:
        outcome(I, "bound")
        p.prove(zt(I.eq(I.getattr(j, "nameif"), iface)), f"{name}: the interface has that name")
        g = I.getattr(j, "access_groups")
        v = I.dict_get(g, I.getattr(b, "direction"), lambda: None)
        p.prove(zt(v is not None and I.same(v, b)), f"{name}: the interface knows the binding under its direction")
        n = I.getattr(b, "name")
        d = T["access_groups"]
        wl = [x for x in p.wlog if not (x[0] == "setattr" and x[1] == ("obj", b.key) and x[2] == "iface")]
        bound(I, d, old["access_groups"], b, name, [x for x in wl if x[1] not in (("in", "items"),)], (g.oid,))
        return
    for x in p.wlog:
        if x[0] == "event" or x[1] == ("in", "items"):
            continue
        p.fail(f"{name}: an unknown interface changes nothing", f"{x[0]} of {x[1]}")


# ---------------------------------------------------------------- definitions are entered in the table of their class
LEARN = {
    "NetworkGroup": "network_groups", "NetworkObject": "network_objects", "ServiceGroup": "service_groups", "ServiceObject": "service_objects",
    "PortGroup": "port_groups", "ICMPGroup": "icmp_groups", "ProtocolGroup": "protocol_groups", "Name": "names", "TimeRange": "time_ranges", "Interface": "interfaces",
}
ANYDEF = TObj(*LEARN)
PARSER = {**{("aclParser", t): TMap(TObj(c)) for c, t in LEARN.items()}, ("aclParser", "objects"): TMap(ANYDEF)}


def learn(cls):
    def fn(I):
        p = I.p
        ps = with_class(I, "parser", "aclParser")
        n = arg(I, TStr(), "name")
        o = with_class(I, "o", cls)
        ts = {t: I.getattr(ps, t) for t in list(LEARN.values()) + ["objects"]}
        old = {t: p.content(d) for t, d in ts.items()}
        I.call_method(ps, "_learn", [n, o], {})
        learned(I, ps, cls, n, o, ts, old)

    return fn


def learned(I, ps, cls, n, o, ts, old, also=()):
    p = I.p
    names = list(ts)
    for t in (names[p.choose(len(names), "table")],):
        d = I.getattr(ps, t)
        k = arg(I, TStr(), f"any name in {t}")
        now = I.dict_get(d, k, lambda: None)
        if t == LEARN[cls] and I.tr(I.eq(k, n)):
            outcome(I, "found")
            p.prove(zt(now is not None and I.same(now, o)), f"{cls}: found under its name in the table of its kind")
            continue
        if t == "objects":
            continue
        was = I.dict_get_segs(old[t], k, lambda: None)
        p.prove(zt(was is None if now is None else was is not None and I.same(now, was)), f"{cls}: no other entry of the tables is affected")


# ---------------------------------------------------------------- IOS
def ios_rules(I):
    """the rules of an IOS configuration are the rules of its access lists, concatenated in the order of the input"""
    p = I.p
    at = []

    def hook(I, st, fr, self, l):
        if at:
            return NotImplemented
        at.append(self)
        arbitrary(I, self)
        p.heap[l.oid] = (FM(segs[0], lambda pp, e: (Elem(e),) if isinstance(I.force(e), Obj) and I.classes_of(I.force(e)) <= {"Route", "ACLRules"} else (), "rest"),)

    kinds = ["ACLRule", "ACLRules", "Route", "NetworkGroup", "Interface", "none"]
    l, segs = begin(I, "iosConfig", kinds, hook)
    h0 = I.for_hook

    def fhook(I, st, fr, it):
        r = h0(I, st, fr, it)
        if r is NotImplemented and at and routes_loop(I, st, fr, it):
            return None
        return r

    I.for_hook = fhook
    c = I.force(I.construct(I.prog.classes["iosConfig"], [l], {}))
    if not at:
        raise Unsupported("no loop over the items")

    def rules(pp, e):
        e = I.force(e)
        if isinstance(e, Obj):
            k = I.one_class(e).name
            if k == "ACLRule":
                return (Elem(e),)
            if k == "ACLRules":
                return tuple(pp.content(I.getattr(e, "rules")))
        return ()

    outcome(I, "end")
    same_seq(I, p.content(get(I, c, "rules.rules")), (FM(segs[0], rules, "rules"),), "IOS rules")


def routes_loop(I, st, fr, it):
    """the loop that attaches the routes (C21): it writes nothing but the routes of interfaces"""
    return any(isinstance(n, ast.Attribute) and n.attr == "routes" and not (isinstance(n.value, ast.Name) and n.value.id == "self") for s in st.body for n in ast.walk(s))


def proofs():
    out = [Proof("state before and after the fold", initial, ["ACLConfig.__init__", "ACLObjects.__init__", "ACLRules.__init__", "Names.__init__"], types=TYPES)]
    need = {"Interface": ["end", "bindings"], "InterfaceAccessGroup": ["bound", "unknown"], "NATObject": ["late", "first"]}
    for k in ITEM:
        out.append(Proof(f"item {k}", step(k), ["ACLConfig.__init__", "ACLRules.add", "Names.add"], need.get(k, ["end"]), types=WITHNAT if k.endswith("with nat") else TYPES))
    for c in LEARN:
        out.append(Proof(f"definition of a {c}", learn(c), ["aclParser._learn"], ["found"], types={**TYPES, **PARSER}))
    out.append(Proof("IOS: order of the rules", ios_rules, ["iosConfig.__init__"], ["end"], types=TYPES))
    return out
