"""C24: object definitions denote exactly the stated addresses.

A host is the stated address; a network is the addresses agreeing with the stated one on the bits of the mask, whether
the mask is a dotted mask, a prefix length or text; a range is the image of the stated start and stop under
ipaddress.summarize_address_range (contract: networks covering exactly first..last), each network kept as it is.
The name an address was defined through is kept.
"""
from .match import *
from .seq import *
from .c15 import rec, start, SEMS
from .c13 import PARSER

NAT = {("NATReal", "src"): TObj("NATRealNode"), **PARSER}
FULL = {4: 2**32 - 1, 6: 2**128 - 1}


def is_a(I, o, c, name):
    o = I.force(I.lazy(o))
    I.p.prove(isinstance(o, Obj) and I.classes_of(o) == {c}, f"{name}: a {c}")
    return o


def only(I, o, field, name):
    """the single element of a list"""
    segs = list(I.resolve(I.p.content(I.getattr(o, field))))
    I.p.prove(len(segs) == 1 and isinstance(segs[0], Elem), f"{name}: one member")
    return I.force(I.lazy(segs[0].v))


def host_is(I, h, ip, name, target=None):
    is_a(I, h, "NetworkHost", name)
    a = I.force(I.getattr(h, "address"))
    I.p.prove(isinstance(a, SIp) and zt(z3.And(a.is6 == ip.is6, a.val == ip.val)), f"{name}: the stated address")
    target_is(I, h, target, name)


def target_is(I, o, target, name):
    t = I.getattr(o, "target")
    I.p.prove(zt(t is None if target is None else t is not None and I.same(t, target)), f"{name}: the name it was defined through")


def net_is(I, n, ip, host, name, target=None):
    """n covers x iff x is of the family and agrees with ip outside host"""
    p = I.p
    is_a(I, n, "Network", name)
    net = I.force(I.getattr(n, "network"))
    if not isinstance(net, SNet):
        p.fail(f"{name}: a network", repr(net))
    x = fresh_x(I, "x")
    inside = z3.And(x[0] == net.is6, ((x[1] ^ net.num) & ~net.host) == 0)
    stated = z3.And(x[0] == ip.is6, ((x[1] ^ ip.val) & ~host) == 0)
    p.prove(inside == stated, f"{name}: exactly the addresses agreeing with the stated one under the mask")
    p.prove((net.num & net.host) == 0, f"{name}: host bits are ignored")
    target_is(I, n, target, name)


MASKS = ("dotted mask", "mask text", "prefix")


def mask_of(I, kind, ip):
    """a mask and the host bits it stands for"""
    p = I.p
    if kind == "dotted mask":
        m = arg(I, TIp(4), "m")
        h = m.val ^ lib.V4MAX
        p.assume(z3.And(z3.Not(ip.is6), lib.ones(h)))
        # /0 as a dotted mask is also the host mask 0.0.0.0, both readings agree
        return m, h
    if kind == "mask text":
        m = arg(I, TStr(nonempty=True), "m")
        p.assume(lib.f_netok(ip.is6, m.t))
        return m, lib.f_nethost(ip.is6, m.t)
    m = SBV(p.fresh(z3.BitVecSort(W), "plen"), 0, 128)
    p.assume(z3.And(m.t >= 0, m.t <= z3.If(ip.is6, z3.BitVecVal(128, W), z3.BitVecVal(32, W))))
    return m, lib.prefix_host(ip.is6, m.t)


def addr_arg(I, name, text=True):
    """an address, as such or as text"""
    if text and I.p.choose(2, "text") == 1:
        t = arg(I, TStr(nonempty=True), name)
        I.p.assume(lib.f_ipok(t.t))
        r = SIp(lib.f_ip6(t.t), lib.f_ipval(t.t))
        I.p.assume(lib.valid_ip(r))
        return t, r
    a = arg(I, TIp(), name)
    return a, a


def make(I, cls, name, kw):
    return I.force(I.construct(I.prog.classes[cls], [name], kw))


def network(kind):
    def fn(I):
        a, ip = addr_arg(I, "a")
        m, h = mask_of(I, kind, ip)
        t = arg(I, OPTNAME, "target")
        n = I.force(I.construct(I.prog.classes["Network"], [a, m], {"target": t}))
        frame_ok(I, "Network")
        outcome(I, "end")
        net_is(I, n, ip, h, f"network with a {kind}", t)

    return fn


def nethost(I):
    a, ip = addr_arg(I, "a")
    t = arg(I, OPTNAME, "target")
    h = I.force(I.construct(I.prog.classes["NetworkHost"], [a], {"target": t}))
    frame_ok(I, "NetworkHost")
    outcome(I, "end")
    host_is(I, h, ip, "host", t)


def by_ctor(I, args):
    n = arg(I, TStr(nonempty=True), "n")
    return I.force(I.construct(I.prog.classes["NetworkObject"], [n, None], args)), n


def by_action(cls):
    def f(I, args):
        ps, s, ts, old = start(I, cls)
        n = arg(I, TStr(nonempty=True), "n")
        # the other parts of a definition: a description, a NAT statement
        d = None if I.p.choose(2, "description") else arg(I, TStr(), "d")
        f = {"type": "network", "name": n, "description": d, "args": rec(I, args)}
        if I.p.choose(2, "nat") == 1:
            f["nat"] = arg(I, TObj("NATObject"), "nat")
        return I.force(I.call_method(s, "object_type", [rec(I, f)], {})), n

    return f


def obj(what, by, how):
    name = f"object by {what}, {how}"

    def fn(I):
        p = I.p
        text = by is by_ctor
        if what == "host":
            a, ip = addr_arg(I, "a", text)
            r, n = by(I, {"type": "host", "address": a})
            outcome(I, "end")
            host_is(I, only(I, r, "addresses", name), ip, name)
        elif what.startswith("subnet"):
            a, ip = addr_arg(I, "a", text)
            m, h = mask_of(I, what[7:], ip)
            r, n = by(I, {"type": "subnet", "address": a, "mask": m})
            outcome(I, "end")
            net_is(I, only(I, r, "addresses", name), ip, h, name)
        elif what == "range":
            a, ip = addr_arg(I, "a", text)
            b, jp = addr_arg(I, "b", text)
            p.assume(ip.is6 == jp.is6)
            ok = z3.ULE(ip.val, jp.val)
            try:
                r, n = by(I, {"type": "range", "start": a, "stop": b})
            except PyExc:
                outcome(I, "refused")
                p.prove(z3.Not(ok), f"{name}: refused only if the stop is before the start")
                return
            p.prove(ok, f"{name}: an empty range is refused")
            outcome(I, "end")
            want = I.segs_of(lib.h_summarize(I, ip, jp))

            def same(I, got, e):
                is_a(I, got, "Network", name)
                t = I.force(I.getattr(got, "network"))
                x = fresh_x(I, "x")
                return z3.And(t.is6 == e.is6, t.num == e.num, t.host == e.host, I.getattr(got, "target") is None)

            same_seq(I, p.content(I.getattr(r, "addresses")), want, name, same, "the networks covering exactly start..stop")
        elif what == "fqdn":
            lim = [None, "v4", "v6"][p.choose(3, "limit")]
            kw = {"type": "fqdn", "fqdn": arg(I, TStr(nonempty=True), "f")}
            if lim or p.choose(2, "limit given") == 1:
                kw["limit"] = lim
            r, n = by(I, kw)
            outcome(I, "end")
            is_a(I, only(I, r, "addresses", name), {None: "NetworkAny", "v4": "NetworkAny4", "v6": "NetworkAny6"}[lim], f"{name} {lim or 'any'}")
        elif what == "none":
            r, n = by(I, {} if p.choose(2, "type") else {"type": None})
            outcome(I, "end")
            p.prove(p.content(I.getattr(r, "addresses")) == (), f"{name}: no address")
        else:
            t = arg(I, TStr(), "type")
            for k in ("host", "subnet", "range", "fqdn", "nat"):
                p.assume(t.t != z3.StringVal(k))
            try:
                by(I, {"type": t})
            except PyExc:
                outcome(I, "end")
                p.prove(True, f"{name}: refused")
                return
            p.fail(f"{name}: refused")
        p.prove(zt(I.eq(I.getattr(r, "name"), n)), f"{name}: the name")

    return fn


def named(I, v):
    """an address in a group: written out, or the name it is defined with"""
    if I.p.choose(2, "name") == 1:
        n = arg(I, TObj("Name"), "nm")
        return n, I.force(I.getattr(n, "address")), n
    a = arg(I, TIp(v), "a")
    return a, a, None


def member(what, cls):
    name = f"group member {what}, {cls[:-9]}"

    def fn(I):
        p = I.p
        ps, s, ts, old = start(I, cls)
        f = {"type": "network-object"}
        if what == "host":
            a, ip, t = named(I, None)
            f.update(name="host", address=a)
        elif what.startswith("network"):
            a, ip, t = named(I, None)
            m, h = mask_of(I, what[8:], ip)
            f.update(name=a, netmask=m)
        elif what == "object":
            o = arg(I, TObj("NetworkObject"), "o")
            f.update(name="object", object=o)
        else:
            o = arg(I, TObj("NetworkGroup"), "o")
            f = {"type": "group-object", "group": o}
        r = I.force(I.call_method(s, "network_group_object", [rec(I, f)], {}))
        frame_ok(I, name)
        outcome(I, "end")
        if what == "host":
            host_is(I, r, ip, name, t)
        elif what.startswith("network"):
            net_is(I, r, ip, h, name, t)
        else:
            p.prove(zt(r is not None and I.same(r, o)), f"{name}: that definition itself")

    return fn


def name_def(I):
    """the address of a name is the stated one"""
    ps, s, ts, old = start(I, "fwsmSemantics")
    a = arg(I, TIp(), "a")
    r = I.force(I.call_method(s, "name", [rec(I, {"address": a, "hostname": arg(I, TStr(nonempty=True), "n"), "description": None})], {}))
    x = I.force(I.getattr(r, "address"))
    I.p.prove(isinstance(x, SIp) and zt(z3.And(x.is6 == a.is6, x.val == a.val)), "name: the stated address")


def text(rule, cls):
    def fn(I):
        """the address an address text denotes"""
        p = I.p
        t = arg(I, TStr(nonempty=True), "t")
        try:
            r = I.force(I.call_method(with_class_sem(I, cls), rule, [t], {}))
        except PyExc:
            outcome(I, "refused")
            p.prove(z3.Not(lib.f_ipok(t.t)), f"{rule}: an address is accepted")
            return
        outcome(I, "end")
        p.prove(isinstance(r, SIp) and zt(z3.And(lib.f_ipok(t.t), r.is6 == lib.f_ip6(t.t), r.val == lib.f_ipval(t.t))), f"{rule}: the address the text denotes")

    return fn


def with_class_sem(I, cls):
    return I.construct(I.prog.classes[cls], [Opaque("parser")], {})


def proofs():
    out = [Proof(f"network with a {k}", network(k), ["Network.__init__"], ["end"]) for k in MASKS]
    out.append(Proof("host", nethost, ["NetworkHost.__init__"], ["end"]))
    kinds = ["host", *[f"subnet {k}" for k in MASKS], "range", "fqdn", "none", "other"]
    for k in kinds:
        need = ["end"] + (["refused"] if k == "range" else [])
        out.append(Proof(f"object by {k}", obj(k, by_ctor, "constructor"), ["NetworkObject.__init__"], need))
        for c in SEMS:
            out.append(Proof(f"object by {k} ({c[:-9]})", obj(k, by_action(c), c[:-9]), ["NetworkObject.__init__", f"{c}.object_type"], need, types=NAT))
    for k in ["host", *[f"network {k}" for k in MASKS], "object", "group"]:
        for c in SEMS:
            out.append(Proof(f"group member {k} ({c[:-9]})", member(k, c), [f"{c}.network_group_object", f"{c}._resolve_addr"], ["end"], types=PARSER))
    for c in SEMS:
        for r in ("ip4", "ip6"):
            out.append(Proof(f"{r} ({c[:-9]})", text(r, c), [f"{c}.{r}"], ["end", "refused"]))
    out.append(Proof("name", name_def, ["fwsmSemantics.name", "Name.__init__"], types=PARSER))
    return out
