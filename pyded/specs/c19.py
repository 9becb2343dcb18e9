"""C19: pfSense aliases and interfaces are translated completely.

_parse_aliases     loop over the aliases: one step from any state, per kind, adds one group of the stated name and kind to the
                   result and enters it under its name; its members are compared with the pieces of the stated text, for one
                   arbitrary piece (every number of pieces).  Values of an alias: loop over its children, a child sets the
                   value of its tag.
_parse_interfaces  loop over the interfaces: one step adds one interface and enters it under its display name, which is entered
                   under the internal one; static IPv4 address and prefix.
"""
from .xmlspec import *
from .c18 import TYPES, parser, piece, literal, port_value, isa_

ALIAS = {"name": Text(nonempty=True), "type": Text(nonempty=True), "descr": TOpt(TStr(nonempty=True)), "address": TOpt(TStr(nonempty=True)), "url": Text(nonempty=True)}
ALIAS_ALWAYS = ("name", "type", "address", "url")
GROUPS = {"host": ("NetworkGroup", "network_groups"), "network": ("NetworkGroup", "network_groups"), "urltable": ("NetworkGroup", "network_groups"), "port": ("PortGroup", "port_groups")}
IFACE = {k: TOpt(TStr(nonempty=True)) for k in ("descr", "ipaddr", "subnet", "alias", "name")}
IFACE["if"] = Text(nonempty=True)
IFACE_ALWAYS = ("if",)
DYNAMIC = ("dhcp", "pppoe", "pptp", "l2tp", "ppp")


def values_loop(I, st, fr, e, types, always, what):
    """the loop that reads the values of e: any state before and after; one step sets the value of the tag to the text"""
    p = I.p
    dicts, vs = state_of(I, st, fr)
    if len(dicts) != 1 or vs:
        raise Unsupported(f"state of the loop over the values of an {what}")
    (d,) = dicts.values()
    if p.choose(2, "step") == 0:
        havoc_dict(I, d, what, {}, ())
        c = p.member(e.segs[0])
        p.wlog.clear()
        try:
            step(I, st, fr, c)
        except PyExc as x:
            p.fail(f"{what}: values are accepted", str(x))
        w = p.content(d)[1:]
        outcome(I, "value")
        p.prove(len(w) == 1 and zt(I.eq(w[0].v[0], c.tag)), f"{what}: a child sets the value of its tag only")
        p.prove(zt(I.eq(I.force(I.lazy(w[0].v[1])), text(I, c))), f"{what}: the value is the text of the child")
        for x in p.wlog:
            if not I.is_new(x[1]):
                p.fail(f"{what}: reading the values changes nothing else", f"{x[0]} {x[1]}")
        raise Stop()
    havoc_dict(I, d, what, types, always)
    p.notes["values"] = p.content(d)[0]
    p.notes["values so far"] = d
    return None


def value(I, k):
    s = I.p.notes["values"]
    if not I.tr(s.has(I, k)):
        return None
    return s.get(I, k)


def items_loop(I, root, what, types, always, assume, check, refused, method):
    """one step of the loop over the children of root; check(ps, e, added item, tables before)"""
    p = I.p
    ps = parser(I)
    done = []

    def hook(I, st, fr, it):
        if done:
            if not over(I, it, done[0]) or p.notes.get("values") is not None:
                return NotImplemented
            r = values_loop(I, st, fr, done[0], types, always, what)
            assume(I)
            return r
        if not over(I, it, root):
            return NotImplemented
        lists = [v for v in map(I.force, fr.locals.values()) if isinstance(v, HList) and I.is_new(v.oid)]
        if len(lists) != 1:
            raise Unsupported(f"state of the loop over every {what}")
        l = lists[0]
        p.prove(p.content(l) == (), f"{what}: nothing is found before the first one")
        old = TList(TObj("NetworkGroup", "PortGroup", "Interface")).seg(I, "found so far")
        p.heap[l.oid] = (old,)
        e = p.member(root.segs[0])
        done.append(e)
        p.wlog.clear()
        tables = {t: p.content(I.getattr(ps, t)) for t in ("network_groups", "port_groups", "interfaces", "interface_map")}
        try:
            step(I, st, fr, e)
        except PyExc as x:
            outcome(I, "refused")
            refused(I, ps, e, x)
            raise Stop()
        now = I.resolve(p.content(l))
        outcome(I, "end")
        ok = len(now) == 2 and now[0] is old and isinstance(now[1], Elem)
        p.prove(ok, f"{what}: is added after those before it", repr(now))
        check(I, ps, e, I.force(I.lazy(now[1].v)), tables)
        mine = {l.oid} | {I.getattr(ps, t).oid for t in tables}
        for x in p.wlog:
            if not I.is_new(x[1]) and x[1] not in mine and x[0] != "event":
                p.fail(f"{what}: nothing else is changed", f"{x[0]} {x[1]}")
        raise Stop()

    I.for_hook = hook
    try:
        I.call_method(ps, method, [root], {})
    except Stop:
        return
    raise Unsupported(f"no loop over every {what}")


def entered(I, ps, t, key, g, before, name):
    """the table has g under key, all its other entries are those it had"""
    p = I.p
    now = p.content(I.getattr(ps, t))
    p.prove(zt(same_or_eq(I, I.dict_get_segs(now, key, lambda: None), g)), f"{name}: is found under its name")
    others(I, now, before[t], [key], name)


def others(I, now, was, keys, name):
    p = I.p
    k = arg(I, TStr(), "any name")
    for x in keys:
        p.assume(z3.Not(zt(I.eq(k, x))))
    a, b = I.dict_get_segs(now, k, lambda: None), I.dict_get_segs(was, k, lambda: None)
    p.prove(zt(same_or_eq(I, a, b)), f"{name}: no other entry of the tables is affected")


def same_or_eq(I, a, b):
    a, b = I.force(I.lazy(a)), I.force(I.lazy(b))
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, Obj) or isinstance(b, Obj):
        return isinstance(a, Obj) and isinstance(b, Obj) and I.same(a, b)
    return I.eq(a, b)


# ---------------------------------------------------------------- members
def host_member(I, o, e):
    """a member for the piece: the address, or any if it is not one"""
    if I.p.branch(lib.f_ipok(I.zstr(e))):
        return ip_member(I, o, e)
    return isa_(I, o, "NetworkAny")


def ip_member(I, o, e):
    if not isa_(I, o, "NetworkHost"):
        return False
    x, t = I.getattr(o, "address"), I.zstr(e)
    return z3.And(x.is6 == lib.f_ip6(t), x.val == lib.f_ipval(t))


def piece_ok(I, kind, e):
    t = I.zstr(e)
    if kind == "network":
        return z3.And(z3.Contains(t, z3.StringVal("/")), zt(literal(I, t)[0]))
    if kind == "port":
        return zt(port_value(I, t, ":")[0])
    return z3.BoolVal(True)


def member_is(I, kind, o, e):
    if kind == "host":
        return host_member(I, o, e)
    t = I.zstr(e)
    ok, chk = literal(I, t) if kind == "network" else port_value(I, t, ":")
    if kind == "network" and not I.tr(z3.Contains(t, z3.StringVal("/"))):
        return isa_(I, o, "NetworkHost") and zt(chk(o))
    return z3.And(zt(ok), zt(chk(o)))


def alias(kind):
    name = f"alias of kind {kind}"

    def assume(I):
        t = I.zstr(value(I, "type"))
        if kind == "other":
            for k in GROUPS:
                I.p.assume(t != z3.StringVal(k))
        else:
            I.p.assume(t == z3.StringVal(kind))

    def pieces(I):
        a = value(I, "address")
        return () if a is None else I.segs_of(lib.split_sym(I, a, " "))

    def refused(I, ps, e, x):
        p = I.p
        if kind in ("other", "urltable", "host"):
            p.prove(kind == "other", f"{name}: is accepted", str(x))
            return
        bad = []
        for s in pieces(I):
            vs = [s.v] if isinstance(s, Elem) else p.members.get(s.key, [])
            bad += [z3.Not(piece_ok(I, kind, v)) for v in vs]
        p.prove(z3.Or(*bad) if bad else False, f"{name}: is accepted if all its members are possible", str(x))

    def check(I, ps, e, g, before):
        p = I.p
        p.prove(kind != "other", f"{name}: is refused")
        cls, table = GROUPS[kind]
        n, d = value(I, "name"), value(I, "descr")
        p.prove(isa_(I, g, cls) and g.ref < 0, f"{name}: a new group of the kind")
        p.prove(zt(I.eq(I.getattr(g, "name"), n)), f"{name}: name")
        p.prove(zt(I.eq(I.getattr(g, "description"), "" if d is None else lib.h_unescape(I, d))), f"{name}: description")
        if kind == "port":
            p.prove(zt(I.eq(I.getattr(I.getattr(g, "protocol"), "name"), "any")), f"{name}: of any protocol")
        entered(I, ps, table, n, g, before, name)
        for t in before:
            if t != table:
                p.prove(p.content(I.getattr(ps, t)) == before[t], f"{name}: no other table is affected")
        got = p.content(I.getattr(g, "objects"))
        if kind == "urltable":
            return lines(I, ps, got)
        same_seq(I, got, pieces(I), name, same=lambda I, a, b: zt(member_is(I, kind, a, b)), what="one member per listed value, in order")

    def lines(I, ps, got):
        p = I.p
        if not I.truth(I.getattr(I.getattr(ps, "_options"), "fetch_urltable")):
            outcome(I, "unread")
            got = I.resolve(got)
            p.prove(len(got) == 1 and isinstance(got[0], Elem) and isa_(I, I.force(I.lazy(got[0].v)), "NetworkAny"), f"{name}: an unread table is anything")
            return
        if not p.notes.get("data"):
            outcome(I, "unreachable")
            return
        outcome(I, "read")
        want = I.resolve(I.segs_of(lib.split_sym(I, p.notes["data"][0], "\n")))
        if isinstance(want[0], Elem):
            one(I, want[0].v, I.resolve(got))
            return
        p.prove(len(got) == 1 and not isinstance(got[0], Elem) and src_of(got[0]).key == want[0].key, f"{name}: the members are those of the lines, in order", repr(got))
        e = p.member(want[0])
        one(I, e, I.resolve(contrib(p, got[0], e)))

    def one(I, e, c):
        p = I.p
        p.prove(len(c) <= 1 and all(isinstance(x, Elem) for x in c), f"{name}: one member per line at most")
        t = SStr(lib.f_strip(e.t))
        if c:
            p.prove(line(I, c[0].v, t), f"{name}: the member is the stated line")
        else:
            outcome(I, "skipped")
            p.prove(z3.Not(z3.And(z3.Not(z3.Contains(t.t, z3.StringVal("/"))), lib.f_ipok(t.t))), f"{name}: an address is a member")
            has, a, b, s = piece(t.t, "/")
            bits = lib.f_ipval(a) & lib.f_nethost(lib.f_ip6(a), b)
            p.prove(z3.Not(z3.And(has, z3.Not(z3.Contains(b, s)), lib.f_ipok(a), lib.f_netok(lib.f_ip6(a), b), bits == 0)), f"{name}: a network is a member")

    def line(I, o, t):
        o = I.force(I.lazy(o))
        return zt(literal(I, t.t)[1](o))

    def urlopen(I, args, kwargs):
        """contract of urllib.request.urlopen: an exception, or an answer with a text of any content"""
        p = I.p
        if p.choose(2, "urlopen") == 0:
            raise PyExc(OSError, "url")
        p.prove(zt(I.eq(I.force(args[0]), value(I, "url"))), f"{name}: the stated table is read")
        data = arg(I, TStr(), "table")
        raw, ans = Opaque("bytes"), Opaque("answer")
        raw.methods = {"decode": lambda I, a, k: data}
        ans.methods = {"read": lambda I, a, k: raw}
        p.notes["data"] = (data,)
        return ans

    def fn(I):
        I.contracts[("lib", "urllib.request.urlopen")] = urlopen
        items_loop(I, element(I, "aliases", "aliases"), "alias", ALIAS, ALIAS_ALWAYS, assume, check, refused, "_parse_aliases")

    return fn


# ---------------------------------------------------------------- interfaces
def interface(opt, kind):
    """opt: an optional interface (opt1, ...); kind of address: static, dynamic, none"""
    name = f"{'optional ' if opt else ''}interface with {kind} address"

    def assume(I):
        p = I.p
        a = value(I, "ipaddr")
        if kind == "none":
            p.assume(zt(a is None))
            return
        p.assume(zt(a is not None))
        isd = z3.Or(*[I.zstr(a) == z3.StringVal(x) for x in DYNAMIC])
        p.assume(isd if kind == "dynamic" else z3.Not(isd))
        if kind == "static":
            p.assume(I.p.notes["values"].has(I, "subnet"))

    def refused(I, ps, e, x):
        if kind != "static":
            I.p.fail(f"{name}: is accepted", str(x))
        a, m = value(I, "ipaddr"), value(I, "subnet")
        if m is None:
            return
        t = I.zstr(a)
        I.p.prove(z3.Not(z3.And(lib.f_ipok(t), lib.f_netok(lib.f_ip6(t), I.zstr(m)))), f"{name}: is accepted", str(x))

    def check(I, ps, e, o, before):
        p = I.p
        p.prove(isa_(I, o, "Interface"), f"{name}: an interface")
        d = value(I, "descr")
        un = None if d is None else lib.h_unescape(I, d)
        disp = un if opt and d is not None else e.tag
        p.prove(zt(I.eq(I.getattr(o, "alias"), disp)), f"{name}: display name")
        if not opt:
            p.prove(zt(I.eq(I.getattr(o, "description"), "" if d is None else un)), f"{name}: description")
        ad = I.resolve(p.content(I.getattr(o, "addresses")))
        if kind == "static":
            p.prove(len(ad) == 1 and isinstance(ad[0], Elem), f"{name}: one address")
            x = I.getattr(I.force(I.lazy(ad[0].v)), "interface")
            if value(I, "subnet") is None:
                p.fail(f"{name}: an address without prefix is refused")
            t, m = I.zstr(value(I, "ipaddr")), I.zstr(value(I, "subnet"))
            ip, net = I.getattr(x, "ip"), I.getattr(x, "network")
            h = lib.f_nethost(lib.f_ip6(t), m)
            p.prove(z3.And(ip.is6 == lib.f_ip6(t), ip.val == lib.f_ipval(t), net.host == h, net.num == ip.val & ~h), f"{name}: address and prefix")
        else:
            p.prove(ad == (), f"{name}: no static address")
        entered(I, ps, "interfaces", disp, o, before, name)
        entered(I, ps, "interface_map", e.tag, disp, before, name)
        for t in ("network_groups", "port_groups"):
            p.prove(p.content(I.getattr(ps, t)) == before[t], f"{name}: no other table is affected")

    def fn(I):
        p = I.p
        root = element(I, "interfaces", "interfaces")

        def hypo(I):
            e = p.members[root.segs[0].key][-1]
            p.assume(z3.PrefixOf(z3.StringVal("opt"), e.tag.t) == opt)
            p.assume(lib.f_unesc(e.tag.t) == e.tag.t)  # trusted: no & in the name of an element
            assume(I)

        items_loop(I, root, "interface", IFACE, IFACE_ALWAYS, hypo, check, refused, "_parse_interfaces")

    return fn


def end(method, what):
    """after the last one: what was found is the result, the tables are left as they are"""

    def fn(I):
        p = I.p
        ps = parser(I)
        root = element(I, "root")
        done = []

        def hook(I, st, fr, it):
            if done or not over(I, it, root):
                return NotImplemented
            lists = [v for v in map(I.force, fr.locals.values()) if isinstance(v, HList) and I.is_new(v.oid)]
            if len(lists) != 1:
                raise Unsupported(f"state of the loop over every {what}")
            done.append(TList(TObj("NetworkGroup", "PortGroup", "Interface")).seg(I, "found so far"))
            p.heap[lists[0].oid] = (done[0],)

        I.for_hook = hook
        r = I.force(I.call_method(ps, method, [root], {}))
        if not done:
            raise Unsupported(f"no loop over every {what}")
        frame_ok(I, what)
        outcome(I, "end")
        p.prove(tuple(I.resolve(I.segs_of(r))) == (done[0],), f"{what}: all that were found, in order")

    return fn


def proofs():
    A = ["pfsenseParser._parse_aliases", "_Group.__init__", "_Group.add"]
    extra = {"host": ["NetworkHost.__init__"], "network": ["Network.__init__"], "port": ["Port.__init__", "PortRange.__init__"], "urltable": ["Network.__init__", "NetworkHost.__init__"], "other": []}
    need = {"host": ["end", "value"], "network": ["end", "refused"], "port": ["end", "refused"], "urltable": ["end", "read", "unread", "unreachable", "skipped"], "other": ["refused"]}
    out = [Proof(f"alias: {k}", alias(k), A + extra[k], need[k], types=TYPES) for k in extra]
    for opt in (False, True):
        for k in ("static", "dynamic", "none"):
            out.append(Proof(f"interface: {'opt ' if opt else ''}{k}", interface(opt, k), ["pfsenseParser._parse_interfaces", "Interface.__init__", "InterfaceAddress.__init__"], ["end", "value"] + ["refused"] * (k == "static"), types=TYPES))
    out.append(Proof("aliases: the result", end("_parse_aliases", "alias"), A[:1], ["end"], types=TYPES))
    out.append(Proof("interfaces: the result", end("_parse_interfaces", "interface"), ["pfsenseParser._parse_interfaces"], ["end"], types=TYPES))
    return out
