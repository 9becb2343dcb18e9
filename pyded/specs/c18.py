"""C18: pfSense rules keep their action, interface, addresses and options.

_parse_filter__rule   loop over the children of the rule: from any state, a child with tag t changes the value of t only, to
                      the stated one (text; ACLNode of address and port; ...); the ignored ones change nothing; any other tag
                      is refused.  Before the first child: the defaults.  After the last one, from any state: the rule
                      is made of the values.
  endpoint            loop over the children of source/destination: any/address/network set the address, port the port,
                      any other tag is refused; the node is made of the two.
_parse_filter         loop over the children of filter: one rule is appended per rule, in order; another tag is refused.
parse                 the sections are read in an order in which names are known before they are used, all items are kept
"""
from .xmlspec import *
from .c13 import PARSER

TEXTS = ("tracker", "type", "interface", "floating", "direction", "quick", "protocol", "disabled", "statetype")
IGNORED = ("id", "ipprotocol", "tag", "tagged", "max", "max-src-nodes", "max-src-conn", "max-src-states", "statetimeout", "os")
DATES = ("created", "updated")
ENDS = ("source", "destination")
KNOWN = TEXTS + ("descr", "log", "icmptype") + IGNORED + DATES + ENDS
HOSTS = ("NetworkAny", "NetworkGroup", "Network", "NetworkHost", "NetworkInterface")
SLOTS = {
    **{t: Text(nonempty=True) for t in TEXTS}, "disabled": TOpt(TStr(nonempty=True)), "descr": AnyText(), "log": TConst(True),
    **{t: Date() for t in DATES}, **{t: Inst("ACLNode") for t in ENDS},
}
ALWAYS = ("type", "interface", "direction")
TYPES = {
    **PARSER, ("pfsenseParser", "interface_map"): TMap(TStr(nonempty=True)), ("ACLNode", "host"): TObj(*HOSTS),
    ("aclParser", "network_groups"): TMap(TObj("NetworkGroup")), ("aclParser", "port_groups"): TMap(TObj("PortGroup")),
    ("pfsenseParser", "_options"): TObj("pfsenseParserOptions"), ("pfsenseParserOptions", "fetch_urltable"): TBool(),
}


def parser(I):
    return with_class(I, "parser", "pfsenseParser")


# ---------------------------------------------------------------- what an endpoint says
def lookup(I, ps, table, key):
    d = I.getattr(ps, table)
    return I.dict_get_segs(I.p.content(d), key, lambda: None)


def piece(t, sep):
    s = z3.StringVal(sep)
    i = z3.IndexOf(t, s, 0)
    return z3.Contains(t, s), z3.SubString(t, 0, i), z3.SubString(t, i + 1, z3.Length(t)), s


def address_ok(I, ps, tag, tx):
    """(accepted, check of the address object) for a child of an endpoint"""
    p = I.p
    if tag == "any":
        return True, lambda o: isa(I, o, "NetworkAny")
    if tx is None:
        return False, None
    if tag == "network":
        n = lookup(I, ps, "interface_map", tx)
        n = tx if n is None else n
        i = lookup(I, ps, "interfaces", n)
        if i is None:
            return False, None
        return True, lambda o: z3.And(isa(I, o, "NetworkInterface"), zt(I.eq(I.getattr(o, "name"), I.getattr(i, "alias"))))
    g = lookup(I, ps, "network_groups", tx)
    if g is not None:
        return True, lambda o: zt(I.same(o, g))
    return literal(I, tx.t)


def literal(I, t):
    has, a, b, s = piece(t, "/")
    if I.p.branch(has):
        ok = z3.And(z3.Not(z3.Contains(b, s)), lib.f_ipok(a), lib.f_netok(lib.f_ip6(a), b))

        def net(o):
            if not isa_(I, o, "Network"):
                return z3.BoolVal(False)
            n = I.getattr(o, "network")
            h = lib.f_nethost(lib.f_ip6(a), b)
            return z3.And(n.is6 == lib.f_ip6(a), n.num == lib.f_ipval(a) & ~h, n.host == h, zt(I.getattr(o, "target") is None))

        return ok, net

    def host(o):
        if not isa_(I, o, "NetworkHost"):
            return z3.BoolVal(False)
        x = I.getattr(o, "address")
        return z3.And(x.is6 == lib.f_ip6(t), x.val == lib.f_ipval(t), zt(I.getattr(o, "target") is None))

    return lib.f_ipok(t), host


def isa_(I, o, cls):
    return isinstance(o, Obj) and I.classes_of(o) == {cls}


def isa(I, o, cls):
    return z3.BoolVal(isa_(I, o, cls))


def port_value(I, t, sep):
    """(accepted, check) of a port or, with a separator, a range"""
    has, a, b, s = piece(t, sep)
    if I.p.branch(has):
        ok = z3.And(z3.Not(z3.Contains(b, s)), z3.Or(z3.Not(lib.f_intok(a)), z3.Not(lib.f_intok(b)), lib.f_int(a) < lib.f_int(b)))
        return ok, lambda o: isa_(I, o, "PortRange") and z3.And(I.zstr(I.getattr(o, "start")) == a, I.zstr(I.getattr(o, "stop")) == b)
    return True, lambda o: isa_(I, o, "Port") and z3.And(zt(I.eq(I.getattr(o, "op"), "eq")), I.zstr(I.getattr(o, "num")) == t)


def port_ok(I, ps, tx):
    if tx is None:
        return False, None
    g = lookup(I, ps, "port_groups", tx)
    if g is not None:
        return True, lambda o: zt(I.same(o, g))
    return port_value(I, tx.t, "-")


EADDR = TOpt(TObj(*HOSTS))
EPORT = TOpt(TObj("Port", "PortRange", "PortGroup"))


def slots_of_endpoint(I, st, fr, vs, child):
    """(address, port) of the loop over the children of an endpoint: the variable a <port> child sets is the port"""
    p = I.p
    if len(vs) != 2:
        raise Unsupported("state of the loop over the children of an endpoint")

    def one():
        loc = dict(fr.locals)
        try:
            for n in vs:
                fr.locals[n] = None
            try:
                step(I, st, fr, tagged(I, p.member(child.segs[0]), "port"))
            except PyExc:
                return ()
            return tuple(n for n in vs if I.lookup(n, fr) is not None)
        finally:
            fr.locals.clear()
            fr.locals.update(loc)

    ports = {n for x in p.subexplore(one) for n in x}
    rest = [n for n in vs if n not in ports]
    if len(ports) != 1:
        p.fail("endpoint: a port is a value of its own", str(ports))
    return rest[0], ports.pop()


def endpoint_loop(I, st, fr, ps, tag, child):
    """tag: of the child considered, None: the loop as a whole (then the node is made of any two values)"""
    p = I.p
    dicts, vs = state_of(I, st, fr)
    a, b = slots_of_endpoint(I, st, fr, vs, child)
    p.prove(vs[b] is None and (vs[a] is None or isa_(I, vs[a], "NetworkAny")), "endpoint: before the first child nothing is stated")
    av, bv = arg(I, EADDR, "address so far"), arg(I, EPORT, "port so far")
    if tag is None:
        p.assume(av.ref >= 0) if av is not None else None
        fr.locals[a], fr.locals[b] = av, bv
        p.notes["endpoint"] = (av, bv)
        return None
    fr.locals[a], fr.locals[b] = av, bv
    e = p.member(child.segs[0])
    if tag == "other":
        for t in ("any", "address", "network", "port"):
            p.assume(e.tag.t != z3.StringVal(t))
    else:
        tagged(I, e, tag)
    w0 = len(p.wlog)
    tx = text(I, e)
    spec = (False, None) if tag == "other" else port_ok(I, ps, tx) if tag == "port" else address_ok(I, ps, tag, tx)
    ok, check = spec
    name = f"endpoint <{tag}>"
    try:
        step(I, st, fr, e)
    except PyExc:
        outcome(I, "refused")
        p.prove(z3.Not(zt(ok)), f"{name}: a possible one is accepted")
        raise Stop()
    outcome(I, "end")
    p.prove(zt(ok), f"{name}: an impossible one is refused")
    now = {n: I.lookup(n, fr) for n in (a, b)}
    mine, other, ov = (b, a, av) if tag == "port" else (a, b, bv)
    p.prove(zt(now[other] is None if ov is None else now[other] is not None and I.same(now[other], ov)), f"{name}: the other part is kept")
    p.prove(zt(check(now[mine])), f"{name}: is what it states")
    for x in p.wlog[w0:]:
        if not I.is_new(x[1]):
            p.fail(f"{name}: nothing else is changed", f"{x[0]} {x[1]}")
    raise Stop()


# ---------------------------------------------------------------- the children of a rule
def rule_step(tag, inner=None):
    def fn(I):
        p = I.p
        ps = parser(I)
        root = element(I, "rule", "rule")
        done = []

        def hook(I, st, fr, it):
            if done:
                c = done[0]
                if tag in ENDS and over(I, it, c):
                    return endpoint_loop(I, st, fr, ps, inner, c)
                if tag in DATES and over(I, it, c):
                    return dates(I, st, fr, c, tag)
                return NotImplemented
            if not over(I, it, root):
                return NotImplemented
            dicts, vs = state_of(I, st, fr)
            if len(dicts) != 1 or len(vs) != 1:
                raise Unsupported("state of the loop over the children of a rule")
            (d,), (v,) = dicts.values(), vs
            havoc_dict(I, d, "values", SLOTS, ALWAYS)
            icmp = arg(I, TOpt(TObj("ICMP")), "icmp so far")
            fr.locals[v] = icmp
            e = p.member(root.segs[0])
            if tag == "other":
                for t in KNOWN:
                    p.assume(e.tag.t != z3.StringVal(t))
            else:
                tagged(I, e, tag)
            done.append(e)
            p.notes["dict"] = d
            p.wlog.clear()
            name = f"rule <{tag}>"
            try:
                step(I, st, fr, e)
            except PyExc as x:
                outcome(I, "refused")
                if tag == "other":
                    p.prove(True, f"{name}: an unknown element is refused")
                elif tag in ENDS:
                    p.prove(p.notes.get("endpoint", (0, 0))[0] is None, f"{name}: an endpoint with an address is accepted")
                elif tag not in DATES:
                    p.fail(f"{name}: is accepted", str(x))
                raise Stop()
            if tag == "other":
                p.fail(f"{name}: an unknown element is refused")
            w = written(I, d)
            now = I.lookup(v, fr)
            for x in p.wlog:
                if not I.is_new(x[1]):
                    p.fail(f"{name}: nothing else is changed", f"{x[0]} {x[1]}")
            if tag == "icmptype":
                p.prove(isa_(I, now, "ICMP"), f"{name}: the type of message")
                p.prove(zt(I.eq(I.getattr(now, "type"), text(I, e))), f"{name}: the type of message")
                p.prove(I.getattr(now, "code") is None, f"{name}: no code")
            else:
                p.prove(zt(now is None if icmp is None else now is not None and I.same(now, icmp)), f"{name}: the type of message is kept")
            p.prove(set(w) <= ({tag} if tag not in IGNORED + ("icmptype",) else set()), f"{name}: other values are kept", str(set(w)))
            outcome(I, "end")
            tx = text(I, e)
            if tag in TEXTS:
                p.prove(tag in w and zt(I.eq(w[tag], tx)), f"{name}: the stated text") if tx is not None else p.prove(tag in w and w[tag] is None, f"{name}: the stated text")
            elif tag == "descr":
                p.prove(zt(I.eq(w.get(tag), "" if tx is None else SStr(lib.f_unesc(tx.t)))), f"{name}: the unescaped text")
            elif tag == "log":
                p.prove(w.get(tag) is True, f"{name}: is logged")
            elif tag in ENDS:
                o = w.get(tag)
                a, b = p.notes.get("endpoint", (0, 0))
                p.prove(isa_(I, o, "ACLNode"), f"{name}: an ACLNode")
                h, q = I.getattr(o, "host"), I.getattr(o, "port")
                p.prove(zt(isa_(I, h, "NetworkAny") if a is None else I.same(h, a)), f"{name}: the stated address")
                p.prove(zt(q is None if b is None else q is not None and I.same(q, b)), f"{name}: the stated port")
            elif tag in DATES and tag in w:
                p.prove(isinstance(w[tag], lib.SDate) and w[tag].kind == "datetime", f"{name}: a point in time")
            raise Stop()

        I.for_hook = hook
        try:
            I.call_method(ps, "_parse_filter__rule", [root, lib.SDate("datetime", {})], {})
        except Stop:
            return
        raise Unsupported("no loop over the children of the rule")

    return fn


def dates(I, st, fr, c, tag):
    """one child of created/updated: changes no value but the one of the record"""
    p = I.p
    d = p.notes["dict"]
    if p.choose(2, "record") == 0:
        return None
    e = p.member(c.segs[0])
    step(I, st, fr, e)
    w = written(I, d)
    outcome(I, "record")
    p.prove(set(w) <= {tag} and all(isinstance(x, lib.SDate) and x.kind == "datetime" for x in w.values()), f"rule <{tag}>: records change the date only")
    raise Stop()


def rule_init(I):
    """the values before the first child"""
    p = I.p
    ps = parser(I)
    root = element(I, "rule", "rule")

    def hook(I, st, fr, it):
        if not over(I, it, root):
            return NotImplemented
        dicts, vs = state_of(I, st, fr)
        if len(dicts) != 1 or len(vs) != 1:
            raise Unsupported("state of the loop over the children of a rule")
        p.prove(list(vs.values()) == [None], "before the first child: no type of message")
        raise Stop()

    I.for_hook = hook
    try:
        I.call_method(ps, "_parse_filter__rule", [root, lib.SDate("datetime", {})], {})
    except Stop:
        return
    raise Unsupported("no loop over the children of the rule")


def rule_end(empty, case=None):
    """after the last child; empty: there was none but those every rule has; case: (floating?, disabled?)"""

    def fn(I):
        p = I.p
        ps = parser(I)
        root = element(I, "rule", "rule")
        st8 = {}

        def hook(I, st, fr, it):
            if st8 or not over(I, it, root):
                return NotImplemented
            dicts, vs = state_of(I, st, fr)
            if len(dicts) != 1 or len(vs) != 1:
                raise Unsupported("state of the loop over the children of a rule")
            (d,), (v,) = dicts.values(), vs
            ini = havoc_dict(I, d, "values", {k: t for k, t in SLOTS.items() if not empty or k in ALWAYS}, ALWAYS)
            st8["d"] = p.content(d)[0]
            st8["icmp"] = icmp = None if empty else arg(I, TOpt(TObj("ICMP")), "icmp so far")
            fr.locals[v] = icmp
            st8["ini"] = ini
            if case:
                p.assume(st8["d"].has(I, "disabled") == case[1])
                fl = st8["d"].get(I, "floating") if p.branch(st8["d"].has(I, "floating")) else "no"
                p.assume(zt(I.eq(fl, "yes")) == case[0])
            p.wlog.clear()

        I.for_hook = hook
        r = I.force(I.call_method(ps, "_parse_filter__rule", [root, lib.SDate("datetime", {})], {}))
        if not st8:
            raise Unsupported("no loop over the children of the rule")
        s = st8["d"]
        frame_ok(I, "rule")

        def val(k, default):
            """what was stated last, else the default"""
            if (empty and k not in ALWAYS) or not p.branch(s.has(I, k)) or (s.keeps(I, k) and p.branch(s.kept(k))):
                return default
            return s.get(I, k)

        eq = lambda x, y: zt(I.eq(x, y))
        p.prove(isa_(I, r, "ACLRule"), "rule: an ACLRule")
        opts = I.getattr(r, "options")
        keys = {}
        for e in p.content(opts):
            if not isinstance(e, Elem):
                raise Unsupported("options of the rule")
            keys[e.v[0]] = I.force(I.lazy(e.v[1]))
        want = {"xref"}
        p.prove(eq(keys.get("xref"), val("tracker", -1)), "rule: tracker")
        imap = I.getattr(ps, "interface_map")
        floating = val("floating", "no")
        yes = p.branch(zt(I.eq(floating, "yes")))
        iface = val("interface", None)
        if yes:
            outcome(I, "floating")
            want.add("floating")
            p.prove(eq(I.getattr(r, "id"), "floating"), "rule: a floating rule is one of 'floating'")
            o = keys.get("floating")
            p.prove(isa_(I, o, "ACLRuleOptionInterface"), "rule: interfaces of a floating rule")
            p.prove(eq(I.getattr(o, "direction"), val("direction", None)), "rule: direction of a floating rule")
            names(I, I.getattr(o, "interfaces"), lib.split_sym(I, iface, ","), imap)
        else:
            n = I.dict_get(imap, iface, lambda: iface)
            p.prove(eq(I.getattr(r, "id"), n), "rule: display name of the interface")
        t = val("type", None)
        p.prove(eq(I.getattr(r, "mode"), "permit") == eq(t, "pass"), "rule: pass is permit")
        p.prove(z3.Or(eq(I.getattr(r, "mode"), "permit"), eq(I.getattr(r, "mode"), "deny")), "rule: anything else is deny")
        pr = I.getattr(r, "protocol")
        p.prove(isa_(I, pr, "Protocol"), "rule: protocol")
        p.prove(eq(I.getattr(pr, "name"), val("protocol", "any")), "rule: protocol")
        for k, f in (("source", "src"), ("destination", "dst")):
            n = I.getattr(r, f)
            if empty:
                p.prove(isa_(I, n, "ACLNode") and isa_(I, I.getattr(n, "host"), "NetworkAny") and I.getattr(n, "port") is None, f"rule: an absent {k} means any")
            else:
                p.prove(zt(I.same(n, val(k, None))), f"rule: {k}")
        if p.branch(s.has(I, "disabled")):
            want.add("inactive")
            p.prove(isa_(I, keys.get("inactive"), "ACLRuleOptionInActive"), "rule: disabled is inactive")
        if val("log", False) is True:
            want.add("log")
            p.prove(isa_(I, keys.get("log"), "ACLRuleOptionLog"), "rule: log")
        stt = val("statetype", "keep state")
        if not p.branch(zt(I.eq(stt, "keep state"))):
            want.add("statetype")
            p.prove("statetype" in keys and eq(keys["statetype"], stt), "rule: state type")
        p.prove(set(keys) == want, "rule: no other option", f"{set(keys)} {want}")
        i = I.getattr(r, "icmp")
        p.prove(zt(i is None if st8["icmp"] is None else i is not None and I.same(i, st8["icmp"])), "rule: type of message")
        rem = I.resolve(I.segs_of(I.getattr(r, "remark")))
        p.prove(len(rem) == 2 and all(isinstance(x, Elem) for x in rem), "rule: two remarks")
        p.prove(eq(rem[0].v, val("descr", "")), "rule: description")
        for f in ("line", "extended", "head"):
            p.prove(I.getattr(r, f) is None, f"rule: no {f}")
        outcome(I, "end")

    return fn


def names(I, got, parts, imap):
    """the display names of a list of interfaces, in order"""
    name = "rule: display names of the interfaces of a floating rule"
    g, w = I.resolve(I.segs_of(got)), I.resolve(I.segs_of(parts))
    if len(g) != len(w):
        I.p.fail(name, f"{g} {w}")
    for a, b in zip(g, w):
        if isinstance(a, Elem) and isinstance(b, Elem):
            x = b.v
            I.p.prove(zt(I.eq(a.v, I.dict_get(imap, x, lambda: x))), name)
        elif isinstance(a, FM) and isinstance(b, SymSeg) and a.src.key == b.key:
            e = I.p.member(b)
            c = I.resolve(a.fn(I.p, e))
            I.p.prove(len(c) == 1 and zt(I.eq(I.force(I.lazy(c[0].v)), I.dict_get(imap, e, lambda: e))), name)
        else:
            I.p.fail(name, f"{a} {b}")


# ---------------------------------------------------------------- the rules of the file
f_rule = z3.Function("rule_of", z3.StringSort(), Z)


def rule_contract(I, o, args, kwargs):
    """contract of _parse_filter__rule: a rule that is a function of the element"""
    e = I.force(args[0])
    if not isinstance(e, XElem):
        return NotImplemented
    r = TObj("ACLRule").make(I, lambda s, so: z3.Const(f"rule({e.key}){s}", so), f"rule({e.key})")
    return r


SEPS = TAnyMap(TNewList(TObj("ACLCaption")), default=LibV("builtins.list"))


def caption_loop(I, st, fr, it, l, root):
    """a loop of the handling of a separator: any state before, one step, any state after; the rules are kept"""
    p = I.p
    segs = I.segs_of(it)
    if over(I, it, root) or not segs or all(isinstance(s, Elem) for s in segs):
        return NotImplemented
    dicts, vs = state_of(I, st, fr)
    named = {n.id for s in st.body for n in ast.walk(s) if isinstance(n, ast.Name)}
    others = {d.oid for n, d in dicts.items() if n not in named}
    dicts = {n: d for n, d in dicts.items() if n in named}
    if dicts and not vs and all(d.default is None for d in dicts.values()):
        return NotImplemented  # collects values only: summarised like any loop
    one = p.choose(2, "step")
    for n, d in dicts.items():
        p.heap[d.oid] = (AnyMap(("state", n, p._bump()), SEPS),)
    for n, v in vs.items():
        fr.locals[n] = arg(I, TInt() if isinstance(v, (int, SInt)) else TOpt(TStr()), f"{n}!{p._bump()}")
    if not one:
        return None
    e = I.force(lib.pick(I, segs))
    if isinstance(e, tuple) and isinstance(e[0], Opaque):
        e = (arg(I, TInt(0), f"index!{p._bump()}"), *e[1:])
    try:
        step(I, st, fr, e)
    except PyExc:
        pass
    if any(x[1] in others for x in I.p.wlog):
        raise Unsupported("state of the loop over the captions")
    kept(I, l)
    outcome(I, "caption")
    raise Stop()


def kept(I, l):
    for x in I.p.wlog:
        if x[1] == l.oid or not (I.is_new(x[1]) or x[0] == "setattr" and x[2] == "head"):
            I.p.fail("filter <separator>: captions change no rule", f"{x[0]} {x[1]}")
    I.p.prove(True, "filter <separator>: captions change no rule")


def filter_step(kind):
    def fn(I):
        p = I.p
        ps = parser(I)
        root = element(I, "filter", "filter")
        done = []

        def hook(I, st, fr, it):
            if done and kind == "separator":
                return caption_loop(I, st, fr, it, done[0][0], root)
            if done or not over(I, it, root):
                return NotImplemented
            lists = [v for v in map(I.force, fr.locals.values()) if isinstance(v, HList) and I.is_new(v.oid)]
            if len(lists) != 1:
                raise Unsupported("state of the loop over the rules")
            l = lists[0]
            p.prove(p.content(l) == (), "filter: no rule before the first one")
            old = TList(TObj("ACLRule")).seg(I, "rules so far")
            p.heap[l.oid] = (old,)
            done.append((l, old))
            if kind == "end":
                return None
            e = p.member(root.segs[0])
            p.wlog.clear()
            if kind in ("rule", "separator"):
                tagged(I, e, kind)
            else:
                for t in ("rule", "separator"):
                    p.assume(e.tag.t != z3.StringVal(t))
            try:
                step(I, st, fr, e)
            except PyExc as x:
                outcome(I, "refused")
                p.prove(kind != "rule", f"filter <{kind}>: is accepted", str(x))
                raise Stop()
            if kind == "separator":
                kept(I, l)
                outcome(I, "end")
                raise Stop()
            p.prove(kind == "rule", "filter: an unknown element is refused")
            outcome(I, "end")
            now = I.resolve(p.content(l))
            ok = len(now) == 2 and now[0] is old and isinstance(now[1], Elem)
            p.prove(ok and zt(I.same(now[1].v, rule_contract(I, ps, [e], {}))), "filter: the rule is added after those before it", repr(now))
            raise Stop()

        I.for_hook = hook
        try:
            r = I.force(I.call_method(ps, "_parse_filter", [root], {}))
        except Stop:
            return
        if not done:
            raise Unsupported("no loop over the rules")
        frame_ok(I, "filter")
        now = I.resolve(I.segs_of(r))
        outcome(I, "end")
        p.prove(len(now) == 1 and now[0] is done[0][1], "filter: all rules in order", repr(now))

    return fn


# ---------------------------------------------------------------- the sections of the file
SECTIONS = ("revision", "aliases", "interfaces", "filter", "system")
NEEDED = ("aliases", "interfaces", "filter")


def section(tag):
    def c(I, o, args, kwargs):
        """contract of _parse_<section>: some items, a function of the element"""
        e = I.force(args[0])
        if not isinstance(e, XElem):
            return NotImplemented
        I.p.log("event", ("obj", "events"), (tag, e))
        I.p.events.append(Elem((tag, e)))
        return I.p.new_list((items(I, tag, e),))

    return c


def items(I, tag, e):
    return TList(TObj("ACLRule", "NetworkGroup", "PortGroup", "Interface")).seg(I, f"items of {tag} {e.key}")


def sections(I):
    p = I.p
    ps = parser(I)
    root = element(I, "root")
    done = []
    lib_contract = lambda I, args, kwargs: root
    I.contracts[("lib", "xml.etree.ElementTree.fromstring")] = lib_contract

    def config(I, o, args, kwargs):
        done.append(I.force(args[0]))
        return I.new_obj("pfsenseConfig")

    I.contracts[("pfsenseConfig", "__new__")] = config
    good = z3.Or(root.tag.t == z3.StringVal("pfsense"), root.tag.t == z3.StringVal("opnsense"))
    try:
        r = I.force(I.call_method(ps, "parse", [arg(I, TStr(), "data")], {}))
    except PyExc as x:
        outcome(I, "refused")
        p.prove(z3.Not(good), "file: a configuration is accepted", str(x))
        return
    p.prove(good, "file: anything but a configuration is refused")
    p.prove(isa_(I, r, "pfsenseConfig") and len(done) == 1, "file: one configuration")
    outcome(I, "end")
    evs, kept_ = I.resolve(tuple(p.events)), I.resolve(p.content(done[0]))
    pos = {}
    for t in SECTIONS:
        e = tagged(I, p.member(root.segs[0]), t)
        at = []
        for i, ev in enumerate(evs):
            got = I.resolve(contrib(p, ev, e)) if not isinstance(ev, Elem) else ()
            for g in got:
                p.prove(isinstance(g, Elem) and g.v[0] == t and g.v[1] is e, "file: every section is read as what it is", f"{got} {t}")
                at.append(i)
        pos[t] = at
        if t in NEEDED:
            p.prove(len(at) == 1, f"file: {t} are read once", str(at))
            its = [x for s in kept_ if not isinstance(s, Elem) for x in I.resolve(contrib(p, s, e))]
            p.prove(len(its) == 1 and its[0] is items(I, t, e) or len(its) == 1 and getattr(its[0], "key", None) == items(I, t, e).key,
                    f"file: the items of {t} are kept once, in order", repr(its))
    first = pos["aliases"] + pos["interfaces"]
    p.prove(bool(first) and bool(pos["filter"]) and max(first) < pos["filter"][0], "file: aliases and interfaces are read before the rules")


def proofs():
    R = ["pfsenseParser._parse_filter__rule"]
    cs = {("pfsenseParser", "_parse_filter__rule"): rule_contract}
    out = [Proof("rule: before the first child", rule_init, R, types=TYPES)]
    for t in TEXTS + ("descr", "log", "icmptype") + IGNORED:
        out.append(Proof(f"rule: child <{t}>", rule_step(t), R, ["end"], types=TYPES))
    out.append(Proof("rule: another child", rule_step("other"), R, ["refused"], types=TYPES))
    for t in DATES:
        out.append(Proof(f"rule: child <{t}>", rule_step(t), R, ["end", "record"], types=TYPES))
    for t in ENDS:
        out.append(Proof(f"rule: child <{t}>", rule_step(t), R + ["ACLNode.__init__"], ["end"], types=TYPES))
        for c in ("any", "address", "network", "port", "other"):
            need = {"any": ["end"], "other": ["refused"]}.get(c, ["end", "refused"])
            out.append(Proof(f"rule: child <{t}>, its child <{c}>", rule_step(t, c), R + ["Network.__init__", "NetworkHost.__init__", "Port.__init__", "PortRange.__init__"], need, types=TYPES))
    for c in ((x, y) for x in (False, True) for y in (False, True)):
        n = f"rule: after the last child ({'floating' if c[0] else 'bound'}, {'disabled' if c[1] else 'enabled'})"
        out.append(Proof(n, rule_end(False, c), R + ["ACLRule.__init__"], ["end"] + ["floating"] * c[0], types=TYPES))
    out.append(Proof("rule: nothing stated", rule_end(True), R + ["ACLRule.__init__"], ["end"], types=TYPES))
    out.append(Proof("file", sections, ["pfsenseParser.parse"], ["end", "refused"], {("pfsenseParser", f"_parse_{t}"): section(t) for t in SECTIONS}, TYPES))
    for k in ("rule", "other", "separator", "end"):
        out.append(Proof(f"filter: {k}", filter_step(k), ["pfsenseParser._parse_filter"], {"rule": ["end"], "other": ["refused"], "end": ["end"], "separator": ["end", "caption"]}[k], cs, TYPES))
    return out
