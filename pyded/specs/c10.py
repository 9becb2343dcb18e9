"""C10: resolving a selection yields everything it references and nothing else.

direct(i)    what a selected rule or NAT entry refers to
children(x)  group: its members and its class name; host, network: its name and "Names"; named object, time range: its
             class name; access-group binding: its interface and "Interface"; NAT entry: "NAT"
reach        the least set that contains the selection and its direct references and is closed under children

1. when the closure loop is entered:  r = selection + the direct references of its elements
2. one step of the loop, from any state with  children(done) <= r:
      r grows by children of the element of this step only; children(done) <= r still holds;
      a step that does not end the pass adds the element to done and nothing that has children of its own;
      a step that ends the pass adds an element to done that was not in it
3. a complete pass ends the loop and r is returned
So at the end every element of r is in done or has no children: r is closed; with 1. and 2. r = reach.  Every pass but
the last one makes done larger within the finite set reach: the loop ends.
"""
import ast

from .match import *

GROUPS = ("NetworkGroup", "PortGroup", "ServiceGroup", "ProtocolGroup", "ICMPGroup")
MARKED = ("NetworkObject", "ServiceObject", "TimeRange")
UNIV = GROUPS + MARKED + (
    "ACLRule", "NATObject", "Network", "NetworkHost", "NetworkWildcard", "NetworkAny", "NetworkAny4", "NetworkAny6", "NetworkInterface",
    "Webtype", "Port", "PortRange", "Protocol", "Service", "ICMP", "InterfaceAccessGroup", "Interface", "Name")
ANYTHING = TUnion(TConst(None), TStr(), TObj(*UNIV))
SEL = TObj("ACLRule", "NATObject")
TYPES = {
    ("ACLRule", "protocol"): TObj("Protocol", "ProtocolGroup", "ServiceObject", "ServiceGroup"),
    ("ACLRule", "options"): TMap(TUnion(TStr(), TConst(None), TObj("TimeRange"))),
    ("TimeRange", "name"): TStr(),
    ("ACLConfig", "access_groups"): TMap(TList(TObj("InterfaceAccessGroup"))),
    ("ServiceObject", "name"): TStr(),
}
f_in, f_ins = {}, {}


def member_fn(name):
    """an arbitrary set, by its membership"""
    if name not in f_in:
        f_in[name] = z3.Function("in_" + name, Z, B)
        f_ins[name] = z3.Function("ins_" + name, S, B)

    def fn(I, x):
        x = I.force(I.lazy(x))
        if isinstance(x, Obj):
            return f_in[name](x.ref)
        if isinstance(x, (str, SStr)):
            return f_ins[name](I.zstr(x))
        if x is None:
            return z3.Bool("none_in_" + name)
        raise Unsupported(f"element {x}")

    return fn


def anything(I, name):
    n = f"{name}!{I.p._bump()}"
    return I.force(ANYTHING.make(I, lambda suf, sort: z3.Const(n + suf, sort), n))


def arbitrary_set(I, name):
    fn = member_fn(name)

    def gen(I):
        x = anything(I, name)
        I.p.assume(fn(I, x))
        return x

    return I.p.new_set(("pred", fn, gen)), fn


def alike(I, a, b):
    """the same element of a set"""
    if a is None or b is None or isinstance(a, Obj) != isinstance(b, Obj):
        return a is None and b is None
    return I.elem_same(a, b)


def children(I, x):
    """-> list of (what, segs)"""
    if not isinstance(x, Obj):
        return []
    c = I.one_class(x).name
    if c in GROUPS:
        return [("class name", (Elem(c),)), ("members", tuple(I.segs_of(I.getattr(x, "objects"))))]
    if c in MARKED:
        return [("class name", (Elem(c),))]
    if c in ("Network", "NetworkHost"):
        t = I.getattr(x, "target")
        return [("name", (Elem(t), Elem("Names")))] if t is not None else []
    if c == "InterfaceAccessGroup":
        return [("interface", (Elem(I.getattr(x, "iface")), Elem("Interface")))]
    if c == "NATObject":
        return [("NAT", (Elem("NAT"),))]
    return []


def direct(I, i):
    """what a selected element refers to"""
    c = I.one_class(i).name
    g = lambda o, *fs: I.getattr(o, fs[0]) if len(fs) == 1 else g(I.getattr(o, fs[0]), *fs[1:])
    one = lambda n, v: [(n, (Elem(v),))] if v is not None else []
    out = []
    if c == "ACLRule":
        p = g(i, "protocol")
        out += [("protocol", (Elem(p),)), ("source", (Elem(g(i, "src", "host")),)), ("destination", (Elem(g(i, "dst", "host")),))]
        out += one("source port", g(i, "src", "port")) + one("destination port", g(i, "dst", "port"))
        n = g(p, "name")
        if I.tr(I.eq(n, "icmp")) or I.tr(I.eq(n, "icmp6")):
            out += one("icmp", g(i, "icmp"))
        out.append(("time ranges", tuple(I.segs_of(I.call_method(g(i, "options"), "values", [], {}))), lambda v: isinstance(v, Obj)))
        return out
    for side in ("real", "mapped"):
        out += [(side + " interface", (Elem(g(i, side, "iface")),))] + one(side + " service", g(i, side, "service"))
        for e in ("src", "dst"):
            n = g(i, side, e)
            if n is not None:
                out += one(f"{side} {e}", g(n, "node"))
    return out


def bindings(I, cfg, i):
    """the access-group bindings of the list of a rule"""
    if I.one_class(i).name != "ACLRule":
        return None
    d = I.getattr(cfg, "access_groups")
    k = I.getattr(i, "id")
    if k is None or not I.tr(I.dict_has(d, k)):
        return None
    return I.getitem(d, k)


class Stop(Exception):
    pass


def sets(I, fr, st):
    """names of the set the loop builds up and of the (at first empty) set of handled elements"""
    p = I.p
    names = []
    for n in ast.walk(st):
        if isinstance(n, ast.Name) and n.id not in names and isinstance(fr.locals.get(n.id), HSet):
            names.append(n.id)
    done = [n for n in names if p.content(fr.locals[n]) == ("segs", ())]
    rest = [n for n in names if n not in done]
    if len(rest) != 1 or len(done) != 1:
        raise Unsupported("sets of the closure loop")
    return rest[0], done[0]


def start(I, hook):
    p = I.p
    cfg = with_class(I, "config", "ACLConfig")
    sel = arg(I, TSet(SEL), "selection")
    I.while_hook = hook
    return cfg, sel


def entry(which):
    """1. the state in which the loop is entered"""

    def fn(I):
        p = I.p
        at = []

        def hook(I, st, fr):
            at.append((sets(I, fr, st), dict(fr.locals)))
            raise Stop()

        cfg, sel = start(I, hook)
        old = p.content(sel)
        try:
            I.call_method(cfg, "resolve", [sel], {})
        except Stop:
            pass
        if not at:
            raise Unsupported("no closure loop")
        (rn, dn), loc = at[-1]
        r, done = p.content(loc[rn]), p.content(loc[dn])
        if which == "done":
            outcome(I, "end")
            p.prove(done == ("segs", ()), "resolve: nothing is marked as handled at first", f"{done}")
            frame_ok(I, "resolve: the configuration", allowed=(sel.oid,))
        elif which == "kept":
            x = lib.pick(I, old[1])
            outcome(I, "end")
            p.prove(I.contains(r, x), "resolve: the selection is in the result")
        else:
            step = added_in(I, old, r)
            i = p.member(step.src)
            cls = I.one_class(i).name
            if cls != which[1]:
                raise PathInfeasible()
            ref = direct(I, i)
            b = bindings(I, cfg, i)
            if b is not None:
                ref.append(("bindings", tuple(I.segs_of(b))))
            new = step.fn(p, i)
            if which[0] == "direct":
                k = p.choose(len(ref), "reference")
                v = lib.pick(I, ref[k][1])
                if len(ref[k]) > 2 and not ref[k][2](v):
                    raise PathInfeasible()
                outcome(I, ref[k][0])
                p.prove(among(I, new, v), f"resolve: {ref[k][0]} of a selected entry is in the result", f"{v}")
            else:
                v = lib.pick(I, new)
                outcome(I, "end")
                if not isinstance(v, Obj):
                    return  # list names and the like stand for themselves
                if cls == "ACLRule":
                    # what a rule states and is not shown
                    ref.append(("icmp", (Elem(I.getattr(i, "icmp")),)))
                p.prove(among(I, tuple(s for x in ref for s in x[1]), v), "resolve: what is added first is referenced by a selected entry", f"{v}")

    return fn


def added_in(I, old, r):
    """the sequence of what the loop over the selection adds to it"""
    if r[0] != "segs" or r[1][: len(old[1])] != old[1] or len(r[1]) != len(old[1]) + 1:
        raise Unsupported("first phase of resolve")
    fm = r[1][-1]
    if not isinstance(fm, FM) or not isinstance(fm.src, lib.SetSeg) or tuple(fm.src.srcs) != tuple(old[1]):
        raise Unsupported("first phase of resolve")
    return fm


def among(I, segs, v):
    """v is one of the elements: a term, forks only for sequences"""
    ts, rest = [], []
    for s in I.resolve(segs):
        if isinstance(s, Elem):
            ts.append(zt(alike(I, I.force(I.lazy(s.v)), v)))
        else:
            rest.append(s)
    t = z3.Or(ts) if ts else z3.BoolVal(False)
    if not rest or I.p.entails(t):
        return t
    return z3.Or(t, zt(I.in_segs(tuple(rest), v, True)))


def loop(which):
    def fn(I):
        p = I.p

        def hook(I, st, fr):
            rn, dn = sets(I, fr, st)
            fr.locals[rn], in_r = arbitrary_set(I, "r0")
            fr.locals[dn], in_d = arbitrary_set(I, "done0")
            n = []

            def fhook(I, fst, ffr, it):
                if ffr is not fr or n:
                    return NotImplemented
                n.append(1)
                I.for_hook = None
                return one_pass(I, st, fst, fr, it, rn, dn, which)

            I.for_hook = fhook
            if st.orelse or not I.truth(I.eval(st.test, fr)):
                raise Unsupported("form of the closure loop")
            try:
                I.block(st.body, fr)
            except BreakExc:
                step_end(I, fr, "exit", which, rn, dn)
                return
            except ContinueExc:
                pass
            step_end(I, fr, "again", which, rn, dn)
            raise PathInfeasible()

        cfg, sel = start(I, hook)
        r = I.call_method(cfg, "resolve", [sel], {})
        end = p.notes.get("exit")
        p.prove(end is not None and isinstance(r, HSet) and p.content(r) == end, "resolve: returns the closed set")

    return fn


def one_pass(I, st, fst, fr, it, rn, dn, which):
    """the for loop over the elements of r at the start of a pass"""
    p = I.p
    segs = I.segs_of(it)
    # it runs over all elements of r
    src = segs[0].srcs if len(segs) == 1 and isinstance(segs[0], lib.SetSeg) else None
    node0 = p.content(fr.locals[rn])
    p.prove(src is not None and I.p.notes.get("keep") and any(k is node0 for k in I.p.notes["keep"]), "resolve: a pass runs over all elements")
    if p.choose(2, "a step or the end of the pass") == 0:
        fr.locals[rn], in_r = arbitrary_set(I, "r")
        fr.locals[dn], in_d = arbitrary_set(I, "done")
        i = lib.pick(I, segs)
        p.assume(in_r(I, i))
        p.notes["step"] = (i, in_r, in_d)
        I.assign(fst.target, i, fr)
        try:
            I.block(fst.body, fr)
        except BreakExc:
            p.notes["kind"] = "break"
            return
        except ContinueExc:
            pass
        p.notes["kind"] = "normal"
        step_end(I, fr, "next", which, rn, dn)
        raise PathInfeasible()
    fr.locals[rn], in_r = arbitrary_set(I, "rend")
    fr.locals[dn], in_d = arbitrary_set(I, "doneend")
    p.notes["kind"] = "end"
    p.notes["exit"] = p.content(fr.locals[rn])
    I.block(fst.orelse, fr)


def step_end(I, fr, how, which, rn, dn):
    p = I.p
    kind = p.notes.get("kind")
    if how == "exit":
        p.prove(kind == "end", "resolve: the loop ends only after a complete pass")
        p.prove(p.content(fr.locals[rn]) == p.notes.get("exit"), "resolve: the end of a pass changes nothing")
        outcome(I, "exit")
        if which != "exit":
            raise PathInfeasible()
        return
    if kind == "end":
        p.fail("resolve: ends after a complete pass without news", "goes on")
        raise PathInfeasible()
    i, in_r, in_d = p.notes["step"]
    r, d = p.content(fr.locals[rn]), p.content(fr.locals[dn])
    if which == "exit":
        raise PathInfeasible()
    if which == "monotone":
        x = anything(I, "x")
        p.assume(in_r(I, x))
        p.require_feasible()
        outcome(I, "end")
        p.prove(I.contains(r, x), "resolve: a step keeps what is in the result")
    elif which == "handled":
        # children of handled elements are in the result
        if not I.contains(d, i):
            if kind == "normal":
                p.fail("resolve: an element is marked as handled", f"{i}")
            raise PathInfeasible()
        if I.truth(SBool(zt(in_d(I, i)))):
            raise PathInfeasible()  # by the invariant
        ch = children(I, i)
        if not ch:
            raise PathInfeasible()
        what, segs = ch[p.choose(len(ch), "child")]
        v = lib.pick(I, segs)
        outcome(I, what)
        p.prove(I.contains(r, v), f"resolve: {what} of an element is added", f"{i}: {v}")
    elif which == "done only":
        x = anything(I, "x")
        if not I.contains(d, x) or I.truth(SBool(zt(in_d(I, x)))):
            raise PathInfeasible()
        outcome(I, "end")
        p.prove(zt(alike(I, x, i)), "resolve: only the element itself is marked as handled")
    elif which == "nothing else":
        x = anything(I, "x")
        if not I.contains(r, x) or I.truth(SBool(zt(in_r(I, x)))):
            raise PathInfeasible()
        outcome(I, "end")
        ok = any(I.in_segs(s, x, True) for w, s in children(I, i))
        p.prove(ok, "resolve: only children are added", f"{i}: {x}")
        if kind == "normal":
            p.prove(not isinstance(x, Obj), "resolve: an addition with references of its own starts a new pass", f"{x}")
    elif which == "progress":
        if kind != "break":
            raise PathInfeasible()
        outcome(I, "end")
        p.prove(zt(I.contains(d, i)), "resolve: a new pass is started for a new element")
        p.prove(z3.Not(zt(in_d(I, i))), "resolve: a new pass is started for a new element")


def proofs():
    out = []
    n = ["source", "destination", "source port", "destination port", "protocol", "icmp", "time ranges", "bindings"]
    m = [f"{s} {e}" for s in ("real", "mapped") for e in ("interface", "service", "src", "dst")]
    for w, need in (("done", ["end"]), ("kept", ["end"]), (("direct", "ACLRule"), n), (("direct", "NATObject"), m), (("added", "ACLRule"), ["end"]), (("added", "NATObject"), ["end"])):
        out.append(Proof(f"resolve: first phase, {w}", entry(w), ["ACLConfig.resolve"], need, types=TYPES, budget=450))
    for w in ("monotone", "handled", "done only", "nothing else", "progress", "exit"):
        out.append(Proof(f"resolve: closure loop, {w}", loop(w), ["ACLConfig.resolve"], ["exit"] if w == "exit" else [], types=TYPES))
    return out
