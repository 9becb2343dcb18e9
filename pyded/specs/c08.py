"""C08: collapsing a network group preserves the addresses it covers.

cov(s, x): x belongs to a host or network of the member list s (any members are dropped by design).
_collapse():        cov(new members, x) <=> cov(old members, x); only hosts and networks; no two entries overlap
collapse():         in place: refused with ValueError and without effect iff a group or named object is a member
collapse(False):    the same of the expanded copy (contract of expand: C07), the original group is not modified

Contract of ipaddress.collapse_addresses (assumed): K1 every address of a result network belongs to an element of the
input, K2 every address of an element belongs to a result network, K3 the result networks are pairwise disjoint,
K4 TypeError for mixed families.
"""
from .match import *

FLAT = ("Network", "NetworkHost", "NetworkAny", "NetworkAny4", "NetworkAny6", "Webtype")
ALLM = FLAT + ("NetworkObject", "NetworkGroup")
FLATT = {("NetworkGroup", "objects"): TList(TObj(*FLAT))}
ALLT = {("NetworkGroup", "objects"): TList(TObj(*ALLM))}


def covers(I, v, x):
    """x belongs to a host, network or address value; any and everything else is not counted"""
    if isinstance(v, SIp):
        return z3.And(v.is6 == x[0], v.val == x[1])
    if isinstance(v, SNet):
        return z3.And(v.is6 == x[0], (x[1] & ~v.host) == v.num)
    if isinstance(v, Obj):
        for c, f in (("NetworkHost", "address"), ("Network", "network")):
            if I.isinst(v, I.prog.classes[c]):
                return covers(I, I.getattr(v, f), x)
    return z3.BoolVal(False)


def exists(I, segs, pred):
    """does some element satisfy pred? (fork)"""

    def body(e):
        if I.p.branch(pred(I.force(I.lazy(e)))):
            raise BreakExc()

    try:
        I.iterate(segs, body)
    except BreakExc:
        return True
    return False


def k1(I, c, x):
    """an address of a collapsed network belongs to an element of the input"""
    I.p.assume(covers(I, c, x))


def origin(I, segs):
    """an arbitrary element with the sequences it was drawn from"""
    p = I.p
    segs = I.resolve(segs)
    if not segs:
        raise PathInfeasible()
    k = p.choose(len(segs), "pick") if len(segs) > 1 else 0
    s = segs[k]
    if isinstance(s, Elem):
        return I.force(I.lazy(s.v)), (("elem", k, len(segs)),)
    e = p.member(s.src if isinstance(s, FM) else s)
    src = s.src if isinstance(s, FM) else s
    if isinstance(s, FM):
        v, o = origin(I, s.fn(p, e))
        return v, ((src, e, k),) + o
    return e, ((src, e, k),)


def content(I, g):
    return tuple(I.p.content(I.getattr(g, "objects")))


def prepared(I, how):
    """(group, result, members before) of a call of collapse"""
    p = I.p
    g = with_class(I, "g", "NetworkGroup")
    if how == "copy":

        def exp(I, o, args, kwargs):
            a = [I.force(v) for v in list(args) + list(kwargs.values())]
            if o.key != g.key or a != [False]:
                return NotImplemented
            n = I.call(I.prog.classes["NetworkGroup"], [I.getattr(o, "name"), I.getattr(o, "description")], {})
            I.setattr(n, "objects", I.p.new_list((TList(TObj(*FLAT)).seg(I, f"flat({o.key})"),)))
            return n

        I.contracts[("NetworkGroup", "expand")] = exp
        old = (TList(TObj(*FLAT)).seg(I, f"flat({g.key})"),)
        r = I.force(I.call_method(g, "collapse", [False], {}))
        frame_ok(I, "collapse(False): the original group")
        p.prove(isinstance(r, Obj) and r.fresh and I.classes_of(r) == {"NetworkGroup"}, "collapse(False): a new group")
    else:
        l = I.getattr(g, "objects")
        old = tuple(p.content(l))
        r = I.force(I.call_method(g, "collapse", [] if how == "default" else [True], {}))
        for x in p.wlog:
            if not I.is_new(x[1]) and x[1] not in (l.oid, ("obj", g.key)) or (x[0] == "setattr" and x[1] == ("obj", g.key) and x[2] != "objects"):
                p.fail("collapse: changes only the member list", f"{x}")
        p.prove(zt(I.same(r, g)), "collapse: returns the group itself")
    return g, r, old


def missing(how, cls, v6):
    """an address of a member (of this class and this address family) is still covered"""

    def fn(I):
        p = I.p
        g, r, old = prepared(I, how)
        x = fresh_x(I, "x")
        p.assume(x[0] == v6)
        m = lib.pick(I, old)
        if I.one_class(m).name != cls:  # the other classes cover no address
            raise PathInfeasible()
        t = covers(I, m, x)
        p.assume(t)
        p.require_feasible()
        # K2 of every collapse whose input has m's addresses
        for s in p.notes.get("collapsed", ()):
            if exists(I, s.src_segs, lambda e: covers(I, e, x)):
                c = p.member(s)
                p.assume(covers(I, c, x))
        outcome(I, "end")
        p.prove(exists(I, content(I, r), lambda e: covers(I, e, x)), f"collapse ({how}): no covered address is lost")

    return fn


def extra(how):
    def fn(I):
        p = I.p
        g, r, old = prepared(I, how)
        x = fresh_x(I, "x")
        m, o = origin(I, content(I, r))
        p.prove(isinstance(m, Obj) and I.one_class(m).name in ("Network", "NetworkHost"), f"collapse ({how}): only hosts and networks")
        p.assume(covers(I, m, x))
        p.require_feasible()
        for step in o:
            if isinstance(step[0], lib.CollapsedSeg):
                # K1
                if p.branch(covers(I, step[1], x)):
                    e = lib.pick(I, step[0].src_segs)
                    p.assume(covers(I, e, x))
        outcome(I, "end")
        p.prove(exists(I, old, lambda e: covers(I, e, x)), f"collapse ({how}): no address is added")

    return fn


def disjoint(how):
    def fn(I):
        p = I.p
        g, r, old = prepared(I, how)
        segs = content(I, r)
        x = fresh_x(I, "x")
        a, oa = origin(I, segs)
        b, ob = origin(I, segs)
        # two different places of the list
        i = 0
        while i < len(oa) and i < len(ob):
            sa, sb = oa[i], ob[i]
            if sa[0] == "elem" or sb[0] == "elem":
                if sa[:2] == sb[:2] and i == len(oa) - 1:
                    raise PathInfeasible()  # the same element
                break
            if sa[2] != sb[2] or sa[0] is not sb[0] and sa[0].key != sb[0].key:
                break
            if isinstance(sa[0], lib.CollapsedSeg):
                # different elements of one collapse (an element contributes one entry): K3
                n = oa[i + 1 :] + ob[i + 1 :]
                p.prove(all(q[0] == "elem" and q[2] == 1 for q in n), f"collapse ({how}): one entry per collapsed network", f"{n}")
                y = fresh_x(I, "y")
                p.assume(z3.Not(z3.And(covers(I, sa[1], x), covers(I, sb[1], x))))
                break
            p.fail(f"collapse ({how}): entries come from collapse_addresses", f"{sa[0]}")
            i += 1
        p.assume(z3.And(covers(I, a, x), covers(I, b, x)))
        outcome(I, "reached")
        p.prove(False, f"collapse ({how}): no entry overlaps another", f"{oa} {ob}")

    return fn


def refused(I):
    """in place: refused iff there is something to expand, and then without effect"""
    p = I.p
    g = with_class(I, "g", "NetworkGroup")
    old = tuple(p.content(I.getattr(g, "objects")))
    bad = lambda e: zt(I.isinst(e, I.prog.classes["NetworkGroup"]) or I.isinst(e, I.prog.classes["NetworkObject"]))
    I.contracts[("NetworkGroup", "_collapse")] = lambda I, o, a, k: o
    try:
        I.call_method(g, "collapse", [], {})
    except PyExc as e:
        p.prove(e.cls is ValueError, "collapse: refused with ValueError", f"{e}")
        frame_ok(I, "a refused collapse")
        outcome(I, "refused")
        p.prove(exists(I, old, bad), "collapse: refused only when something needs expansion")
        return
    m = lib.pick(I, old)
    outcome(I, "accepted")
    p.prove(z3.Not(bad(m)), "collapse: refused when something needs expansion")


def proofs():
    fns = ["NetworkGroup.collapse", "NetworkGroup._collapse", "_Group.add", "Network.__init__", "NetworkHost.__init__"]
    out = [Proof("collapse: refusal", refused, ["NetworkGroup.collapse"], ["refused", "accepted"], types=ALLT)]
    for h in ("default", "copy"):
        t = FLATT
        for c in ("Network", "NetworkHost"):
            for v in (False, True):
                out.append(Proof(f"collapse ({h}): nothing lost ({c}, IPv{6 if v else 4})", missing(h, c, v), fns, ["end"], types=t, budget=500))
        out.append(Proof(f"collapse ({h}): nothing added", extra(h), fns, ["end"], types=t))
        out.append(Proof(f"collapse ({h}): disjoint", disjoint(h), fns, [], types=t))
    return out
