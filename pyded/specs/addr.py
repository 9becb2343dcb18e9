"""Specification of address matching.

mem(a, x): address x belongs to expression a.  hasany(a): a is, or contains, an unrestricted any or an interface.
ov(a, b)  <=>  hasany(a)  or  there is an x with mem(a, x) and mem(b, x)           (contract of every __and__)

Leaves are (any family?, family, base, wild): the addresses agreeing with base outside wild.  Groups and named objects
are unfolded on demand: mem(g, x) <=> some member m of g has mem(m, x); hasany(g) <=> some member has it.
"""
import z3

from ..drive import *
from ..model import *

Z = z3.IntSort()
B = z3.BoolSort()
BV = z3.BitVecSort(128)
f_mem = z3.Function("mem", Z, B, BV, B)
f_hasany = z3.Function("hasany", Z, B)
f_ov = z3.Function("ov", Z, Z, B)

LEAF = ("Network", "NetworkWildcard", "NetworkHost", "NetworkAny4", "NetworkAny6")
TOP = ("NetworkAny", "NetworkInterface", "Webtype")
COMP = ("NetworkObject", "NetworkGroup")
ALLFULL = bv128(2**128 - 1)


def valid(x):
    return z3.Implies(z3.Not(x[0]), z3.ULE(x[1], lib.V4MAX))


def leaf(I, o, cls):
    """(family6, base, wild) of a leaf"""
    if cls == "NetworkHost":
        ip = I.getattr(o, "address")
        return ip.is6, ip.val, bv128(0)
    if cls == "Network":
        n = I.getattr(o, "network")
        return n.is6, n.num, n.host
    if cls == "NetworkWildcard":
        ip, w = I.getattr(o, "address"), I.getattr(o, "wildcard")
        return ip.is6, ip.val, w.val
    if cls == "NetworkAny4":
        return z3.BoolVal(False), bv128(0), lib.V4MAX
    if cls == "NetworkAny6":
        return z3.BoolVal(True), bv128(0), ALLFULL
    raise KeyError(cls)


def leaf_mem(I, o, cls, x):
    if cls in TOP:
        return z3.BoolVal(True)
    f, b, w = leaf(I, o, cls)
    return z3.And(x[0] == f, ((x[1] ^ b) & ~w) == 0)


def meet(l1, l2):
    """closed form of: two leaves share an address"""
    return z3.And(l1[0] == l2[0], ((l1[1] ^ l2[1]) & ~l1[2] & ~l2[2]) == 0)


def common(l1, l2):
    """an address both share, if they share one"""
    return (l1[0], (l1[1] & ~l1[2]) | (l2[1] & l1[2]))


def objs(I, o):
    return I.getattr(o, "addresses" if cls_of(I, o) == "NetworkObject" else "objects")


def cls_of(I, o):
    return I.one_class(o).name


def members_seg(I, o):
    return I.p.content(objs0(I, o))


def objs0(I, o):
    """the member list of a composite as it was on entry"""
    t = I.field_type(cls_of(I, o), "addresses" if cls_of(I, o) == "NetworkObject" else "objects")
    return t.field(I, o, "addresses" if cls_of(I, o) == "NetworkObject" else "objects")


def known(I):
    return I.p.notes.setdefault("xs", ())


def mem_of(I, o, x):
    """mem as a term; leaves by definition"""
    cs = I.classes_of(o)
    if len(cs) == 1:
        c = next(iter(cs))
        if c in LEAF + TOP:
            t = leaf_mem(I, o, c, x)
            I.p.assume(f_mem(o.ref, x[0], x[1]) == t)
            return t
    return f_mem(o.ref, x[0], x[1])


def hasany_of(I, o):
    cs = I.classes_of(o)
    if cs <= set(TOP):
        I.p.assume(f_hasany(o.ref))
        return z3.BoolVal(True)
    if cs <= set(LEAF):
        I.p.assume(z3.Not(f_hasany(o.ref)))
        return z3.BoolVal(False)
    return f_hasany(o.ref)


def facts(I, o, x):
    """an element that contains an any covers everything (lemma by induction on depth: L1)"""
    I.p.assume(z3.Implies(hasany_of(I, o), mem_of(I, o, x)))


def add_x(I, x):
    """a new address under consideration: instantiate everything known for it"""
    p = I.p
    p.notes["xs"] = known(I) + (x,)
    for a, b in p.notes.get("disj", ()):
        disj_at(I, a, b, x)
    for v, g in p.notes.get("memberof", ()):
        p.assume(z3.Implies(mem_of(I, v, x), f_mem(g.ref, x[0], x[1])))
        facts(I, v, x)


instantiate = add_x


def disj_at(I, a, b, x):
    I.p.assume(z3.Not(z3.And(mem_of(I, a, x), mem_of(I, b, x))))


def fresh_x(I, what="w"):
    p = I.p
    x = (p.fresh(B, what + ".is6"), p.fresh(BV, what + ".val"))
    p.assume(valid(x))
    return x


def ov_contract(small):
    """contract of a & b, used for calls where one side is a member of a composite under consideration"""

    def c(I, o, args, kwargs):
        b = I.force(args[0])
        if not isinstance(b, Obj):
            return NotImplemented
        s = small(I)
        if not (o.key in s or b.key in s):
            return NotImplemented
        return apply_ov(I, o, b)

    return c


def apply_ov(I, a, b):
    p = I.p
    t = f_ov(a.ref, b.ref)
    if p.branch(t):
        if p.branch(hasany_of(I, a)):
            return True
        w = fresh_x(I)
        p.assume(z3.And(mem_of(I, a, w), mem_of(I, b, w)))
        add_x(I, w)
        return True
    p.assume(z3.Not(hasany_of(I, a)))
    p.notes["disj"] = p.notes.get("disj", ()) + ((a, b),)
    for x in known(I):
        disj_at(I, a, b, x)
    return False


def unfold_hook(I, g):
    """make every member of composite g known to the definition of mem and hasany"""
    p = I.p
    for seg in members_seg(I, g):
        if isinstance(seg, SymSeg):
            def u(pp, v):
                pp.notes["memberof"] = pp.notes.get("memberof", ()) + ((v, g),)
                pp.notes["small"] = pp.notes.get("small", frozenset()) | {v.key}
                pp.assume(z3.Implies(hasany_of(I, v), f_hasany(g.ref)))
                for x in known(I):
                    pp.assume(z3.Implies(mem_of(I, v, x), f_mem(g.ref, x[0], x[1])))
                    facts(I, v, x)

            p.universal(seg, u)


def covering_member(I, g, pred):
    """mem / hasany of a composite holds: take the member it comes from"""
    segs = members_seg(I, g)
    e = lib.pick(I, segs)
    I.p.assume(pred(e))
    return e


def small_of(I):
    return I.p.notes.get("small", frozenset())


def is_comp(c):
    return c in COMP


def check_pair(ca, cb):
    def fn(I):
        p = I.p
        a = with_class(I, "a", ca)
        b = with_class(I, "b", cb)
        if ca == cb and ca in LEAF:
            pass
        x = fresh_x(I, "x")
        for o, c in ((a, ca), (b, cb)):
            if is_comp(c):
                unfold_hook(I, o)
        instantiate(I, x)
        w0 = len(p.wlog)
        r = I.call_method(a, "__and__", [b], {})
        if not isinstance(I.force(r), (bool, SBool)):
            p.fail(f"{ca} & {cb}: the answer is yes or no", f"{r}")
        r = I.truth(r)
        frame_ok(I, f"{ca} & {cb}")
        outcome(I, str(r))
        name = f"{ca} & {cb}"
        if ca in TOP:
            p.prove(r, f"{name}: any and interface as filter match everything")
            return
        if cb in TOP and ca in LEAF:
            p.prove(r, f"{name}: a plain address matches any and interface")
            return
        if ca in LEAF and cb in LEAF:
            la, lb = leaf(I, a, ca), leaf(I, b, cb)
            if r:
                w = common(la, lb)
                p.prove(z3.And(leaf_mem(I, a, ca, w), leaf_mem(I, b, cb, w), valid(w)), f"{name}: yes only if an address belongs to both")
            else:
                p.prove(z3.Not(z3.And(leaf_mem(I, a, ca, x), leaf_mem(I, b, cb, x))), f"{name}: no only if no address belongs to both")
            return
        # a composite is involved
        if r:
            # a witness is among the known addresses, or hasany(a) holds; bases of leaves are candidates, too
            for o, c in ((a, ca), (b, cb)):
                if c in LEAF:
                    l = leaf(I, o, c)
                    instantiate(I, (l[0], l[1]))
            g = [hasany_of(I, a)]
            for w in known(I):
                g.append(z3.And(valid(w), mem_of(I, a, w), mem_of(I, b, w)))
            if not known(I):
                pass
            # an any covers every address: use some address
            p.prove(z3.Or(g), f"{name}: yes only if an address belongs to both (or the filter contains an any)")
        else:
            if is_comp(ca):
                if p.choose(2, "case") == 1:
                    # suppose the filter contained an any
                    p.assume(f_hasany(a.ref))
                    covering_member(I, a, lambda e: hasany_of(I, e))
                    p.prove(False, f"{name}: a filter that contains an any matches everything")
                    return
            p.assume(z3.And(mem_of(I, a, x), mem_of(I, b, x)))
            g = a if is_comp(ca) else b
            covering_member(I, g, lambda e: mem_of(I, e, x))
            p.prove(False, f"{name}: no only if no address belongs to both")

    return fn
