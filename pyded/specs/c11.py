"""C11: wildcard enumeration covers exactly the addresses the wildcard matches.

allowed(x)     x & ~W == start                    (W the wildcard mask, start the address with its wild bits cleared)
span(a, w)     the addresses x with x & ~w == a
Invariant of the loop, for the work list T and the set L built so far:
  (a, w) in T:  w within W, a & w == 0, a allowed; if w == 0, a is covered by L
  L covers allowed addresses only
  every allowed address is covered by L or belongs to the span of an element of T
A step takes at least one element from T; the elements it puts there have a smaller mask than one it took (so the loop
ends: the multiset of masks decreases).  When T is empty, L covers exactly the allowed addresses.
"""
import ast
import math

from .match import *

V4 = lib.V4MAX
f_cov = z3.Function("covered", BV, B)
W160 = 160


def w160(v):
    """160 bit term of a python int"""
    return lib.to_bv(v).t


def low(v):
    return z3.Extract(127, 0, w160(v))


class Stop(Exception):
    pass


def pair(I, v):
    v = I.force(I.lazy(v))
    if not isinstance(v, tuple) or len(v) != 2:
        raise Unsupported("form of the work list")
    return I.force(v[0]), I.force(v[1])


def in32(v):
    t = w160(v)
    return z3.And(t >= 0, t <= z3.BitVecVal(2**32 - 1, W160))


def well_formed(I, st, a, w):
    W, start = st
    return z3.And(in32(a), in32(w), (low(w) & ~W) == 0, (low(a) & low(w)) == 0, (low(a) & ~W) == start)


def span(a, w, x):
    return (x & ~low(w)) == low(a)


def cover(I, v, x):
    """x belongs to an element of the result"""
    v = I.force(I.lazy(v))
    if isinstance(v, SIp):
        return z3.And(z3.Not(v.is6), v.val == x)
    if isinstance(v, SNet):
        return z3.And(z3.Not(v.is6), (x & ~v.host) == v.num)
    return None


def mask(I, name):
    x = z3.Const(f"{name}!{I.p._bump()}", BV)
    I.p.assume(z3.ULE(x, V4))
    return x


def variables(I, fr, st):
    """(name of the result set, name of the work list)"""
    s = [n for n, v in fr.locals.items() if isinstance(v, HSet)]
    used = {n.id for n in ast.walk(st) if isinstance(n, ast.Name)}
    t = [n for n, v in fr.locals.items() if isinstance(v, HList) and n in used]
    if len(s) != 1 or len(t) != 1:
        raise Unsupported("variables of the enumeration")
    return s[0], t[0]


def added(I, node, old):
    """what was added to the arbitrary set; None: something else was done to it"""
    if node is old:
        return ()
    if node[0] == "union" and node[2][0] == "segs":
        r = added(I, node[1], old)
        return None if r is None else r + tuple(node[2][1])
    if node[0] == "segs" and old is None:
        return tuple(node[1])
    return None


def begin(I):
    w = with_class(I, "wildcard", "NetworkWildcard")
    a, m = I.getattr(w, "address"), I.getattr(w, "wildcard")
    return w, (m.val, a.val & ~m.val)


def entry(I):
    """the invariant holds when the loop is entered"""
    p = I.p
    at = []

    def hook(I, st, fr):
        at.append((variables(I, fr, st), dict(fr.locals)))
        raise Stop()

    I.while_hook = hook
    w, st = begin(I)
    try:
        I.call_method(w, "_addresses", [], {})
    except Stop:
        pass
    if not at:
        raise Unsupported("no loop")
    (ln, tn), loc = at[-1]
    L, T = added(I, p.content(loc[ln]), None), p.content(loc[tn])
    if L is None or not all(isinstance(s, Elem) for s in L + tuple(T)):
        raise Unsupported("state before the loop")
    outcome(I, "end")
    check(I, st, L, [pair(I, s.v) for s in T], lambda x: z3.BoolVal(False), None)
    x = mask(I, "x")
    p.assume((x & ~st[0]) == st[1])
    p.prove(z3.Or([cover(I, s.v, x) for s in L] + [span(a, w, x) for a, w in map(lambda s: pair(I, s.v), T)]), "_addresses: every allowed address is covered or waits (before the loop)")


def check(I, st, L, T, cov, taken):
    """new elements of the result and of the work list satisfy the invariant"""
    p = I.p
    x = mask(I, "y")
    for s in L:
        t = cover(I, s.v, x)
        if t is None:
            p.fail("_addresses: addresses and networks only", f"{s.v}")
            continue
        p.prove(z3.Implies(t, (x & ~st[0]) == st[1]), "_addresses: only allowed addresses are enumerated")
    for a, w in T:
        p.prove(well_formed(I, st, a, w), "_addresses: the work list holds parts of the wildcard")
        p.prove(z3.Implies(w160(w) == 0, z3.Or([cov(low(a))] + [cover(I, s.v, low(a)) for s in L])), "_addresses: a waiting single address is covered")
        if taken is not None:
            p.prove(z3.Or([z3.ULT(low(w), low(w1)) for a1, w1 in taken]), "_addresses: new work is smaller than what was taken")


def step(shape):
    """one iteration keeps the invariant and makes progress"""

    def fn(I):
        p = I.p

        def hook(I, st, fr):
            if p.notes.get("hooked"):
                raise Unsupported("second loop")
            p.notes["hooked"] = True
            ln, tn = variables(I, fr, st)
            W, start = p.notes["st"]
            lst = p.new_set(("pred", lambda I, x: f_cov(x.val)))
            fr.locals[ln] = lst
            node = p.content(lst)
            seg = TList(TTuple()).seg(I, "waiting")
            seg = SymSeg(("list", "waiting"), lambda pp, name: Unsup("element of the work list"))
            old = []
            for i in range(shape):
                a, w = mask(I, "a"), mask(I, "w")
                pr = (SBV(z3.ZeroExt(32, a), 0, 2**32 - 1), SBV(z3.ZeroExt(32, w), 0, 2**32 - 1))
                p.assume(well_formed(I, p.notes["st"], *pr))
                p.assume(z3.Implies(w == 0, f_cov(a)))
                old.append(pr)
            elems = [Elem(o) for o in old]
            T0 = tuple(elems[:1] + [seg] + elems[1:]) if shape else ()
            tl = p.new_list(T0)
            fr.locals[tn] = tl
            if not I.truth(I.eval(st.test, fr)):
                if shape:
                    p.fail("_addresses: goes on while work is left", "ends")
                    raise PathInfeasible()
                # the work list is empty: every allowed address is covered by the result
                if st.orelse:
                    I.block(st.orelse, fr)
                p.notes["exit"] = (lst.oid, node)
                return
            if not shape:
                p.fail("_addresses: ends when no work is left", "goes on")
                raise PathInfeasible()
            try:
                I.block(st.body, fr)
            except ContinueExc:
                pass
            except BreakExc:
                p.fail("_addresses: goes on while work is left", "break")
                raise PathInfeasible()
            after(I, fr.locals[ln], fr.locals[tn], node, seg, old)
            raise PathInfeasible()

        I.while_hook = hook
        w, st = begin(I)
        p.notes["st"] = st
        r = I.force(I.call_method(w, "_addresses", [], {}))
        e = p.notes.get("exit")
        outcome(I, "exit")
        p.prove(e is not None and isinstance(r, HSet) and p.content(r) is e[1], "_addresses: returns what was enumerated")

    return fn


def after(I, l, t, node, seg, old):
    p = I.p
    st = p.notes["st"]
    L = added(I, p.content(l), node)
    if L is None or not all(isinstance(s, Elem) for s in L):
        raise Unsupported("updates of the result")
    T = p.content(t)
    segs = [s for s in T if not isinstance(s, Elem)]
    p.prove(len(segs) == 1 and segs[0] is seg, "_addresses: the rest of the work list stays", f"{T}")
    kept, new = [], []
    for s in T:
        if isinstance(s, Elem):
            v = I.force(s.v)
            (kept if any(v is o for o in old) else new).append(v)
    taken = [o for o in old if not any(o is k for k in kept)]
    p.prove(bool(taken), "_addresses: a step takes work from the list")
    new = [pair(I, v) for v in new]
    outcome(I, "step")
    check(I, st, L, new, f_cov, taken)
    # completeness
    x = mask(I, "x")
    p.assume((x & ~st[0]) == st[1])
    for a, w in taken:
        hyp = z3.And(span(a, w, x), z3.Implies(low(w) == 0, f_cov(x)))
        p.prove(z3.Implies(hyp, z3.Or([f_cov(x)] + [cover(I, s.v, x) for s in L] + [span(b, v, x) for b, v in new])), "_addresses: no address of what was taken is lost")


def Unsup(w):
    raise Unsupported(w)


def logarithm(I):
    """the assumed contract of math.log, evaluated at both ends of every interval between powers of two"""
    for k in range(32):
        for n in {2**k, 2 ** (k + 1) - 1}:
            I.p.prove(math.floor(math.log(n, 2)) == k, "floor(log(n, 2)) is the highest bit of n", str(n))


def proofs():
    f = ["NetworkWildcard._addresses"]
    ty = {("NetworkWildcard", "address"): TIp(4), ("NetworkWildcard", "wildcard"): TIp(4)}
    return [
        Proof("_addresses: before the loop", entry, f, ["end"], types=ty),
        Proof("_addresses: one step", step(1), f, ["step"], types=ty),
        Proof("_addresses: one step, two elements", step(2), f, ["step"], types=ty),
        Proof("_addresses: the end", step(0), f, ["exit"], types=ty),
        Proof("math.log at the powers of two", logarithm, []),
    ]
