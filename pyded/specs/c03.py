"""C03: ANY / ANY4 / ANY6 select only rules written with that literal any."""
from .match import *

KIND = {"cafNetworkAny": ("NetworkAny",), "cafNetworkAny4": ("NetworkAny4",), "cafNetworkAny6": ("NetworkAny6",)}
f_lit = {k: z3.Function(f"lit:{k}", Z, B) for k in KIND}
RULEADDR = tuple(c for c in LEAF + TOP + COMP if c != "Webtype")


def lit_of(I, caf, o):
    cs = I.classes_of(o)
    f = f_lit[caf](o.ref)
    if cs <= set(KIND[caf]):
        I.p.assume(f)
    elif not (cs & (set(KIND[caf]) | {"NetworkGroup"})):
        I.p.assume(z3.Not(f))
    return f


def lit_contract(caf):
    def c(I, o, args, kwargs):
        b = I.force(args[0])
        if not isinstance(b, Obj) or b.key not in small_of(I):
            return NotImplemented
        lit_of(I, caf, b)
        return SBool(f_lit[caf](b.ref))

    return c


def literal(caf, cls):
    def fn(I):
        p = I.p
        a = with_class(I, "a", caf)
        b = with_class(I, "b", cls)
        if cls == "NetworkGroup":
            for s in members_seg(I, b):
                def u(pp, v):
                    pp.notes["small"] = pp.notes.get("small", frozenset()) | {v.key}
                    pp.assume(z3.Implies(lit_of(I, caf, v), f_lit[caf](b.ref)))

                p.universal(s, u)
        r = I.truth(I.call_method(a, "__and__", [b], {}))
        outcome(I, str(r))
        frame_ok(I, f"{caf} & {cls}")
        if cls != "NetworkGroup":
            p.prove(r == (cls in KIND[caf]), f"{caf} & {cls}: only the literal any")
        elif r:
            p.prove(f_lit[caf](b.ref), f"{caf} & group: some member is the literal any")
        else:
            p.assume(f_lit[caf](b.ref))
            e = lib.pick(I, members_seg(I, b))
            p.assume(lit_of(I, caf, e))
            p.prove(False, f"{caf} & group: a group that contains the literal any matches")

    return fn


FGROUP = {("NetworkGroup", "objects"): TList(TObj(*(MEMBER + CAFADDR)))}


def in_group(I):
    """a group of filter addresses matches what some member matches"""
    p = I.p
    g = with_class(I, "g", "NetworkGroup")
    b = arg(I, TObj(*RULEADDR), "b")
    seg = members_seg(I, g)[0]
    if p.choose(2, "direction") == 0:
        e = p.member(seg)
        p.assume(f_ov(e.ref, b.ref))
        r = I.truth(I.call_method(g, "__and__", [b], {}))
        p.prove(r, "filter list: matches what a member matches")
    else:
        r = I.truth(I.call_method(g, "__and__", [b], {}))
        outcome(I, str(r))
        if r:
            p.prove(z3.Or([f_ov(e.ref, b.ref) for e in p.members.get(seg.key, [])]), "filter list: matches only what some member matches")
    frame_ok(I, "filter list")


def member_contract(I, o, args, kwargs):
    b = I.force(args[0])
    if not isinstance(b, Obj):
        return NotImplemented
    seg = members_seg(I, I.p.notes["g"])[0] if "g" in I.p.notes else None
    if o.key == "g":
        return NotImplemented
    return SBool(f_ov(o.ref, b.ref))


def make_caf(I):
    pass


def constructor(caf):
    def fn(I):
        o = I.construct(I.prog.classes[caf], [], {})
        I.p.prove(isinstance(o, Obj) and I.classes_of(o) == {caf}, f"{caf}() is a {caf}")

    return fn


def proofs():
    out = []
    for caf in KIND:
        for c in RULEADDR:
            need = ["True", "False"] if c == "NetworkGroup" else []
            out.append(Proof(f"{caf} & {c}", literal(caf, c), [f"{caf}.__and__"], need, {(caf, "__and__"): lit_contract(caf)}))
        out.append(Proof(f"{caf}()", constructor(caf), [f"{caf}.__init__"]))
    cs = {(c, "__and__"): member_contract for c in ALLADDR if c != "Webtype"}
    out.append(Proof("group of filter addresses", in_group, ["NetworkGroup.__and__"], ["True", "False"], cs, FGROUP))
    return out
