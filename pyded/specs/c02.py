"""C02: a filter selects exactly the matching rules."""
from .match import *

f_glob = lib.f_fnm


def is_glob(t):
    n = z3.Length(t)
    return z3.And(n > 0, z3.SubString(t, 0, 1) == z3.StringVal("/"), z3.SubString(t, n - 1, 1) == z3.StringVal("/"))


def inner(t):
    return z3.SubString(t, 1, z3.Length(t) - 2)


def idmatch(I, a, b):
    """the ids of filter a and rule b match"""
    ia, ib = I.getattr(a, "id"), I.getattr(b, "id")
    if ia is None or ib is None:
        return z3.BoolVal(True)
    x, y = I.zstr(ia), I.zstr(ib)
    e = z3.StringVal("")
    # a pattern needs something between the slashes
    ga = z3.And(is_glob(x), z3.Length(x) > 2)
    gb = z3.And(is_glob(y), z3.Length(y) > 2)
    m = z3.If(ga, f_glob(y, inner(x)), z3.If(z3.And(gb, z3.Not(is_glob(x))), f_glob(x, inner(y)), x == y))
    return z3.Or(x == e, y == e, m)


def rule_pair(I):
    p = I.p
    a = with_class(I, "filter", "ACLRule")
    b = with_class(I, "rule", "ACLRule")
    # slash-only ids ("/", "//") are not ids of any dialect
    for o in (a, b):
        i = I.getattr(o, "id")
        if i is not None:
            t = I.zstr(i)
            p.assume(z3.And(t != z3.StringVal("/"), t != z3.StringVal("//")))
    r = I.truth(I.call_method(a, "__and__", [b], {}))
    outcome(I, str(r))
    frame_ok(I, "rule & rule")
    s = [f_ov(I.getattr(I.getattr(a, n), "host").ref, I.getattr(I.getattr(b, n), "host").ref) for n in ("src", "dst")]
    both(I, "rule & rule: ids, sources and destinations match", r, z3.And(idmatch(I, a, b), *s))


def node_pair(I):
    a = with_class(I, "a", "ACLNode")
    b = with_class(I, "b", "ACLNode")
    r = I.truth(I.call_method(a, "__and__", [b], {}))
    outcome(I, str(r))
    frame_ok(I, "node & node")
    both(I, "node & node: the addresses match, ports play no role", r, f_ov(I.getattr(a, "host").ref, I.getattr(b, "host").ref))


f_in = z3.Function("in_rules", Z, B)
f_it = z3.Function("in_target", Z, B)
ENTRY = TObj("ACLRule", "NATObject")
RULESF = {("ACLRules", "rules"): TList(ENTRY)}


def tracked(I, v, pred):
    """the elements of a symbolic list satisfy the membership predicate"""
    for s in I.segs_of(v):
        if isinstance(s, SymSeg):
            I.p.universal(s, lambda pp, e: pp.assume(pred(e.ref)))
    return v


def filter_(I):
    p = I.p
    rules = with_class(I, "rules", "ACLRules")
    rl = tracked(I, I.getattr(rules, "rules"), f_in)
    target = tracked(I, arg(I, TList(TObj("ACLRule")), "target"), f_it)
    z = None
    if p.choose(2, "direction") == 0:
        # an entry of the list that some condition matches is returned
        z = p.member(I.segs_of(rl)[0])
        t = p.member(I.segs_of(target)[0])
        p.assume(f_rm(t.ref, z.ref))
        R = I.force(I.call_method(rules, "filter", [target], {}))
        frame_ok(I, "filter")
        outcome(I, "selected")
        p.prove(I.contains(lib.set_node(I, R), z), "filter: every rule some condition matches is returned")
    else:
        R = I.force(I.call_method(rules, "filter", [target], {}))
        frame_ok(I, "filter")
        z = arg(I, ENTRY, "z")
        if I.contains(lib.set_node(I, R), z):
            outcome(I, "returned")
            p.prove(f_in(z.ref), "filter: only rules of the list are returned")
            ts = p.members.get(I.segs_of(target)[0].key, [])
            p.prove(z3.Or([f_rm(t.ref, z.ref) for t in ts]), "filter: only rules some condition matches are returned")


def filter_type(I):
    rules = with_class(I, "rules", "ACLRules")
    target = arg(I, TList(TObj("ACLRule")), "target")
    R = I.force(I.call_method(rules, "filter", [target], {}))
    I.p.prove(isinstance(R, HSet) and I.is_new(R.oid), "filter: the result is a set of its own")


def proofs():
    rm = {("ACLRule", "__and__"): rm_plain, ("NATObject", "__and__"): rm_plain}
    return [
        Proof("ACLRule & ACLRule", rule_pair, ["ACLRule.__and__", "ACLNode.__and__"], ["True", "False"], ov_contracts()),
        Proof("ACLNode & ACLNode", node_pair, ["ACLNode.__and__"], ["True", "False"], ov_contracts()),
        Proof("ACLRules.filter", filter_, ["ACLRules.filter"], ["selected", "returned"], rm, RULESF),
        Proof("ACLRules.filter result", filter_type, ["ACLRules.filter"], [], rm, RULESF),
    ]
