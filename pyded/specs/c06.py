"""C06: NAT entries are selected by their real or mapped addresses.

NATObject & condition:   or over the two sides of  (stated src -> f_ov(condition src, src)) and (stated dst -> ...), a
                         side that states neither never selects.
ACLConfig.filter(f):     z in the result  <=>  (z in the rules, or in a NAT section) and sel(f, z); sel is element-wise
                         by C02 and C04.
"""
from .match import *

NODE = ("NetworkAny", "NetworkAny4", "NetworkAny6", "NetworkObject", "NetworkGroup", "NetworkInterface", "NetworkHost", "Network", "NetworkWildcard")
NATF = {
    ("NATRealNode", "node"): TOpt(TObj(*NODE)),
    ("NATMappedSource", "node"): TOpt(TObj(*NODE)),
    ("NATMappedDestination", "node"): TOpt(TObj(*NODE)),
}


def stated(I, side, end):
    n = I.getattr(side, end)
    if n is None:
        return None
    return I.getattr(n, "node")


def selects(I, nat, cond):
    alts = []
    for s in ("real", "mapped"):
        side = I.getattr(nat, s)
        c = []
        for end in ("src", "dst"):
            x = stated(I, side, end)
            if x is not None:
                c.append(f_ov(I.getattr(I.getattr(cond, end), "host").ref, x.ref))
        if c:
            alts.append(z3.And(c))
    return z3.Or(alts)


def nat_rule(I):
    nat = with_class(I, "nat", "NATObject")
    cond = with_class(I, "cond", "ACLRule")
    if I.p.choose(2, "order") == 0:
        r = I.truth(I.call_method(nat, "__and__", [cond], {}))
        n = "nat & condition"
    else:
        r = I.truth(I.call_method(cond, "__and__", [nat], {}))
        n = "condition & nat"
    outcome(I, f"{n} {r}")
    frame_ok(I, n)
    both(I, n + ": every address a side states matches, on the real or on the mapped side", r, selects(I, nat, cond))


f_sel = z3.Function("sel", Z, Z, B)
f_inr = z3.Function("in_rules", Z, B)
SECT = {k: z3.Function(f"in_nat{k}", Z, B) for k in (1, 2, 3)}
ENTRY = TObj("ACLRule", "NATObject")
CONF = {
    ("ACLConfig", "rules"): TObj("ACLRules"),
    ("ACLRules", "rules"): TList(TObj("ACLRule")),
    ("ACLConfig", "nat"): TRec({1: TList(TObj("NATObject")), 2: TList(TObj("NATObject")), 3: TList(TObj("NATObject"))}, ast=False),
}


def inlist(preds, segs, x):
    out = []
    for s in segs:
        if isinstance(s, SymSeg) and s.key in preds:
            out.append(preds[s.key](x.ref))
        elif isinstance(s, Elem):
            return None
        else:
            return None
    return z3.Or(out) if out else z3.BoolVal(False)


def config_filter(I):
    p = I.p
    c = with_class(I, "config", "ACLConfig")
    f = with_class(I, "caf", "cafBlock")
    preds = {I.segs_of(I.getattr(I.getattr(c, "rules"), "rules"))[0].key: f_inr}
    nat = I.getattr(c, "nat")
    for k in (1, 2, 3):
        preds[I.segs_of(I.getitem(nat, k))[0].key] = SECT[k]

    def run(I, o, args, kwargs):
        """contract of cafBlock.run (C02, C04): the entries of the list the filter selects, one by one, as a new set"""
        l = I.force(args[0])
        if not isinstance(l, Obj) or o.key != f.key or not I.isinst(l, I.prog.classes["ACLRules"]):
            return NotImplemented
        segs = tuple(I.segs_of(I.getattr(l, "rules")))

        def pred(I, x):
            i = inlist(preds, segs, x)
            if i is None:
                raise Unsupported("filtering a list that is not made of the configuration's lists")
            return z3.And(i, f_sel(o.ref, x.ref))

        return I.p.new_set(("pred", pred))

    I.contracts[("cafBlock", "run")] = run
    R = I.force(I.call_method(c, "filter", [f], {}))
    frame_ok(I, "ACLConfig.filter")
    if not isinstance(R, HSet) or not I.is_new(R.oid):
        p.fail("ACLConfig.filter: the result is a set of its own", repr(R))
    z = arg(I, ENTRY, "z")
    got = I.contains(lib.set_node(I, R), z)
    outcome(I, str(got))
    both(I, "ACLConfig.filter: the selected rules and the selected NAT entries of all sections", got,
         z3.And(f_sel(f.ref, z.ref), z3.Or([f_inr(z.ref)] + [SECT[k](z.ref) for k in SECT])))


def proofs():
    return [
        Proof("NATObject & ACLRule", nat_rule, ["NATObject.__and__", "ACLRule.__and__", "ACLNode.__and__", "ACLNode.__init__"],
              ["nat & condition True", "nat & condition False", "condition & nat True", "condition & nat False"], ov_contracts(), NATF),
        Proof("ACLConfig.filter", config_filter, ["ACLConfig.filter"], ["True", "False"], {}, CONF),
    ]
