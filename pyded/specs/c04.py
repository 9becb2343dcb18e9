"""C04: CAF operators are set algebra with intersect binding tightest.

sel(f, z): entry z is in the result of running f on the rule list under consideration (one fixed list per proof).
"""
import itertools
import os

from .match import *
from .seq import same_seq

f_sel = z3.Function("sel", Z, B, Z, B)
f_inr = z3.Function("in_rules", Z, B)
OPC = ("cafOpUnion", "cafOpIntersect", "cafOpExcept")
ENTRY = TObj("ACLRule", "NATObject")


def is_rules(I, r):
    return isinstance(r, Obj) and r.key == "rules"


def run_contract(I, o, args, kwargs):
    """result of a sub-filter: a new set, membership sel(sub-filter, z); no effect"""
    if o.key == "self":
        return NotImplemented
    if not is_rules(I, I.force(args[0])):
        return NotImplemented
    return I.p.new_set(("pred", lambda I, x: f_sel(o.ref, z3.BoolVal(True), x.ref)))


def filter_contract(I, o, args, kwargs):
    """contract of ACLRules.filter (C02): the entries of the list that some condition matches, as a new set"""
    segs = I.segs_of(args[0])
    if not all(isinstance(s, Elem) for s in segs) or not is_rules(I, o):
        return NotImplemented
    ts = [I.force(s.v) for s in segs]

    def pred(I, x):
        return z3.And(f_inr(x.ref), z3.Or([f_rm(t.ref, x.ref) for t in ts]))

    return I.p.new_set(("pred", pred))


def member(I, R, z):
    return I.contains(lib.set_node(I, R), z)


def verbose(I):
    return [[], [False], [True]][I.p.choose(3, "verbose")]


def op(cls):
    def fn(I):
        p = I.p
        o = with_class(I, "self", cls)
        rules = with_class(I, "rules", "ACLRules")
        a, b = I.getattr(o, "a"), I.getattr(o, "b")
        R = I.force(I.call_method(o, "run", [rules] + verbose(I), {}))
        frame_ok(I, f"{cls}.run")
        if not isinstance(R, HSet) or not I.is_new(R.oid):
            p.fail(f"{cls}.run: the result is a set of its own", repr(R))
        z = arg(I, ENTRY, "z")
        got = member(I, R, z)
        outcome(I, str(got))
        sa, sb = (f_sel(x.ref, z3.BoolVal(True), z.ref) for x in (a, b))
        want = {"cafOpUnion": z3.Or(sa, sb), "cafOpIntersect": z3.And(sa, sb), "cafOpExcept": z3.And(sa, z3.Not(sb))}[cls]
        both(I, f"{cls}.run: the result is the set operation of the two sub-results", got, want)

    return fn


def block(I):
    p = I.p
    o = with_class(I, "self", "cafBlock")
    rules = with_class(I, "rules", "ACLRules")
    e = I.getattr(o, "expr")
    R = I.force(I.call_method(o, "run", [rules] + verbose(I), {}))
    frame_ok(I, "cafBlock.run")
    if not isinstance(R, HSet) or not I.is_new(R.oid):
        p.fail("cafBlock.run: the result is a set of its own", repr(R))
    z = arg(I, ENTRY, "z")
    got = member(I, R, z)
    outcome(I, str(got))
    if I.isinst(e, I.prog.classes["ACLRule"]):
        outcome(I, "clause")
        both(I, "cafBlock.run: a clause selects what the rule filter selects", got, z3.And(f_inr(z.ref), f_rm(e.ref, z.ref)))
    else:
        outcome(I, "expression")
        both(I, "cafBlock.run: brackets do not change the result", got, f_sel(e.ref, z3.BoolVal(True), z.ref))


def op_init(cls):
    def fn(I):
        p = I.p
        a = arg(I, TObj("ACLRule", "cafBlock", *OPC), "a")
        b = arg(I, TObj("ACLRule", "cafBlock", *OPC), "b")
        o = I.construct(I.prog.classes[cls], [a, b], {})
        frame_ok(I, f"{cls}()")
        for x, n in ((a, "a"), (b, "b")):
            f = I.getattr(o, n)
            if I.isinst(x, I.prog.classes["ACLRule"]):
                outcome(I, "rule")
                ok = isinstance(f, Obj) and I.classes_of(f) == {"cafBlock"} and I.same(I.getattr(f, "expr"), x)
                p.prove(zt(ok), f"{cls}(): operand {n} is a block of the given clause")
            else:
                outcome(I, "block")
                p.prove(zt(I.same(f, x)), f"{cls}(): operand {n} is the given one")

    return fn


def block_init(I):
    e = arg(I, TObj("ACLRule", "cafBlock", *OPC), "e")
    o = I.construct(I.prog.classes["cafBlock"], [e], {})
    frame_ok(I, "cafBlock()")
    I.p.prove(zt(I.same(I.getattr(o, "expr"), e)), "cafBlock(e).expr is e")


# ---------------------------------------------------------------- operator chains
def denote(vals, ops):
    """grouping of the statement: intersect first, then union and except from left to right"""
    vals, ops = list(vals), list(ops)
    i = 0
    while i < len(ops):
        if ops[i] == "intersect":
            vals[i : i + 2] = [z3.And(vals[i], vals[i + 1])]
            del ops[i]
        else:
            i += 1
    r = vals[0]
    for o, v in zip(ops, vals[1:]):
        r = z3.Or(r, v) if o == "union" else z3.And(r, z3.Not(v))
    return r


def value(I, x, leaf):
    """membership of the fixed entry in the result of the expression tree, by the contracts of run"""
    x = I.force(x)
    c = I.one_class(x).name if x.fresh else None
    if x.key in leaf:
        return leaf[x.key]
    if c == "cafBlock":
        return value(I, I.getattr(x, "expr"), leaf)
    a, b = value(I, I.getattr(x, "a"), leaf), value(I, I.getattr(x, "b"), leaf)
    return {"cafOpUnion": lambda: z3.Or(a, b), "cafOpIntersect": lambda: z3.And(a, b), "cafOpExcept": lambda: z3.And(a, z3.Not(b))}[c]()


def chain(ops):
    def fn(I):
        p = I.p
        sem = I.construct(I.prog.classes["RealCafSemantics"], [], {})
        n = len(ops) + 1
        xs = [arg(I, TObj(*(("ACLRule", "cafBlock") if n <= 4 else ("cafBlock",))), f"x{i}") for i in range(n)]
        leaf = {x.key: z3.Bool(f"in{i}") for i, x in enumerate(xs)}
        for i, x in enumerate(xs):
            for y in xs[:i]:
                p.assume(x.ref != y.ref)
        l = [xs[0]]
        for o, x in zip(ops, xs[1:]):
            l += [o, x]
        r = I.force(I.call_method(sem, "expr", [p.new_list([Elem(v) for v in l])], {}))
        name = "expr: intersect binds tighter than union and except, these group from the left"
        if not isinstance(r, Obj):
            p.fail(name, repr(r))
        p.prove(value(I, r, leaf) == denote([leaf[x.key] for x in xs], ops), name)

    return fn


# ---- chains of any length: invariants of the rewriting loops
#
# A list is: operand, then any number of (operator, operand) pairs.  Its meaning is a fold over it with the state
# (acc, pending operator, term): intersect extends the term, union and except apply the pending operator.  A part of unknown
# length is an uninterpreted function of the state, so equal states before it give equal meanings.
NODE = TObj("ACLRule", "cafBlock", *OPC)
f_val = z3.Function("value", Z, B)


def node_value(I, x):
    x = I.force(x)
    if not isinstance(x, Obj):
        raise Unsupported(f"no operand: {x!r}")
    if not x.fresh:
        return f_val(x.ref)
    c = I.one_class(x).name
    if c == "cafBlock":
        return node_value(I, I.getattr(x, "expr"))
    if c not in OPC:
        raise Unsupported(f"operand of class {c}")
    a, b = node_value(I, I.getattr(x, "a")), node_value(I, I.getattr(x, "b"))
    return {"cafOpUnion": z3.Or(a, b), "cafOpIntersect": z3.And(a, b), "cafOpExcept": z3.And(a, z3.Not(b))}[c]


def apply(acc, op, t):
    return z3.If(op == 0, t, z3.If(op == 1, z3.Or(acc, t), z3.And(acc, z3.Not(t))))


def step(state, op, v):
    acc, aop, t = state
    if op == "intersect":
        return acc, aop, z3.And(t, v)
    return apply(acc, aop, t), z3.IntVal(1 if op == "union" else 2), v


def meaning(I, segs):
    """None if the content is no operator chain"""
    st, i = None, 0
    segs = tuple(segs)
    while i < len(segs):
        s = segs[i]
        if isinstance(s, FM):
            if st is None:
                return None
            k = str(s.src.key)
            st = tuple(z3.Function(f"fold{n}:{k}", B, Z, B, so)(*st) for n, so in ((0, B), (1, Z), (2, B)))
            i += 1
        elif not isinstance(s, Elem):
            return None
        elif st is None:
            st = (z3.BoolVal(False), z3.IntVal(0), node_value(I, s.v))
            i += 1
        else:
            if i + 1 >= len(segs) or not isinstance(segs[i + 1], Elem) or s.v not in ("union", "intersect", "except"):
                return None
            st = step(st, s.v, node_value(I, segs[i + 1].v))
            i += 2
    return None if st is None else apply(*st)


def pair(p, e):
    return (Elem(e[0]), Elem(e[1]))


def pairs(I, ops, what):
    t = TTuple(TEnum(*sorted(ops)), NODE)

    def make(p, name):
        return t.make(p.I, lambda suf, sort: z3.Const(name + suf, sort), name)

    return SymSeg((what, I.p._bump()), make)


def node(I, what):
    return arg(I, NODE, f"{what}!{I.p._bump()}")


def operand_list(I, fr):
    ls = {v.oid: v for v in fr.locals.values() if isinstance(v, HList)}
    new = {k: v for k, v in ls.items() if I.is_new(k)}
    inp = I.p.notes["input"]
    mine = {k: v for k, v in new.items() if k != inp.oid}
    for c in (mine, ls):
        if len(c) == 1:
            return next(iter(c.values()))
    raise Unsupported("the list of operands and operators")


GROUP = "expr: a rewriting step keeps the meaning (intersect first, then from left to right)"


def over_chain(I, L, st, fr, it):
    """for loop over the positions of an operator chain of any length: it ends without a break, or leaves at one of the
    positions, those before it being passed without a break"""
    p = I.p
    c = p.content(L)
    if all(isinstance(s, Elem) for s in c):
        return NotImplemented
    if isinstance(it, HList):
        kind, lo, by = "items", 0, 1
        same = it.oid == L.oid
    elif getattr(it, "numbers", None) is not None:
        kind, segs, lo, by = it.numbers
        same = len(segs) == len(c) and all(a is b for a, b in zip(segs, c))
    else:
        return NotImplemented
    if not same:
        return NotImplemented
    if not (len(c) == 2 and isinstance(c[0], Elem) and isinstance(c[1], FM) and c[1].fn is pair) or lo > 1 or by > 2:
        raise Unsupported("loop over a chain in this form")
    at_op = lo == 1 or by == 1
    at_val = lo == 0 or by == 1
    v0, seg = c[0].v, c[1].src
    from ..interp import stored_names, Poison, BreakExc, ContinueExc, ReturnExc

    names = stored_names(st.body + [st.target])

    def run(i, item):
        """-> True: the body ended normally"""
        I.assign(st.target, {"items": item, "range": i, "enumerate": (i, item)}[kind], fr)
        try:
            I.block(st.body, fr)
        except ContinueExc:
            pass

    def passed(i, item):
        """that position is passed: no break, no effect"""
        loc, h, mark = dict(fr.locals), p.heap[L.oid], len(p.wlog)
        for n in names:
            fr.locals[n] = Poison(n)
        try:
            run(i, item)
        except (BreakExc, ReturnExc, PyExc):
            raise PathInfeasible()
        finally:
            fr.locals = loc
        if any(not I.is_new(w[1]) or w[1] == L.oid for w in p.wlog[mark:]):
            raise Unsupported("the loop goes on after a change")
        p.heap[L.oid] = h

    def some(seg, what):
        return SymSeg((seg.key, what, p._bump()), seg.make, seg)

    def place(e, before, after, which):
        """the list with the pair e made explicit; -> index of its operator / operand"""
        op, v = e
        pre = (Elem(v0),)
        if before is not None:
            pre += (FM(before[0], pair), Elem(before[1][0]), Elem(before[1][1]))
        p.heap[L.oid] = pre + (Elem(op), Elem(v)) + after
        if before is None:
            return 1 + which
        n = p.fresh(z3.IntSort(), "n")
        p.assume(n >= 1)
        t = 2 * n + 1 + which
        I.mark_place(L, t, len(pre) + which)
        return SInt(t)

    def passed_pair(pp, e):
        h = p.heap[L.oid]
        nt = p.notes.get(("place", L.oid))
        try:
            for which, item in [(0, e[0])] * at_op + [(1, e[1])] * at_val:
                # what stands before and after it is not known
                x = seg.make(p, f"b!{p._bump()}")
                before = (some(seg, "any"), x) if p.choose(2, "first pair") else None
                i = place(e, before, (FM(some(seg, "any"), pair),), which)
                passed(i, item)
        finally:
            p.heap[L.oid] = h
            if nt is not None:
                p.notes[("place", L.oid)] = nt

    def first():
        if lo == 0:
            passed(0, v0)

    def leave(i, item):
        for n in names:
            fr.locals[n] = Poison(n)
        try:
            run(i, item)
        except BreakExc:
            return True
        raise PathInfeasible()

    k = p.choose(6, "end of the loop")
    if k == 0:
        first()
        p.universal(seg, passed_pair)
        for n in names:
            fr.locals[n] = Poison(n)
        I.block(st.orelse, fr)
        return None
    if k == 1:
        if lo:
            raise PathInfeasible()
        leave(0, v0)
        return None
    which = (k - 2) % 2
    if which == 0 and not at_op or which == 1 and not at_val:
        raise PathInfeasible()
    first()
    before = None
    if k >= 4:
        P = some(seg, "pre")
        e1 = p.member(seg)
        p.universal(P, passed_pair)
        passed_pair(p, e1)
        before = (P, e1)
    e = p.member(seg)
    if p.choose(2, "last pair"):
        o2, v2 = p.member(seg)
        after = (Elem(o2), Elem(v2), FM(some(seg, "suf"), pair))
    else:
        after = ()
    if which and at_op:
        i = place(e, before, after, 0)
        passed(i, e[0])
    i = place(e, before, after, which)
    p.notes["flat"] = p.heap[L.oid]
    p.require_feasible()
    leave(i, e[which])
    return None


def any_chain(I):
    p = I.p
    sem = I.construct(I.prog.classes["RealCafSemantics"], [], {})
    inp = p.new_list([Elem(node(I, "x")), FM(pairs(I, ("union", "intersect", "except"), "input"), pair)])
    p.notes["input"] = inp
    p.notes["ops"] = frozenset(("union", "intersect", "except"))
    p.notes["loops"] = 0
    want = p.content(inp)
    name = "expr: the loops start from the given operands and operators, in order"

    def unchanged(L):
        c, w = p.content(L), p.notes.get("last", want)
        if len(c) == len(w) and all(a is b for a, b in zip(c, w)):
            p.prove(True, name)
        elif p.choose(2, "same list"):
            same_seq(I, c, w, name)
            raise PathInfeasible()

    def while_hook(I, st, fr):
        from ..interp import BreakExc, ContinueExc

        if p.notes.get("inside"):
            return NotImplemented
        L = operand_list(I, fr)
        unchanged(L)
        p.notes["loops"] += 1
        n = p.notes["loops"]
        ops = p.notes["ops"]
        if not ops:
            return NotImplemented
        seg = pairs(I, ops, "pairs")
        flat = p.heap[L.oid] = (Elem(node(I, "v")), FM(seg, pair))
        p.notes["flat"] = flat
        p.notes["list"] = L
        p.notes["inside"] = True
        out = None
        if I.truth(I.eval(st.test, fr)):
            try:
                I.block(st.body, fr)
            except BreakExc:
                out = "break"
            except ContinueExc:
                pass
        else:
            out = "end"
        p.notes["inside"] = False
        c, old = p.content(L), p.notes["flat"]
        mc, mo = meaning(I, c), meaning(I, old)
        if mc is None:
            p.fail(GROUP, f"no operator chain: {c!r}")
        p.prove(mc == mo, GROUP)
        if out is None:
            outcome(I, f"step {n}")
            fm = lambda x: [s.src.key for s in x if isinstance(s, FM)]
            p.prove(fm(c) == fm(old) and len(c) < len(old), "expr: a rewriting step makes the list shorter")
            p.prove(all(s.v in ops for s in c if isinstance(s, Elem) and isinstance(s.v, str)), "expr: a rewriting step adds no operator")
            raise PathInfeasible()
        if len(c) != 2 or c[1] is not flat[1]:
            raise Unsupported("the loop ends in this form")

        def left():
            e = p.member(seg)
            p.require_feasible()
            return e[0]

        p.notes["ops"] = frozenset(p.subexplore(left))
        outcome(I, f"end {n}")
        if not p.notes["ops"]:
            p.heap[L.oid] = c[:1]
        elif out == "end":
            I.block(st.orelse, fr)
        p.notes["last"] = p.heap[L.oid]
        return None

    def for_hook(I, st, fr, it):
        if not p.notes.get("inside"):
            return NotImplemented
        return over_chain(I, p.notes["list"], st, fr, it)

    I.while_hook, I.for_hook = while_hook, for_hook
    r = I.force(I.call_method(sem, "expr", [inp], {}))
    I.while_hook = I.for_hook = None
    if not p.notes["loops"]:
        raise Unsupported("no rewriting loop")
    L = p.notes["list"]
    c = p.content(L)
    p.prove(not p.notes["ops"], "expr: no operator is left", str(sorted(p.notes["ops"])))
    outcome(I, "result")
    p.prove(len(c) == 1 and isinstance(r, Obj) and zt(I.same(r, c[0].v)), "expr: the result is the one operand that is left")


def single(I):
    sem = I.construct(I.prog.classes["RealCafSemantics"], [], {})
    x = arg(I, TObj("ACLRule", "cafBlock"), "x")
    r = I.force(I.call_method(sem, "expr", [x], {}))
    I.p.prove(zt(I.same(r, x)), "expr: a single clause or block is itself")


def set_expr(I):
    """( expr ) and the whole filter are a block of the expression"""
    sem = I.construct(I.prog.classes["RealCafSemantics"], [], {})
    x = arg(I, TObj("ACLRule", "cafBlock", *OPC), "x")
    if I.p.choose(2, "which"):
        r = I.force(I.call_method(sem, "set_expr", [I.p.new_list([Elem("("), Elem(x), Elem(")")])], {}))
    else:
        r = I.force(I.call_method(sem, "grammar", [x], {}))
    ok = isinstance(r, Obj) and I.classes_of(r) == {"cafBlock"} and I.same(I.getattr(r, "expr"), x)
    I.p.prove(zt(ok), "brackets: a block of exactly the bracketed expression")


MAXOPS = 5 if os.environ.get("VERIF_TIER") == "thorough" else 4


def expr_r(I):
    """set {op set}+ is handed on as the flat list of operands and operators"""
    p = I.p
    sem = I.construct(I.prog.classes["RealCafSemantics"], [], {})
    x = arg(I, TObj("ACLRule", "cafBlock"), "x")
    l = arg(I, TList(TUnion(TEnum("union", "intersect", "except"), TObj("ACLRule", "cafBlock"))), "rest")
    r = I.force(I.call_method(sem, "expr_r", [p.new_list([Elem(x), Elem(p.new_list([Elem(l)]))])], {}))
    segs = I.resolve(I.segs_of(r))
    ok = len(segs) == 2 and isinstance(segs[0], Elem) and I.same(segs[0].v, x) is True and segs[1] is p.content(l)[0]
    p.prove(zt(ok), "expr_r: the operands and operators in order, none lost", repr(segs))
    frame_ok(I, "expr_r")


BOUND = "chains of at most 4 operators (5 in the thorough tier)"


def proofs():
    cs = {("cafBlock", "run"): run_contract, ("cafOp", "run"): run_contract, ("ACLRules", "filter"): filter_contract}
    out = [Proof(f"{c}.run", op(c), [f"{c}.run", "cafOp.run"], ["True", "False"], cs) for c in OPC]
    out.append(Proof("cafBlock.run", block, ["cafBlock.run"], ["True", "False", "clause", "expression"], cs))
    out += [Proof(f"{c}()", op_init(c), ["cafOp.__init__"], ["rule", "block"]) for c in OPC]
    out.append(Proof("cafBlock()", block_init, ["cafBlock.__init__"]))
    out.append(Proof("expr of one operand", single, ["RealCafSemantics.expr"]))
    out.append(Proof("brackets", set_expr, ["RealCafSemantics.set_expr", "RealCafSemantics.grammar"]))
    out.append(Proof("expr_r", expr_r, ["RealCafSemantics.expr_r"]))
    out.append(Proof("chains of any length", any_chain, ["RealCafSemantics.expr"], ["step 1", "end 1", "result"], budget=400, standin=BOUND))
    for n in range(1, MAXOPS + 1):
        for ops in itertools.product(("union", "intersect", "except"), repeat=n):
            out.append(Proof("chain " + " ".join(ops), chain(ops), ["RealCafSemantics.expr"], bound=BOUND))
    return out
