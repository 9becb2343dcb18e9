"""C23: ports have a consistent total order."""
import ast

import z3

from ..drive import *
from ..model import *

OPS = {"==": ast.Eq, "!=": ast.NotEq, "<": ast.Lt, "<=": ast.LtE, ">": ast.Gt, ">=": ast.GtE}
# a port condition may come without an operator: no operator and an empty one are the same
PORTF = {("Port", "op"): TOpt(TStr()), ("Port", "num"): TStr()}


def lex(I, a, b):
    """(equal, less) of two ports by operator, then by port"""
    def op(o):
        v = I.force(I.getattr(o, "op"))
        return z3.StringVal("") if v is None else I.zstr(v)

    ao, bo = op(a), op(b)
    an, bn = (I.zstr(I.getattr(o, "num")) for o in (a, b))
    for x in (ao, an, bo, bn):
        for y in (ao, an, bo, bn):
            I.p.assume((I.rank(x) == I.rank(y)) == (x == y))
    eq = z3.And(ao == bo, an == bn)
    lt = z3.Or(I.rank(ao) < I.rank(bo), z3.And(ao == bo, I.rank(an) < I.rank(bn)))
    return eq, lt


def check(op, other):
    def fn(I):
        a = with_class(I, "a", "Port")
        b = with_class(I, "b", "Port") if other == "port" else None
        r = I.truth(tob(I, I.compare(OPS[op](), a, b)))
        outcome(I, f"{r}")
        if b is None:
            want = {"==": False, "!=": True, "<": False, "<=": False, ">": True, ">=": True}[op]
            I.p.prove(r == want, f"Port {op} None is {want}")
            return
        eq, lt = lex(I, a, b)
        want = {"==": eq, "!=": z3.Not(eq), "<": lt, "<=": z3.Or(lt, eq), ">": z3.Not(z3.Or(lt, eq)), ">=": z3.Not(lt)}[op]
        I.p.prove(zt(r) == want, f"Port {op} Port is decided by operator, then port")

    return fn


def tob(I, v):
    return SBool(v) if isinstance(v, z3.BoolRef) else v


def same_port(op):
    def fn(I):
        a = with_class(I, "a", "Port")
        r = I.truth(tob(I, I.compare(OPS[op](), a, a)))
        I.p.prove(r == (op in ("==", "<=", ">=")), f"Port {op} itself")

    return fn


def proofs():
    out = []
    for op in OPS:
        f = {"==": "Port.__eq__", "!=": "Port.__ne__"}.get(op, "Port.__lt__")
        out.append(Proof(f"Port {op} Port", check(op, "port"), [f], ["True", "False"], types=PORTF))
        out.append(Proof(f"Port {op} None", check(op, None), [f], types=PORTF))
        out.append(Proof(f"Port {op} self", same_port(op), [f], types=PORTF))
    return out
