"""C01: address matching is exactly set intersection."""
from .addr import *

CLS = LEAF + TOP + COMP


def lemma_common(I):
    """two leaves share an address iff the closed form holds; the witness is common()"""
    p = I.p
    ls = []
    for n in "ab":
        f, b, w = p.fresh(B, n), p.fresh(BV, n + "b"), p.fresh(BV, n + "w")
        ls.append((f, b, w))
    x = fresh_x(I)
    m = lambda l, x: z3.And(x[0] == l[0], ((x[1] ^ l[1]) & ~l[2]) == 0)
    c = common(*ls)
    p.prove(z3.Implies(z3.And(m(ls[0], x), m(ls[1], x)), meet(*ls)), "lemma: shared address implies agreement")
    p.prove(z3.Implies(meet(*ls), z3.And(m(ls[0], c), m(ls[1], c))), "lemma: agreement gives a shared address")


def contracts():
    return {(c, "__and__"): ov_contract(small_of) for c in CLS if c != "Webtype"}


def proofs():
    out = [Proof("lemma shared address", lemma_common)]
    from ..prog import Program

    names = set(Program().classes)
    for a in CLS:
        for b in CLS:
            if a not in names or b not in names:
                continue
            need = ["True"] if (a in TOP or (b in TOP and a in LEAF)) else ["True", "False"]
            if {a, b} == {"NetworkAny4", "NetworkAny6"}:
                need = ["False"]
            elif a == b and a in ("NetworkAny4", "NetworkAny6"):
                need = ["True"]
            out.append(Proof(f"{a} & {b}", check_pair(a, b), [f"{a}.__and__"], need, contracts=contracts()))
    return out
