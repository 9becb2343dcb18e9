"""Contracts of the matching functions, used by the proofs of their callers.

f_ov(a, b)  stands for the result of  address a & address b   (decided by C01 / C03)
f_rm(t, z)  stands for the result of  filter rule t & entry z   (decided by C02 / C06)
"""
import z3

from .addr import *

f_rm = z3.Function("rulematch", Z, Z, B)


def ov_plain(I, o, args, kwargs):
    """contract: address & address has some boolean result that depends on the two objects only, and no effect"""
    b = I.force(args[0])
    if not isinstance(b, Obj):
        return NotImplemented
    return SBool(f_ov(o.ref, b.ref))


def rm_plain(I, o, args, kwargs):
    b = I.force(args[0])
    if not isinstance(b, Obj):
        return NotImplemented
    return SBool(f_rm(o.ref, b.ref))


ALLADDR = LEAF + TOP + COMP + CAFADDR


def ov_contracts(extra=()):
    return {(c, "__and__"): ov_plain for c in ALLADDR if c != "Webtype"}


def both(I, name, got, want):
    """got (python bool on this path) <=> want"""
    I.p.prove(zt(got) == zt(want), name)
