"""C16: matching and filtering modify nothing.

Every function that takes part in matching or filtering is executed as in the proofs of what it computes (C01 - C06, C23),
from every state its contracts allow; the only obligation kept is its frame: on every path, normal or exceptional, no
object that existed before the call is written.  The results are functions of the configuration and the filter alone
(the functional contracts of C01 - C06), so that with an unchanged configuration a second run gives the same result.
"""
from ..core import *
from ..drive import *
from ..interp import *
from . import c01, c02, c03, c04, c06, c23

def kept(name):
    """the frame, and that results are new sets (which the frames of the callers rest on)"""
    return "modifies nothing" in name or "set of its own" in name



class Skip(Exception):
    pass


def only_frame(pr):
    def fn(I):
        p = I.p
        real = type(p).prove

        def prove(t, name, detail=""):
            if kept(name):
                if "modifies nothing" in name:
                    p.notes["framed"] = True
                return real(p, t, name, detail)

        def fail(name, detail=""):
            if kept(name):
                return real(p, z3.BoolVal(False), name, detail)
            raise Skip()

        p.prove, p.fail = prove, fail
        try:
            try:
                pr.fn(I)
            except PyExc:
                pass
            except Skip:
                pass
            if not p.notes.get("framed"):
                frame_ok(I, pr.name)
        finally:
            del p.prove, p.fail

    return Proof(pr.name, fn, pr.functions, (), pr.contracts, pr.types, pr.budget, pr.rec)


CONSTRUCTORS = ("expr", "brackets", "chain", "lemma")


def proofs():
    out = []
    for m in (c01, c02, c03, c04, c06, c23):
        for pr in m.proofs():
            if pr.bound or pr.name.endswith("()") or pr.name.startswith(CONSTRUCTORS):
                continue
            out.append(only_frame(pr))
    return out
