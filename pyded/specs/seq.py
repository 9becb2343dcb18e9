"""Equality of sequences given as flat maps over sequences of unknown length (order and multiplicity included).

same_seq(I, got, want, name, same): both are decomposed along their common sources; for one arbitrary element of a source
the contributions are compared, so the obligation covers every element of every length."""
from ..drive import *
from ..model import *


def src_of(s):
    return s.src if isinstance(s, FM) else s


def contrib(p, s, e):
    return s.fn(p, e) if isinstance(s, FM) else (Elem(e),)


def default_same(I, a, b):
    return I.elem_same(a, b)


def empty(I, segs, name):
    """the sequence has no element"""
    for s in I.resolve(segs):
        if isinstance(s, Elem):
            I.p.fail(name, "an element too much: " + repr(I.force(I.lazy(s.v))))
        else:
            e = I.p.member(src_of(s))
            empty(I, contrib(I.p, s, e), name)


def same_seq(I, got, want, name, same=default_same, what="same elements in the same order"):
    p = I.p
    got, want = list(I.resolve(tuple(got))), list(I.resolve(tuple(want)))
    nm = f"{name}: {what}"
    while True:
        if not got and not want:
            p.prove(True, nm)
            return
        g = got[0] if got else None
        w = want[0] if want else None
        if isinstance(g, Elem) and isinstance(w, Elem):
            a, b = I.force(I.lazy(g.v)), I.force(I.lazy(w.v))
            p.prove(zt(same(I, a, b)), nm, f"{a!r} / {b!r}")
            got, want = got[1:], want[1:]
            continue
        gs = g is not None and not isinstance(g, Elem)
        ws = w is not None and not isinstance(w, Elem)
        if gs and ws and src_of(g).key == src_of(w).key:
            if p.choose(2, "element or rest") == 0:
                e = p.member(src_of(g))
                same_seq(I, contrib(p, g, e), contrib(p, w, e), name, same, what)
                return
            got, want = got[1:], want[1:]
            continue
        # one side has a sequence the other one has not: it must be empty
        if gs or ws:
            s = g if gs and not (ws and any(not isinstance(x, Elem) and src_of(x).key == src_of(g).key for x in want[1:])) else w
            if s is g:
                side = got
            else:
                side = want
            if p.choose(2, "must be empty") == 0:
                e = p.member(src_of(s))
                empty(I, contrib(p, s, e), nm)
                return
            if side is got:
                got = got[1:]
            else:
                want = want[1:]
            continue
        p.fail(nm, f"left over: {g!r} / {w!r}")
        return
