"""C25: the service table answers name lookups for the right protocol.

getservbyname for every text as name and every text or nothing as protocol, against the rows of the table: the port of the
first row with that name and, in upper case (contract of str.upper), that protocol; None if there is no such row.
services(): one entry per row and protocol, in order, with the number of the row.
"""
import ast

from .match import *


def table(I):
    """the rows of the table, read off its text"""
    k = I.prog.classes["PortUtil"]
    T = []
    for line in ast.literal_eval(k.body["_servnames"]).split("\n"):
        f = [x.strip() for x in line.split("|")]
        if len(f) == 4:
            T += [(f[0].split()[0], p.strip().upper(), int(f[2])) for p in f[1].split(",")]
    return T


def util(I, m, *args):
    return I.force(I.call(I.getattr(I.prog.classes["PortUtil"], m), list(args), {}))


def listing(I):
    p = I.p
    T = table(I)
    got = [I.force(I.lazy(s.v)) for s in I.resolve(I.segs_of(util(I, "services")))]
    p.prove(len(got) == len(T) and len(T) > 0, "services: one entry per row and protocol")
    for g, (n, q, port) in zip(got, T):
        row = [I.force(I.getattr(g, a)) for a in ("name", "protocol", "port")]
        if isinstance(row[1], str):
            row[1] = row[1].strip().upper()
        p.prove(row[:3] == [n, q, port] and type(row[2]) is int, "services: name, protocol and number of the row, in order", f"{row} {n} {q} {port}")
    outcome(I, "end")


def lookup(proto):
    def fn(I):
        p = I.p
        n = arg(I, TStr(), "name")
        T = table(I)
        if proto:
            q = arg(I, TStr(), "proto")
            r = util(I, "getservbyname", n, q)
            u = I.zstr(lib.method(I, q, "upper", [], {}))
        else:
            r = util(I, "getservbyname", n) if p.choose(2, "omitted") else util(I, "getservbyname", n, None)
        frame_ok(I, "lookup")
        hit = lambda row: z3.And(n.t == z3.StringVal(row[0]), u == z3.StringVal(row[1])) if proto else n.t == z3.StringVal(row[0])
        want = z3.IntVal(-1)
        for row in reversed(T):
            want = z3.If(hit(row), z3.IntVal(row[2]), want)
        outcome(I, "unlisted" if r is None else "listed")
        if r is not None and not isinstance(r, (int, SInt)):
            p.fail("lookup: a number or nothing", repr(r))
        p.prove((z3.IntVal(-1) if r is None else I.zint(r)) == want, "lookup: the number of the first row with that name and protocol, or nothing")

    return fn


def proofs():
    F = ["PortUtil.getservbyname", "PortUtil.services"]
    return [Proof("listing", listing, F[1:], ["end"]),
            Proof("lookup without protocol", lookup(False), F, ["listed", "unlisted"]),
            Proof("lookup with protocol", lookup(True), F, ["listed", "unlisted"])]
