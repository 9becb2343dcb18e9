"""C05: a CAF clause means the conjunction of its parts."""
import re

from .match import *

WORDS = {"any": "NetworkAny", "any4": "NetworkAny4", "any6": "NetworkAny6", "ANY": "cafNetworkAny", "ANY4": "cafNetworkAny4", "ANY6": "cafNetworkAny6"}
LIT = ("Network", "NetworkHost", "NetworkAny", "NetworkAny4", "NetworkAny6") + CAFADDR


def sem(I):
    return I.construct(I.prog.classes["RealCafSemantics"], [], {})


def rec(I, fields):
    return I.p.new_dict([Elem((k, v)) for k, v in fields.items()], ast=True)


def word(w):
    def fn(I):
        r = I.force(I.call_method(sem(I), "network", [rec(I, {"address": w})], {}))
        I.p.prove(isinstance(r, Obj) and I.classes_of(r) == {WORDS[w]}, f"literal {w} is a {WORDS[w]}")

    return fn


def addr_text(I):
    """text of an address: not one of the keywords (grammar: digits, dots, colons, hexadecimal digits)"""
    s = arg(I, TStr(nonempty=True), "address")
    for w in WORDS:
        I.p.assume(s.t != z3.StringVal(w))
    I.p.assume(lib.f_ipok(s.t))
    return s


def host(I):
    p = I.p
    s = addr_text(I)
    r = I.force(I.call_method(sem(I), "network", [rec(I, {"address": s, "netmask": None})], {}))
    if not (isinstance(r, Obj) and I.classes_of(r) == {"NetworkHost"}):
        p.fail("literal a.b.c.d is a host", repr(r))
    ip = lib.ip_address(I, s)
    got = I.getattr(r, "address")
    p.prove(zt(I.eq(got, ip)), "literal a.b.c.d is exactly that host")


def net(I):
    p = I.p
    s = addr_text(I)
    m = arg(I, TStr(nonempty=True), "mask")
    p.assume(lib.f_netok(lib.f_ip6(s.t), m.t))
    r = I.force(I.call_method(sem(I), "network", [rec(I, {"address": s, "netmask": m})], {}))
    if not (isinstance(r, Obj) and I.classes_of(r) == {"Network"}):
        p.fail("literal addr/len is a network", repr(r))
    ip = lib.ip_address(I, s)
    h = lib.net_of(I, ip, m)
    got = I.getattr(r, "network")
    p.prove(zt(I.eq(got, SNet(ip.is6, ip.val & ~h, h))), "literal addr/len is the network containing the address")


def members(I, h):
    """the listed addresses an address expression built by the filter stands for"""
    if h.fresh and I.classes_of(h) <= {"NetworkGroup"}:
        out = []
        for s in I.p.content(I.getattr(h, "objects")):
            out.append(s)
        return tuple(out)
    return (Elem(h),)


def nets(I):
    """several literals after one src or dst: any of them"""
    p = I.p
    l = arg(I, TList(TObj(*LIT), nonempty=True), "object")
    seg = p.content(l)
    lib.pick(I, seg)
    r = I.force(I.call_method(sem(I), "net", [rec(I, {"object": l})], {}))
    frame_ok(I, "net")
    same_set(I, r, seg, "net")


def same_set(I, h, want, name):
    p = I.p
    got = members(I, h)
    outcome(I, "group" if h.fresh else "single")
    if p.choose(2, "direction"):
        e = lib.pick(I, want)
        p.prove(I.in_segs(got, e), f"{name}: every listed address is in the condition")
    else:
        e = lib.pick(I, got)
        p.prove(I.in_segs(want, e), f"{name}: only listed addresses are in the condition")


# grammar: every ip part states one direction with its addresses
PART = TRec({"ip": TTuple(TTuple(TEnum("src", "dst"), TObj(*(LIT + ("NetworkGroup",)))), as_list=True)})


def listed(I, objs, side):
    def one(p, e):
        e = I.force(e)
        if e is None:
            return ()
        out = []
        for s in p.content(I.getattr(e, "ip")):
            if I.tr(I.eq(s.v[0], side)):
                out.append(Elem(I.lazy(s.v[1])))
        return tuple(out)

    return tuple(FM(s, one, "parts") for s in objs)


def belongs_to(other):
    """is the list the collection of the other side? (a proof about one side over-approximates the other one)"""

    def is_other(I, l):
        for k, f in I.p.heap.items():
            if k[0] == "obj" and isinstance(f, dict) and isinstance(f.get("objects"), HList) and f["objects"].oid == l.oid:
                if f.get("name") == other:
                    return True
                for d, c in I.p.heap.items():
                    if d[0] == "new" and isinstance(c, tuple) and any(
                        isinstance(s, Elem) and isinstance(s.v, tuple) and len(s.v) == 2 and s.v[0] == other
                        and isinstance(s.v[1], Obj) and s.v[1].key == k[1] for s in c):
                        return True
        return False

    return is_other


def clause(side):
    def fn(I):
        p = I.p
        I.abstract = belongs_to({"src": "dst", "dst": "src"}[side])
        ident = arg(I, TOpt(TStr()), "id")
        l = arg(I, TList(TUnion(TConst(None), PART)), "objects")
        segs = p.content(l)
        r = I.force(I.call_method(sem(I), "set", [rec(I, {"id": ident, "objects": l})], {}))
        frame_ok(I, "clause")
        if not (isinstance(r, Obj) and I.classes_of(r) == {"ACLRule"}):
            p.fail("clause: a rule", repr(r))
        p.prove(zt(I.eq(I.getattr(r, "id"), ident)), "clause: the id is the stated one, or none")
        h = I.getattr(I.getattr(r, side), "host")
        want = listed(I, segs, side)
        if h.fresh and I.classes_of(h) == {"NetworkAny"}:
            outcome(I, "absent")
            try:
                e = lib.pick(I, want)
            except PathInfeasible:
                raise
            p.prove(False, f"clause: {side} is unrestricted only if no {side} is listed")
        else:
            same_set(I, h, want, f"clause {side}")

    return fn


def absent(I):
    p = I.p
    ident = arg(I, TOpt(TStr()), "id")
    r = I.force(I.call_method(sem(I), "set", [rec(I, {"id": ident, "objects": p.new_list([Elem(None)])})], {}))
    for side in ("src", "dst"):
        h = I.getattr(I.getattr(r, side), "host")
        p.prove(I.classes_of(h) == {"NetworkAny"}, f"clause without {side}: any")


def block(I):
    """( expr ) with comments around it, optionally with an id in front"""
    p = I.p
    ident = arg(I, TOpt(TStr()), "id")
    b = arg(I, TObj("cafBlock"), "b")
    pre = [None, None][: p.choose(3, "comments before")]
    post = [None, None][: p.choose(2, "comments after")]
    l = p.new_list([Elem(v) for v in pre + [b] + post])
    r = I.force(I.call_method(sem(I), "set", [rec(I, {"id": ident, "objects": l})], {}))
    frame_ok(I, "id block")
    if ident is None:
        outcome(I, "plain")
        p.prove(zt(I.same(r, b)), "block without an id is the block")
        return
    outcome(I, "id")
    name = "id in front of a block: the intersection of the block with the id, nothing else restricted"
    e = I.getattr(r, "expr") if isinstance(r, Obj) and I.classes_of(r) == {"cafBlock"} else r
    if not (isinstance(e, Obj) and I.classes_of(e) == {"cafOpIntersect"}):
        p.fail(name, repr(e))
    x, y = I.getattr(e, "a"), I.getattr(e, "b")
    x, y = (x, y) if y.key == b.key else (y, x)
    p.prove(zt(I.same(y, b)), name)
    rule = x if I.classes_of(x) == {"ACLRule"} else I.getattr(x, "expr")
    p.prove(zt(I.eq(I.getattr(rule, "id"), ident)), name)
    for side in ("src", "dst"):
        p.prove(I.classes_of(I.getattr(I.getattr(rule, side), "host")) == {"NetworkAny"}, name)


def small(I):
    p = I.p
    t = arg(I, TStr(), "t")
    r = I.force(I.call_method(sem(I), "set_id", [p.new_list([Elem("id"), Elem(t)])], {}))
    p.prove(zt(I.eq(r, t)), "set_id: the stated id")
    for m in ("comments", "comment"):
        r = I.force(I.call_method(sem(I), m, [Opaque("text")], {}))
        p.prove(r is None, f"{m}: no effect")
    r = I.force(I.call_method(sem(I), "set_r", [p.new_list([Elem(None)])], {}))
    p.prove(r is None, "set_r: comments have no effect")
    part = arg(I, PART, "part")
    r = I.force(I.call_method(sem(I), "set_r", [part], {}))
    p.prove(zt(I.same(r, part)), "set_r: a part is kept")
    b = arg(I, TObj("cafBlock"), "b")
    r = I.force(I.call_method(sem(I), "set_r", [b], {}))
    p.prove(zt(I.same(r, b)), "set_r: a block is kept")


def comment(I):
    """the rule of a comment: from /* to the next */, whatever is between"""
    import ast

    from ..peg import code
    from ..peg.pat import plain, tree, tried, upto
    from . import c28

    p = I.p
    name = "comment: from /* to the next */"
    m = c28.module("caf.py")
    ms = c28.members(m.classes["cafParser"])
    f = ms.get("_comment_")
    if not isinstance(f, ast.FunctionDef) or not c28.flags(f)[0]:
        raise Unsupported("cafParser has no rule comment")
    try:
        x = code.Reader(lambda n: ms.get(n), "cafParser", m.consts, {}).run(f, {f.args.args[0].arg: code.SelfV()})
    except code.Outside as e:
        raise Unsupported(f"cafParser._comment_: {e}")
    x = x[1:] if x[0] == "seq" else [x]
    if not (len(x) == 3 and x[0] == ["tok", "/*"] and x[2] == ["tok", "*/"] and x[1][0] == "pat"):
        raise Unsupported(f"cafParser._comment_: {code.show(['seq', *x])}")
    try:
        t = plain(tree(x[1][1]))
    except re.error as e:
        p.fail(name, str(e))
    if t not in upto("*/"):
        bad = tried(x[1][1], "*/")
        if not bad:
            raise Unsupported(f"pattern {x[1][1]!r} is not decided")
        p.fail(name, f"pattern {x[1][1]!r}: {bad}")
    p.prove(True, name)
    outcome(I, "comment")


def proofs():
    S = "RealCafSemantics."
    out = [Proof(f"literal {w}", word(w), [S + "network", WORDS[w] + ".__init__"]) for w in WORDS]
    out += [
        Proof("literal host", host, [S + "network", "NetworkHost.__init__"]),
        Proof("literal network", net, [S + "network", "Network.__init__"]),
        Proof("list of literals", nets, [S + "net", "_Group.add"], ["group", "single"]),
        Proof("clause src", clause("src"), [S + "set", "_Group.add"], ["group", "single"]),
        Proof("clause dst", clause("dst"), [S + "set", "_Group.add"], ["group", "single"]),
        Proof("absent parts", absent, [S + "set"]),
        Proof("block", block, [S + "set"], ["plain", "id"]),
        Proof("small actions", small, [S + "set_id", S + "set_r", S + "comments", S + "comment"]),
        Proof("text of a comment", comment, ["cafParser._comment_"], ["comment"]),
    ]
    return out
