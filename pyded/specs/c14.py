"""C14: out-of-range numbers are rejected and port ranges compare as numbers.

num(t): the number a text denotes (contract of int on texts the grammar accepts as a number: [0-9]+).
Every *_int action returns the text (a Protocol of it) exactly when num(t) is inside its limits and raises otherwise, with
assertions enabled.  PortRange with two numeric ends exists exactly when the first is smaller.
"""
from .match import *

LIMIT = {"port_int": 65535, "protocol_int": 255, "icmp_type_int": 255, "icmp_code_int": 255}
OBJ = "object"


def sem(I, cls="aclSemantics"):
    return I.construct(I.prog.classes[cls], [Opaque("parser")], {})


def rec(I, fields):
    return I.p.new_dict([Elem((k, v)) for k, v in fields.items()], ast=True)


def digits(I, name):
    s = arg(I, TStr(nonempty=True), name)
    I.p.assume(lib.f_intok(s.t))
    I.p.assume(lib.f_int(s.t) >= 0)
    return s


def number(rule, cls):
    def fn(I):
        p = I.p
        t = digits(I, "t")
        v = lib.f_int(t.t)
        try:
            r = I.force(I.call_method(sem(I, cls), rule, [t], {}))
        except PyExc as e:
            outcome(I, "rejected")
            p.prove(v > LIMIT[rule], f"{rule}: every number inside the limits is accepted")
            return
        outcome(I, "accepted")
        frame_ok(I, rule)
        p.prove(v <= LIMIT[rule], f"{rule}: no number outside the limits is accepted")
        if rule == "protocol_int":
            p.prove(isinstance(r, Obj) and I.classes_of(r) == {"Protocol"}, f"{rule}: a protocol")
            r = I.getattr(r, "name")
        p.prove(zt(I.eq(r, t)), f"{rule}: the number is kept as written")

    return fn


def ends(I, r, a, b, name):
    I.p.prove(isinstance(r, Obj) and I.classes_of(r) == {"PortRange"}, f"{name}: a port range")
    I.p.prove(zt(I.eq(I.getattr(r, "start"), a)), f"{name}: first end kept")
    I.p.prove(zt(I.eq(I.getattr(r, "stop"), b)), f"{name}: last end kept")


def range_by(make, name):
    """two numeric ends"""

    def fn(I):
        p = I.p
        a, b = digits(I, "a"), digits(I, "b")
        x, y = lib.f_int(a.t), lib.f_int(b.t)
        try:
            r = I.force(make(I, a, b))
        except PyExc:
            outcome(I, "rejected")
            p.prove(x >= y, f"{name}: accepted if the first end is smaller")
            return
        outcome(I, "accepted")
        frame_ok(I, name)
        p.prove(x < y, f"{name}: accepted only if the first end is smaller")
        ends(I, r, a, b, name)

    return fn


def named(I):
    """an end that is a service name does not compare"""
    p = I.p
    a, b = arg(I, TStr(), "a"), arg(I, TStr(), "b")
    p.assume(z3.Not(z3.And(lib.f_intok(a.t), lib.f_intok(b.t))))
    r = I.force(I.construct(I.prog.classes["PortRange"], [a, b], {}))
    ends(I, r, a, b, "range with a service name")


MAKE = {
    "PortRange": (["PortRange.__init__"], lambda I, a, b: I.construct(I.prog.classes["PortRange"], [a, b], {})),
    "range of a rule": (["aclSemantics.acl_port"], lambda I, a, b: I.call_method(sem(I), "acl_port", [rec(I, {"type": "range", "start": a, "stop": b})], {})),
    "range of a service object": (["aclSemantics.service_object_op"], lambda I, a, b: I.call_method(sem(I), "service_object_op", [rec(I, {"op": "range", "begin": a, "end": b})], {})),
    "range of a port group": (["aclSemantics.port_group_object"], lambda I, a, b: I.call_method(sem(I), "port_group_object", [rec(I, {"type": "port-object", "op": "range", "begin": a, "end": b})], {})),
}


def single(I):
    """a single port is kept as written"""
    p = I.p
    op, n = arg(I, TEnum("eq", "neq", "lt", "gt"), "op"), arg(I, TStr(nonempty=True), "n")
    s = sem(I)
    for name, f in (("acl_port", {"type": "port", "op": op, "port": n}), ("service_object_op", {"op": op, "port": n}), ("port_group_object", {"type": "port-object", "op": op, "port": n})):
        r = I.force(I.call_method(s, name, [rec(I, f)], {}))
        p.prove(isinstance(r, Obj) and I.classes_of(r) == {"Port"}, f"{name}: a port")
        p.prove(zt(I.eq(I.getattr(r, "op"), op)), f"{name}: operator kept")
        p.prove(zt(I.eq(I.getattr(r, "num"), n)), f"{name}: port kept")


def proofs():
    out = []
    for r in LIMIT:
        for c in ("fwsmSemantics", "iosSemantics"):
            out.append(Proof(f"{r} ({c[:-9]})", number(r, c), [f"{c}.{r}"], ["accepted", "rejected"]))
    for n, (f, m) in MAKE.items():
        out.append(Proof(n, range_by(m, n), f + ["PortRange.__init__"], ["accepted", "rejected"]))
    out.append(Proof("range with a service name", named, ["PortRange.__init__"]))
    out.append(Proof("single port", single, ["aclSemantics.acl_port", "aclSemantics.service_object_op", "aclSemantics.port_group_object", "Port.__init__"]))
    return out
