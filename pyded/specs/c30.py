"""C30: the switchport settings of an interface are the stated ones.

Interface.__init__, as a fold over the lines of the interface: no settings before the first line; one line of each kind
from arbitrary settings (a mode line sets the mode and keeps the VLANs, a list of VLANs replaces the VLANs and keeps the
mode, an added list is appended to the VLANs so far, every other line leaves the settings alone); nothing after the last
line changes them.  vlan / vlan_list: one VLAN with the stated number, one range with the stated ends, all of them in
order.  switchport_cmd / switchport_trunk_cmd / interface_detail hand on what was read.  interface: the interface is made
of the stated lines.
"""
from .match import *
from .seq import *
from .c15 import rec, start
from .c13 import PARSER
from .c21 import DETAIL
from .c24 import with_class_sem as sem


class Stop(Exception):
    pass


VLAN = TObj("VLAN", "VLANRange")
TYPES = {
    **PARSER,
    ("Interface", "switchport"): TOpt(TObj("Switchport")),
    ("Switchport", "mode"): TStr(),
    ("Switchport", "trunk"): TOpt(TObj("VLANs")),
    ("VLANs", "items"): TList(VLAN),
    ("VLAN", "value"): TStr(nonempty=True),
    ("VLANRange", "start"): TStr(nonempty=True),
    ("VLANRange", "end"): TStr(nonempty=True),
}


def line(k):
    sw = {"type": TConst("switchport")}
    vl = {"type": TConst("allowed"), "vlans": TObj("VLANs")}
    return {
        "mode": TRec({**sw, "value": TRec({"type": TConst("mode"), "mode": TStr(nonempty=True)})}),
        "set": TRec({**sw, "value": TRec({"type": TConst("trunk"), "value": TRec({**vl, "op": TConst("set")})})}),
        "add": TRec({**sw, "value": TRec({"type": TConst("trunk"), "value": TRec({**vl, "op": TConst("add")})})}),
    }.get(k) or DETAIL[k]


def vlans(I, s):
    """the VLANs of the settings: None or their list"""
    t = I.force(I.getattr(s, "trunk"))
    return None if t is None else I.p.content(I.force(I.getattr(t, "items")))


def fold(I, kind, each):
    p = I.p
    l = arg(I, TList(line(kind)), "details")
    segs = p.content(l)
    at = []

    def hook(I, st, fr, it):
        self = I.force(fr.locals.get("self"))
        if not isinstance(self, Obj) or at or tuple(I.segs_of(it)) != tuple(segs):
            return NotImplemented
        at.append(1)
        p.prove(I.getattr(self, "switchport") is None, "before the first line: no settings")
        return each(I, st, fr, self, segs)

    I.for_hook = hook
    i = I.force(I.construct(I.prog.classes["Interface"], [arg(I, TStr(), "alias"), l], {}))
    if not at:
        raise Unsupported("no loop over the lines of the interface")
    return i


def state(I, self):
    """arbitrary settings"""
    s = arg(I, TOpt(TObj("Switchport")), "settings so far")
    if s is None:
        return None, None, None
    I.p.assume(s.ref >= 0)
    t = I.force(I.getattr(s, "trunk"))
    if t is not None:
        I.p.assume(t.ref >= 0)
    mode, items = I.force(I.getattr(s, "mode")), vlans(I, s)
    I.setattr(self, "switchport", s)
    return s, mode, items


def step(kind):
    def fn(I):
        p = I.p

        def each(I, st, fr, self, segs):
            s, mode, items = state(I, self)
            e = I.force(I.lazy(p.member(segs[0])))
            v = I.force(I.getattr(e, "value")) if e is not None else None
            new = None
            if kind in ("set", "add"):
                o = I.force(I.getattr(I.force(I.getattr(v, "value")), "vlans"))
                if s is not None and I.force(I.getattr(s, "trunk")) is not None:
                    p.assume(I.force(I.getattr(s, "trunk")).ref != o.ref)  # the lists of two lines are two objects
                new = p.content(I.force(I.getattr(o, "items")))
            n0 = len(p.wlog)
            try:
                I.assign(st.target, e, fr)
                I.block(st.body, fr)
            except ContinueExc:
                pass
            except PyExc as x:
                outcome(I, "refused")
                if kind in ("mode", "set"):
                    p.fail(f"line '{kind}': is accepted", str(x))
                if kind == "add":
                    p.prove(items is None, "line 'add': VLANs are added to the ones set before", str(x))
                else:
                    p.prove(True, f"line '{kind}': refused")
                raise Stop()
            outcome(I, "end")
            name = f"line '{kind}'"
            t = I.force(I.getattr(self, "switchport"))
            if kind not in ("mode", "set", "add"):
                p.prove(t is None if s is None else isinstance(t, Obj) and zt(I.same(t, s)), f"{name}: the settings are kept")
                if s is not None:
                    p.prove(zt(I.eq(I.getattr(t, "mode"), mode)), f"{name}: the mode is kept")
                    kept(I, t, items, name)
                raise Stop()
            p.prove(isinstance(t, Obj), f"{name}: there are settings")
            if kind == "mode":
                p.prove(zt(I.eq(I.getattr(t, "mode"), I.getattr(v, "mode"))), f"{name}: the stated mode")
                kept(I, t, items, name)
            else:
                if s is not None:
                    p.prove(zt(I.eq(I.getattr(t, "mode"), mode)), f"{name}: the mode is kept")
                else:
                    p.prove(zt(I.eq(I.getattr(t, "mode"), "")), f"{name}: no mode is stated")
                got = vlans(I, t)
                if kind == "add" and items is None:
                    raise Stop()  # VLANs added to none: not stated by the property
                if got is None:
                    p.fail(f"{name}: the stated VLANs", "none")
                same_seq(I, got, new if kind == "set" else (items or ()) + new, name, what="the stated VLANs" if kind == "set" else "the VLANs so far and the added ones")
            raise Stop()

        try:
            fold(I, kind, each)
        except Stop:
            return

    return fn


def kept(I, t, items, name):
    got = vlans(I, t)
    if items is None or got is None:
        I.p.prove(got is None and items is None, f"{name}: the VLANs are kept")
    else:
        same_seq(I, got, items, name, what="the VLANs are kept")


def last(I):
    """after the last line the settings are those of the fold"""
    p = I.p
    box = []

    def each(I, st, fr, self, segs):
        box.append(state(I, self))

    i = fold(I, "none", each)
    s, mode, items = box[0]
    t = I.force(I.getattr(i, "switchport"))
    outcome(I, "none" if s is None else "settings")
    p.prove(t is None if s is None else isinstance(t, Obj) and zt(I.same(t, s)), "after the last line: the settings are kept")
    if s is not None:
        p.prove(zt(I.eq(I.getattr(t, "mode"), mode)), "after the last line: the mode is kept")
        kept(I, t, items, "after the last line")


def vlan(kind):
    def fn(I):
        p = I.p
        if kind == "vlan":
            v = arg(I, TStr(nonempty=True), "vlan")
            a = rec(I, {"type": "vlan", "vlan": v})
        else:
            b, e = arg(I, TStr(nonempty=True), "begin"), arg(I, TStr(nonempty=True), "end")
            a = rec(I, {"type": "range", "begin": b, "end": e})
        r = I.force(I.call_method(sem(I, "iosSemantics"), "vlan", [a], {}))
        outcome(I, "end")
        frame_ok(I, "vlan")
        if kind == "vlan":
            p.prove(isinstance(r, Obj) and I.classes_of(r) == {"VLAN"} and zt(I.eq(I.getattr(r, "value"), v)), "vlan: the stated number")
        else:
            p.prove(isinstance(r, Obj) and I.classes_of(r) == {"VLANRange"}, "vlan: a range")
            p.prove(zt(I.eq(I.getattr(r, "start"), b)), "vlan: the stated first number")
            p.prove(zt(I.eq(I.getattr(r, "end"), e)), "vlan: the stated last number")

    return fn


def vlan_list(I):
    p = I.p
    l = arg(I, TList(VLAN), "vlans")
    segs = p.content(l)
    r = I.force(I.call_method(sem(I, "iosSemantics"), "vlan_list", [l], {}))
    outcome(I, "end")
    p.prove(isinstance(r, Obj) and I.classes_of(r) == {"VLANs"}, "vlan_list: a list of VLANs")
    same_seq(I, p.content(I.force(I.getattr(r, "items"))), segs, "vlan_list", what="the stated ones in order")
    frame_ok(I, "vlan_list")


def handed_on(rule, fields):
    """an action that returns what was read (a rule without action does)"""

    def fn(I):
        p = I.p
        f = {k: v(I) if callable(v) else v for k, v in fields.items()}
        a = rec(I, f)
        s = sem(I, "iosSemantics")
        outcome(I, "end")
        if I.one_class(s).find(rule) is None:
            p.prove(True, f"{rule}: hands on what was read")
            return
        r = I.force(I.call_method(s, rule, [a], {}))
        p.prove(isinstance(r, HDict), f"{rule}: hands on what was read")
        for k, v in f.items():
            p.prove(zt(I.same(I.getattr(r, k), v) if isinstance(v, (Obj, HDict)) else I.eq(I.getattr(r, k), v)), f"{rule}: the {k} that was read")

    return fn


def statement(I):
    """the interface is made of the lines of its statement, all of them in order"""
    p = I.p
    l = arg(I, TList(line("mode")), "lines")
    segs = p.content(l)
    got = []

    def made(I, c, args, kwargs):
        v = dict(zip(("alias", "details"), args), **kwargs)
        o = I.new_obj("Interface")
        I.setattr(o, "alias", v["alias"])
        I.setattr(o, "nameif", None)
        got.append((o, p.content(I.force(v["details"])) if isinstance(I.force(v["details"]), HList) else tuple(I.segs_of(v["details"]))))
        return o

    I.contracts[("Interface", "__new__")] = made
    r = I.force(I.call_method(start(I, "iosSemantics")[1], "interface", [rec(I, {"alias": arg(I, TStr(nonempty=True), "alias"), "detail": l})], {}))
    outcome(I, "end")
    p.prove(len(got) == 1 and isinstance(r, Obj) and zt(I.same(r, got[0][0])), "interface: the interface of the statement")
    same_seq(I, got[0][1], segs, "interface", what="made of the lines of the statement")


def proofs():
    F = ["Interface.__init__", "Switchport.__init__"]
    out = [Proof(f"line: {k}", step(k), F, ["end"], types=TYPES) for k in ("mode", "set", "add", *DETAIL)]
    out.append(Proof("after the last line", last, F, ["none", "settings"], types=TYPES))
    for k in ("vlan", "range"):
        out.append(Proof(f"vlan ({k})", vlan(k), ["iosSemantics.vlan", "VLAN.__init__" if k == "vlan" else "VLANRange.__init__"], ["end"], types=TYPES))
    out.append(Proof("vlan_list", vlan_list, ["iosSemantics.vlan_list", "VLANs.__init__"], ["end"], types=TYPES))
    out.append(Proof("interface statement", statement, ["aclSemantics.interface"], ["end"], types=TYPES))
    s = lambda n: lambda I: arg(I, TStr(nonempty=True), n)
    o = lambda I: arg(I, TObj("VLANs"), "vlans")
    for n, r, f in (
        ("mode", "switchport_cmd", {"type": "mode", "mode": s("mode")}),
        ("trunk", "switchport_cmd", {"type": "trunk", "value": lambda I: rec(I, {"type": "allowed", "op": "set", "vlans": o(I)})}),
        ("set", "switchport_trunk_cmd", {"type": "allowed", "op": "set", "vlans": o}),
        ("add", "switchport_trunk_cmd", {"type": "allowed", "op": "add", "vlans": o}),
        ("detail", "interface_detail", {"type": "switchport", "value": lambda I: rec(I, {"type": "mode", "mode": s("mode")(I)})}),
    ):
        out.append(Proof(f"{r} ({n})", handed_on(r, f), [f"iosSemantics.{r}"], ["end"], types=TYPES))
    return out
