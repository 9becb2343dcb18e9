"""Switchport lines in the interfaces of generated IOS configurations."""
from .cfgs import *
from acltk.aclObjects import VLAN, VLANRange

OTHER = ["switchport", "switchport access vlan 10", "switchport trunk native vlan 5", "switchport nonegotiate", "switchport mode dynamic auto", "switchport trunk encapsulation dot1q",
         "switchport voice vlan 3", "switchport port-security", "no switchport", "shutdown", "duplex auto", "description mode trunk", "ip address 192.0.2.1 255.255.255.0", "no ip address"]
NUM = [1, 2, 9, 10, 13, 99, 100, 1002, 4000, 4094]


def d_vlan(v):
    return (str(v.value),) if isinstance(v, VLAN) else (str(v.start), str(v.end)) if isinstance(v, VLANRange) else repr(v)


def settings(i):
    s = i.switchport
    return None if s is None else (s.mode or "", None if s.trunk is None else [d_vlan(v) for v in s.trunk.items])


def vlan_list(r):
    out = []
    for _ in range(r.choice([1, 1, 2, 3, 6])):
        a = r.choice(NUM + [r.randint(1, 4094)])
        if r.random() < 0.4:
            b = r.choice([a, a + 1, a + r.randint(0, 50), 4094])
            out.append((str(a), str(b)))
        else:
            out.append((str(a),))
        if r.random() < 0.2:
            out.append(r.choice(out))
    return out


def text(l):
    return ",".join("-".join(x) for x in l)


def block(r):
    """lines of an interface and the settings they state"""
    mode = trunk = None
    lines = []
    for _ in range(r.choice([0, 1, 2, 3, 5, 8])):
        k = r.choice(["mode", "set", "add", "add", "other", "other"])
        if k == "mode":
            mode = r.choice(["access", "trunk"])
            t = f"switchport mode {mode}"
        elif k == "set" or k == "add" and trunk is None:
            trunk = vlan_list(r)
            t = f"switchport trunk allowed vlan {text(trunk)}"
        elif k == "add":
            l = vlan_list(r)
            trunk = trunk + l
            t = f"switchport trunk allowed vlan add {text(l)}"
        else:
            t = r.choice(OTHER)
        lines.append(" " + t)
    return lines, None if mode is None and trunk is None else (mode or "", trunk)


def run(ctx):
    ctx.part("one interface", "interfaces with up to 8 lines: mode, list, added list and lines of other kinds, in any order")
    n = 0
    while ctx.left(0.4) and n < cap(ctx, 1500):
        n += 1
        l, want = block(ctx.rng)
        s = "\n".join(["hostname a", "interface Gi1/0/1", *l, "!", "ip domain name a.b"]) + "\n"
        ctx.case(s)
        c = parse(iosConfig, s)
        compare(ctx, "settings", {"Gi1/0/1": want}, {k: settings(v) for k, v in c.interfaces.items()})
    ctx.part("configurations", "generated configurations, the lines inserted into their interfaces; the rest of the model is the one without them")
    n = 0
    while ctx.left(1) and n < cap(ctx, 400):
        n += 1
        g = ios.Gen(ctx.rng)
        s = g.config(defs=6, uses=3)
        want, out = {}, []
        for x in s.split("\n"):
            out.append(x)
            w = x.split()
            if w[:1] == ["interface"] and len(w) == 2 and not x.startswith(" "):
                l, want[w[1]] = block(ctx.rng)
                out += [y for y in l if "ip address" not in y]
        if not want:
            continue
        t = "\n".join(out)
        ctx.case(t)
        c = parse(iosConfig, t)
        compare(ctx, "settings", want, {k: settings(v) for k, v in c.interfaces.items()})
        compare(ctx, "the rest", ios.expected(g), ios.tables(c))
