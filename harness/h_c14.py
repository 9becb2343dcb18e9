"""Numbers: limits, and port ranges as numbers."""
from .cfgs import *
from acltk import ACLConfig

A = "access-list t extended permit"
# place, dialect, text with {} for the number, how the number is read from the model
P, Q, T, C = 65535, 255, 255, 255
PLACES = [
    ("port", P, "asa", A + " tcp any eq {0} any", lambda c: c.rules.rules[0].src.port.num),
    ("port", P, "asa", A + " tcp any any gt {0}", lambda c: c.rules.rules[0].dst.port.num),
    ("port", P, "asa", A + " udp host 1.2.3.4 lt {0} 10.0.0.0 255.0.0.0 neq www", lambda c: c.rules.rules[0].src.port.num),
    ("port", P, "asa", "access-list t webtype permit tcp any eq {0}", lambda c: c.rules.rules[0].dst.port.num),
    ("port", P, "asa", "object-group service g tcp\n port-object eq {0}", lambda c: c.groups.port["g"].objects[0].num),
    ("port", P, "asa", "object-group service g\n service-object tcp destination eq {0}", lambda c: c.groups.service["g"].objects[0].dst.num),
    ("port", P, "asa", "object-group service g\n service-object udp source gt {0}", lambda c: c.groups.service["g"].objects[0].src.num),
    ("port", P, "asa", "object service o\n service tcp source eq {0}", lambda c: c.objects.service["o"].src.num),
    ("port", P, "asa", "object service o\n service tcp destination neq {0}", lambda c: c.objects.service["o"].dst.num),
    ("port", P, "asa", "interface Vlan1\n nameif in\nobject network o\n host 1.2.3.4\n nat (in,in) static 1.2.3.5 service tcp {0} www", lambda c: c.nat[2][0].real.service.dst),
    ("port", P, "asa", "interface Vlan1\n nameif in\nobject network o\n host 1.2.3.4\n nat (in,in) static 1.2.3.5 service tcp www {0}", lambda c: c.nat[2][0].mapped.service.dst),
    ("port", P, "ios", "ip access-list extended x\n permit tcp any any eq {0}", lambda c: c.rules.rules[0].dst.port.num),
    ("port", P, "ios", "access-list 101 permit udp any lt {0} any", lambda c: c.rules.rules[0].src.port.num),
    ("port", P, "ios", "ipv6 access-list x\n sequence 10 permit tcp any any eq {0}", lambda c: c.rules.rules[0].dst.port.num),
    ("port", P, "ios", "object-group service g udp\n port-object eq {0}", lambda c: c.groups.port["g"].objects[0].num),
    ("protocol", Q, "asa", A + " {0} any any", lambda c: c.rules.rules[0].protocol.name),
    ("protocol", Q, "asa", "object-group service g\n service-object {0}", lambda c: c.groups.service["g"].objects[0].protocol.name),
    ("protocol", Q, "asa", "object service o\n service {0}", lambda c: c.objects.service["o"].protocol.name),
    ("protocol", Q, "ios", "ip access-list extended x\n permit {0} any any", lambda c: c.rules.rules[0].protocol.name),
    ("protocol", Q, "ios", "access-list 101 deny {0} any any", lambda c: c.rules.rules[0].protocol.name),
    ("protocol", Q, "ios", "object-group service g\n {0}", lambda c: c.groups.service["g"].objects[0].protocol.name),
    ("icmp type", T, "asa", A + " icmp any any {0}", lambda c: c.rules.rules[0].icmp.type),
    ("icmp type", T, "asa", A + " icmp any any {0} 3 log", lambda c: c.rules.rules[0].icmp.type),
    ("icmp type", T, "asa", "object-group icmp-type g\n icmp-object {0}", lambda c: c.groups.icmp["g"].objects[0].type),
    ("icmp type", T, "asa", "object-group service g\n service-object icmp {0}", lambda c: c.groups.service["g"].objects[0].icmp_type),
    ("icmp type", T, "asa", "object service o\n service icmp6 {0} 1", lambda c: c.objects.service["o"].icmp_type),
    ("icmp type", T, "ios", "ip access-list extended x\n permit icmp any any {0}", lambda c: c.rules.rules[0].icmp.type),
    ("icmp type", T, "ios", "access-list 101 permit icmp any any {0} 0", lambda c: c.rules.rules[0].icmp.type),
    ("icmp code", C, "asa", A + " icmp any any echo {0}", lambda c: c.rules.rules[0].icmp.code),
    ("icmp code", C, "asa", A + " icmp any any 255 {0}", lambda c: c.rules.rules[0].icmp.code),
    ("icmp code", C, "asa", "object-group service g\n service-object icmp 3 {0}", lambda c: c.groups.service["g"].objects[0].icmp_code),
    ("icmp code", C, "asa", "object service o\n service icmp unreachable {0}", lambda c: c.objects.service["o"].icmp_code),
    ("icmp code", C, "ios", "ip access-list extended x\n deny icmp any any 3 {0}", lambda c: c.rules.rules[0].icmp.code),
    ("icmp code", C, "ios", "access-list 101 permit icmp any any redirect {0}", lambda c: c.rules.rules[0].icmp.code),
]
RANGES = [
    ("asa", A + " tcp any range {0} {1} any", lambda c: c.rules.rules[0].src.port),
    ("asa", A + " tcp any any range {0} {1}", lambda c: c.rules.rules[0].dst.port),
    ("asa", "object-group service g tcp\n port-object range {0} {1}", lambda c: c.groups.port["g"].objects[0]),
    ("asa", "object-group service g\n service-object tcp destination range {0} {1}", lambda c: c.groups.service["g"].objects[0].dst),
    ("asa", "object service o\n service udp source range {0} {1}", lambda c: c.objects.service["o"].src),
    ("ios", "ip access-list extended x\n permit tcp any any range {0} {1}", lambda c: c.rules.rules[0].dst.port),
    ("ios", "access-list 101 permit tcp any range {0} {1} any", lambda c: c.rules.rules[0].src.port),
    ("ios", "ipv6 access-list x\n sequence 10 permit tcp any range {0} {1} any", lambda c: c.rules.rules[0].src.port),
]
CLS = {"asa": fwsmConfig, "ios": iosConfig}


def number(ctx, p, n):
    kind, top, dialect, text, get = p
    s = text.format(n) + "\n"
    ctx.case(s)
    good = int(n) <= top
    try:
        c = parse(CLS[dialect], s)
    except Exception as e:
        ctx.ok(f"{kind} {n} is accepted", not good, "accepted", repr(e)[:200])
        return
    if not good:
        ctx.fail(f"{kind} {n}", "refused", "accepted: " + repr(c.rules.rules)[:200])
        return
    ctx.eq(f"{kind} kept", str(n), str(get(c)))


def prange(ctx, p, a, b):
    dialect, text, get = p
    s = text.format(a, b) + "\n"
    ctx.case(s)
    num = str(a).isdigit() and str(b).isdigit()
    good = not num or (int(a) < int(b) and int(b) <= P)
    if any(str(x).isdigit() and int(x) > P for x in (a, b)):
        good = False
    try:
        c = parse(CLS[dialect], s)
    except Exception as e:
        ctx.ok(f"range {a} {b} is accepted", not good, "accepted", repr(e)[:200])
        return
    if not good:
        ctx.fail(f"range {a} {b}", "refused", "accepted")
        return
    x = get(c)
    ctx.eq("ends kept", (str(a), str(b)), (str(x.start), str(x.stop)))


VALS = [0, 1, 7, 9, 10, 19, 20, 80, 99, 100, 127, 128, 199, 200, 254, 255, 256, 257, 299, 300, 511, 999, 1000, 1023, 1024, 4096, 9999, 10000, 25599, 32767, 32768, 49151, 65279, 65534, 65535, 65536, 65537, 65791, 70000, 99999, 100000, 131071, 655350, 2**31, 2**32, 2**32 + 80, 10**12]


def run(ctx):
    r = ctx.rng
    ctx.part("limits in every place", f"{len(PLACES)} places of ASA and IOS syntax with boundary values")
    for p in PLACES:
        top = p[1]
        for n in [0, 1, top - 1, top, top + 1, top + 2, top * 10, "00", "007"] + r.sample(VALS, 6):
            number(ctx, p, n)
    ctx.part("PortRange", "all pairs of boundary numbers, as text and as numbers, names")
    for a in VALS:
        for b in VALS:
            for x, y in ((str(a), str(b)), (a, b)):
                ctx.case(("PortRange", x, y))
                try:
                    with limit(5):
                        o = asa.PortRange(x, y)
                except Exception as e:
                    ctx.ok("accepted", a >= b, f"PortRange({x!r}, {y!r})", repr(e))
                    continue
                ctx.ok("refused", a < b, f"no PortRange({x!r}, {y!r})", repr(o))
                ctx.eq("ends", (x, y), (o.start, o.stop))
    ctx.part("ranges in every place", f"{len(RANGES)} places with random pairs, names mixed in")
    n = 0
    while ctx.left(0.7) and n < cap(ctx, 900):
        n += 1
        a, b = r.choice(VALS[:36]), r.choice(VALS[:36])
        if r.random() < 0.1:
            a = r.choice(["www", "ftp-data", "ssh"])
        if r.random() < 0.1:
            b = r.choice(["www", "ftp-data", "ssh"])
        if r.random() < 0.3 and isinstance(a, int):
            b = a + r.choice([-1, 0, 1])
            if b < 0:
                continue
        prange(ctx, r.choice(RANGES), a, b)
    ctx.part("random numbers", "random numbers in random places")
    n = 0
    while ctx.left() and n < cap(ctx, 600):
        n += 1
        p = r.choice(PLACES)
        number(ctx, p, r.choice([r.randint(0, 300), r.randint(250, 70000), r.randint(0, p[1]), p[1] + r.randint(1, 1000), r.getrandbits(40)]))
    ctx.part("any dialect", "a number out of range is refused without naming the dialect, too")
    for p in r.sample(PLACES, 8):
        s = p[3].format(p[1] + 1) + "\n"
        ctx.case(s)
        try:
            c = parse(ACLConfig, s)
        except Exception:
            continue
        ctx.fail("number out of range", "refused", "accepted as " + type(c).__name__)
