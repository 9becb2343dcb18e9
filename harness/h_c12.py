"""IOS wildcard masks."""
from .cfgs import *

FORMS = [
    ("named standard", lambda t: f"ip access-list standard x\n permit {t}\n", "src"),
    ("named standard, second entry", lambda t: f"ip access-list standard x\n remark r\n deny host 9.9.9.9\n permit {t} log\n", "src"),
    ("numbered standard", lambda t: f"access-list 10 permit {t}\n", "src"),
    ("named extended source", lambda t: f"ip access-list extended x\n permit tcp {t} eq www any\n", "src"),
    ("named extended destination", lambda t: f"ip access-list extended x\n 10 deny ip host 1.2.3.4 {t} log\n", "dst"),
    ("named extended icmp source", lambda t: f"ip access-list extended x\n permit icmp {t} any echo\n", "src"),
    ("named extended icmp destination", lambda t: f"ip access-list extended x\n permit icmp any {t}\n", "dst"),
    ("numbered extended source", lambda t: f"access-list 101 permit udp {t} any range 1 99\n", "src"),
    ("numbered extended destination", lambda t: f"access-list 101 permit tcp any {t} established\n", "dst"),
    ("numbered extended icmp", lambda t: f"access-list 2000 deny icmp any {t} 8 0\n", "dst"),
]


def one(ctx, form, a, w):
    name, f, side = form
    s = f(f"{ios.i4(a)} {ios.i4(w)}")
    ctx.case(s)
    c = parse(iosConfig, s)
    h = getattr(c.rules.rules[-1], side).host
    r = ctx.rng
    for k in range(10):
        # members, near misses and random addresses
        m = r.getrandbits(32) & w
        x = (a & ~w) | m
        if k >= 4:
            x ^= 1 << r.randrange(32)
        if k >= 9:
            x = r.getrandbits(32)
        x &= ios.FULL
        e = (x ^ a) & ~w & ios.FULL == 0
        with limit(10):
            g = (h & asa.NetworkHost(ios.i4(x)), asa.NetworkHost(ios.i4(x)) & h)
        ctx.eq(f"{name}: {ios.i4(a)} {ios.i4(w)} matches {ios.i4(x)}", (e, e), g)
    d = ios.norm(asa.d_addr(h))
    if d[0] == "set":
        ctx.eq(f"{name}: addresses", ("set", a & ~w & ios.FULL, w), d)
    elif not (d == ("any",) and w == ios.FULL):
        ctx.fail(f"{name}: addresses", ("set", a & ~w & ios.FULL, w), d)


def judge(ctx, g, c):
    e = [(x["src"][0], x["dst"][0]) for x in g.exp["rules"]]
    got = [(x["src"][0], x["dst"][0]) for x in map(ios.d_rule, c.rules.rules)]
    compare(ctx, "addresses of rules", e, got)


def run(ctx):
    r = ctx.rng
    ctx.part("every contiguous mask", "the 33 contiguous masks, single bits, inverted and scattered masks in 10 kinds of entry")
    W = [(1 << n) - 1 for n in range(33)] + [1 << n for n in range(32)] + [(ios.FULL << n) & ios.FULL for n in range(1, 32)] + [0xFF00, 0xFF00FF, 0x00FF0000, 0xFEFF00FF, 0x0000FE00, 0x80000001]
    for i, w in enumerate(W):
        for f in FORMS if (i % 4 == 0 or ctx.tier != "quick") else r.sample(FORMS, 3):
            one(ctx, f, r.choice([r.getrandbits(32), 0x0A010203, 0, ios.FULL]), w)
    ctx.part("random", "random addresses and masks in 10 kinds of entry")
    n = 0
    while ctx.left(0.6) and n < cap(ctx, 600):
        n += 1
        w = r.choice([r.getrandbits(32), r.getrandbits(32) & r.getrandbits(32), r.getrandbits(32) | r.getrandbits(32)])
        one(ctx, r.choice(FORMS), r.getrandbits(32), w)
    ctx.part("IOS", "generated configurations")
    ios_loop(ctx, 1, cap(ctx, 60), judge, uses=25)
