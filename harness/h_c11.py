"""Enumeration of wildcard addresses."""
from .cfgs import *
from .addr import *


def count(l):
    """number of addresses covered by the enumerated elements"""
    iv = []
    for o in l:
        if isinstance(o, ipaddress.IPv4Network):
            iv.append((int(o.network_address), int(o.broadcast_address)))
        else:
            iv.append((int(o), int(o)))
    iv.sort()
    tot, end = 0, -1
    for a, b in iv:
        a = max(a, end + 1)
        if b >= a:
            tot += b - a + 1
            end = b
    return tot


def judge(ctx, a, w):
    x, y = ip(4, a), ip(4, w)
    ctx.case((str(x), str(y)))
    with limit(30):
        l = NetworkWildcard(str(x), str(y))._addresses()
    for o in l:
        if isinstance(o, ipaddress.IPv4Network):
            good = (int(o.network_address) ^ a) & ~w == 0 and int(o.hostmask) & ~w == 0
        elif isinstance(o, ipaddress.IPv4Address):
            good = (int(o) ^ a) & ~w == 0
        else:
            good = False
        ctx.ok("element within the wildcard address", good, f"{x} {y}", repr(o))
    ctx.eq("number of covered addresses", 1 << bin(w).count("1"), count(l))


def masks(r):
    """masks whose enumeration is small: few one bits above the lowest run of ones"""
    low = r.choice([0, 0, 1, 4, 8, 16, 24, 31, 32, r.randint(0, 32)])
    w = (1 << low) - 1
    for _ in range(r.choice([0, 1, 2, 3, 5, 7, 9])):
        w |= 1 << r.randrange(32)
    n, k = w, 0
    while n & 1:
        n >>= 1
        k += 1
    return w, bin(n).count("1")


def run(ctx):
    r = ctx.rng
    ctx.part("prefix masks", "every mask 2**k-1, every single bit, for a pool of addresses")
    for k in range(33):
        for a in POOL[4][:4] + [0, FULL[4]]:
            judge(ctx, a, (1 << k) - 1)
            if k < 32:
                judge(ctx, a, 1 << k)
    ctx.part("neighbours", "one gap in a contiguous mask")
    for k in range(1, 13):
        for j in range(k):
            w = ((1 << k) - 1) & ~(1 << j)
            judge(ctx, r.getrandbits(32), w)
            sh = r.randrange(0, 33 - k)
            judge(ctx, r.getrandbits(32), (w << sh) & FULL[4])
    ctx.part("small masks", "every mask below 1024 (quick) with random addresses")
    for w in range(1024 if ctx.tier == "quick" else 16384):
        if not ctx.left(0.6):
            break
        judge(ctx, r.getrandbits(32), w)
    ctx.part("random masks", "random masks with at most 11 one bits above the lowest run")
    n = 0
    while ctx.left() and n < cap(ctx, 3000):
        n += 1
        w, k = masks(r)
        if k <= 11:
            judge(ctx, r.choice([r.getrandbits(32), addrs(r, 4)]), w)
