import itertools

from .common import *
from acltk.aclObjects import Port


def run(ctx):
    ops = [None, "", "eq", "neq", "gt", "lt", "range"]
    nums = ["80", "8", "443", "9", "www", "http", "", "0", "65535", "080", "ftp"]
    P = [(o, n) for o in ops for n in nums]
    ctx.part("pairs", "all ordered pairs over 5 operators, none and the empty one, and 11 ports, plus None")
    for a in P:
        x = Port(*a)
        for b in P + [None]:
            ctx.case(("port", a, b))
            y = Port(*b) if b else None
            ka, kb = (a[0] or "", a[1]), (b[0] or "", b[1]) if b else None
            if b is None:
                ctx.eq("== != < <= > >= with None", (False, True, False, False, True, True), (x == y, x != y, x < y, x <= y, x > y, x >= y))
                ctx.eq("None == != < <= > >= port", (False, True, True, True, False, False), (y == x, y != x, y < x, y <= x, y > x, y >= x))
            else:
                ctx.eq("== != < <= > >=", (ka == kb, ka != kb, ka < kb, ka <= kb, ka > kb, ka >= kb), (x == y, x != y, x < y, x <= y, x > y, x >= y))
    ctx.part("sorting", "random lists of ports up to 20 elements")
    r = ctx.rng
    for _ in range(300):
        l = [r.choice(P) for _ in range(r.randrange(1, 20))]
        ctx.case(("sort", l))
        key = lambda i: (i[0] or "", i[1])
        ctx.eq("sorted ports", sorted(map(key, l)), [(p.op or "", p.num) for p in sorted(Port(*i) for i in l)])
        ctx.eq("max", key(max(l, key=key)), (lambda p: (p.op or "", p.num))(max(Port(*i) for i in l)))
