"""NAT statements: real and mapped sides."""
from .cfgs import *


def judge(ctx, g, c):
    compare(ctx, "nat", g.exp["nat"], {k: [asa.d_nat(x) for x in v] for k, v in c.nat.items()})


class Defs(asa.Gen):
    """interfaces, objects and services of both port directions exist before the NAT statements"""

    def config(self, **kw):
        for _ in range(3):
            self.interface()
        self.svcobj_of("src")
        self.svcobj_of("src")
        self.svcobj_of("dst")
        self.svcobj_of("dst")
        return super().config(defs=10, uses=0, nats=22, kinds=["object_network", "object_network", "group_network", "object_service", "name", "interface"])

    def svcobj_of(self, side):
        self.n += 1
        n = f"svc-{side}-{self.n}"
        x, p = self.sport(self.r)
        self.lines += [f"object service {n}", f" service tcp {'source' if side == 'src' else 'destination'} {x}"]
        d = ("tcp", p if side == "src" else None, p if side == "dst" else None, None, None)
        self.svcobj[n] = d
        self.exp["service"][n] = d


def run(ctx):
    old = asa.Gen
    try:
        asa.Gen = Defs
        ctx.part("NAT statements", "generated configurations with about 22 twice-NAT and object-NAT statements each")
        asa_loop(ctx, 1, cap(ctx, 130), judge)
    finally:
        asa.Gen = old
