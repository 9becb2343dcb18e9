"""resolve(): the selection, everything it references, nothing else."""
from .cfgs import *
from . import pf
from acltk.aclObjects import *
from acltk.pfsenseObjects import pfsenseConfig

GROUPS = (NetworkGroup, PortGroup, ServiceGroup, ProtocolGroup, ICMPGroup)
MARKED = GROUPS + (NetworkObject, ServiceObject, TimeRange)


def names_of(o):
    t = getattr(o, "target", None)
    return [t] if t is not None else []


def required(c, sel):
    """everything that must be in the result, by identity; and the markers"""
    out, todo = {}, []
    marks = set()

    def push(x):
        if x is not None and not isinstance(x, str):
            todo.append(x)

    for i in sel:
        push(i)
        if isinstance(i, ACLRule):
            push(i.protocol)
            for n in (i.src, i.dst):
                push(n.host)
                push(n.port)
            if i.protocol is not None and i.protocol.name in ("icmp", "icmp6"):
                push(i.icmp)
            for v in i.options.values():
                if isinstance(v, TimeRange):
                    push(v)
            for b in c.access_groups.get(i.id, []):
                push(b)
        elif isinstance(i, NATObject):
            for side in (i.real, i.mapped):
                push(side.iface)
                push(side.service)
                for n in (side.src, side.dst):
                    if n:
                        push(n.node)
    while todo:
        x = todo.pop()
        if id(x) in out:
            continue
        out[id(x)] = x
        if isinstance(x, GROUPS):
            for m in x.objects:
                push(m)
        if isinstance(x, MARKED):
            marks.add(type(x).__name__)
        if isinstance(x, (Network, NetworkHost)):
            for t in names_of(x):
                push(t)
                marks.add("Names")
        if isinstance(x, InterfaceAccessGroup):
            marks.add("Interface")
            push(x.iface)
        if isinstance(x, NATObject):
            marks.add("NAT")
    return out, marks


def judge(ctx, c, sel):
    ids = {i.id for i in sel if isinstance(i, ACLRule)}
    icmp = [i.icmp for i in sel if isinstance(i, ACLRule)]
    req, marks = required(c, sel)
    given = set(sel)
    keep = set(sel)
    with limit(20), silent():
        res = c.resolve(given)
    ctx.ok("a set", isinstance(res, set))
    got = {id(x): x for x in res}
    # texts: list names, markers, interface names
    for k, x in req.items():
        if k not in got:
            ctx.fail("missing in the result", repr(x), "not included")
    strings = {x for x in res if isinstance(x, str)}
    for m in marks:
        ctx.ok(f"marker {m}", m in strings)
    allowed = marks | {i for i in ids if i} | {n for n in (y for y in strings) if n in ids}
    for x in strings - allowed:
        ctx.fail("text in the result that stands for nothing selected", sorted(map(str, allowed)), x)
    extra = {}
    for x in icmp:
        extra[id(x)] = x
    for k, x in got.items():
        if k not in req and not isinstance(x, str) and x is not None and k not in extra:
            ctx.fail("not reachable from the selection", "not included", repr(x))
    ctx.ok("selection included", keep <= res)


def selections(r, c):
    rules = list(c.rules.rules)
    nats = [x for k in c.nat.values() for x in k]
    yield set(rules + nats)
    yield set()
    for x in r.sample(rules, min(8, len(rules))) + r.sample(nats, min(8, len(nats))):
        yield {x}
    for _ in range(6):
        yield {x for x in rules + nats if r.random() < 0.3}


def run(ctx):
    r = ctx.rng
    ctx.part("ASA", "random selections over generated ASA configurations")
    n = 0
    while ctx.left(0.5) and n < cap(ctx, 40):
        n += 1
        g = asa.Gen(r)
        s = g.config()
        c = parse(fwsmConfig, s)
        if n % 3 == 2:
            c.expand()
        for k, sel in enumerate(selections(r, c)):
            ctx.case((s, n % 3 == 2, k))
            judge(ctx, c, sel)
    ctx.part("IOS", "random selections over generated IOS configurations")
    n = 0
    while ctx.left(0.75) and n < cap(ctx, 30):
        n += 1
        g = ios.Gen(r)
        s = g.config()
        c = parse(iosConfig, s)
        for k, sel in enumerate(selections(r, c)):
            ctx.case((s, k))
            judge(ctx, c, sel)
    ctx.part("pfSense", "random selections over generated pfSense configurations")
    n = 0
    while ctx.left() and n < cap(ctx, 60):
        n += 1
        g = pf.Gen(r)
        s = g.config()
        c = parse(pfsenseConfig, s)
        for k, sel in enumerate(selections(r, c)):
            ctx.case((s, k))
            judge(ctx, c, sel)
