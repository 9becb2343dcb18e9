"""Dialects and ways of input."""
import tempfile

from .cfgs import *
from . import pf
from .caf import rand_filter, rand_rules, rand_pool, lower, text
from .h_c05 import mk
from acltk import ACLConfig
from acltk.pfsenseObjects import pfsenseConfig
from acltk.cafObjects import cafBlock

ORDER = [fwsmConfig, iosConfig, pfsenseConfig]


def model(c):
    """value of a configuration without object identities"""
    def v(o, seen):
        if o is None or isinstance(o, (str, int, float, bool)):
            return o
        if isinstance(o, (ipaddress._BaseAddress, ipaddress._BaseNetwork)):
            return str(o)
        if id(o) in seen:
            return ("seen", seen[id(o)])
        seen[id(o)] = len(seen)
        if isinstance(o, dict):
            return (type(o).__name__, [(k, v(x, seen)) for k, x in o.items() if k != "timestamp"])
        if isinstance(o, (list, tuple)):
            return [v(x, seen) for x in o]
        if isinstance(o, (set, frozenset)):
            return sorted(repr(v(x, dict(seen))) for x in o)
        if hasattr(o, "__dict__"):
            return (type(o).__name__, v(o.__dict__, seen))
        return repr(o)

    import ipaddress

    return v(c, {})


class F:
    """an open file without a name"""

    def __init__(self, b):
        self.b = b

    def read(self):
        return self.b


def result(f):
    try:
        with limit(30), silent():
            return model(f())
    except Exception as e:
        return "refused"


def ways(ctx, cls, s, d, with_bom=True):
    """path, file and string give the same"""
    want = result(lambda: cls.fromString(s))
    p = os.path.join(d, "input")
    for bom in (b"", b"\xef\xbb\xbf"):
        data = bom + s.encode("utf-8")
        with open(p, "wb") as f:
            f.write(data)
        ctx.eq("fromPath" + (" with BOM" if bom else ""), want, result(lambda: cls.fromPath(p)))

        def opened():
            with open(p, "rb") as f:
                return cls.fromFile(f)

        ctx.eq("fromFile" + (" with BOM" if bom else ""), want, result(opened))
        ctx.eq("fromFile of a stream", want, result(lambda: cls.fromFile(io.BytesIO(data))))
        ctx.eq("fromFile without a name", want, result(lambda: cls.fromFile(F(data))))
    return want


BAD = [
    "this is no configuration\n",
    "access-list x extended permit tcp any any\nnonsense line here\n",
    "<pfsense",
    "<a></a>",
    "<pfsense><filter><rule><type>pass</type><what/></rule></filter></pfsense>",
    "hostname a\naccess-list x extended permit tcp host 1.2.3.4.5 any\n",
    "access-list x extended permit tcp any object-group undefined\n",
    "ip access-list extended x\n permit tcp any any eq 70000\n",
    "access-list x extended permit tcp any any eq 1 2 3 4\n",
    "object network x\n host 1.2.3\n",
    "/* comment */",
    "\x00\x01",
]


def damage(r, s):
    L = s.split("\n")
    k = r.random()
    i = r.randrange(len(L))
    if k < 0.3:
        L[i] = L[i] + " zzz-unknown-word zzz"
    elif k < 0.5:
        L.insert(i, r.choice(["completely unknown", "  foo bar", "}", "access-list"]))
    elif k < 0.7 and L[i]:
        j = r.randrange(len(L[i]))
        L[i] = L[i][:j] + L[i][j + 1 :]
    else:
        del L[i]
    return "\n".join(L)


def any_dialect(ctx, s):
    single = [result(lambda: c.fromString(s)) for c in ORDER]
    want = next((x for x in single if x != "refused"), "refused")
    ctx.eq("result of the first dialect that accepts", want, result(lambda: ACLConfig.fromString(s)))
    return want


def run(ctx):
    r = ctx.rng
    d = tempfile.mkdtemp(prefix="acltk-c22-")
    try:
        body(ctx, r, d)
    finally:
        import shutil

        shutil.rmtree(d)


def body(ctx, r, d):
    ctx.part("unknown text", "texts no dialect understands")
    for s in BAD:
        ctx.case(s)
        ctx.eq("refused", "refused", result(lambda: ACLConfig.fromString(s)))
    ctx.part("dialects", "generated ASA, IOS and pfSense configurations, half of them damaged; all ways of input")
    n = 0
    while ctx.left(0.75) and n < cap(ctx, 60):
        n += 1
        k = n % 3
        G = [asa.Gen, ios.Gen, pf.Gen][k]
        s = G(r).config(**({} if k == 2 else {"defs": 4, "uses": 5} if k == 0 else {}))
        if r.random() < 0.5:
            s = damage(r, s)
        ctx.case(s)
        any_dialect(ctx, s)
        if n % 3 == 0 or ctx.tier != "quick":
            ways(ctx, ACLConfig, s, d)
            ways(ctx, ORDER[k], s, d)
    ctx.part("words of several dialects", "short texts that more than one dialect may accept")
    texts = ["", "\n", "!\n", "hostname x\n", "access-list 10 permit any\n", "access-list 101 permit tcp any any\n", "interface Vlan1\n nameif in\n", "object-group service g tcp\n port-object eq www\n",
             "object-group network g\n host 1.2.3.4\n", "hostname a\nip access-list extended x\n permit tcp any any eq 80\n", "access-list 101 remark x\naccess-list 101 permit ip any any\n", "ip route 0.0.0.0 0.0.0.0 1.2.3.4\n", "<pfsense/>", "<opnsense/>", "names\n", "time-range x\n periodic Monday 1:00 to 2:00\n"]
    for s in texts:
        ctx.case(s)
        any_dialect(ctx, s)
        ways(ctx, ACLConfig, s, d)
        for c in ORDER:
            ways(ctx, c, s, d)
    ctx.part("filters", "filters from path, file and string, with and without BOM")
    n = 0
    while ctx.left() and n < cap(ctx, 60):
        n += 1
        pool = rand_pool(r)
        s = text(r, rand_filter(r, 1, pool))
        if len(s) > 1500:
            continue
        if r.random() < 0.3:
            s = damage(r, s)
        ctx.case(s)
        ways(ctx, cafBlock, s, d)
