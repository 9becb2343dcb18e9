"""Contracts of the library functions acltk calls (builtins, ipaddress, fnmatch, ...).  These are trusted: the names of
the ones a proof used are recorded in I.assumed and listed in the evidence."""
import ast as pyast
import collections
import ipaddress
import itertools

import z3

from .core import *
from .core import W
from .interp import *
from .interp import PyExcValue, LazyGen, LazyV, MapSeg, flat_map, decorators, Frame
from .prog import ClassV

NOATTR = object()
IPCLS = {
    "ipaddress.IPv4Address": ipaddress.IPv4Address,
    "ipaddress.IPv6Address": ipaddress.IPv6Address,
    "ipaddress.IPv4Network": ipaddress.IPv4Network,
    "ipaddress.IPv6Network": ipaddress.IPv6Network,
    "ipaddress.IPv4Interface": ipaddress.IPv4Interface,
    "ipaddress.IPv6Interface": ipaddress.IPv6Interface,
    "ipaddress._BaseAddress": ipaddress._BaseAddress,
    "ipaddress._BaseNetwork": ipaddress._BaseNetwork,
}
V4MAX = bv128(2**32 - 1)


def install(I):
    pass


def tag(I, what):
    I.assumed.add(what)


# ------------------------------------------------------------------ names of the library
def libattr(I, o, name):
    full = f"{o.name}.{name}"
    return libvalue(I, full)


def libvalue(I, full):
    if full in IPCLS:
        return PyClass(IPCLS[full])
    if full == "tatsu.ast.AST":
        return PyClass(AstClass)
    if full in ("typing.Union", "typing.List"):
        return Opaque("typing")
    if full == "urllib.error.HTTPError":
        import urllib.error

        return PyClass(urllib.error.HTTPError)
    if full == "ipaddress.NetmaskValueError":
        return PyClass(ipaddress.NetmaskValueError)
    if full == "ipaddress.AddressValueError":
        return PyClass(ipaddress.AddressValueError)
    if full in ("datetime.date", "datetime.time", "datetime.datetime"):
        return LibV(full)
    return LibV(full)


# ------------------------------------------------------------------ addresses
def mk_ip(I, is6, val, check=True):
    return SIp(is6, val)


def ip_int(v):
    return SBV(z3.ZeroExt(W - 128, v.val), 0, 2**128 - 1)


def low128(t):
    return z3.Extract(127, 0, t)


def ip_from_int(I, v, is6=None):
    """ip_address(int)"""
    v = to_bv(v)
    p = I.p
    tag(I, "ipaddress.ip_address(int)")
    if not p.branch(v.t >= 0):
        raise PyExc(ValueError, "negative")
    if is6 is None:
        if p.branch(v.t < z3.BitVecVal(2**32, W)):
            return SIp(z3.BoolVal(False), low128(v.t))
        if p.branch(v.t < z3.BitVecVal(2**128, W)):
            return SIp(z3.BoolVal(True), low128(v.t))
        raise PyExc(ValueError, "too large")
    lim = z3.If(is6, z3.BitVecVal(2**128, W), z3.BitVecVal(2**32, W))
    if not p.branch(v.t < lim):
        raise PyExc(ValueError, "too large")
    return SIp(is6, low128(v.t))


def conc_ip(a):
    return SIp(z3.BoolVal(a.version == 6), bv128(int(a)))


def conc_net(n):
    return SNet(z3.BoolVal(n.version == 6), bv128(int(n.network_address)), bv128(int(n.hostmask)))


S = z3.StringSort()
B = z3.BoolSort()
BV = z3.BitVecSort(128)
f_ipok = z3.Function("ip_text_ok", S, B)
f_ip6 = z3.Function("ip_text_is6", S, B)
f_ipval = z3.Function("ip_text_val", S, BV)
f_netok = z3.Function("mask_text_ok", B, S, B)
f_nethost = z3.Function("mask_text_host", B, S, BV)


def valid_ip(ip):
    return z3.Implies(z3.Not(ip.is6), z3.ULE(ip.val, V4MAX))


def ones(t):
    """t is 2^k - 1"""
    return (t & (t + 1)) == 0


def parse_ip(I, s):
    """text -> address; forks on acceptance"""
    tag(I, "ipaddress: the text of an address denotes one address or is refused")
    t = I.zstr(s)
    if not I.p.branch(f_ipok(t)):
        raise PyExc(ValueError, "not an address")
    r = SIp(f_ip6(t), f_ipval(t))
    I.p.assume(valid_ip(r))
    return r


def ip_address(I, v):
    v = I.force(v)
    if isinstance(v, SIp):
        tag(I, "ipaddress.ip_address(address) is that address")
        return v
    if isinstance(v, bool) or v is None:
        if v is None:
            raise PyExc(ValueError, "None")
        v = int(v)
    if isinstance(v, (int, SBV)):
        return ip_from_int(I, v)
    if isinstance(v, str):
        try:
            return conc_ip(ipaddress.ip_address(v))
        except ValueError as e:
            raise PyExc(ValueError, str(e))
    if isinstance(v, (SStr, SRope)):
        return parse_ip(I, v)
    if isinstance(v, (Obj, HList, HDict, HSet, tuple, SNet)):
        raise PyExc(ValueError, "not an address")
    raise Unsupported(f"ip_address({v})")


def prefix_host(is6, t):
    """host mask of a prefix length given as BV160"""
    one = z3.BitVecVal(1, W)
    n = z3.If(is6, z3.BitVecVal(128, W), z3.BitVecVal(32, W)) - t
    return low128((one << n) - one)


class SPlen(V):
    """the prefix length of a network"""

    def __init__(self, is6, host):
        self.is6, self.host = is6, host


class SDotless(V):
    pass


def net_of(I, ip, mask):
    """host mask of address/mask"""
    p = I.p
    mask = I.force(mask)
    full = z3.If(ip.is6, bv128(2**128 - 1), V4MAX)
    if isinstance(mask, SPlen):
        if p.branch(mask.is6 == ip.is6):
            return mask.host
        raise Unsupported("prefix length of another address family")
    if isinstance(mask, str):
        if mask.isascii() and mask.isdigit():
            mask = int(mask)
        else:
            try:
                m = ipaddress.IPv4Address(mask)
            except ValueError:
                raise PyExc(ValueError, "netmask")
            mask = conc_ip(m)
    if isinstance(mask, (int, SBV)):
        tag(I, "ipaddress: prefix lengths")
        m = to_bv(mask)
        lim = z3.If(ip.is6, z3.BitVecVal(128, W), z3.BitVecVal(32, W))
        if not p.branch(z3.And(m.t >= 0, m.t <= lim)):
            raise PyExc(ValueError, "prefix length")
        return prefix_host(ip.is6, m.t)
    if isinstance(mask, SIp):
        tag(I, "ipaddress: dotted masks are netmasks, else host masks, else refused")
        if p.branch(z3.Or(ip.is6, mask.is6)):
            raise PyExc(ValueError, "netmask")
        inv = mask.val ^ V4MAX
        if p.branch(ones(inv)):
            return inv
        if p.branch(ones(mask.val)):
            return mask.val
        raise PyExc(ValueError, "netmask")
    if isinstance(mask, (SStr, SRope)):
        tag(I, "ipaddress: the text of a mask denotes one host mask or is refused")
        t = I.zstr(mask)
        if not p.branch(f_netok(ip.is6, t)):
            raise PyExc(ValueError, "netmask")
        h = f_nethost(ip.is6, t)
        p.assume(z3.And(ones(h), z3.ULE(h, full)))
        return h
    if mask is None or isinstance(mask, (Obj, HList, HDict, HSet, SNet)):
        raise PyExc(ValueError, "netmask")
    raise Unsupported(f"mask {mask}")


def split_rope(I, v):
    """text/mask -> (address, mask or None)"""
    if isinstance(v, SRope):
        parts = list(v.parts)
        for i, x in enumerate(parts):
            if isinstance(x, str) and "/" in x:
                a, b = x.split("/", 1)
                left = parts[:i] + ([a] if a else [])
                right = ([b] if b else []) + parts[i + 1 :]
                if len(left) == 1 and len(right) == 1:
                    return left[0], right[0]
                raise Unsupported("composed address text")
        if len(parts) == 1:
            return parts[0], None
        raise Unsupported("composed address text")
    if isinstance(v, SStr):
        sl = z3.StringVal("/")
        if I.p.branch(z3.Contains(v.t, sl)):
            tag(I, "ipaddress: one / in the text of a network")
            i = z3.IndexOf(v.t, sl, 0)
            b = z3.SubString(v.t, i + 1, z3.Length(v.t))
            if I.p.branch(z3.Contains(b, sl)):
                raise PyExc(ValueError, "only one / permitted")
            return SStr(z3.SubString(v.t, 0, i)), SStr(b)
    return v, None


def ip_network(I, v, strict=True):
    p = I.p
    v = I.force(v)
    if isinstance(v, SNet):
        return v
    if isinstance(v, str):
        try:
            return conc_net(ipaddress.ip_network(v, strict))
        except ValueError as e:
            raise PyExc(ValueError, str(e))
    if isinstance(v, (int, SBV)):
        v = ip_from_int(I, v)
    if isinstance(v, tuple):
        if len(v) != 2:
            raise PyExc(ValueError, "tuple")
        a, m = v
    else:
        a, m = split_rope(I, v)
    ip = ip_address(I, a) if not isinstance(a, Opaque) else Unsup("address text")
    if isinstance(a, (int, SBV)):
        raise Unsupported("integer address text")
    host = bv128(0) if m is None else net_of(I, ip, m)
    strict = I.truth(strict)
    if strict:
        if not p.branch((ip.val & host) == 0):
            raise PyExc(ValueError, "has host bits set")
    tag(I, "ipaddress.ip_network: address and mask")
    return SNet(ip.is6, ip.val & ~host, host)


def Unsup(w):
    raise Unsupported(w)


def full_of(is6):
    return z3.If(is6, bv128(2**128 - 1), V4MAX)


def ip_in_net(I, a, n):
    a = I.force(a)
    tag(I, "ipaddress: address in network")
    if isinstance(a, SIp):
        return z3.And(a.is6 == n.is6, (a.val & ~n.host) == n.num)
    if isinstance(a, SNet):
        return False
    raise PyExc(AttributeError, "in network")


def overlaps(I, a, b):
    """CPython: true also across families when the integers overlap?  no: comparison of different versions raises"""
    b = I.force(b)
    if not isinstance(b, SNet):
        raise PyExc(AttributeError, "overlaps")
    tag(I, "ipaddress: overlaps (networks of different families never overlap)")
    return z3.And(a.is6 == b.is6, z3.Or((a.num & ~b.host) == b.num, (b.num & ~a.host) == a.num))


# ------------------------------------------------------------------ attributes of library values
def value_attr(I, o, name):
    p = I.p
    if isinstance(o, SIp):
        if name == "version":
            return SInt(z3.If(o.is6, z3.IntVal(6), z3.IntVal(4)))
        if name == "max_prefixlen":
            return SInt(z3.If(o.is6, z3.IntVal(128), z3.IntVal(32)))
        if name in ("compressed",):
            return SRope([o])
        if name in ("packed", "exploded", "is_private", "is_multicast"):
            raise Unsupported(f"address.{name}")
    if isinstance(o, SNet):
        if name == "version":
            return SInt(z3.If(o.is6, z3.IntVal(6), z3.IntVal(4)))
        if name == "network_address":
            return SIp(o.is6, o.num)
        if name == "broadcast_address":
            return SIp(o.is6, o.num | o.host)
        if name == "netmask":
            return SIp(o.is6, o.host ^ full_of(o.is6))
        if name == "hostmask":
            return SIp(o.is6, o.host)
        if name == "prefixlen":
            return SPlen(o.is6, o.host)
        if name == "num_addresses":
            return SBV(z3.ZeroExt(W - 128, o.host) + 1, 1, 2**128)
        if name in ("overlaps", "supernet_of", "subnet_of"):
            return PyFn(lambda I, a, k: method(I, o, name, a, k), name)
    if isinstance(o, SIface):
        if name == "network":
            return o.net
        if name == "ip":
            return o.ip
        if name == "version":
            return value_attr(I, o.ip, "version")
        if name == "netmask":
            return value_attr(I, o.net, "netmask")
    if isinstance(o, (HList, HSet, HDict, str, SStr, SRope, tuple, SeqV)):
        if name in dir({HList: list, HSet: set, HDict: dict, str: str, SStr: str, SRope: str, tuple: tuple, SeqV: list}.get(type(o), list)):
            return PyFn(lambda I, a, k: method(I, o, name, a, k), name)
    if isinstance(o, PyClass):
        py = o.py
        if py is dict and name == "fromkeys":
            raise Unsupported("dict.fromkeys")
        if py in (str, list, set, dict, tuple) and hasattr(py, name):
            return PyFn(lambda I, a, k: method(I, I.force(a[0]), name, a[1:], k), name)
        if py is int and name == "from_bytes":
            raise Unsupported("int.from_bytes")
    if isinstance(o, SDate) and name in ("year", "month", "day", "hour", "minute", "second"):
        return o.parts.get(name, 0)
    if isinstance(o, SDate):
        return PyFn(lambda I, a, k: method(I, o, name, a, k), name)
    if isinstance(o, PyExcValue):
        return Opaque("exception attribute")
    if isinstance(o, XElem):
        tag(I, "xml.etree: an element has a tag, a text (None if empty) and its children in document order")
        if name == "tag":
            return p.notes.get(("tag", o.key), o.tag)
        if name == "text":
            return I.force(I.lazy(o.text))
        if name in ("find", "findall", "findtext", "iter", "get", "iterfind"):
            return PyFn(lambda I, a, k: method(I, o, name, a, k), name)
        raise Unsupported(f"element.{name}")
    if isinstance(o, Obj):
        return NOATTR
    return NOATTR


class SDate(V):
    """datetime.time / datetime.datetime built from its parts"""

    def __init__(self, kind, parts):
        self.kind, self.parts = kind, parts


# ------------------------------------------------------------------ calls of library functions
def call(I, name, args, kwargs):
    n = name
    if n.startswith("builtins."):
        f = globals().get("b_" + n[9:])
        if f is None:
            raise Unsupported(f"builtin {n}")
        return f(I, *args, **kwargs)
    h = I.contracts.get(("lib", n))
    if h is not None:
        return h(I, args, kwargs)
    h = HANDLERS.get(n)
    if h is not None:
        return h(I, *args, **kwargs)
    if n.startswith("logging.") or n.split(".")[0] == "logging":
        if n == "logging.getLogger":
            return LibV("logger")
        return None
    if n.startswith("logger."):
        return None
    raise Unsupported(f"library call {n}")


def b_isinstance(I, v, cls):
    v = I.force(v)
    if isinstance(cls, HSet) or isinstance(cls, HList):
        raise PyExc(TypeError, "isinstance")
    return I.isinst(v, flat_classes(I, cls))


def flat_classes(I, cls):
    if isinstance(cls, tuple):
        out = ()
        for c in cls:
            c = flat_classes(I, c)
            out += c if isinstance(c, tuple) else (c,)
        return out
    return I.force(cls)


def b_issubclass(I, a, b):
    if isinstance(a, ClassV) and isinstance(b, ClassV):
        return a.issub(b)
    if isinstance(b, tuple):
        return any(b_issubclass(I, a, x) for x in b)
    if isinstance(a, PyClass) and isinstance(b, PyClass):
        return issubclass(a.py, b.py)
    raise Unsupported("issubclass")


def b_len(I, v):
    v = I.force(v)
    if isinstance(v, (str, tuple)):
        return len(v)
    if isinstance(v, SStr):
        return SInt(z3.Length(v.t))
    if isinstance(v, (HList, SeqV, XElem)):
        segs = I.segs_of(v)
        if isinstance(v, HList) and I.abstracted(v):
            return SInt(I.abstract_length(v))
        return seq_len(I, segs)
    if isinstance(v, HDict):
        segs = I.p.content(v)
        if all(isinstance(s, Elem) and is_conc(s.v[0]) for s in segs):
            return len(segs)
        return SLen(segs)
    if isinstance(v, HSet):
        n = I.p.content(v)
        if n[0] == "segs" and all(isinstance(s, Elem) and is_conc(s.v) for s in n[1]):
            return len(n[1])
        return SLen(None)
    if v is None or isinstance(v, (int, Obj, SInt)):
        raise PyExc(TypeError, "no len()")
    raise Unsupported(f"len({v})")


class SLen(SInt):
    """the length of a symbolic sequence: base + |rest|"""

    def __init__(self, segs):
        self.segs = segs
        self._t = None

    @property
    def t(self):
        raise Unsupported("length of a symbolic sequence")


def seq_len(I, segs):
    if all(isinstance(s, Elem) for s in segs):
        return len(segs)
    return SLen(segs)


def len_cmp(I, op, l, n):
    """compare a symbolic length with a small constant by unfolding the sequence"""
    # needs at most n+1 elements
    k = count_upto(I, l.segs, n + 1)
    import operator as O

    # k = min(len, n+1)
    return {"Eq": k == n, "NotEq": k != n, "Lt": k < n, "LtE": k <= n, "Gt": k > n, "GtE": k >= n}[op]


def count_upto(I, segs, m):
    if segs is None:
        raise Unsupported("length of a set")
    k = 0
    while k < m:
        r = I.uncons(segs)
        if r is None:
            return k
        k += 1
        segs = r[1]
    return k


def b_any(I, v):
    segs = I.segs_of(v)

    def body(e):
        if I.truth(I.lazy(e)):
            raise BreakExc()

    try:
        I.iterate(segs, body)
    except BreakExc:
        return True
    return False


def b_all(I, v):
    segs = I.segs_of(v)

    def body(e):
        if not I.truth(I.lazy(e)):
            raise BreakExc()

    try:
        I.iterate(segs, body)
    except BreakExc:
        return False
    return True


def b_filter(I, f, v):
    segs = I.segs_of(v)

    def one(e):
        e = I.lazy(e)
        if I.truth(e if f is None else I.call(f, [e], {})):
            return (Elem(e),)
        return ()

    return LazySeq(lambda: flat_map(I, segs, one))


class LazySeq(SeqV):
    def __init__(self, fn):
        self.fn = fn
        self.cache = None

    @property
    def segs(self):
        if self.cache is None:
            self.cache = self.fn()
        return self.cache


def b_map(I, f, *vs):
    if len(vs) != 1:
        raise Unsupported("map of several sequences")
    segs = I.segs_of(vs[0])
    return LazySeq(lambda: flat_map(I, segs, lambda e: (Elem(I.call(f, [I.lazy(e)], {})),)))


def b_list(I, *a):
    return call_class(I, list, a, {})


def b_enumerate(I, v, start=0):
    segs = I.segs_of(v)
    if all(isinstance(s, Elem) for s in segs) or start != 0:
        if not all(isinstance(s, Elem) for s in segs):
            return SeqV(I.map_segs(segs, lambda e: (Opaque("index"), e)))
        return SeqV([Elem((start + i, s.v)) for i, s in enumerate(segs)])
    r = SeqV(indexed(I, segs, lambda i, e: (i, e)))
    r.numbers = ("enumerate", tuple(segs), 0, 1)
    return r


def indexed(I, segs, fn):
    """fn(position, element) over a content; the position of an element after a part of unknown length is symbolic"""
    raw = tuple(segs)
    out = []
    lead = True
    for i, s in enumerate(I.resolve(segs)):
        if lead and isinstance(s, Elem):
            out.append(Elem(fn(i, s.v)))
        else:
            lead = False
            out += I.map_segs((s,), lambda e: fn(SIdx(raw, e), e))
    return tuple(out)


class NumberRange(SeqV):
    """range(lo, length, step); only specifications look into it"""

    def __init__(self, lo, n, step):
        self.numbers = ("range", tuple(n.segs), lo, step)

    @property
    def segs(self):
        raise Unsupported("symbolic range")


class SIdx(Opaque):
    """the position of an element of a symbolic sequence"""

    def __init__(self, segs, v):
        Opaque.__init__(self, "index")
        self.segs, self.v = tuple(segs), v

    def of(self, segs):
        """is it a position in that sequence?"""
        return len(segs) >= len(self.segs) and all(a is b for a, b in zip(segs, self.segs))

    def __repr__(self):
        return f"SIdx({self.v})"


def b_zip(I, *vs, strict=False):
    ss = [I.segs_of(v) for v in vs]
    if all(isinstance(s, Elem) for x in ss for s in x):
        return SeqV([Elem(tuple(s.v for s in t)) for t in zip(*ss)])
    raise Unsupported("zip of symbolic sequences")


def b_range(I, *a):
    if all(isinstance(x, int) for x in a):
        r = range(*a)
        if len(r) > 2000:
            raise Unsupported("long range")
        return SeqV([Elem(i) for i in r])
    if len(a) == 2 and type(a[0]) is int and a[0] == 0:
        a = a[1:]
    if len(a) == 1 and isinstance(a[0], SLen) and a[0].segs is not None:
        r = SeqV(indexed(I, a[0].segs, lambda i, e: i))
        r.numbers = ("range", tuple(a[0].segs), 0, 1)
        return r
    if len(a) in (2, 3) and isinstance(a[1], SLen) and a[1].segs is not None and isinstance(a[0], int) and a[0] >= 0 and (len(a) == 2 or isinstance(a[2], int) and a[2] > 0):
        r = NumberRange(a[0], a[1], a[2] if len(a) == 3 else 1)
        return r
    raise Unsupported("symbolic range")


def b_reversed(I, v):
    segs = I.segs_of(v)
    if all(isinstance(s, Elem) for s in segs):
        return SeqV(tuple(reversed(segs)))
    raise Unsupported("reversed")


def b_getattr(I, o, name, *d):
    if not isinstance(name, str):
        raise Unsupported("getattr with a computed name")
    return I.getattr(o, name, *(d or ()))


def b_open(I, path, mode="r", *a, **k):
    if getattr(I, "open_hook", None) is None:
        raise Unsupported("open")
    return I.open_hook(path, mode, *a, **k)


def b_hasattr(I, o, name):
    try:
        I.getattr(o, name)
        return True
    except PyExc as e:
        if issubclass(e.cls, AttributeError):
            return False
        raise


def b_setattr(I, o, name, v):
    if not isinstance(name, str):
        raise Unsupported("setattr with a computed name")
    I.setattr(o, name, v)


def b_delattr(I, o, name):
    if not isinstance(name, str):
        raise Unsupported("delattr with a computed name")
    I.delattr(o, name)


def b_type(I, v):
    return I.type_of(v)


def b_print(I, *a, **k):
    return None


def b_repr(I, v):
    return Opaque("text")


f_id = z3.Function("id", z3.IntSort(), z3.IntSort())


def b_id(I, v):
    v = I.force(v)
    if isinstance(v, Obj):
        return SInt(f_id(v.ref))
    raise Unsupported("id()")


def b_ord(I, v):
    if isinstance(v, str):
        return ord(v)
    raise Unsupported("ord")


def b_chr(I, v):
    if isinstance(v, int):
        return chr(v)
    raise Unsupported("chr")


def b_callable(I, v):
    return isinstance(v, (FuncV, BoundV, ClassV, PyFn, LibV, PyClass))


def b_sum(I, v, start=0):
    segs = I.segs_of(v)
    if all(isinstance(s, Elem) for s in segs):
        r = start
        for s in segs:
            r = I.binop(pyast.Add(), r, s.v)
        return r
    # trusted abstraction: a number that depends on the summed sequence only
    return Opaque("sum")


def b_abs(I, v):
    if isinstance(v, int):
        return abs(v)
    raise Unsupported("abs")


def b_min(I, *a, **k):
    return minmax(I, a, k, True)


def b_max(I, *a, **k):
    return minmax(I, a, k, False)


def minmax(I, a, k, mn):
    if k:
        raise Unsupported("min/max with key")
    if len(a) == 1:
        segs = I.segs_of(a[0])
        if not all(isinstance(s, Elem) for s in segs):
            raise Unsupported("min/max of a symbolic sequence")
        a = [s.v for s in segs]
    r = a[0]
    for x in a[1:]:
        if I.lt(x, r) if mn else I.lt(r, x):
            r = x
    return r


def b_iter(I, v):
    return SeqV(I.segs_of(v))


def b_next(I, v, *d):
    v = I.force(v)
    if isinstance(v, SeqV):
        segs = v.segs
        out = []

        def body(e):
            out.append(I.lazy(e))
            raise BreakExc()

        try:
            I.iterate(segs, body)
        except BreakExc:
            return out[-1]
        if d:
            return d[0]
        raise PyExc(StopIteration)
    raise Unsupported("next")


def b_frozenset(I, *a):
    return call_class(I, set, a, {})


def b_sorted(I, v, key=None, reverse=False):
    segs = I.segs_of(v)
    if all(isinstance(s, Elem) for s in segs) and len(segs) <= 1:
        for s in segs:
            if key is not None:
                I.call(key, [s.v], {})
        return I.p.new_list(segs)
    return I.p.new_list((sorted_seg(I, segs, key, reverse),))


class SortedSeg(SymSeg):
    """the elements of src in another order; key function and direction are remembered"""

    def __init__(self, key, make, src, keyfn, reverse):
        SymSeg.__init__(self, key, make)
        self.src, self.keyfn, self.reverse = src, keyfn, reverse
        self.srcs = tuple(src)


class SetSeg(SymSeg):
    """the elements of a set, once each, in unspecified order"""

    def __init__(self, key, make, srcs):
        SymSeg.__init__(self, key, make)
        self.srcs = srcs


def set_seg(I, h, node):
    """a set as a sequence"""
    p = I.p
    if node[0] == "segs":
        segs = I.resolve(node[1])
        if all(isinstance(s, Elem) for s in segs) and len(segs) < 2:
            return tuple(segs)
    vs = const_set(I, node)
    if vs is not None:
        k = ("setorder", h.oid, id(node))
        p.notes.setdefault("keep", []).append(node)
        memo = p.singletons_path()
        if k not in memo:
            if len(vs) <= 3:
                perms = list(itertools.permutations(vs))
                vs = perms[p.choose(len(perms), "set order") if len(perms) > 1 else 0]
            else:
                tag(I, "iteration order of a set of constants")
            memo[k] = tuple(vs)
        return tuple(Elem(v) for v in memo[k])
    tag(I, "iteration over a set: every element once, in unspecified order")

    def make(pp, name):
        return set_pick(I, node)

    k = ("setseg", h.oid, id(node))
    p.notes.setdefault("keep", []).append(node)  # ids stay distinct
    return (SetSeg(k, make, tuple(node[1]) if node[0] == "segs" else ()),)


def const_set(I, node):
    """the elements of a set of constants"""
    if node[0] == "segs":
        segs = I.resolve(node[1])
        if not all(isinstance(s, Elem) for s in segs):
            return None
        vs = [I.force(I.lazy(s.v)) for s in segs]
        return list(dict.fromkeys(vs)) if all(v is None or isinstance(v, (str, int)) for v in vs) else None
    if node[0] in ("union", "inter", "diff"):
        a, b = const_set(I, node[1]), const_set(I, node[2])
        if a is None or b is None:
            return None
        if node[0] == "union":
            return list(dict.fromkeys(a + b))
        return [v for v in a if (v in b) == (node[0] == "inter")]
    return None


def set_pick(I, node):
    k = node[0]
    if k == "union":
        return set_pick(I, node[1 + I.p.choose(2, "union")])
    if k in ("inter", "diff"):
        v = set_pick(I, node[1])
        if I.contains(node[2], v) != (k == "inter"):
            raise PathInfeasible()
        return v
    if k == "segs":
        return pick(I, node[1])
    if k == "pred" and len(node) > 2:
        return node[2](I)
    raise Unsupported("iteration over a set known by its predicate")


def sorted_seg(I, segs, key, reverse):
    p = I.p
    tag(I, "sorted: a stable ascending permutation by the key")

    # calling the key on every element must not raise
    def body(e):
        if key is not None:
            I.call(key, [I.lazy(e)], {})

    I.iterate(segs, body)

    def make(pp, name):
        e = pick(I, segs)
        return e

    return SortedSeg(("sorted", p._bump()), make, segs, key, I.truth(reverse))


def pick(I, segs):
    """an arbitrary element of a sequence"""
    p = I.p
    segs = I.resolve(segs)
    if not segs:
        raise PathInfeasible()
    k = p.choose(len(segs), "pick") if len(segs) > 1 else 0
    s = segs[k]
    if isinstance(s, Elem):
        return I.lazy(s.v)
    if isinstance(s, FM):
        e = p.member(s.src)
        return pick(I, s.fn(p, e))
    return p.member(s)


# ------------------------------------------------------------------ classes as functions
def call_class(I, py, args, kwargs):
    p = I.p
    args = [I.force(a) for a in args]
    if py is list:
        if not args:
            return p.new_list()
        return p.new_list(I.segs_of(args[0]))
    if py is tuple:
        if not args:
            return ()
        segs = I.segs_of(args[0])
        if all(isinstance(s, Elem) for s in segs):
            return tuple(I.lazy(s.v) for s in segs)
        return p.new_list(segs)  # an immutable copy; only its content matters
    if py in (set, frozenset):
        s = p.new_set()
        if args:
            a = args[0]
            if isinstance(a, HSet):
                p.heap[s.oid] = p.content(a)
            else:
                I.set_add(s, I.segs_of(a))
                p.wlog.pop()
        return s
    if py is dict:
        d = p.new_dict()
        if args:
            a = args[0]
            if isinstance(a, HDict):
                p.heap[d.oid] = p.content(a)
            else:
                for s in I.segs_of(a):
                    if not isinstance(s, Elem):
                        p.heap[d.oid] = p.heap[d.oid] + (s,)
                        continue
                    I.dict_set(d, s.v[0], s.v[1])
        for k, v in kwargs.items():
            I.dict_set(d, k, v)
        return d
    if py is AstClass:
        d = p.new_dict(ast=True)
        if args:
            raise Unsupported("AST(dict)")
        for k, v in kwargs.items():
            I.dict_set(d, k, v)
        return d
    if py is bool:
        return I.truth(args[0]) if args else False
    if py is int:
        return to_int(I, *args)
    if py is str:
        if not args:
            return ""
        v = args[0]
        if isinstance(v, (str, SStr, SRope)):
            return v
        if isinstance(v, bool) or v is None:
            return str(v)
        if isinstance(v, int):
            return str(v)
        if isinstance(v, SIp):
            return SRope([v])
        if isinstance(v, SNet):
            return SRope([SIp(v.is6, v.num), "/", SPlen(v.is6, v.host)])
        return Opaque("text")
    if py is float:
        raise Unsupported("float")
    if isinstance(py, type) and issubclass(py, BaseException):
        return PyExcValue(PyExc(py))
    if py in (ipaddress.IPv4Address, ipaddress.IPv6Address):
        r = ip_address(I, args[0])
        if not p.branch(r.is6 if py is ipaddress.IPv6Address else z3.Not(r.is6)):
            if isinstance(args[0], (int, SBV)):
                raise Unsupported("explicit address family")
            raise PyExc(ValueError, "address family")
        return r
    if py in (ipaddress.IPv4Network, ipaddress.IPv6Network):
        r = ip_network(I, *args, **kwargs)
        if not p.branch(r.is6 if py is ipaddress.IPv6Network else z3.Not(r.is6)):
            raise PyExc(ValueError, "address family")
        return r
    if py is object:
        return I.p.new_list()
    raise Unsupported(f"call of {py}")


f_intok = z3.Function("int_text_ok", S, B)
f_int = z3.Function("int_text", S, z3.IntSort())


def to_int(I, v=0, base=10):
    p = I.p
    v = I.force(v)
    if isinstance(v, (bool, int)):
        return int(v)
    if isinstance(v, (SInt, SBV)):
        return v
    if isinstance(v, SIp):
        tag(I, "int(address)")
        return ip_int(v)
    if isinstance(v, SBool):
        return SInt(z3.If(v.t, z3.IntVal(1), z3.IntVal(0)))
    if isinstance(v, str):
        try:
            return int(v, base)
        except ValueError as e:
            raise PyExc(ValueError, str(e))
    if isinstance(v, SStr):
        tag(I, "int(text): a text denotes one number or is refused")
        if not p.branch(f_intok(v.t)):
            raise PyExc(ValueError, "not a number")
        return SInt(f_int(v.t))
    if isinstance(v, float):
        return int(v)
    if v is None or isinstance(v, (Obj, HList, HDict, HSet, tuple)):
        raise PyExc(TypeError, "int()")
    raise Unsupported(f"int({v})")


# ------------------------------------------------------------------ sets
def set_node(I, v):
    v = I.force(v)
    if isinstance(v, HSet):
        return I.p.content(v)
    return ("segs", I.segs_of(v))


def raw_segs(I, v):
    """elements of an iterable where order and multiplicity do not matter"""
    v = I.force(v)
    if isinstance(v, HSet) and I.p.content(v)[0] == "segs":
        return I.p.content(v)[1]
    return I.segs_of(v)


def set_op(I, op, a, b):
    return I.p.new_set((op, set_node(I, a), set_node(I, b)))


# ------------------------------------------------------------------ methods of library values
def method(I, o, name, args, kwargs):
    p = I.p
    args = [I.force(a) for a in args]
    if isinstance(o, HList):
        return m_list(I, o, name, args, kwargs)
    if isinstance(o, HSet):
        return m_set(I, o, name, args, kwargs)
    if isinstance(o, HDict):
        return m_dict(I, o, name, args, kwargs)
    if isinstance(o, (str, SStr, SRope)):
        return m_str(I, o, name, args, kwargs)
    if isinstance(o, SNet):
        if name == "overlaps":
            return SBool(z3.simplify(overlaps(I, o, args[0])))
        if name == "subnet_of":
            if p.branch(o.is6 != args[0].is6):
                raise PyExc(TypeError, "versions")
            return SBool(z3.And((o.num & ~args[0].host) == args[0].num, z3.ULE(o.host, args[0].host)))
        if name == "supernet_of":
            return method(I, args[0], "subnet_of", [o], {})
        raise Unsupported(f"network.{name}")
    if isinstance(o, (int, SBV)) and name == "bit_length":
        x = to_bv(o)
        if x.lo < 0:
            raise Unsupported("bit_length of a negative number")
        n = max(x.hi.bit_length(), 1)
        t = z3.BitVecVal(0, W)
        for i in range(n):
            t = z3.If(z3.Extract(i, i, x.t) == 1, z3.BitVecVal(i + 1, W), t)
        return SBV(t, 0, n)
    if isinstance(o, SIp):
        raise Unsupported(f"address.{name}")
    if isinstance(o, tuple):
        if name == "index" or name == "count":
            raise Unsupported("tuple method")
        if name == "__iter__":
            return SeqV(I.segs_of(o))
    if isinstance(o, SeqV):
        if name in ("__iter__",):
            return o
        return m_set(I, p.new_set(("segs", o.segs)), name, args, kwargs)
    if isinstance(o, PyExcValue):
        return None
    if isinstance(o, SDate):
        return Opaque("formatted date")
    if isinstance(o, XElem):
        return m_xml(I, o, name, args, kwargs)
    if isinstance(o, Opaque):
        if getattr(o, "methods", None) and name in o.methods:
            return o.methods[name](I, args, kwargs)
        raise Unsupported(f"method {name} of {o}")
    if o is None:
        raise PyExc(AttributeError, f"None has no attribute {name}")
    if isinstance(o, (int, bool)):
        raise PyExc(AttributeError, name)
    if isinstance(o, (ClassV, LibV, PyClass, NT)):
        return I.call(I.getattr(o, name), args, kwargs)
    raise Unsupported(f"method {name} of {o}")


def m_xml(I, o, name, args, kwargs):
    """find/findall/findtext of a child tag"""
    if name not in ("find", "findall", "findtext") or not args or not isinstance(args[0], str) or not args[0].replace("-", "").replace("/", "a").isalnum():
        raise Unsupported(f"element.{name}")

    def below(x, path):
        def body(e):
            if not I.tr(I.eq(I.getattr(e, "tag"), path[0])):
                return ()
            return (Elem(e),) if len(path) == 1 else below(e, path[1:])

        return flat_map(I, x.segs, body)

    segs = below(o, args[0].split("/"))
    if name == "findall":
        return I.p.new_list(segs)
    r = I.uncons(I.resolve(segs))
    if r is None:
        return args[1] if name == "findtext" and len(args) > 1 else kwargs.get("default")
    return I.getattr(r[0], "text") if name == "findtext" else r[0]


def m_list(I, o, name, args, kwargs):
    p = I.p
    if name == "append":
        I.list_extend(o, (Elem(args[0]),))
        return None
    if name == "extend":
        I.list_extend(o, I.segs_of(args[0]))
        return None
    if name == "copy":
        return p.new_list(p.content(o))
    if name == "clear":
        p.content(o)
        p.log("other", o.oid, "clear")
        p.heap[o.oid] = ()
        return None
    if name == "__iter__":
        return SeqV(p.content(o))
    if name == "insert":
        segs = p.content(o)
        if isinstance(args[0], int) and (args[0] == 0 or all(isinstance(s, Elem) for s in segs)):
            l = list(segs)
            l.insert(args[0], Elem(args[1]))
            p.log("other", o.oid, "insert")
            p.heap[o.oid] = tuple(l)
            return None
    if name == "pop":
        segs = p.content(o)
        k = args[0] if args else -1
        if isinstance(k, int):
            if all(isinstance(s, Elem) for s in segs):
                if not -len(segs) <= k < len(segs):
                    raise PyExc(IndexError)
                l = list(segs)
                v = l.pop(k)
                p.log("other", o.oid, "pop")
                p.heap[o.oid] = tuple(l)
                return I.lazy(v.v)
            if k == 0:
                r = I.uncons(segs)
                if r is None:
                    raise PyExc(IndexError)
                p.log("other", o.oid, "pop")
                p.heap[o.oid] = r[1]
                return r[0]
    if name == "sort":
        segs = p.content(o)
        r = b_sorted(I, o, **kwargs)
        p.log("other", o.oid, "sort")
        p.heap[o.oid] = p.content(r)
        return None
    if name == "remove":
        segs = p.content(o)
        p.log("remove", o.oid, args[0])
        if o.oid in p.notes.get("bag", ()):
            return None
        if all(isinstance(s, Elem) for s in segs):
            l = list(segs)
            for i, s in enumerate(l):
                if I.tr(I.eq(s.v, args[0])):
                    del l[i]
                    p.heap[o.oid] = tuple(l)
                    return None
            raise PyExc(ValueError, "not in list")
    if name == "index" or name == "count":
        segs = p.content(o)
        if all(isinstance(s, Elem) for s in segs):
            if name == "index":
                for i, s in enumerate(segs):
                    if I.tr(I.eq(s.v, args[0])):
                        return i
                raise PyExc(ValueError)
            return sum(1 for s in segs if I.tr(I.eq(s.v, args[0])))
    raise Unsupported(f"list.{name}")


def m_set(I, o, name, args, kwargs):
    p = I.p
    if name == "add":
        I.set_add(o, (Elem(args[0]),))
        return None
    if name == "update":
        for a in args:
            if isinstance(a, HSet) and p.content(a)[0] != "segs":
                n = p.content(a)
                p.log("union", o.oid, n)
                if o.oid in p.opaque:
                    raise LoopCarried("set update")
                p.heap[o.oid] = ("union", p.heap[o.oid], n)
            else:
                I.set_add(o, raw_segs(I, a))
        return None
    if name in ("union", "intersection", "difference"):
        if len(args) != 1:
            if not args:
                return p.new_set(p.content(o))
            r = o
            for a in args:
                r = m_set(I, r, name, [a], {})
            return r
        return set_op(I, {"union": "union", "intersection": "inter", "difference": "diff"}[name], o, args[0])
    if name in ("intersection_update", "difference_update"):
        n = {"intersection_update": "inter", "difference_update": "diff"}[name]
        node = (n, p.content(o), set_node(I, args[0]))
        p.log("other", o.oid, name)
        p.heap[o.oid] = node
        return None
    if name == "copy":
        return p.new_set(p.content(o))
    if name == "discard" or name == "remove":
        node = p.content(o)
        x = args[0]
        if name == "remove" and not I.contains(node, x):
            raise PyExc(KeyError)
        p.log("other", o.oid, name)
        p.heap[o.oid] = ("diff", node, ("segs", (Elem(x),)))
        return None
    if name == "clear":
        p.log("other", o.oid, "clear")
        p.heap[o.oid] = ("segs", ())
        return None
    if name == "isdisjoint":
        a, b = p.content(o), set_node(I, args[0])
        if a[0] == "segs":
            def body(e):
                if I.contains(b, e):
                    raise BreakExc()

            try:
                I.iterate(a[1], body)
            except BreakExc:
                return False
            return True
    if name == "__contains__":
        return I.contains(p.content(o), args[0])
    raise Unsupported(f"set.{name}")


def m_dict(I, o, name, args, kwargs):
    p = I.p
    if o.ast and name in ("items", "keys", "values", "get", "pop"):
        pass
    if name == "get":
        d = args[1] if len(args) > 1 else kwargs.get("default")
        return I.dict_get(o, args[0], lambda: d)
    if name == "items":
        return SeqV(dict_view(I, o))
    if name == "values":
        return SeqV(I.map_segs(dict_view(I, o), lambda kv: kv[1]))
    if name == "keys":
        return SeqV(I.map_segs(dict_view(I, o), lambda kv: kv[0]))
    if name == "pop":
        if all(isinstance(s, Elem) and is_conc(s.v[0]) for s in p.content(o)):
            if not I.dict_has(o, args[0]):
                if len(args) > 1:
                    return args[1]
                raise PyExc(KeyError)
            def missing():
                raise PyExc(KeyError)
            return I.dict_del(o, args[0], missing)
    if name == "setdefault":
        flag = []
        r = I.dict_get(o, args[0], lambda: flag.append(1))
        if flag:
            d = args[1] if len(args) > 1 else None
            I.dict_set(o, args[0], d)
            return d
        return r
    if name == "update":
        if args:
            a = args[0]
            for s in I.p.content(a) if isinstance(a, HDict) else I.segs_of(a):
                if not isinstance(s, Elem):
                    raise Unsupported("dict.update with a symbolic dict")
                I.dict_set(o, s.v[0], s.v[1])
        for k, v in kwargs.items():
            I.dict_set(o, k, v)
        return None
    if name == "copy":
        return p.new_dict(p.content(o), o.ast)
    if name == "clear":
        p.log("other", o.oid, "clear")
        p.heap[o.oid] = ()
        return None
    if name == "__contains__":
        return I.dict_has(o, args[0])
    raise Unsupported(f"dict.{name}")


def dict_view(I, o):
    segs = I.p.content(o)
    if len([s for s in segs if not isinstance(s, Elem)]) == 0:
        if all(is_conc(s.v[0]) for s in segs):
            return I.map_segs(segs, lambda kv: (kv[0], I.lazy(kv[1])))
    if len(segs) == 1 and isinstance(segs[0], MapSeg):
        return segs
    raise Unsupported("view of a symbolic dict with updates")


f_lower = z3.Function("str_lower", S, S)
f_upper = z3.Function("str_upper", S, S)
f_strip = z3.Function("str_strip", S, S)


def text_of(x):
    return str(x) if is_conc(x) else x


def rope(parts):
    """concatenation of texts and formatted values"""
    if all(isinstance(x, str) for x in parts):
        return "".join(parts)
    out = []
    for x in parts:
        if isinstance(x, SRope):
            out += x.parts
        else:
            out.append(x)
    if len(out) == 1 and isinstance(out[0], SStr):
        return out[0]
    return SRope(out)


def format_text(I, o, args, kwargs):
    """'{} {x}'.format(...) without format specifications; None if it is not that"""
    import string

    parts, n = [], 0
    for lit, field, spec, conv in string.Formatter().parse(o):
        if lit:
            parts.append(lit)
        if field is None:
            continue
        if spec or conv not in (None, "s"):
            return None
        if field == "":
            field, n = str(n), n + 1
        if field.isdigit():
            if int(field) >= len(args):
                raise PyExc(IndexError, "format")
            v = args[int(field)]
        elif field.isidentifier():
            if field not in kwargs:
                raise PyExc(KeyError, field)
            v = kwargs[field]
        else:
            return None
        parts.append(text_of(I.force(v)))
    return rope(parts)


def m_str(I, o, name, args, kwargs):
    p = I.p
    if isinstance(o, str) and all(is_conc(a) for a in args) and not kwargs:
        if name in ("split", "splitlines", "rsplit"):
            return p.new_list([Elem(x) for x in getattr(o, name)(*args)])
        if name == "partition":
            return o.partition(*args)
        if name in ("strip", "lstrip", "rstrip", "lower", "upper", "startswith", "endswith", "replace", "isdigit",
                    "title", "format", "capitalize", "find", "count", "isupper", "islower", "zfill", "removeprefix", "removesuffix", "index", "casefold"):
            try:
                return getattr(o, name)(*args)
            except Exception as e:
                raise PyExc(type(e), str(e))
    if name == "format":
        r = format_text(I, o, args, kwargs) if isinstance(o, str) else None
        return Opaque("formatted text") if r is None else r
    if name == "join":
        segs = I.resolve(I.segs_of(args[0]))
        if isinstance(o, str) and all(isinstance(s, Elem) for s in segs):
            vs = [I.force(I.lazy(s.v)) for s in segs]
            if all(isinstance(v, (str, SStr, SRope)) for v in vs):
                return rope([x for i, v in enumerate(vs) for x in ([o] if i and o else []) + [v]])
            if any(not isinstance(v, (str, SStr, SRope, Opaque)) for v in vs):
                raise PyExc(TypeError, "expected str instance")
        return Opaque("joined text")
    if isinstance(o, SStr):
        if name == "startswith" and isinstance(args[0], (str, SStr)):
            return SBool(z3.PrefixOf(I.zstr(args[0]), o.t))
        if name == "endswith" and isinstance(args[0], (str, SStr)):
            return SBool(z3.SuffixOf(I.zstr(args[0]), o.t))
        if name == "upper" and not args:
            tag(I, "str.upper")
            return SStr(f_upper(o.t))
        if name == "lower" and not args:
            return SStr(f_lower(o.t))
        if name == "strip" and not args:
            return SStr(f_strip(o.t))
        if name == "split":
            return split_sym(I, o, *args, **kwargs)
    if name == "encode":
        return Opaque("bytes")
    raise Unsupported(f"str.{name}")


def split_sym(I, o, sep=None, maxsplit=-1):
    """o.split(sep): pieces are a function of the text"""
    p = I.p
    if not isinstance(sep, str):
        raise Unsupported("split without separator")
    tag(I, "str.split")
    key = ("split", o.t.sexpr(), sep, maxsplit)
    if p.branch(z3.Not(z3.Contains(o.t, z3.StringVal(sep)))):
        return p.new_list((Elem(o),))
    if sep in ("/", ":", "-"):
        # first separator
        i = z3.IndexOf(o.t, z3.StringVal(sep), 0)
        a = SStr(z3.SubString(o.t, 0, i))
        rest = SStr(z3.SubString(o.t, i + 1, z3.Length(o.t)))
        if maxsplit == 1 or p.branch(z3.Not(z3.Contains(rest.t, z3.StringVal(sep)))):
            return p.new_list((Elem(a), Elem(rest)))
        if p.choose(2, "pieces") == 0:
            j = z3.IndexOf(rest.t, z3.StringVal(sep), 0)
            b = SStr(z3.SubString(rest.t, 0, j))
            c = SStr(z3.SubString(rest.t, j + 1, z3.Length(rest.t)))
            if maxsplit != 2:
                p.assume(z3.Not(z3.Contains(c.t, z3.StringVal(sep))))
            return p.new_list((Elem(a), Elem(b), Elem(c)))
        if maxsplit == 2:
            raise PathInfeasible()
        # four pieces or more
        f = z3.Function(f"pieces:{sep}", S, z3.IntSort(), S)
        return p.new_list((Elem(a), *(Elem(SStr(f(o.t, z3.IntVal(k)))) for k in (1, 2, 3)), SymSeg(key, lambda pp, n: SStr(z3.Const(n, S)))))
    f = z3.Function(f"piece:{sep}", S, z3.IntSort(), S)

    def make(pp, n):
        k = z3.Const(n + ".i", z3.IntSort())
        return SStr(f(o.t, k))

    return p.new_list((SymSeg(key, make),))


# ------------------------------------------------------------------ library functions by name
f_fnm = z3.Function("fnmatchcase", S, S, B)


def h_fnmatchcase(I, name, pat):
    tag(I, "fnmatch.fnmatchcase")
    return SBool(f_fnm(I.zstr(name), I.zstr(pat)))


def h_fnmatch(I, name, pat):
    # posix: normcase is the identity
    tag(I, "fnmatch.fnmatch (posix)")
    return SBool(f_fnm(I.zstr(name), I.zstr(pat)))


def h_namedtuple(I, name, field_names=None, **k):
    fn = field_names
    if isinstance(fn, HList):
        fn = [s.v for s in I.p.content(fn)]
    elif isinstance(fn, str):
        fn = fn.replace(",", " ").split()
    return NTClass(name, list(fn))


def h_defaultdict(I, f=None, *a):
    d = I.p.new_dict(default=f)
    return d


def h_chain_from_iterable(I, v):
    segs = I.segs_of(v)
    return SeqV(flat_map(I, segs, lambda e: I.segs_of(I.lazy(e))))


def h_chain(I, *vs):
    out = ()
    for v in vs:
        out += tuple(I.segs_of(v))
    return SeqV(out)


def h_log(I, v, base=None):
    tag(I, "math.floor(math.log(n, 2)) is the highest set bit for 0 < n < 2**32 (checked at all powers of two)")
    if base != 2:
        raise Unsupported("log")
    v = I.force(v)
    x = to_bv(v)
    if not I.p.branch(x.t > 0):
        raise PyExc(ValueError, "math domain error")
    return SLog(x)


class SLog(V):
    def __init__(self, x):
        self.x = x


def h_floor(I, v):
    v = I.force(v)
    if isinstance(v, SLog):
        if not I.p.entails(v.x.t < z3.BitVecVal(2**32, W)):
            raise Unsupported("logarithm of a number beyond 2**32")
        x = SBV(v.x.t, 1, 2**32 - 1)
        r = method(I, x, "bit_length", [], {})
        return SBV(r.t - 1, 0, 31)
    if isinstance(v, (int, float)):
        import math

        return math.floor(v)
    raise Unsupported("floor")


def h_collapse(I, v):
    """trusted contract of ipaddress.collapse_addresses: see specs (coverage is stated there)"""
    return collapse(I, v)


class CollapsedSeg(SymSeg):
    def __init__(self, key, make, src):
        SymSeg.__init__(self, key, make)
        self.src_segs = src


def collapse(I, v):
    p = I.p
    segs = I.segs_of(v)
    tag(I, "ipaddress.collapse_addresses: covers the same addresses with disjoint networks of one family")
    fam = [None]

    def body(e):
        e = I.lazy(e)
        if not isinstance(e, (SIp, SNet)):
            raise PyExc(AttributeError, "collapse")

    I.iterate(segs, body)
    # all of one family, else TypeError
    if not same_family(I, segs):
        raise PyExc(TypeError, "are not of the same version")
    n = p._bump()

    def make(pp, name):
        is6 = z3.Const(name + ".is6", B)
        num = z3.Const(name + ".num", BV)
        host = z3.Const(name + ".host", BV)
        net = SNet(is6, num, host)
        pp.assume(z3.And(ones(host), (num & host) == 0, z3.Implies(z3.Not(is6), z3.And(z3.ULE(num, V4MAX), z3.ULE(host, V4MAX)))))
        # it has the family of the input
        e = pick(I, segs)
        pp.assume(is6 == e.is6)
        return net

    r = CollapsedSeg(("collapsed", n), make, segs)
    p.notes["collapsed"] = p.notes.get("collapsed", ()) + (r,)
    return SeqV((r,))


def same_family(I, segs):
    """are all addresses of the sequence of one family? (fork: if not, there are two witnesses)"""
    p = I.p
    if p.choose(2, "mixed families") == 1:
        a = pick(I, segs)
        b = pick(I, segs)
        p.assume(a.is6 != b.is6)
        p.require_feasible()
        return False
    return True


class SummSeg(SymSeg):
    def __init__(self, key, make, a, b):
        SymSeg.__init__(self, key, make)
        self.a, self.b = a, b


def h_summarize(I, a, b):
    p = I.p
    tag(I, "ipaddress.summarize_address_range: networks covering exactly first..last")
    a, b = I.force(a), I.force(b)
    if not (isinstance(a, SIp) and isinstance(b, SIp)):
        raise PyExc(TypeError, "first and last must be IP addresses")
    if p.branch(a.is6 != b.is6):
        raise PyExc(TypeError, "versions")
    if p.branch(z3.UGT(a.val, b.val)):
        raise PyExc(ValueError, "last IP address must be greater than first")

    def make(pp, name):
        num = z3.Const(name + ".num", BV)
        host = z3.Const(name + ".host", BV)
        pp.assume(z3.And(ones(host), (num & host) == 0, z3.ULE(a.val, num), z3.ULE(num | host, b.val),
                         z3.Implies(z3.Not(a.is6), z3.And(z3.ULE(num, V4MAX), z3.ULE(host, V4MAX)))))
        return SNet(a.is6, num, host)

    # a pure function of its arguments: the same ends give the same networks
    key = ("summarized", a.is6.sexpr(), a.val.sexpr(), b.val.sexpr())
    return SeqV((SummSeg(key, make, a, b),))


def h_time(I, hour=0, minute=0, second=0, **k):
    return mkdate(I, "time", dict(hour=hour, minute=minute, second=second, **k))


def h_datetime(I, year=None, month=None, day=None, hour=0, minute=0, second=0, **k):
    if year is None or month is None or day is None:
        raise PyExc(TypeError, "datetime()")
    return mkdate(I, "datetime", dict(year=year, month=month, day=day, hour=hour, minute=minute, second=second, **k))


f_dateok = z3.Function("date_ok", z3.IntSort(), z3.IntSort(), z3.IntSort(), B)


def mkdate(I, kind, parts):
    p = I.p
    tag(I, f"datetime.{kind}: keeps its parts, refuses impossible ones")
    if set(parts) - {"year", "month", "day", "hour", "minute", "second"}:
        raise PyExc(TypeError, kind)
    for k, v in parts.items():
        if not isinstance(v, (int, SInt)):
            raise PyExc(TypeError, f"{k} must be an integer")
    z = {k: I.zint(v) for k, v in parts.items()}
    ok = z3.And(z["hour"] >= 0, z["hour"] <= 23, z["minute"] >= 0, z["minute"] <= 59, z["second"] >= 0, z["second"] <= 59)
    if kind == "datetime":
        ok = z3.And(ok, z["year"] >= 1, z["year"] <= 9999, z["month"] >= 1, z["month"] <= 12, z["day"] >= 1, z["day"] <= 31,
                    f_dateok(z["year"], z["month"], z["day"]))
    if not p.branch(ok):
        raise PyExc(ValueError, "impossible date")
    return SDate(kind, parts)


def h_now(I, *a):
    return SDate("datetime", {})


def h_fromtimestamp(I, *a):
    return SDate("datetime", {})


f_unesc = z3.Function("html_unescape", S, S)


def h_unescape(I, s):
    tag(I, "html.unescape")
    s = I.force(s)
    if isinstance(s, str):
        import html

        return html.unescape(s)
    if isinstance(s, SStr):
        return SStr(f_unesc(s.t))
    if s is None:
        raise PyExc(TypeError, "unescape(None)")
    raise Unsupported("unescape")


f_servok = z3.Function("socket_serv_known", S, B)
f_serv = z3.Function("socket_serv", S, z3.IntSort())


def h_getservbyname(I, s, *a):
    tag(I, "socket.getservbyname: a number or OSError")
    s = I.force(s)
    if not isinstance(s, (str, SStr)):
        raise PyExc(TypeError, "getservbyname")
    t = I.zstr(s)
    if I.p.branch(f_servok(t)):
        return SInt(f_serv(t))
    raise PyExc(OSError, "service not found")


def h_ip_interface(I, v):
    v = I.force(v)
    if isinstance(v, str):
        try:
            x = ipaddress.ip_interface(v)
        except ValueError as e:
            raise PyExc(ValueError, str(e))
        return SIface(conc_ip(x.ip), conc_net(x.network))
    a, m = split_rope(I, v)
    ip = ip_address(I, a)
    host = bv128(0) if m is None else net_of(I, ip, m)
    tag(I, "ipaddress.ip_interface")
    return SIface(ip, SNet(ip.is6, ip.val & ~host, host))


def h_parserconfig(I, **kw):
    o = Opaque("ParserConfig")
    o.attrs = kw
    return o


HANDLERS = {
    "tatsu.infos.ParserConfig": h_parserconfig,
    "ipaddress.ip_address": ip_address,
    "ipaddress.ip_network": lambda I, v, strict=True: ip_network(I, v, strict),
    "ipaddress.ip_interface": h_ip_interface,
    "ipaddress.collapse_addresses": h_collapse,
    "ipaddress.summarize_address_range": h_summarize,
    "fnmatch.fnmatchcase": h_fnmatchcase,
    "fnmatch.fnmatch": h_fnmatch,
    "collections.namedtuple": h_namedtuple,
    "collections.defaultdict": h_defaultdict,
    "itertools.chain.from_iterable": h_chain_from_iterable,
    "itertools.chain": h_chain,
    "math.log": h_log,
    "math.log2": lambda I, v: h_log(I, v, 2),
    "math.floor": h_floor,
    "datetime.time": h_time,
    "datetime.datetime": h_datetime,
    "datetime.datetime.now": h_now,
    "datetime.datetime.fromtimestamp": h_fromtimestamp,
    "html.unescape": h_unescape,
    "socket.getservbyname": h_getservbyname,
}
