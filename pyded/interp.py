"""Symbolic interpreter of the Python subset (see core.py)."""
import ast
import builtins
import ipaddress

import z3

from .core import *
from .core import W
from .prog import ClassV


# ---------------------------------------------------------------- callable and class values
class FuncV(V):
    def __init__(self, node, mod, cls=None, frame=None, name=None):
        self.node, self.mod, self.cls, self.frame = node, mod, cls, frame
        self.name = name or getattr(node, "name", "<lambda>")


class BoundV(V):
    def __init__(self, self_, func):
        self.self_, self.func = self_, func


class LibV(V):
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"lib:{self.name}"


class PyFn(V):
    """engine level callable: fn(I, args, kwargs)"""

    def __init__(self, fn, name=""):
        self.fn, self.name = fn, name


class PyClass(V):
    def __init__(self, py):
        self.py = py

    def __eq__(self, o):
        return isinstance(o, PyClass) and o.py is self.py

    def __hash__(self):
        return hash(self.py)

    def __repr__(self):
        return f"<{self.py.__name__}>"


class NTClass(V):
    def __init__(self, name, fields):
        self.name, self.fields = name, fields


class NT(V):
    def __init__(self, cls, vals):
        self.cls, self.vals = cls, vals


class AstClass:
    """stands for tatsu.ast.AST"""

    __name__ = "AST"


# ---------------------------------------------------------------- control flow
class ReturnExc(Exception):
    def __init__(self, v):
        self.v = v


class BreakExc(Exception):
    pass


class ContinueExc(Exception):
    pass


class Unbound:
    pass


UNBOUND = Unbound()


class Frame:
    def __init__(self, mod, parent=None, cls=None, func=None, self_=None):
        self.locals = {}
        self.mod, self.parent, self.cls, self.func, self.self_ = mod, parent, cls, func, self_
        self.yields = None
        self.exc = None


def stored_names(nodes, fr=None):
    """names a piece of code assigns; a container that is only extended in place (x += ..) keeps its name"""
    out = []
    inplace = set()
    for n in nodes:
        for x in ast.walk(n):
            if fr is not None and isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and isinstance(fr.locals.get(x.target.id), (HList, HSet)):
                inplace.add(id(x.target))
    for n in nodes:
        for x in ast.walk(n):
            if id(x) in inplace:
                continue
            if isinstance(x, (ast.MatchAs, ast.MatchStar)) and x.name:
                out.append(x.name)
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                out.append(x.id)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                out.append(x.name)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                out += [(a.asname or a.name).split(".")[0] for a in x.names]
            elif isinstance(x, ast.FunctionDef):
                out.append(x.name)
    return sorted(set(out))


YIELD = {}


def has_yield(node):
    r = YIELD.get(node)
    if r is None:
        r = YIELD[node] = has_yield_(node)
    return r


def has_yield_(node):
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo += list(ast.iter_child_nodes(n))
    return False


EXC = {
    n: getattr(builtins, n)
    for n in dir(builtins)
    if isinstance(getattr(builtins, n), type) and issubclass(getattr(builtins, n), BaseException)
}
PYTYPES = {"int": int, "str": str, "list": list, "dict": dict, "set": set, "tuple": tuple, "frozenset": frozenset,
           "bool": bool, "float": float, "object": object, "bytes": bytes}

DICT_ATTRS = set(dir(dict)) | {"frozen", "parseinfo", "set_parseinfo", "asjson"}


def is_conc(v):
    return v is None or isinstance(v, (bool, int, str, float, bytes)) or (
        isinstance(v, tuple) and all(is_conc(i) for i in v)
    )


def counting_(st):
    """(counter, sequence, body without the increment) of `while i < len(X)`, else None"""
    t = st.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
        return None
    a, op, b = t.left, t.ops[0], t.comparators[0]
    if isinstance(op, ast.Gt):
        a, op, b = b, ast.Lt(), a
    if not (isinstance(op, (ast.Lt, ast.NotEq)) and isinstance(a, ast.Name) and isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == "len" and len(b.args) == 1 and not b.keywords):
        return None
    i, x = a.id, b.args[0]
    y = x
    while isinstance(y, ast.Attribute):
        y = y.value
    if not isinstance(y, ast.Name):
        return None

    def inc(s):
        if isinstance(s, ast.AugAssign):
            return isinstance(s.op, ast.Add) and isinstance(s.target, ast.Name) and s.target.id == i and isinstance(s.value, ast.Constant) and s.value.value == 1
        return (
            isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == i
            and isinstance(s.value, ast.BinOp) and isinstance(s.value.op, ast.Add) and isinstance(s.value.left, ast.Name) and s.value.left.id == i
            and isinstance(s.value.right, ast.Constant) and s.value.right.value == 1
        )

    at = [k for k, s in enumerate(st.body) if inc(s)]
    if len(at) != 1:
        return None
    before, after = st.body[: at[0]], st.body[at[0] + 1:]
    if any(isinstance(n, ast.Name) and n.id == i and isinstance(n.ctx, ast.Store) for s in before + after for n in ast.walk(s)):
        return None
    if any(isinstance(n, ast.Name) and n.id == i for s in after for n in ast.walk(s)):
        return None
    if any(isinstance(n, ast.Name) and n.id == y.id and isinstance(n.ctx, ast.Store) for s in st.body for n in ast.walk(s)):
        return None

    def has(n, kinds):
        if isinstance(n, kinds):
            return True
        if isinstance(n, (ast.For, ast.While, ast.FunctionDef, ast.Lambda)):
            # a continue or break of an inner loop is its own
            return any(has(c, kinds) for c in getattr(n, "orelse", ()))
        return any(has(c, kinds) for c in ast.iter_child_nodes(n))

    if any(has(s, ast.Continue) for s in before):
        return None
    f = ast.For(ast.Name(i, ast.Store()), x, before + after, st.orelse)
    m = fetch_only(f, i, x)
    return i, x, f.body, m


def counting(st):
    if not hasattr(st, "_counting"):
        st._counting = counting_(st)
    return st._counting


def fetch_only(st, i, x):
    """the loop over the list itself, if the counter is only used to fetch the element"""
    b = st.body
    if not b or not isinstance(b[0], ast.Assign) or len(b[0].targets) != 1 or not isinstance(b[0].value, ast.Subscript):
        return None
    v = b[0].value
    if not (isinstance(v.slice, ast.Name) and v.slice.id == i and ast.dump(v.value) == ast.dump(x)):
        return None
    if any(isinstance(n, ast.Name) and n.id == i for s in b[1:] + b[0].targets for n in ast.walk(s)):
        return None
    f = ast.For(b[0].targets[0], x, b[1:] or [ast.Pass()], st.orelse, None)
    return ast.fix_missing_locations(ast.copy_location(f, st))


def numbering(st):
    """(counter, loop without it) of `for i, x in enumerate(X)` whose body does not use the counter"""
    if not hasattr(st, "_numbering"):
        st._numbering = None
        t = st.iter
        if isinstance(st.target, ast.Tuple) and len(st.target.elts) == 2 and isinstance(st.target.elts[0], ast.Name) and isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "enumerate" and not any(isinstance(a, ast.Starred) for a in t.args) and t.args:
            i = st.target.elts[0].id
            if not any(isinstance(n, ast.Name) and n.id == i for s in st.body + [st.target.elts[1]] for n in ast.walk(s)):
                f = ast.For(st.target.elts[1], t.args[0], st.body, st.orelse, None)
                st._numbering = (i, ast.fix_missing_locations(ast.copy_location(f, st)))
    return st._numbering


def fetching(st):
    """(counter, loop over the list itself) of `for i in range(len(X)): x = X[i]; ...`"""
    if not hasattr(st, "_fetching"):
        st._fetching = None
        t = st.iter
        if isinstance(st.target, ast.Name) and isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "range" and not t.keywords:
            a = t.args[1:] if len(t.args) == 2 and isinstance(t.args[0], ast.Constant) and t.args[0].value == 0 else t.args
            if len(a) == 1 and isinstance(a[0], ast.Call) and isinstance(a[0].func, ast.Name) and a[0].func.id == "len" and len(a[0].args) == 1:
                y = a[0].args[0]
                while isinstance(y, ast.Attribute):
                    y = y.value
                if isinstance(y, ast.Name):
                    f = fetch_only(st, st.target.id, a[0].args[0])
                    if f is not None:
                        st._fetching = (st.target.id, f)
    return st._fetching


class Interp:
    def __init__(self, prog, path, types):
        self.prog = prog
        self.p = path
        self.types = types  # field types: (class, field) -> Type
        self.contracts = {}
        self.rec_candidates = []
        self.stack = []
        self.frames = []
        self.abstract = None
        self.lib = {}
        self.assumed = set()  # trusted library contracts used
        self.used_contracts = set()
        self.inlined = set()
        self.idhash = {}
        from . import lib

        lib.install(self)

    # ------------------------------------------------------------ classes of objects
    def classes_of(self, o):
        return self.p.classes[o.key]

    def new_obj(self, clsname, **fields):
        r = self.p.newref()
        o = Obj(r, fresh=True)
        self.p.classes[o.key] = frozenset([clsname])
        self.p.heap[("obj", o.key)] = dict(fields)
        return o

    def narrow(self, o, pred):
        """does the class of o satisfy pred?  forks if undetermined"""
        cs = self.classes_of(o)
        yes = frozenset(c for c in cs if pred(c))
        no = cs - yes
        if not no:
            return True
        if not yes:
            return False
        t = z3.Or([self.clsfact(o, c) for c in sorted(yes)])
        if self.p.branch(t):
            self.p.classes[o.key] = yes
            return True
        self.p.classes[o.key] = no
        return False

    def clsfact(self, o, c):
        ids = self.prog.class_ids
        if c not in ids:
            ids[c] = len(ids)
        return z3.Function("cls", z3.IntSort(), z3.IntSort())(o.ref) == ids[c]

    def one_class(self, o):
        while len(self.classes_of(o)) > 1:
            c = sorted(self.classes_of(o))[0]
            self.narrow(o, lambda x: x == c)
        return self.prog.classes[next(iter(self.classes_of(o)))]

    def isinst(self, v, cls):
        """isinstance for one class -> bool (forks)"""
        if isinstance(v, (LastWriter,)):
            v = self.force(v)
        if isinstance(cls, tuple):
            if isinstance(v, Obj):
                ks = [c for c in cls if isinstance(c, ClassV)]
                if any(c == PyClass(object) for c in cls):
                    return True
                return self.narrow(v, lambda n: n in self.prog.classes and any(self.prog.classes[n].issub(c) for c in ks))
            return any(self.isinst(v, c) for c in cls)
        if isinstance(cls, ClassV):
            if isinstance(v, Obj):
                return self.narrow(v, lambda c: self.prog.classes[c].issub(cls) if c in self.prog.classes else False)
            return False
        if isinstance(cls, PyClass):
            py = cls.py
            if py is AstClass:
                return isinstance(v, HDict) and v.ast
            if py is object:
                return True
            if v is None:
                return py is type(None)
            if isinstance(v, (bool, SBool)):
                return py in (bool, int)
            if isinstance(v, (int, SInt, SBV)):
                return py is int
            if isinstance(v, (str, SStr, SRope)):
                return py is str
            if isinstance(v, float):
                return py is float
            if isinstance(v, HList):
                return py is list
            if isinstance(v, HDict):
                return py is dict
            if isinstance(v, HSet):
                return py in (set, frozenset)
            if isinstance(v, tuple):
                return py is tuple
            if isinstance(v, SIp):
                if py in (ipaddress._BaseAddress, ipaddress._IPAddressBase):
                    return True
                if py is ipaddress.IPv4Address:
                    return not self.p.branch(v.is6)
                if py is ipaddress.IPv6Address:
                    return self.p.branch(v.is6)
                return False
            if isinstance(v, SNet):
                if py in (ipaddress._BaseNetwork, ipaddress._IPAddressBase):
                    return True
                if py is ipaddress.IPv4Network:
                    return not self.p.branch(v.is6)
                if py is ipaddress.IPv6Network:
                    return self.p.branch(v.is6)
                return False
            if isinstance(v, (Obj, FuncV, BoundV, ClassV, PyClass)):
                return False
            if isinstance(v, Opaque):
                if getattr(v, "py", None) is not None:
                    return issubclass(v.py, py)
            raise Unsupported(f"isinstance({v}, {cls})")
        if isinstance(cls, Opaque) or cls is None:
            raise Unsupported(f"isinstance({v}, {cls})")
        raise Unsupported(f"isinstance with {cls}")

    # ------------------------------------------------------------ forcing and truth
    def force(self, v):
        while isinstance(v, LastWriter):
            v = v.resolve()
        if isinstance(v, Poison):
            raise LoopCarried(v.what)
        if v is UNBOUND:
            raise PyExc(UnboundLocalError)
        return v

    def truth(self, v):
        v = self.force(v)
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, (int, str, float, tuple, bytes)):
            return bool(v)
        if isinstance(v, SBool):
            return self.p.branch(v.t)
        if isinstance(v, SInt):
            if hasattr(v, "segs"):
                from . import lib

                return lib.len_cmp(self, "Gt", v, 0)
            return self.p.branch(v.t != 0)
        if isinstance(v, SBV):
            return self.p.branch(v.t != 0)
        if isinstance(v, SStr):
            return self.p.branch(v.t != z3.StringVal(""))
        if isinstance(v, SRope):
            if any(isinstance(x, str) and x for x in v.parts):
                return True
            return self.p.branch(self.zstr(v) != z3.StringVal(""))
        if isinstance(v, Obj):
            c = self.classes_of(v)
            for n in c:
                k = self.prog.classes.get(n)
                if k is not None and (k.find("__bool__") or k.find("__len__")):
                    raise Unsupported("user defined truth value")
            return True
        if isinstance(v, HList) and self.abstracted(v):
            return self.p.branch(self.abstract_length(v) > 0)
        if isinstance(v, (HList, HDict)):
            return self.nonempty(self.p.content(v))
        if isinstance(v, HSet):
            n = self.p.content(v)
            if n[0] == "segs":
                return self.nonempty(n[1])
            return self.set_nonempty(n)
        if isinstance(v, SeqV):
            raise Unsupported("truth of an iterator")
        if isinstance(v, (SIp, SNet, FuncV, BoundV, ClassV, PyClass, LibV, PyFn, NTClass, NT, SIface)):
            return True
        from . import lib

        if isinstance(v, (lib.SDate, PyExcValue)):
            return True
        raise Unsupported(f"truth of {v}")

    def nonempty(self, segs):
        for s in segs:
            if isinstance(s, Elem):
                return True
        return self.uncons(segs) is not None

    # ------------------------------------------------------------ over-approximated lists
    def abstracted(self, l):
        """lists a proof does not look into: any length, any of the elements at any position"""
        if self.abstract is None or all(isinstance(s, Elem) for s in self.p.content(l)):
            return False
        return self.abstract(self, l)

    def abstract_length(self, l):
        k = ("abslen", l.oid, tuple(map(id, self.p.content(l))))
        if k not in self.p.notes:
            self.p.notes[k] = (self.p.fresh(z3.IntSort(), "len"), self.p.content(l))
            self.p.assume(self.p.notes[k][0] >= 0)
        return self.p.notes[k][0]

    # ------------------------------------------------------------ unfolding of sequences
    def resolve(self, segs):
        """the content with the sequences that were unfolded on this path replaced by their parts"""
        notes = self.p.notes
        if not notes.get("anysplit"):
            return tuple(segs)
        out = []
        for s in segs:
            if isinstance(s, FM):
                parts = notes.get(("split", s.src.key))
                if parts is None:
                    out.append(s)
                    continue
                for x in parts:
                    if isinstance(x, Elem):
                        out += self.resolve(s.fn(self.p, x.v))
                    else:
                        out += self.resolve((FM(x, s.fn, s.what),))
            elif isinstance(s, SymSeg):
                parts = notes.get(("split", s.key))
                if parts is None:
                    out.append(s)
                else:
                    out += self.resolve(parts)
            else:
                out.append(s)
        return tuple(out)

    def split(self, seg, parts):
        p = self.p
        p.notes["anysplit"] = True
        p.notes[("split", seg.key)] = tuple(parts)
        ekeys = [x.v for x in parts if isinstance(x, Elem)]
        subs = [x for x in parts if not isinstance(x, Elem)]

        def converse(pp, v):
            """an element of the sequence is one of the elements made explicit or in one of the remaining parts"""
            if any(v is e for e in ekeys) or any(v is x for x in pp.notes.get(("located", seg.key), ())):
                return
            k = pp.choose(len(parts), "part")
            x = parts[k]
            if isinstance(x, Elem):
                if not self.tr(self.elem_same(v, x.v)):
                    raise PathInfeasible()
            else:
                pp.locate(x, v)

        if subs:
            p.universal(seg, converse)

    def elem_same(self, a, b):
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            for x, y in zip(a, b):
                if not self.tr(self.elem_same(self.force(self.lazy(x)), self.force(self.lazy(y)))):
                    return False
            return True
        if isinstance(a, (str, SStr, SRope, int, SInt, SBV, SIp, SNet)) and isinstance(b, (str, SStr, SRope, int, SInt, SBV, SIp, SNet)):
            return self.eq(a, b)
        return self.same(a, b)

    def uncons(self, segs):
        """None if the sequence is empty, else (first element, rest); forks"""
        p = self.p
        segs = self.resolve(segs)
        while segs:
            s, rest = segs[0], segs[1:]
            if isinstance(s, Elem):
                return self.force(self.lazy(s.v)), rest
            if isinstance(s, FM):
                if p.choose(2, "nothing contributed") == 0:
                    p.universal(s.src, lambda pp, v, s=s: self.assert_empty(s.fn(pp, v)))
                    segs = rest
                    continue
                n = p._bump()
                pre = SymSeg((s.src.key, "pre", n), s.src.make, s.src)
                suf = SymSeg((s.src.key, "suf", n), s.src.make, s.src)
                p.universal(pre, lambda pp, v, s=s: self.assert_empty(s.fn(pp, v)))
                e = p.member(s.src)
                self.split(s.src, (pre, Elem(e), suf))
                r = self.uncons(s.fn(p, e))
                if r is None:
                    raise PathInfeasible()
                return r[0], tuple(r[1]) + (FM(suf, s.fn, s.what),) + tuple(rest)
            if isinstance(s, SymSeg):
                if p.choose(2, "empty") == 0:
                    def never(pp, v):
                        raise PathInfeasible()

                    p.universal(s, never)
                    p.notes["anysplit"] = True
                    p.notes[("split", s.key)] = ()
                    segs = rest
                    continue
                e = p.member(s)
                tail = SymSeg((s.key, "rest"), s.make, s)
                self.split(s, (Elem(e), tail))
                return self.force(self.lazy(e)), (tail,) + tuple(rest)
            raise Unsupported("unfolding of a computed sequence")
        return None

    def assert_empty(self, segs):
        """the path on which the sequence is empty"""
        p = self.p
        for s in self.resolve(segs):
            if isinstance(s, Elem):
                raise PathInfeasible()
            if isinstance(s, FM):
                p.universal(s.src, lambda pp, v, s=s: self.assert_empty(s.fn(pp, v)))
            else:
                def never(pp, v):
                    raise PathInfeasible()

                p.universal(s, never)

    # ------------------------------------------------------------ strings
    def zstr(self, v):
        if isinstance(v, str):
            return z3.StringVal(v)
        if isinstance(v, SStr):
            return v.t
        if isinstance(v, SRope):
            ts = [self.zstr(x) for x in v.parts]
            return ts[0] if len(ts) == 1 else z3.Concat(*ts)
        if isinstance(v, SIp):
            # trusted: the text of an address is an injective function of it
            f = z3.Function("ip_text", z3.BoolSort(), z3.BitVecSort(128), z3.StringSort())
            return f(v.is6, v.val)
        raise Unsupported(f"not a string: {v}")

    # ------------------------------------------------------------ equality and order
    def eq(self, a, b):
        """-> bool or z3 Bool"""
        a, b = self.force(a), self.force(b)
        if is_conc(a) and is_conc(b):
            return a == b
        if isinstance(a, Obj) or isinstance(b, Obj):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Obj):
                    m = self.find_method_fork(x, "__eq__")
                    if m is not None:
                        r = self.call_func(m[1], [x, y], {}, cls=m[0])
                        return self.truth(r)
            return self.same(a, b)
        if isinstance(a, (str, SStr, SRope)) and isinstance(b, (str, SStr, SRope)):
            return self.zstr(a) == self.zstr(b)
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            return self.zbool(a) == self.zbool(b)
        na, nb = isinstance(a, (int, SInt, SBV)), isinstance(b, (int, SInt, SBV))
        if na and nb:
            if isinstance(a, SInt) or isinstance(b, SInt):
                return self.zint(a) == self.zint(b)
            return to_bv(a).t == to_bv(b).t
        if isinstance(a, SIp) and isinstance(b, SIp):
            return z3.And(a.is6 == b.is6, a.val == b.val)
        if isinstance(a, SNet) and isinstance(b, SNet):
            return z3.And(a.is6 == b.is6, a.num == b.num, a.host == b.host)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            r = []
            for x, y in zip(a, b):
                e = self.eq(x, y)
                if e is False:
                    return False
                if e is not True:
                    r.append(e)
            return z3.And(r) if r else True
        if isinstance(a, (HList, HDict, HSet)) and isinstance(b, (HList, HDict, HSet)):
            if type(a) is type(b) and a.oid == b.oid:
                return True
            if isinstance(a, HSet) and isinstance(b, HSet):
                return self.set_eq_concrete(a, b)
            if isinstance(a, HList) and isinstance(b, HList):
                ca, cb = self.p.content(a), self.p.content(b)
                if all(isinstance(s, Elem) for s in ca + cb):
                    if len(ca) != len(cb):
                        return False
                    return self.eq(tuple(s.v for s in ca), tuple(s.v for s in cb))
            raise Unsupported(f"comparison of containers {a} {b}")
        if isinstance(a, (ClassV, PyClass)) or isinstance(b, (ClassV, PyClass)):
            return a == b
        if isinstance(a, NT) and isinstance(b, NT):
            return self.eq(tuple(a.vals), tuple(b.vals))
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if a is b:
                return True
            raise Unsupported(f"comparison with {a} {b}")
        return False

    def set_eq_concrete(self, a, b):
        na, nb = self.p.content(a), self.p.content(b)
        if na[0] == nb[0] == "segs" and all(isinstance(s, Elem) and is_conc(s.v) for s in na[1] + nb[1]):
            return {s.v for s in na[1]} == {s.v for s in nb[1]}
        if na[0] == nb[0] == "segs" and all(isinstance(s, Elem) for s in na[1] + nb[1]):
            for x, y in ((na[1], nb[1]), (nb[1], na[1])):
                for s in x:
                    if not self.contains(("segs", y), s.v):
                        return False
            return True
        raise Unsupported("comparison of sets")

    def same(self, a, b):
        """identity of objects -> bool or z3 Bool"""
        if isinstance(a, Obj) and isinstance(b, Obj):
            if a.key == b.key:
                return True
            if a.fresh and b.fresh:
                return False
            if a.fresh != b.fresh:
                return False  # an allocated object is not one that existed before
            if not (self.classes_of(a) & self.classes_of(b)):
                return False
            return a.ref == b.ref
        if isinstance(a, Obj) or isinstance(b, Obj):
            return False
        if isinstance(a, (HList, HDict, HSet)) and type(a) is type(b):
            return a.oid == b.oid
        if a is None or b is None:
            return a is b
        if isinstance(a, (ClassV, PyClass)) or isinstance(b, (ClassV, PyClass)):
            return a == b
        if isinstance(a, (bool,)) and isinstance(b, (bool,)):
            return a is b
        if isinstance(a, (SBool, bool)) and isinstance(b, (SBool, bool)):
            return self.zbool(a) == self.zbool(b)
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            return a is b
        if type(a) is type(b) and isinstance(a, (str, int)):
            return a == b
        if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
            raise Unsupported("identity of strings")
        return False

    def zbool(self, v):
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if isinstance(v, SBool):
            return v.t
        raise Unsupported(f"not a bool: {v}")

    def zint(self, v):
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            return z3.IntVal(v)
        if isinstance(v, SInt):
            return v.t
        if isinstance(v, SBV):
            return z3.BV2Int(v.t, True)
        raise Unsupported(f"not an int: {v}")

    def rank(self, t):
        return z3.Function("strrank", z3.StringSort(), z3.RealSort())(t)

    def lt(self, a, b, strict=True):
        """a < b (or <=) -> python bool, forking"""
        a, b = self.force(a), self.force(b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            for x, y in zip(a, b):
                if self.tr(self.eq(x, y)):
                    continue
                return self.lt(x, y)
            return len(a) < len(b) if strict else len(a) <= len(b)
        if is_conc(a) and is_conc(b):
            try:
                return a < b if strict else a <= b
            except TypeError as e:
                raise PyExc(TypeError, str(e))
        if isinstance(a, (str, SStr)) and isinstance(b, (str, SStr)):
            za, zb = self.zstr(a), self.zstr(b)
            ra, rb = self.rank(za), self.rank(zb)
            # trusted: < on str is a total order, "" is its smallest element
            self.p.assume((ra == rb) == (za == zb))
            e = z3.StringVal("")
            for r, z in ((ra, za), (rb, zb)):
                self.p.assume(self.rank(e) <= r)
                self.p.assume((self.rank(e) == r) == (z == e))
            return self.p.branch(ra < rb if strict else ra <= rb)
        na, nb = isinstance(a, (int, SInt, SBV, float)), isinstance(b, (int, SInt, SBV, float))
        if na and nb:
            if isinstance(a, SInt) or isinstance(b, SInt):
                t = self.zint(a) < self.zint(b) if strict else self.zint(a) <= self.zint(b)
            else:
                x, y = to_bv(a), to_bv(b)
                t = x.t < y.t if strict else x.t <= y.t
            return self.p.branch(t)
        if isinstance(a, SIp) and isinstance(b, SIp):
            if self.p.branch(a.is6 != b.is6):
                raise PyExc(TypeError, "different versions")
            return self.p.branch(z3.ULT(a.val, b.val) if strict else z3.ULE(a.val, b.val))
        if isinstance(a, Obj):
            m = self.find_method_fork(a, "__lt__")
            if m is not None and strict:
                return self.truth(self.call_func(m[1], [a, b], {}, cls=m[0]))
        if isinstance(a, (HSet, HList, HDict, Opaque)) or isinstance(b, (HSet, HList, HDict, Opaque)):
            raise Unsupported(f"order of {a} and {b}")
        raise PyExc(TypeError, f"'<' not supported {type(a)} {type(b)}")

    def tr(self, t):
        return t if isinstance(t, bool) else self.p.branch(t)

    # ------------------------------------------------------------ containment
    def contains(self, node, x):
        """x in a set node -> python bool (forks; a member becomes a witness, a non member a universal fact)"""
        kind = node[0]
        if kind == "union":
            return self.contains(node[1], x) or self.contains(node[2], x)
        if kind == "inter":
            return self.contains(node[1], x) and self.contains(node[2], x)
        if kind == "diff":
            return self.contains(node[1], x) and not self.contains(node[2], x)
        if kind == "pred":
            return self.tr(node[1](self, x))
        return self.in_segs(node[1], x, True)

    def key_eq(self, a, b):
        """the same element of a set or key of a dictionary: equal hash and equal.
        Objects that are hashed by identity are different elements unless they are the same object."""
        a, b = self.force(self.lazy(a)), self.force(self.lazy(b))
        if isinstance(a, Obj) or isinstance(b, Obj):
            for o in (a, b):
                if isinstance(o, Obj):
                    for c in self.classes_of(o):
                        k = self.prog.classes.get(c)
                        if k is None or not k.find("__eq__"):
                            continue
                        if not self.identity_hash(k):
                            return self.eq(a, b)
            return self.same(a, b)
        return self.eq(a, b)

    def identity_hash(self, k):
        """do the objects of the class hash as id() of themselves?"""
        if k.name not in self.idhash:
            from . import lib, model

            def one():
                o = model.TObj(k.name).make(self, lambda s, so: z3.Const("hashed" + s, so), "hashed")
                r = self.force(self.call_method(o, "__hash__", [], {}))
                return isinstance(r, SInt) and z3.eq(r.t, lib.f_id(o.ref))

            if k.find("__hash__") is None:
                self.idhash[k.name] = False  # not hashable: a class with __eq__
            else:
                try:
                    out = self.p.subexplore(one)
                    self.idhash[k.name] = bool(out) and all(out)
                except (Unsupported, PyExc):
                    self.idhash[k.name] = False
        return self.idhash[k.name]

    def set_nonempty(self, n):
        if n[0] == "segs":
            return self.nonempty(n[1])
        if n[0] == "union":
            return self.set_nonempty(n[1]) or self.set_nonempty(n[2])
        if n[0] in ("inter", "diff"):
            a, b = n[1], n[2]
            if n[0] == "inter" and a[0] != "segs":
                a, b = b, a
            if a[0] == "segs":

                def body(e):
                    if self.contains(b, e) == (n[0] == "inter"):
                        raise BreakExc()

                try:
                    self.iterate(a[1], body)
                except BreakExc:
                    return True
                return False
        raise Unsupported("truth of a set")

    def in_segs(self, segs, x, hashed=False):
        def body(e):
            if self.tr(self.key_eq(e, x) if hashed else self.eq(e, x)):
                raise BreakExc()

        try:
            self.iterate(segs, body)
        except BreakExc:
            return True
        return False

    # ------------------------------------------------------------ dictionaries
    def dict_get(self, d, key, missing):
        """missing: callable for an absent key"""
        segs = self.p.content(d)
        return self.dict_get_segs(segs, key, missing)

    def dict_get_segs(self, segs, key, missing):
        key = self.force(key)
        for s in reversed(segs):
            if isinstance(s, Elem):
                k, v = s.v
                if self.tr(self.eq(k, key)):
                    return self.force(self.lazy(v))
            elif isinstance(s, MapSeg):
                if self.p.branch(s.has(self, key)):
                    v = s.get(self, key)
                    if s.key in self.p.universals:
                        self.p.member(s, (key, v))
                    return v
            else:
                hit = []

                def body(kv, hit=hit):
                    if self.tr(self.eq(kv[0], key)):
                        hit.append(kv[1])
                        raise BreakExc()

                try:
                    self.iterate((s,), body)
                except BreakExc:
                    return self.force(self.lazy(hit[-1]))
        return missing()

    def lazy(self, v):
        if isinstance(v, LazyV):
            return v.get(self)
        return v

    def dict_has(self, d, key):
        flag = []
        r = self.dict_get(d, key, lambda: flag.append(1))
        return not flag

    def dict_set(self, d, key, value):
        key = self.force(key)
        p = self.p
        if d.oid in p.opaque:
            p.log("dset", d.oid, key, value)
            return
        segs = p.content(d)
        p.log("dset", d.oid, key, value)
        if all(isinstance(s, Elem) and is_conc(s.v[0]) for s in segs) and is_conc(key):
            out, done = [], False
            for s in segs:
                if s.v[0] == key:
                    out.append(Elem((key, value)))
                    done = True
                else:
                    out.append(s)
            if not done:
                out.append(Elem((key, value)))
            p.heap[d.oid] = tuple(out)
        else:
            # objects as keys: replace an entry with the identical key, else a log entry
            p.heap[d.oid] = segs + (Elem((key, value)),)

    def dict_del(self, d, key, missing):
        p = self.p
        segs = p.content(d)
        if not (all(isinstance(s, Elem) and is_conc(s.v[0]) for s in segs) and is_conc(key)):
            raise Unsupported("del on a symbolic dict")
        v = [s.v[1] for s in segs if s.v[0] == key]
        if not v:
            return missing()
        p.log("other", d.oid, "del", key)
        p.heap[d.oid] = tuple(s for s in segs if s.v[0] != key)
        return self.lazy(v[0])

    def ast_key(self, k):
        if not isinstance(k, str):
            raise Unsupported("AST key")
        while k in DICT_ATTRS:
            k += "_"
        return k

    def ast_set(self, d, key, value):
        key = self.ast_key(key) if isinstance(key, str) else key
        prev = self.dict_get(d, key, lambda: None)
        prev = self.force(prev)
        if prev is None:
            pass
        elif isinstance(prev, HList):
            value = self.p.new_list(self.p.content(prev) + (Elem(value),))
        else:
            value = self.p.new_list((Elem(prev), Elem(value)))
        self.dict_set(d, key, value)

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name, default=UNBOUND):
        o = self.force(o)
        if isinstance(o, Obj):
            return self.obj_getattr(o, name, default)
        if isinstance(o, HDict) and o.ast:
            if name in ("items", "keys", "values", "get", "copy", "pop", "update", "setdefault"):
                return PyFn(lambda I, a, k: I.call_method(o, name, a, k), name)
            if name == "__class__":
                return PyClass(AstClass)
            return self.dict_get(o, self.ast_key(name), lambda: None)
        if isinstance(o, ClassV):
            return self.class_getattr(o, name, default)
        if isinstance(o, LibV):
            from . import lib

            return lib.libattr(self, o, name)
        if isinstance(o, NT):
            if name in o.cls.fields:
                return o.vals[o.cls.fields.index(name)]
        if name == "__class__":
            return self.type_of(o)
        if isinstance(o, (ClassV, PyClass)) and name in ("__name__", "__qualname__"):
            return o.py.__name__
        from . import lib

        r = lib.value_attr(self, o, name)
        if r is not lib.NOATTR:
            return r
        if isinstance(o, Opaque) and getattr(o, "attrs", None) is not None:
            if name in o.attrs:
                return o.attrs[name]
            if name not in (getattr(o, "methods", None) or ()):
                if default is not UNBOUND:
                    return default
                raise PyExc(AttributeError, name)
        if isinstance(o, Opaque) and name in (getattr(o, "methods", None) or ()):
            return PyFn(lambda I, a, k, f=o.methods[name]: f(I, a, k), name)
        if isinstance(o, Opaque):
            raise Unsupported(f"attribute {name} of {o}")
        if default is not UNBOUND:
            return default
        raise PyExc(AttributeError, f"{self.tname(o)} has no attribute {name}")

    def tname(self, v):
        if isinstance(v, Obj):
            return "/".join(sorted(self.classes_of(v)))
        return type(v).__name__

    def type_of(self, v):
        v = self.force(v)
        if isinstance(v, Obj):
            return self.one_class(v)
        if v is None:
            return PyClass(type(None))
        if isinstance(v, (bool, SBool)):
            return PyClass(bool)
        if isinstance(v, (int, SInt, SBV)):
            return PyClass(int)
        if isinstance(v, (str, SStr, SRope)):
            return PyClass(str)
        if isinstance(v, HDict):
            return PyClass(AstClass if v.ast else dict)
        if isinstance(v, HList):
            return PyClass(list)
        if isinstance(v, tuple):
            return PyClass(tuple)
        if isinstance(v, HSet):
            return PyClass(set)
        if isinstance(v, SIp):
            return PyClass(ipaddress.IPv6Address if self.p.branch(v.is6) else ipaddress.IPv4Address)
        if isinstance(v, SNet):
            return PyClass(ipaddress.IPv6Network if self.p.branch(v.is6) else ipaddress.IPv4Network)
        raise Unsupported(f"type of {v}")

    def class_getattr(self, c, name, default=UNBOUND):
        if name in ("__name__", "__qualname__"):
            return c.name
        f = c.find(name)
        if f is None:
            if default is not UNBOUND:
                return default
            raise PyExc(AttributeError, f"class {c.name} has no attribute {name}")
        k, node = f
        if isinstance(node, ast.FunctionDef):
            fv = FuncV(node, k.module, k)
            if "classmethod" in decorators(node):
                return BoundV(c, fv)
            return fv
        return self.class_const(k, name, node)

    def class_const(self, k, name, node):
        key = ("classattr", k.name, name)
        if key not in self.p.singletons:
            fr = Frame(k.module)
            # names of the class body are visible
            for n, b in k.body.items():
                if isinstance(b, ast.FunctionDef):
                    fr.locals[n] = FuncV(b, k.module, k)
            self.p.singletons[key] = self.eval(node, fr)
        return self.p.singletons[key]

    def obj_getattr(self, o, name, default=UNBOUND):
        p = self.p
        if name == "__class__":
            return self.one_class(o)
        ov = p.heap.get(("obj", o.key))
        if ov is not None and name in ov:
            if (("obj", o.key), name) in p.opaque:
                raise LoopCarried(f"{name} of {o.key}")
            v = ov[name]
            if v is UNBOUND:
                if default is not UNBOUND:
                    return default
                raise PyExc(AttributeError, name)
            v2 = self.force(self.lazy(v))
            if v2 is not v and not isinstance(v, LazyV):
                ov[name] = v2
            return v2
        if not o.fresh:
            # fields written through another reference that may denote the same object
            for k, f in list(p.heap.items()):
                if k[0] == "obj" and k[1] != o.key and name in f and not k[1].startswith("(- "):
                    other = f.get("__self__")
                    if other is not None and p.classes[k[1]] & self.classes_of(o):
                        if p.branch(other.ref == o.ref):
                            return self.force(self.lazy(f[name]))
        # methods, properties, class attributes, typed fields; per class
        cs = sorted(self.classes_of(o))
        ft = {self.field_type(c, name) for c in cs} if not o.fresh else {None}
        if len(ft) == 1 and None not in ft:
            return next(iter(ft)).field(self, o, name)
        shared = {self.contracts.get(self.contract_key(c, name)) for c in cs}
        if len(cs) > 1 and len(shared) == 1 and None not in shared:
            return BoundV(o, ("contract", name))
        c = self.one_class(o)
        t = self.field_type(c.name, name) if not o.fresh else None
        if t is not None:
            return t.field(self, o, name)
        f = c.find(name)
        if f is not None:
            k, node = f
            if isinstance(node, ast.FunctionDef):
                d = decorators(node)
                fv = FuncV(node, k.module, k)
                if "property" in d:
                    return self.call_func(fv, [o], {}, cls=k)
                if "staticmethod" in d:
                    return fv
                if "classmethod" in d:
                    return BoundV(c, fv)
                return BoundV(o, fv)
            return self.class_const(k, name, node)
        if self.contracts.get(self.contract_key(c.name, name)) is not None:
            return BoundV(o, ("contract", name))
        if default is not UNBOUND:
            return default
        ext = self.external_bases(c)
        if ext:
            return BoundV(o, ("ext", name))
        raise PyExc(AttributeError, f"{c.name} has no attribute {name}")

    def external_bases(self, c):
        return [b for k in c.mro() for b in k.bases if not isinstance(b, ClassV)]

    def field_type(self, cname, field):
        c = self.prog.classes.get(cname)
        if c is None:
            return None
        for k in c.mro():
            t = self.types.get((k.name, field))
            if t is not None:
                return t
        return None

    def contract_key(self, cname, meth):
        """the contract that applies to a method call on an instance of the class"""
        c = self.prog.classes.get(cname)
        if c is None:
            return None
        for k in c.mro():
            if (k.name, meth) in self.contracts:
                return (k.name, meth)
            if meth in k.body:
                # an overriding definition below the contracted class: contract is inherited
                continue
        return None

    def setattr(self, o, name, v):
        p = self.p
        o = self.force(o)
        if isinstance(o, Obj):
            k = ("obj", o.key)
            p.log("setattr", k, name, v)
            if (k, name) in p.opaque:
                return
            if not o.fresh:
                # a write through one reference invalidates what was written through a possible alias
                for k2, f in list(p.heap.items()):
                    if k2[0] == "obj" and k2 != k and name in f and not k2[1].startswith("(- "):
                        other = f.get("__self__")
                        if other is not None and p.classes[k2[1]] & self.classes_of(o):
                            if p.branch(other.ref == o.ref):
                                f[name] = v
            d = dict(p.heap.get(k) or {})
            d[name] = v
            d["__self__"] = o
            p.heap[k] = d
            return
        if isinstance(o, HDict) and o.ast:
            raise PyExc(AttributeError, "AST attributes are fixed")
        raise Unsupported(f"attribute write to {o}")

    def find_method_fork(self, o, name):
        cs = sorted(self.classes_of(o))
        has = [c for c in cs if self.prog.classes[c].find(name)]
        if not has:
            return None
        c = self.one_class(o)
        f = c.find(name)
        if f is None:
            return None
        return f[0], FuncV(f[1], f[0].module, f[0])

    # ------------------------------------------------------------ iteration
    def segs_of(self, v):
        """content of an iterable"""
        v = self.force(v)
        if isinstance(v, tuple):
            return tuple(Elem(x) for x in v)
        if isinstance(v, str):
            return tuple(Elem(x) for x in v)
        if isinstance(v, HList):
            return self.p.content(v)
        if isinstance(v, HSet):
            from . import lib

            return lib.set_seg(self, v, self.p.content(v))
        if isinstance(v, HDict):
            return self.map_segs(self.p.content(v), lambda kv: kv[0])
        if isinstance(v, (SeqV, XElem)):
            return v.segs
        if isinstance(v, NT):
            return tuple(Elem(x) for x in v.vals)
        if isinstance(v, Obj):
            m = self.find_method_fork(v, "__iter__")
            if m is not None:
                return self.segs_of(self.call_func(m[1], [v], {}, cls=m[0]))
            raise PyExc(TypeError, "not iterable")
        if v is None or isinstance(v, (int, SInt, SBV, SBool)):
            raise PyExc(TypeError, "not iterable")
        raise Unsupported(f"iteration over {v}")

    def map_segs(self, segs, fn):
        """lazy map over a content; fn must be pure"""
        out = []
        for s in segs:
            if isinstance(s, Elem):
                out.append(Elem(fn(s.v)))
            elif isinstance(s, FM):
                out.append(FM(s.src, lambda p, e, s=s: self.map_segs(s.fn(p, e), fn), "map"))
            else:
                out.append(FM(s, lambda p, e: (Elem(fn(e)),), "map"))
        return tuple(out)

    def iterate(self, segs, body, frame=None, stored=()):
        for seg in self.resolve(segs):
            if isinstance(seg, Elem):
                body(seg.v)
            elif isinstance(seg, FM):
                self.generic(seg.src, lambda e, seg=seg: self.iterate(seg.fn(self.p, e), body, frame, ()), frame, stored)
            else:
                self.generic(seg, body, frame, stored)

    def generic(self, seg, body, frame, stored):
        """a loop over a sequence of unknown length, summarised by what one iteration does"""
        p = self.p
        if getattr(seg, "key", None) in p.notes.get("mutated", ()):
            raise Unsupported("second loop over elements modified by a first one")
        H0 = {k: (dict(v) if isinstance(v, dict) else v) for k, v in p.heap.items()}
        L0 = dict(frame.locals) if frame is not None else None
        S = {"opaque": frozenset(p.opaque), "poison": ()}
        stack0 = list(self.stack)
        frames0 = [(f, dict(f.locals)) for f in self.frames]

        def run(e, inside):
            """one iteration from the state at loop entry; -> (outcome, log, env)"""
            cur, curop, curlog, curloc = p.heap, p.opaque, p.wlog, (dict(frame.locals) if frame is not None else None)
            mark = set(H0)
            # fields of input objects written after the loop was entered are not visible to it
            p.heap = {k: (dict(v) if isinstance(v, dict) else v) for k, v in {**cur, **H0}.items() if k in H0 or self.is_new(k) or k[0] != "obj"}
            curstack, curframes = self.stack, self.frames
            self.stack = list(stack0)
            curlocs = [(f, f.locals) for f, l in frames0]
            self.frames = [f for f, l in frames0]
            for f, l in frames0:
                if f is not frame:
                    f.locals = dict(l)
            p.opaque = S["opaque"]
            p.wlog = []
            curev, p.events = p.events, []
            if frame is not None:
                frame.locals = dict(L0)
                for n in stored:
                    if n in frame.locals:
                        frame.locals[n] = Poison(n)
                    else:
                        frame.locals[n] = UNBOUND
            try:
                out = "normal"
                try:
                    body(e)
                except ContinueExc:
                    pass
                except (BreakExc, ReturnExc, PyExc) as x:
                    out = x
                log = [x for x in p.wlog if x[1] in H0 or not self.is_new(x[1])]
                env = {}
                if frame is not None:
                    for n in stored:
                        v = frame.locals.get(n, UNBOUND)
                        if v is not UNBOUND and not isinstance(v, Poison):
                            env[n] = v
                new = {k: v for k, v in p.heap.items() if k not in cur and k not in H0}
                return out, log, env
            finally:
                newheap = {k: v for k, v in p.heap.items() if k not in cur and k not in H0}
                p.heap = {**cur, **newheap}
                p.opaque, p.wlog, p.events = curop, curlog, curev
                self.stack, self.frames = curstack, curframes
                for f, l in curlocs:
                    f.locals = l
                if frame is not None:
                    frame.locals = curloc

        # --- discovery: which outcomes and which effects can one iteration have?
        def disc():
            e = p.member(seg)
            out, log, env = run(e, True)
            same = {}
            for x in log:
                if x[0] == "append":
                    same.setdefault(x[1], []).extend(x[2])
            keeps.append((out == "normal", {o for o, l in same.items() if len(l) == 1 and isinstance(l[0], Elem) and l[0].v is e}))
            return (out if out == "normal" else type(out), [(x[0], x[1], x[2] if x[0] == "setattr" else None) for x in log],
                    set(env), {x[2] for x in log if x[0] == "dset" and not isinstance(x[2], (V, tuple))})

        # the discovery is a function of the decisions taken so far: paths that share them share its result
        p.ngen += 1
        memo = (p.ctx, tuple(p.decisions[: p.pos]), p.ngen)
        found = p.discovered.get(memo)
        if found is not None:
            mods, assigned, exits, S["opaque"], mutated, ident = found
            if mutated is not None:
                p.notes["mutated"] = mutated
        while found is None:
            keeps = []
            outs = p.subexplore(disc)
            # lists to which every iteration adds exactly its element: they grow by the sequence itself
            ident = [k for normal, k in keeps if normal]
            ident = set.intersection(*ident) if ident else set()
            mods, assigned, exits = set(), set(), set()
            for out, log, env, _ in outs:
                if out != "normal":
                    # the iteration that leaves the loop is executed as such, its effects do not reach another one
                    exits.add(out)
                    continue
                assigned |= env
                for kind, oid, f in log:
                    if kind != "event" and self.owned(oid, seg):
                        continue
                    if kind not in ("append", "add", "dset", "setattr", "event"):
                        raise LoopCarried(f"{kind} of {oid} in a loop")
                    mods.add((kind, oid, f))
            acc = frozenset((oid, f) if kind == "setattr" else oid for kind, oid, f in mods)
            if acc <= S["opaque"]:
                p.discovered[memo] = (mods, assigned, exits, S["opaque"], p.notes.get("mutated"), ident)
                break
            S["opaque"] = S["opaque"] | acc
        outer_opaque = p.opaque
        # opaque containers of enclosing loops: effects are logged for them, too

        def noexit(pp, v):
            out, log, env = run(v, True)
            if out != "normal":
                raise PathInfeasible()

        def contributions(oid, kind):
            def fn(pp, e):
                out, log, env = run(e, True)
                if out != "normal":
                    raise PathInfeasible()
                r = []
                for x in log:
                    if x[1] == oid and x[0] == kind:
                        if kind in ("append", "add"):
                            r += list(x[2])
                        elif kind == "dset":
                            r.append(Elem((x[2], x[3])))
                        elif kind == "event":
                            r.append(x[2] if isinstance(x[2], FM) else Elem(x[2]))
                return tuple(r)

            return fn

        def apply(s):
            for kind, oid in sorted({(k, o) for k, o, f in mods if k != "setattr"}, key=str):
                fm = FM(s, contributions(oid, kind), f"{kind}@{oid}")
                if kind == "append":
                    self.list_extend(HList(oid), (s,) if oid in ident else (fm,))
                elif kind == "add":
                    self.set_add(HSet(oid), (fm,))
                elif kind == "dset":
                    p.log("dset*", oid, fm)
                    if oid not in p.opaque:
                        p.heap[oid] = p.heap[oid] + (fm,)
                elif kind == "event":
                    p.log("event", oid, fm)
                    p.events.append(fm)
            for oid, f in sorted({(o, f) for k, o, f in mods if k == "setattr"}, key=str):
                old = p.heap.get(oid, {}).get(f, UNBOUND)
                if old is UNBOUND and oid not in p.heap:
                    raise LoopCarried(f"field {f} of an input object written in a loop")
                lw = LastWriter(self.resolver(s, run, lambda log, env, oid=oid, f=f: [x[3] for x in log if x[0] == "setattr" and x[1] == oid and x[2] == f], old))
                p.log("setattr", oid, f, lw)
                d = dict(p.heap[oid])
                d[f] = lw
                p.heap[oid] = d
            if frame is not None:
                for n in assigned:
                    old = frame.locals.get(n, UNBOUND)
                    frame.locals[n] = LastWriter(
                        self.resolver(s, run, lambda log, env, n=n: [env[n]] if n in env else [], old)
                    )

        if exits:
            if p.choose(2, "exit") == 1:
                e0 = p._bump()
                pre = SymSeg((seg.key, "pre", e0), seg.make, seg)
                p.universal(pre, noexit)
                apply(pre)
                e = p.member(seg)
                if frame is not None:
                    pass
                body_normal = True
                try:
                    body(e)
                except ContinueExc:
                    pass
                # BreakExc, ReturnExc, PyExc leave the loop here
                raise PathInfeasible()
            p.universal(seg, noexit)
        apply(seg)

    def world(self):
        """the state as it is now, for things that are evaluated later"""
        p = self.p
        return ({k: (dict(v) if isinstance(v, dict) else v) for k, v in p.heap.items()}, [(f, dict(f.locals)) for f in self.frames], list(self.stack))

    def within(self, W, fn):
        """fn() in an earlier state; it must not have effects on what existed then"""
        p = self.p
        H0, frames0, stack0 = W
        cur, curlog, curstack, curframes = p.heap, p.wlog, self.stack, self.frames
        curlocs = [(f, f.locals) for f, l in frames0]
        p.heap = {k: (dict(v) if isinstance(v, dict) else v) for k, v in {**cur, **H0}.items() if k in H0 or self.is_new(k) or k[0] != "obj"}
        p.wlog = []
        self.stack, self.frames = list(stack0), [f for f, l in frames0]
        for f, l in frames0:
            f.locals = dict(l)
        try:
            r = fn()
            for x in p.wlog:
                if x[1] in H0 or not self.is_new(x[1]):
                    raise Unsupported("a lazily evaluated function has effects")
            return r
        finally:
            p.heap = {**cur, **{k: v for k, v in p.heap.items() if k not in cur and k not in H0}}
            p.wlog, self.stack, self.frames = curlog, curstack, curframes
            for f, l in curlocs:
                f.locals = l

    def is_new(self, oid):
        return isinstance(oid, tuple) and oid[0] == "new" or (oid[0] == "obj" and oid[1].startswith("(- "))

    def owned(self, oid, seg):
        """a container that belongs to the element of the current iteration"""
        if isinstance(oid, tuple) and oid[0] == "in" and "e!" in str(oid[1]):
            self.p.notes.setdefault("mutated", set())
            self.p.notes["mutated"] = self.p.notes["mutated"] | {seg.key}
            return True
        return False

    def resolver(self, seg, run, values, old):
        p = self.p
        memo = []

        def resolve():
            k = p.choose(2, "last writer")
            if k == 0:
                def never(pp, v):
                    out, log, env = run(v, True)
                    if values(log, env):
                        raise PathInfeasible()

                p.universal(seg, never)
                return old
            e = p.member(seg)
            out, log, env = run(e, True)
            vs = values(log, env)
            if not vs:
                raise PathInfeasible()
            return vs[-1]

        return resolve

    # ------------------------------------------------------------ container updates
    def list_extend(self, l, segs):
        p = self.p
        p.log("append", l.oid, tuple(segs))
        if l.oid in p.opaque:
            return
        p.heap[l.oid] = p.heap[l.oid] + tuple(segs)

    def set_add(self, s, segs):
        p = self.p
        p.log("add", s.oid, tuple(segs))
        if s.oid in p.opaque:
            return
        n = p.heap[s.oid]
        if n[0] == "segs":
            # adding an element twice has no effect
            new = list(n[1])
            for x in segs:
                if isinstance(x, Elem) and is_conc(x.v) and any(isinstance(y, Elem) and is_conc(y.v) and type(y.v) is type(x.v) and y.v == x.v for y in new):
                    continue
                new.append(x)
            p.heap[s.oid] = ("segs", tuple(new))
        else:
            p.heap[s.oid] = ("union", n, ("segs", tuple(segs)))

    # ------------------------------------------------------------ calls
    def call(self, f, args, kwargs):
        f = self.force(f)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kwargs, cls=f.cls)
        if isinstance(f, BoundV):
            if isinstance(f.func, tuple):
                if f.func[0] == "contract":
                    return self.call_method(f.self_, f.func[1], args, kwargs)
                raise Unsupported(f"method {f.func[1]} of an external base class")
            if isinstance(f.self_, ClassV):
                con = self.contracts.get(("class", f.self_.name, f.func.name))
                if con is not None:
                    self.used_contracts.add(f"{f.self_.name}.{f.func.name}")
                    return con(self, f.self_, args, kwargs)
                return self.call_func(f.func, [f.self_] + list(args), kwargs, cls=f.func.cls)
            return self.call_method(f.self_, f.func.name, args, kwargs, f.func)
        if isinstance(f, ClassV):
            return self.construct(f, args, kwargs)
        if isinstance(f, PyFn):
            return f.fn(self, args, kwargs)
        if isinstance(f, LibV):
            from . import lib

            return lib.call(self, f.name, args, kwargs)
        if isinstance(f, PyClass):
            from . import lib

            return lib.call_class(self, f.py, args, kwargs)
        if isinstance(f, NTClass):
            vals = list(args) + [None] * (len(f.fields) - len(args))
            for k, v in kwargs.items():
                vals[f.fields.index(k)] = v
            return NT(f, vals)
        if isinstance(f, Obj):
            raise PyExc(TypeError, "not callable")
        raise Unsupported(f"call of {f}")

    def call_method(self, o, name, args, kwargs, func=None):
        """a method call on an object: by contract if there is one, else inlined"""
        o = self.force(o)
        if isinstance(o, Obj):
            cs = sorted(self.classes_of(o))
            keys = {self.contract_key(c, name) for c in cs}
            cons = {self.contracts.get(k) for k in keys}
            if len(cons) == 1 and None not in cons:
                r = next(iter(cons))(self, o, args, kwargs)
                if r is not NotImplemented:
                    self.used_contracts |= {f"{k[0]}.{k[1]}" for k in keys}
                    return r
            elif None not in cons and len(cons) > 1 or (None in cons and len(cons) > 1):
                c = self.one_class(o)
                con = self.contracts.get(self.contract_key(c.name, name))
                if con is not None:
                    r = con(self, o, args, kwargs)
                    if r is not NotImplemented:
                        self.used_contracts.add(f"{c.name}.{name}")
                        return r
            c = self.one_class(o)
            f = c.find(name)
            if f is None:
                v = self.getattr(o, name)
                return self.call(v, args, kwargs)
            k, node = f
            if not isinstance(node, ast.FunctionDef):
                raise Unsupported(f"call of class attribute {name}")
            d = decorators(node)
            fv = FuncV(node, k.module, k)
            if "staticmethod" in d:
                return self.call_func(fv, args, kwargs, cls=k)
            if "classmethod" in d:
                return self.call_func(fv, [c] + list(args), kwargs, cls=k)
            return self.call_func(fv, [o] + list(args), kwargs, cls=k)
        from . import lib

        return lib.method(self, o, name, args, kwargs)

    def construct(self, c, args, kwargs):
        con = self.contracts.get(self.contract_key(c.name, "__new__"))
        if con is not None:
            r = con(self, c, args, kwargs)
            if r is not NotImplemented:
                self.used_contracts.add(f"{c.name}.__init__")
                return r
        o = self.new_obj(c.name)
        f = c.find("__init__")
        if f is None:
            if args or kwargs:
                raise PyExc(TypeError, "constructor takes no arguments")
            return o
        k, node = f
        self.call_func(FuncV(node, k.module, k), [o] + list(args), kwargs, cls=k)
        return o

    def bind(self, node, args, kwargs, fr, name):
        a = node.args
        if a.posonlyargs:
            pos = a.posonlyargs + a.args
        else:
            pos = a.args
        names = [x.arg for x in pos]
        args = list(args)
        kwargs = dict(kwargs)
        loc = {}
        if any(isinstance(x, MoreArgs) for x in args):
            if a.vararg is None and len(args) - 1 > len(names):
                raise PyExc(TypeError, f"{name}() takes {len(names)} positional arguments")
            raise Unsupported("* with a symbolic sequence")
        if len(args) > len(names):
            if a.vararg is None:
                raise PyExc(TypeError, f"{name}() takes {len(names)} positional arguments")
            loc[a.vararg.arg] = tuple(args[len(names):])
            args = args[: len(names)]
        elif a.vararg is not None:
            loc[a.vararg.arg] = ()
        for n, v in zip(names, args):
            loc[n] = v
        extra = {}
        konly = [x.arg for x in a.kwonlyargs]
        for k, v in kwargs.items():
            if k in names or k in konly:
                if k in loc:
                    raise PyExc(TypeError, f"{name}() got multiple values for argument {k}")
                loc[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise PyExc(TypeError, f"{name}() got an unexpected keyword argument {k}")
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        for n in names + konly:
            if n not in loc:
                if n in defaults:
                    loc[n] = self.eval(defaults[n], Frame(fr.mod, fr.parent))
                else:
                    raise PyExc(TypeError, f"{name}() missing argument {n}")
        if a.kwarg is not None:
            loc[a.kwarg.arg] = self.p.new_dict([Elem((k, v)) for k, v in extra.items()])
        fr.locals.update(loc)

    def call_func(self, f, args, kwargs, cls=None, top=False):
        node = f.node
        if not top:
            con = self.contracts.get(("", f.name)) if cls is None else None
            if con is not None:
                r = con(self, None, args, kwargs)
                if r is not NotImplemented:
                    self.used_contracts.add(f.name)
                    return r
            # recursion of a function without its own contract: candidate contracts
            if any(x.node is node for x in self.stack):
                for cand in self.rec_candidates:
                    r = cand(self, f, args, kwargs)
                    if r is not NotImplemented:
                        return r
        if len(self.stack) > 40:
            raise PyExc(RecursionError, "no bound on the recursion")
        fr = Frame(f.mod, f.frame, cls, f)
        self.bind(node, args, kwargs, fr, f.name)
        if args and cls is not None:
            fr.self_ = args[0]
        self.inlined.add(f"{cls.name + '.' if cls is not None else ''}{f.name}")
        self.stack.append(f)
        self.frames.append(fr)
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, fr)
            gen = has_yield(node)
            if gen:
                fr.yields = self.p.new_list()
            try:
                self.block(node.body, fr)
                r = None
            except ReturnExc as e:
                r = e.v
            if gen:
                return SeqV(self.p.content(fr.yields))
            return r
        finally:
            self.stack.pop()
            self.frames.pop()

    # ------------------------------------------------------------ statements
    def block(self, body, fr):
        for st in body:
            self.stmt(st, fr)

    def stmt(self, st, fr):
        self.p.tick()
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(st).__name__}")
        return m(st, fr)

    def s_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, fr)

    def s_Pass(self, st, fr):
        pass

    def s_Assign(self, st, fr):
        v = self.eval(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, fr), fr)

    def s_AugAssign(self, st, fr):
        t = st.target
        load = type(t)(**{**{k: getattr(t, k) for k in t._fields}, "ctx": ast.Load()})
        a = self.eval(load, fr)
        b = self.eval(st.value, fr)
        if isinstance(a, LastWriter):
            a = self.force(a)
        if isinstance(st.op, ast.Add) and isinstance(a, HList):
            self.list_extend(a, self.segs_of(b))
            r = a
        elif isinstance(st.op, ast.BitOr) and isinstance(a, HSet):
            self.call_method(a, "update", [b], {})
            r = a
        elif isinstance(a, HSet) and isinstance(st.op, (ast.BitAnd, ast.Sub)):
            n = {"BitAnd": "inter", "Sub": "diff"}[type(st.op).__name__]
            if not isinstance(b, HSet):
                raise PyExc(TypeError, "set operator")
            self.p.log("other", a.oid, n)
            self.p.heap[a.oid] = (n, self.p.content(a), self.p.content(b))
            r = a
        else:
            r = self.binop(st.op, a, b)
        if isinstance(r, (HList, HSet)) and r is a and isinstance(t, (ast.Name, ast.Attribute)):
            return  # the same object is bound again
        self.assign(t, r, fr)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            fr.locals[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            self.setitem(o, self.eval(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            segs = self.segs_of(v)
            if not all(isinstance(s, Elem) for s in segs):
                raise Unsupported("unpacking of a symbolic sequence")
            if any(isinstance(x, ast.Starred) for x in t.elts):
                raise Unsupported("starred assignment")
            if len(segs) != len(t.elts):
                raise PyExc(ValueError, "unpack")
            for x, s in zip(t.elts, segs):
                self.assign(x, self.lazy(s.v), fr)
        else:
            raise Unsupported("assignment target")

    # positions in a list with parts of unknown length: index term t is known to be that of part number j
    def mark_place(self, o, t, j):
        self.p.notes[("place", o.oid)] = (t, j, self.p.content(o))

    def place(self, o, k):
        """number of the part at index k (an element), None if it is not known"""
        if isinstance(k, bool) or not isinstance(k, (int, SInt)) or type(k).__name__ == "SLen":
            return None
        segs = self.p.content(o)
        if all(isinstance(s, Elem) for s in segs):
            return None
        if isinstance(k, int):
            return k if 0 <= k < len(segs) and all(isinstance(s, Elem) for s in segs[: k + 1]) else None
        n = self.p.notes.get(("place", o.oid))
        if n is None or n[2] is not segs:
            return None
        d = z3.simplify(k.t - n[0])
        if not z3.is_int_value(d):
            return None
        j = n[1] + d.as_long()
        lo, hi = min(j, n[1]), max(j, n[1])
        if lo < 0 or hi >= len(segs) or not all(isinstance(s, Elem) for s in segs[lo: hi + 1]) or not self.p.entails(k.t >= 0):
            return None
        return j

    def moved(self, o, deleted=None):
        n = self.p.notes.get(("place", o.oid))
        if n is not None:
            t, j, _ = n
            if deleted is not None and deleted < j:
                t, j = t - 1, j - 1
            self.p.notes[("place", o.oid)] = (t, j, self.p.content(o))

    def setitem(self, o, k, v):
        o = self.force(o)
        if isinstance(o, HDict):
            if o.ast:
                self.ast_set(o, k, v)
            else:
                self.dict_set(o, k, v)
            return
        if isinstance(o, HList):
            segs = self.p.content(o)
            j = self.place(o, k)
            if j is not None:
                l = list(segs)
                l[j] = Elem(v)
                self.p.log("other", o.oid, "setitem")
                self.p.heap[o.oid] = tuple(l)
                self.moved(o)
                return
            if isinstance(k, int) and all(isinstance(s, Elem) for s in segs):
                if not -len(segs) <= k < len(segs):
                    raise PyExc(IndexError)
                l = list(segs)
                l[k] = Elem(v)
                self.p.log("other", o.oid, "setitem")
                self.p.heap[o.oid] = tuple(l)
                return
        raise Unsupported(f"item assignment {o}[{k}]")

    def s_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                fr.locals.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.force(self.eval(t.value, fr))
                k = self.force(self.eval(t.slice, fr))
                if isinstance(o, HDict):
                    def missing():
                        raise PyExc(KeyError)

                    self.dict_del(o, self.ast_key(k) if o.ast and isinstance(k, str) else k, missing)
                elif isinstance(o, HList) and self.place(o, k) is not None:
                    j = self.place(o, k)
                    l = list(self.p.content(o))
                    del l[j]
                    self.p.log("other", o.oid, "delitem")
                    self.p.heap[o.oid] = tuple(l)
                    self.moved(o, j)
                elif isinstance(o, HList) and isinstance(k, int):
                    segs = self.p.content(o)
                    if not all(isinstance(s, Elem) for s in segs):
                        raise Unsupported("del on a symbolic list")
                    if not -len(segs) <= k < len(segs):
                        raise PyExc(IndexError)
                    l = list(segs)
                    del l[k]
                    self.p.log("other", o.oid, "delitem")
                    self.p.heap[o.oid] = tuple(l)
                else:
                    raise Unsupported("del")
            elif isinstance(t, ast.Attribute):
                o = self.force(self.eval(t.value, fr))
                self.delattr(o, t.attr)
            else:
                raise Unsupported("del")

    def delattr(self, o, name):
        if not isinstance(o, Obj):
            raise Unsupported("delattr")
        self.obj_getattr(o, name)
        self.setattr(o, name, UNBOUND)

    def s_If(self, st, fr):
        if self.truth(self.eval(st.test, fr)):
            self.block(st.body, fr)
        else:
            self.block(st.orelse, fr)

    def s_Match(self, st, fr):
        v = self.force(self.eval(st.subject, fr))
        for c in st.cases:
            if self.pattern(c.pattern, v, fr) and (c.guard is None or self.truth(self.eval(c.guard, fr))):
                self.block(c.body, fr)
                return

    def pattern(self, p, v, fr):
        if isinstance(p, ast.MatchValue):
            return self.tr(self.compare(ast.Eq(), v, self.eval(p.value, fr)))
        if isinstance(p, ast.MatchSingleton):
            return self.tr(self.compare(ast.Is(), v, p.value))
        if isinstance(p, ast.MatchOr):
            return any(self.pattern(x, v, fr) for x in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.pattern(p.pattern, v, fr):
                return False
            if p.name:
                fr.locals[p.name] = v
            return True
        if isinstance(p, ast.MatchClass) and not p.patterns:
            if not self.tr(self.isinst(v, self.eval(p.cls, fr))):
                return False
            for k, x in zip(p.kwd_attrs, p.kwd_patterns):
                try:
                    a = self.force(self.getattr(v, k))
                except PyExc as e:
                    if issubclass(e.cls, AttributeError):
                        return False
                    raise
                if not self.pattern(x, a, fr):
                    return False
            return True
        if isinstance(p, ast.MatchSequence) and not any(isinstance(x, ast.MatchStar) for x in p.patterns):
            if isinstance(v, (str, SStr, SRope)) or v is None or isinstance(v, (int, SInt, SBool, Obj)):
                return False
            if isinstance(v, tuple):
                return len(v) == len(p.patterns) and all(self.pattern(x, self.force(self.lazy(y)), fr) for x, y in zip(p.patterns, v))
        raise Unsupported(f"pattern {type(p).__name__}")

    def s_Return(self, st, fr):
        raise ReturnExc(None if st.value is None else self.eval(st.value, fr))

    def s_Break(self, st, fr):
        raise BreakExc()

    def s_Continue(self, st, fr):
        raise ContinueExc()

    def s_Assert(self, st, fr):
        if not self.truth(self.eval(st.test, fr)):
            raise PyExc(AssertionError)

    def s_Raise(self, st, fr):
        if st.exc is None:
            if fr.exc is not None:
                raise fr.exc
            raise Unsupported("bare raise")
        e = st.exc
        args = []
        if isinstance(e, ast.Call):
            c = self.eval(e.func, fr)
        else:
            c = self.eval(e, fr)
        if isinstance(c, PyClass) and issubclass(c.py, BaseException):
            raise PyExc(c.py)
        if isinstance(c, PyExcValue):
            raise c.exc
        raise Unsupported("raise")

    def s_Try(self, st, fr):
        try:
            try:
                self.block(st.body, fr)
            except PyExc as e:
                for h in st.handlers:
                    if h.type is None or self.exc_match(e, self.eval(h.type, fr)):
                        if h.name:
                            fr.locals[h.name] = PyExcValue(e)
                        old, fr.exc = fr.exc, e
                        try:
                            self.block(h.body, fr)
                        finally:
                            fr.exc = old
                        break
                else:
                    raise
            else:
                self.block(st.orelse, fr)
        except (PathInfeasible, Unsupported, LoopCarried):
            raise
        except BaseException:
            if st.finalbody:
                self.block(st.finalbody, fr)
            raise
        else:
            self.block(st.finalbody, fr)

    def exc_match(self, e, c):
        if isinstance(c, tuple):
            return any(self.exc_match(e, x) for x in c)
        if isinstance(c, PyClass):
            return issubclass(e.cls, c.py)
        raise Unsupported(f"except {c}")

    def s_With(self, st, fr):
        # context managers: the value of __enter__ is the manager itself (files); exit has no effect on the result
        for it in st.items:
            v = self.eval(it.context_expr, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
        self.block(st.body, fr)

    def s_FunctionDef(self, st, fr):
        if st.decorator_list:
            raise Unsupported("decorated local function")
        fr.locals[st.name] = FuncV(st, fr.mod, None, fr, st.name)

    def s_Import(self, st, fr):
        for a in st.names:
            fr.locals[(a.asname or a.name).split(".")[0]] = LibV(a.name if a.asname else a.name.split(".")[0])

    def s_ImportFrom(self, st, fr):
        for a in st.names:
            v = None
            if st.module in self.prog.modules:
                v = self.global_value(st.module, a.name)
            if v is None:
                from . import lib

                v = lib.libattr(self, LibV(st.module), a.name)
            fr.locals[a.asname or a.name] = v

    def s_Global(self, st, fr):
        raise Unsupported("global")

    s_Nonlocal = s_Global

    def indexed_for(self, st, fr, n):
        """a loop that only uses its counter to fetch the elements of a list, executed as the loop over the list"""
        i, f = n
        o = self.force(self.eval(f.iter, fr))
        if not isinstance(o, HList) or all(isinstance(s, Elem) for s in self.resolve(self.p.content(o))):
            return NotImplemented
        mark = [0]

        def start():
            mark[0] = len(self.p.wlog)

        def check():
            o2 = self.force(self.eval(f.iter, fr))
            if not isinstance(o2, HList) or o2.oid != o.oid or any(w[1] == o.oid for w in self.p.wlog[mark[0]:]):
                raise Unsupported("loop over positions of a list it changes")

        self.s_For(f, fr, (start, check))
        fr.locals[i] = Poison(i)
        return None

    def s_For(self, st, fr, guard=None):
        if guard is None:
            n = numbering(st)
            if n is not None:
                self.s_For(n[1], fr)
                fr.locals[n[0]] = Poison(n[0])
                return
            n = fetching(st)
            if n is not None:
                r = self.indexed_for(st, fr, n)
                if r is not NotImplemented:
                    return r
        it = self.eval(st.iter, fr)
        hook = getattr(self, "for_hook", None)
        if hook is not None:
            r = hook(self, st, fr, it)
            if r is not NotImplemented:
                return r
        segs = self.segs_of(it)
        stored = tuple(stored_names(st.body + [st.target], fr))

        def body(e):
            self.assign(st.target, self.lazy(e), fr)
            self.block(st.body, fr)

        def elem_body(e):
            if guard is not None:
                guard[0]()
            try:
                body(e)
            except ContinueExc:
                pass
            if guard is not None:
                guard[1]()

        try:
            for seg in self.resolve(segs):
                if isinstance(seg, Elem):
                    elem_body(seg.v)
                else:
                    self.iterate((seg,), elem_body, fr, stored)
        except BreakExc:
            return
        self.block(st.orelse, fr)

    def counted(self, st, fr):
        """a while loop that counts through a sequence of unknown length, executed as the for loop it is"""
        from . import lib

        m = counting(st)
        if m is None:
            return NotImplemented
        i, x, body, simple = m
        if fr.locals.get(i, UNBOUND) is UNBOUND:
            return NotImplemented
        if self.force(self.lookup(i, fr)) != 0:
            return NotImplemented
        o = self.force(self.eval(x, fr))
        if not isinstance(o, HList) or all(isinstance(s, Elem) for s in self.resolve(self.p.content(o))):
            return NotImplemented
        if simple is not None:
            return self.indexed_for(st, fr, (i, simple))
        if self.abstracted(o):
            return NotImplemented
        n = lib.b_len(self, o)

        def check():
            """the loop test is evaluated again: the sequence must be the same"""
            o2 = self.force(self.eval(x, fr))
            if not isinstance(o2, HList) or o2.oid != o.oid or any(w[1] == o.oid for w in self.p.wlog[mark[0]:]):
                raise Unsupported("while loop over a sequence it changes")

        mark = [0]
        stored = tuple(stored_names(body + [ast.Name(i, ast.Store())], fr))

        def elem_body(k):
            mark[0] = len(self.p.wlog)
            fr.locals[i] = k
            try:
                self.block(body, fr)
            except ContinueExc:
                pass
            check()

        try:
            for seg in lib.indexed(self, n.segs, lambda k, e: k):
                if isinstance(seg, Elem):
                    elem_body(seg.v)
                else:
                    self.iterate((seg,), elem_body, fr, stored)
        except BreakExc:
            # not looked at whether the increment was done by then
            fr.locals[i] = Opaque("loop counter")
            return
        fr.locals[i] = n
        self.block(st.orelse, fr)

    def s_While(self, st, fr):
        hook = getattr(self, "while_hook", None)
        if hook is not None:
            r = hook(self, st, fr)
            if r is not NotImplemented:
                return r
        r = self.counted(st, fr)
        if r is not NotImplemented:
            return r
        n = 0
        while True:
            if not self.truth(self.eval(st.test, fr)):
                break
            n += 1
            if n > 400:
                raise Unsupported("while loop without invariant")
            try:
                self.block(st.body, fr)
            except BreakExc:
                return
            except ContinueExc:
                continue
        self.block(st.orelse, fr)

    # ------------------------------------------------------------ expressions
    def eval(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(e).__name__}")
        return m(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def lookup(self, name, fr):
        f = fr
        while f is not None:
            if name in f.locals:
                v = f.locals[name]
                if isinstance(v, LastWriter):
                    v = v.resolve()
                    f.locals[name] = v
                v = self.force(v)
                return v
            f = f.parent
        v = self.global_value(fr.mod, name)
        if v is not None:
            return v
        if name in EXC:
            return PyClass(EXC[name])
        if name in PYTYPES:
            return PyClass(PYTYPES[name])
        if hasattr(builtins, name):
            return LibV("builtins." + name)
        raise PyExc(NameError, name)

    def global_value(self, mod, name):
        r = self.prog.resolve(mod, name)
        if r is None:
            return None
        if isinstance(r, ClassV):
            return r
        if r[0] == "func":
            return FuncV(r[1], r[2])
        if r[0] == "expr":
            key = ("global", mod, name)
            if key not in self.p.singletons:
                self.p.singletons[key] = self.eval(r[1], Frame(r[2]))
            return self.p.singletons[key]
        from . import lib

        return lib.libvalue(self, r[1])

    def e_Name(self, e, fr):
        return self.lookup(e.id, fr)

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr)

    def e_Subscript(self, e, fr):
        o = self.force(self.eval(e.value, fr))
        if isinstance(e.slice, ast.Slice):
            lo = None if e.slice.lower is None else self.eval(e.slice.lower, fr)
            hi = None if e.slice.upper is None else self.eval(e.slice.upper, fr)
            if e.slice.step is not None:
                raise Unsupported("slice step")
            return self.slice(o, lo, hi)
        return self.getitem(o, self.force(self.eval(e.slice, fr)))

    def getitem(self, o, k):
        p = self.p
        if isinstance(o, HDict):
            if o.ast:
                if isinstance(k, str):
                    flag = []
                    v = self.dict_get(o, k, lambda: flag.append(1))
                    if not flag:
                        return v
                    return self.dict_get(o, self.ast_key(k), lambda: None)
                return self.dict_get(o, k, lambda: None)

            def missing():
                if o.default is not None:
                    v = self.call(o.default, [], {})
                    self.dict_set(o, k, v)
                    return v
                raise PyExc(KeyError, str(k))

            return self.dict_get(o, k, missing)
        from . import lib

        if isinstance(o, HList):
            segs = p.content(o)
            if isinstance(k, lib.SIdx):
                if not k.of(segs):
                    raise Unsupported("position in a sequence that was changed")
                return self.force(self.lazy(k.v))
            j = self.place(o, k) if isinstance(k, SInt) else None
            if j is not None:
                return self.force(self.lazy(segs[j].v))
            if isinstance(k, int) and self.abstracted(o):
                n = self.abstract_length(o)
                if not p.branch(n > k if k >= 0 else n >= -k):
                    raise PyExc(IndexError)
                return self.force(lib.pick(self, segs))
            return self.seq_index(segs, k)
        if isinstance(o, tuple) and isinstance(k, int):
            if not -len(o) <= k < len(o):
                raise PyExc(IndexError)
            return self.lazy(o[k])
        if isinstance(o, NT) and isinstance(k, int):
            return o.vals[k]
        if isinstance(o, str) and isinstance(k, int):
            if not -len(o) <= k < len(o):
                raise PyExc(IndexError)
            return o[k]
        if isinstance(o, SStr) and isinstance(k, int):
            n = z3.Length(o.t)
            if k >= 0:
                if not p.branch(n > k):
                    raise PyExc(IndexError)
                return SStr(z3.SubString(o.t, k, 1))
            if not p.branch(n >= -k):
                raise PyExc(IndexError)
            return SStr(z3.SubString(o.t, n + k, 1))
        if isinstance(o, (PyClass, ClassV, LibV)):
            return Opaque("generic alias")
        if o is None:
            raise PyExc(TypeError, "not subscriptable")
        if isinstance(o, Obj):
            raise PyExc(TypeError, "not subscriptable")
        raise Unsupported(f"subscript {o}[{k}]")

    def seq_index(self, segs, k):
        segs = self.resolve(segs)
        if isinstance(k, int):
            if k >= 0:
                for _ in range(k + 1):
                    r = self.uncons(segs)
                    if r is None:
                        raise PyExc(IndexError)
                    v, segs = r
                return v
            if len(segs) >= -k and all(isinstance(s, Elem) for s in segs[k:]):
                return self.force(self.lazy(segs[k].v))
            if all(isinstance(s, Elem) for s in segs):
                raise PyExc(IndexError)
        if isinstance(k, SInt) and not k_conc(k):
            # out of range, or some element
            if self.p.choose(2, "index") == 0:
                raise PyExc(IndexError)
            from . import lib

            return self.force(lib.pick(self, segs))
        raise Unsupported(f"index {k} of a symbolic sequence")

    def slice(self, o, lo, hi):
        if isinstance(o, (str, tuple)) and all(x is None or isinstance(x, int) for x in (lo, hi)):
            return o[lo:hi]
        if isinstance(o, SStr):
            n = z3.Length(o.t)
            lo = 0 if lo is None else lo
            if isinstance(lo, int) and lo >= 0 and (hi is None or (isinstance(hi, int))):
                if hi is None:
                    return SStr(z3.SubString(o.t, lo, n))
                if hi < 0:
                    return SStr(z3.SubString(o.t, lo, n + hi - lo))
                return SStr(z3.SubString(o.t, lo, max(hi - lo, 0)))
        if isinstance(o, HList):
            segs = self.p.content(o)
            if all(isinstance(s, Elem) for s in segs) and all(x is None or isinstance(x, int) for x in (lo, hi)):
                return self.p.new_list(segs[lo:hi])
            if isinstance(lo, int) and lo >= 0 and hi is None and all(isinstance(s, Elem) for s in segs[:lo]) and len(segs) >= lo:
                return self.p.new_list(segs[lo:])
            if lo is None and hi is None:
                return self.p.new_list(segs)
        if o is None or isinstance(o, (bool, int, SInt, SBool)):
            raise PyExc(TypeError, "not subscriptable")
        raise Unsupported(f"slice of {o}")

    def e_Call(self, e, fr):
        # super()
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) and isinstance(
            e.func.value.func, ast.Name
        ) and e.func.value.func.id == "super":
            return self.super_call(e, fr)
        if isinstance(e.func, ast.Attribute):
            o = self.force(self.eval(e.func.value, fr))
            args, kwargs = self.args(e, fr)
            if isinstance(o, Obj):
                # instance attribute holding a callable, or a method
                ov = self.p.heap.get(("obj", o.key))
                if not (ov is not None and e.func.attr in ov):
                    cs = self.classes_of(o)
                    if any(self.prog.classes[c].find(e.func.attr) for c in cs if c in self.prog.classes):
                        return self.call_method(o, e.func.attr, args, kwargs)
                return self.call(self.getattr(o, e.func.attr), args, kwargs)
            if isinstance(o, (ClassV, LibV, NT, Opaque, PyExcValue)) or (isinstance(o, PyClass)):
                return self.call(self.getattr(o, e.func.attr), args, kwargs)
            return self.call_method(o, e.func.attr, args, kwargs)
        f = self.eval(e.func, fr)
        if isinstance(f, LibV) and f.name in ("builtins.locals", "builtins.globals", "builtins.eval", "builtins.exec"):
            raise Unsupported(f.name)
        args, kwargs = self.args(e, fr)
        return self.call(f, args, kwargs)

    def super_call(self, e, fr):
        f = fr
        while f is not None and f.cls is None:
            f = f.parent
        if f is None:
            raise Unsupported("super outside a class")
        args, kwargs = self.args(e, fr)
        o = f.self_
        c = self.one_class(o) if isinstance(o, Obj) else o
        mro = c.mro()
        rest = mro[mro.index(f.cls) + 1 :]
        for k in rest:
            if e.func.attr in k.body:
                return self.call_func(FuncV(k.body[e.func.attr], k.module, k), [o] + args, kwargs, cls=k)
        if e.func.attr == "__init__":
            return None
        raise PyExc(AttributeError, e.func.attr)

    def args(self, e, fr):
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                segs = self.segs_of(self.eval(a.value, fr))
                if not all(isinstance(s, Elem) for s in segs):
                    if not (segs and all(isinstance(s, Elem) for s in segs[:-1]) and a is e.args[-1]):
                        raise Unsupported("* with a symbolic sequence")
                    args += [self.lazy(s.v) for s in segs[:-1]] + [MoreArgs()]
                    continue
                args += [self.lazy(s.v) for s in segs]
            else:
                args.append(self.eval(a, fr))
        for k in e.keywords:
            if k.arg is None:
                d = self.force(self.eval(k.value, fr))
                if not isinstance(d, HDict):
                    raise Unsupported("** with something else than a dict")
                for s in self.p.content(d):
                    if not isinstance(s, Elem) or not isinstance(s.v[0], str):
                        raise Unsupported("** with a symbolic dict")
                    if s.v[0] in kwargs:
                        raise PyExc(TypeError, "multiple values")
                    kwargs[s.v[0]] = self.lazy(s.v[1])
            else:
                if k.arg in kwargs:
                    raise PyExc(TypeError, "multiple values")
                kwargs[k.arg] = self.eval(k.value, fr)
        return args, kwargs

    def e_BoolOp(self, e, fr):
        v = None
        if isinstance(e.op, ast.Or) and all(
            isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "isinstance" and len(x.args) == 2 and not x.keywords
            for x in e.values
        ) and len({ast.dump(x.args[0]) for x in e.values}) == 1 and isinstance(e.values[0].args[0], ast.Name):
            from . import lib

            o = self.eval(e.values[0].args[0], fr)
            if isinstance(o, Obj) and isinstance(self.lookup("isinstance", fr), LibV):
                # one question instead of several
                return lib.b_isinstance(self, o, tuple(self.eval(x.args[1], fr) for x in e.values))
        for i, x in enumerate(e.values):
            v = self.eval(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(e.op, ast.And) and not t:
                return False if isinstance(v, SBool) else v
            if isinstance(e.op, ast.Or) and t:
                return True if isinstance(v, SBool) else v
        return v

    def e_UnaryOp(self, e, fr):
        v = self.force(self.eval(e.operand, fr))
        if isinstance(e.op, ast.Not):
            if isinstance(v, SBool):
                return SBool(z3.Not(v.t))
            return not self.truth(v)
        if is_conc(v) and v is not None:
            return {ast.USub: lambda x: -x, ast.UAdd: lambda x: +x, ast.Invert: lambda x: ~x}[type(e.op)](v)
        if isinstance(v, SBV):
            if isinstance(e.op, ast.Invert):
                return SBV(~v.t, ~v.hi, ~v.lo)
            if isinstance(e.op, ast.USub):
                return SBV(-v.t, -v.hi, -v.lo)
        if isinstance(v, SInt) and isinstance(e.op, ast.USub):
            return SInt(-v.t)
        raise Unsupported("unary operator")

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        return self.binop(e.op, a, b)

    def binop(self, op, a, b):
        a, b = self.force(a), self.force(b)
        n = type(op).__name__
        names = {"BitAnd": "__and__", "BitOr": "__or__", "Add": "__add__", "Sub": "__sub__"}
        if isinstance(a, Obj):
            if n in names:
                cs = self.classes_of(a)
                if any(self.prog.classes[c].find(names[n]) for c in cs):
                    return self.call_method(a, names[n], [b], {})
            raise PyExc(TypeError, "unsupported operand")
        if isinstance(b, Obj):
            raise PyExc(TypeError, "unsupported operand")
        if is_conc(a) and is_conc(b):
            import operator as O

            f = {"BitAnd": O.and_, "BitOr": O.or_, "BitXor": O.xor, "Add": O.add, "Sub": O.sub, "Mult": O.mul,
                 "Mod": O.mod, "FloorDiv": O.floordiv, "Div": O.truediv, "LShift": O.lshift, "RShift": O.rshift,
                 "Pow": O.pow}[n]
            try:
                return f(a, b)
            except Exception as x:
                raise PyExc(type(x), str(x))
        if isinstance(a, HSet) or isinstance(b, HSet):
            if n in ("BitAnd", "BitOr", "Sub"):
                if isinstance(a, HSet) and not isinstance(b, (HSet, SeqV)):
                    raise PyExc(TypeError, "set operator")
                if not isinstance(a, (HSet, SeqV)):
                    raise PyExc(TypeError, "set operator")
                from . import lib

                return lib.set_op(self, {"BitAnd": "inter", "BitOr": "union", "Sub": "diff"}[n], a, b)
            raise Unsupported("set operator")
        if isinstance(a, SeqV) and isinstance(b, (SeqV, HSet, tuple)) or isinstance(a, tuple) and isinstance(b, SeqV):
            from . import lib

            return lib.set_op(self, {"BitAnd": "inter", "BitOr": "union", "Sub": "diff"}[n], a, b)
        if isinstance(a, (str, SStr, SRope)) and isinstance(b, (str, SStr, SRope)) and n == "Add":
            return SRope((a.parts if isinstance(a, SRope) else [a]) + (b.parts if isinstance(b, SRope) else [b])) \
                if isinstance(a, SRope) or isinstance(b, SRope) else SStr(z3.Concat(self.zstr(a), self.zstr(b)))
        if n == "Mod" and isinstance(a, str):
            from . import lib

            vs = list(b) if isinstance(b, tuple) else [b]
            ps = a.split("%s")
            if len(ps) == len(vs) + 1 and "%" not in "".join(ps):
                return lib.rope([x for i, t in enumerate(ps) for x in ([t] + ([lib.text_of(vs[i])] if i < len(vs) else [])) if x != ""])
            return Opaque("formatted text")
        if isinstance(a, HList) and isinstance(b, HList) and n == "Add":
            return self.p.new_list(self.p.content(a) + self.p.content(b))
        if isinstance(a, tuple) and isinstance(b, tuple) and n == "Add":
            return a + b
        num = (int, SInt, SBV)
        if isinstance(a, num) and isinstance(b, num):
            if isinstance(a, SInt) or isinstance(b, SInt):
                x, y = self.zint(a), self.zint(b)
                if n == "Add":
                    return SInt(x + y)
                if n == "Sub":
                    return SInt(x - y)
                if n == "Mult":
                    return SInt(x * y)
                if n in ("Mod", "FloorDiv"):
                    if self.p.branch(y == 0):
                        raise PyExc(ZeroDivisionError, n)
                    if not self.p.branch(y > 0):
                        raise Unsupported("division by a negative number")
                    return SInt(x % y if n == "Mod" else x / y)
                raise Unsupported(f"{n} on mathematical integers")
            return self.bvop(n, to_bv(a), to_bv(b))
        if isinstance(a, SIp) and isinstance(b, (int, SBV)) and n in ("Add", "Sub"):
            from . import lib

            return lib.ip_from_int(self, self.bvop(n, lib.ip_int(a), to_bv(b)), a.is6)
        if isinstance(op, ast.Sub) and type(a).__name__ == "SDate" and type(b).__name__ == "SDate":
            r = Opaque("time difference")
            r.attrs = {"days": Opaque("days"), "seconds": Opaque("seconds")}
            return r
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            return Opaque("result of an operator")
        if a is None or b is None:
            raise PyExc(TypeError, "unsupported operand None")
        raise Unsupported(f"operator {n} on {a}, {b}")

    def bvop(self, n, x, y):
        lim = 2 ** (W - 2)

        def chk(lo, hi):
            if lo < -lim or hi > lim:
                raise Unsupported("integer may leave the bit vector range")

        if n == "BitAnd":
            if x.lo >= 0 and y.lo >= 0:
                return SBV(x.t & y.t, 0, min(x.hi, y.hi))
            if x.lo >= 0:
                return SBV(x.t & y.t, 0, x.hi)
            if y.lo >= 0:
                return SBV(x.t & y.t, 0, y.hi)
            b = max(abs(x.lo), abs(y.lo), abs(x.hi), abs(y.hi)).bit_length()
            return SBV(x.t & y.t, -(2**b), 2**b)
        if n in ("BitOr", "BitXor"):
            b = max(abs(x.lo), abs(y.lo), abs(x.hi), abs(y.hi)).bit_length()
            t = x.t | y.t if n == "BitOr" else x.t ^ y.t
            if x.lo >= 0 and y.lo >= 0:
                return SBV(t, 0, 2**b - 1)
            chk(-(2**b), 2**b)
            return SBV(t, -(2**b), 2**b)
        if n == "Add":
            chk(x.lo + y.lo, x.hi + y.hi)
            return SBV(x.t + y.t, x.lo + y.lo, x.hi + y.hi)
        if n == "Sub":
            chk(x.lo - y.hi, x.hi - y.lo)
            return SBV(x.t - y.t, x.lo - y.hi, x.hi - y.lo)
        if n == "Mult":
            c = [x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi]
            chk(min(c), max(c))
            return SBV(x.t * y.t, min(c), max(c))
        if n == "LShift":
            if y.lo < 0:
                if not self.p.branch(y.t >= 0):
                    raise PyExc(ValueError, "negative shift count")
                y = SBV(y.t, 0, y.hi)
            if y.hi > 200 or x.lo < 0:
                raise Unsupported("shift range")
            hi = x.hi << y.hi
            chk(0, hi)
            return SBV(x.t << y.t, x.lo << y.lo if x.lo else 0, hi)
        if n == "RShift":
            if y.lo < 0:
                if not self.p.branch(y.t >= 0):
                    raise PyExc(ValueError, "negative shift count")
            return SBV(x.t >> y.t, min(x.lo, 0), max(x.hi, 0))
        if n == "Pow":
            if x.lo == x.hi == 2 and 0 <= y.lo and y.hi <= 140:
                return SBV(z3.BitVecVal(1, W) << y.t, 1, 2**y.hi)
        raise Unsupported(f"operator {n} on address integers")

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        n = len(e.ops)
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, fr)
            v = self.compare(op, left, right)
            if i == n - 1:
                return v if isinstance(v, bool) else (SBool(v) if isinstance(v, z3.BoolRef) else v)
            if not self.tr(v):
                return False
            left = right

    def compare(self, op, a, b):
        a, b = self.force(a), self.force(b)
        n = type(op).__name__
        from . import lib

        for x, y, sw in ((a, b, False), (b, a, True)):
            if isinstance(x, lib.SLen) and n in ("Eq", "NotEq", "Lt", "LtE", "Gt", "GtE"):
                if not isinstance(y, int):
                    raise Unsupported("comparison of symbolic lengths")
                k = {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(n, n) if sw else n
                return lib.len_cmp(self, k, x, y)
        if n == "Is":
            return self.same(a, b)
        if n == "IsNot":
            r = self.same(a, b)
            return (not r) if isinstance(r, bool) else z3.Not(r)
        if n == "Eq":
            return self.eq(a, b)
        if n == "NotEq":
            if isinstance(a, Obj):
                m = self.find_method_fork(a, "__ne__")
                if m is not None:
                    return self.truth(self.call_func(m[1], [a, b], {}, cls=m[0]))
            r = self.eq(a, b)
            return (not r) if isinstance(r, bool) else z3.Not(r)
        if n in ("Lt", "LtE", "Gt", "GtE"):
            if isinstance(a, Obj) or isinstance(b, Obj):
                return self.rich(n, a, b)
            num = (int, SInt, SBV)
            if isinstance(a, num) and isinstance(b, num) and not (is_conc(a) and is_conc(b)):
                if isinstance(a, SInt) or isinstance(b, SInt):
                    x, y = self.zint(a), self.zint(b)
                else:
                    x, y = to_bv(a).t, to_bv(b).t
                return {"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[n]
            if n == "Lt":
                return self.lt(a, b)
            if n == "LtE":
                return self.lt(a, b, False)
            if n == "Gt":
                return self.lt(b, a)
            return self.lt(b, a, False)
        if n in ("In", "NotIn"):
            r = self.isin(a, b)
            if n == "NotIn":
                r = (not r) if isinstance(r, bool) else z3.Not(r)
            return r
        raise Unsupported(f"comparison {n}")

    def rich(self, n, a, b):
        """comparison operators of objects, with functools.total_ordering"""
        names = {"Lt": "__lt__", "LtE": "__le__", "Gt": "__gt__", "GtE": "__ge__"}
        if not isinstance(a, Obj):
            sw = {"Lt": "Gt", "LtE": "GtE", "Gt": "Lt", "GtE": "LtE"}
            return self.rich(sw[n], b, a)
        c = self.one_class(a)
        if c.find(names[n]):
            return self.truth(self.call_method(a, names[n], [b], {}))
        if any(isinstance(d, (ast.Name, ast.Attribute)) and ast.unparse(d).endswith("total_ordering") for k in c.mro() for d in k.node.decorator_list):
            self.assumed.add("functools.total_ordering")
            if c.find("__lt__"):
                l = self.truth(self.call_method(a, "__lt__", [b], {}))
                if n == "GtE":
                    return not l
                if n == "LtE":
                    return l or self.tr(self.eq(a, b))
                if n == "Gt":
                    return (not l) and not self.tr(self.eq(a, b))
        raise PyExc(TypeError, "order not defined")

    def isin(self, a, b):
        if isinstance(b, (tuple,)) or (isinstance(b, HList) and all(isinstance(s, Elem) for s in self.p.content(b))) or (
            isinstance(b, HSet) and self.p.content(b)[0] == "segs" and all(isinstance(s, Elem) for s in self.p.content(b)[1])
        ):
            segs = self.p.content(b)[1] if isinstance(b, HSet) else self.segs_of(b)
            ts = []
            for s in segs:
                t = self.key_eq(a, s.v) if isinstance(b, HSet) else self.eq(a, s.v)
                if t is True:
                    return True
                if t is not False:
                    ts.append(t)
            return z3.Or(ts) if ts else False
        if isinstance(b, HDict):
            return self.dict_has(b, a)
        if isinstance(b, HSet):
            return self.contains(self.p.content(b), a)
        if isinstance(b, HList):
            return self.in_segs(self.p.content(b), a)
        if isinstance(b, SeqV):
            return self.in_segs(b.segs, a)
        if isinstance(b, (str, SStr)) and isinstance(a, (str, SStr)):
            if isinstance(a, str) and isinstance(b, str):
                return a in b
            return z3.Contains(self.zstr(b), self.zstr(a))
        from . import lib

        if isinstance(b, SNet):
            return lib.ip_in_net(self, a, b)
        if isinstance(b, Obj):
            m = self.find_method_fork(b, "__contains__")
            if m is not None:
                return self.truth(self.call_func(m[1], [b, a], {}, cls=m[0]))
            if not self.find_method_fork(b, "__iter__"):
                raise PyExc(TypeError, f"argument of type {self.tname(b)} is not iterable")
        if b is None:
            raise PyExc(TypeError, "argument of type NoneType is not iterable")
        raise Unsupported(f"in {b}")

    def e_IfExp(self, e, fr):
        return self.eval(e.body if self.truth(self.eval(e.test, fr)) else e.orelse, fr)

    def e_Lambda(self, e, fr):
        return FuncV(e, fr.mod, None, fr, "<lambda>")

    def e_Tuple(self, e, fr):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                segs = self.segs_of(self.eval(x.value, fr))
                if not all(isinstance(s, Elem) for s in segs):
                    raise Unsupported("* in a tuple")
                out += [s.v for s in segs]
            else:
                out.append(self.eval(x, fr))
        return tuple(out)

    def e_List(self, e, fr):
        segs = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                segs += list(self.segs_of(self.eval(x.value, fr)))
            else:
                segs.append(Elem(self.eval(x, fr)))
        return self.p.new_list(segs)

    def e_Set(self, e, fr):
        segs = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                segs += list(self.segs_of(self.eval(x.value, fr)))
            else:
                segs.append(Elem(self.eval(x, fr)))
        s = self.p.new_set()
        self.set_add(s, segs)
        return s

    def e_Dict(self, e, fr):
        d = self.p.new_dict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.eval(v, fr)
                if not isinstance(o, HDict):
                    raise Unsupported("** in a dict")
                for s in self.p.content(o):
                    if not isinstance(s, Elem):
                        raise Unsupported("** in a dict")
                    self.dict_set(d, *s.v)
            else:
                self.dict_set(d, self.eval(k, fr), self.eval(v, fr))
        return d

    def comp(self, e, fr, elt):
        out = self.p.new_list()
        sub = Frame(fr.mod, fr, fr.cls, fr.func, fr.self_)
        self.frames.append(sub)

        def gen(i):
            if i == len(e.generators):
                self.list_extend(out, (Elem(elt(sub)),))
                return
            g = e.generators[i]
            segs = self.segs_of(self.eval(g.iter, sub if i else fr))
            stored = tuple(stored_names([x.target for x in e.generators[i:]]))

            def body(v):
                self.assign(g.target, self.lazy(v), sub)
                for c in g.ifs:
                    if not self.truth(self.eval(c, sub)):
                        return
                gen(i + 1)

            self.iterate(segs, body, sub, stored)

        try:
            gen(0)
        finally:
            self.frames.pop()
        return out

    def e_ListComp(self, e, fr):
        return self.comp(e, fr, lambda s: self.eval(e.elt, s))

    def e_GeneratorExp(self, e, fr):
        # evaluated at once; the consumer sees the same elements (documented assumption: no interleaved effects)
        if any(not isinstance(x, Elem) for x in self.segs_of(self.eval(e.generators[0].iter, fr))):
            return LazyGen(self, e, fr)
        return SeqV(self.p.content(self.comp(e, fr, lambda s: self.eval(e.elt, s))))

    def e_SetComp(self, e, fr):
        l = self.comp(e, fr, lambda s: self.eval(e.elt, s))
        s = self.p.new_set()
        self.set_add(s, self.p.content(l))
        return s

    def e_DictComp(self, e, fr):
        l = self.comp(e, fr, lambda s: (self.eval(e.key, s), self.eval(e.value, s)))
        d = self.p.new_dict()
        for s in self.p.content(l):
            if isinstance(s, Elem):
                self.dict_set(d, *s.v)
            else:
                self.p.heap[d.oid] = self.p.heap[d.oid] + (s,)
        return d

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.force(self.eval(v.value, fr))
                if v.conversion not in (-1, 115) or v.format_spec is not None:
                    parts.append(Opaque("formatted"))
                    continue
                parts.append(str(x) if is_conc(x) else x)
        from . import lib

        return lib.rope(parts)

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_Starred(self, e, fr):
        raise Unsupported("starred expression")

    def e_Yield(self, e, fr):
        v = None if e.value is None else self.eval(e.value, fr)
        f = fr
        while f.yields is None:
            f = f.parent
        self.list_extend(f.yields, (Elem(v),))
        return None

    def e_YieldFrom(self, e, fr):
        f = fr
        while f.yields is None:
            f = f.parent
        self.list_extend(f.yields, self.segs_of(self.eval(e.value, fr)))
        return None


class PyExcValue(V):
    def __init__(self, exc):
        self.exc = exc


class LazyGen(SeqV):
    """generator expression over a symbolic sequence: evaluated when consumed"""

    def __init__(self, I, e, fr):
        self.I, self.e, self.fr = I, e, fr
        self.cache = None

    @property
    def segs(self):
        if self.cache is None:
            I, e, fr = self.I, self.e, self.fr
            sub = Frame(fr.mod, fr, fr.cls, fr.func, fr.self_)

            def level(i, loc):
                """segs produced by generators i.. with the bindings loc"""
                g = e.generators[i]
                s0 = Frame(fr.mod, fr, fr.cls, fr.func, fr.self_)
                s0.locals = dict(loc)
                src = I.segs_of(I.eval(g.iter, s0 if i else fr))

                def one(v):
                    s = Frame(fr.mod, fr, fr.cls, fr.func, fr.self_)
                    s.locals = dict(loc)
                    I.assign(g.target, I.lazy(v), s)
                    for c in g.ifs:
                        if not I.truth(I.eval(c, s)):
                            return ()
                    if i + 1 == len(e.generators):
                        return (Elem(I.eval(e.elt, s)),)
                    return level(i + 1, s.locals)

                return flat_map(I, src, one)

            self.cache = level(0, {})
        return self.cache


def flat_map(I, src, one):
    """lazy flat map; one(v) -> segs, evaluated when an element is consumed"""
    out = []
    W = I.world()
    for s in src:
        if isinstance(s, Elem):
            out.append(DelayedElem(I, s.v, one))
        elif isinstance(s, FM):
            out.append(FM(s.src, lambda p, e, s=s: I.within(W, lambda: flat_map(I, s.fn(p, e), one)), "lazy"))
        else:
            out.append(FM(s, lambda p, e: I.within(W, lambda: one(e)), "lazy"))
    res = []
    for s in out:
        if isinstance(s, DelayedElem):
            res += list(one(s.v))
        else:
            res.append(s)
    return tuple(res)


class DelayedElem:
    def __init__(self, I, v, one):
        self.v = v


class LazyV(V):
    """a typed input value that is made when it is read"""

    def __init__(self, type_, acc, key):
        self.type, self.acc, self.key = type_, acc, key

    def get(self, I):
        return self.type.make(I, self.acc, self.key)


def k_conc(k):
    return z3.is_int_value(z3.simplify(k.t))


class MapSeg(SymSeg):
    """an input dictionary with string keys: (has, value) functions of the key"""

    def __init__(self, key, vtype, ksort=None):
        self.vtype = vtype
        self.parent = None
        self.key = key
        self.make = self._make

    def has(self, I, k):
        f = z3.Function(f"has:{self.key}", z3.StringSort(), z3.BoolSort())
        if not isinstance(k, (str, SStr, SRope)):
            return False
        return f(I.zstr(k))

    def get(self, I, k):
        z = I.zstr(k)
        return self.vtype.make(
            I,
            lambda suf, sort: z3.Function(f"val:{self.key}{suf}", z3.StringSort(), sort)(z),
            f"{self.key}[{z.sexpr()}]",
        )

    def _make(self, p, name):
        k = SStr(z3.Const(name + ".key", z3.StringSort()))
        p.assume(self.has(p.I, k))
        return (k, self.get(p.I, k))


def decorators(node):
    return {ast.unparse(d) for d in node.decorator_list}
