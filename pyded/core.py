"""pyded: a small deductive verifier for the Python subset acltk is written in.

The real source in /repo/lib/acltk is parsed on every run and executed symbolically, function by
function, against contracts kept in sidecar files (pyded/specs).  See DESIGN.md.

This module: values, sequences, paths (path condition, decisions, heap, obligations) and the solver.
"""
import itertools
import os
import subprocess
import tempfile
import time

import z3

z3.set_param("model.completion", True)

W = 160  # width of the bit vectors standing for Python ints in address arithmetic (signed, overflow checked)


class Unsupported(Exception):
    """a construct outside the verifier's subset: the obligation is not discharged"""


class PathInfeasible(Exception):
    pass


class LoopCarried(Exception):
    """a loop body reads what an earlier iteration wrote"""


class PyExc(Exception):
    """a Python exception raised by the verified code"""

    def __init__(self, cls, msg=""):
        self.cls = cls  # a real Python exception class
        self.msg = msg
        Exception.__init__(self, f"{cls.__name__}: {msg}")


# ---------------------------------------------------------------- values
class V:
    pass


class SBool(V):
    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"SBool({self.t})"


class SInt(V):
    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"SInt({self.t})"


class SBV(V):
    """a Python int as a signed bit vector; lo <= value <= hi are known bounds, so no operation overflows"""

    def __init__(self, t, lo, hi):
        self.t, self.lo, self.hi = t, lo, hi

    def __repr__(self):
        return f"SBV({self.t})"


class SStr(V):
    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return f"SStr({self.t})"


class SRope(V):
    """an f-string with symbolic parts"""

    def __init__(self, parts):
        self.parts = parts

    def __repr__(self):
        return f"SRope({self.parts})"


class Opaque(V):
    """a value nothing is known about; any use but passing it on is unsupported"""

    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return f"Opaque({self.what})"


class SIp(V):
    """an ipaddress.IPv4Address / IPv6Address"""

    def __init__(self, is6, val):
        self.is6, self.val = is6, val  # z3 Bool, BV128

    def __repr__(self):
        return f"SIp({self.is6},{self.val})"


class SNet(V):
    """an ipaddress.IPv4Network / IPv6Network; host is the host mask (contiguous ones)"""

    def __init__(self, is6, num, host):
        self.is6, self.num, self.host = is6, num, host

    def __repr__(self):
        return f"SNet({self.is6},{self.num},{self.host})"


class SIface(V):
    """an ipaddress.ip_interface"""

    def __init__(self, ip, net):
        self.ip, self.net = ip, net


class Obj(V):
    """reference to an instance; ref is a z3 Int (input objects: a term >= 0, allocated objects: a negative number)"""

    def __init__(self, ref, fresh=False):
        self.ref = ref
        self.fresh = fresh
        self.key = ref.sexpr()

    def __repr__(self):
        return f"Obj({self.key})"


class HList(V):
    def __init__(self, oid):
        self.oid = oid

    def __repr__(self):
        return f"HList({self.oid})"


class HSet(V):
    def __init__(self, oid):
        self.oid = oid

    def __repr__(self):
        return f"HSet({self.oid})"


class HDict(V):
    def __init__(self, oid, ast=False, default=None):
        self.oid = oid
        self.ast = ast
        self.default = default

    def __repr__(self):
        return f"HDict({self.oid})"


class SeqV(V):
    """an iterable given by its content (iterator, view, generator, filter object)"""

    def __init__(self, segs):
        self.segs = tuple(segs)


class XElem(V):
    """an xml.etree element that is only read: tag, text and children (contract of the library)"""

    def __init__(self, key, tag, text, kids):
        self.key, self.tag, self.text, self.kids = key, tag, text, kids

    @property
    def segs(self):
        k = self.kids
        if callable(k):
            k = self.kids = tuple(k())
        return k

    def __repr__(self):
        return f"XElem({self.key})"


class MoreArgs(V):
    """any number of further positional arguments"""


class LastWriter(V):
    """value of a variable or field assigned by a summarised loop; resolved when read"""

    def __init__(self, resolve):
        self.resolve = resolve


class Poison(V):
    def __init__(self, what):
        self.what = what


# ---------------------------------------------------------------- sequences
class Elem:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f"<{self.v}>"


class SymSeg:
    """an input sequence of unknown length; prim identifies the sequence, a prefix knows its parent"""

    def __init__(self, key, make, parent=None):
        self.key = key  # hashable
        self.make = make  # make(path, z3 name) -> element value
        self.parent = parent

    def __repr__(self):
        return f"Sym({self.key})"

    def chain(self):
        s = self
        while s is not None:
            yield s
            s = s.parent


class FM:
    """flat map: concatenation of fn(path, e) over the elements e of src"""

    def __init__(self, src, fn, what=""):
        self.src, self.fn, self.what = src, fn, what

    def __repr__(self):
        return f"FM({self.src},{self.what})"


class TransSeg:
    """sequence obtained by a library function from another one (sorted, collapse_addresses, ...)"""

    def __init__(self, op, args, src, make):
        self.op, self.args, self.src, self.make = op, args, tuple(src), make
        self.key = None

    def __repr__(self):
        return f"Trans({self.op},{self.src})"


# ---------------------------------------------------------------- solver
class Solver:
    def __init__(self, timeout_ms=20000):
        self.timeout_ms = timeout_ms
        self.memo = {}
        self.keep = []
        self.time = 0.0
        self.queries = 0
        self.cvc5 = 0
        self.unknown = 0

    def check(self, facts, want_model=False):
        """sat / unsat / unknown of a conjunction"""
        fs = []
        seen = set()
        for f in facts:
            if z3.is_true(f):
                continue
            if z3.is_false(f):
                return "unsat", None
            i = f.get_id()
            if i not in seen:
                seen.add(i)
                fs.append(f)
        key = frozenset(seen)
        if key in self.memo and not (want_model and self.memo[key][0] == "sat" and self.memo[key][1] is None):
            return self.memo[key]
        self.keep.extend(fs)
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", self.timeout_ms)
        s.add(*fs)
        r = str(s.check())
        self.queries += 1
        m = None
        if r == "sat":
            m = s.model()
        if r == "unknown":
            r = self._cvc5(s)
            if r == "unknown":
                self.unknown += 1
        self.time += time.time() - t0
        self.memo[key] = (r, m)
        return r, m

    def _cvc5(self, s):
        self.cvc5 += 1
        try:
            with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
                f.write("(set-logic ALL)\n" + s.to_smt2())
            try:
                o = subprocess.run(
                    ["cvc5", "--strings-exp", f"--tlimit={self.timeout_ms}", f.name],
                    capture_output=True,
                    text=True,
                    timeout=self.timeout_ms / 1000 + 5,
                ).stdout
            finally:
                os.unlink(f.name)
            o = o.strip().split("\n")[0] if o.strip() else "unknown"
            return o if o in ("sat", "unsat") else "unknown"
        except Exception:
            return "unknown"


class Obligation:
    def __init__(self, name, status, detail="", model=None):
        self.name, self.status, self.detail, self.model = name, status, detail, model


class Result:
    """what the exploration of one driver produced"""

    def __init__(self, name):
        self.name = name
        self.obligations = []
        self.paths = 0
        self.completed = 0
        self.outcomes = {}
        self.unsupported = []
        self.nfailed = 0

    def ok(self):
        return not self.unsupported and self.obligations and all(o.status == "proved" for o in self.obligations)


SIMP = {}


def simp(t):
    """(simplified term, True / False if it is that constant else None); memoised, the terms are kept alive"""
    i = t.get_id()
    r = SIMP.get(i)
    if r is None:
        if len(SIMP) > 200000:
            SIMP.clear()
        x = z3.simplify(t)
        r = SIMP[i] = (t, x, True if z3.is_true(x) else False if z3.is_false(x) else None)
    return r[1], r[2]


# ---------------------------------------------------------------- paths
class Path:
    MAXPATHS = 6000

    def __init__(self, solver, result):
        self.solver = solver
        self.result = result
        self.decisions = []
        self.pos = 0
        self.work = []
        self.deadline = None
        self.strs = {}
        self.discovered = {}

    # ---- exploration
    def reset(self):
        self.facts = []
        self.heap = {}
        self.classes = {}
        self.members = {}  # seg key -> list of values
        self.universals = {}  # seg key -> list of closures
        self.nfresh = 0
        self.nobj = 0
        self.wlog = []
        self.wstart = 0
        self.opaque = frozenset()
        self.notes = {}
        self.singletons = {}
        self.effects = []
        self.events = []
        self.nested = 0
        self.pathvals = {}
        self.ngen = 0
        self.ctx = ()

    def singletons_path(self):
        return self.pathvals

    def snapshot(self):
        return (
            list(self.facts),
            {k: (dict(v) if isinstance(v, dict) else v) for k, v in self.heap.items()},
            dict(self.classes),
            {k: list(v) for k, v in self.members.items()},
            {k: list(v) for k, v in self.universals.items()},
            self.nfresh,
            self.nobj,
            list(self.wlog),
            self.opaque,
            dict(self.notes),
            list(self.events),
            dict(self.pathvals),
            dict(self.singletons),
            self.ngen,
        )

    def restore(self, s):
        (f, h, c, m, u, nf, no, w, o, n, ev, pv, si, self.ngen) = s
        self.pathvals = dict(pv)
        self.singletons = dict(si)
        self.facts = list(f)
        self.heap = {k: (dict(v) if isinstance(v, dict) else v) for k, v in h.items()}
        self.classes = dict(c)
        self.members = {k: list(v) for k, v in m.items()}
        self.universals = {k: list(v) for k, v in u.items()}
        self.nfresh, self.nobj = nf, no
        self.wlog = list(w)
        self.opaque = o
        self.notes = dict(n)
        self.events = list(ev)

    def explore(self, fn):
        """run fn on every path"""
        self.work = [[]]
        n = 0
        while self.work:
            self.decisions = self.work.pop()
            self.pos = 0
            self.reset()
            n += 1
            self.result.paths += 1
            if n > self.MAXPATHS:
                raise Unsupported("too many paths")
            self.tick()
            try:
                fn()
                self.result.completed += 1
            except PathInfeasible:
                pass

    def subexplore(self, fn):
        outs = []
        saved = (self.decisions, self.pos, self.work)
        snap = self.snapshot()
        ctx = self.ctx
        self.ctx = ctx + (tuple(saved[0][: saved[1]]), self.ngen)
        self.work = [[]]
        n = 0
        self.nested += 1
        try:
            while self.work:
                self.decisions = self.work.pop()
                self.pos = 0
                self.restore(snap)
                n += 1
                if n > self.MAXPATHS:
                    raise Unsupported("too many paths in a loop body")
                self.tick()
                try:
                    outs.append(fn())
                except PathInfeasible:
                    pass
        finally:
            self.nested -= 1
            self.ctx = ctx
            self.restore(snap)
            self.decisions, self.pos, self.work = saved
        return outs

    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget of the verifier exhausted")

    def choose(self, n, what=""):
        """nondeterministic choice among n alternatives"""
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            self.pos += 1
            return d
        for k in range(n - 1, 0, -1):
            self.work.append(self.decisions + [k])
        self.decisions = self.decisions + [0]
        self.pos += 1
        return 0

    def branch(self, t):
        """fork on a z3 Bool"""
        if isinstance(t, bool):
            return t
        t, c = simp(t)
        if c is not None:
            return c
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
            self.pos += 1
            # 1/0: forked, 3/2: forced
            v = bool(d & 1)
            self.facts.append(t if v else z3.Not(t))
            return v
        a = self.solver.check(self.facts + [t])[0]
        if a == "unsat":
            d = 2
        else:
            b = self.solver.check(self.facts + [z3.Not(t)])[0]
            d = 3 if b == "unsat" else 1
            if d == 1:
                self.work.append(self.decisions + [0])
        self.decisions = self.decisions + [d]
        self.pos += 1
        v = bool(d & 1)
        self.facts.append(t if v else z3.Not(t))
        return v

    def assume(self, t):
        if isinstance(t, bool):
            if not t:
                raise PathInfeasible()
            return
        if simp(t)[1] is False:
            raise PathInfeasible()
        self.facts.append(t)

    def feasible(self):
        return self.solver.check(self.facts)[0] != "unsat"

    def require_feasible(self):
        if not self.feasible():
            raise PathInfeasible()

    def entails(self, t):
        if isinstance(t, bool):
            return t
        return self.solver.check(self.facts + [z3.Not(t)])[0] == "unsat"

    def prove(self, t, name, detail=""):
        """an obligation: t follows from the path condition"""
        if isinstance(t, bool):
            t = z3.BoolVal(t)
        r, m = self.solver.check(self.facts + [z3.Not(t)], want_model=True)
        st = {"unsat": "proved", "sat": "failed", "unknown": "unknown"}[r]
        if st != "proved" and not self.feasible():
            raise PathInfeasible()
        if st != "proved":
            detail = (detail + " " if detail else "") + "goal: " + str(z3.simplify(t))[:300]
        self.result.obligations.append(Obligation(name, st, detail, self.describe(m) if m is not None else None))
        if st == "failed":
            self.result.nfailed += 1
            if self.result.nfailed >= 40:
                raise Unsupported("stopped after 40 failed obligations")
        if st != "proved":
            if z3.is_false(z3.simplify(t)):
                raise PathInfeasible()
        self.facts.append(t)

    def fail(self, name, detail=""):
        """the path reaches a state the contract forbids"""
        self.prove(z3.BoolVal(False), name, detail)

    def describe(self, m):
        try:
            return "; ".join(sorted(f"{d.name()}={m[d]}" for d in m.decls() if d.arity() == 0))[:2000]
        except Exception:
            return ""

    # ---- fresh symbols
    def fresh(self, sort, what="v"):
        self.nfresh += 1
        return z3.Const(f"{what}!{self.nfresh}", sort)

    def newref(self):
        self.nobj += 1
        return z3.IntVal(-self.nobj)

    def newoid(self):
        self.nobj += 1
        return ("new", self.nobj)

    # ---- heap of containers
    def new_list(self, segs=()):
        o = self.newoid()
        self.heap[o] = tuple(segs)
        return HList(o)

    def new_dict(self, items=(), ast=False, default=None):
        o = self.newoid()
        self.heap[o] = tuple(items)
        return HDict(o, ast, default)

    def new_set(self, node=("segs", ())):
        o = self.newoid()
        self.heap[o] = node
        return HSet(o)

    def content(self, h):
        if h.oid in self.opaque:
            raise LoopCarried(h.oid)
        return self.heap[h.oid]

    def log(self, kind, oid, *payload):
        self.wlog.append((kind, oid) + payload)

    # ---- elements of symbolic sequences
    def member(self, seg, v=None):
        """a (new) element of a symbolic sequence"""
        if v is None:
            v = seg.make(self, f"e!{self._bump()}")
        ch = list(seg.chain())
        for i, s in enumerate(ch):
            self.members.setdefault(s.key, []).append(v)
            if i + 1 < len(ch):
                k = ("located", ch[i + 1].key)
                self.notes[k] = self.notes.get(k, ()) + (v,)
        for s in ch:
            for u in list(self.universals.get(s.key, [])):
                u(self, v)
        return v

    def locate(self, seg, v):
        """a known element of the parent of seg is one of seg"""
        k = ("located", seg.parent.key)
        self.notes[k] = self.notes.get(k, ()) + (v,)
        self.members.setdefault(seg.key, []).append(v)
        for u in list(self.universals.get(seg.key, [])):
            u(self, v)

    def _bump(self):
        self.nfresh += 1
        return self.nfresh

    def universal(self, seg, fn):
        """every element v of seg satisfies fn: fn(path, v) raises PathInfeasible (or assumes) when run on it"""
        self.universals.setdefault(seg.key, []).append(fn)
        for v in list(self.members.get(seg.key, [])):
            fn(self, v)
        # the same elements in another order
        for s in getattr(seg, "srcs", ()):
            self._universal_in(s, fn)

    def _universal_in(self, s, fn):
        if isinstance(s, Elem):
            fn(self, self.I.force(self.I.lazy(s.v)))
        elif isinstance(s, FM):

            def inner(p, e):
                for x in p.I.resolve(s.fn(p, e)):
                    p._universal_in(x, fn)

            self.universal(s.src, inner)
        else:
            self.universal(s, fn)


def bv128(n):
    return z3.BitVecVal(n, 128)


def to_bv(v):
    """SBV of a concrete or symbolic int"""
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, int):
        if not -(2 ** (W - 1)) <= v < 2 ** (W - 1):
            raise Unsupported("integer too wide")
        return SBV(z3.BitVecVal(v, W), v, v)
    if isinstance(v, SBV):
        return v
    raise Unsupported(f"not an address integer: {v}")
