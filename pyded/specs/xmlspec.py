"""XML input and loops over the children of an element, for C18 and C19.

A loop over the children of an element is proved by one step from an arbitrary state.  The state is found in the code: the
dictionaries made before the loop, and the variables that are bound before the loop and assigned in it.  An arbitrary state
of a dictionary maps each key to its initial value or to a value of the type a child can leave there (the step proves that
these are the values left).
"""
import ast

from .match import *
from .seq import *
from ..interp import MapSeg, stored_names


class Stop(Exception):
    pass


class TXml(Type):
    """an element with any tag, any text and any children"""

    def make(self, I, acc, key):
        return XElem(key, SStr(acc(".tag", z3.StringSort())), LazyF(I, TOpt(TStr(nonempty=True)), (lambda s, so: acc(".text" + s, so)), key + ".text"),
                     lambda: (TList(TXml()).seg(I, key + ".kids"),))


def tagged(I, e, tag):
    """suppose that the tag of e is the given one"""
    I.p.assume(e.tag.t == z3.StringVal(tag))
    I.p.notes[("tag", e.key)] = tag
    return e


def element(I, name, tag=None):
    e = arg(I, TXml(), name)
    return e if tag is None else tagged(I, e, tag)


def text(I, e):
    """(present, term)"""
    return I.getattr(e, "text")


class Slots(MapSeg):
    """arbitrary state of a dictionary: initial entries, and for every key the type of what may have been written"""

    def __init__(self, key, initial, types, always=()):
        super().__init__(key, None)
        self.initial, self.types, self.always = initial, types, always

    def has(self, I, k):
        if not isinstance(k, str):
            raise Unsupported("symbolic key of the state of a loop")
        if k in self.initial or k in self.always:
            return z3.BoolVal(True)
        if k not in self.types:
            return z3.BoolVal(False)
        return z3.Bool(f"has:{self.key}:{k}")

    def get(self, I, k):
        s = I.p.singletons_path()
        m = ("slot", self.key, k)
        if m not in s:
            ini = self.initial.get(k, Slots)
            t = self.types.get(k)
            acc = lambda suf, sort: z3.Const(f"slot:{self.key}:{k}{suf}", sort)
            if t is None:
                v = ini
            elif not self.keeps(I, k):
                v = t.make(I, acc, f"slot:{self.key}:{k}")
            elif I.p.branch(self.kept(k)):
                v = ini
            else:
                v = t.make(I, acc, f"slot:{self.key}:{k}")
            s[m] = v
        return I.force(I.lazy(s[m]))

    def keeps(self, I, k):
        """the initial value is not among those of the type"""
        t = self.types.get(k)
        return t is not None and k in self.initial and not getattr(t, "covers", lambda v: False)(I.force(I.lazy(self.initial[k])))

    def kept(self, k):
        return z3.Bool(f"kept:{self.key}:{k}")

    def _make(self, p, name):
        raise Unsupported("iteration over the state of a loop")


class Text(TStr):
    """any non-empty text"""

    def covers(self, v):
        return isinstance(v, (SStr, str)) and v != ""


class AnyText(TStr):
    def covers(self, v):
        return isinstance(v, (SStr, str))


class Inst(TObj):
    def covers(self, v):
        return isinstance(v, Obj)


class Date(Type):
    def make(self, I, acc, key):
        return lib.SDate("datetime", {})

    def covers(self, v):
        return isinstance(v, lib.SDate)


def state_of(I, st, fr):
    """(dictionaries by name, variables by name) that a loop may carry from one step to the next"""
    dicts, vs = {}, {}
    stored = set(stored_names(st.body)) - set(stored_names([st.target]))
    for n, v in fr.locals.items():
        f = I.force(v) if not isinstance(v, (LazyV_,)) else v
        if n in stored:
            vs[n] = f
        elif isinstance(f, HDict) and I.is_new(f.oid):
            dicts[n] = f
    return dicts, vs


from ..interp import LazyV as LazyV_


def over(I, it, x):
    """the loop is over the children of x"""
    try:
        return tuple(I.segs_of(it)) == tuple(x.segs)
    except (Unsupported, PyExc):
        return False


def havoc_dict(I, d, key, types, always=()):
    ini = {}
    for s in I.p.content(d):
        if not isinstance(s, Elem) or not isinstance(s.v[0], str):
            raise Unsupported("state of the loop before its first step")
        ini[s.v[0]] = s.v[1]
    I.p.heap[d.oid] = (Slots(key, ini, types, always),)
    return ini


def written(I, d):
    """{key: value} written since the dictionary was made arbitrary"""
    segs = I.p.content(d)
    if not segs or not isinstance(segs[0], Slots) or not all(isinstance(s, Elem) and isinstance(s.v[0], str) for s in segs[1:]):
        raise Unsupported("writes to the state of a loop")
    return {s.v[0]: I.force(I.lazy(s.v[1])) for s in segs[1:]}


def step(I, st, fr, e):
    """the loop body on e -> False if it ends the loop"""
    I.assign(st.target, e, fr)
    try:
        I.block(st.body, fr)
    except ContinueExc:
        pass


class AnyMap(MapSeg):
    """a dictionary with any text or number keys"""

    def has(self, I, k):
        if isinstance(k, (int, SInt)):
            return z3.Function(f"hasi:{self.key}", Z, B)(I.zint(k))
        return super().has(I, k)

    def get(self, I, k):
        if isinstance(k, (int, SInt)):
            return self.vtype.make(I, lambda suf, sort: z3.Function(f"vali:{self.key}{suf}", Z, sort)(I.zint(k)), f"{self.key}[{I.zint(k).sexpr()}]")
        return super().get(I, k)


class TAnyMap(TMap):
    def make(self, I, acc, key):
        oid = ("new", "any", key)
        if oid not in I.p.heap:
            I.p.heap[oid] = (AnyMap(("map", key), self.vtype),)
        return HDict(oid, default=self.default)


class TNewList(TList):
    def make(self, I, acc, key):
        oid = ("new", "any", key)
        if oid not in I.p.heap:
            I.p.heap[oid] = (self.seg(I, key),)
        return HList(oid)
