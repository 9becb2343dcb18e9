"""C22: input is accepted by the first dialect that understands it, or refused.

Contract of a dialect's _parse: it returns a configuration or raises, a function of the text.  ACLConfig._parse, for every
behaviour of the three: the result of the first one that does not raise, in the order ASA/FWSM, IOS, pfSense, each given
the very text; ValueError if none does.  fromString/fromFile/fromPath of the configuration classes and of the filter hand
the same text to _parse and return what it returns: the text given, the bytes of the file decoded as UTF-8 without a
byte-order mark (contract of the codec utf-8-sig), whatever the class, the file and its name.
A dialect's own _parse returns what the parser returns for the text it is given.
"""
from .match import *

DIALECTS = ("fwsmConfig", "iosConfig", "pfsenseConfig")
ALL = ("ACLConfig",) + DIALECTS + ("cafBlock",)
f_accepts = z3.Function("accepts", S, S, B)
f_result = z3.Function("parsed", S, S, Z)
f_sig = z3.Function("decode_utf8_sig", Z, S)
TYPES = {("ACLParserOptions", "trace"): TBool()}


def parsed(kind):
    """contract of cls._parse"""

    def con(I, cls, args, kwargs):
        p = I.p
        names = ["data", "filename", "options"] if kind != "cafBlock" else ["data", "filename", "trace"]
        a = dict(zip(names, args), **kwargs)
        t = I.zstr(I.force(a["data"]))
        p.notes["calls"] = p.notes.get("calls", ()) + ((cls.name, t, a.get("options", a.get("trace"))),)
        if not p.branch(f_accepts(z3.StringVal(cls.name), t)):
            raise PyExc(ValueError, "not understood")
        o = Obj(f_result(z3.StringVal(cls.name), t))
        p.classes[o.key] = frozenset([cls.name])
        return o

    return con


def cls_call(I, c, m, args):
    k = I.prog.classes[c]
    return I.force(I.call(I.getattr(k, m), args, {}))


def options(I):
    return arg(I, TOpt(TObj("ACLParserOptions")), "options")


def first(I):
    p = I.p
    t, o = arg(I, TStr(), "text"), options(I)
    acc = [f_accepts(z3.StringVal(d), t.t) for d in DIALECTS]
    try:
        r = cls_call(I, "ACLConfig", "_parse", [t, arg(I, TOpt(TStr()), "filename"), o])
    except PyExc:
        outcome(I, "refused")
        p.prove(z3.Not(z3.Or(*acc)), "a text some dialect accepts is accepted")
        return
    frame_ok(I, "_parse")
    p.prove(isinstance(r, Obj) and len(I.classes_of(r)) == 1, "_parse: a configuration")
    d = next(iter(I.classes_of(r)))
    if d not in DIALECTS:
        p.fail("_parse: the configuration of a dialect", d)
    i = DIALECTS.index(d)
    outcome(I, d)
    p.prove(r.ref == f_result(z3.StringVal(d), t.t), "_parse: what the dialect makes of the text")
    p.prove(z3.And(acc[i], *[z3.Not(a) for a in acc[:i]]), "_parse: of the first dialect that accepts it")
    for c, tt, oo in p.notes["calls"]:
        p.prove(tt == t.t, "_parse: every dialect is given the text itself")
        p.prove(zt(oo is None if o is None else oo is not None and I.same(oo, o)), "_parse: and the options")


def codec(I, b):
    def decode(I, args, kwargs):
        e = args[0] if args else kwargs.get("encoding", "utf-8")
        if not isinstance(e, str):
            raise Unsupported("computed encoding")
        if e.lower().replace("_", "-") not in ("utf-8-sig", "utf8-sig"):
            return SStr(z3.Function("decode " + e, Z, S)(b))
        return SStr(f_sig(b))

    o = Opaque("bytes")
    o.methods = {"decode": decode}
    return o


def stream(I, b):
    f = Opaque("file")
    n = []

    def read(I, args, kwargs):
        if args or n:
            raise Unsupported("partial or repeated read")
        n.append(1)
        return codec(I, b)

    f.methods = {"read": read}
    f.attrs = {"name": arg(I, TStr(), "name")} if I.p.choose(2, "named") else {}
    return f


def ways(c):
    def fn(I):
        p = I.p
        way = p.choose(3, "way")
        b = z3.Int("bytes")
        o = options(I) if c != "cafBlock" else arg(I, TBool(), "trace")
        I.open_hook = None
        try:
            if way == 0:
                t = arg(I, TStr(), "text")
                text = t.t
                r = cls_call(I, c, "fromString", [t, arg(I, TOpt(TStr()), "filename"), o])
            elif way == 1:
                text = f_sig(b)
                r = cls_call(I, c, "fromFile", [stream(I, b), o])
            else:
                text = f_sig(b)
                path = arg(I, TStr(), "path")

                def opened(q, mode="r", *a, **k):
                    p.prove(zt(I.eq(q, path)), f"{c}: the file of the path is read")
                    if mode != "rb" or a or k:
                        raise Unsupported(f"open in mode {mode}")
                    return stream(I, b)

                I.open_hook = opened
                r = cls_call(I, c, "fromPath", [path, o])
            ok = True
        except PyExc:
            ok = False
        calls = p.notes.get("calls", ())
        frame_ok(I, c)
        p.prove(len(calls) == 1 and calls[0][0] == c, f"{c}: the text is parsed once by the class itself")
        got = calls[0][1]
        p.prove(z3.Or(got == text, got == z3.Concat(text, z3.StringVal("\n"))), f"{c}: the whole text is parsed")
        if way:
            try:
                cls_call(I, c, "fromString", [SStr(text), None, o])
            except PyExc:
                pass
            p.prove(got == p.notes["calls"][1][1], f"{c}: the same text whatever the way")
        p.prove(zt(calls[0][2] is None if o is None else calls[0][2] is not None and I.same(calls[0][2], o)), f"{c}: with the options given")
        acc = f_accepts(z3.StringVal(c), got)
        outcome(I, "accepted" if ok else "refused")
        p.prove(acc if ok else z3.Not(acc), f"{c}: refused iff the parser refuses it")
        if ok:
            p.prove(zt(isinstance(r, Obj) and r.ref == f_result(z3.StringVal(c), got)), f"{c}: what the parser returns")

    return fn


# ---------------------------------------------------------------- the dialects
PARSERS = {"fwsmConfig": "fwsmParser", "iosConfig": "iosParser", "pfsenseConfig": "pfsenseParser", "cafBlock": "cafParser"}


def made(I, cls, args, kwargs):
    """a parser: nothing is read yet"""
    o = Obj(z3.Int("parser"))
    I.p.classes[o.key] = frozenset([cls.name])
    I.p.notes["config"] = kwargs
    return o


def caf_made(I, args, kwargs):
    I.p.notes["config"] = kwargs
    o = Opaque("cafParser")
    o.methods = {"parse": lambda I, a, k: parse(I, o, a, k)}
    return o


def parse(I, o, args, kwargs):
    p = I.p
    t = I.force(args[0] if args else kwargs["data"] if "data" in kwargs else kwargs["text"])
    p.notes["calls"] = p.notes.get("calls", ()) + ((o, t, kwargs),)
    if not p.branch(z3.Bool("understood")):
        raise PyExc(ValueError, "not understood")
    r = Obj(z3.Int("result"))
    p.classes[r.key] = frozenset([p.notes["cls"]])
    return r


def dialect(c):
    def fn(I):
        p = I.p
        p.notes["cls"] = c
        t, o = arg(I, TStr(), "text"), options(I) if c != "cafBlock" else arg(I, TBool(), "trace")
        try:
            r = cls_call(I, c, "_parse", [t, arg(I, TOpt(TStr()), "filename"), o])
        except PyExc:
            outcome(I, "refused")
            p.prove(len(p.notes.get("calls", ())) == 1, f"{c}: refused only by the parser")
            p.prove(z3.Not(z3.Bool("understood")), f"{c}: refused only by the parser")
            return
        outcome(I, "accepted")
        frame_ok(I, c)
        p.prove(len(p.notes["calls"]) == 1, f"{c}: parsed once")
        ps, got, kw = p.notes["calls"][0]
        p.prove(zt(I.eq(got, t)), f"{c}: the parser is given the text itself")
        p.prove(zt(isinstance(r, Obj) and r.ref == z3.Int("result")), f"{c}: what the parser returns")
        sem = kw.get("semantics")
        if sem is None and p.notes["config"].get("config") is not None:
            sem = p.notes["config"]["config"].attrs.get("semantics")
        want = {"fwsmConfig": "fwsmSemantics", "iosConfig": "iosSemantics", "cafBlock": "RealCafSemantics"}.get(c)
        if want:
            p.prove(isinstance(sem, Obj) and I.classes_of(sem) == {want}, f"{c}: with the actions of the dialect")
            if c != "cafBlock":
                p.prove(zt(I.same(I.getattr(sem, "parser"), ps)), f"{c}: which work on this parser")
        cfg = p.notes["config"].get("config")
        if cfg is not None:
            p.prove(zt(I.eq(cfg.attrs.get("rule_name"), "grammar")), f"{c}: from the start rule")

    return fn


def proofs():
    out = [Proof("first dialect that accepts", first, ["ACLConfig._parse"], list(DIALECTS) + ["refused"],
                 contracts={("class", d, "_parse"): parsed(d) for d in DIALECTS})]
    for c in ALL:
        out.append(Proof(f"ways of reading ({c})", ways(c), [f"{c}.{m}" for m in ("fromString", "fromFile", "fromPath")], ["accepted", "refused"],
                         contracts={("class", d, "_parse"): parsed(d) for d in ALL}))
    for c, q in PARSERS.items():
        out.append(Proof(f"parse ({c})", dialect(c), [f"{c}._parse"], ["accepted", "refused"], contracts={(q, "__new__"): made, (q, "parse"): parse, ("lib", "acltk.caf.cafParser"): caf_made}, types=TYPES))
    return out
