"""C29: a banner ends at the next occurrence of its delimiter, and nothing in it is configuration.

The delimiter is what delim_start matched: ^C or any one character.  For every delimiter (all Unicode characters, one by
one, and ^C) the pattern that delim_msg hands to the runtime is shown to be the one for "everything up to the next
occurrence of the delimiter", and delim_stop to match exactly the delimiter.  The rules around them are those of the
grammar (C28), and the action of the statement returns nothing.
"""
import ast
import re

from ..drive import *
from ..model import *
from ..peg import code
from ..peg.pat import plain, tree, tried, upto
from . import c28

# every character that `.` matches; the surrogates are not characters
LIMITS = (0x110000, 0xD800, 0xE000)


def method(name):
    m = c28.module("iosSemantics.py")
    c = m.classes.get("iosParser")
    f = c28.members(c).get(name) if c is not None else None
    if not isinstance(f, ast.FunctionDef) or not c28.flags(f)[0]:
        raise Unsupported(f"iosParser.{name} is no rule")
    return m, c28.members(c), f


def delimiters(lo, hi):
    def fn(I):
        p = I.p
        ms, mm, msg = method("_delim_msg_")
        _, _, stop = method("_delim_stop_")
        ds = ["^C"] if lo is None else [chr(i) for i in range(lo, hi) if i != 10 and not 0xD800 <= i < 0xE000]
        for d in ds:
            x = run(ms, mm, msg, d)
            if x[0] != "pat":
                raise Unsupported(f"delim_msg with {d!r}: {code.show(x)}")
            try:
                t = plain(tree(x[1]))
            except re.error as e:
                p.fail("delim_msg: everything up to the next delimiter", f"{d!r}: {x[1]!r}: {e}")
                return
            if t not in upto(d):
                bad = tried(x[1], d)
                if bad:
                    p.fail("delim_msg: everything up to the next delimiter", f"delimiter {d!r}, pattern {x[1]!r}: {bad}")
                    return
                raise Unsupported(f"delim_msg with {d!r}: pattern {x[1]!r} is not decided")
            y = run(ms, mm, stop, d)
            good = y == ["tok", d]
            if y[0] == "pat":
                try:
                    good = plain(tree(y[1])) == [("char", ord(c)) for c in d]
                except re.error:
                    good = False
            if not good:
                p.fail("delim_stop: exactly the delimiter", f"delimiter {d!r}: {code.show(y)}")
                return
        p.prove(True, "delim_msg: everything up to the next delimiter")
        p.prove(True, "delim_stop: exactly the delimiter")
        outcome(I, "delimiters")

    return fn


def run(m, ms, fn, d):
    r = code.Reader(lambda n: ms.get(n), "iosParser", m.consts, {"delim": d})
    try:
        o = r.run(fn, {fn.args.args[0].arg: code.SelfV()})
    except code.Outside as e:
        raise Unsupported(f"iosParser.{fn.name}: {e}")
    while o[0] == "seq" and len(o) == 2:
        o = o[1]
    return o


def start(I):
    """the action of delim_start: the parser knows the delimiter that was read"""
    p = I.p
    ps = with_class(I, "parser", "iosParser")
    s = I.construct(I.prog.classes["iosSemantics"], [ps], {})
    t = arg(I, TStr(), "delimiter")
    I.call_method(s, "delim_start", [t], {})
    p.prove(zt(I.eq(I.getattr(ps, "delim"), t)), "delim_start: the delimiter that was read")
    w = [x for x in p.wlog if x[0] != "event" and not I.is_new(x[1])]
    p.prove(all(x[0] == "setattr" and x[2] == "delim" for x in w), "delim_start: nothing else is changed")
    outcome(I, "set")


def ignored(I):
    """the action of a statement that is not part of the model: whatever the rule matched, nothing is handed on"""
    s = I.construct(I.prog.classes["iosSemantics"], [Opaque("parser")], {})
    r = I.force(I.call_method(s, "ignored", [Opaque("ast")], {}))
    frame_ok(I, "ignored")
    I.p.prove(r is None, "ignored: nothing for the model")
    outcome(I, "ignored")


def proofs():
    c28.load(("ios",))
    out = [Proof("delimiter ^C", delimiters(None, None), ["iosParser._delim_msg_", "iosParser._delim_stop_"], ["delimiters"])]
    for lo in range(0, LIMITS[0], 0x8000):
        if LIMITS[1] <= lo < LIMITS[2] and lo + 0x8000 <= LIMITS[2]:
            continue
        out.append(Proof(f"delimiters U+{lo:04X}..", delimiters(lo, min(lo + 0x8000, LIMITS[0])), ["iosParser._delim_msg_", "iosParser._delim_stop_"], ["delimiters"]))
    out.append(Proof("delim_start", start, ["iosSemantics.delim_start"], ["set"]))
    out.append(Proof("ignored", ignored, ["iosSemantics.ignored"], ["ignored"]))
    return out
