"""Regular expressions by their syntax tree: "everything up to the next d".

Python's own parser of patterns reads the pattern (trusted: re matches as the tree says); groups that only bracket are
dropped, character classes are reduced to one of: a character, any but one character, any character.
"""
import itertools
import re
import warnings

try:
    from re import _parser as sp
except ImportError:
    import sre_parse as sp


def tree(p):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return sp.parse(p)


def plain(x, dotall=False):
    """sre parse tree as lists, groups that only bracket dropped"""
    r = []
    for op, a in x:
        n = str(op)
        if n == "SUBPATTERN":
            d = (dotall or bool(a[1] & re.DOTALL)) and not a[2] & re.DOTALL
            if a[1] & ~re.DOTALL or a[2] & ~re.DOTALL:
                return None
            s = plain(a[3], d)
            if s is None:
                return None
            r += s
        elif n in ("MAX_REPEAT", "POSSESSIVE_REPEAT"):
            s = plain(a[2], dotall)
            if s is None:
                return None
            r.append(("repeat", int(a[0]), "inf" if a[1] is sp.MAXREPEAT else int(a[1]), tuple(s)))
        elif n == "BRANCH":
            b = [plain(y, dotall) for y in a[1]]
            if any(y is None for y in b):
                return None
            r.append(("or", tuple(tuple(y) for y in b)))
        elif n == "ASSERT_NOT":
            s = plain(a[1], dotall)
            if s is None or a[0] != 1:
                return None
            r.append(("not", tuple(s)))
        elif n == "LITERAL":
            r.append(("char", a))
        elif n == "NOT_LITERAL":
            r.append(("notchar", a))
        elif n == "ANY":
            r.append(("all",) if dotall else ("dot",))
        elif n == "IN":
            c = set()
            for o, v in a:
                if str(o) == "LITERAL":
                    c.add(v)
                elif str(o) == "NEGATE":
                    c.add("neg")
                elif str(o) == "CATEGORY":
                    c.add(str(v))
                else:
                    c.add((str(o), v))
            if len(c) == 2 and all(isinstance(v, str) for v in c):
                x, y = sorted(c, key=len)
                if y == x.replace("CATEGORY_", "CATEGORY_NOT_"):
                    r.append(("all",))
                    continue
            if len(c) == 1 and isinstance(next(iter(c)), int):
                r.append(("char", next(iter(c))))
            elif len(c) == 2 and "neg" in c and isinstance(next(iter(c - {"neg"})), int):
                r.append(("notchar", next(iter(c - {"neg"}))))
            else:
                return None
        else:
            return None
    return r


def upto(d):
    """accepted forms of "everything up to the next d" """
    if len(d) == 1:
        c = ord(d)
        return [[("repeat", 0, "inf", (("notchar", c),))],
                [("repeat", 0, "inf", (("not", (("char", c),)), ("all",)))]]
    a, b = ord(d[0]), ord(d[1])
    other = (("notchar", a),)
    nota = ((("char", a), ("not", (("char", b),))), (("not", (("char", a), ("char", b))), ("char", a)))
    r = [[("repeat", 0, "inf", (("not", (("char", a), ("char", b))), ("all",)))]]
    for n in nota:
        for o in ((other, n), (n, other)):
            r.append([("repeat", 0, "inf", (("or", o),))])
    # a run of other characters at a time
    for n in nota:
        r.append([("repeat", 0, "inf", (("or", ((("repeat", 1, "inf", other),), n)),))])
    return r


def tried(p, d):
    """a text on which the pattern does not stop at the next d, if a short one does"""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            c = re.compile(p, re.MULTILINE)
    except re.error as e:
        return f"no pattern: {e}"
    al = list(dict.fromkeys([*d, "a", "\n", "9"]))
    for n in range(6):
        for t in itertools.product(al, repeat=n):
            t = "".join(t)
            for e in ("", d, d + "a\n"):
                s = t + e
                m = c.match(s)
                want = s.find(d) if d in s else len(s)
                if m is None or m.end() != want:
                    return f"{s!r}: stops at {None if m is None else m.end()}, the delimiter is at {want}"
    return None
