"""bnf.py <file.bnf> <name>: the published grammar as JSON (runs under /opt/venv: TatSu's own grammar reader)

one expression per rule, in the order of the file; the forms are those of pyded/peg/code.py
"""
import json
import sys

from tatsu import grammars as G
from tatsu.tool import compile as tatsu_compile
from tatsu.util import safe_name


def defines(node):
    names, lists = set(), set()
    for n, v in node.defines():
        n = safe_name(n) if n not in ("@", "@+") else n
        names.add(n)
        # a name stated twice in one sequence is a list as well
        if v:
            lists.add(n)
    return names, lists


def walk(n):
    t = type(n)
    if t is G.Sequence:
        from tatsu.ngcodegen.python import compress_seq

        d = compress_seq(n.defines())
        r = ["seq", *map(walk, n.sequence)]
        ld = {safe_name(a) for a, v in d if v}
        sd = {safe_name(a) for a, v in d if not v} - ld
        if ld or sd:
            r.append(["define", sorted(sd), sorted(ld)])
        return r
    if t is G.Choice:
        if len(n.options) == 1:
            return walk(n.options[0])
        return ["choice", *map(walk, n.options)]
    one = {
        G.Option: "seq", G.Group: "group", G.Optional: "opt", G.Closure: "star", G.PositiveClosure: "plus",
        G.Lookahead: "and", G.NegativeLookahead: "not",
    }
    if t in one:
        return [one[t], walk(n.exp)]
    two = {G.Join: "join", G.PositiveJoin: "join+", G.Gather: "gather", G.PositiveGather: "gather+"}
    if t in two:
        return [two[t], walk(n.exp), walk(n.sep)]
    if t in (G.Named, G.Override):
        return ["seq", walk(n.exp), ["name", n.name]]
    if t in (G.NamedList, G.OverrideList):
        return ["seq", walk(n.exp), ["add", n.name]]
    if t is G.Token:
        return ["tok", n.token]
    if t is G.Pattern:
        return ["pat", n.pattern]
    if t is G.Constant:
        return ["const", repr(n.literal)]
    if t is G.RuleRef:
        return ["rule", n.name]
    if t is G.RuleInclude:
        return walk(n.rule.exp)
    leaf = {G.Void: "void", G.Cut: "cut", G.EOF: "eof", G.Any: "any", G.Fail: "fail", G.EmptyClosure: "empty"}
    if t in leaf:
        return [leaf[t]]
    raise ValueError(f"grammar form {t.__name__}")


def main(fn, name):
    m = tatsu_compile(open(fn).read(), name=name, filename=fn)
    c = m.config
    ws = c.whitespace
    rules = []
    for r in m.rules:
        exp = r.rhs if isinstance(r, G.BasedRule) else r.exp
        rules.append({
            "name": r.name, "exp": walk(exp), "leftrec": bool(r.is_leftrec), "name_rule": bool(r.is_name),
            "memo": bool(r.is_memoizable or r.is_leftrec), "params": [str(p) for p in (r.params or [])],
        })
    return {
        "rules": rules,
        "keywords": sorted(str(k) for k in m.keywords if k is not None),
        "config": {
            "whitespace": ws if isinstance(ws, str) and type(ws) is str else None, "nameguard": c.nameguard,
            "ignorecase": c.ignorecase, "namechars": c.namechars, "parseinfo": c.parseinfo,
            "comments_re": c.comments_re, "eol_comments_re": c.eol_comments_re, "start": c.start or m.rules[0].name,
        },
    }


if __name__ == "__main__":
    json.dump(main(sys.argv[1], sys.argv[2]), sys.stdout)
