"""Parsers against their grammars: the same text by the generated parser and by TatSu working on the grammar file itself."""
import os
import re
from concurrent.futures import ThreadPoolExecutor

from .common import REPO, limit, silent

from tatsu import grammars as G
from tatsu.exceptions import FailedParse
from tatsu.infos import ParserConfig
from tatsu.parsing import tatsumasu
from tatsu.tool import compile as tatsu_compile

LIB = os.path.join(REPO, "acltk")
NAMES = ["net", "net-1", "netX", "A", "AB", "a b", "any9", "host"]
TABLES = {
    "acl_interface_id": "interfaces", "acl_object_group_network_id": "network_groups", "acl_object_network_id": "network_objects",
    "acl_object_group_service_id": "service_groups", "acl_object_group_port_id": "port_groups", "acl_object_service_id": "service_objects",
    "acl_object_group_icmp_id": "icmp_groups", "acl_object_group_protocol_id": "protocol_groups", "acl_names_id": "names",
    "acl_time_range_id": "time_ranges",
}


def tables(i):
    """names of every kind: different ones, overlapping"""
    return {r: [f"{n}" for k, n in enumerate(NAMES) if (k + i + j) % 3] for j, r in enumerate(sorted(TABLES))}


class Side:
    """one grammar: the parser of the repository and the grammar as TatSu reads it"""

    def __init__(self, g):
        self.g = g
        self.model = tatsu_compile(open(os.path.join(LIB, f"{g}.bnf")).read(), name=g, filename=os.path.join(LIB, f"{g}.bnf"))
        self.rules = {r.name: r for r in self.model.rules}
        self.names = tables(len(g))
        if g == "caf":
            from acltk.caf import cafParser as P

            self.conf = dict(nameguard=True)
        else:
            if g == "fwsm":
                from acltk.fwsmSemantics import fwsmParser as P
            else:
                from acltk.iosSemantics import iosParser as P
            self.conf = dict(whitespace="", nameguard=True)
            for r, l in self.names.items():
                if r in self.rules:
                    # longest first: a name is never cut short
                    self.rules[r].exp = G.Choice([G.Option(G.Token(n)) for n in sorted(l, key=lambda n: (-len(n), n))])
            if g == "ios":
                self.rules["delim_msg"].exp = G.Pattern(r"(?:(?!\^C)[\s\S])*")
                self.rules["delim_stop"].exp = G.Token("^C")

                class P(P):
                    # where a banner ends is the subject of C29
                    @tatsumasu()
                    def _delim_msg_(self):
                        self._pattern(r"(?:(?!\^C)[\s\S])*")

                    @tatsumasu()
                    def _delim_stop_(self):
                        self._token("^C")
        self.P = P
        self.gen = {n: Gen(self, n) for n in self.rules}

    def code(self, text, start):
        p = self.P(config=ParserConfig(rule_name=start, **self.conf))
        if self.g != "caf":
            for r, l in self.names.items():
                setattr(p, TABLES[r], {n: None for n in l})
        return parse(p, text, start, self.conf)

    def grammar(self, text, start):
        c = ParserConfig(rule_name=start, **self.conf)
        return parse(G.ModelContext(self.model.rules, start=start, config=c), text, start, self.conf)


def parse(p, text, start, conf):
    try:
        with silent():
            r = p.parse(text, config=ParserConfig(rule_name=start, start=start, **conf))
    except FailedParse:
        return ("refused",)
    return ("accepted", p._tokenizer.pos, plain(r))


def plain(x):
    if isinstance(x, dict):
        # absent and None are not told apart here (the proof does)
        d = {k: plain(v) for k, v in sorted(x.items()) if k != "parseinfo"}
        return {k: v for k, v in d.items() if v is not None}
    if isinstance(x, (list, tuple)):
        # unnamed elements: TatSu nests them differently when it works on the grammar and when it generates code
        l = []
        for v in map(plain, x):
            l += v if isinstance(v, list) else [v]
        l = [v for v in l if v is not None]
        return (l[0] if len(l) == 1 else l) if l else None
    # an optional element that is absent: None, or the white space that was tried in front of it
    return None if isinstance(x, str) and not x.strip() else x


def sample_re(r, p):
    """a string the pattern may match (the parsers decide)"""
    from re import _parser as sp

    def one(x):
        op, a = str(x[0]), x[1]
        if op == "LITERAL":
            return chr(a)
        if op == "NOT_LITERAL":
            return r.choice([c for c in "aZ9 -/:." if c != chr(a)])
        if op == "ANY":
            return r.choice("aZ9-#^")
        if op == "IN":
            return cls(a)
        if op in ("MAX_REPEAT", "MIN_REPEAT", "POSSESSIVE_REPEAT"):
            lo, hi, e = a
            n = r.randint(int(lo), min(int(hi), int(lo) + r.choice([0, 1, 1, 2, 4])))
            return "".join(sub(e) for _ in range(n))
        if op == "SUBPATTERN":
            return sub(a[-1])
        if op == "BRANCH":
            return sub(r.choice(a[1]))
        if op == "CATEGORY":
            return {"CATEGORY_DIGIT": "7", "CATEGORY_WORD": "w", "CATEGORY_SPACE": " "}.get(str(a), "-")
        return ""

    def cls(l):
        neg, good = False, []
        for x in l:
            op, a = str(x[0]), x[1]
            if op == "NEGATE":
                neg = True
            elif op == "LITERAL":
                good.append(chr(a))
            elif op == "RANGE":
                good += [chr(a[0]), chr(a[1]), chr((a[0] + a[1]) // 2)]
            elif op == "CATEGORY":
                good += {"CATEGORY_DIGIT": "059", "CATEGORY_WORD": "aZ_9", "CATEGORY_SPACE": " \t", "CATEGORY_NOT_SPACE": "aZ9-/", "CATEGORY_NOT_DIGIT": "a-"}.get(str(a), "-")
        if neg:
            full = re.compile("[" + "".join(re.escape(c) for c in good) + "]") if good else None
            good = [c for c in "abcXYZ019-_./:#^*" if not full or not full.match(c)] or ["a"]
        return r.choice(good)

    def sub(e):
        return "".join(one(x) for x in e)

    return sub(sp.parse(p))


class Gen:
    """random sentences of a rule, derived from the grammar (look-ahead is ignored)"""

    def __init__(self, side, name):
        self.side, self.name = side, name

    def make(self, r, budget=60):
        self.r, self.left = r, budget
        sep = " " if self.side.g == "caf" else ""
        self.out = []
        try:
            self.exp(self.side.rules[self.name].exp, 0)
        except RecursionError:
            pass
        return sep.join(self.out)

    def exp(self, e, d):
        r = self.r
        self.left -= 1
        t = type(e)
        if t is G.Token:
            self.out.append(e.token)
        elif t is G.Pattern:
            self.out.append(sample_re(r, e.pattern))
        elif t is G.RuleRef:
            if d > 40:
                return
            self.exp(self.side.rules[e.name].exp, d + 1)
        elif t is G.Sequence:
            for x in e.sequence:
                self.exp(x, d)
        elif t is G.Choice:
            o = e.options
            if self.left < 0 and len(o) > 1:
                o = sorted(o, key=lambda x: len(str(x)))[:2]
            self.exp(r.choice(o), d)
        elif t is G.Optional:
            if r.random() < (0.6 if self.left > 0 else 0.1):
                self.exp(e.exp, d)
        elif t in (G.Closure, G.PositiveClosure, G.Gather, G.PositiveGather, G.Join, G.PositiveJoin):
            n = (0 if t in (G.Closure, G.Gather, G.Join) else 1) + (r.choice([0, 0, 1, 1, 2, 3]) if self.left > 0 else 0)
            for i in range(n):
                if i and hasattr(e, "sep"):
                    self.exp(e.sep, d)
                self.exp(e.exp, d)
        elif t in (G.Lookahead, G.NegativeLookahead):
            return
        elif hasattr(e, "exp") and isinstance(e.exp, G.Model):
            self.exp(e.exp, d)


def mutate(r, s):
    if not s:
        return r.choice([" ", "a", "1", "\n"])
    i = r.randrange(len(s))
    k = r.randrange(6)
    if k == 0:
        return s[:i] + s[i + 1 :]
    if k == 1:
        return s[:i] + r.choice(" a1-./:\n#^") + s[i:]
    if k == 2:
        return s[:i] + s[i].swapcase() + s[i + 1 :]
    w = re.split(r"(\s+)", s)
    j = r.randrange(len(w))
    if k == 3:
        del w[j]
    elif k == 4:
        w.insert(j, w[r.randrange(len(w))])
    else:
        return s[: i + 1]
    return "".join(w)


def judge(ctx, side, start, text):
    ctx.case((side.g, start, text), trivial=not text)
    with limit(30):
        a = side.grammar(text, start)
        b = side.code(text, start)
    ctx.eq(f"{side.g}Parser and {side.g}.bnf agree", a, b)
    return a


def run_for(ctx, sides, share, every, only):
    r = ctx.rng
    order = [(s, n) for s in sides for n in s.rules if not only or (s.g, n) in only]
    r.shuffle(order)
    i = 0
    if not order:
        return
    while ctx.left(share) or i < every * len(order):
        if i >= every * len(order) and not ctx.left(share) or not ctx.left(1.5):
            break
        s, n = order[i % len(order)]
        i += 1
        # bigger rules more often
        t = s.gen[n].make(r, r.choice([10, 40, 120]))
        if len(t) > 1500:
            continue
        a = judge(ctx, s, n, t)
        for _ in range(2):
            judge(ctx, s, n, mutate(r, t))


def run(ctx):
    ctx.part("every rule of every grammar", "random derivations of every rule (at most 120 expansions), each also twice with one random edit; the parser and TatSu on the grammar file: accepted or refused, how far, and the parse tree")
    only = {tuple(x.split(":")) for x in os.environ.get("VERIF_RULES", "").split(",") if ":" in x}
    with silent():
        sides = [Side(g) for g in ("caf", "fwsm", "ios") if not only or any(g == x for x, _ in only)]
    run_for(ctx, sides, 0.95, 1, only)
