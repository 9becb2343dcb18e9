#!/usr/bin/env python3-vt
"""behaviour-preserving rewrites of acltk, to see which of them make the proofs raise an alarm

rewrites.py KIND DIR   writes a rewritten copy of /repo/lib/acltk to DIR (an absolute path under /tmp)
"""
import ast
import copy
import os
import shutil
import sys

SKIP = {"fwsm.py", "ios.py", "caf.py"}
N = [0]


def fresh(s="v"):
    N[0] += 1
    return f"rw_{s}{N[0]}"


def name(n, ctx=None):
    return ast.Name(n, ctx or ast.Load())


def assign(n, v):
    return ast.Assign([name(n, ast.Store())], v)


class Blocks(ast.NodeTransformer):
    """rewrites lists of statements"""

    def stmts(self, l, fn):
        return l

    def generic_visit(self, n):
        super().generic_visit(n)
        for f in ("body", "orelse", "finalbody"):
            l = getattr(n, f, None)
            if isinstance(l, list) and l and isinstance(l[0], ast.stmt) and not isinstance(n, (ast.Module, ast.ClassDef)):
                setattr(n, f, self.stmts(l, n))
        return n

    def visit_Lambda(self, n):
        return n


def doc(l):
    return 1 if l and isinstance(l[0], ast.Expr) and isinstance(l[0].value, ast.Constant) and isinstance(l[0].value.value, str) else 0


class Temps(Blocks):
    def stmts(self, l, n):
        out = []
        for s in l:
            if isinstance(s, ast.Return) and s.value is not None:
                v = fresh("r")
                out += [assign(v, s.value), ast.Return(name(v))]
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr in ("append", "add", "extend") and len(s.value.args) == 1 and not isinstance(s.value.args[0], ast.Starred):
                v = fresh("a")
                out += [assign(v, s.value.args[0])]
                s.value.args = [name(v)]
                out.append(s)
            else:
                out.append(s)
        return out


class Noop(Blocks):
    def stmts(self, l, n):
        d = doc(l)
        return l[:d] + [assign(fresh("u"), ast.Constant(0))] + l[d:]


class Swap(Blocks):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
        return n


class Else(Blocks):
    """if c: return ..; rest  ->  if c: return .. else: rest"""

    def stmts(self, l, n):
        for i, s in enumerate(l):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise, ast.Continue)) and l[i + 1 :]:
                s.orelse = self.stmts(l[i + 1 :], n)
                return l[: i + 1]
        return l


class Helper(ast.NodeTransformer):
    """the body of every method is moved to a method of its own"""

    def visit_ClassDef(self, c):
        out = []
        for s in c.body:
            if not isinstance(s, ast.FunctionDef) or s.decorator_list or s.args.vararg or s.args.kwarg or s.args.kwonlyargs or not s.args.args or s.args.args[0].arg != "self" or (s.name.startswith("__") and s.name != "__and__") or doc(s.body) == len(s.body):
                out.append(s)
                continue
            h = copy.deepcopy(s)
            h.name = "_rw" + s.name.rstrip("_") + "_" + c.name
            h.args.defaults = []
            s.body = [ast.Return(ast.Call(ast.Attribute(name("self"), h.name, ast.Load()), [name(a.arg) for a in s.args.args[1:]], []))]
            out += [s, h]
        c.body = out
        return c


def loop_of(comp, mk):
    """statements: for ...: if ...: mk"""
    body = [mk]
    for g in reversed(comp.generators):
        for c in reversed(g.ifs):
            body = [ast.If(c, body, [])]
        body = [ast.For(g.target, g.iter, body, [])]
    return body


def app(l, v, m="append"):
    return ast.Expr(ast.Call(ast.Attribute(name(l), m, ast.Load()), [v], []))


class CompLoop(Blocks):
    """list and generator comprehensions at the top of a statement become loops"""

    def stmts(self, l, n):
        out = []
        for s in l:
            v = getattr(s, "value", None) if isinstance(s, (ast.Return, ast.Assign)) else s.iter if isinstance(s, ast.For) else None
            inner = None
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("any", "all", "list", "set", "sorted", "frozenset") and len(v.args) == 1 and isinstance(v.args[0], (ast.ListComp, ast.GeneratorExp)):
                inner = v.args[0]
            if isinstance(v, (ast.ListComp, ast.SetComp)) or inner is not None:
                t = fresh("l")
                isset = isinstance(v, ast.SetComp)
                out.append(assign(t, ast.Call(name("set"), [], []) if isset else ast.List([], ast.Load())))
                c = v if inner is None else inner
                out += loop_of(c, app(t, c.elt, "add" if isset else "append"))
                r = name(t)
                if inner is not None:
                    v.args = [r]
                    r = v
                if isinstance(s, ast.For):
                    s.iter = r
                else:
                    s.value = r
            elif isinstance(v, ast.DictComp):
                t = fresh("d")
                out.append(assign(t, ast.Dict([], [])))
                out += loop_of(v, ast.Assign([ast.Subscript(name(t), v.key, ast.Store())], v.value))
                s.value = name(t)
            out.append(s)
        return out


class LoopComp(Blocks):
    """loops that only append become comprehensions"""

    def stmts(self, l, n):
        out = []
        for s in l:
            if isinstance(s, ast.For) and not s.orelse and len(s.body) == 1:
                b, ifs = s.body[0], []
                if isinstance(b, ast.If) and not b.orelse and len(b.body) == 1:
                    ifs, b = [b.test], b.body[0]
                if isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and isinstance(b.value.func, ast.Attribute) and len(b.value.args) == 1:
                    m = {"append": "extend", "add": "update"}.get(b.value.func.attr)
                    tgt = ast.unparse(b.value.func.value)
                    used = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
                    # only when the target is a list or a set made in the function, or known as such
                    if m and not used & {x.id for x in ast.walk(b.value.func) if isinstance(x, ast.Name)} and (m == "extend" or tgt in ("s", "done")):
                        out.append(ast.Expr(ast.Call(ast.Attribute(b.value.func.value, m, ast.Load()), [ast.ListComp(b.value.args[0], [ast.comprehension(s.target, s.iter, ifs, 0)])], [])))
                        continue
            out.append(s)
        return out


class Match(Blocks):
    """if x == "a": .. elif x == "b": ..  ->  match x"""

    def visit_If(self, n):
        arms, cur = [], n
        subj = None

        def one(t):
            if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Eq) and isinstance(t.comparators[0], ast.Constant) and isinstance(t.comparators[0].value, (str, int)):
                return ast.unparse(t.left), [t.comparators[0]], t.left
            if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.In) and isinstance(t.comparators[0], (ast.Tuple, ast.List)) and all(isinstance(x, ast.Constant) and isinstance(x.value, (str, int)) for x in t.comparators[0].elts) and t.comparators[0].elts:
                return ast.unparse(t.left), t.comparators[0].elts, t.left
            return None

        while True:
            o = one(cur.test)
            if o is None or (subj is not None and o[0] != subj[0]):
                break
            subj = o
            pats = [ast.MatchValue(x) for x in o[1]]
            arms.append(ast.match_case(pats[0] if len(pats) == 1 else ast.MatchOr(pats), None, cur.body))
            rest = cur.orelse
            if len(rest) == 1 and isinstance(rest[0], ast.If):
                cur = rest[0]
                continue
            break
        else:
            rest = []
        if len(arms) < 2:
            self.generic_visit(n)
            return n
        if rest:
            arms.append(ast.match_case(ast.MatchAs(), None, rest))
        m = ast.Match(subj[2], arms)
        for a in m.cases:
            a.body = [self.visit(x) for x in a.body]
        return m


class IsInst(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "isinstance" and isinstance(n.args[1], ast.Tuple) and isinstance(n.args[0], ast.Name):
            return ast.BoolOp(ast.Or(), [ast.Call(name("isinstance"), [copy.deepcopy(n.args[0]), c], []) for c in n.args[1].elts])
        return n


class Flip(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) != 1:
            return n
        a, op, b = n.left, n.ops[0], n.comparators[0]
        if isinstance(op, (ast.Eq, ast.NotEq)) and isinstance(b, ast.Constant):
            return ast.Compare(b, [op], [a])
        if isinstance(op, ast.In) and isinstance(b, (ast.Tuple, ast.List)) and isinstance(a, (ast.Name, ast.Attribute)) and all(isinstance(x, ast.Constant) for x in b.elts):
            return ast.BoolOp(ast.Or(), [ast.Compare(copy.deepcopy(a), [ast.Eq()], [x]) for x in b.elts])
        if isinstance(op, ast.NotEq):
            return ast.UnaryOp(ast.Not(), ast.Compare(a, [ast.Eq()], [b]))
        if isinstance(op, ast.IsNot):
            return ast.UnaryOp(ast.Not(), ast.Compare(a, [ast.Is()], [b]))
        if isinstance(op, ast.NotIn):
            return ast.UnaryOp(ast.Not(), ast.Compare(a, [ast.In()], [b]))
        return n

    def visit_JoinedStr(self, n):
        return n


class Enum(ast.NodeTransformer):
    def visit_For(self, n):
        self.generic_visit(n)
        n.target = ast.Tuple([name(fresh("i"), ast.Store()), n.target], ast.Store())
        n.iter = ast.Call(name("enumerate"), [n.iter], [])
        return n


class ListIt(ast.NodeTransformer):
    """for x in it -> items = list(it); for x in items (of a copy)"""

    def visit_For(self, n):
        self.generic_visit(n)
        t = fresh("items")
        n.iter = name(t) if False else ast.Call(name("list"), [n.iter], [])
        return n


class IfExp(Blocks):
    def visit_If(self, n):
        self.generic_visit(n)
        if len(n.body) == 1 and len(n.orelse) == 1:
            a, b = n.body[0], n.orelse[0]
            if isinstance(a, ast.Assign) and isinstance(b, ast.Assign) and ast.unparse(a.targets[0]) == ast.unparse(b.targets[0]) and len(a.targets) == 1:
                return ast.Assign(a.targets, ast.IfExp(n.test, a.value, b.value))
            if isinstance(a, ast.Return) and isinstance(b, ast.Return) and a.value and b.value:
                return ast.Return(ast.IfExp(n.test, a.value, b.value))
        return n


class UnIfExp(Blocks):
    def stmts(self, l, n):
        out = []
        for s in l:
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp):
                e = s.value
                a, b = copy.deepcopy(s), copy.deepcopy(s)
                a.value, b.value = e.body, e.orelse
                out.append(ast.If(e.test, [a], [b]))
            else:
                out.append(s)
        return out


class Format(ast.NodeTransformer):
    def visit_JoinedStr(self, n):
        fmt, args = "", []
        for x in n.values:
            if isinstance(x, ast.Constant):
                fmt += x.value.replace("{", "{{").replace("}", "}}")
            elif x.conversion == -1 and x.format_spec is None:
                fmt += "{}"
                args.append(x.value)
            else:
                return n
        return ast.Call(ast.Attribute(ast.Constant(fmt), "format", ast.Load()), args, [])


class Nest(Blocks):
    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and not n.orelse:
            body = n.body
            for v in reversed(n.test.values):
                body = [ast.If(v, body, [])]
            return body[0]
        return n


class DeMorgan(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp):
            op = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
            n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in n.test.values]))
        return n


class AnyLoop(Blocks):
    """return any(P for x in it) -> loop with early return"""

    def stmts(self, l, n):
        out = []
        for s in l:
            if isinstance(s, ast.Return) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id in ("any", "all") and isinstance(s.value.args[0], (ast.GeneratorExp, ast.ListComp)):
                c, isany = s.value.args[0], s.value.func.id == "any"
                t = c.elt if isany else ast.UnaryOp(ast.Not(), c.elt)
                out += loop_of(c, ast.If(t, [ast.Return(ast.Constant(isany))], []))
                out.append(ast.Return(ast.Constant(not isany)))
            else:
                out.append(s)
        return out


class LoopAny(Blocks):
    """for x in it: if P: return True; return False -> return any(..)"""

    def stmts(self, l, n):
        out, i = [], 0
        while i < len(l):
            s = l[i]
            if isinstance(s, ast.For) and len(s.body) == 1 and isinstance(s.body[0], ast.If) and not s.body[0].orelse and len(s.body[0].body) == 1 and isinstance(s.body[0].body[0], ast.Return) and isinstance(s.body[0].body[0].value, ast.Constant) and s.body[0].body[0].value.value is True and i + 1 < len(l) and isinstance(l[i + 1], ast.Return) and isinstance(l[i + 1].value, ast.Constant) and l[i + 1].value.value is False:
                out.append(ast.Return(ast.Call(name("any"), [ast.GeneratorExp(ast.Call(name("bool"), [s.body[0].test], []), [ast.comprehension(s.target, s.iter, [], 0)])], [])))
                i += 2
                continue
            out.append(s)
            i += 1
        return out


class ExtendLoop(Blocks):
    def stmts(self, l, n):
        out = []
        for s in l:
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr in ("extend", "update") and len(s.value.args) == 1 and ("set" in ast.unparse(s.value) or s.value.func.attr == "extend"):
                x = fresh("x")
                s2 = ast.Expr(ast.Call(ast.Attribute(s.value.func.value, {"extend": "append", "update": "add"}[s.value.func.attr], ast.Load()), [name(x)], []))
                out.append(ast.For(name(x, ast.Store()), ast.Call(name("list"), [s.value.args[0]], []), [s2], []))
            else:
                out.append(s)
        return out


class Rename(ast.NodeTransformer):
    """local variables get other names"""

    def visit_FunctionDef(self, f):
        params = {a.arg for a in ast.walk(f) if isinstance(a, ast.arg)}
        loc = {x.id for x in ast.walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {x.name for x in ast.walk(f) if isinstance(x, ast.ExceptHandler) and x.name}
        m = {}
        for i, x in enumerate(sorted(loc - params)):
            m[x] = f"rw_q{i}"
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and x.id in m:
                x.id = m[x.id]
            elif isinstance(x, ast.ExceptHandler) and x.name in m:
                x.name = m[x.name]
            elif isinstance(x, ast.MatchAs) and x.name in m:
                x.name = m[x.name]
        return f


class IndexLoop(ast.NodeTransformer):
    """for x in self.a.b -> for i in range(len(self.a.b)): x = self.a.b[i]"""

    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, (ast.Name, ast.Attribute)) and not any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == getattr(n.iter, "id", None) for b in n.body for x in ast.walk(b)):
            i = fresh("k")
            it = n.iter
            n.body = [ast.Assign([n.target], ast.Subscript(copy.deepcopy(it), name(i), ast.Load()))] + n.body
            n.target = name(i, ast.Store())
            n.iter = ast.Call(name("range"), [ast.Call(name("len"), [it], [])], [])
        return n


class WhileLoop(Blocks):
    """for x in X -> i = 0; while i < len(X): x = X[i]; i += 1; ..."""

    def stmts(self, l, n):
        out = []
        for s in l:
            if isinstance(s, ast.For) and isinstance(s.iter, (ast.Name, ast.Attribute)) and not any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == getattr(s.iter, "id", None) for b in s.body for x in ast.walk(b)):
                i = fresh("w")
                get = ast.Assign([s.target], ast.Subscript(copy.deepcopy(s.iter), name(i), ast.Load()))
                inc = ast.AugAssign(name(i, ast.Store()), ast.Add(), ast.Constant(1))
                out += [assign(i, ast.Constant(0)), ast.While(ast.Compare(name(i), [ast.Lt()], [ast.Call(name("len"), [s.iter], [])]), [get, inc] + s.body, s.orelse)]
            else:
                out.append(s)
        return out


class EnumLoop(ast.NodeTransformer):
    """for x in X -> for i, x in enumerate(X)"""

    def visit_For(self, n):
        self.generic_visit(n)
        n.target = ast.Tuple([name(fresh("n"), ast.Store()), n.target], ast.Store())
        n.iter = ast.Call(name("enumerate"), [n.iter], [])
        return n


class GetIn(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == "get" and len(n.args) in (1, 2) and isinstance(n.func.value, (ast.Name, ast.Attribute)) and isinstance(n.args[0], (ast.Constant, ast.Name, ast.Attribute)):
            d = n.func.value
            return ast.IfExp(ast.Compare(copy.deepcopy(n.args[0]), [ast.In()], [copy.deepcopy(d)]), ast.Subscript(d, n.args[0], ast.Load()), n.args[1] if len(n.args) == 2 else ast.Constant(None))
        return n


class Func(ast.NodeTransformer):
    """conditions are moved to nested functions"""

    def visit_FunctionDef(self, f):
        if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.NamedExpr)) for x in ast.walk(f)):
            return f
        self.pre = []
        self.generic_visit(f)
        return f

    def visit_If(self, n):
        self.generic_visit(n)
        return n


class Walrus(Blocks):
    def stmts(self, l, n):
        out, i = [], 0
        while i < len(l):
            s = l[i]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and i + 1 < len(l) and isinstance(l[i + 1], ast.If) and isinstance(l[i + 1].test, ast.Name) and l[i + 1].test.id == s.targets[0].id:
                l[i + 1].test = ast.NamedExpr(s.targets[0], s.value)
                i += 1
                continue
            out.append(s)
            i += 1
        return out


class Concat(Blocks):
    """x.append(e) -> x += [e]   (lists only: the same object is extended)"""

    def stmts(self, l, n):
        for i, s in enumerate(l):
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and s.value.func.attr == "append" and isinstance(s.value.func.value, (ast.Name, ast.Attribute)):
                t = s.value.func.value
                t.ctx = ast.Store()
                l[i] = ast.AugAssign(t, ast.Add(), ast.List([s.value.args[0]], ast.Load()))
        return l


KINDS = {k.lower(): v for k, v in list(globals().items()) if isinstance(v, type) and issubclass(v, ast.NodeTransformer) and k not in ("Blocks", "Func")}

if __name__ == "__main__":
    kind, dst = sys.argv[1], sys.argv[2]
    if not dst.startswith("/tmp/"):
        sys.exit("a directory under /tmp")
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree("/repo/lib/acltk", dst)
    for f in sorted(os.listdir(dst)):
        if f.endswith(".py") and f not in SKIP:
            p = os.path.join(dst, f)
            t = ast.parse(open(p).read())
            t = ast.fix_missing_locations(KINDS[kind]().visit(t))
            open(p, "w").write(ast.unparse(t) + "\n")
