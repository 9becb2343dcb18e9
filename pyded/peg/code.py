"""The effect of a parser method, read from its AST, as an expression over the primitives of the TatSu runtime.

Every method body is executed symbolically: the primitives (`self._token`, `self._pattern`, `with self._option()` …) are
the alphabet, a call of another rule is taken by its contract (its name), an undecorated helper is executed in place,
constants are evaluated, loops over constants are unrolled.  Anything else is outside the subset (`Outside`).

Expressions (lists, also produced from the .bnf file by bnf.py):
  seq e.. | choice e.. (ordered, fails when no option does) | group e | opt e | star e | plus e | gather(+) e sep | join(+)
  | and e | not e | tok s | pat s | const r | rule n | name n | add n | define single list | void cut eof any fail empty
  | names t order (one token per known name of table t, in that order) | case cond e e
"""
import ast
import re

WITH = {"_group": "group", "_optional": "opt", "_if": "and", "_ifnot": "not"}
REP = {"_closure": "star", "_positive_closure": "plus"}
REP2 = {"_gather": "gather", "_positive_gather": "gather+", "_join": "join", "_positive_join": "join+"}
LEAF = {"_void": "void", "_cut": "cut", "_check_eof": "eof", "_any": "any", "_fail": "fail", "_empty_closure": "empty"}


class Outside(Exception):
    pass


class Opaque:
    def __init__(self, what):
        self.what = what


class Table:
    """self.<attr>: a table of known names"""

    def __init__(self, attr):
        self.attr = attr


class Names:
    def __init__(self, attr, order):
        self.attr, self.order = attr, order


class OneName:
    def __init__(self, names):
        self.names = names


class Fn:
    def __init__(self, node, env):
        self.node, self.env = node, env


class SelfV:
    pass


class Done(Exception):
    """return: the rest of the body is not executed"""


class Module:
    def __init__(self, path):
        self.path = path
        self.tree = ast.parse(open(path, encoding="utf-8").read())
        self.classes = {n.name: n for n in self.tree.body if isinstance(n, ast.ClassDef)}
        self.consts = {}
        for n in self.tree.body:
            if isinstance(n, ast.FunctionDef):
                self.consts[n.name] = n
            if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                    if isinstance(t, ast.Name):
                        self.consts[t.id] = n.value


def decorators(fn):
    r = []
    for d in fn.decorator_list:
        c = d.func if isinstance(d, ast.Call) else d
        r.append((c.id if isinstance(c, ast.Name) else ast.unparse(c), d.args if isinstance(d, ast.Call) else [], d.keywords if isinstance(d, ast.Call) else []))
    return r


def methods(cls):
    """name -> FunctionDef of the class body (the last definition holds)"""
    r = {}
    for n in cls.body:
        if isinstance(n, ast.FunctionDef):
            r[n.name] = n
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    r[t.id] = n
                else:
                    raise Outside(f"class body of {cls.name}: {ast.unparse(n)[:60]}")
        elif isinstance(n, ast.AnnAssign):
            r[n.target.id] = n
        elif isinstance(n, ast.Pass) or (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
            pass
        elif isinstance(n, (ast.ClassDef, ast.AsyncFunctionDef)):
            r[n.name] = n
        else:
            raise Outside(f"class body of {cls.name}: {ast.unparse(n)[:60]}")
    return r


class Reader:
    def __init__(self, lookup, own, consts, attrs=None):
        """lookup(name) -> FunctionDef or None (method resolution); own: class of the method (name mangling)"""
        self.lookup, self.own, self.consts = lookup, own, consts
        self.attrs = attrs or {}  # known values of self.<attr>
        self.depth = 0

    def mangle(self, n):
        if n.startswith("__") and not n.endswith("__"):
            return f"_{self.own.lstrip('_')}{n}"
        return n

    # -- expressions
    def ev(self, e, env):
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            if e.id in self.consts:
                return self.ev(self.consts[e.id], {})
            return Opaque(e.id)
        if isinstance(e, ast.Attribute):
            v = self.ev(e.value, env)
            if isinstance(v, SelfV):
                if e.attr in self.attrs:
                    return self.attrs[e.attr]
                d = self.lookup(self.mangle(e.attr))
                if isinstance(d, (ast.Assign, ast.AnnAssign)) and d.value is not None:
                    return self.ev(d.value, {})
                if isinstance(d, ast.FunctionDef) and [x[0] for x in decorators(d)] in (["property"], ["cached_property"]):
                    return self.value(d, {d.args.args[0].arg: SelfV()})
                return Table(self.mangle(e.attr))
            return Opaque(ast.unparse(e))
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            l = []
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    y = self.ev(x.value, env)
                    if not isinstance(y, (list, tuple)):
                        raise Outside(ast.unparse(e)[:80])
                    l += y
                else:
                    l.append(self.ev(x, env))
            return l if isinstance(e, ast.List) else tuple(l)
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left, env), self.ev(e.right, env)
            if isinstance(e.op, ast.Add) and type(a) is type(b) and isinstance(a, (str, int, list, tuple)):
                return a + b
            if isinstance(e.op, ast.Mod) and isinstance(a, str):
                if isinstance(b, (str, int)) or (isinstance(b, tuple) and all(isinstance(x, (str, int)) for x in b)):
                    return a % b
            return Opaque(ast.unparse(e))
        if isinstance(e, ast.JoinedStr):
            r = ""
            for p in e.values:
                if isinstance(p, ast.Constant):
                    r += p.value
                    continue
                v = self.ev(p.value, env)
                f = "" if p.format_spec is None else self.ev(p.format_spec, env)
                if not isinstance(v, (str, int)) or not isinstance(f, str):
                    return Opaque(ast.unparse(e))
                v = {-1: lambda x: x, 115: str, 114: repr, 97: ascii}[p.conversion](v)
                r += format(v, f)
            return r
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)) and len(e.generators) == 1:
            g = e.generators[0]
            if isinstance(g.target, ast.Name) and isinstance(e.elt, ast.Name) and e.elt.id == g.target.id and not g.ifs:
                return self.names(self.ev(g.iter, env), e)
            return Opaque(ast.unparse(e))
        if isinstance(e, ast.Call):
            return self.callv(e, env)
        if isinstance(e, ast.Subscript):
            v = self.ev(e.value, env)
            if isinstance(e.slice, ast.Slice) and e.slice.lower is None and e.slice.upper is None and e.slice.step is not None:
                if isinstance(v, Names) and self.ev(e.slice.step, env) == -1 and v.order in ("asc", "desc"):
                    return Names(v.attr, {"asc": "desc", "desc": "asc"}[v.order])
            return Opaque(ast.unparse(e))
        if isinstance(e, (ast.Compare, ast.BoolOp)) or (isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not)):
            try:
                c = self.cond(e, env)
            except Outside:
                c = None
            if isinstance(c, bool):
                return c
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant):
            return -e.operand.value
        if isinstance(e, ast.IfExp):
            c = self.cond(e.test, env)
            if isinstance(c, bool):
                return self.ev(e.body if c else e.orelse, env)
        return Opaque(ast.unparse(e))

    def names(self, v, e):
        if isinstance(v, Table):
            return Names(v.attr, "any")
        if isinstance(v, (Names, list, tuple)):
            return v
        return Opaque(ast.unparse(e))

    def value(self, fn, env):
        """the value a helper without effects returns"""
        self.depth += 1
        if self.depth > 60:
            raise Outside("recursive helper")
        r = self.vbody(fn.body, env)
        self.depth -= 1
        return r[0] if r else None

    def vbody(self, stmts, env):
        for s in stmts:
            if isinstance(s, ast.Return):
                return [None if s.value is None else self.ev(s.value, env)]
            if isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom)) or (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                continue
            if isinstance(s, (ast.Assign, ast.AnnAssign)):
                t = s.targets if isinstance(s, ast.Assign) else [s.target]
                if s.value is not None and len(t) == 1 and isinstance(t[0], ast.Name):
                    env[t[0].id] = self.ev(s.value, env)
                    continue
            if isinstance(s, ast.If):
                c = self.cond(s.test, env)
                if isinstance(c, bool):
                    r = self.vbody(s.body if c else s.orelse, env)
                    if r:
                        return r
                    continue
            if isinstance(s, ast.Match):
                r = self.vbody(self.matched(s, env), env)
                if r:
                    return r
                continue
            raise Outside(ast.unparse(s)[:80])
        return None

    def matched(self, s, env):
        """the body of the case a known value selects"""
        v = self.ev(s.subject, env)
        if not isinstance(v, (str, int, bool, type(None))):
            raise Outside(f"match {ast.unparse(s.subject)[:60]}")

        def fits(p):
            if isinstance(p, ast.MatchValue):
                return v == self.ev(p.value, env)
            if isinstance(p, ast.MatchSingleton):
                return v is p.value
            if isinstance(p, ast.MatchOr):
                return any(fits(q) for q in p.patterns)
            if isinstance(p, ast.MatchAs):
                if p.pattern is not None and not fits(p.pattern):
                    return False
                if p.name:
                    env[p.name] = v
                return True
            raise Outside(f"case {ast.unparse(p)[:60]}")

        for c in s.cases:
            if fits(c.pattern):
                g = True if c.guard is None else self.cond(c.guard, env)
                if not isinstance(g, bool):
                    raise Outside(ast.unparse(c.guard)[:60])
                if g:
                    return c.body
        return []

    def helper(self, e, env):
        """definition and bound arguments of a call of a helper that is no rule, or None"""
        f = e.func
        static = False
        if isinstance(f, ast.Name) and f.id not in env:
            fn, first = self.consts.get(f.id), []
        elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and isinstance(env.get(f.value.id), SelfV):
            fn, first = self.lookup(self.mangle(f.attr)), [SelfV()]
            static = isinstance(fn, ast.FunctionDef) and [d[0] for d in decorators(fn)] == ["staticmethod"]
        else:
            return None
        if not isinstance(fn, ast.FunctionDef) or (fn.decorator_list and not static):
            return None
        return fn, self.bound(fn, [] if static else first, e, env)

    def bound(self, fn, first, e, env):
        p = fn.args
        if p.vararg or p.kwarg or p.posonlyargs or p.kwonlyargs:
            raise Outside(f"parameters of {fn.name}")
        ps = [x.arg for x in p.args]
        n = dict(zip(ps, first))
        for x, d in zip(reversed(ps), reversed(p.defaults)):
            n[x] = self.ev(d, {})
        for x, v in zip(ps[len(first):], e.args):
            n[x] = self.argv(v, env)
        for k in e.keywords:
            n[k.arg] = self.argv(k.value, env)
        if set(n) != set(ps):
            raise Outside(f"arguments of {fn.name}")
        return n

    def callv(self, e, env):
        f = e.func
        h = self.helper(e, env)
        if h:
            return self.value(*h)
        if isinstance(f, ast.Name) and f.id not in env:
            a = [self.ev(x, env) for x in e.args]
            k = {x.arg: x.value for x in e.keywords}
            if f.id in ("list", "tuple", "iter") and len(a) == 1 and not k:
                return self.names(a[0], e)
            if f.id == "reversed" and len(a) == 1 and isinstance(a[0], Names) and a[0].order in ("asc", "desc"):
                return Names(a[0].attr, {"asc": "desc", "desc": "asc"}[a[0].order])
            if f.id == "sorted" and len(a) == 1:
                n = self.names(a[0], e)
                rev = self.ev(k["reverse"], env) if "reverse" in k else False
                if isinstance(n, Names) and isinstance(rev, bool):
                    if "key" not in k:
                        return Names(n.attr, "desc" if rev else "asc")
                    key = k["key"]
                    if isinstance(key, ast.Name) and key.id == "len":
                        return Names(n.attr, "longest" if rev else "shortest")
                    if isinstance(key, ast.Lambda):
                        t = ast.unparse(key.body).replace(" ", "")
                        x = key.args.args[0].arg
                        if t in (f"-len({x})", f"(-len({x}),{x})") and not rev:
                            return Names(n.attr, "longest")
                        if t in (f"len({x})", f"(len({x}),{x})") and rev:
                            return Names(n.attr, "longest")
            if f.id == "len" and len(a) == 1:
                if isinstance(a[0], (str, list, tuple)):
                    return len(a[0])
            if f.id in ("str", "repr", "ord", "chr", "hex", "int") and len(a) == 1 and isinstance(a[0], (str, int)):
                return {"str": str, "repr": repr, "ord": ord, "chr": chr, "hex": hex, "int": int}[f.id](a[0])
            return Opaque(ast.unparse(e))
        if isinstance(f, ast.Attribute):
            if ast.unparse(f) in ("re.escape", "int.from_bytes"):
                a = [self.ev(x, env) for x in e.args]
                k = {x.arg: self.ev(x.value, env) for x in e.keywords}
                if all(isinstance(x, (str, bytes)) for x in [*a, *k.values()]):
                    return re.escape(*a) if f.attr == "escape" else int.from_bytes(*a, **k)
                return Opaque(ast.unparse(e))
            v = self.ev(f.value, env)
            if isinstance(v, Table) and f.attr == "keys":
                return Names(v.attr, "any")
            if isinstance(v, str) and f.attr in ("format", "encode", "join", "upper", "lower", "strip", "replace", "startswith", "endswith", "isalnum", "isalpha", "isascii"):
                a = [self.ev(x, env) for x in e.args]
                k = {x.arg: self.ev(x.value, env) for x in e.keywords}
                if all(isinstance(x, (str, int)) or (isinstance(x, (list, tuple)) and all(isinstance(y, str) for y in x)) for x in [*a, *k.values()]):
                    return getattr(v, f.attr)(*a, **k)
        return Opaque(ast.unparse(e))

    def cond(self, e, env):
        """True / False / ("empty", table, negated) / Outside"""
        if isinstance(e, ast.BoolOp):
            for x in e.values:
                c = self.cond(x, env)
                if not isinstance(c, bool):
                    raise Outside(f"condition {ast.unparse(e)[:80]}")
                if c is isinstance(e.op, ast.Or):
                    return c
            return c
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            c = self.cond(e.operand, env)
            return (not c) if isinstance(c, bool) else (c[0], c[1], not c[2])
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            l, r = e.left, e.comparators[0]
            if isinstance(l, ast.Call) and isinstance(l.func, ast.Name) and l.func.id == "len" and len(l.args) == 1:
                t = self.ev(l.args[0], env)
                n = self.ev(r, env)
                if isinstance(t, (Table, Names)):
                    op = type(e.ops[0])
                    if (op, n) in ((ast.Eq, 0), (ast.Lt, 1), (ast.LtE, 0)):
                        return ("empty", t.attr, False)
                    if (op, n) in ((ast.NotEq, 0), (ast.Gt, 0), (ast.GtE, 1)):
                        return ("empty", t.attr, True)
            a, b = self.ev(l, env), self.ev(r, env)
            if all(isinstance(x, (str, int, bool, type(None))) or (isinstance(x, (tuple, list)) and all(isinstance(y, (str, int)) for y in x)) for x in (a, b)):
                f = {ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b, ast.Is: lambda: a is b, ast.IsNot: lambda: a is not b,
                     ast.In: lambda: a in b, ast.NotIn: lambda: a not in b, ast.Lt: lambda: a < b, ast.Gt: lambda: a > b,
                     ast.LtE: lambda: a <= b, ast.GtE: lambda: a >= b}[type(e.ops[0])]
                return f()
        if isinstance(e, (ast.Compare, ast.BoolOp)):
            raise Outside(f"condition {ast.unparse(e)[:80]}")
        v = self.ev(e, env)
        if isinstance(v, (Table, Names)):
            return ("empty", v.attr, True)
        if isinstance(v, (str, int, list, tuple, type(None))):
            return bool(v)
        raise Outside(f"condition {ast.unparse(e)[:80]}")

    # -- statements
    def body(self, stmts, env, out, fnbody=False):
        try:
            for i, s in enumerate(stmts):
                if self.stmt(s, env, out, stmts[i + 1 :]) == "rest":
                    return
        except Done:
            if not fnbody:
                raise

    def block(self, stmts, env):
        """the statements of a with block"""
        out = ["seq"]
        try:
            self.body(stmts, env, out)
        except Done:
            raise Outside("return inside a block")
        return out

    def run(self, fn, env):
        out = ["seq"]
        self.body(fn.body, env, out, fnbody=True)
        return out

    def stmt(self, s, env, out, rest):
        if isinstance(s, (ast.Pass, ast.Global, ast.Nonlocal)):
            return
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return
        if isinstance(s, ast.Assert):
            if self.cond(s.test, env) is not True:
                raise Outside(ast.unparse(s)[:80])
            return
        if isinstance(s, ast.Return):
            if s.value is not None and not isinstance(s.value, ast.Constant):
                self.effect(s.value, env, out)
            raise Done()
        if isinstance(s, ast.FunctionDef):
            if s.decorator_list:
                raise Outside("decorated inner function")
            env[s.name] = Fn(s, env)
            return
        if isinstance(s, ast.Expr):
            self.effect(s.value, env, out)
            return
        if isinstance(s, ast.Match):
            self.body(self.matched(s, env), env, out)
            return
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            t = s.targets if isinstance(s, ast.Assign) else [s.target]
            if s.value is None:
                return
            if isinstance(s.value, ast.IfExp):
                c = self.cond(s.value.test, env)
                if isinstance(c, bool):
                    v = s.value.body if c else s.value.orelse
                    return self.stmt(ast.Assign(targets=t, value=v), env, out, rest)
            if len(t) != 1 or not isinstance(t[0], ast.Name):
                raise Outside(ast.unparse(s)[:80])
            if isinstance(s.value, ast.Lambda):
                f = ast.FunctionDef(name="<lambda>", args=s.value.args, body=[ast.Expr(s.value.body)], decorator_list=[])
                env[t[0].id] = Fn(f, env)
                return
            if isinstance(s.value, ast.Attribute) and isinstance(s.value.value, ast.Name) and isinstance(env.get(s.value.value.id), SelfV):
                # a bound method under another name
                m = self.lookup(self.mangle(s.value.attr))
                if m is not None or s.value.attr in PRIMS:
                    env[t[0].id] = ("bound", s.value.attr)
                    return
            if self.is_self_call(s.value, env):
                h = self.helper(s.value, env)
                if h:
                    d = self.depth
                    try:
                        env[t[0].id] = self.value(*h)
                        return
                    except Outside:
                        self.depth = d
                self.effect(s.value, env, out)
                env[t[0].id] = Opaque(t[0].id)
            else:
                env[t[0].id] = self.ev(s.value, env)
            return
        if isinstance(s, ast.With):
            self.with_(s, env, out)
            return
        if isinstance(s, ast.If):
            c = self.cond(s.test, env)
            if isinstance(c, bool):
                self.body(s.body if c else s.orelse, env, out)
                return
            # both cases, each with what follows
            r = []
            for b in (s.body, s.orelse):
                o = ["seq"]
                try:
                    self.body([*b, *rest], dict(env), o, fnbody=False)
                except Done:
                    pass
                r.append(o)
            if c[2]:
                r.reverse()
            out.append(["case", ["empty", c[1]], r[0], r[1]])
            return "rest"
        if isinstance(s, ast.For):
            if s.orelse or not isinstance(s.target, (ast.Name, ast.Tuple)):
                raise Outside(ast.unparse(s)[:80])
            it = self.names(self.ev(s.iter, env), s)
            if isinstance(it, (list, tuple)):
                for v in it:
                    self.bind(s.target, v, env)
                    self.body(s.body, env, out)
                return
            if isinstance(it, Names) and isinstance(s.target, ast.Name):
                env[s.target.id] = OneName(it)
                o = ["seq"]
                self.body(s.body, env, o)
                o = norm(o)
                if o == ["option", ["tokname"]]:
                    out.append(["nameoptions", it.attr, it.order])
                    return
                raise Outside(f"loop over the names: {o}")
        raise Outside(ast.unparse(s)[:80])

    def bind(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        else:
            if not isinstance(v, (tuple, list)) or len(v) != len(t.elts):
                raise Outside("loop target")
            for a, b in zip(t.elts, v):
                self.bind(a, b, env)

    def is_self_call(self, e, env):
        return isinstance(e, ast.Call) and (
            (isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and isinstance(env.get(e.func.value.id), SelfV))
            or (isinstance(e.func, ast.Name) and (isinstance(env.get(e.func.id), Fn) or (isinstance(env.get(e.func.id), tuple) and env[e.func.id][:1] == ("bound",))))
        )

    def with_(self, s, env, out):
        it = s.items[0]
        inner = s.body if len(s.items) == 1 else [ast.With(items=s.items[1:], body=s.body)]
        e = it.context_expr
        if not self.is_self_call(e, env) or e.args or e.keywords:
            raise Outside(f"with {ast.unparse(e)[:60]}")
        m = e.func.attr if isinstance(e.func, ast.Attribute) else env[e.func.id][1]
        if self.lookup(m) is not None:
            raise Outside(f"with {m}: not the primitive")
        if m in WITH:
            out.append([WITH[m], self.block(inner, env)])
        elif m == "_option":
            out.append(["option", self.block(inner, env)])
        elif m == "_choice":
            out.append(["choice?", self.block(inner, env)])
        else:
            raise Outside(f"with {m}")

    def string(self, e, env, what):
        v = self.ev(e, env)
        if not isinstance(v, str):
            raise Outside(f"{what} of {ast.unparse(e)[:60]}")
        return v

    def effect(self, e, env, out):
        if isinstance(e, ast.Constant):
            return
        if isinstance(e, (ast.Name, ast.Attribute, ast.Tuple, ast.List)) and not any(isinstance(x, ast.Call) for x in ast.walk(e)):
            return
        if isinstance(e, ast.IfExp):
            c = self.cond(e.test, env)
            if isinstance(c, bool):
                return self.effect(e.body if c else e.orelse, env, out)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
            h = self.helper(e, env)
            if h:
                out.append(self.inlined(*h))
                return
        if not self.is_self_call(e, env):
            raise Outside(ast.unparse(e)[:80])
        if isinstance(e.func, ast.Name):
            f = env[e.func.id]
            if isinstance(f, Fn):
                if e.args or e.keywords or f.node.args.args:
                    raise Outside("inner function with arguments")
                out.append(self.inner(f))
                return
            m = f[1]
        else:
            m = self.mangle(e.func.attr)
        fn = self.lookup(m)
        if fn is not None:
            if not isinstance(fn, ast.FunctionDef):
                raise Outside(f"{m} is not a method")
            if any(d[0] == "tatsumasu" for d in decorators(fn)):
                if e.args or e.keywords:
                    raise Outside(f"arguments of rule {m}")
                if not re.fullmatch(r"_\w+_", m):
                    raise Outside(f"rule called {m}")
                out.append(["rule", m[1:-1]])
                return
            if fn.decorator_list:
                raise Outside(f"decorated helper {m}")
            out.append(self.inline(fn, e, env))
            return
        if e.keywords and m not in REP2:
            raise Outside(f"keywords of {m}")
        a = e.args
        if m == "_token":
            v = self.ev(a[0], env)
            if isinstance(v, OneName):
                out.append(["tokname"])
                return
            out.append(["tok", self.string(a[0], env, "token")])
        elif m == "_pattern":
            out.append(["pat", self.string(a[0], env, "pattern")])
        elif m == "_constant":
            v = self.ev(a[0], env)
            if isinstance(v, (Opaque, Table, Names, OneName)):
                raise Outside("constant")
            out.append(["const", repr(v)])
        elif m == "name_last_node":
            out.append(["name", self.string(a[0], env, "name")])
        elif m == "add_last_node_to_name":
            out.append(["add", self.string(a[0], env, "name")])
        elif m == "_define":
            l = [self.ev(x, env) for x in a]
            if not 1 <= len(l) <= 2 or not all(isinstance(x, (list, tuple)) and all(isinstance(y, str) for y in x) for x in l):
                raise Outside("_define")
            out.append(["define", list(l[0]), list(l[1]) if len(l) > 1 else []])
        elif m == "_error":
            out.append(["fail"])
        elif m in LEAF:
            if a:
                raise Outside(f"arguments of {m}")
            out.append([LEAF[m]])
        elif m in REP:
            if len(a) != 1:
                raise Outside(f"arguments of {m}")
            out.append([REP[m], self.blockarg(a[0], env)])
        elif m in REP2:
            k = {x.arg: x.value for x in e.keywords}
            a = list(a) + [k[n] for n in ("block", "sep")[len(a) :] if n in k]
            if len(a) != 2:
                raise Outside(f"arguments of {m}")
            out.append([REP2[m], self.blockarg(a[0], env), self.blockarg(a[1], env)])
        else:
            raise Outside(f"self.{m}")

    def blockarg(self, e, env):
        if isinstance(e, ast.Lambda):
            if e.args.args:
                raise Outside("block with arguments")
            o = ["seq"]
            self.effect(e.body, env, o)
            return o
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and isinstance(env.get(e.value.id), SelfV):
            o = ["seq"]
            self.effect(ast.Call(func=e, args=[], keywords=[]), env, o)
            return o
        f = self.ev(e, env)
        if isinstance(f, Fn):
            if f.node.args.args:
                raise Outside("block with arguments")
            return self.inner(f)
        raise Outside(f"block {ast.unparse(e)[:60]}")

    def inner(self, f):
        self.depth += 1
        if self.depth > 60:
            raise Outside("recursive helper")
        o = self.run(f.node, dict(f.env))
        self.depth -= 1
        return o

    def inline(self, fn, e, env):
        return self.inlined(fn, self.bound(fn, [SelfV()], e, env))

    def inlined(self, fn, n):
        self.depth += 1
        if self.depth > 60:
            raise Outside("recursive helper")
        o = self.run(fn, n)
        self.depth -= 1
        return o

    def argv(self, e, env):
        if isinstance(e, ast.Lambda) and not e.args.args:
            return Fn(ast.FunctionDef(name="<lambda>", args=e.args, body=[ast.Expr(e.body)], decorator_list=[]), env)
        return self.ev(e, env)


PRIMS = {*WITH, "_option", "_choice", *REP, *REP2, *LEAF, "_token", "_pattern", "_constant", "name_last_node", "add_last_node_to_name", "_define", "_error"}


def regex(p):
    """two patterns with the same parse are the same pattern"""
    try:
        from re import _parser as sp
    except ImportError:
        import sre_parse as sp
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            t = sp.parse(p)
        except Exception:
            return ["text", p]

    def d(x):
        if isinstance(x, sp.SubPattern):
            return [d(y) for y in x.data]
        if isinstance(x, (list, tuple)):
            return [d(y) for y in x]
        return x if isinstance(x, (int, str, type(None))) and type(x) in (int, str, type(None)) else str(x)

    return [d(t), t.state.flags, t.state.groups]


def norm(e):
    """normal form by laws that hold for every meaning of the primitives the code can tell apart"""
    t = e[0]
    if t == "seq":
        l = []
        for x in e[1:]:
            x = norm(x)
            if x[0] == "seq":
                l += x[1:]
            else:
                l.append(x)
        # declarations of names next to each other are one declaration
        r = []
        for x in l:
            if x[0] == "define":
                if not x[1] and not x[2]:
                    continue
                if r and r[-1][0] == "define":
                    a = set(r[-1][2]) | set(x[2])
                    r[-1] = ["define", sorted((set(r[-1][1]) | set(x[1])) - a), sorted(a)]
                    continue
            r.append(x)
            if x[0] == "fail":
                break  # nothing after a failure is reached
        return r[0] if len(r) == 1 else ["seq", *r]
    if t in ("pat",):
        return ["pat", regex(e[1])]
    if t == "define":
        return ["define", sorted(set(e[1]) - set(e[2])), sorted(set(e[2]))]
    if t == "choice":
        return ["choice", *ordered([norm(x) for x in e[1:]])]
    if t == "choice?":
        b = norm(e[1])
        l = b[1:] if b[0] == "seq" else [b]
        closed = bool(l) and l[-1] == ["fail"]
        if closed:
            l = l[:-1]
        if not all(x[0] in ("option", "nameoptions") for x in l):
            return ["choice?", b]
        l = [x[1] if x[0] == "option" else x for x in l]
        if closed:
            return ["choice", *ordered(l)] if l else ["fail"]
        if len(l) == 1 and l[0][0] != "nameoptions":
            return ["opt", l[0]]
        return ["openchoice", *l]
    if t == "not":
        b = norm(e[1])
        if b in (["seq"], ["void"]):
            return ["fail"]  # what always holds never fails
        return ["not", b]
    if t == "case":
        # a choice over no name fails: the empty table needs no case of its own
        a, b = norm(e[2]), norm(e[3])
        if a == ["fail"] and b[0] == "choice" and len(b) == 2 and b[1][:2] == ["nameoptions", e[1][1]]:
            return b
        return a if a == b else ["case", e[1], a, b]
    if t in ("option", "group", "opt", "star", "plus", "and", "gather", "gather+", "join", "join+"):
        return [t, *map(norm, e[1:])]
    return list(e)


RULES = {}  # the grammar's rules: the contracts of the rules a method calls


def first(e, seen=()):
    """the literals an option starts with, or None when it may start otherwise"""
    t = e[0]
    if t in ("seq", "group", "option", "plus"):
        l = [x for x in e[1:] if x[0] not in ("define", "name")]
        return first(l[0], seen) if l else None
    if t == "tok":
        return {e[1]}
    if t == "choice":
        r = set()
        for x in e[1:]:
            f = first(x, seen)
            if f is None:
                return None
            r |= f
        return r
    if t == "rule" and e[1] in RULES and e[1] not in seen:
        return first(RULES[e[1]], (*seen, e[1]))
    return None


def ordered(l):
    """options that start with literals none of which is a prefix of the other exclude each other: their order is
    immaterial; the smallest of the orders that are equal to the given one"""
    f = [first(e) for e in l]
    k = [repr(e) for e in l]
    left, r = list(range(len(l))), []

    def free(i, j):
        return f[i] and f[j] and not any(a.startswith(b) or b.startswith(a) for a in f[i] for b in f[j])

    while left:
        c = [j for n, j in enumerate(left) if all(free(i, j) for i in left[:n])]
        j = min(c, key=lambda j: k[j])
        left.remove(j)
        r.append(l[j])
    return r


def show(e, n=300):
    t = e[0]
    if t == "seq":
        s = " ".join(show(x, 10**6) for x in e[1:]) or "()"
    elif t == "choice":
        s = "(" + " | ".join(show(x, 10**6) for x in e[1:]) + ")"
    elif t == "tok":
        s = repr(e[1])
    elif t == "rule":
        s = e[1]
    else:
        s = t + "(" + ", ".join(show(x, 10**6) if isinstance(x, list) and x and isinstance(x[0], str) and t not in ("define", "pat") else str(x) for x in e[1:]) + ")"
    return s if len(s) <= n else s[:n] + " …"


def diff(a, b, where="rule"):
    """first difference (grammar, code)"""
    if a == b:
        return None
    if a[0] == b[0] and a[0] not in ("tok", "pat", "rule", "name", "add", "define", "const"):
        if len(a) == len(b):
            for i, (x, y) in enumerate(zip(a[1:], b[1:])):
                if x != y:
                    if isinstance(x, list) and isinstance(y, list):
                        return diff(x, y, f"{where} > {a[0]}[{i + 1}]")
                    return f"{where}: grammar {x!r}, code {y!r}"
        for i, (x, y) in enumerate(zip(a[1:], b[1:])):
            if x != y:
                return f"{where} > {a[0]}[{i + 1}] ({len(a) - 1} elements in the grammar, {len(b) - 1} in the code): grammar {show(x)}, code {show(y)}"
        return f"{where} > {a[0]}: {len(a) - 1} elements in the grammar, {len(b) - 1} in the code; extra: {show((a if len(a) > len(b) else b)[min(len(a), len(b))])}"
    return f"{where}: grammar {show(a)}, code {show(b)}"
