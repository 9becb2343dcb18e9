"""The program under verification: classes and functions of /repo/lib/acltk, parsed on every run."""
import ast
import os

REPO = os.environ.get("PYDED_REPO", "/repo/lib/acltk")
SKIP = {"fwsm.py", "ios.py", "caf.py"}  # generated parsers


class ClassV:
    def __init__(self, name, module, node):
        self.name, self.module, self.node = name, module, node
        self.bases = []
        self.body = {}  # name -> FunctionDef or expression
        self.mro_ = None

    def mro(self):
        if self.mro_ is None:
            seqs = [list(b.mro()) for b in self.bases if isinstance(b, ClassV)] + [
                [b for b in self.bases if isinstance(b, ClassV)]
            ]
            out = [self]
            while any(seqs):
                seqs = [s for s in seqs if s]
                for s in seqs:
                    c = s[0]
                    if not any(c in t[1:] for t in seqs):
                        break
                else:
                    raise ValueError("mro")
                out.append(c)
                seqs = [[x for x in s if x is not c] for s in seqs]
            self.mro_ = out
        return self.mro_

    def find(self, name):
        for c in self.mro():
            if name in c.body:
                return c, c.body[name]
        return None

    def issub(self, other):
        return other in self.mro()

    def __repr__(self):
        return f"<class {self.name}>"


class Module:
    def __init__(self, name, tree):
        self.name, self.tree = name, tree
        self.globals = {}


class Program:
    def __init__(self, root=REPO):
        self.root = root
        self.modules = {}
        self.classes = {}
        self.dup = set()
        self.class_ids = {}
        for f in sorted(os.listdir(root)):
            if f.endswith(".py") and f not in SKIP:
                src = open(os.path.join(root, f)).read()
                name = "acltk." + f[:-3] if f != "__init__.py" else "acltk"
                self.modules[name] = Module(name, ast.parse(src))
        for m in self.modules.values():
            self._load(m)
        for m in self.modules.values():
            self._bases(m)

    def _load(self, m):
        for st in m.tree.body:
            if isinstance(st, ast.ClassDef):
                c = ClassV(st.name, m.name, st)
                m.globals[st.name] = c
                if st.name in self.classes:
                    self.dup.add(st.name)
                self.classes[st.name] = c
                for b in st.body:
                    if isinstance(b, ast.FunctionDef):
                        c.body[b.name] = b
                    elif isinstance(b, ast.Assign):
                        for t in b.targets:
                            if isinstance(t, ast.Name):
                                c.body[t.id] = b.value
                    elif isinstance(b, ast.AnnAssign) and b.value is not None:
                        c.body[b.target.id] = b.value
            elif isinstance(st, ast.FunctionDef):
                m.globals[st.name] = st
            elif isinstance(st, (ast.Assign,)):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        m.globals[t.id] = ("expr", st.value)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    m.globals[(a.asname or a.name).split(".")[0]] = ("module", a.name if a.asname else a.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                for a in st.names:
                    m.globals[a.asname or a.name] = ("from", st.module, a.name)

    def resolve(self, modname, name, depth=0):
        """a global name of a module: ClassV, FunctionDef (with module), ('lib', dotted) or None"""
        m = self.modules.get(modname)
        if m is None or name not in m.globals or depth > 10:
            return None
        g = m.globals[name]
        if isinstance(g, tuple) and g[0] == "from":
            if g[1] in self.modules:
                if g[2] == "*":
                    return None
                r = self.resolve(g[1], g[2], depth + 1)
                if r is not None:
                    return r
                return ("lib", g[1] + "." + g[2])
            return ("lib", f"{g[1]}.{g[2]}")
        if isinstance(g, tuple) and g[0] == "module":
            return ("lib", g[1])
        if isinstance(g, ast.FunctionDef):
            return ("func", g, modname)
        if isinstance(g, tuple) and g[0] == "expr":
            return ("expr", g[1], modname)
        return g

    def _bases(self, m):
        for c in [g for g in m.globals.values() if isinstance(g, ClassV)]:
            for b in c.node.bases:
                if isinstance(b, ast.Name):
                    r = self.resolve(m.name, b.id)
                    c.bases.append(r if isinstance(r, ClassV) else ("ext", b.id))

    def func(self, qual):
        """('Class', 'method') or 'module.function' -> (ClassV, FunctionDef)"""
        cls, name = qual.rsplit(".", 1)
        c = self.classes[cls]
        f = c.find(name)
        if f is None:
            raise KeyError(qual)
        return f
