"""C28: the committed parsers are, rule for rule, the published grammars.

Contract of every rule method of the generated parsers: its effect on the TatSu runtime is the expression of the rule of
the same name in the .bnf file (read by TatSu's own grammar reader).  A method that calls another rule relies on that
rule's contract only.  With the runtime primitives as trusted contracts (the PEG combinators), all rules together give
the language and the parse trees of the grammar, for every text.

The name lookups (`acl_*_id`) are nothing in the grammar files and are overridden by aclParser: their contract is the
ordered choice over the names of their own table, no name before a longer one that starts with it.
"""
import ast
import json
import os
import subprocess
from concurrent.futures import ThreadPoolExecutor

from ..drive import *
from ..model import *
from ..prog import REPO
from ..peg import code
from . import c22

PY = "/opt/venv/bin/python"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GRAMMARS = {"caf": "caf.py", "fwsm": "fwsm.py", "ios": "ios.py"}
TABLES = {
    "acl_interface_id": "interfaces", "acl_object_group_network_id": "network_groups", "acl_object_network_id": "network_objects",
    "acl_object_group_service_id": "service_groups", "acl_object_group_port_id": "port_groups", "acl_object_service_id": "service_objects",
    "acl_object_group_icmp_id": "icmp_groups", "acl_object_group_protocol_id": "protocol_groups", "acl_names_id": "names",
    "acl_time_range_id": "time_ranges",
}
BANNER = ("delim_msg", "delim_stop")
USED = {"fwsm": ("fwsmSemantics.py", "fwsmParser"), "ios": ("iosSemantics.py", "iosParser")}
FROM = {"Parser": "tatsu.parsing", "tatsumasu": "tatsu.parsing", "leftrec": "tatsu.parsing", "nomemo": "tatsu.parsing", "isname": "tatsu.parsing",
        "ParserConfig": "tatsu.infos"}


def grammar(name):
    r = subprocess.run([PY, os.path.join(HERE, "peg", "bnf.py"), os.path.join(REPO, f"{name}.bnf"), name], capture_output=True, text=True, timeout=300,
                       env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
    if r.returncode:
        return {"error": r.stderr[-600:]}
    return json.loads(r.stdout)


def runtime():
    """names of the runtime class the generated parsers derive from"""
    r = subprocess.run([PY, "-c", "import json,tatsu.parsing as p; print(json.dumps(dir(p.Parser) + list(vars(p.Parser(config=None)))))"], capture_output=True, text=True, timeout=120,
                       env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
    return set(json.loads(r.stdout)) if r.returncode == 0 else None


def load(which=tuple(GRAMMARS)):
    global G, RT
    with ThreadPoolExecutor(5) as ex:
        rt = ex.submit(runtime)
        G = dict(zip(which, ex.map(grammar, which)))
        RT = rt.result()


M = {}


def module(f):
    if f not in M:
        try:
            M[f] = code.Module(os.path.join(REPO, f))
        except Exception as e:
            M[f] = e
    m = M[f]
    if isinstance(m, Exception):
        raise Unsupported(f"{f}: {m}")
    return m


def generated(g):
    m = module(GRAMMARS[g])
    c = m.classes.get(f"{g}Parser")
    if c is None:
        raise Unsupported(f"{GRAMMARS[g]}: no class {g}Parser")
    return m, c


def members(c):
    try:
        return code.methods(c)
    except code.Outside as e:
        raise Unsupported(str(e))


def effect(m, cls, ms, fn, attrs=None, also=None):
    def look(n):
        for c, x in ((cls, ms), *([("aclParser", also)] if also else [])):
            for k, v in x.items():
                if n == (f"_{c.lstrip('_')}{k}" if k.startswith("__") and not k.endswith("__") else k):
                    return v

    r = code.Reader(look, cls, m.consts, attrs)
    try:
        return code.norm(r.run(fn, {fn.args.args[0].arg: code.SelfV()}))
    except code.Outside as e:
        raise Unsupported(f"{cls}.{fn.name}: {e}")
    except code.Done:
        raise Unsupported(f"{cls}.{fn.name}: return in a block")


def flags(fn):
    """(rule?, left recursive, memoised, name rule, parameters)"""
    d = code.decorators(fn)
    n = [x[0] for x in d]
    if set(n) - {"tatsumasu", "leftrec", "nomemo", "isname"}:
        raise Unsupported(f"decorators of {fn.name}: {n}")
    if n and n[0] != "tatsumasu":
        raise Unsupported(f"decorators of {fn.name}: {n}")
    ps = []
    for x in d[0][1] if d else []:
        if not isinstance(x, ast.Constant):
            raise Unsupported(f"parameters of {fn.name}")
        ps.append(str(x.value))
    if d and d[0][2]:
        raise Unsupported(f"parameters of {fn.name}")
    return bool(d), "leftrec" in n, "nomemo" not in n, "isname" in n, ps


def rules(g, some):
    def fn(I):
        p = I.p
        m, c = generated(g)
        ms = members(c)
        code.RULES = {r["name"]: r["exp"] for r in G[g]["rules"]}
        for r in some:
            n, f = f"{g}.bnf {r['name']}", ms.get(f"_{r['name']}_")
            if not isinstance(f, ast.FunctionDef):
                p.fail(f"{n}: is a rule of the parser", f"{g}Parser has no method _{r['name']}_")
                continue
            rule, left, memo, isname, ps = flags(f)
            if not rule:
                p.fail(f"{n}: is a rule of the parser", f"_{r['name']}_ is not declared a rule")
                continue
            # memoisation only matters for the time taken, left recursion and names for the language
            ok = (left, isname, ps) == (r["leftrec"], r["name_rule"], r["params"])
            if not ok:
                p.fail(f"{n}: same kind of rule", f"left recursion, name, parameters: grammar {(r['leftrec'], r['name_rule'], r['params'])}, code {(left, isname, ps)}")
            else:
                p.prove(True, f"{n}: same kind of rule")
            if len(f.args.args) != 1:
                raise Unsupported(f"parameters of {f.name}")
            got, want = effect(m, c.name, ms, f), code.norm(r["exp"])
            d = code.diff(want, got)
            if d:
                p.fail(f"{n}: the parser does what the grammar says", d)
            else:
                p.prove(True, f"{n}: the parser does what the grammar says")
        outcome(I, "compared")

    return fn


def evalconst(m, e):
    try:
        return code.Reader(lambda n: None, "", m.consts).ev(e, {})
    except code.Outside as e:
        raise Unsupported(str(e))


def frame(g):
    """the class of the generated parser: nothing of the runtime is replaced, its configuration is the grammar's"""

    def fn(I):
        p = I.p
        m, c = generated(g)
        bases = [ast.unparse(b) for b in c.bases]
        p.prove(bases == ["Parser"], f"{g}Parser: derives from the runtime")
        ms = members(c)
        bad = sorted(n for n in ms if n != "__init__" and n in RT)
        if bad:
            p.fail(f"{g}Parser: replaces nothing of the runtime", ", ".join(bad))
        else:
            p.prove(True, f"{g}Parser: replaces nothing of the runtime")
        # names of the module: the primitives are those of the runtime, and nothing patches them
        seen = {}
        for n in m.tree.body:
            if isinstance(n, ast.ImportFrom):
                for a in n.names:
                    seen.setdefault(a.asname or a.name, set()).add(n.module)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    seen.setdefault((a.asname or a.name).split(".")[0], set()).add(a.name)
            elif isinstance(n, (ast.ClassDef, ast.FunctionDef)):
                seen.setdefault(n.name, set()).add("here")
            elif isinstance(n, (ast.Assign, ast.AnnAssign)):
                for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                    if not isinstance(t, ast.Name):
                        raise Unsupported(f"{g}.py: {ast.unparse(n)[:60]}")
                    seen.setdefault(t.id, set()).add("here")
            elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) or isinstance(n, ast.Pass):
                pass
            elif isinstance(n, ast.If) and "__name__" in ast.unparse(n.test):
                pass
            else:
                raise Unsupported(f"{g}.py: {ast.unparse(n)[:60]}")
        for k, v in FROM.items():
            if k in ("leftrec", "nomemo", "isname") and k not in seen:
                continue
            p.prove(seen.get(k) == {v}, f"{g}.py: {k} is that of the runtime")
        # configuration of the parser
        init = ms.get("__init__")
        want = G[g]["config"]
        if init is None:
            got, kw = None, "absent"
            ok = all(want[k] == d for k, d in DEFAULTS.items()) and not G[g]["keywords"]
        else:
            got = None
            for x in ast.walk(init):
                if isinstance(x, ast.Call) and ast.unparse(x.func) == "ParserConfig.new":
                    if got is not None:
                        raise Unsupported("two configurations")
                    got = {k.arg: evalconst(m, k.value) for k in x.keywords}
            if got is None:
                raise Unsupported("configuration of the parser")
            kw = got.get("keywords")
            if isinstance(kw, code.Opaque) and kw.what in ("set()", "frozenset()"):
                kw = ()
            ok = sorted(kw or ()) == G[g]["keywords"]
            for k, v in want.items():
                ok = ok and (got.get(k) or DEFAULTS.get(k)) == (v or DEFAULTS.get(k))
        if ok:
            p.prove(True, f"{g}Parser: is configured as the grammar")
        else:
            p.fail(f"{g}Parser: is configured as the grammar", f"grammar {want}, keywords {G[g]['keywords']}; code {got}, keywords {kw}")
        outcome(I, "compared")

    return fn


DEFAULTS = {"whitespace": None, "nameguard": None, "ignorecase": False, "namechars": "", "parseinfo": False, "comments_re": None, "eol_comments_re": None}


def used(g):
    """the parser class that is used: aclParser over the generated one"""

    def fn(I):
        p = I.p
        f, cn = USED[g]
        m = module(f)
        am = module("aclSemantics.py")
        gm, gc = generated(g)
        c, ac = m.classes.get(cn), am.classes.get("aclParser")
        if c is None or ac is None:
            raise Unsupported("parser classes")
        gname = None
        for n in m.tree.body:
            if isinstance(n, ast.ImportFrom) and n.module == f"acltk.{g}":
                for a in n.names:
                    if a.name == f"{g}Parser":
                        gname = a.asname or a.name
        p.prove([ast.unparse(b) for b in c.bases] == ["aclParser", gname] and not ac.bases or [ast.unparse(b) for b in ac.bases] == ["object"], f"{cn}: aclParser over the generated parser")
        own, acl, gen = members(c), members(ac), members(gc)
        names = {f"_{r['name']}_" for r in G[g]["rules"]}
        over = {}
        for cls, mm, ms in ((c, m, own), (ac, am, acl)):
            for n, x in ms.items():
                if n == "__init__" or n in over:
                    continue
                if n in RT:
                    p.fail(f"{cn}: replaces nothing of the runtime", f"{cls.name}.{n}")
                if n in names:
                    over[n] = (cls, mm, x)
                    k = n[1:-1]
                    if k not in TABLES and not (g == "ios" and k in BANNER):
                        p.fail(f"{cn}: replaces no other rule of the grammar", f"{cls.name}.{n}")
        p.prove(True, f"{cn}: replaces nothing of the runtime")
        p.prove(True, f"{cn}: replaces no other rule of the grammar")
        # attributes of the parser: none hides a rule or the runtime
        hid = set()
        for mm in (m, am):
            for x in ast.walk(mm.tree):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)) and ast.unparse(x.value) in ("self", "self.parser", "parser"):
                    if x.attr in names or (x.attr in RT):
                        hid.add(f"{ast.unparse(x.value)}.{x.attr}")
        if hid:
            p.fail(f"{cn}: no attribute hides a rule", ", ".join(sorted(hid)))
        p.prove(True, f"{cn}: no attribute hides a rule")
        for k, t in sorted(TABLES.items()):
            if f"_{k}_" not in names:
                continue
            if f"_{k}_" not in over:
                p.fail(f"{cn} {k}: one of the known names", "not overridden")
                continue
            cls, mm, x = over[f"_{k}_"]
            if not isinstance(x, ast.FunctionDef) or not flags(x)[0]:
                raise Unsupported(f"{cls.name}._{k}_")
            e = effect(mm, cls.name, own if cls is c else acl, x, also=acl)
            okk = e[0] == "choice" and len(e) == 2 and e[1][0] == "nameoptions"
            if not okk:
                p.fail(f"{cn} {k}: one of the known names", code.show(e))
                continue
            p.prove(e[1][1] == t, f"{cn} {k}: the names of its own kind")
            # descending and longest-first order put every name after the names it is a proper prefix of
            p.prove(e[1][2] in ("desc", "longest"), f"{cn} {k}: no name before a longer one that starts with it")
        outcome(I, "compared")

    return fn


def order(I):
    """lemma: x a proper prefix of y: x < y (names in descending order), and x is shorter (longest first)"""
    p = I.p
    x, y, r = z3.String("x"), z3.String("y"), z3.String("r")
    p.assume(y == z3.Concat(x, r))
    p.assume(z3.Length(r) > 0)
    p.prove(z3.Length(x) < z3.Length(y), "a proper prefix is shorter")
    i = z3.Int("i")
    # the order of strings: the first place where they differ decides, a prefix is smaller; x and y differ at no place of x
    p.assume(z3.And(0 <= i, i < z3.Length(x)))
    p.prove(z3.SubString(x, i, 1) == z3.SubString(y, i, 1), "a proper prefix differs at no place and is smaller")
    outcome(I, "lemma")


CLASSES = {"fwsmConfig": "fwsm", "iosConfig": "ios", "cafBlock": "caf"}
LANGUAGE = ("whitespace", "nameguard", "ignorecase", "namechars", "comments_re", "eol_comments_re", "comments", "eol_comments", "keywords", "left_recursion", "tokenizercls", "buffer_class")


def config(c):
    base = c22.dialect(c)

    def fn(I):
        base(I)
        p = I.p
        if "config" not in p.notes:
            return
        cfg = p.notes["config"].get("config")
        kw = dict(p.notes["config"])
        kw.pop("config", None)
        for k in p.notes.get("calls", ())[:1]:
            kw.update(k[2])
        a = dict(cfg.attrs if cfg is not None else {})
        a.update({k: v for k, v in kw.items() if k in LANGUAGE or k in ("rule_name", "start")})
        want = {"whitespace": None if c == "cafBlock" else "", "nameguard": True}
        for k in LANGUAGE:
            v = I.force(a[k]) if k in a else None
            w = want.get(k)
            if w is None:
                good = v is None or v is False or (isinstance(v, str) and v == "")
            else:
                good = type(v) is type(w) and v == w
            if good:
                p.prove(True, f"{c}: read as the grammar is written (white space, whole words, letter case)")
            else:
                p.fail(f"{c}: read as the grammar is written (white space, whole words, letter case)", f"{k} is {v!r}")

    return fn


def broken(e):
    def fn(I):
        raise Unsupported(e)

    return fn


# rules of the grammars the other properties depend on; "*": with everything they refer to
_ACL = ["access_list_remark", "access_list", "acl_id", "acl_line", "obj_name", "identifier", "ip4", "ipX", "ip6", "int", "NL", "WS", "SP", "TOEOL"]
CONFORM = {
    "C05": {"caf": ["*grammar"]},
    "C12": {"ios": ["*access_list", "*ip_access_list"]},
    "C13": {
        "fwsm": ["grammar", "command", "version", "hostname", "domain_name", "interface", "name", "time_range", "object", "object_type", "object_group", "object_group_type",
                 "access_list", "access_list_remark", "access_group", "nat", "nat_pos", "network_object_nat", "ignored", "ignored_indent", "unmatched", "obj_name", "acl_id", "string",
                 "NL", "WS", "SP", "TOEOL"],
        "ios": ["grammar", "command", "version", "hostname", "domain_name", "interface", "object_group", "object_group_type", "access_list", "access_list_remark",
                "access_list_ip_standard", "access_list_ip_extended", "access_list_ip_standard_id", "access_list_ip_extended_id", "ip", "ip_command", "ip_access_list",
                "ip_access_list_standard", "ip_access_list_extended", "ip_access_list_remark", "ipv6", "ipv6_command", "ipv6_access_list", "ipv6_access_list_seq",
                "ipv6_ignored", "ip_ignored", "ignored", "ignored_indent", "obj_name", "acl_id", "NL", "WS", "SP", "TOEOL"],
    },
    "C14": {g: ["*port", "*icmp_type", "*icmp_code_int", "*protocol_int", "*protocol_code", "acl_port", "acl_protocol", "acl_icmp_options", "service_object", "service_object_op",
                "service_group_object", "port_group_object", "icmp_group_object", "protocol_group_object"] for g in ("fwsm", "ios")},
    "C15": {g: [*TABLES, "*acl_name", "*acl_object_network", "*acl_object_group_network", "*acl_object_service", "*acl_object_group_service", "*acl_object_group_port",
                "*acl_object_group_icmp", "*acl_object_group_protocol", "*acl_time_range", "*acl_interface"] for g in ("fwsm", "ios")},
    "C17": {"fwsm": ["*access_list", "*access_list_remark"], "ios": ["*access_list", "*ip_access_list", "*ipv6_access_list"]},
    "C20": {"fwsm": ["*nat", "*network_object_nat"]},
    "C21": {"ios": ["*ip_route", "*interface", "ip", "ip_command"]},
    "C24": {"fwsm": ["*network_object", "*network_group_object", "*acl_host", "*name"], "ios": ["*network_group_object", "*ios_host", "*acl_host"]},
    "C26": {"fwsm": ["*time_range"]},
    "C30": {"ios": ["*interface", "*switchport_cmd", "command", "grammar"]},
    "C29": {"ios": ["*banner", "ignored", "command", "grammar"]},
}


def refs(e):
    if isinstance(e, list):
        if len(e) == 2 and e[0] == "rule":
            yield e[1]
        for x in e:
            yield from refs(x)


def closure(g, roots):
    rs = {r["name"]: r for r in G[g]["rules"]}
    got, todo = set(), []
    for r in roots:
        n = r.lstrip("*")
        if n in rs:
            got.add(n)
            if r[0] == "*":
                todo.append(n)
    seen = set(todo)
    while todo:
        for x in refs(rs[todo.pop()]["exp"]):
            got.add(x)
            if x not in seen and x in rs:
                seen.add(x)
                todo.append(x)
    return [r for r in G[g]["rules"] if r["name"] in got]


def extra(pid):
    """conformance of the rules another property depends on"""
    if pid not in CONFORM:
        return []
    load(tuple(CONFORM[pid]))
    out = []
    for g, roots in CONFORM[pid].items():
        if "error" in G[g] or RT is None:
            out.append(Proof(f"{g}.bnf", broken(f"the grammar file cannot be read: {G[g].get('error', 'TatSu')}"), [f"{g}.bnf"]))
            continue
        rs = closure(g, roots)
        for i in range(0, len(rs), 12):
            out.append(Proof(f"{g}.bnf rules {i + 1}-{min(i + 12, len(rs))} of {len(rs)}", rules(g, rs[i : i + 12]), [f"{g}Parser._{r['name']}_" for r in rs[i : i + 12]], ["compared"]))
        out.append(Proof(f"{g}Parser", frame(g), [f"{g}Parser"], ["compared"]))
        if g in USED:
            out.append(Proof(f"{USED[g][1]} (used)", used(g), [f"aclParser._{k}_" for k in TABLES], ["compared"]))
    return out


def proofs():
    load()
    out = []
    for g in GRAMMARS:
        if "error" in G[g]:
            out.append(Proof(f"{g}.bnf", broken(f"the grammar file cannot be read: {G[g]['error']}"), [f"{g}.bnf"]))
            continue
        if RT is None:
            out.append(Proof("runtime", broken("the TatSu runtime cannot be imported"), []))
            continue
        rs = G[g]["rules"]
        for i in range(0, len(rs), 12):
            out.append(Proof(f"{g}.bnf rules {i + 1}-{min(i + 12, len(rs))}", rules(g, rs[i : i + 12]), [f"{g}Parser._{r['name']}_" for r in rs[i : i + 12]], ["compared"]))
        out.append(Proof(f"{g}Parser", frame(g), [f"{g}Parser"], ["compared"]))
        if g in USED:
            out.append(Proof(f"{USED[g][1]} (used)", used(g), [f"aclParser._{k}_" for k in TABLES], ["compared"]))
    out.append(Proof("order of names", order, ["aclParser.__acl_internal_ids"], ["lemma"]))
    for c in CLASSES:
        q = c22.PARSERS[c]
        out.append(Proof(f"configuration ({c})", config(c), [f"{c}._parse"], ["accepted", "refused"],
                         contracts={(q, "__new__"): c22.made, (q, "parse"): c22.parse, ("lib", "acltk.caf.cafParser"): c22.caf_made}, types=c22.TYPES))
    return out
