"""Whole-program linker for the Python sources: resolves names, imports, attributes, enumeration members and call signatures without running anything.

Every judgement is made only where the referent is known; an unknown referent yields no obligation."""
import ast
import builtins
import os
import re
from .interp import ROOTS

UNK = None
OBJ_ATTRS = {a for a in dir(object)} | {"__dict__", "__name__", "__module__", "__qualname__", "__annotations__", "__slots__", "__weakref__", "__mro__", "__bases__", "__subclasses__", "mro"}
ENUM_ATTRS = OBJ_ATTRS | {"name", "value", "_name_", "_value_", "__members__", "_member_map_", "_member_names_", "_value2member_map_", "__getitem__", "__iter__", "__len__", "__contains__", "__call__", "_missing_", "_generate_next_value_"}
SKIPDIRS = {".git", "_build", "__pycache__", "build", "dist", ".pytest_cache", "node_modules"}


class Mod:
    def __init__(s, name, file, tree):
        s.name, s.file, s.tree, s.vars, s.star_ext, s.binds = name, file, tree, {}, False, {}


class Cls:
    def __init__(s, node, mod, qual):
        s.node, s.mod, s.qual, s.bases, s.extbases, s.members, s.inst, s.pats, s.dynamic, s.subs = node, mod, qual, [], [], {}, {}, [], False, []
        s.name, s.anns = node.name, {}

    def mro(s):
        out = []

        def go(c):
            if c not in out:
                out.append(c)
                for b in c.bases:
                    go(b)
        go(s)
        return out

    def family(s):
        """the class, its ancestors and everything below them that derives from the class"""
        out = s.mro()

        def down(c):
            for d in c.subs:
                for x in d.mro():
                    if x not in out:
                        out.append(x)
                down(d)
        down(s)
        return out

    def find(s, n):
        for c in s.mro():
            if n in c.members:
                return c.members[n]
        return None

    def ext(s):
        return [e for c in s.mro() for e in c.extbases]

    def isenum(s):
        return any(e.split(".")[-1] in ("Enum", "IntEnum", "StrEnum", "Flag") for e in s.ext())


class Fun:
    def __init__(s, node, mod, cls, kind):
        s.node, s.mod, s.cls, s.kind = node, mod, cls, kind     # kind: plain method static class property other
        s.overloads = None


class V:
    """static value: kind in mod cls fun inst ext"""
    def __init__(s, kind, x, bound=False):
        s.kind, s.x, s.bound = kind, x, bound

    def __eq__(s, o):
        return isinstance(o, V) and s.kind == o.kind and s.x is o.x and s.bound == o.bound or (isinstance(o, V) and s.kind == o.kind == "ext" and s.x == o.x)

    def __hash__(s):
        return hash((s.kind, id(s.x)))


class Program:
    def __init__(s, repo, overlay=None):
        s.repo, s.mods, s.errors, s.files = repo, {}, [], {}
        for d, ds, fs in os.walk(repo):
            ds[:] = sorted(x for x in ds if x not in SKIPDIRS and x not in ("tests", "test") and not x.endswith(".egg-info"))
            for f in sorted(fs):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    with open(p, encoding="utf-8") as h:
                        src = h.read()
                    try:
                        import warnings
                        with warnings.catch_warnings():
                            warnings.simplefilter("ignore")
                            t = ast.parse(src)
                            compile(src, p, "exec")
                    except SyntaxError as e:
                        s.errors.append((os.path.relpath(p, repo), e.lineno, e.msg))
                        continue
                    s.files[p] = t
        s.byfile = {}
        for p, t in s.files.items():
            m = Mod(s.modname(p), p, t)
            s.byfile[p] = m
            s.mods.setdefault(m.name, m)
        s.pkgdirs = set()
        for p in s.files:
            n = s.modname(p).split(".")
            for i in range(1, len(n)):
                s.pkgdirs.add(".".join(n[:i]))
        s.native, s.natfun = {}, {}
        for p, m in s.byfile.items():
            s.scan_module(m)
        for _ in range(4):      # star imports of star-importing modules
            for p, m in s.byfile.items():
                for n in getattr(m, "stars", ()):
                    base = s.absname(m, n)
                    src = s.mods.get(base)
                    if src is None:
                        m.star_ext = True
                        continue
                    al = s.exported(src)
                    for k in al if al is not None else [k for k in src.vars if not k.startswith("_")]:
                        if k not in m.vars:
                            m.vars[k] = [(ast.copy_location(ast.ImportFrom(module=n.module, names=[ast.alias(k, None)], level=n.level), n), ast.alias(k, None))]
        for p, m in s.byfile.items():
            s.link_classes(m)
        for p, m in s.byfile.items():
            s.scan_attrs(m)

    def modname(s, p):
        r = os.path.relpath(p, s.repo).split(os.sep)
        best = None
        for root in ROOTS:
            rp = [] if root == "." else root.split("/")
            if r[: len(rp)] == rp and len(r) > len(rp):
                if best is None or len(rp) > len(best):
                    best = rp
        r = r[len(best or []):]
        r[-1] = r[-1][:-3]
        if r[-1] == "__init__":
            r = r[:-1] or ["__init__"]
        return ".".join(r)

    def exported(s, m):
        """the literal __all__ of a module"""
        out = None
        for st in m.tree.body:
            if isinstance(st, (ast.Assign, ast.AugAssign)) and ast.unparse(st.targets[0] if isinstance(st, ast.Assign) else st.target) == "__all__":
                if not isinstance(st.value, (ast.List, ast.Tuple)):
                    return None
                v = [e.value for e in st.value.elts if isinstance(e, ast.Constant)]
                out = (out or []) + v if isinstance(st, ast.AugAssign) else v
        return out

    def rel(s, f):
        return os.path.relpath(f, s.repo)

    # --- modules -----------------------------------------------------
    def scan_module(s, m):
        s.mod_body(m, m.tree.body)

    def mod_body(s, m, body):
        for st in body:
            for n in ast.walk(st) if not isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)) else [st]:
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    m.vars.setdefault(n.name, []).append(n)
                elif isinstance(n, ast.ClassDef):
                    c = Cls(n, m, n.name)
                    n._cls = c
                    m.vars.setdefault(n.name, []).append(c)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    if isinstance(n, ast.ImportFrom) and n.names[0].name == "*":
                        m.stars = getattr(m, "stars", []) + [n]
                        continue
                    for a in n.names:
                        k = a.asname or (a.name.split(".")[0] if isinstance(n, ast.Import) else a.name)
                        m.vars.setdefault(k, []).append((n, a))
                elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    m.vars.setdefault(n.id, []).append("var")
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    m.vars.setdefault(n.name, []).append("var")
        # names made global in functions
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Global):
                for k in n.names:
                    m.vars.setdefault(k, []).append("var")

    def absname(s, m, node):
        if not node.level:
            return node.module or ""
        parts = m.name.split(".") if m.name != "__init__" else []
        if not m.file.endswith("__init__.py"):
            parts = parts[:-1]
        parts = parts[: len(parts) - (node.level - 1)] if node.level > 1 else parts
        return ".".join(parts + ([node.module] if node.module else []))

    def native_names(s, name):
        """names defined by a Cython or Fortran extension module of the repository"""
        if name in s.native:
            return s.native[name]
        r = None
        parts = name.split(".")
        for root in ROOTS:
            base = os.path.join(s.repo, root, *parts)
            if os.path.isfile(base + ".pyx"):
                src = open(base + ".pyx", encoding="utf-8").read()
                s.native_funs(name, src, base + ".pyx")
                r = set(re.findall(r"^(?:cp)?def\s+(?:[\w\[\]:, ]+\s)?(\w+)\s*\(", src, re.M)) | set(re.findall(r"^cdef class (\w+)", src, re.M)) | set(re.findall(r"^(\w+)\s*=", src, re.M)) | set(re.findall(r"^(?:cimport|import) .*?(\w+)\s*$", src, re.M))
                break
        s.native[name] = r
        return r

    def native_funs(s, name, src, f):
        """signatures of the functions a Cython module offers to Python"""
        src = re.sub(r"#[^\n]*", "", src)
        for h in re.finditer(r"^(?:def|cpdef)\s+(?:[\w\[\]:, ]+?\s)?(\w+)\s*\(", src, re.M):
            i, d = h.end(), 1
            while d and i < len(src):
                d += {"(": 1, "[": 1, ")": -1, "]": -1}.get(src[i], 0)
                i += 1
            args, cur, d = [], "", 0
            for ch in src[h.end():i - 1] + ",":
                d += {"(": 1, "[": 1, ")": -1, "]": -1}.get(ch, 0)
                if ch == "," and d == 0:
                    if cur.strip():
                        args.append(cur.strip())
                    cur = ""
                else:
                    cur += ch
            out = []
            for a in args:
                l, eq, r = a.partition("=")
                w = re.findall(r"\*{0,2}\w+", re.sub(r"\[[^\]]*\]", " ", l.split(":")[0] if re.match(r"\w+\s*:", l) else l))
                out.append((w[-1] if w else "*") + ("=None" if eq else ""))
            try:
                node = ast.parse(f"def {h.group(1)}({', '.join(out)}): pass").body[0]
            except SyntaxError:
                continue
            s.natfun[name, h.group(1)] = Fun(node, Mod(name, f, None), None, "plain")

    def module_member(s, name, attr, seen=()):
        """value of attr in module `name`: V, UNK ("exists, unknown"), or "missing"; "extern" if the module is not in the repository"""
        if (name, attr) in seen:
            return UNK
        m = s.mods.get(name)
        if m is None:
            nn = s.native_names(name)
            if nn is not None:
                return (V("fun", s.natfun[name, attr]) if (name, attr) in s.natfun else UNK) if attr in nn else "missing"
            if name in s.pkgdirs:
                return V("mod", name + "." + attr) if s.known(name + "." + attr) else "missing"
            return "extern"
        if attr in m.vars:
            return s.bindval(m, attr, seen + ((name, attr),))
        if m.star_ext or "__getattr__" in m.vars:
            return UNK
        if s.known(name + "." + attr):
            return V("mod", name + "." + attr)
        if attr in ("__name__", "__file__", "__doc__", "__path__", "__dict__", "__package__", "__spec__", "__loader__"):
            return UNK
        return "missing"

    def known(s, name):
        return name in s.mods or name in s.pkgdirs or s.native_names(name) is not None

    def bindval(s, m, k, seen=()):
        bs = m.vars.get(k)
        if not bs:
            return "missing"
        if len(bs) > 1 and not all(isinstance(b, ast.FunctionDef) and any("register" in ast.unparse(d) or "overload" in ast.unparse(d) or "multimethod" in ast.unparse(d) for d in b.decorator_list) for b in bs[1:]):
            return UNK
        b = bs[0]
        if isinstance(b, Cls):
            return V("cls", b)
        if isinstance(b, ast.FunctionDef):
            if not hasattr(b, "_fun"):
                b._fun = s.mkfun(b, m, None)
                if len(bs) > 1:
                    b._fun.kind = "other"
            return V("fun", b._fun)
        if isinstance(b, tuple):
            n, a = b
            if isinstance(n, ast.Import):
                nm = a.name if a.asname else a.name.split(".")[0]
                return V("mod", nm) if s.known(nm) else V("ext", nm)
            base = s.absname(m, n)
            r = s.module_member(base, a.name, seen)
            if r == "extern":
                return V("ext", base + "." + a.name)
            if r == "missing":
                return UNK
            return r
        return UNK

    def mkfun(s, node, mod, cls):
        kind = "plain" if cls is None else "method"
        for d in node.decorator_list:
            t = ast.unparse(d)
            last = t.split("(")[0].split(".")[-1]
            if last == "staticmethod":
                kind = "static"
            elif last == "classmethod":
                kind = "class"
            elif last in ("property", "cached_property", "setter", "getter"):
                kind = "property"
            elif last in ("abstractmethod", "wraps", "jit", "njit", "lru_cache", "cache", "override", "final"):
                pass
            else:
                return Fun(node, mod, cls, "other")
        return Fun(node, mod, cls, kind)

    # --- classes -----------------------------------------------------
    def link_classes(s, m):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ClassDef):
                if not hasattr(n, "_cls"):
                    n._cls = Cls(n, m, n.name)
                c = n._cls
                for b in n.bases:
                    v = s.expr(b, m, None, None, {})
                    if v is not UNK and v.kind == "cls":
                        c.bases.append(v.x)
                        v.x.subs.append(c)
                    else:
                        c.extbases.append(v.x if v is not UNK and v.kind == "ext" else "?" + ast.unparse(b) if v is UNK and not (isinstance(b, ast.Name) and hasattr(builtins, b.id)) else ast.unparse(b))
                c.meta = [k.arg for k in n.keywords]
                c.deco = [ast.unparse(d).split("(")[0].split(".")[-1] for d in n.decorator_list]
                for st in n.body:
                    if isinstance(st, ast.FunctionDef):
                        f = s.mkfun(st, m, c)
                        st._fun = f
                        if st.name in c.members and f.kind != "property":
                            f.kind = "other"
                        c.members[st.name] = f
                    elif isinstance(st, ast.ClassDef):
                        c.members[st.name] = "var"
                    else:
                        if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                            c.anns[st.target.id] = st.annotation
                        for x in ast.walk(st):
                            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                                c.members[x.id] = "var" if not (isinstance(st, ast.AnnAssign) and st.value is None) else c.members.get(x.id, "ann")

    def scan_attrs(s, m):
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.ClassDef):
                continue
            c = n._cls
            for f in n.body:
                if not isinstance(f, ast.FunctionDef) or not f.args.args:
                    continue
                me = {f.args.args[0].arg}
                for x in ast.walk(f):
                    if isinstance(x, (ast.Assign, ast.NamedExpr)) and isinstance(x.value, ast.Name) and x.value.id in me:
                        me |= {t.id for t in (x.targets if isinstance(x, ast.Assign) else [x.target]) if isinstance(t, ast.Name)}
                for x in ast.walk(f):
                    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id in me and isinstance(x.ctx, (ast.Store, ast.Del)):
                        c.inst.setdefault(x.attr, []).append((f, x))
                    if isinstance(x, ast.Call) and (isinstance(x.func, ast.Name) and x.func.id == "setattr" or isinstance(x.func, ast.Attribute) and x.func.attr == "__setattr__") and x.args:
                        obj = x.args[0] if isinstance(x.func, ast.Name) or len(x.args) == 3 else x.func.value
                        if isinstance(obj, ast.Name) and obj.id in me or isinstance(x.func, ast.Attribute):
                            a = x.args[1] if isinstance(x.func, ast.Name) or len(x.args) == 3 else x.args[0]
                            c.pats += patterns(a, f)
                    if isinstance(x, ast.Attribute) and x.attr in ("update", "setdefault") and isinstance(x.value, ast.Attribute) and x.value.attr == "__dict__":
                        c.dynamic = True
                    if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and (isinstance(x.value, ast.Attribute) and x.value.attr == "__dict__" or isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Name) and x.value.func.id == "vars"):
                        c.dynamic = True
        # attributes set from outside, on whatever object
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                s.__dict__.setdefault("outside", set()).add(x.attr)

    # --- expressions -------------------------------------------------
    def expr(s, e, m, cls, me, loc):
        """static value of expression e in module m (cls: enclosing class, me: (self name, kind), loc: local name -> V or UNK)"""
        if isinstance(e, ast.Name):
            if e.id in loc:
                return loc[e.id]
            if e.id in m.vars:
                v = s.bindval(m, e.id)
                return UNK if isinstance(v, str) else v
            return UNK
        if isinstance(e, ast.Attribute):
            b = s.expr(e.value, m, cls, me, loc)
            return s.attr(b, e.attr)
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id == "super" and cls is not None and not e.args:
                return V("super", cls, me and me[1] == "class")
            f = s.expr(e.func, m, cls, me, loc)
            if f is not UNK and f.kind == "cls" and not f.x.isenum() and not f.x.ext():
                return V("inst", f.x)
        return UNK

    def attr(s, b, a):
        if b is UNK:
            return UNK
        if b.kind == "mod":
            r = s.module_member(b.x, a)
            return UNK if isinstance(r, str) else r
        if b.kind == "ext":
            return V("ext", b.x + "." + a)
        if b.kind in ("cls", "inst", "super"):
            c = b.x
            order = c.mro()[1:] if b.kind == "super" else c.mro()
            for k in order:
                if a in k.members:
                    f = k.members[a]
                    if isinstance(f, Fun):
                        if a in s.instset(c):
                            return UNK
                        bound = f.kind in ("class",) or f.kind == "method" and (b.kind == "inst" or b.kind == "super" and not b.bound)
                        return V("fun", f, bound)
                    return s.instval(c, a) if f == "ann" and b.kind != "cls" else UNK
                if a in k.inst and b.kind != "cls":
                    vs = s.instval(k, a)
                    return vs
        return UNK

    def instset(s, c):
        return {a for k in c.family() for a in k.inst}

    def instval(s, c, a):
        """value of an instance attribute that is only ever assigned constructor results of one class"""
        key = (id(c), a)
        cache = s.__dict__.setdefault("ivc", {})
        if key in cache:
            return cache[key]
        cache[key] = UNK
        vals = set()
        for k in c.family():
            for f, x in k.inst.get(a, ()):
                st = next((y for y in ast.walk(f) if isinstance(y, (ast.Assign, ast.AnnAssign)) and any(t is x for t in (y.targets if isinstance(y, ast.Assign) else [y.target]))), None)
                if st is None or st.value is None:
                    vals.add(UNK)
                    continue
                if isinstance(st.value, ast.Constant) and st.value.value is None:
                    continue
                me = (f.args.args[0].arg, f._fun.kind)
                vals.add(s.expr(st.value, k.mod, k, me, s.locals(f, k.mod, k, me)))
            if a in k.members and k.members[a] not in ("ann",):
                vals.add(UNK)
        if a in s.__dict__.get("outside_only", ()):
            vals.add(UNK)
        if len(vals) == 1:
            v = vals.pop()
            if v is not UNK and v.kind == "inst":
                cache[key] = v
        if cache[key] is UNK:
            an = [(k, k.anns[a]) for k in c.mro() if a in k.anns]
            if an:
                cache[key] = s.annotated(an[0][1], an[0][0].mod)
        return cache[key]

    def annotated(s, e, m):
        """value of a variable annotated with a class of the repository (or that or None)"""
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            try:
                e = ast.parse(e.value, mode="eval").body
            except SyntaxError:
                return UNK
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
            alts = [x for x in (e.left, e.right) if not (isinstance(x, ast.Constant) and x.value is None)]
            return s.annotated(alts[0], m) if len(alts) == 1 else UNK
        if isinstance(e, (ast.Name, ast.Attribute)):
            v = s.expr(e, m, None, None, {})
            if v is not UNK and v.kind == "cls" and not v.x.isenum() and not any(x.split(".")[-1] in ("TypedDict", "Protocol", "NamedTuple") for x in v.x.ext()):
                return V("inst", v.x)
        return UNK

    def locals(s, f, m, cls, me):
        """local name -> static value of function f (only names with a single binding get a value)"""
        if hasattr(f, "_loc"):
            return f._loc
        binds = {}
        a = f.args
        for p in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
            binds.setdefault(p.arg, []).append(UNK)
        for n in walk_scope(f):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                binds.setdefault(n.id, []).append(None)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for al in n.names:
                    binds.setdefault((al.asname or al.name.split(".")[0]), []).append(None)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not f:
                binds.setdefault(n.name, []).append(None)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                binds.setdefault(n.name, []).append(None)
        imps = {}
        for n in walk_scope(f):
            if isinstance(n, ast.ImportFrom) and n.names[0].name != "*":
                for al in n.names:
                    r = s.module_member(s.absname(m, n), al.name)
                    imps[al.asname or al.name] = V("ext", s.absname(m, n) + "." + al.name) if r == "extern" else UNK if isinstance(r, str) else r
            elif isinstance(n, ast.Import):
                for al in n.names:
                    nm = al.name if al.asname else al.name.split(".")[0]
                    imps[al.asname or nm] = V("mod", nm) if s.known(nm) else V("ext", nm)
        gl = {k for n in walk_scope(f) if isinstance(n, ast.Global) for k in n.names}
        loc = {k: UNK for k in binds if k not in gl}
        f._loc = loc
        for p in a.posonlyargs + a.args + a.kwonlyargs:
            if p.annotation is not None and p.arg in loc and len(binds[p.arg]) == 1:
                loc[p.arg] = s.annotated(p.annotation, m)
        if me is not None and cls is not None and me[0] in loc and len(binds[me[0]]) == 1:
            if me[1] in ("method", "property", "other") and not cls.isenum():
                loc[me[0]] = V("inst", cls)
            elif me[1] == "class":
                loc[me[0]] = V("cls", cls)
        for k, v in imps.items():
            if len(binds.get(k, ())) == 1 and k in loc:
                loc[k] = v
        for n in walk_scope(f):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and len(binds.get(n.targets[0].id, ())) == 1:
                loc[n.targets[0].id] = s.expr(n.value, m, cls, me, loc)
        return loc


def pattern(a):
    """regular expression of the strings an expression can yield (None: anything)"""
    if isinstance(a, ast.Constant) and isinstance(a.value, str):
        return re.escape(a.value)
    if isinstance(a, ast.JoinedStr):
        r = ""
        for v in a.values:
            r += re.escape(v.value) if isinstance(v, ast.Constant) else ".*"
        return r if r.replace(".*", "") else None
    if isinstance(a, ast.BinOp) and isinstance(a.op, ast.Add):
        l, r = pattern(a.left), pattern(a.right)
        return None if l is None and r is None else (l or ".*") + (r or ".*")
    return None


STDLIB = ("math", "cmath", "os", "sys", "re", "itertools", "functools", "operator", "json", "logging", "pathlib", "collections", "time", "datetime", "copy", "shlex", "statistics", "traceback", "errno", "ast", "string", "textwrap", "enum", "argparse", "tomllib", "abc", "dataclasses", "fractions", "random", "warnings", "contextlib", "types")
SITE = "/opt/vp/venv/lib/python3.12/site-packages"
_ext = {}


def numpy_names():
    if "numpy" not in _ext:
        f = os.path.join(SITE, "numpy", "__init__.pyi")
        r = None
        if os.path.isfile(f):
            r = set(os.path.splitext(x)[0] for x in os.listdir(os.path.dirname(f)))
            for n in ast.walk(ast.parse(open(f, encoding="utf-8").read())):
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    r.add(n.name)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    r |= {a.asname or a.name for a in n.names}
                elif isinstance(n, ast.Name):
                    r.add(n.id)
            for d in ("core", "_core", "lib"):      # deprecated functions are not in the stub
                d = os.path.join(os.path.dirname(f), d)
                for x in os.listdir(d) if os.path.isdir(d) else ():
                    if x.endswith(".py"):
                        for n in ast.parse(open(os.path.join(d, x), encoding="utf-8").read()).body:
                            if isinstance(n, ast.FunctionDef):
                                r.add(n.name)
        _ext["numpy"] = r
    return _ext["numpy"]


def ext_member(path, a):
    """whether the library module or class `path` has attribute a (None: not known)"""
    parts = path.split(".")
    if parts == ["numpy"]:
        ns = numpy_names()
        return None if ns is None else a in ns
    if parts[0] not in STDLIB:
        return None
    import importlib
    try:
        o = importlib.import_module(parts[0])
        for i, k in enumerate(parts[1:]):
            try:
                o = getattr(o, k)
            except AttributeError:
                o = importlib.import_module(".".join(parts[: i + 2]))
    except Exception:
        return None
    if not isinstance(o, (type, type(os))):
        return None
    if hasattr(o, a):
        return True
    try:
        importlib.import_module(path + "." + a)
        return True
    except Exception:
        return False


def patterns(a, f):
    """patterns of the strings an expression of function f can yield, following local variables and loops over literals"""
    p = pattern(a)
    if p is not None or not isinstance(a, ast.Name):
        return [p]
    out, n = [], 0
    for x in ast.walk(f):
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and x.targets[0].id == a.id:
            out.append(pattern(x.value))
            n += 1
        elif isinstance(x, ast.NamedExpr) and x.target.id == a.id:
            out.append(pattern(x.value))
            n += 1
        elif isinstance(x, (ast.For, ast.comprehension)) and isinstance(x.target, ast.Name) and x.target.id == a.id:
            it = x.iter
            out += [pattern(e) for e in it.elts] if isinstance(it, (ast.List, ast.Tuple)) else [None]
            n += 1
        elif isinstance(x, ast.Name) and x.id == a.id and isinstance(x.ctx, ast.Store):
            n -= 0
    stores = sum(1 for x in ast.walk(f) if isinstance(x, ast.Name) and x.id == a.id and isinstance(x.ctx, ast.Store))
    return out if n and n == stores else [None]


def broad(p):
    """patterns that say next to nothing"""
    return p is None or len(p.replace(".*", "").replace("\\", "").replace("_", "")) < 3


def walk_scope(f):
    """nodes of a function body without nested scopes (the nested definition nodes themselves are included)"""
    todo = list(f.body) if not isinstance(f, ast.Lambda) else [f.body]
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            if not isinstance(n, ast.Lambda):
                todo.extend(n.decorator_list)
            if not isinstance(n, ast.ClassDef):
                todo.extend(n.args.defaults + [d for d in n.args.kw_defaults if d])
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            todo.append(n.generators[0].iter)
            continue
        todo.extend(ast.iter_child_nodes(n))
