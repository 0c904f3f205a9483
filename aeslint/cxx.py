"""Abstract interpreter for the C++ sources (clang's typed syntax tree -> terms).

Doubles are terms of `terms.py`, integers and booleans are concrete; pointers are bounds-checked views of element lists.  OpenMP loops are
executed per iteration with a footprint log (cells and elements read/written), from which data races are derived: two different
iterations touching one location, at least one writing, where the location is neither loop-local, private nor a reduction variable.
"""
from __future__ import annotations
import json
import os
import re
import subprocess
from fractions import Fraction
from . import terms as T
from .terms import Node, N, num, fn
from .interp import Unsupported

INC = os.path.join(os.path.dirname(os.path.abspath(__file__)), "cxxinc")
CLANG = next((c for c in ("/usr/bin/clang++-18", "/usr/bin/clang++") if os.path.exists(c)), "clang++")


class CxxError(Exception):
    """undefined behaviour / failed run of the analysed program"""
    def __init__(self, msg, where=""):
        Exception.__init__(self, f"{msg} at {where}")
        self.where = where


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class _Return(Exception):
    def __init__(self, v):
        self.v = v


UNINIT = type("Uninit", (), {"__repr__": lambda s: "<uninitialised>"})()


class Cell:
    __slots__ = ("v", "name")

    def __init__(self, v=UNINIT, name=""):
        self.v, self.name = v, name


class Elem:
    __slots__ = ("l", "i")

    def __init__(self, l, i):
        self.l, self.i = l, i


class Ptr:
    def __init__(self, l, off=0):
        self.l, self.off = l, off


class Lamb:
    def __init__(self, params, body, env, ty):
        self.params, self.body, self.env, self.ty = params, body, env, ty


class Vec:
    def __init__(self, l=None):
        self.l = l if l is not None else []


class Map:
    def __init__(self, d=None):
        self.d = d if d is not None else {}
        self.inserted = []


class Iter:
    def __init__(self, m, k):
        self.m, self.k = m, k


class CObj:
    def __init__(self, cls):
        self.cls, self.f = cls, {}


class Omp:
    def __init__(self, where, private, reds):
        self.where, self.private, self.reds = where, private, reds
        self.log = {}
        self.it = None
        self.fresh = set()
        self.keep = []


class Program:
    def __init__(self):
        self.classes, self.methods, self.funcs, self.enums, self.globals = {}, {}, {}, {}, {}
        self.srcs, self.files, self.functions = {}, set(), set()
        self.races = {}
        self.omp = []
        self.omp_loops = set()
        self.steps = 0
        self.order = None

    # ---------- loading
    def load(self, path, incs=()):
        p = subprocess.run([CLANG, "-std=c++17", "-fopenmp", "-I" + INC, *("-I" + i for i in incs), "-fsyntax-only", "-Xclang", "-ast-dump=json", path],
                           capture_output=True, text=True)
        if p.returncode:
            raise Unsupported("source does not parse: " + p.stderr[:200])
        tu = json.loads(p.stdout)
        cur = [None]
        own = {os.path.realpath(i) for i in incs} | {os.path.realpath(os.path.dirname(path))}
        names = {}

        def visit(n):
            loc = n.get("loc") or {}
            for l in (loc, loc.get("spellingLoc") or {}, loc.get("expansionLoc") or {}):
                if "file" in l:
                    cur[0] = l["file"]
            at = cur[0]
            rng = n.get("range") or {}
            for e in ("begin", "end"):
                b = rng.get(e) or {}
                for l in (b, b.get("spellingLoc") or {}, b.get("expansionLoc") or {}):
                    if "file" in l:
                        cur[0] = l["file"]
            n["_f"] = at
            for c in n.get("inner", ()):
                if c:
                    visit(c)
        for d in tu["inner"]:
            visit(d)
            f = d.get("_f")
            if f is None or os.path.realpath(os.path.dirname(f)) not in own:
                continue
            self.files.add(os.path.realpath(f))
            self.top(d, names)

    def top(self, d, names):
        k = d["kind"]
        if k in ("NamespaceDecl", "LinkageSpecDecl"):
            for c in d.get("inner", ()):
                self.top(c, names)
        elif k == "CXXRecordDecl" and d.get("completeDefinition"):
            names[d["id"]] = d["name"]
            self.classes[d["name"]] = d
            for c in d.get("inner", ()):
                if c["kind"] in ("CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl", "FunctionTemplateDecl"):
                    self.fun(c, d["name"])
                elif c["kind"] == "EnumDecl":
                    self.enum(c)
        elif k == "CXXRecordDecl":
            names[d["id"]] = d.get("name")
        elif k in ("CXXMethodDecl", "CXXConstructorDecl", "CXXDestructorDecl"):
            self.fun(d, names.get(d.get("parentDeclContextId")))
        elif k == "FunctionDecl":
            self.fun(d, None)
        elif k == "EnumDecl":
            self.enum(d)
        elif k == "VarDecl":
            self.globals[d["id"]] = d

    def enum(self, d):
        v = -1
        for c in d.get("inner", ()):
            if c["kind"] == "EnumConstantDecl":
                v += 1
                for e in c.get("inner", ()):
                    if "value" in e:
                        v = int(e["value"])
                self.enums[c["id"]] = v
                self.enums[c["name"]] = v

    def fun(self, d, cls):
        ps = [c for c in d.get("inner", ()) if c["kind"] == "ParmVarDecl"]
        body = next((c for c in d.get("inner", ()) if c["kind"] == "CompoundStmt"), None)
        key = (cls, d["name"] if d["kind"] not in ("CXXConstructorDecl", "CXXDestructorDecl") else ("<ctor>" if d["kind"] == "CXXConstructorDecl" else "<dtor>"), len(ps))
        if d.get("isImplicit"):
            return
        e = self.methods.setdefault(key, {"defaults": {}})
        for i, p in enumerate(ps):
            ini = [c for c in p.get("inner", ()) if c["kind"] not in ("FullComment",)]
            if ini and "init" in p:
                e["defaults"][i] = ini[-1]
        if body is not None:
            e["node"], e["params"], e["body"] = d, ps, body

    def where(self, n):
        f = n.get("_f") or "?"
        b = (n.get("range") or {}).get("begin") or {}
        b = b.get("expansionLoc") or b
        o = b.get("offset")
        if f not in self.srcs and os.path.exists(f):
            self.srcs[f] = open(f).read()
        if o is None or f not in self.srcs:
            return f
        return f"{os.path.relpath(f, os.environ.get('AES_REPO', '/repo'))}:{self.srcs[f].count(chr(10), 0, o) + 1}"

    # ---------- footprints
    def note(self, loc, kind, name, keep):
        for o in self.omp:
            if o.it is None or loc[0] in o.fresh:
                continue
            o.keep.append(keep)
            o.log.setdefault(loc, [name, set(), set()])[1 if kind == "r" else 2].add(o.it)

    def born(self, x):
        for o in self.omp:
            if o.it is not None:
                o.fresh.add(id(x))
                o.keep.append(x)
        return x

    def rd(self, lv):
        if isinstance(lv, Cell):
            self.note((id(lv),), "r", lv.name, lv)
            if lv.v is UNINIT:
                raise CxxError(f"read of uninitialised variable {lv.name}", self.cur)
            return lv.v
        if isinstance(lv, Elem):
            if not 0 <= lv.i < len(lv.l):
                raise CxxError(f"read of element {lv.i} of a sequence of {len(lv.l)}", self.cur)
            self.note((id(lv.l), lv.i), "r", f"element {lv.i}", lv.l)
            v = lv.l[lv.i]
            if v is UNINIT:
                raise CxxError(f"read of uninitialised element {lv.i}", self.cur)
            return v
        return lv

    def wr(self, lv, v):
        if isinstance(lv, Cell):
            self.note((id(lv),), "w", lv.name, lv)
            lv.v = v
        elif isinstance(lv, Elem):
            if not 0 <= lv.i < len(lv.l):
                raise CxxError(f"write to element {lv.i} of a sequence of {len(lv.l)}", self.cur)
            self.note((id(lv.l), lv.i), "w", f"element {lv.i}", lv.l)
            lv.l[lv.i] = v
        else:
            raise Unsupported("assignment target")
        return v

    def copyv(self, v):
        return self.born(Vec(self.born(list(v.l)))) if isinstance(v, Vec) else v

    # ---------- calls
    def construct(self, cls, args):
        o = self.born(CObj(cls))
        for c in self.classes[cls].get("inner", ()):
            if c["kind"] == "FieldDecl":
                o.f[c["name"]] = self.born(Cell(self.default(c["type"]), c["name"]))
                if c.get("inner"):
                    ini = [x for x in c["inner"] if "Comment" not in x["kind"]]
                    if ini:
                        o.f[c["name"]].v = self.ev(ini[-1], {"this": o})
        if any(k[0] == cls and k[1] == "<ctor>" for k in self.methods):
            self.callm(o, cls, "<ctor>", args)
        return o

    def default(self, ty):
        q = ty.get("desugaredQualType") or ty["qualType"]
        if "vector<" in q:
            return self.born(Vec(self.born([])))
        if "unordered_map<" in q or "map<" in q:
            return Map()
        if "basic_string" in q or q in ("string", "std::string"):
            return ""
        m = re.search(r"\[(\d+)\]$", q)
        if m:
            return Ptr(self.born([UNINIT] * int(m.group(1))))
        if q in self.classes:
            return self.construct(q, [])
        return UNINIT

    def callm(self, this, cls, name, args):
        cand = [(k, m) for k, m in self.methods.items() if k[0] == cls and k[1] == name and "node" in m and k[2] >= len(args)]
        cand = [(k, m) for k, m in cand if all(i in m["defaults"] for i in range(len(args), k[2]))]
        if not cand:
            raise Unsupported(f"no body for {cls}::{name}/{len(args)}")
        k, m = min(cand, key=lambda x: x[0][2])
        env = {"this": this}
        for i, p in enumerate(m["params"]):
            q = p["type"]["qualType"]
            if i < len(args):
                v = args[i]
            else:
                v = self.ev(m["defaults"][i], {"this": this})
            if q.rstrip().endswith("&"):
                env[p["id"]] = v if isinstance(v, (Cell, Elem)) else self.born(Cell(v, p.get("name", "")))
            else:
                env[p["id"]] = self.born(Cell(self.conv(self.copyv(self.rd(v)), p["type"]), p.get("name", "")))
        self.functions.add((m["node"].get("_f"), f"{cls + '::' if cls else ''}{name}"))
        for c in m["node"].get("inner", ()):
            if c["kind"] == "CXXCtorInitializer" and "anyInit" in c:
                this.f[c["anyInit"]["name"]].v = self.copyv(self.rd(self.ev(c["inner"][0], env)))
        try:
            self.ex(m["body"], env)
        except _Return as r:
            return r.v
        return None

    def conv(self, v, ty):
        q = (ty.get("desugaredQualType") or ty["qualType"]).replace("const ", "").strip()
        if q in ("double", "float") and isinstance(v, (int, Fraction)) and not isinstance(v, Node):
            return num(int(v) if isinstance(v, bool) else v)
        if q in ("int", "long", "unsigned int", "unsigned long", "size_t", "long long", "unsigned long long", "short"):
            if isinstance(v, bool):
                return int(v)
            if isinstance(v, Node):
                c = self.const(v)
                return int(c)
        if q == "bool" and isinstance(v, (int,)):
            return bool(v)
        return v

    def const(self, v):
        if isinstance(v, (int, Fraction)):
            return v
        c = T.is_num(v) if hasattr(T, "is_num") else None
        if isinstance(v, Node) and v.op == "num":
            return v.args[0]
        raise Unsupported("value depends on the data: " + T.show(v)[:80])

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            return v != 0
        if isinstance(v, Ptr):
            return True
        if isinstance(v, Node):
            return self.const(v) != 0
        raise Unsupported(f"condition {v!r}")

    # ---------- statements
    def ex(self, n, env):
        self.steps += 1
        if self.steps > 3_000_000:
            raise Unsupported("step budget exceeded")
        k = n.get("kind")
        if "range" in n:
            self.curn = n
        m = getattr(self, "s_" + k, None)
        if m:
            return m(n, env)
        if k.startswith("OMP"):
            return self.omp_dir(n, env)
        if k.endswith(("Expr", "Operator", "Literal", "Cleanups")):
            return self.ev(n, env)
        raise Unsupported("statement " + k)

    @property
    def cur(self):
        return self.where(self.curn)

    def s_CompoundStmt(self, n, env):
        for c in n.get("inner", ()):
            self.ex(c, env)

    def s_AttributedStmt(self, n, env):
        self.ex(n["inner"][-1], env)

    def s_NullStmt(self, n, env):
        pass

    def s_DeclStmt(self, n, env):
        for d in n.get("inner", ()):
            if d["kind"] == "VarDecl":
                self.decl(d, env)
            elif d["kind"] not in ("UsingDirectiveDecl", "UsingDecl", "TypedefDecl", "TypeAliasDecl", "StaticAssertDecl", "EmptyDecl"):
                raise Unsupported("declaration " + d["kind"])

    def decl(self, d, env):
        if d.get("storageClass") == "static":
            raise Unsupported("static local")
        ini = [x for x in d.get("inner", ()) if "Comment" not in x["kind"] and not x["kind"].endswith("Attr")]
        q = d["type"]["qualType"]
        if not ini:
            env[d["id"]] = self.born(Cell(self.default(d["type"]), d["name"]))
            return
        v = self.ev(ini[-1], env)
        if q.rstrip().endswith("&"):
            env[d["id"]] = v if isinstance(v, (Cell, Elem)) else self.born(Cell(v, d["name"]))
            return
        v = self.copyv(self.rd(v))
        env[d["id"]] = self.born(Cell(self.conv(v, d["type"]), d["name"]))

    def s_ReturnStmt(self, n, env):
        raise _Return(self.copyv(self.rd(self.ev(n["inner"][0], env))) if n.get("inner") else None)

    def s_BreakStmt(self, n, env):
        raise _Break()

    def s_ContinueStmt(self, n, env):
        raise _Continue()

    def s_IfStmt(self, n, env):
        inner = list(n["inner"])
        if n.get("hasInit"):
            self.ex(inner.pop(0), env)
        if n.get("hasVar"):
            self.ex(inner.pop(0), env)
        c = self.truth(self.rd(self.ev(inner[0], env)))
        if c:
            self.ex(inner[1], env)
        elif n.get("hasElse"):
            self.ex(inner[2], env)

    def body(self, b, env):
        try:
            self.ex(b, env)
        except _Continue:
            pass

    def s_ForStmt(self, n, env, hook=None):
        ini, _, cond, inc, body = n["inner"]
        if ini:
            self.ex(ini, env)
        i = 0
        try:
            while not cond or self.truth(self.rd(self.ev(cond, env))):
                if hook:
                    hook(i)
                self.body(body, env)
                if hook:
                    hook(None)
                if inc:
                    self.ev(inc, env)
                i += 1
        except _Break:
            if hook:
                raise CxxError("break out of a worksharing loop", self.cur)

    def s_WhileStmt(self, n, env):
        *_, cond, body = n["inner"]
        try:
            while self.truth(self.rd(self.ev(cond, env))):
                self.body(body, env)
        except _Break:
            pass

    def s_DoStmt(self, n, env):
        body, cond = n["inner"]
        try:
            while True:
                self.body(body, env)
                if not self.truth(self.rd(self.ev(cond, env))):
                    break
        except _Break:
            pass

    def s_CXXForRangeStmt(self, n, env):
        rng = next(c for c in n["inner"] if c and c["kind"] == "DeclStmt" and c["inner"][0].get("name", "").startswith("__range"))
        var = [c for c in n["inner"] if c and c["kind"] == "DeclStmt"][-1]["inner"][0]
        v = self.rd(self.ev([x for x in rng["inner"][0]["inner"] if "Comment" not in x["kind"]][-1], env))
        if not isinstance(v, Vec):
            raise Unsupported("range-for over " + type(v).__name__)
        try:
            for i in range(len(v.l)):
                e = Elem(v.l, i)
                env[var["id"]] = e if var["type"]["qualType"].rstrip().endswith("&") else self.born(Cell(self.rd(e), var["name"]))
                self.body(n["inner"][-1], env)
        except _Break:
            pass

    def s_SwitchStmt(self, n, env):
        inner = list(n["inner"])
        if n.get("hasInit"):
            self.ex(inner.pop(0), env)
        v = self.rd(self.ev(inner[0], env))
        v = int(self.const(v)) if not isinstance(v, bool) else int(v)
        flat = []

        def add(s):
            if s["kind"] == "CaseStmt":
                flat.append(("case", int(self.const(self.rd(self.ev(s["inner"][0], env))))))
                for c in s["inner"][1:]:
                    add(c)
            elif s["kind"] == "DefaultStmt":
                flat.append(("default", None))
                for c in s.get("inner", ()):
                    add(c)
            else:
                flat.append(("stmt", s))
        for s in inner[1].get("inner", ()):
            add(s)
        start = next((i for i, (k, x) in enumerate(flat) if k == "case" and x == v), None)
        if start is None:
            start = next((i for i, (k, x) in enumerate(flat) if k == "default"), None)
        if start is None:
            return
        try:
            for k, s in flat[start:]:
                if k == "stmt":
                    self.ex(s, env)
        except _Break:
            pass

    # ---------- OpenMP
    def omp_dir(self, n, env):
        f = n["_f"]
        self.where(n)
        b, e = n["range"]["begin"]["offset"], n["range"]["end"]["offset"]
        txt = re.sub(r"\\\s*\n", " ", self.srcs[f][b:e + n["range"]["end"].get("tokLen", 0)])
        cap = next(c for c in n["inner"] if c.get("kind") == "CapturedStmt")
        st = cap["inner"][0]["inner"][0]
        if n["kind"] in ("OMPSimdDirective", "OMPParallelForDirective", "OMPForDirective", "OMPParallelForSimdDirective"):
            pass
        else:
            raise Unsupported("directive " + n["kind"])
        if st["kind"] != "ForStmt":
            raise Unsupported("directive without a plain loop")
        byname = {}
        for c in cap.get("inner", ()):
            if c.get("kind") == "DeclRefExpr":
                byname[c["referencedDecl"]["name"]] = c["referencedDecl"]["id"]

        def collect(x):
            if x.get("kind") == "DeclRefExpr" and "referencedDecl" in x:
                byname.setdefault(x["referencedDecl"].get("name"), x["referencedDecl"]["id"])
            for c in x.get("inner", ()):
                if c:
                    collect(c)
        collect(st)
        priv, reds = [], []
        for cl, arg in re.findall(r"\b(private|firstprivate|lastprivate|linear|reduction|copyprivate|if|collapse|ordered)\s*\(([^()]*)\)", txt):
            if cl in ("private", "firstprivate"):
                priv += [(cl, x.strip()) for x in arg.split(",")]
            elif cl == "reduction":
                op, vs = arg.split(":")
                reds += [(op.split(",")[-1].strip(), x.strip()) for x in vs.split(",")]
            elif cl == "if":
                pass
            else:
                raise Unsupported("clause " + cl)
        env2 = dict(env)
        redc = {}
        for op, nm in reds:
            c = env.get(byname.get(nm))
            if c is None:
                c = env["this"].f.get(nm) if env.get("this") is not None else None
            if c is None:
                raise Unsupported("reduction variable " + nm)
            redc[id(c)] = (op, c)
        o = Omp(self.where(n), priv, redc)
        self.omp_loops.add(o.where)
        firsts = {nm: env[byname[nm]].v for cl, nm in priv if byname.get(nm) in env}
        for cl, nm in priv:
            if byname.get(nm) in env2:
                env2[byname[nm]] = Cell(UNINIT, nm)
        self.omp.append(o)
        redvals = {i: c.v for i, (op, c) in redc.items()}
        contrib = {i: [] for i in redc}
        IDENT = {"+": num(0), "*": num(1), "-": num(0)}

        def hook(i):
            if i is None:
                for r, (op, c) in redc.items():
                    contrib[r].append(own(r, op, c))
                o.it = None
                return
            o.it = i
            for cl, nm in priv:
                if byname.get(nm) in env2:
                    env2[byname[nm]].v = UNINIT if cl == "private" else firsts[nm]
            for r, (op, c) in redc.items():
                if op not in IDENT:
                    raise Unsupported("reduction " + op)
                c.v = start[r] if r in start else int(IDENT[op].args[0])

        # a thread may run any number of the iterations one after the other on its private copy: an iteration must add to (multiply) whatever the
        # copy holds, so it is started from a free symbol and its own contribution is what is left once that symbol is the neutral element
        start = {r: T.sym(f"copy of {c.name}") for r, (op, c) in redc.items() if isinstance(redvals[r], Node)}

        def own(r, op, c):
            if r not in start:
                return c.v
            d = T.subst(N(c.v), {start[r]: IDENT[op]})
            back = start[r] * d if op == "*" else start[r] + d
            if N(c.v) != back and not T.equal(N(c.v), N(back), rounds=1, boundary=False):
                self.races.setdefault(o.where, set()).add(f"{c.name} (what an iteration adds depends on which iterations the thread ran before)")
            return d
        try:
            self.s_ForStmt(st, env2, hook)
        except (_Return,):
            raise CxxError("return out of a worksharing loop", o.where)
        finally:
            self.omp.pop()
            o.it = None
        for r, (op, c) in redc.items():
            v = redvals[r]
            for x in contrib[r]:
                v = v * x if op == "*" else v + x
            c.v = v
        for loc, (nm, rs, ws) in o.log.items():
            if loc[0] in redc and len(loc) == 1:
                continue
            if len(ws) > 1 or (ws and rs - ws):
                self.races.setdefault(o.where, set()).add(nm)

    # ---------- expressions
    def ev(self, n, env):
        k = n["kind"]
        m = getattr(self, "e_" + k, None)
        if m is None:
            raise Unsupported("expression " + k)
        return m(n, env)

    def val(self, n, env):
        return self.rd(self.ev(n, env))

    def passthru(self, n, env):
        return self.ev(n["inner"][0], env)
    e_ParenExpr = e_ExprWithCleanups = e_MaterializeTemporaryExpr = e_CXXBindTemporaryExpr = e_ConstantExpr = e_CXXStdInitializerListExpr = e_SubstNonTypeTemplateParmExpr = passthru

    def e_IntegerLiteral(self, n, env):
        return int(n["value"])

    def e_FloatingLiteral(self, n, env):
        f = n["_f"]
        self.where(n)
        b = n["range"]["begin"]
        if "offset" in b and f in self.srcs:
            t = self.srcs[f][b["offset"]:b["offset"] + b["tokLen"]].rstrip("fFlL")
            try:
                return num(Fraction(t))
            except ValueError:
                pass
        return num(Fraction(n["value"]))

    def e_StringLiteral(self, n, env):
        return json.loads(n["value"])

    def e_CXXBoolLiteralExpr(self, n, env):
        return bool(n["value"])

    def e_CXXThisExpr(self, n, env):
        return env["this"]

    def e_CXXNullPtrLiteralExpr(self, n, env):
        return 0

    def e_DeclRefExpr(self, n, env):
        r = n["referencedDecl"]
        if r["id"] in env:
            return env[r["id"]]
        if r["kind"] == "EnumConstantDecl":
            return self.enums[r["id"]] if r["id"] in self.enums else self.enums[r["name"]]
        if r["kind"] in ("FunctionDecl", "CXXMethodDecl"):
            return ("fn", r["name"])
        if r["id"] in self.globals:
            d = self.globals[r["id"]]
            self.decl(d, env0 := {"this": None})
            self.globals_env = getattr(self, "globals_env", {})
            c = self.globals_env.setdefault(r["id"], env0[d["id"]])
            return c
        raise Unsupported("name " + str(r.get("name")))

    def e_MemberExpr(self, n, env):
        o = self.val(n["inner"][0], env)
        if isinstance(o, CObj):
            if n["name"] in o.f:
                return o.f[n["name"]]
            return ("method", o, n["name"])
        if isinstance(o, Iter) and n["name"] in ("second", "first"):
            return o.m.d[o.k] if n["name"] == "second" else o.k
        return ("method", o, n["name"])

    def e_ArraySubscriptExpr(self, n, env):
        p, i = self.val(n["inner"][0], env), self.val(n["inner"][1], env)
        if not isinstance(p, Ptr):
            raise Unsupported("subscript of " + type(p).__name__)
        return Elem(p.l, p.off + int(self.const(i)))

    def isint(self, n):
        q = n["type"].get("desugaredQualType") or n["type"]["qualType"]
        return q.replace("const ", "") in ("int", "long", "unsigned int", "unsigned long", "long long", "unsigned long long", "short", "char", "unsigned short")

    def arith(self, op, a, b, isint):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op in ("+", "-") and isinstance(a, Ptr) and isinstance(b, int):
                return Ptr(a.l, a.off + (b if op == "+" else -b))
            if op == "+" and isinstance(b, Ptr):
                return Ptr(b.l, b.off + a)
            if op == "-" and isinstance(a, Ptr) and isinstance(b, Ptr) and a.l is b.l:
                return a.off - b.off
            raise Unsupported("pointer arithmetic")
        a, b = (int(x) if isinstance(x, bool) else x for x in (a, b))
        if isint or (isinstance(a, int) and isinstance(b, int)):
            a, b = int(self.const(a)), int(self.const(b))
            if op in "/%":
                if b == 0:
                    raise CxxError("integer division by zero", self.cur)
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return q if op == "/" else a - b * q
            return {"+": a + b, "-": a - b, "*": a * b, "<<": a << b if op == "<<" else 0, ">>": a >> b if op == ">>" else 0, "&": a & b, "|": a | b, "^": a ^ b}[op]
        if isinstance(a, str):
            return a + b
        a, b = N(a), N(b)
        return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b}[op]()

    def compare(self, op, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.l is not b.l:
                if op in ("==", "!="):
                    return op == "!="
                raise CxxError("comparison of pointers into different storage", self.cur)
            a, b = a.off, b.off
            return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
        if isinstance(a, (str, Ptr, Iter)) or isinstance(b, (str, Ptr, Iter)):
            e = (a == b) if isinstance(a, str) else (isinstance(a, Iter) and isinstance(b, Iter) and a.k == b.k)
            if op in ("==", "!="):
                return e if op == "==" else not e
            raise Unsupported("comparison")
        a, b = (x if isinstance(x, int) else self.const(x) if isinstance(x, Node) and x.op == "num" else x for x in (a, b))
        if isinstance(a, Node) or isinstance(b, Node):
            d = N(a) - N(b)
            a, b = self.const(d), 0
        return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[op]

    def e_BinaryOperator(self, n, env):
        op = n["opcode"]
        l, r = n["inner"]
        if op == "=":
            v = self.copyv(self.val(r, env))
            lv = self.ev(l, env)
            self.wr(lv, self.conv(v, l["type"]))
            return lv
        if op == "&&":
            return self.truth(self.val(l, env)) and self.truth(self.val(r, env))
        if op == "||":
            return self.truth(self.val(l, env)) or self.truth(self.val(r, env))
        if op == ",":
            self.ev(l, env)
            return self.ev(r, env)
        a, b = self.val(l, env), self.val(r, env)
        if op in ("<", ">", "<=", ">=", "==", "!="):
            return self.compare(op, a, b)
        return self.arith(op, a, b, self.isint(n))

    def e_CompoundAssignOperator(self, n, env):
        l, r = n["inner"]
        b = self.val(r, env)
        lv = self.ev(l, env)
        a = self.rd(lv)
        cr = n.get("computeResultType", n["type"])
        v = self.arith(n["opcode"][:-1], a, b, self.isint({"type": cr}))
        self.wr(lv, self.conv(v, l["type"]))
        return lv

    def e_UnaryOperator(self, n, env):
        op = n["opcode"]
        if op in ("++", "--"):
            lv = self.ev(n["inner"][0], env)
            a = self.rd(lv)
            v = self.arith("+" if op == "++" else "-", a, 1, not isinstance(a, (Node, Ptr)))
            self.wr(lv, v)
            return a if n.get("isPostfix") else lv
        if op == "&":
            lv = self.ev(n["inner"][0], env)
            if isinstance(lv, Elem):
                return Ptr(lv.l, lv.i)
            raise Unsupported("address of a scalar")
        v = self.val(n["inner"][0], env)
        if op == "-":
            return -v if isinstance(v, int) else -1 * v
        if op == "+":
            return v
        if op == "!":
            return not self.truth(v)
        if op == "*":
            if isinstance(v, Ptr):
                return Elem(v.l, v.off)
            if isinstance(v, CObj):
                return v
        raise Unsupported("operator " + op)

    def e_ConditionalOperator(self, n, env):
        c, a, b = n["inner"]
        return self.ev(a if self.truth(self.val(c, env)) else b, env)

    def cast(self, n, env):
        ck = n.get("castKind")
        if ck in ("ArrayToPointerDecay", "BuiltinFnToFnPtr", "NoOp", "LValueToRValue", "UserDefinedConversion", "ConstructorConversion", "FunctionToPointerDecay", "UncheckedDerivedToBase", "DerivedToBase", None):
            v = self.ev(n["inner"][0], env)
            return self.rd(v) if ck == "LValueToRValue" else v
        v = self.val(n["inner"][0], env)
        if ck == "IntegralToFloating":
            return num(int(v))
        if ck in ("FloatingToIntegral",):
            return int(self.const(v))
        if ck in ("IntegralCast", "BooleanToSignedIntegral"):
            if isinstance(v, int) and v < 0 and ("unsigned" in n["type"].get("desugaredQualType", n["type"]["qualType"])):
                return v + 2 ** (64 if "long" in n["type"].get("desugaredQualType", n["type"]["qualType"]) else 32)
            return int(v) if isinstance(v, bool) else v
        if ck in ("FloatingCast", "BitCast"):
            return v
        if ck in ("IntegralToBoolean", "PointerToBoolean", "FloatingToBoolean"):
            return self.truth(v)
        if ck == "ToVoid":
            return None
        raise Unsupported("cast " + str(ck))
    e_ImplicitCastExpr = e_CStyleCastExpr = e_CXXStaticCastExpr = e_CXXFunctionalCastExpr = e_CXXConstCastExpr = cast

    def e_InitListExpr(self, n, env):
        return [self.val(c, env) for c in n.get("inner", ())]

    def e_CXXDefaultArgExpr(self, n, env):
        return ("default",)

    def e_CXXConstructExpr(self, n, env):
        q = n["type"].get("desugaredQualType") or n["type"]["qualType"]
        args = [self.ev(c, env) for c in n.get("inner", ())]
        args = [a for a in args if a != ("default",)]
        q = q.replace("const ", "").strip()
        if q in self.classes:
            if len(args) == 1 and isinstance(self.rd(args[0]), CObj) and self.rd(args[0]).cls == q:
                raise Unsupported("object copy")
            return self.construct(q, args)
        vals = [self.rd(a) for a in args]
        if "vector<" in q:
            if not vals:
                return self.born(Vec(self.born([])))
            if isinstance(vals[0], Vec):
                return self.copyv(vals[0])
            if isinstance(vals[0], int):
                return self.born(Vec(self.born([vals[1] if len(vals) > 1 and isinstance(vals[1], (Node, int)) else num(0)] * vals[0])))
            if isinstance(vals[0], list):
                return self.born(Vec(self.born(list(vals[0]))))
        if "pair<" in q and len(vals) == 2:
            return tuple(vals)
        if "map<" in q:
            if vals and isinstance(vals[0], list):
                return Map({(x[0] if not isinstance(x, list) else x[0]): x[1] for x in vals[0]})
            if vals and isinstance(vals[0], Map):
                return vals[0]
            return Map()
        if "string" in q:
            return vals[0] if vals else ""
        if len(vals) == 1:
            return vals[0]
        raise Unsupported("construction of " + q)
    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_CXXMemberCallExpr(self, n, env):
        m = self.ev(n["inner"][0], env)
        args = [self.ev(c, env) for c in n["inner"][1:]]
        args = [a for a in args if a != ("default",)]
        if not (isinstance(m, tuple) and m[0] == "method"):
            raise Unsupported("member call")
        _, o, nm = m
        if isinstance(o, CObj):
            return self.callm(o, o.cls, nm, args)
        vals = [self.rd(a) for a in args]
        if isinstance(o, Vec):
            if nm in ("push_back", "emplace_back"):
                self.note((id(o.l), "size"), "w", "vector size", o.l)
                o.l.append(vals[0])
                return None
            if nm == "size":
                self.note((id(o.l), "size"), "r", "vector size", o.l)
                return len(o.l)
            if nm == "empty":
                return not o.l
            if nm in ("data", "begin", "cbegin"):
                return Ptr(o.l)
            if nm in ("end", "cend"):
                return Ptr(o.l, len(o.l))
            if nm == "reserve":
                return None
            if nm in ("resize", "assign"):
                self.note((id(o.l), "size"), "w", "vector size", o.l)
                if nm == "assign":
                    o.l[:] = [vals[1]] * vals[0]
                else:
                    k = vals[0]
                    o.l[k:] = []
                    o.l.extend([vals[1] if len(vals) > 1 else num(0)] * (k - len(o.l)))
                return None
            if nm == "clear":
                o.l[:] = []
                return None
            if nm == "at":
                return Elem(o.l, vals[0])
            if nm in ("front", "back"):
                return Elem(o.l, 0 if nm == "front" else len(o.l) - 1)
        if isinstance(o, Map):
            if nm == "at":
                if vals[0] not in o.d:
                    raise CxxError(f"no key {vals[0]!r}", self.cur)
                return o.d[vals[0]]
            if nm == "count":
                return int(vals[0] in o.d)
            if nm == "find":
                return Iter(o, vals[0] if vals[0] in o.d else None)
            if nm in ("end", "cend"):
                return Iter(o, None)
        raise Unsupported(f"member {type(o).__name__}.{nm}")

    def e_CXXOperatorCallExpr(self, n, env):
        f = self.ev(n["inner"][0], env)
        op = f[1]
        a = self.ev(n["inner"][1], env)
        o = self.rd(a)
        if isinstance(o, Lamb):
            return self.calllam(o, [self.ev(c, env) for c in n["inner"][2:]])
        if isinstance(o, Ptr):
            rest = [self.val(c, env) for c in n["inner"][2:]]
            o2 = op[8:]
            if o2 == "*" and not rest:
                return Elem(o.l, o.off)
            if o2 == "[]":
                return Elem(o.l, o.off + int(self.const(rest[0])))
            if o2 in ("++", "--"):
                self.wr(a, Ptr(o.l, o.off + (1 if o2 == "++" else -1)))
                return o if rest else a
            if o2 in ("+=", "-="):
                self.wr(a, self.arith(o2[0], o, int(self.const(rest[0])), False))
                return a
            if o2 in ("+", "-"):
                return self.arith(o2, o, rest[0], False)
            if o2 in ("==", "!=", "<", "<=", ">", ">="):
                return self.compare(o2, o, rest[0])
        if op == "operator[]":
            k = self.val(n["inner"][2], env)
            if isinstance(o, Vec):
                return Elem(o.l, int(self.const(k)))
            if isinstance(o, Map):
                if k not in o.d:
                    o.d[k] = 0
                    o.inserted.append(k)
                return o.d[k]
        if op in ("operator==", "operator!=", "operator<", "operator+"):
            b = self.val(n["inner"][2], env)
            return o + b if op == "operator+" else self.compare(op[8:], o, b)
        if op == "operator=":
            self.wr(a, self.copyv(self.val(n["inner"][2], env)))
            return a
        if op == "operator->" and isinstance(o, Iter):
            return o
        raise Unsupported("operator call " + op)

    MATH = {"sqrt": "sqrt", "exp": "exp", "log": "log", "cos": "cos", "sin": "sin", "fabs": "abs", "abs": "abs"}

    def e_CallExpr(self, n, env):
        f = self.ev(n["inner"][0], env)
        args = [self.ev(c, env) for c in n["inner"][1:]]
        args = [a for a in args if a != ("default",)]
        if isinstance(self.rd(f), Lamb):
            return self.calllam(self.rd(f), args)
        if not (isinstance(f, tuple) and f[0] == "fn"):
            raise Unsupported("call")
        nm = f[1]
        if any(k[0] is None and k[1] == nm and "node" in m for k, m in self.methods.items()):
            return self.callm(None, None, nm, args)
        vals = [self.rd(a) for a in args]
        if nm == "pow":
            e = vals[1]
            e = self.const(e)
            if e == Fraction(1, 2):
                return T.sqrt(N(vals[0]))
            if Fraction(e).denominator == 1:
                return N(vals[0]) ** int(e)
            return N(vals[0]) ** e
        if nm == "fma":
            return N(vals[0]) * N(vals[1]) + N(vals[2])
        if nm == "sqrt":
            return T.sqrt(N(vals[0]))
        if nm in self.MATH:
            return fn(self.MATH[nm], N(vals[0]))
        if nm in ("min", "max"):
            a, b = vals
            return a if self.compare("<=" if nm == "min" else ">=", a, b) else b
        if nm.startswith("omp_"):
            return 1
        if nm in ("move", "forward", "as_const") and len(args) == 1:
            return args[0]
        if vals and isinstance(vals[0], Ptr):
            r = self.algorithm(nm, vals)
            if r is not NotImplemented:
                return r
        raise Unsupported("call of " + nm)

    def span(self, a, b):
        if not (isinstance(a, Ptr) and isinstance(b, Ptr)) or a.l is not b.l:
            raise Unsupported("iterator range")
        return [Elem(a.l, i) for i in range(a.off, b.off)]

    def applied(self, f, args):
        if isinstance(f, Lamb):
            return self.rd(self.calllam(f, args))
        if isinstance(f, tuple) and f[0] == "fn":
            return self.rd(self.callm(None, None, f[1], args))
        raise Unsupported("function object")

    def algorithm(self, nm, v):
        """the element-wise standard algorithms over pointer or vector ranges"""
        if nm in ("accumulate", "reduce") and len(v) >= 2:
            acc = v[2] if len(v) > 2 else num(0)
            for e in self.span(v[0], v[1]):
                acc = self.applied(v[3], [acc, self.rd(e)]) if len(v) > 3 else self.arith("+", acc, self.rd(e), False)
            return acc
        if nm in ("inner_product", "transform_reduce") and len(v) == 4 and isinstance(v[2], Ptr):
            acc = v[3]
            for k, e in enumerate(self.span(v[0], v[1])):
                acc = self.arith("+", acc, self.arith("*", self.rd(e), self.rd(Elem(v[2].l, v[2].off + k)), False), False)
            return acc
        if nm == "fill":
            for e in self.span(v[0], v[1]):
                self.wr(e, v[2])
            return None
        if nm == "copy":
            for k, e in enumerate(self.span(v[0], v[1])):
                self.wr(Elem(v[2].l, v[2].off + k), self.rd(e))
            return Ptr(v[2].l, v[2].off + v[1].off - v[0].off)
        if nm == "for_each":
            for e in self.span(v[0], v[1]):
                self.applied(v[2], [e])
            return v[2]
        if nm == "transform":
            two = len(v) == 5
            out, f = (v[3], v[4]) if two else (v[2], v[3])
            for k, e in enumerate(self.span(v[0], v[1])):
                x = [self.rd(e)] + ([self.rd(Elem(v[2].l, v[2].off + k))] if two else [])
                self.wr(Elem(out.l, out.off + k), self.applied(f, x))
            return Ptr(out.l, out.off + v[1].off - v[0].off)
        return NotImplemented

    def e_LambdaExpr(self, n, env):
        rec = n["inner"][0]
        op = next(c for c in rec["inner"] if c["kind"] == "CXXMethodDecl" and c["name"] == "operator()")
        env2 = dict(env)
        for c in n["inner"][1:-1]:
            k = c.get("kind")
            if k in ("DeclRefExpr", "CXXThisExpr"):
                continue
            d = c
            while d.get("inner") and d.get("kind") != "DeclRefExpr":
                d = d["inner"][0]
            if d.get("kind") == "DeclRefExpr":
                nm = d["referencedDecl"]
                env2[nm["id"]] = Cell(self.copyv(self.val(c, env)), nm.get("name"))
        ps = [c for c in op.get("inner", ()) if c["kind"] == "ParmVarDecl"]
        return Lamb(ps, n["inner"][-1], env2, op["type"]["qualType"])

    def calllam(self, o, args):
        if len(args) != len(o.params):
            raise Unsupported("lambda argument count")
        env = dict(o.env)
        for p, a in zip(o.params, args):
            ref = p["type"]["qualType"].rstrip().endswith("&")
            env[p["id"]] = a if ref and isinstance(a, (Cell, Elem)) else self.born(Cell(self.conv(self.copyv(self.rd(a)), p["type"]), p.get("name")))
        try:
            self.ex(o.body, env)
        except _Return as r:
            return r.v
        return None

    def e_CXXNewExpr(self, n, env):
        return self.ev(n["inner"][-1], env)

    def e_CXXDeleteExpr(self, n, env):
        return None

    def e_UnaryExprOrTypeTraitExpr(self, n, env):
        return 8

    def e_ImplicitValueInitExpr(self, n, env):
        return num(0) if not self.isint(n) else 0
    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr
