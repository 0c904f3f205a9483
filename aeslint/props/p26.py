"""Referential integrity of the Python sources."""
import ast
import builtins
import re
import symtable
import warnings
from ..framework import REPO
from ..linker import Program, V, UNK, OBJ_ATTRS, ENUM_ATTRS, walk_scope, pattern, broad, ext_member

EXPL = ("Whole-program linking of every Python source file of the repository (tests excluded): a symbol table and class graph are built from the syntax trees; every name, import, attribute of a known module, class, enumeration or own object, every call of a known function, "
        "every unpacking of a known result and every read of a local variable is resolved; references whose target is unknown give no obligation.")


def run(chk):
    R = chk.rule
    R("source", "every source file is valid Python")
    R("name", "every name that is used is defined in its module, its function or the language")
    R("import", "everything imported from a module of the repository, numpy or the standard library exists there")
    R("member", "every attribute of a module (repository, numpy or standard library), class, enumeration or own object exists")
    R("call", "every call of a known function or constructor passes arguments it accepts, and all it requires")
    R("unpack", "a result unpacked into n variables has n parts")
    R("assigned", "no local variable is read where it cannot have been assigned")
    p = Program(REPO)
    for f, line, msg in p.errors:
        chk.bad("source", f, f"{f}:{line}", f"not valid Python: {msg}")
    chk.ok("source", f"{len(p.files)} files")
    for f, m in p.byfile.items():
        chk.files.add(p.rel(f))
        chk.guard("name", p.rel(f), lambda: module(chk, p, m), p.rel(f))
    chk.floor = 1000


def module(chk, p, m):
    with open(m.file, encoding="utf-8") as h:
        src = h.read()
    names(chk, p, m, src)
    imports(chk, p, m)
    # functions with their enclosing class
    ann = annotations(m.tree)

    def visit(node, cls, outer):
        for n in ast.iter_child_nodes(node):
            if isinstance(n, ast.ClassDef):
                body(chk, p, m, n, n._cls, None, {}, ann)
                visit(n, n._cls, {})
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                me = None
                if cls is not None and n.args.args and isinstance(node, ast.ClassDef):
                    k = getattr(n, "_fun", None)
                    if k is not None and k.kind != "static":
                        me = (n.args.args[0].arg, k.kind)
                loc = {**outer, **p.locals(n, m, cls, me)}
                body(chk, p, m, n, cls, me, loc, ann)
                assigned(chk, p, m, n, cls)
                visit(n, cls, loc)
            elif isinstance(n, ast.Lambda):
                loc = {**outer, **{a.arg: UNK for a in n.args.args + n.args.kwonlyargs}}
                visit(n, cls, loc)
            else:
                visit(n, cls, outer)
    body(chk, p, m, m.tree, None, None, {}, ann)
    visit(m.tree, None, {})


def annotations(tree):
    """ids of nodes inside annotations and of code only run for type checkers"""
    out = set()

    def add(n):
        if n is not None:
            out.update(id(x) for x in ast.walk(n))
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            add(n.returns)
            for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs + [n.args.vararg, n.args.kwarg]:
                if a is not None:
                    add(a.annotation)
        elif isinstance(n, ast.AnnAssign):
            add(n.annotation)
        elif isinstance(n, ast.If) and "TYPE_CHECKING" in ast.unparse(n.test):
            for x in n.body:
                add(x)
    return out


def where(p, m, n):
    return f"{p.rel(m.file)}:{getattr(n, 'lineno', 0)}"


def fname(n, cls):
    nm = getattr(n, "name", "<module>")
    return f"{cls.name}.{nm}" if cls is not None and nm != cls.name else nm


# --- names -----------------------------------------------------------------
def names(chk, p, m, src):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        top = symtable.symtable(src, m.file, "exec")
    if m.star_ext:
        return
    ann = annotations(m.tree)
    used = {}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and id(n) not in ann:
            used.setdefault(n.id, n)
    glob = set(m.vars) | {"__name__", "__file__", "__doc__", "__package__", "__path__", "__spec__", "__builtins__", "__class__"}
    cnt = 0

    def go(t):
        nonlocal cnt
        for s in t.get_symbols():
            if not s.is_referenced():
                continue
            g = s.is_global() or t.get_type() == "module"
            if not g or s.get_name() not in used:
                continue
            cnt += 1
            nm = s.get_name()
            if nm not in glob and not hasattr(builtins, nm):
                # a class body also sees its own names
                if t.get_type() == "class" and s.is_assigned():
                    continue
                chk.bad("name", f"{p.rel(m.file)}: {t.get_name()}: {nm}", where(p, m, used[nm]), f"name {nm} is not defined")
        for c in t.get_children():
            go(c)
    go(top)
    if cnt:
        chk.ok("name", f"{p.rel(m.file)}: {cnt} references to global names")


def imports(chk, p, m):
    cnt = 0
    for n in ast.walk(m.tree):
        if isinstance(n, ast.ImportFrom):
            base = p.absname(m, n)
            inrepo = n.level > 0 or p.known(base.split(".")[0])
            if not inrepo:
                for a in n.names:
                    r = None if a.name == "*" else ext_member(base, a.name)
                    if r is not None:
                        cnt += 1
                        if not r:
                            chk.bad("import", f"{p.rel(m.file)}: {base}.{a.name}", where(p, m, n), f"{a.name} does not exist in module {base}")
                continue
            for a in n.names:
                cnt += 1
                if not p.known(base):
                    chk.bad("import", f"{p.rel(m.file)}: {base}", where(p, m, n), f"module {base} does not exist")
                    continue
                if a.name != "*" and p.module_member(base, a.name) == "missing":
                    chk.bad("import", f"{p.rel(m.file)}: {base}.{a.name}", where(p, m, n), f"{a.name} does not exist in module {base}")
        elif isinstance(n, ast.Import):
            for a in n.names:
                if "." in a.name and p.known(a.name.split(".")[0]):
                    cnt += 1
                    if not p.known(a.name):
                        chk.bad("import", f"{p.rel(m.file)}: {a.name}", where(p, m, n), f"module {a.name} does not exist")
    al = p.exported(m)
    for k in al or ():
        cnt += 1
        if k not in m.vars and not m.star_ext and not p.known(m.name + "." + k):
            chk.bad("import", f"{p.rel(m.file)}: __all__: {k}", p.rel(m.file), f"the exported name {k} does not exist")
    if cnt:
        chk.ok("import", f"{p.rel(m.file)}: {cnt} imported names")


# --- attributes, calls, unpacking -------------------------------------------
def nodes(f):
    """expression nodes of a scope with comprehension variables: (node, extra local names)"""
    def go(n, extra):
        yield n, extra
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for x in n.decorator_list + n.args.defaults + [d for d in n.args.kw_defaults if d]:
                yield from go(x, extra)
            return
        if isinstance(n, ast.ClassDef):
            for x in n.decorator_list + n.bases:
                yield from go(x, extra)
            return
        if isinstance(n, ast.Lambda):
            extra = extra | {a.arg for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs + [n.args.vararg, n.args.kwarg] if a is not None}
            yield from go(n.body, extra)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            tg = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            extra = extra | tg
        for x in ast.iter_child_nodes(n):
            yield from go(x, extra)
    bodies = f.body
    for st in bodies:
        yield from go(st, frozenset())


def guarded(f):
    """attribute accesses protected by hasattr / except AttributeError"""
    out = set()
    for n in ast.walk(f):
        if isinstance(n, ast.Try) and any(h.type is None or any(isinstance(x, ast.Name) and x.id in ("AttributeError", "Exception", "BaseException") for x in ast.walk(h.type)) for h in n.handlers):
            out.update(id(x) for s in n.body for x in ast.walk(s))
        if isinstance(n, (ast.If, ast.IfExp)) and any(isinstance(x, ast.Name) and x.id == "hasattr" for x in ast.walk(n.test)):
            out.update(id(x) for x in ast.walk(n))
    return out


def body(chk, p, m, f, cls, me, loc, ann):
    g = guarded(f)
    na = nc = nu = 0
    par = {}
    for n in ast.walk(f):
        for c in ast.iter_child_nodes(n):
            par[id(c)] = n
    tag = f"{p.rel(m.file)}: {fname(f, cls)}"
    if isinstance(f, ast.FunctionDef):
        chk.functions.add(f"{p.rel(m.file)}:{fname(f, cls)}")
    for n, extra in nodes(f):
        if id(n) in ann:
            continue
        L = loc if not extra else {**loc, **{k: UNK for k in extra}}
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and id(n) not in g:
            b = p.expr(n.value, m, cls, me, L)
            r = exists(p, b, n.attr)
            if r is None:
                continue
            na += 1
            if not r:
                chk.bad("member", f"{tag}: {ast.unparse(n)}", where(p, m, n), f"{describe(b)} has no attribute {n.attr}")
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
            b = p.expr(n.value, m, cls, me, L)
            if b is not UNK and b.kind == "cls" and b.x.isenum():
                na += 1
                if b.x.find(n.slice.value) is None:
                    chk.bad("member", f"{tag}: {ast.unparse(n)}", where(p, m, n), f"enumeration {b.x.name} has no member {n.slice.value}")
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Name) and n.func.id in ("getattr",) and len(n.args) == 2 and id(n) not in g:
                b = p.expr(n.args[0], m, cls, me, L)
                pt = pattern(n.args[1])
                if pt is not None and b is not UNK and b.kind == "inst" and closed(p, b.x):
                    na += 1
                    if not anyattr(p, b.x, pt):
                        chk.bad("member", f"{tag}: {ast.unparse(n)}", where(p, m, n), f"objects of {b.x.name} have no attribute of that name")
            v = p.expr(n.func, m, cls, me, L)
            why = signature(p, v, n)
            if why is None:
                continue
            nc += 1
            if why:
                chk.bad("call", f"{tag}: {ast.unparse(n.func)}(...)", where(p, m, n), why)
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], (ast.Tuple, ast.List)) and isinstance(n.value, ast.Call):
            v = p.expr(n.value.func, m, cls, me, L)
            k = len(n.targets[0].elts)
            star = any(isinstance(x, ast.Starred) for x in n.targets[0].elts)
            if v is UNK or v.kind != "fun" or star or overridden(v):
                continue
            ln = result_lengths(v.x)
            if not ln:
                continue
            nu += 1
            if k not in ln:
                chk.bad("unpack", f"{tag}: {ast.unparse(n.value.func)}(...)", where(p, m, n), f"{k} variables for a result of {sorted(ln)} parts")
    for r, k, w in (("member", na, "attributes"), ("call", nc, "calls"), ("unpack", nu, "unpackings")):
        if k:
            chk.ok(r, f"{tag}: {k} {w}")


def describe(b):
    return {"mod": "module ", "cls": "class ", "inst": "object of class ", "ext": "", "super": "parent of "}[b.kind] + (b.x if isinstance(b.x, str) else b.x.name)


def closed(p, c):
    """whether the attributes of objects of class c are all visible"""
    for k in c.family():
        if any(e not in ("object", "ABC", "abc.ABC", "Generic", "typing.Generic", "Exception", "ValueError", "TypeError", "str") for e in k.extbases) or k.meta or k.dynamic:
            return False
        if "__getattr__" in k.members or "__getattribute__" in k.members or "__slots__" in k.members:
            return False
    return True


def exists(p, b, a):
    """True / False / None (unknown)"""
    if b is UNK or b.kind == "fun":
        return None
    if b.kind == "ext":
        return ext_member(b.x, a)
    if a.startswith("__") and a.endswith("__"):
        return None
    if b.kind == "mod":
        r = p.module_member(b.x, a)
        return None if r == "extern" else r != "missing"
    c = b.x
    if b.kind == "cls" and c.isenum():
        if any(x not in ("Enum", "enum.Enum", "str") for x in c.ext()):
            return None
        return any(a in k.members for k in c.family()) or a in ENUM_ATTRS
    if b.kind == "super":
        if any(k.extbases and any(e != "object" for e in k.extbases) for k in c.mro()):
            return None
    if not closed(p, c):
        return None
    if b.kind == "super":
        fam = [k for d in [c] + below(c) for k in d.mro() if k is not c]
    else:
        fam = c.family()
    # attributes set under computed names must be declared
    loose = any(broad(x) for k in fam for x in k.pats)
    for k in fam:
        if a in k.members and (k.members[a] != "ann" or b.kind != "cls") and not (k.members[a] == "ann" and not k.deco and not loose):
            return True
        if b.kind != "cls" and a in k.inst:
            return True
        if any(not broad(x) and re.fullmatch(x, a) for x in k.pats):
            return True
    if a in OBJ_ATTRS or a in p.__dict__.get("outside", ()):
        return True
    if any("Exception" in e or "Error" in e for e in c.ext()) and hasattr(Exception, a):
        return True
    if any(e == "str" for e in c.ext()) and hasattr(str, a):
        return True
    return any(not broad(x) and re.fullmatch(x, a) for x in outside_patterns(p))


def below(c):
    out = []
    for d in c.subs:
        out += [d] + below(d)
    return out


def outside_patterns(p):
    """names set with setattr on something that is not the own object"""
    if not hasattr(p, "_op"):
        p._op = []
        for m in p.byfile.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) == 3 and not (isinstance(n.args[0], ast.Name) and n.args[0].id in ("self", "cls")):
                    p._op.append(pattern(n.args[1]))
    return p._op


def anyattr(p, c, pt):
    """whether some attribute of c can match the pattern"""
    names = set()
    pats = []
    for k in c.family():
        names |= set(k.members) | set(k.inst)
        pats += [x for x in k.pats if x]
    names |= p.__dict__.get("outside", set())
    pats += [x for x in outside_patterns(p) if x]
    if any(re.fullmatch(pt, n) for n in names):
        return True
    probe = pt.replace(".*", "HOLE").replace("\\", "")
    for x in pats:
        if re.fullmatch(x, probe) or re.fullmatch(pt, x.replace(".*", "HOLE").replace("\\", "")):
            return True
        a, b = x.replace("\\", "").split(".*"), pt.replace("\\", "").split(".*")
        if len(a) > 1 and len(b) > 1 and (a[0].startswith(b[0]) or b[0].startswith(a[0])) and (a[-1].endswith(b[-1]) or b[-1].endswith(a[-1])):
            return True
    # names computed elsewhere
    return any(broad(x) for k in c.family() for x in k.pats) or any(broad(x) for x in outside_patterns(p))


def overridden(v):
    """a method called on an object may be one of a subclass"""
    c = v.x.cls
    return c is not None and any(v.x.node.name in d.members for d in below(c))


def signature(p, v, call):
    """None: not known; "": fine; else what is wrong"""
    if v is UNK or v.kind not in ("fun", "cls"):
        return None
    if v.kind == "cls":
        c = v.x
        if c.isenum() or any(e not in ("object", "ABC", "abc.ABC") for e in c.ext()) or any(k.meta for k in c.mro()) or "__new__" in [n for k in c.mro() for n in k.members]:
            return None
        if any(k.deco for k in c.mro()):
            if c.deco == ["dataclass"] and c.find("__init__") is None and len(c.mro()) == 1:
                return dataclass_call(c, call)
            return None
        f = c.find("__init__")
        if f is None:
            return "" if not call.args and not call.keywords else f"{c.name} takes no arguments"
        if not isinstance(f, __import__("aeslint.linker", fromlist=["Fun"]).Fun) or f.kind != "method":
            return None
        return bind(f.node, call, 1, c.name)
    f = v.x
    if f.kind in ("property", "other"):
        return None
    if overridden(v) and f.cls is not None:
        return None
    # attribute of an instance that shadows the method
    drop = 1 if f.kind == "class" or (f.kind == "method" and v.bound) else 0
    return bind(f.node, call, drop, f.node.name)


def bind(node, call, drop, name):
    a = node.args
    pos = [x.arg for x in a.posonlyargs + a.args][drop:]
    ponly = {x.arg for x in a.posonlyargs}
    kwo = [x.arg for x in a.kwonlyargs]
    nd = len(a.defaults)
    req = pos[: len(pos) - nd] if nd <= len(pos) else []
    kreq = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    starred = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    npos = len([x for x in call.args if not isinstance(x, ast.Starred)])
    if a.vararg is None and npos > len(pos):
        return f"{name} takes {len(pos)} positional arguments, {npos} are given"
    kws = [k.arg for k in call.keywords if k.arg is not None]
    for k in kws:
        if k not in kwo and (k not in pos or k in ponly):
            if a.kwarg is None:
                return f"{name} has no argument {k}"
        elif k in pos[:npos] and not starred:
            return f"{name} gets its argument {k} twice"
    if not starred and not dstar:
        miss = [x for x in req[npos:] if x not in kws] + [x for x in kreq if x not in kws]
        if miss:
            return f"{name} is called without {', '.join(miss)}"
    return ""


def dataclass_call(c, call):
    f = []
    for st in c.node.body:
        if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
            f.append((st.target.id, st.value is not None))
            if st.value is not None and isinstance(st.value, ast.Call):
                return None
    if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        return None
    kws = [k.arg for k in call.keywords]
    if len(call.args) > len(f):
        return f"{c.name} takes {len(f)} arguments"
    for k in kws:
        if k not in [x for x, _ in f]:
            return f"{c.name} has no field {k}"
    miss = [x for x, d in f[len(call.args):] if not d and x not in kws]
    return f"{c.name} is created without {', '.join(miss)}" if miss else ""


def result_lengths(f):
    """lengths of the tuples a function returns, or None when some result is not a literal tuple"""
    out = set()
    if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_scope(f.node)) or f.kind == "other":
        return None
    for x in walk_scope(f.node):
        if isinstance(x, ast.Return):
            if isinstance(x.value, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in x.value.elts):
                out.add(len(x.value.elts))
            else:
                return None
    return out


# --- local variables ----------------------------------------------------------
class Flow:
    """names that may have been assigned at each point (union over paths)"""
    def __init__(s, locs):
        s.locs, s.bad, s.seen = locs, {}, 0

    def read(s, e, st):
        if e is None:
            return
        for n in ordered(e):
            if isinstance(n, ast.Name) and n.id in s.locs:
                if isinstance(n.ctx, ast.Load):
                    s.seen += 1
                    if st is not None and n.id not in st:
                        s.bad.setdefault(n.id, n)
            if isinstance(n, ast.NamedExpr) and st is not None:
                st.add(n.target.id)

    def store(s, t, st):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                st.add(n.id)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Del):
                st.discard(n.id)
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in s.locs and n.id not in st:
                s.bad.setdefault(n.id, n)

    def block(s, b, st):
        """returns the set after the block, None when the end is not reachable"""
        for x in b:
            if st is None:
                return None
            st = s.stmt(x, st)
        return st

    @staticmethod
    def join(a, b):
        return b if a is None else a if b is None else a | b

    def stmt(s, x, st):
        J = s.join
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            st.add(x.name)
            return st
        if isinstance(x, (ast.Import, ast.ImportFrom)):
            for a in x.names:
                st.add(a.asname or a.name.split(".")[0])
            return st
        if isinstance(x, ast.If):
            s.read(x.test, st)
            return J(s.block(x.body, set(st)), s.block(x.orelse, set(st)))
        if isinstance(x, (ast.For, ast.AsyncFor, ast.While)):
            if isinstance(x, ast.While):
                s.read(x.test, st)
            else:
                s.read(x.iter, st)
            # any name assigned in the body may be assigned from the second round on
            again = {n.id for y in x.body for n in ast.walk(y) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {a.asname or a.name.split(".")[0] for y in x.body for n in ast.walk(y) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names} | {n.name for y in x.body for n in ast.walk(y) if isinstance(n, (ast.FunctionDef, ast.ClassDef))}
            inn = set(st)
            if not isinstance(x, ast.While):
                s.store(x.target, inn)
            s.block(x.body, inn | again)
            out = inn | again | st
            r = s.block(x.orelse, set(out))
            return J(out, r)
        if isinstance(x, ast.Try) or x.__class__.__name__ == "TryStar":
            r = s.block(x.body, set(st))
            mid = set(st) | {n.id for y in x.body for n in ast.walk(y) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {a.asname or a.name.split(".")[0] for y in x.body for n in ast.walk(y) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
            if r is not None:
                r = s.block(x.orelse, r)
            for h in x.handlers:
                hs = set(mid)
                s.read(h.type, hs)
                if h.name:
                    hs.add(h.name)
                r = J(r, s.block(h.body, hs))
            if x.finalbody:
                f = s.block(x.finalbody, set(mid) | (r or set()))
                return None if f is None or r is None else r | f
            return r
        if isinstance(x, (ast.With, ast.AsyncWith)):
            for i in x.items:
                s.read(i.context_expr, st)
                if i.optional_vars is not None:
                    s.store(i.optional_vars, st)
            return s.block(x.body, st)
        if isinstance(x, ast.Match):
            s.read(x.subject, st)
            r = set(st)
            for c in x.cases:
                cs = set(st)
                for n in ast.walk(c.pattern):
                    for k in ("name", "rest"):
                        if getattr(n, k, None):
                            cs.add(getattr(n, k))
                s.read(c.guard, cs)
                r = J(r, s.block(c.body, cs))
            return r
        if isinstance(x, (ast.Return, ast.Raise)):
            for e in ast.iter_child_nodes(x):
                s.read(e, st)
            return None
        if isinstance(x, (ast.Break, ast.Continue)):
            return None
        if isinstance(x, ast.Assign):
            s.read(x.value, st)
            for t in x.targets:
                s.store(t, st)
            return st
        if isinstance(x, ast.AugAssign):
            s.read(x.value, st)
            if isinstance(x.target, ast.Name):
                if x.target.id in s.locs and x.target.id not in st:
                    s.bad.setdefault(x.target.id, x.target)
            else:
                s.read(x.target, st)
            return st
        if isinstance(x, ast.AnnAssign):
            if x.value is not None:
                s.read(x.value, st)
                s.store(x.target, st)
            return st
        if isinstance(x, ast.Delete):
            for t in x.targets:
                s.store(t, st)
            return st
        for e in ast.iter_child_nodes(x):
            if isinstance(e, ast.expr):
                s.read(e, st)
        return st


def ordered(e):
    """nodes in evaluation order, without nested function bodies and without comprehension-local names"""
    def go(n, hide):
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            hide = hide | {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        if isinstance(n, ast.IfExp):
            for c in (n.test, n.body, n.orelse):
                yield from go(c, hide)
            return
        if isinstance(n, ast.NamedExpr):
            yield from go(n.value, hide)
            yield n
            return
        if isinstance(n, ast.Name) and n.id in hide:
            return
        kids = list(ast.iter_child_nodes(n))
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            kids = list(n.generators) + [k for k in kids if not isinstance(k, ast.comprehension)]
        for c in kids:
            yield from go(c, hide)
        yield n
    return go(e, frozenset())


def assigned(chk, p, m, f, cls):
    gl = {k for n in walk_scope(f) if isinstance(n, (ast.Global, ast.Nonlocal)) for k in n.names}
    params = {a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs + [f.args.vararg, f.args.kwarg] if a is not None}
    locs = set(p.locals(f, m, cls, None)) - gl
    locs |= {n.target.id for n in ast.walk(f) if isinstance(n, ast.NamedExpr)}
    fl = Flow(locs)
    fl.block(f.body, set(params))
    tag = f"{p.rel(m.file)}: {fname(f, cls)}"
    for k, n in fl.bad.items():
        chk.bad("assigned", f"{tag}: {k}", where(p, m, n), f"local variable {k} is read before anything can have been assigned to it")
    if fl.seen:
        chk.ok("assigned", f"{tag}: {fl.seen} reads")
