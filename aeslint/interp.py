"""Abstract interpreter over Python syntax trees (a global value numbering).

The state maps variables/attributes/containers to value numbers (terms.Node) or
to containers of known shape.  At control-flow joins the two states are merged
with gated phi terms, so every statement is analysed once per (unrolled) program
point and no path enumeration or solver is involved.
"""
from __future__ import annotations
import ast
import os
import sys
import collections
from fractions import Fraction
from . import terms as T
from .terms import Node, N, num, fn, sym

sys.setrecursionlimit(60000)

ROOTS = [
    "aesolver", "num-tools", "gyre-tools", "hough-func-tools", "util-tools", "py-combinations",
    "histogram_maker", "cpp-numintegrator", "cpp-ld-funcs", "cpp-disc-integrator",
    "fornberg-num-deriv", "pytest-util-tools", ".",
]


class Unsupported(Exception):
    """The analysis met a construct outside its domain (no verdict)."""


class AbsRaise(Exception):
    def __init__(self, exc, where=None):
        self.exc = exc
        self.where = where
        super().__init__(str(exc))


class _U:
    def __repr__(self):
        return "UNDEF"


UNDEF = _U()
NOTIMPL = _U()


class Ref:
    __slots__ = ("id",)
    _n = [0]

    def __init__(self):
        Ref._n[0] += 1
        self.id = Ref._n[0]

    def __repr__(self):
        return f"Ref{self.id}"


class Env:
    __slots__ = ("vars", "parent", "module", "func")

    def __init__(self, vars, parent, module, func=None):
        self.vars, self.parent, self.module, self.func = vars, parent, module, func

    def copy(self):
        return Env(dict(self.vars), self.parent, self.module, self.func)


class List:
    __slots__ = ("items", "kind")

    def __init__(self, items, kind="list"):
        self.items = list(items)
        self.kind = kind

    def copy(self):
        return List(self.items, self.kind)


class Dict:
    __slots__ = ("d", "default")

    def __init__(self, d, default=None):
        self.d = dict(d)
        self.default = default

    def copy(self):
        return Dict(self.d, self.default)


class Obj:
    __slots__ = ("cls", "attrs", "open", "label")

    def __init__(self, cls, attrs=None, open=False, label="self"):
        self.cls, self.attrs, self.open, self.label = cls, dict(attrs or {}), open, label

    def copy(self):
        return Obj(self.cls, self.attrs, self.open, self.label)


class Arr:
    """numpy array; axes of known size are explicit, None axes are pointwise."""
    __slots__ = ("shape", "data", "dtype")

    def __init__(self, shape, data, dtype=None):
        self.shape, self.data, self.dtype = tuple(shape), list(data), dtype

    def copy(self):
        return Arr(self.shape, self.data, self.dtype)


class SArr:
    """mutable array of symbolic length built by stores (native buffers)."""
    __slots__ = ("base", "stores", "length")

    def __init__(self, base, length=None, stores=()):
        self.base, self.stores, self.length = base, list(stores), length

    def copy(self):
        return SArr(self.base, self.length, self.stores)


class Guarded:
    __slots__ = ("c", "v")

    def __init__(self, c, v):
        self.c, self.v = c, v


class Func:
    def __init__(self, node, env, module, name, cls=None, defaults=(), kwdefaults=None):
        self.node, self.env, self.module, self.name, self.cls = node, env, module, name, cls
        self.defaults, self.kwdefaults = list(defaults), dict(kwdefaults or {})
        self.overloads = None
        self.single = False
        self.disp = None
        self.attrs = {}

    def __repr__(self):
        return f"<func {self.name}>"


class Bound:
    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class ClassVal:
    def __init__(self, name, module, bases, ns, node):
        self.name, self.module, self.bases, self.ns, self.node = name, module, bases, ns, node
        self.members = None
        self.fields = None

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassVal):
                for c in b.mro():
                    if c in out:
                        out.remove(c)
                    out.append(c)
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.ns:
                return c.ns[name], c
        return UNDEF, None

    def is_enum(self):
        for c in self.mro():
            for b in c.bases:
                if isinstance(b, Ext) and b.path.startswith("enum."):
                    return True
        return False

    def __repr__(self):
        return f"<class {self.name}>"


class ModuleVal:
    def __init__(self, name, file, env):
        self.name, self.file, self.env = name, file, env

    def __repr__(self):
        return f"<module {self.name}>"


class Ext:
    def __init__(self, path):
        self.path = path

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __hash__(self):
        return hash(self.path)

    def __repr__(self):
        return f"<ext {self.path}>"


class Partial:
    def __init__(self, f, args, kwargs):
        self.f, self.args, self.kwargs = f, args, kwargs


class Prop:
    def __init__(self, fget, fset=None, cached=False):
        self.fget, self.fset, self.cached = fget, fset, cached


DICT_ATTRS = frozenset(dir(dict)) | frozenset(dir(collections.OrderedDict)) | frozenset(dir(collections.Counter)) | frozenset(dir(collections.defaultdict))
LIST_ATTRS = frozenset(dir(list)) | frozenset(dir(set)) | frozenset(dir(collections.deque)) | frozenset(dir(iter([]))) | frozenset(dir((x for x in ()))) | frozenset(dir(dict().items()))


class StaticM:
    def __init__(self, f):
        self.f = f


class ClassM:
    def __init__(self, f):
        self.f = f


class Choice:
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def __repr__(self):
        return f"Choice({T.show(self.c)},{self.a!r},{self.b!r})"


class SliceV:
    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c

    def full(self):
        return self.a is None and self.b is None and (self.c is None or self.c == 1)


class RangeV:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step


class MethodOf:
    def __init__(self, v, name):
        self.v, self.name = v, name

    def __repr__(self):
        return f"<method {self.name} of {self.v!r}>"


class SuperV:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Lam:
    """python-level helper exposed as a callable value: f(interp, args, kwargs)."""

    def __init__(self, f, name="lam"):
        self.f, self.name = f, name


class Getter:
    def __init__(self, kind, names):
        self.kind, self.names = kind, names


class SymMap:
    """result of mapping over a sequence of unknown length."""

    def __init__(self, src, elem):
        self.src, self.elem = src, elem


MUTABLE = (Ref,)


def conc(v):
    """is v a concrete number?"""
    return isinstance(v, (int, Fraction)) or isinstance(v, bool)


ABSTRACT = {"ByteString": ("bytes",), "Mapping": ("dict",), "MutableMapping": ("dict",), "Sequence": ("list", "tuple", "str", "bytes"), "MutableSequence": ("list",)}      # collections.abc


DUNDERS = {r + n for r in ("", "r", "i") for n in ("add", "sub", "mul", "truediv", "floordiv", "mod", "pow", "matmul", "and", "or", "xor", "lshift", "rshift")} | {"getattr", "array", "array_ufunc", "float", "index"}


class Interp:
    float_syms = False
    MAXDEPTH = 60
    MAXUNROLL = 4000

    decide_eq = False       # generic equality of symbolic numbers is decided
    absent = ()             # modules that are not installed

    def __init__(self, repo="/repo", models=None, overrides=None):
        self.repo = repo
        self.base = {}
        self.heap = {}
        self.modules = {}
        self.set_order = None                 # iteration order of sets (unspecified; None: insertion order)
        self.path = []
        self.pathset = set()
        self.pending = []
        self.stack = []
        self.notes = []
        self.calls = []  # (callee name, args, kwargs, file, line, guard)
        self.attr_where = {}
        self.functions_seen = set()
        self.fresh_n = 0
        self.overrides = overrides or {}
        self.line = 0
        self.file = "?"
        self.src_cache = {}
        self.ext_calls = []
        self.uninit = {}
        from . import models as M
        self.models = dict(M.MODELS)
        if models:
            self.models.update(models)
        self.M = M

    # ------------------------------------------------------------ heap
    def get(self, r):
        c = self.heap.get(r.id)
        if c is None:
            c = self.base.get(r.id)
            if c is None:
                raise Unsupported("dangling reference")
        return c

    def w(self, r):
        c = self.get(r).copy()
        self.heap[r.id] = c
        return c

    def new(self, cell):
        r = Ref()
        self.heap[r.id] = cell
        return r

    def list(self, items, kind="list"):
        return self.new(List(items, kind))

    def obj(self, cls, attrs=None, open=False, label="self"):
        return self.new(Obj(cls, attrs, open, label))

    def fresh(self, name, kind="real", arr=False):
        self.fresh_n += 1
        return sym(f"{name}#{self.fresh_n}", kind, arr)

    def where(self):
        return f"{os.path.relpath(self.file, self.repo) if self.file.startswith('/') else self.file}:{self.line}"

    def where_of(self, ref, name):
        for k in (name, "_" + name):
            w = self.attr_where.get((ref.id, k))
            if w:
                return w
        c = self.get(ref)
        if isinstance(c, Obj) and c.cls is not None:
            return f"{os.path.relpath(c.cls.file, self.repo)}:{c.cls.node.lineno}"
        return ""

    # ------------------------------------------------------------ modules
    def find_module(self, name):
        parts = name.split(".")
        for root in ROOTS:
            base = os.path.join(self.repo, root, *parts)
            if os.path.isfile(base + ".py"):
                return base + ".py"
            if os.path.isfile(os.path.join(base, "__init__.py")):
                return os.path.join(base, "__init__.py")
        return None

    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        f = self.find_module(name)
        if f is None:
            base = os.path.join(self.repo)
            for root in ROOTS:
                d = os.path.join(self.repo, root, *name.split("."))
                if os.path.isdir(d):
                    m = ModuleVal(name, d, None)
                    m.pkg = True
                    m.env = self._in_base(lambda: self.new(Env({}, None, m)))
                    self.modules[name] = m
                    return m
            return None
        return self.load_file(name, f)

    def _in_base(self, thunk):
        sh, sp, ss, sf, sl, pend = self.heap, self.path, self.pathset, self.file, self.line, self.pending
        self.heap, self.path, self.pathset, self.pending = self.base, [], set(), []
        try:
            return thunk()
        finally:
            self.heap, self.path, self.pathset, self.file, self.line, self.pending = sh, sp, ss, sf, sl, pend

    def parse(self, f):
        if f not in self.src_cache:
            with open(f, encoding="utf-8") as fh:
                src = fh.read()
            self.src_cache[f] = ast.parse(src)
        return self.src_cache[f]

    def load_file(self, name, f, tree=None):
        try:
            tree = tree or self.parse(f)
        except SyntaxError as e:
            raise Unsupported(f"syntax error in {f}: {e}")
        m = ModuleVal(name, f, None)
        m.pkg = f.endswith("__init__.py")

        def go():
            m.env = self.new(Env({"__name__": name, "__file__": f}, None, m))
            self.modules[name] = m
            self.run_module(m, tree)
            return m
        # make sure parent packages are not required: repo code never relies on them
        return self._in_base(go)

    def run_module(self, m, tree):
        self.stack.append((m.env, m, None))
        of = self.file
        self.file = m.file
        home = self.heap
        try:
            for st in tree.body:
                if self.heap is not home:
                    home.update(self.heap)
                    self.heap = home
                try:
                    o = self.exec_stmt(st, m.env)
                    if o is not None and "normal" not in o:
                        break
                    if o is not None:
                        self.heap = o["normal"][1]
                except Unsupported as e:
                    self.notes.append(f"module {m.name} line {getattr(st, 'lineno', 0)}: {e}")
                except AbsRaise as e:
                    self.notes.append(f"module {m.name} line {getattr(st, 'lineno', 0)} raises: {e}")
        finally:
            if self.heap is not home:
                home.update(self.heap)
                self.heap = home
            self.file = of
            self.stack.pop()

    # ------------------------------------------------------------ names
    def lookup(self, name, envr):
        r = envr
        mod = None
        while r is not None:
            e = self.get(r)
            mod = e.module
            v = e.vars.get(name, UNDEF)
            if v is not UNDEF:
                return self.res(v)
            r = e.parent
        if mod is not None:
            e = self.get(mod.env)
            v = e.vars.get(name, UNDEF)
            if v is not UNDEF:
                return self.res(v)
        if name in self.models_builtin():
            return Ext("builtins." + name)
        raise AbsRaise(("NameError", name), self.where())

    def models_builtin(self):
        import builtins
        return _BUILTINS

    def res(self, v):
        """resolve Choice under the current path condition."""
        while isinstance(v, Choice):
            t = self.known(v.c)
            if t is True:
                v = v.a
            elif t is False:
                v = v.b
            else:
                break
        if isinstance(v, Node) and v.op == "ite":
            t = self.known(v.args[0])
            if t is True:
                return self.res(T.back(v.args[1]))
            if t is False:
                return self.res(T.back(v.args[2]))
        return v

    def known(self, c):
        if isinstance(c, bool):
            return c
        if c.id in self.pathset:
            return True
        n = T.lnot(c)
        if isinstance(n, Node) and n.id in self.pathset:
            return False
        if c.op == "not":
            k = self.known(c.args[0])
            return None if k is None else (not k)
        if c.op == "and":
            a, b = self.known(c.args[0]), self.known(c.args[1])
            if a is False or b is False:
                return False
            if a and b:
                return True
        if c.op == "or":
            a, b = self.known(c.args[0]), self.known(c.args[1])
            if a is True or b is True:
                return True
            if a is False and b is False:
                return False
        return None

    def assume(self, c):
        """push condition (and its conjuncts); returns a token for undo."""
        tok = (self.path, self.pathset)
        self.path = self.path + [c]
        self.pathset = set(self.pathset)
        st = [c]
        while st:
            x = st.pop()
            if isinstance(x, bool):
                continue
            self.pathset.add(x.id)
            if x.op == "and":
                st.extend(x.args)
            if x.op == "not" and x.args[0].op == "or":
                st.append(T.lnot(x.args[0].args[0]))
                st.append(T.lnot(x.args[0].args[1]))
        return tok

    def unassume(self, tok):
        self.path, self.pathset = tok

    # ------------------------------------------------------------ merging
    def merge_val(self, c, a, b):
        if a is b:
            return a
        if c is True:
            return a
        if c is False:
            return b
        if isinstance(a, Ext) and isinstance(b, Ext) and a.path == b.path:
            return a
        if type(a) is type(b) and isinstance(a, (str, bytes, type(None))) and a == b:
            return a
        if isinstance(a, bool) and isinstance(b, bool):
            return a if a == b else T.ite(c, a, b)
        if T.isnum(a) and T.isnum(b):
            if conc(a) and conc(b) and a == b and isinstance(a, bool) == isinstance(b, bool):
                return a
            if isinstance(a, bool) and isinstance(b, Node) and T.isboolterm(b):
                return T.land(c, b) if a is False and False else T.ite(c, a, b)
            return T.ite(c, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge_val(c, x, y) for x, y in zip(a, b))
        if isinstance(a, Bound) and isinstance(b, Bound) and a.func is b.func and a.self_ is b.self_:
            return a
        if isinstance(a, SliceV) and isinstance(b, SliceV):
            return SliceV(self.merge_val(c, a.a, b.a), self.merge_val(c, a.b, b.b), self.merge_val(c, a.c, b.c))
        return Choice(c, a, b)

    def merge_cell(self, c, a, b):
        if a is b:
            return a
        if type(a) is not type(b):
            raise Unsupported("merging different cell kinds")
        if isinstance(a, Env):
            r = a.copy()
            for k in set(a.vars) | set(b.vars):
                va, vb = a.vars.get(k, UNDEF), b.vars.get(k, UNDEF)
                r.vars[k] = va if va is vb else (vb if va is UNDEF and False else self.merge_val(c, va, vb))
            return r
        if isinstance(a, Obj):
            r = a.copy()
            for k in set(a.attrs) | set(b.attrs):
                va, vb = a.attrs.get(k, UNDEF), b.attrs.get(k, UNDEF)
                if va is vb:
                    continue
                if a.open and (va is UNDEF or vb is UNDEF):
                    d = self.open_attr(a, k)
                    va = d if va is UNDEF else va
                    vb = d if vb is UNDEF else vb
                r.attrs[k] = self.merge_val(c, va, vb)
            return r
        if isinstance(a, Dict):
            r = Dict({}, a.default)
            for k in list(a.d) + [k for k in b.d if k not in a.d]:
                r.d[k] = self.merge_val(c, a.d.get(k, UNDEF), b.d.get(k, UNDEF))
            return r
        if isinstance(a, List):
            if len(a.items) == len(b.items):
                return List([self.merge_item(c, x, y) for x, y in zip(a.items, b.items)], a.kind)
            p = 0
            while p < min(len(a.items), len(b.items)) and self.same(a.items[p], b.items[p]):
                p += 1
            items = a.items[:p]
            for x in a.items[p:]:
                items.append(Guarded(T.land(c, x.c), x.v) if isinstance(x, Guarded) else Guarded(c, x))
            nc = T.lnot(c)
            for x in b.items[p:]:
                items.append(Guarded(T.land(nc, x.c), x.v) if isinstance(x, Guarded) else Guarded(nc, x))
            return List(items, a.kind)
        if isinstance(a, Arr):
            if a.shape != b.shape:
                raise Unsupported("merging arrays of different shape")
            return Arr(a.shape, [self.merge_val(c, x, y) for x, y in zip(a.data, b.data)], a.dtype)
        if isinstance(a, SArr):
            p = 0
            while p < min(len(a.stores), len(b.stores)) and a.stores[p] == b.stores[p]:
                p += 1
            r = a.copy()
            r.stores = a.stores[:p] + [(T.land(c, g), *rest) for g, *rest in a.stores[p:]] + \
                [(T.land(T.lnot(c), g), *rest) for g, *rest in b.stores[p:]]
            return r
        raise Unsupported("merge " + type(a).__name__)

    def same(self, a, b):
        if a is b:
            return True
        if isinstance(a, Guarded) and isinstance(b, Guarded):
            return a.c is b.c and self.same(a.v, b.v)
        if isinstance(a, (int, str, Fraction)) and type(a) is type(b):
            return a == b
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return all(self.same(x, y) for x, y in zip(a, b))
        return False

    def merge_item(self, c, x, y):
        if x is y:
            return x
        if isinstance(x, Guarded) or isinstance(y, Guarded):
            gx, vx = (x.c, x.v) if isinstance(x, Guarded) else (True, x)
            gy, vy = (y.c, y.v) if isinstance(y, Guarded) else (True, y)
            g = T.lor(T.land(c, gx), T.land(T.lnot(c), gy))
            return Guarded(g, self.merge_val(c, vx, vy))
        return self.merge_val(c, x, y)

    def merge_heap(self, c, h1, h2):
        if h1 is h2 or c is True:
            return h1
        if c is False:
            return h2
        r = dict(h1)
        for k, b in h2.items():
            a = h1.get(k)
            if a is None:
                a = self.base.get(k)
                if a is None:
                    r[k] = b
                    continue
            if a is not b:
                r[k] = self.merge_cell(c, a, b)
        for k, a in h1.items():
            if k not in h2:
                b = self.base.get(k)
                if b is not None and b is not a:
                    r[k] = self.merge_cell(c, a, b)
        return r

    def merge_out(self, c, o1, o2):
        """combine outcome dicts of two branches guarded by c / not c."""
        r = {}
        for k in set(o1) | set(o2):
            a, b = o1.get(k), o2.get(k)
            if a is None:
                r[k] = (T.land(T.lnot(c), b[0]), b[1], b[2])
            elif b is None:
                r[k] = (T.land(c, a[0]), a[1], a[2])
            else:
                g = T.lor(T.land(c, a[0]), T.land(T.lnot(c), b[0]))
                if a[0] is True and b[0] is True:
                    g = True
                r[k] = (g, self.merge_heap(c, a[1], b[1]), self.merge_val(c, a[2], b[2]))
        return {k: v for k, v in r.items() if v[0] is not False}

    def acc_out(self, acc, kind, new):
        old = acc.get(kind)
        if old is None:
            acc[kind] = new
        else:
            g = old[0]
            acc[kind] = (T.lor(old[0], new[0]), self.merge_heap(g, old[1], new[1]), self.merge_val(g, old[2], new[2]))

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, env):
        outs = {}
        g = True
        tok = (self.path, self.pathset)
        try:
            for st in stmts:
                o = self.exec_stmt(st, env)
                if o is None:
                    continue
                for k, (gg, h, v) in o.items():
                    if k != "normal":
                        self.acc_out(outs, k, (T.land(g, gg), h, v))
                n = o.get("normal")
                if n is None:
                    return outs
                g = T.land(g, n[0])
                self.heap = n[1]
                if n[0] is not True:
                    self.assume(n[0])
            outs["normal"] = (g, self.heap, None)
            return outs
        finally:
            self.path, self.pathset = tok

    def exec_stmt(self, st, env):
        self.line = getattr(st, "lineno", self.line)
        f = self.file
        m = getattr(self, "x_" + type(st).__name__, None)
        if m is None:
            raise Unsupported("statement " + type(st).__name__)
        try:
            npend = len(self.pending)
            o = m(st, env)
            return o
        except AbsRaise as e:
            if e.where is None:
                e.where = self.where()
            return {"raise": (True, self.heap, e)}
        finally:
            self.file = f

    def x_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return None
        self.ev(st.value, env)

    def x_Pass(self, st, env):
        return None

    def x_Global(self, st, env):
        e = self.w(env)
        e.vars["__global__"] = tuple(st.names) + tuple(e.vars.get("__global__", ()))

    def x_Nonlocal(self, st, env):
        e = self.w(env)
        e.vars["__nonlocal__"] = tuple(st.names) + tuple(e.vars.get("__nonlocal__", ()))

    def x_Import(self, st, env):
        for a in st.names:
            if a.name in self.absent:
                raise AbsRaise(("ModuleNotFoundError", a.name), self.where())
            m = self.module(a.name)
            v = m if m is not None else Ext(a.name)
            if a.asname:
                self.setvar(a.asname, v, env)
            else:
                top = a.name.split(".")[0]
                mt = self.module(top)
                self.setvar(top, mt if mt is not None else Ext(top), env)

    def x_ImportFrom(self, st, env):
        mod = self.get(env).module
        name = st.module or ""
        if st.level:
            parts = mod.name.split(".")
            if not getattr(mod, "pkg", False):
                parts = parts[:-1]
            parts = parts[: len(parts) - (st.level - 1)]
            name = ".".join(parts + ([name] if name else []))
        if name in self.absent:
            raise AbsRaise(("ModuleNotFoundError", name), self.where())
        m = self.module(name)
        for a in st.names:
            if a.name == "*":
                if m is None:
                    raise Unsupported("star import of " + name)
                mv = self.get(m.env).vars
                al = mv.get("__all__")
                ns = [self.res(x) for x in self.iter_items(al)] if al is not None else [k for k in mv if not k.startswith("_")]
                for k in ns:
                    v = mv.get(k, UNDEF)
                    self.setvar(k, v if v is not UNDEF else self.module(name + "." + k), env)
                continue
            if m is None:
                v = self.M.CONSTS[name + "." + a.name] if name + "." + a.name in self.M.CONSTS else Ext(name + "." + a.name)
            else:
                v = self.get(m.env).vars.get(a.name, UNDEF)
                if v is UNDEF:
                    sm = self.module(name + "." + a.name)
                    v = sm if sm is not None else Ext(name + "." + a.name)
            self.setvar(a.asname or a.name, v, env)

    def x_FunctionDef(self, st, env):
        f = self.make_func(st, env)
        v = f
        for d in reversed(st.decorator_list):
            v = self.decorate(d, v, env, st)
        cur = self.get(env).vars.get(st.name, UNDEF)
        self.setvar(st.name, v, env)
        return None

    x_AsyncFunctionDef = x_FunctionDef

    def make_func(self, st, env):
        e = self.get(env)
        defaults = [self.ev(d, env) for d in st.args.defaults]
        kwd = {}
        for a, d in zip(st.args.kwonlyargs, st.args.kw_defaults):
            if d is not None:
                kwd[a.arg] = self.ev(d, env)
        cls = None
        f = Func(st, env, e.module, getattr(st, "name", "<lambda>"), cls, defaults, kwd)
        f.file = self.file
        return f

    def decorate(self, d, v, env, st):
        dotted = ast.unparse(d)
        last = dotted.split("(")[0].split(".")[-1]
        if last == "property":
            return Prop(v)
        if last in ("cached_property",):
            return Prop(v, cached=True)
        if last == "setter":
            old = self.get(env).vars.get(st.name, UNDEF)
            if isinstance(old, Prop):
                return Prop(old.fget, v, old.cached)
            return Prop(None, v)
        if last == "staticmethod":
            return StaticM(v)
        if last == "classmethod":
            return ClassM(v)
        if last == "multimethod":
            old = self.get(env).vars.get(st.name, UNDEF)
            inner = v.f if isinstance(v, (StaticM, ClassM)) else v
            ov = []
            if isinstance(old, Func) and old.overloads is not None:
                ov = list(old.overloads)
            elif isinstance(old, StaticM) and old.f.overloads is not None:
                ov = list(old.f.overloads)
            nf = Func(inner.node, inner.env, inner.module, inner.name, inner.cls, inner.defaults, inner.kwdefaults)
            nf.file = inner.file
            nf.overloads = ov + [inner]
            return nf
        if last in ("singledispatch", "singledispatchmethod"):
            nf = Func(v.node, v.env, v.module, v.name, v.cls, v.defaults, v.kwdefaults)
            nf.file = v.file
            nf.overloads, nf.single = [v], True
            return nf
        if last == "register":
            dd = d.func if isinstance(d, ast.Call) else d
            if isinstance(dd.value, ast.Name):
                base = self.get(env).vars.get(dd.value.id, UNDEF)
                if isinstance(base, Func) and base.single:
                    v.disp = ast.Name(ast.unparse(d.args[0])) if isinstance(d, ast.Call) and d.args else None
                    nf = Func(base.node, base.env, base.module, base.name, base.cls, base.defaults, base.kwdefaults)
                    nf.file = base.file
                    nf.overloads, nf.single = base.overloads + [v], True
                    self.setvar(dd.value.id, nf, env)
                    return v
        if last in ("overload", "abstractmethod", "wraps", "jit", "njit", "lru_cache", "cache", "unique", "total_ordering", "override", "dataclass", "final"):
            return v
        dv = self.ev(d, env)
        if isinstance(dv, (Func, Bound, Partial, ClassVal, Lam)) or (isinstance(dv, Ext) and ("ext", dv.path) in self.overrides):
            return self.call(dv, [v], {})
        return v

    def x_ClassDef(self, st, env):
        mod = self.get(env).module
        bases = [self.ev(b, env) for b in st.bases]
        bases = [b for b in bases if isinstance(b, (ClassVal, Ext))]
        cenv = self.new(Env({}, env, mod))
        out = self.exec_block(st.body, cenv)
        if "normal" not in out:
            raise Unsupported("class body of " + st.name)
        ns = dict(self.get(cenv).vars)
        c = ClassVal(st.name, mod, bases, ns, st)
        c.file = self.file
        for k, v in ns.items():
            for f in self._funcs_in(v):
                f.cls = c
                if f.env is cenv:
                    f.env = env if self.get(env).func is not None else None
        c.dataclass = any(ast.unparse(d).split("(")[0].split(".")[-1] == "dataclass" for d in st.decorator_list)
        c.order = [s.target.id for s in st.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]
        if c.is_enum():
            self.enum_members(c, st)
        self.setvar(st.name, c, env)

    def _funcs_in(self, v):
        if isinstance(v, Func):
            yield v
            for o in v.overloads or []:
                yield o
        elif isinstance(v, (StaticM, ClassM)):
            yield from self._funcs_in(v.f)
        elif isinstance(v, Prop):
            for f in (v.fget, v.fset):
                if f is not None:
                    yield from self._funcs_in(f)

    def enum_members(self, c, st):
        members = {}
        is_str = False
        auto_n = 0
        for s in st.body:
            tgt = None
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                tgt = s.targets[0].id
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                tgt = s.target.id
            if tgt is None or tgt.startswith("__") or (tgt.startswith("_") and tgt.endswith("_")):
                continue
            v = c.ns[tgt]
            if isinstance(v, (Func, Prop, StaticM, ClassM)):
                continue
            if isinstance(v, Node) and v.op == "fn" and "auto" in str(v.args[:2]):
                auto_n += 1
                v = auto_n
            elif isinstance(v, int):
                auto_n = v
            alias = None
            for k, r in members.items():
                if self.same(self.get(r).attrs["value"], v):
                    alias = r
            if alias is not None:
                members[tgt] = alias
                c.ns[tgt] = alias
                continue
            o = Obj(c, {"name": tgt, "value": v, "_name_": tgt, "_value_": v}, label=f"{c.name}.{tgt}")
            r = self.new(o)
            members[tgt] = r
            c.ns[tgt] = r
        c.members = members
        init, owner = c.find("__init__")
        if isinstance(init, Func):
            for k, r in members.items():
                v = self.get(r).attrs["value"]
                self.call(Bound(init, r), list(v) if isinstance(v, tuple) else [v], {})

    def x_Return(self, st, env):
        v = self.ev(st.value, env) if st.value is not None else None
        return {"return": (True, self.heap, v)}

    def x_Break(self, st, env):
        return {"break": (True, self.heap, None)}

    def x_Continue(self, st, env):
        return {"continue": (True, self.heap, None)}

    def x_Assert(self, st, env):
        c = self.truth(self.ev(st.test, env))
        if c is False:
            raise AbsRaise(("AssertionError",), self.where())
        return None

    def x_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.w(env).vars.pop(t.id, None)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, env)
                if isinstance(o, Ref) and isinstance(self.get(o), Obj):
                    self.w(o).attrs.pop(t.attr, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env)
                k = self.ev_index(t.slice, env)
                if isinstance(o, Ref) and isinstance(self.get(o), Dict):
                    self.w(o).d.pop(k, None)
                elif isinstance(o, Ref) and isinstance(self.get(o), List) and isinstance(k, int):
                    del self.w(o).items[k]
                else:
                    raise Unsupported("del")

    def x_Raise(self, st, env):
        exc = ("Exception",)
        if st.exc is not None:
            n = st.exc.func if isinstance(st.exc, ast.Call) else st.exc
            nm = ast.unparse(n)
            try:
                args = tuple(self.ev(a, env) for a in st.exc.args) if isinstance(st.exc, ast.Call) else ()
            except (AbsRaise, Unsupported):
                args = ()
            exc = (nm,) + args
            if isinstance(n, ast.Name) and not n.id[:1].isupper() and isinstance(st.exc, ast.Call):
                v = self.res(self.ev(n, env))
                if isinstance(v, Ext) and v.path.startswith("exception."):
                    exc = (v.path.split(".")[-1],) + args
                elif isinstance(v, ClassVal):
                    exc = (v.name,) + args
                elif isinstance(v, (Func, Lam, Bound, Partial, str, bytes, int, Fraction, tuple, type(None))) or (isinstance(v, Ref) and isinstance(self.get(v), (List, Dict, Arr))):
                    v = self.res(self.ev(st.exc, env))
                    exc = (self.get(v).cls.name,) if isinstance(v, Ref) and isinstance(self.get(v), Obj) and self.get(v).cls is not None else ("TypeError", "exceptions must derive from BaseException")
            elif not isinstance(st.exc, ast.Call) and not (isinstance(st.exc, ast.Name) and st.exc.id[:1].isupper()):
                v = self.res(self.ev(st.exc, env))
                if isinstance(v, Ext) and v.path.startswith("exception."):
                    exc = (v.path.split(".")[-1],)
                elif isinstance(v, ClassVal):
                    exc = (v.name,)
                elif isinstance(v, (Func, Lam, Bound, Partial, str, bytes, int, Fraction, tuple, type(None))) or (isinstance(v, Ref) and isinstance(self.get(v), (List, Dict, Arr))):
                    exc = ("TypeError", "exceptions must derive from BaseException")
                elif isinstance(v, Ref) and isinstance(self.get(v), Obj) and self.get(v).cls is not None:
                    exc = (self.get(v).cls.name,)
        raise AbsRaise(exc, self.where())

    def x_Assign(self, st, env):
        v = self.ev(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, env), env)

    def x_AugAssign(self, st, env):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, env)
            r = self.inplace(cur, st.op, self.ev(st.value, env))
            self.assign(t, r, env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            cur = self.getattr(o, t.attr)
            r = self.inplace(cur, st.op, self.ev(st.value, env))
            self.setattr(o, t.attr, r)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            k = self.ev_index(t.slice, env)
            cur = self.getitem(o, k)
            r = self.inplace(cur, st.op, self.ev(st.value, env))
            newo = self.setitem(o, k, r)
            if newo is not NOTIMPL and newo is not o:
                self.assign(t.value, newo, env)

    def inplace(self, cur, op, v):
        if isinstance(cur, Ref):
            c = self.get(cur)
            if isinstance(c, List) and isinstance(op, ast.Add):
                items = self.iter_items(v)
                self.w(cur).items.extend(items)
                return cur
            if isinstance(c, Arr):
                r = self.binop(op, cur, v)
                if isinstance(r, Ref) and isinstance(self.get(r), Arr):
                    rc = self.get(r)
                    if rc.shape == c.shape:
                        n = self.w(cur)
                        n.data = list(rc.data)
                        return cur
                return r
            if isinstance(c, Dict) and isinstance(op, ast.BitOr):
                self.call(MethodOf(cur, "update"), [v], {})
                return cur
        return self.binop(op, cur, v)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.setvar(t.id, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, env)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            k = self.ev_index(t.slice, env)
            newo = self.setitem(o, k, v)
            if newo is not NOTIMPL and newo is not o:
                self.assign(t.value, newo, env)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env)
        else:
            raise Unsupported("assign target")

    def unpack(self, elts, v, env):
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        items = self.iter_items(v, want=None if star else len(elts))
        if star:
            i = star[0]
            after = len(elts) - i - 1
            for e, x in zip(elts[:i], items[:i]):
                self.assign(e, x, env)
            self.assign(elts[i].value, self.list(items[i:len(items) - after]), env)
            for e, x in zip(elts[i + 1:], items[len(items) - after:]):
                self.assign(e, x, env)
        else:
            if len(items) != len(elts):
                raise AbsRaise(("ValueError", "unpack"), self.where())
            for e, x in zip(elts, items):
                self.assign(e, x, env)

    def setvar(self, name, v, env):
        e = self.get(env)
        if name in e.vars.get("__global__", ()):
            self.w(e.module.env).vars[name] = v
            return
        if name in e.vars.get("__nonlocal__", ()):
            r = e.parent
            while r is not None:
                if name in self.get(r).vars:
                    self.w(r).vars[name] = v
                    return
                r = self.get(r).parent
        if e.vars.get(name, UNDEF) is v:
            return
        self.w(env).vars[name] = v

    def x_If(self, st, env):
        c = self.truth(self.ev(st.test, env))
        k = self.known(c)
        if k is True:
            return self.exec_block(st.body, env)
        if k is False:
            return self.exec_block(st.orelse, env)
        return self.branch(c, lambda: self.exec_block(st.body, env), lambda: self.exec_block(st.orelse, env))

    def branch(self, c, th, el):
        h0 = self.heap
        self.heap = dict(h0)
        tok = self.assume(c)
        o1 = th()
        self.unassume(tok)
        self.heap = dict(h0)
        tok = self.assume(T.lnot(c))
        o2 = el()
        self.unassume(tok)
        self.heap = h0
        return self.merge_out(c, o1, o2)

    def fork_val(self, c, fa, fb):
        """evaluate two expression thunks under c / not c and merge."""
        k = self.known(c)
        if k is True:
            return fa()
        if k is False:
            return fb()
        h0 = self.heap
        ra = rb = None
        ea = eb = None
        self.heap = dict(h0)
        tok = self.assume(c)
        try:
            ra = fa()
        except AbsRaise as e:
            ea = e
        ha = self.heap
        self.unassume(tok)
        self.heap = dict(h0)
        tok = self.assume(T.lnot(c))
        try:
            rb = fb()
        except AbsRaise as e:
            eb = e
        hb = self.heap
        self.unassume(tok)
        if ea is not None and eb is not None:
            self.heap = ha
            raise ea
        if ea is not None:
            self.pending.append((c, ha, ea))
            self.heap = hb
            return rb
        if eb is not None:
            self.pending.append((T.lnot(c), hb, eb))
            self.heap = ha
            return ra
        self.heap = self.merge_heap(c, ha, hb)
        return self.merge_val(c, ra, rb)

    def x_For(self, st, env):
        it = self.ev(st.iter, env)
        it = self.res(it)
        if isinstance(it, Choice):
            return self.branch(it.c, lambda: self.for_over(st, it.a, env), lambda: self.for_over(st, it.b, env))
        return self.for_over(st, it, env)

    def for_over(self, st, it, env):
        if isinstance(it, RangeV) or (isinstance(it, Node)) or isinstance(it, SymMap):
            return self.sym_for(st, it, env)
        items = self.stepper(it) or self.iter_items(it)
        return self.run_loop(items, lambda x: self.assign(st.target, x, env), st.body, st.orelse, env)

    def stepper(self, v):
        """a lazy iterator over an object of an interpreted class with __next__ (None: not one)"""
        if not (isinstance(v, Ref) and isinstance(self.get(v), Obj) and self.get(v).cls is not None):
            return None
        f, _ = self.get(v).cls.find("__iter__")
        if f is UNDEF:
            return None
        r = self.call(Bound(f, v), [], {})
        if not (isinstance(r, Ref) and isinstance(self.get(r), Obj) and self.get(r).cls is not None):
            return iter(self.iter_items(r))
        nx, _ = self.get(r).cls.find("__next__")
        if nx is UNDEF:
            return iter(self.iter_items(r))

        def go():
            for _i in range(100000):
                try:
                    x = self.call(Bound(nx, r), [], {})
                except AbsRaise as e:
                    if e.exc[0] == "StopIteration":
                        return
                    raise
                yield x
            raise Unsupported("endless iteration")
        return go()

    def run_loop(self, items, setter, body, orelse, env):
        outs = {}
        g = True
        tok0 = (self.path, self.pathset)
        alive = True
        for item in items:
            if isinstance(item, Guarded):
                gc, gv = item.c, item.v

                def th():
                    setter(gv)
                    return self.exec_block(body, env)
                o = self.branch(gc, th, lambda: {"normal": (True, self.heap, None)}) if self.known(gc) is None else (
                    th() if self.known(gc) else {"normal": (True, self.heap, None)})
            else:
                setter(item)
                o = self.exec_block(body, env)
            nxt = {}
            for k, (gg, h, v) in o.items():
                if k in ("normal", "continue"):
                    self.acc_out(nxt, "normal", (gg, h, None))
                else:
                    self.acc_out(outs, k, (T.land(g, gg), h, v))
            n = nxt.get("normal")
            if n is None:
                alive = False
                break
            g = T.land(g, n[0])
            self.heap = n[1]
            if n[0] is not True:
                self.assume(n[0])
        self.path, self.pathset = tok0
        brk = outs.pop("break", None)
        if alive:
            if orelse:
                o = self.exec_block(orelse, env)
                for k, (gg, h, v) in o.items():
                    self.acc_out(outs, k, (T.land(g, gg), h, v))
            else:
                self.acc_out(outs, "normal", (g, self.heap, None))
        if brk is not None:
            self.acc_out(outs, "normal", brk)
        return outs

    def x_While(self, st, env):
        outs = {}
        g = True
        tok0 = (self.path, self.pathset)
        brks = []
        alive = True
        for n_it in range(self.MAXUNROLL):
            c = self.truth(self.ev(st.test, env))
            k = self.known(c)
            if k is None:
                raise Unsupported("while with symbolic condition")
            if k is False:
                break
            o = self.exec_block(st.body, env)
            nxt = {}
            for kk, (gg, h, v) in o.items():
                if kk in ("normal", "continue"):
                    self.acc_out(nxt, "normal", (gg, h, None))
                else:
                    self.acc_out(outs, kk, (T.land(g, gg), h, v))
            n = nxt.get("normal")
            if n is None:
                alive = False
                break
            g = T.land(g, n[0])
            self.heap = n[1]
            if n[0] is not True:
                self.assume(n[0])
        else:
            raise Unsupported("while unroll limit")
        self.path, self.pathset = tok0
        brk = outs.pop("break", None)
        if alive:
            self.acc_out(outs, "normal", (g, self.heap, None))
        if brk is not None:
            self.acc_out(outs, "normal", brk)
        return outs

    def x_Try(self, st, env):
        save = self.pending
        self.pending = []
        h0 = self.heap
        self.heap = dict(h0)
        o = self.exec_block(st.body, env)
        pend = self.pending
        self.pending = save
        if "raise" in o:
            gg, h, v = o.pop("raise")
            pend = pend + [(gg, h, v)]
        if "normal" in o and st.orelse:
            g0, hh, _ = o.pop("normal")
            self.heap = hh
            o2 = self.exec_block(st.orelse, env)
            for k, (gg, h, v) in o2.items():
                self.acc_out(o, k, (T.land(g0, gg), h, v))
        def split(g, h, v):
            if isinstance(v, Choice):
                return split(T.land(g, v.c), h, v.a) + split(T.land(g, T.lnot(v.c)), h, v.b)
            return [(g, h, v)]
        for (g, h, exc) in [q for p in pend for q in split(*p)]:
            self.heap = h
            handled = False
            for hd in st.handlers:
                if self.handler_matches(hd, exc):
                    if hd.name:
                        self.setvar(hd.name, Ext("exception." + str(exc.exc[0])), env)
                    oh = self.exec_block(hd.body, env)
                    for k, (gg, hh, v) in oh.items():
                        self.acc_out(o, k, (T.land(g, gg), hh, v))
                    handled = True
                    break
            if not handled:
                self.acc_out(o, "raise", (g, h, exc))
        if st.finalbody:
            r = {}
            for k, (g, h, v) in o.items():
                self.heap = h
                of = self.exec_block(st.finalbody, env)
                for k2, (g2, h2, v2) in of.items():
                    if k2 == "normal":
                        self.acc_out(r, k, (T.land(g, g2), h2, v))
                    else:
                        self.acc_out(r, k2, (T.land(g, g2), h2, v2))
            o = r
        return o

    def handler_matches(self, hd, exc):
        if hd.type is None:
            return exc.exc[0] != "SystemExit" or True
        names = [ast.unparse(t) for t in (hd.type.elts if isinstance(hd.type, ast.Tuple) else [hd.type])]
        nm = str(exc.exc[0]).split(".")[-1]
        if "Exception" in names or "BaseException" in names:
            return nm != "SystemExit" or "BaseException" in names
        up = {"KeyError": ["LookupError"], "IndexError": ["LookupError"], "FileNotFoundError": ["OSError"], "ZeroDivisionError": ["ArithmeticError"]}
        return any(nm == x.split(".")[-1] or x.split(".")[-1] in up.get(nm, []) for x in names)

    def x_With(self, st, env):
        exits = []
        for it in st.items:
            v = self.ev(it.context_expr, env)
            if isinstance(v, Ref) and isinstance(self.get(v), Obj):
                m = v
                try:
                    v = self.call(self.getattr(v, "__enter__"), [], {})
                    exits.append(self.getattr(m, "__exit__"))
                except AbsRaise:
                    pass
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
        o = self.exec_block(st.body, env)
        if exits:
            r = {}
            for k, (g, h, v) in o.items():
                self.heap = h
                for f in reversed(exits):
                    self.call(f, [None, None, None], {})
                r[k] = (g, self.heap, v)
            o = r
        return o

    def x_Match(self, st, env):
        subj = self.ev(st.subject, env)

        def go(i):
            if i == len(st.cases):
                return {"normal": (True, self.heap, None)}
            case = st.cases[i]
            c = self.match_pat(case.pattern, subj, env)
            if case.guard is not None:
                c = T.land(c, self.truth(self.ev(case.guard, env)))
            k = self.known(c)
            if k is True:
                return self.exec_block(case.body, env)
            if k is False:
                return go(i + 1)
            return self.branch(c, lambda: self.exec_block(case.body, env), lambda: go(i + 1))
        return go(0)

    def match_pat(self, p, v, env):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.compare("==", v, self.ev(p.value, env)))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.compare("is", v, p.value))
        if isinstance(p, ast.MatchOr):
            c = False
            for q in p.patterns:
                c = T.lor(c, self.match_pat(q, v, env))
            return c
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    self.setvar(p.name, v, env)
                return True
            c = self.match_pat(p.pattern, v, env)
            if p.name:
                self.setvar(p.name, v, env)
            return c
        if isinstance(p, ast.MatchSequence):
            if isinstance(v, tuple) or (isinstance(v, Ref) and isinstance(self.get(v), List)):
                items = self.iter_items(v)
                if any(isinstance(q, ast.MatchStar) for q in p.patterns):
                    raise Unsupported("match star")
                if len(items) != len(p.patterns):
                    return False
                c = True
                for q, x in zip(p.patterns, items):
                    c = T.land(c, self.match_pat(q, x, env))
                return c
            return False
        if isinstance(p, ast.MatchClass):
            cv = self.ev(p.cls, env)
            return self.truth(self.isinstance(v, cv))
        raise Unsupported("match pattern")

    # symbolic loops ------------------------------------------------------
    def sym_for(self, st, it, env):
        if not isinstance(it, RangeV):
            # unknown iterable: generic element, only loops without effects on
            # analysed state are summarised
            lo, hi, step = 0, fn("len", it if isinstance(it, Node) else it.src), 1
        else:
            lo, hi, step = it.lo, it.hi, it.step
        return self.loop_summary(st, lo, hi, step, env, it)

    def loop_summary(self, st, lo, hi, step, env, it):
        self.fresh_n += 1
        i = sym(f"loop#{self.fresh_n}", "int", False)
        h0 = self.heap
        # first pass: find which cells change, with loop-carried values opened
        self.heap = dict(h0)
        elem = i if isinstance(it, RangeV) else (fn("idx", it, i) if isinstance(it, Node) else T.subst(it.elem, {it.ivar: i}))
        carried = {}

        def open_state(only=None):
            pass
        self.assign(st.target, elem, env)
        o = self.exec_block(st.body, env)
        if set(o) - {"normal", "continue"}:
            if set(o) - {"normal", "continue", "raise"}:
                raise Unsupported("loop of unknown length with break/return")
        h1 = None
        for k in ("normal", "continue"):
            if k in o:
                h1 = o[k][1] if h1 is None else self.merge_heap(o[k][0], o[k][1], h1)
        # variables changed
        changed = []
        for r, cell in h1.items():
            old = h0.get(r, self.base.get(r))
            if old is None or old is cell:
                continue
            changed.append((r, old, cell))
        # second pass with fresh symbols for each changed scalar
        self.heap = dict(h0)
        ph = {}
        tnames = {n.id for n in ast.walk(st.target) if isinstance(n, ast.Name)}
        for r, old, cell in changed:
            if isinstance(cell, (Env, Obj)):
                dd_old = old.vars if isinstance(cell, Env) else old.attrs
                dd_new = cell.vars if isinstance(cell, Env) else cell.attrs
                nc = old.copy()
                nd = nc.vars if isinstance(cell, Env) else nc.attrs
                for k, v in dd_new.items():
                    ov = dd_old.get(k, UNDEF)
                    if ov is v or ov is UNDEF or k in tnames:
                        continue
                    if T.isnum(ov):
                        s = self.fresh(f"carry:{k}")
                        ph[(r, k)] = (s, ov)
                        nd[k] = s
                self.heap[r] = nc
            elif isinstance(cell, SArr):
                nc = old.copy()
                nc.stores = []
                nc.base = self.fresh("carryarr", "real", True)
                ph[(r, None)] = (nc.base, old)
                self.heap[r] = nc
            elif isinstance(cell, List):
                ph[(r, "list")] = (None, old)
            elif isinstance(cell, Arr):
                # element stores with symbolic index into explicit arrays
                ph[(r, "arr")] = (None, old)
        self.assign(st.target, elem, env)
        o = self.exec_block(st.body, env)
        h2 = None
        for k in ("normal", "continue"):
            if k in o:
                h2 = o[k][1] if h2 is None else self.merge_heap(o[k][0], o[k][1], h2)
        res = dict(h0)
        carry_ids = {s.id for (s, _) in ph.values() if isinstance(s, Node)}

        def has_carry(n):
            return any(x.id in carry_ids for x in T.syms_of(n)) if isinstance(n, Node) else False
        for r, cell in h2.items():
            old = h0.get(r, self.base.get(r))
            if old is None:
                res[r] = cell
                continue
            if cell is old:
                continue
            if isinstance(cell, (Env, Obj)):
                nd = cell.vars if isinstance(cell, Env) else cell.attrs
                od = old.vars if isinstance(old, Env) else old.attrs
                rc = old.copy()
                rd = rc.vars if isinstance(cell, Env) else rc.attrs
                for k, v in nd.items():
                    if (r, k) in ph:
                        s, ov = ph[(r, k)]
                        if v is s:
                            continue
                        d = self.delta(v, s)
                        if d is not None and not has_carry(d):
                            rd[k] = T.add(N(ov), T.mk("sum", i, N(lo), N(hi), N(step), d))
                        else:
                            self.fresh_n += 1
                            rd[k] = sym(f"unk:loop:{k}#{self.fresh_n}", "real")
                            self.notes.append(f"{self.where()}: loop-carried {k} not summarised")
                    elif od.get(k, UNDEF) is not v:
                        if k in tnames or od.get(k, UNDEF) is UNDEF:
                            self.fresh_n += 1
                            rd[k] = UNDEF if True else None
                            rd.pop(k)
                        else:
                            self.fresh_n += 1
                            rd[k] = sym(f"unk:loop:{k}#{self.fresh_n}", "real")
                res[r] = rc
            elif isinstance(cell, SArr):
                base, old = ph.get((r, None), (None, old))
                rc = old.copy()
                for stt in cell.stores:
                    if has_carry(stt[-1]) :
                        # reading own previous contents
                        pass
                    rc.stores.append(("loop", i, N(lo), N(hi), N(step), stt))
                res[r] = rc
            elif isinstance(cell, List):
                n0 = len(old.items)
                rc = old.copy()
                if len(cell.items) == n0 + 1:
                    rc.items.append(SymMap2(i, N(lo), N(hi), N(step), cell.items[-1], it))
                else:
                    raise Unsupported("list mutated in loop of unknown length")
                res[r] = rc
            else:
                raise Unsupported("state mutated in loop of unknown length")
        self.heap = res
        return None

    def delta(self, v, s):
        """v == s + d with d independent of s (structural), else None."""
        if not isinstance(v, Node):
            return None
        if v is s:
            return num(0)
        if v.op == "add":
            for a, b in ((v.args[0], v.args[1]), (v.args[1], v.args[0])):
                da = self.delta(a, s)
                if da is not None and s not in T.syms_of(b):
                    return T.add(da, b)
        if v.op == "ite":
            if s not in T.syms_of(v.args[0]):
                a, b = self.delta(v.args[1], s), self.delta(v.args[2], s)
                if a is not None and b is not None:
                    return T.ite(v.args[0], a, b)
        return None

    # ------------------------------------------------------------ expressions
    def ev(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(e).__name__)
        ln = getattr(e, "lineno", None)
        if ln is not None:
            self.line = ln
        return m(e, env)

    def e_Constant(self, e, env):
        v = e.value
        if isinstance(v, float):
            return Fraction(repr(v))
        if isinstance(v, complex):
            return T.add(N(Fraction(repr(v.real))), T.mul(N(Fraction(repr(v.imag))), T.I)) if v.real else T.mul(N(Fraction(repr(v.imag))), T.I)
        return v

    def e_Name(self, e, env):
        return self.lookup(e.id, env)

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.assign(e.target, v, env)
        return v

    def e_Attribute(self, e, env):
        return self.getattr(self.ev(e.value, env), e.attr)

    def e_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def e_List(self, e, env):
        return self.list(self.elts(e.elts, env))

    def e_Set(self, e, env):
        return self.list(self._uniq(self.elts(e.elts, env)), "set")

    def _uniq(self, items):
        out = []
        for x in items:
            if not any(self.same(x, y) for y in out):
                out.append(x)
        return out

    def elts(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iter_items(self.ev(x.value, env)))
            else:
                out.append(self.ev(x, env))
        return out

    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                m = self.ev(v, env)
                d.update(self.mapping(m))
            else:
                d[self.hashable(self.ev(k, env))] = self.ev(v, env)
        return self.new(Dict(d))

    def mapping(self, m):
        m = self.res(m)
        if isinstance(m, Ref) and isinstance(self.get(m), Dict):
            return dict(self.get(m).d)
        if isinstance(m, Choice):
            a, b = self.mapping(m.a), self.mapping(m.b)
            return {k: self.merge_val(m.c, a.get(k, UNDEF), b.get(k, UNDEF)) for k in list(a) + [k for k in b if k not in a]}
        raise Unsupported("** of unknown mapping")

    def hashable(self, k):
        if isinstance(k, (str, bytes, int, Fraction, bool, type(None), tuple, Node, Ref, ClassVal, Func, Ext)):
            if isinstance(k, Ref) and isinstance(self.get(k), (List, Dict)) and getattr(self.get(k), "kind", "list") == "list":
                raise AbsRaise(("TypeError", "unhashable key"), self.where())
            return k
        raise Unsupported("dict key " + repr(k))

    def e_BinOp(self, e, env):
        a = self.ev(e.left, env)
        b = self.ev(e.right, env)
        return self.binop(e.op, a, b)

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        return self.unop(e.op, v)

    def unop(self, op, v):
        v = self.res(v)
        if isinstance(op, ast.Not):
            return T.lnot(self.truth(v))
        if isinstance(v, Choice):
            return self.fork_val(v.c, lambda: self.unop(op, v.a), lambda: self.unop(op, v.b))
        if isinstance(v, Ref) and isinstance(self.get(v), Arr):
            a = self.get(v)
            return self.new(Arr(a.shape, [self.unop(op, x) for x in a.data], a.dtype))
        if isinstance(op, ast.USub):
            if conc(v):
                return -v
            if isinstance(v, Node):
                return T.neg(v)
        if isinstance(op, ast.UAdd):
            return v
        if isinstance(op, ast.Invert):
            if isinstance(v, bool):
                # numpy bool_ semantic for analysed masks; python ~True == -2
                return ~int(v) if not getattr(self, "np_bool", True) else (not v)
            if isinstance(v, int):
                return ~v
            if isinstance(v, Node):
                return T.lnot(v)
        raise Unsupported(f"unary op on {v!r}")

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)

        def go(i):
            v = self.ev(e.values[i], env)
            if i == len(e.values) - 1:
                return v
            c = self.truth(v)
            k = self.known(c)
            if k is not None:
                if k == isand:
                    return go(i + 1)
                return v if not (isinstance(v, Node) and T.isboolterm(v)) else (not isand)
            if isand:
                r = self.fork_val(c, lambda: go(i + 1), lambda: v if not T.isboolterm(v) else False)
                if T.isboolterm(v):
                    return r
                return r
            return self.fork_val(c, lambda: v if not T.isboolterm(v) else True, lambda: go(i + 1))
        return go(0)

    def e_IfExp(self, e, env):
        c = self.truth(self.ev(e.test, env))
        return self.fork_val(c, lambda: self.ev(e.body, env), lambda: self.ev(e.orelse, env))

    def e_Compare(self, e, env):
        left = self.ev(e.left, env)
        r = True
        for op, rt in zip(e.ops, e.comparators):
            right = self.ev(rt, env)
            c = self.compare(_CMP[type(op)], left, right)
            if r is True:
                r = c
            else:
                r = T.land(self.truth(r), self.truth(c))
            left = right
        return r

    def compare(self, op, a, b):
        a, b = self.res(a), self.res(b)
        if isinstance(a, Choice):
            return self.fork_val(a.c, lambda: self.compare(op, a.a, b), lambda: self.compare(op, a.b, b))
        if isinstance(b, Choice):
            return self.fork_val(b.c, lambda: self.compare(op, a, b.a), lambda: self.compare(op, a, b.b))
        if op in ("is", "is not"):
            r = self.identical(a, b)
            return r if op == "is" else T.lnot(r)
        if op in ("in", "not in"):
            r = self.contains(b, a)
            return r if op == "in" else T.lnot(r)
        if (isinstance(a, Ref) and isinstance(self.get(a), Arr)) or (isinstance(b, Ref) and isinstance(self.get(b), Arr)):
            return self.elementwise(lambda x, y: self.compare(op, x, y), a, b, dtype="bool")
        if conc(a) and conc(b):
            return {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
        if T.isnum(a) and T.isnum(b):
            if T.isboolterm(a) or T.isboolterm(b):
                a1, b1 = T.unb(a), T.unb(b)
                if op in ("==", "!=") and T.isboolterm(a1) and T.isboolterm(b1):
                    r = T.lor(T.land(a1, b1), T.land(T.lnot(a1), T.lnot(b1)))
                    return r if op == "==" else T.lnot(r)
            if self.decide_eq and op in ("==", "!="):      # generic values: equal terms are equal, others differ
                return T.equal(T.asterm(a), T.asterm(b)) == (op == "==")
            return T.cmp(op, T.asterm(a), T.asterm(b))
        if op in ("==", "!="):
            r = self.equals(a, b)
            return r if op == "==" else T.lnot(r)
        if isinstance(a, str) and isinstance(b, str):
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
        if isinstance(a, tuple) and isinstance(b, tuple) and all(conc(x) or isinstance(x, str) for x in a + b):
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
        if isinstance(a, Ref) and isinstance(self.get(a), Obj):
            m = {"<": "__lt__", "<=": "__le__", ">": "__gt__", ">=": "__ge__"}[op]
            return self.call(self.getattr(a, m), [b], {})
        if isinstance(a, Node) or isinstance(b, Node):
            return fn("strtest", op, a if isinstance(a, Node) else repr(a), b if isinstance(b, Node) else repr(b))
        raise Unsupported(f"compare {a!r} {op} {b!r}")

    def identical(self, a, b):
        if a is None or b is None:
            o = b if a is None else a
            if o is None:
                return True
            if isinstance(o, Node):
                if o.op == "sym" and o.args[1] == "opaque":
                    return fn("isnone", o)
                if o.op == "fn" and o.args[0] in ("attr", "item", "call", "mcall", "get"):
                    return fn("isnone", o)
                return False
            return False
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if isinstance(a, Node) and isinstance(b, bool):
            return a if b else T.lnot(a)
        if isinstance(b, Node) and isinstance(a, bool):
            return b if a else T.lnot(b)
        if isinstance(a, (int, str)) and isinstance(b, (int, str)):
            return a == b
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a is b
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a.path == b.path
        return a is b

    def equals(self, a, b):
        if a is b:
            return True
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            r = True
            for x, y in zip(a, b):
                r = T.land(r, self.truth(self.compare("==", x, y)))
            return r
        if isinstance(a, Ref) and isinstance(b, Ref):
            ca, cb = self.get(a), self.get(b)
            if isinstance(ca, List) and isinstance(cb, List):
                return self.equals(tuple(ca.items), tuple(cb.items))
            if isinstance(ca, Obj):
                if ca.cls is not None and ca.cls.find("__eq__")[0] is not UNDEF:
                    return self.call(self.getattr(a, "__eq__"), [b], {})
            if isinstance(ca, Dict) and isinstance(cb, Dict):
                if set(ca.d) != set(cb.d):
                    return False
                r = True
                for k in ca.d:
                    r = T.land(r, self.truth(self.compare("==", ca.d[k], cb.d[k])))
                return r
            return False
        if a is None or b is None:
            return self.identical(a, b)
        if isinstance(a, Node) or isinstance(b, Node):
            x, y = (a, b) if isinstance(a, Node) else (b, a)
            if isinstance(y, (str, bytes)):
                if x.op == "num":
                    return False
                return fn("strtest", "==", x, y)
            if isinstance(y, Ref) and isinstance(self.get(y), (Dict, List)) and self.scalar_term(x):
                return False
            return fn("strtest", "==", x, repr(y))
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a.path == b.path
        if type(a) is not type(b):
            return False
        return a == b

    def cellop(self, op, x, y):
        """one cell of an elementwise numpy operation (division by zero only warns)"""
        if isinstance(op, ast.Div) and T.isnum(y) and not isinstance(y, bool) and T.cval(y) == 0 and T.isnum(x):
            cx = T.cval(x)
            return T.NAN if cx == 0 or x is T.NAN else T.neg(T.INF) if cx is not None and cx < 0 else T.INF
        return self.binop(op, x, y)

    @staticmethod
    def scalar_term(x):
        """A term that certainly is a number or a truth value (an opaque symbol may be anything)."""
        return x.op == "num" or T.isboolterm(x) or (x.op == "sym" and x.args[1] in ("int", "real", "pos", "bool"))

    def contains(self, cont, x):
        cont = self.res(cont)
        if isinstance(cont, Choice):
            return self.fork_val(cont.c, lambda: self.contains(cont.a, x), lambda: self.contains(cont.b, x))
        if isinstance(cont, str):
            if isinstance(x, str):
                return x in cont
            return fn("contains", cont, x)
        if isinstance(cont, Ref) and isinstance(self.get(cont), Dict):
            d = self.get(cont).d
            if isinstance(x, Node) and x.op not in ("num",):
                if x in d:
                    return True
                return fn("contains", x, repr(sorted(map(str, d))))
            v = d.get(x, UNDEF)
            if isinstance(v, Choice):
                return self._present(v)
            return v is not UNDEF
        if isinstance(cont, ClassVal) and cont.members is not None:
            return any(x is r for r in cont.members.values())
        if isinstance(cont, Node):
            return fn("contains", cont, x if isinstance(x, (Node, str)) else repr(x))
        if isinstance(cont, Ref) and isinstance(self.get(cont), Obj):
            m = self.getattr_opt(cont, "__contains__")
            if m is not UNDEF:
                return self.truth(self.call(m, [x], {}))
        r = False
        for y in self.iter_items(cont):
            if isinstance(y, Guarded):
                r = T.lor(r, T.land(y.c, self.truth(self.compare("==", y.v, x))))
            else:
                r = T.lor(r, self.truth(self.compare("==", y, x)))
            if r is True:
                return True
        return r

    def _present(self, v):
        if v is UNDEF:
            return False
        if isinstance(v, Choice):
            return T.lor(T.land(v.c, self._present(v.a)), T.land(T.lnot(v.c), self._present(v.b)))
        return True

    def truth(self, v):
        v = self.res(v)
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, (int, Fraction)):
            return v != 0
        if isinstance(v, (str, bytes, tuple)):
            return len(v) > 0
        if isinstance(v, Node):
            if v.op == "bool":
                return v.args[0]
            if v.op == "num":
                return v.args[0] != 0
            if T.isboolterm(v):
                return v
            if v.op == "ite":
                return T.lor(T.land(v.args[0], self.truth(T.back(v.args[1]))), T.land(T.lnot(v.args[0]), self.truth(T.back(v.args[2]))))
            if v.op == "sym" and v.args[1] == "opaque" or (v.op == "fn" and v.args[0] not in T.ELEMENTWISE):
                return fn("bool", v)
            return T.lnot(T.cmp("==", v, num(0)))
        if isinstance(v, Choice):
            return T.lor(T.land(v.c, self.truth(v.a)), T.land(T.lnot(v.c), self.truth(v.b)))
        if isinstance(v, Ref):
            c = self.get(v)
            if isinstance(c, List):
                if any(isinstance(x, Guarded) for x in c.items):
                    if any(not isinstance(x, Guarded) for x in c.items):
                        return True
                    r = False
                    for x in c.items:
                        r = T.lor(r, x.c)
                    return r
                return len(c.items) > 0
            if isinstance(c, Dict):
                return len(c.d) > 0
            if isinstance(c, Arr):
                if len(c.data) == 1:
                    return self.truth(c.data[0])
                raise AbsRaise(("ValueError", "ambiguous truth value of array"), self.where())
            if isinstance(c, Obj) and c.cls is not None:
                for m in ("__bool__", "__len__"):
                    f, _ = c.cls.find(m)
                    if f is not UNDEF:
                        return self.truth(self.call(self.getattr(v, m), [], {}))
            return True
        if isinstance(v, RangeV):
            return T.cmp("<", N(v.lo), N(v.hi))
        if v is UNDEF:
            raise AbsRaise(("UnboundLocalError",), self.where())
        return True

    # arithmetic -----------------------------------------------------------
    def binop(self, op, a, b):
        a, b = self.res(a), self.res(b)
        if isinstance(a, Choice):
            return self.fork_val(a.c, lambda: self.binop(op, a.a, b), lambda: self.binop(op, a.b, b))
        if isinstance(b, Choice):
            return self.fork_val(b.c, lambda: self.binop(op, a, b.a), lambda: self.binop(op, a, b.b))
        if conc(a) and conc(b):
            return self.cbin(op, a, b)
        ca = self.get(a) if isinstance(a, Ref) else None
        cb = self.get(b) if isinstance(b, Ref) else None
        if isinstance(ca, Arr) or isinstance(cb, Arr):
            if isinstance(ca, List):
                a = self.M.np_array(self, [a], {})
            if isinstance(cb, List):
                b = self.M.np_array(self, [b], {})
            if isinstance(op, ast.MatMult):
                return self.M.np_dot(self, [a, b], {})
            return self.elementwise(lambda x, y: self.cellop(op, x, y), a, b)
        if T.isnum(a) and T.isnum(b):
            return self.nbin(op, a, b)
        if isinstance(a, (str, bytes)) and isinstance(b, (str, bytes)) and isinstance(op, ast.Add):
            return a + b
        if isinstance(a, str) and isinstance(op, ast.Mult) and isinstance(b, int):
            return a * b
        if isinstance(a, str) and isinstance(op, ast.Mod):
            return fn("fmt", a)
        if isinstance(a, tuple) and isinstance(b, tuple) and isinstance(op, ast.Add):
            return a + b
        if isinstance(a, tuple) and isinstance(op, ast.Mult) and isinstance(b, int):
            return a * b
        if isinstance(ca, List) and isinstance(op, ast.Add) and isinstance(cb, List):
            return self.list(ca.items + cb.items)
        if isinstance(ca, List) and isinstance(op, ast.Mult) and isinstance(b, int):
            return self.list(ca.items * b)
        if isinstance(cb, List) and isinstance(op, ast.Mult) and isinstance(a, int):
            return self.list(cb.items * a)
        if isinstance(ca, List) and ca.kind == "set" and isinstance(cb, List):
            if isinstance(op, ast.Sub):
                return self.list([x for x in ca.items if not any(self.same(x, y) for y in cb.items)], "set")
            if isinstance(op, ast.BitOr):
                return self.list(self._uniq(ca.items + cb.items), "set")
            if isinstance(op, ast.BitAnd):
                return self.list([x for x in ca.items if any(self.same(x, y) for y in cb.items)], "set")
        if isinstance(ca, Dict) and isinstance(cb, Dict) and isinstance(op, ast.BitOr):
            d = dict(ca.d)
            d.update(cb.d)
            return self.new(Dict(d))
        if isinstance(ca, Obj) or isinstance(cb, Obj):
            nm = _OPM.get(type(op))
            if isinstance(ca, Obj):
                m = self.getattr_opt(a, f"__{nm}__")
                if m is not UNDEF:
                    return self.call(m, [b], {})
            if isinstance(cb, Obj):
                m = self.getattr_opt(b, f"__r{nm}__")
                if m is not UNDEF:
                    return self.call(m, [a], {})
        if isinstance(a, Node) and isinstance(cb, List):
            return self.binop(op, a, self.M.np_array(self, [b], {}))
        if isinstance(b, Node) and isinstance(ca, List):
            if b.op == "sym" and b.args[1] == "opaque":
                raise Unsupported("list op opaque")
            return self.binop(op, self.M.np_array(self, [a], {}), b)
        if isinstance(a, Node) or isinstance(b, Node):
            return fn("op" + type(op).__name__, self.payload(a), self.payload(b))
        if isinstance(a, (Ext, ClassVal)) and isinstance(b, (Ext, ClassVal, type(None))) and isinstance(op, ast.BitOr):
            return Ext("typing.Union")
        if (a is None or isinstance(a, (str, tuple))) and (b is None or isinstance(b, (str, tuple, int, Fraction))) or conc(a) and isinstance(b, (str, tuple, type(None))):
            raise AbsRaise(("TypeError", f"unsupported operand types for {type(op).__name__}"), self.where())
        if not isinstance(op, (ast.BitOr, ast.Mod)) and any(self.inert(x, c) for x, c in ((a, ca), (b, cb))) and not any(isinstance(x, (Node, Ext)) for x in (a, b)):
            raise AbsRaise(("TypeError", f"unsupported operand types for {type(op).__name__}"), self.where())
        raise Unsupported(f"binop {type(op).__name__} {a!r} {b!r} at {self.where()}")

    def inert(self, v, c):
        """a value no arithmetic is defined for: a function, method or class of the sources, a dictionary, or an instance of a class without operator methods"""
        if isinstance(v, (Func, Bound, ClassVal)) or isinstance(c, Dict):
            return True
        return isinstance(c, Obj) and not c.open and c.cls is not None and not any(not isinstance(b, ClassVal) for k in c.cls.mro() for b in k.bases) and not any(n.startswith("__") and n.strip("_") in DUNDERS for k in c.cls.mro() for n in k.ns)

    def cbin(self, op, a, b):
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)) and isinstance(a, bool) and isinstance(b, bool):
            return {ast.BitAnd: a and b, ast.BitOr: a or b, ast.BitXor: a != b}[type(op)]
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor, ast.LShift, ast.RShift)) and any(isinstance(x, Fraction) and x.denominator != 1 for x in (a, b)):
            raise AbsRaise(("TypeError", f"unsupported operand types for {type(op).__name__}"), self.where())
        a = int(a) if isinstance(a, bool) else a
        b = int(b) if isinstance(b, bool) else b
        if isinstance(op, ast.Add):
            return a + b
        if isinstance(op, ast.Sub):
            return a - b
        if isinstance(op, ast.Mult):
            return a * b
        if isinstance(op, ast.Div):
            if b == 0:
                raise AbsRaise(("ZeroDivisionError",), self.where())
            return Fraction(a) / Fraction(b)
        if isinstance(op, ast.FloorDiv):
            if b == 0:
                raise AbsRaise(("ZeroDivisionError",), self.where())
            r = a // b
            return r
        if isinstance(op, ast.Mod):
            if b == 0:
                raise AbsRaise(("ZeroDivisionError",), self.where())
            return a % b
        if isinstance(op, ast.Pow):
            if isinstance(b, int):
                if b >= 0:
                    return a ** b
                if a == 0:
                    raise AbsRaise(("ZeroDivisionError",), self.where())
                return Fraction(a) ** b
            if isinstance(b, Fraction) and b.denominator == 1:
                return Fraction(a) ** int(b)
            if b == Fraction(1, 2):
                return T.back(fn("sqrt", N(a)))
            return T.power(N(a), N(b))
        if isinstance(op, ast.BitAnd):
            return a & b
        if isinstance(op, ast.BitOr):
            return a | b
        if isinstance(op, ast.BitXor):
            return a ^ b
        if isinstance(op, ast.LShift):
            return a << b
        if isinstance(op, ast.RShift):
            return a >> b
        raise Unsupported("cbin " + type(op).__name__)

    def nbin(self, op, a, b):
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
            if T.isboolterm(a) and T.isboolterm(b):
                if isinstance(op, ast.BitAnd):
                    return T.land(a, b)
                if isinstance(op, ast.BitOr):
                    return T.lor(a, b)
                return T.lor(T.land(a, T.lnot(b)), T.land(T.lnot(a), b))
            if isinstance(op, ast.BitAnd):
                return T.land(self.truth(a), self.truth(b))
            if isinstance(op, ast.BitOr):
                return T.lor(self.truth(a), self.truth(b))
        a, b = self.bnum(a), self.bnum(b)
        if isinstance(op, ast.Add):
            return T.add(a, b)
        if isinstance(op, ast.Sub):
            return T.sub(a, b)
        if isinstance(op, ast.Mult):
            return T.mul(a, b)
        if isinstance(op, ast.Div):
            return T.div(a, b)
        if isinstance(op, ast.Pow):
            if T.cval(b) == Fraction(1, 2):
                return fn("sqrt", N(a))
            return T.power(a, b)
        if isinstance(op, ast.FloorDiv):
            return fn("floor", T.div(a, b))
        if isinstance(op, ast.Mod):
            return T.sub(a, T.mul(b, fn("floor", T.div(a, b))))
        if isinstance(op, ast.MatMult):
            return fn("dot", N(a), N(b))
        raise Unsupported("nbin " + type(op).__name__)

    def bnum(self, a):
        """boolean terms used as numbers become 0/1."""
        if isinstance(a, bool):
            return int(a)
        if isinstance(a, Node) and T.isboolterm(a):
            if a.op == "bool":
                return int(a.args[0])
            return T.mk("ite", a, num(1), num(0))
        return a

    def asarr(self, v):
        """(shape, data, dtype) view of an array-like for broadcasting."""
        v = self.res(v)
        if isinstance(v, Ref):
            c = self.get(v)
            if isinstance(c, Arr):
                return c.shape, c.data, c.dtype
            if isinstance(c, List):
                r = self.M.np_array(self, [v], {})
                return self.asarr(r)
        if isinstance(v, tuple):
            return self.asarr(self.M.np_array(self, [v], {}))
        return (), [v], None

    def elementwise(self, f, *vals, dtype=None):
        parts = [self.asarr(v) for v in vals]
        nd = max(len(p[0]) for p in parts)
        if nd == 0:
            return f(*[p[1][0] for p in parts])
        shp = []
        for ax in range(nd):
            s = 1
            for p in parts:
                k = ax - (nd - len(p[0]))
                if k < 0:
                    continue
                x = p[0][k]
                if x is None:
                    s = None if s in (1, None) else s
                elif x != 1:
                    if s not in (1, None) and s != x:
                        raise AbsRaise(("ValueError", "broadcast"), self.where())
                    s = x
            shp.append(s)
        import itertools
        known = [s if s is not None else 1 for s in shp]

        def strides(p):
            sh = [x if x is not None else 1 for x in p[0]]
            st = []
            acc = 1
            for x in reversed(sh):
                st.append(acc)
                acc *= x
            return sh, list(reversed(st))
        infos = [strides(p) for p in parts]
        out = []
        for idx in itertools.product(*[range(k) for k in known]):
            args = []
            for p, (sh, st) in zip(parts, infos):
                off = 0
                for k in range(len(sh)):
                    i = idx[k + nd - len(sh)]
                    off += (0 if sh[k] == 1 else i) * st[k]
                args.append(p[1][off])
            out.append(f(*args))
        dt = dtype or next((p[2] for p in parts if p[2] == "complex"), None) or next((p[2] for p in parts if p[2]), None)
        return self.new(Arr(shp, out, dt))

    # attributes -------------------------------------------------------------
    def open_attr(self, c, name):
        return sym(f"{c.label}.{name}", "real", True)

    def getattr_opt(self, o, name):
        try:
            return self.getattr(o, name)
        except AbsRaise:
            return UNDEF

    def getattr(self, o, name):
        o = self.res(o)
        if isinstance(o, Choice):
            if o.a is UNDEF:
                return self.getattr(o.b, name)
            if o.b is UNDEF:
                return self.getattr(o.a, name)
            return self.fork_val(o.c, lambda: self.getattr(o.a, name), lambda: self.getattr(o.b, name))
        if isinstance(o, Ref):
            c = self.get(o)
            if isinstance(c, Obj):
                return self.obj_attr(o, c, name)
            if isinstance(c, Arr):
                r = self.M.arr_attr(self, o, c, name)
                if r is not NOTIMPL:
                    return r
            elif (isinstance(c, Dict) and name not in DICT_ATTRS) or (isinstance(c, List) and name not in LIST_ATTRS):
                raise AbsRaise(("AttributeError", name), self.where())
            return MethodOf(o, name)
        if (isinstance(o, str) and not hasattr(str, name)) or (o is None and not hasattr(None, name)):
            raise AbsRaise(("AttributeError", f"{o!r} has no attribute {name}"), self.where())
        if isinstance(o, ModuleVal):
            v = self.get(o.env).vars.get(name, UNDEF)
            if v is not UNDEF:
                return v
            m = self.module(o.name + "." + name)
            if m is not None:
                return m
            raise AbsRaise(("AttributeError", name), self.where())
        if isinstance(o, Ext):
            p = o.path + "." + name
            if p in self.M.CONSTS:
                return self.M.CONSTS[p]
            if name == "value" and p.startswith("astropy.constants."):
                return sym(p, "pos")
            return Ext(p)
        if isinstance(o, ClassVal):
            if name == "__name__":
                return o.name
            if name == "__members__":
                return self.new(Dict(o.members))
            if name == "_member_map_":
                return self.new(Dict(o.members))
            if name == "_member_names_":
                return self.list(list(o.members))
            if name == "__dict__":
                return self.new(Dict(o.ns))
            if name == "__annotations__":
                return self.new(Dict({k: Ext("annot") for k in o.order}))
            v, owner = o.find(name)
            if v is UNDEF:
                if name == "__mro__":
                    return tuple(o.mro())
                if name == "__getitem__":
                    return Lam(lambda it, a, k: it.getitem(o, a[0]), "enum.__getitem__")
                raise AbsRaise(("AttributeError", f"{o.name}.{name}"), self.where())
            return self.bind_cls(v, o)
        if isinstance(o, SuperV):
            oc = self.get(o.obj).cls if isinstance(o.obj, Ref) else o.obj
            mro = oc.mro()
            i = mro.index(o.cls) + 1
            for c in mro[i:]:
                if name in c.ns:
                    v = c.ns[name]
                    if isinstance(v, Prop):
                        return self.call(Bound(v.fget, o.obj), [], {})
                    if isinstance(v, StaticM):
                        return v.f
                    return Bound(v.f if isinstance(v, ClassM) else v, oc if isinstance(v, ClassM) else o.obj)
            return Lam(lambda it, a, k: None, "super." + name)
        if isinstance(o, Node):
            return self.M.node_attr(self, o, name)
        if isinstance(o, Func):
            if name == "__name__":
                return o.name
            if name == "__get__":
                return Lam(lambda it, a, k: Bound(o, a[0]), "__get__")
            if name in o.attrs:
                return o.attrs[name]
            if name == "__doc__":
                return ast.get_docstring(o.node) if isinstance(o.node, ast.FunctionDef) else None
        if isinstance(o, Bound) and name == "__name__":
            return o.func.name
        if isinstance(o, StaticM) and name in ("__get__", "__func__"):
            return o.f if name == "__func__" else Lam(lambda it, a, k: o.f, "__get__")
        if isinstance(o, SliceV):
            return {"start": o.a, "stop": o.b, "step": o.c}[name]
        if isinstance(o, Partial):
            if name == "func":
                return o.f
            if name == "keywords":
                return self.new(Dict(o.kwargs))
            if name == "args":
                return tuple(o.args)
        if conc(o):
            if name == "real":
                return o
            if name == "imag":
                return 0
        if o is None or o is UNDEF:
            raise AbsRaise(("AttributeError", f"None.{name}"), self.where())
        return MethodOf(o, name)

    def bind_cls(self, v, cls):
        if isinstance(v, StaticM):
            return v.f
        if isinstance(v, ClassM):
            return Bound(v.f, cls)
        return v

    def obj_attr(self, r, c, name):
        v = c.attrs.get(name, UNDEF)
        if v is not UNDEF:
            if isinstance(v, Choice):
                v = self.strip_undef(self.res(v))
            return v
        if c.cls is not None:
            v, owner = c.cls.find(name)
            if v is not UNDEF:
                if isinstance(v, Prop):
                    if v.fget is None:
                        raise AbsRaise(("AttributeError", name), self.where())
                    val = self.call(Bound(v.fget, r), [], {})
                    if v.cached:
                        self.w(r).attrs[name] = val
                    return val
                if isinstance(v, Func):
                    return Bound(v, r)
                if isinstance(v, StaticM):
                    return v.f
                if isinstance(v, ClassM):
                    return Bound(v.f, c.cls)
                return v
            if name == "__class__":
                return c.cls
            if name == "__dict__":
                return self.new(Dict(c.attrs))
            if name == "__slots__":
                return ()
            for k in c.cls.mro():
                for b in k.bases:
                    if isinstance(b, Ext) and b.path.split(".")[-1] in ("list", "dict", "tuple", "str"):
                        return MethodOf(r, name)
            ga, owner = c.cls.find("__getattr__")
            if ga is not UNDEF:
                return self.call(Bound(ga, r), [name], {})
        h = getattr(c, "label", None)
        hook = self.overrides.get(("attr", name))
        if c.open:
            v = self.open_attr(c, name)
            self.w(r).attrs[name] = v
            return v
        raise AbsRaise(("AttributeError", f"{c.cls.name if c.cls else c.label}.{name}"), self.where())

    def strip_undef(self, v):
        if isinstance(v, Choice):
            if v.a is UNDEF:
                return self.strip_undef(v.b)
            if v.b is UNDEF:
                return self.strip_undef(v.a)
        return v

    def setattr(self, o, name, v):
        o = self.res(o)
        if isinstance(o, Choice):
            self.fork_val(o.c, lambda: self.setattr(o.a, name, v), lambda: self.setattr(o.b, name, v))
            return
        if isinstance(o, Ref):
            c = self.get(o)
            if isinstance(c, Obj):
                if c.cls is not None:
                    p, _ = c.cls.find(name)
                    if isinstance(p, Prop):
                        if p.fset is None:
                            raise AbsRaise(("AttributeError", "can't set " + name), self.where())
                        self.call(Bound(p.fset, o), [v], {})
                        return
                self.w(o).attrs[name] = v
                self.attr_where[(o.id, name)] = self.where()
                return
            if isinstance(c, Arr) and name in ("real", "imag"):
                vc = self.get(self.res(v)) if isinstance(self.res(v), Ref) else None
                if vc is not None and vc.shape != c.shape and vc.shape != ():
                    raise AbsRaise(("ValueError", "could not broadcast"), self.where())
                a = self.w(o)
                new = []
                for i, old in enumerate(a.data):
                    x = N(vc.data[i if vc.shape else 0] if vc is not None else self.res(v))
                    old = N(old)
                    un = old.op == "sym" and old.args[0].startswith("uninit@")
                    if name == "real":
                        new.append(x if un else x + T.I * fn("imag", old))
                    else:
                        new.append(T.I * x if un else fn("real", old) + T.I * x)
                a.data = new
                return
            return
        if isinstance(o, Func):
            o.attrs[name] = v
            return
        if isinstance(o, ClassVal):
            o.ns[name] = v
            return
        if isinstance(o, (Ext, Node, ModuleVal, MethodOf)):
            return
        raise Unsupported(f"setattr on {o!r}")

    # subscripts --------------------------------------------------------------
    def e_Subscript(self, e, env):
        o = self.ev(e.value, env)
        k = self.ev_index(e.slice, env)
        return self.getitem(o, k)

    def ev_index(self, s, env):
        if isinstance(s, ast.Slice):
            return self.e_Slice(s, env)
        if isinstance(s, ast.Tuple):
            out = []
            for x in s.elts:
                if isinstance(x, ast.Starred):
                    out.extend(self.iter_items(self.ev(x.value, env)))
                else:
                    out.append(self.ev_index(x, env))
            return tuple(out)
        return self.ev(s, env)

    def e_Slice(self, s, env):
        f = lambda x: self.ev(x, env) if x is not None else None
        st = f(s.step)
        if isinstance(st, int) and not isinstance(st, bool) and st == 0:
            raise AbsRaise(("ValueError", "slice step cannot be zero"), self.where())
        return SliceV(f(s.lower), f(s.upper), st)

    def getitem(self, o, k):
        o, k = self.res(o), self.res(k)
        if isinstance(o, Choice):
            return self.fork_val(o.c, lambda: self.getitem(o.a, k), lambda: self.getitem(o.b, k))
        if isinstance(k, Choice):
            return self.fork_val(k.c, lambda: self.getitem(o, k.a), lambda: self.getitem(o, k.b))
        if isinstance(k, SliceV) and any(isinstance(x, Choice) for x in (k.a, k.b, k.c)):
            for at in ("a", "b", "c"):
                x = self.res(getattr(k, at))
                if isinstance(x, Choice):
                    def w(val, at=at):
                        n = SliceV(k.a, k.b, k.c)
                        setattr(n, at, val)
                        return n
                    return self.fork_val(x.c, lambda: self.getitem(o, w(x.a)), lambda: self.getitem(o, w(x.b)))
        if isinstance(k, Fraction) and k.denominator == 1:
            k = int(k)
        if isinstance(o, Ref):
            c = self.get(o)
            if isinstance(c, Dict):
                kk = self.hashable(k)
                v = c.d.get(kk, UNDEF)
                if v is UNDEF:
                    if c.default is not None:
                        v = self.call(c.default, [], {})
                        self.w(o).d[kk] = v
                        return v
                    if isinstance(k, Node):
                        return self.select_dict(c, k)
                    raise AbsRaise(("KeyError", k), self.where())
                return self.strip_undef(self.res(v))
            if isinstance(c, List):
                return self.seq_item(c.items, k, lambda items: self.list(items))
            if isinstance(c, Arr):
                return self.M.arr_getitem(self, o, c, k)
            if isinstance(c, SArr):
                return self.sarr_get(c, k)
            if isinstance(c, Obj):
                if c.cls is not None:
                    f, _ = c.cls.find("__getitem__")
                    if f is not UNDEF:
                        return self.call(Bound(f, o), [k], {})
                if c.open:
                    return fn("item", sym(c.label, "opaque"), self.payload(k))
        if isinstance(o, tuple):
            return self.seq_item(list(o), k, lambda items: tuple(items))
        if isinstance(o, str):
            if isinstance(k, int):
                return o[k]
            if isinstance(k, SliceV) and all(x is None or isinstance(x, int) for x in (k.a, k.b, k.c)):
                return o[slice(k.a, k.b, k.c)]
        if isinstance(o, ClassVal):
            if o.members is not None:
                if k in o.members:
                    return o.members[k]
                if isinstance(k, Node):
                    return fn("enum:" + o.name, k)
                raise AbsRaise(("KeyError", k), self.where())
            f, _ = o.find("__class_getitem__")
            return o
        if isinstance(o, Node):
            return self.M.node_getitem(self, o, k)
        if isinstance(o, Ext):
            if o.path == "numpy.s_":
                return k
            return Ext(o.path + "[]")
        if isinstance(o, RangeV):
            if isinstance(k, int) and k >= 0:
                return T.add(o.lo, T.mul(k, o.step))
        if isinstance(o, MethodOf):
            return fn("item", "method", o.name, self.payload(k))
        if o is None:
            raise AbsRaise(("TypeError", "None is not subscriptable"), self.where())
        if conc(o) or isinstance(o, (Func, Bound)):
            raise AbsRaise(("TypeError", f"{type(o).__name__} is not subscriptable"), self.where())
        raise Unsupported(f"subscript {o!r}[{k!r}] at {self.where()}")

    def select_dict(self, c, k):
        ks = [x for x in c.d]
        r = None
        for x in reversed(ks):
            cond = self.truth(self.compare("==", k, x))
            v = c.d[x]
            r = v if r is None else self.merge_val(cond, v, r)
        if r is None:
            raise AbsRaise(("KeyError",), self.where())
        return r

    def seq_item(self, items, k, wrap):
        if isinstance(k, bool):
            k = int(k)
        if isinstance(k, int):
            if any(isinstance(x, Guarded) for x in items):
                if k >= 0 and not any(isinstance(x, Guarded) for x in items[:k + 1]):
                    return items[k]
                raise Unsupported("index into guarded list")
            if not -len(items) <= k < len(items):
                raise AbsRaise(("IndexError",), self.where())
            return self.res(items[k])
        if isinstance(k, SliceV):
            if all(x is None or isinstance(x, int) for x in (k.a, k.b, k.c)):
                return wrap(items[slice(k.a, k.b, k.c)])
            raise Unsupported("symbolic slice of list")
        if isinstance(k, Node):
            if not items:
                raise AbsRaise(("IndexError",), self.where())
            r = items[-1]
            for i in range(len(items) - 2, -1, -1):
                r = self.merge_val(self.truth(T.cmp("==", k, num(i))), items[i], r)
            return r
        if isinstance(k, str) or isinstance(k, tuple) or k is None:
            raise AbsRaise(("TypeError", "list indices"), self.where())
        raise Unsupported("seq index")

    def sarr_get(self, c, k):
        v = fn("idx", c.base, N(k))
        for st in c.stores:
            v = self.sarr_apply(v, st, N(k))
        return v

    def sarr_apply(self, v, st, k):
        if st[0] == "loop":
            raise Unsupported("read of loop-stored array")
        g, idx, val = st
        return T.ite(T.land(g, T.cmp("==", k, idx)), val, v)

    def setitem(self, o, k, v):
        """returns replacement value if the container is a term (rebinding)."""
        o, k = self.res(o), self.res(k)
        if isinstance(o, Choice):
            self.fork_val(o.c, lambda: self.setitem(o.a, k, v), lambda: self.setitem(o.b, k, v))
            return NOTIMPL
        if isinstance(k, Choice):
            self.fork_val(k.c, lambda: self.setitem(o, k.a, v), lambda: self.setitem(o, k.b, v))
            return NOTIMPL
        if isinstance(k, Fraction) and k.denominator == 1:
            k = int(k)
        if isinstance(o, Ref):
            c = self.get(o)
            if isinstance(c, Dict):
                self.w(o).d[self.hashable(k)] = v
                self.attr_where[(o.id, k)] = self.where()
                return NOTIMPL
            if isinstance(c, List):
                if isinstance(k, int):
                    if not -len(c.items) <= k < len(c.items):
                        raise AbsRaise(("IndexError",), self.where())
                    self.w(o).items[k] = v
                    return NOTIMPL
                if isinstance(k, SliceV) and all(x is None or isinstance(x, int) for x in (k.a, k.b, k.c)):
                    self.w(o).items[slice(k.a, k.b, k.c)] = self.iter_items(v)
                    return NOTIMPL
                if isinstance(k, Node):
                    n = self.w(o)
                    for i in range(len(n.items)):
                        n.items[i] = self.merge_val(self.truth(T.cmp("==", k, num(i))), v, n.items[i])
                    return NOTIMPL
            if isinstance(c, Arr):
                return self.M.arr_setitem(self, o, c, k, v)
            if isinstance(c, SArr):
                n = self.w(o)
                n.stores.append((True, N(k), N(v)))
                return NOTIMPL
            if isinstance(c, Obj):
                if c.cls is not None:
                    f, _ = c.cls.find("__setitem__")
                    if f is not UNDEF:
                        self.call(Bound(f, o), [k, v], {})
                        return NOTIMPL
        if isinstance(o, Node):
            return self.M.node_setitem(self, o, k, v)
        if isinstance(o, (Ext, MethodOf)):
            return NOTIMPL
        if o is None or isinstance(o, (bool, int, Fraction, str, tuple, Func)):
            raise AbsRaise(("TypeError", f"{o!r} does not support item assignment"), self.where())
        raise Unsupported(f"setitem {o!r}[{k!r}] at {self.where()}")

    def payload(self, v):
        """embed an arbitrary value in a term argument position."""
        v = self.res(v)
        if isinstance(v, Node) or isinstance(v, (str, bool, type(None))):
            return v
        if isinstance(v, bytes):
            return repr(v)
        if isinstance(v, (int, Fraction)):
            return num(v)
        if isinstance(v, tuple):
            return tuple(self.payload(x) for x in v)
        if isinstance(v, SliceV):
            return ("slice", self.payload(v.a), self.payload(v.b), self.payload(v.c))
        if isinstance(v, Choice):
            return T.mk("ite", v.c, self._pn(v.a), self._pn(v.b))
        if isinstance(v, Ref):
            c = self.get(v)
            if isinstance(c, List):
                return ("list",) + tuple(self.payload(x) for x in c.items)
            if isinstance(c, Arr):
                if c.shape == (None,) and isinstance(c.data[0], Node) and any(x.args[2] for x in T.syms_of(c.data[0])):
                    return c.data[0]
                return ("arr", repr(c.shape)) + tuple(self.payload(x) for x in c.data)
            if isinstance(c, Dict):
                return ("dict",) + tuple((self.payload(k), self.payload(x)) for k, x in c.d.items())
            if isinstance(c, Obj):
                return "obj:" + (c.label if c.label != "self" else (c.cls.name if c.cls else "?"))
        if isinstance(v, Guarded):
            return ("guarded", v.c, self.payload(v.v))
        if isinstance(v, Func):
            return "func:" + v.name
        if isinstance(v, Ext):
            return "ext:" + v.path
        if isinstance(v, ClassVal):
            return "class:" + v.name
        if isinstance(v, Bound):
            return "bound:" + v.func.name
        if isinstance(v, RangeV):
            return ("range", N(v.lo), N(v.hi), N(v.step))
        return "val:" + type(v).__name__

    def _pn(self, v):
        p = self.payload(v)
        if isinstance(p, (Node,)):
            return p
        return fn("const", p)

    # iteration ------------------------------------------------------------
    def iter_items(self, v, want=None):
        v = self.res(v)
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Ref):
            c = self.get(v)
            if isinstance(c, List):
                return list(c.items) if c.kind != "set" or self.set_order is None else self.set_order(list(c.items))
            if isinstance(c, Dict):
                return [Guarded(self._present(x), k) if isinstance(x, Choice) and self._present(x) is not True else k for k, x in c.d.items()]
            if isinstance(c, Arr):
                if c.shape and c.shape[0] is not None:
                    return [self.M.arr_getitem(self, v, c, i) for i in range(c.shape[0])]
                if want is not None:
                    raise Unsupported("unpack pointwise axis")
                raise Unsupported("iterate pointwise axis")
            if isinstance(c, Obj) and c.cls is not None:
                st = self.stepper(v)
                if st is not None:
                    return list(st)
                f, _ = c.cls.find("__getitem__")
            if want is not None:
                return [self.getitem(v, i) for i in range(want)]
        if isinstance(v, ClassVal) and v.members is not None:
            out = []
            for r in v.members.values():
                if r not in out:
                    out.append(r)
            return out
        if isinstance(v, Choice):
            a, b = self.iter_items(v.a, want), self.iter_items(v.b, want)
            if len(a) == len(b):
                return [self.merge_item(v.c, x, y) for x, y in zip(a, b)]
            return self.merge_cell(v.c, List(a), List(b)).items
        if isinstance(v, Node) and want is not None:
            return [self.getitem(v, i) for i in range(want)]
        if isinstance(v, Node) and v.op == "ite":
            pass
        if isinstance(v, RangeV):
            raise Unsupported("iterate symbolic range")
        if v is None or isinstance(v, (bool, int, Fraction, Func)):
            raise AbsRaise(("TypeError", f"{v!r} is not iterable"), self.where())
        raise Unsupported(f"iterate {v!r} at {self.where()}")

    # comprehension ----------------------------------------------------------
    def comp(self, e, env, emit):
        cenv = self.new(Env({}, env, self.get(env).module, self.get(env).func))

        def go(gi, guard):
            if gi == len(e.generators):
                emit(cenv, guard)
                return
            g = e.generators[gi]
            it = self.res(self.ev(g.iter, cenv))
            items = self.iter_items(it)
            for x in items:
                gd = guard
                if isinstance(x, Guarded):
                    gd = T.land(gd, x.c)
                    x = x.v
                    if gd is False:
                        continue
                tok = (self.path, self.pathset)
                if gd is not True:
                    self.assume(gd)
                try:
                    self.assign(g.target, x, cenv)
                    ok = True
                    for t in g.ifs:
                        c = self.truth(self.ev(t, cenv))
                        k = self.known(c)
                        if k is False:
                            ok = False
                            break
                        if k is None:
                            gd = T.land(gd, c)
                            self.assume(c)
                    if ok:
                        go(gi + 1, gd)
                finally:
                    self.path, self.pathset = tok
        go(0, True)

    def symcomp(self, e, env):
        """[f(x) for x in <unknown length>] -> SymMap or None."""
        if len(e.generators) != 1 or e.generators[0].ifs:
            return None
        g = e.generators[0]
        it = self.res(self.ev(g.iter, env))
        if not isinstance(it, (Node, RangeV, SymMap)):
            return None
        cenv = self.new(Env({}, env, self.get(env).module, self.get(env).func))
        i = self.fresh("i", "int")
        if isinstance(it, RangeV):
            x = T.add(it.lo, T.mul(i, it.step))
        elif isinstance(it, Node):
            x = fn("idx", it, i)
        else:
            x = T.subst(it.elem, {it.ivar: i})
        self.assign(g.target, x, cenv)
        r = self.ev(e.elt, cenv)
        m = SymMap(it if isinstance(it, Node) else (it.src if isinstance(it, SymMap) else fn("range", N(it.lo), N(it.hi), N(it.step))), r)
        m.ivar = i
        return m

    def e_ListComp(self, e, env):
        m = self.symcomp(e, env)
        if m is not None:
            return m
        out = []

        def emit(ce, g):
            v = self.ev(e.elt, ce)
            out.append(v if g is True else Guarded(g, v))
        self.comp(e, env, emit)
        return self.list(out)

    def e_GeneratorExp(self, e, env):
        r = self.e_ListComp(e, env)
        if isinstance(r, Ref):
            self.heap[r.id] = List(self.get(r).items, "iter")
        return r

    def e_SetComp(self, e, env):
        r = self.e_ListComp(e, env)
        return self.list(self._uniq(self.get(r).items), "set")

    def e_DictComp(self, e, env):
        d = {}

        def emit(ce, g):
            k = self.hashable(self.ev(e.key, ce))
            v = self.ev(e.value, ce)
            d[k] = v if g is True else Choice(g, v, d.get(k, UNDEF))
        self.comp(e, env, emit)
        return self.new(Dict(d))

    def e_Lambda(self, e, env):
        f = self.make_func(e, env)
        return f

    def e_JoinedStr(self, e, env):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.res(self.ev(v.value, env))
                spec = None
                if v.format_spec is not None:
                    spec = self.e_JoinedStr(v.format_spec, env)
                parts.append(self.fmt(x, spec, v.conversion))
        return self.concat(parts)

    def concat(self, parts):
        for i, p in enumerate(parts):
            p = self.res(p)
            if isinstance(p, Choice):
                pre, post = parts[:i], parts[i + 1:]
                return self.fork_val(p.c, lambda: self.concat(pre + [p.a] + post), lambda: self.concat(pre + [p.b] + post))
        if all(isinstance(p, str) for p in parts):
            return "".join(parts)
        return fn("str", *[self.payload(p) for p in parts])

    def fmt(self, x, spec=None, conv=-1):
        if isinstance(x, Choice):
            return self.fork_val(x.c, lambda: self.fmt(x.a, spec, conv), lambda: self.fmt(x.b, spec, conv))
        if isinstance(x, str):
            return (format(x, spec) if isinstance(spec, str) else x) if conv != 114 else repr(x)
        if isinstance(x, bool) or x is None:
            return str(x)
        if isinstance(x, int):
            return format(x, spec) if isinstance(spec, str) else str(x)
        if isinstance(x, Fraction):
            return format(float(x), spec) if isinstance(spec, str) else str(float(x))
        if isinstance(x, Ref):
            c = self.get(x)
            if isinstance(c, Obj) and c.cls is not None:
                for nm in ("__format__", "__str__", "__repr__"):
                    f, _ = c.cls.find(nm)
                    if f is not UNDEF and nm != "__format__":
                        return self.call(Bound(f, x), [], {})
                if c.cls.is_enum():
                    return f"{c.cls.name}.{c.attrs['name']}"
        if isinstance(x, Ext) and x.path.endswith("_dtype"):
            nm = x.path.split(".")[-1][:-6]
            return {"float": "float64", "complex": "complex128", "int": "int64"}.get(nm, nm)
        r = self.pyrepr(x) if spec is None else None
        if r is not None:
            return r
        p = self.payload(x)
        return fn("str", p, spec) if spec is not None else fn("str", p)

    def pyrepr(self, x):
        """text of a list or tuple of texts, integers and None; None if it is anything else"""
        x = self.res(x)
        if isinstance(x, (str, bool, int)) or x is None:
            return repr(x)
        br = "()"
        if isinstance(x, Ref):
            x = self.get(x)
            if not isinstance(x, List) or x.kind not in ("list", "tuple"):
                return None
            br = "[]" if x.kind == "list" else "()"
            x = tuple(x.items)
        if not isinstance(x, tuple):
            return None
        p = [self.pyrepr(y) for y in x]
        if any(y is None for y in p):
            return None
        return br[0] + ", ".join(p) + ("," if br == "()" and len(p) == 1 else "") + br[1]

    def e_FormattedValue(self, e, env):
        return self.e_JoinedStr(ast.JoinedStr(values=[e]), env)

    def e_Starred(self, e, env):
        raise Unsupported("starred")

    def e_Await(self, e, env):
        return self.ev(e.value, env)

    def e_Yield(self, e, env):
        v = self.ev(e.value, env) if e.value is not None else None
        r = self._yield_list(env)
        self.w(r).items.append(v)
        return None

    def e_YieldFrom(self, e, env):
        items = self.iter_items(self.ev(e.value, env))
        r = self._yield_list(env)
        self.w(r).items.extend(items)
        return None

    def _yield_list(self, env):
        r = env
        while r is not None:
            e = self.get(r)
            if "__yield__" in e.vars:
                return e.vars["__yield__"]
            r = e.parent
        raise Unsupported("yield outside")

    # calls ---------------------------------------------------------------------
    def e_Call(self, e, env):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == "super":
            if e.args:
                return SuperV(self.ev(e.args[0], env), self.ev(e.args[1], env))
            r = env
            while r is not None:
                en = self.get(r)
                if en.func is not None and en.func.cls is not None:
                    a0 = (en.func.node.args.posonlyargs + en.func.node.args.args)[0].arg
                    return SuperV(en.func.cls, en.vars[a0])
                r = en.parent
            raise Unsupported("super()")
        if isinstance(e.func, ast.Name) and e.func.id in ("locals", "vars") and not e.args:
            return self.new(Dict({k: v for k, v in self.get(env).vars.items() if not k.startswith("__")}))
        f = self.ev(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args.extend(self.iter_items(self.ev(a.value, env)))
            else:
                args.append(self.ev(a, env))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                for kk, vv in self.mapping(self.ev(k.value, env)).items():
                    kwargs[kk] = vv
            else:
                kwargs[k.arg] = self.ev(k.value, env)
        self.line = e.lineno
        return self.call(f, args, kwargs)

    def call(self, f, args=(), kwargs=None):
        args = list(args)
        kwargs = kwargs if kwargs is not None else {}
        f = self.res(f)
        if isinstance(f, Choice):
            if f.a is UNDEF:
                return self.call(f.b, args, kwargs)
            if f.b is UNDEF:
                return self.call(f.a, args, kwargs)
            return self.fork_val(f.c, lambda: self.call(f.a, args, kwargs), lambda: self.call(f.b, args, kwargs))
        if isinstance(f, Bound):
            return self.call_func(f.func, [f.self_] + args, kwargs) if isinstance(f.func, Func) else self.call(f.func, [f.self_] + args, kwargs)
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs)
        if isinstance(f, (StaticM, ClassM)):
            return self.call(f.f, args, kwargs)
        if isinstance(f, Partial):
            kw = dict(f.kwargs)
            kw.update(kwargs)
            return self.call(f.f, list(f.args) + args, kw)
        if isinstance(f, Lam):
            return f.f(self, args, kwargs)
        if isinstance(f, ClassVal):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Getter):
            return self.M.call_getter(self, f, args)
        if isinstance(f, MethodOf):
            return self.M.call_method(self, f, args, kwargs)
        if isinstance(f, Ext):
            return self.call_ext(f, args, kwargs)
        if isinstance(f, Ref):
            c = self.get(f)
            if isinstance(c, Obj):
                if c.cls is not None:
                    m, _ = c.cls.find("__call__")
                    if m is not UNDEF:
                        return self.call(Bound(m, f), args, kwargs)
                if c.open:
                    return fn("call", sym(c.label, "opaque"), *[self.payload(a) for a in args])
        if isinstance(f, Node):
            return fn("call", f, *[self.payload(a) for a in args], *[(k, self.payload(v)) for k, v in sorted(kwargs.items())])
        raise AbsRaise(("TypeError", f"not callable: {f!r}"), self.where())

    def call_ext(self, f, args, kwargs):
        m = self.models.get(f.path)
        self.ext_calls.append((f.path, self.where()))
        args, kwargs = self.M.normalise(f.path, args, kwargs)
        ov = self.overrides.get(("ext", f.path))
        if ov is not None:
            r = ov(self, args, kwargs)
            if r is not NOTIMPL:
                return r
        if m is not None:
            return m(self, args, kwargs)
        last = f.path.split(".")[-1]
        if f.path.count(".") == 2 and f.path.startswith(("builtins.str.", "builtins.list.", "builtins.dict.")) and args:
            return self.call(self.getattr(args[0], last), args[1:], kwargs)
        if f.path.startswith("builtins.") and last.endswith(("Error", "Exception", "Exit", "Interrupt", "Iteration")):
            return Ext("exception." + last)
        if last[:1].isupper() and f.path.startswith("exception"):
            return f
        return fn("call:" + f.path, *[self.payload(a) for a in args], *[(k, self.payload(v)) for k, v in sorted(kwargs.items())])

    def instantiate(self, c, args, kwargs):
        ov = self.overrides.get(("class", c.name))
        if ov is not None:
            r = ov(self, c, args, kwargs)
            if r is not NOTIMPL:
                return r
        if c.members is not None:
            for r in c.members.values():
                if args and self.same(self.get(r).attrs["value"], args[0]):
                    return r
            if args and isinstance(args[0], Node):
                return fn("enumval:" + c.name, args[0])
            raise AbsRaise(("ValueError", "enum value"), self.where())
        new, owner = c.find("__new__")
        r = self.obj(c, label=c.name)
        init, owner = c.find("__init__")
        if init is not UNDEF:
            self.call(Bound(init, r), args, kwargs)
        elif getattr(c, "dataclass", False):
            names = []
            for k in reversed(c.mro()):
                for n in getattr(k, "order", []):
                    if n not in names:
                        names.append(n)
            vals = dict(zip(names, args))
            vals.update(kwargs)
            o = self.w(r)
            for n in names:
                if n in vals:
                    o.attrs[n] = vals[n]
                else:
                    v, _ = c.find(n)
                    if isinstance(v, Node) and v.op == "fn" and "field" in v.args[0]:
                        df = dict(x for x in v.args[1:] if isinstance(x, tuple) and len(x) == 2)
                        if "default_factory" in df:
                            p = df["default_factory"]
                            v = self.list([]) if "list" in p else self.new(Dict({}))
                        elif "default" in df:
                            v = T.back(df["default"]) if isinstance(df["default"], Node) else df["default"]
                    if v is not UNDEF:
                        o.attrs[n] = v
            pi, _ = c.find("__post_init__")
            if pi is not UNDEF:
                self.call(Bound(pi, r), [], {})
        elif any(isinstance(b, Ext) and b.path.split(".")[-1] in ("NamedTuple", "TypedDict") for k in c.mro() for b in k.bases):
            if any(isinstance(b, Ext) and b.path.split(".")[-1] == "TypedDict" for k in c.mro() for b in k.bases):
                return self.new(Dict(kwargs))
            vals = dict(zip(c.order, args))
            vals.update(kwargs)
            self.w(r).attrs.update(vals)
        elif args or kwargs:
            self.w(r).attrs["__args__"] = tuple(args)
        return r

    def pick_overload(self, f, args, kwargs):
        best = None
        if f.single:
            ps = f.overloads[0].node.args
            ps = ps.posonlyargs + ps.args
            n = 1 if ps and ps[0].arg in ("self", "cls") else 0
            if len(args) <= n:
                raise AbsRaise(("TypeError", f"{f.name} requires at least 1 positional argument"), self.where())
            for o in reversed(f.overloads[1:]):
                op = o.node.args.posonlyargs + o.node.args.args
                m = self.annot_match(o.disp or op[n].annotation, args[n], o)
                if m:
                    return o
                if m is None:
                    raise Unsupported("dispatch on unknown type")
            return f.overloads[0]
        for o in reversed(f.overloads):
            a = o.node.args
            params = a.posonlyargs + a.args
            ok = True
            if len(args) > len(params) and a.vararg is None:
                continue
            nodef = len(params) - len(o.defaults)
            given = {p.arg for p in params[:len(args)]} | set(kwargs)
            if any(p.arg not in given for p in params[:nodef]):
                continue
            score = 0
            for p, v in zip(params, args):
                m = self.annot_match(p.annotation, v, o)
                if m is False:
                    ok = False
                    break
                score += 1 if m else 0
            if ok and (best is None or score > best[0]):
                best = (score, o)
        if best is None:
            raise AbsRaise(("DispatchError", f.name), self.where())
        return best[1]

    def annot_match(self, ann, v, f):
        if ann is None:
            return None
        v = self.res(v)
        t = ast.unparse(ann).strip("'\"")
        try:
            ann = ast.parse(t, mode="eval").body
        except SyntaxError:
            return None
        if isinstance(ann, ast.BinOp):
            ms = [self.annot_match(x, v, f) for x in (ann.left, ann.right)]
            return True if True in ms else (None if None in ms else False)
        if isinstance(ann, ast.Subscript):
            b = ast.unparse(ann.value).split(".")[-1]
            if b in ("Union", "Optional"):
                el = ann.slice.elts if isinstance(ann.slice, ast.Tuple) else [ann.slice]
                ms = [self.annot_match(x, v, f) for x in el] + ([v is None] if b == "Optional" else [])
                return True if True in ms else (None if None in ms else False)
            if b == "Literal":
                return None
            if b in ("list", "List") and self.typename(v) == "list" and not isinstance(ann.slice, ast.Tuple):
                try:
                    els = self.iter_items(v)
                except Unsupported:
                    els = []
                return self.annot_match(ann.slice, els[0], f) is not False if els else True      # dispatch looks at the first element
            t = b
        t = t.split(".")[-1]
        if t in ("Any", "object"):
            return None
        kind = self.typename(v)
        if kind is None:
            return None
        if t in ("None", "NoneType"):
            return kind == "None"
        if t in ("int", "float", "bool", "str", "list", "dict", "tuple", "List", "Dict", "Tuple", "bytes", "complex"):
            tl = t.lower()
            if kind == "num":
                if tl in ("int", "float", "complex", "bool"):
                    return False if (nl := self.numlike(v)) == "array" else (True if nl == "scalar" and tl == "float" else None)
                return False
            if kind in ("int", "float") and tl == kind:
                return True
            return kind == tl
        if t in ("ndarray", "NDArray"):
            if kind == "num":
                return {"array": True, "scalar": False}.get(self.numlike(v))
            return kind == "ndarray" or (None if kind == "opaque" else False)
        if t in ("Callable",):
            return kind == "func"
        if t in ABSTRACT and kind not in ("num", "opaque"):
            return kind in ABSTRACT[t]
        if isinstance(v, Ref) and isinstance(self.get(v), Obj) and self.get(v).cls is not None:
            return any(c.name == t for c in self.get(v).cls.mro())
        if kind in ("str", "list", "dict", "tuple", "None", "bool", "int", "float"):
            return False
        return None

    def numlike(self, v):
        """'array' / 'scalar' / None (unknown) for a numeric term"""
        if not isinstance(v, Node):
            return "scalar"
        ss = T.syms_of(v)
        if any(x.args[2] for x in ss):
            return "array" if not any(f.split(":")[0] in ("idx", "asum", "call") for f in T.fns_of(v)) else None
        return "scalar" if ss and not any(f.startswith("call:") for f in T.fns_of(v)) else None

    def typename(self, v):
        if v is None:
            return "None"
        if isinstance(v, bool):
            return "bool"
        if isinstance(v, int):
            return "int"
        if isinstance(v, Fraction):
            return "float"
        if isinstance(v, str):
            return "str"
        if isinstance(v, bytes):
            return "bytes"
        if isinstance(v, tuple):
            return "tuple"
        if isinstance(v, Ref):
            c = self.get(v)
            if isinstance(c, List):
                return c.kind if c.kind != "iter" else "generator"
            if isinstance(c, Dict):
                return "dict"
            if isinstance(c, (Arr, SArr)):
                return "ndarray"
            if isinstance(c, Obj):
                return "obj"
        if isinstance(v, Node):
            if v.op == "sym" and v.args[1] == "opaque":
                return None
            if T.isboolterm(v):
                return "num"
            if v.op == "sym" and v.args[2]:
                return "ndarray"
            return "num"
        if isinstance(v, (Func, Bound, Partial, Lam, MethodOf)):
            return "func"
        if isinstance(v, SliceV):
            return "slice"
        return None

    def isinstance(self, v, cls):
        v = self.res(v)
        if isinstance(v, Choice):
            return self.fork_val(v.c, lambda: self.isinstance(v.a, cls), lambda: self.isinstance(v.b, cls))
        if isinstance(cls, tuple):
            r = False
            for c in cls:
                r = T.lor(r, self.truth(self.isinstance(v, c)))
            return r
        kind = self.typename(v)
        if isinstance(v, Ext) and v.path.startswith("exception.") and isinstance(cls, Ext):
            a, b = v.path.split(".")[-1], cls.path.split(".")[-1]
            return a == b or b in ("Exception", "BaseException") or b in {"KeyError": ["LookupError"], "IndexError": ["LookupError"]}.get(a, [])
        if isinstance(cls, Ext) and cls.path.split(".")[-1].endswith(("Error", "Exception")) and kind is not None:
            return False
        if isinstance(cls, ClassVal):
            if isinstance(v, Ref) and isinstance(self.get(v), Obj):
                c = self.get(v).cls
                return c is not None and cls in c.mro()
            if isinstance(v, Node) and kind is None:
                return fn("isinstance", v, cls.name)
            return False
        if isinstance(cls, Ext):
            t = cls.path.split(".")[-1]
            if t in ("Union",):
                return fn("isinstance", self.payload(v), "union")
            if kind is None:
                return fn("isinstance", self.payload(v), t)
            if t in ("int", "integer", "int64"):
                if kind == "num":
                    if self.float_syms and isinstance(v, Node) and v.op == "sym":
                        return v.args[1] in ("int", "nat")
                    return fn("isinstance", v, "int") if not (isinstance(v, Node) and v.op == "sym" and v.args[1] in ("int", "nat")) else True
                return kind in ("int", "bool")
            if t in ("float", "floating", "float64"):
                if kind == "num":
                    if self.float_syms and isinstance(v, Node) and v.op == "sym":
                        return v.args[1] not in ("int", "nat", "bool")
                    return fn("isinstance", v, "float")
                return kind == "float"
            if t == "bool" or t == "bool_":
                if kind == "num":
                    return T.isboolterm(v)
                return kind == "bool"
            if t in ("str", "tuple", "dict", "set", "bytes"):
                return kind == t
            if t == "list":
                return kind == "list"
            if t == "ndarray":
                if kind == "num":
                    if isinstance(v, Node) and v.op == "sym":
                        return bool(v.args[2])
                    return any(s.args[2] for s in T.syms_of(v))
                return kind == "ndarray"
            if t in ("complex", "complexfloating", "complex128"):
                if kind == "num":
                    return fn("isinstance", v, "complex")
                return False
            if t in ("Number", "Real"):
                return kind in ("int", "float", "num", "bool")
            if t in ("Mapping", "MutableMapping"):
                return kind == "dict"
            if t in ("Sequence", "MutableSequence"):
                return kind in ("list", "tuple", "str") if t == "Sequence" else kind == "list"
            if t in ("Iterable", "Collection", "Container", "Sized"):
                return kind in ("list", "tuple", "str", "dict", "ndarray", "set")
            if t == "Callable":
                return kind == "func"
            if t in ("Path", "PurePath"):
                return kind not in ("str", "None", "int", "float", "bool", "tuple", "list", "dict")
            return False
        return fn("isinstance", self.payload(v), repr(cls))

    def bind(self, f, args, kwargs, vars):
        a = f.node.args
        params = [p.arg for p in a.posonlyargs + a.args]
        n = len(params)
        kw = dict(kwargs)
        if len(args) > n and a.vararg is None:
            raise AbsRaise(("TypeError", f"{f.name}() takes {n} positional arguments but {len(args)} were given"), self.where())
        for p, v in zip(params, args):
            vars[p] = v
        if a.vararg is not None:
            vars[a.vararg.arg] = tuple(args[n:])
        posonly = {p.arg for p in a.posonlyargs}
        for p in params[len(args):]:
            if p in kw and p not in posonly:
                vars[p] = kw.pop(p)
        for p in params[:len(args)]:
            if p in kw and p not in posonly:
                raise AbsRaise(("TypeError", f"{f.name}() got multiple values for {p}"), self.where())
        nd = len(f.defaults)
        for i, d in enumerate(f.defaults):
            p = params[n - nd + i]
            if p not in vars:
                vars[p] = d
        for p in a.kwonlyargs:
            if p.arg in kw:
                vars[p.arg] = kw.pop(p.arg)
            elif p.arg in f.kwdefaults:
                vars[p.arg] = f.kwdefaults[p.arg]
            else:
                raise AbsRaise(("TypeError", f"{f.name}() missing keyword {p.arg}"), self.where())
        for p in params:
            if p not in vars:
                raise AbsRaise(("TypeError", f"{f.name}() missing argument {p}"), self.where())
        if a.kwarg is not None:
            vars[a.kwarg.arg] = self.new(Dict(kw))
        elif kw:
            raise AbsRaise(("TypeError", f"{f.name}() got an unexpected keyword argument {sorted(kw)[0]!r}"), self.where())

    def call_func(self, f, args, kwargs):
        if f.overloads is not None:
            f = self.pick_overload(f, args, kwargs)
        ov = self.overrides.get(("func", f.name))
        if ov is not None:
            r = ov(self, f, args, kwargs)
            if r is not NOTIMPL:
                return r
        if len(self.stack) > self.MAXDEPTH:
            raise Unsupported("call depth")
        if str(getattr(f, "file", "")).endswith(".pyx"):          # compiled code sees one concrete argument list per call
            for n, x in list(enumerate(args)) + list(kwargs.items()):
                x = self.res(x)
                if isinstance(x, Choice):
                    def go(v):
                        return self.call_func(f, [v if i == n else y for i, y in enumerate(args)], {q: v if q == n else y for q, y in kwargs.items()})
                    return self.fork_val(x.c, lambda: go(x.a), lambda: go(x.b))
        vars = {}
        self.bind(f, args, kwargs, vars)
        # un-alias merged optional arguments
        env = self.new(Env(vars, f.env, f.module, f))
        sl, sf = self.line, self.file
        caller = self.where()
        self.file = getattr(f, "file", f.module.file)
        self.functions_seen.add((self.file, f.name, getattr(f.node, "lineno", 0)))
        self.calls.append((f, args, kwargs, caller))
        self.stack.append((env, f.module, f))
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, env)
            gen = _is_gen(f.node)
            if gen:
                self.w(env).vars["__yield__"] = self.list([], "iter")
            o = self.exec_block(f.node.body, env)
        finally:
            self.stack.pop()
            self.line, self.file = sl, sf
        rs = o.get("raise")
        ret, nor = o.get("return"), o.get("normal")
        if ret is None and nor is None:
            if rs is None:
                raise Unsupported("no outcome")
            self.heap = rs[1]
            e = rs[2]
            while isinstance(e, Choice):
                e = e.a
            raise e
        if rs is not None:
            self.pending.append((rs[0], rs[1], rs[2]))
        if ret is not None and nor is not None:
            self.heap = self.merge_heap(ret[0], ret[1], nor[1])
            val = self.merge_val(ret[0], ret[2], None)
        elif ret is not None:
            self.heap = ret[1]
            val = ret[2]
        else:
            self.heap = nor[1]
            val = None
        if gen:
            return self.get(env).vars["__yield__"]
        return val


class SymMap2:
    def __init__(self, i, lo, hi, step, elem, it):
        self.i, self.lo, self.hi, self.step, self.elem, self.it = i, lo, hi, step, elem, it


def _is_gen(node):
    st = list(node.body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.GeneratorExp, ast.ListComp)):
            continue
        st.extend(ast.iter_child_nodes(n))
    return False


_CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=",
        ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}
_OPM = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv", ast.FloorDiv: "floordiv", ast.Mod: "mod", ast.Pow: "pow",
        ast.BitAnd: "and", ast.BitOr: "or", ast.MatMult: "matmul", ast.BitXor: "xor"}
import builtins as _b
_BUILTINS = set(dir(_b)) | {"__file__"}
