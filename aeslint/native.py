"""Glue between the interpreter, the Cython translation and the C++ abstract interpreter."""
from __future__ import annotations
import os
from . import cxx, cyx, terms as T
from .cxx import Ptr
from .interp import Arr, Ref, Lam, Ext, Unsupported, AbsRaise, Interp, Obj

NI, LD, DI = "cpp-numintegrator/num_integrator", "cpp-ld-funcs/ld_funcs", "cpp-disc-integrator/disc_integrator"


def program(repo, which=("ni", "ld", "di")):
    P = cxx.Program()
    incs = [os.path.join(repo, d) for d in (NI, LD, DI)]
    for k in which:
        d = {"ni": NI, "ld": LD, "di": DI}[k]
        for f in sorted(os.listdir(os.path.join(repo, d))):
            if f.endswith(".cpp") and not f.startswith("lib") and "test" not in f and f != "main.cpp":
                P.load(os.path.join(repo, d, f), incs)
    return P


def literals(P, lo=12, hi=600):
    """integer literals of the loaded bodies: array lengths around them are analysed too."""
    out = set()

    def visit(n):
        if n.get("kind") == "IntegerLiteral" and lo < int(n["value"]) <= hi:
            out.add(int(n["value"]))
        if n.get("kind") == "FloatingLiteral" and float(n["value"]).is_integer() and lo < float(n["value"]) <= hi:
            out.add(int(float(n["value"])))
        for c in n.get("inner", ()):
            if c:
                visit(c)
    for m in P.methods.values():
        if "body" in m:
            visit(m["body"])
    return sorted(out)


class StridedAddress(Exception):
    pass


def install(it: Interp, P=None, bad=None):
    """cyrt.* helpers; `bad` collects misuse found on the way."""
    bad = bad if bad is not None else []
    strided = set()

    def err(exc, msg):
        raise AbsRaise(exc, msg)

    def view(i, a, k):
        tn, nd, contig, v = a
        v = i.res(v)
        c = i.get(v) if isinstance(v, Ref) else None
        if not isinstance(c, Arr):
            if isinstance(v, T.Node):
                return v
            raise Unsupported("typed view of " + type(v).__name__)
        if len(c.shape) != nd:
            raise AbsRaise(("ValueError", "buffer has the wrong number of dimensions"), i.where())
        dt = str(c.dtype) if c.dtype is not None else None
        isf = tn in ("double", "float64", "float")
        if dt is not None and ((isf and dt not in ("float", "float64", "double")) or (not isf and dt in ("float", "float64", "complex", "bool"))):
            raise AbsRaise(("ValueError", f"buffer of {tn} expected, got {dt}"), i.where())
        if not contig:
            strided.add(id(v))
        return v

    def addr(i, a, k):
        v, idx = i.res(a[0]), a[1]
        c = i.get(v)
        if id(v) in strided:
            bad.append("address of a strided view is handed to code that assumes contiguous elements")
        l = Buf(c.data)
        l.ref = v
        return Ptr(l, int(idx))

    def cls(i, a, k):
        nm = str(a[0])
        if P is None or nm not in P.classes:
            raise Unsupported("C++ class " + nm)

        def make(i2, args, kw):
            vals = [conv(i2, x) for x in args]
            bufs = [x.l for x in vals if isinstance(x, Ptr)]
            o = run(i2, bufs, lambda: P.construct(nm, vals))
            meths = {m[1] for m in P.methods if m[0] == nm and not m[1].startswith("<")}
            return i2.obj(None, {m: Lam(lambda i3, a3, k3, m=m: run(i3, bufs, lambda: P.callm(o, nm, m, [conv(i3, x) for x in a3])), m) for m in meths}, open=False, label=nm)
        return Lam(make, nm)

    def conv(i, x):
        x = i.res(x)
        if isinstance(x, (Ptr, bool, int, str)):
            return x
        if isinstance(x, bytes):
            return x.decode()
        if isinstance(x, T.Node) and x.op == "fn" and "encode" in str(x.args[0]):
            raise Unsupported("encoded string")
        if isinstance(x, Ext) or x is None or isinstance(x, Ref):
            raise Unsupported(f"argument {x!r} of native code")
        if isinstance(x, T.Node) and x.op == "num" and x.args[0].denominator == 1:
            return int(x.args[0])
        return x

    def run(i, bufs, f):
        before = [list(b) for b in bufs]
        try:
            r = f()
        except cxx.CxxError as e:
            bad.append(str(e))
            raise AbsRaise(("UndefinedBehaviour", str(e)), i.where())
        for b, o in zip(bufs, before):
            if b != o:
                c = i.w(b.ref)
                c.data = tuple(b)
        return r
    O = it.overrides
    O[("ext", "cyrt.view")] = view
    O[("ext", "cyrt.addr")] = addr
    O[("ext", "cyrt.cls")] = cls
    O[("ext", "cyrt.delete")] = lambda i, a, k: None
    O[("ext", "cyrt.as_int")] = lambda i, a, k: asint(i, a[0])
    O[("ext", "cyrt.as_double")] = lambda i, a, k: asdbl(i, a[0])
    O[("ext", "cyrt.trunc")] = lambda i, a, k: i.call(Ext("builtins.int"), [a[0]])
    O[("ext", "cyrt.cname")] = lambda i, a, k: Ext({"libc.math": "math"}.get(str(a[0]), str(a[0])) + "." + str(a[1]))

    def asint(i, v):
        v = i.res(v)
        if isinstance(v, T.Node) and v.op == "num":
            if v.args[0].denominator != 1:
                raise AbsRaise(("TypeError", "integer required"), i.where())
        return v

    def asdbl(i, v):
        v = i.res(v)
        return v
    return bad


class Buf(list):
    """element list shared with an interpreter array"""
    ref = None
    __hash__ = None


def load_pyx(it, name, path):
    tree, pr = cyx.load(path)
    m = it.load_file(name, path, tree)
    return m, pr
