"""Abstract models of builtins, numpy and the standard library."""
from __future__ import annotations
import string
import ast
import itertools
import re as _re
from fractions import Fraction
from . import terms as T
from .terms import Node, N, num, fn, sym
from .interp import (Ref, List, Dict, Obj, Arr, SArr, Guarded, Func, Bound, ClassVal, ModuleVal, Ext, Partial,
                     Choice, SliceV, RangeV, MethodOf, Lam, Getter, SymMap, Unsupported, AbsRaise, UNDEF, NOTIMPL, conc, Prop)

MODELS = {}
CONSTS = {
    "typing.TYPE_CHECKING": False, "typing_extensions.TYPE_CHECKING": False,
    "numpy.pi": T.PI, "math.pi": T.PI, "numpy.nan": T.NAN, "numpy.NaN": T.NAN, "numpy.NAN": T.NAN, "numpy.inf": T.INF, "math.inf": T.INF, "math.nan": T.NAN,
    "numpy.newaxis": None, "numpy.e": fn("exp", num(1)), "math.e": fn("exp", num(1)),
}


def model(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d


def is_arr(it, v):
    return isinstance(v, Ref) and isinstance(it.get(v), Arr)


def arrlike(it, v):
    return isinstance(v, Ref) and isinstance(it.get(v), (Arr, List)) or isinstance(v, tuple)


def ew1(name):
    def f(it, args, kw):
        def g(x):
            if isinstance(x, Choice):
                return it.fork_val(x.c, lambda: g(x.a), lambda: g(x.b))
            if x is None or isinstance(x, str):
                raise AbsRaise(("TypeError", name), it.where())
            return T.back(fn(name, N(it.bnum(x)) if T.isnum(x) else it.payload(x)))
        out = kw.get("out")
        r = it.elementwise(g, args[0])
        if out is not None:
            it.setitem(out, SliceV(None, None, None), r) if is_arr(it, out) else None
        return r
    return f


for _n, _t in [("sqrt", "sqrt"), ("exp", "exp"), ("log", "log"), ("log10", "log10"), ("log1p", "log1p"), ("sin", "sin"), ("cos", "cos"),
               ("tan", "tan"), ("arccos", "arccos"), ("arcsin", "arcsin"), ("arctan", "arctan"), ("abs", "abs"), ("absolute", "abs"),
               ("conj", "conj"), ("conjugate", "conj"), ("real", "real"), ("imag", "imag"), ("angle", "angle"), ("floor", "floor"),
               ("ceil", "ceil"), ("sign", "sign"), ("isnan", "isnan"), ("isfinite", "isfinite"), ("trunc", "trunc")]:
    MODELS["numpy." + _n] = ew1(_t)
for _n, _t in [("sqrt", "sqrt"), ("exp", "exp"), ("log", "log"), ("sin", "sin"), ("cos", "cos"), ("floor", "floor"), ("ceil", "ceil"), ("acos", "arccos"), ("isnan", "isnan"), ("fabs", "abs")]:
    MODELS["math." + _n] = ew1(_t)


def conc_floor(x):
    import math
    return math.floor(x)


def ewop(opcls):
    def f(it, args, kw):
        out = kw.get("out", args[2] if len(args) > 2 else None)
        where = it.res(kw.get("where", True))
        if where is not True:
            if out is None or not is_arr(it, out):
                raise Unsupported("ufunc with where= and no out=")

            def g(x, y, m, old):
                m = it.truth(m)
                if m is False:
                    return old
                v = it.cellop(opcls(), x, y)
                return v if m is True else T.ite(m, N(v), N(old))
            r = it.elementwise(g, args[0], args[1], where, out)
        else:
            r = it.binop(opcls(), args[0], args[1])
        if out is not None and is_arr(it, out) and is_arr(it, r):
            it.w(out).data = list(it.get(r).data)
            return out
        return r
    return f


for _n, _o in [("add", ast.Add), ("subtract", ast.Sub), ("multiply", ast.Mult), ("divide", ast.Div), ("true_divide", ast.Div), ("power", ast.Pow), ("float_power", ast.Pow),
               ("mod", ast.Mod), ("remainder", ast.Mod), ("floor_divide", ast.FloorDiv), ("logical_and", ast.BitAnd), ("logical_or", ast.BitOr), ("bitwise_and", ast.BitAnd), ("bitwise_or", ast.BitOr)]:
    MODELS["numpy." + _n] = ewop(_o)
for _n, _o in [("add", ast.Add), ("sub", ast.Sub), ("mul", ast.Mult), ("truediv", ast.Div), ("pow", ast.Pow), ("and_", ast.BitAnd), ("or_", ast.BitOr), ("floordiv", ast.FloorDiv), ("mod", ast.Mod)]:
    MODELS["operator." + _n] = ewop(_o)
for _n, _c in [("greater", ">"), ("less", "<"), ("greater_equal", ">="), ("less_equal", "<="), ("equal", "=="), ("not_equal", "!=")]:
    MODELS["numpy." + _n] = (lambda c: lambda it, a, k: it.compare(c, a[0], a[1]))(_c)
for _n, _c in [("gt", ">"), ("lt", "<"), ("ge", ">="), ("le", "<="), ("eq", "=="), ("ne", "!="), ("is_", "is"), ("is_not", "is not")]:
    MODELS["operator." + _n] = (lambda c: lambda it, a, k: it.compare(c, a[0], a[1]))(_c)
MODELS["operator.contains"] = lambda it, a, k: it.compare("in", a[1], a[0])


@model("numpy.logical_not", "numpy.invert", "operator.not_")
def np_not(it, a, k):
    return it.elementwise(lambda x: T.lnot(it.truth(x)), a[0], dtype="bool")


@model("numpy.negative", "operator.neg")
def np_neg(it, a, k):
    return it.unop(ast.USub(), a[0])


@model("numpy.square")
def np_square(it, a, k):
    return it.binop(ast.Mult(), a[0], a[0])


@model("numpy.arctan2")
def np_arctan2(it, a, k):
    return it.elementwise(lambda x, y: fn("arctan2", N(x), N(y)), a[0], a[1])


@model("numpy.maximum")
def np_maximum(it, a, k):
    return it.elementwise(lambda x, y: max2(it, x, y), a[0], a[1])


@model("numpy.minimum")
def np_minimum(it, a, k):
    return it.elementwise(lambda x, y: min2(it, x, y), a[0], a[1])


def _scaled(v):
    """(c, s) when v is the rational multiple c*s of one positive symbol s"""
    v = N(v)
    if v.op == "sym" and v.args[1] == "pos":
        return Fraction(1), v
    if v.op == "mul" and len(v.args) == 2:
        for a, b in (v.args, v.args[::-1]):
            if T.isnum(a) and isinstance(T.cval(a), (int, Fraction)) and b.op == "sym" and b.args[1] == "pos":
                return Fraction(T.cval(a)), b
    return None, None


def max2(it, x, y):
    if conc(x) and conc(y):
        return max(x, y)
    (a, s), (b, t) = _scaled(x), _scaled(y)
    if s is not None and s is t:
        return x if a >= b else y
    if T.cval(N(x)) is not None and T.cval(N(y)) is not None:
        return x if T.cval(N(x)) >= T.cval(N(y)) else y
    return fn("maximum", N(x), N(y))


def min2(it, x, y):
    if not (conc(x) and conc(y)) and T.cval(N(x)) is not None and T.cval(N(y)) is not None:
        return x if T.cval(N(x)) <= T.cval(N(y)) else y
    return min(x, y) if conc(x) and conc(y) else fn("minimum", N(x), N(y))


def dtype_of(it, kw, args=(), pos=None):
    d = kw.get("dtype")
    if d is None and pos is not None and len(args) > pos:
        d = args[pos]
    if isinstance(d, Ext):
        p = d.path.split(".")[-1]
        if "complex" in p:
            return "complex"
        if "bool" in p:
            return "bool"
        if "int" in p:
            return "int"
        if "float" in p or "double" in p:
            return "float"
    if isinstance(d, str):
        return "complex" if "complex" in d else ("bool" if "bool" in d else ("int" if d.startswith(("int", "i")) else "float"))
    return None


@model("numpy.array", "numpy.asarray", "numpy.ascontiguousarray", "numpy.asfortranarray", "numpy.copy", "numpy.atleast_1d", "numpy.require")
def np_array(it, a, k):
    v = it.res(a[0])
    dt = dtype_of(it, k, a, 1)
    if isinstance(v, Node):
        return v
    if conc(v):
        return it.new(Arr((), [v], dt))
    if isinstance(v, Choice):
        return it.fork_val(v.c, lambda: np_array(it, [v.a] + a[1:], k), lambda: np_array(it, [v.b] + a[1:], k))
    if isinstance(v, Ref) and isinstance(it.get(v), Arr):
        c = it.get(v)
        return it.new(Arr(c.shape, c.data, dt or c.dtype))
    if isinstance(v, SymMap):
        return v
    if isinstance(v, (tuple, Ref)):
        items = it.iter_items(v)
        if any(isinstance(x, Guarded) for x in items):
            raise Unsupported("array of guarded list")
        subs = []
        for x in items:
            x = it.res(x)
            if isinstance(x, (tuple,)) or isinstance(x, Ref) and isinstance(it.get(x), (List, Arr)):
                subs.append(it.get(np_array(it, [x], {})))
            elif isinstance(x, RangeV):
                raise Unsupported("array of range")
            else:
                subs.append(Arr((), [x], None))
        if not subs:
            return it.new(Arr((0,), [], dt))
        sh = None
        for s in subs:
            if sh is None or len(s.shape) > len(sh):
                sh = s.shape
        if any(s.shape != sh for s in subs):
            raise Unsupported("ragged array")
        return it.new(Arr((len(subs),) + sh, [x for s in subs for x in s.data], dt))
    if isinstance(v, str) or v is None:
        return it.new(Arr((), [v], dt))
    raise Unsupported(f"np.array({v!r})")


def shape_arg(it, s):
    s = it.res(s)
    if isinstance(s, int):
        return (s,)
    if isinstance(s, Fraction) and s.denominator == 1:
        return (int(s),)
    if isinstance(s, Node):
        if s.op == "num":
            return (int(s.args[0]),)
        if s.op == "fn" and s.args[0] == "attr" and s.args[2] == "shape":
            return (None,)
        return (None,)
    if isinstance(s, (tuple, Ref)):
        return tuple(shape_arg(it, x)[0] for x in it.iter_items(s))
    raise Unsupported(f"shape {s!r}")


def filled(it, shape, val, dt=None):
    n = 1
    for s in shape:
        n *= s if s is not None else 1
    return it.new(Arr(shape, [val] * n if not callable(val) else [val() for _ in range(n)], dt))


def uninit(it):
    it.fresh_n += 1
    s = sym(f"uninit@{it.where()}#{it.fresh_n}", "complex")
    it.uninit[s.id] = it.where()
    return s


@model("numpy.empty")
def np_empty(it, a, k):
    sh = shape_arg(it, a[0] if a else k["shape"])
    u = uninit(it)
    return filled(it, sh, lambda: u, dtype_of(it, k, a, 1))


@model("numpy.zeros")
def np_zeros(it, a, k):
    return filled(it, shape_arg(it, a[0] if a else k["shape"]), 0, dtype_of(it, k, a, 1))


@model("numpy.ones")
def np_ones(it, a, k):
    return filled(it, shape_arg(it, a[0] if a else k["shape"]), 1, dtype_of(it, k, a, 1))


@model("numpy.full")
def np_full(it, a, k):
    return filled(it, shape_arg(it, a[0]), a[1] if len(a) > 1 else k["fill_value"], dtype_of(it, k, a, 2))


def like(it, v, val, dt=None):
    v = it.res(v)
    if isinstance(v, Choice):
        return it.fork_val(v.c, lambda: like(it, v.a, val, dt), lambda: like(it, v.b, val, dt))
    if isinstance(v, Ref) and isinstance(it.get(v), List):
        v = np_array(it, [v], {})
    if is_arr(it, v):
        c = it.get(v)
        return filled(it, c.shape, val, dt or c.dtype)
    if isinstance(v, Node):
        return filled(it, (None,), val, dt)
    return filled(it, (), val, dt)


@model("numpy.empty_like")
def np_empty_like(it, a, k):
    u = uninit(it)
    return like(it, a[0], lambda: u, dtype_of(it, k, a, 1))


@model("numpy.zeros_like")
def np_zeros_like(it, a, k):
    return like(it, a[0], 0, dtype_of(it, k, a, 1))


@model("numpy.ones_like")
def np_ones_like(it, a, k):
    return like(it, a[0], 1, dtype_of(it, k, a, 1))


@model("numpy.full_like")
def np_full_like(it, a, k):
    return like(it, a[0], a[1] if len(a) > 1 else k["fill_value"], dtype_of(it, k, a, 2))


@model("numpy.eye", "numpy.identity")
def np_eye(it, a, k):
    n = a[0]
    return it.new(Arr((n, n), [1 if i == j else 0 for i in range(n) for j in range(n)]))


@model("numpy.arange")
def np_arange(it, a, k):
    r = MODELS["builtins.range"](it, a, {})
    if isinstance(r, RangeV):
        raise Unsupported("symbolic arange")
    return np_array(it, [r], k)


@model("numpy.linspace")
def np_linspace(it, a, k):
    a = list(a)
    lo, hi = a[0], a[1]
    n = a[2] if len(a) > 2 else k.get("num", 50)
    n = it.res(n)
    if isinstance(n, int) and n <= 64 and n > 1:
        d = it.binop(ast.Div(), it.binop(ast.Sub(), hi, lo), n - 1)
        return np_array(it, [it.list([it.binop(ast.Add(), lo, it.binop(ast.Mult(), d, i)) for i in range(n)])], {})
    return T.mk("fn", "linspace", N(lo), N(hi), N(n))


def _match(it, m):
    if m is None:
        return None
    def group(it, a, k):
        try:
            return m.group(*[it.res(x) for x in a])
        except IndexError as e:
            raise AbsRaise(("IndexError", str(e)), it.where())
    return it.obj(None, {"group": Lam(group), "groups": Lam(lambda it, a, k: m.groups()), "groupdict": Lam(lambda it, a, k: it.new(Dict(dict(m.groupdict())))), "start": Lam(lambda it, a, k: m.start(*a)), "end": Lam(lambda it, a, k: m.end(*a)),
                         "span": Lam(lambda it, a, k: m.span(*a)), "string": m.string, "lastindex": m.lastindex, "__getitem__": Lam(group)}, label="match")


def _pattern(it, pat, flags=0):
    pat = it.res(pat)
    flags = it.res(flags)
    if not isinstance(pat, str) or not isinstance(flags, int):
        return NOTIMPL
    try:
        r = _re.compile(pat, flags)
    except _re.error as e:
        raise AbsRaise(("error", str(e)), it.where())
    def meth(n):
        def go(it, a, k):
            a = [it.res(x) for x in a]
            if k or not all(isinstance(x, (str, int)) for x in a):
                if a and (a[0] is None or isinstance(a[0], (bool, int))):
                    raise AbsRaise(("TypeError", "expected string or bytes-like object"), it.where())
                raise Unsupported(f"regular expression on {a!r}")
            if n in ("match", "search", "fullmatch", "findall", "split") and a and not isinstance(a[0], str):
                raise AbsRaise(("TypeError", "expected string or bytes-like object"), it.where())
            v = getattr(r, n)(*a)
            if n in ("match", "search", "fullmatch"):
                return _match(it, v)
            if isinstance(v, list):
                return it.list(v)
            return v
        return Lam(go)
    return it.obj(None, {n: meth(n) for n in ("match", "search", "fullmatch", "findall", "split", "sub")} | {"pattern": pat}, label="pattern")


@model("re.compile")
def re_compile(it, a, k):
    return _pattern(it, *a, **k)


def _re_fn(n):
    def go(it, a, k):
        if k or len(a) < 2 or not isinstance(it.res(a[0]), str) or not all(isinstance(it.res(x), str) for x in a[1:2]):
            return NOTIMPL
        return it.call(it.getattr(_pattern(it, a[0]), n), list(a[1:]), {})
    return go


for _n in ("match", "search", "fullmatch", "findall", "split"):
    model("re." + _n)(_re_fn(_n))


@model("re.sub")
def re_sub(it, a, k):
    v = [it.res(x) for x in a[:3]]
    if all(isinstance(x, str) for x in v) and len(a) == 3 and not k:
        return _re.sub(*v)
    return NOTIMPL


@model("numpy.nan_to_num")
def np_n2n(it, a, k):
    return a[0]


@model("numpy.where")
def np_where(it, a, k):
    if len(a) == 3:
        return it.elementwise(lambda c, x, y: it.merge_val(it.truth(c), x, y) if it.known(it.truth(c)) is None else (x if it.known(it.truth(c)) else y), a[0], a[1], a[2])
    r = nonzero(it, a[0])
    return r if r is not None else (fn("nonzero", it.payload(a[0])),)


def nonzero(it, v):
    v = it.res(v)
    if not is_arr(it, v):
        return None
    c = it.get(v)
    ks = [it.known(it.truth(x)) for x in c.data]
    if any(q is None for q in ks):
        return None
    idx = [i for i, q in enumerate(ks) if q]
    out = []
    st = 1
    for n in reversed(c.shape):
        out.append(it.new(Arr((len(idx),), [i // st % n for i in idx], "int")))
        st *= n
    return tuple(reversed(out))


@model("numpy.nonzero")
def np_nonzero(it, a, k):
    r = nonzero(it, a[0])
    return r if r is not None else (fn("nonzero", it.payload(a[0])),)


@model("numpy.flatnonzero")
def np_flatnonzero(it, a, k):
    r = nonzero(it, a[0])
    return r[0] if r is not None and len(r) == 1 else fn("call:numpy.flatnonzero", it.payload(a[0]))


@model("numpy.diff")
def np_diff(it, a, k):
    if is_arr(it, a[0]) and len(a) == 1 and not k and len(it.get(a[0]).shape) == 1:
        d = it.get(a[0]).data
        return it.new(Arr((len(d) - 1,), [it.binop(ast.Sub(), y, x) for x, y in zip(d, d[1:])]))
    return fn("call:numpy.diff", *[it.payload(x) for x in a], *[(q, it.payload(x)) for q, x in sorted(k.items())])


@model("numpy.logical_and.reduce")
def np_andred(it, a, k):
    return np_all(it, a, k)


@model("numpy.logical_or.reduce")
def np_orred(it, a, k):
    return np_any(it, a, k)


def reduce_arr(it, v, axis, f, init=None):
    v = it.res(v)
    if isinstance(v, Ref) and isinstance(it.get(v), List) or isinstance(v, tuple):
        v = np_array(it, [v], {})
    if not is_arr(it, v):
        return None
    c = it.get(v)
    if axis is None:
        if None in c.shape:
            return None
        r = init
        for x in c.data:
            r = x if r is None else f(r, x)
        return r
    if isinstance(axis, tuple):
        r = v
        for ax in sorted(axis, reverse=True):
            r = reduce_arr(it, r, ax, f, init)
        return r
    nd = len(c.shape)
    axis = axis % nd
    if c.shape[axis] is None:
        return None
    known = [s if s is not None else 1 for s in c.shape]
    out = {}
    for idx, x in zip(itertools.product(*[range(s) for s in known]), c.data):
        kk = idx[:axis] + idx[axis + 1:]
        out[kk] = x if kk not in out else f(out[kk], x)
    sh = c.shape[:axis] + c.shape[axis + 1:]
    data = [out[kk] for kk in itertools.product(*[range(s) for i, s in enumerate(known) if i != axis])]
    if not sh:
        return data[0]
    return it.new(Arr(sh, data, c.dtype))


def axis_of(a, k, pos=1):
    ax = k.get("axis", a[pos] if len(a) > pos else None)
    return int(ax) if isinstance(ax, Fraction) else ax


def red(name, f):
    def g(it, a, k):
        v = it.res(a[0])
        ax = axis_of(a, k)
        if isinstance(v, Choice):
            return it.fork_val(v.c, lambda: g(it, [v.a] + a[1:], k), lambda: g(it, [v.b] + a[1:], k))
        if isinstance(v, Ref) and isinstance(it.get(v), List) and any(isinstance(x, Guarded) for x in it.get(v).items) and ax is None:
            r = None
            for x in it.get(v).items:
                gx, vx = (x.c, x.v) if isinstance(x, Guarded) else (True, x)
                unit = {"asum": 0, "prod": 1}.get(name)
                if unit is None:
                    raise Unsupported("reduction of guarded list")
                y = it.merge_val(gx, vx, unit) if gx is not True else vx
                r = y if r is None else f(it)(r, y)
            return r
        r = reduce_arr(it, v, ax, f(it))
        if r is not None:
            return r
        if is_arr(it, v) and ax is None:
            c = it.get(v)
            r = None
            for x in c.data:
                y = fn(name, it.payload(x))
                r = y if r is None else f(it)(r, y)
            return r
        return fn(name, it.payload(v), ("axis", it.payload(ax)))
    return g


_add = lambda it: (lambda x, y: it.binop(ast.Add(), x, y))
_mulf = lambda it: (lambda x, y: it.binop(ast.Mult(), x, y))
MODELS["numpy.sum"] = red("asum", _add)
MODELS["numpy.add.reduce"] = red("asum", _add)
MODELS["numpy.nansum"] = red("nansum", _add)
MODELS["numpy.prod"] = red("prod", _mulf)
MODELS["numpy.product"] = red("prod", _mulf)
MODELS["numpy.multiply.reduce"] = red("prod", _mulf)
MODELS["math.prod"] = red("prod", _mulf)
def to_py(it, v):
    v = it.res(v)
    if isinstance(v, Ref):
        c = it.get(v)
        if isinstance(c, List):
            return [to_py(it, x) for x in c.items]
        if isinstance(c, Dict):
            return {to_py(it, k): to_py(it, x) for k, x in c.d.items()}
        raise Unsupported("to_py")
    if isinstance(v, tuple):
        return [to_py(it, x) for x in v]
    if v is None or isinstance(v, (str, bool, int, float)):
        return v
    raise Unsupported("to_py")


def from_py(it, v):
    if isinstance(v, list):
        return it.list([from_py(it, x) for x in v])
    if isinstance(v, dict):
        return it.new(Dict({k: from_py(it, x) for k, x in v.items()}))
    return v


@model("json.dumps")
def json_dumps(it, a, k):
    import json
    return json.dumps(to_py(it, a[0]))


@model("json.loads")
def json_loads(it, a, k):
    import json
    v = it.res(a[0])
    if not isinstance(v, str):
        raise Unsupported("json.loads of a non-constant")
    return from_py(it, json.loads(v))


def _argext(name, better):
    def f(it, a, k):
        if len(a) == 1 and not k:
            try:
                v = list(it.iter_items(a[0]))
            except Unsupported:
                v = []
            if v and all(cnum(x) is not None for x in v):
                v = [cnum(x) for x in v]
            if v and all(conc(x) and not isinstance(x, (str, tuple)) and x is not None for x in v):
                b = 0
                for i, x in enumerate(v):
                    if better(x, v[b]):
                        b = i
                return b
        return fn(name, *[it.payload(x) for x in a])
    return f


@model("numpy.argsort")
def np_argsort(it, a, k):
    if len(a) == 1 and not {x for x in k if x != "kind"}:
        c = it.get(np_array(it, [a[0]], {}))
        v = [cnum(x) for x in c.data]
        if len(c.shape) == 1 and all(x is not None for x in v):
            return it.new(Arr((len(v),), sorted(range(len(v)), key=lambda i: v[i]), "int"))
    return fn("call:numpy.argsort", *[it.payload(x) for x in a], *[(x, it.payload(y)) for x, y in sorted(k.items())])


MODELS["numpy.argmax"] = _argext("argmax", lambda x, y: x > y)
MODELS["numpy.argmin"] = _argext("argmin", lambda x, y: x < y)
def _nanred(name, best):
    def f(it, a, k):
        c = it.get(np_array(it, [a[0]], {}))
        ax = it.res(k.get("axis", a[1] if len(a) > 1 else None))
        if None in c.shape or {x for x in k if x != "axis"}:
            return fn("call:numpy." + name, *[it.payload(x) for x in a], *[(x, it.payload(y)) for x, y in sorted(k.items())])

        def one(cells):
            r = T.NAN
            for x in cells:
                x = it.res(x)
                if x is T.NAN:
                    continue
                if isinstance(x, Node) and T.NAN in T.syms_of(x):
                    raise Unsupported("possibly missing value in " + name)
                r = x if r is T.NAN else best(it, r, x)
            return r
        if ax is None:
            return one(c.data)
        ax %= len(c.shape)
        out = tuple(n for j, n in enumerate(c.shape) if j != ax)
        inner = 1
        for n in c.shape[ax + 1:]:
            inner *= n
        outer = len(c.data) // (inner * c.shape[ax]) if inner * c.shape[ax] else 0
        cells = tuple(one([c.data[(o * c.shape[ax] + j) * inner + i] for j in range(c.shape[ax])]) for o in range(outer) for i in range(inner))
        return it.new(Arr(out, cells, c.dtype)) if out else cells[0]
    return f


MODELS["numpy.nanmax"] = _nanred("nanmax", lambda it, x, y: max2(it, x, y))
MODELS["numpy.nanmin"] = _nanred("nanmin", lambda it, x, y: min2(it, x, y))
MODELS["numpy.max"] = MODELS["numpy.amax"] = red("amax", lambda it: (lambda x, y: max2(it, x, y)))
MODELS["numpy.min"] = MODELS["numpy.amin"] = red("amin", lambda it: (lambda x, y: min2(it, x, y)))
np_all = MODELS["numpy.all"] = red("all", lambda it: (lambda x, y: T.land(it.truth(x), it.truth(y))))
np_any = MODELS["numpy.any"] = red("any", lambda it: (lambda x, y: T.lor(it.truth(x), it.truth(y))))


@model("numpy.mean", "numpy.average")
def np_mean(it, a, k):
    v = it.res(a[0])
    if arrlike(it, v):
        s = MODELS["numpy.sum"](it, a, k)
        c = it.get(np_array(it, [v], {}))
        ax = axis_of(a, k)
        if ax is None and None not in c.shape:
            return it.binop(ast.Div(), s, len(c.data))
        if ax is not None and c.shape[ax] is not None:
            return it.binop(ast.Div(), s, c.shape[ax])
    return fn("mean", it.payload(v))


@model("numpy.count_nonzero")
def np_cnz(it, a, k):
    v = np_array(it, [a[0]], {}) if not isinstance(a[0], Node) else a[0]
    if is_arr(it, v) and None not in it.get(v).shape:
        r = 0
        for x in it.get(v).data:
            r = it.binop(ast.Add(), r, it.bnum(it.truth(x)))
        return r
    return fn("asum", it.payload(v))


@model("numpy.dot", "numpy.matmul", "numpy.vdot", "numpy.inner")
def np_dot(it, a, k):
    x, y = it.res(a[0]), it.res(a[1])
    if arrlike(it, x) and arrlike(it, y):
        X, Y = it.get(np_array(it, [x], {})), it.get(np_array(it, [y], {}))
        if None not in X.shape and None not in Y.shape and len(X.shape) <= 2 and len(Y.shape) <= 2:
            def at(C, i, j):
                return C.data[i * C.shape[1] + j]
            if len(X.shape) == 1 and len(Y.shape) == 1:
                return sumprod(it, X.data, Y.data)
            if len(X.shape) == 2 and len(Y.shape) == 1:
                return it.new(Arr((X.shape[0],), [sumprod(it, [at(X, i, j) for j in range(X.shape[1])], Y.data) for i in range(X.shape[0])]))
            if len(X.shape) == 1 and len(Y.shape) == 2:
                return it.new(Arr((Y.shape[1],), [sumprod(it, X.data, [at(Y, i, j) for i in range(Y.shape[0])]) for j in range(Y.shape[1])]))
            return it.new(Arr((X.shape[0], Y.shape[1]), [sumprod(it, [at(X, i, q) for q in range(X.shape[1])], [at(Y, q, j) for q in range(Y.shape[0])])
                                                     for i in range(X.shape[0]) for j in range(Y.shape[1])]))
    return fn("dot", it.payload(x), it.payload(y))


def sumprod(it, xs, ys):
    r = 0
    for p, q in zip(xs, ys):
        r = it.binop(ast.Add(), r, it.binop(ast.Mult(), p, q))
    return r


@model("numpy.concatenate")
def np_concat(it, a, k):
    parts = [it.res(x) for x in it.iter_items(a[0])]
    ax = k.get("axis", a[1] if len(a) > 1 else 0)
    cells = []
    for p in parts:
        if isinstance(p, Node):
            return fn("concat", *[it.payload(x) for x in parts])
        cells.append(it.get(np_array(it, [p], {})))
    nd = len(cells[0].shape)
    ax = (ax or 0) % nd
    if any(c.shape[ax] is None for c in cells):
        return fn("concat", *[it.payload(x) for x in parts])
    shp = list(cells[0].shape)
    shp[ax] = sum(c.shape[ax] for c in cells)
    known = [s if s is not None else 1 for s in shp]
    data = []
    for idx in itertools.product(*[range(s) for s in known]):
        j = idx[ax]
        for c in cells:
            if j < c.shape[ax]:
                sh = [s if s is not None else 1 for s in c.shape]
                off = 0
                for q, s in enumerate(sh):
                    off = off * s + (j if q == ax else idx[q])
                data.append(c.data[off])
                break
            j -= c.shape[ax]
    return it.new(Arr(shp, data, cells[0].dtype))


def stacker(kind):
    def f(it, a, k):
        parts = [it.res(x) for x in it.iter_items(a[0])]
        ax = norm_int(it.res(k.get("axis", a[1] if len(a) > 1 else 0)))
        cs = [it.get(p) for p in parts if is_arr(it, p)]
        if parts and len(cs) == len(parts) and all(None not in c.shape for c in cs) and len({len(c.shape) for c in cs}) == 1:
            nd = len(cs[0].shape)
            if kind == "hstack" or (kind == "column_stack" and nd > 1) or (kind == "vstack" and nd > 1):
                return np_concat(it, [it.list(parts)], {"axis": 0 if nd == 1 or kind == "vstack" else 1})
            if kind == "column_stack" or (kind == "stack" and nd == 1 and ax in (1, -1)):
                n = len(cs[0].data)
                if any(len(c.data) != n for c in cs):
                    raise AbsRaise(("ValueError", "array dimensions must match"), it.where())
                return it.new(Arr((n, len(cs)), [c.data[i] for i in range(n) for c in cs], cs[0].dtype))
            if kind == "stack" and ax != 0:
                raise Unsupported("stack axis")
            return np_array(it, [it.list(parts)], {})
        if kind == "column_stack":
            return it.new(Arr((None, len(parts)), parts))
        return it.new(Arr((None, len(parts)), parts)) if all(isinstance(p, Node) for p in parts) else np_array(it, [it.list(parts)], {})
    return f


for _k in ("stack", "vstack", "hstack", "column_stack"):
    MODELS["numpy." + _k] = stacker(_k)


@model("numpy.diag")
def np_diag(it, a, k):
    v = np_array(it, [a[0]], {}) if not isinstance(a[0], Node) else a[0]
    if is_arr(it, v):
        c = it.get(v)
        if len(c.shape) == 1 and c.shape[0] is not None:
            n = c.shape[0]
            return it.new(Arr((n, n), [c.data[i] if i == j else 0 for i in range(n) for j in range(n)], c.dtype))
        if len(c.shape) == 2 and None not in c.shape:
            return it.new(Arr((min(c.shape),), [c.data[i * c.shape[1] + i] for i in range(min(c.shape))], c.dtype))
    return fn("diag", it.payload(v))


@model("numpy.diag_indices")
def np_diagidx(it, a, k):
    l = np_array(it, [it.list(list(range(a[0])))], {})
    return (l, l)


@model("numpy.tril_indices")
def np_tril(it, a, k):
    n = a[0]
    kk = k.get("k", a[1] if len(a) > 1 else 0)
    ii = [(i, j) for i in range(n) for j in range(n) if j - i <= kk]
    return tuple(np_array(it, [it.list([p[q] for p in ii])], {}) for q in (0, 1))


@model("numpy.triu_indices")
def np_triu(it, a, k):
    n = a[0]
    kk = k.get("k", a[1] if len(a) > 1 else 0)
    ii = [(i, j) for i in range(n) for j in range(n) if j - i >= kk]
    return tuple(np_array(it, [it.list([p[q] for p in ii])], {}) for q in (0, 1))


@model("numpy.fill_diagonal")
def np_filldiag(it, a, k):
    c = it.get(a[0])
    n = c.shape[0]
    w = it.w(a[0])
    for i in range(n):
        w.data[i * n + i] = a[1] if not arrlike(it, a[1]) else it.getitem(a[1], i)


@model("numpy.tile")
def np_tile(it, a, k):
    v = it.res(a[0])
    reps = it.res(a[1])
    if isinstance(v, Node):
        return v
    if isinstance(reps, int):
        c = it.get(np_array(it, [v], {}))
        if len(c.shape) == 1 and c.shape[0] is not None:
            return it.new(Arr((c.shape[0] * reps,), c.data * reps, c.dtype))
        if len(c.shape) == 1 or len(c.shape) == 0:
            return v
    if isinstance(reps, tuple):
        c = it.get(np_array(it, [v], {}))
        if len(c.shape) == 1:
            lead = reps[0]
            if reps[-1] == 1 and len(reps) == 2:
                return it.new(Arr((lead if isinstance(lead, int) else None,) + c.shape, c.data * (lead if isinstance(lead, int) else 1), c.dtype))
    return v if isinstance(v, Node) else fn("tile", it.payload(v), it.payload(reps))


@model("numpy.repeat")
def np_repeat(it, a, k):
    c = it.get(np_array(it, [a[0]], {}))
    if isinstance(a[1], int) and len(c.shape) == 1:
        return it.new(Arr((len(c.data) * a[1],), [x for x in c.data for _ in range(a[1])], c.dtype))
    raise Unsupported("repeat")


@model("numpy.cumsum")
def np_cumsum(it, a, k):
    v = np_array(it, [a[0]], {})
    if is_arr(it, v) and len(it.get(v).shape) == 1 and it.get(v).shape[0] is not None:
        out, s = [], 0
        for x in it.get(v).data:
            s = it.binop(ast.Add(), s, x)
            out.append(s)
        return it.new(Arr((len(out),), out))
    return fn("cumsum", it.payload(a[0]))


@model("numpy.einsum")
def np_einsum(it, a, k):
    spec, ops = a[0], [np_array(it, [x], {}) if not isinstance(x, Node) else x for x in a[1:]]
    ins, out = spec.replace(" ", "").split("->")
    ins = ins.split(",")
    if "..." in spec:
        raise Unsupported("einsum ellipsis")
    sizes = {}
    cells = []
    for s, o in zip(ins, ops):
        c = it.get(o) if is_arr(it, o) else Arr((None,) * len(s), [o])
        cells.append(c)
        for ch, n in zip(s, c.shape):
            if n is not None or ch not in sizes:
                sizes[ch] = n
    letters = sorted(set("".join(ins)))
    summed = [l for l in letters if l not in out]
    if any(sizes[l] is None for l in summed):
        if len(ops) and all(sizes[l] is None for l in summed):
            raise Unsupported("einsum sum over pointwise axis")
    res = []
    rng = lambda l: range(sizes[l] if sizes[l] is not None else 1)
    for oi in itertools.product(*[rng(l) for l in out]):
        e = dict(zip(out, oi))
        tot = 0
        for si in itertools.product(*[rng(l) for l in summed]):
            e.update(zip(summed, si))
            p = 1
            for s, c in zip(ins, cells):
                off = 0
                for ch, n in zip(s, c.shape):
                    off = off * (n if n is not None else 1) + (e[ch] if n is not None else 0)
                p = it.binop(ast.Mult(), p, c.data[off])
            tot = it.binop(ast.Add(), tot, p)
        res.append(tot)
    if not out:
        return res[0]
    return it.new(Arr(tuple(sizes[l] for l in out), res))


@model("numpy.isclose")
def np_isclose(it, a, k):
    tol = [T.cval(N(it.res(k.get(n, a[j] if len(a) > j else d)))) if T.isnum(it.res(k.get(n, a[j] if len(a) > j else d))) else None for n, j, d in (("rtol", 2, Fraction(1, 10**5)), ("atol", 3, Fraction(1, 10**8)))]

    def close(x, y):
        if it.same(x, y):
            return x is not T.NAN
        cx, cy = (T.cval(N(z)) if T.isnum(z) else None for z in (x, y))
        if None not in (cx, cy, tol[0], tol[1]) and not isinstance(cx, complex) and not isinstance(cy, complex):
            return abs(cx - cy) <= tol[1] + tol[0] * abs(cy)
        return fn("isclose", it.payload(x), it.payload(y))
    return it.elementwise(close, a[0], a[1])


@model("numpy.allclose")
def np_allclose(it, a, k):
    return np_all(it, [np_isclose(it, a, k)], {})


@model("numpy.isin", "numpy.in1d")
def np_isin(it, a, k):
    b = it.res(a[1])
    b = b if isinstance(b, (Ref, tuple)) else it.list([b])
    neg = k.get("invert") is True
    return it.elementwise(lambda x: (it.unop(ast.Not(), it.contains(b, x)) if neg else it.contains(b, x)), a[0])


@model("numpy.power")
def np_power(it, a, k):
    return it.binop(ast.Pow(), a[0], a[1])


@model("numpy.transpose")
def np_T(it, a, k):
    return arr_attr(it, a[0], it.get(a[0]), "T") if is_arr(it, a[0]) else a[0]


@model("numpy.outer")
def np_outer(it, a, k):
    X, Y = it.get(np_array(it, [a[0]], {})), it.get(np_array(it, [a[1]], {}))
    return it.new(Arr((X.shape[0], Y.shape[0]), [it.binop(ast.Mult(), p, q) for p in X.data for q in Y.data]))


@model("numpy.linalg.det")
def np_det(it, a, k):
    c = it.get(a[0])
    n = c.shape[0]
    m = [[c.data[i * n + j] for j in range(n)] for i in range(n)]

    def det(mm):
        if len(mm) == 1:
            return mm[0][0]
        r = 0
        for j in range(len(mm)):
            t = it.binop(ast.Mult(), mm[0][j], det([row[:j] + row[j + 1:] for row in mm[1:]]))
            r = it.binop(ast.Add() if j % 2 == 0 else ast.Sub(), r, t)
        return r
    return det(m)


for _n in ("float64", "float32", "double", "float_", "complex128", "complex64", "asfarray", "longdouble"):
    MODELS["numpy." + _n] = lambda it, a, k: a[0] if a else 0
for _n in ("int64", "int32", "intp", "int_", "uint8", "int8"):
    MODELS["numpy." + _n] = lambda it, a, k: MODELS["builtins.int"](it, a, k)
MODELS["numpy.bool_"] = lambda it, a, k: it.truth(a[0])


@model("numpy.seterr", "numpy.errstate", "logging.getLogger", "logging.basicConfig", "warnings.warn", "warnings.filterwarnings",
       "warnings.simplefilter", "typing.cast_", "typing.overload")
def nothing(it, a, k):
    return Ext("none_object")


@model("typing.cast")
def t_cast(it, a, k):
    return a[1]


@model("typing.TypeVar", "typing.NewType")
def t_tv(it, a, k):
    return Ext("typing.T")


@model("numpy.shape")
def np_shape(it, a, k):
    return it.getattr(a[0], "shape")


@model("numpy.ndim")
def np_ndim(it, a, k):
    return it.getattr(a[0], "ndim")


@model("numpy.iscomplexobj", "numpy.iscomplex")
def np_iscomplexobj(it, a, k):
    return fn("isinstance", it.payload(a[0]), "complex")


# ------------------------------------------------------------------ arrays
def full_index(it, c, k):
    """expand index tuple to one entry per axis plus newaxis entries."""
    ks = list(k) if isinstance(k, tuple) else [k]
    ks = [it.res(x) for x in ks]
    real = [x for x in ks if not (x is None or x is Ellipsis)]
    nd = len(c.shape)
    if any(x is Ellipsis for x in ks):
        i = next(i for i, x in enumerate(ks) if x is Ellipsis)
        ks = ks[:i] + [SliceV(None, None, None)] * (nd - len(real)) + ks[i + 1:]
    else:
        ks = ks + [SliceV(None, None, None)] * (nd - len(real))
    return ks


def cbool(d):
    if isinstance(d, bool):
        return d
    if isinstance(d, Node) and d is T.asterm(True):
        return True
    if isinstance(d, Node) and d is T.asterm(False):
        return False
    return None


def cnum(x):
    """exact constant value, or None."""
    if isinstance(x, (int, Fraction)) and not isinstance(x, bool):
        return Fraction(x)
    if isinstance(x, Node) and x.op == "num" and isinstance(T.cval(x), (int, Fraction)):
        return Fraction(T.cval(x))
    return None


def norm_int(k):
    if isinstance(k, Fraction) and k.denominator == 1:
        return int(k)
    return k


def conc_mask(it, c, ks):
    """(flat positions, None) for a concrete mask over the whole array; otherwise (None, ks with one-axis masks turned into positions)"""
    if None in c.shape or any(x is None for x in ks):
        return None, ks
    out = list(ks)
    for ax, x in enumerate(ks):
        if not (isinstance(x, Ref) and isinstance(it.get(x), (Arr, List))):
            continue
        m = it.get(x) if isinstance(it.get(x), Arr) else it.get(np_array(it, [x], {}))
        if None in m.shape or not m.data or any(cbool(d) is None for d in m.data):
            continue
        if ax == 0 and len(m.shape) > 1 and all(isinstance(y, SliceV) and y.full() for y in ks[1:]):
            if tuple(m.shape) != tuple(c.shape[:len(m.shape)]):
                raise AbsRaise(("IndexError", "boolean index did not match"), it.where())
            if len(m.shape) == len(c.shape):
                return [i for i, d in enumerate(m.data) if cbool(d)], None
            continue
        if len(m.shape) != 1 or ax >= len(c.shape):
            continue
        if len(m.data) != c.shape[ax]:
            raise AbsRaise(("IndexError", "boolean index did not match"), it.where())
        pos = [i for i, d in enumerate(m.data) if cbool(d)]
        out[ax] = it.new(Arr((len(pos),), pos, "int"))
    return None, out if isinstance(ks, list) else tuple(out)


def arr_getitem(it, r, c, k):
    ks = full_index(it, c, k)
    if len(ks) <= len(c.shape):
        flat, ks = conc_mask(it, c, ks)
        if flat is not None:
            return it.new(Arr((len(flat),), [c.data[i] for i in flat], c.dtype))
    if sum(1 for x in ks if x is not None) > len(c.shape):
        raise AbsRaise(("IndexError", "too many indices"), it.where())
    # fancy: tuple of index arrays
    arrs = [x for x in ks if isinstance(x, Ref) and isinstance(it.get(x), (Arr, List))]
    if arrs:
        if len(arrs) == len(ks) and all(s is not None for s in c.shape):
            idxs = [it.get(np_array(it, [x], {})) for x in ks]
            if len(idxs) == 1 and len(c.shape) == 1 and len(idxs[0].data) == c.shape[0] and idxs[0].data and all(cbool(d) is not None for d in idxs[0].data):
                return it.new(Arr((sum(cbool(d) for d in idxs[0].data),), [x for x, d in zip(c.data, idxs[0].data) if cbool(d)], c.dtype))
            if idxs[0].dtype == "bool" or any(not isinstance(d, int) or isinstance(d, bool) for a in idxs for d in a.data):
                if len(idxs) == 1:
                    return mask_get(it, c, idxs[0])
                raise Unsupported("fancy index")
            n = len(idxs[0].data)
            return it.new(Arr(idxs[0].shape, [c.data[off(c.shape, [a.data[i] for a in idxs])] for i in range(n)], c.dtype))
        if len(arrs) == 1 and None not in c.shape:
            ax = [i for i, x in enumerate(ks) if x is arrs[0]][0]
            ia = it.get(np_array(it, [arrs[0]], {}))
            if len(ia.shape) == 1 and ia.data and all(cbool(d) is not None for d in ia.data):
                if len(ia.data) != c.shape[ax]:
                    raise AbsRaise(("IndexError", "boolean index did not match"), it.where())
                ia = Arr((sum(cbool(d) for d in ia.data),), [i for i, d in enumerate(ia.data) if cbool(d)], "int")
            if all(isinstance(d, int) and not isinstance(d, bool) for d in ia.data) and len(ia.shape) == 1:
                if ax > 0 and len(c.shape) == len(ks) and all(isinstance(x, SliceV) and x.full() for i, x in enumerate(ks) if i != ax):

                    shp = list(c.shape)
                    shp[ax] = len(ia.data)
                    dat = []
                    for ii in itertools.product(*[range(x) for x in shp]):
                        jj = list(ii)
                        if not -c.shape[ax] <= ia.data[ii[ax]] < c.shape[ax]:
                            raise AbsRaise(("IndexError",), it.where())
                        jj[ax] = ia.data[ii[ax]] % c.shape[ax]
                        dat.append(c.data[off(c.shape, jj)])
                    return it.new(Arr(shp, dat, c.dtype))
                parts = []
                for d in ia.data:
                    kk = list(ks)
                    kk[ax] = d
                    parts.append(arr_getitem(it, r, c, tuple(kk)))
                if ax == 0:
                    rest = [len(range(n)[slice(norm_int(x.a), norm_int(x.b), norm_int(x.c))]) if isinstance(x, SliceV) else -1 for n, x in zip(c.shape[1:], ks[1:]) if not isinstance(norm_int(x), int)]
                    if not parts and -1 not in rest:
                        return it.new(Arr((0,) + tuple(rest), [], c.dtype))
                    return np_array(it, [it.list(parts)], {})
            if ax == 0 and len(ia.shape) == 1 and all(isinstance(x, SliceV) and x.full() for i, x in enumerate(ks) if i != ax):
                return mask_get(it, c, ia)
        if len(arrs) == 1:
            ia = it.get(np_array(it, [arrs[0]], {}))
            ax = [i for i, x in enumerate(ks) if x is arrs[0]][0]
            if c.shape[ax] is None or ia.shape == (None,) or None in ia.shape:
                m = ia.data[0] if len(ia.data) == 1 else None
                if m is not None and isinstance(m, (Node, bool)):
                    return it.new(Arr(c.shape, [fn("mask", N(x), it.payload(m)) for x in c.data], c.dtype))
        raise Unsupported(f"fancy index at {it.where()}")
    shp, sel = [], []
    ax = 0
    post = []
    for x in ks:
        if x is None:
            shp.append(1)
            sel.append(("new",))
            continue
        s = c.shape[ax]
        x = norm_int(x)
        if isinstance(x, bool):
            raise Unsupported("bool index")
        if isinstance(x, int):
            if s is None:
                sel.append(("pt", x))
            else:
                if not -s <= x < s:
                    raise AbsRaise(("IndexError",), it.where())
                sel.append(("int", x % s))
        elif isinstance(x, SliceV):
            if s is None:
                shp.append(None)
                sel.append(("ptslice", x) if not x.full() else ("ptfull",))
            else:
                if not all(y is None or isinstance(norm_int(y), int) for y in (x.a, x.b, x.c)):
                    raise Unsupported("symbolic slice of explicit axis")
                rg = list(range(s))[slice(norm_int(x.a), norm_int(x.b), norm_int(x.c))]
                shp.append(len(rg))
                sel.append(("rng", rg))
        elif isinstance(x, Node):
            if s is None:
                if T.isboolterm(x):
                    shp.append(None)
                    sel.append(("mask", x))
                else:
                    sel.append(("pt", x))
            else:
                sel.append(("sym", x, s))
        else:
            if isinstance(x, (str, Fraction)) or isinstance(x, Ref) and isinstance(it.get(x), Dict):
                raise AbsRaise(("IndexError", "only integers, slices, ellipsis, newaxis and integer or boolean arrays are valid indices"), it.where())
            raise Unsupported(f"array index {x!r}")
        ax += 1
    loops = []
    for e in sel:
        if e[0] == "rng":
            loops.append(e[1])
        elif e[0] == "int":
            loops.append([e[1]])
        elif e[0] == "sym":
            loops.append([("S", e[1], e[2])])
        elif e[0] == "new":
            pass
        else:
            loops.append([0])
    out = []
    eff = [s if s is not None else 1 for s in c.shape]
    for idx in itertools.product(*loops):
        def pick(pos, acc):
            if pos == len(idx):
                return c.data[off(c.shape, acc)]
            e = idx[pos]
            if isinstance(e, tuple):
                rr = pick(pos + 1, acc + [e[2] - 1])
                for i in range(e[2] - 2, -1, -1):
                    rr = it.merge_val(it.truth(T.cmp("==", e[1], num(i))), pick(pos + 1, acc + [i]), rr)
                return rr
            return pick(pos + 1, acc + [e])
        v = pick(0, [])
        for e in sel:
            if e[0] == "pt" and T.isnum(v):
                v = fn("idx", N(v), N(e[1]))
            elif e[0] == "ptslice" and T.isnum(v):
                v = slice_node(it, N(v), e[1])
            elif e[0] == "mask":
                v = fn("mask", N(v), e[1])
        out.append(v)
    if not shp:
        return out[0]
    return it.new(Arr(shp, out, c.dtype))


def mask_get(it, c, ia):
    conds = [it.truth(x) for x in ia.data]
    items = []
    w = 1
    for s in c.shape[1:]:
        w *= s if s is not None else 1
    for i, g in enumerate(conds):
        if g is False:
            continue
        v = c.data[i] if len(c.shape) == 1 else it.new(Arr(c.shape[1:], c.data[i * w:(i + 1) * w], c.dtype))
        items.append(v if g is True else Guarded(g, v))
    if any(isinstance(x, Guarded) for x in items):
        return it.list(items)
    return np_array(it, [it.list(items)], {})


def off(shape, idx):
    o = 0
    for s, i in zip(shape, idx):
        o = o * (s if s is not None else 1) + (i if s is not None else 0)
    return o


def slice_node(it, n, s):
    if s.full():
        return n
    p = lambda x: it.payload(x) if x is not None else None
    if (s.a is None or s.a == 0) and s.b is None and (s.c is None or s.c == 1):
        return n
    return fn("slice", n, p(s.a), p(s.b), p(s.c))


def arr_setitem(it, r, c, k, v):
    v = it.res(v)
    if v is None and str(c.dtype).startswith(("float", "complex")):
        v = T.NAN                                        # numpy stores None as a missing value
    if isinstance(k, SliceV) and k.full() or k is Ellipsis:
        k = ()
    ks = full_index(it, c, k if isinstance(k, tuple) else (k,))
    if len(ks) <= len(c.shape):
        flat, ks = conc_mask(it, c, ks)
        if flat is not None:
            vv = it.asarr(v)[1]
            if len(vv) not in (1, len(flat)):
                raise AbsRaise(("ValueError", "cannot assign to masked elements"), it.where())
            w = it.w(r)
            for j, i in enumerate(flat):
                w.data[i] = vv[0] if len(vv) == 1 else vv[j]
            return NOTIMPL
    if any(isinstance(x, Ref) for x in ks):
        if len(ks) == 1 and len(c.shape) >= 1:
            ia = it.get(np_array(it, [ks[0]], {}))
            if len(ia.data) == len(c.data) and ia.shape == c.shape:
                w = it.w(r)
                for i, g in enumerate(ia.data):
                    if not T.isboolterm(g):
                        break
                    vv = it.asarr(v)[1]
                    w.data[i] = it.merge_val(it.truth(g), vv[0] if len(vv) == 1 else vv[i], w.data[i])
                else:
                    return NOTIMPL
            if all(isinstance(d, int) and not isinstance(d, bool) for d in ia.data) and len(c.shape) == 1 and c.shape[0] is not None:
                w = it.w(r)
                vv = it.asarr(v)[1]
                for j, d in enumerate(ia.data):
                    w.data[d] = vv[0] if len(vv) == 1 else vv[j]
                return NOTIMPL
        if len(ks) == 2 and len(c.shape) == 2 and all(isinstance(x, Ref) for x in ks):
            i1, i2 = [it.get(np_array(it, [x], {})) for x in ks]
            w = it.w(r)
            vv = it.asarr(v)[1]
            for j, (p, q) in enumerate(zip(i1.data, i2.data)):
                w.data[off(c.shape, [p, q])] = vv[0] if len(vv) == 1 else vv[j]
            return NOTIMPL
        if sum(isinstance(x, Ref) for x in ks) == 1 and None not in c.shape:
            ax = [i for i, x in enumerate(ks) if isinstance(x, Ref)][0]
            ia = it.get(np_array(it, [ks[ax]], {}))
            vv = it.asarr(v)[1]
            others = [norm_int(x) for i, x in enumerate(ks) if i != ax]
            if all(isinstance(d, int) and not isinstance(d, bool) for d in ia.data) and len(vv) == 1 and \
                    all((isinstance(x, int) and not isinstance(x, bool)) or (isinstance(x, SliceV) and x.full()) for x in others):
                w = it.w(r)
                dims = [list(ia.data) if i == ax else ([norm_int(x)] if not isinstance(x, SliceV) else list(range(c.shape[i]))) for i, x in enumerate(ks)]
                for idx in itertools.product(*dims):
                    if not all(-s_ <= i_ < s_ for i_, s_ in zip(idx, c.shape)):
                        raise AbsRaise(("IndexError",), it.where())
                    w.data[off(c.shape, [i_ % s_ for i_, s_ in zip(idx, c.shape)])] = vv[0]
                return NOTIMPL
        raise Unsupported(f"fancy store at {it.where()}")
    loops, shp, ptw = [], [], []
    for s, x in zip(c.shape, ks):
        x = norm_int(x)
        if isinstance(x, int):
            if s is None:
                ptw.append(("pt", x))
                loops.append([0])
            else:
                if not -s <= x < s:
                    raise AbsRaise(("IndexError",), it.where())
                loops.append([x % s])
        elif isinstance(x, SliceV):
            if s is None:
                loops.append([0])
                shp.append(None)
                if not x.full():
                    ptw.append(("slice", x))
            else:
                rg = list(range(s))[slice(norm_int(x.a), norm_int(x.b), norm_int(x.c))]
                loops.append(rg)
                shp.append(len(rg))
        elif isinstance(x, Node):
            if s is None:
                loops.append([0])
                ptw.append(("mask" if T.isboolterm(x) else "pt", x))
                if T.isboolterm(x):
                    shp.append(None)
            else:
                loops.append(list(range(s)))
                ptw.append(("symeq", x, len(loops) - 1))
        else:
            raise Unsupported(f"store index {x!r}")
    vs, vd, _ = it.asarr(v)
    # broadcast v to shp
    tgt = it.new(Arr(shp, [0] * max(1, _prod(shp))))
    vb = it.elementwise(lambda a, b: b, tgt, v) if shp else v
    vdata = it.get(vb).data if is_arr(it, vb) else [vb]
    if is_arr(it, vb) and None in it.get(vb).shape and None not in shp:
        pass
    w = it.w(r)
    w.data = list(w.data)
    conds0 = [p for p in ptw if p[0] == "symeq"]
    axes_free = [i for i, x in enumerate(ks) if isinstance(x, SliceV)]
    cnt = 0
    lens = [len(loops[i]) for i in axes_free]
    for idx in itertools.product(*[range(len(l)) for l in loops]):
        pos = 0
        for i, ln in zip(axes_free, lens):
            pos = pos * ln + idx[i]
        real = [loops[i][j] for i, j in enumerate(idx)]
        o = off(c.shape, real)
        val = vdata[pos] if len(vdata) > 1 else vdata[0]
        g = True
        for p in conds0:
            g = T.land(g, it.truth(T.cmp("==", p[1], num(real[p[2]]))))
        old = w.data[o]
        for p in ptw:
            if p[0] == "pt":
                val = fn("upd", it.payload(old), N(p[1]), it.payload(val))
            elif p[0] == "slice":
                val = fn("updslice", it.payload(old), it.payload(p[1]), it.payload(val))
            elif p[0] == "mask":
                val = it.merge_val(p[1], val, old)
        w.data[o] = it.merge_val(g, val, old) if g is not True else val
    it.attr_where[(r.id, "item")] = it.where()
    return NOTIMPL


def _prod(s):
    r = 1
    for x in s:
        r *= x if x is not None else 1
    return r


def arr_attr(it, r, c, name):
    if name == "shape":
        return tuple(s if s is not None else fn("len", N(c.data[0]) if c.data and T.isnum(c.data[0]) else num(0)) for s in c.shape)
    if name == "size":
        if None not in c.shape:
            return _prod(c.shape)
        return fn("len", it.payload(r))
    if name == "ndim":
        return len(c.shape)
    if name == "dtype":
        return Ext("numpy." + (c.dtype or "float") + "_dtype")
    if name == "T":
        if len(c.shape) == 2:
            n, m = [s if s is not None else 1 for s in c.shape]
            return it.new(Arr((c.shape[1], c.shape[0]), [c.data[i * m + j] for j in range(m) for i in range(n)], c.dtype))
        return r
    if name in ("real", "imag"):
        return it.elementwise(lambda x: T.back(fn(name, N(x))) if isinstance(x, Node) else (x if name == "real" else 0), r)
    if name == "flat":
        return it.new(Arr((len(c.data),), c.data, c.dtype)) if None not in c.shape else r
    return MethodOf(r, name)


_ARRM = {"sum": "numpy.sum", "prod": "numpy.prod", "max": "numpy.max", "min": "numpy.min", "all": "numpy.all", "any": "numpy.any",
         "mean": "numpy.mean", "conj": "numpy.conj", "conjugate": "numpy.conj", "dot": "numpy.dot", "cumsum": "numpy.cumsum"}


def node_attr(it, o, name):
    if name in ("real", "imag"):
        return fn(name, o)
    if name == "T":
        return o
    if name == "shape":
        return NodeShape(o)
    if name == "size":
        return fn("len", o)
    if name in ("value", "name") and o.op == "sym" and o.args[0].startswith("astropy"):
        return sym(o.args[0] + "." + name, "pos")
    if name in _ARRM or name in ("astype", "copy", "reshape", "flatten", "ravel", "item", "tolist", "append", "items", "keys", "values", "get", "squeeze", "group", "conjugate", "clip", "transpose", "nonzero", "argmax", "argmin"):
        return MethodOf(o, name)
    if o.op == "sym" and o.args[1] == "opaque":
        return sym(o.args[0] + "." + name, "opaque")
    return fn("attr", o, name)


class NodeShape(tuple):
    def __new__(cls, o):
        return tuple.__new__(cls, (fn("len", o),))


def node_getitem(it, o, k):
    if isinstance(k, (str,)):
        return fn("item", o, k)
    ks = list(k) if isinstance(k, tuple) else [k]
    ks = [norm_int(it.res(x)) for x in ks]
    if all(x is None or x is Ellipsis or (isinstance(x, SliceV) and x.full()) for x in ks):
        return o
    ks2 = [x for x in ks if not (x is None or x is Ellipsis or (isinstance(x, SliceV) and x.full()))]
    if len(ks2) == 1 and isinstance(ks2[0], SliceV):
        return slice_node(it, o, ks2[0])
    if len(ks2) == 1:
        x = ks2[0]
        if isinstance(x, Node) and T.isboolterm(x):
            return fn("mask", o, x)
        if isinstance(x, (int, Node, Fraction)):
            if o.op == "fn" and o.args[0] in ("call", "attr", "item", "mcall") or (o.op == "sym" and o.args[1] == "opaque"):
                return fn("item", o, it.payload(x))
            if isinstance(k, tuple) and len(ks) > 1:
                return fn("idx", o, *[it.payload(y) if not isinstance(y, SliceV) else ":" for y in ks if y is not None]) if not all(
                    isinstance(y, SliceV) or y is None for y in ks[1:]) or isinstance(ks[0], SliceV) else fn("idx", o, N(x))
            return fn("idx", o, N(x))
        if isinstance(x, Ref) and isinstance(it.get(x), Arr) and len(it.get(x).data) == 1:
            d = it.get(x).data[0]
            if isinstance(d, Node) and T.isboolterm(d):
                return fn("mask", o, d)
    return fn("idx", o, *[it.payload(x) for x in ks])


def node_setitem(it, o, k, v):
    k = norm_int(k)
    if isinstance(k, SliceV) and k.full() or k is Ellipsis:
        return v
    if isinstance(k, Node) and T.isboolterm(k):
        return it.merge_val(k, v, o)
    if isinstance(k, (int, Node)):
        return fn("upd", o, N(k), it.payload(v))
    return fn("upd", o, it.payload(k), it.payload(v))


# ------------------------------------------------------------------ methods
def call_method(it, m, a, kw):
    v, name = it.res(m.v), m.name
    if isinstance(v, bytes):
        if name == "decode" and not kw and all(isinstance(x, str) for x in a):
            try:
                return v.decode(*a)
            except UnicodeDecodeError as e:
                raise AbsRaise(("UnicodeDecodeError", str(e)), it.where())
        raise Unsupported(f"bytes method {name}")
    if isinstance(v, str):
        return str_method(it, v, name, a, kw)
    if isinstance(v, Ref):
        c = it.get(v)
        if isinstance(c, List):
            return list_method(it, v, c, name, a, kw)
        if isinstance(c, Dict):
            return dict_method(it, v, c, name, a, kw)
        if isinstance(c, Arr):
            if name in _ARRM:
                return MODELS[_ARRM[name]](it, [v] + a, kw)
            if name == "astype" and a and isinstance(a[0], Ext) and a[0].path.split(".")[-1] in ("str", "str_"):
                def tostr(x):
                    if isinstance(x, str):
                        return x
                    if isinstance(x, Node) and x.op == "num":
                        x = x.args[0]
                    if isinstance(x, (int, Fraction)) and not isinstance(x, bool) and str(c.dtype).startswith("int") and Fraction(x).denominator == 1:
                        return str(int(x))
                    return fn("str", it.payload(x))
                return it.new(Arr(c.shape, [tostr(x) for x in c.data], "str"))
            if name == "astype":
                dt = dtype_of(it, {"dtype": a[0] if a else kw.get("dtype")}) or c.dtype
                data = c.data
                if str(dt).startswith("int"):              # conversion to integer truncates
                    data = [T.intify(x) if isinstance(x, (Fraction, Node)) else x for x in data]
                return it.new(Arr(c.shape, data, dt))
            if name == "copy":
                return it.new(c.copy())
            if name in ("flatten", "ravel"):
                return it.new(Arr((len(c.data),), c.data, c.dtype)) if None not in c.shape else v
            if name == "reshape":
                sh = a[0] if len(a) == 1 else tuple(a)
                sh = (sh,) if isinstance(sh, int) else tuple(it.iter_items(sh)) if not isinstance(sh, Node) else (sh,)
                if any(isinstance(x, Node) for x in sh) or None in c.shape:
                    if len(c.data) == 1:
                        return it.new(Arr(tuple(None if (isinstance(x, Node) or x == -1) else x for x in sh), c.data, c.dtype))
                    raise Unsupported("reshape")
                n = len(c.data)
                p = 1
                for x in sh:
                    p *= x if x != -1 else 1
                if any(isinstance(x, int) and x < -1 for x in sh) or sh.count(-1) > 1 or (p == 0 or n % p if -1 in sh else n != p):
                    raise AbsRaise(("ValueError", f"cannot reshape array of size {n} into shape {sh}"), it.where())
                if -1 in sh:
                    sh = tuple(n // p if x == -1 else x for x in sh)
                return it.new(Arr(sh, c.data, c.dtype))
            if name == "item":
                return c.data[0] if not a else it.getitem(v, a[0])
            if name == "tolist":
                return it.list([x for x in it.iter_items(v)])
            if name == "fill":
                w = it.w(v)
                w.data = [a[0]] * len(w.data)
                return None
            if name == "sort" and not a and not kw and len(c.shape) == 1 and c.shape[0] == len(c.data):
                q = [cnum(x) for x in c.data]
                old = list(c.data)
                w = it.w(v)
                w.data = [old[i] for i in sorted(range(len(q)), key=lambda i: q[i])] if all(x is not None for x in q) else [fn("sorted", num(i), *[it.bnum(x) for x in old]) for i in range(len(old))]
                return None
            if name in ("squeeze",):
                sh = tuple(s for s in c.shape if s != 1)
                return it.new(Arr(sh, c.data, c.dtype))
            if name == "transpose":
                return arr_attr(it, v, c, "T")
            if name == "nonzero":
                r = nonzero(it, v)
                return r if r is not None else (fn("nonzero", it.payload(v)),)
            if name in ("argmax", "argmin"):
                return MODELS["numpy." + name](it, [v] + a, kw)
            if name == "repeat":
                return np_repeat(it, [v] + a, kw)
            if name == "round" and not a and not kw:
                return it.elementwise(lambda x: x if isinstance(x, int) or (isinstance(x, Node) and x.op == "fn" and x.args[0] in ("floor", "ceil", "trunc", "rint")) else T.fn("rint", it.bnum(x)), v)
            raise Unsupported("array method " + name)
        if isinstance(c, Obj):
            return fn("mcall", "obj", name, *[it.payload(x) for x in a])
    if isinstance(v, tuple):
        if name == "index":
            for i, x in enumerate(v):
                if it.same(x, a[0]):
                    return i
            raise AbsRaise(("ValueError", "index"), it.where())
        if name == "count":
            return sum(1 for x in v if it.same(x, a[0]))
    if isinstance(v, Node):
        if name in _ARRM:
            return MODELS[_ARRM[name]](it, [v] + a, kw)
        if name in ("astype", "copy", "reshape", "flatten", "ravel", "squeeze", "transpose"):
            return v
        if name == "item" and not a:
            return v
        return fn("mcall", v, name, *[it.payload(x) for x in a], *[(k, it.payload(x)) for k, x in sorted(kw.items())])
    if isinstance(v, SymMap):
        raise Unsupported("method of mapped sequence")
    if isinstance(v, (int, Fraction)):
        if name == "conjugate" or name == "conj":
            return v
        if name == "is_integer":
            return v.denominator == 1 if isinstance(v, Fraction) else True
        if name in ("astype", "item", "copy"):
            return v
    return fn("mcall", it.payload(v), name, *[it.payload(x) for x in a], *[(k, it.payload(x)) for k, x in sorted(kw.items())])


def str_method(it, s, name, a, kw):
    a = [it.res(x) for x in a]
    for i, x in enumerate(a):
        if isinstance(x, Choice):
            return it.fork_val(x.c, lambda: str_method(it, s, name, a[:i] + [x.a] + a[i + 1:], kw), lambda: str_method(it, s, name, a[:i] + [x.b] + a[i + 1:], kw))
    if name == "join":
        items = it.iter_items(a[0])
        if all(isinstance(x, str) for x in items):
            return s.join(items)
        return fn("join", s, *[it.payload(x) for x in items])
    if name == "format":
        try:
            if all(isinstance(x, (str, int)) for x in a) and all(isinstance(x, (str, int)) for x in kw.values()):
                return s.format(*a, **kw)
        except (IndexError, KeyError, ValueError):
            raise AbsRaise(("KeyError", "format"), it.where())
        parts, auto = [], 0
        for lit, field, spec, conv in string.Formatter().parse(s):
            if lit:
                parts.append(lit)
            if field is None:
                continue
            if field == "":
                field, auto = str(auto), auto + 1
            if not (field.isidentifier() or field.isdigit()) or "{" in (spec or ""):
                return fn("format", s, *[it.payload(x) for x in a], *[(k, it.payload(x)) for k, x in sorted(kw.items())])
            try:
                v = a[int(field)] if field.isdigit() else kw[field]
            except (IndexError, KeyError):
                raise AbsRaise(("KeyError", "format"), it.where())
            parts.append(it.fmt(it.res(v), spec or None, ord(conv) if conv else -1))
        return it.concat(parts)
    if name == "encode" and not kw and all(isinstance(x, str) for x in a):
        return s.encode(*a)
    if all(isinstance(x, (str, int, type(None))) or (isinstance(x, tuple) and all(isinstance(y, str) for y in x)) for x in a) and hasattr(str, name):
        try:
            r = getattr(s, name)(*a, **{k: x for k, x in kw.items()})
        except ValueError as e:
            raise AbsRaise(("ValueError", str(e)), it.where())
        if isinstance(r, list):
            return it.list(r)
        return r
    return fn("mcall", s, name, *[it.payload(x) for x in a])


def list_method(it, r, c, name, a, kw):
    if name == "append":
        it.w(r).items.append(a[0])
        return None
    if name == "extend":
        items = it.iter_items(a[0])
        it.w(r).items.extend(items)
        return None
    if name == "insert":
        it.w(r).items.insert(a[0], a[1])
        return None
    if name == "pop":
        if not c.items:
            raise AbsRaise(("IndexError",), it.where())
        return it.w(r).items.pop(*a)
    if name == "copy":
        return it.list(c.items, c.kind)
    if name == "index":
        for i, x in enumerate(c.items):
            if it.same(x, a[0]) or it.truth(it.compare("==", x, a[0])) is True:
                return i
        raise AbsRaise(("ValueError", "index"), it.where())
    if name == "count":
        r0 = 0
        for x in c.items:
            r0 = it.binop(ast.Add(), r0, it.bnum(it.truth(it.compare("==", x, a[0]))))
        return r0
    if name == "reverse":
        it.w(r).items.reverse()
        return None
    if name == "sort":
        w = it.w(r)
        w.items = it.iter_items(MODELS["builtins.sorted"](it, [r], kw))
        return None
    if name in ("add",):
        if not any(it.same(x, a[0]) for x in c.items):
            it.w(r).items.append(a[0])
        return None
    if name in ("remove", "discard"):
        w = it.w(r)
        for i, x in enumerate(w.items):
            if it.same(x, a[0]):
                del w.items[i]
                return None
        if name == "remove":
            raise AbsRaise(("ValueError",), it.where())
        return None
    if name == "clear":
        it.w(r).items.clear()
        return None
    if name == "update":
        for x in a:
            for y in it.iter_items(x):
                list_method(it, r, it.get(r), "add", [y], {})
        return None
    if name in ("union", "difference", "intersection", "issubset", "issuperset", "isdisjoint"):
        o = it.iter_items(a[0])
        inn = lambda x, l: any(it.same(x, y) for y in l)
        if name == "union":
            return it.list(it._uniq(c.items + o), "set")
        if name == "difference":
            return it.list([x for x in c.items if not inn(x, o)], "set")
        if name == "intersection":
            return it.list([x for x in c.items if inn(x, o)], "set")
        if name == "issubset":
            return all(inn(x, o) for x in c.items)
        if name == "issuperset":
            return all(inn(x, c.items) for x in o)
        return not any(inn(x, o) for x in c.items)
    raise Unsupported("list method " + name)


def dict_method(it, r, c, name, a, kw):
    if name == "items":
        out = []
        for k, v in c.d.items():
            p = it._present(v) if isinstance(v, Choice) else True
            vv = it.strip_undef(v)
            out.append((k, vv) if p is True else Guarded(p, (k, vv)))
        return it.list(out)
    if name == "keys":
        return it.list(it.iter_items(r))
    if name == "values":
        out = []
        for v in c.d.values():
            p = it._present(v) if isinstance(v, Choice) else True
            out.append(it.strip_undef(v) if p is True else Guarded(p, it.strip_undef(v)))
        return it.list(out)
    if name == "get":
        k = it.hashable(it.res(a[0]))
        v = c.d.get(k, UNDEF)
        d = a[1] if len(a) > 1 else kw.get("default")
        if v is UNDEF:
            if isinstance(k, Node):
                rr = d
                for kk in reversed(list(c.d)):
                    rr = it.merge_val(it.truth(it.compare("==", k, kk)), c.d[kk], rr)
                return rr
            return d
        if isinstance(v, Choice) and it._present(v) is not True:
            return it.merge_val(it._present(v), it.strip_undef(v), d)
        return v
    if name == "copy":
        return it.new(c.copy())
    if name == "update":
        if a:
            x = it.res(a[0])
            if isinstance(x, Ref) and isinstance(it.get(x), List) or isinstance(x, tuple):
                m = {}
                for p in it.iter_items(x):
                    if isinstance(p, Guarded):
                        kk, vv = it.iter_items(p.v)
                        m[it.hashable(kk)] = Choice(p.c, vv, c.d.get(it.hashable(kk), UNDEF))
                    else:
                        kk, vv = it.iter_items(p)
                        m[it.hashable(kk)] = vv
            else:
                m = it.mapping(x)
            it.w(r).d.update(m)
        if kw:
            it.w(r).d.update(kw)
        return None
    if name == "pop":
        k = it.hashable(it.res(a[0]))
        if k in c.d:
            return it.strip_undef(it.w(r).d.pop(k))
        if len(a) > 1:
            return a[1]
        raise AbsRaise(("KeyError", k), it.where())
    if name == "setdefault":
        k = it.hashable(it.res(a[0]))
        if k in c.d:
            return c.d[k]
        it.w(r).d[k] = a[1] if len(a) > 1 else None
        return it.get(r).d[k]
    if name == "clear":
        it.w(r).d.clear()
        return None
    raise Unsupported("dict method " + name)


# ------------------------------------------------------------------ builtins
@model("builtins.range")
def b_range(it, a, k):
    a = [it.res(x) for x in a]
    for i, x in enumerate(a):
        if isinstance(x, Choice):
            raise Unsupported("range of choice")
    a = [int(x) if isinstance(x, Fraction) and x.denominator == 1 else x for x in a]
    a = [int(x.args[0]) if isinstance(x, Node) and x.op == "num" else x for x in a]
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    if all(isinstance(x, int) for x in (lo, hi, st)):
        if len(range(lo, hi, st)) > it.MAXUNROLL:
            return RangeV(lo, hi, st)
        return it.list(list(range(lo, hi, st)), "range")
    return RangeV(lo, hi, st)


@model("builtins.len")
def b_len(it, a, k):
    v = it.res(a[0])
    if isinstance(v, Choice):
        return it.fork_val(v.c, lambda: b_len(it, [v.a], k), lambda: b_len(it, [v.b], k))
    if isinstance(v, (tuple, str)):
        return len(v)
    if isinstance(v, Ref):
        c = it.get(v)
        if isinstance(c, List):
            if any(isinstance(x, Guarded) for x in c.items):
                r = 0
                for x in c.items:
                    r = it.binop(ast.Add(), r, it.bnum(x.c) if isinstance(x, Guarded) else 1)
                return r
            return len(c.items)
        if isinstance(c, Dict):
            r = 0
            for x in c.d.values():
                p = it._present(x) if isinstance(x, Choice) else True
                r = r + 1 if p is True and isinstance(r, int) else it.binop(ast.Add(), r, 1 if p is True else it.bnum(p))
            return r
        if isinstance(c, Arr):
            return c.shape[0] if c.shape and c.shape[0] is not None else fn("len", it.payload(v))
        if isinstance(c, SArr):
            return c.length
        if isinstance(c, Obj):
            return it.call(it.getattr(v, "__len__"), [], {})
    if isinstance(v, ClassVal) and v.members is not None:
        return len(it.iter_items(v))
    if isinstance(v, SymMap):
        return fn("len", v.src)
    if isinstance(v, RangeV):
        return T.sub(v.hi, v.lo)
    return fn("len", it.payload(v))


@model("builtins.enumerate")
def b_enumerate(it, a, k):
    v = it.res(a[0])
    st = a[1] if len(a) > 1 else k.get("start", 0)
    if isinstance(v, Node):
        i = it.fresh("i", "int")
        m = SymMap(v, (T.add(i, st), fn("idx", v, i)))
        m.ivar = i
        return m
    items = it.iter_items(v)
    if any(isinstance(x, Guarded) for x in items):
        out, n = [], st
        for x in items:
            if isinstance(x, Guarded):
                out.append(Guarded(x.c, (n, x.v)))
                n = it.binop(ast.Add(), n, it.bnum(x.c))
            else:
                out.append((n, x))
                n = it.binop(ast.Add(), n, 1)
        return it.list(out, "iter")
    return it.list([(i + st, x) for i, x in enumerate(items)], "iter")


@model("builtins.zip", "itertools.zip_longest")
def b_zip(it, a, k):
    seqs = [it.res(x) for x in a]
    if any(isinstance(s, RangeV) for s in seqs):
        n = min(len(it.iter_items(s)) for s in seqs if not isinstance(s, RangeV))
        seqs = [it.list([T.add(s.lo, T.mul(i, s.step)) for i in range(n)]) if isinstance(s, RangeV) else s for s in seqs]
    if any(isinstance(s, Node) for s in seqs):
        fixed = [s for s in seqs if not isinstance(s, Node)]
        if fixed:
            n = min(len(it.iter_items(s)) for s in fixed)
            return it.list([tuple(it.getitem(s, i) if isinstance(s, Node) else it.iter_items(s)[i] for s in seqs) for i in range(n)], "iter")
        i = it.fresh("i", "int")
        m = SymMap(seqs[0], tuple(fn("idx", s, i) for s in seqs))
        m.ivar = i
        return m
    lists = [it.iter_items(s) for s in seqs]
    out = []
    for tp in zip(*lists):
        g = True
        vals = []
        for x in tp:
            if isinstance(x, Guarded):
                g = T.land(g, x.c)
                vals.append(x.v)
            else:
                vals.append(x)
        out.append(tuple(vals) if g is True else Guarded(g, tuple(vals)))
    return it.list(out, "iter")


@model("builtins.map", "itertools.starmap")
def b_map(it, a, k):
    seqs = [it.iter_items(x) for x in a[1:]]
    return it.list([it.call(a[0], list(t), {}) for t in zip(*seqs)], "iter")


MODELS["itertools.starmap"] = lambda it, a, k: it.list([it.call(a[0], it.iter_items(x), {}) for x in it.iter_items(a[1])], "iter")


@model("builtins.filter")
def b_filter(it, a, k):
    out = []
    for x in it.iter_items(a[1]):
        c = it.truth(x if a[0] is None else it.call(a[0], [x], {}))
        if c is True:
            out.append(x)
        elif c is not False:
            out.append(Guarded(c, x))
    return it.list(out, "iter")


@model("builtins.list")
def b_list(it, a, k):
    if not a:
        return it.list([])
    v = it.res(a[0])
    if isinstance(v, (SymMap,)):
        return v
    if isinstance(v, Node):
        return v
    return it.list(it.iter_items(v))


@model("builtins.iter")
def b_iter(it, a, k):
    return it.list(it.iter_items(a[0]), "iter")


@model("builtins.tuple")
def b_tuple(it, a, k):
    if not a:
        return ()
    v = it.res(a[0])
    if isinstance(v, (SymMap, Node)):
        return v
    return tuple(it.iter_items(v))


@model("builtins.set", "builtins.frozenset")
def b_set(it, a, k):
    return it.list(it._uniq(it.iter_items(a[0])) if a else [], "set")


@model("builtins.dict")
def b_dict(it, a, k):
    r = it.new(Dict({}))
    if a:
        dict_method(it, r, it.get(r), "update", a, {})
    it.w(r).d.update(k)
    return r


@model("collections.defaultdict")
def c_dd(it, a, k):
    return it.new(Dict({}, a[0] if a else None))


@model("builtins.next")
def b_next(it, a, k):
    r = a[0]
    if isinstance(r, Ref) and isinstance(it.get(r), List):
        w = it.w(r)
        if not w.items:
            if len(a) > 1:
                return a[1]
            raise AbsRaise(("StopIteration",), it.where())
        if isinstance(w.items[0], Guarded):
            # value of first present item
            d = a[1] if len(a) > 1 else UNDEF
            res = d
            for x in reversed(w.items):
                res = it.merge_val(x.c, x.v, res) if isinstance(x, Guarded) else x
            w.items = w.items[1:]
            return res
        return w.items.pop(0)
    return fn("next", it.payload(r))


@model("builtins.int", "math.trunc")
def b_int(it, a, k):
    if not a:
        return 0
    v = it.res(a[0])
    if isinstance(v, Choice):
        return it.fork_val(v.c, lambda: b_int(it, [v.a] + a[1:], k), lambda: b_int(it, [v.b] + a[1:], k))
    if conc(v):
        return int(v)
    if isinstance(v, str):
        try:
            return int(v, *a[1:])
        except ValueError:
            raise AbsRaise(("ValueError", "int"), it.where())
    if isinstance(v, Node):
        if v.op == "sym" and v.args[1] in ("int", "nat") or v.op == "num" and v.args[0].denominator == 1:
            return T.back(v) if v.op != "num" else int(v.args[0])
        if v.op == "fn" and v.args[0] in ("floor", "trunc", "ceil", "len", "cint"):
            return v
        return fn("trunc", it.bnum(v)) if not (v.op == "sym" and v.args[1] == "opaque") else fn("toint", v)
    if is_arr(it, v):
        return b_int(it, [it.get(v).data[0]], k)
    return fn("toint", it.payload(v))


@model("builtins.float")
def b_float(it, a, k):
    v = it.res(a[0]) if a else 0
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return Fraction(v)
    if conc(v) or isinstance(v, Node):
        return v
    if isinstance(v, str):
        try:
            return Fraction(v)
        except ValueError:
            if v in ("nan", "inf", "-inf"):
                return {"nan": T.NAN, "inf": T.INF, "-inf": T.neg(T.INF)}[v]
            raise AbsRaise(("ValueError", "float"), it.where())
    return v


@model("builtins.complex")
def b_complex(it, a, k):
    if len(a) == 2:
        return T.add(N(a[0]), T.mul(N(a[1]), T.I))
    return a[0]


@model("builtins.str", "builtins.repr")
def b_str(it, a, k):
    return it.fmt(it.res(a[0])) if a else ""


@model("builtins.bool")
def b_bool(it, a, k):
    return it.truth(a[0])


@model("builtins.abs")
def b_abs(it, a, k):
    v = it.res(a[0])
    if conc(v):
        return abs(v)
    return MODELS["numpy.abs"](it, [v], {})


@model("builtins.round")
def b_round(it, a, k):
    v = a[0]
    if conc(v):
        r = round(v, *a[1:])
        return r
    return fn("round", it.payload(v), *[it.payload(x) for x in a[1:]])


def b_minmax(which):
    def f(it, a, k):
        items = [it.res(x) for x in (it.iter_items(a[0]) if len(a) == 1 else a)]
        key = k.get("key")
        if not items:
            if "default" in k:
                return k["default"]
            raise AbsRaise(("ValueError", "empty"), it.where())
        r = items[0]
        for x in items[1:]:
            if key is None and T.isnum(r) and T.isnum(x):
                r = (max2 if which == "max" else min2)(it, r, x)
            else:
                kr = it.call(key, [r], {}) if key is not None else r
                kx = it.call(key, [x], {}) if key is not None else x
                c = it.truth(it.compare(">" if which == "max" else "<", kx, kr))
                r = it.merge_val(c, x, r)
        return r
    return f


MODELS["builtins.max"] = b_minmax("max")
MODELS["builtins.min"] = b_minmax("min")


@model("builtins.sum")
def b_sum(it, a, k):
    v = it.res(a[0])
    if isinstance(v, Node):
        return fn("asum", v)
    r = a[1] if len(a) > 1 else k.get("start", 0)
    for x in it.iter_items(v):
        if isinstance(x, Guarded):
            x = it.merge_val(x.c, x.v, 0)
        r = it.binop(ast.Add(), r, x)
    return r


@model("builtins.all")
def b_all(it, a, k):
    v = it.res(a[0])
    if isinstance(v, (Node, SymMap)):
        return fn("all", it.payload(v) if isinstance(v, Node) else N(it.bnum(v.elem)))
    r = True
    for x in it.iter_items(v):
        g = True
        if isinstance(x, Guarded):
            g, x = x.c, x.v
        r = T.land(r, T.lor(T.lnot(g), it.truth(x)))
    return r


@model("builtins.any")
def b_any(it, a, k):
    v = it.res(a[0])
    if isinstance(v, (Node, SymMap)):
        return fn("any", it.payload(v) if isinstance(v, Node) else N(it.bnum(v.elem)))
    r = False
    for x in it.iter_items(v):
        g = True
        if isinstance(x, Guarded):
            g, x = x.c, x.v
        r = T.lor(r, T.land(g, it.truth(x)))
    return r


@model("builtins.sorted")
def b_sorted(it, a, k):
    items = it.iter_items(a[0])
    key = k.get("key")
    ks = [it.call(key, [x], {}) if key is not None else x for x in items]

    def ok(x):
        return conc(x) or isinstance(x, str) or isinstance(x, tuple) and all(ok(y) for y in x)
    if all(ok(x) for x in ks):
        order = sorted(range(len(items)), key=lambda i: ks[i], reverse=bool(k.get("reverse", False)))
        return it.list([items[i] for i in order])
    # symbolic sort: a fully determined order statistic term list
    return it.list([fn("sorted", num(i), *[it.payload(x) for x in ks]) for i in range(len(items))])


@model("builtins.reversed")
def b_reversed(it, a, k):
    return it.list(list(reversed(it.iter_items(a[0]))), "iter")


@model("builtins.isinstance")
def b_isinstance(it, a, k):
    return it.isinstance(a[0], a[1])


@model("builtins.issubclass")
def b_issubclass(it, a, k):
    return isinstance(a[0], ClassVal) and a[1] in a[0].mro()


@model("builtins.type")
def b_type(it, a, k):
    v = it.res(a[0])
    if isinstance(v, Ref) and isinstance(it.get(v), Obj) and it.get(v).cls is not None:
        return it.get(v).cls
    t = it.typename(v)
    return Ext("builtins." + (t or "object"))


@model("builtins.getattr")
def b_getattr(it, a, k):
    nm = it.res(a[1])
    if isinstance(nm, Choice):
        return it.fork_val(nm.c, lambda: b_getattr(it, [a[0], nm.a] + a[2:], k), lambda: b_getattr(it, [a[0], nm.b] + a[2:], k))
    if no_name(it, nm):
        raise AbsRaise(("TypeError", "attribute name must be a string"), it.where())
    if not isinstance(nm, str):
        return fn("getattr", it.payload(a[0]), it.payload(nm))
    if len(a) > 2:
        try:
            r = it.getattr(a[0], nm)
            return a[2] if r is UNDEF else r
        except AbsRaise:
            return a[2]
    return it.getattr(a[0], nm)


def no_name(it, nm):
    """certainly not a string"""
    c = it.get(nm) if isinstance(nm, Ref) else None
    return nm is None or isinstance(nm, (bool, int, Fraction, tuple)) or isinstance(nm, Node) and nm.op in ("add", "mul", "pow") or isinstance(c, (Dict, List, Arr))


@model("builtins.setattr")
def b_setattr(it, a, k):
    nm = it.res(a[1])
    if no_name(it, nm):
        raise AbsRaise(("TypeError", "attribute name must be a string"), it.where())
    if isinstance(nm, Choice):
        it.fork_val(nm.c, lambda: b_setattr(it, [a[0], nm.a, a[2]], k), lambda: b_setattr(it, [a[0], nm.b, a[2]], k))
        return None
    if not isinstance(nm, str):
        raise Unsupported("setattr with symbolic name")
    it.setattr(a[0], nm, a[2])


@model("builtins.object.__setattr__")
def b_object_setattr(it, a, k):
    nm = it.res(a[1])
    r = it.res(a[0])
    if not isinstance(nm, str) or not (isinstance(r, Ref) and isinstance(it.get(r), Obj)):
        raise Unsupported("object.__setattr__ with symbolic name")
    it.w(r).attrs[nm] = a[2]


@model("builtins.hasattr")
def b_hasattr(it, a, k):
    try:
        r = it.getattr(a[0], a[1])
        return r is not UNDEF
    except AbsRaise:
        return False


@model("builtins.callable")
def b_callable(it, a, k):
    return it.typename(a[0]) == "func" or isinstance(a[0], (ClassVal, Ext))


@model("builtins.vars")
def b_vars(it, a, k):
    return it.new(Dict(it.get(a[0]).attrs))


@model("builtins.print", "builtins.id", "builtins.hash", "builtins.input")
def b_print(it, a, k):
    return None


@model("builtins.slice")
def b_slice(it, a, k):
    a = list(a)
    return SliceV(*( [None, a[0], None] if len(a) == 1 else a + [None] * (3 - len(a))))


@model("builtins.object")
def b_object(it, a, k):
    return it.obj(None, label="object")


@model("builtins.divmod")
def b_divmod(it, a, k):
    return (it.binop(ast.FloorDiv(), a[0], a[1]), it.binop(ast.Mod(), a[0], a[1]))


@model("builtins.pow")
def b_pow(it, a, k):
    return it.binop(ast.Pow(), a[0], a[1])


@model("sys.exit", "builtins.exit", "builtins.quit", "os._exit")
def s_exit(it, a, k):
    raise AbsRaise(("SystemExit",) + tuple(x for x in a if isinstance(x, (int, str))), it.where())


@model("functools.partial")
def f_partial(it, a, k):
    return Partial(a[0], list(a[1:]), dict(k))


@model("functools.reduce")
def f_reduce(it, a, k):
    items = it.iter_items(a[1])
    r = a[2] if len(a) > 2 else items.pop(0)
    for x in items:
        r = it.call(a[0], [r, x], {})
    return r


@model("functools.wraps")
def f_wraps(it, a, k):
    return Lam(lambda it2, aa, kk: aa[0], "wraps")


@model("operator.attrgetter")
def o_ag(it, a, k):
    return Getter("attr", list(a))


@model("operator.itemgetter")
def o_ig(it, a, k):
    return Getter("item", list(a))


@model("operator.methodcaller")
def o_mc(it, a, k):
    return Lam(lambda it2, aa, kk: it2.call(it2.getattr(aa[0], a[0]), list(a[1:]), k), "methodcaller")


def call_getter(it, g, a):
    out = []
    for n in g.names:
        if g.kind == "attr":
            v = a[0]
            for p in n.split("."):
                v = it.getattr(v, p)
            out.append(v)
        else:
            out.append(it.getitem(a[0], n))
    return out[0] if len(out) == 1 else tuple(out)


@model("itertools.product")
def i_product(it, a, k):
    seqs = [it.iter_items(x) for x in a] * int(k.get("repeat", 1))
    return it.list([tuple(t) for t in itertools.product(*seqs)], "iter")


def _count(it, a):
    if len(a) != 2 or not isinstance(a[1], int):
        if len(a) == 2 and isinstance(a[1], Node):
            raise Unsupported("symbolic number of items")
        raise AbsRaise(("TypeError", "the number of items to combine is not an integer"), it.where())
    return a[1]


@model("itertools.combinations")
def i_comb(it, a, k):
    return it.list([tuple(t) for t in itertools.combinations(it.iter_items(a[0]), _count(it, a))], "iter")


@model("itertools.combinations_with_replacement")
def i_cwr(it, a, k):
    return it.list([tuple(t) for t in itertools.combinations_with_replacement(it.iter_items(a[0]), _count(it, a))], "iter")


@model("itertools.permutations")
def i_perm(it, a, k):
    return it.list([tuple(t) for t in itertools.permutations(it.iter_items(a[0]), *a[1:])], "iter")


@model("itertools.chain")
def i_chain(it, a, k):
    return it.list([x for s in a for x in it.iter_items(s)], "iter")


MODELS["itertools.chain.from_iterable"] = lambda it, a, k: it.list([x for s in it.iter_items(a[0]) for x in it.iter_items(s)], "iter")
MODELS["itertools.repeat"] = lambda it, a, k: it.list([a[0]] * a[1], "iter")
MODELS["itertools.islice"] = lambda it, a, k: it.list(it.iter_items(a[0])[slice(*a[1:])], "iter")
MODELS["copy.copy"] = lambda it, a, k: it.new(it.get(a[0]).copy()) if isinstance(a[0], Ref) else a[0]


@model("copy.deepcopy")
def deepcopy(it, a, k):
    memo = {}

    def cp(v):
        if isinstance(v, Ref):
            if v.id in memo:
                return memo[v.id]
            c = it.get(v).copy()
            r = Ref()
            memo[v.id] = r
            if isinstance(c, List):
                c.items = [cp(x) for x in c.items]
            elif isinstance(c, Dict):
                c.d = {kk: cp(x) for kk, x in c.d.items()}
            elif isinstance(c, Obj) and not (c.cls is not None and c.cls.is_enum()):
                c.attrs = {kk: cp(x) for kk, x in c.attrs.items()}
            elif isinstance(c, Obj):
                memo[v.id] = v
                return v
            it.heap[r.id] = c
            return r
        if isinstance(v, tuple):
            return tuple(cp(x) for x in v)
        return v
    return cp(a[0])


@model("enum.auto")
def e_auto(it, a, k):
    return fn("call:enum.auto")


for _n in ("debug", "info", "warning", "error", "exception", "critical"):
    MODELS["none_object." + _n] = lambda it, a, k: None
    MODELS["logging." + _n] = lambda it, a, k: None


@model("builtins.property")
def b_property(it, a, k):
    return Prop(*a[:2])


@model("builtins.staticmethod", "builtins.classmethod")
def b_sm(it, a, k):
    return a[0]


# positional parameter names of uninterpreted external functions: a call with keywords is the same term as the positional call
SIGS = {
    "num_integrator.libcpp_num_integrator.integrate": ("integration_method", "equally_spaced", "integrand", "variable", "num_threads", "parallel_comp"),
    "ld_funcs.libcpp_ld_funcs.compute": ("kap", "res", "myselvar", "num_threads", "paral"),
    "disc_integrator.libcpp_disc_integration.get_integrals": ("mus", "angular_function", "first_mu_der", "second_mu_der", "ld_function_string",
                                                              "integration_string", "num_threads", "paral"),
    "scipy.interpolate.interp1d": ("x", "y", "kind", "axis", "copy", "bounds_error", "fill_value", "assume_sorted"),
    "scipy.interpolate.splrep": ("x", "y", "w", "xb", "xe", "k", "task", "s", "t", "full_output", "per", "quiet"),
    "scipy.interpolate.splev": ("x", "tck", "der", "ext"),
    "numpy.interp": ("x", "xp", "fp", "left", "right", "period"),
    "numpy.gradient": ("f",), "h5py.File": ("name", "mode"),
    "pandas.read_csv": ("filepath_or_buffer",),
}


def normalise(path, args, kwargs):
    sig = SIGS.get(path)
    if sig and kwargs and len(args) < len(sig):
        args, kwargs = list(args), dict(kwargs)
        for nm in sig[len(args):]:
            if nm not in kwargs:
                break
            args.append(kwargs.pop(nm))
    return list(args), kwargs


@model("tqdm.tqdm", "tqdm.auto.tqdm", "tqdm.trange")
def m_tqdm(it, a, k):
    return a[0] if a else k["iterable"]


@model("math.comb", "scipy.special.comb")
def m_comb(it, a, k):
    import math
    v = [it.res(x) for x in a[:2]]
    if all(isinstance(x, int) for x in v):
        if min(v) < 0:
            raise AbsRaise(("ValueError", "negative"), it.where())
        return math.comb(*v)
    return fn("call:math.comb", *[it.payload(x) for x in v])


@model("statistics.mean", "statistics.fmean")
def m_mean(it, a, k):
    v = it.iter_items(a[0])
    if not v:
        raise AbsRaise(("StatisticsError", "mean requires at least one data point"), it.where())
    s = num(0)
    for x in v:
        s = s + it.bnum(x)
    return s / len(v)
