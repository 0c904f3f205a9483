"""Concrete models of the numpy / BLAS / numexpr routines used by the histogram code (exact rationals, closed terms evaluated at high precision)."""
import ast
import itertools
from fractions import Fraction
from . import terms as T
from .terms import num, N, fn
from .interp import Arr, Ref, List, Lam, Unsupported, AbsRaise, Choice, Dict


ROUND = 10 ** 14

FORK = ("numpy.linspace", "numpy.logspace", "numpy.histogram", "numpy.bincount", "numpy.argwhere", "numpy.searchsorted", "numpy.digitize", "numexpr.evaluate")



def isnan_term(v):
    """whether arithmetic on the undefined value makes this term undefined."""
    if v is T.NAN:
        return True
    if not isinstance(v, T.Node):
        return False
    if v.op in ("add", "mul", "div", "pow") or v.op == "fn" and v.args[0] in ("floor", "ceil", "trunc", "rint", "sqrt", "abs", "exp", "log"):
        return any(isnan_term(y) for x in v.args for y in (x if isinstance(x, tuple) else (x,)))
    return False


def val(v):
    """numeric value of a closed term: Fraction, mpf or None"""
    v = T.asterm(v) if not isinstance(v, (int, Fraction)) else num(v)
    c = T.cval(v)
    if c is not None:
        return Fraction(c)
    if T.syms_of(v):
        return None
    x = T.Sampler((0, 0)).ev(v)
    return x.real if hasattr(x, "imag") and isinstance(x, T.mpc) else x


def cmpv(a, b):
    """-1, 0, 1 for closed terms; equal within 1e-25 counts as equal"""
    x, y = val(a), val(b)
    if x is None or y is None:
        raise Unsupported("order of symbolic values")
    if isinstance(x, Fraction) and isinstance(y, Fraction):
        return (x > y) - (x < y)
    d = T.mpf(x.numerator) / x.denominator if isinstance(x, Fraction) else x
    e = T.mpf(y.numerator) / y.denominator if isinstance(y, Fraction) else y
    if abs(d - e) <= T.mpf(10) ** -25 * (abs(d) + abs(e) + 1):
        return 0
    return 1 if d > e else -1


def cond_in(it, x, cells=True):
    """condition of some if-then-else inside a value, or None"""
    if isinstance(x, Choice):
        return x.c
    if isinstance(x, Ref):
        c = it.get(x) if cells else None
        return next((q for q in (cond_in(it, v) for v in c.data) if q is not None), None) if isinstance(c, Arr) else None
    if not isinstance(x, T.Node):
        return None
    seen, todo = set(), [x]
    while todo:
        n = todo.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n.op == "ite":
            return n.args[0]
        todo += [q for q in n.args if isinstance(q, T.Node)]
    return None

def pick(it, x, c, yes):
    if isinstance(x, Choice):
        return pick(it, it.res(x.a if yes else x.b), c, yes) if x.c is c else x
    if isinstance(x, Ref):
        v = it.get(x)
        if not isinstance(v, Arr):
            return x
        d = [pick(it, it.res(q), c, yes) for q in v.data]
        return x if all(p is q for p, q in zip(d, v.data)) else it.new(Arr(v.shape, d, v.dtype))
    if not isinstance(x, T.Node):
        return x
    memo = {}

    def go(n):
        if not isinstance(n, T.Node):
            return n
        if n.id not in memo:
            if n.op == "ite" and n.args[0] is c:
                memo[n.id] = go(n.args[1] if yes else n.args[2])
            elif n.op in ("add", "mul", "div", "pow", "ite", "fn"):
                q = [go(v) for v in n.args]
                memo[n.id] = n if all(p is r for p, r in zip(q, n.args)) else {"add": T.add, "mul": T.mul, "div": T.div, "pow": T.power, "ite": T.ite, "fn": T.fn}[n.op](*q)
            else:
                memo[n.id] = n
        return memo[n.id]
    return T.back(go(x))


def fork_args(it, f, a, k, cells=True):
    """call f(a, k) once per choice inside the arguments and merge the results"""
    a = [it.res(x) for x in a]
    k = {q: it.res(x) for q, x in k.items()}
    for x in a + list(k.values()):
        c = cond_in(it, x, cells)
        if c is not None:
            return it.fork_val(c, *[lambda y=y: fork_args(it, f, [pick(it, v, c, y) for v in a], {q: pick(it, v, c, y) for q, v in k.items()}, cells) for y in (True, False)])
    return f(a, k)


def install(it, eps=0):
    """eps: sign of the rounding assumed for the outer edges of logarithmic bins"""
    def cells(v):
        v = it.res(v)
        if isinstance(v, Ref):
            c = it.get(v)
            if isinstance(c, Arr):
                if len(c.shape) > 1:
                    raise Unsupported("one-dimensional array expected")
                return list(c.data)
            if isinstance(c, List):
                return [it.res(x) for x in c.items]
        if isinstance(v, tuple):
            return list(v)
        if v is None or isinstance(v, (bool, int, Fraction, str)) or isinstance(v, T.Node) and v.op in ("add", "mul", "pow"):
            raise AbsRaise(("TypeError", "array expected"), it.where())
        raise Unsupported("array expected")

    def A(vs, dt="float"):
        vs = list(vs)
        return it.new(Arr((len(vs),), vs, dt))

    def dtof(v):
        v = it.res(v)
        return it.get(v).dtype if isinstance(v, Ref) and isinstance(it.get(v), Arr) else None

    def I(v):
        v = it.res(v)
        if isinstance(v, T.Node) and T.cval(v) is not None and Fraction(T.cval(v)).denominator == 1:
            return int(T.cval(v))
        if isinstance(v, Fraction) and v.denominator == 1:
            return int(v)
        if v is None or isinstance(v, (Fraction, str, tuple)) or isinstance(v, T.Node) and (v.op in ("add", "mul", "pow") or v.op == "fn" and not any("call" in x or x in ("floor", "ceil", "trunc") for x in T.fns_of(v))) and not any(x.args[1] in ("int", "nat", "opaque") for x in T.syms_of(v)):
            raise AbsRaise(("TypeError", "a number that is no integer cannot be a count"), it.where())
        if isinstance(v, T.Node) and isnan_term(v):
            raise AbsRaise(("ValueError", "not a number cannot be a count"), it.where())
        if not isinstance(v, int):
            raise Unsupported("symbolic count " + (T.show(v) if isinstance(v, T.Node) else repr(v)[:80]))
        return v

    def forked(f, cells=True):
        return lambda i, a, k: fork_args(i, lambda a, k: f(i, a, k), a, k, cells)

    def bind(names, a, k, dflt=()):
        d = dict(dflt)
        d.update(zip(names, a))
        d.update(k)
        return d

    def isnan(i, a, k):
        def one(x):
            x = i.res(x)
            if x is T.NAN:
                return True
            if isinstance(x, (int, Fraction)) or (isinstance(x, T.Node) and T.NAN not in T.syms_of(x)):
                return False
            raise Unsupported("isnan")
        return i.elementwise(one, a[0])

    def extent(vs):
        lo = hi = vs[0]
        for v in vs[1:]:
            lo = v if cmpv(v, lo) < 0 else lo
            hi = v if cmpv(v, hi) > 0 else hi
        return lo, hi

    def noempty(vs):
        if not vs:
            raise AbsRaise(("ValueError", "reduction of an empty array"), it.where())
        if any(v is T.NAN for v in vs):
            raise Unsupported("NaN in a reduction")

    def ptp(i, a, k):
        vs = cells(a[0])
        noempty(vs)
        lo, hi = extent(vs)
        return hi - lo if isinstance(hi, T.Node) or isinstance(lo, T.Node) else num(Fraction(hi) - Fraction(lo))

    def linspace(i, a, k):
        d = bind(("start", "stop", "num", "endpoint", "retstep", "dtype"), a, k, dict(num=50, endpoint=True))
        n = I(d["num"])
        s, e = N(i.res(d["start"])), N(i.res(d["stop"]))
        den = n - 1 if d["endpoint"] else n
        return A([s + (e - s) * num(Fraction(j, den)) if den else s for j in range(n)])

    def logspace(i, a, k):
        d = bind(("start", "stop", "num", "endpoint", "base", "dtype"), a, k, dict(num=50, endpoint=True, base=num(10)))
        n = I(d["num"])
        s, e, b = N(i.res(d["start"])), N(i.res(d["stop"])), N(i.res(d["base"]))
        den = n - 1 if d["endpoint"] else n
        out = [T.power(b, s + (e - s) * num(Fraction(j, den)) if den else s) for j in range(n)]
        if eps and n > 1 and d["endpoint"]:
            out[0] = out[0] * num(1 + Fraction(eps, ROUND))
            out[-1] = out[-1] * num(1 + Fraction(eps, ROUND))
        return A(out)

    def histogram(i, a, k):
        d = bind(("a", "bins", "range", "density", "weights"), a, k, dict(bins=10))
        if d.get("range") is not None or d.get("density") or d.get("weights") is not None:
            raise Unsupported("numpy.histogram options")
        vs = cells(d["a"])
        n = I(d["bins"])
        if any(v is T.NAN for v in vs):
            raise AbsRaise(("ValueError", "autodetected range is not finite"), i.where())
        if not vs:
            raise Unsupported("histogram of nothing")
        lo, hi = (val(x) for x in extent(vs))
        if lo == hi:
            lo, hi = lo - Fraction(1, 2), hi + Fraction(1, 2)
        cnt = [0] * n
        for v in vs:
            j = int((val(v) - lo) * n // (hi - lo))
            cnt[min(j, n - 1)] += 1
        return (A(cnt, "int"), A([num(lo + (hi - lo) * Fraction(j, n)) for j in range(n + 1)]))

    def searchsorted(i, a, k):
        d = bind(("a", "v", "side", "sorter"), a, k, dict(side="left"))
        if d.get("sorter") is not None:
            raise Unsupported("sorter")
        e, vs = cells(d["a"]), cells(d["v"])
        out = []
        for v in vs:
            j = 0
            while j < len(e) and (cmpv(e[j], v) < 0 or (d["side"] == "right" and cmpv(e[j], v) == 0)):
                j += 1
            out.append(j)
        return A(out, "int")

    def digitize(i, a, k):
        d = bind(("x", "bins", "right"), a, k, dict(right=False))
        return searchsorted(i, [d["bins"], d["x"]], {"side": "left" if d["right"] else "right"})

    def bincount(i, a, k):
        d = bind(("x", "weights", "minlength"), a, k, dict(minlength=0))
        vs = [I(v) for v in cells(d["x"])]
        if d.get("weights") is not None:
            raise Unsupported("weights")
        if any(v < 0 for v in vs):
            raise AbsRaise(("ValueError", "'list' argument must have no negative elements"), i.where())
        n = max([I(d["minlength"])] + [v + 1 for v in vs])
        return A([sum(1 for v in vs if v == j) for j in range(n)], "int")

    def argwhere(i, a, k):
        out = [j for j, v in enumerate(cells(a[0])) if i.known(i.truth(v))]
        return i.new(Arr((len(out), 1), out, "int"))

    def argx(sgn):
        def f(i, a, k):
            vs = cells(a[0])
            b = None
            for j, v in enumerate(vs):
                if v is T.NAN:
                    raise Unsupported("NaN in argmin/argmax")
                if b is None or cmpv(v, vs[b]) * sgn > 0:
                    b = j
            return b
        return f

    def nanargmax(i, a, k):
        vs = cells(a[0])
        best, idx = N(vs[0]), 0
        for j in range(1, len(vs)):
            c = T.cmp(">", N(vs[j]), best)
            if isinstance(c, bool):
                best, idx = (N(vs[j]), j) if c else (best, idx)
                continue
            idx = Choice(c, j, idx)
            best = T.ite(c, N(vs[j]), best)
        return idx

    def inplace(v, vs):
        v = it.res(v)
        if isinstance(v, Ref) and isinstance(it.get(v), Arr) and str(it.get(v).dtype) in ("float", "float64", "None"):
            w = it.w(v)
            w.data = list(vs)
            return v
        return A(vs)

    def daxpy(i, a, k):
        d = bind(("x", "y", "n", "a", "offx", "incx", "offy", "incy"), a, k, dict(a=num(1)))
        if any(q in d for q in ("offx", "incx", "offy", "incy")):
            raise Unsupported("daxpy strides")
        x, y = cells(d["x"]), cells(d["y"])
        n = I(d["n"]) if "n" in d else len(x)
        if n > len(x) or n > len(y):
            raise AbsRaise(("error", "daxpy: n out of range"), i.where())
        s = N(i.res(d["a"]))
        return inplace(d["y"], [N(q) + s * N(p) if j < n else q for j, (p, q) in enumerate(itertools.zip_longest(x[:len(y)], y, fillvalue=0))])

    def dscal(i, a, k):
        d = bind(("a", "x"), a, k)
        s = i.res(d["a"])
        if isinstance(s, Ref):
            s = cells(s)[0]                      # f2py takes the first element
        if i.res(d["x"]) is None:
            return T.NAN
        return inplace(d["x"], [N(s) * N(v) for v in cells(d["x"])])

    def dasum(i, a, k):
        vs = [N(v) for v in cells(a[0])]
        return sum((v if T.cval(v) is not None and T.cval(v) >= 0 else T.fn("abs", v) for v in vs), num(0))

    def ddot(i, a, k):
        x, y = cells(a[0]), cells(a[1])
        if len(x) != len(y):
            raise AbsRaise(("error", "ddot lengths"), i.where())
        return sum((N(p) * N(q) for p, q in zip(x, y)), num(0))

    def evaluate(i, a, k):
        d = bind(("ex", "local_dict", "global_dict", "out", "order", "casting"), a, k)
        if d.get("out") is not None:
            raise Unsupported("numexpr out")
        tree = ast.parse(i.res(d["ex"]).strip(), mode="eval").body
        ld = d.get("local_dict")
        env = {}
        if ld is not None:
            c = it.get(it.res(ld))
            if not isinstance(c, Dict):
                raise Unsupported("numexpr names")
            for q, v in it.dict_items(ld) if hasattr(it, "dict_items") else c.d.items():
                env[q] = v
        else:
            raise Unsupported("numexpr names from the frame")

        def lift(f, *vs):
            arrs = [cells(v) if isinstance(it.res(v), Ref) else None for v in vs]
            n = max((len(x) for x in arrs if x is not None), default=None)
            if n is None:
                return f(*[N(it.res(v)) for v in vs])
            if any(x is not None and len(x) not in (1, n) for x in arrs):
                raise AbsRaise(("ValueError", "operands could not be broadcast"), i.where())
            return A([f(*[N(it.res(v)) if x is None else N(x[j if len(x) == n else 0]) for v, x in zip(vs, arrs)]) for j in range(n)])

        def ev(e):
            if isinstance(e, ast.Constant):
                return num(Fraction(str(e.value)))
            if isinstance(e, ast.Name):
                if e.id not in env:
                    raise AbsRaise(("KeyError", e.id), i.where())
                return env[e.id]
            if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
                return lift(lambda x: -x, ev(e.operand))
            if isinstance(e, ast.BinOp):
                op = {ast.Add: lambda x, y: x + y, ast.Sub: lambda x, y: x - y, ast.Mult: lambda x, y: x * y, ast.Div: lambda x, y: x / y, ast.Pow: T.power}.get(type(e.op))
                if op:
                    return lift(op, ev(e.left), ev(e.right))
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
                nm = e.func.id
                if nm == "sum":
                    v = ev(e.args[0])
                    return sum((N(x) for x in cells(v)), num(0)) if isinstance(it.res(v), Ref) else v
                if nm in ("log", "exp", "sqrt", "abs", "floor", "log10"):
                    return lift(lambda x: floor1(x) if nm == "floor" else T.sqrt(x) if nm == "sqrt" else T.fn(nm, x), ev(e.args[0]))
            raise Unsupported("numexpr expression " + ast.unparse(e))

        def go(_, k):
            env.update(k)
            return ev(tree)
        return fork_args(it, go, [], dict(env), cells=False)

    def floor1(x):
        x = N(x)
        c = T.cval(x)
        return num(c.numerator // c.denominator if isinstance(c, Fraction) else c) if c is not None else T.fn("floor", x)

    def astype_int(x):
        c = T.cval(N(x))
        if c is None:
            return None
        c = Fraction(c)
        return int(c) if c >= 0 else -int(-c)

    o = it.overrides
    for nm, f in (("numpy.isnan", isnan), ("numpy.ptp", ptp), ("numpy.linspace", linspace), ("numpy.logspace", logspace), ("numpy.histogram", histogram), ("numpy.searchsorted", searchsorted), ("numpy.digitize", digitize),
                  ("numpy.bincount", bincount), ("numpy.argwhere", argwhere), ("numpy.argmin", argx(-1)), ("numpy.argmax", argx(1)), ("numpy.nanargmax", nanargmax),
                  ("scipy.linalg.blas.daxpy", daxpy), ("scipy.linalg.blas.dscal", dscal), ("scipy.linalg.blas.dasum", dasum), ("scipy.linalg.blas.ddot", ddot), ("numexpr.evaluate", evaluate)):
        o[("ext", nm)] = forked(f, cells=not nm.startswith("scipy")) if nm in FORK or nm.startswith("scipy") else f
