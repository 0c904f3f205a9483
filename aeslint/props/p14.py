"""Numerical differentiation: Fornberg's Fortran kernel, stencils, gradient, internal interpolation."""
import os
from fractions import Fraction
from .common import *
from .. import f90
from ..f90 import FArr, FError, UN

EXPL = ("Abstract interpretation of the Fortran kernel (own front end; reals exact rationals or terms, every subscript checked against declared bounds and the extent of the actual argument, undefined reads reported) and of the Python "
        "differentiator calling it: on non-uniform ascending and descending rational grids the k-th derivative of a polynomial with symbolic coefficients is exact up to the requested accuracy, for every admissible accuracy and order; "
        "stencil kernels are checked for exactness and for the neighbours they read.")
D = "fornberg-num-deriv/fornberg_num_deriv"
W = D + "/fornberg.f90"
WP = "num-tools/num_deriv/num_deriv.py"
WS = "num-tools/num_deriv/stencils.py"


def grid(kind, n):
    if kind == "even":
        return [num(Fraction(-3, 4) + Fraction(2, 7) * i) for i in range(n)]
    if kind == "uneven":
        return [num(Fraction(-1, 3) + Fraction(i, 5) + Fraction(i * i, 11) + Fraction((i * 7) % 3, 31)) for i in range(n)]
    return [num(Fraction(2) - Fraction(i, 3) - Fraction((i * 5) % 4, 17)) for i in range(n)]


def poly(x, deg, k=0):
    out = []
    for xi in x:
        s = num(0)
        for j in range(k, deg + 1):
            c = 1
            for t in range(k):
                c *= j - t
            p = num(c)
            for _ in range(j - k):
                p = p * xi
            s = s + sym(f"a{j}") * p
        out.append(s)
    return out


def npoly(x, deg, k=0):
    """the same with fixed integer coefficients: exact rational values"""
    out = []
    for xi in x:
        xi, s = xi.args[0], Fraction(0)
        for j in range(k, deg + 1):
            c = 1
            for t in range(k):
                c *= j - t
            s += (1 + (j * 7919 + 104729 * j * j) % 8191) * c * xi ** (j - k)
        out.append(num(s))
    return out


def np_gradient(it, y, x, edge):
    n = len(y)
    if n < edge + 1:
        raise AbsRaise(("ValueError", "shape too small for gradient"), it.where())
    h = [x[i + 1] - x[i] for i in range(n - 1)]
    o = [None] * n
    for i in range(1, n - 1):
        a, b = h[i - 1], h[i]
        o[i] = -(b / (a * (a + b))) * y[i - 1] + (b - a) / (a * b) * y[i] + a / (b * (a + b)) * y[i + 1]
    if edge == 1:
        o[0] = (y[1] - y[0]) / h[0]
        o[-1] = (y[-1] - y[-2]) / h[-1]
    else:
        a, b = h[0], h[1]
        o[0] = -(2 * a + b) / (a * (a + b)) * y[0] + (a + b) / (a * b) * y[1] - a / (b * (a + b)) * y[2]
        a, b = h[-2], h[-1]
        o[-1] = b / (a * (a + b)) * y[-3] - (b + a) / (a * b) * y[-2] + (2 * b + a) / (b * (a + b)) * y[-1]
    return o


def rat(v):
    v = T.asterm(v)
    if v.op != "num":
        raise Unsupported("symbolic abscissa of an interpolation")
    return v.args[0]


def lin(px, py, x):
    pts = sorted(((rat(a), b) for a, b in zip(px, py)), key=lambda t: t[0])
    x = rat(x)
    for (a, ya), (b, yb) in zip(pts, pts[1:]):
        if a <= x <= b:
            return ya + (yb - ya) * num((x - a) / (b - a))
    return None


REL = '''
class Rel:
    def __init__(self, a, i, seen):
        self.a = a
        self.i = i
        self.seen = seen
    def __getitem__(self, k):
        self.seen.append(k)
        j = self.i + k
        if j < 0 or j >= len(self.a):
            return 0
        return self.a[j]
'''


def run(chk):
    import ast
    chk.rule("exact", "computed k-th derivative == exact k-th derivative for every polynomial of degree <= accuracy, on any distinct grid")
    chk.rule("bounds", "every subscript in range and every value read defined, or the routine stops with a message before touching an array")
    chk.rule("result list", "differentiate returns [y, first, ..., n-th] at the input abscissae; unsupported orders are None")
    chk.rule("stencil", "each stencil kernel is exact to its order and reads only the neighbours its type names")
    chk.rule("interpolation", "with internal interpolation: the derivatives of the piecewise linear interpolant at the input abscissae, one value per input value")
    P = f90.Program()
    for f in ("fornberg.f90", "f90wrap_fornberg.f90"):
        P.load(os.path.join(REPO, D, f))

    def kernel(iord, iacc, x, u):
        n = len(x)
        A = lambda v: FArr(list(v), 0, [(1, n)])
        X, U, du = A(x), A(u), A([num(0)] * n)
        P.call("fornberg_grid_derivative", [iord, iacc, X, U, du, n])
        if X.l != list(x) or U.l != list(u):
            raise FError("an input array is modified")
        return du.l

    def one(iord, iacc, kind, n):
        tag = f"order {iord}, accuracy {iacc}, {n} points, {kind} grid"
        x = grid(kind, n)

        def go():
            try:
                r = kernel(iord, iacc, x, npoly(x, iacc))
            except FError as e:
                chk.bad("bounds" if not e.stop else "exact", tag, W, str(e))
                return
            chk.ok("bounds", tag, W)
            w = npoly(x, iacc, iord)
            for i in range(n):
                if r[i] is UN:
                    chk.bad("exact", tag, W, f"element {i} is never set")
                    return
                if T.asterm(r[i]) != w[i]:
                    chk.bad("exact", tag, W, f"derivative at point {i} is {show(T.asterm(r[i]))[:120]}, exact {show(T.asterm(w[i]))[:120]}")
                    return
            chk.ok("exact", tag, W)
        chk.guard("exact", tag, go, W)
    thorough = chk.tier == "thorough"
    for iacc in range(1, 9):
        for iord in (1, 2, 3, 4, 7):
            for kind in ("even", "uneven", "descending"):
                for n in (iacc + 1, iacc + 2, iacc + 5):
                    if (iord > 2 and kind != "uneven") or (n == iacc + 2 and kind == "even"):
                        continue
                    one(iord, iacc, kind, n)
    for iacc in ((9, 10, 12, 19, 20) if not thorough else range(9, 21)):
        one(1, iacc, "uneven", iacc + 3)
        if thorough:
            one(2, iacc, "descending", iacc + 4)

    def edge(iord, iacc, n):
        tag = f"order {iord}, accuracy {iacc}, {n} points"
        x = grid("uneven", n)

        def go():
            try:
                r = kernel(iord, iacc, x, [sym(f"u{i}") for i in range(n)])
            except FError as e:
                chk.verdict("bounds", tag, e.stop, W, str(e))
                return
            chk.verdict("bounds", tag, not any(v is UN for v in r), W, "an element of the result is never set")
        chk.guard("bounds", tag, go, W)
    for iord, iacc, n in ((0, 4, 9), (1, 0, 4), (1, 20, 21), (1, 20, 25), (7, 20, 24), (8, 4, 9), (9, 8, 12), (20, 20, 25), (1, 21, 30), (1, 25, 30), (2, 4, 4), (2, 4, 3), (2, 4, 1), (1, 8, 8), (1, 1, 1), (1, 5, 2),
                          (-1, 4, 9), (1, -1, 5), (1, -2, 5), (1, -7, 5), (3, 20, 20), (1, 100, 120)):
        edge(iord, iacc, n)

    it = Interp(REPO)
    calls = []

    def arr(v):
        c = it.get(it.res(v))
        if not isinstance(c, Arr) or len(c.shape) != 1:
            raise Unsupported("one-dimensional array expected")
        return c

    def fnd(i, a, k):
        a, k = [i.res(x) for x in a], {q: i.res(v) for q, v in k.items()}
        names = ["iorder", "iaccuracy", "grid", "u", "du"]
        b = dict(zip(names, a), **k)
        if set(b) != set(names):
            raise AbsRaise(("TypeError", "arguments of the compiled routine"), i.where())
        X, U, O = arr(b["grid"]), arr(b["u"]), arr(b["du"])
        if len(X.data) != len(U.data) or len(O.data) != len(X.data):
            raise AbsRaise(("ValueError", "lengths of the arguments of the compiled routine"), i.where())
        if str(O.dtype) not in ("float", "float64"):
            raise AbsRaise(("ValueError", f"result array of type {O.dtype}"), i.where())
        calls.append((b["iorder"], b["iaccuracy"]))
        r = kernel(int(b["iorder"]), int(b["iaccuracy"]), X.data, U.data)
        i.w(b["du"]).data = list(r) if isinstance(O.data, list) else tuple(r)
        return None

    def gradient(i, a, k):
        x = i.res(a[1]) if len(a) > 1 else None
        if x is None or not isinstance(x, Ref):
            raise Unsupported("gradient without an array of abscissae")
        e = int(k.get("edge_order", 1))
        o = np_gradient(i, list(arr(a[0]).data), list(arr(x).data), e)
        return i.new(Arr((len(o),), tuple(o), "float"))

    def interp(i, a, k):
        px, py = arr(a[1]).data, arr(a[2]).data
        q = [rat(v) for v in px]
        if len(px) != len(py):
            raise AbsRaise(("ValueError", "fp and xp are not of the same length"), i.where())
        if not q or any(u >= v for u, v in zip(q, q[1:])):
            raise Unsupported("numpy.interp on abscissae that do not increase")
        o = [py[0] if rat(v) <= q[0] else py[-1] if rat(v) >= q[-1] else lin(px, py, v) for v in arr(a[0]).data]      # clamped to the end values
        return i.new(Arr((len(o),), tuple(o), "float"))

    def interp1d(i, a, k):
        if set(k) - {"kind", "axis", "copy", "assume_sorted"} or i.res(k.get("kind", "linear")) != "linear":
            raise Unsupported("interp1d options")
        px, py = list(arr(a[0]).data), list(arr(a[1]).data)

        def ev(i2, a2, k2):
            o = [lin(px, py, v) for v in arr(a2[0]).data]
            if any(v is None for v in o):
                raise AbsRaise(("ValueError", "a value in x_new is outside the interpolation range"), i2.where())
            return i2.new(Arr((len(o),), tuple(o), "float"))
        return Lam(ev, "interp1d")

    it.overrides[("ext", "myfnd.fnd.fornberg_grid_derivative")] = fnd
    it.overrides[("ext", "numpy.gradient")] = gradient
    it.overrides[("ext", "numpy.interp")] = interp
    it.overrides[("ext", "scipy.interpolate.interp1d")] = interp1d
    rel = it.load_file("relstub", "<stencil access>", ast.parse(REL))
    Rl = it.get(rel.env).vars["Rel"]
    log = []

    def stencil(i, a, k):
        if not a:
            return Lam(lambda i2, a2, k2: stencil(i2, a2, k2), "stencil")
        f = a[0]

        def apply(i2, args, kw):
            cols = [arr(v) for v in args]
            n = len(cols[0].data)
            seen = i2.new(List([]))

            def at(p):
                i2.w(seen).items[:] = []
                r = i2.call(f, [i2.call(Rl, [v, p, seen]) for v in args])
                return r, [int(q) for q in i2.get(seen).items]
            mid = n // 2
            _, offs = at(mid)
            lo, hi = min(offs), max(offs)
            log.append((lo, hi))
            o = [at(p)[0] if p + lo >= 0 and p + hi < n else num(0) for p in range(n)]
            return i2.new(Arr((n,), tuple(o), "float"))
        return Lam(apply, "stencil kernel")
    it.overrides[("ext", "numba.stencil")] = stencil
    cls = getname(it, "num_deriv.num_deriv", "NumericalDifferentiator")
    A = lambda v: it.new(Arr((len(v),), tuple(v), "float"))

    def values(r):
        c = it.get(it.res(r))
        return list(c.data) if isinstance(c, Arr) else None

    def diffs(tag, meth, x, y, order, want, rule, kw=None, interp_f=None, default_method=False):
        def go():
            a = [order] if default_method else [order, meth]
            o = it.call(cls, a, {"perform_interpolation": True, "interpolation_factor": interp_f} if interp_f else {})
            xa, ya = A(x), A(y)
            try:
                res = it.call(it.getattr(o, "differentiate"), [xa, ya], kw or {})
            except FError as e:
                chk.bad(rule, tag, W, str(e))
                return
            l = it.iter_items(it.getitem(res, 0))
            if len(l) != len(want):
                chk.bad(rule, tag, WP, f"{len(l)} entries, expected {len(want)}")
                return
            for k, (g, w) in enumerate(zip(l, want)):
                if w is None:
                    chk.verdict(rule, f"{tag}: entry {k}", it.res(g) is None, WP, "an unsupported order is not None")
                    continue
                v = values(g) if it.res(g) is not None else None
                if v is None or len(v) != len(w):
                    chk.bad(rule, f"{tag}: entry {k}", WP, f"{'no array' if v is None else str(len(v)) + ' values'}, expected {len(w)}")
                    continue
                bad = [p for p in range(len(w)) if w[p] is not None and not equal(T.asterm(v[p]), T.asterm(w[p]), rounds=2)]
                chk.verdict(rule, f"{tag}: entry {k}", not bad, WP, f"value at point {bad and bad[0]}: {bad and show(T.asterm(v[bad[0]]))[:150]}, expected {bad and show(T.asterm(w[bad[0]]))[:150]}")
            chk.verdict(rule, tag + ": inputs", values(xa) == list(x) and values(ya) == list(y), WP, "an input array is modified")
        chk.guard(rule, tag, go, WP)
    for kind in ("even", "uneven", "descending"):
        x = grid(kind, 7)
        y2 = poly(x, 2)
        for order in (0, 1, 2, 3):
            w = [y2, poly(x, 2, 1), None, None][:order + 1]
            diffs(f"gradient, order {order}, {kind} grid", "gradient", x, y2, order, w, "result list")
            diffs(f"gradient by default, order {order}, {kind} grid", "gradient", x, y2, order, w, "result list", default_method=True)
            d1 = [None] + poly(x, 2, 1)[1:-1] + [None]
            diffs(f"gradient with first-order edges, order {order}, {kind} grid", "gradient", x, y2, order, [y2, d1, None, None][:order + 1], "result list", {"edge_order": 1})
            y1 = poly(x, 1)
            diffs(f"gradient with first-order edges, linear, order {order}, {kind} grid", "gradient", x, y1, order, [y1, poly(x, 1, 1), None, None][:order + 1], "result list", {"edge_order": 1})
        for acc in (None, 2, 4, 5, 6):
            a = acc or 4
            x = grid(kind, 9)
            y = poly(x, a)
            for order in (0, 1, 2, 3):
                diffs(f"fornberg, accuracy {acc or 'default'}, order {order}, {kind} grid", "fornberg", x, y, order, [poly(x, a, k) for k in range(order + 1)], "result list", {"interpolation_order": acc} if acc else None)
    # stencils
    for typ, o, deg, off, kinds in (("forward", 1, 1, (0, 1), ("even", "uneven", "descending")), ("backward", 1, 1, (-1, 0), ("even", "uneven", "descending")), ("center", 1, 1, (-1, 1), ("uneven", "descending")),
                                    ("center", 1, 2, (-1, 1), ("even",)), ("center", 2, 4, (-2, 2), ("even",))):
        for kind in kinds:
            x = grid(kind, 9)
            y = poly(x, deg)
            w1 = poly(x, deg, 1)
            for p in range(9):
                if p + off[0] < 0 or p + off[1] > 8:
                    w1[p] = num(0)
            del log[:]
            tag = f"stencil {typ} of order {o}, {kind} grid"
            diffs(tag, "stencil_functions", x, y, 2, [y, w1, None], "stencil", {"my_order": o, "my_differencing_type": typ})
            if log:
                chk.verdict("stencil", tag + ": neighbours", log[0] == off, WS, f"reads offsets {log[0]}, expected {off}")
            if typ == "center" and o == 1:
                diffs(tag + " by default", "stencil_functions", x, y, 2, [y, w1, None], "stencil")
    # internal interpolation
    for kind in ("even", "uneven", "descending"):
        for n, f in ((5, 10), (4, 3), (7, 4), (6, 10), (3, 2), (6, 2)):
            x = grid(kind, n)
            y = [sym(f"y{i}") for i in range(n)]
            sl = [(y[i + 1] - y[i]) / (x[i + 1] - x[i]) for i in range(n - 1)]
            h = [x[i + 1] - x[i] for i in range(n - 1)]
            w = [None] * n
            for i in range(1, n - 1):       # weighted central difference of the interpolant on the refined grid
                a, b = h[i - 1], h[i]
                w[i] = (b * sl[i - 1] + a * sl[i]) / (a + b)
            if f >= 2:
                w[0], w[-1] = sl[0], sl[-1]
            diffs(f"gradient, {n} points refined {f}-fold, {kind} grid", "gradient", x, y, 2, [y, w, None], "interpolation", None, f)
            yn = [num(Fraction((i * 5 + 2) % 7, 3) - i * i) for i in range(n)]
            at = dict(zip(y, yn))
            diffs(f"gradient, numbers, {n} points refined {f}-fold, {kind} grid", "gradient", x, yn, 2, [yn, [None if v is None else T.subst(v, at) for v in w], None], "interpolation", None, f)
            y1 = poly(x, 1)
            diffs(f"fornberg, linear function, {n} points refined {f}-fold, {kind} grid", "fornberg", x, y1, 2, [y1, poly(x, 1, 1), poly(x, 1, 2)], "interpolation", {"interpolation_order": 2}, f)
    chk.rule("selection", "an unknown method name or a non-integral interpolation factor ends the run")

    def reject(tag, a, k):
        def go():
            try:
                it.call(cls, a, k)
            except AbsRaise as e:
                chk.verdict("selection", tag, True, WP)
                return
            chk.bad("selection", tag, WP, "accepted")
        chk.guard("selection", tag, go, WP)
    reject("unknown method", [1, "splines"], {})
    reject("fractional factor", [1, "gradient", True, Fraction(5, 2)], {})
    for f, n in P.functions:
        chk.functions.add(f"{os.path.relpath(f, REPO)}:{n}")
        chk.files.add(os.path.relpath(f, REPO))
    chk.saw(it)
    chk.floor = 300
