"""Native quadrature: rules, parallel variants, data races, wrapper."""
import os
from fractions import Fraction
from .common import *
from .. import native, cxx
from ..cxx import Ptr, CxxError

EXPL = ("Abstract interpretation of the C++ quadrature through its Cython wrapper (clang's typed syntax tree and Cython's parser; doubles are terms, array lengths concrete, every pointer access bounds-checked): each rule's result is a "
        "linear form in the symbolic integrand values and compared with the stated rule, for all lengths up to a bound and around every integer literal of the source; worksharing loops are checked for data races through per-iteration footprints.")
W = native.NI + "/num_integration.cpp"
WX = native.NI + "/libcpp_num_integrator.pyx"


def trapz(f, x):
    return sum(((f[i] + f[i - 1]) / 2 * (x[i] - x[i - 1]) for i in range(1, len(f))), num(0))


def simpson(f, h):
    n = len(f) - 1
    return h / 3 * sum((f[i] * (1 if i in (0, n) else 4 if i % 2 else 2) for i in range(n + 1)), num(0))


def grids(n):
    uni = [num(Fraction(-7, 10) + Fraction(3, 11) * i) for i in range(n)]
    quad = [num(Fraction(1, 7) + Fraction(2, 9) * i + Fraction(i * i, 5)) for i in range(n)]
    last = [num(Fraction(i, 4) + (Fraction(1, 8) if i == n - 1 else 0)) for i in range(n)]
    desc = [num(Fraction(3) - Fraction(2, 7) * i) for i in range(n)]
    mid = [num(Fraction(i, 4) + (Fraction(1, 16) if i == n // 2 else 0)) for i in range(n)]
    return {"even": (uni, True), "uneven": (quad, n <= 2), "even but for the last point": (last, n <= 2), "even descending": (desc, True), "even but for the middle point": (mid, n <= 2)}


def expected(meth, es, f, x, even):
    if len(f) < 2:
        return num(0)
    if es and even and meth == "simpson" and len(f) % 2:
        return simpson(f, x[1] - x[0])
    return trapz(f, x)


def run(chk):
    chk.rule("rule", "result == the stated quadrature rule for the method, the spacing flag and the actual spacing of the grid")
    chk.rule("pure", "integrand and variable are left as they were; a second call gives the same value")
    chk.rule("parallel", "each *_parallel member computes what its serial counterpart computes")
    chk.rule("race", "no two iterations of a worksharing loop touch one location, one of them writing, outside reductions and private variables")
    chk.rule("arguments", "the wrapper hands the two arrays, their common length and the options over as named, and refuses arrays of different lengths")
    P = native.program(REPO, ("ni",))
    CLS = "NumericalDoubleInputIntegrator"
    lit = native.literals(P)
    sizes = sorted({*range(2, 14), *(range(14, 26) if chk.tier == "thorough" else ()), *(k + d for k in lit for d in (-1, 0, 1, 2))})
    it = Interp(REPO)
    bad = native.install(it, P)
    m, pr = native.load_pyx(it, "libcpp_num_integrator", os.path.join(REPO, WX))
    integrate = it.get(m.env).vars["integrate"]
    A = lambda v: it.new(Arr((len(v),), tuple(v), "float"))

    def one(n, meth, es, gname, par, nt):
        tag = f"{meth}, {n} points, grid {gname}, spacing flag={es}, parallel={par}"
        x, even = grids(n)[gname]
        f = [sym(f"f{i}") for i in range(n)]

        def go():
            fa, xa = A(f), A(x)
            del bad[:]
            r = it.call(integrate, [meth, es, fa, xa, nt, par])
            check_eq(chk, "rule", tag, r, expected(meth, es, f, x, even), W, it=it, rounds=2)
            if n in (4, 5):
                r2 = it.call(integrate, [meth, es, fa, xa, nt, par])
                chk.verdict("pure", tag, list(it.get(fa).data) == f and list(it.get(xa).data) == x and r2 == r, W, "inputs are modified or the value changes between calls")
        chk.guard("rule", tag, go, W)
    for n in sizes:
        for meth in ("trapz", "simpson"):
            for es in (True, False):
                for g in grids(n):
                    for par, nt in ((False, 1), (True, 4)):
                        if n > 13 and (par or g != "even"):
                            continue
                        one(n, meth, es, g, par, nt)
    one(1, "trapz", True, "even", False, 1)
    one(1, "simpson", True, "even", False, 1)
    one(1, "trapz", False, "even", True, 4)
    # members with a parallel twin
    names = {k[1] for k in P.methods if k[0] == CLS and k[2] == 0}
    for nm in sorted(names):
        if not nm.endswith("_parallel") or nm[:-9] not in names:
            continue
        for n in (2, 3, 4, 5, 6, 7, 8, 9):
            for es in (True, False):
                for g in ("even", "uneven"):
                    tag = f"{nm[:-9]}, {n} points, grid {g}, spacing flag={es}"

                    def go():
                        x, _ = grids(n)[g]
                        f = [sym(f"f{i}") for i in range(n)]
                        v = []
                        for a in (nm[:-9], nm):
                            o = P.construct(CLS, [n, Ptr(list(f)), Ptr(list(x)), es, "trapz", 4, True])
                            v.append(P.callm(o, CLS, a, []))
                        check_eq(chk, "parallel", tag, v[1], v[0], W, rounds=2)
                    def guarded():
                        try:
                            go()
                        except CxxError as e:
                            chk.bad("parallel", tag, W, str(e))
                    chk.guard("parallel", tag, guarded, W)
    for k, w in enumerate(sorted(P.omp_loops)):
        chk.verdict("race", f"worksharing loop {k}", w not in P.races, w, f"unsynchronised access to {sorted(P.races.get(w, ()))[:4]} from different iterations")
    # wrapper
    for a, b in ((4, 3), (3, 4), (5, 1)):
        tag = f"{a} integrand values, {b} grid points"

        def go():
            try:
                r = it.call(integrate, ["trapz", False, A([sym(f"f{i}") for i in range(a)]), A([num(i * i) for i in range(b)]), 1, False])
                chk.bad("arguments", tag, WX, "accepted" if not bad else bad[-1])
            except AbsRaise as e:
                chk.verdict("arguments", tag, "UndefinedBehaviour" not in str(e.exc), WX, f"{e.exc}")
        chk.guard("arguments", tag, go, WX)
    chk.verdict("arguments", "views handed to native code are contiguous", not [b for b in bad if "strided" in b], WX, "; ".join(bad[:1]))
    for f, n in P.functions:
        chk.functions.add(f"{os.path.relpath(f, REPO)}:{n}")
        chk.files.add(os.path.relpath(f, REPO))
    chk.saw(it)
    chk.floor = 150
