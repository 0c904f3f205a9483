"""Native limb darkening and disc integrals."""
import os
from fractions import Fraction as Fr
from .common import *
from .. import native
from ..cxx import Ptr, CxxError
from .p12 import trapz, simpson

EXPL = ("Abstract interpretation of the C++ limb-darkening and disc-integral classes through their Cython wrappers (symbolic angular functions and derivatives, concrete latitude grids of many shapes): both integrals are compared with the "
        "stated integrands, limb darkening and selection 0<=mu<=1, serial and parallel; worksharing loops are checked for data races.")
W = native.DI + "/disc_integrals.cpp"
WL = native.LD + "/ld_functions.cpp"


def grids():
    g = {"even -1..1 (5)": [Fr(k, 2) for k in range(-2, 3)], "even -1..1 (9)": [Fr(k, 4) for k in range(-4, 5)], "even 0..1": [Fr(k, 6) for k in range(7)], "even 0..1, even count": [Fr(k, 5) for k in range(6)],
         "descending": [Fr(k, 4) for k in range(4, -5, -1)], "uneven": [Fr(-9, 10), Fr(-1, 2), Fr(1, 10), Fr(3, 10), Fr(7, 10), Fr(19, 20)], "uneven with bounds": [Fr(-1), Fr(0), Fr(1, 5), Fr(1, 2), Fr(1)],
         "beyond one": [Fr(k, 4) for k in range(-2, 7)], "just outside": [Fr(-1, 1000), Fr(0), Fr(1, 2), Fr(1), Fr(1001, 1000)], "interleaved": [Fr(1, 4), Fr(-1, 2), Fr(1, 2), Fr(2), Fr(3, 4)],
         "northern only": [Fr(1, 8), Fr(3, 8), Fr(5, 8), Fr(7, 8)], "two points": [Fr(1, 4), Fr(3, 4)], "southern only": [Fr(-1, 2), Fr(-1, 4)], "one northern point": [Fr(-1, 2), Fr(1, 3)]}
    return g


def even(x):
    return len(x) > 1 and all(x[i] - x[i - 1] == x[1] - x[0] for i in range(2, len(x)))


def run(chk):
    chk.rule("limb darkening", "Eddington law 1 + 3/2 mu for every element, serial and parallel")
    chk.rule("disc integral", "first: integral of mu f h, second: integral of (2 mu f' + (mu^2 - 1) f'') mu h, over the points with 0 <= mu <= 1, with the requested rule")
    chk.rule("pure", "input arrays are left as they were")
    chk.rule("race", "no two iterations of a worksharing loop touch one location, one of them writing, outside reductions and private variables")
    chk.rule("arguments", "wrappers pass each array under its own name and refuse arrays of different lengths or strided ones")
    P = native.program(REPO)
    it = Interp(REPO)
    bad = native.install(it, P)
    ml, _ = native.load_pyx(it, "libcpp_ld_funcs", os.path.join(REPO, native.LD, "libcpp_ld_funcs.pyx"))
    md, _ = native.load_pyx(it, "libcpp_disc_integration", os.path.join(REPO, native.DI, "libcpp_disc_integration.pyx"))
    ld, di = it.get(ml.env).vars["compute"], it.get(md.env).vars["get_integrals"]
    A = lambda v: it.new(Arr((len(v),), tuple(v), "float"))
    lit = native.literals(P)
    for n in sorted({1, 2, 3, 5, 8, *(k + d for k in lit for d in (0, 1))}):
        for par in (False, True):
            def go():
                mu = [sym(f"mu{i}") for i in range(n)]
                a, r = A(mu), A([num(0)] * n)
                it.call(ld, [a, r, "eddington", 4, par])
                for i in range(n):
                    check_eq(chk, "limb darkening", f"{n} points, parallel={par}: element {i}", it.get(r).data[i], 1 + num(3) / 2 * mu[i], WL, it=it, rounds=2)
                chk.verdict("pure", f"limb darkening, {n} points, parallel={par}", list(it.get(a).data) == mu, WL, "the latitudes are modified")
            chk.guard("limb darkening", f"{n} points, parallel={par}", go, WL)
    gs = grids()
    for k in lit:
        gs[f"even 0..1 ({k + 1})"] = [Fr(i, k) for i in range(k + 1)]
    for g, x in gs.items():
        for meth in ("trapz", "simpson"):
            for par, nt in ((False, 1), (True, 3)):
                tag = f"{meth}, grid {g}, parallel={par}"

                def go():
                    n = len(x)
                    f, d1, d2 = ([sym(f"{c}{i}") for i in range(n)] for c in ("f", "d", "s"))
                    arrs = [A([num(v) for v in x]), A(f), A(d1), A(d2)]
                    before = [tuple(it.get(a).data) for a in arrs]
                    r = it.res(it.call(di, [*arrs, "eddington", meth, nt, par]))
                    r = list(r) if isinstance(r, tuple) else list(it.get(r).items)
                    sel = [i for i in range(n) if 0 <= x[i] <= 1]
                    mu = [num(x[i]) for i in sel]
                    h = [1 + num(3) / 2 * m for m in mu]
                    ig = ([m * f[i] * w for m, i, w in zip(mu, sel, h)], [(2 * m * d1[i] + (m ** 2 - 1) * d2[i]) * m * w for m, i, w in zip(mu, sel, h)])
                    for nm, v, got in zip(("first", "second"), ig, r):
                        if len(v) < 2:
                            want = num(0)
                        elif meth == "simpson" and len(v) % 2 and even([x[i] for i in sel]):
                            want = simpson(v, mu[1] - mu[0])
                        else:
                            want = trapz(v, mu)
                        check_eq(chk, "disc integral", f"{tag}: {nm}", got, want, W, it=it, rounds=2)
                    chk.verdict("pure", tag, before == [tuple(it.get(a).data) for a in arrs], W, "an input array is modified")
                chk.guard("disc integral", tag, go, W)
    for w in sorted(P.omp_loops):
        chk.verdict("race", f"worksharing loop in {w.split(':')[0].rsplit('/', 1)[-1]} ({sorted(P.omp_loops).index(w)})", w not in P.races, w, f"unsynchronised access to {sorted(P.races.get(w, ()))[:4]} from different iterations")
    S = lambda n, c: A([sym(f"{c}{i}") for i in range(n)])
    X = lambda n: A([num(Fr(i, 8)) for i in range(n)])
    cases = [(f"limb darkening: {a} latitudes, {b} results", lambda a=a, b=b: it.call(ld, [S(a, "m"), S(b, "r"), "eddington", 1, False])) for a, b in ((4, 3), (3, 4))]
    cases += [(f"disc integrals: lengths {t}", lambda t=t: it.call(di, [X(t[0]), S(t[1], "a"), S(t[2], "b"), S(t[3], "c"), "eddington", "trapz", 1, False])) for t in ((4, 3, 4, 4), (4, 4, 3, 4), (4, 4, 4, 3), (3, 4, 4, 4))]
    for tag, f in cases:
        def go():
            try:
                f()
                chk.bad("arguments", tag, "", "accepted")
            except AbsRaise as e:
                chk.verdict("arguments", tag, "UndefinedBehaviour" not in str(e.exc), "", f"{e.exc}")
        chk.guard("arguments", tag, go)
    chk.verdict("arguments", "views handed to native code are contiguous", not [b for b in bad if "strided" in b], "", "; ".join([b for b in bad if "strided" in b][:1]))
    for f, n in P.functions:
        chk.functions.add(f"{os.path.relpath(f, REPO)}:{n}")
        chk.files.add(os.path.relpath(f, REPO))
    chk.saw(it)
    chk.floor = 80
