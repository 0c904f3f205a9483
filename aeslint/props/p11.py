"""Hough functions: tidal operator, components, derivatives, parity, normalisation; Chebyshev collocation."""
import ast as _ast
from fractions import Fraction
import mpmath
from .common import *

EXPL = ("Value numbering of the Hough-function class with the collocation operators replaced by the exact differential operators they stand for: the tidal operator, each component and derivative is a term in mu, nu, m and the "
        "derivatives of the radial function and is compared with (the symbolic derivative of) the stated one; values at negative mu are compared with the parity of the radial function. The collocation matrices are folded for several sizes.")
HFM = "hough-func-tools/hough_function/hough_function.py"
CHM = "hough-func-tools/cheby_transform/cheby_transform.py"
HNM = "hough-func-tools/hough_function/hough_normalizer.py"
HHM = "aesolver/aesolver/angular_integration/rotating_tar_angular/hough_function_handler.py"
n_ = 2
mu = [sym(f"mu{i}", "unit") for i in range(n_)]
s = [sqrt(1 - x * x) for x in mu]
H = [[sym(f"H{d}_{i}") for i in range(n_)] for d in range(5)]
nu = sym("nu")
INSTR = {"prat": (1, 0), "lee_saio_equivalent": (-1, 0), "townsend": (-1, 1)}
LM = [(1, 0), (1, 1), (1, -1), (2, 0), (2, 1), (2, -1), (2, 2), (2, -2), (3, 1), (3, -2), (4, 1)]


def ddmu(t, i):
    return T.diff(t, {mu[i]: num(1), **{H[d][i]: H[d + 1][i] for d in range(4)}})


def comps(m, i, sg, sf):
    den = 1 - nu ** 2 * mu[i] ** 2
    ht = (-s[i] ** 2 * H[1][i] - m * nu * mu[i] * H[0][i]) / (den * s[i])
    hp = sg * (nu * mu[i] * s[i] ** 2 * H[1][i] + m * H[0][i]) / (den * s[i])
    if sf:
        ht, hp = ht * s[i], hp * s[i]
    return ht, hp


def spec(m, i, sg, sf):
    ht, hp = comps(m, i, sg, sf)
    d = {"hr": H[0][i], "ht": ht, "hp": hp, "hrp": H[1][i], "hrpp": H[2][i], "htp": ddmu(ht, i), "hpp": ddmu(hp, i)}
    d["hrp_theta"] = -s[i] * H[1][i]
    d["htp_theta"] = -s[i] * d["htp"]
    d["hpp_theta"] = -s[i] * d["hpp"]
    d["hrpp_theta"] = s[i] ** 2 * H[2][i] - mu[i] * H[1][i]
    d["theta_phi"] = m * ht - mu[i] * hp
    d["phi_phi"] = (mu[i] * ht - m * hp) / s[i]
    d["mhr"] = -m * H[0][i]
    return d


def setup(it, calls):
    A = lambda d: it.new(Arr((n_,), tuple(d), "float"))

    def vec(i, v):
        v = i.res(v)
        if v is None:
            return [num(0)] * n_
        return list(i.get(v).data)

    def cls(i, f, a, k):
        src = ("import stubch\nclass C:\n" + "".join(f"    def {nm}(self, *a, **k):\n        return stubch.{nm}(*a, **k)\n" for nm in ("apply", "diff1", "diff2", "solve_eig")))
        m = i.load_file("stub_ch", "stub_ch.py", _ast.parse(src))
        o = i.call(i.get(m.env).vars["C"], [])
        i.setattr(o, "mu", A(mu))
        i.setattr(o, "s", A(s))
        calls.append(("npts", (a + list(k.values()))[0] if a or k else None))
        return o
    it.overrides[("class", "ChebyTransform")] = cls

    def named(nm, names):
        def f(i, a, k):
            d = {**dict(zip(names, a)), **k}
            calls.append((nm, d))
            h = [H[0][j] if x == H[0][j] else None for j, x in enumerate(vec(i, d["f"]))] if "f" in d else []
            if any(x is None for x in h):
                raise Unsupported("operator applied to something else than the radial function")
            if nm == "apply":
                c0, c1, c2 = (vec(i, d.get(c)) for c in ("coeff0", "coeff1", "coeff2"))
                return A([c0[j] * H[0][j] + c1[j] * H[1][j] + c2[j] * H[2][j] for j in range(n_)])
            if nm == "diff1":
                return A(H[1])
            if nm == "diff2":
                return A(H[2])
            return (A([num(-5), num(-9)]), A([num(1), num(1)]))
        return f
    for nm, names in (("apply", ["f", "coeff0", "coeff1", "coeff2", "parity", "pf"]), ("diff1", ["f", "parity", "pf"]), ("diff2", ["f", "parity", "pf"]), ("solve_eig", ["coeff0", "coeff1", "coeff2", "parity", "pf"])):
        it.overrides[("ext", "stubch." + nm)] = named(nm, names)

    def radial(i, f, a, k):
        i.setattr(a[0], "_hr", A(H[0]))
        return None
    it.overrides[("func", "_get_eigenvalue_and_radial_hough")] = radial


def run(chk):
    chk.rule("operator", "the radial function is an eigenfunction of the tidal operator for the given spin parameter, degree parity and order")
    chk.rule("component", "latitudinal and azimuthal functions follow from the radial one; derivatives are derivatives of the functions published next to them")
    chk.rule("parity", "values on the southern hemisphere continue the northern ones with the parity of the radial function, on one ascending grid")
    chk.rule("eigen", "the radial function is the real, negative-eigenvalue solution nearest to the requested eigenvalue, normalised to unit maximum")
    chk.rule("basis", "collocation matrices hold the basis functions of the stated parity and their first two derivatives")
    chk.rule("collocation", "matrices act as the differential operators with the given coefficients")
    chk.rule("normaliser", "normalisation factors are the reciprocal maximum or the reciprocal root of the integrated square")
    chk.rule("handler", "published names are bound to the functions they name")

    def mk(it, calls, l, m, de):
        setup(it, calls)
        return it.call(getname(it, "hough_function.hough_function", "HoughFunction"), [], {"nu": nu, "l": l, "m": m, "npts": 40, "lmbd": sym("lam"), "definition": de})

    def values(l, m, de):
        it = Interp(REPO, float_syms=True) if False else Interp(REPO)
        calls = []
        o = mk(it, calls, l, m, de)
        it.call(o, [], {})
        sg, sf = INSTR[de]
        tag = f"l={l}, m={m}, {de}"
        par = {(int(c[1].get("parity")), int(c[1].get("pf"))) if isinstance(it.res(c[1].get("parity")), (int, float, Fraction)) else None for c in calls if c[0] != "npts"}
        chk.verdict("operator", f"{tag}: basis parity", par == {((l - m) % 2, m % 2)}, HFM, f"parity flags {par}, expected {((l - m) % 2, m % 2)}")
        eig = [c[1] for c in calls if c[0] == "solve_eig"]
        if len(eig) != 1:
            chk.bad("operator", tag, HFM, "the tidal equation is not solved exactly once")
        else:
            for i in range(n_):
                p = (1 - mu[i] ** 2) / (1 - nu ** 2 * mu[i] ** 2)
                den = 1 - nu ** 2 * mu[i] ** 2
                w = {"coeff2": p, "coeff1": T.diff(p, {mu[i]: num(1)}), "coeff0": nu * m * (1 + nu ** 2 * mu[i] ** 2) / den ** 2 - num(m) ** 2 / (s[i] ** 2 * den)}
                for c, x in w.items():
                    check_eq(chk, "operator", f"{tag}: {c}[{i}]", it.get(it.res(eig[0][c])).data[i], x, HFM, it=it)
        k = l - abs(m)
        NM = {"hr": "hr_range", "ht": "ht_range", "hp": "hp_range", "hrp": "hrp_range", "hrpp": "hrpp_range", "htp": "htp_range", "hpp": "hpp_range", "hrp_theta": "hrp_range_theta", "hrpp_theta": "hrpp_range_theta",
              "htp_theta": "htp_range_theta", "hpp_theta": "hpp_range_theta", "theta_phi": "theta_phi_hough_tilde", "phi_phi": "phi_phi_hough_tilde", "mhr": "hr_range_m"}
        grid = [-mu[0], -mu[1], mu[1], mu[0]]
        g = it.get(it.res(it.getattr(o, "mu_range"))).data
        for j in range(4):
            check_eq(chk, "parity", f"{tag}: mu grid [{j}]", g[j], grid[j], HFM, it=it)
        th = it.get(it.res(it.getattr(o, "thetas_range"))).data
        for j in range(4):
            check_eq(chk, "parity", f"{tag}: theta grid [{j}]", th[j], fn("arccos", grid[j]), HFM, it=it, over={})
        out = {}
        for nm, attr in NM.items():
            v = it.res(it.getattr(o, attr))
            if v is None:
                chk.bad("component", f"{tag}: {nm}", HFM, "not computed")
                continue
            v = it.get(v).data
            if len(v) != 4:
                chk.bad("parity", f"{tag}: {nm}", HFM, f"{len(v)} values on a grid of 4")
                continue
            out[nm] = v
            for j, i in ((3, 0), (2, 1), (0, 0), (1, 1)):
                w = spec(m, i, sg, sf)[nm]
                if j < 2:
                    w = T.subst(w, {mu[i]: -mu[i], **{H[d][i]: num((-1) ** (k + d)) * H[d][i] for d in range(3)}})
                check_eq(chk, "component" if j >= 2 else "parity", f"{tag}: {nm} at {'southern' if j < 2 else 'northern'} point {i}", v[j], w, HFM, it=it)
        chk.saw(it)

    for l, m in LM:
        for de in INSTR:
            chk.guard("component", f"l={l} m={m} {de}", lambda: values(l, m, de), HFM)

    # selection of the solution
    def eigen(tag, vals, lmbd, adj, pick, last):
        it = Interp(REPO)
        setup(it, [])
        del it.overrides[("func", "_get_eigenvalue_and_radial_hough")]
        o = it.call(getname(it, "hough_function.hough_function", "HoughFunction"), [], {"nu": nu, "l": 2, "m": 1, "npts": 40, "lmbd": it.list(list(lmbd)) if isinstance(lmbd, list) else lmbd, "lmbd_adjust": adj, "use_complex": isinstance(lmbd, list)})
        V = [[num(Fraction(3 + 2 * c, 7)), num(Fraction(-1 - c, 3)) * last, num(last * (1 if c % 2 else 2))] for c in range(len(vals))]
        data = [V[c][r] for r in range(3) for c in range(len(vals))]
        it.setattr(o, "_eigvals", it.new(Arr((len(vals),), [T.asterm(num(v.real) + I * num(v.imag)) if isinstance(v, complex) else num(v) for v in vals], "complex")))
        it.setattr(o, "_eigvecs", it.new(Arr((3, len(vals)), data, "complex")))
        it.call(it.getattr(o, "_get_eigenvalue_and_radial_hough"), [], {})
        W = HFM
        check_eq(chk, "eigen", f"{tag}: eigenvalue", it.getattr(o, "_eigenvalue"), num(vals[pick]), W, it=it)
        col = V[pick]
        mx = max(abs(Fraction(T.cval(x))) for x in col)
        sg = -1 if T.cval(col[-1]) < 0 else 1
        hr = it.get(it.res(it.getattr(o, "_hr"))).data
        for r in range(3):
            check_eq(chk, "eigen", f"{tag}: radial function [{r}]", hr[r], num(sg * Fraction(T.cval(col[r])) / mx), W, it=it)
        chk.saw(it)
    sp = [-20, 3, complex(-6, 1), -7, -2, -12]
    for last in (1, -1):
        for tag, lm, adj, pick in (("default eigenvalue", None, True, 3), ("GYRE eigenvalue", Fraction(21, 2), True, 5), ("own eigenvalue", Fraction(-13, 4), False, 4), ("list of eigenvalues", [Fraction(18), Fraction(18)], True, 0),
                                   ("own list", [Fraction(-8)], False, 3), ("between", Fraction(23, 5), True, 3)):
            chk.guard("eigen", f"{tag} {last}", lambda: eigen(f"{tag}, last value {'positive' if last > 0 else 'negative'}", sp, lm, adj, pick, last), HFM)

    # collocation matrices
    def basis(npts):
        it = Interp(REPO)
        it.overrides[("func", "_prepare_full_expansion")] = lambda i, f, a, k: None
        o = it.call(getname(it, "cheby_transform.cheby_transform", "ChebyTransform"), [], {"npts": npts})
        M = npts // 2
        sm = T.Sampler((0, 0))
        ev = lambda x: sm.ev(T.asterm(x))
        nm = f"{npts} points"
        dat = {a: it.get(it.res(it.getattr(o, a))).data for a in ("mu", "s", "theta", "d0", "d1", "d2")}
        sh = {a: it.get(it.res(it.getattr(o, a))).shape for a in ("d0", "d1", "d2")}
        if any(v != (2, 2, M, M) for v in sh.values()) or len(dat["mu"]) != M:
            chk.bad("basis", f"{nm}: sizes", CHM, f"{sh}, {len(dat['mu'])} nodes")
            return
        mp = mpmath
        for i in range(M):
            th = mp.pi * (2 * i + 1) / (4 * M)
            for a, w in (("mu", mp.cos(th)), ("s", mp.sin(th)), ("theta", th)):
                chk.verdict("basis", f"{nm}: {a}[{i}]", T.close(ev(dat[a][i]), w), CHM, f"{ev(dat[a][i])} instead of {w}")
        for par in (0, 1):
            for pf in (0, 1):
                worst = {}
                for i in range(M):
                    th = mp.pi * (2 * i + 1) / (4 * M)
                    c, sn = mp.cos(th), mp.sin(th)
                    for j in range(M):
                        q = 2 * j + par
                        # phi(theta)=cos(q theta) sin^pf; derivatives with respect to mu=cos(theta)
                        f0 = mp.cos(q * th) * sn ** pf
                        f1 = -q * mp.sin(q * th) * sn ** pf + (mp.cos(q * th) * c if pf else 0)
                        f2 = -q * q * mp.cos(q * th) * sn ** pf + (-2 * q * mp.sin(q * th) * c - mp.cos(q * th) * sn if pf else 0)
                        sgn = (-1) ** q
                        want = {"d0": f0, "d1": -f1 / sn, "d2": (f2 / sn - f1 * c / sn ** 2) / sn}
                        for a, w in want.items():
                            g = ev(dat[a][((par * 2 + pf) * M + i) * M + j])
                            if not T.close(g, sgn * w):
                                worst.setdefault(a, f"node {i}, order {q}: {mp.nstr(g, 8)} instead of {mp.nstr(sgn * w, 8)}")
                for a in ("d0", "d1", "d2"):
                    chk.verdict("basis", f"{nm}: {a} parity {par}, factor {pf}", a not in worst, CHM, worst.get(a, ""))
        chk.saw(it)
    for npts in (4, 6, 7, 10):
        chk.guard("basis", f"{npts}", lambda: basis(npts), CHM)

    def colloc():
        it = Interp(REPO)
        src = {}

        def inv(i, a, k):
            m = i.get(i.res(a[0]))
            key = tuple(m.data)
            src[id(key)] = key
            nm = "inv_" + "_".join(show(x, 3) for x in m.data[:1])
            return i.new(Arr(m.shape, [sym(f"{nm}_{j}") for j in range(len(m.data))], "float"))
        it.overrides[("ext", "numpy.linalg.inv")] = inv
        it.overrides[("func", "_prepare_full_expansion")] = lambda i, f, a, k: None
        o = it.call(getname(it, "cheby_transform.cheby_transform", "ChebyTransform"), [], {"npts": 4})
        B = {}
        for a in ("d0", "d1", "d2"):
            B[a] = [sym(f"{a}_{x}") for x in range(16)]
            it.setattr(o, a, it.new(Arr((2, 2, 2, 2), list(B[a]), "float")))
        del it.overrides[("func", "_prepare_full_expansion")]
        it.call(it.getattr(o, "_prepare_full_expansion"), [], {})
        blk = lambda a, p, f, r, c: it.get(it.res(it.getattr(o, a))).data[((p * 2 + f) * 2 + r) * 2 + c]
        for p in (0, 1):
            for f in (0, 1):
                iv = lambda r, c: sym(f"inv_d0_{(p * 2 + f) * 4}_{r * 2 + c}")
                for a in ("d1", "d2"):
                    for r in (0, 1):
                        for c in (0, 1):
                            w = sum((B[a][((p * 2 + f) * 2 + r) * 2 + x] * iv(x, c) for x in (0, 1)), num(0))
                            check_eq(chk, "collocation", f"{a} parity {p} factor {f} [{r},{c}] acts on nodal values", blk(a, p, f, r, c), w, CHM, it=it)
        # application
        for a in ("d1", "d2"):
            it.setattr(o, a, it.new(Arr((2, 2, 2, 2), list(B[a]), "float")))
        A = lambda nm: it.new(Arr((2,), [sym(nm + "0"), sym(nm + "1")], "float"))
        f, c = [sym("f0"), sym("f1")], {x: [sym(f"{x}0"), sym(f"{x}1")] for x in ("c0", "c1", "c2")}
        eig = []
        it.overrides[("ext", "numpy.linalg.eig")] = lambda i, a, k: (eig.append(a[0]), sym("eig"))[1]
        for p in (0, 1):
            for fc in (0, 1):
                dd = lambda a, r, x: B[a][((p * 2 + fc) * 2 + r) * 2 + x]
                ap = lambda a, r: sum((dd(a, r, x) * f[x] for x in (0, 1)), num(0))
                tag = f"parity {p} factor {fc}"
                for nm, got, w in ((f"first derivative, {tag}", it.call(it.getattr(o, "diff1"), [A("f"), p, fc], {}), lambda r: ap("d1", r)),
                                   (f"second derivative, {tag}", it.call(it.getattr(o, "diff2"), [A("f"), p, fc], {}), lambda r: ap("d2", r)),
                                   (f"second-order operator, {tag}", it.call(it.getattr(o, "apply"), [A("f"), A("c0"), A("c1"), A("c2"), p, fc], {}), lambda r: c["c0"][r] * f[r] + c["c1"][r] * ap("d1", r) + c["c2"][r] * ap("d2", r)),
                                   (f"first-order operator, {tag}", it.call(it.getattr(o, "apply"), [A("f"), A("c0"), A("c1"), None, p, fc], {}), lambda r: c["c0"][r] * f[r] + c["c1"][r] * ap("d1", r))):
                    d = it.get(it.res(got)).data
                    for r in (0, 1):
                        check_eq(chk, "collocation", f"{nm} [{r}]", d[r], w(r), CHM, it=it)
                eig.clear()
                it.call(it.getattr(o, "solve_eig"), [A("c0"), A("c1"), A("c2"), p, fc], {})
                d = it.get(it.res(eig[0])).data
                for r in (0, 1):
                    for x in (0, 1):
                        w = c["c1"][r] * dd("d1", r, x) + c["c2"][r] * dd("d2", r, x) + (c["c0"][r] if r == x else 0)
                        check_eq(chk, "collocation", f"eigenproblem, {tag} [{r},{x}]", d[r * 2 + x], w, CHM, it=it)
        chk.saw(it)
    chk.guard("collocation", "matrices", colloc, CHM)

    def norm(proc):
        it = Interp(REPO)
        got = []

        def integ(i, a, k):
            d = {**dict(zip(["method", "double", "y", "x", "threads", "parallel"], a)), **k}
            got.append((a, k))
            return sym("quad", "pos")
        it.overrides[("ext", "num_integrator.libcpp_num_integrator.integrate")] = integ
        hr = it.new(Arr((2,), [sym("h0"), sym("h1")], "float"))
        xm = it.new(Arr((2,), list(mu), "float"))
        c = getname(it, "hough_function.hough_normalizer", "HoughNormalizer")
        try:
            r = it.call(it.getattr(c, "get_norm_factor"), [], {"norm_procedure": proc, "mu": xm, "hr": hr})
        except AbsRaise:
            chk.verdict("normaliser", f"procedure {proc}", proc.lower() not in ("lee2012", "prat2019"), HNM, "refused")
            return
        if proc.lower() == "prat2019":
            check_eq(chk, "normaliser", f"procedure {proc}", r, 1 / T.fn("maximum", T.fn("abs", sym("h0")), T.fn("abs", sym("h1"))), HNM, it=it)
        elif proc.lower() == "lee2012":
            if len(got) != 1:
                chk.undecided("normaliser", f"procedure {proc}", HNM, "quadrature call not recognised")
                return
            y, x = got[0][0][2], got[0][0][3]
            chk.verdict("normaliser", f"procedure {proc}: grid", it.res(x) == xm or list(it.get(it.res(x)).data) == list(mu), HNM, "not integrated over mu")
            for j in range(2):
                check_eq(chk, "normaliser", f"procedure {proc}: integrand [{j}]", it.get(it.res(y)).data[j], sym(f"h{j}") ** 2, HNM, it=it)
            check_eq(chk, "normaliser", f"procedure {proc}", r, 1 / sqrt(2 * PI * sym("quad", "pos")), HNM, it=it)
        else:
            chk.bad("normaliser", f"procedure {proc}", HNM, "accepted")
        chk.saw(it)
    for pr in ("lee2012", "LEE2012", "prat2019", "Prat2019", "townsend"):
        chk.guard("normaliser", pr, lambda: norm(pr), HNM)

    def handler():
        it = Interp(REPO)
        kws = []
        NM = {"hr": "hr_range", "ht": "ht_range", "hp": "hp_range", "theta_der_hr": "hrp_range", "theta_der2_hr": "hrpp_range", "theta_der_ht": "htp_range", "theta_der_hp": "hpp_range", "theta_der_hr_theta": "hrp_range_theta",
              "theta_der2_hr_theta": "hrpp_range_theta", "theta_der_ht_theta": "htp_range_theta", "theta_der_hp_theta": "hpp_range_theta", "theta_phi": "theta_phi_hough_tilde", "phi_phi": "phi_phi_hough_tilde", "mhr": "hr_range_m"}

        def cls(i, f, a, k):
            kws.append({**dict(zip(["nu", "l", "m", "npts", "lmbd", "use_complex", "definition", "lmbd_adjust"], a)), **k})
            m = i.load_file("stub_hf", "stub_hf.py", _ast.parse("import stubhf\nclass HFS:\n    def __call__(self):\n        stubhf.called()\n"))
            o = i.call(i.get(m.env).vars["HFS"], [])
            for x in list(NM.values()) + ["mu_range", "thetas_range"]:
                i.setattr(o, x, sym("attr:" + x))
            return o
        ran = []
        it.overrides[("ext", "stubhf.called")] = lambda i, a, k: ran.append(1)
        it.overrides[("class", "HoughFunction")] = cls
        c = getname(it, "aesolver.angular_integration.rotating_tar_angular.hough_function_handler", "HoughFunctionHandler")
        d, m_, t_ = it.call(it.getattr(c, "get_relevant_hough_output"), [], {"nu": nu, "l": 2, "m": 1, "npts": 100, "lmbd": it.list([sym("lam0"), sym("lam1")]), "use_complex": False, "lmbd_adjust": True, "definition": "lee_saio_equivalent"})
        d = it.get(it.res(d)).d
        for k, a in NM.items():
            check_eq(chk, "handler", k, d.get(k), sym("attr:" + a), HHM, it=it)
        check_eq(chk, "handler", "mu grid", m_, sym("attr:mu_range"), HHM, it=it)
        check_eq(chk, "handler", "theta grid", t_, sym("attr:thetas_range"), HHM, it=it)
        names = list(it.get(it.res(it.call(it.getattr(c, "get_functional_names"), [], {}))).items)
        chk.verdict("handler", "advertised names are the published ones", sorted(names) == sorted(d), HHM, f"{sorted(set(names) ^ set(d))}")
        k = kws[0] if kws else {}
        w = {"nu": nu, "l": 2, "m": 1, "npts": 100, "lmbd": sym("lam0"), "use_complex": False, "definition": "lee_saio_equivalent", "lmbd_adjust": True}
        for x, v in w.items():
            g = it.res(k.get(x))
            chk.verdict("handler", f"constructor argument {x}", g is v or g == v, HHM, f"{g!r} instead of {v!r}")
        chk.verdict("handler", "functions computed before they are read", ran == [1], HHM, "the Hough object is not evaluated once")
        chk.saw(it)
    chk.guard("handler", "output table", handler, HHM)
    chk.floor = 200
