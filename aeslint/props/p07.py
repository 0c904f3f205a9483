"""Coupling coefficients: tensor contraction form."""
from fractions import Fraction
from .common import *

EXPL = ("Value numbering of the coupling-coefficient object from construction on two-point (after cuts) symbolic radial and angular grids: structure profiles, radial eigenfunctions, their gradients and "
        "the divergence; then of the four coefficient terms, in which every quadrature is an arbitrary linear functional, so that equality with the contraction of the displacement-gradient tensors is "
        "equality of the integrands. Hough functions, the mode normaliser and (in numerical mode) the differentiator stay symbolic.")
W = "aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py"
NA_ = 2
HOUGH = ["hr", "ht", "hp", "theta_der_hr", "theta_der_ht", "theta_der_hp", "theta_phi", "phi_phi", "mhr", "theta_der2_hr", "theta_der_hr_theta", "theta_der2_hr_theta", "theta_der_ht_theta", "theta_der_hp_theta"]
XTRA = ["y_3", "y_4"] + [n + e for n in ("xi_r", "xi_h", "eul_phi", "deul_phi", "lag_L", "eul_P", "eul_rho", "eul_T", "lag_P", "lag_rho", "lag_T") for e in ("", "_dim")]


class Setup:
    def __init__(self, polytropic=True, analytic=True, symbolic=True, conj=None, self_coupling=False, cheby=None, meth="trapz", m=(2, 1, 1), gate=True, use_brunt=True, same=False, n=4, sgrid=False, short=False, realnorm=False):
        NR = self.NR = n
        self.poly, self.gate = polytropic, gate
        self.calls = []
        S = self
        ck = "real"

        def integ(i, a, k):
            S.calls.append((a, k))
            meth, _, f, x = a[:4]
            fl, xl = i.res(f), i.res(x)
            fa, xa = i.get(fl).data, i.get(xl).data
            if len(fa) != len(xa):
                raise AbsRaise(("ValueError", "integrand and abscissa of different lengths"), i.where())
            t = num(0)
            for fv, xv in zip(fa, xa):
                t = t + fn("w", xv) * fv
            return t

        def houghs(i, f, a, k):
            k = {**dict(zip(["cls", "nu", "l", "m", "npts", "lmbd", "use_complex", "lmbd_adjust", "definition"], a)), **k}
            lab = i.res(k["l"])
            idx = {"l1": 0, "l2": 1, "l3": 2}[lab.args[0]] if not same else len(S.hcalls) % 3
            S.hcalls.append(k)
            d = {h: i.new(Arr((NA_,), tuple(S.h[h][idx]), "float")) for h in HOUGH}
            return (i.new(Dict(d)), i.new(Arr((NA_,), tuple(S.mu), "float")), i.new(Arr((NA_,), tuple(S.th), "float")))

        def norm(i, f, a, k):
            k = {**dict(zip(["cls", "norm_procedure", "mu", "hr", "nr_omp_threads", "use_parallel"], a)), **k}
            g = len(S.ncalls)
            S.ncalls.append(k)
            return S.hn[g % 3]

        def gnorm(i, f, a, k):
            S.gn = k
            o = i.obj(None, {"normalizing_factors": i.list([num(1)] * 3)}, open=True, label="norm")
            return o
        self.hcalls, self.ncalls, self.acalls = [], [], []

        def angular(i, f, a, k):
            S.acalls.append(dict(k))
            k.update(use_cheby_integration=False, cheby_blow_up_protection=False)      # the Chebyshev quadrature and blow-up guard are not modelled here
            return NOTIMPL
        self.interp_calls = []

        def np_interp(i, a, k):
            x, xp, fp = a[:3]
            X, XP = i.get(i.res(x)).data, i.get(i.res(xp)).data
            if sgrid and fp is getattr(S, 'rawu', None):    # keeps U = 4 pi rho r^3 / M_r between grids
                return i.new(Arr((len(X),), tuple(S.prof["u"]), "float"))
            if len(X) == len(XP) and all(equal(u, v) for u, v in zip(X, XP)):
                return fp
            S.interp_calls.append(a)
            fpd = i.get(i.res(fp)).data
            return i.new(Arr((len(X),), tuple(fn("interp", u, *XP, *fpd) for u in X), "float"))

        def deriv(i, f, a, k):
            self_, x, y = a[0], a[1], a[2]
            X, Y = i.get(i.res(x)).data, i.get(i.res(y)).data
            return (i.list([None, i.new(Arr((len(X),), tuple(fn("ddx", num(j), *X, *Y) for j in range(len(X))), "float"))]), "s")
        it = self.it = Interp(REPO, overrides={
            ("ext", "num_integrator.libcpp_num_integrator.integrate"): integ, ("func", "get_relevant_hough_output"): houghs, ("func", "get_norm_factor"): norm,
            ("func", "quadratic_angular_integral"): angular, ("class", "GYREEigenFunctionNormalizer"): gnorm, ("ext", "numpy.interp"): np_interp, ("func", "differentiate"): deriv})
        if realnorm:
            del it.overrides[("class", "GYREEigenFunctionNormalizer")]
            it.decide_eq = True
        it.float_syms = True
        self.mu = [sym(f"mu{i}", "unit") for i in range(NA_)]
        self.th = [sym(f"th{i}") for i in range(NA_)]
        self.h = {h: [[sym(f"{h}{g if not same else 1}_{i}") for i in range(NA_)] for g in (1, 2, 3)] for h in HOUGH}
        A = lambda v, dt="float": it.new(Arr((len(v),), tuple(v), dt))
        self.hn = [sym(f"hn{g}") if not same else sym("hn") for g in (1, 2, 3)]
        R = range(NR)
        x = self.x = [sym(f"x{i}", "pos") for i in R]
        self.Rs, self.Ms, self.G = sym("Rstar", "pos"), sym("Mstar", "pos"), sym("G", "pos")
        self.ls = [sym(f"l{g}", "nat") for g in (1, 2, 3)]
        self.ms = list(m)
        P = lambda n, kind="pos": [sym(f"{n}{i}", kind) for i in R]
        G3 = (1, 1, 1) if same else (1, 2, 3)
        if same:
            self.ls = [self.ls[0]] * 3
        self.lam = [sym(f"lam{g}") for g in G3]
        self.y1 = [[sym(f"y1_{g}_{i}", ck) for i in R] for g in G3]
        self.y2 = [[sym(f"y2_{g}_{i}", ck) for i in R] for g in G3]
        self.Gam = P("Gam")
        self.om = [sym(f"om{g}", "pos") for g in G3]
        self.corot = [sym(f"corot{g}") for g in (1, 2, 3)]
        self.Om = sym("Om")
        self.prof = {n: P(n, k) for n, k in (("c1", "pos"), ("v2", "pos"), ("as", "real"), ("u", "pos"), ("rho", "pos"), ("p", "pos"), ("mr", "pos"), ("r", "pos"), ("brunt_n2", "real"),
                                             ("drho", "real"), ("drho2", "real"), ("drho3", "real"), ("dp", "real"), ("dp2", "real"), ("dp3", "real"),
                                             ("dgravpot", "real"), ("dgravpot2", "real"), ("dgravpot3", "real"))}
        # U = 4 pi rho r^3 / M_r and c_1 = x^3 M / M_r are not independent
        self.prof["u"] = [4 * PI * self.prof["rho"][i] * self.Rs ** 3 * self.prof["c1"][i] / self.Ms for i in R]
        self.p0, self.rho0 = sym("p0", "pos"), sym("rho0", "pos")
        # structure profiles on their own grid (interpolated) or on the mode grid
        self.prof["r"] = [v * self.Rs for v in x]
        if polytropic:
            if sgrid:
                RS = range(NR + 2)
                xs = [num(Fraction(i + 1, NR + 2)) for i in RS]
                xs[-1] = num(1)
                raw = {k: [sym(f"s{k}{i}", "pos") for i in RS] for k in self.prof}
                raw["r"] = [v * self.Rs for v in xs]
                xn = [v / xs[-1] for v in xs]
                for k in self.prof:
                    self.prof[k] = [fn("interp", u, *xn, *raw[k]) for u in x]
                self.prof["u"] = [4 * PI * self.prof["rho"][i] * self.Rs ** 3 * self.prof["c1"][i] / self.Ms for i in R]
            else:
                raw = self.prof
            prof = {k: A(v) for k, v in raw.items()}
            self.rawu = prof["u"]
            prof.update(p0=self.p0, rho0=self.rho0, G=self.G, n=sym("npoly", "pos"), surfgrav=A(P("sg")), mass=self.Ms, radius=self.Rs)
            # r = x R so that the normalised structure grid is the oscillation grid
            prof["r"] = A(raw["r"])
        else:
            if sgrid:
                RS = range(NR + 2)
                xs = [num(Fraction(i + 1, NR + 2)) for i in RS]
                xs[-1] = num(1)
                raw = [sym(f"sN2{i}") for i in RS]
                prof = {"radius": A([v * self.Rs for v in reversed(xs)]), "brunt_N2": A(list(reversed(raw)))}
                self.prof["brunt_n2"] = [fn("interp", u, *xs, *raw) for u in x]
                raw = [sym(f"sgd{i}") for i in RS]
                prof["gamma_1_adDer"] = A(list(reversed(raw)))
                self.gder = [fn("interp", u, *xs, *raw) for u in x]
            else:
                prof = {"radius": A([v * self.Rs for v in reversed(x)]), "brunt_N2": A(list(reversed(self.prof["brunt_n2"])))}
                self.gder = P("gder", "real")
                prof["gamma_1_adDer"] = A(list(reversed(self.gder)))

        ds = []
        for g in range(3):
            if short is not False and g == short:    # this mode lives on its own, shorter grid
                xq = [sym(f"xq{i}", "pos") for i in range(NR - 1)]
                d = {"n": NR - 1, "x": A(xq), "M_star": self.Ms, "R_star": self.Rs, "lambda": A([self.lam[g]]), "l": self.ls[g], "m": self.ms[g]}
                for nm, yy in (("y_1", self.y1), ("y_2", self.y2)):
                    raw = [sym(f"{nm}_short{i}") for i in range(NR - 1)]
                    d[nm] = A(raw)
                    yy[g] = [fn("interp", u, *xq, *raw) for u in x]
                for n in XTRA:
                    d[n] = A([sym(f"{n}_{g}_{i}") for i in range(NR - 1)])
                ds.append(it.new(Dict(d)))
                continue
            d = {"n": NR, "x": A(x), "y_1": A(self.y1[g], "float"), "y_2": A(self.y2[g], "float"), "M_star": self.Ms, "R_star": self.Rs, "lambda": A([self.lam[g]]),
                 "Gamma_1": A(self.Gam), "l": self.ls[g], "m": self.ms[g]}
            for n in XTRA:
                d[n] = A([sym(f"{n}_{g}_{i}") for i in R])
            d["G"] = self.G
            if not polytropic:
                for n, v in (("c_1", "c1"), ("V_2", "v2"), ("As", "as"), ("U", "u"), ("rho", "rho"), ("P", "p"), ("M_r", "mr")):
                    d[n] = A(self.prof[v])
                d["Omega_rot"] = A(P("Omr"))
            ds.append(it.new(Dict(d)))
        self.fh = it.obj(None, {"dimless_corot_omegas": A(self.om), "spin_factors": A([sym(f"spin{g}") for g in (1, 2, 3)]), "corot_mode_omegas": A(self.corot),
                                "surf_rot_angular_freq": self.Om}, open=True, label="freq handler")
        self.npts = sym("npts", "nat")
        self.nt, self.par = sym("nthr", "nat"), sym("par", "bool")
        kw = dict(first_dict=ds[0], second_dict=ds[1], third_dict=ds[2], additional_profile_information=it.new(Dict(prof)), freq_handler=self.fh,
                  l_list=it.list(list(self.ls)), m_list=it.list(list(m)), polytropic=polytropic, analytic_polytrope=analytic, use_symbolic_derivatives=symbolic, conj_cc=conj,
                  self_coupling=self_coupling, numerical_integration_method=meth, nr_omp_threads=self.nt, use_parallel=self.par, npoints=self.npts, use_brunt_def=use_brunt)
        self.cheby = cheby
        if cheby:
            kw.update({{"use_cheby_integration": "use_cheby_integration"}.get(a, a): b for a, b in cheby.items()})
        self.o = it.call(getname(it, "aesolver.coupling_coefficients", "QCCR"), [], kw)


class Spec:
    """required radial functions and coefficient densities at radial index i (0..NR-1), angular index j."""

    def __init__(self, s, symbolic=True):
        self.s = s
        P = s.prof
        NR = s.NR
        R = range(NR)
        self.z1 = [[s.y1[g][i] * s.x[i] ** (s.ls[g] - 2) * sqrt(4 * PI) for i in R] for g in range(3)]
        self.z2 = [[s.y2[g][i] * s.x[i] ** (s.ls[g] - 2) * sqrt(4 * PI) for i in R] for g in range(3)]
        self.zz = [[self.z2[g][i] / (P["c1"][i] * s.om[g] ** 2) for i in R] for g in range(3)]
        self.vg = [P["v2"][i] * s.x[i] ** 2 / s.Gam[i] for i in R]
        self.div = [[self.vg[i] * (self.z1[g][i] - self.z2[g][i]) for i in R] for g in range(3)]
        if symbolic:
            self.d1 = [[(self.vg[i] - 2) * self.z1[g][i] + (s.lam[g] / (P["c1"][i] * s.om[g] ** 2) - self.vg[i]) * self.z2[g][i] for i in R] for g in range(3)]
            self.d2 = [[(1 - P["as"][i] / (P["c1"][i] * s.om[g] ** 2)) * self.z1[g][i] + (P["as"][i] - 1) / (P["c1"][i] * s.om[g] ** 2) * self.z2[g][i] for i in R] for g in range(3)]
        else:
            C = range(1, NR - 1)
            xs = [s.x[i] for i in C]
            dd = lambda v, i: fn("ddx", num(i - 1), *xs, *[s.x[k] * v[k] for k in C]) if i in C else num(0)
            self.d1 = [[dd(self.z1[g], i) for i in R] for g in range(3)]
            self.d2 = [[dd(self.zz[g], i) for i in R] for g in range(3)]

    def grad(self, g, i, j):
        s, h = self.s, self.s.h
        sn = sqrt(1 - s.mu[j] ** 2)
        H = lambda n: h[n][g][j] * s.hn[g]
        z1, zz, d1, d2 = self.z1[g][i], self.zz[g][i], self.d1[g][i], self.d2[g][i]
        return [[d1 * H("hr"), d2 * H("ht"), I * d2 * H("hp")],
                [z1 * H("theta_der_hr_theta") - zz * H("ht"), z1 * H("hr") + zz * H("theta_der_ht_theta"), I * zz * H("theta_der_hp_theta")],
                [I * (z1 * H("mhr") / sn - zz * H("hp")), I * zz * H("theta_phi") / sn, z1 * H("hr") + zz * H("phi_phi")]]

    def dens(self, k, i, j):
        s, h = self.s, self.s.h
        P = s.prof
        pn = P["p"][i] / s.normP
        r3 = range(3)
        G = [self.grad(g, i, j) for g in r3]
        dv = [self.div[g][i] * h["hr"][g][j] * s.hn[g] for g in r3]
        tr2 = lambda A, B: sum((A[a][b] * B[b][a] for a in r3 for b in r3), num(0))
        tr3 = lambda A, B, C: sum((A[a][b] * B[b][c] * C[c][a] for a in r3 for b in r3 for c in r3), num(0))
        if k == 1:
            t = sum((dv[c] * tr2(G[a], G[b]) for a, b, c in ((0, 1, 2), (0, 2, 1), (1, 2, 0))), num(0))
            return pn * (s.Gam[i] - 1) * t / 2
        if k == 2:
            f = (s.Gam[i] - 1) ** 2
            if getattr(s, "gder", None):
                f = f + P["rho"][i] * s.gder[i]
            return pn * f * dv[0] * dv[1] * dv[2] / 2
        if k == 3:
            return pn * (tr3(G[0], G[1], G[2]) + tr3(G[0], G[2], G[1])) / 2
        r = s.x[i] * s.Rs
        g1, g2, g3 = s.dg[0][i], s.dg[1][i], s.dg[2][i]
        z, zz = self.z1, self.zz
        H = lambda n, g: h[n][g][j] * s.hn[g]
        t = g3 * z[0][i] * z[1][i] * z[2][i] * H("hr", 0) * H("hr", 1) * H("hr", 2)
        for a in r3:
            b, c = [v for v in r3 if v != a]
            t = t + (g2 / r - g1 / r ** 2) * z[a][i] * zz[b][i] * zz[c][i] * H("hr", a) * (H("ht", b) * H("ht", c) - H("hp", b) * H("hp", c))
        return -P["rho"][i] / s.normrho * s.x[i] ** 3 * t / 2

    def total(self, k, idx=None):
        s = self.s
        idx = idx or range(1, s.NR - 1)
        if not s.gate:
            return num(0)
        t = num(0)
        for i in idx:
            for j in range(NA_):
                t = t + fn("w", s.x[i]) * fn("w", s.mu[j]) * s.x[i] ** 2 * self.dens(k, i, j)
        return 2 * PI * t * (s.normP * s.Rs ** 3 if k < 4 else s.normrho * s.Rs ** 6)


def structure(s, symbolic, brunt, analytic):
    """normalisation scales and gravitational derivatives the coefficients must use."""
    it, P = s.it, s.prof
    C = range(1, s.NR - 1)
    if s.poly:
        s.normP, s.normrho = s.p0, s.rho0
    else:
        mx = lambda v: __import__("functools").reduce(lambda a, b: fn("maximum", a, b), [v[i] for i in C])
        s.normP, s.normrho = mx(P["p"]), mx(P["rho"])
    if s.poly and analytic:
        s.dg = [P["dgravpot"], P["dgravpot2"], P["dgravpot3"]]
        return
    r = P["r"]
    dd = lambda v: [fn("ddx", num(i - 1), *[r[k] for k in C], *[v[k] for k in C]) if i in C else num(0) for i in range(s.NR)]
    g = [s.G * P["mr"][i] / r[i] ** 2 for i in range(s.NR)]
    if symbolic:
        rho = P["rho"]
        dr = [rho[i] * (-rho[i] * g[i] / (s.Gam[i] * P["p"][i]) - P["brunt_n2"][i] / g[i]) for i in range(s.NR)] if brunt else dd(rho)
        g2 = [4 * PI * s.G * rho[i] - 2 * g[i] / r[i] for i in range(s.NR)]
        g3 = [4 * PI * s.G * dr[i] - 2 * g2[i] / r[i] + 2 * g[i] / r[i] ** 2 for i in range(s.NR)]
    else:
        g2 = dd(g)
        g3 = dd(g2)
    s.dg = [g, g2, g3]


CONJ = {None: (-1, 1, 1), (True, False, False): (-1, 1, 1), (False, True, False): (1, -1, 1), (False, False, True): (1, 1, -1), (False, True, True): (1, -1, -1), (True, True, False): (-1, -1, 1), (False, False, False): (1, 1, 1)}
CHEBY = {"use_cheby_integration": True, "cheby_order_multiplier": sym("chom", "nat"), "cheby_blow_up_protection": sym("chbp", "bool"), "cheby_blow_up_factor": sym("chbf", "pos")}


def seqof(it, v):
    v = it.res(v)
    return list(v) if isinstance(v, tuple) else list(it.get(v).items)


def eqs(a, b):
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return a == b
    return equal(N(a), N(b))


def settings(chk, s, tag, meth):
    it, bad = s.it, []
    for a, k in s.calls:
        b = dict(zip(("method", "even", "f", "x", "threads", "parallel"), a))
        xl = it.get(it.res(b["x"])).data
        ang = len(xl) == NA_ and all(equal(N(u), v) for u, v in zip(xl, s.mu))
        if b["method"] != meth or (meth == "simpson" and ang and b["even"] is not True) or not eqs(b["threads"], s.nt) or not eqs(b["parallel"], s.par):
            bad.append((b["method"], b["even"], "angular" if ang else "radial", str(b["threads"]), str(b["parallel"])))
    chk.verdict("settings", f"{tag}: {len(s.calls)} quadratures", not bad, W, f"quadrature called with (method, even, grid, threads, parallel) = {bad[:1]}")
    bad = []
    for k in s.acalls:
        want = {"nr_omp_threads": s.nt, "use_parallel": s.par, "num_integ_method": meth, "use_cheby_integration": False, "cheby_order_multiplier": num(4), "cheby_blow_up_protection": False}
        if s.cheby:
            want.update(s.cheby)
        bad += [(n, str(k.get(n))) for n, v in want.items() if not eqs(k.get(n), v)]
    chk.verdict("settings", f"{tag}: {len(s.acalls)} angular integral requests", not bad and bool(s.acalls), W, f"angular integral requested with {bad[:2]}")


def requests(chk, s, tag):
    it, bad = s.it, []
    for g in range(3):
        k = s.hcalls[g]
        want = {"nu": sym(f"spin{g + 1}"), "l": s.ls[g], "m": num(s.ms[g]), "npts": s.npts, "lmbd": s.lam[g], "use_complex": False, "lmbd_adjust": True, "definition": "lee_saio_equivalent"}
        for n, v in want.items():
            x = k.get(n)
            x = it.res(x) if isinstance(x, Ref) else x
            if isinstance(x, Ref):
                d = it.get(x).data
                x = d[0] if len(d) == 1 else None
            if not eqs(x, v):
                bad.append((g + 1, n, str(x)))
        k = s.ncalls[g]
        mu, hr = it.get(it.res(k["mu"])).data, it.get(it.res(k["hr"])).data
        if k["norm_procedure"] != "lee2012" or not all(equal(N(u), v) for u, v in zip(mu, s.mu)) or not all(equal(N(u), v) for u, v in zip(hr, s.h["hr"][g])) or not eqs(k["nr_omp_threads"], s.nt) or not eqs(k["use_parallel"], s.par):
            bad.append((g + 1, "normalisation"))
    if len(s.hcalls) != 3 or len(s.ncalls) != 3:
        bad.append(("number of requests", len(s.hcalls), len(s.ncalls)))
    g = s.gn
    if g.get("norm_convention") != "lee2012" or g.get("nr_modes") != 3:
        bad.append(("radial eigenfunction normaliser", g.get("norm_convention"), g.get("nr_modes")))
    chk.verdict("hough request", f"{tag}: 3 modes", not bad, W, f"unexpected request {bad[:2]}")


def run(chk):
    chk.rule("term", "each of the four terms equals the contraction of the three displacement-gradient tensors over the cut radial and angular grids (zero when the azimuthal rule fails)")
    chk.rule("total", "the coefficient is the sum of its terms, the normed one is divided by the first mode's energy, the dimensionless one is twice the normed one")
    chk.rule("energy", "the mode energy is omega times [2 omega times the kinetic norm + Coriolis contribution]")
    chk.rule("profile", "the cumulative profile at each radius is the coefficient of the star truncated there")
    chk.rule("settings", "every quadrature uses the requested method and threading, on an even angular and an uneven radial grid")
    chk.rule("hough request", "Hough functions and their normalisation are requested for each mode's own degree, order, spin, eigenvalue and resolution")
    cases = []
    for poly, an, symb, br in ((True, True, True, True), (True, True, False, True), (True, False, True, True), (True, False, True, False), (True, False, False, True),
                               (False, False, True, True), (False, False, True, False), (False, False, False, True)):
        cases.append((f"{'polytrope' if poly else 'stellar model'}, {'analytic' if an else 'computed'} profiles, {'symbolic' if symb else 'numerical'} derivatives" + ("" if br else ", density gradient differentiated"),
                      dict(polytropic=poly, analytic=an, symbolic=symb, use_brunt=br)))
    cases.append(("polytrope on its own structure grid, analytic profiles", dict(sgrid=True)))
    cases.append(("polytrope on its own structure grid, computed profiles", dict(sgrid=True, analytic=False)))
    cases.append(("stellar model on its own structure grid", dict(polytropic=False, analytic=False, sgrid=True)))
    cases.append(("second mode on a coarser grid", dict(short=True)))
    cases.append(("self-coupling", dict(self_coupling=True, same=True, m=(0, 0, 0))))
    cases.append(("self-coupling flag off, identical modes", dict(same=True, m=(0, 0, 0))))
    cases.append(("Simpson quadrature", dict(meth="simpson")))
    cases.append(("Chebyshev quadrature", dict(cheby=CHEBY)))
    cases.append(("Chebyshev quadrature, self-coupling", dict(cheby=CHEBY, self_coupling=True, same=True, m=(0, 0, 0))))
    cases.append(("profile", dict(n=5)))
    cases.append(("profile, with progress bar", dict(n=5)))
    for cj, sg in CONJ.items():
        for m in ((2, 1, 1), (1, 2, -1), (1, 3, 2), (3, -1, 4), (-2, 1, 1), (-1, -1, 0), (1, 1, 1)):
            ok = sum(a * b for a, b in zip(sg, m)) == 0
            if ok and m != (2, 1, 1) or (not ok and m in ((1, 1, 1), (-2, 1, 1))):
                cases.append((f"conjugation {cj}, azimuthal orders {m}", dict(conj=cj, m=m, gate=ok)))
    for tag, kw in cases:
        def go():
            s = Setup(**kw)
            it = s.it
            structure(s, kw.get("symbolic", True), kw.get("use_brunt", True), kw.get("analytic", True))
            sp = Spec(s, kw.get("symbolic", True))
            it.call(it.getattr(s.o, "adiabatic_coupling_rot"))
            ct = it.getattr(s.o, "coupling_terms_quadratic")
            if not tag.startswith("conjugation"):
                settings(chk, s, tag, kw.get("meth", "trapz"))
                requests(chk, s, tag)
            if tag.startswith("profile"):
                tot = it.getattr(s.o, "normed_coupling_coefficient")
                E = it.getattr(s.o, "_energy_mode_1")
                it.call(it.getattr(s.o, "adiabatic_coupling_rot_profile"), [], {"progress_bar": True} if "bar" in tag else {})
                pr, pn = (it.get(it.res(it.getattr(s.o, n))).data for n in ("coupling_coefficient_profile", "normed_coupling_coefficient_profile"))
                pk = [it.get(it.res(v)).data for v in seqof(it, it.getattr(s.o, "normed_contributions_coupling_coefficient_profile"))]
                for i in range(s.NR - 2):
                    idx = range(1, i + 2)
                    ws = [sp.total(k, idx) if i else num(0) for k in range(1, 5)]
                    w = ws[0] + ws[1] + ws[2] + ws[3]
                    check_eq(chk, "profile", f"{tag}: radius {i}", pr[i], w, W, it=it, rounds=2)
                    check_eq(chk, "profile", f"{tag}: radius {i}, normed", N(pn[i]) * E, w, W, it=it, rounds=2)
                    for k in range(4):
                        check_eq(chk, "profile", f"{tag}: radius {i}, contribution {k + 1}", N(pk[k][i]) * E, ws[k], W, it=it, rounds=2)
                chk.saw(it)
                return
            full = tag.startswith(("polytrope, ana", "stellar model, computed profiles, symbolic"))
            conjcase = tag.startswith("conjugation")
            tot = num(0)
            for k in range(1, 5):
                w = sp.total(k)
                tot = tot + w
                check_eq(chk, "term", f"{tag}: kappa{k}", it.getitem(ct, k - 1), w, W, it=it, rounds=2)
            if conjcase:
                return
            check_eq(chk, "total", f"{tag}: sum", it.getattr(s.o, "coupling_coefficient"), tot, W, it=it, rounds=2)
            E = []
            for g in range(3):
                kin = cor = num(0)
                for i in range(1, s.NR - 1):
                    for j in range(NA_):
                        w = fn("w", s.x[i]) * fn("w", s.mu[j]) * s.x[i] ** 4 * s.prof["rho"][i] / s.normrho
                        H = lambda n: s.h[n][g][j] * s.hn[g]
                        kin = kin + w * 4 * PI ** 2 * (sp.z1[g][i] ** 2 * H("hr") ** 2 + sp.zz[g][i] ** 2 * (H("ht") ** 2 + H("hp") ** 2))
                        cor = cor + w * 4 * PI ** 2 * sp.zz[g][i] ** 2 * s.mu[j] * H("ht") * H("hp")
                E.append(s.corot[g] * (2 * s.corot[g] * kin + 4 * s.Om * cor) * s.normrho * s.Rs ** 5)
                check_eq(chk, "energy", f"{tag}: mode {g+1}", it.getattr(s.o, f"_energy_mode_{g+1}"), E[g], W, it=it, rounds=2)
            check_eq(chk, "total", f"{tag}: normed", it.getattr(s.o, "normed_coupling_coefficient"), tot / E[0], W, it=it, rounds=2)
            check_eq(chk, "total", f"{tag}: dimensionless", it.getattr(s.o, "eta_lee_coupling_coefficient"), 2 * tot / E[0], W, it=it, rounds=2)
            chk.saw(it)
        chk.guard("term", tag, go, W)
    chk.floor = 40
