"""Stationary three-mode solutions."""
from .common import *

EXPL = ("Value numbering of the three-mode stationary solver from construction to its returned result dictionary, for both the satisfied and the unsatisfied "
        "pre-check branch and for every combination of absent/present inclination and periastron argument; each returned entry is compared with the "
        "closed-form stationary solution of the quadratic amplitude equations.")

MOD = "aesolver.stationary_solving"


def cls(it):
    for nm in ("ThreeModeStationary",):
        m = getmod(it, "aesolver.stationary_solving.three_mode.three_mode_stationary")
        v = it.get(m.env).vars.get(nm, UNDEF)
        if v is not UNDEF:
            return v
    raise Unsupported("stationary solver class not found")


def setup(it):
    s = lambda n, k="pos": sym(n, k)
    Q12, Q13, Q23 = -1 * s("Q12"), -1 * s("Q13"), s("Q23")
    g1, g2, g3 = s("g1"), -1 * s("g2"), -1 * s("g3")
    det = s("det", "real")
    gam = s("gamma", "real")
    arr = lambda *x: it.new(Arr((len(x),), x, "float"))
    fh = it.obj(None, {"quality_factor_products": arr(Q12, Q13, Q23), "driving_rates": arr(g1, g2, g3), "gamma_sum": gam,
                       "get_detunings": Lam(lambda i, a, k: ((det, s("det_in", "real"))))}, open=True, label="fh")
    # detuning accessors return (corotating value + unit, inertial ...)
    it.w(fh).attrs["get_detunings"] = Lam(lambda i, a, k: ((det, "u"), (s("det_in", "real"), "u")))
    eta = s("eta", "complex")
    coupler = it.obj(None, {"eta_lee_coupling_coefficient": eta, "_mu_values": sym("mu", "real", 1),
                            **{f"_hr_mode_{i}": sym(f"hr{i}", "real", 1) for i in (1, 2, 3)},
                            **{f"_m_mode_{i}": sym(f"m{i}", "int") for i in (1, 2, 3)}}, open=True, label="coupler")
    L = [s(f"L{i}", "complex") for i in (1, 2, 3)]
    X = [s(f"X{i}", "complex") for i in (1, 2, 3)]
    tk = [s(f"T{i}", "real") for i in (1, 2, 3)]
    ek = [s(f"E{i}", "real") for i in (1, 2, 3)]
    so = it.obj(None, {"_coupler": coupler, "_lag_var_surf_lum": arr(*L), "_xir_terms_norm": arr(*X), "_tk_disc_integrals": arr(*tk),
                       "_ek_disc_integrals": arr(*ek)}, open=True, label="solver")
    return dict(fh=fh, so=so, coupler=coupler, eta=eta, Q=(Q12, Q13, Q23), g=(g1, g2, g3), det=det, gam=gam, L=L, X=X, tk=tk, ek=ek)


def comp(it, v, i):
    return it.getitem(v, i) if isinstance(it.res(v), Ref) and isinstance(it.get(it.res(v)), (Arr, List)) else None


def run(chk):
    chk.rule("amplitude", "A1^2=(1+q^2)/(4|eta|^2 Q2Q3), A2^2=-(1+q^2)/(4|eta|^2 Q1Q3), A3^2=-(1+q^2)/(4|eta|^2 Q1Q2), Acrit^2=(1+qc^2)/(4|eta|^2 Q2Q3)")
    chk.rule("qfactor", "q=detuning/sum(gamma), qcrit=detuning/(gamma2+gamma3), phase=arctan(-1/q)")
    chk.rule("flux", "flux_i = A_i * |T_i L_i - E_i X_i| * Hough_i(observer)")
    chk.rule("phase", "luminosity phase = relative phase + intrinsic luminosity phases + (m1-m2-m3)*(pi/2 - argument of periastron mod 2 pi)")
    chk.rule("intrinsic phase", "the phases of the disc-integrated luminosity perturbations contribute to the luminosity phase")
    chk.rule("unsatisfied", "failing pre-check: zero amplitudes and fluxes, no phases, not linearly stable")
    chk.rule("passthrough", "linear rates, gamma, detuning, hyperbolicity are reported unchanged")
    for incl in (False, True):
        for peri in (False, True):
            it = Interp(REPO)
            C = cls(it)
            S = setup(it)
            inc, om = sym("inc", "real"), sym("om", "real")
            hyp = sym("hyp", "bool")
            tag = f"inclination={'given' if incl else 'absent'},periastron={'given' if peri else 'absent'}"

            def go():
                o = it.call(C, [], {"precheck_satisfied": True, "freq_handler": S["fh"], "hyperbolic": hyp, "solver_object": S["so"], "nr_modes": 3,
                                    "spin_inclination": inc if incl else None, "periastron_arg": om if peri else None})
                r = Entries(it.get(it.call(o, [], {})).d)
                q = S["det"] / S["gam"]
                qc = S["det"] / (S["g"][1] + S["g"][2])
                e2 = fn("abs", S["eta"]) ** 2
                Q12, Q13, Q23 = S["Q"]
                A = [sqrt((1 + q ** 2) / (4 * e2 * Q23)), sqrt(-1 * (1 + q ** 2) / (4 * e2 * Q13)), sqrt(-1 * (1 + q ** 2) / (4 * e2 * Q12))]
                W = "aesolver/aesolver/stationary_solving/three_mode/three_mode_stationary.py"
                for i in range(3):
                    check_eq(chk, "amplitude", f"A{i+1}[{tag}]", comp(it, r["equilibrium amplitudes"], i), A[i], W, it=it)
                    H = fn("call:scipy.interpolate.splev", fn("cos", inc), fn("call:scipy.interpolate.splrep", sym("mu", "real", 1), sym(f"hr{i+1}", "real", 1))) if incl else num(1)
                    d = S["tk"][i] * S["L"][i] - S["ek"][i] * S["X"][i]
                    check_eq(chk, "flux", f"flux{i+1}[{tag}]", comp(it, r["surface flux variations"], i), A[i] * fn("abs", d) * H, W, it=it)
                check_eq(chk, "amplitude", f"Acrit[{tag}]", r["critical parent amplitude"], sqrt((1 + qc ** 2) / (4 * e2 * Q23)), W, it=it)
                check_eq(chk, "qfactor", f"q[{tag}]", r["q factor"], q, W, it=it)
                check_eq(chk, "qfactor", f"qcrit[{tag}]", r["critical q factor"], qc, W, it=it)
                ph = fn("arctan", -1 / q)
                check_eq(chk, "qfactor", f"relative phase[{tag}]", r["stationary relative phase"], ph, W, it=it)
                D = [S["tk"][i] * S["L"][i] - S["ek"][i] * S["X"][i] for i in range(3)]
                lum = fn("angle", D[0]) - fn("angle", D[1]) - fn("angle", D[2])
                ang = PI / 2 - om
                mod = ang - 2 * PI * fn("floor", ang / (2 * PI))
                az = (sym("m1", "int") - sym("m2", "int") - sym("m3", "int")) * mod if peri else num(0)
                lp = r["stationary relative luminosity phase"]
                if T.isnum(it.res(lp)) and equal(T.asterm(it.res(lp)), ph + az):        # moduli used: the intrinsic phases are missing, everything else is there
                    check_eq(chk, "phase", f"luminosity phase[{tag}]", lp, ph + az, W, it=it)
                    chk.bad("intrinsic phase", f"phase of disc-integrated luminosity[{tag}]", W, "phases of the disc-integrated luminosity perturbations do not enter")
                else:
                    check_eq(chk, "phase", f"luminosity phase[{tag}]", lp, ph + lum + az, W, it=it)
                    chk.ok("intrinsic phase", f"phase of disc-integrated luminosity[{tag}]", W)
                check_eq(chk, "passthrough", f"gamma[{tag}]", r["gamma"], S["gam"], W, it=it)
                check_eq(chk, "passthrough", f"detuning[{tag}]", r["detunings"], S["det"], W, it=it)
                check_eq(chk, "passthrough", f"hyperbolic[{tag}]", r["hyperbolic"], hyp, W, it=it)
                check_eq(chk, "passthrough", f"stable[{tag}]", r["linearly stable"], True, W, it=it)
                for i in range(3):
                    check_eq(chk, "passthrough", f"rate{i+1}[{tag}]", comp(it, r["linear driving rates"], i), S["g"][i], W, it=it)
            chk.guard("amplitude", "solution[" + tag + "]", go)
            chk.saw(it)
    it = Interp(REPO)
    S = setup(it)
    C = cls(it)

    def go2():
        hyp = sym("hyp", "bool")
        W = "aesolver/aesolver/stationary_solving/three_mode/three_mode_stationary.py"
        o = it.call(C, [], {"precheck_satisfied": False, "freq_handler": S["fh"], "hyperbolic": hyp, "solver_object": S["so"]})
        r = Entries(it.get(it.call(o, [], {})).d)
        for k in ("equilibrium amplitudes", "surface flux variations"):
            v = it.get(it.res(r[k])) if isinstance(it.res(r[k]), Ref) else None
            chk.verdict("unsatisfied", f"one of the {k} per mode", getattr(v, "shape", None) == (3,), W, f"shape {getattr(v, 'shape', None)}")
        for i in range(3):
            check_eq(chk, "unsatisfied", f"amplitude{i+1}", comp(it, r["equilibrium amplitudes"], i), num(0), W, it=it)
            check_eq(chk, "unsatisfied", f"flux{i+1}", comp(it, r["surface flux variations"], i), num(0), W, it=it)
        for k in ("critical parent amplitude", "stationary relative phase", "stationary relative luminosity phase"):
            chk.verdict("unsatisfied", k, k in r and r[k] is None, W, f"value {r[k]!r}, expected no value")
        chk.verdict("unsatisfied", "linearly stable", r["linearly stable"] is False, W, "reported stable")
        check_eq(chk, "unsatisfied", "q", r["q factor"], S["det"] / S["gam"], W, it=it)
        check_eq(chk, "unsatisfied", "qcrit", r["critical q factor"], S["det"] / (S["g"][1] + S["g"][2]), W, it=it)
        for i in range(3):
            check_eq(chk, "passthrough", f"rate{i+1} (unsatisfied)", comp(it, r["linear driving rates"], i), S["g"][i], W, it=it)
        check_eq(chk, "passthrough", "gamma (unsatisfied)", r["gamma"], S["gam"], W, it=it)
        check_eq(chk, "passthrough", "detuning (unsatisfied)", r["detunings"], S["det"], W, it=it)
        check_eq(chk, "passthrough", "hyperbolic (unsatisfied)", r["hyperbolic"], hyp, W, it=it)
    chk.guard("unsatisfied", "unsatisfied pre-check", go2)
    chk.saw(it)
    chk.floor = 20
