"""Analysed quantities: what the analysis and plotting tools derive from the stored results."""
import ast
from fractions import Fraction
from .common import *
from . import p18

EXPL = ("Abstract interpretation of the complete constructors of the analysis and plotting tools on an abstract result store whose every entry is a symbol (missing values and zeros placed where the solver stores them); each derived "
        "quantity of each triad is compared with its definition as a term.")
TOOLS = {"analyser": ("ae_analyzer.quadratic_stationary_analyzer", "QuadraticAEStationaryAnalyzer", "aesolver/ae_analyzer/quadratic_stationary_analyzer.py"),
         "plotter": ("aeplotter.quadratic_plotter", "QuadraticAEPlotter", "aesolver/aeplotter/quadratic_plotter.py")}
MASKS = {"get_mask_information_triad_counts": 5, "theoretical_plotting_masks_overview": 3, "isolated_non_isolated_stable_valid_masking": 2}
DATA = dict(p18.READ, **p18.OPTIONAL)
# rows: (parametric, direct, kind)
ROWS = [(1, 0, "valid"), (1, 0, "invalid"), (1, 0, "zero"), (0, 1, "valid"), (0, 1, "zero daughter"), (0, 1, "invalid"), (0, 0, "valid"), (1, 0, "valid"), (1, 0, "zero parent"), (1, 0, "zero theory")]
CPD, MU = num(86400), num(10**6)
ZERO = Fraction(0)


def table(tag):
    """one result table: path -> (shape, dtype, cells)"""
    n = len(ROWS)
    S = lambda p, i, j: sym(f"{tag}:{p}[{i},{j}]", "pos" if p in ("surfs", "theoretical_amps", "thresh_amp") else "real")
    out = {}
    for p in ("inert_mode_omegas", "corot_mode_omegas", "inert_mode_freqs", "corot_mode_freqs", "inert_dimless_mode_omegas", "inert_dimless_mode_freqs", "driv_damp_rates"):
        out[p] = ((n, 3), "float", [S(p, i, j) for i in range(n) for j in range(3)])
    for p in ("kappa", "kappa_norm"):
        out[p] = ((n,), "float", [sym(f"{tag}:{p}[{i}]") for i in range(n)])
    out["rad_ord"] = ((n, 3), "int", [x for i in range(n) for x in (-20 - i, -40 - i, -40 - (i if i % 3 == 0 else i + 5))])
    out["checks"] = ((n, 6), "bool", [x for a, b, k in ROWS for x in (bool(a), bool(b), False, bool(a), bool(a), bool(a))])
    su, th, cr, ph = [], [], [], []
    for i, (a, b, k) in enumerate(ROWS):
        for j in range(3):
            zero = k == "zero" or (k == "zero daughter" and j == 2) or (k == "zero parent" and j == 0)
            for l, p in ((su, "surfs"), (th, "theoretical_amps")):
                l.append(T.NAN if k == "invalid" else ZERO if zero or (k == "zero theory" and p == "theoretical_amps" and j == 0) else S(p, i, j))
        cr.append(T.NAN if k == "invalid" else S("thresh_amp", i, 0))
        ph.append(T.NAN if k == "invalid" else sym(f"{tag}:phase[{i}]"))
    out.update(surfs=((n, 3), "float", su), theoretical_amps=((n, 3), "float", th), thresh_amp=((n,), "float", cr), stationary_relative_luminosity_phase=((n,), "float", ph))
    return out


def isnan(i, a, k):
    return i.elementwise(lambda x: T.isnum(x) and T.NAN in T.syms_of(N(i.res(x))), a[0])


def build(tool, masks=None, tags=("f1", "f2"), opts=None, tables=None, mirror=False, prep=None, save=None):
    it = Interp(REPO)
    if prep:
        prep(it)
    disk, v = p18.store(it)
    tabs = tables or {t: table(t) for t in tags}
    for t, tb in tabs.items():
        dd = {}
        for key, (shape, dt, cells) in tb.items():
            a = it.new(Arr(shape, tuple(cells), dt))
            for p in {DATA[key]}:
                dd[p] = it.call(v["Dataset"], [a, None], {})
        at = {"quantum_numbers": it.new(Dict({g: it.new(Arr((3,), tuple(x), "int")) for g, x in (("k", (0, 0, 0)), ("l", (2, 1, 1)), ("m", (2, 1, 1)))}))}
        it.w(it.res(it.getattr(disk, "files"))).d[t] = (it.new(Dict(dd)), it.new(Dict(at)))
    it.overrides[("func", "generate_load_file_path_list")] = lambda i, f, a, k: i.list([i.list([t]) for t in tabs])
    it.overrides[("ext", "numpy.isnan")] = isnan
    if masks is not None:
        for m, n in MASKS.items():
            it.overrides[("func", m)] = lambda i, f, a, k, n=n: tuple(i.new(Arr((len(ROWS),), tuple(masks(j, r) for r in range(len(ROWS))), "bool")) for j in range(n))
        if not mirror:
            it.overrides[("func", "_perform_frequency_mirroring")] = lambda i, f, a, k: None
    mod, cls, w = TOOLS[tool]
    c = getname(it, mod, cls)
    info = it.new(Dict({}))
    if tool == "analyser":
        o = it.call(c, [], dict(load_information=info, analysis_dict=it.new(Dict(opts or {})), save_information=it.new(Dict({})), model_names=it.list(["A", "B"])))
    else:
        sv = dict(save_base_dir="/out", save_dir="sub", extra_specifier_save="x", save_formats=it.list(["png"]), sharpness_save_name="sharp", sharpness_subdir="s1", overview_save_name="over", overview_subdir="s2")
        pl = dict(plot_overview=True, plot_resonance_sharpness=True, plot_coefficient_profile=False, show_plots=False, verbose=False, fig_size=(3, 4), fig_dpi=300)
        pl.update(opts or {})
        sv.update({n: it.list(x) if isinstance(x, list) else x for n, x in (save or {}).items()})
        o = it.call(c, [], dict(load_information=info, plotting_dict=it.new(Dict(pl)), save_information=it.new(Dict(sv))))
    return it, o, tabs, w


def fold(x):
    """amplitudes that were stored as positive numbers are not zero: decide such comparisons"""
    if not isinstance(x, Node):
        return x
    mp = {}
    for c in T.cond_atoms(x)[0]:
        if c.args[0] == "==" and any(T.cval(y) == 0 for y in c.args[1:]) and all(s.args[1] == "pos" for s in T.syms_of(c)) and not c.args[1] is c.args[2]:
            mp[c] = False
    return T.subst(x, mp) if mp else x


def missing(x):
    return isinstance(x, Node) and T.NAN in T.syms_of(x)


def spec(tb, which):
    """name -> (rule, per-triad list of cells); the definitions"""
    n = len(ROWS)
    def col(p):
        shape, _, c = tb[p]
        k = len(c) // n
        return [[N(x) for x in c[i * k:(i + 1) * k]] for i in range(n)]
    om, io, fr, iff, di = col("corot_mode_omegas"), col("inert_mode_omegas"), col("corot_mode_freqs"), col("inert_mode_freqs"), col("inert_dimless_mode_omegas")
    g, su, th, cr = col("driv_damp_rates"), col("surfs"), col("theoretical_amps"), col("thresh_amp")
    ka, kn, ph = col("kappa"), col("kappa_norm"), col("stationary_relative_luminosity_phase")
    out = {}

    def put(rule, nm, f, units=False):
        out[nm] = (rule, [f(i) for i in range(n)])
        if units:
            for u, s in (("cpd", CPD), ("muHz", MU)):
                out[f"{nm}_{u}"] = (rule, [[x * s for x in f(i)] for i in range(n)])
    for nm, q in (("corot_mode_omegas", om), ("inert_mode_omegas", io), ("corot_mode_freqs", fr), ("inert_mode_freqs", iff)):
        out[nm] = ("stored values", q)
        for u, s in (("cpd", CPD), ("muHz", MU)):
            out[f"{nm}_p_{u}"] = ("units", [[r[0] * s] for r in q])
            out[f"{nm}_d_{u}"] = ("units", [[r[1] * s, r[2] * s] for r in q])
    D = lambda i: om[i][0] - om[i][1] - om[i][2]
    G = lambda i: g[i][0] + g[i][1] + g[i][2]
    put("detuning", "linear_omega_diff", lambda i: [D(i)], True)
    rot = lambda i: io[i][1] - om[i][1]
    put("rotation", "rotation_freqs", lambda i: [rot(i)], True)
    put("rotation", "spin_parameters", lambda i: [2 * rot(i) / x for x in om[i]])
    put("rates", "p_driv_rates", lambda i: [g[i][0]], True)
    put("rates", "d_damp_rates", lambda i: g[i][1:], True)
    put("coupling", "abs_kappa", lambda i: [T.fn('abs', ka[i][0])])
    put("coupling", "abs_kappa_norm", lambda i: [T.fn('abs', kn[i][0])])
    put("shifts", "freq_shift_p", lambda i: [-g[i][0] * D(i) / G(i)], True)
    put("shifts", "freq_shift_d", lambda i: [g[i][j] * D(i) / G(i) for j in (1, 2)], True)
    put("shifts", "freq_shift_p_to_omega", lambda i: [-g[i][0] * D(i) / G(i) / io[i][0]])
    put("shifts", "freq_shift_d_to_omega", lambda i: [g[i][j] * D(i) / G(i) / io[i][j] for j in (1, 2)])

    def ratio(a, b, ok):
        return T.NAN if not ok or a is T.NAN or b is T.NAN or T.cval(b) == 0 else a / b

    def rows(i):
        p, d, k = ROWS[i]
        s = su[i]
        if p:
            return [ratio(s[1], s[0], 1), ratio(s[2], s[0], 1)], ratio(s[0], N(0) if T.cval(s[1]) == 0 or T.cval(s[2]) == 0 else s[1] * s[2] if s[1] is not T.NAN else T.NAN, 1)
        if d:
            return [ratio(s[0], s[1], 1), ratio(s[0], s[2], 1)], ratio(s[0], N(0) if T.cval(s[1]) == 0 or T.cval(s[2]) == 0 else s[1] * s[2] if s[1] is not T.NAN else T.NAN, 1)
        return [T.NAN, T.NAN], T.NAN
    put("ratios", "surf_ratio_daughter_parent_OG_SHAPE", lambda i: rows(i)[0])
    put("ratios", "surf_ratio_vb_21", lambda i: [rows(i)[1]])

    def thr(i):
        p, d, k = ROWS[i]
        ok = p and th[i][0] is not T.NAN and T.cval(th[i][0]) != 0
        return [cr[i][0] * su[i][0] / th[i][0] * MU] if ok else [T.NAN]
    put("threshold", "thresh_surf_ppm", thr)
    if which == "analyser":
        put("rates", "p_quality_factors", lambda i: [om[i][0] / g[i][0]])
        put("rates", "gamma_sum_cpd", lambda i: [G(i) * CPD])
        put("rates", "gamma_sum", lambda i: [G(i) * CPD])
        put("estimators", "q", lambda i: [D(i) / G(i)])
        put("estimators", "q1", lambda i: [D(i) / g[i][0]])
        put("estimators", "q3", lambda i: [D(i) / g[i][2]])
        put("estimators", "theta2", lambda i: [-g[i][1] / g[i][0]])
        put("estimators", "theta3", lambda i: [-g[i][2] / g[i][0]])
        put("estimators", "theta23", lambda i: [g[i][1] / g[i][2]])
        sh = lambda i: [-g[i][0] * D(i) / G(i), g[i][1] * D(i) / G(i), g[i][2] * D(i) / G(i)]
        put("shifts", "nonlinear frequency shift/omega inert", lambda i: [a / b for a, b in zip(sh(i), io[i])])
        put("shifts", "nonlinear omegas (c/d)", lambda i: [(a + b) * CPD for a, b in zip(sh(i), io[i])])
        put("shifts", "nonlinear parent omega (c/d)", lambda i: [(sh(i)[0] + io[i][0]) * CPD])
        put("shifts", "nonlinear daughter omega (c/d)", lambda i: [(sh(i)[j] + io[i][j]) * CPD for j in (1, 2)])
        put("shifts", "nonlinear phase", lambda i: ph[i])
    else:
        put("observed frequency", "min_inertial_freq_stack", lambda i: [fn("minimum", fn("minimum", *[(iff[i][j] + (-1 if j == 0 else 1) * g[i][j] * D(i) / G(i) / (2 * PI)) * CPD for j in (0, 1)]), (iff[i][2] + g[i][2] * D(i) / G(i) / (2 * PI)) * CPD)] * 2)
        put("detuning", "resonance_sharpness_factor", lambda i: [D(i) / (g[i][1] + g[i][2])])
        put("units", "dimless_freq_ratio", lambda i: [a / b for a, b in zip(di[i], io[i])])
    for p in ("surfs", "theoretical_amps", "thresh_amp", "driv_damp_rates", "kappa", "kappa_norm", "rad_ord", "stationary_relative_luminosity_phase", "inert_dimless_mode_omegas"):
        out.setdefault(p, ("stored values", col(p)))
    return out, om, D


def run(chk):
    R = chk.rule
    chk.floor = 900
    R("stored values", "deriving quantities leaves the stored results of every triad untouched")
    R("units", "frequencies in cycles per day and in microhertz are the stored ones times 86400 and 10^6")
    R("detuning", "the linear detuning of a triad is Omega1 - Omega2 - Omega3 of its corotating frequencies; relative to the smallest of the three in absolute value, and to the daughters' damping for the resonance sharpness")
    R("rotation", "the rotation frequency is the frame difference of the sectoral m = 1 daughter and the spin parameters are twice that over the corotating frequencies")
    R("rates", "driving, damping and summed rates, and the parent's quality factor, are those of the triad")
    R("coupling", "absolute coupling coefficients are the moduli of the stored ones")
    R("threshold", "the threshold luminosity variation (ppm) of a parametric triad is its threshold amplitude times surface variation over equilibrium amplitude of the parent; no other triad has one")
    R("ratios", "amplitude ratios are damped over driven modes for parametric, driven over damped for direct triads, and missing when a denominator is zero or missing or the triad is neither")
    R("shifts", "nonlinear frequency shifts are -gamma1/gammasum (parent) and +gamma_i/gammasum (daughters) times the detuning, so that the shifted frequencies are exactly locked; nonlinear frequencies are the inertial ones plus the shifts")
    R("estimators", "q = detuning/gammasum, q1 = detuning/gamma1, q3 = detuning/gamma3, theta2 = -gamma2/gamma1, theta3 = -gamma3/gamma1")
    R("observed frequency", "the frequency drawn is the smallest inertial-frame cyclic frequency of the triad including its nonlinear shift; a negative one is marked and reflected into [0, Nyquist] like an alias, for up to four Nyquist zones; positive ones are left")
    chk.guard("observed frequency", "reflection", lambda: mirrored(chk), TOOLS["plotter"][2])
    for tool in TOOLS:
        chk.guard("detuning", tool, lambda: derived(chk, tool), TOOLS[tool][2])


def grid(it, x):
    """cells per triad of a stored array, or None"""
    x = it.res(x)
    if not (isinstance(x, Ref) and isinstance(it.get(x), Arr)):
        return None
    a = it.get(x)
    if not a.shape or a.shape[0] != len(ROWS):
        return None
    k = len(a.data) // len(ROWS)
    return [[it.res(c) for c in a.data[i * k:(i + 1) * k]] for i in range(len(ROWS))]


def derived(chk, tool):
    it, o, tabs, w = build(tool, masks=lambda j, r: (r + j) % 2 == 0)
    chk.saw(it)
    ds = it.iter_items(it.getattr(o, "_list_data_dict"))
    chk.verdict("stored values", f"{tool}: one data set per model", len(ds) == len(tabs), w, f"{len(ds)}")
    for (t, tb), d in zip(tabs.items(), ds):
        dd = it.get(it.res(d)).d
        sp, om, D = spec(tb, tool)
        for nm, (rule, want) in sp.items():
            inst = f"{tool}: {nm} ({t})"
            if nm not in dd:
                if nm in DATA:
                    continue
                chk.undecided(rule, inst, w, "no such quantity")
                continue
            got = grid(it, dd[nm])
            if got is None:
                chk.bad(rule, inst, w, f"not an array over the triads: {it.get(it.res(dd[nm])).shape if isinstance(it.res(dd[nm]), Ref) and isinstance(it.get(it.res(dd[nm])), Arr) else dd[nm]!r}")
                continue
            cmp(chk, rule, inst, got, want, w)
        # the smallest corotating frequency
        nm = "linear_omega_diff_to_min_omega"
        got = grid(it, dd[nm])
        for i in range(len(ROWS)):
            m = fn("minimum", fn("minimum", T.fn("abs", om[i][0]), T.fn("abs", om[i][1])), T.fn("abs", om[i][2]))
            check_eq(chk, "detuning", f"{tool}: {nm} ({t}), triad {i}", got[i][0], D(i) / m, w)
        g = it.get(it.res(dd["surf_ratio_daughter_parent"]))
        want = [sp["surf_ratio_daughter_parent_OG_SHAPE"][1][i][j] for j in (0, 1) for i in range(len(ROWS))]
        cmp(chk, "ratios", f"{tool}: surf_ratio_daughter_parent ({t})", [list(g.data)], [want], w)
        if tool == "plotter":
            ro = tb["rad_ord"][2]
            h = grid(it, dd["harmonic_mask"])
            chk.verdict("stored values", f"{tool}: harmonic triads ({t})", [bool(x[0]) for x in h] == [ro[3 * i + 1] == ro[3 * i + 2] for i in range(len(ROWS))], w, f"{h}")


def cmp(chk, rule, inst, got, want, w):
    for i, (g, x) in enumerate(zip(got, want)):
        nm = f"{inst}, triad {i}" if len(want) > 1 else inst
        if len(g) != len(x):
            chk.bad(rule, nm, w, f"{len(g)} values instead of {len(x)}")
            continue
        bad = None
        for a, b in zip(g, x):
            if not T.isnum(a):
                bad = f"{a!r}"
                break
            a = fold(N(a))
            if missing(N(a)) or missing(N(b)):
                if missing(N(a)) != missing(N(b)):
                    bad = f"{show(N(a))[:200]} instead of {show(N(b))[:200]}"
                    break
            elif not equal(N(a), N(b)):
                bad = f"{show(N(a), 7)[:240]} instead of {show(N(b), 7)[:240]}"
                break
        chk.verdict(rule, nm, bad is None, w, bad or "")


NYQ = Fraction(283, 10**6) * 86400
FREQS = {"f1": [Fraction(5), Fraction(30), Fraction(0), Fraction(-1, 1000), Fraction(-10), Fraction(-30), Fraction(-60), Fraction(-90), -NYQ, Fraction(12)],
         "f2": [-2 * NYQ, -3 * NYQ, Fraction(-24), Fraction(-25), Fraction(-48), Fraction(-50), Fraction(-73), Fraction(-74), Fraction(-97), Fraction(-40)]}


def mirrored(chk):
    w = TOOLS["plotter"][2]
    tabs = {}
    for t, fs in FREQS.items():
        tb = table(t)
        tb["corot_mode_omegas"] = (tb["corot_mode_omegas"][0], "float", [Fraction(x) for i in range(len(ROWS)) for x in (3, 2, 1)])
        tb["driv_damp_rates"] = (tb["driv_damp_rates"][0], "float", [Fraction(x) for i in range(len(ROWS)) for x in (1, -3, -4)])
        cells = []
        for i, f in enumerate(fs):
            row = [Fraction(200), Fraction(300)]
            row.insert(i % 3, f)
            cells += [x / 86400 for x in row]
        tb["inert_mode_freqs"] = (tb["inert_mode_freqs"][0], "float", cells)
        tabs[t] = tb
    it, o, tabs, w = build("plotter", masks=lambda j, r: True, tables=tabs, mirror=True)
    chk.saw(it)
    for (t, fs), d in zip(FREQS.items(), it.iter_items(it.getattr(o, "_list_data_dict"))):
        dd = it.get(it.res(d)).d
        got, neg = grid(it, dd["min_inertial_freq_stack"]), grid(it, dd["neg_mask"])
        for i, f in enumerate(fs):
            r = -f % (2 * NYQ) if f < 0 else None
            want = f if f >= 0 else min(r, 2 * NYQ - r)
            nm = f"plotter: smallest frequency {float(f):g} per day"
            v = [T.cval(N(x)) for x in got[i]]
            chk.verdict("observed frequency", nm, v == [want, want], w, f"drawn at {[show(N(x)) for x in got[i]]} instead of {float(want):g} (Nyquist {float(NYQ):g})")
            chk.verdict("observed frequency", nm + ": marked", all(bool(x) == (f < 0) for x in neg[i]), w, f"{neg[i]}")
