"""Profile runs: validity zones of the TAR along the radius and the coupling coefficient adjusted to them."""
import itertools
from fractions import Fraction
from .common import *
from . import stubs, p21

EXPL = ("Abstract interpretation of complete profile runs (both solver classes that provide them) on stand-in stars whose grid points are, in every pattern, valid or invalid for the TAR (buoyancy frequency below one, the other or both "
        "frequency scales, or imaginary), with a symbolic coupling-coefficient profile: every curve drawn, every shaded domain, every figure saved and every value printed is compared with its definition as a term.")
SOLVERS = {"profile solver": ("aesolver.solver.quadratic_profile", "QuadraticAEProfileSolver", "aesolver/aesolver/solver/quadratic_profile.py"),
           "general solver": ("aesolver.solver.quadratic_solver", "QuadraticAESolver", "aesolver/aesolver/solver/quadratic_solver.py")}
WT = "aesolver/aesolver/solver/profile_plot_classes/coupling_coefficient_plots/plot_template.py"
WPR = "aesolver/aesolver/solver/profile_print_functions/coupling_coefficient_print_functions.py"
OMEGA, CONV = Fraction(3), Fraction(1, 2)
# |0.1 N| > 2 Omega <=> N > 60; |0.1 conv N| > |omega_i| <=> N > 20 max|omega|
MODES = {"frequencies decide": (Fraction(5), Fraction(-2), Fraction(3)), "rotation decides": (Fraction(1), Fraction(2), Fraction(-1))}
LEVELS = {"frequencies decide": {"-": -1, "0": 10, "r": 80, "v": 150}, "rotation decides": {"-": -1, "0": 10, "f": 50, "v": 150}}


class Figs:
    """the figures of a run: what every pair of axes shows and where the figure is saved"""

    def __init__(self, it):
        self.it, self.axes, self.saved, self.n = it, {}, {}, 0
        it.overrides[("ext", "matplotlib.pyplot.figure")] = self.figure
        it.overrides[("ext", "matplotlib.pyplot.subplots")] = self.unsupported

    def unsupported(self, it, a, k):
        raise Unsupported("figure made by subplots")

    def fz(self, x):
        x = self.it.res(x)
        if isinstance(x, Ref) and isinstance(self.it.get(x), Arr):
            c = self.it.get(x)
            return tuple(self.it.res(y) for y in c.data)
        if isinstance(x, Ref) and isinstance(self.it.get(x), List):
            return tuple(self.it.res(y) for y in self.it.get(x).items)
        return x

    def figure(self, it, a, k):
        self.n += 1
        f = self.n
        self.axes[f] = []
        made = it.list([])

        def axes_(i, a, k):
            rec = dict(lines=[], shade=[], ylabel=None, twin=[])
            self.axes[f].append(rec)
            ax = i.obj(None, {}, open=True, label=f"axes {len(self.axes[f])}")

            def plot(i, a, k):
                rec["lines"].append((self.fz(a[0]), self.fz(a[1]), self.fz(k.get("label"))))
                return i.list([fn("handle", str(f), str(len(rec["lines"])))])
            tw = i.obj(None, {"plot": Lam(lambda i, a, k: rec["twin"].append((self.fz(a[0]), self.fz(a[1]))))}, open=True, label="second axes")
            i.w(ax).attrs.update(plot=Lam(plot), fill_between=Lam(lambda i, a, k: rec["shade"].append((self.fz(a[0]), self.fz(k.get("where"))))),
                                 set_title=Lam(lambda i, a, k: rec.update(title=self.fz(a[0] if a else k.get("label")))), set_ylabel=Lam(lambda i, a, k: rec.update(ylabel=self.fz(a[0] if a else k.get("ylabel")))), twinx=Lam(lambda i, a, k: tw))
            i.w(made).items.append(ax)
            return ax
        leg = Lam(lambda i, a, k: self.axes[f].append(dict(legend=(self.fz(k.get("handles")), self.fz(k.get("labels"))))))
        def grid(i, a, k):
            nr, nc = (list(a) + [k.get("nrows"), k.get("ncols")])[:2] if len(a) >= 2 else (k.get("nrows", 1), k.get("ncols", 1))

            def sub(i, a, k):
                l = [axes_(i, [], {}) for _ in range(int(nr) * int(nc))]
                return l[0] if len(l) == 1 else i.list(l)
            return i.obj(None, {"subplots": Lam(sub)}, open=True, label="grid")
        fig = it.obj(None, {"add_subplot": Lam(axes_), "add_gridspec": Lam(grid), "legend": leg, "axes": made, "savefig": Lam(lambda i, a, k: self.saved.setdefault(str(self.fz(a[0] if a else k.get("fname"))), []).append((f, k.get("format"))))}, open=True, label=f"figure {f}")
        return fig


def lv(pattern, cfg):
    return [LEVELS[cfg][c] for c in pattern]


def prun(solver, cfg, pattern, prep=None, quality=(50, -40, 30), ys=None, same=False, kernels=False, terms=True, hyper0=None, figs_cls=None):
    mod, cls, w = SOLVERS[solver]
    it = Interp(REPO)
    stubs.install(it, ["x"], "/cwd", [])

    n = len(pattern)
    N2 = [Fraction(x * abs(x)) for x in lv(pattern, cfg)]
    ys = ys or [sym(f"eta[{i}]") for i in range(n)]
    cs = [[sym(f"eta{c}[{i}]") for i in range(n)] for c in range(1, 5)]
    xs = [sym(f"r[{i}]") for i in range(n)]
    A = lambda l, d="float": it.new(Arr((len(l),), tuple(l), d))
    it.overrides[("ext", "numpy.sqrt")] = root
    fh = it.obj(None, dict(_quality_factors=A([Fraction(q) for q in quality]), quality_factors=A([Fraction(q) for q in quality]), surf_rot_angular_freq_rps=OMEGA, angular_conv_factor_from_rps=CONV, _corot_mode_omegas=A(list(MODES[cfg])),
                           corot_mode_omegas=A(list(MODES[cfg])), driving_rates=A([sym(f"gamma{i}") for i in (1, 2, 3)]), q_factor=sym("q")), label="frequency handler")
    cp = it.obj(None, dict(_freq_handler=fh, freq_handler=fh, _brunt_N2_profile=A(N2), _x=A(xs), x=A(xs), normed_coupling_coefficient_profile=A(ys), normed_contributions_coupling_coefficient_profile=tuple(A(c) for c in cs),
                           adiabatic_coupling_rot_profile=Lam(lambda i, a, k: i.w(st).attrs.update(done=True))), label="coupler")
    st = it.obj(None, dict(done=False))
    gy = [dict(l=2, m=2, n_pg=-20), dict(l=1, m=1, n_pg=-40), dict(l=1, m=1, n_pg=-40 if same else -41)]
    c = getname(it, mod, cls)
    sel = dict(parent_n=-20, daughter_1_n=-40, daughter_2_n=-40 if same else -41, mode_l=it.list([2, 1, 1]), mode_m=it.list([2, 1, 1]))
    o = it.obj(c, dict(_coupler=None, _freq_handler=None, _coupling_profile=None, _cc_profile_selection_dict=it.new(Dict(sel)), _save_name="trial", _view_term_by_term=terms, _view_kernels=kernels, _rot_pct=30, _display_progress_bars=False,
                       _info_dict_info_dirs=it.new(Dict(dict(mesa_profile_substrings=it.list(["a", "b", "c"])))), _hyperbolicity_info=it.list([hyper0 or sym("hyper0", "bool")]), _rad_tup_profile=(-20, -40, -40 if same else -41),
                       _gyre_ad=it.list([it.new(Dict(g)) for g in gy]), _polytrope_comp=False), label="solver")

    def triad(i, f, a, k):
        i.w(o).attrs.update(_coupler=cp, _freq_handler=fh)
        return True
    it.overrides[("func", "compute_coupling_one_triad")] = triad
    stat = dict({"equilibrium amplitudes": A([sym(f"amp{i}", "pos") for i in (1, 2, 3)]), "critical parent amplitude": sym("acrit", "pos"), "surface flux variations": A([sym(f"flux{i}", "pos") for i in (1, 2, 3)])})
    asked = []

    def three(i, c, a, k):
        asked.append((a, k))
        return Lam(lambda i, a, k: i.new(Dict(dict(stat))))
    it.overrides[("class", "ThreeModeStationary")] = three
    jac = []
    it.overrides[("func", "check_hyperbolicity_of_fp")] = lambda i, f, a, k: (jac.append(i.res((a + list(k.values()))[0])), sym("hyper adjusted", "bool"))[1]
    out = []
    it.overrides[("ext", "builtins.print")] = lambda i, a, k: out.append([y for x in a for y in p21.flat(i, x if isinstance(x, str) else i.payload(x))])
    it.overrides[("ext", "builtins.type")] = lambda i, a, k: "type"
    figs = (figs_cls or Figs)(it)
    if prep:
        prep(it, o, cp)
    exits = None
    try:
        it.call(it.getattr(o, "compute_mode_triad_profile"), [], {} if solver == "profile solver" else dict(view_term_by_term=terms, view_kernels=kernels))
    except AbsRaise as e:
        exits = e
    return dict(it=it, o=o, w=w, figs=figs, out=out, jac=jac, ys=ys, cs=cs, xs=xs, fh=fh, exits=exits, asked=asked, n=n, coupler=cp, N2=N2)


def root(it, a, k):
    """square roots of the sampled numbers; those of negative numbers are missing values"""
    def one(x):
        x = it.res(x)
        v = T.cval(N(x)) if T.isnum(x) and not T.syms_of(N(x)) else None
        if v is None:
            return T.sqrt(N(x))
        if v < 0:
            return T.NAN
        return T.sqrt(N(x))
    return it.elementwise(one, a[0])


def adjusted(y, valid):
    out = [N(y[0])]
    for j in range(len(y) - 1):
        out.append(out[-1] + (N(y[j + 1]) - N(y[j])) if valid[j] else out[-1])
    return out


def run(chk):
    tier = chk.tier
    R = chk.rule
    R("adjusted profile", "the adjusted profile drawn accumulates exactly the increments of the profile that start at TAR-valid grid points (zero curve if no point is valid), for the coefficient and each of its four contributions")
    R("drawn profile", "the unadjusted profile, the shaded TAR-valid domain and the buoyancy profile are drawn against the fractional radius")
    R("adjusted coefficient", "the printed coefficient is the last value of the profile and the adjusted one the last value of the adjusted profile; the printed zone contributions are the increments over each invalid zone")
    R("adjusted predictions", "amplitudes, threshold and luminosity fluctuations printed after adjustment are those of the adjusted coefficient (they scale with the inverse of its magnitude), in parts per million; hyperbolicity is judged again with the adjusted coefficient")
    R("refusal", "a triad whose quality factors do not all exceed ten in magnitude is refused; a valid triad is not")
    R("figures saved", "every figure is saved once under a name of its own that identifies run, radial orders, degrees and azimuthal orders")
    for s in SOLVERS:
        todo = [("frequencies decide", "".join(p)) for n in ((5,) if tier == "quick" else (4, 5, 6)) for p in itertools.product("0v", repeat=n)]
        if s != "profile solver" and tier == "quick":
            todo = [x for x in todo if x[1].count("v") in (0, 2, 5)]
        for cfg in MODES:
            todo += [(cfg, "".join(p)) for p in itertools.product(LEVELS[cfg], repeat=3)]
        seen = set()
        for cfg, pat in todo:
            if (cfg, pat) in seen:
                continue
            seen.add((cfg, pat))
            chk.guard("adjusted profile", f"{s}: {cfg}, {pat}", lambda: one(chk, s, cfg, pat), SOLVERS[s][2])
        for q, ok in (((50, 40, 30), True), ((50, -40, -30), True), ((11, -11, -11), True), ((50, 9, 30), False), ((50, -40, -9), False), ((9, 40, 30), False), ((5, -4, -3), False)):
            def refuse():
                r = prun(s, "frequencies decide", "0v0vv", quality=q)
                e = r["exits"]
                ref = e is not None and not is_exit(r, e)
                chk.verdict("refusal", f"{s}: quality factors {q}", ref == (not ok), r["w"], f"{'refused' if ref else 'accepted'} ({e.exc if e else ''})")
            chk.guard("refusal", f"{s}: quality factors {q}", refuse, SOLVERS[s][2])
        for same in (False, True):
            chk.guard("adjusted predictions", f"{s}: {'equal' if same else 'distinct'} daughters", lambda: predictions(chk, s, same), WPR)
    chk.floor = 900


def is_exit(r, e):
    x = e.exc
    nm = str(x)
    return "SystemExit" in nm


def one(chk, s, cfg, pat):
    r = prun(s, cfg, pat)
    it, figs, n, w = r["it"], r["figs"], r["n"], r["w"]
    chk.saw(it)
    inst = f"{s}: {cfg}, {pat}"
    valid = [c == "v" for c in pat]
    e = r["exits"]
    if e is not None and not is_exit(r, e):
        if any(valid):
            chk.bad("refusal", inst, e.where or w, f"the run is refused: {e.exc!r}"[:300])
        else:
            chk.ok("refusal", inst, w)      # no valid point: a refusal is acceptable
        return
    want = [("the coefficient", r["ys"])] + [(f"contribution {i + 1}", c) for i, c in enumerate(r["cs"])]
    zero = [num(0)] * n
    raw, adj, shade = {}, {}, []
    wrongx = 0
    eq = lambda g, x: len(g) == len(x) and all(T.isnum(p) and equal(T.asterm(p), T.asterm(q)) for p, q in zip(g, x))
    for f, axs in figs.axes.items():
        for rec in axs:
            if "legend" in rec:
                continue
            shade += rec["shade"]
            for x, y, lab in rec["lines"]:
                wrongx += not eq(x, r["xs"])
                for nm, q in want:
                    if eq(y, q):
                        raw.setdefault(nm, []).append(rec)
    for nm, q in want:
        a = adjusted(q, valid) if any(valid) else zero
        cand = [(rec, y) for axs in figs.axes.values() for rec in axs if "legend" not in rec for x, y, lab in rec["lines"] if T.isnum(rec["ylabel"]) is False and "adj" in str(rec["ylabel"])]
        k = 0 if nm == "the coefficient" else int(nm[-1])
        cand = [(rec, y) for rec, y in cand if (len(rec["lines"]) == 1) == (k == 0)]
        mine = cand[0] if k == 0 and len(cand) == 1 else cand[k - 1] if k and len(cand) == 4 else None
        if mine is None:
            chk.undecided("adjusted profile", f"{inst}: {nm}", w, f"{len(cand)} adjusted curves")
            continue
        good = eq(mine[1], a)
        bad = next((i for i, (g, x) in enumerate(zip(mine[1], a)) if not (T.isnum(g) and equal(T.asterm(g), x))), None)
        chk.verdict("adjusted profile", f"{inst}: {nm}", good, WT, f"point {bad}: {show(T.asterm(mine[1][bad]), 6)[:160] if bad is not None and T.isnum(mine[1][bad]) else mine[1]} instead of {show(a[bad or 0], 6)[:160]}")
        chk.verdict("drawn profile", f"{inst}: {nm}", bool(raw.get(nm)) or all(valid), WT, "the unadjusted curve is not drawn")
    chk.verdict("drawn profile", f"{inst}: abscissae", wrongx == 0, WT, f"{wrongx} curves are not drawn against the fractional radius")
    sh = [tuple(x) if isinstance(x, tuple) else x for _, x in shade]
    chk.verdict("drawn profile", f"{inst}: shaded domain", bool(sh) and all(isinstance(x, tuple) and [bool(y) for y in x] == valid for x in sh), WT, f"{sh[:2]}")
    tw = [y for axs in figs.axes.values() for rec in axs if "twin" in rec for x, y in rec["twin"]]
    chk.verdict("drawn profile", f"{inst}: buoyancy", bool(tw) and all(eq(y, r["N2"]) for y in tw), WT, "not the buoyancy profile")
    # printed
    last = [adjusted(q, valid)[-1] for _, q in want]
    zones, cur = [], None
    for j, v in enumerate(valid):
        if not v:
            if cur is None:
                cur = len(zones)
                zones.append([j, j])
            zones[cur][1] = min(j + 1, n - 1)
        else:
            cur = None
    for i, (nm, q) in enumerate(want):
        nth = [None, "first", "second", "third", "fourth"][i]
        pr = line(r["out"], "normed coupling coefficient eta:" if i == 0 else f"{nth} normed coupling coefficient", ())
        if pr is None or len(pr) != 2:
            chk.undecided("adjusted coefficient", f"{inst}: {nm}", WPR, f"printed values: {pr}")
            continue
        check_eq(chk, "adjusted coefficient", f"{inst}: {nm}", pr[0], N(q[-1]), WPR)
        check_eq(chk, "adjusted coefficient", f"{inst}: {nm}, adjusted", pr[1], last[i], WPR)
        zp = line(r["out"], "contributions to the normed coupling coefficient due" if i == 0 else f"contributions to the {nth} normed", ())
        if zp is None:
            chk.undecided("adjusted coefficient", f"{inst}: zones of {nm}", WPR, "no line")
            continue
        got = [y for x in zp for y in values(it, x)]
        z = [N(q[b]) - N(q[a]) for a, b in zones]
        same = len(got) == len(z) and all(equal(T.asterm(g), x) for g, x in zip(got, z)) or (not z and all(T.isnum(g) and equal(T.asterm(g), num(0)) for g in got))
        chk.verdict("adjusted coefficient", f"{inst}: zones of {nm}", same, WPR, f"{[show(T.asterm(g), 5)[:60] for g in got if T.isnum(g)]} for zones {zones}")
    # saved
    sv = figs.saved
    names = [p.rsplit("/", 1)[-1] for p in sv]
    ok = len(sv) >= 3 and all(len(v) == 1 for v in sv.values()) and len({v[0][0] for v in sv.values()}) == len(sv) == len(figs.axes)
    chk.verdict("figures saved", f"{inst}: one file per figure", ok, w, f"{sv}")
    chk.verdict("figures saved", f"{inst}: names", all("trial" in x and "n-20_-40_-41" in x and "l2_1_1" in x and "m2_1_1" in x for x in names) and len(set(sv)) == len(sv), w, f"{names}")
    chk.verdict("figures saved", f"{inst}: directory", all("/a/b/" in p and "rot_30" in p for p in sv), w, f"{list(sv)}")


def values(it, x):
    x = it.res(x)
    if isinstance(x, Ref) and isinstance(it.get(x), List):
        return [y for z in it.get(x).items for y in values(it, z)]
    if isinstance(x, Ref) and isinstance(it.get(x), Arr):
        return list(it.get(x).data)
    if isinstance(x, tuple) and x and x[0] == "arr":
        return list(x[2:])
    if isinstance(x, tuple) and x and x[0] in ("list", "tuple"):
        return [y for z in x[1:] for y in values(it, z)]
    return [x]


def line(out, start, more):
    hit = []
    for l in out:
        txt = " ".join("".join(x if isinstance(x, str) else "\0" for x in l).lower().split())
        if txt.startswith(start) and all(m in txt for m in more):
            hit.append([x for x in l if not isinstance(x, str)])
    return hit[0] if len(hit) == 1 else None


def predictions(chk, s, same):
    r = prun(s, "frequencies decide", "0v0vv", same=same)
    it, w = r["it"], r["w"]
    if r["exits"] is not None and not is_exit(r, r["exits"]):
        raise r["exits"]
    nm = f"{s}: {'equal' if same else 'distinct'} daughters"
    valid = [c == "v" for c in "0v0vv"]
    ad = adjusted(r["ys"], valid)[-1]
    ratio = fn("abs", ad / N(r["ys"][-1]))
    amp, flux, ac = [sym(f"amp{i}", "pos") for i in (1, 2, 3)], [sym(f"flux{i}", "pos") for i in (1, 2, 3)], sym("acrit", "pos")
    M = num(10 ** 6)
    cases = [("stationary amplitudes", "stationary amplitudes", [x * M for x in amp]), ("threshold amplitude", "parent threshold amplitude", [ac * M]),
             ("luminosity fluctuations", "surface luminosity", [x * M for x in flux]), ("threshold luminosity fluctuation", "parent threshold luminosity", [ac * flux[0] / amp[0] * M])]
    for what, start, q in cases:
        pr = line(r["out"], start, ())
        if pr is None or len(pr) != 2:
            chk.undecided("adjusted predictions", f"{nm}: {what}", WPR, f"printed values {pr}")
            continue
        for lab, g, x in (("", pr[0], q), (", adjusted", pr[1], [y / ratio for y in q])):
            gv = values(it, g)
            if len(gv) != len(x):
                chk.bad("adjusted predictions", f"{nm}: {what}{lab}", WPR, f"{len(gv)} values instead of {len(x)}")
                continue
            for j, (a, b) in enumerate(zip(gv, x)):
                check_eq(chk, "adjusted predictions", f"{nm}: {what}{lab} [{j}]", a, b, WPR)
    # hyperbolicity
    pr = line(r["out"], "hyperbolicity check", ())
    ok = pr is not None and len(pr) == 2 and pr[0] is sym("hyper0", "bool") and pr[1] is sym("hyper adjusted", "bool")
    chk.verdict("adjusted predictions", f"{nm}: hyperbolicity verdicts printed", ok, WPR, f"{pr}")
    fname = "hyper_jac_three" if same else "hyper_jac"
    f = getname(it, "aesolver.stability_checker", fname)
    A = lambda l: it.new(Arr((len(l),), tuple(l), "float"))
    want = it.get(it.res(it.call(f, [A([sym(f"gamma{i}") for i in (1, 2, 3)]), A(list(MODES["frequencies decide"])), sym("q"), ad], {})))
    if len(r["jac"]) != 1:
        chk.bad("adjusted predictions", f"{nm}: hyperbolicity judged", WPR, f"{len(r['jac'])} Jacobians judged")
        return
    got = it.get(r["jac"][0])
    if not isinstance(got, Arr) or got.shape != want.shape:
        chk.bad("adjusted predictions", f"{nm}: Jacobian", WPR, f"shape {getattr(got, 'shape', None)}")
        return
    for j, (a, b) in enumerate(zip(got.data, want.data)):
        check_eq(chk, "adjusted predictions", f"{nm}: Jacobian of the adjusted coefficient [{j}]", a, T.asterm(it.res(b)), WPR)
    # the stationary solution is asked for this run's frequencies and verdict
    a, k = r["asked"][0] if len(r["asked"]) == 1 else ([], {})
    al = list(a) + list(k.values())
    chk.verdict("adjusted predictions", f"{nm}: stationary solution of this run", len(r["asked"]) == 1 and any(x == r["fh"] for x in al) and any(x is sym("hyper0", "bool") for x in al), w, "other frequencies or verdict")
