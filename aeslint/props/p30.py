"""Debug record of a coupling coefficient."""
import re
from . import p07
from .common import *

EXPL = ("Value numbering of the coupling-coefficient object with and without the debug request, from construction on eight-point symbolic radial grids and a four-point angular grid to the call that hands "
        "the record to the pretty printer; each reported extreme is compared as the maximum (minimum) over the set of values the named quantity has, from a specification written for the quantity and not for its storage.")
W = "aesolver/aesolver/coupling_coefficients/coefficient_support_classes/super_coupling_coefficients.py"
WQ = "aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py"
NR, NANG = 8, 4
RES = ("coupling_coefficient", "normed_coupling_coefficient", "eta_lee_coupling_coefficient", "_energy_mode_1", "_energy_mode_2", "_energy_mode_3")


def leaves(t, f):
    if hasattr(t, "op") and t.op == "fn" and t.args and t.args[0] == f:
        return [l for a in t.args[1:] for l in leaves(a, f)]
    if getattr(t, "op", None) == f:
        return [l for a in t.args for l in leaves(a, f)]
    return [t]


def same_set(a, b):
    a, b = list(a), list(b)
    for u in a:
        if not any(equal(N(u), N(v)) for v in b):
            return False
    return all(any(equal(N(u), N(v)) for u in a) for v in b)


def spec(s, sp, kw):
    """name in the record -> admissible value sequences (before and after the surface and central points are dropped)."""
    P, R = s.prof, range(NR)
    out = {}

    def put(name, v, cut=True):
        out.setdefault(name, []).append(list(v))
        if cut:
            out[name].append(list(v[1:-1]))
    for g in range(3):
        e = f"_mode_{g + 1}_max_min"
        put("_y_1" + e, s.y1[g])
        put("_y_2" + e, s.y2[g])
        if s.poly:
            put("_x" + e, s.x)
        put("_lambda" + e, [s.lam[g]], False)
        for n in p07.XTRA:
            raw = [sym(f"{n}_{g}_{i}") for i in R]
            if kw.get("short", 0) == g > 0:
                raw = [fn("interp", u, *[sym(f"xq{i}", "pos") for i in range(NR - 1)], *raw[:-1]) for u in s.x]
            put(f"_{n}{e}", raw)
        for n, v in (("z_1", sp.z1[g]), ("z_2", sp.z2[g]), ("x_z_1", [s.x[i] * sp.z1[g][i] for i in R]), ("z_2_over_c_1_omega", sp.zz[g]), ("x_z_2_over_c_1_omega", [s.x[i] * sp.zz[g][i] for i in R]),
                     ("rad_der_x_z_1", sp.d1[g]), ("rad_der_x_z_2_c_1_omega", sp.d2[g]), ("rad_diverg", sp.div[g])):
            put(f"_{n}{e}", v)
        for h in p07.HOUGH:
            put(f"_{h}{e}", s.h[h][g], False)
            put(f"_{h}{e}_normed", [v * s.hn[g] for v in s.h[h][g]], False)
    put("_mu_values_max_min", s.mu, False)
    put("_theta_values_max_min", s.th, False)
    put("_Gamma_1_max_min", s.Gam)
    an = kw.get("analytic", True)
    po = "_poly" if s.poly else ""
    pa = "_poly" if s.poly and an else ""
    for n, k in (("c_1", "c1"), ("V_2", "v2"), ("As", "as"), ("U", "u")):
        put(f"_{n}_max_min{po}", P[k])
    put(f"_mr_profile_max_min_poly" if s.poly else "_M_r_max_min", P["mr"])
    if not s.poly:
        put("_x_max_min", s.x)
    pn, rn = ("p_profile", "rho_profile") if s.poly else ("P", "rho")
    put(f"_{pn}_max_min{pa}", P["p"])
    put(f"_{rn}_max_min{pa}", P["rho"])
    put(f"_{pn}_max_min_normed{pa}", [v / s.normP for v in P["p"]])
    put(f"_{rn}_max_min_normed{pa}", [v / s.normrho for v in P["rho"]])
    for n, v in zip(("dgravpot", "dgravpot2", "dgravpot3"), s.dg):
        put(f"_{n}_max_min{pa}", v)
    if pa:
        for n, k, d in (("drho", "drho", s.normrho), ("drho2", "drho2", s.normrho), ("drho3", "drho3", s.normrho), ("dP", "dp", s.normP), ("dP2", "dp2", s.normP), ("dP3", "dp3", s.normP)):
            put(f"_{n}_max_min_poly", P[k])
            put(f"_{n}_max_min_normed_poly", [v / d for v in P[k]])
    return out


def build(kw, debug):
    shown = []
    s = p07.Setup(n=NR, cheby={"store_debug": debug} if debug is not None else None, **kw)
    it = s.it

    def pp(i, a, k):
        o = i.get(i.res(a[0]))
        shown.append({k: i.res(v) for k, v in o.d.items()})
    it.overrides[("ext", "pprint.pprint")] = pp
    p07.structure(s, kw.get("symbolic", True), kw.get("use_brunt", True), kw.get("analytic", True))
    it.call(it.getattr(s.o, "adiabatic_coupling_rot"))
    return s, shown


def run(chk):
    chk.rule("extreme", "each reported quantity's maximum, minimum, three innermost and three outermost values are those of the quantity it is named after")
    chk.rule("reported", "every quantity the computation uses is in the record")
    chk.rule("results", "the coefficient, its terms, its normalised forms and the mode energies are the same with and without the record")
    chk.rule("silence", "without the request nothing is recorded or printed")
    p07.NA_ = NANG
    for tag, kw in (("polytrope, analytic profiles", {}), ("polytrope, computed profiles", dict(analytic=False)), ("polytrope, numerical derivatives", dict(symbolic=False)),
                    ("stellar model", dict(polytropic=False, analytic=False)), ("second mode on a coarser grid", dict(short=1)), ("third mode on a coarser grid", dict(short=2)), ("stellar model, numerical derivatives", dict(polytropic=False, analytic=False, symbolic=False))):
        def go():
            s, shown = build(kw, True)
            it = s.it
            sp = p07.Spec(s, kw.get("symbolic", True))
            chk.verdict("reported", f"{tag}: printed once", len(shown) == 1, WQ, f"the record was printed {len(shown)} times")
            rec = shown[0]
            want = spec(s, sp, kw)
            for name, vals in sorted(want.items()):
                inst = f"{tag}: {name}"
                if "short" in kw and name == f"_x_mode_{kw['short'] + 1}_max_min":      # its own, shorter grid
                    continue
                d = rec.get(name)
                if d is None or not isinstance(d, Ref):
                    chk.verdict("reported", inst, False, W, f"no entry {name} in the record")
                    continue
                chk.ok("reported", inst, W)
                d = {k: it.res(v) for k, v in it.get(d).d.items()}
                mx, mn = leaves(d["max"], "maximum"), leaves(d["min"], "minimum")
                sf, co = (list(it.get(d[k]).data) for k in ("surface", "core"))
                fit = [v for v in vals if len(sf) == len(co) == min(3, len(v)) and all(equal(N(a), N(b)) for a, b in zip(sf, v[-3:])) and all(equal(N(a), N(b)) for a, b in zip(co, v[:3]))]
                chk.verdict("extreme", f"{inst}: ends", bool(fit), W, f"innermost {[str(v)[:60] for v in co]}, outermost {[str(v)[:60] for v in sf]}")
                for lab, m in (("maximum", mx), ("minimum", mn)):
                    chk.verdict("extreme", f"{inst}: {lab}", any(same_set(m, v) for v in fit or vals), W, f"{lab} taken over {[str(v)[:60] for v in m]}")
            stray = [k for k in rec if re.search(r"_mode_(?![123]_)", k)]
            chk.verdict("reported", f"{tag}: modes of the triad only", not stray, W, f"entries {stray[:3]} belong to no mode of the triad")
            q, none = build(kw, None)
            for lab, (u, un) in (("not requested", (q, none)), ("request off", build(kw, False))):
                chk.verdict("silence", f"{tag}: {lab}", not un, WQ, "a record was printed")
                own = [k for k in u.it.get(u.o).attrs if "max_min" in k and "_attr_list" not in k]
                chk.verdict("silence", f"{tag}: {lab}, nothing stored", not own, W, f"stored {own[:3]}")
                u.it.call(u.it.getattr(u.o, "print_all_debug_properties"))
                chk.verdict("silence", f"{tag}: {lab}, printout asked for", not un, WQ, "a record was printed")
            for k in RES:
                check_eq(chk, "results", f"{tag}: {k}", it.getattr(s.o, k), q.it.getattr(q.o, k), WQ, it=it, rounds=1)
            a, b = it.getattr(s.o, "coupling_terms_quadratic"), q.it.getattr(q.o, "coupling_terms_quadratic")
            for k in range(4):
                check_eq(chk, "results", f"{tag}: term {k + 1}", it.getitem(a, k), q.it.getitem(b, k), WQ, it=it, rounds=1)
            chk.saw(it)
        chk.guard("extreme", tag, go, W)
    chk.floor = 400
