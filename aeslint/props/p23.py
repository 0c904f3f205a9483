"""Kernel figures: what is drawn is what is integrated."""
import itertools
import re
from fractions import Fraction
from .common import *
from . import p22

EXPL = ("Abstract interpretation of a complete profile run with kernel figures requested, on a coupler whose radial and latitudinal mode functions are symbols: every curve drawn is compared, as a term, with the product its label announces, "
        "and the set of products drawn per contribution with the set integrated in that contribution of the coupling coefficient.")
WA = "aesolver/aesolver/solver/profile_helper_classes/angular_kernels/angular_kernel_helper.py"
WR = "aesolver/aesolver/solver/profile_helper_classes/radial_kernels/radial_kernel_helper.py"
WF = "aesolver/aesolver/solver/profile_plot_classes/kernel_plots/"
ANG = {"hr": "H_r", "ht": "H_\\theta", "hp": "H_\\phi", "mhr": "mH_r", "theta_der_hr_theta": "\\partialH_r", "theta_der_ht_theta": "\\partialH_\\theta", "theta_der_hp_theta": "\\partialH_\\phi", "phi_phi": "H_\\phi^\\phi", "theta_phi": "H_\\phi^\\theta"}
RAD = {"_rad_der_x_z_1": "\\dfrac{\\partial(rz_1)}{\\partialr}", "_rad_diverg": "H", "_z_1": "z_1", "_z_2_over_c_1_omega": "\\dfrac{z_2}{c_1\\bar{\\omega}^2}", "_rad_der_x_z_2_c_1_omega": "\\dfrac{\\partial}{\\partialr}(r\\dfrac{z_2}{c_1\\bar{\\omega}^2})"}
MUL = {"P": "P", "g1": "(\\Gamma_1-1)", "g2": "(\\Gamma_1-1)^2", "dg": "\\left(\\dfrac{\\partial\\Gamma_1}{\\partial\\ln\\rho}\\right)_S", "rho": "\\rho", "r3": "r^3", "r2": "r^2", "r": "r", "p3": "\\dfrac{\\partial^3\\Phi}{\\partialr^3}",
       "p2": "\\dfrac{\\partial^2\\Phi}{\\partialr^2}", "p1": "\\dfrac{\\partial\\Phi}{\\partialr}"}
a_ = lambda s: tuple(sorted({"R": "hr", "T": "ht", "F": "hp", "m": "mhr", "r": "theta_der_hr_theta", "t": "theta_der_ht_theta", "f": "theta_der_hp_theta", "p": "phi_phi", "q": "theta_phi"}[c] for c in s))
r_ = lambda s: tuple(sorted({"d": "_rad_der_x_z_1", "H": "_rad_diverg", "1": "_z_1", "2": "_z_2_over_c_1_omega", "D": "_rad_der_x_z_2_c_1_omega"}[c] for c in s))
# products integrated over latitude: (functions, divided by the sine of the colatitude)
INTA = {1: [("RRR", 0), ("ttR", 0), ("ppR", 0), ("qfR", 1), ("tRR", 0), ("pRR", 0), ("rTR", 0), ("mFR", 1), ("RTT", 0), ("RFF", 0)], 2: [("RRR", 0)],
        3: [("RTT", 0), ("RFF", 0), ("rRT", 0), ("mRF", 1), ("rtT", 0), ("mpF", 1), ("mfT", 1), ("rqF", 1), ("TtT", 0), ("FpF", 0), ("FfT", 0), ("qTF", 1), ("tqf", 1), ("fqp", 1), ("Rqf", 1), ("Rpp", 0), ("Rtt", 0), ("RRt", 0), ("RRp", 0), ("RRR", 0), ("ppp", 0), ("ttt", 0)],
        4: [("RTT", 0), ("RFF", 0), ("RRR", 0)]}
# products integrated over radius: (functions, structure factors, magnitude of the weight)
h = Fraction(1, 2)
INTR = {1: [("ddH", "P g1", h), ("22H", "P g1", h), ("11H", "P g1", 1), ("21H", "P g1", 1), ("1DH", "P g1", 1), ("H2D", "P g1", 1)], 2: [("HHH", "P g2", 1), ("HHH", "P dg", 1)],
        3: [("d2D", "P", 1), ("d1D", "P", 1), ("12D", "P", 1), ("22D", "P", 1), ("11D", "P", 1), ("222", "P", 1), ("122", "P", 2), ("122", "P", 1), ("112", "P", 1), ("ddd", "P", 2), ("111", "P", 4), ("222", "P", 2)],
        4: [("122", "rho r p1", h), ("122", "rho r2 p2", h), ("111", "rho r3 p3", 1)]}
N_ = 3


class Kernels(p22.Figs):
    def fz(self, x):
        x = self.it.res(x)
        if isinstance(x, Ref):
            c = self.it.get(x)
            if isinstance(c, Arr):
                return ("arr", c.shape, tuple(self.it.res(y) for y in c.data))
            if isinstance(c, List):
                return tuple(self.fz(y) for y in c.items)
        return x


def prep(it, o, cp):
    A = lambda l: it.new(Arr((len(l),), tuple(l), "float"))
    at = it.w(cp).attrs
    rg = range(N_)
    at["_mu_values"] = A([sym(f"mu{i}", "unit") for i in rg])
    for k in (1, 2, 3):
        for nm in ANG:
            at[f"_{nm}_mode_{k}"] = A([sym(f"{nm}{k}[{i}]") for i in rg])
        for nm in RAD:
            at[f"{nm}_mode_{k}"] = A([sym(f"{nm}{k}[{i}]") for i in rg])
    for nm in ("_Gamma_1", "_rho", "_gamma_1_adDer_profile", "_P", "_dgravpot", "_dgravpot2", "_dgravpot3"):
        at[nm] = A([sym(f"{nm}[{i}]") for i in rg])
    at.update(_R_star=sym("R", "pos"), _energy_mode_1=sym("E", "pos"), _nr_modes=3)

    def close(i, a, k):
        x, y = (T.cval(N(v)) for v in a)
        return bool(abs(float(str(x)) - float(str(y))) <= 1e-9)
    it.overrides[("ext", "math.isclose")] = close


def clean(s):
    return re.sub(r"\\[,;!]|\s|\$", "", s)


def operators(txt, names):
    """names of the three functions listed in a label, and the modes they are tied to (in order when not given)"""
    spec = re.findall(r"_\{([ABC])\}", txt)
    txt = re.sub(r"_\{[ABC]\}", "", txt)
    txt = txt.strip("[]")
    inv = {v: k for k, v in names.items()}
    out = []
    for p in txt.split(","):
        p = p.strip("[]")
        q = re.sub(r"\\left\(+|\\right\)", "", p)
        q = re.sub(r"^\((.*)\)$", r"\1", q).replace("z_{1}", "z_1")
        q = q if q in inv else p
        if q not in inv:
            return None, spec
        out.append(inv[q])
    return out, spec


def angular_label(s):
    t = clean(s).strip("[]'")
    div = False
    m = re.match(r"^\\dfrac\{(.*)\}\{\\sqrt\{1-\\mu\^2\}\}$", t)
    if m:
        div, t = True, m.group(1)
    m = re.match(r"^(-?[0-9.]*)(\\mu(?![a-z]))?(.*)$", t)
    f, mu, rest = m.groups()
    c = Fraction(-1 if f == "-" else 1 if f == "" else f)
    ops, spec = operators(rest.replace(",", ","), ANG)
    return c, bool(mu), div, ops, spec


def curves(rec):
    """(label, abscissae, values) of the curves of a pair of axes"""
    for x, y, lab in rec["lines"]:
        if not (isinstance(x, tuple) and isinstance(y, tuple) and x[0] == y[0] == "arr"):
            raise Unsupported("curve of unknown form")
        if x[1] != y[1]:
            raise Unsupported("abscissae and values of different shapes")
        labs = list(lab) if isinstance(lab, tuple) else [lab]
        n = y[1][0]
        k = 1 if len(y[1]) == 1 else y[1][1]
        yield n, k, labs, [x[2][j::k] for j in range(k)], [y[2][j::k] for j in range(k)]


def run(chk):
    R = chk.rule
    R("curve", "every curve drawn is the product its label announces, factor, mu and sine included, function i of the product being that of mode i, against the coordinate")
    R("permutations", "a symmetrised term shows every distinct assignment of its three functions to the three modes exactly once")
    R("complete", "the products drawn for a contribution are exactly those integrated in that contribution of the coefficient")
    R("weight", "radial kernels carry the weight of their product in the coefficient and the energy scale r^3/E")
    R("layout", "every term has axes of its own in a figure named after its kind and contribution; radial figures shade the TAR-valid domain")
    for s in p22.SOLVERS:
        for pat in ("0vv", "v0v") if chk.tier == "quick" else ("0vv", "v0v", "v00", "vvv", "00v"):
            chk.guard("curve", f"{s}, {pat}", lambda: one(chk, s, pat), WA)
    chk.floor = 300


def one(chk, s, pat):
    r = p22.prun(s, "frequencies decide", pat, prep=prep, kernels=True, figs_cls=Kernels, terms=False)
    it, figs = r["it"], r["figs"]
    chk.saw(it)
    if r["exits"] is not None and not p22.is_exit(r, r["exits"]):
        raise r["exits"]
    g = lambda nm, i: sym(f"{nm}[{i}]")
    Rr, E = sym("R", "pos"), sym("E", "pos")
    rr = lambda i: N(r["xs"][i]) * Rr
    prof = {"P": lambda i: g("_P", i), "g1": lambda i: g("_Gamma_1", i) - 1, "g2": lambda i: (g("_Gamma_1", i) - 1) ** 2, "dg": lambda i: g("_rho", i) * g("_gamma_1_adDer_profile", i), "rho": lambda i: g("_rho", i), "r3": lambda i: rr(i) ** 3,
            "r2": lambda i: rr(i) ** 2, "r": rr, "p3": lambda i: g("_dgravpot3", i), "p2": lambda i: g("_dgravpot2", i), "p1": lambda i: g("_dgravpot", i)}
    eq = lambda a, b: T.isnum(a) and equal(T.asterm(a), T.asterm(b))
    seen = {("angular", c): [] for c in INTA}
    seen.update({("radial", c): [] for c in INTR})
    files = {}
    for path, l in figs.saved.items():
        nm = path.rsplit("/", 1)[-1]
        if "/angular_kernels/" not in path and "/radial_kernels/" not in path:
            continue
        kind = "angular" if "/angular_kernels/" in path else "radial"
        axs = [x for x in figs.axes[l[0][0]] if "legend" not in x]
        cs = {int(x) for rec in axs for x in re.findall(r"\^\{\((\d)\)\}", str(rec["ylabel"] or ""))}
        inst = f"{s}, {pat}: {nm}"
        chk.verdict("layout", f"{inst}: names its kind and contribution", len(cs) == 1 and kind in nm and f"contribution_{min(cs)}" in nm and len(l) == 1, WF, f"{kind} kernels of contribution {sorted(cs)} saved as {path}")
        if len(cs) != 1:
            continue
        c = min(cs)
        files.setdefault(l[0][0], path)
        single = len(axs) == 1
        for ia, rec in enumerate(axs):
            chk.verdict("layout", f"{inst}: axes {ia + 1}", len(rec["lines"]) == 1 or (single and rec["lines"]), WF, f"{len(rec['lines'])} terms on these axes")
            if kind == "radial":
                sh = [x[2] if isinstance(x, tuple) and x[0] == "arr" else x for _, x in rec["shade"]]
                chk.verdict("layout", f"{inst}: axes {ia + 1} shaded", bool(sh) and all(isinstance(x, tuple) and [bool(y) for y in x] == [ch == "v" for ch in pat] for x in sh), WF, f"shaded where {sh}")
            for n, k, labs, xs, ys in curves(rec):
                if len(labs) != k or any(not isinstance(x, str) for x in labs):
                    chk.bad("curve", f"{inst}, axes {ia + 1}", WF, f"{k} curves with labels {labs}"[:300])
                    continue
                prods, wt = [], None
                for lab, x, y in zip(labs, xs, ys):
                    ti = f"{inst}, axes {ia + 1}, {lab}"
                    good = n == N_
                    if kind == "angular":
                        f, mu, div, ops, spec = angular_label(lab)
                        if ops is None or len(ops) != 3:
                            chk.undecided("curve", ti, WA, "label not understood")
                            continue
                        for i in range(N_):
                            m_ = sym(f"mu{i}", "unit")
                            w = num(1) * f * (m_ if mu else 1) / (sqrt(1 - m_ ** 2) if div else 1)
                            for j, o in enumerate(ops):
                                w = w * g(f"{o}{j + 1}", i)
                            good = good and eq(x[i], m_) and eq(y[i], w)
                        what = (tuple(sorted(ops)), int(div))
                        ext = ()
                    else:
                        t = clean(lab)
                        title = clean(rec.get("title") or "")
                        es = clean("$\\,\\left(\\dfrac{{r^3}}{{\\epsilon}}\\right)$")
                        if single:
                            title, t = (t.split("[", 1) + [""])[:2]
                            if not t.endswith(es):
                                chk.bad("curve", ti, WR, "the energy scale is not announced")
                            t = t[:-len(es)] if t.endswith(es) else t
                        else:
                            chk.verdict("curve", ti + ": energy scale", title.endswith(es), WR, f"title {title}")
                            title = title[:-len(es)] if title.endswith(es) else title
                        ops, spec = operators(t, RAD)
                        mul = parse_mul(title)
                        if ops is None or len(ops) != 3 or mul is None:
                            chk.undecided("curve", ti, WR, f"label not understood: {t} | {title}")
                            continue
                        what = (tuple(sorted(ops)), tuple(sorted(mul)))
                        cand = [q for p_, m_, q in INTR[c] if what == (r_(p_), tuple(sorted(m_.split())))]
                        base = []
                        for i in range(N_):
                            w = rr(i) ** 3 / E
                            for j, o in enumerate(ops):
                                w = w * g(f"{o}{j + 1}", i)
                            for q in mul:
                                w = w * prof[q](i)
                            base.append(w)
                            good = good and eq(x[i], r["xs"][i])
                        hit = [sg * q for q in cand for sg in (1, -1) if all(eq(y[i], num(1) * (sg * q) * base[i]) for i in range(N_))]
                        other = None
                        if not hit:
                            other = next((q for q in (Fraction(a, b) for a in (1, -1, 2, -2, 3, -3, 4, -4, 6, -6) for b in (1, 2, 4)) if all(eq(y[i], num(1) * q * base[i]) for i in range(N_))), None)
                        good = good and bool(hit or other is not None)
                        chk.verdict("weight", ti, bool(hit) or not good, WR, f"weight {other} instead of ±{cand}")
                        wt = wt or (hit[:1] or [None])[0]
                        chk.verdict("weight", ti + ": one weight per term", not hit or wt in hit, WR, f"{hit} and {wt}")
                        ext = (abs(hit[0]),) if hit else ()
                    if len(spec) == 3:
                        chk.verdict("curve", ti + ": mode letters", spec == ["A", "B", "C"], WA if kind == "angular" else WR, f"{spec}")
                    chk.verdict("curve", ti, good, WA if kind == "angular" else WR, f"{show(T.asterm(y[0]), 5)[:200] if T.isnum(y[0]) else y[0]} at the first point is not the announced product")
                    prods.append((tuple(ops), what + ext))
                if prods:
                    want = set(itertools.permutations(prods[0][0]))
                    got = [p_ for p_, _ in prods]
                    if len(spec) == 3:
                        want = {got[0]}
                    chk.verdict("permutations", f"{inst}, axes {ia + 1}", len(got) == len(set(got)) and set(got) == want and len({w for _, w in prods}) == 1, WA if kind == "angular" else WR, f"assignments {got}"[:300])
                    seen[(kind, c)].append(prods[0][1])
    for c in INTA:
        w = {(a_(p_), d) for p_, d in INTA[c]}
        got = seen[("angular", c)]
        chk.verdict("complete", f"{s}, {pat}: angular kernels of contribution {c}", set(got) == w, WA, f"missing {sorted(w - set(got))}, unexpected {sorted(set(got) - w)}")
        w = sorted((r_(p_), tuple(sorted(m_.split())), q) for p_, m_, q in INTR[c])
        got = sorted(x for x in seen[("radial", c)])
        chk.verdict("complete", f"{s}, {pat}: radial kernels of contribution {c}", got == w, WR, f"missing {[x for x in w if x not in got]}, unexpected {[x for x in got if x not in w]}"[:300])


def parse_mul(t):
    """structure factors listed in a title"""
    out = []
    for nm, s in sorted(MUL.items(), key=lambda x: -len(x[1])):
        while s in t and (nm not in ("r", "P") or t.replace(s, "", 1) == "" or True):
            out.append(nm)
            t = t.replace(s, "", 1)
    return out if not t else None
