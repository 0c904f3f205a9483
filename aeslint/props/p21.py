"""Which triads count: selection masks, printed analyses and figures."""
import itertools
import random
from fractions import Fraction
from .common import *
from . import p18, p20, stubs

EXPL = ("Abstract interpretation of the selection functions on every order type of small sets of triads (shared parents and daughters, missing thresholds, saturation below and above the next threshold) against the definition of each category, "
        "and of the printed analyses and the figures with symbolic data and distinct masks: every printed or drawn value is compared with the quantity of the triads it is announced for.")
AN, PL = "aesolver/ae_analyzer/library_functions/masking.py", "aesolver/aeplotter/library_functions/masking.py"


def cells(it, x):
    x = it.res(x)
    return [it.res(y) for y in (it.get(x).data if isinstance(x, Ref) and isinstance(it.get(x), Arr) else it.iter_items(x))]


def C(x):
    c = T.cval(N(x)) if T.isnum(x) else None
    if c is None:
        raise Unsupported(f"symbolic value in a concrete selection: {x!r}"[:120])
    return c


def models(it):
    F = lambda k, f: it.overrides.__setitem__(("ext", "numpy." + k), f)
    A = lambda i, xs, dt="float": i.new(Arr((len(xs),), tuple(xs), dt))

    def unique(i, a, k):
        if any(k.get(x) for x in ("return_index", "return_inverse", "return_counts", "axis")) or len(a) > 1:
            if k.get("return_counts") and not any(k.get(x) for x in ("return_index", "return_inverse", "axis")):
                xs = [C(x) for x in cells(i, a[0])]
                u = sorted(set(xs))
                return (A(i, [int(x) if x.denominator == 1 else x for x in u], "int"), A(i, [xs.count(x) for x in u], "int"))
            raise Unsupported("unique options")
        u = sorted({C(x) for x in cells(i, a[0])})
        return A(i, [int(x) if x.denominator == 1 else x for x in u], "int")

    def argpartition(i, a, k):
        xs = [C(x) for x in cells(i, a[0])]
        kth = i.res(k.get("kth", a[1] if len(a) > 1 else None))
        kth = [int(C(kth))] if T.isnum(kth) else [int(C(x)) for x in cells(i, kth)]
        n = len(xs)
        for q in kth:
            if not -n <= q < n:
                raise AbsRaise(("ValueError", f"kth(={q}) out of bounds ({n})"), i.where())
        cut = sorted({q % n for q in kth})
        o = sorted(range(n), key=lambda j: xs[j])
        out, prev = [], 0
        for q in cut:                                        # nothing is promised about the order between the cuts
            out += o[prev:q][::-1] + [o[q]]
            prev = q + 1
        return out + o[prev:][::-1]

    def sel(pick):
        def f(i, a, k):
            if k.get("axis") is not None:
                raise Unsupported("axis")
            xs = [C(x) for x in cells(i, a[0])]
            if not xs:
                raise AbsRaise(("ValueError", "empty sequence"), i.where())
            return pick(xs)
        return f
    F("unique", unique)
    F("argpartition", lambda i, a, k: A(i, argpartition(i, a, k), "int"))
    F("partition", lambda i, a, k: A(i, [cells(i, a[0])[j] for j in argpartition(i, a, k)]))
    F("argsort", lambda i, a, k: A(i, sorted(range(len(cells(i, a[0]))), key=lambda j: C(cells(i, a[0])[j])), "int"))
    F("sort", lambda i, a, k: A(i, sorted(cells(i, a[0]), key=C)))
    F("argmin", sel(lambda xs: xs.index(min(xs))))
    F("argmax", sel(lambda xs: xs.index(max(xs))))
    it.overrides[("ext", "numpy.isnan")] = p20.isnan


class Config:
    """rows: (parent, daughter 1, daughter 2, threshold rank or None, saturated parent amplitude in units of the rank, stable flags, detuning ratio)"""

    def __init__(self, rows):
        self.rows = rows

    def dict(self, it):
        n = len(self.rows)
        A = lambda shape, xs, dt="float": it.new(Arr(shape, tuple(xs), dt))
        nan = lambda r, x: T.NAN if r[3] is None else x
        harm = [r[1] == r[2] for r in self.rows]
        return it.new(Dict({
            "rad_ord": A((n, 3), [x for r in self.rows for x in r[:3]], "int"),
            "thresh_surf_ppm": A((n,), [nan(r, Fraction(r[3] or 0)) for r in self.rows]),
            "surfs": A((n, 3), [nan(r, x) for r in self.rows for x in (Fraction(r[4]) / 10**6, Fraction(1, 5), Fraction(1, 7))]),
            "checks": A((n, 6), [x for r in self.rows for x in (r[3] is not None, r[3] is None, False) + tuple(r[5])], "bool"),
            "linear_omega_diff_to_min_omega": A((n,), [r[6] for r in self.rows]),
            "harmonic_mask": A((n,), harm, "bool")}))

    def isolated(self):
        val = [r for r in self.rows if r[3] is not None]
        out = []
        for r in self.rows:
            if r[3] is None:
                out.append(False)
                continue
            low = all(r[3] <= min(x[3] for x in val if n == x[0]) for n in r[:1]) and all(r[3] <= min(x[3] for x in val if n in x[1:3]) for n in r[1:3])
            same = sorted((x[3], x[4]) for x in val if x[0] == r[0])
            out.append(low and (len(same) == 1 or same[1][0] > same[0][1]))
        return out

    def stable(self):
        return [all(r[5]) for r in self.rows]

    def ae(self):
        return [abs(r[6]) <= Fraction(1, 10) for r in self.rows]

    def __repr__(self):
        return "; ".join(f"n=({r[0]},{r[1]},{r[2]}) threshold {r[3]} saturation {r[4]}" for r in self.rows)


def configs(thorough):
    """all ways up to three (four) parametric triads can share modes, with thresholds in any order, plus a non-parametric one"""
    rnd = random.Random(5)
    pairs = [(10, 10), (10, 11), (11, 10), (11, 11), (10, 12), (12, 13), (11, 12)]
    out = []
    ok = (True, True, True)
    for n in (1, 2, 3) if not thorough else (1, 2, 3, 4):
        combos = list(itertools.product(itertools.product((1, 2), pairs), repeat=n))
        combos = [c for c in combos if len({(p, frozenset(d)) for p, d in c}) == n and (n < 2 or c[0][0] == 1)]
        if n == 3:
            combos = rnd.sample(combos, 150 if not thorough else 1500)
        if n == 4:
            combos = rnd.sample(combos, 1500)
        for c in combos:
            for sat in ("below", "above") if n > 1 else ("below",):
                order = list(range(1, n + 1))
                rnd.shuffle(order)
                rows = [(p, d[0], d[1], 10 * k, 10 * k + (4 if sat == "below" else 25), ok, Fraction(0)) for (p, d), k in zip(c, order)]
                if rnd.random() < 0.4:
                    rows.insert(rnd.randrange(n + 1), (rnd.choice((1, 2, 3)), 10, rnd.choice((10, 11)), None, 0, ok, Fraction(0)))
                out.append(Config(rows))
    return out


def run(chk):
    R = chk.rule
    chk.floor = 300
    thorough = getattr(chk, "tier", "quick") == "thorough"
    R("isolation", "a triad is isolated exactly if it is parametric, its threshold is the lowest of all triads any of its modes takes part in, and the parent's saturation amplitude in its lowest-threshold triad stays below its second-lowest threshold (if it has one)")
    R("stability", "a triad is stable exactly if all three stability checks hold")
    R("AE validity", "a triad is AE-valid exactly if its detuning is at most a tenth of its smallest frequency, in absolute value, the limit included")
    R("categories", "combined categories are the intersections they are named after; the categories drawn in the overview are disjoint and leave out harmonic triads; the sharpness selections split the stable, AE-valid triads into isolated and other ones")
    R("limits", "with a lower limit on the threshold luminosity, a triad is kept exactly if none of its modes has, in its role, a triad below the limit or without threshold; with an upper limit on the detuning, exactly if its detuning ratio is at most the limit, in absolute value; both limits apply together")
    R("printed values", "the analyses print, per model and for exactly the stable and valid triads, the quantities they announce, in the announced units")
    R("counts", "the numbers of triads printed are those of the triads fulfilling the announced conditions, per model and summed over the models")
    R("overview figure", "the overview draws, per category and for exactly its triads, both amplitude ratios against the triad's observed frequency, mirrored frequencies fainter, each category in its own colour")
    R("sharpness figure", "the sharpness figure draws the probabilities (percent) of the sharpness of isolated and other stable AE-valid triads in common logarithmic bins of both, at the bins; nothing without bins or probabilities")
    R("saved figures", "each figure is saved once per requested format, in its subdirectory, under its name with the extra specifier, at the requested resolution")
    for pkg, w, fns in (("ae_analyzer", AN, ("get_mask_information_triad_counts",)), ("aeplotter", PL, ("theoretical_plotting_masks_overview", "isolated_non_isolated_stable_valid_masking"))):
        chk.guard("isolation", pkg, lambda: isolation(chk, pkg, w, fns, configs(thorough)), w)
        chk.guard("categories", pkg, lambda: categories(chk, pkg, w, fns), w)
    chk.guard("limits", "sharpness selection", lambda: limits(chk, thorough), PL)
    chk.guard("printed values", "isolated triads", lambda: analyses(chk), WA)
    chk.guard("overview figure", "overview", lambda: overview(chk), WO)
    chk.guard("saved figures", "overview", lambda: overview(chk, dict(extra_specifier_save="", overview_subdir="", save_formats=["png", "pdf"])), WO)
    chk.guard("sharpness figure", "sharpness", lambda: sharpness(chk), WS)
    chk.guard("counts", "numbers of triads", lambda: numbers(chk), WA)


def masks(it, f, d, kw=None):
    r = it.call(f, [], dict({"data_dict": d}, **(kw or {})))
    return [[bool(C(x)) if not isinstance(x, bool) else x for x in cells(it, m)] for m in it.iter_items(r)]


def named(fn_, r):
    """masks by meaning"""
    if fn_ == "get_mask_information_triad_counts":
        return dict(zip(("stable", "AE-valid", "isolated", "valid", "stable and valid"), r))
    if fn_ == "theoretical_plotting_masks_overview":
        return dict(zip(("drawn as stable", "drawn as stable and AE-valid", "drawn as stable and valid"), r))
    return dict(zip(("sharpness, isolated", "sharpness, other"), r))


def want(cfg):
    s, a, i = cfg.stable(), cfg.ae(), cfg.isolated()
    h = [r[1] == r[2] for r in cfg.rows]
    z = lambda f: [f(*t) for t in zip(s, a, i, h)]
    return {"stable": s, "AE-valid": a, "isolated": i, "valid": z(lambda s, a, i, h: a and i), "stable and valid": z(lambda s, a, i, h: s and a and i),
            "drawn as stable": z(lambda s, a, i, h: s and not a and not h), "drawn as stable and AE-valid": z(lambda s, a, i, h: s and a and not i and not h), "drawn as stable and valid": z(lambda s, a, i, h: s and a and i and not h),
            "sharpness, isolated": z(lambda s, a, i, h: s and a and i), "sharpness, other": z(lambda s, a, i, h: s and a and not i)}


def evaluate(chk, it, pkg, w, fns, cfg, inst, h0):
    kwl = {"isolated_non_isolated_stable_valid_masking": {"minimum_threshold_lum": None, "max_threshold_detuning": None}}
    ref = want(cfg)
    for nm in fns:
        it.heap = dict(h0)
        f = getname(it, f"{pkg}.library_functions.masking", nm)
        try:
            got = named(nm, masks(it, f, cfg.dict(it), kwl.get(nm)))
        except AbsRaise as e:
            return [(nm, f"raises {e.exc}")]
        bad = [(k, f"{got[k]} instead of {ref[k]}") for k in got if got[k] != ref[k]]
        if bad:
            return bad
    return []


def isolation(chk, pkg, w, fns, cfgs):
    it = Interp(REPO)
    models(it)
    it.overrides[("ext", "builtins.print")] = lambda i, a, k: None
    for nm in fns:
        getname(it, f"{pkg}.library_functions.masking", nm)
    h0 = dict(it.heap)
    groups = {}
    for cfg in cfgs:
        n = sum(1 for r in cfg.rows if r[3] is not None)
        one = min(sum(1 for x in cfg.rows if x[3] is not None and x[0] == r[0]) for r in cfg.rows if r[3] is not None) == 1
        key = f"{pkg}: {n} parametric triad{'s' if n > 1 else ''}, {'with' if n < len(cfg.rows) else 'without'} others, {'a parent with a single triad' if one else 'parents with several triads'}, {'with' if any(r[1] == r[2] for r in cfg.rows) else 'without'} harmonics"
        g = groups.setdefault(key, [0, None])
        g[0] += 1
        if g[1] is None:
            bad = evaluate(chk, it, pkg, w, fns, cfg, key, h0)
            if bad:
                g[1] = f"{cfg!r}: {bad[0][0]}: {bad[0][1]}"
    chk.saw(it)
    for k, (n, bad) in groups.items():
        for _ in range(n if bad is None else 1):
            chk.verdict("isolation", k, bad is None, w, bad or "")


def limits(chk, thorough):
    nm = "isolated_non_isolated_stable_valid_masking"
    it = Interp(REPO)
    models(it)
    it.overrides[("ext", "builtins.print")] = lambda i, a, k: None
    f = getname(it, "aeplotter.library_functions.masking", nm)
    h0 = dict(it.heap)
    rnd = random.Random(11)
    det = [Fraction(1, 100), Fraction(-1, 20), Fraction(1, 20), Fraction(-9, 100), Fraction(0), Fraction(1, 10), Fraction(3)]
    for n in range(120 if not thorough else 1200):
        rows = []
        for j in range(rnd.randint(2, 5)):
            t = rnd.choice((10, 20, 30, 40, None)) if j else 10 * rnd.randint(1, 4)
            t = t and t + j                                   # no two thresholds agree
            d = rnd.choice([(10, 10), (10, 11), (11, 10), (12, 13), (13, 14)])
            rows.append((rnd.choice((1, 2, 3, 10)), d[0], d[1], t, t + 4 if t else 0, rnd.choice([(True, True, True)] * 3 + [(True, False, True)]), rnd.choice(det)))
        cfg = Config(rows)
        ref = want(cfg)
        for lum in (None, 20, Fraction(41, 2) if n % 2 else "20.5", 33, rows[0][3], 0):
            for dmax in (None, Fraction(1, 20), Fraction(0)) if lum in (None, 20) else (None, Fraction(1, 20)) if n % 3 == 0 else (None,):
                if lum is None and dmax is None:
                    continue
                low = [r for r in rows if lum is not None and (r[3] is None or r[3] < float(lum))]
                keep = [all(r[k] not in {x[k] for x in low} for k in (0, 1, 2)) and (dmax is None or abs(r[6]) <= dmax) for r in rows]
                it.heap = dict(h0)
                inst = f"{'lowest threshold luminosity' if lum is not None else ''}{' and ' if lum is not None and dmax is not None else ''}{'largest detuning' if dmax is not None else ''}, case {n}, {lum}, {dmax}"
                got = named(nm, masks(it, f, cfg.dict(it), {"minimum_threshold_lum": lum, "max_threshold_detuning": dmax}))
                for k, g in got.items():
                    w = [a and b for a, b in zip(ref[k], keep)]
                    chk.verdict("limits", f"{k}: {inst}", g == w, PL, f"{g} instead of {w} for {cfg!r}; detuning ratios {[str(r[6]) for r in rows]}")
    chk.saw(it)


def categories(chk, pkg, w, fns):
    it = Interp(REPO)
    models(it)
    it.overrides[("ext", "builtins.print")] = lambda i, a, k: None
    for nm in fns:
        getname(it, f"{pkg}.library_functions.masking", nm)
    h0 = dict(it.heap)
    T10 = Fraction(1, 10)
    det = [Fraction(0), T10, -T10, T10 + Fraction(1, 10**6), -T10 - Fraction(1, 10**6), Fraction(3), Fraction(-2)]
    rows = []
    for j, (st, iso, harm, d) in enumerate(itertools.product(itertools.product((True, False), repeat=3), (True, False), (True, False), det)):
        p = 100 + j
        rows.append((p, 1000 + 2 * j, 1000 + 2 * j + (0 if harm else 1), 10, 12, st, d))
        if not iso:                                          # a second triad of the parent with a threshold below the saturation amplitude
            rows.append((p, 5000 + 2 * j, 5001 + 2 * j, 11, 13, st, d))
    rows.append((900, 1, 2, None, 0, (True, True, True), Fraction(0)))
    for j in range(0, len(rows), 12):
        category_rows(chk, it, pkg, w, fns, rows[j:j + 12], h0)
    chk.saw(it)


def category_rows(chk, it, pkg, w, fns, rows, h0):
    cfg = Config(rows)
    iso = cfg.isolated()
    for rule, keys in (("stability", ("stable",)), ("AE validity", ("AE-valid",)), ("categories", None)):
        for nm in fns:
            it.heap = dict(h0)
            kw = {"minimum_threshold_lum": None, "max_threshold_detuning": None} if nm.startswith("isolated") else None
            got = named(nm, masks(it, getname(it, f"{pkg}.library_functions.masking", nm), cfg.dict(it), kw))
            ref = want(cfg)
            for k, g in got.items():
                if (keys and k in keys) or (not keys and k not in ("stable", "AE-valid", "isolated")):
                    for j, (x, y) in enumerate(zip(g, ref[k])):
                        r = rows[j]
                        chk.verdict(rule, f"{pkg}: {k}: triad {r[0]}, daughters {r[1]}, {r[2]}", len(g) == len(ref[k]) and x == y, w, f"{x} instead of {y} for stability checks {r[5]}, detuning ratio {r[6]}, daughters {r[1]}, {r[2]}, isolated {iso[j]}")


# --- printed analyses -------------------------------------------------------------------------------------------------------------
WA = p20.TOOLS["analyser"][2]
PICK = ((0, 1, 3, 5, 7), (1, 2, 3, 6), (0, 3, 4, 8), (3, 4, 6, 7), (0, 4, 7))      # stable, AE-valid, isolated, valid, stable and valid
NAMES = ("stability", "AE", "isolation", "validity", "stability and validity")


def flat(it, x):
    """pieces of a printed text: strings and values"""
    if isinstance(x, Node) and x.op == "str" or (isinstance(x, Node) and x.op == "fn" and x.args[0] == "str"):
        out = []
        for y in (x.args if x.op == "str" else x.args[1:]):
            out += flat(it, y)
        return out
    return [x]


def printed(it, o, method):
    out = []
    it.overrides[("ext", "builtins.print")] = lambda i, a, k: out.append([y for x in a for y in flat(i, x if isinstance(x, str) else i.payload(x))])
    it.call(it.getattr(o, method), [], {})
    return out


def line(lines, what, model):
    """the values printed on the line announced by these words for that model"""
    import re
    hit = []
    for l in lines:
        txt = " ".join(x if isinstance(x, str) else "\0" for x in l)
        if all(re.search(p, txt, re.I) for p in what) and f"{model})" in txt.replace(" ", ""):
            hit.append([x for x in l if not isinstance(x, str)] or [txt])
    return hit


def values(x):
    if isinstance(x, tuple) and x and x[0] == "arr":
        return list(x[2:])
    if isinstance(x, tuple) and x and x[0] in ("list",):
        return [y for z in x[1:] for y in values(z)]
    return [x]


def analyses(chk):
    it, o, tabs, w = p20.build("analyser", masks=lambda j, r: r in PICK[j])
    it.overrides[("ext", "numpy.isnan")] = p20.isnan
    h0 = dict(it.heap)
    rows = PICK[4]
    REP = {"generate_isolated_triad_mode_properties": [
        (("radial orders",), "rad_ord", 1, None), (("delta omega", "cpd"), "linear_omega_diff_cpd", 1, None), (("gamma_sum", "10-3"), "gamma_sum_cpd", 1000, None),
        (("corot omegas", "cpd"), ("corot_mode_omegas_p_cpd", "corot_mode_omegas_d_cpd"), 1, None), (("gammas", "10-5"), ("p_driv_rates_cpd", "d_damp_rates_cpd"), 10**5, None), (("maximal spin",), "spin_parameters", 1, "max")],
        "generate_isolated_triad_stab_val_estimators": [
        (("radial orders",), "rad_ord", 1, None), (("AE parameters",), "ae", 1, "abs"), ((r"\|q\|",), "q", 1, "abs"), ((r"\|q1\|",), "q1", 1, "abs"), (("theta_2",), "theta2", 1, None), (("theta_3",), "theta3", 1, None), (("eta1",), "abs_kappa_norm", 1, None)],
        "generate_isolated_triad_observables": [
        (("radial orders",), "rad_ord", 1, None), (("maximal absolute", "ppt"), "nonlinear frequency shift/omega inert", 1000, "absmax"), (("phases",), "nonlinear phase", 1, None), (("ratios",), "surf_ratio_daughter_parent_OG_SHAPE", 1, "columns")]}
    for meth, rep in REP.items():
        it.heap = dict(h0)
        lines = printed(it, o, meth)
        for (t, tb), model in zip(tabs.items(), ("A", "B")):
            sp, om, D = p20.spec(tb, "analyser")
            col = lambda nm: [[D(i) / fn("minimum", fn("minimum", *[T.fn("abs", x) for x in om[i][:2]]), T.fn("abs", om[i][2]))] for i in range(len(p20.ROWS))] if nm == "ae" else sp[nm][1]
            for what, nm, scale, how in rep:
                inst = f"{meth.replace('generate_', '')}, {what[0]} ({model})".replace("\\", "")
                hit = line(lines, what, model)
                if len(hit) != 1:
                    chk.undecided("printed values", inst, WA, f"{len(hit)} lines")
                    continue
                got = [y for x in hit[0] for y in values(x)]
                if isinstance(nm, tuple):
                    q = [col(nm[0])[i] + col(nm[1])[i] for i in rows]
                    want = [q[i][j] for j in range(3) for i in range(len(rows))]
                elif how == "columns":
                    want = [col(nm)[i][j] for j in (0, 1) for i in rows]
                else:
                    want = [x for i in rows for x in col(nm)[i]]
                if how in ("max", "absmax"):
                    q = [[T.fn("abs", x) for x in col(nm)[i]] if how == "absmax" else col(nm)[i] for i in rows]
                    want = [fn("maximum", fn("maximum", x[0], x[1]), x[2]) for x in q]
                elif how == "abs":
                    want = [T.fn("abs", x) for x in want]
                if isinstance(hit[0][0], str) or len(got) != len(want):
                    chk.bad("printed values", inst, WA, f"{len(got)} values printed instead of {len(want)} for {len(rows)} selected triads")
                    continue
                p20.cmp(chk, "printed values", inst, [got], [[N(x) * scale for x in want]], WA)
    chk.saw(it)


def numbers(chk):
    """counts: concrete results, all combinations of q > Q1, both ratios > 1"""
    n = len(p20.ROWS)
    tabs = {}
    for t, sh in (("f1", 0), ("f2", 4)):
        tb = p20.table(t)
        gam, su, ck, omg = [], [], [], []
        for i in range(n):
            p, d, k = p20.ROWS[i]
            j = (i + sh) % n
            big = j % 2 == 0                                # q > Q1
            up = j % 3 != 1                                 # both ratios above one
            omg += [Fraction(9), Fraction(4), Fraction(2) if j % 5 else Fraction(6)]
            det = 3 if j % 5 else -1
            # q = det / sum(g), Q1 = 9 / g1
            gam += [Fraction(8), Fraction(-7), Fraction(-1, 2)] if big else [Fraction(2), Fraction(-7), Fraction(-1)]
            r = [Fraction(2), Fraction(3), Fraction(5)] if up else [Fraction(2), Fraction(1), Fraction(5)]
            if d and not p:
                r = [Fraction(6), Fraction(3), Fraction(2)] if up else [Fraction(6), Fraction(7), Fraction(2)]
            su += [T.NAN] * 3 if k == "invalid" else [Fraction(0)] * 3 if k == "zero" else r
            ck += [bool(p), bool(d), False, j % 2 == 0, j % 3 == 0, j % 4 < 3]
        tb["driv_damp_rates"], tb["surfs"], tb["checks"] = ((n, 3), "float", gam), ((n, 3), "float", su), ((n, 6), "bool", ck)
        tb["corot_mode_omegas"] = ((n, 3), "float", omg)
        tabs[t] = tb
    it, o, tabs, w = p20.build("analyser", masks=lambda j, r: r in PICK[j], tables=tabs)
    h0 = dict(it.heap)
    lines = printed(it, o, "generate_mode_triad_numbers_per_model")

    def count(inst, what, model, want):
        import re
        hit = [l for l in lines if all(re.search(x, "".join(y for y in l if isinstance(y, str)), re.I) for x in what) and (model is None or f"({model})" in "".join(y for y in l if isinstance(y, str)))]
        if len(hit) != 1:
            chk.undecided("counts", inst, WA, f"{len(hit)} lines")
            return
        txt = "".join(y if isinstance(y, str) else f"{T.cval(N(y))}" if T.isnum(y) and T.cval(N(y)) is not None else "?" for y in hit[0])
        m = re.search(r"(?::|is)\s*(-?\d+)\s*$", txt)
        if m is None:
            chk.undecided("counts", inst, WA, txt[-80:])
            return
        chk.verdict("counts", inst, int(m.group(1)) == want, WA, f"{m.group(1)} instead of {want}")
    for (t, tb), model in zip(tabs.items(), ("A", "B")):
        ck = tb["checks"][2]
        count(f"total ({model})", ("total",), model, n)
        for nm, pat, j in (("sum of the rates", ("g_box_dot",), 3), ("quartic condition", ("quartic",), 4), ("hyperbolic condition", ("hyperbolic",), 5)):
            count(f"{nm} ({model})", pat, model, sum(ck[6 * i + j] for i in range(n)))
        for nm, pat, j in zip(NAMES, (("fulfilling the stability conditions",), ("fulfilling the AE validity",), ("fulfilling the isolation",), ("fulfilling the validity conditions",), ("fulfilling the stability and validity",)), range(5)):
            count(f"{nm} ({model})", pat, model, len(PICK[j]))
    it.heap = dict(h0)
    lines = printed(it, o, "generate_counts_q_quality_factor_1_condition")
    Q, R = {}, {}
    for t, tb in tabs.items():
        g, o3, su, ck = tb["driv_damp_rates"][2], tb["corot_mode_omegas"][2], tb["surfs"][2], tb["checks"][2]
        for i in range(n):
            gg, oo, ss = g[3 * i:3 * i + 3], o3[3 * i:3 * i + 3], su[3 * i:3 * i + 3]
            Q[t, i] = (oo[0] - oo[1] - oo[2]) / sum(gg) > oo[0] / gg[0]
            ok = ss[0] is not T.NAN and 0 not in ss and (ck[6 * i] or ck[6 * i + 1])
            r = [] if not ok else [ss[1] / ss[0], ss[2] / ss[0]] if ck[6 * i] else [ss[0] / ss[1], ss[0] / ss[2]]
            R[t, i] = len(r) == 2 and min(r) > 1
    al = [(t, i) for t in tabs for i in range(n)]
    for (t, tb), model in zip(tabs.items(), ("A", "B")):
        count(f"q > Q1 ({model})", ("q > Q1",), model, sum(Q[t, i] for i in range(n)))
    both = [x for x in al if Q[x] and R[x]]
    if not (0 < len(both) < len(al) and any(R[x] and not Q[x] for x in al)):
        raise Unsupported("the sample does not separate the conditions")
    tot = f"all {2 * n} models"
    S = r"larger than unity and q > Q1 \("
    cases = [("q > Q1", (r"triads for which q > Q1 \(",), al, lambda x: Q[x]), ("both ratios", (r"total number of triads for which both.*larger than unity \(",), al, lambda x: R[x]),
             ("both ratios and q > Q1", (r"total number of triads for which both", S), al, lambda x: Q[x] and R[x]),
             ("both ratios and q <= Q1", (r"total number of triads for which both", r"q <= Q1"), al, lambda x: R[x] and not Q[x]),
             ("AE-valid, both ratios", (r"number of AE-valid.*larger than unity \(",), al, lambda x: R[x] and x[1] in PICK[1]), ("AE-invalid, both ratios", (r"number of AE-invalid.*larger than unity \(",), al, lambda x: R[x] and x[1] not in PICK[1])]
    for lab, neg, j in (("stable", "unstable", 0), ("AE-valid", "AE-invalid", 1), ("isolated", "non-isolated", 2), ("valid", "invalid", 3), ("stable and valid", "instable and/or invalid", 4)):
        cases.append((f"{lab}, both", (rf"number of {lab} triads", S), al, lambda x, j=j: Q[x] and R[x] and x[1] in PICK[j]))
        cases.append((f"{neg}, both", (rf"number of {neg} triads", S), al, lambda x, j=j: Q[x] and R[x] and x[1] not in PICK[j]))
    for nm, pat, dom, cond in cases:
        count(f"all models: {nm}", pat, None, sum(1 for x in dom if cond(x)))
    chk.saw(it)


# --- figures ----------------------------------------------------------------------------------------------------------------------
WP = p20.TOOLS["plotter"][2]
WO, WS = "aesolver/aeplotter/overview_plot/plot.py", "aesolver/aeplotter/resonance_sharpness/plot.py"


def files(it):
    stubs.install(it, ["x"], "/cwd", [])


class Figure:
    """records what is drawn and saved"""

    def __init__(self, it):
        self.it, self.drawn, self.saved, self.figs = it, [], [], 0
        it.overrides[("ext", "matplotlib.pyplot.subplots")] = self.subplots

    def subplots(self, it, a, k):
        self.figs += 1
        num_ = self.figs
        rec = lambda kind: Lam(lambda i, a, k: self.drawn.append((num_, kind, [self.freeze(x) for x in a], {n: self.freeze(x) for n, x in k.items()})))
        labels = lambda i, a, k: (i.list([fn("handle", str(j)) for j, d in enumerate(self.drawn) if d[0] == num_]), i.list([d[3].get("label") for d in self.drawn if d[0] == num_]))
        ax = it.obj(None, dict({n: rec(n) for n in ("scatter", "bar", "plot", "hist", "step", "stairs", "fill_between", "barh", "loglog")}, get_legend_handles_labels=Lam(labels)), open=True, label="axes")
        ax2 = it.obj(None, {}, open=True, label="second axes")
        it.w(ax).attrs["twiny"] = Lam(lambda i, a, k: ax2)
        fig = it.obj(None, {"savefig": Lam(lambda i, a, k: self.saved.append((num_, [self.freeze(x) for x in a], {n: self.freeze(x) for n, x in k.items()})))}, open=True, label="figure")
        return (fig, ax)

    def freeze(self, x):
        x = self.it.res(x)
        if isinstance(x, Ref) and isinstance(self.it.get(x), Arr):
            c = self.it.get(x)
            return Arr(c.shape, tuple(self.it.res(y) for y in c.data), c.dtype)
        return x


def cellsof(x):
    return list(x.data) if isinstance(x, Arr) else [x]


def overview(chk, save=None):
    tabs = {}
    for t, fs in p20.FREQS.items():
        tb = p20.table(t)
        n = len(p20.ROWS)
        tb["corot_mode_omegas"] = ((n, 3), "float", [Fraction(x) for i in range(n) for x in (3, 2, 1)])
        tb["driv_damp_rates"] = ((n, 3), "float", [Fraction(x) for i in range(n) for x in (1, -3, -4)])
        fs = [f if i % 2 else abs(f) for i, f in enumerate(fs)]
        tb["inert_mode_freqs"] = ((n, 3), "float", [x / 86400 for i, f in enumerate(fs) for x in (Fraction(200), f, Fraction(300))])
        tabs[t] = tb
    it, o, tabs, w = p20.build("plotter", masks=lambda j, r: r in PICK[j], tables=tabs, mirror=True, opts=dict(plot_overview=True, plot_resonance_sharpness=False), prep=files, save=save)
    fig = Figure(it)
    it.call(it.getattr(o, "generate_plots"), [], {})
    chk.saw(it)
    if save:
        return saves(chk, fig, "overview, without specifier and subdirectory", "/out/sub/over", ("png", "pdf"))
    dds = [it.get(it.res(d)).d for d in it.iter_items(it.getattr(o, "_list_data_dict"))]
    draws = {}
    for f, kind, a, k in fig.drawn:
        if kind != "scatter":
            raise Unsupported(f"drawn with {kind}")
        x, y = (a + [None, None])[:2]
        x, y = k.get("x", x), k.get("y", y)
        al = T.cval(N(k["alpha"])) if T.isnum(k.get("alpha")) else None
        draws.setdefault(k.get("label"), []).append((al, cellsof(x), cellsof(y), k.get("c", k.get("color"))))
    ms = ("Stab.", "Stab. + AE", "Stab. + Val.")
    chk.verdict("overview figure", "categories drawn", set(draws) == set(ms), WO, f"{sorted(map(str, draws))}")
    colours = {}
    for j, lab in enumerate(ms):
        parts = draws.get(lab, [])
        colours[lab] = {c for *_, c in parts}
        top = max((p[0] for p in parts if p[0] is not None), default=None)
        got = {True: [], False: []}
        for al, xs, ys, c in parts:
            if len(xs) != len(ys):
                chk.bad("overview figure", f"{lab}: points", WO, f"{len(xs)} abscissae and {len(ys)} ordinates")
                break
            got[al == top] += list(zip(xs, ys))
        else:
            for bright in (True, False):
                want = []
                for (t, tb), d in zip(tabs.items(), dds):
                    xs, ys, ng = (p20.grid(it, d[nm]) for nm in ("min_inertial_freq_stack", "surf_ratio_daughter_parent_OG_SHAPE", "neg_mask"))
                    want += [(xs[i][q], ys[i][q]) for i in PICK[j] for q in (0, 1) if bool(ng[i][q]) != bright]
                key = lambda p: tuple(show(N(z), 9) for z in p)
                g, x = (sorted(key(p) for p in ps if not p20.missing(p20.fold(N(p[1])))) for ps in (got[bright], want))
                if bright and not want or not bright and not want:
                    raise Unsupported("the sample lacks " + ("original" if bright else "mirrored") + " frequencies")
                bad = next((f"{p} instead of {q}" for p, q in zip(g, x) if p != q), None) or (None if len(g) == len(x) else f"{len(g)} points instead of {len(x)}")
                chk.verdict("overview figure", f"{lab}: {'original' if bright else 'mirrored, fainter'} points", bad is None, WO, bad or "")
    cs = [c for l in ms for c in colours[l]]
    chk.verdict("overview figure", "categories can be told apart", len(cs) == 3 == len(set(cs)), WO, f"{colours}")
    saves(chk, fig, "overview", "/out/sub/s2/over_x", ("png",))


def saves(chk, fig, nm, stem, formats, dpi=300):
    got = set()
    for f, a, k in fig.saved:
        p = a[0] if a else k.get("fname")
        p = p if isinstance(p, str) else pathtext(fig.it, p)
        got.add((p, k.get("format"), T.cval(N(k["dpi"])) if "dpi" in k else None))
    want = {(f"{stem}.{e}", e, dpi) for e in formats}
    ok = {(p, q) for p, e, q in got} == {(p, q) for p, e, q in want} and all(e in (None, p.rsplit(".", 1)[-1]) for p, e, q in got)
    chk.verdict("saved figures", f"{nm}: one file per requested format, at the requested place and resolution", ok, WP, f"{sorted(map(str, got))} instead of {sorted(map(str, want))}")


def pathtext(it, p):
    r = it.call(Ext("builtins.str"), [p], {})
    if not isinstance(r, str):
        raise Unsupported(f"path {show(N(r))[:200] if isinstance(r, Node) else r!r}")
    return r


def sharpness(chk):
    for case in ("normal", "no bins", "no isolated histogram", "no other histogram"):
        it, o, tabs, w = p20.build("plotter", masks=lambda j, r: r in PICK[j], opts=dict(plot_overview=False, plot_resonance_sharpness=True), prep=files)
        fig = Figure(it)
        calls = []
        A = lambda xs: it.new(Arr((len(xs),), tuple(xs), "float"))
        edges, width = [sym(f"edge{i}", "pos") for i in range(4)], [sym(f"width{i}", "pos") for i in range(3)]

        def hist(i, a, k):
            nm = ["my_data", "my_alpha_parameters", "my_bin_numbers", "my_bin_phases"]
            k = dict(dict(zip(nm, a)), **k)
            calls.append(("log", fig.freeze(k["my_data"]), k))
            return (A([sym("all0"), sym("all1"), sym("all2")]), None if case == "no bins" else A(edges), None if case == "no bins" else A(width), None)

        def lin(i, a, k):
            calls.append(("linear", None, k))
            return hist(i, a, k)

        def spec(i, a, k):
            nm = ["my_data", "my_bin_edges"]
            k = dict(dict(zip(nm, a)), **k)
            j = sum(1 for c in calls if c[0] == "spec")
            calls.append(("spec", fig.freeze(k["my_data"]), dict(k, my_bin_edges=fig.freeze(k["my_bin_edges"]))))
            which = "isolated" if j == 0 else "other"
            if case == f"no {which} histogram" or case == "no bins":
                return None
            return A([sym(f"h{j}_{q}") for q in range(3)])
        for n_, f in (("log_histogram_likelihood_blas", hist), ("histogram_likelihood_blas", lin), ("histogram_blas_log_spec_edges", spec)):
            h = it.res(getname(it, "hogg_jacky", n_))
            it.overrides[("func", h.name) if isinstance(h, Func) else ("ext", h.path)] = (lambda i, g, a, k, f=f: f(i, a, k)) if isinstance(h, Func) else f
        dds = [it.get(it.res(d)).d for d in it.iter_items(it.getattr(o, "_list_data_dict"))]
        it.call(it.getattr(o, "generate_plots"), [], {})
        chk.saw(it)
        data = [[T.fn("abs", N(p20.grid(it, d["resonance_sharpness_factor"])[i][0])) for d in dds for i in PICK[j]] for j in (0, 1)]
        logs, specs = [c for c in calls if c[0] != "spec"], [c for c in calls if c[0] == "spec"]
        kind = f"sharpness ({case})"
        same = lambda got, want: len(got) == len(want) and all(equal(N(a), N(b)) for a, b in zip(got, want))
        chk.verdict("sharpness figure", f"{kind}: bins are logarithmic ones of the sharpness of all triads drawn", len(logs) == 1 and logs[0][0] == "log" and same(cellsof(logs[0][1]), data[0] + data[1]), WS, f"{[(c[0], [show(N(x), 4) for x in cellsof(c[1])][:4]) for c in logs if c[1]]}")
        if logs and logs[0][0] == "log":
            k = {n_: it.res(x) for n_, x in logs[0][2].items()}
            chk.verdict("sharpness figure", f"{kind}: empirical probabilities", k.get("empirical_probability") is True and not k.get("empirical_density"), WS, f"{k}")
        if len(specs) != 2:
            chk.bad("sharpness figure", f"{kind}: histograms", WS, f"{len(specs)} histograms")
            continue
        order = []
        for j, c in enumerate(specs):
            which = [q for q in (0, 1) if same(cellsof(c[1]), data[q])]
            chk.verdict("sharpness figure", f"{kind}: histogram {j + 1} is of one of the two groups", len(which) == 1, WS, f"{[show(N(x), 4) for x in cellsof(c[1])][:6]}")
            order.append(which[0] if which else None)
            e = c[2]["my_bin_edges"]
            chk.verdict("sharpness figure", f"{kind}: histogram {j + 1} uses the common bins", e is None if case == "no bins" else isinstance(e, Arr) and same(cellsof(e), edges), WS, f"{e}")
        want = {} if case == "no bins" else {q: j for j, q in enumerate(order) if case != f"no {('isolated', 'other')[j]} histogram"}
        bars = [d for d in fig.drawn if d[1] == "bar"]
        if len(bars) != len(fig.drawn):
            raise Unsupported("drawn otherwise than with bars")
        chk.verdict("sharpness figure", f"{kind}: bars drawn", len(bars) == len(want), WS, f"{len(bars)} sets of bars instead of {len(want)}")
        for f, _, a, k in bars:
            k = dict(dict(zip(("x", "height", "width"), a)), **k)
            lab = k.get("label")
            lab = lab if isinstance(lab, str) else "".join(y if isinstance(y, str) else str(T.cval(N(y))) for y in flat(it, lab))
            q = 0 if "isolated" in lab.lower() else 1
            if q not in want:
                chk.bad("sharpness figure", f"{kind}: {lab}", WS, "drawn without a histogram")
                continue
            chk.verdict("sharpness figure", f"{kind}: {('isolated', 'other')[q]}: heights in percent", same(cellsof(k["height"]), [100 * sym(f"h{want[q]}_{z}") for z in range(3)]), WS, f"{[show(N(x)) for x in cellsof(k['height'])]}")
            chk.verdict("sharpness figure", f"{kind}: {('isolated', 'other')[q]}: bars at their bins", same(cellsof(k["x"]), [(edges[z] + edges[z + 1]) / 2 for z in range(3)]) and same(cellsof(k["width"]), width), WS, f"{[show(N(x)) for x in cellsof(k['x'])]}")
            cnt = len(PICK[q]) * len(tabs)
            import re
            m = re.search(r"(\d+)\s*triads", lab)
            if m:
                chk.verdict("sharpness figure", f"{kind}: {('isolated', 'other')[q]}: number of triads", int(m.group(1)) == cnt, WS, f"{lab} instead of {cnt}")
        saves(chk, fig, kind, "/out/sub/s1/sharp_x", ("png",))
