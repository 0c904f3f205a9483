"""Published-figure scripts: stability domains and the threshold estimate."""
import ast
import os
from fractions import Fraction
from .common import *
from .p03 import poly, gt
from .p21 import flat

EXPL = ("Abstract interpretation of the two stand-alone scripts from their first to their last statement, with symbolic damping ratios on the drawn grid, every choice of the two options, and data sets of every arrangement around the threshold: "
        "what each panel shows and what is printed, compared with the stability conditions of the model and with the definition of the estimate.")
DIR = "VB_et_al_2024_additional_plot_compute_scripts/"
WD, WT = DIR + "dziembowski_subplot.py", DIR + "compute_threshold_theta.py"
TH = [sym(f"th{i}", "pos") for i in range(3)]
TABLE = [(.76947, .55605), (.9256, .42858), (.30289, .65585), (.17994, .91831), (2.06433, .48298), (1.27865, .32), (.01816, 2.53183), (.7651, .3219), (.1308, .84057), (.00907, 3.08804), (.02771, 2.02044), (.85748, .79629),
         (.09346, 2.05217), (38.777, .07627), (3.58916, .2926), (.21492, .72069), (.92741, .34623), (.9967, .48095), (.41545, .61223), (1.58532, .30289), (18.0122, .12459)]


def script(it, path, flags=None):
    """run the file as a script; the options assigned under its main guard are set as a user would"""
    tree = ast.parse(open(os.path.join(REPO, path), encoding="utf-8").read())
    left = dict(flags or {})
    for st in tree.body:
        if isinstance(st, ast.If) and "__main__" in ast.dump(st.test):
            for s in ast.walk(st):
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id in left and isinstance(s.value, ast.Constant):
                    s.value.value = left.pop(s.targets[0].id)
    if left:
        raise Unsupported(f"options {sorted(left)} not assigned in the script")
    n0 = len(it.notes)
    it.load_file("__main__", os.path.join(REPO, path), tree)
    for n in it.notes[n0:]:
        if " raises: " in n:
            raise AbsRaise((n,), path)
        raise Unsupported(n)


def cells(it, v):
    v = it.res(v)
    c = it.get(v) if isinstance(v, Ref) else v
    if isinstance(c, (List, Arr)):
        return [cells(it, x) for x in (c.items if isinstance(c, List) else c.data)]
    return v


# ------------------------------------------------------------------ stability domains
def world(add_text, first_row):
    it = Interp(REPO)
    rec = dict(panels=[], ranges=[], saved=[], maps={}, order=[])

    def arange(i, a, k):
        v = (list(a) + [k[n] for n in ("start", "stop", "step") if n in k])
        rec["ranges"].append(tuple(T.cval(N(i.res(x))) for x in v))
        return i.new(Arr((3,), tuple(TH), "float"))

    def meshgrid(i, a, k):
        if len(a) != 2 or set(k) - {"indexing"}:
            raise Unsupported("meshgrid")
        x, y = cells(i, a[0]), cells(i, a[1])
        ij = i.res(k.get("indexing", "xy")) == "ij"
        X, Y = [(p, q) for p in x for q in y] if ij else [(p, q) for q in y for p in x], None
        sh = (len(x), len(y)) if ij else (len(y), len(x))
        return (i.new(Arr(sh, tuple(p for p, _ in X), "float")), i.new(Arr(sh, tuple(q for _, q in X), "float")))
    it.overrides[("ext", "numpy.arange")] = arange
    it.overrides[("ext", "numpy.meshgrid")] = meshgrid
    it.overrides[("ext", "matplotlib.colors.ListedColormap")] = lambda i, a, k: i.obj(None, {"colors": a[0] if a else k["colors"]}, label="cmap")

    def axes():
        p = dict(contour=[], contourf=[], imshow=[], text=[], xlabel=None, ylabel=None, nrange=None)
        rec["panels"].append(p)

        def draw(kind):
            def f(i, a, k):
                rec["order"].append((len(rec["ranges"]), p))
                p[kind].append((list(a), dict(k), len(rec["ranges"])))
                return sym("drawn")
            return Lam(f)
        d = {n: draw(n) for n in ("contour", "contourf", "imshow")}
        d["text"] = Lam(lambda i, a, k: p["text"].append((list(a), dict(k))))
        d["annotate"] = Lam(lambda i, a, k: p["text"].append((list(a), dict(k))))
        d["set_xlabel"] = Lam(lambda i, a, k: p.update(xlabel=i.res(a[0] if a else k["xlabel"])))
        d["set_ylabel"] = Lam(lambda i, a, k: p.update(ylabel=i.res(a[0] if a else k["ylabel"])))
        return it.obj(None, d, open=True, label="axes")

    def subplots(i, a, k):
        v = [int(i.res(x)) for x in a] + [1, 1][len(a):]
        v = [int(i.res(k.get("nrows", v[0]))), int(i.res(k.get("ncols", v[1])))]
        return (i.obj(None, {"savefig": Lam(save)}, open=True, label="figure"), i.list([axes() for _ in range(v[0] * v[1])]))

    def save(i, a, k):
        rec["saved"].append((i.res(a[0] if a else k.get("fname")), dict(k)))
    it.overrides[("ext", "matplotlib.pyplot.subplots")] = subplots
    it.overrides[("ext", "matplotlib.pyplot.savefig")] = save
    script(it, WD, dict(add_text=add_text, first_row=first_row))
    return it, rec


def stable(t2, t3, dg, which):
    q = dg / (1 - t2 - t3)
    p, s = t2 * t3, 1 - t2 - t3
    c4 = -18 * p - 3 * s * (s ** 2 + 4 * (t2 + t3 - p)) if which == "corr" else 3 * (-6 * p - s * ((t2 - t3) ** 2 + 2 * (t2 + t3) ** 2 + 1))
    return t2 + t3 > 1 and s ** 3 - 2 * p + (-12 * p - s * (2 * t2 ** 2 + 2 * t3 ** 2 + 2)) * q ** 2 + c4 * q ** 4 > 0


def over(dg, which, r, c):
    """damping ratios on both sides of the boundary of the domain, far from it and close to it"""
    def f(seed):
        import random
        rd = random.Random(str(seed) + "d")
        d = {f"th{i}": rd.uniform(.1, 40) for i in range(3)}
        kind = rd.random()
        if kind < .1:
            return d
        if kind < .3:      # damping weaker than driving: never stable
            a = rd.uniform(.001, .9)
            d[f"th{c}"], d[f"th{r}"] = a, rd.uniform(.01, .99) * (1 - a)
            return d

        def draw(want):
            for _ in range(4000):
                top = 10 ** rd.uniform(-1, 6)
                a = top * rd.uniform(.02, 1), top * rd.uniform(.02, 1)
                if a[0] + a[1] - 1 > 1e-6 and stable(*a, float(dg), which) == want:
                    return a
        x, y = draw(True), draw(False)
        if x is None or y is None:
            return d
        side, steps = rd.random() < .5, rd.choice([0, 3, 7, 12])
        for _ in range(steps):
            m = tuple((p + q) / 2 for p, q in zip(x, y))
            x, y = (m, y) if stable(*m, float(dg), which) else (x, m)
        v = x if side else y
        d[f"th{c}"], d[f"th{r}"] = v
        return d
    return f


def verdicts(t2, t3, dg, which):
    q = dg / (1 - t2 - t3)
    c = poly([num(1), -1 * t2, -1 * t3], q, which)
    return T.land(gt(c[0] + c[1] * q ** 2 + c[2] * q ** 4), gt(t2 + t3, 1))


def domains(chk, add_text, first_row):
    tag = f"{'first' if first_row else 'second'} row{', annotated' if add_text else ''}"
    it, rec = world(add_text, first_row)
    chk.saw(it)
    exps = (-1, 0, 1) if first_row else (2, 3, 4)
    ps = rec["panels"]
    chk.verdict("panels", f"{tag}: three panels", len(ps) == 3, WD, f"{len(ps)} panels")
    for j, (p, e) in enumerate(zip(ps, exps)):
        nm = f"{tag}: panel {j + 1}"
        dg = Fraction(10) ** e
        for kind, which in (("contour", "orig"), ("contourf", "orig"), ("imshow", "corr")):
            ds = p[kind]
            if len(ds) != 1:
                chk.bad("panels", f"{nm}: {kind}", WD, f"drawn {len(ds)} times")
                continue
            a, k, nr = ds[0]
            lim = rec["ranges"][nr - 1] if nr else ()
            z = a[0] if kind == "imshow" else a[2] if len(a) > 2 else None
            if kind == "imshow":
                ext = cells(it, k.get("extent"))
                ext = tuple(T.cval(N(it.res(x))) for x in (ext or ()))
                chk.verdict("panels", f"{nm}: the image covers the grid", ext == (lim[:2] * 2) and lim[0] > 0 and lim[1] > lim[0] and it.res(k.get("origin")) == "lower", WD, f"extent {[float(x) for x in ext]}, grid {[float(x) for x in lim]}, origin {k.get('origin')}")
                cm = it.res(k.get("cmap"))
                cm = cells(it, it.getattr(cm, "colors")) if isinstance(cm, Ref) else cm
                vm = [T.cval(N(it.res(k.get(n)))) for n in ("vmin", "vmax")]
                chk.verdict("panels", f"{nm}: stable cells are black", cm in (["white", "k"], ["white", "black"]) and vm == [0, 1], WD, f"{cm}, {vm}")
                X = [[TH[c] for c in range(3)] for r in range(3)]
                Y = [[TH[r] for c in range(3)] for r in range(3)]
            else:
                X, Y = cells(it, a[0]), cells(it, a[1])
                X, Y = [X[3 * r:3 * r + 3] for r in range(3)], [Y[3 * r:3 * r + 3] for r in range(3)]
            Z = cells(it, z)
            if not isinstance(Z, list) or len(Z) != 9:
                chk.bad("domains", f"{nm}: {kind}", WD, "no grid of nine cells")
                continue
            for r in range(3):
                for c in range(3):
                    if r == c:
                        continue
                    check_eq(chk, "domains", f"{nm}: {kind}, cell {r},{c}", Z[3 * r + c], verdicts(X[r][c], Y[r][c], dg, which), WD, it=it, over=over(dg, which, r, c), rounds=40)
        chk.verdict("panels", f"{nm}: axes", p["xlabel"] is not None and "_2" in p["xlabel"] and (p["ylabel"] is None if j else p["ylabel"] is not None and "_3" in p["ylabel"]), WD, f"{p['xlabel']}, {p['ylabel']}")
        tx = []
        for a, k in p["text"]:
            fl = [y for v in list(a) + [k.get("s"), k.get("text")] if v is not None for y in flat(it, it.res(v))]
            n = next((i for i, y in enumerate(fl) if isinstance(y, str) and "10^{" in y), None)
            rest = None if n is None else fl[n].split("10^{")[1] or (fl[n + 1] if n + 1 < len(fl) else None)
            tx.append(rest)
        good = len(tx) == 1 and tx[0] is not None and (tx[0].startswith(f"{e}}}") if isinstance(tx[0], str) else T.isnum(tx[0]) and equal(N(tx[0]), num(e)))
        chk.verdict("panels", f"{nm}: annotation", good if add_text else not tx, WD, f"{tx}")
    names = [str(n) for n, _ in rec["saved"]]
    want = f"Stability_domain_dg1_subplot_{'e-1_e0_e1' if first_row else 'e2_e3_e4'}_VB_et_al_2024{'_annotated' if add_text else ''}.png"
    chk.verdict("panels", f"{tag}: file name", names == [want], WD, f"{names} instead of {want}")


# ------------------------------------------------------------------ threshold estimate
PAND = '''
class Loc:
    def __init__(self, cols):
        self.cols = cols
    def __getitem__(self, key):
        return Column(self.cols[key[1]])

class Column:
    def __init__(self, vals):
        self.vals = vals
    def to_numpy(self):
        return ASARRAY(self.vals)
    @property
    def values(self):
        return ASARRAY(self.vals)
    def __array__(self):
        return ASARRAY(self.vals)

class DataFrame:
    def __init__(self, data=None, columns=None):
        if isinstance(data, dict):
            self.cols = {k: list(v) for k, v in data.items()}
        else:
            rows = list(data)
            self.cols = {k: [r[i] for r in rows] for i, k in enumerate(columns)}
        SEEN(self.cols)
        self.loc = Loc(self.cols)
    def __getitem__(self, key):
        return Column(self.cols[key])
'''


def estimate(chk, tag, data):
    it = Interp(REPO)
    D = lambda l: [Fraction(x) for x in l]
    if data is None:
        want = TABLE
    else:
        want = data
        it.overrides[("func", "get_values_for_interpolation")] = lambda i, f, a, k: (i.list(D(x for x, _ in data)), i.list(D(y for _, y in data)))
    m = it.load_file("pandas", "<stand-in for pandas>", ast.parse(PAND))
    it.get(m.env).vars["ASARRAY"] = Lam(lambda i, a, k: i.M.np_array(i, [a[0]], {}))
    it.get(m.env).vars["SEEN"] = Lam(lambda i, a, k: frames.append({c: [i.res(x) for x in cells(i, v)] for c, v in i.get(i.res(a[0])).d.items()}))
    frames = []
    regs, printed, drawn = [], [], []

    def sort_like(i, a, k):
        v = [i.res(x) for x in cells(i, a[0])]
        v = [None if T.isnum(x) and T.NAN in T.syms_of(N(x)) else T.cval(N(x)) for x in v]
        if any(x is None and not (T.isnum(y) and T.NAN in T.syms_of(N(y))) for x, y in zip(v, cells(i, a[0]))):
            raise Unsupported("order of symbolic values")
        n = int(i.res(a[1] if len(a) > 1 else k.get("kth", 0)))
        if n >= len(v):
            raise AbsRaise(("ValueError", "kth out of bounds"), it.where())
        o = sorted(range(len(v)), key=lambda j: (v[j] is None, v[j] or 0))
        # of a partition only the set of the first kth entries is fixed
        return i.new(Arr((len(v),), tuple(o[:n][::-1] + o[n:n + 1] + o[n + 1:][::-1]), "int"))

    def reg(i, a, k):
        regs.append(tuple(tuple(T.cval(N(x)) for x in cells(i, v)) for v in (a[0] if a else k["x"], a[1] if len(a) > 1 else k["y"])))
        return i.obj(None, {n: sym("reg." + n, "pos") for n in ("slope", "intercept", "stderr", "intercept_stderr", "rvalue", "pvalue")}, label="regression")
    it.overrides[("ext", "numpy.argpartition")] = sort_like
    it.overrides[("ext", "scipy.stats.linregress")] = reg
    it.overrides[("ext", "matplotlib.pyplot.plot")] = lambda i, a, k: drawn.append(a)
    it.overrides[("ext", "builtins.print")] = lambda i, a, k: printed.extend(y for x in a for y in flat(i, x if isinstance(x, str) else i.payload(x)))
    script(it, WT)
    chk.saw(it)
    P = [(Fraction(str(y)), Fraction(str(x))) for x, y in want]
    for f in frames:
        if data is None and set(f) == {"theta_2", "ratio_2_1"}:
            rows = [(T.cval(N(y)), T.cval(N(x))) for x, y in zip(f["theta_2"], f["ratio_2_1"])]
            chk.verdict("threshold", f"{tag}: the values of the table", sorted(rows) == sorted(P), WT, f"{[(float(b), float(a)) for a, b in set(rows) ^ set(P)]}")
    near = sorted(sorted((p for p in P if p[0] > 1), key=lambda p: p[0] - 1)[:3] + sorted((p for p in P if p[0] <= 1), key=lambda p: 1 - p[0])[:3])
    if len(regs) != 1:
        chk.bad("threshold", f"{tag}: one regression", WT, f"{len(regs)} regressions")
        return
    got = sorted(zip(*regs[0]))
    chk.verdict("threshold", f"{tag}: the three nearest triads on each side, damping ratio against amplitude ratio", got == near, WT, f"{[(float(a), float(b)) for a, b in got]} instead of {[(float(a), float(b)) for a, b in near]}")
    R = lambda n: sym("reg." + n, "pos")
    want = {"boundary": (R("intercept") + R("slope"), sqrt(R("stderr") ** 2 + R("intercept_stderr") ** 2)), "slope": (R("slope"), R("stderr")), "intercept": (R("intercept"), R("intercept_stderr"))}
    label, seen = None, {}
    for x in printed:
        if isinstance(x, str):
            label = next((w for w in want if w in x), label)
        elif label is not None:
            seen.setdefault(label, []).append(x)
    for w, vals in want.items():
        got = seen.get(w, [])
        ok = len(got) == 2 and all(T.isnum(it.res(g)) and equal(N(it.res(g)), N(v)) for g, v in zip(got, vals))
        chk.verdict("threshold", f"{tag}: {w} printed with its uncertainty", ok, WT, f"{[show(N(g))[:120] if T.isnum(g) else g for g in got]} instead of {[show(N(v)) for v in vals]}")
    if len(drawn) != 1 or len(drawn[0]) < 2:
        chk.bad("threshold", f"{tag}: the line", WT, f"{len(drawn)} curves")
        return
    x, y = cells(it, drawn[0][0]), cells(it, drawn[0][1])
    ok = sorted(T.cval(N(v)) for v in y) == [a for a, _ in near] and len(x) == len(y) and all(equal(N(p), R("intercept") + R("slope") * N(v)) for p, v in zip(x, y))
    chk.verdict("threshold", f"{tag}: the line is drawn through the fitted values", ok, WT, f"{[show(N(p))[:60] for p in x]} at {y}")


def arrangements():
    """data sets with different numbers of triads on the two sides, in different orders"""
    import random
    r = random.Random(29)
    out = []
    for above, below in ((3, 4), (4, 3), (4, 4), (7, 4), (4, 9), (6, 6)):
        hi = [Fraction(101 + 13 * j + r.randint(0, 9), 100) for j in range(above)]
        lo = [Fraction(99 - 9 * j - r.randint(0, 7), 100) for j in range(below)]
        pts = [(Fraction(r.randint(1, 4000), 1000), y) for y in hi + lo]
        r.shuffle(pts)
        out.append((f"{above} above and {below} below", pts))
    out.append(("one exactly at ratio one", [(Fraction(j + 3, 7), y) for j, y in enumerate([Fraction(5, 2), Fraction(1), Fraction(3, 2), Fraction(2, 5), Fraction(7, 10), Fraction(11, 5), Fraction(6, 5), Fraction(9, 10)])]))
    return out


def run(chk):
    chk.rule("domains", "the drawn domains are where the stability conditions of the model hold, for the damping ratios of the axes and the detuning of the panel")
    chk.rule("panels", "each row shows its three detunings on the grid announced, under its own name")
    chk.rule("threshold", "the threshold is the value at amplitude ratio one of the line through the three nearest triads on each side, with the uncertainties of slope and intercept added in quadrature")
    for t in (False, True):
        for f in (False, True):
            chk.guard("domains", f"{'first' if f else 'second'} row, text {t}", lambda: domains(chk, t, f), WD)
    chk.guard("threshold", "published table", lambda: estimate(chk, "published table", None), WT)
    for tag, pts in arrangements():
        chk.guard("threshold", tag, lambda: estimate(chk, tag, pts), WT)
    chk.floor = 50
