"""Comparison figures of adiabatic and non-adiabatic modes."""
import ast
from .common import *

EXPL = ("Abstract interpretation of the comparison tool on symbolic adiabatic and non-adiabatic modes and stellar profiles: which files are asked for, and every curve, label, limit and heading of every figure, compared with what the figure is documented to show.")
W = "aesolver/aesolver/ad_nad_comparer/comparer.py"
WG = "aesolver/aesolver/ad_nad_comparer/plotting/gyre_plotter.py"
WM = "aesolver/aesolver/ad_nad_comparer/plotting/mesa_plotter.py"
N_ = 3
UNITS = ("CYC_PER_DAY", "HZ", "UHZ", "RAD_PER_SEC")
UNITTXT = {"CYC_PER_DAY": "d$^{-1}$", "HZ": "Hz", "UHZ": "$\\mu$Hz", "RAD_PER_SEC": "rad s$^{-1}$", "NONE": ""}
INFO = {"base_dir": "/models/", "mesa_output_dir": "mesa/", "mesa_profile_substrings": ("x", "y"), "mesa_suffix": "dat", "gyre_detail_substring": "det", "gyre_summary_substring": "sum"}
OTHER = {"gyre_output_dir": "default/", "gyre_base_dir": "/g/", "poly_base_dir": "/p/", "poly_mode_dir": "/q/"}
PROFILES = [({"h1": "h1", "h2": "h2", "he3": "he3", "he4": "he4"}, "x"),
            ({"brunt_N2": "N$^2$", "brunt_N2_structure_term": "N$^2_{structure}$", "brunt_N2_composition_term": "N$^2_{composition}$"}, "N$^2$"),
            ({"lamb_S2": None}, "S$^2$"), ({"csound": None}, "c$_{s}$"), ({"hyeq_lhs-hyeq_rhs": None}, "lhs - rhs"), ({"gamma_1_adDer": None}, "(d$\\Gamma_1$/dr)$_S$"),
            ({"log_D_mix": "log_D_mix", "log_D_conv": "log_D_conv", "log_D_ovr": "log_D_ovr", "log_D_minimum": "log_D_min"}, "log D"), ({"pressure": None}, "P"), ({"logRho": None}, "log $\\rho$"), ({"logT": None}, "log T"),
            ({"grada": "$\\Delta_a$", "gradT": "$\\Delta_T$", "gradr": "$\\Delta_r$"}, "$\\Delta$")]


class Drawn:
    """one record per pair of axes: curves, labels, limits, heading"""

    def __init__(self, it):
        self.it, self.figs = it, []
        it.overrides[("ext", "matplotlib.pyplot.subplots")] = self.subplots

    def frz(self, x):
        x = self.it.res(x)
        c = self.it.get(x) if isinstance(x, Ref) else x
        if isinstance(c, Arr):
            return tuple(self.it.res(y) for y in c.data)
        if isinstance(c, List):
            return tuple(self.frz(y) for y in c.items)
        return x

    def subplots(self, it, a, k):
        nr, nc = [int(x) for x in (list(a[:2]) + [k.get("nrows", 1), k.get("ncols", 1)][len(a[:2]):])]
        fig = dict(axes=[], sharex=k.get("sharex", False))
        self.figs.append(fig)
        axs = [self.axes(it, fig) for _ in range(nr * nc)]
        f = it.obj(None, {}, open=True, label="figure")
        return (f, axs[0] if len(axs) == 1 else it.list(axs))

    def axes(self, it, fig):
        r = dict(lines=[], xlabel=None, ylabel=None, title=None, xlim=None, ylim=None, legend=False)
        fig["axes"].append(r)
        pos = lambda a, k, *ns: self.frz(a[0]) if a else next((self.frz(k[n]) for n in ns if n in k), None)
        lim = lambda nm: Lam(lambda i, a, k: r.__setitem__(nm, (tuple(self.frz(x) for x in a) if len(a) > 1 else self.frz(a[0])) if a else (k.get("left", k.get("bottom", k.get("xmin"))), k.get("right", k.get("top", k.get("xmax"))))))
        return it.obj(None, {"plot": Lam(lambda i, a, k: (r["lines"].append((self.frz(a[0]), self.frz(a[1]), self.frz(k.get("label")))), i.list([sym("line")]))[1]),
                             "set_xlabel": Lam(lambda i, a, k: r.update(xlabel=pos(a, k, "xlabel"))), "set_ylabel": Lam(lambda i, a, k: r.update(ylabel=pos(a, k, "ylabel"))),
                             "set_title": Lam(lambda i, a, k: r.update(title=pos(a, k, "label"))), "set_xlim": lim("xlim"), "set_ylim": lim("ylim"),
                             "set": Lam(lambda i, a, k: r.update({n: self.frz(v) for n, v in k.items() if n in r})), "legend": Lam(lambda i, a, k: r.update(legend=True))}, open=True, label="axes")



def part(it, o, name):
    """the plotter of the comparer that draws modes or structure, however it is stored."""
    meth = {"_gyre_plotter": "figure_comparison", "_mesa_plotter": "figure_profile"}[name]
    for k, v in list(it.get(o).attrs.items()):
        v = it.res(v)
        c = it.get(v) if isinstance(v, Ref) else None
        if getattr(c, "cls", None) is not None:
            try:
                it.getattr(v, meth)
                return v
            except AbsRaise:
                pass
    return it.getattr(o, name)


def modes(it, kind, unit, as_bytes, frame):
    A = lambda nm, pos=None: it.new(Arr((N_,), tuple(sym(f"{nm}[{i}]", *([pos] if pos else [])) for i in range(N_)), "float"))
    l = []
    for j in range(3):
        d = {nm: it.new(Dict({"re": A(f"{kind}{j}.{nm}.re"), "im": A(f"{kind}{j}.{nm}.im")})) for nm in ("xi_r", "xi_h", "eul_P")}
        d.update(x=A(f"{kind}{j}.x"), M_r=A(f"{kind}{j}.M_r"), M_star=sym(f"{kind}{j}.M", "pos"), Gamma_1=A(f"{kind}{j}.Gamma_1"), P=A(f"{kind}{j}.P", "pos"))
        q = 100 * (kind == "nad") + 10 * j
        d.update(l=3 + j, m=-2 + j if kind == "ad" else -2 + j, n_g=21 + j, n_pg=-21 - j, n_p=90 + j, freq=q + 1001, freq_units=unit.encode() if as_bytes else unit, freq_frame=frame.encode() if as_bytes else frame)
        l.append(it.new(Dict(d)))
    return it.list(l)


def world(unit="CYC_PER_DAY", as_bytes=True, frame="INERTIAL", base="/base/", pct=20, paths=None, combo=None):
    it = Interp(REPO)
    dr = Drawn(it)
    asked, infos = [], []
    names = set(sum([sum([k.split("-") for k in p], []) for p, _ in PROFILES], [])) | {"mass", "radius", "mu", "z"}
    mesa = it.list([it.new(Dict({nm: it.new(Arr((N_,), tuple(sym(f"mesa{j}.{nm}[{i}]", "pos") for i in range(N_)), "float")) for nm in sorted(names)})) for j in range(3)])

    def loader(i, c, a, k):
        if a:
            raise Unsupported("positional arguments of the loader")
        kind = "nad" if "nad" in str(k.get("gyre_output_dir")) else "ad"
        rec = dict(kind=kind, kw=dict(k), read=[])
        asked.append(rec)
        return i.obj(None, {"read_data_files": Lam(lambda i, a, k: rec["read"].append(({n: dr.frz(v) for n, v in k.items()}, list(a)))), "gyre_details": modes(i, kind, unit, as_bytes, frame), "mesa_profile": mesa}, label="loader")
    it.overrides[("class", "ModelLoader")] = loader
    parsed = []
    full = dict(INFO, **OTHER)

    def folders(i, c, a, k):
        infos.append((list(a), dict(k)))
        return i.obj(None, {"parse_info_directories": Lam(lambda i, a, k: parsed.append(1)), "gyre_comparison_info": i.new(Dict(dict(INFO))), "load_info": i.new(Dict(dict(INFO, gyre_output_dir="default/"))), "full_info": i.new(Dict(full))}, label="folders")
    it.overrides[("class", "InformationDirectoriesHandler")] = folders
    info = it.obj(None, dict(mode_l=it.list([3, 4, 5]), mode_m=it.list([-2, -1, 0]), combinations_radial_orders=it.list([it.list([-31, -41, -51]), it.list([-32, -42, -52])])), label="modes")
    kw = dict(base_dir=base)
    kw.update(paths or {})
    o = it.call(getname(it, "aesolver.ad_nad_comparer", "AdNadComparer"), [it.list(["/run/x.py"]), pct, info], kw)
    it.call(it.getattr(o, "load_modes"), [], {} if combo is None else {"radial_order_combo_nr": combo})
    return it, o, dr, asked, infos, parsed


def eq(a, b):
    return T.isnum(a) and T.isnum(b) and equal(T.asterm(a), T.asterm(b)) if not isinstance(a, (str, type(None))) else a == b


def run(chk):
    R = chk.rule
    R("files", "adiabatic and non-adiabatic modes come from their own directories, with the degrees, azimuthal and radial orders of the requested triad, the entries of the folders file and g-modes for all three")
    R("modes", "per mode the figures show the real and imaginary parts of the radial and of the horizontal displacement, adiabatic and non-adiabatic, of that mode, each against its own coordinate from centre to surface")
    R("heading", "a figure is headed by degree, azimuthal and radial order and both frequencies with their unit and reference frame")
    R("profiles", "each profile figure draws the quantities announced, or their difference, against mass or radius in units of the largest value")
    R("panels", "a figure of a requested quantity, part, coordinate and limits shows exactly that; inconsistent labels and parts end the run")
    chk.guard("files", "defaults", lambda: files(chk), W)
    for rad in (False, True):
        chk.guard("modes", f"radius {rad}", lambda: eigen(chk, rad), WG)
        chk.guard("profiles", f"radius {rad}", lambda: profiles(chk, rad), WM)
    for u in UNITS + ("NONE",):
        for b in (True, False):
            chk.guard("heading", f"{u}, {'bytes' if b else 'text'}", lambda: heading(chk, u, b, "INERTIAL" if b else "COROT_O"), WG)
    chk.guard("panels", "modes", lambda: panels(chk), WG)
    chk.guard("panels", "profiles", lambda: mesa_panels(chk), WM)
    chk.guard("panels", "refused", lambda: refused(chk), WG)
    chk.floor = 200


def files(chk):
    for tag, kw, ad, nad, n in (("defaults", {}, "/base/output_rot_20/", "/base/output_nad_rot_20/", [-31, -41, -51]), ("other rotation, second triad", dict(pct=35, combo=1), "/base/output_rot_35/", "/base/output_nad_rot_35/", [-32, -42, -52]),
                                ("named directories", dict(paths=dict(ad_path="one", nad_path="two_nad", alternative_directory_path="/alt/", alternative_file_name="alt.dat"), base="/b/"), "/b/one/", "/b/two_nad/", [-31, -41, -51])):
        it, o, dr, asked, infos, parsed = world(**kw)
        for kind, want in (("ad", ad), ("nad", nad)):
            rs = [r for r in asked if r["kind"] == kind]
            chk.verdict("files", f"{tag}: {kind}: loaded once", len(rs) == 1, W, f"{len(rs)} loaders")
            if not rs:
                continue
            k = rs[0]["kw"]
            chk.verdict("files", f"{tag}: {kind}: directory", k.get("gyre_output_dir") == want, W, f"{k.get('gyre_output_dir')} instead of {want}")
            for nm, w in (("search_l", (3, 4, 5)), ("search_m", (-2, -1, 0)), ("search_n", tuple(n))):
                chk.verdict("files", f"{tag}: {kind}: {nm}", nm in k and dr.frz(k[nm]) == w, W, f"{dr.frz(k.get(nm))} instead of {w}")
            chk.verdict("files", f"{tag}: {kind}: directories are not inferred", it.res(k.get("infer_dir")) is False, W, f"infer_dir {k.get('infer_dir')}")
            for nm, w in INFO.items():
                chk.verdict("files", f"{tag}: {kind}: {nm} of the folders file", nm in k and it.res(k[nm]) == w, W, f"{k.get(nm)} instead of {w}")
            rd = rs[0]["read"]
            ok = len(rd) == 1 and rd[0][0].get("gyre_detail") is True and rd[0][0].get("mesa_profile") is True and rd[0][0].get("g_modes") == (True, True, True)
            chk.verdict("files", f"{tag}: {kind}: oscillation details of three g modes and the structure are read", ok, W, f"{rd}")
        a, k = infos[0]
        got = dict(zip(("sys_arguments",), a))
        got.update(k)
        chk.verdict("files", f"{tag}: folders file", parsed == [1] and dr.frz(got.get("sys_arguments")) == ("/run/x.py",) and got.get("alternative_directory_path") == kw.get("paths", {}).get("alternative_directory_path") and got.get("alternative_file_name") == kw.get("paths", {}).get("alternative_file_name"), W, f"{got}")
        chk.saw(it)


def coord(kind, j, nm, i):
    return sym(f"{kind}{j}.M_r[{i}]") / sym(f"{kind}{j}.M", "pos") if nm == "mass" else sym(f"{kind}{j}.{nm}[{i}]")


def panel(chk, rule, tag, r, j, xn, yn, where, xlabel, ylabel, part=None, xpart=None, xlim=(0, 1), ylim=None, legend=True):
    ls = {str(l[2]): l for l in r["lines"]}
    chk.verdict(rule, f"{tag}: one curve of each kind", len(r["lines"]) == 2 and set(ls) == {"adiabatic", "non-adiabatic"}, where, f"curves {[l[2] for l in r['lines']]}")
    q = lambda kind, nm, p, i: coord(kind, j, nm, i) if p is None else sym(f"{kind}{j}.{nm}.{p}[{i}]")
    for lab, kind in (("adiabatic", "ad"), ("non-adiabatic", "nad")):
        if lab not in ls:
            continue
        xs, ys, _ = ls[lab]
        for what, got, nm, p in (("coordinate", xs, xn, xpart), ("values", ys, yn, part)):
            want = [q(kind, nm, p, i) for i in range(N_)]
            chk.verdict(rule, f"{tag}: {lab}: {what}", isinstance(got, tuple) and len(got) == N_ and all(eq(g, w) for g, w in zip(got, want)), where, f"{show(N(got[0]), 6) if isinstance(got, tuple) and got else got} instead of {show(want[0], 6)}")
    labels(chk, rule, tag, r, where, xlabel, ylabel, xlim, ylim, legend)


def labels(chk, rule, tag, r, where, xlabel, ylabel, xlim, ylim, legend):
    chk.verdict(rule, f"{tag}: labels", r["ylabel"] == ylabel and r["xlabel"] == xlabel, where, f"{r['xlabel']!r}, {r['ylabel']!r} instead of {xlabel!r}, {ylabel!r}")
    for nm, want in (("xlim", xlim), ("ylim", ylim)):
        got = r[nm]
        same_ = got == want if want is None or got is None else len(got) == 2 and all((g is None and w is None) or (g is not None and w is not None and eq(g, w)) for g, w in zip(got, want))
        chk.verdict(rule, f"{tag}: {nm}", same_, where, f"{got} instead of {want}")
    chk.verdict(rule, f"{tag}: legend", r["legend"] == legend, where, f"legend {r['legend']}")


def eigen(chk, rad):
    it, o, dr, *_ = world()
    it.call(it.getattr(o, "generate_mode_eigenfunction_comparison_figures"), [], {"radius_profiles": rad})
    chk.saw(it)
    chk.verdict("modes", f"radius {rad}: two figures per mode", len(dr.figs) == 6 and all(len(f["axes"]) == 2 and f["sharex"] in (True, "all", "col") for f in dr.figs), W, f"{[len(f['axes']) for f in dr.figs]} axes")
    xn, xl = ("x", "r / R$_*$") if rad else ("mass", "m / M$_*$")
    todo = {(j, c): None for j in range(3) for c in "RH"}
    for f in dr.figs:
        t = f["axes"][0]["title"]
        js = [j for j in range(3) if isinstance(t, str) and f"({3 + j},{-2 + j},{21 + j})" in t.replace(" ", "")]
        yl = str(f["axes"][0]["ylabel"])
        c = [c for c in "RH" if "xi_" + c in yl]
        if len(js) != 1 or len(c) != 1:
            chk.bad("modes", f"radius {rad}: announced mode and quantity", WG, f"heading {t!r}, label {yl!r}")
            continue
        j, c = js[0], c[0]
        todo[j, c] = True
        for r, part, nm in zip(f["axes"], ("re", "im"), ("Re", "Im")):
            panel(chk, "modes", f"radius {rad}: mode {j + 1}, {nm} xi_{c}", r, j, xn, {"R": "xi_r", "H": "xi_h"}[c], WG, xl if part == "im" else None, f"${nm}[\\xi_{c}]$", part, legend=part == "re")
        chk.verdict("modes", f"radius {rad}: mode {j + 1}, xi_{c}: heading once", f["axes"][1]["title"] is None, WG, f"{f['axes'][1]['title']}")
    for (j, c), v in todo.items():
        chk.verdict("modes", f"radius {rad}: mode {j + 1}, xi_{c}: shown", v is not None, W, "no figure")


def heading(chk, unit, as_bytes, frame):
    it, o, dr, *_ = world(unit, as_bytes, frame)
    it.call(it.getattr(part(it, o, "_gyre_plotter"), "figure_comparison"), [], {"mode_nr": 2})
    chk.saw(it)
    t = dr.figs[0]["axes"][0]["title"]
    s = str(t).replace(" ", "")
    tag = f"{unit}, {frame}, {'bytes' if as_bytes else 'text'}"
    chk.verdict("heading", f"{tag}: frame", s.endswith(f"({frame.lower()}frame)"), WG, f"{t!r}")
    chk.verdict("heading", f"{tag}: quantum numbers", "(l,m,n):(4,-1,22)" in s, WG, f"{t!r}")
    chk.verdict("heading", f"{tag}: frequencies and unit", "1011/1111" + UNITTXT[unit].replace(" ", "") + "\n(" in s, WG, f"{t!r}")


def panels(chk):
    for tag, j, kw, y in (("defaults", 0, {}, ("x", "xi_r", "re", None)), ("third mode, imaginary part", 2, dict(mode_nr=3, y_quantity="xi_h", real_quantity_y=False, y_label="Y"), ("x", "xi_h", "im", None)),
                          ("real quantities", 1, dict(mode_nr=2, x_quantity="mass", x_label="M", y_quantity="Gamma_1", real_quantity_y=None, y_bounds=(1, 2), x_bounds={"left": 0, "right": 2}), ("mass", "Gamma_1", None, None)),
                          ("complex abscissae", 1, dict(mode_nr=2, x_quantity="eul_P", real_quantity_x=False, y_quantity="xi_r", real_quantity_y=True, x_bounds=(0, 3), y_bounds={"bottom": -1, "top": 4}), ("eul_P", "xi_r", "re", "im"))):
        it, o, dr, *_ = world()
        it.call(it.getattr(part(it, o, "_gyre_plotter"), "figure_comparison"), [], {k: (it.new(Dict(dict(v))) if isinstance(v, dict) else v) for k, v in kw.items()})
        chk.saw(it)
        ax = dr.figs[0]["axes"]
        lim = lambda b: None if b is None else b if isinstance(b, tuple) else tuple(b.values())
        panel(chk, "panels", tag, ax[0], j, y[0], y[1], WG, kw.get("x_label", "r / R$_*$"), kw.get("y_label", ""), y[2], y[3], xlim=lim(kw.get("x_bounds")), ylim=lim(kw.get("y_bounds")))
        chk.verdict("panels", f"{tag}: heading", ax[0]["title"] is not None and len(ax) == 1, WG, f"{ax[0]['title']}, {len(ax)} axes")


def profile(chk, rule, tag, r, row, ys, x, ylabel, xlabel, xlim, ylim=None):
    """`ys`: quantity -> legend label; `x`: value of the abscissa at a point; quantities may be "a-b" or callables"""
    q = lambda nm, i: sym(f"mesa{row}.{nm}[{i}]", "pos")
    left = list(r["lines"])
    chk.verdict(rule, f"{tag}: number of curves", len(left) == len(ys), WM, f"{len(left)} curves instead of {len(ys)}")
    for nm, lab in ys.items():
        val = (lambda i: q(nm.split("-")[0], i) - q(nm.split("-")[1], i)) if "-" in nm else (lambda i: q(nm.split("/")[0], i) / q(nm.split("/")[1], i)) if "/" in nm else (lambda i: q(nm, i))
        hit = [l for l in left if isinstance(l[1], tuple) and len(l[1]) == N_ and all(eq(g, val(i)) for i, g in enumerate(l[1]))]
        chk.verdict(rule, f"{tag}: {nm}: drawn", len(hit) == 1, WM, f"drawn {len(hit)} times; values {[show(N(l[1][0]), 6) for l in left if isinstance(l[1], tuple)]}")
        for l in hit[:1]:
            chk.verdict(rule, f"{tag}: {nm}: label", l[2] == lab, WM, f"{l[2]!r} instead of {lab!r}")
            chk.verdict(rule, f"{tag}: {nm}: abscissae", isinstance(l[0], tuple) and len(l[0]) == N_ and all(eq(g, x(i)) for i, g in enumerate(l[0])), WM, f"{show(N(l[0][0]), 8) if isinstance(l[0], tuple) else l[0]} instead of {show(x(0), 8)}")
    labels(chk, rule, tag, r, WM, xlabel, ylabel, xlim, ylim, any(v is not None for v in ys.values()))


def profiles(chk, rad):
    it, o, dr, *_ = world()
    it.call(it.getattr(o, "generate_profile_figures"), [], {"radius_profiles": rad})
    chk.saw(it)
    nm, xl = ("radius", "r / R$_*$") if rad else ("mass", "m / M$_*$")
    chk.verdict("profiles", f"radius {rad}: figures", len(dr.figs) == len(PROFILES), W, f"{len(dr.figs)} figures")
    for ys, lab in PROFILES:
        c = [f for f in dr.figs if len(f["axes"]) == 1 and f["axes"][0]["ylabel"] == lab]
        chk.verdict("profiles", f"radius {rad}: {lab}: one figure", len(c) == 1, W, f"{len(c)} figures labelled {lab!r}")
        if len(c) == 1:
            profile(chk, "profiles", f"radius {rad}: {lab}", c[0]["axes"][0], 0, ys, relative(it, 0, nm), lab, xl, (0, 1))


def BIG(it):
    it.load_file("aes_largest", "<largest>", ast.parse("def largest(x):\n    return max(x)\n"))
    return it.get(it.modules["aes_largest"].env).vars["largest"]


def relative(it, row, nm):
    """the quantity over its largest value"""
    cells = [sym(f"mesa{row}.{nm}[{i}]", "pos") for i in range(N_)]
    m = it.call(BIG(it), [it.new(Arr((N_,), tuple(cells), "float"))], {})
    return lambda i: cells[i] / N(m)


def mesa_panels(chk):
    for tag, row, kw, ys, nx in (("plain", 1, dict(x_quantity="mass", y_quantity="mu", x_label="a", y_label="b"), {"mu": None}, None), ("quotient", 2, dict(mode_nr=2, x_quantity="radius", y_quantity="logT", x_label="a", y_label="b", y_legend_labels="T", y_normalizing_quantity="mu", x_bounds=(0, 5), y_bounds=(1, 2)), {"logT/mu": "T"}, None),
                                 ("several", 0, dict(mode_nr=0, x_quantity="radius", y_quantity=["mu", "z"], x_label="a", y_label="b", y_legend_labels=["m", "zz"], x_normalizing_quantity="mass"), {"mu": "m", "z": "zz"}, "mass")):
        it, o, dr, *_ = world()
        k = {n: it.list(v) if isinstance(v, list) else v for n, v in kw.items()}
        it.call(it.getattr(part(it, o, "_mesa_plotter"), "figure_profile"), [], k)
        chk.saw(it)
        xq = lambda i: sym(f"mesa{row}.{kw['x_quantity']}[{i}]", "pos") / (sym(f"mesa{row}.{nx}[{i}]", "pos") if nx else 1)
        profile(chk, "panels", f"profile, {tag}", dr.figs[0]["axes"][0], row, ys, xq, "b", "a", kw.get("x_bounds"), kw.get("y_bounds"))


def refused(chk):
    for tag, who, kw in (("three labels", "_gyre_plotter", dict(meth="figure_comparison", y_label=["a", "b", "c"], real_quantity_y=[True, False])), ("two labels, one part", "_gyre_plotter", dict(meth="figure_comparison", y_label=["a", "b"], real_quantity_y=[True])),
                         ("list of labels, one profile", "_mesa_plotter", dict(meth="figure_profile", x_quantity="mass", x_label="a", y_label="b", y_quantity="mu", y_legend_labels=["a", "b"])),
                         ("one label, two profiles", "_mesa_plotter", dict(meth="figure_profile", x_quantity="mass", x_label="a", y_label="b", y_quantity=["mu", "z"], y_legend_labels="a"))):
        it, o, dr, *_ = world()
        kw = {n: it.list(v) if isinstance(v, list) else v for n, v in kw.items()}
        drawn = lambda: [l for f in dr.figs for r in f["axes"] for l in r["lines"]]
        try:
            it.call(it.getattr(part(it, o, who), kw.pop("meth")), [], kw)
        except AbsRaise as e:
            chk.verdict("panels", f"refused: {tag}", e.exc[0] == "SystemExit" and not drawn(), e.where, f"stops with {e.exc[0]}, {len(drawn())} curves drawn")
        else:
            chk.bad("panels", f"refused: {tag}", WG, f"{len(drawn())} curves drawn")
        chk.saw(it)
