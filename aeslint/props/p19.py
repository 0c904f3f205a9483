"""One inlist, one run: every run option reaches the computation, the save action or the figure it is documented for."""
import ast
import itertools
import tomllib
from fractions import Fraction
from .common import *
from . import stubs
from .p17 import same

EXPL = ("Abstract interpretation of the run scripts from the command line to the constructors of the solver, saver, analyser and plotter, with stand-ins for the file system, argparse and the TOML reader: every leaf of the inlist is a distinct symbol, "
        "and each constructor argument, bound against the real signature, is compared with the inlist entry documented for it. The inlist that is shipped must hold every entry that is read.")
AR = "aesolver/aerunners/"
HOME = "/home/u/AESolver"
SAVE = "M3.25_out"


def shipped():
    with open(f"{REPO}/inlists/inlist.toml", "rb") as f:
        return tomllib.load(f)


def leaves(d, pre=()):
    for k, v in d.items():
        if isinstance(v, dict) and v:
            yield from leaves(v, pre + (k,))
        else:
            yield pre + (k,), v


class Inlist:
    """a nested dictionary with the layout of the shipped inlist; leaf values are symbols of the same type"""

    def __init__(self, it, over=None):
        self.it, self.over, self.v = it, over or {}, {}
        self.d = shipped()

    def sym(self, path, v):
        nm = ".".join(path)
        if nm in self.over:
            return self.over[nm]
        if isinstance(v, bool):
            return sym(nm, "bool")
        if isinstance(v, int):
            return sym(nm, "int")
        if isinstance(v, float):
            return sym(nm, "real")
        if isinstance(v, str):
            return f"<{nm}>"
        if isinstance(v, dict):
            return {}
        return [self.sym(path + (str(i),), x) for i, x in enumerate(v)]

    def conv(self, x):
        it = self.it
        if isinstance(x, dict):
            return it.new(Dict({k: self.conv(v) for k, v in x.items()}))
        if isinstance(x, list):
            return it.list([self.conv(v) for v in x])
        return x

    def table(self):
        def go(d, pre):
            return it.new(Dict({k: go(v, pre + (k,)) if isinstance(v, dict) and v else self.conv(self.sym(pre + (k,), v)) for k, v in d.items()}))
        it = self.it
        return go(self.d, ())

    def __getitem__(self, nm):
        """the value the entry must have wherever it arrives"""
        d, path = self.d, nm.split(".")
        for k in path:
            d = d[k]
        v = self.sym(tuple(path), d)
        return None if v == {} else v


def plain(it, x):
    x = it.res(x)
    if isinstance(x, Ref):
        c = it.get(x)
        if isinstance(c, Dict):
            return {plain(it, k): plain(it, v) for k, v in c.d.items()}
        if isinstance(c, List):
            r = [plain(it, v) for v in c.items]
            return r
        if isinstance(c, Obj) and c.cls is not None and c.cls.name == "Path":
            return c.attrs["s"]
    if isinstance(x, tuple):
        return tuple(plain(it, v) for v in x)
    return x


def eq(it, a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(eq(it, x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(eq(it, a[k], b[k]) for k in a)
    if isinstance(a, (bool, str)) or a is None or isinstance(b, (bool, str)) or b is None:
        if isinstance(a, Node) or isinstance(b, Node):
            return False
        return type(a) is type(b) and a == b
    if isinstance(a, Node) and isinstance(b, Node) and (T.isboolterm(a) or T.isboolterm(b)):
        return a == b or same(it, a, b)
    try:
        return same(it, a, b)
    except Exception:
        return a == b


SOLVER = {
    "rot_pct": "rotation.rot_percent", "use_complex": "coupling_coefficient.use_complex", "adiabatic": "coupling_coefficient.adiabatic", "use_rotating_formalism": "rotation.rotating_formalism",
    "use_symbolic_profiles": "coupling_coefficient.symbolic_profiles", "use_brunt_def": "coupling_coefficient.brunt_def_profiles", "use_parallel": "computation.parallel_mode_coupling",
    "numerical_integration_method": "computation.integration_method", "use_cheby_integration": "computation.angular.use_cheby", "cheby_order_multiplier": "computation.angular.cheby_mul",
    "cheby_blow_up_protection": "computation.angular.blow_up_protect", "cheby_blow_up_factor": "computation.angular.blow_up_fac", "get_debug_info": "verbosity-debug.get_debug_info",
    "polytrope_comp": "coupling_coefficient.compute_for_polytrope", "analytic_polytrope": "coupling_coefficient.analytic_polytrope", "polytrope_mass": "POLY_model.mass", "polytrope_radius": "POLY_model.radius",
    "progress_bars": "computation.display_progress"}
STAR = {"base_dir": "GYRE_selection.gyre_dir_path", "alternative_directory_path": "GYRE_selection.alternative.directory_path", "alternative_file_name": "GYRE_selection.alternative.file_name", "ad_path": "GYRE_selection.specifier.adiabatic",
        "nad_path": "GYRE_selection.specifier.nonadiabatic"}
POLY = {"base_dir": "POLY_selection.mode_path", "alternative_directory_path": "POLY_selection.alternative.directory_path", "alternative_file_name": "POLY_selection.alternative.file_name", "ad_path": "POLY_selection.specifier.modes", "nad_path": None}
MODES = ("parent", "daughter_1", "daughter_2")
SELECT = {"driven_n_low": "mode_info.parent.n.low", "driven_n_high": "mode_info.parent.n.high", "damped_n_low1": "mode_info.daughter_1.n.low", "damped_n_high1": "mode_info.daughter_1.n.high",
          "damped_n_low2": "mode_info.daughter_2.n.low", "damped_n_high2": "mode_info.daughter_2.n.high"}
CCSEL = {m + "_n": f"mode_info.coupling.{m}.n" for m in MODES}
CCPLOT = {"view_kernels": "plotting.profile.show_kernels", "view_term_by_term": "plotting.profile.show_term_by_term"}
SAVER = {"base_dir": "saving.solve.base_dir", "save_dir": "saving.solve.save_dir", "extra_specifier": "saving.solve.extra_specifier", "initial_save_format": "saving.solve.save_format"}
PSAVE = {"save_base_dir": "saving.plot.base_dir", "save_dir": "saving.plot.save_dir", "extra_specifier_save": "saving.plot.extra_specifier", "save_formats": "saving.plot.save_formats", "sharpness_save_name": "saving.plot.sharpness.save_name",
         "sharpness_subdir": "saving.plot.sharpness.save_subdir", "overview_save_name": "saving.plot.overview.save_name", "overview_subdir": "saving.plot.overview.save_subdir"}
PLOT = {"plot_overview": "plotting.plot.overview", "verbose": "verbosity-debug.verbose", "plot_coefficient_profile": "plotting.plot.coefficient_profile", "plot_resonance_sharpness": "plotting.plot.resonance_sharpness",
        "fig_size": "plotting.figure.size", "fig_dpi": "plotting.figure.dpi", "ax_label_size": "plotting.labels.ax_label.size", "tick_label_size": "plotting.labels.tick_label.size", "tick_size": "plotting.ticks.size",
        "rad_nr": "plotting.misc.rad_nr", "show_plots": "plotting.plot.show", "cmap": "plotting.colors.matplotlib_color_map", "tick_label_pad": "plotting.labels.tick_label.pad"}
LOAD = {k: f"plotting.load.{k}" for k in ("base_file_names", "specification_names", "masses", "Xcs", "triple_pairs", "meridional_degrees", "azimuthal_orders", "file_suffix", "nr_files", "output_dir", "base_dir")}
INFO = {"base_dir": "MESA.default.base_dir", "mesa_output_dir": "MESA.default.output_dir", "mesa_profile_substrings": ("MESA.selection.substrings", "MESA.selection.substrings_to_tuple"), "mesa_suffix": "MESA.selection.suffix",
        "gyre_base_dir": "GYRE.default.base_dir", "gyre_output_dir": "GYRE.default.output_dir", "gyre_detail_substring": ("GYRE.selection.detail_substrings", "GYRE.selection.detail_substrings_to_tuple"),
        "gyre_summary_substring": "GYRE.selection.summary_substring", "poly_base_dir": "POLY.structure.default.base_dir", "poly_struct_dir": "POLY.structure.default.output_dir",
        "poly_struct_substrings": ("POLY.structure.selection.substrings", "POLY.structure.selection.substrings_to_tuple"), "poly_struct_suffix": "POLY.structure.selection.suffix", "poly_mode_base_dir": "POLY.modes.default.base_dir",
        "poly_mode_dir": "POLY.modes.default.output_dir", "poly_mode_substrings": ("POLY.modes.selection.detail_substrings", "POLY.modes.selection.detail_substrings_to_tuple"), "poly_summary_substring": "POLY.modes.selection.summary_substring"}
ANALYSES = {"numbers_categories": "generate_mode_triad_numbers_per_model", "q_Q1_condition": "generate_counts_q_quality_factor_1_condition", "isolated_mode_properties": "generate_isolated_triad_mode_properties",
            "isolated_stability_validity_estimators": "generate_isolated_triad_stab_val_estimators", "isolated_triad_observables": "generate_isolated_triad_observables"}


def run(chk):
    R = chk.rule
    chk.floor = 500
    R("solver", "every argument of the solver is the inlist entry documented for it (the polytropic entries for polytropic grids), everything else keeps its default; exactly one of grid and profile is computed, otherwise the run is refused")
    R("modes", "the radial orders, degrees and azimuthal orders handed to the solver are those of the parent, the first and the second daughter, in this order")
    R("saver", "a grid is saved once, after it was computed, under the command-line name and with the save options of the inlist; a profile run saves no result file")
    R("verbosity", "the root logger and its handler get the debug level on request, the warning level when not verbose, and keep their level otherwise")
    R("inlist", "the inlist that is read is the one named on the command line (with dots in its name as well), or the shipped one, found from the work directory or from the place of the run script; other command lines are refused")
    R("folders", "the information folders are taken from their own inlist entries, substring lists as tuples on request")
    R("empty", "an empty inlist entry means no value; every other value is passed on unchanged")
    R("analysis", "the analyser and plotter get the load, plot and save entries of the inlist; each requested analysis, and no other, is run; figures are shown only on request")
    for front, poly in (("grid", False), ("grid", True), ("profile", False)):
        for form in ("default", "custom"):
            chk.guard("solver", f"{front}, {'polytrope' if poly else 'stellar model'}, {form} inlist", lambda: solve(chk, front, poly, form), AR + "solve_quadratic.py")
    for both in (True, False):
        chk.guard("solver", f"grid and profile both {both}", lambda: refused(chk, both), AR + "solve_quadratic.py")
    chk.guard("verbosity", "levels", lambda: levels(chk), "util-tools/log_formatter/log_formatter.py")
    chk.guard("inlist", "paths", lambda: paths(chk), AR)
    chk.guard("folders", "toml", lambda: folders(chk), "aesolver/aesolver/read_load_info/read_info_dirs.py")
    chk.guard("empty", "toml", lambda: empty(chk), "util-tools/inlist_handler/toml_inlist_handler.py")
    for tool in ("plot", "analyze"):
        chk.guard("analysis", tool, lambda: analyse(chk, tool), AR + f"{tool}_quadratic.py")


def world(argv, cwd=HOME, files=(HOME + "/inlists/inlist.toml",), over=None):
    it = Interp(REPO)
    v = stubs.install(it, argv, cwd, files)
    inl = Inlist(it, over)
    v("tomllib")["TABLE"] = it.list([Lam(lambda i, a, k: inl.table())])
    return it, v, inl


def logger(it, level="<level>"):
    rec = {"root": [], "handler": []}
    L = lambda k: Lam(lambda i, a, kw: rec[k].append(i.res((list(a) + list(kw.values()))[0])))
    h = it.obj(None, {"setLevel": L("handler")}, open=True, label="handler")
    return it.obj(None, {"setLevel": L("root"), "getEffectiveLevel": Lam(lambda i, a, k: level), "level": level, "handlers": it.list([h])}, open=True, label="logger"), rec


def recorder(it, c, rec, key, members=None):
    """replace class c: bind constructor arguments against the real signature, record, return a callable stand-in"""
    init, _ = c.find("__init__")
    dflt = {}

    def go(i, cls, args, kwargs):
        vars_ = {}
        it.bind(init, [None] + list(args), kwargs, vars_)
        vars_.pop("self", None)
        given = set(kwargs)
        names = [x.arg for x in init.node.args.args][1:]
        given |= set(names[: len(args)])
        n = len(rec)
        rec.append((key, vars_, given))
        if key in ("grid", "profile", "saver"):
            o = it.new(Obj(cls, {"_aeslint_id": n}, open=True, label=key))
            return o
        o = it.obj(None, {"_aeslint_id": n}, open=True, label=key)
        for m in members or ():
            if c.find(m)[0] is UNDEF:
                continue
            it.w(o).attrs[m] = Lam(lambda i2, a, k, m=m: rec.append((key + "." + m, None, None)))
        return o
    it.overrides[("class", c.name)] = go


ARGV = {"default": ["run_scripts/solve_quadratic.py", "--save_file_name", SAVE], "custom": ["run_scripts/solve_quadratic.py", "M8.00_run", "toml", "inlists/mine", "--save_file_name", SAVE]}


def start(front, poly, form, grid=None, prof=None):
    path = HOME + ("/inlists/inlist.toml" if form == "default" else "/inlists/mine/M8.00_run.toml")
    over = {"computation.compute_grid_models": front == "grid" if grid is None else grid, "computation.compute_coefficient_profile": front == "profile" if prof is None else prof,
            "coupling_coefficient.compute_for_polytrope": poly, "verbosity-debug.debug": False, "verbosity-debug.verbose": False}
    it, v, inl = world(ARGV[form], files=(HOME + "/inlists/inlist.toml", HOME + "/inlists/mine/M8.00_run.toml", HOME + "/inlists/mine/M8.toml"), over=over)
    rec = []
    m = "aesolver.solver."
    G, P = getname(it, m + "quadratic_grid", "QuadraticAEGridSolver"), getname(it, m + "quadratic_profile", "QuadraticAEProfileSolver")
    S = getname(it, "aesolver.data_handling.storer", "NumericalSaver")
    for c, k in ((G, "grid"), (P, "profile"), (S, "saver")):
        recorder(it, c, rec, k)
        f, _ = c.find("__call__")
        it.overrides[("func", f.name)] = None

    def call(i, f, args, kw):
        ref = i.res(args[0]) if args else None
        o = i.get(ref) if isinstance(ref, Ref) else None
        if isinstance(o, Obj) and "_aeslint_id" in o.attrs:
            rec.append(("call", o.attrs["_aeslint_id"], None))
            return None
        return NOTIMPL
    it.overrides[("func", "__call__")] = call
    lg, lrec = logger(it)
    return it, v, inl, rec, lg, lrec, path


def solve(chk, front, poly, form):
    it, v, inl, rec, lg, lrec, path = start(front, poly, form)
    f = getname(it, "aerunners.solve_quadratic", "perform_complete_solve_run")
    it.call(f, [], {"logger": lg})
    chk.saw(it)
    w = AR + "solve_quadratic.py"
    tag = f"{front}, {'polytrope' if poly else 'stellar model'}, {form} inlist"
    seq = [r[0] if r[0] != "call" else f"call {rec[r[1]][0]}" for r in rec]
    chk.verdict("saver", f"{tag}: sequence", seq == (["grid", "call grid", "saver", "call saver"] if front == "grid" else ["profile", "call profile"]), w, f"{seq}")
    if not rec or rec[0][0] != front:
        chk.bad("solver", f"{tag}: solver", w, f"{seq}")
        return
    _, a, given = rec[0]
    t = dict(SOLVER)
    t.update(POLY if poly else STAR)
    seen = set()
    for arg, key in t.items():
        want = inl[key] if key else None
        got = plain(it, a.get(arg, UNDEF))
        chk.verdict("solver", f"{tag}: {arg}", eq(it, got, want), w, f"is {got!r}, the entry {key} is {want!r}")
        seen.add(arg)
    want = tuple(inl["coupling_coefficient.terms_cc_conj"])
    got = plain(it, a["terms_cc_conj"])
    chk.verdict("solver", f"{tag}: terms_cc_conj", isinstance(got, tuple) and eq(it, got, want), w, f"{got!r} instead of {want!r}")
    chk.verdict("solver", f"{tag}: inlist_path", collapse(plain(it, a["inlist_path"])) == path, w, f"{plain(it, a['inlist_path'])!r} instead of {path!r}")
    chk.verdict("solver", f"{tag}: toml_use", plain(it, a["toml_use"]) is True, w, f"{a['toml_use']!r}")
    argn = next(iter(a))
    chk.verdict("solver", f"{tag}: {argn}", plain(it, a[argn]) == ARGV[form], w, f"{plain(it, a[argn])!r}")
    seen |= {"terms_cc_conj", "inlist_path", "toml_use", argn}
    sel = {k: inl[x] for k, x in (SELECT if front == "grid" else CCSEL).items()}
    sel.update({"mode_l": [inl[f"mode_info.{m}.l"] for m in MODES], "mode_m": [inl[f"mode_info.{m}.m"] for m in MODES]})
    nm = "mode_selection_dict" if front == "grid" else "cc_profile_selection_dict"
    seen.add(nm)
    got = plain(it, a[nm])
    chk.verdict("modes", f"{tag}: entries", isinstance(got, dict) and set(got) == set(sel), w, f"{sorted(got) if isinstance(got, dict) else got} instead of {sorted(sel)}")
    for k, x in sel.items():
        chk.verdict("modes", f"{tag}: {k}", isinstance(got, dict) and k in got and eq(it, got[k], x), w, f"{got.get(k) if isinstance(got, dict) else got!r} instead of {x!r}")
    if front == "profile":
        for k, x in CCPLOT.items():
            seen.add(k)
            chk.verdict("solver", f"{tag}: {k}", eq(it, plain(it, a[k]), inl[x]), w, f"{a[k]!r} instead of {inl[x]!r}")
        seen.add("save_name")
        chk.verdict("solver", f"{tag}: save_name", plain(it, a["save_name"]) == SAVE, w, f"{a['save_name']!r}")
    chk.verdict("solver", f"{tag}: all other arguments keep their defaults", not (given - seen), w, f"also given: {sorted(given - seen)}")
    if front == "grid" and len(rec) > 2 and rec[2][0] == "saver":
        _, s, given = rec[2]
        ws = {"save_name": SAVE, "polytropic": poly, "nr_modes": 3}
        ws.update({k: inl[x] for k, x in SAVER.items()})
        for k, x in ws.items():
            chk.verdict("saver", f"{tag}: {k}", eq(it, plain(it, s.get(k)), num(x) if type(x) is int else x) or plain(it, s.get(k)) == x and type(x) is not bool, w, f"{plain(it, s.get(k))!r} instead of {x!r}")
        o = it.res(s["solving_object"])
        chk.verdict("saver", f"{tag}: solver object", isinstance(o, Ref) and it.get(o).attrs.get("_aeslint_id") == 0, w, f"{o!r}")
    reads = [it.res(x[0]) for x in (it.iter_items(y) for y in it.iter_items(v("tomllib")["READ"]))]
    chk.verdict("inlist", f"{tag}: file read", bool(reads) and all(collapse(x) == path for x in reads), AR, f"{reads} instead of {path}")
    ops = [x for y in it.iter_items(v("tomllib")["READ"]) for x in it.iter_items(y)[1:]]
    chk.verdict("inlist", f"{tag}: opened for reading and closed", all(it.res(it.getattr(x, "mode")) in ("r", "rb") and it.res(it.getattr(x, "open")) is False for x in ops), "util-tools/inlist_handler/toml_inlist_handler.py", "the inlist is left open or opened for writing")


def collapse(p):
    import posixpath
    return posixpath.normpath(p if p.startswith("/") else HOME + "/" + p) if isinstance(p, str) else p


def refused(chk, both):
    it, v, inl, rec, lg, lrec, path = start("grid", False, "default", both, both)
    f = getname(it, "aerunners.solve_quadratic", "perform_complete_solve_run")
    try:
        it.call(f, [], {"logger": lg})
        chk.bad("solver", f"grid and profile both {both}", AR + "solve_quadratic.py", f"not refused: {[r[0] for r in rec]}")
    except AbsRaise as e:
        chk.verdict("solver", f"grid and profile both {both}", not rec, AR + "solve_quadratic.py", f"refused only after {[r[0] for r in rec]}")


def levels(chk):
    w = "util-tools/log_formatter/log_formatter.py"
    for debug, verbose in itertools.product((True, False), repeat=2):
        it = Interp(REPO)
        f = getname(it, "log_formatter", "adjust_root_logger_level")
        lg, rec = logger(it)
        d = it.new(Dict({"debug": debug, "verbose": verbose, "rot_pct": 20}))
        r = it.call(f, [lg, d], {})
        want = "logging.DEBUG" if debug else "<level>" if verbose else "logging.WARNING"
        nm = lambda x: getattr(x, "path", x)
        num_ = {"logging.DEBUG": 10, "logging.WARNING": 30}.get(want)
        ok = all((not xs and want == "<level>") or (xs and (nm(xs[-1]) == want or xs[-1] == num_)) for xs in rec.values())
        inst = f"debug {debug}, verbose {verbose}"
        chk.verdict("verbosity", inst, ok, w, f"{ {k: [nm(x) for x in xs] for k, xs in rec.items()} } instead of {want}")
        chk.verdict("verbosity", inst + ": only the two options are removed", list(it.get(d).d) == ["rot_pct"], w, f"{list(it.get(d).d)}")
        chk.verdict("verbosity", inst + ": same logger", it.res(r) == lg, w, "another logger is returned")


def paths(chk):
    S = HOME + "/inlists/inlist.toml"
    C, D = HOME + "/inlists/M3.25/run.v2.toml", HOME + "/inlists/M3.25/run.toml"
    files = (S, C, D, "/data/AESolver_runs/a.toml", HOME + "/my inlists/b.toml")
    cases = {"solve": [], "plot": [], "analyze": []}
    for tool in cases:
        tail = ["--save_file_name", "x"] if tool == "solve" else []
        sc = f"{tool}_quadratic.py"
        for cwd, a0 in ((HOME, f"run_scripts/{sc}"), (HOME + "/run_scripts", sc), ("/", f"{HOME}/run_scripts/{sc}"), ("/home/u", f"AESolver/run_scripts/{sc}")):
            cases[tool].append((cwd, [a0] + tail, S))
            cases[tool].append((cwd, [a0, "run.v2", "toml", "inlists/M3.25"] + tail, C))
            cases[tool].append((cwd, [a0, "run", "toml", "inlists/M3.25/"] + tail, D))
            cases[tool].append((cwd, [a0, "a", "toml", "/data/AESolver_runs"] + tail, "/data/AESolver_runs/a.toml"))
            cases[tool].append((cwd, [a0, "b", "toml", "./my inlists"] + tail, HOME + "/my inlists/b.toml"))
        a0 = f"run_scripts/{sc}"
        bad = [[a0, "missing", "toml", "inlists"] + tail, [a0, "run", "toml"] + tail]
        if tool == "solve":
            bad += [[a0], [a0, "run", "toml", "inlists/M3.25"], [a0, "x", "--save_file_name"], [a0, "run", "toml", "inlists/M3.25", "x", "--save_file_name"]]
        for b in bad:
            cases[tool].append((HOME, b, None))
    for tool, cs in cases.items():
        it, v, inl = world([], files=files)
        f = getname(it, f"aerunners.{tool}_quadratic", "_get_path_to_inlist" if tool == "solve" else "get_path_to_inlist")
        P = getname(it, f"aerunners.{tool}_quadratic", {"solve": "QuadraticSolveParser", "plot": "QuadraticPlotParser", "analyze": "QuadraticAnalysisParser"}[tool])
        h0 = dict(it.heap)
        for cwd, argv, want in cs:
            it.heap = dict(h0)
            v("sys")["argv"] = it.list(list(argv))
            v("pathlib")["CWD"] = it.list([cwd])
            inst = f"{tool}: in {cwd}: {' '.join(argv)}"
            w = AR + f"{tool}_quadratic.py"
            try:
                p = it.call(f, [], {"sys_arguments": v("sys")["argv"]})
                got = it.res(it.getattr(it.call(it.getattr(p, "resolve"), [], {}), "s"))
                if want is not None and got == want:
                    o = it.call(P, [], {"full_inlist_path": p})
                    got = stubcollapse(it.res(it.getattr(o, "inlist_path")), cwd)
                    rd = [stubcollapse(it.res(it.iter_items(x)[0]), cwd) for x in it.iter_items(v("tomllib")["READ"])]
                    chk.verdict("inlist", inst + ": file parsed", rd and all(x == want for x in rd), "util-tools/generic_parser/generic_parser.py", f"{rd} instead of {want}")
            except AbsRaise as e:
                got = None
                if want is not None:
                    chk.bad("inlist", inst, w, f"{e.exc} instead of {want}")
                    continue
            chk.verdict("inlist", inst, got == want, w, f"{got} instead of {want or 'a refusal'}")
        chk.saw(it)


def stubcollapse(p, cwd):
    import posixpath
    return posixpath.normpath(p if p.startswith("/") else cwd + "/" + p) if isinstance(p, str) else p


def folders(chk):
    w = "aesolver/aesolver/read_load_info/read_info_dirs.py"
    for tup in (True, False):
        over = {"information_folders." + x[1]: tup for x in INFO.values() if isinstance(x, tuple)}
        it, v, inl = world([], over=over)
        H = getname(it, "aesolver.read_load_info", "InfoDirHandler")
        o = it.call(H, [], dict(sys_arguments=it.list(["x"]), toml_use=True, inlist_path="/my/inlist.toml"))
        it.call(it.getattr(o, "parse_info_directories"), [], {})
        got = plain(it, it.getattr(o, "full_info"))
        chk.saw(it)
        chk.verdict("folders", f"entries, tuples {tup}", set(got) == set(INFO), w, f"{sorted(set(got) ^ set(INFO))}")
        for k, x in INFO.items():
            want = inl["information_folders." + (x[0] if isinstance(x, tuple) else x)]
            if isinstance(x, tuple) and tup:
                want = tuple(want)
            chk.verdict("folders", f"{k}, tuples {tup}", k in got and eq(it, got[k], want), w, f"{got.get(k)!r} instead of {want!r}")
        rd = [it.res(it.iter_items(x)[0]) for x in it.iter_items(v("tomllib")["READ"])]
        chk.verdict("folders", f"file, tuples {tup}", rd and all(x == "/my/inlist.toml" for x in rd), w, f"{rd}")


def empty(chk):
    w = "util-tools/inlist_handler/toml_inlist_handler.py"
    it, v, inl = world([])
    D = lambda **k: it.new(Dict(k))
    E = lambda: D()
    t = D(a=E(), b=D(c=E(), d=D(e=E(), f=sym("f", "int"))), g="", h=it.list([]), i=0, j=False, k=D(l=D(m=D(n=E()))), o=it.list(["x"]), p=Fraction(0))
    v("tomllib")["TABLE"] = it.list([Lam(lambda i, a, k: t)])
    H = getname(it, "inlist_handler", "TomlInlistHandler")
    got = plain(it, it.call(it.getattr(H, "get_inlist_values"), ["/x.toml"], {}))
    chk.saw(it)
    want = {"a": None, "b": {"c": None, "d": {"e": None, "f": sym("f", "int")}}, "g": "", "h": [], "i": 0, "j": False, "k": {"l": {"m": {"n": None}}}, "o": ["x"], "p": Fraction(0)}

    def cmp(g, x, pre):
        if isinstance(x, dict) and isinstance(g, dict):
            for k in set(x) | set(g):
                if k not in x or k not in g:
                    chk.bad("empty", f"{pre}{k}", w, "entry appeared or vanished")
                else:
                    cmp(g[k], x[k], f"{pre}{k}.")
            return
        chk.verdict("empty", pre.rstrip("."), type(g) is type(x) and g == x, w, f"{g!r} instead of {x!r}")
    cmp(got, want, "")


def analyse(chk, tool):
    w = AR + f"{tool}_quadratic.py"
    mod = f"aerunners.{tool}_quadratic"
    base = {"verbosity-debug.debug": False}
    flags = [f"analysis.{k}" for k in ANALYSES] if tool == "analyze" else ["plotting.plot.show"]
    for on in [None] + flags:
        for custom in (True, False) if on is None else (True,):
            over = dict(base, **{f: f == on for f in flags})
            over["plotting.load.use_custom_name"] = custom
            over["verbosity-debug.verbose"] = True
            it, v, inl = world([f"run_scripts/{tool}_quadratic.py"], over=over)
            rec = []
            if tool == "plot":
                c = getname(it, "aeplotter.quadratic_plotter", "QuadraticAEPlotter")
                recorder(it, c, rec, "plotter", ["generate_plots"])
            else:
                c = getname(it, "ae_analyzer.quadratic_stationary_analyzer", "QuadraticAEStationaryAnalyzer")
                recorder(it, c, rec, "analyser", list(ANALYSES.values()))
            it.overrides[("ext", "matplotlib.pyplot.show")] = lambda i, a, k: rec.append(("show", None, None))
            lg, lrec = logger(it)
            f = getname(it, mod, "perform_complete_plotting_run" if tool == "plot" else "perform_complete_analysis_run")
            it.call(f, [], {"logger": lg})
            chk.saw(it)
            seq = [r[0] for r in rec]
            if tool == "plot":
                want = ["plotter", "plotter.generate_plots"] + (["show"] if on else [])
            else:
                want = ["analyser"] + ([f"analyser.{ANALYSES[on.split('.')[1]]}"] if on else [])
            inst = f"{tool}: {on or 'nothing requested'}, custom names {custom}"
            chk.verdict("analysis", f"{inst}: actions", seq == want, w, f"{seq} instead of {want}")
            if not rec or rec[0][1] is None:
                continue
            a = rec[0][1]
            for arg, tab in (("load_information", LOAD), ("plotting_dict" if tool == "plot" else "analysis_dict", PLOT), ("save_information", PSAVE)):
                got = plain(it, a.get(arg))
                wt = {k: inl[x] for k, x in tab.items()}
                if tab is LOAD:
                    wt["use_standard_format"] = not custom
                chk.verdict("analysis", f"{inst}: {arg}: entries", isinstance(got, dict) and set(wt) <= set(got), w, f"{sorted(set(got) ^ set(wt)) if isinstance(got, dict) else got!r}")
                if not isinstance(got, dict):
                    continue
                for k, x in wt.items():
                    chk.verdict("analysis", f"{inst}: {arg}: {k}", k in got and eq(it, got[k], x), w, f"{got.get(k)!r} instead of {x!r}")
            rd = [stubcollapse(it.res(it.iter_items(x)[0]), HOME) for x in it.iter_items(v("tomllib")["READ"])]
            chk.verdict("analysis", f"{inst}: inlist", rd and all(x == HOME + "/inlists/inlist.toml" for x in rd), w, f"{rd}")
