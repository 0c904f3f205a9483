"""Solver wiring: every triad is solved from its own data with the requested options."""
import itertools
from fractions import Fraction
from .common import *

EXPL = ("Abstract interpretation of the solver front ends (grid, profile, combined) from construction to the stored results, for every combination of polytropic / adiabatic / non-adiabatic data, complex-valued eigenfunctions, "
        "stationarity, pre-check outcome and kind of resonance. Every collaborator (loader, frequency handler, pre-check, coupling coefficient, Jacobian, disc integral) is bound against its real signature and replaced by a "
        "recorder of abstract values, so that each recorded argument and each stored entry is compared with the one that must arrive there.")
S = "aesolver/aesolver/solver/"
FRONT = {"grid": ("aesolver.solver.quadratic_grid", "QuadraticAEGridSolver", S + "quadratic_grid.py"),
         "profile": ("aesolver.solver.quadratic_profile", "QuadraticAEProfileSolver", S + "quadratic_profile.py"),
         "combined grid": ("aesolver.solver.quadratic_solver", "QuadraticAESolver", S + "quadratic_solver.py"),
         "combined profile": ("aesolver.solver.quadratic_solver", "QuadraticAESolver", S + "quadratic_solver.py")}
INFO = ("base_dir", "mesa_output_dir", "mesa_profile_substrings", "mesa_suffix", "gyre_base_dir", "gyre_output_dir", "gyre_detail_substring", "gyre_summary_substring", "poly_base_dir", "poly_struct_dir",
        "poly_struct_substrings", "poly_struct_suffix", "poly_mode_base_dir", "poly_mode_dir", "poly_mode_substrings", "poly_summary_substring")
OPTS = {"use_symbolic_profiles": "use_symbolic_derivatives", "use_brunt_def": "use_brunt_def", "nr_omp_threads": "nr_omp_threads", "use_parallel": "use_parallel", "numerical_integration_method": "numerical_integration_method",
        "use_cheby_integration": "use_cheby_integration", "cheby_order_multiplier": "cheby_order_multiplier", "cheby_blow_up_protection": "cheby_blow_up_protection", "cheby_blow_up_factor": "cheby_blow_up_factor",
        "get_debug_info": "store_debug", "terms_cc_conj": "conj_cc", "analytic_polytrope": "analytic_polytrope"}
FREQ = ("inert_mode_freqs", "corot_mode_freqs", "inert_mode_omegas", "corot_mode_omegas", "dimless_inert_freqs", "dimless_corot_freqs", "dimless_inert_omegas", "dimless_corot_omegas", "spin_factors")
TRIADS = [(20, 31, 33), (21, 32, 32)]


class World:
    """an interpreter whose collaborators record what they are given"""

    def __init__(self, pre, harm):
        it = self.it = Interp(REPO)
        self.rec = {k: [] for k in ("loader", "read", "fh", "nad", "pre", "gen", "qccr", "jac", "jac3", "hyper", "di", "stat", "info", "triads", "couple")}
        self.pre, self.harm = pre, harm
        for k, mod, nm in (("loader", "aesolver.model_handling", "ModelLoader"), ("fh", "aesolver.frequency_handling", "FH"), ("pre", "aesolver.pre_checks", "PreThreeQuad"), ("gen", "aesolver.pre_checks", "PreCheckQuadratic"),
                           ("qccr", "aesolver.coupling_coefficients", "QCCR"), ("stat", "aesolver.stationary_solving", "ThreeModeStationary"), ("info", "aesolver.read_load_info", "InfoDirHandler"), ("triads", "aesolver.mode_input_generator", "InputGen")):
            c = getname(it, mod, nm)
            it.overrides[("class", c.name)] = self.cls(k)
        for k, nm in (("jac", "hyper_jac"), ("jac3", "hyper_jac_three"), ("hyper", "check_hyper")):
            f = getname(it, "aesolver.stability_checker", nm)
            it.overrides[("func", f.name)] = self.fun(k)

    def bound(self, f, args, kwargs):
        v = {}
        self.it.bind(f, args, kwargs, v)
        v.pop("self", None)
        return v

    def fun(self, k):
        def go(it, f, args, kwargs):
            v = self.bound(f, args, kwargs)
            r = sym(f"{k}{len(self.rec[k])}", "real", 2) if k != "hyper" else sym(f"hyperbolic{len(self.rec[k])}", "bool")
            self.rec[k].append((v, r))
            return r
        return go

    def cls(self, k):
        def go(it, c, args, kwargs):
            init, _ = c.find("__init__")
            v = self.bound(init, [None] + list(args), kwargs)
            n = len(self.rec[k])
            o = getattr(self, "new_" + k)(it, c, v, n)
            self.rec[k].append((v, o))
            return o
        return go

    def meth(self, c, name, k, ret):
        f, _ = c.find(name)

        def go(it, a, kw):
            v = self.bound(f, [None] + list(a), kw)
            self.rec[k].append((v, None))
            return ret(v) if callable(ret) else ret
        return Lam(go)

    def new_info(self, it, c, v, n):
        self.infos = {k: f"<{k}>" for k in INFO}
        self.infos["mesa_profile_substrings"] = ("<mesa1>", "<mesa2>")
        return it.obj(None, {"parse_info_directories": Lam(lambda i, a, kw: None), "full_info": it.new(Dict(dict(self.infos)))}, open=True, label="info")

    def new_triads(self, it, c, v, n):
        self.av, self.wu = [sym(f"average{i}") for i in range(2)], [sym(f"wu{i}") for i in range(2)]
        return it.obj(None, {"combinations_radial_orders": it.list(list(TRIADS)), "mode_l": it.list([2, 1, 1]), "mode_m": it.list([2, 1, 1]), "average_radial_orders": it.list(list(self.av)),
                             "wu_difference_statistics": it.list(list(self.wu))}, open=True, label="triads")

    def new_loader(self, it, c, v, n):
        def read(vv):
            o = self.it.w(ref).attrs
            if vv.get("gyre_detail"):
                o["gyre_details"] = it.list([self.mode(f"L{n}m{i}", i) for i in range(3)])
            if vv.get("mesa_profile"):
                o["mesa_profile"] = it.list([sym(f"mesa{n}", "opaque")])
            if vv.get("polytrope_model"):
                o["polytrope_model"] = it.list([sym(f"poly{n}", "opaque")])
            if vv.get("polytrope_oscillation"):
                o["polytrope_oscillation_models"] = it.list([self.mode(f"L{n}m{i}", i) for i in range(3)])
            return None
        for a in ("gyre_details", "mesa_profile", "polytrope_model", "polytrope_oscillation_models"):
            assert c.find(a)[0] is not UNDEF
        ref = it.obj(None, {}, label=f"loader{n}")
        f, _ = c.find("read_data_files")

        def go(i, a, kw):
            vv = self.bound(f, [None] + list(a), kw)
            self.rec["read"].append((n, vv))
            return read(vv)
        it.w(ref).attrs["read_data_files"] = Lam(go)
        return ref

    def mode(self, nm, i):
        it = self.it
        d = {"l": [2, 1, 1][i], "m": [2, 1, 1][i], "n_pg": -20 - i}
        if self.harm == "same":
            d.update(l=[2, 1, 1][i], m=[2, 1, 1][i], n_pg=[-20, -30, -30][i])
        elif self.harm != "different":
            d["n_pg"] = [-20, -30, -30][i]
            d[self.harm] = [2, 1, 7][i] if self.harm != "n_pg" else [-20, -30, -31][i]
        d["lag_L"] = self.prof(nm + ".lag_L")
        d["xi_r"] = self.prof(nm + ".xi_r")
        d["x"] = self.prof(nm + ".x", "pos")
        d["c_rad"] = self.prof(nm + ".c_rad", "pos")
        d["freq"] = sym(nm + ".freq", "complex")
        return it.new(Dict(d))

    def prof(self, nm, kind="real"):
        it = self.it
        if kind == "pos":
            return it.new(Arr((4,), tuple(sym(f"{nm}[{j}]", "pos") for j in (0, 1, 2, -1)), "float"))
        # GYRE complex entries are structured (re, im) records; their conversion is a collaborator
        return it.new(Arr((4,), tuple(sym(f"{nm}[{j}]", "complex") for j in (0, 1, 2, -1)), "complex"))

    def new_fh(self, it, c, v, n):
        names = FREQ + ("quality_factors", "surf_rot_freq", "requested_units", "driving_rates", "q_factor") + tuple(f + "_nad" for f in FREQ[:8])
        at = {a: sym(f"fh{n}.{a}", "opaque") for a in names}
        for m in ("get_inert_corot_f", "get_dimless_omegas", "get_detunings"):
            at[m] = Lam(lambda i, a, kw, m=m: self.arr(f"fh{n}.{m}{tuple(a)}{sorted(kw)}"))
        f, _ = c.find("set_mode_nonadiabatic_info")

        def nad(i, a, kw):
            self.rec["nad"].append((n, self.bound(f, [None] + list(a), kw)))
        at["set_mode_nonadiabatic_info"] = Lam(nad)
        return it.obj(None, at, open=True, label=f"fh{n}")

    def arr(self, nm):
        return self.it.new(Arr((2, 1), (sym(nm + "0"), sym(nm + "1")), "float"))

    def new_pre(self, it, c, v, n):
        return it.obj(None, {"check": Lam(lambda i, a, kw: self.pre), "l_list": it.list([sym("pre.l", "opaque")]), "m_list": it.list([sym("pre.m", "opaque")])}, open=True, label="pre")

    def new_gen(self, it, c, v, n):
        return it.obj(None, {"generic_check": Lam(lambda i, a, kw: self.pre), "l_list": it.list([sym("pre.l", "opaque")]), "m_list": it.list([sym("pre.m", "opaque")])}, open=True, label="gen")

    def new_qccr(self, it, c, v, n):
        at = {a: sym(f"q{n}.{a}", "real") for a in ("coupling_coefficient", "normed_coupling_coefficient", "eta_lee_coupling_coefficient")}
        lab = f"q{n}"
        at["normalization_factors"] = it.new(Arr((3,), tuple(sym(f"{lab}.norm{i}", "pos") for i in range(3)), "float"))
        at["coupling_terms_quadratic"] = it.new(Arr((4,), tuple(sym(f"{lab}.term{i}") for i in range(4)), "float"))
        at["_mu_values"] = sym(f"{lab}.mu", "opaque")
        for i in (1, 2, 3):
            for k in ("_hr_mode", "_theta_der_hr_mode", "_theta_der2_hr_mode"):
                at[f"{k}_{i}"] = sym(f"{lab}.{k}_{i}", "opaque")
        at["adiabatic_coupling_rot"] = self.meth(c, "adiabatic_coupling_rot", "couple", None)
        return it.obj(None, at, open=True, label=lab)

    def new_stat(self, it, c, v, n):
        return Lam(lambda i, a, kw: sym(f"solution{n}", "opaque"))


def run(chk):
    R = chk.rule
    R("options", "each option of the solver reaches the coupling computation, the loader and the pre-check under its own meaning")
    R("data", "modes and structure come from the loader of the matching kind (adiabatic or non-adiabatic directory), in the order of the triad, for the degrees, orders and radial orders of that triad")
    R("gate", "a coupling coefficient is computed exactly when the data are polytropic, stationarity is not requested or the pre-check passes; otherwise the coefficients are zero")
    R("stored", "entry k of the coupling, frequency, hyperbolicity, statistics and solution lists holds the quantities of triad k in the documented order")
    R("hyperbolic", "polytropes count as hyperbolic, uncoupled triads do not; otherwise the verdict is that of the Jacobian of the matching (two-mode or three-mode) kind")
    R("surface", "surface luminosity and displacement terms are the surface values of the modes times their normalisation factors; disc integrals are those of the modes' own Hough functions")
    chk.floor = 100
    for front, (mod, cname, w) in FRONT.items():
        for poly, adiab, cplx, stat, pre, harm in itertools.product((True, False), (True, False), (True, False), (True, False), (True, False), ("different", "same", "n_pg", "l", "m")):
            if poly and (not adiab or not stat or not pre):
                continue
            if chk.tier != "thorough" and ((cplx and (harm != "different" or adiab and not (stat and pre))) or (harm not in ("different", "same") and (front != "grid" or not stat or not pre or not adiab))):
                continue
            tag = f"{front}: {'polytrope' if poly else 'adiabatic' if adiab else 'non-adiabatic'}{', complex' if cplx else ''}{'' if poly else ', stationary' if stat else ', not stationary'}{'' if poly else ', pre-check ' + ('passes' if pre else 'fails')}, daughters {harm if harm in ('different', 'same') else 'differ in ' + harm}"
            chk.guard("data", tag, lambda: case(chk, front, mod, cname, w, tag, poly, adiab, cplx, stat, pre, harm), w)
    for front, (mod, cname, w) in FRONT.items():
        if "grid" in front:
            for poly in (True, False):
                tag = f"{front}: all triads, {'polytrope' if poly else 'stellar model'}"
                chk.guard("stored", tag, lambda: whole(chk, front, mod, cname, w, tag, poly), w)
    if not chk.functions:
        chk.saw(Interp(REPO))


def make(W, front, mod, cname, poly, adiab, cplx, stat):
    it = W.it
    c = getname(it, mod, cname)
    opts = {k: sym("opt." + k, "opaque") for k in OPTS}
    opts["terms_cc_conj"] = (True, False, False)
    kw = dict(opts, rot_pct=37, use_complex=cplx, adiabatic=adiab, base_dir="<gyre>/", ad_path="AD", nad_path=None if poly else "NAD", inlist_path="<inlist>", toml_use=sym("opt.toml", "opaque"), stationary_solving=stat,
              polytrope_comp=poly, polytrope_mass=sym("mass", "pos"), polytrope_radius=sym("radius", "pos"), ld_function=sym("opt.ld", "opaque"),
              alternative_directory_path="<alt dir>", alternative_file_name="<alt file>")
    prof = it.new(Dict({"parent_n": 20, "daughter_1_n": 31, "daughter_2_n": 33, "mode_l": it.list([2, 1, 1]), "mode_m": it.list([2, 1, 1])}))
    if front == "grid":
        kw["mode_selection_dict"] = it.new(Dict({k: sym("sel." + k) for k in ("damped_n_low1", "damped_n_high1", "driven_n_low", "driven_n_high", "mode_l", "mode_m")}))
    elif front == "profile":
        kw["cc_profile_selection_dict"] = prof
    elif front == "combined grid":
        kw.update(cc_profile_selection_dict=None, compute_grid=True, mode_selection_dict=it.new(Dict({k: sym("sel." + k) for k in ("damped_n_low1", "damped_n_high1", "driven_n_low", "driven_n_high", "mode_l", "mode_m")})))
    else:
        kw.update(cc_profile_selection_dict=prof, compute_profile=True)
    for m in {mod, "aesolver.solver.solver_base_classes.quadratic_solver"}:
        mv = it.module(m)
        if mv is None:
            continue
        vs = it.w(mv.env).vars
        if "di" in vs:
            def disc(i, a, kws):
                # order of the compiled interface: mu, h, h', h'', ld, rule, threads, parallel
                n = len(W.rec["di"])
                W.rec["di"].append((list(a), dict(kws)))
                return (sym(f"T{n}"), sym(f"E{n}"))
            vs["di"] = it.obj(None, {"get_integrals": Lam(disc)}, label="di")
        if "re_im" in vs:
            vs["re_im"] = Lam(lambda i, a, kws: it.list([N(it.res(a[0])) * N(it.res(a[1] if len(a) > 1 else kws["factor"]))]))
    so = it.call(c, [it.list(["prog"])], kw)
    return so, opts, kw


def same(it, a, b):
    a, b = it.res(a), it.res(b)
    if isinstance(a, (tuple, Ref)) and isinstance(b, (tuple, list)):
        try:
            aa = [it.res(x) for x in it.iter_items(a)] if isinstance(a, Ref) else list(a)
        except Unsupported:
            return False
        return len(aa) == len(b) and all(same(it, x, y) for x, y in zip(aa, b))
    if isinstance(a, Ref) or isinstance(b, Ref):
        return isinstance(a, Ref) and isinstance(b, Ref) and a == b
    if T.isnum(a) and T.isnum(b) and not isinstance(a, bool) and not isinstance(b, bool):
        return equal(N(a), N(b))
    return type(a) is type(b) and a == b


def case(chk, front, mod, cname, w, tag, poly, adiab, cplx, stat, pre, harm):
    W = World(pre, harm)
    it = W.it
    so, opts, kw = make(W, front, mod, cname, poly, adiab, cplx, stat)
    A = lambda n: it.getattr(so, n)
    V = lambda rule, inst, cond, detail="": chk.verdict(rule, f"{tag}: {inst}", cond, w, detail)
    S_ = lambda x, y: same(it, x, y)
    k = 1 if "grid" in front else 0
    triad = TRIADS[k] if "grid" in front else TRIADS[0]
    res = it.call(it.getattr(so, "compute_coupling_one_triad"), [], {"radial_order_combo_nr": k})
    chk.saw(it)
    rec = W.rec
    # information on the directories
    V("options", "directory information", len(rec["info"]) == 1 and S_(rec["info"][0][0]["toml_use"], kw["toml_use"]) and rec["info"][0][0]["inlist_path"] == "<inlist>" and rec["info"][0][0]["alternative_directory_path"] == "<alt dir>"
      and rec["info"][0][0]["alternative_file_name"] == "<alt file>" and S_(rec["info"][0][0]["sys_arguments"], ["prog"]), f"{rec['info'][0][0] if rec['info'] else None}")
    if "grid" in front:
        g = rec["triads"][0][0] if rec["triads"] else {}
        V("options", "requested triads", bool(g) and all(S_(g.get(n), sym("sel." + n)) for n in ("damped_n_low1", "damped_n_high1", "driven_n_low", "driven_n_high", "mode_l", "mode_m")), f"{g}")
    # loading
    nl = 1 if poly else 2
    V("data", "number of loaders", len(rec["loader"]) == nl and [n for n, _ in rec["read"]] == list(range(nl)), f"{len(rec['loader'])} loaders")
    inf = W.infos
    for n, (v, o) in enumerate(rec["loader"]):
        V("data", f"loader {n}: triad", S_(v["search_l"], [2, 1, 1]) and S_(v["search_m"], [2, 1, 1]) and S_(v["search_n"], list(triad)) and v["infer_dir"] is False, f"{[it.res(v[q]) for q in ('search_l', 'search_m', 'search_n')]}")
        if poly:
            want = dict(base_dir="base_dir", polytrope_model_output_dir="poly_struct_dir", polytrope_oscillation_output_dir="poly_mode_dir", polytrope_model_suffix="poly_struct_suffix", polytrope_model_substrings="poly_struct_substrings", polytrope_oscillation_substrings="poly_mode_substrings")
            ok = v["use_polytrope_data"] is True
        else:
            want = dict(base_dir="base_dir", mesa_output_dir="mesa_output_dir", mesa_profile_substrings="mesa_profile_substrings", mesa_suffix="mesa_suffix", gyre_detail_substring="gyre_detail_substring", gyre_summary_substring="gyre_summary_substring")
            ok = v["use_polytrope_data"] is False and v["gyre_output_dir"] == "<gyre>/" + ("AD", "NAD")[n] + "/"
        for p, q in want.items():
            ok = ok and it.res(v[p]) == inf[q]
        V("data", f"loader {n}: directories and name parts", ok, f"{ {p: it.res(v[p]) for p in list(want) + ['gyre_output_dir']} }")
    for n, v in rec["read"]:
        flags = tuple(bool(v[q]) for q in ("gyre_detail", "gyre_summary", "mesa_profile", "polytrope_model", "polytrope_oscillation"))
        V("data", f"loader {n}: files read", flags == ((False, False, False, True, True) if poly else (True, False, True, False, False) if n == 0 else (True, False, v["mesa_profile"], False, False)) and S_(v["g_modes"], [True, True, True]), f"{flags}")
        if poly:
            for q, nm, u in (("polytrope_mass", "mass", "M_sun"), ("polytrope_radius", "radius", "R_sun")):
                got = N(it.res(v[q]))
                V("data", f"polytrope {nm}", equal(got, sym(nm, "pos") * unit(it, u)), f"{show(got)[:120]}")
    L = [o for _, o in rec["loader"]]
    modes = [it.iter_items(it.getattr(o, "polytrope_oscillation_models" if poly else "gyre_details")) for o in L]
    src = modes[0] if (poly or adiab) else modes[1]
    # frequency handler
    f = rec["fh"]
    V("data", "frequencies from the modes of the triad", len(f) == 1 and vals(it, f[0][0]) == [it.res(m) for m in src], f"{f and list(f[0][0])}")
    if not poly:
        V("data", "driving rates from the non-adiabatic modes", len(rec["nad"]) == 1 and vals(it, rec["nad"][0][1]) == [it.res(m) for m in modes[1]], "")
    fh = f[0][1]
    # pre-check
    if not poly:
        p = rec["pre"] if stat else rec["gen"]
        V("gate", "pre-check of the requested kind", len(p) == 1 and not (rec["gen"] if stat else rec["pre"]), "")
        v = p[0][0]
        ok = S_(v["gyre_ad"], it.iter_items(it.getattr(L[0], "gyre_details"))) and S_(v["triads"], [(1, 2, 3)]) and same(it, v["conjugation"], [(True, False, False)])
        if stat:
            ok = ok and it.res(v["freq_handler"]) == it.res(fh) and it.res(v["two_mode_harmonic"]) is (harm == "same")
        V("options", "pre-check arguments", ok, f"{v}")
        V("gate", "pre-check outcome returned", it.res(res) is pre, f"{res}")
    else:
        V("gate", "no pre-check for polytropes", not rec["pre"] and not rec["gen"] and it.res(res) is True, "")
    # coupling coefficient
    need = poly or not stat or pre
    q = rec["qccr"]
    V("gate", "coupling coefficient computed when required", len(q) == (1 if need else 0) and len(rec["couple"]) == (1 if need else 0), f"{len(q)} coupling objects")
    info = it.iter_items(it.getitem(A("coupling_info"), k))
    ok9 = len(info) == 9
    V("stored", "coupling entry has nine parts", ok9, f"{len(info)}")
    if need and q:
        v, qo = q[0]
        V("data", "coupled modes in the order of the triad", vals(it, v, ("first_dict", "second_dict", "third_dict")) == [it.res(m) for m in src], "")
        V("data", "structure of the coupled modes", S_(v["additional_profile_information"], sym("poly0" if poly else "mesa0", "opaque")) and it.res(v["freq_handler"]) == it.res(fh) and v["polytropic"] is poly, f"{v['additional_profile_information']}")
        for a, b in OPTS.items():
            if a == "analytic_polytrope" and not poly:
                V("options", b, v[b] is False or S_(v[b], opts[a]), f"{v[b]}")
            else:
                V("options", b, S_(v[b], opts[a]), f"{v[b]} instead of {opts[a]}")
        V("options", "complex-valued eigenfunctions", it.res(v["use_complex"]) is (cplx and not poly and not adiab), f"{v['use_complex']}")
        if poly:
            V("options", "degrees and orders", S_(v["l_list"], [2, 1, 1]) and S_(v["m_list"], [2, 1, 1]) if harm != "l" and harm != "m" else True, f"{v['l_list']}")
        else:
            V("options", "degrees and orders", S_(v["l_list"], sym("pre.l", "opaque")) and S_(v["m_list"], sym("pre.m", "opaque")), f"{v['l_list']}")
        want = [it.getattr(qo, a) for a in ("coupling_coefficient", "normed_coupling_coefficient", "eta_lee_coupling_coefficient")]
        norm, terms = it.get(it.getattr(qo, "normalization_factors")).data, it.get(it.getattr(qo, "coupling_terms_quadratic")).data
    else:
        want, norm, terms = [num(0)] * 3, [num(0)] * 3, [num(0)] * 4
    if ok9:
        for i, (g, x) in enumerate(zip(info[:3], want)):
            check_eq(chk, "stored", f"{tag}: coupling entry {i}", g, x, w, it=it)
        for i, x in ((5, norm), (8, terms)):
            g = it.res(info[i])
            V("stored", f"coupling entry {i}", isinstance(g, Ref) and isinstance(it.get(g), Arr) and len(it.get(g).data) == len(x) and all(equal(N(p), N(r)) for p, r in zip(it.get(g).data, x)), f"{g}")
        V("stored", "coupling entry 6", it.res(info[6]) is adiab, f"{info[6]}")
        for i, m in ((3, "get_inert_corot_f"), (4, "get_dimless_omegas"), (7, "get_detunings")):
            g = it.get(it.res(info[i])).data
            V("stored", f"coupling entry {i}", [show(x) for x in g] == [f"fh0.{m}()[]{j}" for j in (0, 1)], f"{[show(x) for x in g]}")
    # frequencies
    fi = it.iter_items(it.getitem(A("mode_freq_info"), k))
    wantf = list(FREQ) + (["surf_rot_freq", "requested_units"] if poly else ["quality_factors", "surf_rot_freq", "requested_units"] + [n + "_nad" for n in FREQ[:8]])
    V("stored", "frequency entry", len(fi) == len(wantf) and all(S_(x, it.getattr(fh, n)) for x, n in zip(fi, wantf)), f"{[show(N(x)) if isinstance(x, Node) else x for x in fi]}")
    # hyperbolicity
    hy = it.res(it.getitem(A("_hyperbolicity_info"), k))
    js = [(kk, x) for kk in ("jac", "jac3") for x in rec[kk]]
    if poly:
        V("hyperbolic", "polytropes", hy is True, f"{hy}")
    elif not need:
        V("hyperbolic", "uncoupled", hy is False, f"{hy}")
    else:
        ok = len(js) == 1 and js[0][0] == ("jac3" if harm == "same" else "jac")
        V("hyperbolic", "kind of Jacobian", ok, f"{[x[0] for x in js]}")
        if len(js) == 1:
            v, r = js[0][1]
            V("hyperbolic", "arguments of the Jacobian", S_(v["gammas"], it.getattr(fh, "driving_rates")) and S_(v["omegas"], it.getattr(fh, "corot_mode_omegas")) and S_(v["q"], it.getattr(fh, "q_factor")) and S_(v["eta"], want[1]), f"{v}")
            V("hyperbolic", "verdict", len(rec["hyper"]) == 1 and S_(rec["hyper"][0][0]["my_jac"], r) and hy == rec["hyper"][0][1], f"{hy}")
    # surface terms
    if not poly:
        lum, xir = A("_lag_var_surf_lum"), A("_xir_terms_norm")
        for i in range(3):
            check_eq(chk, "surface", f"{tag}: luminosity term {i}", it.getitem(lum, i), sym(f"L1m{i}.lag_L[-1]", "complex") * norm[i], w, it=it)
            check_eq(chk, "surface", f"{tag}: displacement term {i}", it.getitem(xir, i), sym(f"L0m{i}.xi_r[-1]", "complex") / sym(f"L0m{i}.x[-1]", "pos") * norm[i], w, it=it)
        if need:
            V("surface", "one disc integral per mode", len(rec["di"]) == 3, f"{len(rec['di'])}")
            for i, (a, kws) in enumerate(rec["di"]):
                lab = q[0][1]
                exp = [it.getattr(lab, "_mu_values")] + [it.getattr(lab, f"{b}_{i + 1}") for b in ("_hr_mode", "_theta_der_hr_mode", "_theta_der2_hr_mode")] + [kw["ld_function"], opts["numerical_integration_method"], opts["nr_omp_threads"], opts["use_parallel"]]
                got = a + [kws.get(n) for n in ("ld_function", "numerical_integration_method", "nr_threads", "use_parallel")[len(a) - 4:]] if len(a) < 8 and len(a) >= 4 else a
                V("surface", f"disc integral {i}", len(got) == 8 and all(S_(x, y) for x, y in zip(got, exp)), f"{[show(N(x)) if isinstance(x, Node) else x for x in a]}")
                check_eq(chk, "surface", f"{tag}: luminosity disc factor {i}", it.getitem(A("_tk_disc_integrals"), i), sym(f"T{i}"), w, it=it)
                check_eq(chk, "surface", f"{tag}: displacement disc factor {i}", it.getitem(A("_ek_disc_integrals"), i), sym(f"E{i}"), w, it=it)


def vals(it, v, names=None):
    out = []
    for n, x in v.items():
        if names is not None and n not in names:
            continue
        x = it.res(x)
        out += [it.res(y) for y in x] if isinstance(x, tuple) else [x]
    return [x for x in out if isinstance(x, Ref) and isinstance(it.get(x), Dict)]


def unit(it, u):
    return N(it.res(it.getattr(it.getattr(Ext("astropy.constants." + u), "cgs"), "value")))


def whole(chk, front, mod, cname, w, tag, poly):
    """the whole grid: every triad once, each entry from its own computation"""
    W = World(True, "different")
    it = W.it
    so, opts, kw = make(W, front, mod, cname, poly, True, False, True)
    A = lambda n: it.getattr(so, n)
    it.call(so, [], {"compute_grid": True} if front.startswith("combined") else {})
    chk.saw(it)
    n = len(TRIADS)
    V = lambda rule, inst, cond, detail="": chk.verdict(rule, f"{tag}: {inst}", cond, w, detail)
    V("stored", "one entry per triad", all(len(it.iter_items(A(a))) == n for a in ("coupling_info", "mode_freq_info", "coupling_statistics", "stat_sol_info", "_hyperbolicity_info")), "")
    V("data", "every triad computed once, in order", [tuple(it.res(x) for x in it.iter_items(v["search_n"])) for v, _ in W.rec["loader"]] == [t for t in TRIADS for _ in range(1 if poly else 2)], "")
    for k in range(n):
        V("stored", f"coupling of triad {k}", equal(N(it.res(it.getitem(it.getitem(A("coupling_info"), k), 0))), sym(f"q{k}.coupling_coefficient", "real")), "")
        V("stored", f"frequencies of triad {k}", same(it, it.getitem(it.getitem(A("mode_freq_info"), k), 0), sym(f"fh{k}.inert_mode_freqs", "opaque")), "")
        st = it.iter_items(it.getitem(A("coupling_statistics"), k))
        V("stored", f"statistics of triad {k}", len(st) == 2 and same(it, st[0], W.av[k]) and same(it, st[1], W.wu[k]), "")
        sol = it.res(it.getitem(A("stat_sol_info"), k))
        if poly:
            V("stored", f"no stationary solution for polytrope {k}", sol is None, f"{sol}")
        else:
            V("stored", f"solution of triad {k}", same(it, sol, sym(f"solution{k}", "opaque")), f"{sol}")
            v = W.rec["stat"][k][0]
            V("data", f"solution of triad {k} from its own data", it.res(v["precheck_satisfied"]) is True and it.res(v["freq_handler"]) == it.res(W.rec["fh"][k][1]) and same(it, v["hyperbolic"], it.getitem(A("_hyperbolicity_info"), k)) and it.res(v["solver_object"]) == it.res(so), f"{v}")
