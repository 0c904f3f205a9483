"""Model data loading: reading, unit conversion, dimensional quantities."""
from fractions import Fraction
from .common import *

EXPL = ("Value numbering of the model loader and reader on symbolic file contents: every key of the detail, profile, polytrope-structure and polytrope-oscillation tables is followed from the (stubbed) file object to the dictionary "
        "handed to the solver, and compared with the required unit factor and dimensional counterpart.")
W = "aesolver/aesolver/model_handling/load_models.py"
E = "aesolver/aesolver/model_handling/enumeration_files/"
F = Fraction
SI_GYRE = {"M_star": F(1, 1000), "R_star": F(1, 100), "L_star": F(1, 10 ** 7), "M_r": F(1, 1000), "P": F(1, 10), "rho": F(1000)}
SI_MESA = {"gamma_1_adDer": F(1, 1000), "pressure": F(1, 10), "grav": F(1, 100), "brunt_N2": F(1), "radius": F(1), "mass": F(1), "logT": F(1), "lamb_S": F(1), "Teff": F(1)}
CPX = ["xi_r", "xi_h", "eul_phi", "deul_phi", "eul_P", "eul_rho", "eul_T", "lag_P", "lag_rho", "lag_T", "omega", "y_1", "y_2", "y_3", "y_4", "y_5", "y_6", "freq", "l_i", "lambda", "lag_L"]
CPX_POLY = ["xi_r", "xi_h", "eul_phi", "deul_phi", "omega", "y_1", "y_2", "y_3", "y_4", "freq", "l_i", "lambda"]
PLAIN = ["freq_units", "freq_frame", "n", "j", "l", "m", "n_p", "n_g", "n_pg"]
NEEDED = {  # what the solver reads from each kind of file
    "GYREDetailFiles": ["n", "x", "y_1", "y_2", "y_3", "y_4", "freq", "freq_units", "freq_frame", "l", "m", "n_pg", "xi_r", "xi_h", "eul_phi", "deul_phi", "lag_L", "eul_P", "eul_rho", "eul_T", "lag_P", "lag_rho", "lag_T",
                        "lambda", "M_star", "R_star", "L_star", "V_2", "As", "U", "c_1", "Gamma_1", "Omega_rot", "M_r", "P", "rho", "T"],
    "MESAProfileFiles": ["brunt_N2", "radius", "gamma_1_adDer"],
    "PolytropeModelFiles": ["n_poly", "z", "theta", "dtheta", "Gamma_1"],
    "PolytropeOscillationModelFiles": ["l", "m", "n", "n_pg", "freq", "freq_frame", "freq_units", "xi_r", "xi_h", "eul_phi", "deul_phi", "y_1", "y_2", "y_3", "y_4", "Gamma_1", "x", "Omega_rot", "lambda"]}


def dims(d):
    G, M, R = d["G"], d["M_star"], d["R_star"]
    phi, om, en, ham = G * M / R, sqrt(G * M / R ** 3), M * R ** 2, G * M ** 2 / R
    t = {"xi_r": R, "xi_h": R, "eul_phi": phi, "deul_phi": phi / R, "Omega_rot": om, "Delta_p": om, "Delta_g": om, "E": en, "H": ham, "W": ham, "tau_ss": ham, "dE_dx": en, "dW_dx": ham}
    for k, b in (("P", "P"), ("rho", "rho"), ("T", "T")):
        t["eul_" + k] = t["lag_" + k] = d[b]
    t["lag_L"] = d["L_star"]
    return t


def run(chk):
    chk.rule("units", "every quantity is multiplied by its CGS-to-SI factor exactly when SI units are requested")
    chk.rule("complex", "complex quantities are assembled from their real and imaginary parts")
    chk.rule("dimensional", "the dimensional counterpart is the quantity times its unit, built from converted mass, radius, luminosity, pressure, density and temperature")
    chk.rule("gravity", "the gravitational constant, mass and radius attached to a model are in the same system")
    chk.rule("coverage", "every quantity the solver consumes is requested from the file")
    chk.rule("reader", "file content reaches the caller under its own name, from datasets and attributes alike")
    chk.rule("modes", "mode k of the result is mode k of the request; anything but one matching file per mode is refused")

    def attrs(it, cls):
        c = getname(it, "aesolver.model_handling.enumeration_files.enumeration_models", cls)
        return list(it.get(it.res(it.call(it.getattr(c, "attrs")))).items)

    def cplx(it, nm):
        re, im = it.new(Arr((2,), (sym(nm + "re0"), sym(nm + "re1")), "float")), it.new(Arr((2,), (sym(nm + "im0"), sym(nm + "im1")), "float"))
        return it.new(Dict({"re": re, "im": im}))

    def build(it, keys, cpx, pre):
        d = {}
        for k in keys:
            if k in cpx:
                d[k] = cplx(it, pre + k)
            elif k in ("freq_units", "freq_frame", "label", "prop_type"):
                d[k] = sym(pre + k, "opaque")
            else:
                d[k] = it.new(Arr((2,), (sym(pre + k + "0", "pos"), sym(pre + k + "1", "pos")), "float"))
        for k in ("M_star", "R_star", "L_star", "n", "l", "m", "j", "n_p", "n_g", "n_pg", "n_poly"):
            if k in d:
                d[k] = sym(pre + k, "pos")
        return d

    def loader(us, kind, readers, nr=3):
        it = Interp(REPO)
        calls = []

        def dfr(i, f, a, k):
            k = dict(zip(["self", "my_dir", "subselection_method", "additional_substring", "mode_number", "structure_file", "g_mode"], a)) | k
            calls.append(k)
            return readers(i, k, len(calls) - 1)
        it.overrides[("func", "data_file_reader")] = dfr
        kw = {"base_dir": "b/", "infer_dir": False, "mesa_output_dir": "mesa", "gyre_output_dir": "gyre", "polytrope_model_output_dir": "pm", "polytrope_oscillation_output_dir": "po", "unit_system": us,
              "search_l": it.list([1, 1, 1][:nr]), "search_m": it.list([0, 0, 0][:nr]), "search_n": it.list([1, 2, 3][:nr]), "mesa_profile_substrings": ("a", "b"), "gyre_detail_substring": "detail"}
        o = it.call(getname(it, "aesolver.model_handling.load_models", "ModelLoader"), [], kw)
        return it, o, calls

    def gval(it, us):
        return it.getattr(it.getattr(Ext("astropy.constants.G"), "si" if us.lower() == "si" else "cgs"), "value")

    def vals(it, v):
        v = it.res(v)
        return list(it.get(v).data) if isinstance(v, Ref) and isinstance(it.get(v), Arr) else [v]

    def cmpv(rule, it, inst, got, want, where):
        g = vals(it, got)
        if len(g) != len(want):
            chk.bad(rule, inst, where, f"{len(g)} values instead of {len(want)}")
            return
        for i, (a, b) in enumerate(zip(g, want)):
            check_eq(chk, rule, f"{inst}[{i}]", a, b, where, it=it, rounds=2)

    def gyre(us, bar):
        tag = f"detail files, {us}" + (", progress bar" if bar else "")
        it0 = Interp(REPO)
        keys = attrs(it0, "GYREDetailFiles")
        it, o, calls = loader(us, "detail", lambda i, k, n: i.list([i.new(Dict(build(i, keys, CPXALL, f"m{n}_")))]))
        it.call(it.getattr(o, "read_data_files"), [], {"gyre_detail": True, "progress_bars": bar})
        out = [it.get(it.res(d)).d for d in it.get(it.res(it.getattr(o, "gyre_details"))).items]
        chk.verdict("modes", f"{tag}: one dictionary per mode, in order", len(out) == 3 and [c.get("mode_number") for c in calls] == [1, 2, 3], W, f"{len(out)} dictionaries from requests {[c.get('mode_number') for c in calls]}")
        g = gval(it, us)
        si = SI_GYRE if us.lower() == "si" else {}
        for n, d in enumerate(out[:3]):
            pre = f"m{n}_"
            check_eq(chk, "gravity", f"{tag}: mode {n+1}", d.get("G"), g, W, it=it)
            conv = {"G": g}
            for k in keys:
                if k in CPXALL or k in ("freq_units", "freq_frame", "prop_type"):
                    continue
                want = [v * si.get(k, 1) for v in vals(it, build(it, [k], [], pre)[k])]
                conv[k] = want
                cmpv("units", it, f"{tag}: mode {n+1} {k}", d.get(k), want, E + "enumeration_models.py")
            base = {"G": g, "M_star": conv["M_star"][0], "R_star": conv["R_star"][0], "L_star": conv["L_star"][0]}
            for j in range(2):
                D = dims({**base, "P": conv["P"][j], "rho": conv["rho"][j], "T": conv["T"][j]})
                for k in keys:
                    z = (sym(f"{pre}{k}re{j}") + I * sym(f"{pre}{k}im{j}")) if k in CPXALL else (conv[k][min(j, len(conv[k]) - 1)] if k in conv else None)
                    if z is None:
                        continue
                    if k in D:
                        v = d.get(k + "_dim")
                        if v is None:
                            chk.bad("dimensional", f"{tag}: mode {n+1} {k}", E + "enumeration_dimensions.py", "no dimensional counterpart is published")
                            continue
                        g_ = vals(it, v)
                        check_eq(chk, "dimensional", f"{tag}: mode {n+1} {k}[{j}]", g_[min(j, len(g_) - 1)], z * D[k], E + "enumeration_dimensions.py", it=it, rounds=2)
                    elif k in CPX:
                        g_ = vals(it, d.get(k))
                        check_eq(chk, "complex", f"{tag}: mode {n+1} {k}[{j}]", g_[min(j, len(g_) - 1)], z, "num-tools/carr_conv/carr_conv.py", it=it, rounds=2)
        chk.saw(it)

    def mesa(us):
        tag = f"profile files, {us}"
        it0 = Interp(REPO)
        keys = attrs(it0, "MESAProfileFiles")
        it, o, calls = loader(us, "mesa", lambda i, k, n: i.list([i.new(Dict(build(i, keys, [], "s_")))]))
        it.call(it.getattr(o, "read_data_files"), [], {"mesa_profile": True})
        out = [it.get(it.res(d)).d for d in it.get(it.res(it.getattr(o, "mesa_profile"))).items]
        chk.verdict("modes", f"{tag}: one structure file", len(out) == 1 and len(calls) == 1 and calls[0].get("structure_file") is True, W, "structure file not read as such")
        for k, f in SI_MESA.items():
            want = [v * (f if us.lower() == "si" else 1) for v in vals(it, build(it, [k], [], "s_")[k])]
            cmpv("units", it, f"{tag}: {k}", out[0].get(k), want, E + "enumeration_models.py")
        chk.saw(it)

    def poly(us, bar):
        tag = f"polytropes, {us}" + (", progress bar" if bar else "")
        it0 = Interp(REPO)
        km, ko = attrs(it0, "PolytropeModelFiles"), attrs(it0, "PolytropeOscillationModelFiles")
        M, R = sym("mass", "pos"), sym("radius", "pos")
        seen = {}

        def rd(i, k, n):
            if k.get("structure_file"):
                return i.list([i.new(Dict(build(i, km, [], "p_")))])
            return i.list([i.new(Dict(build(i, ko, CPX_POLY, f"o{k['mode_number']}_")))])
        it, o, calls = loader(us, "poly", rd)

        def pasi(i, f, a, k):
            k = {**dict(zip(["model_info_dictionary_list", "model_mass", "model_radius"], a)), **k}
            seen.update(k)
            return i.obj(None, {"property_dict": i.new(Dict({"extra": sym("extra")}))})
        it.overrides[("class", "PolytropicAdditionalStructureInformation")] = pasi
        it.call(it.getattr(o, "read_data_files"), [], {"polytrope_model": True, "polytrope_oscillation": True, "polytrope_mass": M, "polytrope_radius": R, "progress_bars": bar})
        g = gval(it, us)
        mod = it.get(it.res(it.get(it.res(it.getattr(o, "polytrope_model"))).items[0])).d
        osc = [it.get(it.res(d)).d for d in it.get(it.res(it.getattr(o, "polytrope_oscillation_models"))).items]
        chk.verdict("modes", f"{tag}: one dictionary per mode, in order", len(osc) == 3 and [c.get("mode_number") for c in calls if not c.get("structure_file")] == [1, 2, 3], W, "modes missing or out of order")
        check_eq(chk, "gravity", f"{tag}: structure", mod.get("G"), g, W, it=it)
        check_eq(chk, "gravity", f"{tag}: structure mass", seen.get("model_mass"), M, W, it=it)
        check_eq(chk, "gravity", f"{tag}: structure radius", seen.get("model_radius"), R, W, it=it)
        check_eq(chk, "coverage", f"{tag}: derived structure merged", mod.get("extra"), sym("extra"), W, it=it)
        for k in NEEDED["PolytropeModelFiles"]:
            cmpv("units", it, f"{tag}: {k}", mod.get(k), vals(it, build(it, [k], [], "p_")[k]), W)
        for n, d in enumerate(osc[:3]):
            pre = f"o{n+1}_"
            for k, w in (("G", g), ("M_star", M), ("R_star", R)):
                check_eq(chk, "gravity", f"{tag}: mode {n+1} {k}", d.get(k), w, W, it=it)
            for k in ko:
                if k in ("freq_units", "freq_frame", "label"):
                    continue
                if k in CPX_POLY:
                    want = [sym(f"{pre}{k}re{j}") + I * sym(f"{pre}{k}im{j}") for j in range(2)]
                    cmpv("complex", it, f"{tag}: mode {n+1} {k}", d.get(k), want, E + "enumeration_dimensions.py")
                else:
                    cmpv("units", it, f"{tag}: mode {n+1} {k}", d.get(k), vals(it, build(it, [k], [], pre)[k]), W)
        chk.saw(it)

    def count(kind, flag, nr):
        it, o, calls = loader("CGS", "detail", lambda i, k, n: i.list([i.new(Dict({}))] * nr))
        try:
            it.call(it.getattr(o, "read_data_files"), [], flag)
        except AbsRaise:
            chk.ok("modes", f"{kind}: {nr} matching files per request is refused", W)
            return
        chk.bad("modes", f"{kind}: {nr} matching files per request is refused", W, "accepted")

    def cover():
        it = Interp(REPO)
        for c, need in NEEDED.items():
            keys = attrs(it, c)
            for k in need:
                chk.verdict("coverage", f"{c}: {k}", k in keys, E + "enumeration_models.py", "never read from the file")
            chk.verdict("coverage", f"{c}: no quantity twice", len(set(keys)) == len(keys), E + "enumeration_models.py", "listed twice")
        chk.saw(it)

    def reader():
        it = Interp(REPO)
        closed = []
        import ast as _ast
        src = ("class F:\n    def __init__(self, d, a):\n        self.d = d\n        self.attrs = a\n    def __getitem__(self, k):\n        return self.d[k]\n    def __enter__(self):\n        return self\n"
               "    def __exit__(self, *a):\n        pass\n    def close(self):\n        pass\n")
        m = it.load_file("stub_h5file", "stub_h5file.py", _ast.parse(src))
        F_ = it.get(m.env).vars["F"]
        dset = it.new(Dict({n: it.new(Dict({(): sym("data_" + n)})) for n in ("xi_r", "x")}))
        at = it.new(Dict({n: sym("attr_" + n) for n in ("M_star", "l")}))
        opened = []

        def op(i, a, k):
            opened.append((a, k))
            return i.call(F_, [dset, at])
        it.overrides[("ext", "h5py.File")] = op
        R_ = it.call(getname(it, "aesolver.model_handling.read_models", "ModelReader"), [getname(it, "aesolver.model_handling.enumeration_files.enumeration_models", "GYREDetailFiles")])
        for suf in ("h5", "hdf5", "H5"):
            d = it.get(it.res(it.call(it.getattr(R_, "_read_file"), [], {"file_path": "some/path." + suf, "file_suffix": suf}))).d
            for n, w in (("xi_r", sym("data_xi_r")), ("x", sym("data_x")), ("M_star", sym("attr_M_star")), ("l", sym("attr_l"))):
                check_eq(chk, "reader", f"{suf} file: {n}", d.get(n), w, "aesolver/aesolver/model_handling/read_models.py", it=it)
            chk.verdict("reader", f"{suf} file: absent quantities stay absent", set(d) == {"xi_r", "x", "M_star", "l"}, "aesolver/aesolver/model_handling/read_models.py", f"keys {sorted(map(str, d))}")
        modes = [(a[1] if len(a) > 1 else k.get("mode", "r")) for a, k in opened]
        chk.verdict("reader", "files are opened read-only at the given path", all(m_ == "r" for m_ in modes) and all(str(a[0]).startswith("some/path.") for a, k in opened), "aesolver/aesolver/model_handling/read_models.py", f"opened {opened[:1]}")
        chk.saw(it)

    it0 = Interp(REPO)
    CPXALL = set(CPX) | {"lag_S", "xi_r_ref", "xi_h_ref", "eul_phi_ref", "deul_phi_ref", "lag_S_ref", "lag_L_ref", "omega_int", "dzeta_dx", "Yt_1", "Yt_2", "I_0", "I_1", "dbeta_dx"}
    for us in ("CGS", "SI", "si"):
        chk.guard("units", f"detail files, {us}", lambda: gyre(us, False), W)
        chk.guard("units", f"profile files, {us}", lambda: mesa(us), W)
        chk.guard("units", f"polytropes, {us}", lambda: poly(us, False), W)
    chk.guard("units", "detail files, progress bar", lambda: gyre("CGS", True), W)
    chk.guard("units", "polytropes, progress bar", lambda: poly("CGS", True), W)
    for nr in (0, 2):
        chk.guard("modes", f"detail count {nr}", lambda: count("detail files", {"gyre_detail": True}, nr), W)
        chk.guard("modes", f"profile count {nr}", lambda: count("profile", {"mesa_profile": True}, nr), W)
        chk.guard("modes", f"polytrope count {nr}", lambda: count("polytrope structure", {"polytrope_model": True}, nr), W)
        chk.guard("modes", f"osc count {nr}", lambda: count("polytrope modes", {"polytrope_oscillation": True}, nr), W)
    chk.guard("coverage", "tables", cover, E)
    chk.guard("reader", "hdf5", reader, W)
    chk.floor = 200
