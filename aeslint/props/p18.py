"""Result files: what is stored, under which name, and what the readers take from it."""
import ast
from fractions import Fraction
from .common import *
from . import p17

EXPL = ("Abstract interpretation of the whole chain solver -> saver -> file -> reader: a grid of two triads (one with, one without a stable stationary solution) whose every quantity is a named symbol is stored through the real saver into "
        "an abstract HDF5 store, and the content of each path is compared with the quantity that path stands for; the readers of the analysis and plotting tools are then run on the same store and on the file names the saver produced.")
DH = "aesolver/aesolver/data_handling/"
STORE = '''
class Attrs:
    def __init__(self, d):
        self.d = d
    def __setitem__(self, k, v):
        self.d[k] = v
    def __getitem__(self, k):
        return self.d[k]
    def __contains__(self, k):
        return k in self.d

class Dataset:
    def __init__(self, value, dtype):
        self.value = value
        self.dtype = dtype
        self.attrs = Attrs({})
    def __getitem__(self, k):
        return self.value
    def __setitem__(self, k, v):
        self.value = v

class Group:
    def __init__(self, f, path):
        self.f = f
        self.path = path
        self.attrs = Attrs(f.attr_store.setdefault(path, {}))
    def full(self, name):
        return name.strip('/') if self.path == '' else self.path + '/' + name.strip('/')
    def create_dataset(self, name, shape=None, dtype=None, data=None):
        p = self.full(name)
        if p in self.f.data_store:
            raise ValueError('name already exists')
        d = Dataset(data, dtype)
        self.f.data_store[p] = d
        return d
    def require_group(self, name):
        return Group(self.f, self.full(name))
    def create_group(self, name):
        return Group(self.f, self.full(name))
    def __contains__(self, name):
        p = self.full(name)
        return p in self.f.data_store or p in self.f.attr_store
    def __getitem__(self, name):
        p = self.full(name)
        if p in self.f.data_store:
            return self.f.data_store[p]
        for k in list(self.f.attr_store) + list(self.f.data_store):
            if k == p or k.startswith(p + '/'):
                return Group(self.f, p)
        raise KeyError(p)
    def __setitem__(self, name, v):
        self.create_dataset(name, data=v)
    def __delitem__(self, name):
        del self.f.data_store[self.full(name)]

class File(Group):
    def __init__(self, name, mode='r'):
        self.name = str(name)
        self.mode = mode
        self.open = True
        DISK.log.append((self.name, mode, self))
        if mode in ('w', 'w-', 'x') or self.name not in DISK.files:
            if mode == 'r' or mode == 'r+':
                raise FileNotFoundError(self.name)
            DISK.files[self.name] = ({}, {})
        self.data_store, self.attr_store = DISK.files[self.name]
        self.f = self
        self.path = ''
        self.attrs = Attrs(self.attr_store.setdefault('', {}))
    def __enter__(self):
        return self
    def __exit__(self, *a):
        self.open = False
    def close(self):
        self.open = False

class Disk:
    def __init__(self):
        self.files = {}
        self.log = []

class Empty:
    def __init__(self, dtype='f'):
        self.dtype = dtype

DISK = Disk()
'''
FQ = ["inert_mode_freqs", "corot_mode_freqs", "inert_mode_omegas", "corot_mode_omegas", "inert_dimless_mode_freqs", "corot_dimless_mode_freqs", "inert_dimless_mode_omegas", "corot_dimless_mode_omegas"]
FA = p17.FREQ[:8]
STAT = {"detunings": ("detunings", None), "gammas": ("gamma", None), "critical_parent_amplitudes": ("critical parent amplitude", None), "stationary_relative_phases": ("stationary relative phase", None),
        "stationary_relative_luminosity_phases": ("stationary relative luminosity phase", None), "q_factors": ("q factor", None), "critical_q_factors": ("critical q factor", None),
        "equilibrium_theoretical_amplitudes": ("equilibrium amplitudes", 3), "surface_flux_variations": ("surface flux variations", 3)}
UNSTABLE = ("critical parent amplitude", "stationary relative phase", "stationary relative luminosity phase")
L3, M3 = [3, 1, 4], [-2, 1, -3]
NAMES = ["grid", "model_1_2_jvb", "run-7", "M3.25_Xc0.09", "grid 2", "v1.h5", "résumé"]


def store(it):
    m = it.load_file("aeslint_h5", "<abstract HDF5 store>", ast.parse(STORE))
    v = it.get(m.env).vars
    mk = lambda n: (lambda i, a, k: i.call(v[n], list(a), dict(k)))
    for n in ("File", "Dataset", "Group", "Empty"):
        it.overrides[("ext", "h5py." + n)] = mk(n)
    return v["DISK"], v


class World(p17.World):
    def new_fh(self, it, c, v, n):
        ref = super().new_fh(it, c, v, n)
        at = it.w(ref).attrs
        for a in list(FA) + [f + "_nad" for f in FA] + ["spin_factors", "quality_factors"]:
            at[a] = self.tri(f"fh{n}.{a}")
        at["surf_rot_freq"] = sym(f"fh{n}.surf_rot_freq")
        at["requested_units"] = "Hz"
        return ref

    def tri(self, nm):
        return self.it.new(Arr((3,), tuple(sym(f"{nm}[{i}]") for i in range(3)), "float"))

    def new_triads(self, it, c, v, n):
        ref = super().new_triads(it, c, v, n)
        at = it.w(ref).attrs
        at["mode_l"], at["mode_m"] = it.list(list(L3)), it.list(list(M3))
        return ref

    def new_stat(self, it, c, v, n):
        d = {}
        for k, ln in STAT.values():
            stable = n == 0
            d[k] = self.tri(f"sol{n}.{k}") if ln else (sym(f"sol{n}.{k}") if stable or k not in UNSTABLE else None)
        d["linear driving rates"] = self.tri(f"sol{n}.linear driving rates")
        d["hyperbolic"] = sym(f"sol{n}.hyperbolic", "bool")
        d["linearly stable"] = n == 0
        ref = it.new(Dict(d))
        return Lam(lambda i, a, kw: ref)


def arr(it, x):
    x = it.res(x)
    if isinstance(x, Ref) and isinstance(it.get(x), Arr):
        return it.get(x)
    return None


def run(chk):
    R = chk.rule
    chk.floor = 200
    R("content", "every path of the result file holds, in the row of triad k, the quantity of triad k it is named after; nothing is stored twice or left out")
    R("polytropes", "polytropic results hold the adiabatic, coupling, rotation and quantum-number data, and no stationary solution, non-adiabatic or driving data")
    R("options", "the integration options of the run and the quantum numbers of the modes are stored as attributes")
    R("name", "a result file is stored as <name>_k_<k1>_<k2>_<k3>_m_<m1>_<m2>_<m3>.h5 with k = l - |m|, inside the requested directories, whatever the requested name")
    R("name found", "the reader's file-name builder yields the very name under which the saver stored the results")
    R("readers", "the analysis and plotting tools read every quantity from the path at which the saver stores it, under a name with the same meaning; several files of one model are joined in order")
    R("fresh", "a result file is written anew and closed before the save action returns; readers open files read-only and close them")
    for poly in (False, True):
        tag = "polytrope" if poly else "stellar model"
        chk.guard("polytropes" if poly else "content", tag, lambda: content(chk, poly, tag), DH + "unpacker.py")
    chk.guard("name", "file names", lambda: names(chk), DH + "storer.py")
    for pkg, cls, var in (("ae_analyzer", "QuadraticAEStationaryAnalyzer", "_load_analysis_data"), ("aeplotter", "QuadraticAEPlotter", "_load_sharpness_overview_data")):
        chk.guard("readers", pkg, lambda: readers(chk, pkg, cls, var), f"aesolver/{pkg}")


def grid(poly, base=".", name="grid", **kw):
    W = World(True, "different")
    it = W.it
    disk, v = store(it)
    front, (mod, cname, w) = "grid", p17.FRONT["grid"]
    so, opts, kws = p17.make(W, front, mod, cname, poly, True, False, True)
    it.call(so, [], {})
    S = getname(it, "aesolver.data_handling.storer", "NumericalSaver")
    sv = it.call(S, [], dict(save_name=name, solving_object=so, base_dir=base, polytropic=poly, nr_modes=3, initial_save_format="hdf5", **kw))
    it.call(sv, [], {})
    files = it.getattr(disk, "files")
    return W, it, so, opts, disk, sv


def files_of(it, disk):
    d = it.get(it.res(it.getattr(disk, "files")))
    out = {}
    for k, x in d.d.items():
        a, b = it.iter_items(x)
        data = {p: it.getattr(o, "value") for p, o in it.get(it.res(a)).d.items()}
        for p, o in it.get(it.res(a)).d.items():
            t = it.res(it.getattr(o, "dtype"))
            DT[p] = None if t is None else str(getattr(t, "path", None) or getattr(t, "name", None) or t).split(".")[-1]
        attrs = {p: dict(it.get(it.res(o)).d) for p, o in it.get(it.res(b)).d.items()}
        out[k] = (data, attrs)
    return out


def content(chk, poly, tag):
    W, it, so, opts, disk, sv = grid(poly)
    chk.saw(it)
    w = DH + "unpacker.py"
    rule = "polytropes" if poly else "content"
    fs = files_of(it, disk)
    chk.verdict("name", f"{tag}: one result file", len(fs) == 1, DH + "data_specific/hdf5_saver.py", f"{list(fs)}")
    if len(fs) != 1:
        return
    data, attrs = next(iter(fs.values()))
    want = {}
    sy = lambda f: [f(k) for k in (0, 1)]
    tri = lambda nm: sy(lambda k: [sym(f"fh{k}.{nm}[{i}]") for i in range(3)])
    for p, a in zip(FQ, FA):
        want["mode_frequency_info/" + p] = tri(a)
        if not poly:
            want["nad_mode_frequency_info/" + p] = tri(a + "_nad")
    want["rotation/spin_factors"] = tri("spin_factors")
    want["rotation/surface_rotation_frequency"] = sy(lambda k: sym(f"fh{k}.surf_rot_freq"))
    want["mode_statistics/wu"] = sy(lambda k: W.wu[k])
    want["quantum_numbers/n"] = [[num(x) for x in t] for t in p17.TRIADS]
    for p, a in (("|kappa|", "coupling_coefficient"), ("|kappa_norm|", "normed_coupling_coefficient"), ("|eta|", "eta_lee_coupling_coefficient")):
        want["coupling/generic/" + p] = sy(lambda k: sym(f"q{k}.{a}", "real"))
    want["coupling/generic/adiabatic"] = [True, True]
    want["coupling/generic/quadratic_terms"] = sy(lambda k: [sym(f"q{k}.term{i}") for i in range(4)])
    want["normalization/radial"] = sy(lambda k: [sym(f"q{k}.norm{i}", "pos") for i in range(3)])
    if not poly:
        for p, (key, ln) in STAT.items():
            want["coupling/stationary_three_mode/" + p] = sy(lambda k: [sym(f"sol{k}.{key}[{i}]") for i in range(3)] if ln else (T.NAN if k == 1 and key in UNSTABLE else sym(f"sol{k}.{key}")))
        want["linear_driving/driving_rates"] = sy(lambda k: [sym(f"sol{k}.linear driving rates[{i}]") for i in range(3)])
        want["linear_driving/quality_factors"] = tri("quality_factors")

        def checks(k):
            g = [sym(f"sol{k}.linear driving rates[{i}]") for i in range(3)]
            z = num(0)
            lt, gt = (lambda x: T.cmp("<", x, z)), (lambda x: T.cmp("<", z, x))
            al = lambda xs: T.land(T.land(xs[0], xs[1]), xs[2])
            return [al([gt(g[0]), lt(g[1]), lt(g[2])]), al([lt(g[0]), gt(g[1]), gt(g[2])]), al([gt(x) for x in g]), lt(sym(f"sol{k}.gamma")), k == 0, sym(f"sol{k}.hyperbolic", "bool")]
        want["checks/pre_checks"] = sy(checks)
    for p, ws in want.items():
        x = data.get(p)
        if x is None:
            chk.bad(rule, f"{tag}: {p}", w, "no such dataset in the result file")
            continue
        a = arr(it, x)
        flat = [y for r in ws for y in (r if isinstance(r, list) else [r])]
        shape = (2, len(ws[0])) if isinstance(ws[0], list) else (2,)
        if a is None or a.shape != shape:
            chk.bad(rule, f"{tag}: {p}", w, f"stored {x!r} of shape {getattr(a, 'shape', None)} instead of {shape}")
            continue
        kind = "bool" if p in ("checks/pre_checks", "coupling/generic/adiabatic") else "int" if p in ("mode_statistics/wu", "quantum_numbers/n") else "float"
        chk.verdict(rule, f"{tag}: {p}: number type", str(a.dtype).startswith(kind) or (kind == "int" and str(a.dtype).startswith("float")), w, f"stored as {a.dtype}")
        chk.verdict(rule, f"{tag}: {p}: stored number type", DT.get(p) is None or DT[p].startswith(("complex", kind, "unsigned")[:2] if kind != "int" else ("int", "float")) and DT[p] not in ("float32", "float16", "int8", "uint8", "complex64", "single", "half"), w, f"stored as {DT.get(p)}")
        for j, (g, e) in enumerate(zip(a.data, flat)):
            if p.startswith("coupling/generic/|"):
                g, e = T.fn("abs", N(g)), T.fn("abs", e)
            check_eq(chk, rule, f"{tag}: {p}[{j // (len(flat) // 2)}, {j % (len(flat) // 2)}]", g, e, w, it=it, rounds=80 if kind == "bool" else 6)
    extra = sorted(set(data) - set(want))
    if poly:
        chk.verdict(rule, f"{tag}: nothing that is undefined for polytropes", not [p for p in extra if p.startswith(("nad_", "checks", "linear_driving", "coupling/stat"))], w, f"{extra}")
    wa = DH + "data_specific/hdf5_saver.py"
    root, qn = attrs.get("", {}), attrs.get("quantum_numbers", {})
    for a, o in (("num_int_method", "numerical_integration_method"), ("use_cheby", "use_cheby_integration"), ("cheby_order_mul", "cheby_order_multiplier"), ("cheby_blow_up", "cheby_blow_up_protection"), ("cheby_blow_up_fac", "cheby_blow_up_factor")):
        g = it.res(root.get(a))
        if isinstance(g, Choice):  # an unset option is stored empty, a set one as it is
            g = next((v for v in (it.res(g.a), it.res(g.b)) if p17.same(it, v, opts[o])), g)
        chk.verdict("options", f"{tag}: {a}", p17.same(it, g, opts[o]), wa, f"{root.get(a)}")
    for a, x in (("l", L3), ("m", M3), ("k", [l - abs(m) for l, m in zip(L3, M3)])):
        g = arr(it, qn.get(a)) if a in qn else None
        chk.verdict("options", f"{tag}: quantum numbers {a}", g is not None and [int(Fraction(T.asterm(N(y)).args[0])) if T.asterm(N(y)).op == "num" else None for y in g.data] == x, wa, f"{qn.get(a)}")
    for g in ("mode_frequency_info",) + (() if poly else ("nad_mode_frequency_info",)):
        chk.verdict("options", f"{tag}: units of {g}", it.res(attrs.get(g, {}).get("frequency_units")) == "Hz", wa, f"{attrs.get(g)}")
    log = [[it.res(y) for y in it.iter_items(x)] for x in it.iter_items(it.getattr(disk, "log"))]
    chk.verdict("fresh", f"{tag}: opened once for writing anew and closed", len(log) == 1 and log[0][1] == "w" and it.res(it.getattr(log[0][2], "open")) is False, wa, f"{[(x[0], x[1]) for x in log]}")


DT = {}
QN = "_k_{}_m_{}".format("_".join(str(l - abs(m)) for l, m in zip(L3, M3)), "_".join(map(str, M3)))


def norm(p):
    import posixpath
    return posixpath.normpath(p) if isinstance(p, str) else p


def names(chk):
    w = DH + "storer.py"
    cases = [(b, s, "", n) for n in NAMES for b, s in ((".", ""),)] + [(b, "", "", n) for b in ("/data/run.1/out", "out/", "a b", "../up") for n in ("grid", "run-7")] + \
            [(b, s, "", "grid") for b in (".", "/data/") for s in ("sub", "sub/", "/sub", "a/b", "v1.2")]
    for b, s, x, n in cases:
        inst = f"base {b!r}, directory {s!r}, name {n!r}"

        def one():
            W, it, so, opts, disk, sv = grid(True, base=b, name=n, save_dir=s, extra_specifier=x)
            got = list(files_of(it, disk))
            want = f"{b}/hdf5_output/{s.strip('/') + '/' if s else ''}{n}{QN}.h5"
            if any(not isinstance(g, str) for g in got):
                chk.undecided("name", inst, w, f"{got}")
                return
            chk.verdict("name", inst, [norm(g) for g in got] == [norm(want)], w, f"stored as {got} instead of {want!r}")
            if s:
                return
            L = getname(it, "aesolver.read_load_info.load_name_plots", "generate_load_file_path_list")
            k = [l - abs(m) for l, m in zip(L3, M3)]
            ld = {"nr_files": 2, "base_dir": b, "output_dir": "hdf5_output", "use_standard_format": False, "base_file_names": ["other", n], "specification_names": ["", ""],
                  "meridional_degrees": [[9, 9, 9], k], "azimuthal_orders": [[8, 8, 8], M3], "file_suffix": ["h5", "h5"]}
            r = it.call(L, [conv(it, ld)], {})
            rr = [it.res(y) for y in it.iter_items(r)]
            chk.verdict("name found", inst, len(rr) == 2 and norm(rr[1]) == norm(want), "aesolver/aesolver/read_load_info/load_name_plots.py", f"{rr} instead of {want!r}")
            if n == "grid" and b == ".":
                ld.update(use_standard_format=True, masses=[3.25, 4], Xcs=[0.09, 0.29], triple_pairs=[[[1, 2], [3, 4], [5, 6]], [[20, 10], [47, 17], [30, 3]]], specification_names=[["s1", "", "s3"], "op"], base_file_names=[["a", "b", "c"], "g"], file_suffix=[["h5"] * 3, "h5"])
                r = it.call(L, [conv(it, ld)], {})
                rr = [it.res(y) for y in it.iter_items(r)]
                std = lambda M, X, d: f"_M{M}_Xc{X}_d{d[0][0]}_{d[0][1]}_d{d[1][0]}_{d[1][1]}_p{d[2][0]}_{d[2][1]}"
                q0 = std("3.25", "0_09", [[1, 2], [3, 4], [5, 6]]) + "_k_9_9_9_m_8_8_8.h5"
                w0 = ["./hdf5_output/a_s1" + q0, "./hdf5_output/b" + q0, "./hdf5_output/c_s3" + q0]
                w1 = "./hdf5_output/g_op" + std("4", "0_29", [[20, 10], [47, 17], [30, 3]]) + f"_k_{'_'.join(map(str, k))}_m_{'_'.join(map(str, M3))}.h5"
                g0 = [it.res(y) for y in it.iter_items(rr[0])] if isinstance(rr[0], Ref) else rr[0]
                chk.verdict("name found", "standard format, several files of one model", g0 == w0, "aesolver/aesolver/read_load_info/load_name_plots.py", f"{g0} instead of {w0}")
                chk.verdict("name found", "standard format, one file", rr[1] == w1, "aesolver/aesolver/read_load_info/load_name_plots.py", f"{rr[1]} instead of {w1}")
        chk.guard("name", inst, one, w)


def conv(it, x):
    if isinstance(x, dict):
        return it.new(Dict({k: conv(it, v) for k, v in x.items()}))
    if isinstance(x, list):
        return it.list([conv(it, v) for v in x])
    if isinstance(x, float):
        return Fraction(str(x))
    return x


READ = {"surfs": "coupling/stationary_three_mode/surface_flux_variations", "checks": "checks/pre_checks", "driv_damp_rates": "linear_driving/driving_rates", "theoretical_amps": "coupling/stationary_three_mode/equilibrium_theoretical_amplitudes",
        "thresh_amp": "coupling/stationary_three_mode/critical_parent_amplitudes", "rad_ord": "quantum_numbers/n", "corot_mode_omegas": "mode_frequency_info/corot_mode_omegas", "corot_mode_freqs": "mode_frequency_info/corot_mode_freqs",
        "inert_mode_omegas": "mode_frequency_info/inert_mode_omegas", "inert_mode_freqs": "mode_frequency_info/inert_mode_freqs", "inert_dimless_mode_omegas": "mode_frequency_info/inert_dimless_mode_omegas",
        "kappa": "coupling/generic/|kappa|", "kappa_norm": "coupling/generic/|kappa_norm|", "stationary_relative_luminosity_phase": "coupling/stationary_three_mode/stationary_relative_luminosity_phases"}
OPTIONAL = {"inert_dimless_mode_freqs": "mode_frequency_info/inert_dimless_mode_freqs"}


def readers(chk, pkg, cls, load):
    W, it, so, opts, disk, sv = grid(False)
    (f0, (data, attrs)), = files_of(it, disk).items()
    w = f"aesolver/{pkg}/" + ("quadratic_stationary_analyzer.py" if pkg == "ae_analyzer" else "quadratic_plotter.py")
    c = getname(it, f"{pkg}." + w.split("/")[-1][:-3], cls)
    # more files with the same layout and other contents
    D = it.get(it.res(it.getattr(disk, "files")))
    fv = it.module("aeslint_h5")
    DS = it.get(fv.env).vars["Dataset"]
    val = {}

    def other(tag):
        dd = {}
        for p, x in data.items():
            a = arr(it, x)
            dd[p] = it.call(DS, [it.new(Arr(a.shape, tuple(sym(f"{tag}:{p}:{j}") for j in range(len(a.data))), a.dtype)), None], {})
        at = {g: it.new(Dict({k: sym(f"{tag}:{g}.{k}", "opaque") for k in d})) for g, d in attrs.items()}
        it.w(it.res(it.getattr(disk, "files"))).d[tag] = (it.new(Dict(dd)), it.new(Dict(at)))
    for t in ("f1", "f2", "f3"):
        other(t)
    want = lambda tags, p: [sym(f"{t}:{p}:{j}") for t in tags for j in range(len(arr(it, data[p]).data))]
    h0 = dict(it.heap)
    for inst, paths, groups in (("several files of one model", ["f1", "f2"], [["f1", "f2"]]), ("models of one and of several files", [["f1", "f2"], "f3"], [["f1", "f2"], ["f3"]]), ("one model", ["f3"], [["f3"]])):
        def one():
            it.heap = dict(h0)
            o = it.new(Obj(c, {}, label="reader"))
            at = it.w(o).attrs
            at["_hdf5_path"] = conv(it, paths)
            for a, n in (("_load_mappings_arrays", "HDF5MappingsArrays"), ("_load_mappings_attrs", "HDF5MappingsAttributes")):
                m = it.call(getname(it, f"{pkg}.data_files.hdf5_data_path_mapper", n), [], {})
                it.w(o).attrs[a] = it.call(it.getattr(m, "get_dict"), [], {})
            it.call(it.getattr(o, load), [it.getattr(o, "_hdf5_path")], {})
            it.call(it.getattr(o, "_load_attributes"), [], {})
            ds = it.iter_items(it.getattr(o, "_list_data_dict"))
            chk.verdict("readers", f"{pkg}: {inst}: data sets", len(ds) == len(groups), w, f"{len(ds)} instead of {len(groups)}")
            for i, (d, g) in enumerate(zip(ds, groups)):
                dd = it.get(it.res(d)).d
                for key, p in list(READ.items()) + [(k, p) for k, p in OPTIONAL.items() if k in dd]:
                    x = arr(it, dd[key]) if key in dd else None
                    ok = x is not None and len(x.data) == len(want(g, p)) and all(T.isnum(y) and equal(N(y), z) for y, z in zip(x.data, want(g, p)))
                    chk.verdict("readers", f"{pkg}: {inst}: {key} of model {i + 1}", ok, f"aesolver/{pkg}/data_files/hdf5_data_path_mapper.py", f"holds {[show(N(y)) for y in x.data[:2]] if x is not None else dd.get(key)}, required {p}")
            for a in "klm":
                g = it.getattr(o, "_" + a)
                flat = []

                def walk(x):
                    x = it.res(x)
                    if isinstance(x, Ref) and isinstance(it.get(x), List):
                        for y in it.iter_items(x):
                            walk(y)
                    else:
                        flat.append(x)
                walk(g)
                exp = [sym(f"{t}:quantum_numbers.{a}", "opaque") for p in paths for t in ([p] if isinstance(p, str) else p)]
                chk.verdict("readers", f"{pkg}: {inst}: quantum numbers {a}", len(flat) == len(exp) and all(p17.same(it, x, y) for x, y in zip(flat, exp)), w, f"{flat}")
            log = [[it.res(y) for y in it.iter_items(x)] for x in it.iter_items(it.getattr(disk, "log"))][1:]
            chk.verdict("fresh", f"{pkg}: {inst}: files opened read-only and closed", all(x[1] == "r" and it.res(it.getattr(x[2], "open")) is False for x in log), w, f"{[(x[0], x[1]) for x in log]}")
        chk.guard("readers", f"{pkg}: {inst}", one, w)
    chk.saw(it)
