"""Selection of model files by name, and reading of their contents."""
import ast as _ast
import itertools
import re as _re
from .common import *

EXPL = ("Value numbering of the file-name selectors over file-name templates whose quantum numbers are symbolic: every pattern constant is folded against the template (a captured group is the symbolic field it covers), "
        "and the accept condition is compared with the required one for every configuration of substrings, mode index and mode type. The directory scan and the file readers are value numbered over stubbed directory entries and tables.")
D = "aesolver/aesolver/model_handling/"
W = D + "subselection_classes.py"
STUB = """
import stubre
class Match:
    def __init__(self, groups, named):
        self._g = groups
        self._n = named
    def group(self, i=0):
        if isinstance(i, str):
            return self._n[i]
        return self._g[i]
    def groups(self):
        return tuple(self._g[1:])
    def groupdict(self):
        return self._n
    def __getitem__(self, i):
        return self.group(i)
class Pattern:
    def __init__(self, p, fl=0):
        self.pattern = p
        self.fl = fl
    def match(self, name):
        return stubre.run('match', self.pattern, name, self.fl)
    def search(self, name):
        return stubre.run('search', self.pattern, name, self.fl)
    def fullmatch(self, name):
        return stubre.run('fullmatch', self.pattern, name, self.fl)
"""
INST = [("1", "2", "34"), ("56", "7", "8"), ("9", "10", "111"), ("0", "0", "3")]


class Tmpl:
    """file name with symbolic fields {L}, {M}, {N}"""

    def __init__(self, text):
        self.text = text
        self.forms = [text.format(L=a, M=b, N=c) for a, b, c in INST]


def setup(it, tmpl):
    m = it.load_file("stub_re", "stub_re.py", _ast.parse(STUB))
    M_, P_ = (it.get(m.env).vars[n] for n in ("Match", "Pattern"))

    def run(i, a, k):
        how, pat, name, fl = a
        name = i.res(name)
        if tmpl is None and isinstance(pat, str) and isinstance(name, str):
            x = getattr(_re.compile(pat, fl if isinstance(fl, int) else 0), how)(name)
            return None if x is None else i.call(M_, [i.list([x.group(g) for g in range(len(x.groups()) + 1)]), i.new(Dict(dict(x.groupdict())))])
        if not isinstance(pat, str) or not isinstance(name, Node):
            raise Unsupported("pattern matching on " + repr(name))
        ms = [getattr(_re.compile(pat, fl if isinstance(fl, int) else 0), how)(f) for f in tmpl.forms]
        if all(x is None for x in ms):
            return None
        if any(x is None for x in ms):
            raise Unsupported(f"pattern {pat!r} matches only some instances of {tmpl.text}")

        def field(vals):
            for j, s in enumerate("LMN"):
                if all(v == t[j] for v, t in zip(vals, INST)):
                    return sym("field:" + s, "int")
            for sg in "+-":
                if all(v == sg + t[1] for v, t in zip(vals, INST)):
                    return num(1 if sg == "+" else -1) * sym("field:M", "int")
            if all(v == vals[0] for v in vals):
                return vals[0]
            if list(vals) == tmpl.forms:
                return name
            return sym(f"captured:{pat}:{len(vals)}:{vals[0]}", "int")
        gs = [field([x.group(g) for x in ms]) for g in range(len(ms[0].groups()) + 1)]
        nd = {g: field([x.group(g) for x in ms]) for g in ms[0].re.groupindex}
        return i.call(M_, [i.list(gs), i.new(Dict(nd))])
    it.overrides[("ext", "stubre.run")] = run
    it.overrides[("ext", "re.compile")] = lambda i, a, k: i.call(P_, list(a))
    for h in ("match", "search", "fullmatch"):
        it.overrides[("ext", "re." + h)] = lambda i, a, k, h=h: run(i, [h, a[0] if isinstance(a[0], str) else i.getattr(a[0], "pattern"), a[1], 0], {})


def run(chk):
    chk.rule("mode", "a mode file is accepted exactly when its degree, signed azimuthal order and radial order are those of the requested mode, its name carries the requested g- or p-mode tag and every requested substring")
    chk.rule("structure", "a structure file is accepted exactly when it has the requested suffix, is no GYRE output (stellar profiles) and contains every requested substring")
    chk.rule("scan", "exactly the accepted regular files of the directory are read, each with its own path and suffix, with the request passed on unchanged")
    chk.rule("format", "the reader is chosen by the file suffix, whatever its case, and an unknown suffix stops the program")
    chk.rule("wiring", "from the request to the data: each kind of file is looked for in its own directory (given, or the only one of that name) by its own criteria, mode by mode in the requested order")
    chk.rule("table", "columns of a stellar profile are read under their own name, falling back to the header value")

    def over(L, M, N, sign):
        """interpretations in which each criterion is met or missed, and other modes' numbers never coincide with the file's"""
        def f(s):
            bits = [(s >> j) & 1 for j in range(3)] if s % 3 else [0, 0, 0]
            f_ = {"field:L": 2 + s % 3, "field:M": s % 4, "field:N": 20 + s % 9}
            o = dict(f_)
            for j in range(3):
                for nm, v in (("l", f_["field:L"]), ("m", sign * f_["field:M"]), ("n", f_["field:N"])):
                    o[f"{nm}{j}"] = v if j == s // 8 % 3 else v + 1 + j
            for b, nm in zip(bits, "lmn"):
                if b:
                    for j in range(3):
                        o[f"{nm}{j}"] += 3 if j == s // 8 % 3 else 0
                    if nm == "m" and s % 2:
                        o[f"m{s // 8 % 3}"] = -sign * f_["field:M"]
            return o
        return f

    def hook(sm, n, name, args, ctx, env):
        if name == "contains":
            return bool(hash((sm.seed[1] * 7919) ^ len(str(n.args[2] if len(n.args) > 2 else n.args)) * 104729 ^ sum(map(ord, str(n.args))) * 31) % 5)
        return None

    def mode(cls, tag, text, k, g, subs, tmplsign, has):
        it = Interp(REPO)
        t = Tmpl(text)
        setup(it, t)
        name = sym("name", "opaque")
        S = lambda p: it.list([sym(f"{p}{j}", "int") for j in range(3)])
        o = it.call(getname(it, "aesolver.model_handling.subselection_classes", cls), [], {"search_l": S("l"), "search_m": S("m"), "search_n": S("n")})
        sub, need = subs(it)
        need = need(k)
        kw = {"name": name, "additional_substring": sub, "mode_number": k + 1, "g_mode": g}
        r = it.call(it.getattr(o, "subselect"), [], kw)
        r = it.truth(r)
        inst = f"{cls}: {tag}, mode {k + 1}, {'g' if g else 'p'} mode requested"
        if not has(g):
            chk.verdict("mode", inst, r is False or (isinstance(r, Node) and T.equal(T.asterm(r), T.asterm(False), rounds=12, over=over(0, 0, 0, tmplsign))), W, f"accepted under {show(T.asterm(r), 5)[:200]}")
        else:
            L, M, N_ = (sym("field:" + x, "int") for x in "LMN")
            w = T.land(T.cmp("==", L, sym(f"l{k}", "int")), T.land(T.cmp("==", num(tmplsign) * M, sym(f"m{k}", "int")), T.cmp("==", N_, sym(f"n{k}", "int"))))
            for x in need:
                w = T.land(w, fn("contains", name, x))
            check_eq(chk, "mode", inst, r, w, W, over=over(0, 0, 0, tmplsign), rounds=48, fnhook=hook)
        chk.saw(it)

    SUBS = {"no substring": lambda it: (None, lambda k: []), "one substring": lambda it: ("sub", lambda k: ["sub"]),
            "substring tuple": lambda it: (("suba", "subbb", "subccc"), lambda k: ["suba", "subbb", "subccc"]),
            "substring per mode": lambda it: (it.list(["suba", "subbb", "subccc"]), lambda k: [["suba", "subbb", "subccc"][k]])}
    yes = lambda g: True
    onlyg = lambda g: g
    onlyp = lambda g: not g
    no = lambda g: False
    names = []
    for sep in ("_", ".", ""):
        for sg in "+-":
            for perm in itertools.permutations(["l{L}", "m%s{M}" % sg, "n+{N}"]):
                names.append((f"detail_M8.00_Xc0.09{sep or '_'}g_mode_" + sep.join(perm) + ".h5", 1 if sg == "+" else -1, onlyg))
    names.append(("model_detail.l{L}.m+{M}.n+{N}.p_mode.h5", 1, onlyp))
    names.append(("model_detail.l{L}.m-{M}.n+{N}.p_mode.h5", -1, onlyp))
    names.append(("l{L}_m-{M}_n+{N}_g_mode", -1, onlyg))
    names.append(("detail_l{L}_m+{M}_n+{N}.h5", 1, no))
    names.append(("detail_l{L}_n+{N}_g_mode.h5", 1, no))
    names.append(("detail_m+{M}_n+{N}_g_mode.h5", 1, no))
    names.append(("detail_l{L}_m-{M}_g_mode.h5", -1, no))
    for cls in ("GYREDetailSubSelector", "PolytropeOscillationModelSubSelector"):
        for i, (nm, sg, has) in enumerate(names):
            for st, sf in SUBS.items():
                if i not in (0, 6, len(names) - 7) and st != "no substring":
                    continue
                for k in range(3) if i < 9 else (i % 3,):
                    for g in (True, False):
                        chk.guard("mode", f"{cls}: {nm} {st} {k} {g}", lambda: mode(cls, f"{nm}, {st}", nm, k, g, sf, sg, has), W)

    def struct(cls, kwname, suf, text, acc, st, sub, need):
        it = Interp(REPO)
        setup(it, Tmpl(text))
        name = sym("name", "opaque")
        o = it.call(getname(it, "aesolver.model_handling.subselection_classes", cls), [], {kwname: suf})
        r = it.truth(it.call(it.getattr(o, "subselect"), [], {"name": name, "additional_substring": it.list(list(sub)) if st == "list" else sub}))
        w = T.asterm(acc)
        for x in need:
            w = T.land(w, fn("contains", name, x))
        inst = f"{cls}: {text}, suffix {suf}, substrings {st}"
        if acc and need:
            check_eq(chk, "structure", inst, r, w, W, rounds=24, fnhook=hook)
        else:
            e = r is acc or (isinstance(r, Node) and T.equal(T.asterm(r), w, rounds=12))
            chk.verdict("structure", inst, bool(e), W, f"{'rejected' if acc else 'accepted'}")
        chk.saw(it)
    MN = [("profile_M6.00_Xc0.09.dat", "dat", True), ("profile_M6.00_Xc0.09.dat.h5", "dat", False), ("profile_M6.00_Xc0.09.data", "dat", False), ("profile_dat", "dat", False), ("profile_M6.gyre.dat", "dat", False),
          ("GYRE_input_M6.dat", "dat", False), ("gyre_input.dat", "dat", False), ("profile.GYRE", "dat", False), ("profile_M6.h5", "h5", True), ("profile_M6.dat", "h5", False)]
    PN = [("poly_n_3_0.h5", "h5", True), ("poly_n_3_0.h5.bak", "h5", False), ("poly_n_3_0.txt", "h5", False), ("polyh5", "h5", False), ("poly.dat", "dat", True)]
    for cls, kwn, fam in (("MESAProfileSubSelector", "mesa_file_suffix", MN), ("PolytropeModelSubSelector", "polytrope_model_suffix", PN)):
        for text, suf, acc in fam:
            for st, sub, need in (("none", None, []), ("tuple", ("suba", "subbb"), ["suba", "subbb"]), ("list", ("suba", "subbb"), ["suba", "subbb"])):
                chk.guard("structure", f"{cls} {text} {st}", lambda: struct(cls, kwn, suf, text, acc, st, sub, need), W)

    def scan(structure, g, how):
        it = Interp(REPO)
        R = D + "read_models.py"
        ents = [("b1.l1.h5", True, True), ("skip.h5", True, False), ("dir.h5", False, True), ("z.dat", True, True), ("dir2", False, False)]
        order = {"forward": ents, "backward": ents[::-1]}[how]
        calls, reads = [], []
        m = it.load_file("stub_ent", "stub_ent.py", _ast.parse("class E:\n    def __init__(self, n, f):\n        self.name = n\n        self.path = 'dir/' + n\n        self._f = f\n    def is_file(self, **k):\n        return self._f\n    def is_dir(self, **k):\n        return not self._f\n"
                         "class Sc:\n    def __init__(self, l):\n        self.l = l\n    def __iter__(self):\n        return iter(self.l)\n    def __enter__(self):\n        return self\n    def __exit__(self, *a):\n        pass\n    def close(self):\n        pass\n"))
        E_ = it.get(m.env).vars["E"]
        dirs = []

        def sd(i, a, k):
            dirs.append(a[0] if a else k.get("path"))
            return i.list([i.call(E_, [n, f]) for n, f, _ in order])
        it.overrides[("ext", "os.scandir")] = sd

        def sel(i, a, k):
            calls.append(k)
            if k.get("name") is None or k.get("name") not in [n for n, _, _ in ents]:
                raise Unsupported("selector called without the name")
            return dict((n, s) for n, _, s in ents)[k["name"]]
        it.overrides[("ext", "stub.select")] = sel

        def rf(i, f, a, k):
            k = {**dict(zip(["self", "file_path", "file_suffix"], a)), **k}
            reads.append((k["file_path"], k["file_suffix"]))
            return sym("content:" + str(k["file_path"]))
        it.overrides[("func", "_read_file")] = rf
        o = it.call(getname(it, "aesolver.model_handling.read_models", "ModelReader"), [getname(it, "aesolver.model_handling.enumeration_files.enumeration_models", "GYREDetailFiles")])
        kw = {"my_dir": "dir/", "subselection_method": Ext("stub.select"), "additional_substring": ("s1", "s2")}
        want = {"additional_substring": ("s1", "s2")}
        if structure:
            kw["structure_file"] = True
        else:
            kw["mode_number"] = want["mode_number"] = 2
        if g is not None:
            kw["g_mode"] = want["g_mode"] = g
        out = it.get(it.res(it.call(it.getattr(o, "data_file_reader"), [], kw))).items
        inst = f"{'structure' if structure else 'mode'} scan, g_mode {g}, {how}"
        exp = [("dir/" + n, n.rsplit(".", 1)[1]) for n, f, s in order if f and s]
        chk.verdict("scan", inst + ": files read", reads == exp, R, f"read {reads}, expected {exp}")
        chk.verdict("scan", inst + ": contents returned", [show(x, 3) if isinstance(x, Node) else x for x in out] == ["content:" + p for p, _ in exp], R, f"returned {out}")
        chk.verdict("scan", inst + ": directory", dirs == ["dir/"], R, f"scanned {dirs}")
        got = [{a: b for a, b in c.items() if a != "name"} for c in calls]
        chk.verdict("scan", inst + ": request", all(c == want for c in got), R, f"selector received {got[:1]}, expected {want}")
        chk.saw(it)
    for s, g in ((True, None), (False, True), (False, False)):
        for how in ("forward", "backward"):
            chk.guard("scan", f"{s} {g} {how}", lambda: scan(s, g, how), D + "read_models.py")

    def fmt(suf, want):
        it = Interp(REPO)
        got = []
        for n in ("_hdf5_reader", "_dat_reader", "_text_reader"):
            it.overrides[("func", n)] = lambda i, f, a, k, n=n: (got.append((n, {**dict(zip(["self", "file_path", "attributes"], a)), **k})), sym("read"))[1]
        c = getname(it, "aesolver.model_handling.enumeration_files.enumeration_models", "MESAProfileFiles")
        o = it.call(getname(it, "aesolver.model_handling.read_models", "ModelReader"), [c])
        W2 = D + "enumeration_files/enumeration_read.py"
        try:
            r = it.call(it.getattr(o, "_read_file"), [], {"file_path": "p/q." + suf, "file_suffix": suf})
        except AbsRaise:
            chk.verdict("format", f"suffix {suf}", want is None, W2, "refused")
            return
        if want is None:
            chk.bad("format", f"suffix {suf}", W2, f"read with {got}")
            return
        at = list(it.get(it.res(it.call(it.getattr(c, "attrs")))).items)
        ok = len(got) == 1 and got[0][0] == want and got[0][1]["file_path"] == "p/q." + suf and list(it.get(it.res(got[0][1]["attributes"])).items) == at
        chk.verdict("format", f"suffix {suf}", ok, W2, f"read with {[g[0] for g in got]}, expected {want} on the same path for the same quantities")
        chk.saw(it)
    for suf, w in (("h5", "_hdf5_reader"), ("H5", "_hdf5_reader"), ("hdf5", "_hdf5_reader"), ("HDF5", "_hdf5_reader"), ("dat", "_dat_reader"), ("DAT", "_dat_reader"), ("txt", "_text_reader"), ("png", None), ("bak", None)):
        chk.guard("format", suf, lambda: fmt(suf, w), D + "read_models.py")

    def dat():
        it = Interp(REPO)
        src = """
class Loc:
    def __init__(self, d):
        self.d = d
    def __getitem__(self, k):
        if isinstance(k, tuple):
            return Col(self.d[k[1]])
        return self.d[k]
class Col:
    def __init__(self, v):
        self.v = v
        self.values = v
    def to_numpy(self):
        return self.v
class Row:
    def __init__(self, d):
        self.at = d
        self.loc = d
        self.d = d
    def __getitem__(self, k):
        return self.d[k]
class ILoc:
    def __init__(self, d):
        self.d = d
    def __getitem__(self, k):
        return Row({a: (b, k) for a, b in self.d.items()})
class DF:
    def __init__(self, d, h):
        self.loc = Loc(d)
        self.d = d
        self.iloc = ILoc(h)
    def __getitem__(self, k):
        return Col(self.d[k])
"""
        m = it.load_file("stub_pd", "stub_pd.py", _ast.parse(src))
        DF = it.get(m.env).vars["DF"]

        def rd(i, a, k):
            sk = k.get("skiprows", a[1] if len(a) > 1 else 0)
            body = {n: sym(f"col:{n}@{sk}") for n in ("radius", "mass")}
            head = {n: sym(f"head:{n}@{sk}") for n in ("Teff", "star_mass", "radius")}
            return i.call(DF, [i.new(Dict(body)), i.new(Dict(head))])
        it.overrides[("ext", "pandas.read_fwf")] = rd
        R = D + "read_models.py"
        o = it.call(getname(it, "aesolver.model_handling.read_models", "ModelReader"), [getname(it, "aesolver.model_handling.enumeration_files.enumeration_models", "MESAProfileFiles")])
        d = it.get(it.res(it.call(it.getattr(o, "_dat_reader"), [], {"file_path": "p", "attributes": it.list(["radius", "Teff", "mass", "absent", "star_mass"])}))).d
        for n in ("radius", "mass"):
            check_eq(chk, "table", f"column {n}", d.get(n), sym(f"col:{n}@5"), R, it=it)
        for n in ("Teff", "star_mass"):
            v = it.res(d.get(n))
            chk.verdict("table", f"header {n}", isinstance(v, tuple) and len(v) == 2 and v[0] == sym(f"head:{n}@1") and v[1] == 0, R, f"value {v}")
        chk.verdict("table", "absent quantities stay absent", set(d) == {"radius", "mass", "Teff", "star_mass"}, R, f"keys {sorted(d)}")
        chk.saw(it)
    chk.guard("table", "stellar profile", dat, D + "read_models.py")

    LW = D + "load_models.py"
    ENT = ("class E:\n    def __init__(self, d, n, f):\n        self.name = n\n        self.path = d + n\n        self._f = f\n    def is_file(self, **k):\n        return self._f\n    def is_dir(self, **k):\n        return not self._f\n"
           "class F:\n    def __init__(self, d):\n        self.d = d\n        self.attrs = {}\n    def __getitem__(self, k):\n        return self.d[k]\n    def __enter__(self):\n        return self\n    def __exit__(self, *a):\n        pass\n    def close(self):\n        pass\n"
           "class Loc:\n    def __init__(self, d):\n        self.d = d\n    def __getitem__(self, k):\n        return Col(self.d[k[1]])\nclass Col:\n    def __init__(self, v):\n        self.values = v\n    def to_numpy(self):\n        return self.values\n"
           "class Row:\n    def __init__(self):\n        self.at = {}\n    def __getitem__(self, k):\n        return self.at[k]\nclass DF:\n    def __init__(self, d):\n        self.loc = Loc(d)\n        self.iloc = [Row()]\n    def __getitem__(self, k):\n        return Col(self.loc.d[k])\n")

    def world(fs):
        """interpreter in which the directory tree is fs: {directory: [(name, is_file)]}, and reading a file yields its path"""
        it = Interp(REPO)
        setup(it, None)
        m = it.load_file("stub_fs", "stub_fs.py", _ast.parse(ENT))
        E_, F_, DF_ = (it.get(m.env).vars[n] for n in ("E", "F", "DF"))
        scanned, extra = [], {}

        def sd(i, a, k):
            d = a[0] if a else k.get("path")
            scanned.append(d)
            d_ = d if not isinstance(d, str) or d.endswith("/") else d + "/"
            return i.list([i.call(E_, [d_, n, f]) for n, f in fs.get(d_, [])])
        it.overrides[("ext", "os.scandir")] = sd
        it.overrides[("ext", "h5py.File")] = lambda i, a, k: i.call(F_, [i.new(Dict({n: i.new(Dict({(): sym("content:" + str(a[0] if a else k["name"]))})) for n in ("label", "n", "radius")}))])
        it.overrides[("ext", "pandas.read_fwf")] = lambda i, a, k: i.call(DF_, [i.new(Dict({"radius": sym("content:" + str(a[0] if a else k["filepath_or_buffer"]))}))])
        it.overrides[("func", "dimensionalize")] = lambda i, f, a, k: None

        def pasi(i, f, a, k):
            extra.update({**dict(zip(["model_info_dictionary_list", "model_mass", "model_radius"], a)), **k})
            return i.obj(None, {"property_dict": i.new(Dict({}))})
        it.overrides[("class", "PolytropicAdditionalStructureInformation")] = pasi
        return it, scanned, extra

    def contents(it, o, attr):
        out = []
        for d in it.get(it.res(it.getattr(o, attr))).items:
            d = it.get(it.res(d)).d
            v = [it.res(d[k]) for k in ("n", "label", "radius") if k in d]
            v = v[0] if v else None
            out.append(str(show(v, 4)).replace("content:", "") if isinstance(v, Node) else v)
        return out

    def wire(tag, fs, init, rd, want, extra_want=None, scanned_only=None, silent=None):
        if "progress_bars" not in rd and any(rd.values()):
            wire(tag, fs, init, {**rd, "progress_bars": True, "progress_specifier": "model x"}, want, extra_want, scanned_only, silent)
            tag += ", no progress bars"
        it, scanned, extra = world(fs)
        ini = {k: it.list(v) if isinstance(v, list) else v for k, v in init.items()}
        rdk = {k: it.list(v) if isinstance(v, list) else v for k, v in rd.items()}
        try:
            o = it.call(getname(it, "aesolver.model_handling.load_models", "ModelLoader"), [], ini)
            it.call(it.getattr(o, "read_data_files"), [], rdk)
        except AbsRaise as e:
            chk.verdict("wiring", f"{tag}: request carried out", want is None, LW, f"stopped with {e.exc}")
            if silent is not None:
                chk.verdict("wiring", f"{tag}: directories looked into", not (set(map(str, scanned)) & set(silent)), LW, f"looked into {scanned}")
            chk.saw(it)
            return
        if want is None:
            chk.bad("wiring", f"{tag}: request refused", LW, "accepted")
            return
        for attr in ("gyre_details", "mesa_profile", "polytrope_model", "polytrope_oscillation_models"):
            got = contents(it, o, attr)
            chk.verdict("wiring", f"{tag}: {attr}", got == want.get(attr, []), LW, f"read from {got}, expected {want.get(attr, [])}")
        for k, w in (extra_want or {}).items():
            v = extra.get(k)
            r, sg = w
            for nm in ("polytrope structure",):
                check_eq(chk, "wiring", f"{tag}: {k}", v, r(it), LW, it=it)
            for d in it.get(it.res(it.getattr(o, "polytrope_oscillation_models"))).items:
                check_eq(chk, "wiring", f"{tag}: {sg} attached to the modes", it.get(it.res(d)).d.get(sg), r(it), LW, it=it)
        chk.saw(it)
    SG = lambda m: ("+" if m >= 0 else "-") + str(abs(m))
    gname = lambda tag, l, m, n, gp="g", more="": (f"{tag}_l{l}_m{SG(m)}_n+{n}_{gp}_mode{more}.h5", True)
    LMN = [(1, -1, 20), (2, 1, 33), (2, 2, 41)]
    DEC = [(1, 1, 20), (2, -1, 33), (1, 2, 41), (2, 2, 33), (2, 1, 41)]

    def modefiles(tag, gps=("g", "g", "g"), decoy=True):
        l = []
        for j, x in enumerate(LMN):
            l += [gname(tag, *x, gp=gps[j])] + ([gname(tag, *x, gp="p" if gps[j] == "g" else "g"), gname("other", *x, gp=gps[j]), ("sub_" + gname(tag, *x, gp=gps[j])[0], False)] if decoy else [])
        return l + ([gname(tag, *x) for x in DEC] if decoy else [])

    def wiring():
        prof = [("profile_KIC_a.dat", True), ("profile_KIC_a.dat.h5", True), ("profile_gyre_KIC_a.dat", True), ("profile_b.dat", True), ("a_KIC_a.dat", True), ("profile_KIC_a.h5", True), ("profile_KIC_d.dat", False)]
        pm = [("polytrope_n3.h5", True), ("polytrope_n4.h5", True), ("p_n3.h5", True), ("polytrope_n3.txt", True), ("polytrope_n3.dat", True)]
        fs = {"G/": modefiles("detail"), "G2/": modefiles("alt"), "Me/": prof, "PM/": pm, "PO/": modefiles("osc"), "b/": [("mesa_x", False), ("gyre_x", False)], "b/mesa_x/": prof, "b/gyre_x/": modefiles("detail")}
        pick = lambda tag, order=(0, 1, 2), d="G/", gps="ggg": [d + gname(tag, *LMN[j], gp=gps[j])[0] for j in order]
        base = dict(base_dir="b/", infer_dir=False, mesa_output_dir="Me/", gyre_output_dir="G/", polytrope_model_output_dir="PM/", polytrope_oscillation_output_dir="PO/", gyre_detail_substring="detail", unit_system="CGS",
                    mesa_suffix="dat", mesa_profile_substrings=("profile", "KIC"), polytrope_model_suffix="h5", polytrope_oscillation_substrings="osc", polytrope_model_substrings=("polytrope", "n3"))
        S = lambda order: dict(zip(("search_l", "search_m", "search_n"), ([LMN[j][i] for j in order] for i in range(3))))
        for order in ((0, 1, 2), (2, 0, 1), (1, 0, 2), (0, 1), (2, 1, 0)):
            b = {**base, **S(order)}
            g = [True] * len(order)
            for bar in (False, True):
                chk.guard("wiring", f"modes {order}", lambda: wire(f"mode files, order {order}, progress bar {bar}", fs, b, {"gyre_detail": True, "g_modes": g, "progress_bars": bar}, {"gyre_details": pick("detail", order)}), LW)
                chk.guard("wiring", f"oscillations {order}", lambda: wire(f"polytrope modes, order {order}, progress bar {bar}", fs, b, {"polytrope_oscillation": True, "g_modes": g, "progress_bars": bar}, {"polytrope_oscillation_models": pick("osc", order, "PO/")}), LW)
        b = {**base, **S((0, 1, 2))}
        full = {"gyre_details": pick("detail"), "mesa_profile": ["Me/profile_KIC_a.dat"], "polytrope_model": ["PM/polytrope_n3.h5"], "polytrope_oscillation_models": pick("osc", d="PO/")}
        flags = {"gyre_details": "gyre_detail", "mesa_profile": "mesa_profile", "polytrope_model": "polytrope_model", "polytrope_oscillation_models": "polytrope_oscillation"}
        for sel in itertools.product((False, True), repeat=4):
            on = {k for k, s in zip(full, sel) if s}
            chk.guard("wiring", f"kinds {sel}", lambda: wire(f"requested kinds {sorted(on) or 'none'}", fs, b, {flags[k]: True for k in on}, {k: v for k, v in full.items() if k in on}), LW)
        for gps in ("gpg", "pgg", "ggp", "ppp"):
            f2 = {**fs, "G/": modefiles("detail", gps), "PO/": modefiles("osc", gps)}
            p2 = {d: [e for e in l] for d, l in f2.items()}
            for d in ("G/", "PO/"):
                tag = "detail" if d == "G/" else "osc"
                p2[d] = [(f"model_{tag}.l{l}.m{SG(m)}.n+{n}.{gp}_mode.h5", True) for (l, m, n), gp in itertools.product(LMN, "gp")]
            nm = lambda tag, d: [d + f"model_{tag}.l{l}.m{SG(m)}.n+{n}.{gp}_mode.h5" for (l, m, n), gp in zip(LMN, gps)]
            chk.guard("wiring", f"types {gps}", lambda: wire(f"mode types {gps}", p2, b, {"gyre_detail": True, "polytrope_oscillation": True, "g_modes": [c == "g" for c in gps]}, {"gyre_details": nm("detail", "G/"), "polytrope_oscillation_models": nm("osc", "PO/")}), LW)
        f3 = {**fs, "G/": [gname("deta", *x) for x in LMN] + [gname("detb", *x) for x in LMN]}
        chk.guard("wiring", "substrings", lambda: wire("one substring per mode", f3, {**b, "gyre_detail_substring": ["detb", "deta", "detb"]}, {"gyre_detail": True}, {"gyre_details": ["G/" + gname(t, *x)[0] for t, x in zip(("detb", "deta", "detb"), LMN)]}), LW)
        chk.guard("wiring", "suffix", lambda: wire("structure suffixes", {**fs, "Me/": [("profile_KIC.dat", True), ("profile_KIC.h5", True)], "PM/": [("polytrope_n3.h5", True), ("polytrope_n3.hdf5", True)]}, {**b, "mesa_suffix": "h5", "polytrope_model_suffix": "hdf5"},
                                                  {"mesa_profile": True, "polytrope_model": True}, {"mesa_profile": ["Me/profile_KIC.h5"], "polytrope_model": ["PM/polytrope_n3.hdf5"]}), LW)
        for miss in range(3):
            f4 = {**fs, "G/": [e for e in fs["G/"] if e != gname("detail", *LMN[miss])], "PO/": [e for e in fs["PO/"] if e != gname("osc", *LMN[miss])]}
            for k in ("gyre_detail", "polytrope_oscillation"):
                for bar in (False, True):
                    chk.guard("wiring", f"missing {miss}", lambda: wire(f"{k}: mode {miss + 1} has no file, progress bar {bar}", f4, b, {k: True, "progress_bars": bar}, None), LW)
        for k, d in (("mesa_profile", "Me/"), ("polytrope_model", "PM/")):
            chk.guard("wiring", f"{k} missing", lambda: wire(f"{k}: no file", {**fs, d: []}, b, {k: True}, None), LW)
            chk.guard("wiring", f"{k} ambiguous", lambda: wire(f"{k}: two files", {**fs, d: fs[d] + [("2profile_KIC.dat", True), ("2polytrope_n3.h5", True)]}, b, {k: True}, None), LW)
        # documented defaults
        dm = [(2, 0, 20), (2, 0, 22), (2, 0, 25)]
        f5 = {"G/": [gname("detail", *x) for x in dm + LMN] + [gname("summary", *x) for x in dm], "PO/": [gname("detail", *x) for x in dm + LMN], "Me/": [("profile_KIC6352430.dat", True), ("profile.dat", True), ("profile_KIC6352430.h5", True)], "PM/": [("polytrope_n_3_0.h5", True), ("polytrope.h5", True), ("n_3_0.h5", True), ("polytrope_n_3_0.txt", True)]}
        ini = dict(base_dir="b/", mesa_output_dir="Me/", gyre_output_dir="G/", polytrope_model_output_dir="PM/", polytrope_oscillation_output_dir="PO/")
        w5 = {"gyre_details": ["G/" + gname("detail", *x)[0] for x in dm], "polytrope_oscillation_models": ["PO/" + gname("detail", *x)[0] for x in dm], "mesa_profile": ["Me/profile_KIC6352430.dat"], "polytrope_model": ["PM/polytrope_n_3_0.h5"]}
        cg = lambda it, c: it.getattr(it.getattr(Ext("astropy.constants." + c), "cgs"), "value")
        ex = {"model_mass": (lambda it: num(3) * cg(it, "M_sun"), "M_star"), "model_radius": (lambda it: num(9) / num(2) * cg(it, "R_sun"), "R_star")}
        chk.guard("wiring", "defaults", lambda: wire("documented defaults", f5, ini, {v: True for v in flags.values()}, w5, ex), LW)
        # inference of directories
        kinds = {"mesa_output_dir": ("MESA_out", "mesa_profile"), "gyre_output_dir": ("my_Gyre", "gyre_details"), "polytrope_model_output_dir": ("Polytrope_Model_dir", "polytrope_model"), "polytrope_oscillation_output_dir": ("x_polytrope_oscillation", "polytrope_oscillation_models")}
        src = {"mesa_output_dir": "Me/", "gyre_output_dir": "G/", "polytrope_model_output_dir": "PM/", "polytrope_oscillation_output_dir": "PO/"}
        for given in itertools.product((False, True), repeat=4):
            gv = {k for k, s in zip(kinds, given) if s}
            f6 = {**fs, "b/": [(kinds[k][0], False) for k in kinds] + [("mesa_file", True), ("gyre_file", True), ("polytrope_model_f", True), ("polytrope_oscillation_f", True), ("polytrope", False), ("unrelated", False)]}
            for k in kinds:
                f6["b/" + kinds[k][0] + "/"] = fs[src[k]]
            ini = {**b, "infer_dir": True, **{k: None for k in kinds if k not in gv}}
            w6 = {kinds[k][1]: [(x if k in gv else "b/" + kinds[k][0] + "/" + x.rsplit("/", 1)[1]) for x in full[kinds[k][1]]] for k in kinds}
            chk.guard("wiring", f"inference {given}", lambda: wire(f"directories given: {sorted(gv) or 'none'}, others found by name", f6, ini, {v: True for v in flags.values()}, w6), LW)
        for k in kinds:
            f7 = {**fs, "b/": [(kinds[k][0], False), (kinds[k][0] + "2", False)]}
            for nm in (kinds[k][0], kinds[k][0] + "2"):
                f7[f"b/{nm}/"] = fs[src[k]]
            cand = [f"b/{nm}{e}" for nm in (kinds[k][0], kinds[k][0] + "2") for e in ("", "/")]
            chk.guard("wiring", f"ambiguous {k}", lambda: wire(f"two candidate directories for {k}", f7, {**b, "infer_dir": True, k: None}, {flags[kinds[k][1]]: True}, None, silent=cand), LW)
            f8 = {**fs, "b/": [(kinds[k][0], False)], f"b/{kinds[k][0]}/": fs[src[k]]}
            chk.guard("wiring", f"no inference {k}", lambda: wire(f"{k} not given, inference off", f8, {**b, "infer_dir": False, k: None}, {flags[kinds[k][1]]: True}, None, silent=cand), LW)
            chk.guard("wiring", f"no base {k}", lambda: wire(f"{k} not given, nowhere to infer from", f8, {**b, "base_dir": None, "infer_dir": True, k: None}, {}, None), LW)
    chk.guard("wiring", "end to end", wiring, LW)
    chk.floor = 60
