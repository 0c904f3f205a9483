"""Laplace tidal eigenvalues."""
from .common import *
from . import p07, stubs

EXPL = ("Abstract interpretation of the GYRE table reader on a modelled file system for all orders of a bounded range (overload dispatch included), with the spin as a symbol; "
        "and of complete coupling-coefficient constructions, whose requests for Hough functions are compared with the eigenvalue, spin and quantum numbers of each mode.")
W = "gyre-tools/lam_tar_gyre/lam_tar_gyre.py"
WC = "aesolver/aesolver/coupling_coefficients/quadratic_coupling_coefficient_rotating.py"
D = "/opt/gyre"


def table(l, m):
    return f"{D}/data/tar/tar_fit.m{m:+d}.k{l - abs(m):+d}.h5"


def world(files, env=D, module=True):
    it = Interp(REPO)
    it.float_syms = True
    stubs.install(it, ["x"], "/home/user", files)
    vars_ = lambda m: it.get(it.modules[m].env).vars
    vars_("os")["environ"] = it.new(Dict({} if env is None else {"GYRE_DIR": env}))
    vars_("sys")["path"] = it.list(["/usr/lib"])
    log = []

    def load(i, a, k):
        p = i.res((list(a) + list(k.values()))[0])
        p = p if isinstance(p, str) else i.pyrepr(p) if not isinstance(p, Ref) else i.getattr(p, "s")
        return i.obj(None, {"lam": Lam(lambda i2, a2, k2: (log.append((p, a2[0])), fn("lam", sym("table:" + p), N(a2[0])))[1])}, label="fit")
    if module:
        tf = it.obj(None, {"load": Lam(load)}, label="TarFit")
        it.modules["gyre_tar_fit"] = it.obj(None, {"TarFit": tf}, label="gyre_tar_fit")
    else:
        it.absent = {"gyre_tar_fit"}
    return it, vars_, log


def run(chk):
    R = chk.rule
    R("table", "the eigenvalue of a mode is read from the table of its azimuthal order m and k = l - |m|, at the spin of the mode")
    R("several", "several modes get the eigenvalues of each of them, in the order of the modes")
    R("directory", "tables are looked for in the GYRE directory given, else in the one of the environment")
    R("refused", "a missing directory, table, environment variable or GYRE module is refused")
    R("hough", "the Hough functions of every mode are requested with its own eigenvalue, spin parameter, degree and azimuthal order")
    L = chk.pick(5, 9) if hasattr(chk, "pick") else (5 if chk.tier == "quick" else 9)
    modes = [(l, m) for l in range(0, L) for m in range(-l - 1, l + 2)]
    for l, m in modes:
        chk.guard("table", f"l={l}, m={m}", lambda: one(chk, l, m), W)
    for ms in ([(2, 2), (1, 1), (1, 1)], [(1, -1), (3, 2), (2, 0)], [(4, -2), (2, 2), (3, -3)], [(2, 1)], [(1, 1), (1, -1)]):
        chk.guard("several", str(ms), lambda: many(chk, ms), W)
    for given, env in ((D, None), (D, "/opt/other"), ("", D)):
        chk.guard("directory", f"given {given!r}, environment {env!r}", lambda: where(chk, given, env), W)
    for tag, given, env, files, module in (("no environment variable", "", None, [table(1, 1)], True), ("directory does not exist", "/nowhere", D, [D + "/src/tar/gyre_tar_fit.py", table(1, 1)], True),
                                           ("no tar subdirectory", D, D, [table(1, 1)], True), ("nothing given", None, D, [D + "/src/tar/gyre_tar_fit.py", table(1, 1)], True),
                                           ("no table", D, D, [D + "/src/tar/gyre_tar_fit.py", table(2, 1), table(1, 0), table(1, -1)], True), ("no module", D, D, [D + "/src/tar/x", table(1, 1)], False)):
        chk.guard("refused", tag, lambda: refused(chk, tag, given, env, files, module), W)
    for tag, kw in (("polytrope", {}), ("stellar model", dict(polytropic=False, analytic=False)), ("other orders", dict(m=(1, -1, 2), gate=False))):
        chk.guard("hough", tag, lambda: hough(chk, tag, kw), WC)
    chk.floor = 60


def cls(it):
    return getname(it, "lam_tar_gyre.lam_tar_gyre", "GyreLambdas")


def everything(L=10):
    return [D + "/src/tar/gyre_tar_fit.py"] + [table(l, m) for l in range(0, L) for m in range(-l - 1, l + 2)]


def one(chk, l, m):
    it, v, log = world(everything())
    nu = sym("nu")
    g = it.call(cls(it), [], {"base_gyre_dir": D})
    r = it.call(it.getattr(g, "get_lambda"), [l, m, nu])
    check_eq(chk, "table", f"l={l}, m={m}", r, fn("lam", sym("table:" + table(l, m)), nu), W, it=it)
    k = it.call(it.getattr(getname(it, "lam_tar_gyre.lam_tar_gyre", "GyreLambdas"), "get_k"), [l, m])
    chk.verdict("table", f"l={l}, m={m}: k", k == l - abs(m), W, f"k is {k}")
    chk.saw(it)


def many(chk, ms):
    it, v, log = world(everything())
    g = it.call(cls(it), [], {"base_gyre_dir": D})
    nus = [sym(f"nu{i}") for i in range(len(ms))]
    r = it.iter_items(it.call(it.getattr(g, "get_lambda"), [it.list([l for l, m in ms]), it.list([m for l, m in ms]), it.list(nus)]))
    chk.verdict("several", f"{ms}: number", len(r) == len(ms), W, f"{len(r)} eigenvalues")
    for i, (l, m) in enumerate(ms):
        check_eq(chk, "several", f"{ms}: mode {i + 1}", r[i], fn("lam", sym("table:" + table(l, m)), nus[i]), W, it=it)
    chk.saw(it)


def where(chk, given, env):
    it, v, log = world(everything() + ["/opt/other/src/tar/gyre_tar_fit.py"], env)
    g = it.call(cls(it), [], {"base_gyre_dir": given})
    it.call(it.getattr(g, "get_lambda"), [1, 1, sym("nu")])
    chk.verdict("directory", f"table, given {given!r}, environment {env!r}", [p for p, _ in log] == [table(1, 1)], W, f"tables read: {[p for p, _ in log]}")
    p = [x for x in it.iter_items(v("sys")["path"])]
    chk.verdict("directory", f"module, given {given!r}, environment {env!r}", any(str(x).rstrip("/") == D + "/src/tar" for x in p), W, f"module path {p}")
    chk.saw(it)


def refused(chk, tag, given, env, files, module):
    it, v, log = world(files, env, module)
    try:
        g = it.call(cls(it), [], {"base_gyre_dir": given})
        it.call(it.getattr(g, "get_lambda"), [1, 1, sym("nu")])
    except AbsRaise as e:
        chk.verdict("refused", tag, e.exc[0] in ("SystemExit", "KeyError"), e.where, f"stops with {e.exc[0]}")
    else:
        chk.bad("refused", tag, W, f"an eigenvalue is returned, from {[p for p, _ in log]}")
    chk.saw(it)


def hough(chk, tag, kw):
    s = p07.Setup(**kw)
    chk.verdict("hough", f"{tag}: one request per mode", len(s.hcalls) == 3, WC, f"{len(s.hcalls)} requests")
    for g, k in enumerate(s.hcalls):
        lm = s.it.res(k["lmbd"])
        if isinstance(lm, Ref):
            lm = s.it.getitem(lm, 0)
        for n, x, w in (("eigenvalue", lm, s.lam[g]), ("degree", k["l"], s.ls[g]), ("azimuthal order", k["m"], num(s.ms[g])), ("spin parameter", k["nu"], sym(f"spin{g + 1}"))):
            check_eq(chk, "hough", f"{tag}: {n} of mode {g + 1}", s.it.res(x), w, WC, it=s.it, rounds=3)
    chk.saw(s.it)
