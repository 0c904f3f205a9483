"""Mode normalisation."""
import itertools
from fractions import Fraction
from .common import *
from . import p07

EXPL = ("Value numbering of the eigenfunction normaliser on symbolic eigenfunctions whose energy and norm are arbitrary homogeneous quadratic forms, and of the complete construction of a coupling-coefficient object with the real normaliser: "
        "normalised energies, eigenfunctions and coefficients are compared, as terms, with the unnormalised ones times the factors.")
W = "gyre-tools/gyre_eigen_norm/gyre_eigen_norm.py"
WE = "aesolver/aesolver/coupling_coefficients/enumeration_files/enumerated_quadratic_coupling.py"
NG = 2


def target(conv):
    G, M, R = sym("G", "pos"), sym("M", "pos"), sym("R", "pos")
    return G * M ** 2 / R if conv == "lee2012" else M * R ** 2


def world(conv, nr, enum, script=None, own=None):
    """data object with symbolic eigenfunctions and quadratic energies"""
    it = Interp(REPO)
    it.decide_eq = True
    E = getname(it, "aesolver.coupling_coefficients.enumeration_files", enum)
    names = [it.res(x) for x in it.iter_items(it.call(it.getattr(E, "access_all_parameters"), [], {}))]
    A = lambda l: it.new(Arr((len(l),), tuple(l), "float"))
    at = {"_G": sym("G", "pos"), "_M_star": sym("M", "pos"), "_R_star": sym("R", "pos"), "_nr_modes": nr}
    raw = {}
    for k in range(1, nr + 1):
        for n in names:
            raw[n, k] = [sym(f"{n}{k}[{i}]", "pos") for i in range(NG)]
            at[f"{n}_mode_{k}"] = A(raw[n, k])
    calls = []
    o = it.obj(None, at, label="mode data")

    def quad(k, what):
        a = it.get(o).attrs
        t = num(0)
        for j, n in enumerate(names):
            for i, v in enumerate(it.get(it.res(a[f"{n}_mode_{k}"])).data):
                t = t + sym(f"{what}{k}_{j}_{i}", "pos") * N(v) ** 2
        return t

    def energy(i, a, kw):
        k = a[0] if a else kw["mode_nr"]
        k = int(str(T.cval(N(k)))) if not isinstance(k, int) else k
        calls.append(k)
        s = script(k, calls.count(k)) if script else num(1)
        at_ = it.w(o).attrs
        at_[f"_energy_mode_{k}"] = quad(k, "e") * s
        at_[f"_classic_norm_mode_{k}"] = quad(k, "c") * s
        return None
    it.overrides[("ext", "stub.energy")] = energy
    it.w(o).attrs["compute_b_a_mode_energy"] = Ext("stub.energy")
    for k in range(1, nr + 1):
        energy(it, [k], {})
    calls.clear()
    E0 = {k: N(it.getattr(o, f"_energy_mode_{k}" if conv == "lee2012" else f"_classic_norm_mode_{k}")) for k in range(1, nr + 1)}
    return it, E, o, names, raw, E0, calls


def run(chk):
    R = chk.rule
    R("factor", "the factor of a mode is the square root of the conventional energy (or norm) over the mode's own")
    R("scaled", "every radial function and gradient of a mode is multiplied by the factor of that mode, once")
    R("normalised", "after normalisation every mode has the conventional energy G M^2 / R (or norm M R^2)")
    R("iteration", "refinement continues with the modes that are not normalised yet, until all are or the allowed number of iterations is reached, and reported factors are those applied")
    R("coefficient", "every normalised coupling term is the unnormalised one times the three factors, and every mode energy is G M^2 / R")
    for conv in ("lee2012", "schenk2002", "LEE2012"):
        for nr in (1, 2, 3, 4):
            for enum in ("EnumRadial", "EnumRadialPoly"):
                chk.guard("factor", f"{conv}, {nr} modes, {enum}", lambda: single(chk, conv, nr, enum), W)
    for conv in ("lee2012", "schenk2002"):
        for nit in (1, 2, 3, 10):
            for conv_at in itertools.product((0, 1, 2, 99), repeat=2):
                chk.guard("iteration", f"{conv}, {nit} iterations, converging after {conv_at}", lambda: iterate(chk, conv, nit, conv_at, True), W)
        chk.guard("iteration", f"{conv}, switched off", lambda: iterate(chk, conv, 10, (1, 99), False), W)
    for tag, kw in (("polytrope, analytic profiles", {}), ("polytrope, computed profiles", dict(analytic=False)), ("stellar model", dict(polytropic=False, analytic=False)), ("stellar model, numerical derivatives", dict(polytropic=False, analytic=False, symbolic=False)),
                    ("second mode on a coarser grid", dict(short=True)), ("self-coupling", dict(self_coupling=True, same=True, m=(0, 0, 0)))):
        chk.guard("coefficient", tag, lambda: complete(chk, tag, kw), WE)
    chk.floor = 300


def normaliser(it, o, E, conv, nr, **kw):
    return it.call(getname(it, "gyre_eigen_norm", "GYREEigenFunctionNormalizer"), [], dict(my_obj=o, coupler_enumeration=E, norm_convention=conv, nr_modes=nr, **kw))


def single(chk, conv, nr, enum):
    it, E, o, names, raw, E0, calls = world(conv.lower(), nr, enum)
    nm = normaliser(it, o, E, conv, nr)
    it.call(nm, [], {})
    tg = target(conv.lower())
    f = it.get(it.res(it.getattr(nm, "normalizing_factors"))).data
    tag = f"{conv}, {nr} modes, {enum}"
    chk.verdict("factor", f"{tag}: number", len(f) == nr, W, f"{len(f)} factors")
    for k in range(1, nr + 1):
        w = sqrt(tg / E0[k])
        check_eq(chk, "factor", f"{tag}: mode {k}", f[k - 1], w, W, it=it)
        check_eq(chk, "normalised", f"{tag}: mode {k}", it.getattr(o, f"_energy_mode_{k}" if conv.lower() == "lee2012" else f"_classic_norm_mode_{k}"), tg, W, it=it)
        for n in names:
            v = it.get(it.res(it.getattr(o, f"{n}_mode_{k}"))).data
            for i in range(NG):
                check_eq(chk, "scaled", f"{tag}: {n}, mode {k}, point {i}", v[i], raw[n, k][i] * w, W, it=it)
    chk.verdict("normalised", f"{tag}: convention reported", it.getattr(nm, "normalization_convention") == conv, W, "another convention is reported")
    done = [bool(x) for x in it.get(it.res(it.getattr(nm, "normalization_check_array"))).data]
    chk.verdict("normalised", f"{tag}: no mode is left to refine", done == [False] * nr, W, f"{done}")
    chk.saw(it)


def iterate(chk, conv, nit, conv_at, on):
    """the energy of mode k drifts by another factor at every computation up to the conv_at-th, and is stable afterwards"""
    nr = 2

    def sc(k, c):
        r = num(1)
        for j in range(1, min(c, conv_at[k - 1]) + 1):
            r = r * (1 + Fraction(1, j + k))
        return r
    it, E, o, names, raw, E0, calls = world_it(conv, nr, sc)
    nm = normaliser(it, o, E, conv, nr, iterative_process=on, max_iterations=nit)
    it.call(nm, [], {})
    tg = target(conv)
    # reference: first factor, then one refinement per allowed iteration and unfinished mode
    its = 0 if not on else min(nit, max(conv_at))
    f = it.get(it.res(it.getattr(nm, "normalizing_factors"))).data
    tag = f"{conv}, {nit} iterations, converging after {conv_at}, {'on' if on else 'off'}"
    for k in (1, 2):
        own = min(conv_at[k - 1], its)
        # recursion: e_c = w_c^2 E0 sc_c ; w_{c+1} = w_c sqrt(tg/e_c)
        w = sqrt(tg / E0[k])
        for c in range(1, own + 1):
            w = w * sqrt(tg / (w ** 2 * E0[k] * sc(k, c)))
        check_eq(chk, "iteration", f"{tag}: factor of mode {k}", f[k - 1], w, W, it=it)
        for n in names[:2] + names[-1:]:
            v = it.get(it.res(it.getattr(o, f"{n}_mode_{k}"))).data
            check_eq(chk, "iteration", f"{tag}: {n} of mode {k}", v[0], raw[n, k][0] * w, W, it=it)
        chk.verdict("iteration", f"{tag}: refinements of mode {k}", calls.count(k) == own + 1, W, f"energy computed {calls.count(k)} times, {own + 1} expected")
    ch = it.iter_items(it.getattr(nm, "iteration_characteristics"))
    chk.verdict("iteration", f"{tag}: reported", [it.res(x) for x in ch] == [on, nit, its], W, f"reported {ch}")
    left = [bool(x) for x in it.get(it.res(it.getattr(nm, "normalization_check_array"))).data]
    chk.verdict("iteration", f"{tag}: modes left", left == [c > its for c in conv_at], W, f"{left}")
    chk.saw(it)


def world_it(conv, nr, sc):
    on = []
    r = world(conv, nr, "EnumRadial", script=lambda k, c: sc(k, c) if on else num(1))
    on.append(1)
    return r


def positive(sm, n, name, args, ctx, env):
    """positive quadrature weights"""
    if name != "w":
        return NotImplemented
    return T.mpf(1 + T._h(sm.seed, "w", T.key(sm.ev(args[0]))) % 97) / 53


def slow(seed):
    """slowly rotating star, positive frequencies: positive mode energies"""
    return {"Om": Fraction(seed % 7 - 3, 10 ** 6), **{f"corot{g}": 1 + Fraction(seed * g % 11, 3) for g in (1, 2, 3)}}


def complete(chk, tag, kw):
    a, b = p07.Setup(**kw), p07.Setup(**kw, realnorm=True)
    opt = dict(it=b.it, rounds=3, fnhook=positive, over=slow)
    tg = b.G * b.Ms ** 2 / b.Rs
    f = b.it.get(b.it.res(b.it.getattr(b.o, "normalization_factors"))).data
    fs = [sqrt(tg / N(a.it.getattr(a.o, f"_energy_mode_{k}"))) for k in (1, 2, 3)]
    for s in (a, b):
        s.it.call(s.it.getattr(s.o, "adiabatic_coupling_rot"))
    for k in (1, 2, 3):
        check_eq(chk, "coefficient", f"{tag}: factor of mode {k}", f[k - 1], fs[k - 1], W, **opt)
        check_eq(chk, "coefficient", f"{tag}: energy of mode {k}", b.it.getattr(b.o, f"_energy_mode_{k}"), tg, W, **opt)
    names = ["_z_1", "_z_2", "_x_z_1", "_z_2_over_c_1_omega", "_x_z_2_over_c_1_omega", "_rad_der_x_z_1", "_rad_der_x_z_2_c_1_omega", "_rad_diverg"] + (["_lag_L_dim"] if kw.get("polytropic") is False else [])
    for k in (1, 2, 3):
        for n in names:
            u, v = (s.it.get(s.it.res(s.it.getattr(s.o, f"{n}_mode_{k}"))).data for s in (a, b))
            chk.verdict("scaled", f"{tag}: length of {n}, mode {k}", len(u) == len(v), W, f"{len(u)} and {len(v)} points")
            for i in sorted({0, len(v) // 2, len(v) - 1}):
                check_eq(chk, "scaled", f"{tag}: {n}, mode {k}, point {i}", v[i], N(u[i]) * fs[k - 1], W, **opt)
    ta, tb = (s.it.getattr(s.o, "coupling_terms_quadratic") for s in (a, b))
    for k in range(4):
        check_eq(chk, "coefficient", f"{tag}: kappa{k + 1}", b.it.getitem(tb, k), N(a.it.getitem(ta, k)) * fs[0] * fs[1] * fs[2], WE, **opt)
    chk.saw(b.it)
