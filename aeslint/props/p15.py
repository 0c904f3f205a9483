"""Histograms: all back ends, likelihood selection, normalisation, kernels."""
import ast
import itertools
import os
from fractions import Fraction
from .common import *
from .. import native, histmodels
from ..histmodels import val, cmpv

EXPL = ("Abstract interpretation of every exported histogram function (numpy, iterator, BLAS, numexpr and Cython back ends; the Cython kernels through Cython's parser) on exact rational data sets with symbolic smoothing parameters: the selected "
        "combination, counts, edges, widths and normalisation are if-then-else terms over the likelihood comparisons and compared with the specification, including at the boundary of each comparison; the compiled kernels are compared with their "
        "formulas on symbolic data, and their parallel loops checked for races.")
PK = "histogram_maker/hogg_jacky/"
NUMPY, BLAS, NEXPR, CY = PK + "numpy_iterator_jacky.py", PK + "blas_jacky.py", PK + "numexpr_jacky.py", PK + "cython_jacky/cy_jacky.py"
Q = Fraction
SETS = {
    "spread": [Q(1), Q(11, 5), Q(3), Q(22, 5), Q(5), Q(63, 10), Q(7), Q(21, 2)],
    "clumped": [Q(1), Q(6, 5), Q(9, 7), Q(3, 2), Q(8, 5), Q(41, 5), Q(9), Q(19, 2)],
    "repeated ends": [Q(2), Q(2), Q(16, 5), Q(51, 10), Q(8), Q(8), Q(8)],
    "unsorted": [Q(31, 4), Q(9, 8), Q(17, 3), Q(100, 9), Q(5, 4), Q(23, 7)],
    "with missing values": [None, Q(3, 2), Q(4), None, Q(11, 2), Q(6), Q(13, 2), Q(20), None],
    "pair": [Q(7, 2), Q(29, 3)],
}
PROBE = '''
def probe(f, kw, x, y, z):
    r = f(**kw)
    h = 0
    for v in r[0]:
        h = h * x + v
    e = 0
    for v in r[1]:
        e = e * y + v
    if isinstance(r[2], (list, tuple)):
        raise TypeError
    return [h, len(r[0]), e, len(r[1]), r[2], r[3]]
def width(w, z, many):
    if not many:
        return w
    s = 0
    for v in w:
        s = s * z + v
    return s
def par(p):
    if p is None:
        return None
    return [p['binning alpha'], p['nr of bins'], p['binning phase'], len(p)]
def enc(v, x):
    h = 0
    for q in v:
        h = h * x + q
    return [h, len(v)]
'''


def lin_counts(d, n, lo=None, hi=None):
    lo, hi = min(d) if lo is None else lo, max(d) if hi is None else hi
    c = [0] * n
    for v in d:
        c[min(int((v - lo) * n // (hi - lo)), n - 1)] += 1
    return c, [num(lo + (hi - lo) * Q(j, n)) for j in range(n + 1)]


def log_edges(d, n, eps=0):
    a, b = T.fn("log10", num(min(d))), T.fn("log10", num(max(d)))
    e = [T.power(num(10), a + (b - a) * num(Q(j, n))) for j in range(n + 1)]
    if eps:
        e[0], e[-1] = (v * num(1 + Q(eps, histmodels.ROUND)) for v in (e[0], e[-1]))
    return e


def edge_counts(d, e):
    c = [0] * (len(e) - 1)
    for v in d:
        j = 0
        while j < len(c) - 1 and cmpv(num(v), e[j + 1]) > 0:
            j += 1
        c[j] += 1
    return c


def likelihood(c, w, alpha, n):
    s = num(0)
    nb = len(c)
    for ci, wi in zip(c, w):
        s = s + num(ci) * T.fn("log", (num(ci) + alpha - 1) / ((num(n) + nb * alpha - 1) * wi))
    return s


def horner(v, x):
    h = num(0)
    for q in v:
        h = h * x + N(q)
    return h


def run(chk):
    chk.rule("selection", "the binning maximising the jackknife likelihood sum N_i ln[(N_i+alpha-1)/(w_i (N + n alpha - 1))] is chosen, the first on a tie")
    chk.rule("histogram", "counts, probabilities (counts/N) or densities (counts/(N w_i)) over the valued data; edges span the data; widths belong to the edges; requested parameters are reported")
    chk.rule("degenerate", "no data, only missing values or negative values in logarithmic bins give four None; missing inputs end the run; one point gives a single bin with the custom width")
    chk.rule("specified bins", "histogram for a specified width or specified edges: one count per bin, normalised as requested")
    chk.rule("kernel", "each compiled kernel computes its formula on symbolic data, serial and parallel alike, and leaves its inputs alone")
    chk.rule("race", "no two iterations of a parallel loop touch one location, one of them writing, outside recognised reductions")
    kern(chk)
    for eps in (0, 1, -1):
        main(chk, eps)
    chk.floor = 200


def setup(eps=0):
    it = Interp(REPO)
    native.install(it)
    histmodels.install(it, eps)
    prs = {}
    d = os.path.join(REPO, PK, "cython_jacky")
    for f in sorted(os.listdir(d)):
        if f.endswith(".pyx"):
            m, pr = native.load_pyx(it, "hogg_jacky.cython_jacky." + f[:-4], os.path.join(d, f))
            prs[f] = (m, pr)
    return it, prs


def kern(chk):
    it, prs = setup()
    for f, (m, pr) in prs.items():
        w = PK + "cython_jacky/" + f
        for p in pr:
            chk.verdict("race", f"{f}: {p.get('func', '')} loop at line {p.get('line', '?')}" if isinstance(p, dict) else f"{f}: {p}", not (p.get("problems") if isinstance(p, dict) else getattr(p, "problems", None)), w,
                        str(p.get("problems") if isinstance(p, dict) else getattr(p, "problems", "")))
    g = lambda f, n: it.get(prs[f][0].env).vars.get(n, UNDEF)
    A = lambda v: it.new(Arr((len(v),), list(v), "float"))
    n = 4
    x = [sym(f"x{i}") for i in range(n)]
    h = [sym(f"h{i}", "pos") for i in range(n)]
    e = [sym("e0")]
    for i in range(n):
        e.append(e[-1] + sym(f"w{i}", "pos"))
    al, bw, cf, lo, ph = num(1) + sym("a", "pos"), sym("bw", "pos"), sym("cf", "pos"), sym("lo"), sym("ph", "unit")
    J = lambda ws: sum((h[i] * T.fn("log", (h[i] + al - 1) / (cf * ws[i])) for i in range(n)), num(0))
    W = [e[i + 1] - e[i] for i in range(n)]
    fl = [T.fn("floor", (x[i] - lo) / bw - ph) for i in range(n)]
    P = "cython_jacky_"
    cases = []
    for s in ("serial", "parallel"):
        cases += [(P + "binning.pyx", f"cython_binning_{s}_loop", [x, lo, bw, ph], fl), (P + "jacky.pyx", f"cython_jacky_{s}_loop", [h, al, bw, cf], J([bw] * n)),
                  (P + "jacky.pyx", f"cython_variable_bw_jacky_{s}_loop", [h, e, al, cf], J(W)), (P + "empirical_probability_conversion_factor.pyx", f"cython_empirical_probability_conversion_{s}_loop", [h, al], sum(h, num(0)) + n * al - 1)]
        t = "" if s == "serial" else "_parallel"
        cases += [(P + "bin_widths.pyx", "cython_compute_bin_widths" + t, [e], W)]
        for i in ("", "_int"):
            N0 = num(12) if i else cf
            cases += [(P + "empirical_probability_hist.pyx", f"cython_empirical_probability_hist{i}{t}", [h, N0], ("self", [v / N0 for v in h])),
                      (P + "empirical_density_hist.pyx", f"cython_empirical_density_hist{i}{t}", [h, N0, bw], ("self", [v / (N0 * bw) for v in h])),
                      (P + "empirical_density_hist.pyx", f"cython_variable_bw_empirical_density_hist{i}{t}", [h, N0, e], ("self", [v / (N0 * w) for v, w in zip(h, W)]))]
    for par in (True, False):
        cases += [(P + "jacky.pyx", "cython_generalized_jacky_loop", [h, al, cf, par, e, bw, True], J([bw] * n)), (P + "jacky.pyx", "cython_generalized_jacky_loop", [h, al, cf, par, e, bw, False], J(W)),
                  (P + "jacky.pyx", "cython_jacky_loop", [n, h, al, bw, cf, par], J([bw] * n)), (P + "jacky.pyx", "cython_variable_bw_jacky_loop", [n, h, e, al, cf, par], J(W))]
    for f, nm, args, want in cases:
        w = PK + "cython_jacky/" + f

        def go():
            fn_ = g(f, nm)
            if fn_ is UNDEF:
                return                      # not (or no longer) part of the compiled interface; its users are checked through the package
            av = [A(a) if isinstance(a, list) else int(a.args[0]) if isinstance(a, T.Node) and a.op == "num" else a for a in args]
            r = it.call(fn_, av)
            tag = f"{nm}({', '.join(str(a) for a in args if isinstance(a, bool))})"
            if isinstance(want, tuple):
                got, wv = it.get(av[0]).data, want[1]
            elif isinstance(want, list):
                got, wv = it.get(it.res(r)).data, want
            else:
                got, wv = [r], [want]
            chk.verdict("kernel", tag + ": size", len(got) == len(wv), w, f"{len(got)} values")
            for i, (a, b) in enumerate(zip(got, wv)):
                check_eq(chk, "kernel", f"{tag}: element {i}", a, b, w, it=it, rounds=2)
            for a, q in zip(av[1 if isinstance(want, tuple) else 0:], args[1 if isinstance(want, tuple) else 0:]):
                if isinstance(q, list):
                    chk.verdict("kernel", tag + ": input unchanged", list(it.get(a).data) == q, w, "an input array is modified")
        chk.guard("kernel", nm, go, w)
    chk.saw(it)


def main(chk, eps):
    it, _ = setup(eps)
    pm = it.load_file("histprobe", "<probe>", ast.parse(PROBE))
    pv = it.get(pm.env).vars
    A = lambda v: it.new(Arr((len(v),), [T.NAN if q is None else num(q) if isinstance(q, Q) else q for q in v], "float"))
    IA = lambda v: it.new(Arr((len(v),), list(v), "int"))
    pub = lambda n: getname(it, "hogg_jacky", n)
    X, Y, Z = num(Q(1009, 1000)), num(Q(-997, 1000)), num(Q(1013, 1000))
    thorough = chk.tier == "thorough"
    h0 = it.heap

    def guard(rule, tag, go, w):
        it.heap = dict(h0)                      # every case starts from the same store
        chk.guard(rule, tag, go, w)
        it.heap = dict(h0)

    def best(cands):
        """if-then-else chain choosing the first maximum; cands: (likelihood, vector of outputs)"""
        b, out = cands[0]
        out = list(out)
        for L, o in cands[1:]:
            c = T.cmp(">", L, b)
            out = [T.ite(c, N(p), N(q)) if not isinstance(c, bool) else (N(p) if c else N(q)) for p, q in zip(o, out)]
            b = T.ite(c, L, b) if not isinstance(c, bool) else (L if c else b)
        return out
    a1, a2 = num(1) + sym("a1", "pos"), num(1) + sym("a2", "pos")

    def compare(rule, tag, got, want, w, extra=()):
        for nm, g_, v in zip(("histogram", "number of bins", "edges", "number of edges", "width") + tuple(extra), got, want):
            check_eq(chk, rule, f"{tag}: {nm}", g_, v, w, it=it, rounds=8)

    def hogg(name, w, dname, alphas, bins, mode, log, params, more=None):
        tag = f"{name}({dname}; {len(alphas)} alphas, bins {bins}; {mode}{'; parameters' if params else ''}{''.join(f'; {q}={v}' for q, v in (more or {}).items())}{'; edge rounding %+d' % eps if eps else ''})"

        def go():
            raw = SETS[dname]
            d = [v for v in raw if v is not None]
            n = len(d)
            f = pub(name)
            kw = {"my_data": A(raw), "my_alpha_parameters": A(alphas), "my_bin_numbers": IA(bins), "empirical_probability": mode in ("probability", "both"), "empirical_density": mode in ("density", "both"), "return_binning_parameters": params}
            kw.update(more or {})
            r = it.call(pv["probe"], [f, it.new(Dict(dict(kw))), X, Y, Z])
            cands = []
            for al in alphas:
                for nb in bins:
                    if log:
                        e = log_edges(d, nb, eps) if nb > 1 else [num(min(d)), num(max(d))]
                        c = edge_counts(d, e)
                    else:
                        c, e = lin_counts(d, nb)
                    ws = [e[i + 1] - e[i] for i in range(nb)]
                    hv = [num(q) / n for q in c] if mode in ("probability", "both") else [num(q) / (n * wi) for q, wi in zip(c, ws)] if mode == "density" else [num(q) for q in c]
                    cands.append((likelihood(c, ws, al, n), [horner(hv, X), num(nb), horner(e, Y), num(nb + 1), horner(ws, Z) if log else ws[0], al, num(nb)]))
            want = best(cands)
            got = [it.getitem(r, i) for i in range(5)]
            got[4] = it.call(pv["width"], [got[4], Z, log])
            compare("histogram" if len(cands) == 1 else "selection", tag, got, want[:5], w)
            p = it.res(it.call(pv["par"], [it.getitem(r, 5)]))
            if not params:
                chk.verdict("histogram", tag + ": parameters", p is None, w, "parameters are returned unasked")
            else:
                compare("histogram", tag + ": parameters", [it.getitem(p, i) for i in range(4)], [want[5], want[6], num(0), num(3)], w)
            for q, v in (("my_data", raw), ):
                chk.verdict("histogram", tag + ": data unchanged", list(it.get(kw[q]).data) == list(it.get(A(v)).data), w, "the data array is modified")
        guard("selection", tag, go, w)
    LIN = [("histogram_likelihood_numpy", NUMPY, {}), ("histogram_likelihood_iter", NUMPY, {}), ("histogram_likelihood_blas", BLAS, {}), ("histogram_likelihood_numexpr", NEXPR, {}),
           ("histogram_likelihood_cython", CY, {"use_parallel": False}), ("histogram_likelihood_cython", CY, {"use_parallel": True})]
    LOG = [("log_histogram_likelihood_iter", NUMPY, {}), ("log_histogram_likelihood_blas", BLAS, {}), ("log_histogram_likelihood_numexpr", NEXPR, {}),
           ("log_histogram_likelihood_cython", CY, {"use_parallel": False}), ("log_histogram_likelihood_cython", CY, {"use_parallel": True})]
    for fam, log in ((LIN, False), (LOG, True)):
        if eps and not log:
            continue
        for name, w, more in fam:
            for i, dn in enumerate(SETS):
                if eps and dn not in ("spread", "with missing values"):
                    continue
                for mode in ("probability", "density", "counts"):
                    hogg(name, w, dn, [a1], [3 if i % 2 else 4], mode, log, False, more)
                if dn in ("spread", "with missing values") or thorough:
                    hogg(name, w, dn, [a1], [2, 3], "probability", log, True, more)
                    if not eps:
                        hogg(name, w, dn, [a1, a2], [3], "density", log, True, more)
                if dn == "unsorted" and not eps:
                    hogg(name, w, dn, [a1, a2], [2, 4], "density", log, True, more)
            hogg(name, w, "spread", [a1], [1], "density", log, True, more)
            hogg(name, w, "with missing values", [a1], [1, 3], "counts", log, False, more)
            hogg(name, w, "clumped", [a1], [3, 2], "both", log, True, dict(more, verbose=True))
            if thorough and not eps:
                for dn in SETS:
                    hogg(name, w, dn, [a1, a2], [1, 2, 3], "counts", log, True, more)
                    hogg(name, w, dn, [a1], [5, 6, 2], "density", log, False, more)
            if eps:
                continue
            def phase(ph):
                try:
                    r = it.call(pub(name), [], dict(more, my_data=A(SETS["spread"]), my_alpha_parameters=A([a1]), my_bin_numbers=IA([3]), my_bin_phases=it.list([num(ph)]), return_binning_parameters=True))
                    p = it.res(it.call(pv["par"], [it.getitem(r, 3)]))
                except AbsRaise:
                    return                              # this back end rejects data below the shifted first bin
                compare("histogram", f"{name}: parameters with binning phase {ph}", [it.getitem(p, i) for i in range(4)], [a1, num(3), num(ph), num(3)], w)
            if not log:
                for ph in (Q(1, 3), Q(-1, 3)):
                    guard("histogram", f"{name}: binning phase", lambda: phase(ph), w)
            # degenerate input
            none4 = lambda r: all(it.res(it.getitem(r, i)) is None for i in range(4)) and len(it.iter_items(r)) == 4
            for tag, kw in (("empty data", {"my_data": []}), ("only missing values", {"my_data": [None, None, None]})) + ((("negative values", {"my_data": [Q(1), Q(2), Q(3)], "negative_values": True}),) if log else ()):
                def go():
                    k = dict(more, my_alpha_parameters=A([a1]), my_bin_numbers=IA([2, 3]), **kw)
                    k["my_data"] = A(kw["my_data"])
                    r = it.call(pub(name), [], k)
                    chk.verdict("degenerate", f"{name}: {tag}", none4(r), w, "result is not four None")
                guard("degenerate", f"{name}: {tag}", go, w)

            def single(verbose):
                r = it.call(pub(name), [], dict(more, my_data=A([Q(7, 3)]), my_alpha_parameters=A([a1]), my_bin_numbers=IA([2, 3]), custom_bin_width=it.list([Q(5, 2)]), verbose=verbose))
                v = it.iter_items(r)
                ok = len(v) == 4 and it.res(v[3]) is None
                chk.verdict("degenerate", f"{name}: one data point, verbose={verbose}: shape", ok and [int(q) for q in it.get(it.res(v[0])).data] == [1], w, "not a single bin with one count")
                check_eq(chk, "degenerate", f"{name}: one data point, verbose={verbose}: width", v[2], num(Q(5, 2)), w, it=it)
            for vb in (False, True):
                guard("degenerate", f"{name}: one data point", lambda: single(vb), w)
            for miss in ("my_data", "my_alpha_parameters", "my_bin_numbers"):
                def go():
                    k = dict(more, my_data=A(SETS["spread"]), my_alpha_parameters=A([a1]), my_bin_numbers=IA([2, 3]))
                    k[miss] = None
                    try:
                        it.call(pub(name), [], k)
                    except AbsRaise as e:
                        chk.verdict("degenerate", f"{name}: {miss} missing", e.exc[0] == "SystemExit", w, str(e.exc))
                        return
                    chk.bad("degenerate", f"{name}: {miss} missing", w, "the run continues")
                guard("degenerate", f"{name}: {miss} missing", go, w)
    if eps:
        chk.saw(it)
        return

    # specified widths and edges
    class Raw(list):
        pass

    def build(kw):
        return {q: A(v) if isinstance(v, Raw) else v for q, v in kw.items()}

    def spec(name, w, tag, kw, counts, ws):
        for mode in ("probability", "density", "counts"):
            t = f"{name}({tag}; {mode})"

            def go():
                k = dict(build(kw), empirical_probability=mode == "probability", empirical_density=mode == "density")
                n = num(sum(counts))
                r = it.call(pub(name), [], k)
                e = it.call(pv["enc"], [r, X])
                hv = [num(q) / n for q in counts] if mode == "probability" else [num(q) / (n * x) for q, x in zip(counts, ws)] if mode == "density" else [num(q) for q in counts]
                check_eq(chk, "specified bins", t + ": number of bins", it.getitem(e, 1), num(len(hv)), w, it=it)
                check_eq(chk, "specified bins", t, it.getitem(e, 0), horner(hv, X), w, it=it)
            guard("specified bins", t, go, w)
    for dn, raw in SETS.items():
        d = [v for v in raw if v is not None]
        for nb in (1, 2, 3, 5):
            c, e = lin_counts(d, nb)
            bw = (max(d) - min(d)) / nb
            ws = [num(bw)] * nb
            spec("histogram_spec_width", NUMPY, f"{dn}, {nb} bins", {"my_data": Raw(d), "bin_nr": nb}, c, ws)
            opts = [{}, {"additional_checks": True}, {"my_data_min": num(min(d))}]
            for o in opts if nb in (2, 3) else opts[:1]:
                tag = f"{dn}, {nb} bins{', ' + ', '.join(o) if o else ''}"
                spec("histogram_blas_spec_width", BLAS, tag, dict(o, my_data=Raw(d), my_bw=num(bw), bin_nr=nb, bin_phase=num(0)), c, ws)
                spec("histogram_numexpr_spec_width", NEXPR, tag, dict(o, my_data=Raw(d), my_bw=num(bw), nr_bins=nb, bin_phase=num(0)), c, ws)
                for par in (True, False):
                    spec("histogram_cython_spec_width", CY, tag + f", parallel={par}", dict(o, my_data=Raw(d), my_bw=num(bw), nr_bins=nb, bin_phase=num(0), use_parallel=par), c, ws)
            if nb == 3:
                # bins of a wider set: the data fill only some of them
                lo, hi = min(d) - 1, max(d) + 2 * (max(d) - min(d))
                nb2 = 6
                c2, e2 = lin_counts(d, nb2, lo, hi)
                w2 = [num((hi - lo) / nb2)] * nb2
                for minb in (0, nb2):
                    o = dict(my_data=Raw(d), my_bw=w2[0], bin_phase=num(0), my_data_min=num(lo), min_nr_bins=minb)
                    tag = f"{dn}, bins of a wider set, min_nr_bins={minb}"
                    spec("histogram_blas_spec_width", BLAS, tag, dict(o, bin_nr=nb2), c2, w2)
                    spec("histogram_numexpr_spec_width", NEXPR, tag, dict(o, nr_bins=nb2), c2, w2)
                    spec("histogram_cython_spec_width", CY, tag, dict(o, nr_bins=nb2), c2, w2)
        for ename, ed in (("own extent", [min(d), min(d) + (max(d) - min(d)) * Q(3, 17), max(d) - (max(d) - min(d)) * Q(5, 23), max(d)]), ("wider", [min(d) / 2, min(d) * Q(8, 7), max(d) * Q(13, 12), max(d) * 2, max(d) * 5])):
            e = [num(q) for q in ed]
            c = edge_counts(d, e)
            ws = [e[i + 1] - e[i] for i in range(len(c))]
            for minb in (0, len(c)):
                for name, w, more in (("histogram_log_spec_edges", NUMPY, [{}]), ("histogram_blas_log_spec_edges", BLAS, [{}]), ("histogram_numexpr_log_spec_edges", NEXPR, [{}]), ("histogram_cython_log_spec_edges", CY, [{"use_parallel": True}, {"use_parallel": False}])):
                    for m in more:
                        spec(name, w, f"{dn}, edges of {ename}, min_nr_bins={minb}{', parallel' if m.get('use_parallel') else ''}", dict(m, my_data=Raw(d), my_bin_edges=Raw(e), min_nr_bins=minb), c, ws)
            r = None

            def go():
                r = it.call(pub("histogram_log_counts"), [], {"my_data": A(d), "my_bin_edges": A(e), "binning_phase": num(0)})
                v = [int(val(q)) for q in it.get(it.res(r)).data]
                chk.verdict("specified bins", f"histogram_log_counts({dn}, {ename})", v == c, PK + "shared/shared_computation_functions.py", f"{v}, expected {c}")
            guard("specified bins", f"histogram_log_counts({dn}, {ename})", go, PK)
    D = SETS["spread"]
    for name, w, base in (("histogram_spec_width", NUMPY, {"bin_nr": 3}), ("histogram_blas_spec_width", BLAS, {"my_bw": num(2), "bin_nr": 3, "bin_phase": num(0)}), ("histogram_numexpr_spec_width", NEXPR, {"my_bw": num(2), "nr_bins": 3, "bin_phase": num(0)}),
                          ("histogram_cython_spec_width", CY, {"my_bw": num(2), "nr_bins": 3, "bin_phase": num(0)}), ("histogram_log_spec_edges", NUMPY, {"my_bin_edges": Raw(D)}), ("histogram_blas_log_spec_edges", BLAS, {"my_bin_edges": Raw(D)}),
                          ("histogram_numexpr_log_spec_edges", NEXPR, {"my_bin_edges": Raw(D)}), ("histogram_cython_log_spec_edges", CY, {"my_bin_edges": Raw(D)})):
        key = next(q for q in base if q in ("bin_nr", "my_bw", "my_bin_edges")) if "my_bw" not in base else "my_bw"
        cs = [("no data", dict(base, my_data=None)), ("empty data", dict(base, my_data=Raw([]))), ("no bins", dict(base, my_data=Raw(D), **{key: None}))] + ([("negative values", dict(base, my_data=Raw(D), negative_values=True))] if "edges" in name else [])
        for tag, k in cs:
            guard("degenerate", f"{name}: {tag}", lambda: chk.verdict("degenerate", f"{name}: {tag}", it.res(it.call(pub(name), [], dict(build(k), empirical_probability=True))) is None, w, "result is not None"), w)
    chk.saw(it)
