"""Mode-triad selection: combinations, pairings, input statistics."""
import itertools
from fractions import Fraction
from .common import *

EXPL = ("Abstract interpretation of the combination classes, of the triad generator built on them and of the pairing functions: combinations over all overlap patterns of two sets of abstract elements (with sets "
        "iterating both in ascending and in descending order, since the order is unspecified), triads over all combinations of small order ranges; pairing and inverse are composed over symbolic integers and compared with the identity.")
PC = "py-combinations/py_combinations/"
PF = "py-combinations/pairing_functions/"
IG = "aesolver/aesolver/mode_input_generator/input_generator.py"


def sets(n):
    """overlap patterns of two non-empty ranges of up to n elements"""
    for a in range(1, n + 1):
        for b in range(1, n + 1):
            for off in range(-b, a + 1):
                yield list(range(10, 10 + a)), list(range(10 + off, 10 + off + b))


def symprod(A, B, diag):
    s = {frozenset(p) for p in itertools.product(A, B) if p[0] != p[1]}
    return s | {frozenset((x,)) for x in set(A) & set(B)} if diag else s


def run(chk):
    chk.rule("pairs", "single set: every 2-subset once; Cartesian: every (a, b) once; symmetric product: every unordered pair {a in A, b in B} once, equal pairs only when requested; the cardinality is the number of pairs")
    chk.rule("set order", "the symmetric product does not depend on the iteration order of sets")
    chk.rule("triads", "every requested driven order combined with every admissible pair of damped orders, once, in the order driven, damped, damped; mean order and n1 - |n2 - n3| of each triad in step")
    chk.rule("pairing", "decoding an encoded pair gives the pair back (any order for the symmetric ones), which do not depend on the order of the pair")
    chk.floor = 100
    it = Interp(REPO)
    n = 4 if chk.tier == "thorough" else 3
    h0 = it.heap
    ints = lambda v: [int(q) if not isinstance(q, Fraction) else q for q in map(it.res, it.iter_items(v))]
    attr = lambda o, a: it.getattr(o, a)

    def guard(rule, tag, go, w):
        it.heap = dict(h0)
        chk.guard(rule, tag, go, w)
        it.heap = dict(h0)

    def single(S):
        o = it.call(getname(it, "py_combinations", "SingleSetCombos"), [it.list(S)])
        got = [tuple(ints(p)) for p in it.iter_items(attr(o, "l"))]
        chk.verdict("pairs", f"single set of {len(S)}", got == list(itertools.combinations(S, 2)), PC + "single_set_combinations.py", f"{got}")
        chk.verdict("pairs", f"single set of {len(S)}: cardinality", it.res(attr(o, "c")) == len(got), PC + "single_set_combinations.py", f"{it.res(attr(o, 'c'))}")
    for k in range(0, 6):
        guard("pairs", f"single set of {k}", lambda: single(list(range(20, 20 + k))), PC)

    def cart(A, B):
        o = it.call(getname(it, "py_combinations", "CartesianCombos"), [it.list(A), it.list(B)])
        got = [tuple(ints(p)) for p in it.iter_items(attr(o, "l"))]
        chk.verdict("pairs", f"Cartesian product of {A} and {B}", got == list(itertools.product(A, B)) and it.res(attr(o, "c")) == len(got), PC + "cartesian_combinations.py", f"{got}")
    for A, B in sets(3):
        guard("pairs", "Cartesian", lambda: cart(A, B), PC)

    def sym_(A, B, diag, rev, rule, kind):
        it.set_order = (lambda v: sorted(v, reverse=rev))
        try:
            seqA, seqB = (it.list(A), it.list(B)) if kind == "list" else (it.call(Ext("builtins.range"), [A[0], A[-1] + 1]), it.call(Ext("builtins.range"), [B[0], B[-1] + 1]))
            o = it.call(getname(it, "py_combinations", "SymmetricProductCombos"), [seqA, seqB], {"include_diagonal": diag})
            got = [frozenset(ints(p)) for p in it.iter_items(attr(o, "l"))]
            c = it.res(attr(o, "c"))
        finally:
            it.set_order = None
        want = symprod(A, B, diag)
        tag = f"symmetric product of {A} and {B}, equal pairs {'included' if diag else 'excluded'}"
        w = PC + "symmetric_product.py"
        dup = len(got) - len(set(got))
        if rule == "set order":
            return dup == 0 and set(got) == want, f"{len(got)} pairs instead of {len(want)} for {A} and {B}"
        chk.verdict(rule, tag, dup == 0 and set(got) == want, w, f"missing {sorted(map(sorted, want - set(got)))[:3]}, extra {sorted(map(sorted, set(got) - want))[:3]}, {dup} repeated")
        chk.verdict(rule, tag + ": cardinality", c == len(want), w, f"{c} instead of {len(want)}")
    for A, B in sets(n):
        for diag in (True, False):
            guard("pairs", f"symmetric product {A} {B}", lambda: sym_(A, B, diag, False, "pairs", "list"), PC)

    def order():
        r = [sym_(A, B, diag, True, "set order", "range") for A, B in sets(3) for diag in (True, False)]
        bad = [m for ok, m in r if not ok]
        chk.verdict("set order", "symmetric product of overlapping ranges", not bad, PC + "symmetric_product.py", f"when sets iterate in another order than the input: {bad[:1]}")
        for A, B in sets(3):
            if len(A) == 1 and len(B) == 1:
                chk.verdict("set order", f"symmetric product of {A} and {B}", all(sym_(A, B, d, True, "set order", "range")[0] for d in (True, False)), PC + "symmetric_product.py", "")
    guard("set order", "symmetric product of overlapping ranges", order, PC + "symmetric_product.py")

    # triads
    def triads(dr, d1, d2):
        it.set_order = sorted
        tag = f"driven {dr}, damped {d1}" + (f" and {d2}" if d2 else "")
        kw = dict(mode_l=it.list([2, 1, 3]), mode_m=it.list([-2, 1, 0]), driven_n_low=dr[0], driven_n_high=dr[1], damped_n_low1=d1[0], damped_n_high1=d1[1])
        if d2:
            kw.update(damped_n_low2=d2[0], damped_n_high2=d2[1])
        o = it.call(getname(it, "aesolver.mode_input_generator", "InputGen"), [], kw)
        got = [ints(t) for t in it.iter_items(attr(o, "combinations_radial_orders"))]
        R = lambda q: list(range(q[0], q[1] + 1))
        prs = [frozenset(p) for p in itertools.combinations(R(d1), 2)] if not d2 or None in d2 else list(symprod(R(d1), R(d2), True))
        want = sorted((x, tuple(sorted(p))) for x in R(dr) for p in prs)
        have = sorted((t[0], tuple(sorted(set(t[1:])))) for t in got)
        chk.verdict("triads", tag, have == want and all(len(t) == 3 for t in got), IG, f"{len(got)} triads instead of {len(want)}")
        av, wu = it.iter_items(attr(o, "average_radial_orders")), it.iter_items(attr(o, "wu_difference_statistics"))
        chk.verdict("triads", tag + ": one statistic per triad", len(av) == len(wu) == len(got), IG, f"{len(av)}, {len(wu)}")
        for t, a, u in zip(got, av, wu):
            check_eq(chk, "triads", f"{tag}: mean order of {t}", a, num(Fraction(sum(t), 3)), IG, it=it)
            check_eq(chk, "triads", f"{tag}: order difference of {t}", u, num(t[0] - abs(t[1] - t[2])), IG, it=it)
        chk.verdict("triads", tag + ": degrees and orders", ints(attr(o, "mode_l")) == [2, 1, 3] and ints(attr(o, "mode_m")) == [-2, 1, 0], IG, "")
    for dr in ((7, 8), (-9, -7), (5, 5), (0, 1), (-1, 0)):
        for d1 in ((11, 13), (-15, -13), (30, 30), (20, 21), (0, 2), (-1, 0)):
            for d2 in (None, (4, None), (None, 4), (11, 12), (-14, -12), (13, 15), (40, 41), (0, 1), (-2, 0), (0, 0)):
                guard("triads", f"driven {dr}, damped {d1}, {d2}", lambda: triads(dr, d1, d2), IG)

    # pairings
    lo = sym("lowest", "int")
    u, v, t = sym("u", "nat"), sym("v", "nat"), sym("t", "nat")
    x, y = lo + u - 1 + (t - 1) * 5, lo + v - 1
    dec = lambda r: [it.getitem(r, i) for i in (0, 1)]
    for nm, inv, f, symm in (("cantor_pair", "invert_cantor_pair", "cantor_pairing.py", False), ("symmetric_pair", "invert_symmetric_pair", "symmetric_pairing.py", True), ("xie_symmetric_pair", "invert_xie_symmetric_pair", "xie_pairing.py", True)):
        for tag, a, b in (("first larger", x + v, y), ("second larger", y, x + v), ("equal", x, x), ("any", x, y)):
            def go():
                F, G = getname(it, "pairing_functions", nm), getname(it, "pairing_functions", inv)
                code = it.call(F, [(a, b), lo])
                d = dec(it.call(G, [code, lo]))
                if not symm:
                    for i, q in enumerate((a, b)):
                        check_eq(chk, "pairing", f"{nm}, {tag}: element {i}", d[i], q, PF + f, it=it, rounds=40)
                else:
                    check_eq(chk, "pairing", f"{nm}, {tag}: sum", N(it.res(d[0])) + N(it.res(d[1])), a + b, PF + f, it=it, rounds=40)
                    check_eq(chk, "pairing", f"{nm}, {tag}: product", (N(it.res(d[0])) - lo) * (N(it.res(d[1])) - lo), (a - lo) * (b - lo), PF + f, it=it, rounds=40)
                    check_eq(chk, "pairing", f"{nm}, {tag}: order of the pair", it.call(F, [(b, a), lo]), code, PF + f, it=it, rounds=40)
            guard("pairing", f"{nm}, {tag}", go, PF + f)
    chk.saw(it)
