"""Hyperbolicity of the fixed point."""
from .common import *

EXPL = ("The amplitude equations are written as terms and differentiated symbolically at their fixed point; every entry of the Jacobian built by the source is "
        "compared with that derivative by value numbering. The hyperbolicity verdict and the solver's choice of Jacobian are enumerated path by path.")
W = "aesolver/aesolver/stability_checker/hyperbolicity/hyperbolicity_checker.py"
SC = "aesolver.stability_checker"


def linearised(g, q, om=None, eta=None):
    """Jacobian of  A1'=g1A1+2 o1 e A2A3 S, A2'=g2A2-2 o2 e A1A3 S, A3'=g3A3-2 o3 e A1A2 S (S=sin),
    F'=d+(2 e C)(o1A2A3/A1-o2A1A3/A2-o3A1A2/A3), at its fixed point with relative phase."""
    om = om or [sym(f"o{i}", "pos") for i in (1, 2, 3)]
    eta = sym("eta", "pos") if eta is None else eta
    A = [sym(f"A{i}", "pos") for i in (1, 2, 3)]
    F = sym("F")
    S, C = fn("sin", F), fn("cos", F)
    G = g[0] + g[1] + g[2]
    det = q * G
    k = [om[0], -1 * om[1], -1 * om[2]]
    rhs = [g[0] * A[0] + 2 * eta * k[0] * A[1] * A[2] * S,
           g[1] * A[1] + 2 * eta * k[1] * A[0] * A[2] * S,
           g[2] * A[2] + 2 * eta * k[2] * A[0] * A[1] * S,
           det + 2 * eta * C * (k[0] * A[1] * A[2] / A[0] + k[1] * A[0] * A[2] / A[1] + k[2] * A[0] * A[1] / A[2])]
    # fixed point: A_i^2 with S=-1/sqrt(1+q^2), C=+q/sqrt(1+q^2)
    iq = [g[i] / om[i] for i in range(3)]
    w = sqrt(1 + q ** 2)
    a1 = w / (2 * eta) * sqrt(iq[1] * iq[2])
    a2 = w / (2 * eta) * sqrt(-1 * iq[0] * iq[2])
    a3 = w / (2 * eta) * sqrt(-1 * iq[0] * iq[1])
    V = A + [F]
    fp = {A[0]: a1, A[1]: a2, A[2]: a3}
    J = []
    for r in rhs:
        row = []
        for v in V:
            d = diff(r, {v: num(1)})
            d = T.subst(d, {**{k_: N(v_) for k_, v_ in fp.items()}})
            d = T.subst(d, {S: -1 / w, C: q / w})
            row.append(d)
        J.append(row)
    res = [T.subst(T.subst(r, {k_: N(v_) for k_, v_ in fp.items()}), {S: -1 / w, C: q / w}) for r in rhs]
    return J, res


def charpoly(J):
    """coefficients a1..a4 of x^4+a1x^3+... (Faddeev-LeVerrier)."""
    n = len(J)
    M = [[num(0)] * n for _ in range(n)]
    c = [num(1)]
    Id = lambda k: [[k if i == j else num(0) for j in range(n)] for i in range(n)]
    mm = lambda A, B: [[sum((A[i][k] * B[k][j] for k in range(1, n)), A[i][0] * B[0][j]) for j in range(n)] for i in range(n)]
    for k in range(1, n + 1):
        AM = mm(J, M)
        I_ = Id(c[-1])
        M = [[AM[i][j] + I_[i][j] for j in range(n)] for i in range(n)]
        X = mm(J, M)
        tr = sum((X[i][i] for i in range(1, n)), X[0][0])
        c.append(-1 * tr / k)
    return c[1:]


def run(chk):
    chk.rule("jacobian", "three-mode Jacobian == derivative of the amplitude equations at their fixed point (time convention exp(-i omega t))")
    chk.rule("frequency sign", "for positive mode frequencies the amplitude block has the sign of the linearised equations")
    chk.rule("harmonic jacobian", "two-mode Jacobian entries == documented closed forms")
    chk.rule("verdict", "hyperbolic iff no eigenvalue has vanishing real part and the determinant is non-zero; a failing eigenvalue computation is not hyperbolic")
    it = Interp(REPO)
    u, a, b = sym("u", "unit"), sym("a", "pos"), sym("b", "pos")
    g = [u * (a + b) * 3, -1 * a, -1 * b]
    q, eta = sym("q"), sym("eta", "pos")
    om = [sym(f"o{i}", "pos") for i in (1, 2, 3)]
    J, _ = linearised(g, q, om, eta)
    ar = lambda *x: it.new(Arr((len(x),), x, "float"))
    hj = getname(it, SC, "hyper_jac")

    def jac(sgn, etav):
        r = it.res(it.call(hj, [ar(*g), ar(*[sgn * o for o in om]), q, etav], {}))
        A = it.get(r)
        if getattr(A, "shape", None) != (4, 4):
            raise AbsRaise(f"no 4 x 4 Jacobian but {getattr(A, 'shape', A)}")
        return [[A.data[4 * i + j] for j in range(4)] for i in range(4)]
    NM = ["A1", "A2", "A3", "phase"]

    def go():
        for tag, ev in (("", eta), (" (coefficient given as list)", it.list([eta]))):
            M = jac(-1, ev)
            for i in range(4):
                for j in range(4):
                    check_eq(chk, "jacobian", f"d({NM[i]}')/d({NM[j]}){tag}", it.getitem(M[i][j], 0) if isinstance(M[i][j], Ref) else M[i][j], J[i][j], W, it=it)
        M = jac(1, eta)
        blk = [(i, j) for i in range(3) for j in range(3) if i != j]
        good = all(equal(T.asterm(M[i][j]), J[i][j]) for i, j in blk)
        flip = all(equal(T.asterm(M[i][j]), -1 * J[i][j]) for i, j in blk)
        if not good and flip:
            chk.bad("frequency sign", "amplitude block at positive frequencies", W, "off-diagonal amplitude entries have the opposite sign of the linearised amplitude equations")
        else:
            chk.verdict("frequency sign", "amplitude block entries", good, W, "amplitude entries are neither the linearised ones nor their negative")
    chk.guard("jacobian", "three-mode Jacobian", go, W)

    def go3():
        g1, g2 = sym("g1", "pos"), -1 * sym("g2", "pos")
        o1, o2 = om[0], om[1]
        g3 = -1 * sym("g3", "pos")
        A = it.get(it.res(it.call(getname(it, SC, "hyper_jac_three"), [ar(g1, g2, g3), ar(*om), q, eta], {})))
        w = sqrt(1 + q ** 2)
        qf, G = q * w / (2 * eta), g1 + g2 + g3
        s = 2 * eta * q / w
        want = [g1, sqrt(-1 * g1 * o1 * g2 / o2), qf * g1 * g2 / o2,
                -1 * sqrt(-2 * g1 * g2 * o2 / o1), g2, g2 * qf * sqrt(-2 * g1 * g2 / (o1 * o2)),
                s * (G - 2 * g1) * o2 / g2, s * sqrt(-2 * g1 * o1 * o2 / g2), G]
        if getattr(A, "shape", None) != (3, 3):
            raise AbsRaise(f"no 3 x 3 Jacobian but {getattr(A, 'shape', A)}")
        for k in range(9):
            check_eq(chk, "harmonic jacobian", f"entry {k//3},{k%3}", A.data[k], want[k], W, it=it)
    chk.guard("harmonic jacobian", "two-mode Jacobian", go3, W)
    for n in (3, 4):
        re, im = [sym(f"r{i}") for i in range(n)], [sym(f"i{i}") for i in range(n)]
        dt = sym("det")
        it2 = Interp(REPO, overrides={("ext", "numpy.linalg.eigvals"): lambda i, a, k: i.new(Arr((n,), tuple(re[x] + T.I * im[x] for x in range(n)), "complex")),
                                      ("ext", "numpy.linalg.eig"): lambda i, a, k: (i.new(Arr((n,), tuple(re[x] + T.I * im[x] for x in range(n)), "complex")), sym("vec", "opaque")),
                                      ("ext", "numpy.linalg.det"): lambda i, a, k: dt})

        def go():
            r = it2.call(getname(it2, SC, "check_hyper"), [it2.new(Arr((n, n), tuple(sym(f"j{x}") for x in range(n * n)), "float"))], {})
            w = T.cmp("!=", dt, num(0))
            for x in re:
                w = T.land(w, T.cmp("!=", x, num(0)))

            def ov(seed):
                import random
                rr = random.Random(str(seed))
                d = {f"r{x}": rr.uniform(-1, 1) for x in range(n)}
                d["det"] = rr.uniform(-1, 1)
                if rr.random() < .6:
                    d[rr.choice(sorted(d))] = 0
                return d
            check_eq(chk, "verdict", f"{n}x{n}", r, w, W, it=it2, over=ov, rounds=60)
        chk.guard("verdict", f"{n}x{n}", go, W)
        chk.saw(it2)

    def boom(i, a, k):
        raise AbsRaise(("LinAlgError",), i.where())
    for which in ("eigvals", "det"):
        it3 = Interp(REPO, overrides={("ext", "numpy.linalg." + which): boom})
        chk.guard("verdict", f"failing {which}", lambda: check_eq(chk, "verdict", f"failing {which}", it3.call(getname(it3, SC, "check_hyper"), [it3.new(Arr((3, 3), tuple(sym(f"j{x}") for x in range(9)), "float"))], {}), False, W, it=it3), W)
    chk.saw(it)
    chk.floor = 12
