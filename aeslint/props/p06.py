"""Quadrature of angular coupling integrals."""
from .common import *

EXPL = ("Value numbering of the angular integral from its public entry point for every route (direct, Chebyshev-Gauss, blow-up protected with and without fall-back), with and without "
        "division by sin(theta) and multiplication by mu, for several numbers of factors; the native integrator and the interpolator stay uninterpreted, so equality means the same "
        "integrand, abscissae, weights, nodes, method and thread arguments reach them.")
W = "aesolver/aesolver/angular_integration/rotating_tar_angular/hough_integration.py"


def run(chk):
    chk.rule("direct", "2 pi * integral over mu of product of factors (/sin theta)(*mu), with the requested method/threads")
    chk.rule("chebyshev", "2 pi * pi/N * sum_k F(cos(pi(2k-1)/2N)), F interpolates integrand*sqrt(1-mu^2) (integrand without the sine when divided by it), N = multiplier*points")
    chk.rule("blow-up", "direct result unless it exceeds the blow-up factor, then the Chebyshev-Gauss result (if its nodes lie on the grid; a Chebyshev run is refused if they do not)")
    HIm = "aesolver.angular_integration"
    mu = sym("mu", "unit", 1)
    Q = "call:num_integrator.libcpp_num_integrator.integrate"

    def quad(i, a, k):
        """native quadrature; its spacing flag only matters for Simpson's rule (see P12)"""
        b = {**dict(zip(("integration_method", "equally_spaced", "integrand", "variable", "num_threads", "parallel_comp"), a)), **k}
        es = True if i.res(b["integration_method"]) == "trapz" else i.res(b["equally_spaced"])
        return fn(Q, i.payload(b["integration_method"]), es, *(i.payload(b[x]) for x in ("integrand", "variable", "num_threads", "parallel_comp")))
    OV = {("ext", Q[5:]): quad}
    names = ["x", "y", "w"]
    for nf in (1, 2, 3):
        for div, meth in ((False, "trapz"), (True, "trapz"), *(((False, "simpson"), (True, "simpson")) if nf == 2 else ())):
            for mul in (False, True):
                it = Interp(REPO, overrides=dict(OV))
                HI = getname(it, HIm, "HI")
                leaves = [sym(n, "real", 1) for n in names[:nf]]
                ob = it.obj(None, {"_mu_values": mu, **dict(zip(names, leaves))}, open=True, label="coupler")
                base = leaves[0]
                for l in leaves[1:]:
                    base = base * l
                if mul:
                    base = base * mu
                s = sqrt(1 - mu ** 2)
                nt, par = sym("nt", "nat"), sym("par", "bool")
                kw = dict(my_obj=ob, descrips=it.list(names[:nf]), div_by_sin=div, mul_with_mu=mul, nr_omp_threads=nt, use_parallel=par, num_integ_method=meth)
                integ = lambda f: fn("call:num_integrator.libcpp_num_integrator.integrate", meth, True, f, mu, nt, par)
                direct = integ(base / s if div else base)
                tag = f"{nf} factors, {meth}, /sin={div}, *mu={mul}"
                call = lambda **x: it.call(it.getattr(HI, "quadratic_angular_integral"), [], {**kw, **x})
                chk.guard("direct", tag, lambda: check_eq(chk, "direct", tag, call(), 2 * PI * direct, W, it=it, fnhook=None), W)
                # the Chebyshev routes are compared through the integrand reaching the interpolator and the node/weight pair
                seen = {}

                def interp(i, a, k):
                    seen["args"] = a
                    seen["kw"] = k
                    if seen.get("fails"):
                        def outside(i2, a2, k2):
                            raise AbsRaise(("ValueError", "A value in x_new is below the interpolation range."), i2.where())
                        return Lam(outside)
                    return Lam(lambda i2, a2, k2: i2.elementwise(lambda x: fn("F", x), a2[0]))

                # number of points made concrete through a concrete-size mu array
                npts, mult = 2, 3

                def concrete(rule, extra, build):
                    itc = Interp(REPO, overrides={**OV, ("ext", "scipy.interpolate.interp1d"): interp})
                    H2 = getname(itc, HIm, "HI")
                    muc = [sym(f"mu{i}", "unit") for i in range(npts)]
                    av = {n: [sym(f"{n}{i}") for i in range(npts)] for n in names[:nf]}
                    A = lambda v: itc.new(Arr((len(v),), tuple(v), "float"))
                    ob2 = itc.obj(None, {"_mu_values": A(muc), **{n: A(v) for n, v in av.items()}}, open=True, label="coupler")
                    kw2 = {**kw, "my_obj": ob2, "descrips": itc.list(names[:nf]), "cheby_order_multiplier": mult, **extra}
                    r = itc.call(itc.getattr(H2, "quadratic_angular_integral"), [], kw2)
                    n = mult * npts
                    tot = num(0)
                    for k in range(1, n + 1):
                        tot = tot + fn("F", fn("cos", PI * (2 * k - 1) / (2 * n)))
                    cg = PI / n * tot
                    prod = [num(1)] * npts
                    for i in range(npts):
                        p = av[names[0]][i]
                        for m_ in names[1:nf]:
                            p = p * av[m_][i]
                        if mul:
                            p = p * muc[i]
                        prod[i] = p
                    sq = [sqrt(1 - m_ ** 2) for m_ in muc]
                    xa = {**dict(zip(("x", "y"), seen["args"])), **seen["kw"]}
                    for i in range(npts):
                        check_eq(chk, rule, f"{tag}: interpolation abscissa {i}", itc.getitem(xa["x"], i), muc[i], W, it=itc)
                        check_eq(chk, rule, f"{tag}: interpolated integrand {i}", itc.getitem(xa["y"], i), prod[i] if div else prod[i] * sq[i], W, it=itc)
                    dcall = [c for c in T.calls_of(T.asterm(itc.res(r)), "call:num_integrator.libcpp_num_integrator.integrate")]
                    build(itc, r, cg, [prod[i] / sq[i] if div else prod[i] for i in range(npts)], dcall)
                    chk.saw(itc)

                def b1(itc, r, cg, ig, dc):
                    check_eq(chk, "chebyshev", tag + ": nodes, weights and prefactor", r, 2 * PI * cg, W, it=itc)
                chk.guard("chebyshev", tag, lambda: concrete("chebyshev", {"use_cheby_integration": True}, b1), W)

                def b2(itc, r, cg, ig, dc):
                    if len(dc) != 1:
                        chk.undecided("blow-up", tag, W, f"{len(dc)} native integrator calls")
                        return
                    d = dc[0]
                    fac = sym("fac", "pos")
                    check_eq(chk, "blow-up", tag + ": result", r, 2 * PI * T.ite(T.cmp(">", d, fac), cg, d), W, it=itc)
                    check_eq(chk, "blow-up", tag + ": direct call", fn("t", *d.args[1:]), fn("t", meth, True, fnv(ig), fnv([sym(f"mu{i}", "unit") for i in range(npts)]), nt, par), W, it=itc)

                def fnv(v):
                    tmp = Interp(REPO)
                    return tmp.payload(tmp.new(Arr((len(v),), tuple(T.asterm(x) for x in v), "float")))
                chk.guard("blow-up", tag, lambda: concrete("blow-up", {"cheby_blow_up_protection": True, "cheby_blow_up_factor": sym("fac", "pos")}, b2), W)

                def plain(itc, r, cg, ig, dc):
                    d = dc[0] if len(dc) == 1 else num(0)
                    check_eq(chk, "blow-up", tag + ": nodes outside the grid", r, 2 * PI * d, W, it=itc)
                    check_eq(chk, "blow-up", tag + ": nodes outside the grid, direct call", fn("t", *d.args[1:]) if len(dc) == 1 else d, fn("t", meth, True, fnv(ig), fnv([sym(f"mu{i}", "unit") for i in range(npts)]), nt, par), W, it=itc)

                def failing():
                    seen["fails"] = True
                    try:
                        concrete("blow-up", {"cheby_blow_up_protection": True, "cheby_blow_up_factor": sym("fac", "pos")}, plain)
                        try:
                            concrete("chebyshev", {"use_cheby_integration": True}, lambda itc, r, *x: chk.bad("chebyshev", tag + ": nodes outside the grid", W, f"a result is returned: {r!r}"[:200]))
                        except AbsRaise as e:
                            chk.verdict("chebyshev", tag + ": nodes outside the grid", e.exc[0] == "SystemExit" if isinstance(e.exc, tuple) else True, W, f"fails with {e.exc!r}")
                    finally:
                        seen.pop("fails", None)
                chk.guard("blow-up", tag + ": nodes outside the grid", failing, W)
                chk.saw(it)
    chk.floor = 20
