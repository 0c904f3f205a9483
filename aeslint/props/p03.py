"""Linear stability of the fixed point."""
from .common import *

EXPL = ("Value numbering of every linear-stability predicate (generic sum, corrected/original quartic, equivalent quartic, two-mode parametric/direct) and of the "
        "stability branch of the three-mode pre-check; each result term is compared with the closed-form condition, with the comparison atoms driven to "
        "both outcomes and to their boundaries; additionally the quartic is proved equivalent to the Routh-Hurwitz determinant of the linearised amplitude equations.")

SC = "aesolver.stability_checker"
TH = "aesolver/aesolver/stability_checker/three_mode/stab_checker_quadratic_three_sum.py"
TW = "aesolver/aesolver/stability_checker/two_mode/stab_checker_quadratic_two_sum.py"
PC = "aesolver/aesolver/pre_checks/specific/three_mode_checks.py"


def poly(g, q, kind):
    g1, g2, g3 = g
    r2, r3 = -1 * g2 / g1, -1 * g3 / g1
    p = r2 * r3
    s = 1 - r2 - r3
    if kind == "corr":
        c0, c2, c4 = s ** 3 - 2 * p, -12 * p - s * (2 * r2 ** 2 + 2 * r3 ** 2 + 2), -18 * p - 3 * s * (s ** 2 + 4 * (r2 + r3 - p))
    else:
        t = -1 * s
        c0, c2, c4 = -1 * t ** 3 - 2 * p, -12 * p + t * (2 * r2 ** 2 + 2 * r3 ** 2 + 2), 3 * (-6 * p + t * ((r2 - r3) ** 2 + 2 * (r2 + r3) ** 2 + 1))
    return c0, c2, c4


def add_cond(g, q):
    G = g[0] + g[1] + g[2]
    b = g[0] * g[1] * g[2] / G ** 3
    s = (g[0] * g[1] + g[0] * g[2] + g[1] * g[2]) / G ** 2
    return 2 * b - 1 + (2 + 12 * b - 4 * s) * q ** 2 + (18 * b + 3 - 12 * s) * q ** 4


def mod2(x):
    return x - 2 * fn("floor", x / 2)


def asb(it, v):
    v = it.res(v)
    if isinstance(v, Ref) and isinstance(it.get(v), Arr):
        v = it.get(v).data[0]
    return T.asterm(v)


def gt(a, b=0):
    return T.cmp(">", N(a), N(b))


def lt(a, b=0):
    return T.cmp("<", N(a), N(b))


def run(chk):
    chk.rule("generic", "sum of the linear rates is negative (float, list and array input)")
    chk.rule("quartic", "the second condition equals 2b-1+(2+12b-4s)q^2+(18b+3-12s)q^4>0, b=g1g2g3/G^3, s=(g1g2+g1g3+g2g3)/G^2")
    chk.rule("dziembowski", "original and corrected q-polynomials in the damping ratios, ratio of their q^4 coefficients")
    chk.rule("equivalence", "for a damped-sum parametric triad the corrected polynomial and the equivalent condition agree, and equal the Routh-Hurwitz criterion of the linearised amplitude equations")
    chk.rule("two-mode", "parametric: theta>(1+sqrt 3)/2 and q^2>(2t(t-1)-1)/(2t(t-1)+1); direct: theta<1/2; theta=-g2/g1")
    chk.rule("resonance type", "parametric (+,-,-), direct (-,+,+), driven (+,+,+)")
    chk.rule("pre-check", "stable iff parametric and (two-mode: two-mode parametric condition; three-mode: both conditions) or two-mode direct with its condition; combined with the selection rules")
    it = Interp(REPO)
    g = [sym(f"g{i}") for i in (1, 2, 3)]
    q = sym("q")
    ar = lambda *x: it.new(Arr((len(x),), x, "float"))
    G = g[0] + g[1] + g[2]
    # domain restricted symbols
    u, a, b = sym("u", "unit"), sym("a", "pos"), sym("b", "pos")
    dom = [u * (a + b), -1 * a, -1 * b]

    def call(mod, name, *args, **kw):
        return it.call(getname(it, mod, name), list(args), kw)

    def eq(rule, inst, thunk, want, where, rounds=16, **kw):
        chk.guard(rule, inst, lambda: check_eq(chk, rule, inst, thunk(), want, where, it=it, rounds=rounds, **kw), where)
    eq("generic", "array", lambda: call(SC, "gss", ar(*g)), lt(G), TH)
    eq("generic", "list", lambda: call(SC, "gss", it.list(list(g))), lt(G), TH)
    eq("generic", "float", lambda: call(SC, "gss", sym("gs")), lt(sym("gs")), TH)
    tm = SC + ".three_mode.stab_checker_quadratic_three_sum"
    P = lambda c: c[0] + c[1] * q ** 2 + c[2] * q ** 4
    eq("quartic", "equivalent condition", lambda: call(tm, "check_additional_condition_equivalent", ar(*g), q), gt(add_cond(g, q)), TH)
    eq("quartic", "condition used by the checks", lambda: call(SC, "check_van_beeck_conditions", ar(*dom), q), gt(add_cond(dom, q)), TH)
    eq("dziembowski", "corrected", lambda: call(tm, "check_corrected_dziembowski_conditions", ar(*g), q), gt(P(poly(g, q, "corr"))), TH)
    eq("dziembowski", "original", lambda: call(tm, "check_original_dziembowski_conditions", ar(*g), q), gt(P(poly(g, q, "orig"))), TH)
    eq("dziembowski", "ratio of q^4 coefficients", lambda: call(tm, "ratio_coefficients_q4_dziembowski", ar(*g)), poly(g, q, "corr")[2] / poly(g, q, "orig")[2], TH)
    eq("equivalence", "equivalent = corrected", lambda: call(tm, "check_additional_condition_equivalent", ar(*dom), q), it.res(call(tm, "check_corrected_dziembowski_conditions", ar(*dom), q)), TH)
    # Routh-Hurwitz: characteristic polynomial of the linearised system
    from .p05 import linearised, charpoly
    J, fp = linearised(dom, q)
    c = charpoly(J)
    hur = T.land(gt(c[0]), T.land(gt(c[3]), gt(c[0] * c[1] * c[2] - c[2] ** 2 - c[0] ** 2 * c[3])))
    eq("equivalence", "both conditions = Routh-Hurwitz", lambda: T.land(asb(it, call(SC, "gss", ar(*dom))), asb(it, call(SC, "check_van_beeck_conditions", ar(*dom), q))), hur, TH)
    th = -1 * g[1] / g[0]
    pol = 2 * th * (th - 1)
    par2 = T.land(gt(th, (1 + sqrt(num(3))) / 2), gt(q ** 2, (pol - 1) / (pol + 1)))
    eq("two-mode", "parametric", lambda: call(SC, "check_dziembowski_parametric", ar(*g), q), par2, TW)
    eq("two-mode", "direct", lambda: call(SC, "check_dziembowski_direct", ar(*g)), lt(th, num(1) / 2), TW)
    P3 = T.land(gt(g[0]), T.land(lt(g[1]), lt(g[2])))
    D3 = T.land(lt(g[0]), T.land(gt(g[1]), gt(g[2])))
    A3 = T.land(gt(g[0]), T.land(gt(g[1]), gt(g[2])))
    pm = "aesolver.pre_checks"
    LV = (0.0, -0.02, 0.02, -1.5, 1.25)

    def over_zero(seed):
        n = seed if isinstance(seed, int) else seed[-1]
        return {k: LV[(n // 5 ** j) % 5] for j, k in enumerate(("g1", "g2", "g3"))}
    for nm, w in (("check_parametric", P3), ("check_direct", D3), ("check_driven", A3)):
        eq("resonance type", nm, lambda nm=nm: call(pm, nm, it.new(Dict({"linear driving rates": ar(*g)}))), w, PC)
        eq("resonance type", nm + " (grid of signs and zeros)", lambda nm=nm: call(pm, nm, it.new(Dict({"linear driving rates": ar(*g)}))), w, PC, over=over_zero, rounds=125)
    # the full pre-check object
    l, m = [2, 2, 2], [2, 0, 2]
    ls = [sym(f"l{i}", "nat") for i in (1, 2, 3)]
    ms = [sym(f"m{i}", "int") for i in (1, 2, 3)]

    def pre(two, harm_dirs=False):
        ad = it.list([it.new(Dict({"l": ls[i], "m": ms[i]})) for i in range(3)])
        fh = it.obj(None, {"driving_rates": ar(*g), "q_factor": ar(q) if False else it.new(Arr((), (q,), "float"))}, open=True, label="fh")
        o = it.call(getname(it, pm, "PreThreeQuad"), [], {"gyre_ad": ad, "freq_handler": fh, "two_mode_harmonic": two})
        return it.call(it.getattr(o, "check"), [], {})
    ab = lambda x: fn("abs", x)
    sel = T.land(T.cmp("==", ms[0] - ms[1] - ms[2], num(0)),
                 T.cmp("==", mod2(sum((ls[i] - ab(ms[i]) for i in range(1, 3)), ls[0] - ab(ms[0]))), num(0)))
    st3 = T.land(P3, T.land(lt(G), gt(add_cond(g, q))))
    st2 = T.lor(T.land(P3, par2), T.land(D3, lt(th, num(1) / 2)))

    def over_sel(seed):
        # half of the samples satisfy the azimuthal rule
        import random
        r = random.Random(str(seed))
        d = {}
        m2, m3 = r.randint(-2, 2), r.randint(-2, 2)
        d.update(m2=m2, m3=m3, m1=m2 + m3 + (0 if r.random() < .8 else 1))
        for k in ("l1", "l2", "l3"):
            d[k] = r.randint(2, 5)
        sgn = r.choice([(1, -1, -1), (1, -1, -1), (-1, 1, 1), (1, 1, 1), (1, -1, 1)])
        d.update({f"g{i + 1}": sgn[i] * r.choice([r.uniform(.1, 2), r.uniform(.1, 2), 10 ** r.uniform(-3, 0), 0.0 if i else .5]) for i in range(3)})
        sc = r.choice([1.0, 1.0, 1e-2, 1e-4, 50.0])
        d.update({f"g{i}": sc * d[f"g{i}"] for i in (1, 2, 3)})
        d["q"] = r.choice([-1, 1]) * r.uniform(.05, 4)
        return d
    eq("pre-check", "three-mode", lambda: pre(False), T.land(sel, st3), PC, over=over_sel, rounds=240)
    eq("pre-check", "two-mode harmonic", lambda: pre(True), T.land(sel, st2), PC, over=over_sel, rounds=240)
    chk.saw(it)
    chk.floor = 4
