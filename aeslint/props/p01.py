"""Polytropic structure: derivatives and structure functions (Lane-Emden oracle)."""
from .common import *

EXPL = ("Global value numbering of the polytropic structure module from its public entry point: every published profile is reduced to a term over the "
        "model inputs (z, theta, dtheta, Gamma_1, n, G, M, R) and compared, by random interpretation, with the term obtained by differentiating rho0*theta^n, "
        "p0*theta^(n+1) and -(p0/rho0)(n+1)*theta under the Lane-Emden equation, and with the textbook definitions of the structure coefficients.")


def run(chk):
    chk.rule("derivative", "published k-th radial derivative == k-th derivative of the base profile under Lane-Emden")
    chk.rule("definition", "published structure quantity == its textbook definition")
    chk.rule("complete", "every published quantity has an oracle")
    it = Interp(REPO)
    C = getname(it, "aesolver.polytropic_computations", "PaSi")
    z, th, dth, g1 = (sym(k, "pos", 1) for k in ("z", "theta", "dtheta", "Gamma_1"))
    n, G, M, R = (sym(k, "pos") for k in ("n", "G", "M", "R"))
    d = {"z": z, "theta": th, "dtheta": dth, "Gamma_1": g1, "n_poly": n, "G": G}
    o = it.call(C, [it.list([it.new(Dict(d))]), M, R], {})
    pd = it.getattr(o, "property_dict")
    got = it.get(pd).d
    zs, dths = fn("idx", z, num(-1)), fn("idx", dth, num(-1))
    aux_s = -1 * zs ** 2 * dths
    # Lane-Emden: theta'' = -theta^n - 2 theta'/z
    d2th = -1 * th ** n - 2 * dth / z
    rules = {th: dth, dth: d2th, z: num(1), zs: num(0), dths: num(0)}
    rho0 = M * zs ** 3 / (4 * PI * R ** 3 * aux_s)
    p0 = G * M ** 2 * zs ** 4 / (4 * PI * R ** 4 * aux_s ** 2 * (n + 1))
    alpha = R / zs
    rho, p, phi = rho0 * th ** n, p0 * th ** (n + 1), -1 * (p0 / rho0) * (n + 1) * th
    want = {"rho0": rho0, "p0": p0, "rho": rho, "p": p, "r": alpha * z}
    der = {}
    for nm, base in (("drho", rho), ("dp", p), ("dgravpot", phi)):
        t = base
        for k in (1, 2, 3):
            t = diff(t, rules) / alpha
            der[nm + ("" if k == 1 else str(k))] = t
    x = z / zs
    v = -1 * (n + 1) * z * dth / th
    mr = M * (z ** 2 * dth) / (zs ** 2 * dths)
    r = alpha * z
    grav = G * mr / r ** 2
    as_ = v * (n / (n + 1) - 1 / g1)
    want.update({"v": v, "v2": v / x ** 2, "u": -1 * z * th ** n / dth, "c1": x ** 3 * M / mr, "mr": mr, "surfgrav": grav,
                 "as": as_, "brunt_n2": grav * as_ / r})
    from mpmath import mpf

    def over(s):
        def neg(sm, ctx):
            return -(mpf("0.3") + sm.leaf("dth_", "unit", sm.cut(ctx, 1)))
        return {"dtheta": neg}
    for k in sorted(set(der) | set(want)):
        rule = "derivative" if k in der else "definition"
        w = der.get(k, want.get(k))
        if k not in got:
            chk.bad(rule, k, "aesolver/aesolver/polytropic_computations", "quantity is not published")
            continue
        chk.guard(rule, k, lambda: check_eq(chk, rule, k, it.res(got[k]), w, it.where_of(o, k), over=over, it=it))
    for k in got:
        if k not in der and k not in want:
            chk.undecided("complete", k, "", "no oracle for this published quantity")
    chk.saw(it)
    chk.floor = 5
