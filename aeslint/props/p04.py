"""Coupling selection rules."""
from .common import *

EXPL = ("Value numbering of the selection-rule object over symbolic spherical degrees and azimuthal orders for one and several triads (any mode numbering), every "
        "conjugation pattern and both result modes; and of the azimuthal gate of the angular integral for every form the conjugation argument takes.")
W = "aesolver/aesolver/pre_checks/generic/generic_quadratic_checks.py"
WH = "aesolver/aesolver/angular_integration/rotating_tar_angular/hough_integration.py"


def mod2(x):
    return x - 2 * fn("floor", x / 2)


def over(names_m, names_l):
    import random

    def f(seed):
        r = random.Random(str(seed))
        d = {}
        for a, b, c in names_m:
            x, y = r.randint(-3, 3), r.randint(-3, 3)
            d.update({b: x, c: y, a: r.choice([x + y, -x - y, x - y, x + y + 1, y - x])})
        for n in names_l:
            d[n] = r.randint(3, 7)
        return d
    return f


def run(chk):
    chk.rule("azimuthal", "the azimuthal orders, sign-flipped where conjugated, sum to zero")
    chk.rule("meridional", "the meridional orders l-|m| of the triad sum to an even number")
    chk.rule("default conjugation", "without a conjugation pattern the first mode of every triad is conjugated")
    chk.rule("combination", "several triads: all-of when a single verdict is requested, otherwise one verdict per triad, each from that triad's own modes")
    chk.rule("stored orders", "the l, m and meridional-order lists report the triad's modes in order")
    chk.rule("integral gate", "the angular integral vanishes exactly when the (conjugated) azimuthal orders do not sum to zero")
    it = Interp(REPO)
    n = 6
    ls = [sym(f"l{i}", "nat") for i in range(1, n + 1)]
    ms = [sym(f"m{i}", "int") for i in range(1, n + 1)]
    ad = it.list([it.new(Dict({"l": ls[i], "m": ms[i]})) for i in range(n)])
    C = getname(it, "aesolver.pre_checks", "PreCheckQuadratic")

    def want(tr, cj):
        s = [(-1 if c else 1) * ms[g - 1] for g, c in zip(tr, cj)]
        k = [ls[g - 1] - fn("abs", ms[g - 1]) for g in tr]
        return T.land(T.cmp("==", s[0] + s[1] + s[2], num(0)), T.cmp("==", mod2(k[0] + k[1] + k[2]), num(0)))

    def build(triads, conj, allf):
        kw = {"triads": None if triads is None else it.list([tuple(t) for t in triads]),
              "conjugation": None if conj is None else it.list(list(conj)), "all_fulfilled": allf}
        return it.call(C, [ad], kw)
    D = (True, False, False)
    patt = [D, (False, False, False), (False, True, True), (False, True, False), (False, False, True), (True, True, False)]
    cases = [(None, None)] + [([t], [c]) for t in ((1, 2, 3), (4, 5, 6), (2, 6, 1), (3, 3, 5)) for c in patt] + [([(1, 2, 3)], None), ([(4, 2, 5)], None), ([(1, 2, 3)], [True])]
    for tr, cj in cases:
        t0 = tr[0] if tr else (1, 2, 3)
        c0 = cj[0] if cj and not isinstance(cj[0], bool) else D
        ov = over([tuple(f"m{g}" for g in t0)] if len(set(t0)) == 3 else [], [f"l{i}" for i in range(1, n + 1)])
        tag = f"triad {t0} conjugation {cj}"
        rule = "azimuthal" if cj and not isinstance(cj[0], bool) else "default conjugation"

        def go():
            o = build(tr, cj, True)
            check_eq(chk, rule, tag, it.call(it.getattr(o, "generic_check"), [], {}), want(t0, c0), W, it=it, over=ov, rounds=40)
        chk.guard(rule, tag, go, W)
    # meridional rule alone: azimuthal rule satisfied by construction
    for t0 in ((1, 2, 3), (5, 2, 6)):
        def go():
            ad2 = it.list([it.new(Dict({"l": ls[i], "m": ms[i]})) for i in range(n)])
            a, b, c = t0
            it.w(it.get(ad2).items[a - 1]).d["m"] = ms[b - 1] + ms[c - 1]
            o = it.call(C, [ad2], {"triads": it.list([t0])})
            k = ls[a - 1] - fn("abs", ms[b - 1] + ms[c - 1]) + ls[b - 1] - fn("abs", ms[b - 1]) + ls[c - 1] - fn("abs", ms[c - 1])
            check_eq(chk, "meridional", f"triad {t0}", it.call(it.getattr(o, "generic_check"), [], {}), T.cmp("==", mod2(k), num(0)), W, it=it, rounds=24)
        chk.guard("meridional", f"triad {t0}", go, W)
    two = [(1, 2, 3), (4, 5, 6)]
    E2, E3 = (False, True, False), (False, False, True)
    for two, cj in ((two, None), (two, [D, E2]), (two, [E3, D]), ([(4, 2, 6), (1, 3, 5), (6, 2, 1)], [E2, D, E3])):
        nt = len(two)
        cc = cj or [D, D]
        ov = over([("m1", "m2", "m3"), ("m4", "m5", "m6")] if nt == 2 else [("m4", "m2", "m6"), ("m1", "m3", "m5")], [f"l{i}" for i in range(1, n + 1)])
        tag = f"{nt} triads {two}, conjugation {cj}"
        if nt == 3:
            ov0 = ov

            def ov(seed, ov0=ov0):
                d = ov0(seed)
                import random
                r = random.Random(str(seed) + "x")
                if r.random() < .7:     # all three azimuthal rules satisfiable together: m4+m6=m2, m3+m5=m1, m6+m2=m1
                    d["m4"] = d["m2"] - d["m6"]
                    d["m1"] = d["m6"] + d["m2"]
                    d["m5"] = d["m1"] - d["m3"]
                return d

        def go():
            check_eq(chk, "combination", tag + ", single verdict", it.call(it.getattr(build(two, cj, True), "generic_check"), [], {}),
                     __import__('functools').reduce(T.land, [want(a, b) for a, b in zip(two, cc)]), W, it=it, over=ov, rounds=150)
        chk.guard("combination", tag + ", single verdict", go, W)

        def go():
            r = it.call(it.getattr(build(two, cj, False), "generic_check"), [], {})
            for j in range(nt):
                check_eq(chk, "combination", f"{tag}, verdict {j+1}", it.getitem(r, j), want(two[j], cc[j]), W, it=it, over=ov, rounds=40)
        chk.guard("combination", tag + ", separate verdicts", go, W)

    def go():
        tr = [(2, 4, 6), (1, 3, 5)]
        o = build(tr, None, False)
        for j, t in enumerate(tr):
            for i, gnr in enumerate(t):
                check_eq(chk, "stored orders", f"l[{j}][{i}]", it.getitem(it.getitem(it.getattr(o, "l_list"), j), i), ls[gnr - 1], W, it=it)
                check_eq(chk, "stored orders", f"m[{j}][{i}]", it.getitem(it.getitem(it.getattr(o, "m_list"), j), i), ms[gnr - 1], W, it=it)
                check_eq(chk, "stored orders", f"k[{j}][{i}]", it.getitem(it.getitem(it.getattr(o, "k_list"), j), i), ls[gnr - 1] - fn("abs", ms[gnr - 1]), W, it=it)
    chk.guard("stored orders", "lists", go, W)
    # angular integral gate
    HI = getname(it, "aesolver.angular_integration", "HI")
    mm = ms[:3]
    ob = it.obj(None, {"_mu_values": sym("mu", "unit", 1), "a": sym("a", "real", 1)}, open=True, label="coupler")
    val = it.res(it.call(it.getattr(HI, "quadratic_angular_integral"), [], {"my_obj": ob, "descrips": it.list(["a"]), "only_theta": True}))
    ov = over([("m1", "m2", "m3")], [])
    for cj in [None, True, False] + patt:
        s = (False,) * 3 if cj in (None, False) else (D if cj is True else cj)
        tot = sum(((-1 if s[i] else 1) * mm[i] for i in (1, 2)), (-1 if s[0] else 1) * mm[0])
        for ml in (True, False):
            tag = f"conjugation {cj}, orders {'given' if ml else 'absent'}"

            def go():
                r = it.call(it.getattr(HI, "quadratic_angular_integral"), [], {"my_obj": ob, "descrips": it.list(["a"]), "conj": cj,
                                                                               "m_list_for_azimuthal_check": it.list(list(mm)) if ml else None})
                check_eq(chk, "integral gate", tag, r, T.ite(T.cmp("==", tot, num(0)), N(val), num(0)) if ml else N(val), WH, it=it, over=ov, rounds=30)
            chk.guard("integral gate", tag, go, WH)
    chk.saw(it)
    chk.floor = 15
