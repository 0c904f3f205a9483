"""Mode frequencies: frames, units, detunings, quality factors."""
from fractions import Fraction
from .common import *

EXPL = ("Value numbering of the frequency handler, constructed on symbolic adiabatic and non-adiabatic mode data for every input unit, requested unit, reference frame and source of the rotation frequency; "
        "every public accessor is compared with its definition.")
W = "aesolver/aesolver/frequency_handling/frequency_handler.py"
INU = {"HZ": num(1), "UHZ": num(Fraction(1, 10 ** 6)), "RAD_PER_SEC": 1 / (2 * PI), "CYC_PER_DAY": num(Fraction(1, 86400)), "NONE": None}
REQ = {"HZ": 1, "UHZ": 10 ** 6, "CYC_PER_DAY": 86400, "CPD": 86400, "RAD_PER_SEC": 1}
N3 = range(3)


class Setup:
    def __init__(self, unit, req, frame, nad_unit=None, nad_frame=None, dimrot=True, n=3):
        it = self.it = Interp(REPO)
        self.n = n
        self.G, self.M, self.R = sym("G", "pos"), sym("M", "pos"), sym("R", "pos")
        self.dyn = sqrt(self.G * self.M / self.R ** 3)
        self.ms = [sym(f"m{i}", "int") for i in range(n)]
        self.k = num(REQ[req])
        self.ang = req == "RAD_PER_SEC"
        self.rot_in = [sym("rot_core", "pos"), sym("rot_surf", "pos")]
        self.rps = self.rot_in[1] if dimrot else self.rot_in[1] * self.dyn
        self.ad, self.f = self.dicts("f", unit, frame, dimrot)
        self.nad, self.fn = self.dicts("g", nad_unit or unit, nad_frame or frame, dimrot)
        self.frame, self.nframe = self.per(frame), self.per(nad_frame or frame)
        self.o = it.call(getname(it, "aesolver.frequency_handling", "FH"), list(self.ad), {"my_freq_units": req})
        it.call(it.getattr(self.o, "set_mode_nonadiabatic_info"), list(self.nad))

    def per(self, v):
        """one value per mode"""
        return [v] * self.n if isinstance(v, str) else list(v)

    def dicts(self, nm, units, frames, dimrot):
        it, ds, fs = self.it, [], []
        for i, (unit, frame) in enumerate(zip(self.per(units), self.per(frames))):
            z = sym(f"{nm}re{i}", "pos") + I * sym(f"{nm}im{i}")
            fac = INU[unit] if INU[unit] is not None else self.dyn / (2 * PI)
            fs.append((sym(f"{nm}re{i}", "pos") * fac * self.k, sym(f"{nm}im{i}") * fac * self.k))
            d = {"freq": it.new(Arr((1,), (z,), "complex")), "freq_units": unit.encode(), "freq_frame": frame.encode(), "m": self.ms[i], "G": self.G, "M_star": self.M, "R_star": self.R}
            d["Omega_rot_dim" if dimrot else "Omega_rot"] = it.new(Arr((2,), tuple(self.rot_in), "float"))
            ds.append(it.new(Dict(d)))
        return ds, fs

    def freqs(self, nad):
        """(inertial, co-rotating) cyclic frequencies in the requested scale"""
        f, frs = (self.fn, self.nframe) if nad else (self.f, self.frame)
        rot = self.rps / (2 * PI) * self.k
        ine, cor = [], []
        for i in range(self.n):
            re = f[i][0]
            if frs[i] == "INERTIAL":
                ine.append(re)
                cor.append(re - self.ms[i] * rot)
            else:
                cor.append(re)
                ine.append(re + self.ms[i] * rot)
        return ine, cor


def vec(it, v):
    v = it.res(v)
    return list(it.get(v).data) if isinstance(v, Ref) else [v]


def run(chk):
    chk.rule("frame", "inertial and co-rotating frequencies differ by m times the surface rotation frequency, in the requested units, cyclic and angular ones by 2 pi")
    chk.rule("rotation", "rotation frequency, spin factors and unit ratio")
    chk.rule("dimensionless", "dimensionless frequencies are frequencies times the dynamical time, in any requested unit")
    chk.rule("detuning", "detuning = parent minus summed daughter co-rotating angular frequencies")
    chk.rule("rates", "driving rates are the imaginary parts of the angular frequencies; quality factors, pair products, summed rate and detuning-to-damping ratios follow")
    chk.rule("accessor", "per-mode accessors give (co-rotating, inertial) of the requested mode")
    cases = []
    for req in REQ:
        for unit in INU:
            for frame in ("INERTIAL", "COROT_I"):
                cases.append((f"{unit} {frame} -> {req}", dict(unit=unit, req=req, frame=frame)))
        cases.append((f"HZ -> {req}, dimensionless rotation", dict(unit="HZ", req=req, frame="COROT_O", dimrot=False)))
        for nu, nf in (("NONE", "INERTIAL"), ("CYC_PER_DAY", "COROT_I")):
            cases.append((f"UHZ INERTIAL, nonadiabatic {nu} {nf} -> {req}", dict(unit="UHZ", req=req, frame="INERTIAL", nad_unit=nu, nad_frame=nf)))
        # units and frames that differ from mode to mode, in either set of data
        for pat in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (0, 1, 1), (1, 0, 1)):
            mix = lambda a, b: [b if p else a for p in pat]
            cases.append((f"RAD_PER_SEC INERTIAL, nonadiabatic HZ for modes {pat} -> {req}", dict(unit="RAD_PER_SEC", req=req, frame="INERTIAL", nad_unit=mix("RAD_PER_SEC", "HZ"))))
            cases.append((f"CYC_PER_DAY, co-rotating for modes {pat}, nonadiabatic frames reversed -> {req}", dict(unit="CYC_PER_DAY", req=req, frame=mix("INERTIAL", "COROT_I"), nad_frame=mix("COROT_I", "INERTIAL"))))
            cases.append((f"UHZ for modes {pat}, nonadiabatic CYC_PER_DAY -> {req}", dict(unit=mix("HZ", "UHZ"), req=req, frame="INERTIAL", nad_unit="CYC_PER_DAY")))
            cases.append((f"UHZ for modes {pat}, nonadiabatic alike -> {req}", dict(unit=mix("HZ", "UHZ"), req=req, frame="INERTIAL")))
    for tag, kw in cases:
        def go():
            s = Setup(**kw)
            it, o = s.it, s.o
            A = lambda n: it.getattr(o, n)
            def cmpv(rule, n, want, got=None):
                raw = A(n) if got is None else got
                if got is not None:
                    # the frame/unit pairs come as a column, one row per frame
                    sh = getattr(it.get(raw), "shape", None) if isinstance(raw, Ref) else None
                    chk.verdict(rule, f"{tag}: {n}: a column of {len(want)} rows", sh == (len(want), 1), W, f"shape {sh}")
                got = vec(it, raw)
                if len(got) != len(want):
                    chk.bad(rule, f"{tag}: {n}", W, f"{len(got)} values instead of {len(want)}")
                    return
                for i, (g, w) in enumerate(zip(got, want)):
                    check_eq(chk, rule, f"{tag}: {n}[{i}]", g, w, W, it=it, rounds=2)
            for nad in (False, True):
                e = "_nad" if nad else ""
                ine, cor = s.freqs(nad)
                om = [2 * PI * v for v in cor]
                io = [2 * PI * v for v in ine]
                cmpv("frame", "inert_mode_freqs" + e, ine)
                cmpv("frame", "corot_mode_freqs" + e, cor)
                cmpv("frame", "inert_mode_omegas" + e, io)
                cmpv("frame", "corot_mode_omegas" + e, om)
                tau = 1 / (s.dyn * s.k)
                for n, v in (("corot_freqs", cor), ("inert_freqs", ine), ("corot_omegas", om), ("inert_omegas", io)):
                    cmpv("dimensionless", f"dimless_{n}{e}", [a * tau for a in v])
                det = om[0] - om[1] - om[2]
                cmpv("detuning", "detuning" + e, [det])
                g = [2 * PI * v[1] for v in s.fn]
                cmpv("rates", "quality_factors" + e, [a / b for a, b in zip(om, g)])
                q = [a / b for a, b in zip(om, g)]
                cmpv("rates", "quality_factor_products" + e, [q[1] * q[0], q[2] * q[0], q[2] * q[1]])
                cmpv("rates", "q_factor" + e, [det / (g[0] + g[1] + g[2])])
                cmpv("rates", "q1_factor" + e, [det / g[0]])
                for j in (1, 2, 3):
                    for n, a, b in (("get_inert_corot_f", cor, ine), ("get_inert_corot_o", om, io), ("get_dimless_freqs", [v * tau for v in cor], [v * tau for v in ine]), ("get_dimless_omegas", [v * tau for v in om], [v * tau for v in io])):
                        cmpv("accessor", f"{n}{e} mode {j}", [a[j - 1], b[j - 1]], it.call(A(n + e), [], {"my_f_nr": j}))
                cmpv("accessor", "get_detunings" + e, [det, det], it.call(A("get_detunings" + e)))
            cmpv("rates", "driving_rates", g)
            cmpv("rates", "gamma_sum", [g[0] + g[1] + g[2]])
            rot = s.rps / (2 * PI) * s.k
            cmpv("rotation", "surf_rot_freq", [s.rps if s.ang else rot])
            cmpv("rotation", "surf_rot_angular_freq", [s.rps * s.k])
            cmpv("rotation", "surf_rot_angular_freq_rps", [s.rps])
            cmpv("rotation", "angular_conv_factor_from_rps", [s.k])
            cmpv("rotation", "spin_factors", [2 * rot / v for v in s.freqs(False)[1]])
            chk.verdict("accessor", f"{tag}: mode count and units", A("nr_of_modes") == 3 and A("requested_units") == kw["req"] and A("angular") is s.ang, W, "wrong number of modes, units or angularity flag")
            chk.saw(it)
        chk.guard("frame", tag, go, W)

    def bad_len():
        s = Setup("HZ", "HZ", "INERTIAL")
        try:
            s.it.call(s.it.getattr(s.o, "set_mode_nonadiabatic_info"), list(s.nad[:2]))
        except AbsRaise as e:
            chk.ok("frame", "fewer non-adiabatic than adiabatic modes are refused", W)
            return
        chk.bad("frame", "fewer non-adiabatic than adiabatic modes are refused", W, "accepted")
    chk.guard("frame", "mode count mismatch", bad_len, W)
    chk.floor = 500
