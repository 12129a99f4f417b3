"""C23: iterative calculations end and solve their equation."""
import math

import numpy as np

from vp import arrays, compare, gen, target
from vp.compare import REF
from vp.prop import Prop, V, shrink_args

U = "hydraulic.wave_runup."
O = "hydraulic.wave_overtopping."
RA = "structural.stability_rock_armour."
RR = "structural.stability_rock_rear."
TB = "structural.stability_toe_berm."
nan, inf, pi = math.nan, math.inf, math.pi
HACC = TB + "takahashi1990_caisson.calculate_significant_depth_above_toe_hacc"


class NoStep(Exception):
    pass


def call(path, **kw):
    k, v, _ = target.call(path, kw)
    if k != "ok":
        raise NoStep()
    return v


def num(x):
    x = float(np.asarray(x))
    if not math.isfinite(x):
        raise NoStep()
    return x


def dn50(a, rho="rho_armour"):
    if a.get("Dn50", nan) == a.get("Dn50", nan):
        return a["Dn50"]
    return (a["M50"] / a[rho]) ** (1 / 3)


def delta(a, rho="rho_armour", w=1025.0):
    return a[rho] / w - 1.0


# one step of the published fixed-point equation from x (x is the result of the calculation)
def s_kbD(a, x):
    return (a["Hs"] / delta(a) - a["Rc"] * (0.06 * a["Rc"] / x - 0.23)) / 1.36


def s_kbR(a, x):
    d = dn50(a)
    return (a["Hs"] / delta(a) - 1.36 * d) / (0.06 * x / d - 0.23)


def s_ju(a, x):
    g = a.get("g", 9.81)
    k = (1 / a["cot_alpha"]) / math.sqrt(2 * pi * x / (9.81 * a["Tmm10"] ** 2))
    n = float(np.round(num(call(RA + "jumelet2024.calculate_fraction_plunging_waves_Fp", ksi_mm10=k)) * a["N_waves"]))
    if n <= 0:
        raise NoStep()
    return (a.get("c_pl", 4.3) * a["S"] ** 0.2 * n ** -0.1 * a["cot_alpha"] * math.sqrt(2 * pi / g) / a["Tmm10"] * delta(a) * dn50(a)) ** 2


def s_es(a, x):
    g = a.get("g", 9.81)
    c = {k: a.get(k, d) for k, d in (("c1", 1.2), ("c2", 11.2), ("c3", 1.75), ("c4", 1 / 6), ("c5", 0.4), ("c6", -0.1), ("c7", 3.7))}
    s = 2 * pi * x / (g * a["Tmm10"] ** 2)
    return (a["rho_rock"] / a.get("rho_water", 1025.0) - 1) * a["Dn50"] * (
        c["c1"] + c["c2"] * (a["ht"] / a["h"]) ** c["c3"] * s ** c["c4"] * a["Nod"] ** c["c5"] * (a["Bt"] / x) ** c["c6"] * (1 - c["c7"] * a["m"]))


def s_z2p(m):
    def step(a, x):
        t = U + "taw2002."
        kw = {k: a[k] for k in ("c1", "c2", "c3", "c4", "use_best_fit") if k in a}
        L = num(call(U + m + "calculate_berm_length", Hm0=a["Hm0"], cot_alpha_down=a["cot_alpha_down"], cot_alpha_up=a["cot_alpha_up"], B_berm=a["B_berm"])) \
            if (U + m + "calculate_berm_length") in target.SIGS else \
            num(call(t + "calculate_berm_length", Hm0=a["Hm0"], cot_alpha_down=a["cot_alpha_down"], cot_alpha_up=a["cot_alpha_up"], B_berm=a["B_berm"]))
        gb = num(call(t + "calculate_influence_berm_gamma_b", Hm0=a["Hm0"], z2p=x, db=a["db"], B_berm=a["B_berm"], L_berm=L))
        cot = num(call(t + "determine_average_slope", Hm0=a["Hm0"], z2p=x, cot_alpha_down=a["cot_alpha_down"], cot_alpha_up=a["cot_alpha_up"],
                       B_berm=a["B_berm"], db=a["db"]))
        if not cot > 0:
            raise NoStep()
        return num(call(U + m + "calculate_wave_runup_height_z2p", Hm0=a["Hm0"], Tmm10=a["Tmm10"], cot_alpha=cot, gamma_b=gb, gamma_f=a["gamma_f"],
                        gamma_beta=a["gamma_beta"], **kw)[0])
    return step


def s_vg25(a, x):
    p = O + "vangent2025."
    b = {k: v for k, v in a.items() if k not in ("gamma_v", "tolerance", "max_iter", "return_dict")}
    gv = num(call(p + "calculate_influence_crest_wall_gamma_v", cot_alpha=a["cot_alpha"], Rc=x * a["Hm0"], Ac=a["Ac"]))
    if a.get("include_influence_wind") or a.get("gamma_v", nan) == a.get("gamma_v", nan):
        raise NoStep()
    return num(call(p + "calculate_dimensionless_crest_freeboard", gamma_v=gv, **b)[0])


SOLVERS = {
    RA + "kramerburcharth2004_lowcrested.calculate_nominal_rock_diameter_Dn50": (s_kbD, 1e-5, "Ns_init"),
    RA + "kramerburcharth2004_lowcrested.calculate_crest_freeboard_Rc": (s_kbR, 1e-5, "Rc_Dn50_init"),
    RA + "jumelet2024.calculate_significant_wave_height_Hs": (s_ju, 1e-3, "smm10_init"),
    TB + "etemadshahidi2021.calculate_significant_wave_height_Hs": (s_es, 1e-3, "smm10_init"),
    U + "taw2002.iteration_procedure_z2p": (s_z2p("taw2002."), 1e-4, None),
    U + "eurotop2018.iteration_procedure_z2p": (s_z2p("eurotop2018."), 1e-4, None),
    O + "vangent2025.calculate_dimensionless_crest_freeboard": (s_vg25, 1e-5, None),
}
TUNED = {       # functions with a tolerance (and a start value) of their own
    RA + "kramerburcharth2004_lowcrested.calculate_nominal_rock_diameter_Dn50": ("max_iter", "Ns_init"),
    RA + "kramerburcharth2004_lowcrested.calculate_crest_freeboard_Rc": ("max_iter", "Rc_Dn50_init"),
    RA + "jumelet2024.calculate_significant_wave_height_Hs": ("max_iter", "smm10_init"),
    RA + "etemadshahidi2020.calculate_nominal_rock_diameter_Dn50": ("max_iter", "Cp_init"),
    TB + "etemadshahidi2021.calculate_significant_wave_height_Hs": ("max_iter", "smm10_init"),
    U + "taw2002.iteration_procedure_z2p": ("max_iter", None),
    U + "eurotop2018.iteration_procedure_z2p": ("max_iter", None),
    O + "vangent2025.calculate_dimensionless_crest_freeboard": ("max_iter", None),
    O + "vangent2025.calculate_crest_freeboard_Rc": ("max_iter", None),
    RR + "vangent2007.calculate_maximum_significant_wave_height_Hs": ("max_iterations", None),
    RR + "vangentpozueta2004.calculate_maximum_significant_wave_height_Hs": ("max_iterations", None),
}
REAR = [p for p in TUNED if p.startswith(RR)]
START = {"Ns_init": (0.7, 6.0), "Cp_init": (0.2, 1.2), "smm10_init": (0.002, 0.12), "Rc_Dn50_init": (-3.0, 1.5)}
MAXREACHED = "Maximum number of iterations reached"
CPU = 20.0


class Iterates(Prop):
    id = "C23"
    rule = ("residual, start, tolerance: the iteration converged, on an input for which the published equation contracts; report: the iteration needed "
            "more steps than allowed, or clearly fewer; ends: the input contains an undefined, zero, negative or infinite value or an unreachable tolerance")
    quick, thorough = 150000, 3000000

    def units(self):
        out = {}
        for p in SOLVERS:
            out["residual:" + p] = 3.0
        for p, (_, init) in TUNED.items():
            if init:
                out["start:" + p] = 2.0
            if "tolerance" in {n for n, _, _ in target.SIGS[p]}:
                out["tolerance:" + p] = 2.0
            out["stops:" + p] = 1.0
        for p in REAR:
            out["report:" + p] = 1.5
        for p in REF:
            if p in target.SIGS:
                out["ends:" + p] = 0.25 if p != HACC else 0.02
        return out

    def modules_of(self, unit):
        return [unit.split(":", 1)[1].rsplit(".", 1)[0]]

    def chunk(self, unit):
        return 30 if "takahashi" in unit else 500

    # ---- generation -------------------------------------------------------------------------------
    def gen(self, r, unit):
        kind, path = unit.split(":", 1)
        a = gen.generate(r, path)
        names = {n for n, _, _ in target.SIGS[path]}
        a.pop("return_dict", None)
        for n in ("tolerance", "max_iter", "max_iterations"):
            a.pop(n, None)
        c = {"kind": kind, "path": path, "args": a}
        if kind == "ends":
            ks = [k for k in a if isinstance(a[k], (int, float)) and not isinstance(a[k], bool) and k not in gen.BOOLS]
            if not ks:
                return None
            if path == HACC:
                a["Hs"] = gen.u(r, 0.5, 4.0)
                a["Tp"] = a["Hs"] ** 0.5 * gen.u(r, 4, 7)
                a["Dn50"] = a["Hs"] * gen.lu(r, 0.02, 5)
                a["Bt"] = a["Hs"] * gen.u(r, 0.5, 4)
                a.pop("g", None)
            c["args"] = a = {k: v for k, v in a.items()}
            for k in r.sample(ks, min(len(ks), r.choice([1, 1, 1, 2, 3]))):
                a[k] = r.choice(["nan", "nan", "zero", "neg", "inf", "-inf"])
        elif kind == "stops":
            if "tolerance" in names:
                a["tolerance"] = r.choice([0.0, -1.0, 1e-300])
            a[TUNED[path][0]] = r.choice([1, 2, 3, 7, 20, 100, 300])
        elif kind in ("residual", "tolerance"):
            if "tolerance" in names:
                a["tolerance"] = 10.0 ** -r.choice([2, 3, 4, 5, 6, 7, 8])
            if path.startswith(O + "vangent2025") and r.random() < 0.8:
                a.pop("gamma_v", None)
                a.pop("include_influence_wind", None)
                a["Ac"] = gen.u(r, 0.3, 1.0) * a.get("Hm0", 1.0)
            if path.startswith(RA + "jumelet") or path.startswith(RA + "kramer"):
                a.pop("g", None)
            t = arrays.table().get(path)
            if kind == "residual" and t and r.random() < 0.35:
                b = gen.generate(r, path)
                ks = [k for k in t if k in a and k in b and k not in ("tolerance", "max_iter") and isinstance(a[k], float) and isinstance(b[k], float)]
                if ks:
                    ks = r.sample(ks, r.randint(1, len(ks)))
                    c["more"] = {k: b[k] for k in ks}       # a second element of an array call
                    c["first"] = r.random() < 0.5
        elif kind == "start":
            lo, hi = START[TUNED[path][1]]
            c["inits"] = [gen.u(r, lo, hi), gen.u(r, lo, hi)]
            a.pop(TUNED[path][1], None)
        elif kind == "report":
            a["tolerance"] = r.choice([1e-10, 1e-6, 1e-4])
            a["max_iterations"] = r.choice([1, 2, 3, 10000])
        return c

    @staticmethod
    def real(a):
        w = {"nan": nan, "zero": 0.0, "neg": -1.0, "inf": inf, "-inf": -inf}
        return {k: (w[v] if isinstance(v, str) and v in w else v) for k, v in a.items()}

    # ---- checks -----------------------------------------------------------------------------------
    def check(self, case):
        return getattr(self, "c_" + case["kind"])(case)

    @staticmethod
    def slow(kind, val):
        return kind == "err" and isinstance(val, TimeoutError)

    def c_ends(self, case):
        a = self.real(case["args"])
        k, v, _ = target.call(case["path"], a)
        if self.slow(k, v):
            return V("fail", "does not end: %s" % v)
        return V("ok", key="ends")

    def c_stops(self, case):
        k, v, _ = target.call(case["path"], case["args"])
        if self.slow(k, v):
            return V("fail", "does not stop after the allowed number of iterations: %s" % v)
        if k != "ok":
            return V("discard")
        # the value of the iteration after exactly that many steps
        path, a, it = case["path"], case["args"], TUNED[case["path"]][0]
        m, x, refs = a[it], compare.flat(v)[0], []
        if m > 20 or not isinstance(x, float) or not math.isfinite(x):
            return V("trivial", key="stops")
        for q in (m, m + 1):
            rk, rv, c = compare.ref_run(path, dict(a, **{it: q}))
            z = compare.flat(rv)[0] if rk == "ok" else None
            if not isinstance(z, float) or not math.isfinite(z) or c.near:
                return V("discard")
            refs.append(z)
        for e in (1e-12, -1e-12):       # an iterate that runs away magnifies rounding
            rk, rv, _ = compare.ref_run(path, {p: (u * (1 + e) if isinstance(u, float) and p != "tolerance" else u) for p, u in a.items()})
            if rk != "ok" or not compare.close(compare.flat(rv)[0], refs[0], 1e-8):
                return V("discard")
        if not compare.close(x, refs[0], 1e-7, 1e-12):
            return V("fail", "with at most %d iterations the result is %r, the published iteration is then at %r" % (m, x, refs[0]))
        return V("trivial" if compare.close(refs[0], refs[1], 1e-6) else "ok", key="stops")

    def c_residual(self, case):
        path, a = case["path"], case["args"]
        step, tol, _ = SOLVERS[path]
        tol = a.get("tolerance", tol)
        rk, rv, c = compare.ref_run(path, a)
        if rk != "ok":
            return V("discard")
        more = case.get("more")
        if more and not all(k in a and a[k] == a[k] for k in more):
            return V("discard")
        b = a
        if more:
            if compare.ref_run(path, dict(a, **more))[0] != "ok":
                return V("discard")
            b = dict(a, **{k: np.array([a[k], y] if case["first"] else [y, a[k]]) for k, y in more.items()})
        k, v, _ = target.call(path, b)
        if self.slow(k, v):
            return V("fail", "does not end: %s" % v)
        if k != "ok":
            return V("discard")
        if more:
            v = v[0] if isinstance(v, tuple) else v
            if np.size(v) != 2:
                return V("discard")
            v = float(np.ravel(v)[0 if case["first"] else 1])
        x = compare.flat(v)[0]
        if not isinstance(x, float) or not math.isfinite(x):
            return V("discard")
        try:
            xs = [x]
            for _ in range(40):
                xs.append(num(step(a, xs[-1])))
                if abs(xs[-1] - xs[-2]) <= 1e-14 * abs(xs[-1]):
                    break
        except (NoStep, ArithmeticError, ValueError, KeyError, TypeError):
            return V("discard")
        d = [abs(q - p) for p, q in zip(xs, xs[1:])]
        noise = 1e-9 * abs(x)
        if d[-1] > max(1e-3 * tol, noise) or max(d) > d[0] + noise:
            return V("discard")             # the equation does not contract here
        if d[0] > 1.05 * tol + noise:
            # the stop may fall exactly on the tolerance, or the step function has a kink within the last step
            if d[0] > 3 * tol + noise:
                return V("fail", "result %r does not solve its equation to the tolerance %g: one further iteration gives %r" % (x, tol, xs[1]))
            return V("discard")
        return V("ok", key="residual (in an array)" if more else "residual")

    def c_start(self, case):
        path, a = case["path"], case["args"]
        init = TUNED[path][1]
        A, B = dict(a, **{init: case["inits"][0]}), dict(a, **{init: case["inits"][1]})
        refs = []
        for q in (A, B):
            for sc in (1e-6, 1.0):
                k, v, c = compare.ref_run(path, q, scale=sc)
                if k != "ok" or c.facts.get("iterations", 0) >= 290:
                    return V("discard")
                refs.append(compare.flat(v)[0])
        if not all(isinstance(z, float) and math.isfinite(z) for z in refs) or not compare.close(refs[0], refs[2], 1e-5):
            return V("discard")             # more than one solution
        k1, v1, _ = target.call(path, A)
        k2, v2, _ = target.call(path, B)
        if self.slow(k1, v1) or self.slow(k2, v2):
            return V("fail", "does not end")
        if k1 != "ok" or k2 != "ok":
            return V("fail", "one start value gives %s, another %s" % (compare.outcome_text(k1, v1), compare.outcome_text(k2, v2)))
        x1, x2 = compare.flat(v1)[0], compare.flat(v2)[0]
        allow = 6 * (abs(refs[1] - refs[0]) + abs(refs[3] - refs[2])) + 2e-3 * abs(refs[0]) + 4e-3
        if not abs(x1 - x2) <= allow:
            return V("fail", "the result depends on the start value %s: %r and %r" % (init, x1, x2))
        return V("ok", key="start")

    def c_tolerance(self, case):
        path, a = case["path"], case["args"]
        t = a["tolerance"]
        k, rv, c = compare.ref_run(path, a)
        T = dict(a, tolerance=t * 1e-4)
        k2, rt, c2 = compare.ref_run(path, T)
        if k != "ok" or k2 != "ok" or not c.facts.get("iterative"):
            return V("discard")
        r0, r1 = compare.flat(rv)[0], compare.flat(rt)[0]
        k1, v1, _ = target.call(path, a)
        k2, v2, _ = target.call(path, T)
        if self.slow(k1, v1) or self.slow(k2, v2):
            return V("fail", "does not end")
        if k1 != "ok" or k2 != "ok":
            return V("discard")
        x0, x1 = compare.flat(v1)[0], compare.flat(v2)[0]
        if not all(isinstance(z, float) and math.isfinite(z) for z in (r0, r1, x0, x1)):
            return V("discard")
        for i, z in ((0, a), (1, T)):
            w = compare.allowance(path, z)
            if w is None:
                return V("discard")
        # contraction of the published equation, measured on the reference
        k3, rl, _ = compare.ref_run(path, a, scale=10.0)
        span = max(abs(r0 - r1), abs(compare.flat(rl)[0] - r1) if k3 == "ok" else 0.0)
        allow = 4 * span + 2 * t + 1e-9 * abs(x1)
        if abs(x0 - x1) > allow:
            return V("fail", "with tolerance %g the result %r is %g from the solution %r" % (t, x0, abs(x0 - x1), x1))
        # the tight solution is the tight solution
        if abs(x1 - r1) > 2e-2 * t + 4 * abs(r0 - r1) * 1e-2 + 1e-7 * abs(r1) + w[0]:
            if abs(r0 - r1) < 10 * t:
                return V("fail", "with tolerance %g the result is %r, the equation's solution is %r" % (T["tolerance"], x1, r1))
            return V("discard")
        return V("ok", key="tolerance")

    def c_report(self, case):
        path, a = case["path"], case["args"]
        big = dict(a, max_iterations=10000)
        k, rv, c = compare.ref_run(path, big)
        if k != "ok" or c.near:
            return V("discard")
        n = c.facts.get("n", 0)
        if a["tolerance"] < 1e-9 * abs(compare.flat(rv)[0]):
            return V("discard")             # rounding may keep the iteration from settling
        k1, v1, ws = target.call(path, a)
        if self.slow(k1, v1):
            return V("fail", "does not end")
        if k1 != "ok":
            return V("discard")
        said = any(MAXREACHED in m for _, m in ws)
        m = a["max_iterations"]
        if n > m + 1 and not said:
            return V("fail", "stopped after %d iterations without saying that it has not converged (%d are needed)" % (m, n))
        if n < m - 1 and said:
            return V("fail", "says it has not converged within %d iterations, but %d are enough" % (m, n))
        return V("ok" if abs(n - m) > 1 else "trivial", key="report")

    def shrinks(self, case):
        path = case["path"]
        req = {n for n, q, _ in target.SIGS[path] if q}
        if case.get("more"):
            yield {k: v for k, v in case.items() if k not in ("more", "first")}
        for b in shrink_args(case["args"], req):
            yield dict(case, args=b)


prop = Iterates()
