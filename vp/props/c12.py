"""C12: crest freeboard and overtopping discharge are inverse to each other in every overtopping formula."""
import math

from vp import aim, compare, gen, target
from vp.prop import Prop, V
from vp.ref import ctx as X, overtopping as ref_ot

B = "hydraulic.wave_overtopping."
PAIRS = {
    "taw2002": ("taw2002.calculate_overtopping_discharge_q", "taw2002.calculate_crest_freeboard_Rc"),
    "eurotop2018": ("eurotop2018.calculate_overtopping_discharge_q", "eurotop2018.calculate_crest_freeboard_Rc"),
    "eurotop2018_rubble": ("eurotop2018.calculate_overtopping_discharge_q_rubble_mound",
                           "eurotop2018.calculate_crest_freeboard_Rc_rubble_mound"),
    "eurotop2007_rubble": ("eurotop2007.calculate_overtopping_discharge_q_rubble_mound",
                           "eurotop2007.calculate_crest_freeboard_Rc_rubble_mound"),
    "vangent2021": ("vangent2021_caisson.calculate_overtopping_discharge_q", "vangent2021_caisson.calculate_crest_freeboard_Rc"),
    "vangent2025": ("vangent2025.calculate_overtopping_discharge_q", "vangent2025.calculate_crest_freeboard_Rc"),
    "deridder2024_24": ("deridder2024.calculate_overtopping_discharge_q_eq24", "deridder2024.calculate_crest_freeboard_discharge_q_eq24"),
    "deridder2024_26": ("deridder2024.calculate_overtopping_discharge_q_eq26", "deridder2024.calculate_crest_freeboard_discharge_q_eq26"),
    "deridder2026_28": ("deridder2026.calculate_overtopping_discharge_q_eq28", "deridder2026.calculate_crest_freeboard_discharge_q_eq28"),
    "deridder2026_32": ("deridder2026.calculate_overtopping_discharge_q_eq32", "deridder2026.calculate_crest_freeboard_discharge_q_eq32"),
}
#: dimensionless counterparts: q/sqrt(g H^3) from Rc and Rc/H from q
DIML = {
    "taw2002": ("taw2002.calculate_dimensionless_overtopping_discharge_q", "taw2002.calculate_dimensionless_crest_freeboard"),
    "eurotop2018": ("eurotop2018.calculate_dimensionless_overtopping_discharge_q", "eurotop2018.calculate_dimensionless_crest_freeboard"),
    "eurotop2018_rubble": ("eurotop2018.calculate_dimensionless_overtopping_discharge_q_rubble_mound",
                           "eurotop2018.calculate_dimensionless_crest_freeboard_rubble_mound"),
    "eurotop2007_rubble": ("eurotop2007.calculate_dimensionless_overtopping_discharge_q_rubble_mound",
                           "eurotop2007.calculate_dimensionless_crest_freeboard_rubble_mound"),
    "vangent2021": ("vangent2021_caisson.calculate_dimensionless_overtopping_discharge_q",
                    "vangent2021_caisson.calculate_dimensionless_crest_freeboard"),
    "vangent2025": ("vangent2025.calculate_dimensionless_overtopping_discharge_q", "vangent2025.calculate_dimensionless_crest_freeboard"),
    "deridder2024_24": ("deridder2024.calculate_dimensionless_overtopping_discharge_eq24",
                        "deridder2024.calculate_dimensionless_crest_freeboard_discharge_q_eq24"),
}
NOG = {"eurotop2007_rubble", "vangent2025"}      # the freeboard function takes standard gravity only


def first(v):
    return v[0] if isinstance(v, tuple) else v


def val(kind, v):
    if kind != "ok":
        return None
    f = compare.flat(first(v))
    return f[0] if len(f) == 1 and isinstance(f[0], float) else None


class Inverse(Prop):
    id = "C12"
    rule = ("both calls returned finite values with 1e-200 < q, so that the round trip is defined; directions: Rc->q->Rc, q->Rc->q and the "
            "dimensionless variants")
    quick, thorough = 220000, 3000000

    def units(self):
        u = {}
        for k in PAIRS:
            u[k + ":Rc-q-Rc"] = 1.0
            u[k + ":q-Rc-q"] = 1.0
            if k in DIML:
                u[k + ":diml"] = 0.6
        return u

    def modules_of(self, unit):
        k = unit.split(":")[0]
        return [(B + PAIRS[k][0]).rsplit(".", 1)[0]]

    def gen(self, r, unit):
        k, d = unit.split(":")
        path = B + PAIRS[k][0 if d != "q-Rc-q" else 1]
        a = gen.generate(r, path)
        if r.random() < 0.15:
            a = aim.aim(r, path, a, lambda x: isinstance(x, int)) or a
        if k in NOG:
            a.pop("g", None)
        if r.random() < 0.06 and k != "vangent2025":       # a crest at or below the water level, or a discharge that needs one
            if "Rc" in a:
                a["Rc"] = -abs(a["Rc"]) * r.choice([0.0, 0.01, 0.3, 1.0])
            else:
                a["q"] = a["q"] * 10.0 ** r.uniform(0, 6)
        a.pop("max_iter", None)
        a.pop("tolerance", None)
        return {"pair": k, "dir": d, "args": a, "path": path}

    def check(self, case):
        k, d, a = case["pair"], case["dir"], dict(case["args"])
        fq, fr = B + PAIRS[k][0], B + PAIRS[k][1]
        if k in NOG and "g" in a:
            return V("discard")
        H = a.get("Hm0", a.get("Hm0_HF"))
        if not (isinstance(H, (int, float)) and H > 0):
            return V("discard")
        if any(not (a.get(c, 1.0) > 0.02) for c in ("c1", "c2", "c3", "c4")):
            return V("discard")
        if abs(a.get("sigma", 0)) > 3:
            return V("discard")
        if k == "vangent2025" and not self.sane2025(a):
            return V("discard")
        iterative = k == "vangent2025"
        # the freeboard the pair relates; what the formula is not defined for is not required
        ref = compare.ref_run(case["path"], a)
        if ref[0] != "ok":
            return V("discard")
        if d == "q-Rc-q":
            q0 = float(a.pop("q"))
            kr, R, _ = target.call(fr, dict(a, q=q0))
            R = val(kr, R)
            if R is None or not math.isfinite(R):
                return V("discard")
            if R < self.minRc(k, a, H) and not self.submerged(k, a, fq, fr, None, q0):
                return V("discard")
            kq, q, _ = target.call(fq, dict(a, Rc=R))
            q = val(kq, q)
            if q is None:
                return V("fail", "q=%r gives Rc=%r, but that Rc gives no discharge" % (q0, R))
            if q == 0.0 or q0 <= 0:
                return V("discard")
            if q <= 0 or not math.isfinite(q):
                return V("fail", "q=%r gives Rc=%r, which gives q=%r" % (q0, R, q))
            # relative error of q is the error of Rc times the slope of ln q
            tol = 1e-8 * (1 + abs(math.log(q0 / math.sqrt(9.81 * H ** 3)))) * (1 if not iterative else 3e5)
            if abs(math.log(q / q0)) > tol:
                return V("fail", "q=%r gives Rc=%r, which gives q=%r" % (q0, R, q))
            return V("ok", key="q")
        R0 = float(a.pop("Rc"))
        if R0 < self.minRc(k, a, H) and not self.submerged(k, a, fq, fr, R0, None):
            return V("discard")
        kq, q, _ = target.call(fq, dict(a, Rc=R0))
        q = val(kq, q)
        if q is None or not math.isfinite(q) or q < 1e-200:
            return V("discard")
        if d == "diml":
            dq, dr = B + DIML[k][0], B + DIML[k][1]
            g = a.pop("g", 9.81)
            k1, q1, _ = target.call(dq, dict(a, Rc=R0))
            q1 = val(k1, q1)
            if q1 is None or not compare.close(q1 * math.sqrt(g * float(H) ** 3), q, 1e-9):
                return V("fail", "dimensionless discharge %r times sqrt(g H^3) is not the discharge %r" % (q1, q))
            b = dict(a, q=q)
            if k not in NOG:
                b["g"] = g
            k2, r2, _ = target.call(dr, b)
            r2 = val(k2, r2)
            k3, r3, _ = target.call(fr, b)
            r3 = val(k3, r3)
            if r2 is None or r3 is None or not compare.close(r2 * H, r3, 1e-9, 1e-9 * H):
                return V("fail", "dimensionless freeboard %r times H is not the freeboard %r (q=%r)" % (r2, r3, q))
            return V("ok", key="diml")
        if iterative and compare.ref_run(fr, dict(a, q=q))[0] != "ok":
            return V("discard")         # the iteration has no solution to find
        kr, R, _ = target.call(fr, dict(a, q=q))
        R = val(kr, R)
        if R is None or not math.isfinite(R):
            return V("fail", "Rc=%r gives q=%r, which gives Rc=%r" % (R0, q, R))
        tol = (1e-8 if not iterative else 2e-4) * (abs(R0) + H)
        if abs(R - R0) > tol and iterative:         # wind and crest wall factors can make the discharge non-monotone: another solution
            x, y = compare.ref_run(fq, dict(a, Rc=R)), compare.ref_run(fq, dict(a, Rc=R0))
            if x[0] == y[0] == "ok" and compare.close(compare.flat(x[1])[0], compare.flat(y[1])[0], 2e-3):
                return V("discard")
        if abs(R - R0) > tol:
            return V("fail", "Rc=%r gives q=%r, which gives Rc=%r" % (R0, q, R))
        return V("ok", key="Rc")

    def sane2025(self, a):
        """influence factors that mean something (a very wide berm drives the computed factor below zero)"""
        if a.get("cot_alpha", 1.0) > 6 or any(not 0.2 < a.get(n, 1.0) < 1.3 for n in ("gamma_v", "gamma_f", "gamma_b", "gamma_beta")):
            return False
        H, T, Ac = float(a["Hm0"]), float(a["Tmm10"]), float(a["Ac"])
        X.reset(None)
        s = 2 * math.pi * H / (9.81 * T * T)
        if not 2e-4 < s < 0.12:
            return False
        if "gamma_b" not in a:
            try:
                gb = ref_ot.v5_gb(H, s, Ac, float(a.get("B_berm", 0.0)), Ac - float(a.get("db", 0.0)))
            except Exception:       # noqa: BLE001
                return False
            if not 0.2 < gb < 1.3:
                return False
        if "gamma_f" not in a and not 0.02 < a.get("Dn50", 0) / H < 3:
            return False
        return True

    def submerged(self, k, a, fq, fr, R0, q0):
        """below the water level: required only where the published formulas are still each other's inverse"""
        if k == "vangent2025":
            return False
        first, second = (fq, fr) if q0 is None else (fr, fq)
        x = compare.ref_run(first, dict(a, Rc=R0) if q0 is None else dict(a, q=q0))
        if x[0] != "ok":
            return False
        v = compare.flat(x[1])[0]
        if not math.isfinite(v) or (q0 is None and v <= 0):
            return False
        H = float(a.get("Hm0", a.get("Hm0_HF")))
        for e in (0.0, 1e-9, -1e-9):        # not at the very end of the domain, where rounding decides
            y = compare.ref_run(second, dict(a, q=v * (1 + e)) if q0 is None else dict(a, Rc=v + e * H))
            if y[0] != "ok" or not compare.close(compare.flat(y[1])[0], R0 if q0 is None else q0, 1e-6, 1e-6 * H if q0 is None else 0.0):
                return False
        return True

    def minRc(self, k, a, H):
        m = 1e-3 * H            # emerged crest: the domain of the formulas
        if k == "vangent2025":  # the crest wall cannot be lower than the armour crest
            m = max(float(a["Ac"]) if a.get("gamma_v", math.nan) != a.get("gamma_v", math.nan) or a.get("include_influence_wind") else m,
                    0.4 * a["Hm0_swell"] + 0.05 * H, m)
        return m


prop = Inverse()
