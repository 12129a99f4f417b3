"""C20: results stay physically possible: real and finite, inside their physical limits, and ordered among related calculations."""
import json
import math
import os

import numpy as np

from vp import aim, arrays, compare, gen, target
from vp.prop import Prop, V, shrink_args
from vp.valueprop import SLOW

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
O = "hydraulic.wave_overtopping."
U = "hydraulic.wave_runup."
T = "hydraulic.wave_transmission."
R = "structural.stability_rock_armour."
K = "structural.stability_concrete_armour."
W = "structural.forces_crestwall.vangentvanderwerf2019."
GAM = ("gamma_f", "gamma_b", "gamma_v", "gamma_beta", "gamma_star", "gamma", "gamma_p", "gamma_f_Crest")


def keep(path, a):
    names = {n for n, _, _ in target.SIGS[path]}
    return {k: v for k, v in a.items() if k in names}


def swap(path, **kw):
    """same function, some arguments replaced"""
    return lambda a: (path, dict(a, **kw))


def other(path, **kw):
    return lambda a: (path, keep(path, dict(a, **kw)))


def capped(path, mx, c3=None, eq=None):
    """the result of path against the maximum equation mx with the same factors (all factors given, no berm)"""
    return path, mx


#: name -> (path of the smaller one, builder of its arguments, path of the larger one, builder, condition on the arguments)
ORD = {}


def order(name, base, small, large, cond=None, leaf=0):
    ORD[name] = (base, small, large, cond, leaf)


def same(a):
    return None


for _m in ("calculate_overtopping_discharge_q", "calculate_dimensionless_overtopping_discharge_q"):
    p = O + "vangent2025." + _m
    order("design not below mean " + p, p, swap(p, design_calculation=False), swap(p, design_calculation=True))
    order("wind not below no wind " + p, p, swap(p, include_influence_wind=False), swap(p, include_influence_wind=True),
          lambda a: a["Rc"] >= a["Ac"])
    order("swell not below no swell " + p, p, swap(p, Hm0_swell=0.0), lambda a, p=p: (p, a))
    p = O + "vangent2021_caisson." + _m
    order("swell not below none " + p, p, swap(p, crossing_seas=True, Hm0_swell=0.0), lambda a, p=p: (p, dict(a, crossing_seas=True)),
          lambda a: "Hm0_swell" in a and a["Rc"] >= a["Hm0_swell"])
    order("parapet not above none " + p, p, swap(p, parapet=True, short_crested_waves=True), swap(p, parapet=False, short_crested_waves=True),
          lambda a: a["Rc"] > 0)
    for _f in ("taw2002.", "eurotop2018."):
        p = O + _f + _m
        order("best fit not above design " + p, p, swap(p, use_best_fit=True, sigma=0) if _f == "taw2002." else
              (lambda a, p=p: (p, dict({k: v for k, v in a.items() if k not in ("c1", "c2", "c3", "c4")}, use_best_fit=True))),
              swap(p, use_best_fit=False) if _f == "taw2002." else
              (lambda a, p=p: (p, dict({k: v for k, v in a.items() if k not in ("c1", "c2", "c3", "c4")}, use_best_fit=False))),
              lambda a: a["Rc"] > 0)
        order("berm not above no berm " + p, p, lambda a, p=p: (p, a), swap(p, B_berm=0.0),
              lambda a: a.get("B_berm", 0) > 0 and "gamma_b" not in a and "cot_alpha" in a and a["Rc"] > 0)
        order("rough not above smooth " + p, p, lambda a, p=p: (p, a), swap(p, gamma_f=1.0), lambda a: a.get("gamma_f", 1) <= 1 and a["Rc"] > 0)
        order("oblique not above perpendicular " + p, p, lambda a, p=p: (p, a),
              lambda a, p=p: (p, dict({k: v for k, v in a.items() if k != "gamma_beta"}, beta=0.0)), lambda a: a["Rc"] > 0)
        order("emerged not above crest at water level " + p, p, lambda a, p=p: (p, a), swap(p, Rc=0.0), lambda a: a["Rc"] > 0)
for _f in ("taw2002.", "eurotop2018."):
    for _m in ("calculate_wave_runup_height_z2p", "calculate_dimensionless_wave_runup_height_z2p"):
        p = U + _f + _m
        order("berm runup not above no berm " + p, p, lambda a, p=p: (p, a), swap(p, B_berm=0.0),
              lambda a: a.get("B_berm", 0) > 0 and "gamma_b" not in a and "cot_alpha" in a)
        order("rough runup not above smooth " + p, p, lambda a, p=p: (p, a), swap(p, gamma_f=1.0), lambda a: a.get("gamma_f", 1) <= 1)
        order("oblique runup not above perpendicular " + p, p, lambda a, p=p: (p, a),
              lambda a, p=p: (p, dict({k: v for k, v in a.items() if k != "gamma_beta"}, beta=0.0)))
p = U + "vangent2001.calculate_wave_runup_height_"
for _s, _l in (("z2p", "z1p"), ("z10p", "z2p"), ("z10p", "z1p")):
    order("%s not above %s" % (_s, _l), p + "z1p", other(p + _s), other(p + _l), lambda a: "c0" not in a and "c1" not in a)
order("permeable Kt not above impermeable", T + "dangremond1996.calculate_wave_transmission_Kt_permeable",
      lambda a: (T + "dangremond1996.calculate_wave_transmission_Kt_permeable", {k: v for k, v in a.items() if k != "C1"}),
      lambda a: (T + "dangremond1996.calculate_wave_transmission_Kt_impermeable",
                 {k: v for k, v in a.items() if k not in ("C1", "do_validity_check")}))
for _w, _x in (("FH2p", "H"), ("FV2p", "V")):
    order("oblique %s not above perpendicular" % _w, W + "calculate_%s_oblique" % _w, lambda a, w=_w: (W + "calculate_%s_oblique" % w, a),
          other(W + "calculate_%s_perpendicular" % _w))
order("FH2% not above FH0.1%", W + "calculate_FH01p_perpendicular", lambda a: ("arg", a["FH2p"]), lambda a: (W + "calculate_FH01p_perpendicular", a))
order("FV2% not above FV0.1%", W + "calculate_FV01p_perpendicular", lambda a: ("arg", a["FV2p"]), lambda a: (W + "calculate_FV01p_perpendicular", a),
      lambda a: a["s0p"] < 0.058)
p = K + "cubes_single_layer_vangent2002.calculate_"
order("Hs start of damage not above failure", p + "significant_wave_height_Hs_failure",
      lambda a: (K + "cubes_single_layer_vangent2002.calculate_significant_wave_height_Hs_start_of_damage", {k: v for k, v in a.items() if k != "Ns"}),
      lambda a: (K + "cubes_single_layer_vangent2002.calculate_significant_wave_height_Hs_failure", {k: v for k, v in a.items() if k != "Ns"}))
order("mass failure not above start of damage", p + "unit_mass_M_failure",
      lambda a: (K + "cubes_single_layer_vangent2002.calculate_unit_mass_M_failure", {k: v for k, v in a.items() if k != "Ns"}),
      lambda a: (K + "cubes_single_layer_vangent2002.calculate_unit_mass_M_start_of_damage", {k: v for k, v in a.items() if k != "Ns"}))
order("damage mass not above no-damage mass", R + "hudson1959.calculate_median_rock_mass_M50",
      lambda a: (R + "hudson1959.calculate_median_rock_mass_M50", a), other(R + "hudson1959.calculate_median_rock_mass_M50_no_damage"))
order("no-damage Hs not above damage Hs", R + "hudson1959.calculate_significant_wave_height_Hs",
      other(R + "hudson1959.calculate_significant_wave_height_Hs_no_damage"), lambda a: (R + "hudson1959.calculate_significant_wave_height_Hs", a))
for _k in ("accropode", "accropode2", "core_loc"):
    p = K + _k + "_hudson1959.calculate_KD_"
    order("breaking KD not above nonbreaking " + _k, p + "breaking_trunk_from_seabed_slope", lambda a, p=p: (p + "breaking_trunk_from_seabed_slope", a),
          lambda a, p=p: (p + "nonbreaking_trunk_from_seabed_slope", {}))
for _k in ("xbloc", "xblocplus"):
    p = K + _k + ".switch_correctionfactor_unit_mass_M_by_core_permeability"
    order("low permeability not above impermeable " + _k, p, swap(p, low_core_permeability=True, core_impermeable=False),
          swap(p, low_core_permeability=True, core_impermeable=True))
p = U + "taw2002.calculate_adjusted_influence_roughness_gamma_f"
order("roughness factor not above adjusted", p, lambda a: ("arg", a["gamma_f"]), lambda a: (U + "taw2002.calculate_adjusted_influence_roughness_gamma_f", a),
      lambda a: a["gamma_f"] <= 1)
# result of the capped calculation against its maximum equation (all influence factors given, short surf similarity: factors unadjusted)
for _m in ("calculate_dimensionless_overtopping_discharge_q", "calculate_dimensionless_overtopping_discharge_q_rubble_mound"):
    p = O + "eurotop2018." + _m

    def _big(a):
        return O + "eurotop2018.q_diml_max_equation", {k: v for k, v in dict(gamma_f=1.0, gamma_star=1.0, **{
            k: v for k, v in a.items() if k in ("Hm0", "Rc", "gamma_beta")}).items()}
    order("discharge not above the smooth maximum " + p, p, lambda a, p=p: (p, {k: v for k, v in a.items() if k not in ("c1", "c2", "c3", "c4", "use_best_fit")}),
          _big, lambda a: "gamma_beta" in a and a["Rc"] > 0 and all(0 < a.get(g, 1) <= 1 for g in GAM))
p = O + "taw2002.calculate_dimensionless_overtopping_discharge_q"
order("discharge not above the smooth maximum " + p, p, lambda a, p=p: (p, dict(a, use_best_fit=False)),
      lambda a: (O + "taw2002.q_diml_max_equation", dict(Hm0=a["Hm0"], Rc=a["Rc"], gamma_beta=a["gamma_beta"], gamma_f=1.0, c3=2.3)),
      lambda a: "gamma_beta" in a and a["Rc"] > 0 and all(0 < a.get(g, 1) <= 1 for g in GAM))


def sane(a):
    """influence factors are fractions, dimensions are plausible"""
    return all(0 < a[g] <= 1.2 for g in GAM if g in a and isinstance(a[g], (int, float)))


def evaluate(which, path, a):
    if path == "arg":
        return "ok", [float(a)], None
    if which == "ref":
        k, v, c = compare.ref_run(path, a)
        return (k, compare.flat(v), c) if k == "ok" and not c.near else ("no", None, None)
    k, v, _ = target.call(path, a)
    return (k, compare.flat(v), None) if k == "ok" else (k, v, None)


def kindless(x):
    """problem with the type of a numeric result, or None"""
    if isinstance(x, dict):
        for v in x.values():
            m = kindless(v)
            if m:
                return m
        return None
    if isinstance(x, (tuple, list)):
        for v in x:
            m = kindless(v)
            if m:
                return m
        return None
    if isinstance(x, np.ndarray):
        return None if x.dtype.kind in "fib" else "an array of dtype %s" % x.dtype
    if x is None or isinstance(x, (bool, np.bool_, int, float, np.integer, np.floating, str)):
        return None
    return "a %s" % type(x).__name__


class Physical(Prop):
    id = "C20"
    rule = ("bound cases: the published formula gives a finite number inside the limit; order cases: both calculations gave finite numbers and the "
            "formulas have the stated order; strictly different values or a value off the limit are not required")
    quick, thorough = 260000, 5000000

    @staticmethod
    def undefined(path, a):
        k, v, _ = compare.ref_run(path, a)
        return k != "ok" or compare.has_nonfinite(v)
    table = {}

    def setup(self):
        with open(os.path.join(HERE, "bounds.json")) as fh:
            self.table = json.load(fh)
        self.paths = [p for p in compare.REF if p in target.SIGS and not p.rsplit(".", 1)[1].startswith("check_")]

    def units(self):
        out = {p: SLOW.get(p, 1.0) for p in self.paths}
        out.update({"<" + n: 1.5 for n in ORD})
        return out

    def modules_of(self, unit):
        p = ORD[unit[1:]][0] if unit.startswith("<") else unit
        return [p.rsplit(".", 1)[0]]

    def chunk(self, unit):
        return 10 if unit in SLOW else 2000

    def gen(self, r, unit):
        path = ORD[unit[1:]][0] if unit.startswith("<") else unit
        if not unit.startswith("<") and path in arrays.table() and path not in SLOW and r.random() < 0.12:
            c = arrays.make(r, path, arrays.table()[path])
            if c is None:
                return None
            c["args"].pop("return_dict", None)
            c["path"] = path
            return c
        a = gen.generate(r, path)
        a.pop("return_dict", None)
        for n in ("max_iter", "max_iterations", "tolerance"):
            a.pop(n, None)
        if path.endswith("_hacc"):
            f = gen.lu(r, 0.05, 0.5) / a["Hs"]
            a = {k: (v * f if k in gen.LENGTHS else v * math.sqrt(f) if k in gen.PERIODS else v) for k, v in a.items()}
        if unit.startswith("<berm"):
            for n in ("gamma_b", "cot_alpha_down", "cot_alpha_up"):
                a.pop(n, None)
            a.setdefault("cot_alpha", gen.u(r, 1.0, 7.0))
            if not a.get("B_berm", 0) > 0:
                a["B_berm"] = a["Hm0"] * gen.u(r, 0.05, 5.0)
        if unit.startswith("<"):
            return {"order": unit[1:], "args": a}
        if path not in SLOW and r.random() < 0.2:
            a = aim.aim(r, path, a, lambda k: isinstance(k, int)) or a
        return {"path": path, "args": a}

    def check(self, case):
        if "order" in case:
            return self.check_order(case)
        path = case["path"]
        if case.get("arr"):
            n = arrays.size(case)
            els = [arrays.element(case, i) for i in range(n)]
            k, x, _ = arrays.call_array(path, case)
            if k != "ok":
                return V("discard")
            m = kindless(x)
            if m and "complex" in m and any(self.undefined(path, a) for a in els):
                return V("discard")         # no real result exists
            if m:
                return V("fail", "the result is %s, not a real number" % m)
            from vp.valueprop import element_of
            got = [element_of(x, i, n) for i in range(n)]
        else:
            els = [case["args"]]
            k, x, _ = target.call(path, case["args"])
            if k != "ok":
                return V("discard")
            m = kindless(x)
            if m and "complex" in m and any(self.undefined(path, a) for a in els):
                return V("discard")         # no real result exists
            if m:
                return V("fail", "the result is %s, not a real number" % m)
            got = [x]
        good = 0
        for a, y in zip(els, got):
            k, v, c = compare.ref_run(path, a)
            if k != "ok" or c.near:
                continue
            f, g = compare.flat(v), compare.flat(y)
            if len(f) != len(g):
                continue
            for j, (p, q) in enumerate(zip(f, g)):
                if not isinstance(p, float) or not math.isfinite(p) or abs(p) > 1e200:
                    continue
                b = self.table.get(path, {}).get(str(j))
                if not isinstance(q, float) or not math.isfinite(q):
                    if compare.singular(path, a):
                        continue
                    return V("fail", "the result is %r where the formula has a finite value" % (q,))
                good += 1
                if b is None:
                    continue
                if b == "flag":
                    if q not in (0.0, 1.0):
                        return V("fail", "the flag is %r" % q)
                    continue
                for s, lim in ((1, b[0]), (-1, b[1])):
                    if lim is None or (p - lim) * s < 0:
                        continue
                    if (q - lim) * s < -1e-9 * max(abs(q), abs(lim)):
                        w = compare.allowance(path, a)
                        if w is None or (q - lim) * s > -w[j]:
                            continue
                        return V("fail", "the result %r is %s the physical limit %g" % (q, "below" if s > 0 else "above", lim))
        return V("ok" if good else "trivial", key="bound")

    def check_order(self, case):
        base, small, large, cond, j = ORD[case["order"]]
        a = case["args"]
        try:
            if not sane(a) or (cond and not cond(a)):
                return V("discard")
            (p1, a1), (p2, a2) = small(a), large(a)
        except (KeyError, TypeError):
            return V("discard")
        k1, r1, c1 = evaluate("ref", p1, a1)
        k2, r2, c2 = evaluate("ref", p2, a2)
        if k1 != "ok" or k2 != "ok":
            return V("discard")
        if not all(isinstance(z, float) and math.isfinite(z) for z in (r1[j], r2[j])) or r1[j] > r2[j]:
            return V("discard")
        k1, x1, _ = evaluate("code", p1, a1)
        k2, x2, _ = evaluate("code", p2, a2)
        if k1 != "ok" or k2 != "ok":
            return V("discard")
        y1, y2 = x1[j], x2[j]
        if not all(isinstance(z, float) and math.isfinite(z) for z in (y1, y2)):
            return V("trivial")
        if y1 > y2 + 1e-9 * max(abs(y1), abs(y2)):
            tol = 1e-8 * max(abs(y1), abs(y2))
            for p, x, c in ((p1, a1, c1), (p2, a2, c2)):
                if p == "arg":
                    continue
                w = compare.allowance(p, x)
                if w is None:
                    return V("discard")
                tol += w[j]
                if c.facts.get("iterative"):
                    tol += 2e-3 * max(abs(y1), abs(y2))
            if y1 > y2 + tol:
                return V("fail", "%s: %r is above %r" % (case["order"], y1, y2))
        return V("ok" if r1[j] != r2[j] else "trivial", key="order")

    def shrinks(self, case):
        if "order" in case:
            base = ORD[case["order"]][0]
            for b in shrink_args(case["args"], {n for n, q, _ in target.SIGS[base] if q}):
                yield {"order": case["order"], "args": b}
            return
        yield from super().shrinks(case)


prop = Physical()
