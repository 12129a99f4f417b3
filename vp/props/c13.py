"""C13: functions that solve one formula for different quantities are inverse to each other."""
import math

from vp import aim, compare, gen, target
from vp.prop import Prop, V

A, C, RR, T = ("structural.stability_rock_armour.", "structural.stability_concrete_armour.", "structural.stability_rock_rear.",
               "structural.stability_toe_berm.")


def hudson(m):
    return {"Hs": C + m + ".calculate_significant_wave_height_Hs", "M": C + m + ".calculate_unit_mass_M"}


#: formula -> {quantity: function that solves for it}
G = {
    "mass": {"M50": "core_physics.calculate_M50_from_Dn50", "Dn50": "core_physics.calculate_Dn50_from_M50"},
    "damage": {"S": "core_physics.calculate_S_from_Nod", "Nod": "core_physics.calculate_Nod_from_S"},
    "hudson": {"M50": A + "hudson1959.calculate_median_rock_mass_M50", "Hs": A + "hudson1959.calculate_significant_wave_height_Hs"},
    "hudson0": {"M50": A + "hudson1959.calculate_median_rock_mass_M50_no_damage",
                "Hs": A + "hudson1959.calculate_significant_wave_height_Hs_no_damage"},
    "cubes1s": {"M": C + "cubes_single_layer_vangent2002.calculate_unit_mass_M_start_of_damage",
                "Hs": C + "cubes_single_layer_vangent2002.calculate_significant_wave_height_Hs_start_of_damage"},
    "cubes1f": {"M": C + "cubes_single_layer_vangent2002.calculate_unit_mass_M_failure",
                "Hs": C + "cubes_single_layer_vangent2002.calculate_significant_wave_height_Hs_failure"},
    "cubes2vdm": {"Nod": C + "cubes_double_layer_vandermeer1988.calculate_damage_Nod_vanDerMeer1988",
                  "Dn": C + "cubes_double_layer_vandermeer1988.calculate_nominal_diameter_Dn_vanDerMeer1988",
                  "Hs": C + "cubes_double_layer_vandermeer1988.calculate_wave_height_Hs_vanDerMeer1988"},
}
for _m in ("accropode_hudson1959", "accropode2_hudson1959", "core_loc_hudson1959", "cubes_double_layer_hudson1959", "cubipod_hudson1959",
           "tetrapod_hudson1959"):
    G[_m] = hudson(_m)
for _m in ("xbloc", "xblocplus"):
    G[_m + "M"] = {"M": C + _m + ".calculate_unit_mass_M", "Hs": C + _m + ".calculate_wave_height_Hs_from_M"}
    G[_m + "V"] = {"V": C + _m + ".calculate_unit_volume_V", "Hs": C + _m + ".calculate_wave_height_Hs_from_V"}
for _m in ("vandermeer1988", "vandermeer1988_modified", "vandermeer2021", "etemadshahidi2020", "jumelet2024"):
    G[_m] = {"S": A + _m + ".calculate_damage_number_S", "Dn50": A + _m + ".calculate_nominal_rock_diameter_Dn50",
             "Hs": A + _m + ".calculate_significant_wave_height_Hs"}
G["scaravaglione2025"] = {"S": A + "scaravaglione2025.calculate_damage_number_S",
                          "Dn50": A + "scaravaglione2025.calculate_nominal_rock_diameter_Dn50",
                          "Hm0": A + "scaravaglione2025.calculate_significant_wave_height_Hm0"}
_k = A + "kramerburcharth2004_lowcrested."
G["kramer"] = {"Rc": _k + "calculate_crest_freeboard_Rc", "Dn50": _k + "calculate_nominal_rock_diameter_Dn50",
               "Hs": _k + "calculate_significant_wave_height_Hs"}
for _m in ("vangent2007", "vangentpozueta2004"):
    G[_m] = {"S": RR + _m + ".calculate_damage_number_S", "Dn50": RR + _m + ".calculate_nominal_rock_diameter_Dn50",
             "Hs": RR + _m + ".calculate_maximum_significant_wave_height_Hs"}
for _m in ("gerding1993", "vandermeer1998"):
    G[_m] = {"Nod": T + _m + ".calculate_damage_Nod", "ht": T + _m + ".calculate_depth_above_toe_ht",
             "Dn50": T + _m + ".calculate_nominal_diameter_Dn50", "Hs": T + _m + ".calculate_wave_height_Hs"}
G["etemadshahidi2021"] = {"Nod": T + "etemadshahidi2021.calculate_damage_Nod", "Dn50": T + "etemadshahidi2021.calculate_nominal_diameter_Dn50",
                          "Hs": T + "etemadshahidi2021.calculate_significant_wave_height_Hs"}
G["vangentvanderwerf2014"] = {"Nod": T + "vangentvanderwerf2014.calculate_damage_Nod",
                              "Dn50": T + "vangentvanderwerf2014.calculate_nominal_diameter_Dn50"}
G["takahashi"] = {"Dn50": T + "takahashi1990_caisson.calculate_nominal_diameter_Dn50",
                  "hacc": T + "takahashi1990_caisson.calculate_significant_depth_above_toe_hacc",
                  "Hs": T + "takahashi1990_caisson.calculate_significant_wave_height_Hs"}
ITER = {A + "etemadshahidi2020.calculate_nominal_rock_diameter_Dn50", A + "jumelet2024.calculate_significant_wave_height_Hs",
        _k + "calculate_crest_freeboard_Rc", _k + "calculate_nominal_rock_diameter_Dn50", G["vangent2007"]["Hs"],
        G["vangentpozueta2004"]["Hs"], G["etemadshahidi2021"]["Hs"], G["takahashi"]["Hs"], G["takahashi"]["hacc"]}
DROP = {"max_iter", "max_iterations", "tolerance", "smm10_init", "Cp_init", "Ns_init", "Rc_Dn50_init"}
RTOL = 1e-8


def names(p):
    return [n for n, _, _ in target.SIGS[p]]


def one(v):
    f = compare.flat(v)
    return f[0] if len(f) == 1 and isinstance(f[0], float) else None


class Round(Prop):
    id = "C13"
    rule = ("A(args)=a and B(args with a instead of b)=b' were both finite and the formula is invertible there (the reference formula's own "
            "round trip returns b); then b' must be b")
    assumptions = ["published coefficient pairs that are only rounded inverses (Van Gent & Van der Werf 2014, Van Gent 2007 rear side) are allowed "
                   "exactly that rounding"]
    quick, thorough = 220000, 3000000

    def units(self):
        return {"%s:%s-%s" % (g, a, b): (0.08 if g == "takahashi" else 1.0) for g in G for a in G[g] for b in G[g] if a != b}

    def chunk(self, unit):
        return 12 if unit.startswith("takahashi") else 2000

    def modules_of(self, unit):
        g = unit.split(":")[0]
        return [p.rsplit(".", 1)[0] for p in G[g].values()][:1]

    def gen(self, r, unit):
        g, ab = unit.split(":")
        a, b = ab.split("-")
        path = G[g][a]
        args = gen.generate(r, path)
        if r.random() < 0.15:
            args = aim.aim(r, path, args, lambda x: isinstance(x, int)) or args
        for n in DROP:
            args.pop(n, None)
        return {"grp": g, "a": a, "b": b, "path": path, "args": args, "m50": r.random() < 0.4}

    def convert(self, g, a, b, args, aval, m50):
        """arguments of B, and the value B has to return; None when the pair does not share the inputs"""
        x = dict(args)
        pb = names(G[g][b])
        if g in ("vandermeer1988", "vandermeer1988_modified"):
            if b == "Hs":
                x["ratio_H2p_Hs"] = x.pop("H2p") / x["Hs"]
            elif a == "Hs":
                x["H2p"] = x.pop("ratio_H2p_Hs") * aval
        if g == "cubes2vdm":
            hs = aval if a == "Hs" else x["Hs"]
            if "Tm" in x and "Tm" not in pb:
                x["s0m"] = 2 * math.pi * hs / (9.81 * x.pop("Tm") ** 2)
            elif "s0m" in x and "s0m" not in pb:
                x["Tm"] = math.sqrt(2 * math.pi * hs / (9.81 * x.pop("s0m")))
        rho = x.get("rho_armour", x.get("rho_rock", 2650.0))
        if b == "Dn50" and "Dn50" not in x and "M50" in x and g not in ("mass", "hudson", "hudson0"):
            want = (x.pop("M50") / rho) ** (1 / 3.)
        else:
            want = x.pop(b, None)
            if b == "Dn50" and g not in ("mass",):
                x.pop("M50", None)
        x.pop(a, None)
        if a == "Dn50" and m50 and "M50" in pb and "rho_armour" in x:
            x["M50"] = aval ** 3 * rho
        else:
            x[a] = aval
        return x, want

    def trip(self, case, call):
        g, a, b = case["grp"], case["a"], case["b"]
        pa, pb = G[g][a], G[g][b]
        args = dict(case["args"])
        v = call(pa, args)
        if v is None or not math.isfinite(v):
            return None
        x, want = self.convert(g, a, b, args, v, case["m50"])
        if want is None or not set(x) <= set(names(pb)):
            return None
        return v, call(pb, x), float(want)

    def check(self, case):
        g, a, b = case["grp"], case["a"], case["b"]
        pa, pb = G[g][a], G[g][b]
        case = dict(case)
        # only inputs that both functions know
        keep = set(names(pb)) | {a, b, "Dn50", "M50", "H2p", "ratio_H2p_Hs", "Tm", "s0m"}
        case["args"] = {n: v for n, v in case["args"].items() if n in keep}

        def rcall(p, x):
            k, v, _ = compare.ref_run(p, x)
            return one(v) if k == "ok" else None

        def ccall(p, x):
            k, v, _ = target.call(p, x)
            return one(v) if k == "ok" else None
        ref = self.trip(case, rcall)
        if ref is None or ref[1] is None or not math.isfinite(ref[1]) or ref[2] == 0:
            return V("discard")
        if not 1e-6 < abs(ref[0]) < 1e9:
            return V("discard")
        e = abs(ref[1] - ref[2]) / abs(ref[2])
        if e > 0.04:
            return V("discard")     # not invertible here (regime overlap, clipped damage)
        # conditioning of the round trip (of the formula, not of the code): tiny changes must have tiny effects
        K = 0.0
        for d in (1e-7, -1e-7):
            c2 = dict(case, args=dict(case["args"]))
            n = b if b in c2["args"] else "M50" if "M50" in c2["args"] and b == "Dn50" else None
            if n is None:
                break
            c2["args"][n] *= 1 + d
            r2 = self.trip(c2, rcall)
            if r2 is None or r2[1] is None or not abs(r2[0] - ref[0]) <= 3e-5 * abs(ref[0]):
                return V("discard")
            if r2[0] == ref[0]:
                return V("discard")         # b hardly enters: rounding decides what comes back
            else:
                K = max(K, 1e-7 * abs(ref[0]) / abs(r2[0] - ref[0]))
        cod = self.trip(case, ccall)
        if cod is None or cod[1] is None:
            return V("fail", "%s then %s gives no result (%r); expected %s = %r back" % (pa, pb, cod, b, ref[2]))
        tol = max(RTOL, 1.02 * e + RTOL)
        if pa in ITER or pb in ITER:
            if K > 50:
                return V("discard")
            tol = max(tol, 3 * e, 1e-3 + 1e-3 * K)
        elif K > 1e6:
            return V("discard")
        tol += 1e-14 * K
        scale = abs(cod[2]) + (abs(cod[0]) if b == "Rc" else 0.0)
        if not abs(cod[1] - cod[2]) <= tol * scale:
            return V("fail", "%s = %r gives %s = %r, which gives %s = %r" % (b, cod[2], a, cod[0], b, cod[1]))
        return V("ok", key="rounded" if e > 1e-6 else "exact")


prop = Round()
