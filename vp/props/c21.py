"""C21: equivalent ways of giving the same input give the same result."""
import json
import math

import numpy as np

from vp import compare, gen, target
from vp.prop import Prop, V, shrink_args
from vp.valueprop import SLOW

O = "hydraulic.wave_overtopping."
U = "hydraulic.wave_runup."
T = "hydraulic.wave_transmission."
R = "structural.stability_rock_armour."
K = "structural.stability_concrete_armour."
W = "structural.forces_crestwall.vangentvanderwerf2019."
G = "structural.forces_caisson.goda1985."
RHO_OF = {"M50": ("rho_rock", "rho_armour"), "M50_core": ("rho_core",)}
FORMS = ["float64", "zerod", "int", "npint"]


class Stop(Exception):
    pass


class Failed(Exception):
    pass


def code_call(path, a, positional=0):
    k, v, ws = target.call(path, a, positional)
    if k == "err":
        e = Failed("%s raises %s: %s" % (path.rsplit(".", 1)[1], type(v).__name__, v))
        e.error = v
        raise e
    return v


def code(path, a):
    return compare.flat(code_call(path, a))


class RefCall:
    def __init__(self):
        self.used = []

    def __call__(self, path, a):
        k, v, c = compare.ref_run(path, a)
        if k != "ok" or c.near:
            raise Stop()
        self.used.append((path, a, c))
        return compare.flat(v)


def sig(path):
    return {n: d for n, _, d in target.SIGS[path]}


def drop(a, *names):
    return {k: v for k, v in a.items() if k not in names}


def keep(path, a):
    s = sig(path)
    return {k: v for k, v in a.items() if k in s}


#: name -> (path to generate for, left(call, args), right(call, args)) ; both give a list of numbers
EQ = {}


def eq(name, base, left, right):
    EQ[name] = (base, left, right)


def need(cond):
    if not cond:
        raise Stop()


def build():
    for path in compare.REF:
        if path not in target.SIGS or path.rsplit(".", 1)[1].startswith("check_") or path.startswith("core_utility"):
            continue
        s = sig(path)
        mod, fname = path.rsplit(".", 1)

        def plain(call, a, path=path):
            return call(path, a)
        for m, rhos in RHO_OF.items():
            d = "Dn50" + m[3:]
            if d in s and m in s:
                def viamass(call, a, path=path, d=d, m=m, rhos=rhos, s=s):
                    need(d in a and m not in a)
                    rho = [n for n in rhos if n in a]
                    need(rho and a[rho[0]] == a[rho[0]])
                    return call(path, dict(drop(a, d), **{m: a[rho[0]] * a[d] ** 3}))
                eq("mass %s = size %s: %s" % (m, d, path), path, plain, viamass)
        if "beta" in s and "gamma_beta" in s and s["gamma_beta"] != s["gamma_beta"]:
            gp = None
            for cand in (mod + ".calculate_influence_oblique_waves_gamma_beta",):
                if cand in compare.REF:
                    gp = cand
            if mod.endswith("overtopping.eurotop2007"):
                gp = None
            if gp:
                def viagamma(call, a, path=path, gp=gp):
                    need("beta" in a and "gamma_beta" not in a and a["beta"] == a["beta"])
                    k = keep(gp, {x: a[x] for x in ("beta", "gamma_f") if x in a})
                    if "vangent2021" in gp:
                        need(a.get("c", 1.0) in (1.0, 1.3))
                        sc = a.get("short_crested_waves", True) or a.get("crossing_seas", False)
                        par = a.get("parapet", False)
                        need(sc or not par)
                        c13 = a.get("c", 1.0) == 1.3
                        k["gamma_p"] = (0.85 if c13 else 0.89) if par else 1.0
                        k["c_beta"] = (0.7 if c13 else 0.75) if sc else 0.8
                    elif "gamma_f" in sig(gp) and "gamma_f" not in a:
                        k["gamma_f"] = 1.0
                    g = call(gp, k)[0]
                    return call(path, dict(drop(a, "beta"), gamma_beta=g))
                eq("angle = influence factor: " + path, path, plain, viagamma)
            if "vangent2021" not in path:
                def mirrored(call, a, path=path):
                    need("beta" in a and a["beta"] == a["beta"] and a["beta"] != 0)
                    return call(path, dict(a, beta=-a["beta"]))
                eq("angle sign: " + path, path, plain, mirrored)
        if "theta" in s:
            def mirrored_t(call, a, path=path):
                need("theta" in a and a["theta"] != 0)
                return call(path, dict(a, theta=-a["theta"]))
            eq("angle sign: " + path, path, plain, mirrored_t)
        if "cot_alpha_down" in s and "cot_alpha" in s and s["cot_alpha"] != s["cot_alpha"] and fname.startswith("calculate_") and "berm_length" not in fname:
            def composite(call, a, path=path):
                need("cot_alpha" in a and "cot_alpha_down" not in a and "cot_alpha_up" not in a)
                return call(path, dict(drop(a, "cot_alpha"), cot_alpha_down=a["cot_alpha"], cot_alpha_up=a["cot_alpha"]))
            eq("single slope = two equal slopes: " + path, path, plain, composite)
        if "B_berm" in s and "db" in s and fname.startswith("calculate_") and "vangent2025" not in mod:
            def noberm(call, a, path=path):
                need(a.get("B_berm", 0.0) == 0 or True)
                return call(path, dict(a, B_berm=0.0, db=0.0))

            def noberm2(call, a, path=path):
                return call(path, dict(a, B_berm=0.0))
            eq("no berm: berm depth irrelevant: " + path, path, noberm, noberm2)
    # dimensionless result times its scale
    pairs = []
    for m in ("taw2002", "eurotop2018", "vangent2021_caisson", "vangent2025"):
        pairs += [(O + m + ".calculate_overtopping_discharge_q", O + m + ".calculate_dimensionless_overtopping_discharge_q", "q"),
                  (O + m + ".calculate_crest_freeboard_Rc", O + m + ".calculate_dimensionless_crest_freeboard", "H")]
    for m in ("eurotop2018", "eurotop2007"):
        pairs += [(O + m + ".calculate_overtopping_discharge_q_rubble_mound", O + m + ".calculate_dimensionless_overtopping_discharge_q_rubble_mound", "q"),
                  (O + m + ".calculate_crest_freeboard_Rc_rubble_mound", O + m + ".calculate_dimensionless_crest_freeboard_rubble_mound", "H")]
    pairs += [(O + "deridder2024.calculate_overtopping_discharge_q_eq" + e, O + "deridder2024.calculate_dimensionless_overtopping_discharge_eq" + e, "q")
              for e in ("24", "26")]
    pairs += [(O + "deridder2026.calculate_overtopping_discharge_q_eq28", O + "deridder2026.calculate_dimensionless_overtopping_discharge_eq28", "q"),
              (O + "deridder2026.calculate_overtopping_discharge_q_eq32", O + "deridder2026.calculate_dimensionless_overtopping_discharge_eq32", "qHF"),
              (O + "deridder2024.calculate_crest_freeboard_discharge_q_eq24", O + "deridder2024.calculate_dimensionless_crest_freeboard_discharge_q_eq24", "H")]
    for m in ("taw2002", "eurotop2018"):
        pairs.append((U + m + ".calculate_wave_runup_height_z2p", U + m + ".calculate_dimensionless_wave_runup_height_z2p", "H"))
    for x in ("impermeable", "permeable"):
        pairs.append((T + "vangent2024_setup.calculate_structure_induced_setup_delta_" + x,
                      T + "vangent2024_setup.calculate_dimensionless_structure_induced_setup_" + x, "H"))
    for dim, dl, kind in pairs:
        def scaled(call, a, dl=dl, kind=kind):
            z = call(dl, keep(dl, a))
            h = a["Hm0_HF"] if kind == "qHF" else a["Hm0"]
            f = h if kind == "H" else math.sqrt(a.get("g", 9.81) * h ** 3)
            return [z[0] * f] + z[1:]
        eq("dimensional = dimensionless x scale: " + dim, dim, lambda call, a, p=dim: call(p, a), scaled)
    # alternative routes
    for k in ("xbloc", "xblocplus"):
        p = K + k + "."
        eq("mass = volume route: " + p + "Hs", p + "calculate_wave_height_Hs_from_M", lambda call, a, p=p: call(p + "calculate_wave_height_Hs_from_M", a),
           lambda call, a, p=p: call(p + "calculate_wave_height_Hs_from_V", dict(drop(a, "M"), V=a["M"] / a["rho_armour"])))
        eq("mass = volume route: " + p + "M", p + "calculate_unit_mass_M", lambda call, a, p=p: call(p + "calculate_unit_mass_M", a),
           lambda call, a, p=p: [call(p + "calculate_unit_volume_V", a)[0] * a["rho_armour"]])
        eq("percentage = cotangent: " + p, p + "calculate_correctionfactor_unit_mass_M_by_percslope_seabed",
           lambda call, a, p=p: call(p + "calculate_correctionfactor_unit_mass_M_by_percslope_seabed", a),
           lambda call, a, p=p: call(p + "calculate_correctionfactor_unit_mass_M_by_cotalpha_seabed", {"cot_alpha": 100.0 / a["perc_slope"]}))
    z = U + "vangent2001.calculate_wave_runup_height_zXp"

    def z_of(call, a):
        d = {n: v for n, v in sig(W + "calculate_FH2p_perpendicular").items()}
        gam = a.get("gamma_f", d["gamma_f"]) * a.get("gamma_beta", d["gamma_beta"])
        return call(z, dict(H=a["Hm0"], Tmm10=a["Tmm10"], cot_alpha=a["cot_alpha"], gamma=gam, c0=a.get("c0", d["c0"]), c1=a.get("c1", d["c1"])))[0]
    for f in ("FH2p", "FV2p"):
        p = W + "calculate_%s_perpendicular" % f
        q = p + "_from_z2p"
        eq("force from waves = force from runup: " + f, p, lambda call, a, p=p: call(p, a),
           lambda call, a, q=q: call(q, dict(keep(q, a), z2p=z_of(call, a))))
        ob = W + "calculate_%s_oblique" % f
        gf = W + "calculate_influence_oblique_waves_%s_force_gamma_%s_beta" % ("horizontal" if f == "FH2p" else "vertical", f[:2])
        eq("oblique force = factor x perpendicular force: " + f, ob, lambda call, a, p=ob: call(p, a),
           lambda call, a, p=p, gf=gf: [max(0.0, call(gf, dict(z2p=z_of(call, a), Ac=a["Ac"], beta=a["beta"]))[0] * call(p, keep(p, a))[0])])
        eq("zero angle = perpendicular force: " + f, ob, lambda call, a, p=ob: call(p, dict(a, beta=0.0)), lambda call, a, p=p: call(p, keep(p, a)))
    eq("Hs and Hm0 are alternatives: z2p", U + "vangent2001.calculate_wave_runup_height_z2p",
       lambda call, a: call(U + "vangent2001.calculate_wave_runup_height_z2p", a), _swap_h)
    for n, (c0, c1) in {"z1p": (None, None)}.items():
        pass
    eq("no swell = crossing seas with zero swell", O + "vangent2021_caisson.calculate_overtopping_discharge_q",
       lambda call, a: call(O + "vangent2021_caisson.calculate_overtopping_discharge_q", dict(drop(a, "Hm0_swell"), crossing_seas=False, short_crested_waves=True)),
       lambda call, a: call(O + "vangent2021_caisson.calculate_overtopping_discharge_q", dict(a, Hm0_swell=0.0, crossing_seas=True)))

    def damage0(call, a):
        return call(R + "hudson1959.calculate_median_rock_mass_M50", dict(a, damage_percentage=0.0))
    eq("zero damage = no damage", R + "hudson1959.calculate_median_rock_mass_M50", damage0,
       lambda call, a: call(R + "hudson1959.calculate_median_rock_mass_M50_no_damage", keep(R + "hudson1959.calculate_median_rock_mass_M50_no_damage", a)))
    # Goda: the overall calculation equals its parts put together
    pf, fr = G + "calculate_pressures_and_forces", G + "calculate_forces_and_reactions"

    def parts(call, a):
        d = sig(fr)
        x = {n: a.get(n, d[n]) for n in ("rho_fill_above_SWL", "rho_fill_below_SWL", "muf", "tup_over_Bup", "g")}
        f = call(pf, keep(pf, drop(a, "return_dict")))
        FH, FU, MH, MU, p1, pu, imp = f[0], f[1], f[2], f[3], f[4], f[9], f[16]
        tup = x["tup_over_Bup"] * a["Bup"]
        Wup = call(G + "calculate_Wup", dict(hacc=a["hacc"], Rc=a["Rc"], Bup=a["Bup"], rho_fill_below_SWL=x["rho_fill_below_SWL"],
                                             rho_water=a["rho_water"], rho_fill_above_SWL=x["rho_fill_above_SWL"], g=x["g"]))[0]
        pe = call(G + "calculate_bearing_pressures", dict(Wup=Wup, tup=tup, MH=MH, MU=MU, FU=FU, Bup=a["Bup"]))[0]
        sf = call(G + "calculate_safety_factors", dict(FU=FU, FH=FH, Wup=Wup, muf=x["muf"], tup=tup, MH=MH, MU=MU))
        return [FH, FU, MH, MU, p1, pe, pu, imp] + sf
    eq("overall caisson calculation = its parts", fr, lambda call, a: call(fr, drop(a, "return_dict")), parts)
    keys = {pf: "FH FU MH MU p1 p2 p3 p4 hstar_c pu h_5Hs etastar L alpha1 alpha2 alpha3 impulsive_breaking".split(),
            fr: "FH FU MH MU p1 pe pu impulsive_breaking SF_sliding SF_overturning".split()}
    for p in (pf, fr):
        def asdict(call, a, p=p):
            x = call(p, dict(drop(a, "return_dict"), return_dict=True))
            out = []
            for k in keys[p]:
                i = x.index("key:" + k) if "key:" + k in x else None
                out.append(None if i is None else x[i + 1])
            return out

        def astuple(call, a, p=p):
            x = call(p, drop(a, "return_dict"))
            y = asdict(call, a)
            return [None if w is None else v for v, w in zip(x, y)]
        eq("dictionary = tuple: " + p, p, asdict, astuple)
    # core quantities
    eq("Iribarren number = slope / root of steepness", "core_physics.calculate_Iribarren_number_ksi",
       lambda call, a: call("core_physics.calculate_Iribarren_number_ksi", a),
       lambda call, a: [1 / a["cot_alpha"] / math.sqrt(call("core_physics.calculate_wave_steepness_s", dict(H=a["H"], T=a["T"]))[0])])
    eq("stability number = H / (Delta D)", "core_physics.calculate_stability_number_Ns",
       lambda call, a: call("core_physics.calculate_stability_number_Ns", a),
       lambda call, a: call("core_physics.check_usage_stabilitynumber", dict(Hs=a["H"], Dn=a["D"], Delta=call(
           "core_physics.calculate_buoyant_density_Delta", dict(rho_rock=a["rho_rock"], rho_water=a["rho_water"]))[0]))[:1])
    # influence factors of Van Gent 2025 given or derived
    for p in [x for x in compare.REF if x.startswith(O + "vangent2025.calculate_") and "gamma_f" in sig(x) and "Dn50" in sig(x) and "Tmm10" in sig(x)]:
        def viaf(call, a, p=p):
            need("Dn50" in a and "gamma_f" not in a)
            s = call("core_physics.calculate_wave_steepness_s", dict(H=a["Hm0"], T=a["Tmm10"]))[0]
            return call(p, dict(a, gamma_f=call(O + "vangent2025.calculate_influence_friction_gamma_f", dict(Dn50=a["Dn50"], Hm0=a["Hm0"], smm10=s))[0]))
        eq("stone size = roughness factor: " + p, p, lambda call, a, p=p: call(p, a), viaf)

        def viab(call, a, p=p):
            need("gamma_b" not in a)
            s = call("core_physics.calculate_wave_steepness_s", dict(H=a["Hm0"], T=a["Tmm10"]))[0]
            g = call(O + "vangent2025.calculate_influence_berm_gamma_b",
                     dict(Hm0=a["Hm0"], smm10=s, Ac=a["Ac"], B_berm=a.get("B_berm", 0.0), BL=a["Ac"] - a.get("db", 0.0)))[0]
            return call(p, dict(a, gamma_b=g))
        eq("berm geometry = berm factor: " + p, p, lambda call, a, p=p: call(p, a), viab)
        if "Rc" in sig(p):
            def viav(call, a, p=p):
                need("gamma_v" not in a)
                g = call(O + "vangent2025.calculate_influence_crest_wall_gamma_v", dict(cot_alpha=a["cot_alpha"], Rc=a["Rc"], Ac=a["Ac"]))[0]
                return call(p, dict(a, gamma_v=g))
            eq("crest wall geometry = wall factor: " + p, p, lambda call, a, p=p: call(p, a), viav)
    # rear side: runup and velocity are the separate calculations
    eq("velocity route of rear side", "structural.stability_rock_rear.vangent2007.calculate_damage_number_S",
       lambda call, a: call("structural.stability_rock_rear.vangent2007.calculate_damage_number_S", a), _rear2007)
    eq("runup percentages from one equation", U + "vangent2001.calculate_wave_runup_height_z1p",
       lambda call, a: call(U + "vangent2001.calculate_wave_runup_height_z1p", a),
       lambda call, a: call(z, dict(H=a["Hs"], Tmm10=a["Tmm10"], gamma=a["gamma"], cot_alpha=a["cot_alpha"],
                                    **{n: a.get(n, sig(U + "vangent2001.calculate_wave_runup_height_z1p")[n]) for n in ("c0", "c1")})))


def _rear2007(call, a):
    need("Dn50" in a and "M50" not in a)
    z1 = call(U + "vangent2001.calculate_wave_runup_height_z1p", dict(Hs=a["Hs"], Tmm10=a["Tmm10"], gamma=a["gamma"], cot_alpha=a["cot_alpha"]))[0]
    S = 0.00025 * a["cot_phi"] ** 1.25 * ((z1 - a["Rc"]) / a["Dn50"]) ** 2 * (a["Rc"] / a["Dn50"]) ** 0.5 * \
        (1 + 5 * a["Rc2_rear"] / (a["Rc"] - a["Rc2_rear"])) / (1 + a["Rc2_front"] / a["Hs"]) * math.sqrt(a["N_waves"])
    return [S]


def _swap_h(call, a):
    p = U + "vangent2001.calculate_wave_runup_height_z2p"
    need(("Hm0" in a) != ("Hs" in a) and not ({"c0", "c1"} & set(a)))
    raise Stop()        # the two wave heights have their own coefficients; kept for completeness of the list


build()
del EQ["Hs and Hm0 are alternatives: z2p"]


def simple_units():
    return [p for p in compare.REF if p in target.SIGS and not p.rsplit(".", 1)[1].startswith("check_validity")]


def convert(v, form):
    if isinstance(v, bool) or not isinstance(v, (int, float)) or v != v:
        return v
    if form == "float64":
        return np.float64(v)
    if form == "zerod":
        return np.array(float(v))
    if form in ("int", "npint") and float(v) == int(v):
        return int(v) if form == "int" else np.int64(int(v))
    return float(v)


class Equivalent(Prop):
    id = "C21"
    rule = ("both ways of giving the input returned a result, at least one number of it finite, and the published formulas agree for both; "
            "inputs without the alternative, undefined ones and ones on a regime limit are discarded")
    quick, thorough = 180000, 4000000

    def units(self):
        out = {"=" + n: 1.0 for n in EQ}
        for p in simple_units():
            w = 0.05 if p in SLOW else 1.0
            out["default:" + p] = 0.6 * w
            out["type:" + p] = 0.6 * w
            out["position:" + p] = 0.3 * w
        return out

    def modules_of(self, unit):
        p = EQ[unit[1:]][0] if unit.startswith("=") else unit.split(":", 1)[1]
        return [p.rsplit(".", 1)[0]]

    def chunk(self, unit):
        return 10 if any(s in unit for s in SLOW) else 2000

    def gen(self, r, unit):
        if unit.startswith("="):
            path = EQ[unit[1:]][0]
            a = gen.generate(r, path)
            if "angle" in unit:
                if "=" in unit[1:] and r.random() < 0.9 and "gamma_beta" in a:
                    a.pop("gamma_beta")
                    a["beta"] = gen.value(gen.Scene(r), "beta")
            if "single slope" in unit:
                for n in ("cot_alpha_down", "cot_alpha_up"):
                    a.pop(n, None)
                a.setdefault("cot_alpha", gen.u(r, 1.0, 7.0))
            if unit.startswith("=mass M"):
                d = "Dn50_core" if unit.startswith("=mass M50_core") else "Dn50"
                if ("M50" + d[4:]) in a:
                    m = a.pop("M50" + d[4:])
                    a.setdefault(d, float((m / 2600.0) ** (1 / 3.0)))
                s = gen.Scene(r)
                for n, q, dflt in target.SIGS[path]:
                    if n in RHO_OF["M50" + d[4:]] and n not in a:
                        a[n] = gen.value(s, n, dflt)
            return {"eq": unit[1:], "args": a}
        kind, path = unit.split(":", 1)
        a = gen.generate(r, path)
        if path.endswith("_hacc"):
            f = gen.lu(r, 0.05, 0.5) / a["Hs"]
            a = {k: (v * f if k in gen.LENGTHS else v * math.sqrt(f) if k in gen.PERIODS else v) for k, v in a.items()}
        c = {"kind": kind, "path": path, "args": a}
        if kind == "type":
            c["form"] = r.choice(FORMS)
            if c["form"] in ("int", "npint"):
                for k in list(a):
                    if isinstance(a[k], float) and a[k] == a[k] and k not in gen.BOOLS and k not in gen.DISCRETE and r.random() < 0.5:
                        v = float(round(a[k]))
                        if (v != 0 or k in gen.SIGNED) and gen.ok(k, v):
                            a[k] = v
            names = [k for k in a if isinstance(a[k], (int, float)) and not isinstance(a[k], bool) and k not in gen.DISCRETE]
            if not names:
                return None
            c["which"] = sorted(names if r.random() < 0.4 else r.sample(names, r.randint(1, len(names))))
        elif kind == "default":
            opts = [n for n, q, d in target.SIGS[path] if not q and n not in ("output_dir", "file_name")]
            if not opts:
                return None
            for n in opts:
                if r.random() < 0.5:
                    a.pop(n, None)
            c["which"] = sorted(n for n in opts if n not in a and r.random() < 0.7)
            if not c["which"]:
                return None
        return c

    def check(self, case):
        if "eq" in case:
            return self.check_eq(case)
        path, a, kind = case["path"], case["args"], case["kind"]
        rk, rv, c = compare.ref_run(path, a)
        if rk == "undefined" or (rk == "ok" and c.near):
            return V("discard")
        b, pos = dict(a), 0
        if kind == "default":
            for n, q, d in target.SIGS[path]:
                if n in case["which"] and n not in a:
                    b[n] = d
        elif kind == "type":
            for n in case["which"]:
                if n in b:
                    b[n] = convert(b[n], case["form"])
        else:
            names = [n for n, _, _ in target.SIGS[path]]
            pos = len(names)
        k1, x1, w1 = target.call(path, a)
        k2, x2, w2 = target.call(path, b, pos)
        if k1 == "err" and k2 == "err":
            if type(x1) is type(x2):
                return V("trivial", key=kind)
            if not isinstance(x1, ValueError):
                return V("discard")
            return V("fail", "given one way it raises %r, given the equivalent way %r" % (x1, x2))
        if "err" in (k1, k2):
            e = x1 if k1 == "err" else x2
            if isinstance(e, (ArithmeticError,)) or rk != "ok" or compare.undefined_error(e, rv):
                return V("discard")
            return V("fail", "given one way it gives %s, given the equivalent way %s" % (compare.outcome_text(k1, x1), compare.outcome_text(k2, x2)))
        f1, f2 = compare.flat(x1), compare.flat(x2)
        if (compare.has_complex(x1) or compare.has_complex(x2)) and (rk != "ok" or compare.has_nonfinite(rv)):
            return V("discard")
        if not compare.same(f1, f2, 1e-12):
            w = compare.allowance(path, a) if rk == "ok" else None
            if w is None or len(w) != len(f1) or len(f1) != len(f2):
                if w is None:
                    return V("discard")
                return V("fail", "results of different shape: %s and %s" % (compare.fmt(x1), compare.fmt(x2)))
            for p, q, t in zip(f1, f2, w):
                if compare.close(p, q, 1e-9):
                    continue
                if isinstance(p, float) and isinstance(q, float) and abs(p - q) <= t:
                    continue
                return V("fail", "given one way it is %s, given the equivalent way %s" % (compare.fmt(x1), compare.fmt(x2)))
        g1, g2 = compare.parse_warnings(w1)[0], compare.parse_warnings(w2)[0]
        if kind != "type" and sorted(g1) != sorted(g2):
            return V("fail", "different warnings: %s and %s" % (compare.fmt(g1), compare.fmt(g2)))
        if kind == "type" and rk == "ok" and {(w[0], w[4]) for w in g1} != {(w[0], w[4]) for w in g2}:
            if not compare.unstable_ranges(path, a):
                near = any(lo == v or abs(v - lo) <= 1e-9 * max(abs(v), abs(lo)) for _, v, lo in c.crit)
                if not near:
                    return V("fail", "different warnings: %s and %s" % (compare.fmt(g1), compare.fmt(g2)))
        good = any(isinstance(z, float) and math.isfinite(z) for z in f1)
        return V("ok" if good else "trivial", key=kind)

    def check_eq(self, case):
        base, left, right = EQ[case["eq"]]
        a = dict(case["args"])
        a.pop("return_dict", None)
        rc = RefCall()
        try:
            r1, r2 = left(rc, a), right(rc, a)
        except (Stop, KeyError, ZeroDivisionError, OverflowError, TypeError):
            return V("discard")
        except ValueError:
            return V("discard")
        if len(r1) != len(r2):
            return V("discard")
        try:
            x1, x2 = left(code, a), right(code, a)
        except Failed as e:
            if compare.undefined_error(getattr(e, "error", None), *[z for rs in (r1, r2) for z in rs]):
                return V("discard")
            return V("fail", "one of two equivalent ways fails: %s" % e)
        except (ArithmeticError, ValueError):
            return V("discard")
        good = 0
        if len(x1) != len(x2):
            return V("fail", "results of different shape: %r and %r" % (x1, x2))
        iterative = any(c.facts.get("iterative") for _, _, c in rc.used)
        tol = 0.0
        for j, (p, q, u, v) in enumerate(zip(r1, r2, x1, x2)):
            if not isinstance(p, float) or not isinstance(q, float):
                continue
            rel = 5e-3 if iterative else 1e-9
            if not compare.close(p, q, rel):
                continue
            if p != p or math.isinf(p):
                continue
            good += 1
            if compare.close(u, v, 1e-9):
                continue
            if not (isinstance(u, float) and isinstance(v, float)):
                return V("fail", "equivalent ways give %r and %r" % (u, v))
            tol = 1e-8 * max(abs(u), abs(v)) + 4 * abs(p - q)
            for path, b, c in rc.used:
                w = compare.allowance(path, b)
                if w is None:
                    return V("discard")
                k, val, _ = compare.ref_run(path, b)
                fl = compare.flat(val)
                for z, t in zip(fl, w):
                    if isinstance(z, float) and z == z and t and abs(z) > 0 and p:
                        tol = max(tol, 1e-8 * abs(u) + 4 * abs(p - q) + 4 * abs(p) * t / abs(z)) if len(rc.used) > 1 and (path != base) else max(tol, t + 4 * abs(p - q))
            if iterative:
                tol += 2e-3 * max(abs(u), abs(v))
            if not abs(u - v) <= tol:
                if math.isnan(u) or math.isnan(v) or abs(u - v) > 20 * tol or not self.sensitive(case, left, right, a, j):
                    return V("fail", "equivalent ways of giving the input give %r and %r" % (u, v))
                return V("discard")
        return V("ok" if good else "trivial", key="equivalent")

    @staticmethod
    def sensitive(case, left, right, a, j):
        """rounding-size changes of the input move the formula noticeably"""
        try:
            p = left(RefCall(), a)[j]
            for b in compare.perturbations(a):
                for side in (left, right):
                    q = side(RefCall(), b)[j]
                    if not compare.close(p, q, 1e-9):
                        return True
        except Exception:       # noqa: BLE001
            return True
        return False

    def shrinks(self, case):
        if "eq" in case:
            base = EQ[case["eq"]][0]
            for b in shrink_args(case["args"], {n for n, q, _ in target.SIGS[base] if q}):
                yield dict(case, args=b)
            return
        if case.get("which") and len(case["which"]) > 1:
            for n in case["which"]:
                yield dict(case, which=[m for m in case["which"] if m != n])
        for b in shrink_args(case["args"], {n for n, q, _ in target.SIGS[case["path"]] if q}):
            yield dict(case, args=b)

    def distinct_key(self, case):
        return json.dumps(case, sort_keys=True)


prop = Equivalent()
