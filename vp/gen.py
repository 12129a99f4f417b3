"""Structured random generator of physically plausible (and deliberately awkward) arguments.

One "scene" (wave height H0, steepness -> period T0, depth, rock size, ...) gives every parameter name a value that is
consistent with the others; the awkward part then replaces some of them by thresholds mined from the current source,
by ratios/steepness/Iribarren numbers that hit such thresholds (exactly, just below, just above), by outliers, by ints.
"""
import math
from . import target

nan = float("nan")
pi = math.pi


def u(r, a, b):
    return a + (b - a) * r.random()


def lu(r, a, b):
    return math.exp(u(r, math.log(a), math.log(b)))


class Scene:
    def __init__(self, r, wide=False):
        self.r = r
        self.H = lu(r, 0.02, 60.0) if wide else lu(r, 0.3, 10.0)
        self.s = lu(r, 0.001, 0.12) if wide else lu(r, 0.006, 0.07)
        self.T = math.sqrt(2 * pi * self.H / (9.81 * self.s))
        self.h = self.H * lu(r, 0.8, 10.0)
        self.rw = r.choice([1000.0, 1025.0, u(r, 990, 1040)])
        self.rho = r.choice([2650.0, 2400.0, u(r, 2000, 3200)])
        self.D = self.H * lu(r, 0.12, 0.9)
        self.Rc = self.H * u(r, 0.3, 3.0)
        self.cot = r.choice([u(r, 1.0, 4.0), u(r, 1.0, 10.0), r.choice([1.5, 2.0, 3.0, 4.0])])


def _len(a, b):
    return lambda s: s.H * u(s.r, a, b)


def _const(v):
    return lambda s: v


def _u(a, b):
    return lambda s: u(s.r, a, b)


def _lu(a, b):
    return lambda s: lu(s.r, a, b)


def _ch(*xs):
    return lambda s: s.r.choice(xs)


def _mix(*fs):
    return lambda s: s.r.choice(fs)(s)


def _q(s):
    return math.sqrt(9.81 * s.H ** 3) * lu(s.r, 1e-7, 0.15)


HEIGHT = lambda s: s.H          # noqa: E731
PERIOD = lambda s: s.T          # noqa: E731

DOM = {
    "Hm0": HEIGHT, "Hs": HEIGHT, "H": HEIGHT, "Hsi": HEIGHT, "Hs_i0": HEIGHT,
    "H2p": _len(1.0, 1.6), "HD": _len(1.0, 2.2), "Hm0_HF": _len(0.3, 1.2), "Hm0_LF": _mix(_len(0.0, 0.9), _const(0.0)),
    "Hm0_swell": _mix(_len(0.0, 0.8), _len(0.0, 0.8), _const(0.0)), "Hm0_deep": _len(0.8, 3.0),
    "Tmm10": PERIOD, "T": PERIOD, "Tp": PERIOD, "Tpi": PERIOD, "Tmax": PERIOD, "Tm": PERIOD,
    "Tmm10_HF": lambda s: s.T * u(s.r, 0.3, 1.1),
    "Rc": lambda s: s.Rc, "Ac": lambda s: s.Rc * u(s.r, 0.3, 1.3), "Gc": _len(0.0, 6.0), "h": lambda s: s.h,
    "h_s": lambda s: s.h, "hc": lambda s: s.h * u(s.r, 0.3, 1.2), "ht": lambda s: s.h * u(s.r, 0.15, 0.98),
    "hacc": lambda s: s.h * u(s.r, 0.2, 1.0), "d": lambda s: s.h * u(s.r, 0.3, 0.99),
    "tt": _len(0.05, 1.2), "tup": _len(0.2, 3.0), "db": _mix(_len(-1.5, 2.5), _len(-0.5, 0.5), _const(0.0)),
    "B": _len(0.1, 25.0), "B1": _len(0.0, 8.0), "BL": _len(0.1, 20.0), "B_berm": _mix(_len(0.0, 6.0), _len(0.0, 3.0), _const(0.0)),
    "B_element": _len(0.2, 4.0), "Bc": _len(0.1, 6.0), "Bt": _len(0.2, 6.0), "Bup": _len(1.0, 8.0), "Bwall": _len(0.2, 4.0),
    "Hwall": _len(0.1, 3.0), "Fb": _len(0.0, 2.0), "G": _len(0.2, 4.0), "L": lambda s: 9.81 * s.T ** 2 / (2 * pi) * u(s.r, 0.2, 1.0),
    "L_berm": _len(1.0, 20.0), "z1p": _len(0.3, 4.5), "z2p": _len(0.3, 4.5), "zXp": _len(0.3, 4.5),
    "Rc2_front": _mix(_len(0.0, 1.5), _const(0.0)), "Rc2_rear": lambda s: s.Rc * u(s.r, 0.02, 0.95), "Rc_rear": _len(0.05, 3.0),
    "D": lambda s: s.D, "Dn": lambda s: s.D, "Dn50": lambda s: s.D,
    "Dn50_core": lambda s: s.D * lu(s.r, 0.05, 0.9), "M50": lambda s: s.rho * s.D ** 3, "M": lambda s: s.rho * s.D ** 3,
    "M50_core": lambda s: s.rho * (s.D * lu(s.r, 0.05, 0.9)) ** 3, "V": lambda s: s.D ** 3,
    "rho_rock": lambda s: s.rho, "rho_armour": lambda s: s.rho, "rho_core": lambda s: u(s.r, 2000, 3000),
    "rho_water": lambda s: s.rw, "rho_fill_above_SWL": _u(1800, 2600), "rho_fill_below_SWL": _u(1700, 2400),
    "Delta": lambda s: s.rho / s.rw - 1.0,
    "g": _mix(_const(9.81), _const(9.80665), _u(1.5, 25.0)),
    "beta": _mix(_u(0, 90), _u(0, 60), _u(-80, 90), _const(0.0)), "theta": _mix(_u(0, 90), _u(0, 45), _const(0.0)),
    "alpha_wall_deg": _mix(_u(0, 90), _const(45.0), _const(90.0)),
    "cot_alpha": lambda s: s.cot, "cot_alpha_down": lambda s: s.cot, "cot_alpha_up": _u(1.0, 7.0),
    "cot_alpha_average": lambda s: s.cot, "cot_alpha_armour_slope": _u(1.0, 5.0), "cot_phi": _u(1.0, 4.5),
    "cota_seabed": _mix(_u(10, 100), _u(1, 1000)), "m": _lu(0.005, 0.2), "m_foreshore_slope": _lu(0.002, 0.2),
    "tan_alpha_B": _u(0, 1), "tan_alpha_f": _u(0, 1),
    "gamma_f": _u(0.35, 1.0), "gamma": _u(0.35, 1.0), "gamma_f_Crest": _u(0.35, 1.0), "gamma_f_down": _u(0.35, 1.0),
    "gamma_f_up": _u(0.35, 1.0), "gamma_b": _u(0.55, 1.05), "gamma_beta": _u(0.5, 1.0), "gamma_v": _u(0.5, 1.05),
    "gamma_star": _u(0.5, 1.0), "gamma_A": _u(0.5, 1.2), "gamma_p": _ch(1.0, 0.9, 0.8), "gamma_f_crit": _u(0.4, 0.8),
    "sigma": _u(-2, 2), "cor3": _u(-0.5, 0.5), "c": _ch(1.0, 1.0, 1.3, 1.1), "c_swell": _u(0.2, 0.6), "c_beta": _u(0.2, 0.8),
    "q": _q, "q_diml": _lu(1e-7, 0.1), "uXp": lambda s: math.sqrt(9.81 * s.H) * u(s.r, 0.05, 3.0),
    "smm10": lambda s: s.s, "smm10_HF": lambda s: s.s, "s0p": lambda s: s.s, "s0m": lambda s: s.s,
    "offshore_wave_steepness": lambda s: s.s, "smm10_lim": _u(0.008, 0.02),
    "smm10_init": _lu(0.005, 0.06), "ksi_mm10": _mix(_u(0.3, 4), _u(0.3, 12)), "ksi_0p": _u(0.3, 12), "Kt": _u(0, 1.1),
    "Hsi_over_h": _u(0, 0.8), "Rc_over_Hsi": _u(-4, 4), "rel_depth": _u(1.0, 5.0), "rel_freeboard": _u(-0.5, 2.0),
    "perc_slope": _u(0, 15), "seabed_slope_perc": _mix(_u(0, 12), lambda s: float(s.r.randint(0, 12))),
    "N_waves": _mix(lambda s: float(s.r.randint(100, 9000)), _lu(50, 30000), lambda s: s.r.randint(500, 8000)),
    "S": _mix(_u(0.5, 20), _lu(0.05, 60), lambda s: float(s.r.randint(1, 17))), "Nod": _mix(_u(0.1, 4), _lu(0.05, 8)),
    "P": _mix(_u(0.1, 0.6), _ch(0.1, 0.4, 0.5, 0.6)), "KD": _u(2, 30), "alpha_Hs": _u(0.8, 1.8), "Ns": _u(1.0, 4.5),
    "damage_percentage": _mix(_u(0, 100), _u(0, 50), lambda s: float(s.r.randint(0, 100)), _ch(0, 5, 10, 15, 20, 30, 40, 50, 100)),
    "rock_type": _ch("rough", "smooth", "Rough", " smooth ", "SMOOTH", "round"), "nv": _u(0.3, 0.5),
    "FH": _lu(1e3, 1e6), "FU": _lu(1e3, 1e6), "MH": _lu(1e3, 1e7), "MU": _lu(1e3, 1e7), "Wup": _lu(1e5, 1e7),
    "FH2p": _lu(10, 1e6), "FV2p": _lu(10, 1e6), "muf": _u(0.4, 0.8), "tup_over_Bup": _u(0.4, 0.6),
    "ratio_H2p_Hs": _u(1.0, 1.6), "Cp_init": _u(0.3, 0.9), "Rc_Dn50_init": _u(-3, 2), "Ns_init": _u(0.5, 4),
    "total_correction_factor": _u(0.8, 3.0),
    "structure_type": _ch("permeable", "permeable", "impermeable", "perforated", "perforated_with_screen", "perforated_with_perforated_screen",
                          "permeable", "impermeable", "unknown"),
    "variable_name": _ch("some variable x", "H"), "formula_name": _ch("Some (2000)", "F"),
    "values": _u(-3, 3), "min_value": _mix(_u(-3, 2), _const(0.0), _const(1.0)), "max_value": _u(-1, 3),
    "alpha_1": _u(1.6, 2.4), "beta_1": _u(0.1, 0.6),
    "max_iter": _ch(1000, 5000), "max_iterations": _ch(10000, 20000), "tolerance": _ch(1e-4, 1e-5, 1e-6, 1e-3),
    "cs": lambda s: 0.000008 ** 2.5 * u(s.r, 0.3, 3.0) if False else 2.62144e-13 * u(s.r, 0.3, 3.0),
    "c_gamma_beta": _u(0.0015, 0.005), "c_gamma_beta_smooth": _u(0.0015, 0.005), "c_gamma_beta_rough": _u(0.004, 0.008),
    "max_angle": _u(50, 89),
}
BOOLS = {"use_best_fit", "design_calculation", "include_influence_wind", "short_crested_waves", "crossing_seas", "parapet",
         "use_depth_limited_version", "return_dict", "do_validity_check", "low_core_permeability", "core_impermeable",
         "design_event_occurs_frequently"}
COEF_REQ = {"c0": 1.4, "c1": 3.0, "c2": 3.0, "c3": 1.6, "c4": 1.0, "c_pl": 7.0, "c_s": 1.2}

LENGTHS = {n for n in ("Hm0 Hs H Hsi H2p HD Hm0_HF Hm0_LF Hm0_swell Hm0_deep Rc Ac Gc h h_s hc ht hacc d tt tup db B B1 BL B_berm "
                       "B_element Bc Bt Bup Bwall Hwall Fb G L L_berm z1p z2p zXp Rc2_front Rc2_rear Rc_rear D Dn Dn50 Dn50_core "
                       "").split()}
PERIODS = {"Tmm10", "T", "Tp", "Tpi", "Tmax", "Tm", "Tmm10_HF"}
COTS = {n for n in DOM if n.startswith("cot")}
#: may be <= 0
SIGNED = {"Rc", "db", "beta", "Hm0_LF", "Hm0_swell", "B_berm", "Rc2_front", "Gc", "Fb", "B1", "theta", "sigma", "cor3", "rel_freeboard",
          "Rc_over_Hsi", "values", "min_value", "max_value", "Kt", "Hsi_over_h", "seabed_slope_perc", "perc_slope", "damage_percentage",
          "Rc_Dn50_init", "alpha_wall_deg", "c3", "c6", "c_w2", "tan_alpha_B", "tan_alpha_f", "m"}
NEG = {"Rc", "db", "beta", "sigma", "cor3", "rel_freeboard", "Rc_over_Hsi", "values", "min_value", "max_value", "Rc_Dn50_init", "c3", "c6",
       "c_w2"}
DISCRETE = {"c", "gamma_p", "rock_type", "structure_type", "variable_name", "formula_name", "max_iter", "max_iterations", "tolerance"}

#: alternatives of which a valid call supplies (at least) one
ALTS = [("beta", "gamma_beta"), ("Dn50", "M50"), ("Dn50_core", "M50_core"), ("Hm0", "Hs")]


def value(s, name, default=None):
    if name in BOOLS:
        return s.r.random() < 0.5
    f = DOM.get(name)
    if f is not None:
        return f(s)
    if isinstance(default, (int, float)) and default == default and not isinstance(default, bool):
        return float(default) * u(s.r, 0.8, 1.25)
    if name in COEF_REQ:
        return COEF_REQ[name] * u(s.r, 0.7, 1.4)
    raise KeyError("no domain for parameter %r" % name)


def optional_plan(r, path, params):
    """which optional parameters to supply"""
    names = {p[0] for p in params}
    opt = [p for p in params if not p[1]]
    on = set()
    is_check = ".check_validity" in path or ".check_impulsive" in path
    for n, _, d in opt:
        isn = isinstance(d, float) and d != d
        if is_check:
            if r.random() < 0.8:
                on.add(n)
        elif isn:
            if r.random() < 0.5:
                on.add(n)
        elif n in BOOLS:
            if r.random() < 0.6:
                on.add(n)
        elif n in ("max_iter", "max_iterations", "tolerance", "smm10_init", "Cp_init", "Ns_init", "Rc_Dn50_init", "cs"):
            if r.random() < 0.15:
                on.add(n)
        elif n in ("B_berm", "db", "gamma_f", "gamma_v", "rho_water", "rho_rock", "theta", "sigma", "g", "cot_alpha", "gamma_star"):
            if r.random() < 0.6:
                on.add(n)
        elif r.random() < 0.2:
            on.add(n)
    if is_check:
        return on
    isnan_default = {n for n, _, d in opt if isinstance(d, float) and d != d}
    for a, b in ALTS:
        if a in isnan_default and b in isnan_default:
            if a == "Hm0" and "vangent2001" not in path:
                continue
            x = r.random()
            on -= {a, b}
            if x < 0.47:
                on.add(a)
            elif x < 0.94:
                on.add(b)
            elif x < 0.97:
                on |= {a, b}
    if "cot_alpha" in isnan_default and "cot_alpha_down" in isnan_default:
        on -= {"cot_alpha", "cot_alpha_down", "cot_alpha_up"}
        x = r.random()
        if x < 0.46:
            on.add("cot_alpha")
        elif x < 0.92:
            on |= {"cot_alpha_down", "cot_alpha_up"}
        elif x < 0.95:
            on |= {"cot_alpha", "cot_alpha_down", "cot_alpha_up"}
        elif x < 0.98:
            on.add("cot_alpha_down")
    elif "cot_alpha" in isnan_default and r.random() < 0.8:
        on.add("cot_alpha")
    if "vangent2025" in path:
        if r.random() < 0.8 and "gamma_f" in isnan_default:
            on |= {r.choice(["gamma_f", "Dn50"])}
        if r.random() < 0.9 and "cot_alpha" in isnan_default:
            on.add("cot_alpha")
    if "etemadshahidi2020" in path or "scaravaglione" in path:
        on.add("rho_core") if r.random() < 0.9 and "rho_core" in names else None
        if "m" in names and r.random() < 0.5:
            on |= {"m"}
    if "rho_rock" in isnan_default and r.random() < 0.8:
        on.add("rho_rock")
    return on


def generate(r, path, params=None, awkward=0.55):
    params = params or target.SIGS[path]
    if path.endswith("check_usage_stabilitynumber"):
        s = Scene(r)
        full = {n: value(s, n) for n in ("Hs", "Dn", "Delta", "Ns")}
        drop = r.sample(sorted(full), r.choice([0, 1, 1, 1, 1, 1, 2, 3]))
        a = {}
        for n in full:
            if n not in drop:
                a[n] = full[n]
            elif r.random() < 0.3:
                a[n] = None
        return a
    s = Scene(r, wide=r.random() < 0.12)
    if "jumelet" in path:
        s.cot = u(r, 5.0, 11.0)
    elif "stability_rock_rear" in path:
        s.Rc = s.H * u(r, 0.3, 1.7)
    elif "transmission" in path or "lowcrested" in path:
        s.Rc = s.H * u(r, -3, 3)
    elif path.startswith("hydraulic") and r.random() < 0.08:
        s.Rc = 0.0
    plan = optional_plan(r, path, params)
    a = {}
    order = []
    for n, req, d in params:
        if req or n in plan:
            if not req and n not in DISCRETE and r.random() < 0.05 and not (isinstance(d, float) and d != d):
                a[n] = d
            else:
                a[n] = value(s, n, d)
            order.append(n)
    if r.random() < awkward:
        for _ in range(1 + (r.random() < 0.5) + (r.random() < 0.25)):
            tweak(r, path, a, order)
    if path.endswith("check_usage_Dn50_or_M50"):
        x = r.random()
        for n in (("M50",) if x < 0.4 else ("Dn50",) if x < 0.85 else ("Dn50", "M50") if x < 0.92 else ()):
            a[n] = nan
        if r.random() < 0.3:
            a["rho_rock"] = nan
    if path.endswith("above_toe_hacc") and a["Tp"] > (210.0 * 6.4 * a["Hs"] / a.get("g", 9.81)) ** 0.5:
        a["Tp"] = (210.0 * 6.4 * a["Hs"] / a.get("g", 9.81)) ** 0.5         # the search steps through the depth: keep it short
    if path.endswith("check_calculate_gamma_beta"):
        x = r.random()
        for n in (("beta",) if x < 0.4 else ("gamma_beta",) if x < 0.8 else ("beta", "gamma_beta") if x < 0.92 else ()):
            a[n] = nan
    if r.random() < 0.06:
        k = [n for n in order if isinstance(a[n], float) and a[n] == a[n] and n not in BOOLS]
        if k:
            n = r.choice(k)
            v = round(a[n])
            if v != 0 or n in SIGNED:
                a[n] = int(v)
    return a


EPS = [0.0, 0.0, 1e-12, -1e-12, 1e-7, -1e-7, 1e-3, -1e-3, 0.05, -0.05]


RANGE = {"rho_water": (950.0, 1100.0), "rho_rock": (1400.0, 4500.0), "rho_armour": (1400.0, 4500.0), "rho_core": (1400.0, 4500.0),
         "rho_fill_above_SWL": (1200.0, 4000.0), "rho_fill_below_SWL": (1200.0, 4000.0), "Delta": (0.3, 3.5), "nv": (0.0, 0.9),
         "P": (0.02, 0.9), "m": (0.0, 0.3)}


def ok(n, v):
    if n in RANGE and isinstance(v, (int, float)):
        return RANGE[n][0] <= v <= RANGE[n][1]
    if not isinstance(v, (int, float)) or v != v or abs(v) > 1e9:
        return False
    if n in PERIODS:
        return 0.05 <= v <= 200.0
    if n in LENGTHS and abs(v) > 5000.0:
        return False
    if n in NEG:
        return abs(v) < 1e6
    if n in SIGNED:
        return v >= 0
    return v >= (2e-3 if n in LENGTHS or n in COTS else 1e-8)


def put(a, n, v):
    if n in DISCRETE or n in BOOLS or isinstance(a[n], (str, bool)) or a[n] is None:
        return
    if ok(n, v):
        # keep within a sane distance of the plausible value (dimensions), except the small literal set
        a[n] = v


def tweak(r, path, a, order):
    nums = [n for n in order if isinstance(a[n], (int, float)) and not isinstance(a[n], bool) and n not in DISCRETE]
    if not nums:
        return
    lits, new = target.literals(path)
    pool = new if (new and r.random() < 0.4) else lits
    lit = r.choice(pool) if pool else 1.0
    eps = r.choice(EPS)
    k = r.random()
    n = r.choice(nums)
    if k < 0.25:
        base = a[n]
        cand = [x for x in (pool if pool else [1.0]) if base and 0.05 <= abs(x / base) <= 20 or x == 0]
        if cand:
            lit = r.choice(cand)
            put(a, n, lit * (1 + eps) if lit else eps)
    elif k < 0.5:
        ls = [m for m in nums if m in LENGTHS]
        if len(ls) >= 2:
            x, y = r.sample(ls, 2)
            if 0.02 < abs(lit) < 60 or lit == 0:
                if r.random() < 0.3:
                    lit = -lit if x in NEG else lit
                put(a, x, lit * a[y] * (1 + eps))
    elif k < 0.62:
        hs = [m for m in nums if m in LENGTHS]
        ts = [m for m in nums if m in PERIODS]
        if hs and ts and 1e-4 < lit < 0.3:
            h = a[r.choice(hs)]
            if h > 0:
                put(a, r.choice(ts), math.sqrt(2 * pi * h / (9.81 * lit * (1 + eps))))
    elif k < 0.72:
        hs = [m for m in nums if m in LENGTHS]
        ts = [m for m in nums if m in PERIODS]
        cs = [m for m in nums if m in COTS]
        if hs and ts and cs and 0.1 < lit < 25:
            h = a[r.choice(hs)]
            if h > 0:
                put(a, r.choice(ts), lit * (1 + eps) * a[r.choice(cs)] * math.sqrt(2 * pi * h / 9.81))
    elif k < 0.8:
        put(a, n, a[n] * 10 ** u(r, -1, 1))
    elif k < 0.86:
        same = [m for m in nums if (m in LENGTHS) == (n in LENGTHS) and (m in PERIODS) == (n in PERIODS) and m != n]
        if same and (n in LENGTHS or n in PERIODS or n in COTS):
            put(a, n, a[r.choice(same)])
    elif k < 0.9:
        if n in SIGNED:
            put(a, n, 0.0)
    elif k < 0.95:
        if n in NEG:
            put(a, n, -a[n])
    else:
        put(a, n, float("%.2g" % a[n]))
