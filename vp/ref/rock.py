from .ctx import *
from .reg import R
from .core import use_dn50

A = "structural.stability_rock_armour."


# ---- Hudson --------------------------------------------------------------------------------
@R(A + "hudson1959.check_validity_range")
def hud_valid():
    return None


def hudson_mass(H, rho_water, rho, KD, cot):
    D = relmass(rho, rho_water)
    return rho * (H / D) ** 3 / (KD * cot)


def hudson_H(M, rho_water, rho, KD, cot):
    return relmass(rho, rho_water) * cbrt(KD * cot * M / rho)


@R(A + "hudson1959.calculate_median_rock_mass_M50_no_damage")
def hud_M0(Hs, rho_water, rho_armour, KD, cot_alpha, alpha_Hs=1.27):
    return hudson_mass(alpha_Hs * Hs, rho_water, rho_armour, KD, cot_alpha)


@R(A + "hudson1959.calculate_significant_wave_height_Hs_no_damage")
def hud_H0(M50, rho_water, rho_armour, KD, cot_alpha, alpha_Hs=1.27):
    return hudson_H(M50, rho_water, rho_armour, KD, cot_alpha) / alpha_Hs


@R(A + "hudson1959.lookup_table_damage_factors")
def hud_f(damage_percentage, rock_type="rough"):
    t = rock_type.lower().strip()
    rows = {"rough": (1.0, 1.08, 1.14, 1.2, 1.29, 1.41, 1.54), "smooth": (1.0, 1.08, 1.19, 1.27, 1.37, 1.47, 1.56)}
    if t not in rows:
        raise Invalid("rock type")
    # damage bands: <5, 5-10, 10-15, 15-20, 20-30, 30-40, >=40 [%]
    band = sum(damage_percentage >= b for b in (5, 10, 15, 20, 30, 40))
    return rows[t][band]


@R(A + "hudson1959.calculate_median_rock_mass_M50")
def hud_M(Hs, rho_water, rho_armour, KD, cot_alpha, damage_percentage, rock_type="rough", alpha_Hs=1.27):
    f = hud_f(damage_percentage, rock_type)
    return hudson_mass(alpha_Hs * Hs / f, rho_water, rho_armour, KD, cot_alpha)


@R(A + "hudson1959.calculate_significant_wave_height_Hs")
def hud_H(M50, rho_water, rho_armour, KD, cot_alpha, damage_percentage, rock_type="rough", alpha_Hs=1.27):
    f = hud_f(damage_percentage, rock_type)
    return f * hudson_H(M50, rho_water, rho_armour, KD, cot_alpha) / alpha_Hs


# ---- Jumelet (2024) ---------------------------------------------------------------------------
J = A + "jumelet2024."
FJ = "Jumelet et al., 2024"


@R(J + "check_validity_range")
def ju_valid(Hs=nan, Tmm10=nan, N_waves=nan, cot_alpha=nan):
    if not (isnan(Hs) or isnan(Tmm10)):
        V("Wave steepness sm-1,0", FJ, steep(Hs, Tmm10), 0.009, 0.057)
        if not isnan(cot_alpha):
            V("Iribarren number ksi_m-1,0", FJ, xi(Hs, Tmm10, cot_alpha), 0.42, 1.66)
    VI("Cotangent of outer structure slope cot_alpha", FJ, cot_alpha, 6.0, 10.0)
    VI("Number of waves N_waves", FJ, N_waves, 250, 20000)


@R(J + "calculate_fraction_plunging_waves_Fp")
def ju_Fp(ksi_mm10):
    return (3.2 - 1.7 * ksi_mm10) * ksi_mm10 - 0.5


def ju_N(k, N):
    x = ju_Fp(k) * N
    f = math.floor(x)
    d = x - f
    if abs(d - 0.5) < 1e-9 * max(1.0, abs(x)):
        n = f + 1 if C_decide(d > 0.5) else f
    else:
        n = f + 1 if d > 0.5 else f
    if n <= 0:
        raise Undefined("no plunging waves")
    return float(n)


def C_decide(truth):
    from . import ctx as c
    return c.C.decide(truth, True)


@R(J + "calculate_damage_number_S")
def ju_S(Hs, Tmm10, N_waves, cot_alpha, rho_armour, Dn50=nan, M50=nan, c_pl=4.3, rho_water=1025.0):
    D = use_dn50(Dn50, M50, rho_armour)
    k = xi(Hs, Tmm10, cot_alpha)
    ns = Hs / (relmass(rho_armour, rho_water) * D)
    ju_valid(Hs, Tmm10, N_waves, cot_alpha)
    return pw(ns * k / c_pl, 5) * sq(ju_N(k, N_waves))


@R(J + "calculate_nominal_rock_diameter_Dn50")
def ju_D(Hs, Tmm10, N_waves, cot_alpha, rho_armour, S, c_pl=4.3):
    k = xi(Hs, Tmm10, cot_alpha)
    ju_valid(Hs, Tmm10, N_waves, cot_alpha)
    return Hs * k / (relmass(rho_armour, 1025.0) * c_pl) * pw(sq(ju_N(k, N_waves)) / S, 0.2)


@R(J + "calculate_significant_wave_height_Hs")
def ju_H(Tmm10, N_waves, cot_alpha, rho_armour, S, Dn50=nan, M50=nan, c_pl=4.3, g=9.81, smm10_init=0.03,
         max_iter=1000, tolerance=0.001):
    D = use_dn50(Dn50, M50, rho_armour)
    H = smm10_init * g * Tmm10 * Tmm10 / (2 * pi)
    n = 0
    while True:
        k = xi(H, Tmm10, cot_alpha)
        n += 1
        Np = ju_N(k, N_waves)
        Hn = (c_pl * pw(S / sq(Np), 0.2) * cot_alpha * relmass(rho_armour, 1025.0) * D / Tmm10) ** 2 * 2 * pi / g
        d, H = abs(Hn - H), Hn
        if not gt(d, tol(tolerance)) or n >= max_iter:
            break
        if n > 300:
            raise Undefined("slow")
    ju_valid(H, Tmm10, N_waves, cot_alpha)
    fact("iterations", n)
    return H


# ---- Kramer & Burcharth ---------------------------------------------------------------------------
K = A + "kramerburcharth2004_lowcrested."
FK = "Kramer & Burcharth, 2004"


@R(K + "check_validity_range")
def kb_valid(Rc=nan, Dn50=nan, _calc=False):
    if _calc:
        V("Relative crest height Rc / Dn50", FK, Rc / Dn50, -3.1, 1.5)
    else:
        VR("Relative crest height Rc / Dn50", FK, Rc, Dn50, -3.1, 1.5)


@R(K + "calculate_significant_wave_height_Hs")
def kb_H(Rc, rho_armour, Dn50=nan, M50=nan):
    D = use_dn50(Dn50, M50, rho_armour)
    x = Rc / D
    kb_valid(Rc, D, _calc=isnan(Dn50))
    return relmass(rho_armour, 1025.0) * D * (1.36 + x * (0.06 * x - 0.23))


@R(K + "calculate_nominal_rock_diameter_Dn50")
def kb_D(Hs, Rc, rho_armour, Ns_init=2.0, max_iter=1000, tolerance=1e-5):
    h = Hs / relmass(rho_armour, 1025.0)
    D, prev, n = h / Ns_init, inf, 0
    while True:
        n += 1
        if D == 0:
            raise Undefined("0")
        D = (h - Rc * (0.06 * Rc / D - 0.23)) / 1.36
        d, prev = abs(D - prev), D
        if not gt(d, tol(tolerance)) or n >= max_iter:
            break
        if n > 300:
            raise Undefined("slow")
    fact("iterations", n)
    kb_valid(Rc, D, _calc=True)
    return D


@R(K + "calculate_crest_freeboard_Rc")
def kb_R(Hs, rho_armour, Dn50=nan, M50=nan, Rc_Dn50_init=-1.0, max_iter=1000, tolerance=1e-5):
    D = use_dn50(Dn50, M50, rho_armour)
    h = Hs / relmass(rho_armour, 1025.0)
    Rc, prev, n = Rc_Dn50_init * D, inf, 0
    while True:
        n += 1
        den = 0.06 * Rc / D - 0.23
        if den == 0:
            raise Undefined("0")
        Rc = (h - 1.36 * D) / den
        d, prev = abs(Rc - prev), Rc
        if not gt(d, tol(tolerance)) or n >= max_iter:
            break
        if n > 300:
            raise Undefined("slow")
    fact("iterations", n)
    kb_valid(Rc, D, _calc=True)
    return Rc


# ---- Van der Meer family ------------------------------------------------------------------------------
V8 = A + "vandermeer1988."
VM = A + "vandermeer1988_modified."
V21 = A + "vandermeer2021."
F8 = "Van der Meer (1988)"
FM = "Modified Van der Meer (Van Gent et al., 2003)"


@R(V8 + "check_validity_range")
def v8_valid(Hs=nan, H2p=nan, Tp=nan, N_waves=nan, cot_alpha=nan, P=nan, rho_armour=nan):
    VI("Notional permeability P", F8, P, 0.1, 0.6)
    VI("Cotangent of outer structure slope cot_alpha", F8, cot_alpha, 1.1, 7.0)
    if not (isnan(Hs) or isnan(Tp)):
        V("Wave steepness s0p", F8, steep(Hs, Tp), 0.005, 0.06)
    VI("Number of waves N_waves", F8, N_waves, 0, 7500)
    VR("Ratio H2%/Hs", F8, H2p, Hs, 1.1, 1.4)
    VI("Density of armour layer rock rho_armour", F8, rho_armour, 2000, 3100)


@R(VM + "check_validity_range")
def vm_valid(Hs=nan, H2p=nan, Tmm10=nan, N_waves=nan, cot_alpha=nan, P=nan, Dn50=nan, rho_armour=nan, rho_water=1025.0):
    VI("Notional permeability P", FM, P, 0.1, 0.6)
    if not (isnan(Hs) or isnan(Dn50) or isnan(rho_armour)):
        V("Stability number Ns", FM, Hs / (relmass(rho_armour, rho_water) * Dn50), 0.5, 4.5)
    if not (isnan(Hs) or isnan(Tmm10) or isnan(cot_alpha)):
        V("Iribarren number ksi_m-1,0", FM, xi(Hs, Tmm10, cot_alpha), 1.3, 15.0)
    VI("Cotangent of outer structure slope cot_alpha", FM, cot_alpha, 2.0, 4.0)
    VI("Number of waves N_waves", FM, N_waves, 0, 3000)
    VR("Ratio H2%/Hs", FM, H2p, Hs, 1.2, 1.4)


def crit(c_pl, c_s, P, cot):
    return pw(c_pl / c_s * pw(P, 0.31) / sq(cot), 1.0 / (P + 0.5))


def plunging(k, kc, cot):
    return cot >= 4.0 or lt(k, kc)


def vdm_ns(P, cot, k, c_pl, c_s, dmg):
    """H2%/(Delta Dn50) at which damage parameter dmg=(S/sqrt N) occurs"""
    if plunging(k, crit(c_pl, c_s, P, cot), cot):
        return c_pl * pw(P, 0.18) * pw(dmg, 0.2) / sq(k)
    return c_s * pw(P, -0.13) * pw(dmg, 0.2) * sq(cot) * pw(k, P)


def vdm_S(Hs, H2p, T, N, cot, P, rho, D, c_pl, c_s, rho_w, gN):
    k = xi(Hs, T, cot)
    ns1 = vdm_ns(P, cot, k, c_pl, c_s, 1.0)
    return pw(H2p / (relmass(rho, rho_w) * D) / ns1, 5) * sq(N) / gN


def vdm_D(Hs, H2p, T, N, cot, P, rho, S, c_pl, c_s, rho_w, gN):
    k = xi(Hs, T, cot)
    return H2p / relmass(rho, rho_w) / vdm_ns(P, cot, k, c_pl, c_s, gN * S / sq(N))


def vdm_H(ratio, T, N, cot, P, rho, S, D, c_pl, c_s, g, rho_w, gN):
    kc = crit(c_pl, c_s, P, cot)
    dmg = pw(gN * S / sq(N), 0.2)
    res = relmass(rho, rho_w) * D / ratio
    s1 = 2 * pi / (g * T * T)      # steepness per metre of wave height
    # plunging: H = c P^.18 dmg sqrt(cot) (s1 H)^.25 res
    Hpl = pw(c_pl * pw(P, 0.18) * dmg * sq(cot) * pw(s1, 0.25) * res, 4.0 / 3.0)
    # surging: H = c P^-.13 dmg sqrt(cot) (1/(cot sqrt(s1 H)))^P res
    Hsu = pw(c_s * pw(P, -0.13) * dmg * sq(cot) * pw(1.0 / (cot * sq(s1)), P) * res, 1.0 / (1.0 + 0.5 * P))
    both = lt(xi(Hpl, T, cot), kc) and lt(xi(Hsu, T, cot), kc)
    return Hpl if (cot >= 4.0 or both) else Hsu


@R(V8 + "calculate_correction_term_gamma_N")
def v8_gN(N_waves):
    if N_waves < 1000:
        return sq(1000.0 / N_waves)
    if N_waves > 5000:
        return sq(N_waves / 5000.0) / (1.3 * (1.0 - ex(-3.1e-4 * N_waves)))
    return 1.0


@R(V8 + "calculate_damage_number_S")
def v8_S(Hs, H2p, Tm, N_waves, cot_alpha, P, rho_armour, Dn50=nan, M50=nan, c_pl=8.7, c_s=1.4, rho_water=1025.0):
    D = use_dn50(Dn50, M50, rho_armour)
    v8_valid(Hs=Hs, H2p=H2p, N_waves=N_waves, cot_alpha=cot_alpha, P=P, rho_armour=rho_armour)
    return vdm_S(Hs, H2p, Tm, N_waves, cot_alpha, P, rho_armour, D, c_pl, c_s, rho_water, v8_gN(N_waves))


@R(V8 + "calculate_nominal_rock_diameter_Dn50")
def v8_D(Hs, H2p, Tm, N_waves, cot_alpha, P, rho_armour, S, c_pl=8.7, c_s=1.4, rho_water=1025.0):
    v8_valid(Hs=Hs, H2p=H2p, N_waves=N_waves, cot_alpha=cot_alpha, P=P, rho_armour=rho_armour)
    return vdm_D(Hs, H2p, Tm, N_waves, cot_alpha, P, rho_armour, S, c_pl, c_s, rho_water, v8_gN(N_waves))


@R(V8 + "calculate_significant_wave_height_Hs")
def v8_H(ratio_H2p_Hs, Tm, N_waves, cot_alpha, P, rho_armour, S, Dn50=nan, M50=nan, c_pl=8.7, c_s=1.4, g=9.81,
         rho_water=1025.0):
    D = use_dn50(Dn50, M50, rho_armour)
    v8_valid(N_waves=N_waves, cot_alpha=cot_alpha, P=P, rho_armour=rho_armour)
    return vdm_H(ratio_H2p_Hs, Tm, N_waves, cot_alpha, P, rho_armour, S, D, c_pl, c_s, g, rho_water, v8_gN(N_waves))


@R(VM + "calculate_damage_number_S")
def vm_S(Hs, H2p, Tmm10, N_waves, cot_alpha, P, rho_armour, Dn50=nan, M50=nan, c_pl=8.4, c_s=1.3, rho_water=1025.0):
    D = use_dn50(Dn50, M50, rho_armour)
    vm_valid(Hs, H2p, Tmm10, N_waves, cot_alpha, P, D, rho_armour, rho_water)
    return vdm_S(Hs, H2p, Tmm10, N_waves, cot_alpha, P, rho_armour, D, c_pl, c_s, rho_water, 1.0)


@R(VM + "calculate_nominal_rock_diameter_Dn50")
def vm_D(Hs, H2p, Tmm10, N_waves, cot_alpha, P, rho_armour, S, c_pl=8.4, c_s=1.3, rho_water=1025.0):
    D = vdm_D(Hs, H2p, Tmm10, N_waves, cot_alpha, P, rho_armour, S, c_pl, c_s, rho_water, 1.0)
    vm_valid(Hs, H2p, Tmm10, N_waves, cot_alpha, P, D, rho_armour, rho_water)
    return D


@R(VM + "calculate_significant_wave_height_Hs")
def vm_H(ratio_H2p_Hs, Tmm10, N_waves, cot_alpha, P, rho_armour, S, Dn50=nan, M50=nan, c_pl=8.4, c_s=1.3, g=9.81,
         rho_water=1025.0):
    D = use_dn50(Dn50, M50, rho_armour)
    H = vdm_H(ratio_H2p_Hs, Tmm10, N_waves, cot_alpha, P, rho_armour, S, D, c_pl, c_s, g, rho_water, 1.0)
    vm_valid(H, nan, Tmm10, N_waves, cot_alpha, P, D, rho_armour, rho_water)
    return H


def v21_valid(cot_alpha, P, rho_armour, N_waves):
    v8_valid(N_waves=N_waves, cot_alpha=cot_alpha, P=P, rho_armour=rho_armour)


@R(V21 + "calculate_damage_number_S")
def v21_S(Hs, Tmm10, N_waves, cot_alpha, P, rho_armour, Dn50=nan, M50=nan, c_pl=6.49, c_s=0.97, c_pl_mult=1.0, c_s_mult=1.0):
    with maywarn():
        r = vm_S(Hs, Hs, Tmm10, N_waves, cot_alpha, P, rho_armour, Dn50, M50, c_pl * c_pl_mult, c_s * c_s_mult)
    v21_valid(cot_alpha, P, rho_armour, N_waves)
    return r


@R(V21 + "calculate_nominal_rock_diameter_Dn50")
def v21_D(Hs, Tmm10, N_waves, cot_alpha, P, rho_armour, S, c_pl=6.49, c_s=0.97, c_pl_mult=1.0, c_s_mult=1.0):
    with maywarn():
        r = vm_D(Hs, Hs, Tmm10, N_waves, cot_alpha, P, rho_armour, S, c_pl * c_pl_mult, c_s * c_s_mult)
    v21_valid(cot_alpha, P, rho_armour, N_waves)
    return r


@R(V21 + "calculate_significant_wave_height_Hs")
def v21_H(Tmm10, N_waves, cot_alpha, P, rho_armour, S, Dn50=nan, M50=nan, c_pl=6.49, c_s=0.97, c_pl_mult=1.0,
          c_s_mult=1.0, g=9.81):
    with maywarn():
        r = vm_H(1.0, Tmm10, N_waves, cot_alpha, P, rho_armour, S, Dn50, M50, c_pl * c_pl_mult, c_s * c_s_mult, g)
    v21_valid(cot_alpha, P, rho_armour, N_waves)
    return r


# ---- Etemad-Shahidi (2020) ---------------------------------------------------------------------------------
E = A + "etemadshahidi2020."
FE = "Etemad-Shahidi et al., 2020"


@R(E + "check_validity_range")
def es_valid(Hs=nan, Tmm10=nan, N_waves=nan, cot_alpha=nan, P=nan, S=nan, Dn50=nan, Dn50_core=nan, rho_armour=nan,
             rho_water=1025.0, _calc=False):
    if not (isnan(Hs) or isnan(Tmm10)):
        V("Wave steepness sm-1,0", FE, steep(Hs, Tmm10), 0.003, 0.088)
        if not isnan(cot_alpha):
            V("Iribarren number ksi_m-1,0", FE, xi(Hs, Tmm10, cot_alpha), 0.65, 8.18)
    VI("Cotangent of outer structure slope cot_alpha", FE, cot_alpha, 1.5, 6.0)
    VI("Number of waves N_waves", FE, N_waves, 500, 5000)
    V("Buoyant density Delta", FE, relmass(rho_armour, rho_water), 0.92, 2.05)
    VI("Permeability P", FE, P, 0.1, 0.6)
    if _calc:
        V("Relative core diameter Dn50_core / Dn50", FE, Dn50_core / Dn50, 0.0, 1.0)
    else:
        VR("Relative core diameter Dn50_core / Dn50", FE, Dn50_core, Dn50, 0.0, 1.0)
    if not (isnan(Hs) or isnan(Dn50) or isnan(rho_armour)):
        V("Stability number Ns", FE, Hs / (relmass(rho_armour, rho_water) * Dn50), 1.0, 4.3)
    (V if _calc else VI)("Damage number S", FE, S, 2.0, 12.0)


@R(E + "calculate_permeability_coefficient_Cp")
def es_Cp(Dn50, Dn50_core):
    return pw(1.0 + pw(Dn50_core / Dn50, 0.3), 0.6)


def es_depth(m, use):
    if not use:
        return 1.0
    if isnan(m):
        raise Invalid("m")
    return 1.0 - 3.0 * m


def es_ns1(k, surging):
    """Ns for Cp=1, N=1, S=1, deep"""
    return 3.9 * pw(k, -1.0 / 3.0) if surging else 4.5 * pw(k, -7.0 / 12.0)


@R(E + "calculate_damage_number_S")
def es_S(Hs, Tmm10, N_waves, cot_alpha, rho_armour, Dn50=nan, M50=nan, Dn50_core=nan, M50_core=nan, rho_core=nan,
         rho_water=1025.0, m=nan, use_depth_limited_version=False):
    f = es_depth(m, use_depth_limited_version)
    D = use_dn50(Dn50, M50, rho_armour)
    Dc = use_dn50(Dn50_core, M50_core, rho_core)
    k = xi(Hs, Tmm10, cot_alpha)
    ns = Hs / (relmass(rho_armour, rho_water) * D)
    S = pw(ns / (es_ns1(k, ge(k, 1.8)) * es_Cp(D, Dc) * f), 6) * pw(N_waves, 0.6)
    es_valid(Hs, Tmm10, N_waves, cot_alpha, nan, S, D, Dc, rho_armour, rho_water, _calc=True)
    return S


@R(E + "calculate_nominal_rock_diameter_Dn50")
def es_D(Hs, Tmm10, N_waves, cot_alpha, rho_armour, S, Dn50_core=nan, M50_core=nan, rho_core=nan, m=nan,
         use_depth_limited_version=False, Cp_init=0.5, max_iter=1000, tolerance=1e-5):
    f = es_depth(m, use_depth_limited_version)
    Dc = use_dn50(Dn50_core, M50_core, rho_core)
    k = xi(Hs, Tmm10, cot_alpha)
    base = Hs / relmass(rho_armour, 1025.0) * pw(N_waves, 0.1) * pw(S, -1.0 / 6.0) / (es_ns1(k, ge(k, 1.8)) * f)
    Cp, prev, n = Cp_init, inf, 0
    while True:
        n += 1
        D = base / Cp
        if D <= 0:
            raise Undefined("D<=0")
        Cp = es_Cp(D, Dc)
        d, prev = abs(D - prev), D
        if not gt(d, tol(tolerance)) or n >= max_iter:
            break
        if n > 300:
            raise Undefined("slow")
    fact("iterations", n)
    es_valid(Hs, Tmm10, N_waves, cot_alpha, nan, S, D, Dc, rho_armour, _calc=True)
    return D


@R(E + "calculate_significant_wave_height_Hs")
def es_H(Tmm10, N_waves, cot_alpha, rho_armour, S, Dn50=nan, M50=nan, Dn50_core=nan, M50_core=nan, rho_core=nan,
         m=nan, use_depth_limited_version=False, g=9.81):
    f = es_depth(m, use_depth_limited_version)
    D = use_dn50(Dn50, M50, rho_armour)
    Dc = use_dn50(Dn50_core, M50_core, rho_core)
    A0 = f * es_Cp(D, Dc) * pw(S, 1.0 / 6.0) * pw(N_waves, -0.1) * relmass(rho_armour, 1025.0) * D
    s1 = 2 * pi / (g * Tmm10 * Tmm10)
    Hs_ = pw(A0 * 3.9 * pw(cot_alpha * sq(s1), 1.0 / 3.0), 6.0 / 5.0)
    Hp = pw(A0 * 4.5 * pw(cot_alpha * sq(s1), 7.0 / 12.0), 24.0 / 17.0)
    H = Hp if (lt(xi(Hp, Tmm10, cot_alpha), 1.8) and lt(xi(Hs_, Tmm10, cot_alpha), 1.8)) else Hs_
    es_valid(H, Tmm10, N_waves, cot_alpha, nan, S, D, Dc, rho_armour, _calc=True)
    return H


# ---- Scaravaglione (2025) --------------------------------------------------------------------------------------
SC = A + "scaravaglione2025."
FS = "Scaravaglione et al. (2025)"


@R(SC + "check_validity_range")
def sc_valid(Hm0=nan, Tmm10=nan, N_waves=nan, cot_alpha=nan, P=nan, Dn50=nan, Dn50_core=nan, rho_armour=nan,
             rho_water=1025.0, _calc=False):
    VI("Notional permeability P", FS, P, 0.37, 0.55)
    V("Stability number Ns", FS, Hm0 / (relmass(rho_armour, rho_water) * Dn50), 1.47, 3.44)
    if not (isnan(Hm0) or isnan(Tmm10)):
        V("Wave steepness s_m-1,0", FS, steep(Hm0, Tmm10), 0.02, 0.049)
        if not isnan(cot_alpha):
            V("Iribarren number ksi_m-1,0", FS, xi(Hm0, Tmm10, cot_alpha), 1.3, 15.0)
    VI("Cotangent of outer structure slope cot_alpha", FS, cot_alpha, 2.0, 2.0)
    VI("Number of waves N_waves", FS, N_waves, 652, 4064)
    if _calc:
        V("Ratio core to armour Dn50_core / Dn50", FS, Dn50_core / Dn50, 0.21, 0.71)
    else:
        VR("Ratio core to armour Dn50_core / Dn50", FS, Dn50_core, Dn50, 0.21, 0.71)


@R(SC + "calculate_damage_number_S")
def sc_S(Hm0, Tmm10, N_waves, cot_alpha, rho_armour, rho_core, Dn50=nan, Dn50_core=nan, M50=nan, M50_core=nan,
         c_VGnew=3.3, rho_water=1025.0):
    D = use_dn50(Dn50, M50, rho_armour)
    Dc = use_dn50(Dn50_core, M50_core, rho_core)
    ns = Hm0 / (relmass(rho_armour, rho_water) * (D + Dc))
    sc_valid(Hm0, Tmm10, N_waves, cot_alpha, nan, D, Dc, rho_armour, rho_water, _calc=True)
    return pw(ns / (c_VGnew * sq(cot_alpha) * pw(steep(Hm0, Tmm10), 0.1)), 5) * sq(N_waves)


@R(SC + "calculate_nominal_rock_diameter_Dn50")
def sc_D(Hm0, Tmm10, N_waves, cot_alpha, rho_armour, rho_core, S, Dn50_core=nan, M50_core=nan, c_VGnew=3.3, rho_water=1025.0):
    Dc = use_dn50(Dn50_core, M50_core, rho_core)
    D = (Hm0 / relmass(rho_armour, rho_water) / (c_VGnew * sq(cot_alpha) * pw(steep(Hm0, Tmm10), 0.1))
         * pw(sq(N_waves) / S, 0.2) - Dc)
    if D == 0:
        raise Undefined("0")
    sc_valid(Hm0, Tmm10, N_waves, cot_alpha, nan, D, Dc, rho_armour, rho_water, _calc=True)
    return D


@R(SC + "calculate_significant_wave_height_Hm0")
def sc_H(Tmm10, N_waves, cot_alpha, rho_armour, rho_core, S, Dn50=nan, Dn50_core=nan, M50=nan, M50_core=nan,
         c_VGnew=3.3, g=9.81, rho_water=1025.0):
    D = use_dn50(Dn50, M50, rho_armour)
    Dc = use_dn50(Dn50_core, M50_core, rho_core)
    s1 = 2 * pi / (g * Tmm10 * Tmm10)
    H = pw(relmass(rho_armour, rho_water) * (D + Dc) * c_VGnew * sq(cot_alpha) * pw(s1, 0.1) * pw(S / sq(N_waves), 0.2), 10.0 / 9.0)
    sc_valid(H, Tmm10, N_waves, cot_alpha, nan, D, Dc, rho_armour, rho_water, _calc=True)
    return H
