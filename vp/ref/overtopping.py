from .ctx import *
from .reg import R
from . import runup as ru

T = "hydraulic.wave_overtopping.taw2002."
E = "hydraulic.wave_overtopping.eurotop2018."
E7 = "hydraulic.wave_overtopping.eurotop2007."
TAW_Z = (1.75, 4.3, 1.6, 1.0)
EU_Z = (1.75, 4.3, 1.5, 1.07)
EU_Z_BEST = (1.65, 4.0, 1.5, 1.0)


@R(T + "check_validity_range")
def taw_valid(Hm0=nan, Tmm10=nan, beta=nan, cot_alpha=nan, cot_alpha_down=nan, cot_alpha_up=nan,
              gamma_f=nan, gamma_b=nan, gamma_beta=nan, gamma_v=nan, _calc=False):
    F = "TAW (2002)"
    v = V if _calc else VI
    if not (isnan(Hm0) or isnan(Tmm10)):
        V("Wave steepness sm-1,0", F, steep(Hm0, Tmm10), 0.0, 0.07)
        if not isnan(cot_alpha):
            k = xi(Hm0, Tmm10, cot_alpha)
            V("Iribarren number ksi_m-1,0", F, k, 0.0, 7.0)
            V("gamma_b * ksi_m-1,0", F, gamma_b * k, 0.5, 10.0)
    VI("Cotangent alpha lower slope", F, cot_alpha_down, 1.0, 7.0)
    VI("Cotangent alpha upper slope", F, cot_alpha_up, 1.0, 7.0)
    VI("Incident wave angle beta", F, beta, 0.0, 90.0)
    v("Influence factor berm gamma_b", F, gamma_b, 0.4, 1.0)
    VI("Influence factor roughness gamma_f", F, gamma_f, 0.4, 1.0)
    v("Influence factor oblique waves gamma_beta", F, gamma_beta, 0.4, 1.0)
    VI("Influence factor vertical wall gamma_v", F, gamma_v, 0.4, 1.0)


@R(T + "calculate_influence_oblique_waves_gamma_beta")
def taw_gbeta(beta, c_gamma_beta=0.0033, max_angle=80.0):
    return ru.gamma_beta_linear(beta, c_gamma_beta, max_angle)


@R(T + "calculate_influence_crest_wall_gamma_v")
def taw_gv(alpha_wall_deg):
    return 1.0 if alpha_wall_deg <= 45 else 1.35 - 0.0078 * alpha_wall_deg


def taw_setup(Hm0, Tmm10, ca, cd, cu, beta, B_berm, db, gamma_beta, gamma_b, gamma_f, gamma_v, sigma, best):
    c1, c3 = (4.75, 2.6) if best else (4.3, 2.3)
    if sigma != 0:
        if best:
            c1 += 0.5 * sigma
            c3 += 0.35 * sigma
        else:
            other("Sigma is only applicable to the best fit")
    if ru.need_gbeta(beta, gamma_beta):
        gamma_beta = ru.gamma_beta_linear(beta, 0.0033, 80.0)
    cot, gb = ru.geometry(Hm0, Tmm10, ca, cd, cu, B_berm, db, gamma_f, gamma_beta, gamma_b, TAW_Z, TAW_Z)
    k = xi(Hm0, Tmm10, cot)
    gf = ru.gamma_f_adj(gamma_f, gb, k)
    taw_valid(Hm0, Tmm10, beta, cot, cd, cu, gamma_f, gb, gamma_beta, gamma_v, _calc=True)
    return c1, c3, cot, gb, gf, gamma_beta, k


@R(T + "calculate_dimensionless_overtopping_discharge_q")
def taw_qd(Hm0, Tmm10, Rc, cot_alpha=nan, cot_alpha_down=nan, cot_alpha_up=nan, beta=nan, B_berm=0.0, db=0.0,
           gamma_beta=nan, gamma_b=nan, gamma_f=1.0, gamma_v=1.0, sigma=0, use_best_fit=False):
    c1, c3, cot, gb, gf, gbeta, k = taw_setup(Hm0, Tmm10, cot_alpha, cot_alpha_down, cot_alpha_up, beta, B_berm, db,
                                              gamma_beta, gamma_b, gamma_f, gamma_v, sigma, use_best_fit)
    r = Rc / Hm0
    a = 0.067 * sq(cot) * gb * k * ex(-c1 * r / (k * gb * gf * gbeta * gamma_v))
    b = 0.2 * ex(-c3 * r / (gf * gbeta))
    return (b, True) if le(b, a) else (a, False)


@R(T + "calculate_overtopping_discharge_q")
def taw_q(Hm0, Tmm10, Rc, cot_alpha=nan, cot_alpha_down=nan, cot_alpha_up=nan, beta=nan, B_berm=0.0, db=0.0,
          gamma_beta=nan, gamma_b=nan, gamma_f=1.0, gamma_v=1.0, sigma=0, g=9.81, use_best_fit=False):
    q, m = taw_qd(Hm0, Tmm10, Rc, cot_alpha, cot_alpha_down, cot_alpha_up, beta, B_berm, db, gamma_beta, gamma_b,
                  gamma_f, gamma_v, sigma, use_best_fit)
    return q * sq(g) * pw(Hm0, 1.5), m


@R(T + "q_diml_max_equation")
def taw_qmax(Hm0, Rc, gamma_beta, gamma_f, c3, cor3=0.0, c2=0.2):
    return c2 * ex(-(c3 + cor3) * Rc / (Hm0 * gamma_f * gamma_beta))


@R(T + "Rc_diml_max_equation")
def taw_rmax(Hm0, q, gamma_beta, gamma_f, c3, cor3=0.0, c2=0.2, g=9.81):
    return -gamma_f * gamma_beta / (c3 + cor3) * ln(q / (c2 * sq(g) * pw(Hm0, 1.5)))


@R(T + "calculate_dimensionless_crest_freeboard")
def taw_rd(Hm0, Tmm10, q, cot_alpha=nan, cot_alpha_down=nan, cot_alpha_up=nan, beta=nan, B_berm=0.0, db=0.0,
           gamma_beta=nan, gamma_b=nan, gamma_f=1.0, gamma_v=1.0, sigma=0, g=9.81, use_best_fit=False):
    c1, c3, cot, gb, gf, gbeta, k = taw_setup(Hm0, Tmm10, cot_alpha, cot_alpha_down, cot_alpha_up, beta, B_berm, db,
                                              gamma_beta, gamma_b, gamma_f, gamma_v, sigma, use_best_fit)
    qs = q / (sq(g) * pw(Hm0, 1.5))
    a = -(k * gb * gf * gbeta * gamma_v) / c1 * ln(qs / (0.067 * sq(cot) * gb * k))
    b = -(gf * gbeta) / c3 * ln(qs / 0.2)
    return (b, True) if le(b, a) else (a, False)


@R(T + "calculate_crest_freeboard_Rc")
def taw_r(Hm0, *a, **k):
    r, m = taw_rd(Hm0, *a, **k)
    return r * Hm0, m


# ---- EurOtop (2018) --------------------------------------------------------------------
@R(E + "check_validity_range_rubble_mound")
def eu_rm_valid(cot_alpha=nan, _calc=False):
    (V if _calc else VI)("Cotangent alpha", "EurOtop (2018) - rubble mound", cot_alpha, 4.0 / 3.0, 2.0)


@R(E + "check_best_fit")
def eu_best(c1, c2, c3, c4, use_best_fit):
    return (2.7, 0.09, 1.5, 0.023) if use_best_fit else (c1, c2, c3, c4)


@R(E + "calculate_influence_oblique_waves_gamma_beta")
def eu_gbeta(beta, gamma_f, gamma_f_crit=0.6, c_gamma_beta_smooth=0.0033, c_gamma_beta_rough=0.0063, max_angle=80.0):
    return ru.rough_gbeta(beta, gamma_f, gamma_f_crit, c_gamma_beta_smooth, c_gamma_beta_rough, max_angle)


def eu_setup(Hm0, Tmm10, beta, gamma_beta, gamma_b, gamma_f, B_berm, db, ca, cd, cu, best):
    if ru.need_gbeta(beta, gamma_beta):
        gamma_beta = ru.rough_gbeta(beta, gamma_f, 0.6, 0.0033, 0.0063, 80.0)
    cot, gb = ru.geometry(Hm0, Tmm10, ca, cd, cu, B_berm, db, gamma_f, gamma_beta, gamma_b,
                          EU_Z_BEST if best else EU_Z, EU_Z)
    k = xi(Hm0, Tmm10, cot)
    return cot, gb, ru.gamma_f_adj(gamma_f, gb, k), gamma_beta, k


def weib(x):
    return ex(-pw(x, 1.3)) if x >= 0 else nan


@R(E + "q_diml_max_equation")
def eu_qmax(Hm0, Rc, gamma_beta=nan, gamma_f=1.0, gamma_star=1.0, c2=0.1035, c3=1.35):
    return c2 * weib(c3 * Rc / (Hm0 * gamma_f * gamma_beta * gamma_star))


@R(E + "Rc_diml_max_equation")
def eu_rmax(Hm0, q, gamma_beta=nan, gamma_f=1.0, gamma_star=1.0, c2=0.1035, c3=1.35, g=9.81):
    return pw(-ln(q / (sq(g) * pw(Hm0, 1.5) * c2)), 1 / 1.3) * gamma_f * gamma_beta * gamma_star / c3


@R(E + "calculate_dimensionless_overtopping_discharge_q")
def eu_qd(Hm0, Tmm10, Rc, beta=nan, gamma_beta=nan, gamma_b=nan, gamma_f=1.0, gamma_v=1.0, gamma_star=1.0,
          B_berm=0.0, db=0.0, cot_alpha=nan, cot_alpha_down=nan, cot_alpha_up=nan,
          c1=2.5, c2=0.1035, c3=1.35, c4=0.026, use_best_fit=False):
    c1, c2, c3, c4 = eu_best(c1, c2, c3, c4, use_best_fit)
    cot, gb, gf, gbeta, k = eu_setup(Hm0, Tmm10, beta, gamma_beta, gamma_b, gamma_f, B_berm, db, cot_alpha,
                                     cot_alpha_down, cot_alpha_up, use_best_fit)
    a = c4 * sq(cot) * gb * k * weib(c1 * Rc / (Hm0 * k * gb * gf * gbeta * gamma_v))
    b = eu_qmax(Hm0, Rc, gbeta, gf, gamma_star, c2, c3)
    if isnan(a) or isnan(b):
        return nan, False
    return (b, True) if le(b, a) else (a, False)


@R(E + "calculate_overtopping_discharge_q")
def eu_q(Hm0, Tmm10, Rc, g=9.81, **kw):
    q, m = eu_qd(Hm0, Tmm10, Rc, **kw)
    return q * sq(g) * pw(Hm0, 1.5), m


@R(E + "calculate_dimensionless_crest_freeboard")
def eu_rd(Hm0, Tmm10, q, beta=nan, gamma_beta=nan, gamma_b=nan, gamma_f=1.0, gamma_v=1.0, gamma_star=1.0,
          B_berm=0.0, db=0.0, cot_alpha=nan, cot_alpha_down=nan, cot_alpha_up=nan,
          c1=2.5, c2=0.1035, c3=1.35, c4=0.026, use_best_fit=False, g=9.81):
    c1, c2, c3, c4 = eu_best(c1, c2, c3, c4, use_best_fit)
    cot, gb, gf, gbeta, k = eu_setup(Hm0, Tmm10, beta, gamma_beta, gamma_b, gamma_f, B_berm, db, cot_alpha,
                                     cot_alpha_down, cot_alpha_up, use_best_fit)
    qs = q / (sq(g) * pw(Hm0, 1.5))
    a = pw(-ln(qs / (c4 * sq(cot) * gb * k)), 1 / 1.3) * k * gb * gf * gbeta * gamma_v / c1
    b = eu_rmax(Hm0, q, gbeta, gf, gamma_star, c2, c3, g)
    if isnan(a) or isnan(b):
        return nan, False
    return (b, True) if le(b, a) else (a, False)


@R(E + "calculate_crest_freeboard_Rc")
def eu_r(Hm0, *a, **k):
    r, m = eu_rd(Hm0, *a, **k)
    return r * Hm0, m


def eu_rm_setup(Hm0, Tmm10, beta, gamma_beta, gamma_f, B_berm, db, ca, cd, cu, c2, c3, best):
    if best:
        c2, c3 = 0.09, 1.5
    cot, _, gf, gbeta, _ = eu_setup(Hm0, Tmm10, beta, gamma_beta, 1.0, gamma_f, B_berm, db, ca, cd, cu, best)
    eu_rm_valid(cot, _calc=not isnan(cd) and not isnan(cu))
    return c2, c3, gf, gbeta


@R(E + "calculate_dimensionless_overtopping_discharge_q_rubble_mound")
def eu_rm_qd(Hm0, Tmm10, Rc, beta=nan, gamma_beta=nan, gamma_f=1.0, B_berm=0.0, db=0.0, cot_alpha=nan,
             cot_alpha_down=nan, cot_alpha_up=nan, c2=0.1035, c3=1.35, use_best_fit=False):
    c2, c3, gf, gbeta = eu_rm_setup(Hm0, Tmm10, beta, gamma_beta, gamma_f, B_berm, db, cot_alpha, cot_alpha_down,
                                    cot_alpha_up, c2, c3, use_best_fit)
    return eu_qmax(Hm0, Rc, gbeta, gf, 1.0, c2, c3)


@R(E + "calculate_overtopping_discharge_q_rubble_mound")
def eu_rm_q(Hm0, Tmm10, Rc, g=9.81, **kw):
    return eu_rm_qd(Hm0, Tmm10, Rc, **kw) * sq(g) * pw(Hm0, 1.5)


@R(E + "calculate_dimensionless_crest_freeboard_rubble_mound")
def eu_rm_rd(Hm0, Tmm10, q, beta=nan, gamma_beta=nan, gamma_f=1.0, B_berm=0.0, db=0.0, cot_alpha=nan,
             cot_alpha_down=nan, cot_alpha_up=nan, c2=0.1035, c3=1.35, use_best_fit=False, g=9.81):
    c2, c3, gf, gbeta = eu_rm_setup(Hm0, Tmm10, beta, gamma_beta, gamma_f, B_berm, db, cot_alpha, cot_alpha_down,
                                    cot_alpha_up, c2, c3, use_best_fit)
    return eu_rmax(Hm0, q, gbeta, gf, 1.0, c2, c3, g)


@R(E + "calculate_crest_freeboard_Rc_rubble_mound")
def eu_rm_r(Hm0, *a, **k):
    return eu_rm_rd(Hm0, *a, **k) * Hm0


# ---- EurOtop (2007) --------------------------------------------------------------------
@R(E7 + "check_best_fit")
def e7_best(c2, c3, use_best_fit):
    return (0.2, 2.6) if use_best_fit else (c2, c3)


def e7_setup(Hm0, Tmm10, beta, gamma_beta, gamma_f, cot_alpha, c2, c3, best):
    c2, c3 = e7_best(c2, c3, best)
    if ru.need_gbeta(beta, gamma_beta):
        gamma_beta = ru.gamma_beta_linear(beta, 0.0022, 80.0)
    if isnan(cot_alpha):
        raise Undefined("no slope")
    return c2, c3, ru.gamma_f_adj(gamma_f, 1.0, xi(Hm0, Tmm10, cot_alpha)), gamma_beta


@R(E7 + "calculate_dimensionless_overtopping_discharge_q_rubble_mound")
def e7_qd(Hm0, Tmm10, Rc, beta=nan, gamma_beta=nan, gamma_f=1.0, cot_alpha=nan, c2=0.2, c3=2.3, use_best_fit=False):
    c2, c3, gf, gbeta = e7_setup(Hm0, Tmm10, beta, gamma_beta, gamma_f, cot_alpha, c2, c3, use_best_fit)
    return c2 * ex(-c3 * Rc / (Hm0 * gf * gbeta))


@R(E7 + "calculate_overtopping_discharge_q_rubble_mound")
def e7_q(Hm0, Tmm10, Rc, g=9.81, **kw):
    return e7_qd(Hm0, Tmm10, Rc, **kw) * sq(g) * pw(Hm0, 1.5)


@R(E7 + "calculate_dimensionless_crest_freeboard_rubble_mound")
def e7_rd(Hm0, Tmm10, q, beta=nan, gamma_beta=nan, gamma_f=1.0, cot_alpha=nan, c2=0.2, c3=2.3, use_best_fit=False):
    c2, c3, gf, gbeta = e7_setup(Hm0, Tmm10, beta, gamma_beta, gamma_f, cot_alpha, c2, c3, use_best_fit)
    return -ln(q / (c2 * sq(9.81) * pw(Hm0, 1.5))) / c3 * gf * gbeta


@R(E7 + "calculate_crest_freeboard_Rc_rubble_mound")
def e7_r(Hm0, *a, **k):
    return e7_rd(Hm0, *a, **k) * Hm0


# ---- Van Gent (2002) overtopping velocity ------------------------------------------------
@R("hydraulic.wave_overtopping.vangent2002_velocity.calculate_maximum_wave_overtopping_velocity_uXp")
def uX(Hs, zXp, Rc, Bc, gamma_f, gamma_f_Crest, cu1=1.7, cu2=0.1, g=9.81):
    return cu1 * sq(g * gamma_f_Crest * (zXp - Rc) / gamma_f) / (1.0 + cu2 * Bc / Hs)


# ---- De Ridder (2024) --------------------------------------------------------------------
D4 = "hydraulic.wave_overtopping.deridder2024."
F4 = "De Ridder et al. (2024)"


@R(D4 + "check_validity_range")
def d4_valid(h=nan, Hm0=nan, Hm0_HF=nan, Hm0_LF=nan, Tmm10=nan, Tmm10_HF=nan, Rc=nan, cot_alpha=nan,
             m_foreshore_slope=nan, Dn50=nan, _calc=False):
    if not (isnan(Hm0) or isnan(Tmm10)):
        V("Wave steepness sm-1,0", F4, steep(Hm0, Tmm10), 0.001, 0.04)
        if not isnan(cot_alpha):
            V("Iribarren number Ksi_m-1,0", F4, xi(Hm0, Tmm10, cot_alpha), 0.05, 1.11)
    if not (isnan(Hm0_HF) or isnan(Tmm10_HF)):
        V("Short wave steepness sm-1,0_HF", F4, steep(Hm0_HF, Tmm10_HF), 0.004, 0.047)
    VI("Foreshore slope m", F4, m_foreshore_slope, 1.0 / 100.0, 1.0 / 20.0)
    if _calc:
        V("Rc/Hm0", F4, Rc / Hm0, 0.8, 3.72)
    else:
        VR("Rc/Hm0", F4, Rc, Hm0, 0.8, 3.72)
    VR("Dn50/Hm0", F4, Dn50, Hm0, 0.12, 0.89)
    VR("Hm0_LF/Hm0", F4, Hm0_LF, Hm0, 0.1, 0.81)
    VR("h/Hm0", F4, h, Hm0, 0.57, 4.95)


def d4_calc(Hm0, s, Rc, LF=nan, computed=False):
    V("Short wave steepness sm-1,0_HF", F4, s, 0.004, 0.047)
    (V("Rc/Hm0", F4, Rc / Hm0, 0.8, 3.72) if computed else VR("Rc/Hm0", F4, Rc, Hm0, 0.8, 3.72))
    VR("Hm0_LF/Hm0", F4, LF, Hm0, 0.1, 0.81)


@R(D4 + "calculate_dimensionless_overtopping_discharge_eq24")
def d4_qd24(Hm0, smm10_HF, gamma_f, Rc):
    d4_calc(Hm0, smm10_HF, Rc)
    return 0.74 * ex(-8.51 * pw(smm10_HF, 0.32) * Rc / Hm0 / gamma_f)


@R(D4 + "calculate_overtopping_discharge_q_eq24")
def d4_q24(Hm0, smm10_HF, gamma_f, Rc, g=9.81):
    return d4_qd24(Hm0, smm10_HF, gamma_f, Rc) * sq(g) * pw(Hm0, 1.5)


@R(D4 + "calculate_dimensionless_overtopping_discharge_eq26")
def d4_qd26(Hm0, smm10_HF, Hm0_LF, gamma_f, Rc):
    d4_calc(Hm0, smm10_HF, Rc, Hm0_LF)
    return 0.5 * ex(-7.91 * pw(smm10_HF, 0.3) * (Rc - 0.21 * Hm0_LF) / Hm0 / gamma_f)


@R(D4 + "calculate_overtopping_discharge_q_eq26")
def d4_q26(Hm0, smm10_HF, Hm0_LF, gamma_f, Rc, g=9.81):
    return d4_qd26(Hm0, smm10_HF, Hm0_LF, gamma_f, Rc) * sq(g) * pw(Hm0, 1.5)


@R(D4 + "calculate_dimensionless_crest_freeboard_discharge_q_eq24")
def d4_rd24(Hm0, smm10_HF, gamma_f, q, g=9.81):
    r = -gamma_f * ln(q / (0.74 * sq(g) * pw(Hm0, 1.5))) / (8.51 * pw(smm10_HF, 0.32))
    d4_calc(Hm0, smm10_HF, r * Hm0, computed=True)
    return r


@R(D4 + "calculate_crest_freeboard_discharge_q_eq24")
def d4_r24(Hm0, *a, **k):
    return d4_rd24(Hm0, *a, **k) * Hm0


@R(D4 + "calculate_crest_freeboard_discharge_q_eq26")
def d4_r26(Hm0, smm10_HF, Hm0_LF, gamma_f, q, g=9.81):
    r = -gamma_f * Hm0 * ln(q / (0.5 * sq(g) * pw(Hm0, 1.5))) / (7.91 * pw(smm10_HF, 0.3)) + 0.21 * Hm0_LF
    d4_calc(Hm0, smm10_HF, r, Hm0_LF, computed=True)
    return r


# ---- De Ridder (2026) --------------------------------------------------------------------
D6 = "hydraulic.wave_overtopping.deridder2026."
F6 = "De Ridder et al. (2026)"


@R(D6 + "check_validity_range")
def d6_valid(h=nan, Hm0=nan, Hm0_HF=nan, Hm0_LF=nan, Tmm10=nan, Tmm10_HF=nan, Rc=nan, Dn50=nan, theta=nan):
    if not (isnan(Hm0) or isnan(Tmm10)):
        V("Wave steepness sm-1,0", F6, steep(Hm0, Tmm10), 0.003, 0.041)
    if not (isnan(Hm0_HF) or isnan(Tmm10_HF)):
        V("Short wave steepness sm-1,0_HF", F6, steep(Hm0_HF, Tmm10_HF), 0.012, 0.049)
    VR("Rc/Hm0", F6, Rc, Hm0, 0.98, 1.94)
    VR("Dn50/Hm0", F6, Dn50, Hm0, 0.18, 0.35)
    VR("Hm0_LF/Hm0", F6, Hm0_LF, Hm0, 0.15, 0.55)
    VR("h/Hm0", F6, h, Hm0, 1.41, 2.15)
    VI("theta", F6, theta, 0.0, 56)


def d6_calc(Hm0, s, Rc, LF=nan, theta=nan, computed=False):
    V("Short wave steepness sm-1,0_HF", F6, s, 0.012, 0.049)
    (V("Rc/Hm0", F6, Rc / Hm0, 0.98, 1.94) if computed else VR("Rc/Hm0", F6, Rc, Hm0, 0.98, 1.94))
    VR("Hm0_LF/Hm0", F6, LF, Hm0, 0.15, 0.55)
    VI("theta", F6, theta, 0.0, 56)


@R(D6 + "calculate_gamma_beta")
def d6_gb(theta):
    c = math.cos(math.radians(theta))
    return 0.35 + 0.65 * c * c


@R(D6 + "calculate_dimensionless_overtopping_discharge_eq28")
def d6_qd28(Hm0, smm10_HF, gamma_f, Rc, theta=0.0):
    d6_calc(Hm0, smm10_HF, Rc, theta=theta)
    return 0.16 * ex(-6.93 * pw(smm10_HF, 0.36) * Rc / (Hm0 * gamma_f * d6_gb(theta)))


@R(D6 + "calculate_overtopping_discharge_q_eq28")
def d6_q28(Hm0, smm10_HF, gamma_f, Rc, g=9.81, theta=0.0):
    return d6_qd28(Hm0, smm10_HF, gamma_f, Rc, theta) * sq(g) * pw(Hm0, 1.5)


@R(D6 + "calculate_dimensionless_overtopping_discharge_eq32")
def d6_qd32(Hm0_HF, smm10_HF, Hm0_LF, gamma_f, Rc, theta=0.0):
    d6_calc(Hm0_HF, smm10_HF, Rc, Hm0_LF, theta)
    return 0.05 * ex(-10.4 * sq(smm10_HF) * (Rc - 0.97 * Hm0_LF) / (Hm0_HF * gamma_f * d6_gb(theta)))


@R(D6 + "calculate_overtopping_discharge_q_eq32")
def d6_q32(Hm0_HF, smm10_HF, Hm0_LF, gamma_f, Rc, g=9.81, theta=0.0):
    return d6_qd32(Hm0_HF, smm10_HF, Hm0_LF, gamma_f, Rc, theta) * sq(g) * pw(Hm0_HF, 1.5)


@R(D6 + "calculate_dimensionless_crest_freeboard_discharge_q_eq28")
def d6_rd28(Hm0, smm10_HF, gamma_f, q, g=9.81, gamma_beta=1.0):
    r = -gamma_f * gamma_beta * ln(q / (0.16 * sq(g) * pw(Hm0, 1.5))) / (6.93 * pw(smm10_HF, 0.36))
    d6_calc(Hm0, smm10_HF, r * Hm0, computed=True)
    return r


@R(D6 + "calculate_crest_freeboard_discharge_q_eq28")
def d6_r28(Hm0, smm10_HF, gamma_f, q, g=9.81, theta=0.0):
    VI("theta", F6, theta, 0.0, 56)
    return Hm0 * d6_rd28(Hm0, smm10_HF, gamma_f, q, g, d6_gb(theta))


@R(D6 + "calculate_crest_freeboard_discharge_q_eq32")
def d6_r32(Hm0_HF, smm10_HF, Hm0_LF, gamma_f, q, g=9.81, theta=0.0):
    r = (-gamma_f * d6_gb(theta) * Hm0_HF * ln(q / (0.05 * sq(g) * pw(Hm0_HF, 1.5))) / (10.4 * sq(smm10_HF))
         + 0.97 * Hm0_LF)
    d6_calc(Hm0_HF, smm10_HF, r, Hm0_LF, theta, computed=True)
    return r


# ---- Van Gent (2021) caisson ---------------------------------------------------------------
V1 = "hydraulic.wave_overtopping.vangent2021_caisson."
FV1 = "Van Gent (2021)"


def v1_valid(Hm0, beta, Rc, q_diml, computed_rc=False):
    if computed_rc:
        V("Dimensionless freeboard Rc/Hm0", FV1, Rc / Hm0, 1.2, 2.9)
    else:
        VR("Dimensionless freeboard Rc/Hm0", FV1, Rc, Hm0, 1.2, 2.9)
    V("Dimensionless overtopping discharge q", FV1, q_diml, 0.0, 0.0012)
    VI("Incident wave angle beta", FV1, beta, 0.0, 75.0)


@R(V1 + "check_validity_range")
def v1_valid_pub(Hm0=nan, Tmm10=nan, beta=nan, Rc=nan, q_diml=nan):
    if not (isnan(Hm0) or isnan(Tmm10)):
        V("Wave steepness sm-1,0", FV1, steep(Hm0, Tmm10), 0.015, 0.041)
    VR("Dimensionless freeboard Rc/Hm0", FV1, Rc, Hm0, 1.2, 2.9)
    VI("Dimensionless overtopping discharge q", FV1, q_diml, 0.0, 0.0012)
    VI("Incident wave angle beta", FV1, beta, 0.0, 75.0)


def v1_coef(c, short, crossing, parapet):
    short = bool(short) or bool(crossing)
    if c == 1.0:
        a, b, cb, gp = (0.2, 3.9, 0.75, 0.89) if short else (0.2, 4.0, 0.8, None)
    elif c == 1.3:
        a, b, cb, gp = (0.047, 2.57, 0.7, 0.85) if short else (0.047, 2.7, 0.8, None)
    else:
        raise Invalid("exponent")
    if not parapet:
        gp = 1.0
    elif gp is None:
        raise Invalid("parapet with long-crested waves")
    return a, b, cb, gp


@R(V1 + "calculate_influence_oblique_waves_gamma_beta")
def v1_gb(beta, gamma_p, c_beta):
    r = c_beta / gamma_p
    c = math.cos(math.radians(beta)) if not isnan(beta) else nan
    return r + (1.0 - r) * c * c


def v1_setup(beta, gamma_beta, Hm0_swell, c, c_swell, short, crossing, parapet):
    a, b, cb, gp = v1_coef(c, short, crossing, parapet)
    if crossing and isnan(Hm0_swell):
        raise Invalid("swell")
    swell = c_swell * Hm0_swell if crossing else 0.0
    if isnan(gamma_beta):
        gamma_beta = v1_gb(beta, gp, cb)
    return a, b / (gamma_beta * gp), swell


@R(V1 + "calculate_dimensionless_overtopping_discharge_q")
def v1_qd(Hm0, Rc, beta=nan, gamma_beta=nan, Hm0_swell=nan, c=1.0, c_swell=0.4, short_crested_waves=True,
          crossing_seas=False, parapet=False):
    a, b, sw = v1_setup(beta, gamma_beta, Hm0_swell, c, c_swell, short_crested_waves, crossing_seas, parapet)
    q = a * ex(-b * pw((Rc - sw) / Hm0, c))
    v1_valid(Hm0, beta, Rc, q)
    return q


@R(V1 + "calculate_overtopping_discharge_q")
def v1_q(Hm0, Rc, g=9.81, **k):
    return v1_qd(Hm0, Rc, **k) * sq(g) * pw(Hm0, 1.5)


@R(V1 + "calculate_dimensionless_crest_freeboard")
def v1_rd(Hm0, q, beta=nan, gamma_beta=nan, Hm0_swell=nan, c=1.0, c_swell=0.4, short_crested_waves=True,
          crossing_seas=False, parapet=False, g=9.81):
    a, b, sw = v1_setup(beta, gamma_beta, Hm0_swell, c, c_swell, short_crested_waves, crossing_seas, parapet)
    r = pw(-ln(q / (a * sq(g) * pw(Hm0, 1.5))) / b, 1.0 / c) + sw / Hm0
    v1_valid(Hm0, beta, r * Hm0, nan, computed_rc=True)
    return r


@R(V1 + "calculate_crest_freeboard_Rc")
def v1_r(Hm0, *a, **k):
    return v1_rd(Hm0, *a, **k) * Hm0


# ---- Van Gent (2025) -------------------------------------------------------------------------
V5 = "hydraulic.wave_overtopping.vangent2025."
FV5 = "Van Gent et al. (2025)"


@R(V5 + "check_validity_range")
def v5_valid(Hm0=nan, Hm0_deep=nan, Tmm10=nan, beta=nan, h=nan, cot_alpha=nan, Dn50=nan, Rc=nan, Ac=nan, Gc=nan,
             B_berm=nan, db=nan, _computed=False):
    VI("Cotangent alpha slope", FV5, cot_alpha, 1.5, 8.0)
    if not (isnan(Hm0) or isnan(Tmm10)):
        V("Wave steepness sm-1,0", FV5, steep(Hm0, Tmm10), 0.001, 0.042)
        if not isnan(cot_alpha):
            V("Iribarren number ksi_m-1,0", FV5, xi(Hm0, Tmm10, cot_alpha), 0.05, 6.0)
    VR("Relative water depth h / Hm0", FV5, h, Hm0, 0.6, 5.0)
    VR("Ratio Hm0_deep / h", FV5, Hm0_deep, h, 0.0, 1.0)
    if _computed:
        V("Non-dimensional crest freeboard Rc / Hm0", FV5, Rc / Hm0, 0.6, 5.0)
    else:
        VR("Non-dimensional crest freeboard Rc / Hm0", FV5, Rc, Hm0, 0.6, 5.0)
    VR("Non-dimensional stone diameter Dn50 / Hm0", FV5, Dn50, Hm0, 0.12, 0.9)
    V("Non-dimensional protruding part of crest wall (Rc - Ac) / Hm0", FV5, (Rc - Ac) / Hm0, 0.0, 0.68)
    VR("Non-dimensional armour width in front of crest wall Gc / Hm0", FV5, Gc, Hm0, 0.6, 5.0)
    VR("Non-dimensional Berm width B / Hm0", FV5, B_berm, Hm0, 0.6, 5.0)
    VR("Non-dimensional Berm height db / Hm0", FV5, db, Hm0, -1.7, 0.5)
    VI("Incident wave angle beta", FV5, beta, 0.0, 75.0)


@R(V5 + "calculate_influence_friction_gamma_f")
def v5_gf(Dn50, Hm0, smm10, c_f1=0.7, c_f2=0.05, smm10_lim=0.012):
    g1 = 1.0 - c_f1 * pw(Dn50 / Hm0, c_f2)
    if smm10 >= smm10_lim:
        return g1
    return g1 + 12.0 * (smm10_lim - smm10) * (1.0 - g1)


@R(V5 + "calculate_influence_berm_gamma_b")
def v5_gb(Hm0, smm10, Ac, B_berm, BL, c_b1=18.0, c_b2=1.3, c_b3=0.34, c_b4=0.2):
    return 1.0 - c_b1 * pw(smm10 * B_berm / Hm0, c_b2) * (1.0 - c_b3 * pw(BL / (smm10 * Ac), c_b4))


@R(V5 + "calculate_influence_oblique_waves_gamma_beta")
def v5_gbeta(beta, c_beta=0.35):
    c = math.cos(math.radians(beta)) if not isnan(beta) else nan
    return c_beta + (1.0 - c_beta) * c * c


@R(V5 + "calculate_influence_crest_wall_gamma_v")
def v5_gv(cot_alpha, Rc, Ac, c_v=0.45):
    k = c_v if cot_alpha <= 4.0 else 0.1125 * cot_alpha
    return 1.0 + k * (Rc - Ac) / Rc


@R(V5 + "calculate_influence_wind_gamma_w")
def v5_gw(Rc, Ac, Hm0, q_diml, c_w1=0.075, c_w2=-0.3):
    return 1.0 + c_w1 * (Rc - Ac) / Hm0 * pw(q_diml, c_w2)


@R(V5 + "q_diml_max_equation")
def v5_qmax(Hm0, Hm0_swell, ksi_mm10, cot_alpha, Rc, gamma_f, gamma_b, gamma_v, gamma_beta, c2=0.8, c3=-2.5):
    return c2 / cot_alpha * ex(c3 * (Rc - 0.4 * Hm0_swell)
                               / (Hm0 * gamma_f * gamma_b * gamma_v * gamma_beta * pw(ksi_mm10, 0.24)))


@R(V5 + "Rc_diml_max_equation")
def v5_rmax(Hm0, Hm0_swell, q, cot_alpha, ksi_mm10, gamma_f, gamma_b, gamma_v, gamma_beta, c2=0.8, c3=-2.5, g=9.81):
    qs = q / (sq(g) * pw(Hm0, 1.5))
    return (ln(qs * cot_alpha / c2) / c3 * gamma_f * gamma_b * gamma_v * gamma_beta * pw(ksi_mm10, 0.24)
            + 0.4 * Hm0_swell / Hm0)


def v5_setup(Hm0, Tmm10, Ac, cot_alpha, beta, B_berm, db, Dn50, gamma_f, gamma_b, gamma_beta):
    if isnan(cot_alpha):
        raise Undefined("slope missing")
    if isnan(gamma_beta):
        gamma_beta = v5_gbeta(beta)
    s = steep(Hm0, Tmm10)
    if isnan(gamma_b):
        gamma_b = v5_gb(Hm0, s, Ac, B_berm, Ac - db)
    if isnan(gamma_f):
        if isnan(Dn50):
            raise Invalid("gamma_f or Dn50")
        g1 = 1.0 - 0.7 * pw(Dn50 / Hm0, 0.05)
        gamma_f = g1 if ge(s, 0.012) else g1 + 12.0 * (0.012 - s) * (1.0 - g1)
    return gamma_f * gamma_b * gamma_beta, xi(Hm0, Tmm10, cot_alpha)


@R(V5 + "calculate_dimensionless_overtopping_discharge_q")
def v5_qd(Hm0, Hm0_swell, Tmm10, Rc, Ac, cot_alpha=nan, beta=nan, B_berm=0.0, db=0.0, Dn50=nan, gamma_f=nan,
          gamma_b=nan, gamma_v=nan, gamma_beta=nan, design_calculation=True, include_influence_wind=False):
    gam, k = v5_setup(Hm0, Tmm10, Ac, cot_alpha, beta, B_berm, db, Dn50, gamma_f, gamma_b, gamma_beta)
    if isnan(gamma_v):
        gamma_v = v5_gv(cot_alpha, Rc, Ac)
    gam *= gamma_v
    r = (Rc - 0.4 * Hm0_swell) / Hm0
    a = 6.8 / cot_alpha * ex(-5.0 * r / (gam * k))
    b = 0.8 / cot_alpha * ex(-2.5 * r / (gam * pw(k, 0.24)))
    if isnan(a) or isnan(b):
        q, m = nan, False
    else:
        q, m = (b, True) if le(b, a) else (a, False)
    if include_influence_wind:
        q *= v5_gw(Rc, Ac, Hm0, q)
    if design_calculation:
        q = pw(q, 0.857)
    v5_valid(Hm0=Hm0, Tmm10=Tmm10, beta=beta, cot_alpha=cot_alpha, Dn50=Dn50, Rc=Rc, Ac=Ac, B_berm=B_berm, db=db)
    return q, m


@R(V5 + "calculate_overtopping_discharge_q")
def v5_q(Hm0, Hm0_swell, Tmm10, Rc, Ac, g=9.81, **k):
    q, m = v5_qd(Hm0, Hm0_swell, Tmm10, Rc, Ac, **k)
    return q * sq(g) * pw(Hm0, 1.5), m


@R(V5 + "calculate_dimensionless_crest_freeboard")
def v5_rd(Hm0, Hm0_swell, Tmm10, q, Ac, cot_alpha=nan, beta=nan, B_berm=0.0, db=0.0, Dn50=nan, gamma_f=nan,
          gamma_b=nan, gamma_v=nan, gamma_beta=nan, g=9.81, design_calculation=True, include_influence_wind=False,
          max_iter=1000, tolerance=1e-5):
    gam, k = v5_setup(Hm0, Tmm10, Ac, cot_alpha, beta, B_berm, db, Dn50, gamma_f, gamma_b, gamma_beta)
    qs = q / (sq(g) * pw(Hm0, 1.5))
    if design_calculation:
        qs = pw(qs, 1.0 / 0.857)
    free_v = isnan(gamma_v)
    gv, gw, r, n = (1.0 if free_v else gamma_v), 1.0, inf, 0
    while True:
        n += 1
        q0 = qs / gw
        a = -gam * gv * k / 5.0 * ln(cot_alpha * q0 / 6.8) + 0.4 * Hm0_swell / Hm0
        b = -gam * gv * pw(k, 0.24) / 2.5 * ln(cot_alpha * q0 / 0.8) + 0.4 * Hm0_swell / Hm0
        rp = r
        if isnan(a) or isnan(b):
            raise Undefined("nan iterate")
        r, m = (b, True) if le(b, a) else (a, False)
        if not (free_v or include_influence_wind):
            break
        if include_influence_wind:
            gw = v5_gw(r * Hm0, Ac, Hm0, q0)
        if free_v:
            if r == 0:
                raise Undefined("Rc=0")
            gv = v5_gv(cot_alpha, r * Hm0, Ac)
        if not gt(abs(r - rp), tol(tolerance)) or n >= max_iter:
            break
        if n > 600:
            raise Undefined("slow convergence")
    fact("rc_iterations", n)
    v5_valid(Hm0=Hm0, Tmm10=Tmm10, beta=beta, cot_alpha=cot_alpha, Dn50=Dn50, Rc=r * Hm0, Ac=Ac, B_berm=B_berm,
             db=db, _computed=True)
    return r, m


@R(V5 + "calculate_crest_freeboard_Rc")
def v5_r(Hm0, *a, **k):
    r, m = v5_rd(Hm0, *a, **k)
    return r * Hm0, m
