from .ctx import *
from .reg import R

T = "hydraulic.wave_runup.taw2002."
E = "hydraulic.wave_runup.eurotop2018."
G = "hydraulic.wave_runup.vangent2001."


@R(T + "check_validity_range")
def valid(Hm0=nan, Tmm10=nan, gamma_f=nan, gamma_b=nan, gamma_beta=nan, cot_alpha=nan, _calc=False):
    F = "TAW (2002)"
    v = V if _calc else VI
    v("Influence factor for a berm gamma_b", F, gamma_b, 0.6, 1.0)
    v("Influence factor for oblique wave incidence gamma_beta", F, gamma_beta, 0.7, 1.0)
    VI("Influence factor for surface roughness gamma_f", F, gamma_f, 0.5, 1.0)
    if not (isnan(Hm0) or isnan(Tmm10)):
        V("Wave steepness smm10", F, steep(Hm0, Tmm10), 0.001, 0.07)
        if not isnan(cot_alpha):
            V("Iribarren number ksi_mm10", F, xi(Hm0, Tmm10, cot_alpha), 0.4, 20.0)


def gamma_beta_linear(beta, c, max_angle):
    return 1.0 - c * min(abs(beta), max_angle)


@R(T + "calculate_influence_oblique_waves_gamma_beta")
def gbeta(beta, c_gamma_beta=0.0022, max_angle=80.0):
    return gamma_beta_linear(beta, c_gamma_beta, max_angle)


def need_gbeta(beta, gamma_beta):
    if isnan(beta) and isnan(gamma_beta):
        raise Invalid("beta or gamma_beta")
    return isnan(gamma_beta)


@R(T + "check_calculate_gamma_beta")
def need_gbeta_pub(beta, gamma_beta):
    return need_gbeta(beta, gamma_beta)


@R(T + "check_composite_slope")
def composite(cot_alpha=nan, cot_alpha_down=nan, cot_alpha_up=nan):
    if isnan(cot_alpha) and isnan(cot_alpha_down):
        raise Invalid("slope")
    return not isnan(cot_alpha_down) and not isnan(cot_alpha_up)


@R(T + "calculate_berm_length")
def berm_length(Hm0, B_berm, cot_alpha=nan, cot_alpha_down=nan, cot_alpha_up=nan):
    if composite(cot_alpha, cot_alpha_down, cot_alpha_up):
        return Hm0 * (cot_alpha_down + cot_alpha_up) + B_berm
    return 2.0 * Hm0 * cot_alpha + B_berm


@R(T + "determine_average_slope")
def average_slope(Hm0, z2p, cot_alpha_down, cot_alpha_up, B_berm, db):
    # horizontal length between SWL-1.5Hm0 and the runup level, berm excluded
    horizontal = (1.5 * Hm0 - db) * cot_alpha_down + (z2p + db) * cot_alpha_up
    return horizontal / (1.5 * Hm0 + z2p)


@R(T + "calculate_influence_berm_gamma_b")
def gamma_b_fn(Hm0, z2p, db, B_berm, L_berm):
    if db > 2.0 * Hm0 or lt(db, -z2p):
        rdh = 1.0
    else:
        x = z2p if db < 0 else 2.0 * Hm0
        rdh = 0.5 * (1.0 - math.cos(pi * db / x))
    gb = 1.0 - (B_berm / L_berm) * (1.0 - rdh)
    return min(1.0, max(0.6, gb))


@R(T + "calculate_adjusted_influence_roughness_gamma_f")
def gamma_f_adj(gamma_f, gamma_b, ksi_mm10):
    x = gamma_b * ksi_mm10
    if x <= 1.8:
        return gamma_f
    if x >= 10.0:
        return 1.0
    return gamma_f + (1.0 - gamma_f) * (x - 1.8) / 8.2


BEST = dict(c1=1.65, c2=4.0, c3=1.5, c4=1.0)


def runup_diml(Hm0, Tmm10, cot, gamma_b, gamma_f, gamma_beta, c1, c2, c3, c4):
    """equation 3a/3b on a known slope; returns (z/Hm0, max_reached)"""
    k = xi(Hm0, Tmm10, cot)
    gf = gamma_f_adj(gamma_f, gamma_b, k)
    a = c1 * gamma_b * gf * gamma_beta * k
    b = c4 * gf * gamma_beta * (c2 - c3 / sq(k))
    valid(Hm0, Tmm10, gamma_f, gamma_b, gamma_beta, cot, _calc=True)
    if isnan(a) or isnan(b):
        return nan, False
    return (b, True) if le(b, a) else (a, False)


@R(T + "iteration_procedure_z2p")
def iterate_z2p(Hm0, Tmm10, cot_alpha_down, cot_alpha_up, B_berm, db, gamma_f, gamma_beta,
                c1=1.75, c2=4.3, c3=1.6, c4=1.0, use_best_fit=False, tolerance=1e-4, max_iter=1000):
    if use_best_fit:
        c1, c2, c3, c4 = 1.65, 4.0, 1.5, 1.0
    L = berm_length(Hm0, B_berm, nan, cot_alpha_down, cot_alpha_up)
    z = 1.5 * Hm0
    n = 0
    with maywarn() as steps:
        while True:
            gb = gamma_b_fn(Hm0, z, db, B_berm, L)
            cot = average_slope(Hm0, z, cot_alpha_down, cot_alpha_up, B_berm, db)
            if not (cot > 0):
                raise Undefined("average slope not positive")
            znew = Hm0 * runup_diml(Hm0, Tmm10, cot, gb, gamma_f, gamma_beta, c1, c2, c3, c4)[0]
            n += 1
            steps.step()
            diff = abs(znew - z)
            z = znew
            if not gt(diff, tol(tolerance)) or n > max_iter:
                break
            if n > 400:
                raise Undefined("slow convergence")
    fact("z2p_iterations", n)
    return z


def berm_factor(Hm0, Tmm10, cot, B_berm, L_berm, db, gamma_beta, c, gamma_f):
    if B_berm == 0.0 or L_berm == 0.0:
        return 1.0
    gb = 1.0
    with maywarn() as steps:
        for _ in range(2):
            z = Hm0 * runup_diml(Hm0, Tmm10, cot, gb, gamma_f, gamma_beta, *c)[0]
            gb = gamma_b_fn(Hm0, z, db, B_berm, L_berm)
            steps.step()
    return gb


@R(T + "iteration_procedure_gamma_b")
def iterate_gb(Hm0, Tmm10, cot_alpha_average, B_berm, L_berm, db, gamma_beta,
               c1=1.75, c2=4.3, c3=1.6, c4=1.0, use_best_fit=False, gamma_f=1.0):
    c = (1.65, 4.0, 1.5, 1.0) if use_best_fit else (c1, c2, c3, c4)
    return berm_factor(Hm0, Tmm10, cot_alpha_average, B_berm, L_berm, db, gamma_beta, c, gamma_f)


def geometry(Hm0, Tmm10, cot_alpha, cot_alpha_down, cot_alpha_up, B_berm, db, gamma_f, gamma_beta,
             gamma_b, c_slope, c_berm):
    """-> (representative cot_alpha, gamma_b), shared by runup and overtopping on slopes"""
    if composite(cot_alpha, cot_alpha_down, cot_alpha_up):
        z = iterate_z2p(Hm0, Tmm10, cot_alpha_down, cot_alpha_up, B_berm, db, gamma_f, gamma_beta, *c_slope)
        cot_alpha = average_slope(Hm0, z, cot_alpha_down, cot_alpha_up, B_berm, db)
        L = berm_length(Hm0, B_berm, nan, cot_alpha_down, cot_alpha_up)
        if not cot_alpha > 0:
            raise Undefined("average slope")
    else:
        if isnan(cot_alpha):
            raise Undefined("incomplete composite slope")
        L = berm_length(Hm0, B_berm, cot_alpha)
    if isnan(gamma_b):
        gamma_b = berm_factor(Hm0, Tmm10, cot_alpha, B_berm, L, db, gamma_beta, c_berm, gamma_f)
    return cot_alpha, gamma_b


def _z2p(Hm0, Tmm10, gamma_beta, gamma_b, gamma_f, B_berm, db, ca, cd, cu, c):
    cot, gb = geometry(Hm0, Tmm10, ca, cd, cu, B_berm, db, gamma_f, gamma_beta, gamma_b, c, c)
    fact("max_args", True)
    return runup_diml(Hm0, Tmm10, cot, gb, gamma_f, gamma_beta, *c)


@R(T + "calculate_dimensionless_wave_runup_height_z2p")
def taw_diml(Hm0, Tmm10, beta=nan, gamma_beta=nan, gamma_b=nan, gamma_f=1.0, B_berm=0.0, db=0.0,
             cot_alpha=nan, cot_alpha_down=nan, cot_alpha_up=nan,
             c1=1.75, c2=4.3, c3=1.6, c4=1.0, use_best_fit=False):
    c = (1.65, 4.0, 1.5, 1.0) if use_best_fit else (c1, c2, c3, c4)
    if need_gbeta(beta, gamma_beta):
        gamma_beta = gamma_beta_linear(beta, 0.0022, 80.0)
    return _z2p(Hm0, Tmm10, gamma_beta, gamma_b, gamma_f, B_berm, db, cot_alpha, cot_alpha_down, cot_alpha_up, c)


@R(T + "calculate_wave_runup_height_z2p")
def taw_z2p(Hm0, *a, **k):
    z, m = taw_diml(Hm0, *a, **k)
    return z * Hm0, m


# ---- EurOtop (2018)
def rough_gbeta(beta, gamma_f, crit, smooth, rough, max_angle):
    return gamma_beta_linear(beta, smooth if gamma_f > crit else rough, max_angle)


@R(E + "calculate_influence_oblique_waves_gamma_beta")
def eu_gbeta(beta, gamma_f, gamma_f_crit=0.6, c_gamma_beta_smooth=0.0022, c_gamma_beta_rough=0.0063, max_angle=80.0):
    return rough_gbeta(beta, gamma_f, gamma_f_crit, c_gamma_beta_smooth, c_gamma_beta_rough, max_angle)


@R(E + "check_best_fit")
def eu_best(c1, c2, c3, c4, use_best_fit):
    return (1.65, 4.0, 1.5, 1.0) if use_best_fit else (c1, c2, c3, c4)


@R(E + "iteration_procedure_z2p")
def eu_iter_z2p(Hm0, Tmm10, cot_alpha_down, cot_alpha_up, B_berm, db, gamma_f, gamma_beta,
                c1=1.75, c2=4.3, c3=1.5, c4=1.07, use_best_fit=False, tolerance=1e-4, max_iter=1000):
    return iterate_z2p(Hm0, Tmm10, cot_alpha_down, cot_alpha_up, B_berm, db, gamma_f, gamma_beta,
                       c1, c2, c3, c4, use_best_fit, tolerance, max_iter)


@R(E + "iteration_procedure_gamma_b")
def eu_iter_gb(Hm0, Tmm10, cot_alpha_average, B_berm, L_berm, db, gamma_beta,
               c1=1.75, c2=4.3, c3=1.5, c4=1.07, use_best_fit=False, gamma_f=1.0):
    return iterate_gb(Hm0, Tmm10, cot_alpha_average, B_berm, L_berm, db, gamma_beta, c1, c2, c3, c4, use_best_fit, gamma_f)


@R(E + "calculate_dimensionless_wave_runup_height_z2p")
def eu_diml(Hm0, Tmm10, beta=nan, gamma_beta=nan, gamma_b=nan, gamma_f=1.0, B_berm=0.0, db=0.0,
            cot_alpha=nan, cot_alpha_down=nan, cot_alpha_up=nan,
            c1=1.75, c2=4.3, c3=1.5, c4=1.07, use_best_fit=False):
    c = (1.65, 4.0, 1.5, 1.0) if use_best_fit else (c1, c2, c3, c4)
    if need_gbeta(beta, gamma_beta):
        gamma_beta = rough_gbeta(beta, gamma_f, 0.6, 0.0022, 0.0063, 80.0)
    return _z2p(Hm0, Tmm10, gamma_beta, gamma_b, gamma_f, B_berm, db, cot_alpha, cot_alpha_down, cot_alpha_up, c)


@R(E + "calculate_wave_runup_height_z2p")
def eu_z2p(Hm0, *a, **k):
    z, m = eu_diml(Hm0, *a, **k)
    return z * Hm0, m


# ---- Van Gent (2001)
def vg01(H, Tmm10, gamma, cot_alpha, c0, c1):
    k = xi(H, Tmm10, cot_alpha)
    if lt(k, 0.5 * c1 / c0):
        return gamma * H * c0 * k
    return gamma * H * (c1 - (0.25 * c1 * c1 / c0) / k)


@R(G + "calculate_wave_runup_height_zXp")
def zX(H, Tmm10, gamma, cot_alpha, c0, c1):
    return vg01(H, Tmm10, gamma, cot_alpha, c0, c1)


@R(G + "calculate_wave_runup_height_z1p")
def z1(Hs, Tmm10, gamma, cot_alpha, c0=1.45, c1=5.1):
    return vg01(Hs, Tmm10, gamma, cot_alpha, c0, c1)


@R(G + "calculate_wave_runup_height_z10p")
def z10(Hs, Tmm10, gamma, cot_alpha, c0=1.1, c1=4.0):
    return vg01(Hs, Tmm10, gamma, cot_alpha, c0, c1)


@R(G + "calculate_wave_runup_height_z2p")
def z2(Tmm10, gamma, cot_alpha, Hm0=nan, Hs=nan, c0=1.35, c1=4.7):
    if isnan(Hm0) == isnan(Hs):
        raise Invalid("exactly one of Hm0, Hs")
    if isnan(Hs):
        return vg01(Hm0, Tmm10, gamma, cot_alpha, 1.45, 3.8)
    return vg01(Hs, Tmm10, gamma, cot_alpha, c0, c1)
