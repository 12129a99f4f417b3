from .ctx import *
from .reg import R

A = "structural.stability_toe_berm."

# ---- Gerding (1993) ---------------------------------------------------------------------------
GE = A + "gerding1993."
FG = "Gerding (1993)"


def _r(name, formula, a, b, lo, hi, comp):
    if comp:
        if not (isnan(a) or isnan(b)):
            V(name, formula, a / b, lo, hi)
    else:
        VR(name, formula, a, b, lo, hi)


@R(GE + "check_validity")
def ge_valid(ht=nan, h=nan, Dn50=nan, _cht=False, _cD=False):
    _r("Relative toe height (h)", FG, ht, h, 0.4, 0.9, _cht)
    _r("Relative toe height (Dn50)", FG, ht, Dn50, 3, 25, _cht or _cD)


@R(GE + "calculate_damage_Nod")
def ge_N(Hs, ht, h, Dn50, rho_rock, rho_water):
    ge_valid(ht, h, Dn50)
    return pw(Hs / (relmass(rho_rock, rho_water) * (1.6 * Dn50 + 0.24 * ht)), 1 / 0.15)


@R(GE + "calculate_nominal_diameter_Dn50")
def ge_D(Hs, ht, h, Nod, rho_rock, rho_water):
    D = (Hs / relmass(rho_rock, rho_water) / pw(Nod, 0.15) - 0.24 * ht) / 1.6
    ge_valid(ht, h, D, _cD=True)
    return D


@R(GE + "calculate_wave_height_Hs")
def ge_H(Dn50, ht, h, Nod, rho_rock, rho_water):
    ge_valid(ht, h, Dn50)
    return pw(Nod, 0.15) * relmass(rho_rock, rho_water) * (1.6 * Dn50 + 0.24 * ht)


@R(GE + "calculate_depth_above_toe_ht")
def ge_h(Hs, Dn50, h, Nod, rho_rock, rho_water):
    ht = (Hs / relmass(rho_rock, rho_water) / pw(Nod, 0.15) - 1.6 * Dn50) / 0.24
    ge_valid(ht, h, Dn50, _cht=True)
    return ht


# ---- Van der Meer (1998) -----------------------------------------------------------------------
VM = A + "vandermeer1998."
FV = "van der Meer (1998)"


@R(VM + "check_validity")
def vm_valid(Hs=nan, ht=nan, h=nan, Dn50=nan, Nod=nan, Delta=nan, _c=""):
    (V if "Hs" in _c else VI)("Significant wave height Hs", FV, Hs, 0.01, 20)
    _r("Relative toe height (h)", FV, ht, h, 0.4, 0.9, "ht" in _c)
    _r("Relative toe height (Dn50)", FV, ht, Dn50, 3, 25, "ht" in _c or "Dn50" in _c)
    if not any(isnan(x) for x in (Nod, Dn50, Hs, Delta)):
        V("Nod vs Ns", FV, pw(Nod, -0.15) * Hs / (Delta * Dn50), 2, inf)


def vm_f(ht, h):
    return 2.0 + 6.2 * pw(ht / h, 2.7)


@R(VM + "calculate_damage_Nod")
def vm_N(Hs, ht, h, Dn50, rho_rock, rho_water):
    D = relmass(rho_rock, rho_water)
    N = pw(Hs / (D * Dn50) / vm_f(ht, h), 1 / 0.15)
    vm_valid(Hs, ht, h, Dn50, N, D)
    return N


@R(VM + "calculate_nominal_diameter_Dn50")
def vm_D(Hs, ht, h, Nod, rho_rock, rho_water):
    D = relmass(rho_rock, rho_water)
    Dn = Hs / (D * vm_f(ht, h) * pw(Nod, 0.15))
    vm_valid(Hs, ht, h, Dn, Nod, D, "Dn50")
    return Dn


@R(VM + "calculate_wave_height_Hs")
def vm_H(Dn50, ht, h, Nod, rho_rock, rho_water):
    D = relmass(rho_rock, rho_water)
    H = D * Dn50 * vm_f(ht, h) * pw(Nod, 0.15)
    vm_valid(H, ht, h, Dn50, Nod, D, "Hs")
    return H


@R(VM + "calculate_depth_above_toe_ht")
def vm_h(Hs, Dn50, h, Nod, rho_rock, rho_water):
    D = relmass(rho_rock, rho_water)
    x = (Hs / (D * Dn50 * pw(Nod, 0.15)) - 2.0) / 6.2
    ht = h * pw(x, 1 / 2.7) if gt(x, 0) else nan
    vm_valid(Hs, ht, h, Dn50, Nod, D, "ht")
    return ht


# ---- Van Gent & Van der Werf (2014) -----------------------------------------------------------
W = A + "vangentvanderwerf2014."
FW = "van Gent & van der Werf (2014)"


@R(W + "check_validity")
def w_valid(Hs=nan, tt=nan, ht=nan, cot_alpha_armour_slope=nan):
    VI("Armour slope cot_alpha_armour_slope", FW, cot_alpha_armour_slope, 1.5, 4)
    VI("Armour slope cot_alpha_armour_slope, closer to 1:4 more inaccuracies are found", FW,
       cot_alpha_armour_slope, 1.5, 2)
    if not (isnan(ht) or isnan(tt)):
        V("Relative toe height tt/h", FW, tt / (ht + tt), 0.1, 0.3)
        V("Relative water depth h/Hs", FW, (ht + tt) / Hs, 1.2, 4.5)


@R(W + "calculate_velocity_u_delta")
def w_u(Hs, Tmm10, ht, g=9.81):
    k = 4.0 * pi * pi / (g * Tmm10 * Tmm10)
    if k * ht > 700:
        raise Undefined("overflow")
    return pi * Hs / Tmm10 / math.sinh(k * ht)


@R(W + "calculate_damage_Nod")
def w_N(Hm0, Tmm10, ht, Bt, tt, Dn50, rho_rock, rho_water, cot_alpha_armour_slope, g=9.81,
        c1=0.032, c2=0.3, c3=1.0, c4=3.0, c5=1.0):
    w_valid(Hm0, tt, ht, cot_alpha_armour_slope)
    return (c1 * pw(Bt / Hm0, c2) * pw(tt / Hm0, c3) * pw(Hm0 / (relmass(rho_rock, rho_water) * Dn50), c4)
            * pw(w_u(Hm0, Tmm10, ht, g) / sq(g * Hm0), c5))


@R(W + "calculate_nominal_diameter_Dn50")
def w_D(Hm0, Tmm10, ht, Bt, tt, Nod, rho_rock, rho_water, cot_alpha_armour_slope, g=9.81):
    w_valid(Hm0, tt, ht, cot_alpha_armour_slope)
    return (0.32 * Hm0 / relmass(rho_rock, rho_water) * pw(Bt / Hm0, 0.1)
            * cbrt(tt / Hm0 * w_u(Hm0, Tmm10, ht, g) / sq(g * Hm0) / Nod))


# ---- Etemad-Shahidi (2021) --------------------------------------------------------------------
ES = A + "etemadshahidi2021."
FE = "Etemad-Shahidi et al. (2021)"


@R(ES + "check_validity")
def es_valid(Hs=nan, Tmm10=nan, h=nan, ht=nan, Bt=nan, Dn50=nan, m=nan, Nod=nan, cot_alpha_armour_slope=nan,
             rho_armour=nan, rho_water=1025.0, _c=""):
    cH, cD = "Hs" in _c, "Dn50" in _c
    VI("Armour slope cot_alpha_armour_slope", FE, cot_alpha_armour_slope, 1.5, 2.0)
    if not (isnan(Hs) or isnan(Tmm10)):
        V("Wave steepness sm-1,0", FE, steep(Hs, Tmm10), 0.009, 0.061)
    VR("Relative water depth above the toe ht/h", FE, ht, h, 0.39, 0.88)
    _r("Relative water depth above the toe ht/Hs", FE, ht, Hs, 0.48, 2.58, cH)
    _r("Relative water depth above the toe ht/Dn50", FE, ht, Dn50, 1.97, 23.4, cD)
    _r("Relative toe width Bt/Hs", FE, Bt, Hs, 0.17, 1.92, cH)
    _r("Relative water depth h/Hs", FE, h, Hs, 1.22, 3.0, cH)
    if not any(isnan(x) for x in (Hs, Dn50, rho_armour)):
        V("Stability number Ns", FE, Hs / (Dn50 * relmass(rho_armour, rho_water)), 1.58, 10.0)
    if not isnan(rho_armour):
        V("Buoyant density Delta", FE, relmass(rho_armour, rho_water), 1.65, 1.75)
    VI("Foreshore slope m", FE, m, 0.02, 0.1)
    (V if "Nod" in _c else VI)("Damage parameter Nod", FE, Nod, 0.5, 3.79)


@R(ES + "calculate_damage_Nod")
def es_N(Hs, Tmm10, h, ht, Bt, m, Dn50, rho_rock, rho_water=1025.0, g=9.81,
         c1=1.2, c2=11.2, c3=1.75, c4=1 / 6, c5=0.4, c6=-0.1, c7=3.7):
    Ns = Hs / (relmass(rho_rock, rho_water) * Dn50)
    x = (Ns - c1) / (c2 * pw(ht / h, c3) * pw(steep(Hs, Tmm10, g), c4) * pw(Bt / Hs, c6) * _nz(1.0 - c7 * m))
    N = pw(x, 1.0 / c5)
    es_valid(Hs, Tmm10, h, ht, Bt, Dn50, m, N, rho_armour=rho_rock, rho_water=rho_water, _c="Nod")
    return N


def _nz(x):
    if x == 0:
        raise Undefined("zero")
    return x


@R(ES + "calculate_nominal_diameter_Dn50")
def es_D(Hs, Tmm10, h, ht, Bt, Nod, m, rho_rock, rho_water=1025.0, g=9.81,
         c1=1.2, c2=11.2, c3=1.75, c4=1 / 6, c5=0.4, c6=-0.1, c7=3.7):
    Ns = c1 + c2 * pw(ht / h, c3) * pw(steep(Hs, Tmm10, g), c4) * pw(Nod, c5) * pw(Bt / Hs, c6) * (1.0 - c7 * m)
    D = Hs / relmass(rho_rock, rho_water) / Ns
    es_valid(Hs, Tmm10, h, ht, Bt, D, m, Nod, rho_armour=rho_rock, rho_water=rho_water, _c="Dn50")
    return D


@R(ES + "calculate_significant_wave_height_Hs")
def es_H(Tmm10, h, ht, Bt, Nod, m, Dn50, rho_rock, rho_water=1025.0, g=9.81,
         c1=1.2, c2=11.2, c3=1.75, c4=1 / 6, c5=0.4, c6=-0.1, c7=3.7, smm10_init=0.03, max_iter=1000):
    DD = relmass(rho_rock, rho_water) * Dn50
    H, n = smm10_init * g * Tmm10 ** 2 / (2 * pi), 0
    K = c2 * pw(ht / h, c3) * pw(Nod, c5) * (1.0 - c7 * m)
    while True:
        H0 = H
        s = smm10_init if n == 0 else steep(H0, Tmm10, g)
        H = DD * (c1 + K * pw(s, c4) * pw(Bt / H0, c6))
        if isnan(H) or not H > 0:
            raise Undefined("iterate")
        n += 1
        if not gt(abs(H - H0), tol(1e-3)) or n >= max_iter:
            break
        if n > 600:
            raise Undefined("slow")
    fact("n", n)
    es_valid(H, Tmm10, h, ht, Bt, Dn50, m, Nod, rho_armour=rho_rock, rho_water=rho_water, _c="Hs")
    return H


# ---- Takahashi (1990) -------------------------------------------------------------------------
TK = A + "takahashi1990_caisson."
FT = "Takahashi et al (1990)"


@R(TK + "check_validity")
def tk_valid(Ns=nan, Bt=nan):
    VI("Stability number Ns", FT, Ns, 0, inf)
    VI("Toe width Bt", FT, Bt, 0, inf)


@R(TK + "calculate_stability_number_Ns")
def tk_Ns(Hs, Tp, hacc, Bt, beta, g=9.81, _warn=True):
    b = math.radians(beta)
    k = 2.0 * pi / wavelength(Tp, hacc, g)
    x = 2.0 * k * hacc
    if x > 300:
        raise Undefined("overflow")
    cb = math.cos(b)
    arg = k * Bt * cb
    kap = x / math.sinh(x) * max(0.45 * math.sin(b) ** 2 * math.cos(arg) ** 2, cb ** 2 * math.sin(arg) ** 2)
    if kap <= 0:
        raise Undefined("kappa")
    a = (1.0 - kap) / cbrt(kap)
    r = hacc / Hs
    if _warn:
        VI("Toe width Bt", FT, Bt, 0, inf)
    return max(1.8, 1.3 * a * r + 1.8 * ex(-1.5 * a * (1.0 - kap) * r))


@R(TK + "calculate_nominal_diameter_Dn50")
def tk_D(Hs, Tp, hacc, Bt, rho_rock, rho_water, beta, g=9.81):
    return Hs / (relmass(rho_rock, rho_water) * tk_Ns(Hs, Tp, hacc, Bt, beta, g))


@R(TK + "calculate_significant_wave_height_Hs")
def tk_H(Dn50, Tp, hacc, Bt, rho_rock, rho_water, beta, g=9.81):
    DD = relmass(rho_rock, rho_water) * Dn50
    VI("Toe width Bt", FT, Bt, 0, inf)
    lo, hi = 1.8 * DD, tk_Ns(1.8 * DD, Tp, hacc, Bt, beta, g, False) * DD
    if hi > 1e9 * lo:       # wave heights of more than some kilometres (a toe tens of wave lengths deep): beyond the precision of any search
        raise Undefined("no load at the toe")
    for _ in range(200):
        m = 0.5 * (lo + hi)
        if tk_Ns(m, Tp, hacc, Bt, beta, g, False) * DD > m:
            lo = m
        else:
            hi = m
    fact("abs_tol", 1e-3)      # documented precision: 1 mm
    return 0.5 * (lo + hi)


@R(TK + "calculate_significant_depth_above_toe_hacc")
def tk_h(Dn50, Tp, Hs, Bt, rho_rock, rho_water, beta, g=9.81):
    VI("Toe width Bt", FT, Bt, 0, inf)
    Ns = Hs / (relmass(rho_rock, rho_water) * Dn50)

    def above(h):
        try:
            return lt(Ns, tk_Ns(Hs, Tp, h, Bt, beta, g, False))
        except Undefined:
            raise
    fact("abs_tol", 1.5e-3)
    step = Hs / 20
    h = step
    first = above(h)
    hmax = max(g * Tp ** 2 / (2 * pi), Hs)
    if hmax > 40000 * step:
        raise Undefined("slow")
    while above(h) == first:
        if h > hmax:
            other("No water depth above the toe found")
            return nan
        h += step
    if step > 0.001:
        end = h
        h -= step
        step = 0.001
        while above(h) == first and h <= end:
            h += step
    return h
