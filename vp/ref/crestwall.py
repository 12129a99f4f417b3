from .ctx import *
from .reg import R
from .runup import vg01

W = "structural.forces_crestwall.vangentvanderwerf2019."
F = "Van Gent and Van der Werf 2019"


@R(W + "check_validity")
def w_valid(Rc=nan, Ac=nan, Hm0=nan, Fb=nan, beta=nan):
    V("(Rc-Ac)/Hm0", F, (Rc - Ac) / Hm0, 0.26, 0.77)
    VR("Rc/Ac", F, Rc, Ac, 1.27, 1.55)
    VR("Rc/Hm0", F, Rc, Hm0, 0.79, 2.18)
    VR("Fb/Hm0", F, Fb, Hm0, 0.0, 0.62)
    VI("beta", F, beta, 0.0, 75.0)


def cos2(b):
    c = math.cos(math.radians(b))
    return c * c


@R(W + "calculate_influence_oblique_waves_force_gamma_F_beta")
def w_gF(z2p, Ac, beta, gamma_A):
    return ((0.5 + 0.5 * cos2(beta)) * z2p - gamma_A * Ac) / div(z2p - gamma_A * Ac, 1) if z2p != gamma_A * Ac else _u()


def _u():
    raise Undefined("z2p = gamma_A Ac")


@R(W + "calculate_influence_oblique_waves_horizontal_force_gamma_FH_beta")
def w_gH(z2p, Ac, beta, gamma_A=1.0):
    return w_gF(z2p, Ac, beta, gamma_A)


@R(W + "calculate_influence_oblique_waves_vertical_force_gamma_FV_beta")
def w_gV(z2p, Ac, beta, gamma_A=0.75):
    return w_gF(z2p, Ac, beta, gamma_A)


@R(W + "calculate_influence_oblique_waves_gamma_beta")
def w_gb(beta, c_beta=0.5):
    return c_beta + (1.0 - c_beta) * cos2(beta)


def FH(z, Ac, Hwall, rho, g, c):
    return max(c * rho * g * Hwall * (z - Ac), 0.0)


def FV(z, Ac, Bwall, Fb, cFV, cFb, rho, g):
    return max(cFV * rho * g * Bwall * (z - 0.75 * Ac) * (1.0 - pw(Fb / Ac, cFb)), 0.0)


@R(W + "calculate_FH2p_perpendicular")
def w_FH(Hm0, Tmm10, cot_alpha, Ac, Rc, Hwall, gamma_beta=1.0, gamma_f=0.45, c0=1.45, c1=5.0, rho_water=1025.0,
         g=9.81, cFH=1.0):
    w_valid(Rc, Ac, Hm0)
    return FH(vg01(Hm0, Tmm10, gamma_f * gamma_beta, cot_alpha, c0, c1), Ac, Hwall, rho_water, g, cFH)


@R(W + "calculate_FH2p_perpendicular_from_z2p")
def w_FHz(Hm0, z2p, Ac, Rc, Hwall, rho_water=1025.0, g=9.81, cFH=1.0):
    w_valid(Rc, Ac, Hm0)
    return FH(z2p, Ac, Hwall, rho_water, g, cFH)


@R(W + "calculate_FH2p_oblique")
def w_FHo(Hm0, Tmm10, beta, cot_alpha, Ac, Rc, Hwall, gamma_beta=1.0, gamma_f=0.45, c0=1.45, c1=5.0, cFH=1.0,
          rho_water=1025.0, g=9.81):
    w_valid(Rc, Ac, Hm0, beta=beta)
    z = vg01(Hm0, Tmm10, gamma_f * gamma_beta, cot_alpha, c0, c1)
    return max(w_gH(z, Ac, beta) * FH(z, Ac, Hwall, rho_water, g, cFH), 0.0)


@R(W + "calculate_FV2p_perpendicular")
def w_FV(Hm0, Tmm10, cot_alpha, Ac, Bwall, Fb, gamma_beta=1.0, gamma_f=0.45, c0=1.45, c1=5.0, cFV=0.4, cFb=0.5,
         rho_water=1025.0, g=9.81):
    w_valid(nan, Ac, Hm0, Fb)
    return FV(vg01(Hm0, Tmm10, gamma_f * gamma_beta, cot_alpha, c0, c1), Ac, Bwall, Fb, cFV, cFb, rho_water, g)


@R(W + "calculate_FV2p_perpendicular_from_z2p")
def w_FVz(z2p, Ac, Bwall, Fb, cFV=0.4, cFb=0.5, rho_water=1025.0, g=9.81):
    return FV(z2p, Ac, Bwall, Fb, cFV, cFb, rho_water, g)


@R(W + "calculate_FV2p_oblique")
def w_FVo(Hm0, Tmm10, beta, cot_alpha, Ac, Bwall, Fb, gamma_beta=1.0, gamma_f=0.45, c0=1.45, c1=5.0, cFV=0.4,
          cFb=0.5, rho_water=1025.0, g=9.81):
    w_valid(nan, Ac, Hm0, Fb, beta)
    z = vg01(Hm0, Tmm10, gamma_f * gamma_beta, cot_alpha, c0, c1)
    return max(w_gV(z, Ac, beta) * FV(z, Ac, Bwall, Fb, cFV, cFb, rho_water, g), 0.0)


@R(W + "calculate_FH01p_perpendicular")
def w_FH01(FH2p):
    return 1.6 * FH2p


@R(W + "calculate_FV01p_perpendicular")
def w_FV01(FV2p, s0p):
    return (2.88 - 32.0 * s0p) * FV2p
