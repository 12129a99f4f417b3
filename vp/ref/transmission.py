from .ctx import *
from .reg import R

DA = "hydraulic.wave_transmission.dangremond1996."
BR = "hydraulic.wave_transmission.briganti2003."
FD = "D'Angremond et al. (1996)"


@R(DA + "check_validity")
def da_valid(Kt=nan, s0p=nan, Hsi_over_h=nan, Rc_over_Hsi=nan):
    VI("Transmission coefficient Kt", FD, Kt, 0.075, 0.8)
    VI("Wave steepness s0p (dataset limit)", FD, s0p, 0, 0.06)
    VI("Relative water depth Hsi/h (dataset limit)", FD, Hsi_over_h, 0, 0.54)
    VI("Relative crest level Rc/Hsi (dataset limit)", FD, Rc_over_Hsi, -2.5, 2.5)


def da_raw(Hsi, Tpi, Rc, B, cot_alpha, C1):
    k = xi(Hsi, Tpi, cot_alpha)
    return -0.4 * Rc / Hsi + C1 * pw(B / Hsi, -0.31) * (1.0 - ex(-0.5 * k))


@R(DA + "calculate_wave_transmission_Kt_permeable")
def da_perm(Hsi, Tpi, h, Rc, B, cot_alpha, C1=0.64, do_validity_check=True):
    kt = da_raw(Hsi, Tpi, Rc, B, cot_alpha, C1)
    if do_validity_check:
        V("Transmission coefficient Kt", FD, kt, 0.075, 0.8)
        V("Wave steepness s0p (dataset limit)", FD, steep(Hsi, Tpi), 0, 0.06)
        VR("Relative water depth Hsi/h (dataset limit)", FD, Hsi, h, 0, 0.54)
        VR("Relative crest level Rc/Hsi (dataset limit)", FD, Rc, Hsi, -2.5, 2.5)
    return max(0.075, min(0.8, kt))


@R(DA + "calculate_wave_transmission_Kt_impermeable")
def da_imp(Hsi, Tpi, h, Rc, B, cot_alpha, C1=0.8):
    return da_perm(Hsi, Tpi, h, Rc, B, cot_alpha, C1)


@R(BR + "check_validity")
def br_valid(s0p=nan, ksi_0p=nan, _calc=False):
    v = V if _calc else VI
    v("Wave steepness s0p", "Briganti (2003)", s0p, 0.005, 0.07)
    v("Surf similarity parameter ksi_0p", "Briganti (2003)", ksi_0p, 0.5, 10.0)


@R(BR + "calculate_wave_transmission_Kt")
def br_kt(Hsi, Tpi, Rc, B, cot_alpha):
    k = xi(Hsi, Tpi, cot_alpha)
    br_valid(steep(Hsi, Tpi), k, _calc=True)
    w = B / Hsi
    if rlt(B, Hsi, 10.0):
        kt = max(0.075, min(0.8, da_raw(Hsi, Tpi, Rc, B, cot_alpha, 0.64)))
    else:
        kt = -0.35 * Rc / Hsi + 0.51 * pw(w, -0.65) * (1.0 - ex(-0.41 * k))
    return max(0.05, min(kt, 0.93 - 0.006 * w))


@R("hydraulic.wave_transmission.goda1967_caisson.calculate_wave_transmission_Kt")
def goda67(Hsi, Rc, alpha_1=2.2, beta_1=0.4):
    if lt(Rc / Hsi, -(alpha_1 + beta_1)):
        return 1.0
    if le(Rc / Hsi, alpha_1 - beta_1):
        return 0.5 - 0.5 * math.sin(0.5 * pi * (Rc / Hsi + beta_1) / alpha_1)
    return 0.03


@R("hydraulic.wave_transmission.goda1967_caisson.check_validity")
def goda67_valid():
    return None


VG = "hydraulic.wave_transmission.vangent2023."
FVG = "Van Gent et al. (2023)"


@R(VG + "check_validity_range")
def vg23_valid(Hm0=nan, Tmm10=nan, Rc=nan, B=nan, structure_type=nan):
    VR("Dimensionless crest height Rc / Hm0", FVG, Rc, Hm0, -2.5, 2.5 if structure_type == "permeable" else 0.0)
    if not (isnan(B) or isnan(Tmm10)):
        V("Dimensionless crest width B / Lm-1,0", FVG, B / (9.81 * Tmm10 * Tmm10 / (2 * pi)), 0.017, 0.27)
    VR("Dimensionless crest width B / Hm0", FVG, B, Hm0, 0.9, 10.6)


VG23 = {
    "impermeable": (0.47, 0.0, 0.5),
    "permeable": (0.43, -0.25, 0.5),
    "perforated": (0.13, -0.15, 0.82),
    "perforated_with_screen": (0.4, -0.15, 0.5),
    "perforated_with_perforated_screen": (0.17, -0.15, 0.76),
}


@R(VG + "calculate_wave_transmission_Kt")
def vg23(Hm0, Tmm10, Rc, B, structure_type="permeable"):
    if structure_type not in VG23:
        raise Invalid("structure type")
    c1, c4, c5 = VG23[structure_type]
    L = 9.81 * Tmm10 * Tmm10 / (2 * pi)
    vg23_valid(Hm0, Tmm10, Rc, B, structure_type)
    return c5 - c1 * math.tanh(Rc / Hm0 + 3.1 * pw(B / L, 0.75) + c4)


V4 = "hydraulic.wave_transmission.vangent2024_setup."
F4 = "Van Gent (2024)"


@R(V4 + "check_validity_range")
def v4_valid(Hm0=nan, Tmm10=nan, Rc=nan, B=nan, hc=nan, Dn50=nan, structure_type="impermeable"):
    perm = structure_type == "permeable"
    if structure_type not in ("permeable", "impermeable"):
        return
    if not (isnan(Hm0) or isnan(Tmm10)):
        V("Wave steepness sm-1,0", F4, steep(Hm0, Tmm10), 0.008 if perm else 0.01, 0.04)
    VR("Dimensionless freeboard Rc/Hm0", F4, Rc, Hm0, -0.8 if perm else -1.0, 0.0)
    if perm:
        VR("Dimensionless submerged structure height hc/Hm0", F4, hc, Hm0, 1.5, 3.0)
        VR("Dimensionless submerged structure crest width B/Hm0", F4, B, Hm0, 0.94, 2.35)
        VR("Dimensionless median stone diameter Dn50/Hm0", F4, Dn50, Hm0, 0.19, 0.47)


@R(V4 + "calculate_dimensionless_structure_induced_setup_impermeable")
def v4_imp_d(Hm0, Tmm10, Rc):
    v4_valid(Hm0, Tmm10, Rc)
    return 0.34 * pw(steep(Hm0, Tmm10), 0.4) * pw(Rc / Hm0 + 1.6, 3.5)


@R(V4 + "calculate_structure_induced_setup_delta_impermeable")
def v4_imp(Hm0, Tmm10, Rc):
    return Hm0 * v4_imp_d(Hm0, Tmm10, Rc)


@R(V4 + "calculate_dimensionless_structure_induced_setup_permeable")
def v4_perm_d(Hm0, Tmm10, Rc, hc):
    v4_valid(Hm0, Tmm10, Rc, hc=hc, structure_type="permeable")
    return 0.22 * pw(steep(Hm0, Tmm10), 0.2) * pw(Hm0 / hc, 0.7) * pw(Rc / Hm0 + 1.5, 1.5)


@R(V4 + "calculate_structure_induced_setup_delta_permeable")
def v4_perm(Hm0, Tmm10, Rc, hc):
    return Hm0 * v4_perm_d(Hm0, Tmm10, Rc, hc)
