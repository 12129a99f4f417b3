from .ctx import *
from .reg import R
from .rock import hudson_mass, hudson_H

A = "structural.stability_concrete_armour."


def _hudson_units(mod, formula, doc, kds, kd_nb):
    P = A + mod + "."

    def valid(cot_alpha=nan, seabed_slope_perc=nan):
        VI("Cotangent of the front-side slope of the structure", formula, cot_alpha, 1.33, 1.5)
        VI("Seabed slope in percentage", doc, seabed_slope_perc, 0, 10)

    R(P + "check_validity_range")(valid)

    def mass(Hs, rho_water, rho_armour, KD, cot_alpha=1.33, alpha_Hs=1.0):
        valid(cot_alpha)
        return hudson_mass(alpha_Hs * Hs, rho_water, rho_armour, KD, cot_alpha)

    R(P + "calculate_unit_mass_M")(mass)

    def height(M, rho_water, rho_armour, KD, cot_alpha=1.33, alpha_Hs=1.0):
        valid(cot_alpha)
        return hudson_H(M, rho_water, rho_armour, KD, cot_alpha) / alpha_Hs

    R(P + "calculate_significant_wave_height_Hs")(height)

    def kd(seabed_slope_perc):
        valid(seabed_slope_perc=seabed_slope_perc)
        x = seabed_slope_perc
        pts = [(0, kds[0]), (1, kds[1]), (5, kds[2]), (10, kds[3])]
        if x <= 0:
            y = kds[0]
        elif x >= 10:
            y = kds[3]
        else:
            for (x0, y0), (x1, y1) in zip(pts, pts[1:]):
                if x <= x1:
                    y = y0 + (y1 - y0) * (x - x0) / (x1 - x0)
                    break
        n = round(y / 0.1)          # steps of 0.1, rounded down
        if abs(y / 0.1 - n) < 1e-9:
            return 0.1 * (n if C_decide() else n - 1)
        return 0.1 * math.floor(y / 0.1)

    R(P + "calculate_KD_breaking_trunk_from_seabed_slope")(kd)
    R(P + "calculate_KD_nonbreaking_trunk_from_seabed_slope")(lambda: kd_nb)


def C_decide():
    return ctx().decide(True, True)


_hudson_units("accropode_hudson1959", "Accropodes Hudson 1959", "Accropode documentation", (15, 15, 9.7, 8), 15.0)
_hudson_units("accropode2_hudson1959", "Accropode II Hudson 1959", "Accropode II documentation", (16, 16, 10.66, 9), 16.0)
_hudson_units("core_loc_hudson1959", "Core Loc Hudson 1959", "Core Loc documentation", (16, 16, 10.66, 9), 16.0)


@R(*[A + m + ".check_validity_range" for m in
     ("cubes_double_layer_hudson1959", "tetrapod_hudson1959", "cubipod_hudson1959", "cubes_single_layer_vangent2002",
      "xbloc", "xblocplus")])
def novalid():
    return None


@R(*[A + m + ".calculate_unit_mass_M" for m in ("cubes_double_layer_hudson1959", "tetrapod_hudson1959")])
def cube_mass(Hs, rho_water, rho_armour, KD, cot_alpha, alpha_Hs=1.0):
    return hudson_mass(alpha_Hs * Hs, rho_water, rho_armour, KD, cot_alpha)


@R(*[A + m + ".calculate_significant_wave_height_Hs" for m in ("cubes_double_layer_hudson1959", "tetrapod_hudson1959")])
def cube_H(M, rho_water, rho_armour, KD, cot_alpha, alpha_Hs=1.0):
    return hudson_H(M, rho_water, rho_armour, KD, cot_alpha) / alpha_Hs


@R(A + "cubipod_hudson1959.calculate_unit_mass_M")
def cubipod_mass(Hs, rho_water, rho_armour, KD, cot_alpha=1.33, alpha_Hs=1.0):
    return hudson_mass(alpha_Hs * Hs, rho_water, rho_armour, KD, cot_alpha)


@R(A + "cubipod_hudson1959.calculate_significant_wave_height_Hs")
def cubipod_H(M, rho_water, rho_armour, KD, cot_alpha=1.33, alpha_Hs=1.0):
    return hudson_H(M, rho_water, rho_armour, KD, cot_alpha) / alpha_Hs


# ---- double layer cubes, Van der Meer (1988) -------------------------------------------------
V8 = A + "cubes_double_layer_vandermeer1988."
F8 = "Double layer cubes vander Meer 1988"


@R(V8 + "check_validity_range")
def cub_valid(Hs=nan, Tm=nan, rho_armour=nan, N_waves=nan, cot_alpha=nan, direct=True):
    (VI if direct else V)("Significant wave height Hs", F8, Hs, 0.01, 20)
    VI("Number of waves N_waves", F8, N_waves, 0, 7500)
    (VI if direct else V)("Wave period Tm", F8, Tm, 0.5, 30)
    VI("Armour density rho_armour", F8, rho_armour, 2000, 3100)
    VI("Cotangent of outer structure slope cot_alpha", F8, cot_alpha, 1.5, 1.5)
    if not isnan(Hs) and not isnan(Tm):
        V("Wave steepness using Tm and Hs", F8, steep(Hs, Tm), 0.005, 0.07)


def cub_Ns(Nod, N, s):
    return (1.0 + 6.7 * pw(Nod, 0.4) * pw(N, -0.3)) * pw(s, -0.1)


@R(V8 + "calculate_nominal_diameter_Dn_vanDerMeer1988")
def cub_Dn(Hs, Tm, rho_water, rho_armour, N_waves, cot_alpha, Nod):
    cub_valid(Hs, Tm, rho_armour, N_waves, cot_alpha)
    return Hs / (relmass(rho_armour, rho_water) * cub_Ns(Nod, N_waves, steep(Hs, Tm)))


@R(V8 + "calculate_wave_height_Hs_vanDerMeer1988")
def cub_Hs(Dn, s0m, rho_water, rho_armour, N_waves, cot_alpha, Nod):
    Hs = relmass(rho_armour, rho_water) * Dn * cub_Ns(Nod, N_waves, s0m)
    cub_valid(Hs, sq(2 * pi * Hs / (9.81 * s0m)), rho_armour, N_waves, cot_alpha, direct=False)
    return Hs


@R(V8 + "calculate_damage_Nod_vanDerMeer1988")
def cub_Nod(Hs, Dn, s0m, rho_water, rho_armour, N_waves, cot_alpha):
    x = Hs / (relmass(rho_armour, rho_water) * Dn) * pw(s0m, 0.1) - 1.0
    cub_valid(Hs, nan, rho_armour, N_waves, cot_alpha)
    with_T = sq(2 * pi * Hs / (9.81 * s0m))
    V("Wave period Tm", F8, with_T, 0.5, 30)
    V("Wave steepness using Tm and Hs", F8, s0m, 0.005, 0.07)
    return pw(x / 6.7 * pw(N_waves, 0.3), 2.5)


# ---- single layer cubes, Van Gent (2002) ------------------------------------------------------
G2 = A + "cubes_single_layer_vangent2002."


def cs_M(Hs, rho_water, rho_armour, Ns):
    return rho_armour * (Hs / (relmass(rho_armour, rho_water) * Ns)) ** 3


def cs_H(M, rho_water, rho_armour, Ns):
    return Ns * relmass(rho_armour, rho_water) * cbrt(M / rho_armour)


@R(G2 + "calculate_unit_mass_M_start_of_damage")
def cs_M_s(Hs, rho_water, rho_armour, Ns=2.9):
    return cs_M(Hs, rho_water, rho_armour, Ns)


@R(G2 + "calculate_unit_mass_M_failure")
def cs_M_f(Hs, rho_water, rho_armour, Ns=3.5):
    return cs_M(Hs, rho_water, rho_armour, Ns)


@R(G2 + "calculate_significant_wave_height_Hs_start_of_damage")
def cs_H_s(M, rho_water, rho_armour, Ns=2.9):
    return cs_H(M, rho_water, rho_armour, Ns)


@R(G2 + "calculate_significant_wave_height_Hs_failure")
def cs_H_f(M, rho_water, rho_armour, Ns=3.5):
    return cs_H(M, rho_water, rho_armour, Ns)


# ---- Xbloc / XblocPlus ---------------------------------------------------------------------------
def _xbloc(mod, k, fb, perm):
    P = A + mod + "."

    @R(P + "calculate_wave_height_Hs_from_V")
    def H_V(V, rho_water, rho_armour, total_correction_factor=1.0):
        return k * relmass(rho_armour, rho_water) * cbrt(V / total_correction_factor)

    @R(P + "calculate_wave_height_Hs_from_M")
    def H_M(M, rho_water, rho_armour, total_correction_factor=1.0):
        return k * relmass(rho_armour, rho_water) * cbrt(M / rho_armour / total_correction_factor)

    @R(P + "calculate_unit_volume_V")
    def vol(Hs, rho_water, rho_armour, total_correction_factor=1.0):
        return total_correction_factor * (Hs / (k * relmass(rho_armour, rho_water))) ** 3

    @R(P + "calculate_unit_mass_M")
    def mass(Hs, rho_water, rho_armour, total_correction_factor=1.0):
        return rho_armour * vol(Hs, rho_water, rho_armour, total_correction_factor)

    @R(P + "calculate_correctionfactor_unit_mass_M_by_cotalpha_seabed")
    def cf_cot(cot_alpha):
        for lim, f in ((10, 2.0), (15, 1.5), (20, 1.25), (30, 1.1)):
            if cot_alpha <= lim:
                return f
        return 1.0

    @R(P + "calculate_correctionfactor_unit_mass_M_by_percslope_seabed")
    def cf_perc(perc_slope):
        if perc_slope == 0:
            raise Undefined("flat")
        for lim, f in ((10, 2.0), (15, 1.5), (20, 1.25), (30, 1.1)):
            if rle(100.0, perc_slope, lim):
                return f
        return 1.0

    @R(P + "calculate_correctionfactor_unit_mass_M_by_relative_freeboard")
    def cf_fb(rel_freeboard):
        return fb[0] if rel_freeboard < 0.5 else (fb[1] if rel_freeboard < 1.0 else 1.0)

    @R(P + "switch_correctionfactor_unit_mass_M_by_core_permeability")
    def cf_perm(low_core_permeability=False, core_impermeable=False):
        return perm[1] if core_impermeable else (perm[0] if low_core_permeability else 1.0)


_xbloc("xbloc", 2.77, (2.0, 1.5), (1.5, 2.0))
_xbloc("xblocplus", 2.5, (1.5, 1.25), (1.25, 1.5))
X = A + "xbloc."


@R(X + "calculate_correctionfactor_unit_mass_M_by_rel_depth")
def cf_depth(rel_depth):
    return 2.0 if rel_depth > 3.5 else (1.5 if rel_depth > 2.5 else 1.0)


@R(X + "switch_correction_factor_unit_mass_M_near_design_event_frequency")
def cf_freq(design_event_occurs_frequently=False):
    return 1.25 if design_event_occurs_frequently else 1.0


@R(X + "calculate_correctionfactor_unit_mass_M_by_structure_slope")
def cf_slope(cot_alpha):
    if gt(cot_alpha, 2 / 3):
        return 1.25
    return 1.5 if cot_alpha > 0.5 else 1.0
