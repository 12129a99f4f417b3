from .ctx import *
from .reg import R

P = "core_physics."


@R(P + "calculate_wave_steepness_s")
def steepness(H, T, g=9.81):
    return 2.0 * pi * H / (g * T * T)


@R(P + "calculate_Iribarren_number_ksi")
def iribarren(H, T, cot_alpha):
    return xi(H, T, cot_alpha)


@R(P + "calculate_critical_Iribarren_number_ksi_mc")
def ksi_mc(c_pl, c_s, P, cot_alpha):
    return ex(ln(c_pl / c_s * pw(P, 0.31) / sq(cot_alpha)) / (P + 0.5))


@R(P + "calculate_stability_number_Ns")
def Ns(H, D, rho_rock, rho_water):
    return H / (D * (rho_rock / rho_water - 1.0))


@R(P + "calculate_buoyant_density_Delta")
def Delta(rho_rock, rho_water):
    return (rho_rock - rho_water) / rho_water


@R(P + "calculate_M50_from_Dn50")
def M50(Dn50, rho_rock=2650.0):
    return rho_rock * Dn50 * Dn50 * Dn50


@R(P + "calculate_Dn50_from_M50")
def Dn50(M50, rho_rock=2650.0):
    return cbrt(M50 / rho_rock)


@R(P + "check_usage_Dn50_or_M50")
def usage(Dn50, M50, rho_rock):
    return use_dn50(Dn50, M50, rho_rock)


def use_dn50(Dn50, M50, rho_rock):
    if isnan(Dn50) and isnan(M50):
        raise Invalid("Dn50 or M50")
    if not isnan(Dn50):
        return Dn50
    if isnan(rho_rock):
        other("default value of 2650")
        rho_rock = 2650.0
    return cbrt(M50 / rho_rock)


@R(P + "calculate_S_from_Nod")
def S_from_Nod(Nod, G, nv):
    return Nod / (G * (1.0 - nv))


@R(P + "calculate_Nod_from_S")
def Nod_from_S(S, G, nv):
    return S * G * (1.0 - nv)


@R(P + "check_usage_stabilitynumber")
def usage_ns(Hs=None, Dn=None, Delta=None, Ns=None):
    vals = {"Hs": Hs, "Dn": Dn, "Delta": Delta, "Ns": Ns}
    missing = [k for k, v in vals.items() if v is None]
    if len(missing) != 1:
        raise Invalid("exactly one must be missing")
    m = missing[0]
    if m == "Hs":
        return Ns * Delta * Dn, m
    if m == "Ns":
        return Hs / (Delta * Dn), m
    if m == "Dn":
        return Hs / (Delta * Ns), m
    return Hs / (Dn * Ns), m


@R(P + "calculate_local_wavelength")
def local_L(T, h, g=9.81):
    return wavelength(T, h, g)


@R("core_utility.check_variable_validity_range")
def validity(variable_name, formula_name, values, min_value, max_value):
    ok = not (values < min_value or values > max_value)
    if not ok:
        VI(variable_name, formula_name, values, min_value, max_value)
    return [ok]
