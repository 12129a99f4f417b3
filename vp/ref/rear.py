from .ctx import *
from .reg import R
from .core import use_dn50
from .runup import vg01
from .overtopping import uX

A = "structural.stability_rock_rear."
G7 = A + "vangent2007."
F7 = "Van Gent (2007)"


@R(G7 + "check_validity_range")
def g7_valid(Rc=nan, Rc2_front=nan, Rc2_rear=nan, Gc=nan, Dn50=nan, B_element=nan, h=nan, Hs=nan, Tmm10=nan,
             z1p=nan, S=nan, N_waves=nan, _comp=()):
    def ratio(name, a, b, lo, hi, *deps):
        if any(d in _comp for d in deps):
            if not (isnan(a) or isnan(b)):
                V(name, F7, a / b, lo, hi)
        else:
            VR(name, F7, a, b, lo, hi)
    if not (isnan(Hs) or isnan(Tmm10)):
        V("sm-1,0", F7, steep(Hs, Tmm10), 0.023, 0.054)
    ratio("h/Hs", h, Hs, 3.3, 11.0, "Hs")
    VI("N_waves", F7, N_waves, 1000, 10000)
    ratio("Rc/Hs", Rc, Hs, 0.5, 1.9, "Hs")
    ratio("Rc/Dn50", Rc, Dn50, 7.0, 22.0, "Dn50")
    V("(z1% - Rc)/Hs", F7, (z1p - Rc) / Hs, 0.2, 1.3)
    ratio("Rc2,front/Hs", Rc2_front, Hs, 0.0, 0.5, "Hs")
    ratio("B_element/Hs", B_element, Hs, 0.5, 1.5, "Hs")
    ratio("Gc/Hs", Gc, Hs, 0.5, 1.1, "Hs")
    if not (isnan(Dn50) or isnan(Hs)):
        V("Stability number Ns", F7, Hs / (Dn50 * (2650 / 1025 - 1)), 4.0, 12.0)
    ratio("Rc2,rear/Hs", Rc2_rear, Hs, 0.0, 1.3, "Hs")
    (V if "S" in _comp else VI)("S", F7, S, 2.0, 100.0)


def g7_geo(Rc, Rc2_front, Rc2_rear, Hs):
    """the crest geometry factors of eq. 1"""
    return (1.0 + 5.0 * Rc2_rear / div(Rc - Rc2_rear, 1.0 if Rc != Rc2_rear else 0.0)), 1.0 + Rc2_front / Hs


def g7_rear(Rc, Rc2_rear):
    if Rc == Rc2_rear:
        raise Undefined("Rc == Rc2_rear")
    return 1.0 + 5.0 * Rc2_rear / (Rc - Rc2_rear)


@R(G7 + "calculate_damage_number_S")
def g7_S(cot_alpha, cot_phi, gamma, Hs, Tmm10, Rc, Rc2_front, Rc2_rear, N_waves, Dn50=nan, M50=nan, rho_rock=nan):
    z = vg01(Hs, Tmm10, gamma, cot_alpha, 1.45, 5.1)
    comp = {"S"} | ({"Dn50"} if isnan(Dn50) else set())
    Dn50 = use_dn50(Dn50, M50, rho_rock)
    S = (0.00025 * pw(cot_phi, 1.25) * ((z - Rc) / Dn50) ** 2 * pw(Rc / Dn50, 0.5) * g7_rear(Rc, Rc2_rear)
         / (1.0 + Rc2_front / Hs) * sq(N_waves))
    g7_valid(Dn50=Dn50, Hs=Hs, Rc=Rc, z1p=z, Rc2_front=Rc2_front, Rc2_rear=Rc2_rear, N_waves=N_waves, S=S,
             Tmm10=Tmm10, _comp=comp)
    return S


@R(G7 + "calculate_nominal_rock_diameter_Dn50")
def g7_D(cot_alpha, cot_phi, gamma, S, Hs, Tmm10, Rc, Rc2_front, Rc2_rear, N_waves):
    z = vg01(Hs, Tmm10, gamma, cot_alpha, 1.45, 5.1)
    D = (0.036 * sq(cot_phi) * pw(z - Rc, 0.8) * pw(Rc, 0.2) * pw(g7_rear(Rc, Rc2_rear), 0.4)
         * pw(1.0 + Rc2_front / Hs, -0.4) * pw(S / sq(N_waves), -0.4))
    g7_valid(Dn50=D, Hs=Hs, Rc=Rc, z1p=z, Rc2_front=Rc2_front, Rc2_rear=Rc2_rear, N_waves=N_waves, S=S,
             Tmm10=Tmm10, _comp={"Dn50"})
    return D


def inv_H(H0, z, Tmm10, gamma, cot):
    """wave height that gives run-up z, with the surf similarity of H0"""
    k = xi(H0, Tmm10, cot)
    if lt(k, 0.5 * 5.1 / 1.45):
        return z / (gamma * 1.45 * k)
    return z / (gamma * (5.1 - 0.25 * 5.1 ** 2 / 1.45 / k))


@R(G7 + "calculate_maximum_significant_wave_height_Hs")
def g7_H(cot_alpha, cot_phi, gamma, S, Tmm10, Rc, Rc2_front, Rc2_rear, N_waves, Dn50=nan, M50=nan, rho_rock=nan,
         tolerance=1e-4, max_iterations=10000):
    comp = {"Hs"} | ({"Dn50"} if isnan(Dn50) else set())
    Dn50 = use_dn50(Dn50, M50, rho_rock)
    H, n = Rc, 0
    base = S / sq(N_waves) / (0.00025 * pw(cot_phi, 1.25)) / (pw(Rc / Dn50, 0.5) * g7_rear(Rc, Rc2_rear))
    while True:
        H0 = H
        z = Rc + Dn50 * sq(base * (1.0 + Rc2_front / H0))
        H = inv_H(H0, z, Tmm10, gamma, cot_alpha)
        if isnan(H) or not (0 < H < 1e6):
            raise Undefined("iterate")
        n += 1
        if not gt(abs(H - H0), tol(tolerance)) or n >= max_iterations:
            break
        if n > 600:
            raise Undefined("slow")
    if n >= max_iterations:
        other("Maximum number of iterations reached")
    fact("n", n)
    g7_valid(Dn50=Dn50, Hs=H, Rc=Rc, z1p=z, Rc2_front=Rc2_front, Rc2_rear=Rc2_rear, N_waves=N_waves, S=S,
             Tmm10=Tmm10, _comp=comp)
    return H


# ---- Van Gent & Pozueta (2004) -----------------------------------------------------------------
P4 = A + "vangentpozueta2004."
F4 = "Van Gent & Pozueta (2004)"
CS = 0.008 ** 6.0


@R(P4 + "check_validity_range")
def p4_valid(Rc=nan, Rc_rear=nan, cot_phi=nan, gamma_f=nan, Dn50=nan, rho_rock=nan, rho_water=nan, Bc=nan, Hs=nan,
             Tmm10=nan, z1p=nan, S=nan, N_waves=nan, _comp=()):
    def ratio(name, a, b, lo, hi):
        if "Hs" in _comp:
            if not (isnan(a) or isnan(b)):
                V(name, F4, a / b, lo, hi)
        else:
            VR(name, F4, a, b, lo, hi)
    if not (isnan(Hs) or isnan(Tmm10)):
        V("sm-1,0", F4, steep(Hs, Tmm10), 0.019, 0.036)
    VI("N_waves", F4, N_waves, 0, 4000)
    ratio("Rc/Hs", Rc, Hs, 0.3, 2.0)
    ratio("Rc_rear/Hs", Rc_rear, Hs, 0.3, 6.0)
    ratio("B_c/Hs", Bc, Hs, 1.3, 1.6)
    V("(z1% - Rc)/(gamma_f*Hs)", F4, (z1p - Rc) / (gamma_f * Hs), 0.0, 1.4)
    if not any(isnan(x) for x in (Hs, Dn50, rho_rock, rho_water)):
        V("Hs/(Delta*Dn50_rear)", F4, Hs / (relmass(rho_rock, rho_water) * Dn50), 5.5, 8.5)
    VI("cot phi", F4, cot_phi, 2.0, 4.0)
    (V if "S" in _comp else VI)("S", F4, S, 2.0, 50.0)


@R(P4 + "calculate_damage_number_S")
def p4_S(cot_alpha, cot_phi, gamma_f, gamma_f_Crest, Hs, Tmm10, Rc, Rc_rear, Bc, N_waves, Dn50=nan, M50=nan,
         rho_rock=nan, rho_water=1025.0, cs=CS):
    z = vg01(Hs, Tmm10, gamma_f, cot_alpha, 1.45, 5.1)
    u = uX(Hs, z, Rc, Bc, gamma_f, gamma_f_Crest)
    Dn50 = use_dn50(Dn50, M50, rho_rock)
    S = (cs * pw(u * Tmm10 / (sq(relmass(rho_rock, rho_water)) * Dn50), 6.0) * pw(cot_phi, -2.5)
         * (1.0 + 10.0 * ex(-Rc_rear / Hs)) * sq(N_waves))
    p4_valid(Rc, Rc_rear, cot_phi, gamma_f, Dn50, rho_rock, rho_water, Bc, Hs, Tmm10, z, S, N_waves, _comp={"S"})
    return S


@R(P4 + "calculate_nominal_rock_diameter_Dn50")
def p4_D(cot_alpha, cot_phi, gamma_f, gamma_f_Crest, S, Hs, Tmm10, Rc, Rc_rear, Bc, rho_rock, N_waves,
         rho_water=1025.0, cs=CS):
    z = vg01(Hs, Tmm10, gamma_f, cot_alpha, 1.45, 5.1)
    u = uX(Hs, z, Rc, Bc, gamma_f, gamma_f_Crest)
    D = (u * Tmm10 / sq(relmass(rho_rock, rho_water))
         * pw(cs * sq(N_waves) / S * pw(cot_phi, -2.5) * (1.0 + 10.0 * ex(-Rc_rear / Hs)), 1.0 / 6.0))
    p4_valid(Rc, Rc_rear, cot_phi, gamma_f, D, rho_rock, rho_water, Bc, Hs, Tmm10, z, S, N_waves)
    return D


@R(P4 + "calculate_maximum_significant_wave_height_Hs")
def p4_H(cot_alpha, cot_phi, gamma_f, gamma_f_Crest, S, Tmm10, Rc, Rc_rear, Bc, N_waves, Dn50=nan, M50=nan,
         rho_rock=nan, rho_water=1025.0, cs=CS, tolerance=1e-4, max_iterations=10000):
    if isnan(rho_rock):
        raise Undefined("rho_rock")
    Dn50 = use_dn50(Dn50, M50, rho_rock)
    Del = relmass(rho_rock, rho_water)
    H, n = (Rc + 0.5) / (2.552 * gamma_f), 0
    while True:
        H0 = H
        u = (pw(S / sq(N_waves) * pw(cot_phi, 2.5) / cs / (1.0 + 10.0 * ex(-Rc_rear / H0)), 1.0 / 6.0)
             * sq(Del) * Dn50 / Tmm10)
        z = Rc + (u * (1.0 + 0.1 * Bc / H0) / 1.7) ** 2 * gamma_f / (9.81 * gamma_f_Crest)
        H = inv_H(H0, z, Tmm10, gamma_f, cot_alpha)
        if isnan(H) or not (0 < H < 1e6):
            raise Undefined("iterate")
        n += 1
        if not gt(abs(H - H0), tol(tolerance)) or n >= max_iterations:
            break
        if n > 600:
            raise Undefined("slow")
    if n >= max_iterations:
        other("Maximum number of iterations reached")
    fact("n", n)
    p4_valid(Rc, Rc_rear, cot_phi, gamma_f, Dn50, rho_rock, rho_water, Bc, H, Tmm10, z, S, N_waves, _comp={"Hs"})
    return H
