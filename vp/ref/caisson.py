from .ctx import *
from .reg import R

G = "structural.forces_caisson.goda1985."
F = "Goda (2000)"


@R(G + "check_validity_range")
def g_valid(beta=nan, cota_seabed=nan, Tmax=nan, tup=nan, Bup=nan, h_s=nan, B1=nan, _comp=False):
    VI("Angle of wave incidence", F, beta, 0.0, 90.0)
    VI("Seabed slope", F, cota_seabed, 10.0, 100.0)
    VI("Wave period", F, Tmax, 0.0, 30.0)
    if not (isnan(tup) or isnan(Bup)):
        if _comp:
            V("Centre of gravity inside of caisson", F, tup / Bup, 0.0, 1.0)
        else:
            VR("Centre of gravity inside of caisson", F, tup, Bup, 0.0, 1.0)
    VI("Water depth at site", F, h_s, 0.0, inf)
    VI("Width of toe berm", F, B1, 0.0, inf)
    VI("Width of caisson upright section", F, Bup, 0.0, inf)


def _imp(n):
    fact("impulsive", n)
    rec = ("Impulsive breaking condition %d" % n, F, 1.0, 0.0, 0.0)
    (ctx().may if ctx().may_depth else ctx().must).append(rec)
    return True


@R(G + "check_impulsive_breaking")
def g_imp(beta=nan, B1=nan, L=nan, cota_seabed=nan, offshore_wave_steepness=nan, Rc=nan, Hsi=nan, d=nan, h_s=nan):
    base = (beta, B1, L, Rc, Hsi)
    if any(isnan(x) for x in base):
        return False
    common = beta < 20 and rgt(Rc, Hsi, 0.3)
    if not any(isnan(x) for x in (cota_seabed, offshore_wave_steepness)):
        if common and lt(B1 / L, 0.02) and cota_seabed < 50 and offshore_wave_steepness < 0.03:
            return _imp(1)
    if not any(isnan(x) for x in (d, h_s)):
        if common and gt(B1 / L, 0.02) and lt(B1 / L, 0.3) and rlt(d, h_s, 0.6):
            return _imp(2)
    return False


def core(HD, Hsi, Tmax, beta, h_s, d, B1, cota_seabed, rho_water, hacc, Rc, Bup, steepness, g):
    b = abs(beta)
    be = max(b - 15.0, 0.0)
    cb = math.cos(math.radians(be))
    r = {}
    r["h_5Hs"] = hb = h_s + 5.0 * Hsi / cota_seabed
    r["etastar"] = eta = 0.75 * (1.0 + cb) * HD
    r["L"] = L = wavelength(Tmax, h_s, g)
    kh = 2.0 * pi * h_s / L
    if kh > 300:
        raise Undefined("overflow")
    a1 = 0.6 + 0.5 * (2.0 * kh / math.sinh(2.0 * kh)) ** 2
    a2 = min((hb - d) / (3.0 * hb) * (HD / d) ** 2, 2.0 * d / HD)
    a3 = 1.0 - hacc / h_s * (1.0 - 1.0 / math.cosh(kh))
    q = 0.5 * (1.0 + cb) * rho_water * g * HD
    r["alpha1"], r["alpha2"], r["alpha3"] = a1, a2, a3
    r["p1"] = p1 = q * (a1 + a2 * cb * cb)
    r["p2"] = p1 / math.cosh(kh)
    r["p3"] = p3 = a3 * p1
    r["p4"] = p4 = p1 * (1.0 - Rc / eta) if gt(eta, Rc) else 0.0
    r["hstar_c"] = hc = min(eta, Rc)
    r["pu"] = pu = q * a1 * a3
    r["FH"] = 0.5 * (p1 + p3) * hacc + 0.5 * (p1 + p4) * hc
    r["MH"] = ((2.0 * p1 + p3) * hacc ** 2 / 6.0 + 0.5 * (p1 + p4) * hacc * hc + (p1 + 2.0 * p4) * hc ** 2 / 6.0)
    r["FU"] = 0.5 * pu * Bup
    r["MU"] = 2.0 / 3.0 * r["FU"] * Bup
    r["impulsive_breaking"] = g_imp(b, B1, L, cota_seabed, steepness, Rc, Hsi, d, h_s)
    r.update(HD=HD, Hsi=Hsi, Tmax=Tmax, h_s=h_s, d=d, cota_seabed=cota_seabed, rho_water=rho_water, hacc=hacc,
             Rc=Rc, g=g)
    return r


@R(G + "calculate_pressures_and_forces")
def g_press(HD, Hsi, Tmax, beta, h_s, d, B1, cota_seabed, rho_water, hacc, Rc, Bup, offshore_wave_steepness=nan,
            g=9.81, return_dict=False):
    r = core(HD, Hsi, Tmax, beta, h_s, d, B1, cota_seabed, rho_water, hacc, Rc, Bup, offshore_wave_steepness, g)
    if return_dict:
        r.update(beta=abs(beta), Bup=Bup)
        return r
    return tuple(r[k] for k in ("FH FU MH MU p1 p2 p3 p4 hstar_c pu h_5Hs etastar L alpha1 alpha2 alpha3 "
                                "impulsive_breaking").split())


@R(G + "calculate_Wup")
def g_Wup(hacc, Rc, Bup, rho_fill_below_SWL, rho_water, rho_fill_above_SWL, g=9.81):
    return Bup * g * (hacc * (rho_fill_below_SWL - rho_water) + Rc * rho_fill_above_SWL)


@R(G + "calculate_safety_factors")
def g_SF(FU, FH, Wup, muf, tup, MH, MU):
    return muf * (Wup - FU) / div(FH, 1) if FH else _undef(), (Wup * tup - MU) / MH if MH else _undef()


def _undef():
    raise Undefined("zero load")


@R(G + "calculate_bearing_pressures")
def g_bear(Wup, tup, MH, MU, FU, Bup):
    Me = Wup * tup - MU - MH
    We = Wup - FU
    if We == 0 or Me == 0:
        raise Undefined("zero")
    te = Me / We
    if le(te, Bup / 3.0):
        pe = 2.0 * We / (3.0 * te)
    else:
        pe = 2.0 * We / Bup * (2.0 - 3.0 * te / Bup)
    return pe, Me, We, te


@R(G + "calculate_forces_and_reactions")
def g_forces(HD, Hsi, Tmax, beta, h_s, d, B1, cota_seabed, rho_water, hacc, Rc, Bup, rho_fill_above_SWL=2400,
             rho_fill_below_SWL=2100, offshore_wave_steepness=nan, muf=0.6, tup_over_Bup=0.5, g=9.81,
             return_dict=False):
    r = core(HD, Hsi, Tmax, beta, h_s, d, B1, cota_seabed, rho_water, hacc, Rc, Bup, offshore_wave_steepness, g)
    r["tup"] = tup = tup_over_Bup * Bup
    r["Wup"] = W = g_Wup(hacc, Rc, Bup, rho_fill_below_SWL, rho_water, rho_fill_above_SWL, g)
    r["pe"], r["Me"], r["We"], r["te"] = g_bear(W, tup, r["MH"], r["MU"], r["FU"], Bup)
    r["SF_sliding"], r["SF_overturning"] = g_SF(r["FU"], r["FH"], W, muf, tup, r["MH"], r["MU"])
    g_valid(beta, cota_seabed, Tmax, tup, Bup, h_s, B1, _comp=True)
    if return_dict:
        r.update(beta=beta, B_up=Bup)
        return r
    return tuple(r[k] for k in "FH FU MH MU p1 pe pu impulsive_breaking SF_sliding SF_overturning".split())
