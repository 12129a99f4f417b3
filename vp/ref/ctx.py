"""Scalar reference-model runtime: warnings ledger, fuzzy branch decisions, safe math.

The reference models (vp/ref/*.py) are written for plain Python floats from the published
formulas / docstrings; they never import the code under test.
"""
import math
from fractions import Fraction

nan = float("nan")
inf = float("inf")
pi = math.pi
NEAR_BRANCH = 1e-10
NEAR_RANGE = 1e-11


class Invalid(ValueError):
    """The reference says: this input combination must be rejected with ValueError."""


class Undefined(Exception):
    """The reference makes no statement about this input (outside the modelled domain)."""


TOLSCALE = 1.0      # scales the tolerance of every iterative procedure (see harness.compare)


def set_tolscale(x):
    global TOLSCALE
    TOLSCALE = x


def tol(t):
    C.facts["iterative"] = True
    return t * TOLSCALE


class Ctx:
    def __init__(self, forced=None):
        self.must = []      # (name, formula, value, lo, hi)
        self.may = []
        self.other_must = []
        self.other_may = []
        self.near = 0
        self.forced = forced or {}
        self.may_depth = 0
        self.inner = []         # certain out-of-range records made inside a maywarn block
        self.facts = {}
        self.crit = []      # (key, quantity, threshold): every comparison made, for the generator to aim at

    def decide(self, truth, is_near):
        if not is_near:
            return truth
        i = self.near
        self.near += 1
        return self.forced.get(i, truth) if i in self.forced else truth


C = Ctx()


def reset(forced=None):
    global C
    C = Ctx(forced)
    return C


def ctx():
    return C


class maywarn:
    """intermediate steps: their warnings may come, but only those repeated identically in every step must"""

    def __enter__(self):
        C.may_depth += 1
        self.marks = [len(C.inner)]
        return self

    def step(self):
        self.marks.append(len(C.inner))

    def __exit__(self, kind, *a):
        C.may_depth -= 1
        if kind is None and len(self.marks) > 1:
            parts = [C.inner[i:j] for i, j in zip(self.marks, self.marks[1:])]
            for rec in parts[0]:
                if all(rec in q for q in parts[1:]):
                    if C.may_depth:
                        C.inner.append(rec)
                    else:
                        C.must.append(rec)


def isnan(x):
    return isinstance(x, float) and x != x


def _near(a, b, eps):
    if a == b:
        return True
    if isnan(a) or isnan(b) or math.isinf(a) or math.isinf(b):
        return False
    return abs(a - b) <= eps * max(abs(a), abs(b))


# --- branch decisions on computed (rounded) quantities ------------------------------
def lt(a, b):
    C.crit.append((None, a, b))
    return C.decide(a < b, _near(a, b, NEAR_BRANCH))


def le(a, b):
    C.crit.append((None, a, b))
    return C.decide(a <= b, _near(a, b, NEAR_BRANCH))


def gt(a, b):
    C.crit.append((None, a, b))
    return C.decide(a > b, _near(a, b, NEAR_BRANCH))


def ge(a, b):
    C.crit.append((None, a, b))
    return C.decide(a >= b, _near(a, b, NEAR_BRANCH))


def _rat(a, b, c):
    """exact relation of a/b to c if unambiguous else None (near but not equal)."""
    C.crit.append((None, a / b, c))
    x, y = Fraction(a) / Fraction(b), Fraction(c)
    if x == y:
        return 0
    if _near(a / b, c, NEAR_RANGE):
        return None
    return -1 if x < y else 1


def rlt(a, b, c):
    """a/b < c  (single division of two inputs: exact when a/b == c exactly)"""
    r = _rat(a, b, c)
    return C.decide(a / b < c, True) if r is None else r < 0


def rle(a, b, c):
    r = _rat(a, b, c)
    return C.decide(a / b <= c, True) if r is None else r <= 0


def rgt(a, b, c):
    return not rle(a, b, c)


def rge(a, b, c):
    return not rlt(a, b, c)


# --- validity range ledger -----------------------------------------------------------
def _record(name, formula, value, lo, hi, out, sure):
    C.crit.append(((name, formula, lo), value, lo))
    C.crit.append(((name, formula, hi), value, hi))
    rec = (name, formula, value, lo, hi)
    if not sure:
        C.may.append(rec)
    elif out:
        (C.may if C.may_depth else C.must).append(rec)
        if C.may_depth:
            C.inner.append(rec)


def V(name, formula, value, lo, hi):
    """computed quantity"""
    if isnan(value):
        return
    near = _near(value, lo, NEAR_RANGE) or _near(value, hi, NEAR_RANGE)
    if (lo == 0 and value != 0 and abs(value) < 1e-14) or abs(value) > 1e9:
        near = True
    _record(name, formula, value, lo, hi, value < lo or value > hi, not near)


def VI(name, formula, value, lo, hi):
    """value is an input itself: bounds are inclusive, exactly"""
    if isnan(value):
        return
    _record(name, formula, value, lo, hi, value < lo or value > hi, True)


def VR(name, formula, a, b, lo, hi):
    """value is the ratio a/b of two inputs"""
    if isnan(a) or isnan(b):
        return
    value = a / b
    if math.isinf(value):
        return V(name, formula, value, lo, hi)
    r1 = _rat(a, b, lo) if not math.isinf(lo) else 1
    r2 = _rat(a, b, hi) if not math.isinf(hi) else -1
    sure = r1 is not None and r2 is not None
    out = sure and (r1 < 0 or r2 > 0)
    _record(name, formula, value, lo, hi, out, sure)


def other(text):
    (C.other_may if C.may_depth else C.other_must).append(text)


def fact(key, value):
    C.facts[key] = value


# --- safe math -------------------------------------------------------------------------
def pw(a, b):
    try:
        if isnan(a) or isnan(b):
            return nan if not (b == 0 or a == 1) else 1.0
        if a < 0 and b != int(b):
            return nan
        if a == 0 and b < 0:
            return inf
        return math.pow(a, b)
    except OverflowError:
        return inf
    except ValueError:
        return nan


def sq(a):
    return math.sqrt(a) if a >= 0 else nan


def ln(a):
    if a > 0:
        return math.log(a)
    return -inf if a == 0 else nan


def ex(a):
    try:
        return math.exp(a)
    except OverflowError:
        return inf


def fmin(a, b):
    return nan if (isnan(a) or isnan(b)) else (a if le(a, b) else b)


def div(a, b):
    if b == 0:
        raise Undefined("division by zero")
    return a / b


# --- physics ---------------------------------------------------------------------------
def steep(H, T, g=9.81):
    return 2.0 * pi * H / (g * T * T)


def xi(H, T, cot):
    return (1.0 / cot) / sq(2.0 * pi * H / (9.81 * T * T))


def relmass(rho_s, rho_w):
    return rho_s / rho_w - 1.0


def cbrt(x):
    return pw(x, 1.0 / 3.0)


def wavelength(T, h, g=9.81):
    """linear dispersion, solved to machine precision with Newton + bisection guard"""
    w2h = (2 * pi / T) ** 2 * h / g
    if math.isinf(w2h) or w2h > 700:
        return g * T * T / (2 * pi)
    w2h = max(w2h, 1e-8)
    lo, hi = 0.0, max(2.0, 2 * w2h, 2 * math.sqrt(w2h))
    q = w2h / math.sqrt(math.tanh(w2h)) if w2h > 0 else 0
    for _ in range(100):
        f = q * math.tanh(q) - w2h
        if f > 0:
            hi = q
        else:
            lo = q
        th = math.tanh(q)
        d = th + q * (1 - th * th)
        n = q - f / d
        if not (lo <= n <= hi):
            n = 0.5 * (lo + hi)
        if abs(n - q) <= 1e-16 * q:
            q = n
            break
        q = n
    return 2 * pi * h / q
