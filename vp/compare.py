"""Run the reference model and the code on the same case and compare outcomes."""
import itertools
import math
import re

import numpy as np

from . import target
from .ref import ctx as X
from .ref.reg import REF
from .ref import core, runup, overtopping, transmission, rock, concrete, rear, toe, caisson, crestwall   # noqa: F401

nan = float("nan")
RTOL = 1e-9
WARN = re.compile(r"^Value of (.*) \((.*)\) is outside of the validity range \((.*) - (.*)\) for the (.*) formula\.$", re.S)


def flat(x):
    """-> list of floats / None describing a scalar result of any packaging"""
    if x is None:
        return [None]
    if isinstance(x, (bool, np.bool_)):
        return [1.0 if x else 0.0]
    if isinstance(x, (int, float, np.integer, np.floating)):
        return [float(x)]
    if isinstance(x, (complex, np.complexfloating)):
        return [nan]        # the root of a negative number: undefined in either spelling
    if isinstance(x, str):
        return [x]
    if isinstance(x, dict):
        out = []
        for k in sorted(x):
            if k == "is_valid":
                continue
            out.append("key:" + k)
            out += flat(x[k])
        return out
    if isinstance(x, (list, tuple)):
        return [y for v in x for y in flat(v)]
    if isinstance(x, np.ndarray):
        return [y for v in x.ravel().tolist() for y in flat(v)]
    return [repr(type(x))]


def close(a, b, rtol=RTOL, atol=0.0):
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return a == b
    if a == b:
        return True
    if a != a or b != b:
        return a != a and b != b
    if math.isinf(a) or math.isinf(b):
        return abs(a) > 1e300 and abs(b) > 1e300 and (a > 0) == (b > 0)
    big = max(abs(a), abs(b))
    if big < 1e-100:        # far below anything that exists (the tail of an exponential)
        return True
    if big > 1e11:          # far above it (a formula about to overflow)
        rtol = max(rtol, 1e-6)
    return abs(a - b) <= rtol * big + atol


def same(a, b, rtol=RTOL, atol=0.0):
    return len(a) == len(b) and all(close(x, y, rtol, atol) for x, y in zip(a, b))


def ref_run(path, args, forced=None, scale=1.0):
    """-> (kind, value, ctx); kind in ok / invalid / undefined"""
    X.set_tolscale(scale)
    c = X.reset(forced)
    a = {k: (float(v) if isinstance(v, int) and not isinstance(v, bool) and k not in ("max_iter", "max_iterations") else v)
         for k, v in args.items()}
    try:
        return "ok", REF[path](**a), c
    except X.Invalid:
        return "invalid", None, c
    except (X.Undefined, ZeroDivisionError, OverflowError):
        return "undefined", None, c
    except ValueError:      # math domain errors in the reference
        return "undefined", None, c
    finally:
        X.set_tolscale(1.0)


def has_complex(x):
    if isinstance(x, dict):
        return any(has_complex(v) for v in x.values())
    if isinstance(x, (list, tuple)):
        return any(has_complex(v) for v in x)
    if isinstance(x, np.ndarray):
        return x.dtype.kind == "c"
    return isinstance(x, (complex, np.complexfloating))


def has_nonfinite(x):
    return any(isinstance(y, float) and not math.isfinite(y) for y in flat(x))


def undefined_error(e, *refs):
    """an arithmetic or type error where the formula itself has no finite value (a complex number compared, a division by zero)"""
    if isinstance(e, OverflowError):
        return True
    return isinstance(e, (TypeError, ArithmeticError)) and \
        any(has_nonfinite(v) for v in refs)


def fmt(x):
    s = repr(x)
    return s if len(s) < 300 else s[:300] + "..."


def parse_warnings(ws):
    rng, oth = [], []
    for cat, msg in ws:
        if issubclass(cat, (RuntimeWarning, DeprecationWarning, FutureWarning, PendingDeprecationWarning)):
            continue
        m = WARN.match(msg)
        if m:
            rng.append(m.groups())      # name, value, lo, hi, formula
        else:
            oth.append(msg)
    return rng, oth


def num(s):
    try:
        return float(s)
    except ValueError:
        m = re.findall(r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+|inf|nan)", s)
        try:
            return float(m[-1]) if m else (1.0 if "True" in s else 0.0 if "False" in s else nan)
        except ValueError:
            return nan


def match_rec(w, rec, valtol=1e-6):
    name, value, lo, hi, formula = w
    rn, rf, rv, rlo, rhi = rec
    return name == rn and formula == rf and close(num(lo), rlo, 1e-9) and close(num(hi), rhi, 1e-9) and \
        (close(num(value), rv, valtol, 1e-12) or value.strip() in ("True", "False"))


def warn_mismatch(ws, c, valtol=1e-6, ignore=()):
    rng, oth = parse_warnings(ws)
    rng = [w for w in rng if (w[0], w[4]) not in ignore]
    for rec in c.must:
        if (rec[0], rec[1]) in ignore:
            continue
        if not any(match_rec(w, rec, valtol) for w in rng):
            return "missing validity warning for %s = %s (range %s - %s, %s)" % (rec[0], rec[2], rec[3], rec[4], rec[1])
    for w in rng:
        if not any(match_rec(w, rec, valtol) for rec in c.must + c.may):
            return "unexpected validity warning: %s = %s (range %s - %s, %s)" % (w[0], w[1], w[2], w[3], w[4])
    for t in c.other_must:
        if not any(t in m for m in oth):
            return "missing warning containing %r" % t
    return None


def perturbations(args):
    """copies of the input with every float moved by a few ulp, for the conditioning allowance"""
    for sgn in (1, -1):
        for k, v in args.items():
            if isinstance(v, float) and v == v and v != 0 and not math.isinf(v):
                b = dict(args)
                b[k] = v * (1 + sgn * 4e-13)
                yield b


def unstable_ranges(path, args):
    """(name, formula) of range-checked quantities that rounding-size input changes move noticeably"""
    def table(a):
        k, _, c = ref_run(path, a)
        if k != "ok":
            return None
        d = {}
        for key, v, b in c.crit:
            if key is not None:
                d.setdefault(key[:2], []).append((v, v < b))
        return d
    base = table(args)
    out = set()
    if base is None:
        return out
    for b in perturbations(args):
        t = table(b)
        if t is None:
            return set(base)
        for k in set(base) | set(t):
            x, y = base.get(k), t.get(k)
            if x is None or y is None or len(x) != len(y) or any(not close(p[0], q[0], 1e-7) or p[1] != q[1] for p, q in zip(x, y)):
                out.add(k)
    return out


def singular(path, args):
    """rounding-size input changes alter the reference result or a range-checked quantity beyond recognition"""
    if unstable_ranges(path, args):
        return True
    k, v, _ = ref_run(path, args)
    f = flat(v)
    for b in perturbations(args):
        k2, v2, _ = ref_run(path, b)
        if k2 != k or not same(flat(v2), f, 1e-3):
            return True
    return False


def values_agree(path, args, actual, refval, c, slack=0.0):
    """the numbers agree (scalar case), allowing for rounding near branches, ill-conditioning and iteration tolerance"""
    atol = c.facts.get("abs_tol", 0.0)
    fa, fr = flat(actual), flat(refval)
    if same(fa, fr, RTOL, atol):
        return True
    if has_complex(actual) and has_nonfinite(refval):
        return True         # undefined; flags returned along with it mean nothing
    # alternatives: near-ties decided the other way
    cands = [fr]
    if c.near:
        n = min(c.near, 4)
        for bits in itertools.product((False, True), repeat=n):
            k, v, c2 = ref_run(path, args, dict(enumerate(bits)))
            if k == "ok":
                f2 = flat(v)
                if same(fa, f2, RTOL, atol):
                    return True
                cands.append(f2)
    if c.facts.get("iterative"):
        for sc in (1e-9, 1e-6, 1e-3, 0.1, 1.0):       # rounding noise may keep the tightest ones from converging
            kt, tight, _ = ref_run(path, args, scale=sc)
            if kt == "ok":
                break
        kl, loose, _ = ref_run(path, args, scale=10.0)
        if kt == kl == "ok":
            ft, fl = flat(tight), flat(loose)
            if len(fa) == len(ft) == len(fl) == len(fr):
                if all(_iter_ok(x, t, l_, m, atol + slack * (1 + abs(t if isinstance(t, float) else 0))) for x, t, l_, m in zip(fa, ft, fl, fr)):
                    return True
    # conditioning
    if len(fa) == len(fr) and all(type(x) is type(y) for x, y in zip(fa, fr)):
        dev = [0.0] * len(fr)
        for b in perturbations(args):
            k, v, _ = ref_run(path, b)
            if k != "ok":
                return True         # the answer/no answer boundary: no statement
            f2 = flat(v)
            if len(f2) != len(fr):
                return True
            for i, (x, y) in enumerate(zip(f2, fr)):
                if isinstance(x, float) and isinstance(y, float):
                    d = abs(x - y)
                    if d != d:
                        d = 0.0 if (x != x and y != y) else math.inf
                    dev[i] = max(dev[i], d)
        if all((close(x, y, RTOL, atol) or (isinstance(x, float) and x == x and y == y and abs(x - y) <= 10 * d) or
                d == math.inf or (isinstance(y, float) and d >= 1e-3 * abs(y) > 0)) for x, y, d in zip(fa, fr, dev)):
            return True
    return False


def _iter_ok(x, t, l_, m, atol):
    if not isinstance(x, float) or not isinstance(t, float):
        return x == t
    if x != x or t != t:
        return (x != x) == (t != t)
    allow = 3 * max(abs(m - t), abs(l_ - t)) + RTOL * max(abs(x), abs(t)) + atol
    return abs(x - t) <= allow


def outcome_text(kind, val):
    return ("raises %s: %s" % (type(val).__name__, val)) if kind == "err" else "returns " + fmt(val)


class Verdict:
    __slots__ = ("status", "detail", "key")

    def __init__(self, status, detail="", key=None):
        self.status, self.detail, self.key = status, detail, key


def check_scalar(path, args, positional=0, warnings_too=True, values_too=True):
    kind, val, c = ref_run(path, args)
    if kind == "undefined":
        return Verdict("discard")
    akind, aval, ws = target.call(path, args, positional)
    if kind == "invalid":
        if akind == "err" and isinstance(aval, ValueError):
            return Verdict("ok", key="invalid")
        return Verdict("fail", "expected ValueError for this input combination, but %s" % outcome_text(akind, aval))
    if akind == "err":
        # a near-tie may decide whether the input is rejected
        if isinstance(aval, ValueError) and c.near:
            for i in range(min(c.near, 4)):
                for b in (True, False):
                    if ref_run(path, args, {i: b})[0] == "invalid":
                        return Verdict("ok", key="invalid")
        return Verdict("fail", "expected %s, but %s" % (fmt(val), outcome_text(akind, aval)))
    if values_too and val is not None and not values_agree(path, args, aval, val, c):
        return Verdict("fail", "expected %s, got %s" % (fmt(val), fmt(aval)))
    if warnings_too:
        m = warn_mismatch(ws, c)
        if m and c.near:
            for bits in itertools.product((False, True), repeat=min(c.near, 4)):
                k, v, c2 = ref_run(path, args, dict(enumerate(bits)))
                if k == "ok" and not warn_mismatch(ws, c2):
                    m = None
                    break
        if m and c.facts.get("iterative"):
            m = warn_mismatch(ws, c, 1e-2)
            if m:
                for sc in (1e-9, 10.0):
                    k, v, c2 = ref_run(path, args, scale=sc)
                    if k == "ok" and not warn_mismatch(ws, c2, 1e-2):
                        m = None
        if m:
            return Verdict("fail", m)
    out = flat(aval)
    nonfinite = any(isinstance(x, float) and (x != x or math.isinf(x)) for x in out)
    return Verdict("trivial" if nonfinite else "ok", key="warn" if c.must else "plain")


def allowance(path, args):
    """absolute allowance per result for rounding (inputs moved by a few ulp) and iteration tolerance, measured on the reference
    formula; None where rounding-size changes alter the outcome itself"""
    k, v, c = ref_run(path, args)
    if k != "ok" or c.near:
        return None
    f = flat(v)
    dev = [0.0] * len(f)
    alts = []
    for b in perturbations(args):
        k2, v2, _ = ref_run(path, b)
        if k2 != "ok":
            return None
        alts.append((flat(v2), 20.0))
    if c.facts.get("iterative"):
        for sc in (1e-3, 10.0):
            k2, v2, _ = ref_run(path, args, scale=sc)
            if k2 == "ok":
                alts.append((flat(v2), 4.0))
    for f2, w in alts:
        if len(f2) != len(f):
            return None
        for i, (x, y) in enumerate(zip(f2, f)):
            if isinstance(x, float) and isinstance(y, float):
                d = abs(x - y)
                if d != d:
                    if x != x and y != y or x == y:
                        continue
                    return None
                dev[i] = max(dev[i], w * d)
            elif x != y:
                return None
    at = c.facts.get("abs_tol", 0.0)
    return [d + 4 * at for d in dev]
