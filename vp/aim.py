"""Threshold-aimed generation: move one argument so that a quantity the reference model compares with a threshold
(a branch of the formula or a validity bound) lands on it, just below it or just above it."""
import math

from . import compare, gen

OFFS = [0.0, 0.0, 1e-13, -1e-13, 1e-9, -1e-9, 1e-6, -1e-6, 1e-4, -1e-4, 1e-2, -1e-2]


def diffs(path, args):
    k, _, c = compare.ref_run(path, args)
    if k != "ok":
        return None
    out = {}
    nbr = 0
    for key, a, b in c.crit:
        if key is None:
            key = nbr
            nbr += 1
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) and a == a and b == b and not math.isinf(b) and not math.isinf(a):
            out.setdefault(key, a - b)
    return out


def aim(r, path, args, only=None):
    """-> modified args, or None if nothing could be aimed at"""
    d0 = diffs(path, args)
    if not d0:
        return None
    keys = sorted((k for k in d0 if only is None or only(k)), key=str)
    ps = [p for p in args if isinstance(args[p], (int, float)) and not isinstance(args[p], bool) and p not in gen.DISCRETE
          and args[p] == args[p]]
    if not keys or not ps:
        return None
    for _ in range(4):
        k = r.choice(keys)
        p = r.choice(ps)
        x0 = float(args[p])
        f0 = d0[k]
        facs = [0.5, 2.0, 0.2, 5.0, 0.05, 20.0]
        r.shuffle(facs)
        lo = None
        for f in facs[:4]:
            x = x0 * f if x0 else r.choice([1.0, 10.0, 0.1]) * f
            if p in gen.NEG and r.random() < 0.3:
                x = -x
            if not gen.ok(p, x):
                continue
            b = dict(args)
            b[p] = x
            d = diffs(path, b)
            if d is None or k not in d:
                continue
            if (d[k] > 0) != (f0 > 0):
                lo, hi, flo = x0, x, f0
                break
        if lo is None:
            continue
        for _ in range(60):
            m = 0.5 * (lo + hi)
            if m == lo or m == hi:
                break
            b = dict(args)
            b[p] = m
            d = diffs(path, b)
            if d is None or k not in d:
                break
            if (d[k] > 0) == (flo > 0):
                lo = m
            else:
                hi = m
            if abs(hi - lo) < 3e-16 * abs(hi):
                break
        x = r.choice([lo, hi])
        for nd in (2, 4, 6):                # a round number at the threshold is the threshold
            y = float("%.*g" % (nd, x))
            if abs(y - x) < 1e-12 * abs(x):
                x = y
                break
        o = r.choice(OFFS)
        x = x * (1 + o) if x else o
        if gen.ok(p, x):
            b = dict(args)
            b[p] = x
            return b
    return None
