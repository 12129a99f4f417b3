"""C01-C11: the value returned equals the published formula (reference model), for scalars and for arrays element by element."""
import math

import numpy as np

from . import aim, arrays, compare, gen, target
from .prop import Prop, V

SLOW = {"structural.stability_toe_berm.takahashi1990_caisson.calculate_significant_depth_above_toe_hacc": 0.003,
        "structural.stability_toe_berm.takahashi1990_caisson.calculate_significant_wave_height_Hs": 0.05,
        "structural.stability_toe_berm.takahashi1990_caisson.calculate_median_rock_diameter_Dn50": 0.3}


def element_of(x, i, n):
    """the scalar result for element i in an array result of any packaging"""
    if isinstance(x, dict):
        return {k: element_of(v, i, n) for k, v in x.items()}
    if isinstance(x, tuple):
        return tuple(element_of(v, i, n) for v in x)
    return arrays.pick(x, i, n)


def check_values(path, args, akind, aval, ref=None, slack=0.0):
    """value comparison for one scalar outcome; None if fine, 'discard', or a message"""
    kind, val, c = ref or compare.ref_run(path, args)
    if kind != "ok":
        return "discard"
    if akind == "err":
        if isinstance(aval, ValueError) and c.near:
            for i in range(min(c.near, 4)):
                for b in (True, False):
                    if compare.ref_run(path, args, {i: b})[0] == "invalid":
                        return "discard"
        if compare.undefined_error(aval, val) or (isinstance(aval, ArithmeticError) and compare.singular(path, args)):
            return "discard"
        return "expected %s, but %s" % (compare.fmt(val), compare.outcome_text(akind, aval))
    if val is not None and not compare.values_agree(path, args, aval, val, c, slack):
        return "expected %s, got %s" % (compare.fmt(val), compare.fmt(aval))
    return None


def nonfinite(x):
    return any(isinstance(y, float) and (y != y or math.isinf(y)) for y in compare.flat(x))


class ValueProp(Prop):
    rule = ("the reference model defines the value, and the code returned a finite number for it (array cases: at least one "
            "element); inputs the reference rejects or leaves undefined are discarded, non-finite results count as trivial")

    def __init__(self, pid, prefixes, quick=200000, thorough=3000000, exclude=()):
        self.id = pid
        self.quick, self.thorough = quick, thorough
        self.paths = [p for p in compare.REF if p in target.SIGS and p.startswith(tuple(prefixes))
                      and not p.rsplit(".", 1)[1].startswith("check_validity") and p not in exclude]

    def units(self):
        out = {}
        for p in self.paths:
            w = SLOW.get(p, 1.0)
            out[p] = w * (1.0 + 0.12 * len(target.SIGS[p]))
            if p in arrays.table() and p not in SLOW:
                out[p + "[]"] = 0.25 * w * (1.0 + 0.12 * len(target.SIGS[p]))
        return out

    def modules_of(self, unit):
        return [unit.rstrip("[]").rsplit(".", 1)[0]]

    def chunk(self, unit):
        return 10 if unit in SLOW else 2000

    def gen(self, r, unit):
        if unit.endswith("[]"):
            path = unit[:-2]
            c = arrays.make(r, path, arrays.table()[path])
            if c is None:
                return None
            c["path"] = path
            if r.random() < 0.15:
                c["twod"] = r.choice([1, 2])
            return c
        a = gen.generate(r, unit)
        if unit.endswith("_hacc") and unit in SLOW:
            f = gen.lu(r, 0.05, 0.5) / a["Hs"] if "Hs" in a else 1.0
            a = {k: (v * f if k in gen.LENGTHS and isinstance(v, (int, float)) else v * math.sqrt(f) if k in gen.PERIODS else v)
                 for k, v in a.items()}
        if unit not in SLOW and r.random() < 0.12:
            a = aim.aim(r, unit, a, lambda k: isinstance(k, int)) or a
        c = {"path": unit, "args": a}
        if r.random() < 0.25:
            c["positional"] = len(target.SIGS[unit])
        return c

    def check(self, case):
        path = case["path"]
        if case.get("arr"):
            return self.check_array(path, case)
        ref = compare.ref_run(path, case["args"])
        if ref[0] != "ok":
            return V("discard", key="not defined")
        akind, aval, _ = target.call(path, case["args"], case.get("positional", 0))
        m = check_values(path, case["args"], akind, aval, ref)
        if m == "discard":
            return V("discard")
        if m:
            return V("fail", m)
        return V("trivial" if nonfinite(aval) else "ok", key="scalar")

    def check_array(self, path, case):
        n = arrays.size(case)
        refs = [compare.ref_run(path, arrays.element(case, i)) for i in range(n)]
        if any(k != "ok" for k, _, _ in refs):
            return V("discard")
        akind, aval, _ = arrays.call_array(path, case, case.get("twod", False))
        good = 0
        for i in range(n):
            a = arrays.element(case, i)
            x = aval if akind == "err" else element_of(aval, i, n)
            m = check_values(path, a, akind, x, refs[i], 2e-3)     # slack: iterations stop jointly for an array
            if m == "discard":
                return V("discard")
            if m:
                return V("fail", "array element %d: %s" % (i, m))
            good += not nonfinite(x)
        return V("ok" if good else "trivial", key="array")
