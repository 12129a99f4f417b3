"""C19: physical trends: a heavier load never gives a milder answer, a stronger structure never a worse one."""
import json
import math
import os

from vp import compare, gen, target
from vp.prop import Prop, V
from vp.valueprop import SLOW as _SLOW

SLOW = dict(_SLOW)
SLOW["structural.stability_toe_berm.takahashi1990_caisson.calculate_nominal_diameter_Dn50"] = 1.0
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORDS = {1: "increase", -1: "decrease"}


def prep(a):
    a.pop("return_dict", None)
    for n in ("max_iter", "max_iterations", "tolerance", "smm10_init", "Cp_init", "Ns_init", "Rc_Dn50_init"):
        a.pop(n, None)
    return a


def domain(path, a):
    """angles are compared as absolute values, freeboards in the emerged range"""
    for n in ("beta", "theta"):
        if n in a and not a[n] >= 0:
            return False
    for n in ("B_berm", "db"):
        pass
    if path.startswith("hydraulic.wave_overtopping") and "Rc" in a and not a["Rc"] > 0:
        return False
    if ("sigma" in a) and abs(a["sigma"]) > 3:
        return False
    return True


def second(r, path, a, p):
    x = a[p]
    if not isinstance(x, (int, float)) or isinstance(x, bool) or x != x:
        return None
    x = float(x)
    k = r.random()
    if k < 0.35:
        y = x * (1 + gen.lu(r, 1e-4, 1.0) * r.choice([1, -1]))
    elif k < 0.5:
        lits, new = target.literals(path)
        pool = [q for q in (new if new and r.random() < 0.5 else lits) if x == 0 or 0.1 < abs(q / x) < 10]
        if not pool:
            return None
        y = r.choice(pool) * (1 + r.choice([0, 1e-6, -1e-6, 1e-3]))
    elif k < 0.6:
        b = dict(a)
        gen.tweak(r, path, b, [p])
        y = b[p]
    else:
        for _ in range(4):
            o = gen.generate(r, path)
            if isinstance(o.get(p), (int, float)):
                break
        else:
            return None
        y = float(o[p])
        s = a.get("Hm0", a.get("Hs", a.get("H")))
        t = o.get("Hm0", o.get("Hs", o.get("H")))
        if p in gen.LENGTHS and isinstance(s, (int, float)) and isinstance(t, (int, float)) and p not in ("Hm0", "Hs", "H") and t:
            y *= s / t
    if not isinstance(y, (int, float)) or y == x or (p in gen.DOM and not gen.ok(p, y)):
        return None
    return float(y)


class Monotone(Prop):
    id = "C19"
    rule = ("two inputs that differ in one physical parameter gave finite results that differ in the reference formula; cases on a regime limit "
            "or outside the trend's domain are discarded")
    quick, thorough = 350000, 6000000
    table = {}

    def setup(self):
        with open(os.path.join(HERE, "mono.json")) as fh:
            self.table = json.load(fh)

    def units(self):
        return {p: (_SLOW.get(p, 1.0)) * (0.6 + 0.4 * len(ps)) for p, ps in self.table.items()}

    def chunk(self, unit):
        return 10 if unit in _SLOW else 2000

    def gen(self, r, path):
        a = prep(gen.generate(r, path))
        if path.endswith("_hacc"):
            f = gen.lu(r, 0.05, 0.5) / a["Hs"]
            a = {k: (v * f if k in gen.LENGTHS else v * math.sqrt(f) if k in gen.PERIODS else v) for k, v in a.items()}
        ps = [p for p in sorted(self.table[path]) if p in a]
        if not ps:
            return None
        p = r.choice(ps)
        y = second(r, path, a, p)
        if y is None:
            return None
        return {"path": path, "args": a, "p": p, "y": y}

    def check(self, case):
        path, a, p = case["path"], case["args"], case["p"]
        if p not in a:
            return V("discard")
        lo, hi = sorted((float(a[p]), float(case["y"])))
        if lo == hi:
            return V("discard")
        A, B = dict(a), dict(a)
        A[p], B[p] = lo, hi
        if not domain(path, A) or not domain(path, B):
            return V("discard")
        k1, v1, c1 = compare.ref_run(path, A)
        k2, v2, c2 = compare.ref_run(path, B)
        if k1 != "ok" or k2 != "ok" or c1.near or c2.near:
            return V("discard")
        f1, f2 = compare.flat(v1), compare.flat(v2)
        x1, x2 = target.call(path, A), target.call(path, B)
        if x1[0] != "ok" or x2[0] != "ok":
            return V("discard")
        g1, g2 = compare.flat(x1[1]), compare.flat(x2[1])
        if (compare.has_complex(x1[1]) or compare.has_complex(x2[1])) and (compare.has_nonfinite(v1) or compare.has_nonfinite(v2)):
            return V("discard")
        if not len(f1) == len(f2) == len(g1) == len(g2):
            return V("discard")
        good = 0
        for j, d in self.table[path][p].items():
            j = int(j)
            if j >= len(f1):
                continue
            q = [f1[j], f2[j], g1[j], g2[j]]
            if not all(isinstance(z, float) and math.isfinite(z) for z in q):
                continue
            r1, r2, y1, y2 = q
            if (r2 - r1) * d < 0:
                continue            # the formula itself has no trend here
            if r1 != r2:
                good += 1
            if (y2 - y1) * d >= -1e-9 * max(abs(y1), abs(y2)):
                continue
            w1, w2 = compare.allowance(path, A), compare.allowance(path, B)
            if w1 is None or w2 is None:
                return V("discard")
            tol = w1[j] + w2[j] + 1e-8 * max(abs(y1), abs(y2))
            if c1.facts.get("iterative") or c2.facts.get("iterative"):
                tol += 2e-3 * max(abs(y1), abs(y2))
            if (y2 - y1) * d < -tol:
                return V("fail", "%s from %r to %r must not %s the result, but it goes from %r to %r" % (p, lo, hi, WORDS[-d], y1, y2))
        return V("ok" if good else "trivial", key="trend")


prop = Monotone()
