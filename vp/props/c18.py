"""C18: results are dimensionally consistent: changing the units of length, time and mass consistently only rescales the result."""
import json
import math
import os

from vp import compare, gen, target
from vp.prop import Prop, V
from vp.valueprop import SLOW

HERE = os.path.dirname(os.path.abspath(__file__))
RHO = {n for n in gen.DOM if n.startswith("rho")}
#: exponents of (model length scale at equal gravity: Froude), (density scale), (gravity scale at equal lengths)
DIM = {}
for _n in gen.LENGTHS:
    DIM[_n] = (1, 0, 0)
for _n in gen.PERIODS:
    DIM[_n] = (.5, 0, -.5)
for _n in ("M50", "M", "M50_core"):
    DIM[_n] = (3, 1, 0)
for _n in RHO:
    DIM[_n] = (0, 1, 0)
DIM.update(V=(3, 0, 0), q=(1.5, 0, .5), uXp=(.5, 0, .5), g=(0, 0, 1))
for _n in ("FH", "FU", "Wup", "FH2p", "FV2p"):
    DIM[_n] = (2, 1, 1)
for _n in ("MH", "MU"):
    DIM[_n] = (3, 1, 1)
IDX = {"L": 0, "R": 1, "G": 2}
#: powers of four, so that the scaling itself is exact in floating point
MODES = {"L": [4.0, 0.25, 16.0, 0.0625, 64.0, 1 / 64.0], "R": [2.0, 0.5, 4.0, 0.25], "G": [4.0, 0.25, 16.0]}
ITERATION = {"max_iter", "max_iterations", "tolerance"}


def complete(r, path, a, mode):
    s = gen.Scene(r)
    a.pop("return_dict", None)
    for n, _, d in target.SIGS[path]:
        if mode == "R" and n in RHO and n not in a:
            a[n] = gen.value(s, n, d)
        if mode == "G" and n == "g" and n not in a:
            a[n] = 9.81
        if n in ITERATION:
            a.pop(n, None)
    return a


def scaled(a, mode, f):
    j = IDX[mode]
    out = {}
    for n, x in a.items():
        if n in DIM and isinstance(x, (int, float)) and not isinstance(x, bool):
            out[n] = x * f ** DIM[n][j]
        else:
            out[n] = x
    return out


def table():
    with open(os.path.join(os.path.dirname(HERE), "scaling.json")) as fh:
        return json.load(fh)


class Scaling(Prop):
    id = "C18"
    rule = ("both the original and the rescaled input are defined in the formula, not on a regime limit, and gave finite non-zero results; "
            "three rescalings: Froude length scale, density scale (all densities given), gravity (where it is an input)")
    quick, thorough = 160000, 2500000
    table = {}

    def setup(self):
        self.table = table()

    def units(self):
        return {p + ":" + m: SLOW.get(p, 1.0) * (0.4 + 0.1 * len(target.SIGS[p])) for p in self.table for m in self.table[p]}

    def chunk(self, unit):
        return 10 if unit.split(":")[0] in SLOW else 2000

    def modules_of(self, unit):
        return [unit.split(":")[0].rsplit(".", 1)[0]]

    def gen(self, r, unit):
        path, mode = unit.split(":")
        a = complete(r, path, gen.generate(r, path, awkward=0.35), mode)
        f = r.choice(MODES[mode])
        if path.endswith("_hacc"):
            a = scaled(a, "L", 0.2 / a["Hs"])
            f = r.choice([4.0, 0.25]) if mode == "L" else f
        return {"path": path, "mode": mode, "f": f, "args": a}

    def check(self, case):
        path, mode, f, a = case["path"], case["mode"], case["f"], case["args"]
        b = scaled(a, mode, f)
        k1, v1, c1 = compare.ref_run(path, a)
        if k1 != "ok" or c1.near:
            return V("discard")
        k2, v2, c2 = compare.ref_run(path, b)
        if k2 != "ok" or c2.near:
            return V("discard")
        exps = self.table[path][mode]
        f1, f2 = compare.flat(v1), compare.flat(v2)
        if len(f1) != len(exps) or len(f2) != len(exps):
            return V("discard")
        x1 = target.call(path, a)
        if x1[0] != "ok":
            return V("discard")
        x2 = target.call(path, b)
        if x2[0] != "ok":
            if isinstance(x2[1], ArithmeticError):
                return V("discard")
            return V("fail", "accepts the input, but after rescaling (%s x %g): %s" % (mode, f, compare.outcome_text(*x2[:2])))
        g1, g2 = compare.flat(x1[1]), compare.flat(x2[1])
        if len(g1) != len(exps) or len(g2) != len(exps):
            return V("fail", "number of results changes with scale: %r, %r" % (x1[1], x2[1]))
        good = 0
        for i, (e, r1, r2, y1, y2) in enumerate(zip(exps, f1, f2, g1, g2)):
            if e is None or not all(isinstance(q, float) and math.isfinite(q) for q in (r1, r2)):
                continue
            s = f ** e
            err = abs(r2 - s * r1) / max(abs(r2), abs(s * r1), 1e-300) if r2 != s * r1 else 0.0
            if err > 0.02 or abs(r1) < 1e-200 or abs(r2) < 1e-200:
                continue
            tol = max(1e-7, 4 * err)
            if c1.facts.get("iterative") or c2.facts.get("iterative"):
                tol = max(tol, 4e-3)
            if not (isinstance(y1, float) and isinstance(y2, float) and math.isfinite(y1) and math.isfinite(y2)):
                if y1 == y2 or (y1 != y1 and y2 != y2):
                    continue
                return V("fail", "%s scale %g changes %r into %r" % (mode, f, y1, y2))
            if abs(y2 - s * y1) > tol * max(abs(y2), abs(s * y1)):
                # sensitive results (exponentials, differences) do not agree to full precision
                w1, w2 = compare.allowance(path, a), compare.allowance(path, b)
                if w1 is None or w2 is None:
                    return V("discard")
                if abs(y2 - s * y1) <= w2[i] + s * w1[i] + tol * max(abs(y2), abs(s * y1)):
                    continue
                return V("fail", "%s scale %g: result %r must become %r but is %r" % (mode, f, y1, s * y1, y2))
            good += 1
        return V("ok" if good else "trivial", key=mode)


prop = Scaling()
