"""C22: no unpublished jumps: a result changes abruptly only where the published formula does."""
import math

from vp import compare, gen, target
from vp.compare import REF
from vp.prop import Prop, V
from vp.valueprop import SLOW
from vp.props.c19 import prep, second

SMALL = 1e-5        # relative jumps below this are rounding or iteration noise
GRID = 8


def points(x, y):
    if x > 0 and y > 0 and not 1 / 3 < x / y < 3:
        q = math.log(y / x)
        return [x] + [x * math.exp(q * i / GRID) for i in range(1, GRID)] + [y]
    return [x] + [x + (y - x) * i / GRID for i in range(1, GRID)] + [y]


class Jump(Prop):
    id = "C22"
    rule = ("along a segment in one parameter the code returned finite results that are not all equal, and a bisection that always keeps the half "
            "with the larger change of the result was run to the end")
    quick, thorough = 60000, 1200000

    def units(self):
        out = {}
        for p in REF:
            if p.rsplit(".", 1)[1].startswith("check_") or p not in target.SIGS or p in SLOW or p.endswith("_hacc"):
                continue
            ps = self.params(p)
            if ps:
                out[p] = 0.5 + 0.2 * len(ps)
        return out

    @staticmethod
    def params(path):
        return [n for n, _, d in target.SIGS[path] if n not in gen.DISCRETE and n not in gen.BOOLS and not isinstance(d, (str, bool))
                and n not in ("max_iter", "max_iterations", "tolerance", "output_dir", "file_name")]

    def chunk(self, unit):
        return 400

    def gen(self, r, path):
        a = prep(gen.generate(r, path))
        ps = [p for p in self.params(path) if p in a]
        if not ps:
            return None
        p = r.choice(ps)
        y = second(r, path, a, p)
        if y is None:
            return None
        return {"path": path, "args": a, "p": p, "y": y}

    def check(self, case):
        path, a, p = case["path"], dict(case["args"]), case["p"]
        if p not in a or not isinstance(a[p], (int, float)) or a[p] == case["y"] or not math.isfinite(a[p]):
            return V("discard")

        memo = {}

        def f(x):
            if x not in memo:
                k, v, _ = target.call(path, dict(a, **{p: x}))
                memo[x] = compare.flat(v) if k == "ok" and not compare.has_complex(v) else None
            return memo[x]

        def ref(x):
            k, v, c = compare.ref_run(path, dict(a, **{p: x}))
            return (compare.flat(v), c) if k == "ok" else (None, None)

        for e in (a[p], case["y"]):
            if ref(e)[0] is None:
                return V("discard")
        xs = points(float(a[p]), float(case["y"]))
        fs = [f(x) for x in xs]
        width = {len(v) for v in fs if v is not None}
        if len(width) != 1:
            return V("discard")
        searched = 0
        for j in range(min(width.pop(), 12)):
            vs = [v[j] if v is not None and isinstance(v[j], float) and math.isfinite(v[j]) else None for v in fs]
            good = [v for v in vs if v is not None]
            if len(good) < 2 or max(good) == min(good):
                continue
            scale = max(abs(v) for v in good)
            d = [abs(vs[i + 1] - vs[i]) if vs[i] is not None and vs[i + 1] is not None else -1.0 for i in range(GRID)]
            i1 = max(range(GRID), key=lambda i: d[i])
            # the interval whose change stands out most from its neighbours'
            def odd(i):
                if d[i] <= 0:
                    return -1.0
                nb = [d[k] for k in (i - 1, i + 1) if 0 <= k < GRID and d[k] >= 0]
                return abs(d[i] - sum(nb) / len(nb)) if nb else d[i]
            i2 = max(range(GRID), key=odd)
            for i in {i1, i2}:
                r = self.search(f, j, xs[i], xs[i + 1], scale)
                if r is None:
                    continue
                searched += 1
                lo, hi, ulo, uhi = r
                if abs(uhi - ulo) <= SMALL * scale:
                    continue
                bad = self.judge(path, a, p, j, ref, lo, hi, ulo, uhi, scale)
                if bad:
                    return V("fail", bad)
        return V("ok" if searched else "trivial", key="segment")

    @staticmethod
    def search(f, j, lo, hi, scale):
        def val(x):
            v = f(x)
            if v is None or j >= len(v) or not isinstance(v[j], float) or not math.isfinite(v[j]):
                return None
            return v[j]
        ulo, uhi = val(lo), val(hi)
        if ulo is None or uhi is None:
            return None
        for n in range(46):
            if n >= 16 and abs(uhi - ulo) <= SMALL * scale:
                break
            m = 0.5 * (lo + hi)
            if m in (lo, hi) or abs(hi - lo) <= 1e-12 * abs(m):
                break
            um = val(m)
            if um is None:
                return None
            if abs(um - ulo) >= abs(uhi - um):
                hi, uhi = m, um
            else:
                lo, ulo = m, um
        return lo, hi, ulo, uhi

    @staticmethod
    def judge(path, a, p, j, ref, lo, hi, ulo, uhi, scale):
        m, w = 0.5 * (lo + hi), hi - lo
        s = 1 if w > 0 else -1
        vals, iterative, at = [], False, 0.0
        for x in (lo, hi, m, lo - w, hi + w, m - s * 1e-9 * abs(m), m + s * 1e-9 * abs(m), m - s * 1e-6 * abs(m), m + s * 1e-6 * abs(m)):
            v, c = ref(x)
            if v is None or j >= len(v) or not isinstance(v[j], float) or not math.isfinite(v[j]):
                return None
            if j > 0 and ".wave_overtopping." in path and isinstance(v[0], float) and not 1e-200 < abs(v[0]) < 1e200:
                return None         # which of two discharges governs when both vanish in the floating point numbers
            vals.append(v[j])
            iterative = iterative or c.facts.get("iterative")
            at = max(at, c.facts.get("abs_tol", 0.0))
        allowed = 1.001 * (max(vals) - min(vals)) + SMALL * scale + 4 * at
        if iterative:
            allowed += 5e-3 * scale
        if abs(uhi - ulo) <= allowed:
            return None
        pert = 0.0
        for x, base in ((lo, vals[0]), (hi, vals[1])):          # rounding-size changes of the other inputs
            for b in compare.perturbations(dict(a, **{p: x})):
                k, v, _ = compare.ref_run(path, b)
                v = compare.flat(v)
                if k != "ok" or j >= len(v) or not isinstance(v[j], float) or not math.isfinite(v[j]):
                    return None
                pert = max(pert, abs(v[j] - base))
        if pert < 1e-3 * scale:
            pert *= 20
        if abs(uhi - ulo) <= allowed + pert:
            return None
        return "result %d jumps from %r to %r as %s goes from %r to %r; the published formula goes from %r to %r" % (
            j, ulo, uhi, p, lo, hi, vals[0], vals[1])


prop = Jump()
