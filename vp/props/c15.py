"""C15: an array call gives, element by element, what the scalar calls give."""
import math
import random

import numpy as np

from vp import arrays, compare, gen, target
from vp.prop import Prop, V
from vp.valueprop import SLOW, element_of, nonfinite

HACC = "structural.stability_toe_berm.takahashi1990_caisson.calculate_significant_depth_above_toe_hacc"
MODES = ["1d"] * 8 + ["row", "col", "cube", "outer", "int", "readonly", "strided", "reversed", "0d"]


class Elementwise(Prop):
    id = "C15"
    rule = ("at least one argument is an array with >= 2 elements whose scalar results are not all equal, and every scalar call "
            "returned a result (or the arguments are zero-dimensional arrays); a length-1 array or a constant result counts as trivial")
    quick, thorough = 110000, 2500000

    def units(self):
        return {p: (SLOW.get(p, 1.0) * (0.5 + 0.1 * len(ps))) for p, ps in arrays.table().items()
                if not p.rsplit(".", 1)[1].startswith("check_") or ".check_usage_" in p}

    def chunk(self, unit):
        return 10 if unit in SLOW else 2000

    def gen(self, r, path):
        n = r.choice([2, 2, 3, 3, 4, 6, 1]) if path not in SLOW else 2
        if path not in SLOW and path != HACC and r.random() < 0.006:
            n = r.choice([15, 40, 120])
        c = arrays.make(r, path, arrays.table()[path], n)
        if c is None:
            return None
        c["path"] = path
        c["kind"] = "array"
        c["mode"] = r.choice(MODES)
        if n > 10 and c["mode"] == "outer":
            c["mode"] = "1d"
        if 1 < n < 10 and path not in SLOW and path != HACC and r.random() < 0.004:
            c["mode"], c["long"] = "1d", [r.choice([130, 300, 700, 1100, 2100]), r.randrange(10 ** 6)]
        if c["mode"] == "0d":
            c["arr"] = {k: v[:1] for k, v in c["arr"].items()}
        if path == HACC:
            self.rescale(r, c)
        if c["mode"] == "int":
            for p, v in c["arr"].items():
                if any(x != x for x in v):
                    continue
                w = [float(round(x)) for x in v]
                if all(gen.ok(p, x) for x in w):
                    c["arr"][p] = w
                    c.setdefault("ints", []).append(p)
        req = [p for p in c["arr"] if p not in c.get("ints", ()) and p in {m for m, q, _ in target.SIGS[path] if q}]
        if req and r.random() < 0.12 and path not in SLOW and path != HACC and "long" not in c:
            c["gap"] = [r.choice(sorted(req)), r.randrange(arrays.size(c))]
        return c

    def rescale(self, r, c):
        hs = [c["args"].get("Hs")] if "Hs" in c["args"] else c["arr"]["Hs"]
        f = gen.lu(r, 0.05, 0.4) / max(hs)
        for d in (c["args"], c["arr"]):
            for k, v in list(d.items()):
                g = f if k in gen.LENGTHS else math.sqrt(f) if k in gen.PERIODS else 1.0
                d[k] = [x * g for x in v] if isinstance(v, list) else (v * g if isinstance(v, float) else v)

    def check(self, case):
        path, arr, mode = case["path"], case["arr"], case.get("mode", "1d")
        n = arrays.size(case)
        names = list(arr)
        order = None
        # (element index per array argument) for every result element
        if case.get("long"):        # many elements: the given ones repeated in a random order
            order = random.Random(case["long"][1]).choices(range(n), k=case["long"][0])
            idx = [(i, i) for i in order]
            shape = (len(order),)
        elif mode == "outer" and len(names) >= 2:
            n2 = n
            idx = [(i, j) for i in range(n) for j in range(n2)]
            shape = (n, n2)
        else:
            idx = [(i, i) for i in range(n)]
            shape = {"row": (1, n), "col": (n, 1), "cube": (1, n, 1), "0d": ()}.get(mode, (n,))

        def el(i, j):
            a = dict(case["args"])
            for k, p in enumerate(names):
                a[p] = arr[p][j if (k > 0) else i]
            return a
        els = [el(i, j) for i, j in idx] if order is None else [el(i, i) for i in range(n)]
        refs = []
        for a in els:
            rk, rv, c = compare.ref_run(path, a)
            if rk != "ok":
                return V("discard")
            refs.append((rv, c))
        scal = []
        for a in els:
            k, v, _ = target.call(path, a)
            if k != "ok":
                return V("discard")
            scal.append(v)
        if order is not None:
            els, refs, scal = [els[i] for i in order], [refs[i] for i in order], [scal[i] for i in order]
        kw = dict(case["args"])
        keep = []
        gap = case.get("gap")
        if gap and (gap[0] not in arr or gap[1] >= n):
            return V("discard")
        if gap:         # an undefined input in one element (a gap in a record) must not disturb the others
            for q in range(len(els)):
                k0 = idx[q][1 if names.index(gap[0]) > 0 else 0]
                if k0 == gap[1] and target.call(path, dict(els[q], **{gap[0]: math.nan}))[0] != "ok":
                    return V("discard")
        for k, p in enumerate(names):
            x = np.array(arr[p], dtype=int if p in case.get("ints", ()) else float)
            if gap and p == gap[0]:
                x[gap[1]] = math.nan
            if order is not None:
                x = x[order]
            if mode == "outer" and len(names) >= 2:
                x = x.reshape(n, 1) if k == 0 else x.reshape(1, n)
            elif mode == "strided":
                y = np.full(2 * n, np.nan)
                y[::2] = x
                x = y[::2]
            elif mode == "reversed":
                x = x[::-1].copy()[::-1]
            else:
                x = x.reshape(shape)
            if mode == "readonly":
                x.setflags(write=False)
            keep.append(x)
            kw[p] = x
        kind, val, _ = target.call(path, kw)
        if kind == "err":
            if compare.undefined_error(val, *[rv for rv, _ in refs]) or isinstance(val, ArithmeticError) and any(compare.singular(path, a) for a in els):
                return V("discard")
            return V("fail", "array call %s, but every scalar call returns a value" % compare.outcome_text(kind, val))
        m = len(els)
        for leaf in arrays.leaves(val):
            if isinstance(leaf, np.ndarray) and leaf.size > 1 and mode != "outer" and leaf.shape != shape:
                return V("fail", "result of shape %s for input of shape %s" % (leaf.shape, shape))
        differs = False
        for q in range(m):
            x = self.elem(val, idx[q], q, n if order is None else m, m, mode)
            s = scal[q]
            if gap and idx[q][1 if names.index(gap[0]) > 0 else 0] == gap[1]:
                continue
            fx, fs = compare.flat(x), compare.flat(s)
            if q and not compare.same(fs, compare.flat(scal[0]), 1e-6):
                differs = True
            if compare.same(fx, fs, 1e-9, 1e-12):
                continue
            rv, c = refs[q]
            if (compare.has_complex(x) or compare.has_complex(s)) and compare.has_nonfinite(rv):
                continue
            if c.facts.get("iterative") and compare.same(fx, fs, 5e-3, 1e-3):
                continue
            if rv is not None and compare.values_agree(path, els[q], x, rv, c, 2e-3) and \
                    compare.values_agree(path, els[q], s, rv, c, 2e-3):
                continue        # both within the rounding / iteration allowance
            return V("fail", "element %s: array call gives %s, scalar call gives %s" % (idx[q], compare.fmt(x), compare.fmt(s)))
        if mode == "0d":
            return V("ok", key=mode)
        if n < 2 or not differs:
            return V("trivial", key="constant or single")
        return V("ok", key="gap" if gap else "long" if order else mode)

    def elem(self, val, ij, q, n, m, mode):
        if isinstance(val, dict):
            return {k: self.elem(v, ij, q, n, m, mode) for k, v in val.items()}
        if isinstance(val, tuple):
            return tuple(self.elem(v, ij, q, n, m, mode) for v in val)
        if isinstance(val, np.ndarray) and m != n:
            if val.size == 1:
                return val.ravel()[0]
            try:
                return np.broadcast_to(val, (n, n))[ij]
            except ValueError:
                return "shape %s" % (val.shape,)
        return arrays.pick(val, q, m)


prop = Elementwise()
