"""C14: validity-range warnings are issued exactly when a variable leaves the documented range, and never change the result."""
import itertools
import math

import numpy as np

from vp import aim, arrays, compare, gen, target
from vp.prop import Prop, V
from vp.valueprop import SLOW, check_values, element_of, nonfinite


#: quantities with a lower limit of zero that can sensibly be negative
BELOW_ZERO = {"Fb", "Rc2_front", "Rc2_rear", "theta", "tup", "q"}


def has_ranges(c):
    return any(k is not None for k, _, _ in c.crit)


def runs(path, args, c):
    """the reference contexts that are acceptable: the plain one, near-ties decided otherwise, iteration tolerance"""
    yield c, 1e-6
    for bits in itertools.product((False, True), repeat=min(c.near, 4)):
        k, _, c2 = compare.ref_run(path, args, dict(enumerate(bits)))
        if k == "ok":
            yield c2, 1e-6
    if c.facts.get("iterative"):
        for sc in (1.0, 1e-9, 1e-3, 10.0):
            k, _, c2 = compare.ref_run(path, args, scale=sc)
            if k == "ok":
                yield c2, 1e-2


UTIL = "core_utility.check_variable_validity_range"


class Validity(Prop):
    id = "C14"
    rule = ("the reference model compares at least one quantity with a documented validity range for this call (class 'warn': at "
            "least one is outside, 'edge': one lies within 1e-5 of a bound, 'plain': all inside)")
    quick, thorough = 220000, 3000000

    def setup(self):
        self.paths = []
        import random
        for p in compare.REF:
            if p not in target.SIGS:
                continue
            for i in range(25):
                k, _, c = compare.ref_run(p, gen.generate(random.Random("c14:%d" % i), p))
                if k == "ok" and has_ranges(c):
                    self.paths.append(p)
                    break

    def units(self):
        out = {}
        for p in self.paths:
            out[p] = SLOW.get(p, 1.0)
            if p in arrays.table() and p not in SLOW:
                out[p + "[]"] = 0.2
        out[UTIL + "[]"] = 0.3
        return out

    def modules_of(self, unit):
        return [unit.rstrip("[]").rsplit(".", 1)[0]]

    def chunk(self, unit):
        return 10 if unit in SLOW else 2000

    def gen(self, r, unit):
        path = unit.rstrip("[]")
        if unit == UTIL + "[]":
            lo = r.choice([0.0, -1.0, 0.5, gen.u(r, -5, 5), -math.inf])
            hi = r.choice([math.inf, 1.0, 90.0, lo if lo > -math.inf else 2.0, 0.0 if lo < 0 else lo + gen.u(r, 0, 5)])
            pool = [lo, hi, gen.u(r, -10, 10), gen.u(r, -10, 10), gen.u(r, -100, 100), 0.0]
            for x in (lo, hi):
                if abs(x) < math.inf:
                    pool += [math.nextafter(x, -math.inf), math.nextafter(x, math.inf), x + 1e-9, x - 1e-9]
            n = r.choice([1, 1, 2, 3, 5, 9, 30]) if r.random() < 0.97 else r.choice([130, 500, 1500])
            vals = [r.choice(pool) for _ in range(n)]
            return {"path": path, "lo": lo, "hi": hi, "values": vals, "as": r.choice(["array", "array", "list", "column", "square", "scalar"])}
        if unit.endswith("[]"):
            c = arrays.make(r, path, arrays.table()[path], n=r.choice([9, 15, 40, 120]) if r.random() < 0.05 else None)
            if c:
                c["path"] = path
                if arrays.size(c) > 1 and r.random() < 0.01:
                    c["long"] = [r.choice([130, 300, 700, 1100, 2100]), r.random()]
            return c
        a = gen.generate(r, path)
        if path not in SLOW and r.random() < 0.4:
            a = aim.aim(r, path, a, lambda k: not isinstance(k, int)) or a
        elif path not in SLOW and r.random() < 0.06:
            # a lower limit of zero is only passed by a negative value
            ks = [k for k in sorted(a) if isinstance(a[k], float) and a[k] > 0 and k in BELOW_ZERO]
            if ks:
                k = r.choice(ks)
                a = dict(a)
                a[k] = -a[k]
        return {"path": path, "args": a}

    def shrinks(self, case):
        if "lo" not in case:
            yield from super().shrinks(case)
            return
        v = case["values"]
        for i in range(0, len(v), max(1, len(v) // 8)):
            w = v[:i] + v[i + max(1, len(v) // 8):]
            if w:
                yield dict(case, values=w)

    def utility(self, case):
        """the check itself: one verdict per element, in order, and a warning for every value outside"""
        x = np.array(case["values"])
        how = case["as"]
        if how == "square":
            x = x[:len(x) // 2 * 2].reshape(-1, 2)
        elif how == "column":
            x = x.reshape(-1, 1)
        elif how == "scalar":
            x = x[0]
        flat = [float(v) for v in np.ravel(x)]
        want = [not (v < case["lo"] or v > case["hi"]) for v in flat]
        kind, val, ws = target.call(UTIL, dict(variable_name="some variable", formula_name="Some (2000)", min_value=case["lo"],
                                               max_value=case["hi"], values=x.tolist() if how == "list" else x))
        if kind != "ok":
            return V("fail", "the validity check raises %s" % compare.outcome_text(kind, val))
        if [bool(v) for v in np.ravel(val)] != want:
            return V("fail", "verdicts %s for the values %s, range %s - %s" % (val, flat, case["lo"], case["hi"]))
        rng, _ = compare.parse_warnings(ws)
        told = sorted({compare.num(w[1]) for w in rng})
        out = sorted({v for v, ok in zip(flat, want) if not ok})
        if told != out:
            return V("fail", "warnings about %s, but outside %s - %s are %s" % (told, case["lo"], case["hi"], out))
        for w in rng:
            if (w[0], compare.num(w[2]), compare.num(w[3]), w[4]) != ("some variable", case["lo"], case["hi"], "Some (2000)"):
                return V("fail", "the warning says %s" % (w,))
        return V("ok", key="utility")

    def check(self, case):
        path = case["path"]
        if path == UTIL and "lo" in case:
            return self.utility(case)
        n = arrays.size(case) if case.get("arr") else 0
        els = [arrays.element(case, i) for i in range(n)] if n else [case["args"]]
        refs = [compare.ref_run(path, a) for a in els]
        if any(k != "ok" for k, _, _ in refs) or not any(has_ranges(c) for _, _, c in refs):
            return V("discard")
        if n and any(nonfinite(v) for _, v, _ in refs):
            return V("discard")         # an undefined element may silence the check for the whole array
        at = list(range(n))
        if n and case.get("long"):      # many elements: the first one repeated, the others somewhere in between
            total, where = case["long"]
            at = [0] + [1 + int((where + j / n) % 1.0 * (total - 1)) for j in range(n - 1)]
            n = total
            kind, val, ws = arrays.call_array(path, {"args": case["args"], "arr": {
                p: [v[at.index(i) if i in at else 0] for i in range(total)] for p, v in case["arr"].items()}})
        elif n:
            kind, val, ws = arrays.call_array(path, case)
        else:
            kind, val, ws = target.call(path, case["args"])
        must = [rec for _, _, c in refs for rec in c.must]
        if kind == "err":
            if must and not compare.undefined_error(val, *[v for _, v, _ in refs]) and not (isinstance(val, ArithmeticError) and any(compare.singular(path, a) for a in els)):
                return V("fail", "out-of-range input must only warn, but %s" % compare.outcome_text(kind, val))
            return V("discard")
        cs = [c for _, _, c in refs]
        if n == 0:
            m = None
            for c2, tol in runs(path, case["args"], cs[0]):
                m2 = compare.warn_mismatch(ws, c2, tol)
                if not m2:
                    m = None
                    break
                m = m or m2
            if m:
                un = compare.unstable_ranges(path, case["args"])
                if not un or all(compare.warn_mismatch(ws, c2, tol, un) for c2, tol in runs(path, case["args"], cs[0])):
                    return V("fail", m)
        else:
            m = self.array_mismatch(ws, path, els, cs)
            if m:
                un = set()
                for a in els:
                    un |= compare.unstable_ranges(path, a)
                if un:
                    m = self.array_mismatch(ws, path, els, cs, un)
            if m:
                return V("fail", m)
        if must:
            for i, a in enumerate(els):
                x = element_of(val, at[i], n) if n else val
                m = check_values(path, a, kind, x, refs[i], 2e-3 if n else 0.0)
                if m and m != "discard":
                    return V("fail", "result changed by an out-of-range input: " + m)
        edge = any(k is not None and abs(a - b) <= 1e-5 * max(abs(a), abs(b)) for c in cs for k, a, b in c.crit
                   if isinstance(a, float) and a == a)
        return V("ok", key="warn" if must else "edge" if edge else "plain")

    def array_mismatch(self, ws, path, els, cs, ignore=()):
        """every element's warnings are there and every warning belongs to an element"""
        pool_must, pool_any = [], []
        base = tol = 1e-2 if any(c.facts.get("iterative") for c in cs) else 1e-6
        for a, c in zip(els, cs):
            alts = [c] if not (c.near or c.facts.get("iterative")) else [x for x, _ in runs(path, a, c)]
            common = [rec for rec in alts[0].must if all(any(rec[0] == o[0] and rec[1] == o[1] for o in x.must) for x in alts)]
            # how far the unfinished iteration can move the reported value
            span = {}
            if c.facts.get("iterative"):
                for rec in common:
                    vs = [o[2] for x in alts for o in x.must if (o[0], o[1]) == (rec[0], rec[1])]
                    span[rec[:2]] = 3 * (max(vs) - min(vs)) / max(abs(rec[2]), 1e-300)
            pool_must += [(rec, max(base, min(span.get(rec[:2], 0.0), 3.0))) for rec in common]
            for x in alts:
                pool_any += x.must + x.may
        rng, _ = compare.parse_warnings(ws)
        rng = [w for w in rng if (w[0], w[4]) not in ignore]
        for rec, t in pool_must:
            if (rec[0], rec[1]) not in ignore and not any(compare.match_rec(w, rec, t) for w in rng):
                return "missing validity warning for %s = %s (range %s - %s, %s)" % (rec[0], rec[2], rec[3], rec[4], rec[1])
        for w in rng:
            # (formula variants may be evaluated for the whole array: a warning about a value truly outside is fine)
            outside = compare.num(w[1]) < compare.num(w[2]) or compare.num(w[1]) > compare.num(w[3])
            if not outside and not any(compare.match_rec(w, rec, tol) for rec in pool_any):
                return "unexpected validity warning: %s = %s (range %s - %s, %s)" % w
        return None


prop = Validity()
