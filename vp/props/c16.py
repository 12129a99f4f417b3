"""C16: missing, contradictory or impossible input combinations are refused with ValueError; all others are not refused."""
import random

import numpy as np

from vp import arrays, compare, gen, target
from vp.prop import Prop, V
from vp.valueprop import SLOW

nan = float("nan")
JUNK = ["", "unknown", "permeable ", "PERMEABLE", "imperm", "gravel", "rough1", "smooth rough", "None", "fixed"]


class Refusal(Prop):
    id = "C16"
    rule = ("class 'refused': the documented input rules forbid this combination (the code must raise ValueError); class 'accepted': "
            "they allow it (the code must not raise); inputs for which the formula itself is undefined are discarded")
    quick, thorough = 200000, 4000000

    def setup(self):
        self.paths = {}
        for p in compare.REF:
            if p not in target.SIGS:
                continue
            inv = 0
            for i in range(60 if p not in SLOW else 4):
                inv += compare.ref_run(p, self.make(random.Random("c16:%d" % i), p))[0] == "invalid"
            self.paths[p] = 1.0 if inv else 0.25        # 0.25: nothing to refuse, but nothing may be refused either

    def units(self):
        return {p: SLOW.get(p, 1.0) for p in self.paths}

    def make(self, r, path):
        a = gen.generate(r, path)
        opt = [(n, d) for n, q, d in target.SIGS[path] if not q]
        s = gen.Scene(r)
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            if not opt:
                break
            n, d = r.choice(opt)
            x = r.random()
            isn = isinstance(d, float) and d != d
            if x < 0.45:
                a.pop(n, None)
            elif x < 0.6 and isn:
                a[n] = nan
            elif n not in gen.DISCRETE:
                a[n] = gen.value(s, n, d)
        if r.random() < 0.3:        # leave out a whole group of alternatives
            g = r.choice([("beta", "gamma_beta"), ("Dn50", "M50"), ("cot_alpha", "cot_alpha_down", "cot_alpha_up"), ("Hm0", "Hs"),
                          ("gamma_f", "Dn50"), ("cot_alpha_up",), ("cot_alpha_down",), ("Hm0_swell",), ("m",), ("rho_core",)])
            if all(n in {o for o, _ in opt} for n in g):
                for n in g:
                    a.pop(n, None)
        if r.random() < 0.15:       # give a whole group of alternatives
            g = r.choice([("beta", "gamma_beta"), ("Dn50", "M50"), ("cot_alpha", "cot_alpha_down", "cot_alpha_up"), ("Hm0", "Hs")])
            if all(n in {o for o, _ in opt} for n in g):
                for n in g:
                    a[n] = gen.value(s, n)
        for n in ("rock_type", "structure_type"):
            if n in a and r.random() < 0.4:
                a[n] = r.choice(JUNK)
            elif n in a and isinstance(a[n], str) and r.random() < 0.3:     # almost a known name
                t = a[n]
                a[n] = r.choice([t + "s", t[:-1], t.upper(), t.title(), t + " ", " " + t, t.replace("_", " "), t.replace("_", "-"), t + "_x",
                                 t.split("_")[0], t + "," + t])
        if "c" in a and any(n == "short_crested_waves" for n, _, _ in target.SIGS[path]) and r.random() < 0.25:
            a["c"] = r.choice([1.0, 1.3]) + r.choice([-1, 1]) * r.choice([1e-3, 4e-3, 1e-2, 4e-2, 0.1, 0.3, 1.0])
        return a

    def gen(self, r, path):
        case = {"path": path, "args": self.make(r, path)}
        t = arrays.table().get(path)
        if t and path not in SLOW and r.random() < 0.3:
            # the same rules hold when inputs are arrays (of equal elements here, so that each element is in the same situation)
            ks = [k for k in case["args"] if k in t and isinstance(case["args"][k], (int, float)) and not isinstance(case["args"][k], bool)]
            if ks:
                case["arrays"] = {k: 1 for k in r.sample(ks, r.choice([1, 1, len(ks)]))}
                case["n"] = r.choice([1, 2, 3])
        return case

    def check(self, case):
        path, a = case["path"], case["args"]
        kind, val, c = compare.ref_run(path, a)
        if kind == "undefined":
            return V("discard")
        b = dict(a)
        for k in case.get("arrays", ()):
            if k in b:
                b[k] = np.full(case["n"], float(b[k]))
        ak, av, _ = target.call(path, b)
        tag = " (arrays)" if case.get("arrays") else ""
        if kind == "invalid":
            if ak == "err" and isinstance(av, ValueError):
                return V("ok", key="refused" + tag)
            return V("fail", "this input combination must be refused with ValueError, but %s" % compare.outcome_text(ak, av))
        if ak == "ok":
            return V("ok", key="accepted" + tag)
        if c.near or compare.undefined_error(av, val) or (isinstance(av, ArithmeticError) and compare.singular(path, a)):
            return V("discard")
        return V("fail", "an allowed input combination: %s" % compare.outcome_text(ak, av))


prop = Refusal()
