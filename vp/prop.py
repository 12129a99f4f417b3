"""Base class of the executable properties."""
import json
import math

from . import gen, target

nan = float("nan")


class V:
    """verdict of one generated case: ok | trivial | discard | fail"""
    __slots__ = ("status", "detail", "key")

    def __init__(self, status, detail="", key=None):
        self.status, self.detail, self.key = status, detail, key


class Prop:
    id = None
    rule = "the check ran to completion on an input inside the property's domain"
    assumptions = []
    #: seconds of shrinking per failing unit
    shrink_s = 15.0

    def setup(self):
        pass

    def units(self):
        """-> {unit name: weight}; the tier's case budget is spread over the units by weight"""
        raise NotImplementedError

    #: cases per tier (whole property)
    quick = 40000
    thorough = 1500000

    def modules_of(self, unit):
        """modules whose behaviour decides this unit (to aim extra effort at code that changed)"""
        if unit.rsplit(".", 1)[0].count(".") >= 0 and unit in target.SIGS:
            return [unit.rsplit(".", 1)[0]]
        return []

    def gen(self, r, unit):
        raise NotImplementedError

    def check(self, case):
        raise NotImplementedError

    def shrinks(self, case):
        yield from shrink_args_case(case)

    def distinct_key(self, case):
        return json.dumps(case, sort_keys=True)


def nice(v, name=None):
    """simpler numbers inside the generator's domain and not far from the original, simplest first"""
    if isinstance(v, bool) or not isinstance(v, (int, float)) or v != v or math.isinf(v) or name in gen.DISCRETE:
        return
    for c in (0.0, 1.0, float(round(v)), float("%.1g" % v), float("%.2g" % v), float("%.3g" % v), float("%.5g" % v)):
        if complexity(c) < complexity(v) and (c == 0 or (v != 0 and 0.4 < abs(c / v) < 2.5)) and \
                (gen.ok(name, c) if name in gen.DOM else True):
            yield c


def complexity(v):
    return len(repr(float(v))) + (abs(v) > 1) * 0.1


def shrink_args(a, required=()):
    for k in list(a):
        if k not in required:
            b = dict(a)
            del b[k]
            yield b
    for k, v in a.items():
        for c in nice(v, k):
            b = dict(a)
            b[k] = c
            yield b


def shrink_args_case(case):
    """cases of the form {"path", "args", ["arr"], ...}"""
    path = case.get("path")
    req = {n for n, q, _ in target.SIGS[path] if q} if path in target.SIGS else set(case.get("args", {}))
    arr = case.get("arr")
    if arr:
        n = len(next(iter(arr.values())))
        if n > 1:
            for i in range(n):
                c = dict(case)
                c["arr"] = {p: v[:i] + v[i + 1:] for p, v in arr.items()}
                yield c
        for p in list(arr):
            c = dict(case)
            c["arr"] = {q: v for q, v in arr.items() if q != p}
            c["args"] = dict(case["args"])
            c["args"][p] = arr[p][0]
            if c["arr"]:
                yield c
            elif case.get("kind") != "array":
                del c["arr"]
                yield c
        for p, v in arr.items():
            for i, x in enumerate(v):
                for y in nice(x, p):
                    c = dict(case)
                    c["arr"] = dict(arr)
                    c["arr"][p] = v[:i] + [y] + v[i + 1:]
                    yield c
    if case.get("positional"):
        c = dict(case)
        c["positional"] = 0
        yield c
    for b in shrink_args(case["args"], req):
        c = dict(case)
        c["args"] = b
        yield c
