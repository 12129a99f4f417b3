"""Array calls: element i of the result must be what the scalar call with element i gives."""
import json
import os

import numpy as np

from . import compare, gen, target

HERE = os.path.dirname(os.path.abspath(__file__))
_table = None


def table():
    global _table
    if _table is None:
        with open(os.path.join(HERE, "arrays.json")) as fh:
            _table = json.load(fh)
    return _table


def numeric_params(path):
    out = []
    for n, req, d in target.SIGS[path]:
        if n in gen.BOOLS or n in gen.DISCRETE or isinstance(d, (str, bool)) or n in ("output_dir", "file_name"):
            continue
        out.append(n)
    return out


def make(r, path, allowed, n=None, frac=None):
    """-> case {"args": scalars, "arr": {name: [..]}, "shape"}"""
    base = gen.generate(r, path)
    cand = [p for p in allowed if p in base and isinstance(base[p], (int, float)) and base[p] == base[p]]
    if not cand:
        return None
    x = r.random()
    if x < 0.4:
        chosen = [r.choice(cand)]
    elif x < 0.7:
        chosen = list(cand)
    else:
        chosen = r.sample(cand, r.randint(1, len(cand)))
    n = n or r.choice([1, 2, 2, 3, 3, 4, 6])
    els = [base]
    tries = 0
    while len(els) < n and tries < 60 + 2 * n:
        tries += 1
        o = gen.generate(r, path)
        if r.random() < 0.3:        # a neighbour of the base in one parameter
            o2 = dict(base)
            p = r.choice(chosen)
            if isinstance(o.get(p), (int, float)):
                o2[p] = o[p]
            o = o2
        if all(isinstance(o.get(p), (int, float)) for p in chosen):
            els.append(o)
    arr = {p: [float(e[p]) for e in els] for p in chosen}
    args = {k: v for k, v in base.items() if k not in arr}
    return {"args": args, "arr": arr}


def element(case, i):
    a = dict(case["args"])
    for p, v in case["arr"].items():
        a[p] = v[i]
    return a


def size(case):
    return len(next(iter(case["arr"].values())))


def leaves(x):
    """-> list of leaf objects in a fixed order (arrays stay arrays)"""
    if isinstance(x, dict):
        out = []
        for k in sorted(x):
            if k != "is_valid":
                out += leaves(x[k])
        return out
    if isinstance(x, tuple):
        return [y for v in x for y in leaves(v)]
    return [x]


def call_array(path, case, twod=False, aslist=False):
    n = size(case)
    a = dict(case["args"])
    for p, v in case["arr"].items():
        x = np.array(v, dtype=float)
        if twod:
            x = x.reshape(1, n) if twod == 1 else x.reshape(n, 1)
        a[p] = x.tolist() if aslist else x
    return target.call(path, a)


def pick(leaf, i, n):
    """element i of a leaf; None if the leaf has no such shape"""
    if isinstance(leaf, (list,)):
        leaf = np.array(leaf, dtype=object)
    if isinstance(leaf, np.ndarray):
        if leaf.size == n:
            return leaf.ravel()[i]
        if leaf.size == 1:
            return leaf.ravel()[0]
        return "shape %s" % (leaf.shape,)
    return leaf


def shape_ok(leaf, n):
    return True
