"""C24: exported model input files hold exactly the given cases (stateful: sequences of writes into a scratch folder)."""
import json
import math
import os
import pathlib
import shutil
import tempfile

import numpy as np

from vp import gen, target
from vp.prop import Prop, V

O = "hydraulic.wave_overtopping."
XGB = O + "denbieman2021.write_input_file_XGB_Overtopping"
NN = O + "vangent2007.write_input_file_NN_Overtopping"
# column order of the receiving programs
COLS = {
    XGB: (["b", "h", "Hm0 toe", "Tm-1,0 toe", "ht", "Bt", "hb", "B", "Rc", "Ac", "Gc", "cotad", "cotau", "gf_d", "gf_u", "tanaf"],
          ["beta", "h", "Hm0", "Tmm10", "ht", "Bt", "db", "B_berm", "Rc", "Ac", "Gc", "cot_alpha_down", "cot_alpha_up", "gamma_f_down",
           "gamma_f_up", "tan_alpha_f"]),
    NN: (None, ["beta", "h", "Hm0", "Tmm10", "ht", "Bt", "gamma_f", "cot_alpha_down", "cot_alpha_up", "Rc", "B_berm", "db", "tan_alpha_B",
                "Ac", "Gc"]),
}
EXT = {XGB: ".csv", NN: ".inp"}
DEFAULT = {XGB: "input_XGB_Overtopping", NN: "input_NN_Overtopping"}
NAMES = [None, None, "a", "case 2", "run.v1", "Ünï", "b-c_d", "A"]
NUM = {"beta": (0, 90), "h": (0.5, 40), "Hm0": (0.05, 12), "Tmm10": (1, 25), "Bt": (0, 20), "ht": (0.2, 40), "B_berm": (0, 30), "db": (-6, 6),
       "Rc": (0, 20), "Ac": (0, 20), "Gc": (0, 20), "cot_alpha_down": (0, 8), "cot_alpha_up": (-3, 8), "gamma_f": (0.35, 1), "gamma_f_down": (0.35, 1),
       "gamma_f_up": (0.35, 1), "tan_alpha_f": (0, 0.2), "tan_alpha_B": (0, 0.2)}


def number(r, n):
    lo, hi = NUM[n]
    k = r.random()
    x = lo + (hi - lo) * r.random()
    if k < 0.25:
        return float(round(x))
    if k < 0.5:
        return round(x, r.choice([1, 2, 3]))
    if k < 0.55:
        return lo * 1.0
    if k < 0.6:
        return x * 1e-6
    return x


def column(r, k, n):
    """one column of n values: mixed numbers, or a pattern (all different, ascending, descending, constant, a sweep)"""
    x = r.random()
    if x < 0.6:
        return [number(r, k) for _ in range(n)]
    lo, hi = NUM[k]
    v = [lo + (hi - lo) * r.random() for _ in range(n)]
    if x < 0.75:
        return v
    if x < 0.82:
        return sorted(v)
    if x < 0.89:
        return sorted(v, reverse=True)
    if x < 0.93:
        return v[:1] * n
    return [lo + (hi - lo) * i / max(n, 1) for i in range(n)][::r.choice([1, -1])]


class Export(Prop):
    id = "C24"
    rule = "the sequence wrote at least one file with at least one case whose columns are not all equal"
    quick, thorough = 6000, 150000

    def units(self):
        return {"both": 1.0, XGB: 1.0, NN: 1.0}

    def modules_of(self, unit):
        return [O + "denbieman2021", O + "vangent2007"]

    def chunk(self, unit):
        return 60

    def gen(self, r, unit):
        ops = []
        for _ in range(r.choice([1, 1, 2, 3, 5])):
            path = unit if unit != "both" else r.choice([XGB, NN])
            n = r.choice([0, 0, 1, 2, 3, 5, 12, 60, 200]) if r.random() < 0.99 else r.choice([1000, 3000])        # 0: scalar call
            names = COLS[path][1]
            if r.random() < 0.15:       # scalars (or a grid of constants) together with an array of angles
                rows = {k: (column(r, k, n) if (k == "beta" or r.random() < 0.5) and n else number(r, k)) for k in names}
            else:
                rows = {k: column(r, k, n) if n else number(r, k) for k in names}
            if n > 1 and r.random() < 0.4:      # repeated cases: somewhere, next to each other, or all of them
                how = r.random()
                src = [0] * n if how < 0.2 else [max(0, i - (r.random() < 0.3)) for i in range(n)] if how < 0.6 else \
                    [r.randrange(n) for _ in range(n)]
                rows = {k: [v[i] for i in src] if isinstance(v, list) else v for k, v in rows.items()}
            ops.append({"path": path, "rows": rows, "name": r.choice(NAMES), "dir": r.choice(["", "", "d1", "d 2"]),
                        "slash": r.random() < 0.1, "ints": r.random() < 0.1, "readonly": r.random() < 0.2, "as": r.choice(["", "", "", "strided", "pathlib"])})
        return {"ops": ops}

    def check(self, case):
        root = tempfile.mkdtemp(prefix="vp_c24_")
        cwd = os.getcwd()
        try:
            box = os.path.join(root, "box")
            away = os.path.join(root, "away")
            for d in (box, away, os.path.join(box, "d1"), os.path.join(box, "d 2")):
                os.mkdir(d)
            with open(os.path.join(box, "keep.csv"), "w") as fh:
                fh.write("keep\n")
            os.chdir(away)
            return self.play(case, box, away)
        finally:
            os.chdir(cwd)
            shutil.rmtree(root, ignore_errors=True)

    def play(self, case, box, away):
        model = {"keep.csv": None}
        good = False
        for op in case["ops"]:
            path = op["path"]
            args, rows = {}, {}
            n = max([len(v) for v in op["rows"].values() if isinstance(v, list)] or [0])
            for k, v in op["rows"].items():
                if op["ints"]:
                    v = [float(round(x)) for x in v] if isinstance(v, list) else float(round(v))
                rows[k] = v if isinstance(v, list) else [v] * max(n, 1)
                if isinstance(v, list):
                    x = np.array(v, dtype=int if op["ints"] else float)
                    if op.get("as") == "strided":
                        x = np.repeat(x, 2)[::2]
                    if op["readonly"]:
                        x.setflags(write=False)
                    args[k] = x
                else:
                    args[k] = int(v) if op["ints"] else v
            before = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in args.items()}
            kw = dict(args)
            kw["output_dir"] = os.path.join(box, op["dir"]) + ("/" if op["slash"] else "")
            if op.get("as") == "pathlib":
                kw["output_dir"] = pathlib.Path(kw["output_dir"])
            if op["name"] is not None:
                kw["file_name"] = op["name"]
            kind, val, _ = target.call(path, kw)
            if kind == "err":
                return V("fail", "writing %d case(s) fails: %r" % (max(n, 1), val))
            for k, v in before.items():
                if not np.array_equal(v, args[k]):
                    return V("fail", "writing changed the caller's %s" % k)
            f = os.path.join(op["dir"], (op["name"] or DEFAULT[path]) + EXT[path])
            model[f] = (path, rows, max(n, 1))
            good = True
        have = set()
        for d, _, fs in os.walk(box):
            have |= {os.path.relpath(os.path.join(d, f), box) for f in fs}
        if have != set(model):
            return V("fail", "files written: %s, expected %s" % (sorted(have), sorted(model)))
        if os.listdir(away):
            return V("fail", "files written outside the output folder: %s" % os.listdir(away))
        for f, m in model.items():
            with open(os.path.join(box, f), encoding="utf-8", newline="") as fh:
                text = fh.read()
            if m is None:
                if text != "keep\n":
                    return V("fail", "another file in the output folder was changed")
                continue
            bad = self.compare(text, *m)
            if bad:
                return V("fail", "%s: %s" % (f, bad))
        return V("ok" if good else "trivial", key="history of %d" % len(case["ops"]))

    @staticmethod
    def compare(text, path, rows, n):
        heads, names = COLS[path]
        lines = [ln for ln in text.replace("\r\n", "\n").split("\n")]
        if lines and lines[-1] == "":
            lines.pop()
        if path == XGB:
            if not lines:
                return "empty file"
            h = lines[0].split(";")
            if h[-len(heads):] != heads or len(h) - len(heads) > 1:
                return "header %r" % lines[0]
            skip = len(h) - len(heads)
            data = [ln.split(";") for ln in lines[1:]]
        else:
            skip = 0
            data = [ln.split() for ln in lines if not ln.lstrip().startswith(("!", "*"))]
        if len(data) != n:
            return "%d rows for %d cases" % (len(data), n)
        for i, d in enumerate(data):
            if len(d) != len(names) + skip:
                return "row %d has %d columns instead of %d" % (i, len(d) - skip, len(names))
            if skip and d[0].strip() != str(i):
                return "row %d is numbered %s" % (i, d[0])
            for k, s in zip(names, d[skip:]):
                try:
                    x = float(s)
                except ValueError:
                    return "row %d: %s is written as %r" % (i, k, s)
                w = rows[k][i]
                if not (x == w or abs(x - w) <= 1e-12 * max(abs(w), 1e-300)):
                    return "row %d: %s is written as %s instead of %r" % (i, k, s, w)
        return None

    def shrinks(self, case):
        ops = case["ops"]
        if len(ops) > 1:
            for i in range(len(ops)):
                yield {"ops": ops[:i] + ops[i + 1:]}
        for i, op in enumerate(ops):
            def put(**kw):
                return {"ops": ops[:i] + [dict(op, **kw)] + ops[i + 1:]}
            for k, v in (("dir", ""), ("name", None), ("slash", False), ("ints", False), ("readonly", False), ("as", "")):
                if op.get(k, "") != v:
                    yield put(**{k: v})
            n = max([len(v) for v in op["rows"].values() if isinstance(v, list)] or [0])
            for m in sorted({1, n // 2, n - 1}):
                if 0 < m < n:
                    yield put(rows={k: v[:m] if isinstance(v, list) else v for k, v in op["rows"].items()})
            for k, v in op["rows"].items():
                if isinstance(v, list) and any(x != round(x, 1) for x in v):
                    yield put(rows=dict(op["rows"], **{k: [round(x, 1) for x in v]}))
                elif not isinstance(v, list) and v != round(v, 1):
                    yield put(rows=dict(op["rows"], **{k: round(v, 1)}))

    def distinct_key(self, case):
        return json.dumps(case, sort_keys=True)


prop = Export()
