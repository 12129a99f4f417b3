"""C17: calculations are pure: no memory between calls, inputs untouched, no global side effects, safe in threads."""
import decimal
import gc
import io
import os
import pickle
import random
import shutil
import signal
import sys
import tempfile
import threading
import traceback
import warnings

import numpy as np
import pandas as pd

from vp import arrays, compare, gen, target
from vp.prop import Prop, V, shrink_args
from vp.props import c24
from vp.valueprop import SLOW

PACKAGE = os.path.join(target.REPO, "deltares_coastal_structures_toolbox")
PANDAS = ("display.precision", "display.float_format", "display.max_columns", "display.max_rows", "display.width", "mode.chained_assignment")
WRITERS = (c24.NN, c24.XGB)


def build(call):
    """fresh argument objects of one call"""
    a = dict(call["args"])
    for p, v in (call.get("arr") or {}).items():
        a[p] = np.array(v, dtype=float)
    if call["path"] in WRITERS:
        a["output_dir"] = "out"
    return a


def written(call):
    """what the folder for the exported files holds under the name of this call"""
    with open(os.path.join("out", (call["args"].get("file_name") or c24.DEFAULT[call["path"]]) + c24.EXT[call["path"]])) as fh:
        return fh.read()


def pick(r, mod):
    ps = MODS[mod]
    p = r.choice(ps)
    if p in SLOW and r.random() < 0.85:
        p = r.choice(ps)
    return p


def values(r, path):
    if path in WRITERS:
        a = {k: c24.number(r, k) for k in c24.COLS[path][1]}
        name = r.choice([None, None, "a", "b"])
        return a if name is None else dict(a, file_name=name)
    a = gen.generate(r, path)
    if path.endswith("_hacc") and path in SLOW and "Hs" in a:       # a small scale: the search steps through the depth by millimetres
        f = gen.lu(r, 0.05, 0.3) / a["Hs"]
        a = {k: (v * f if k in gen.LENGTHS and isinstance(v, (int, float)) else v * f ** 0.5 if k in gen.PERIODS else v) for k, v in a.items()}
    return a


def freeze(x):
    """result -> comparable nested value"""
    if isinstance(x, dict):
        return {str(k): freeze(v) for k, v in x.items()}
    if isinstance(x, (tuple, list)):
        return [freeze(v) for v in x]
    if isinstance(x, np.ndarray):
        return ["nd", list(x.shape), [freeze(v) for v in x.ravel().tolist()]]
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, float, np.integer, np.floating)):
        return float(x)
    if isinstance(x, (complex, np.complexfloating)):
        return ["complex", x.real, x.imag]
    if x is None or isinstance(x, str):
        return x
    return repr(type(x))


def agree(a, b):
    if isinstance(a, dict):
        return isinstance(b, dict) and sorted(a) == sorted(b) and all(agree(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(agree(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return compare.close(a, b, 1e-13)
    return type(a) is type(b) and a == b


def outcome(kind, val, ws):
    if kind == "err":
        return ["err", type(val).__name__, str(val)[:200]]
    return ["ok", freeze(val), sorted(m for c, m in ws if not issubclass(c, (RuntimeWarning, DeprecationWarning)))]


def scribble(x):
    """overwrite everything mutable in a result"""
    if isinstance(x, dict):
        for k in list(x):
            scribble(x[k])
            x[k] = -12345.0
    elif isinstance(x, (tuple,)):
        for v in x:
            scribble(v)
    elif isinstance(x, list):
        for v in x:
            scribble(v)
        for i in range(len(x)):
            x[i] = -12345.0
    elif isinstance(x, np.ndarray) and x.flags.writeable:
        if x.dtype == bool:
            x[...] = ~x
        else:
            x[...] = -12345.0


def computed(x):
    """arrays in a result that were computed (a dictionary may also echo the inputs)"""
    if isinstance(x, (tuple, list)):
        for v in x:
            yield from computed(v)
    elif isinstance(x, np.ndarray):
        yield x


def files(top):
    """files and folders below top (except what the exports that were asked for may write)"""
    return sorted(os.path.join(d, f) for d, ds, fs in os.walk(top) for f in ds + fs
                  if f != "__pycache__" and not d.endswith(("__pycache__", os.sep + "out")))


def state():
    s = np.random.get_state()
    return {"numpy error handling": repr(sorted(np.geterr().items())), "warning filters": repr(warnings.filters),
            "numpy random state": (s[0], s[1].tobytes(), s[2]), "random state": random.getstate(), "working directory": os.getcwd(),
            "environment": dict(os.environ), "module search path": list(sys.path), "numpy print options": repr(np.get_printoptions()),
            "files": files("."), "installed files": files(PACKAGE), "recursion limit": sys.getrecursionlimit(), "garbage collector": gc.isenabled(),
            "numpy buffer size": np.getbufsize(), "pandas options": [repr(pd.get_option(o)) for o in PANDAS],
            "decimal context": repr(decimal.getcontext()), "standard streams": (id(sys.stdout), id(sys.stderr)),
            "unit properties and default values": constants()}


def constants():
    out = {}
    for m, ps in MODS.items():
        try:
            out[m] = repr(getattr(target.module(ps[0]), "unit_properties", None))
            for p in ps:
                f = target.fn(p)
                out[p] = repr((getattr(f, "__defaults__", None), getattr(f, "__kwdefaults__", None)))
        except target.Missing:
            pass
    return out


def program(case, order):
    """runs in a child: -> (list of outcomes per call index, complaint)"""
    d = tempfile.mkdtemp(prefix="vp17_")
    real, sys.stdout = sys.stdout, io.StringIO()
    try:
        os.chdir(d)
        for x in ("out", "home", "tmp"):
            os.mkdir(x)
        os.environ["HOME"] = os.path.join(d, "home")
        tempfile.tempdir = os.environ["TMPDIR"] = os.path.join(d, "tmp")
        out, bad = program_in(case, order)
        if sys.stdout.getvalue():
            bad = bad or "the calls printed %r" % sys.stdout.getvalue()[:100]
        return out, bad
    finally:
        sys.stdout = real
        os.chdir("/")
        shutil.rmtree(d, ignore_errors=True)


def program_in(case, order):
    out = [None] * len(case["calls"])
    bad = None
    if order == list(range(len(order))):        # two different states, so that setting either of them is seen
        np.seterr(divide="warn", over="warn", under="ignore", invalid="warn")
    else:
        np.seterr(divide="ignore", over="ignore", under="warn", invalid="ignore")
    before = state()
    for i in order:
        c = case["calls"][i]
        a = build(c)
        ident = {k: id(v) for k, v in a.items()}
        touched = []
        k, v, w = target.call(c["path"], a, c.get("positional", 0), touched)
        if touched:
            bad = bad or "call %d (%s) changed the %s" % (i, c["path"], touched[0])
        out[i] = outcome(k, v, w)
        if c["path"] in WRITERS and k == "ok":
            out[i].append(written(c))
        if {q: id(x) for q, x in a.items()} != ident:
            bad = bad or "call %d: the argument dictionary changed" % i
        for p, x in (c.get("arr") or {}).items():
            if not (isinstance(a[p], np.ndarray) and a[p].shape == (len(x),) and
                    all(compare.close(float(y), float(z), 0.0) for y, z in zip(a[p], x))):
                bad = bad or "call %d (%s) changed its input array %s from %r to %r" % (i, c["path"], p, x, a[p])
        if k == "ok" and not c["path"].rsplit(".", 1)[1].startswith("check_"):
            for x in computed(v):
                for p in (c.get("arr") or {}):
                    if np.may_share_memory(x, a[p]):
                        bad = bad or "call %d (%s) returns memory of its input array %s" % (i, c["path"], p)
        if case.get("scribble"):
            scribble(v)
    after = state()
    for q in before:
        if before[q] != after[q]:
            bad = bad or "the calls changed the %s" % q
    return out, bad


def threaded(case):
    """every thread runs all calls in its own order"""
    n = case["threads"]
    res = [[None] * len(case["calls"]) for _ in range(n)]
    warnings.simplefilter("ignore")
    start = threading.Barrier(n)

    def body(t):
        order = list(range(len(case["calls"])))
        random.Random(t).shuffle(order)
        start.wait()
        for _ in range(case.get("rounds", 2)):
            for i in order:
                c = case["calls"][i]
                f = target.fn(c["path"])
                try:
                    o = ["ok", freeze(f(**build(c)))]
                except Exception as e:      # noqa: BLE001
                    o = ["err", type(e).__name__, str(e)[:200]]
                if res[t][i] is None:
                    res[t][i] = o
                elif not agree(res[t][i], o):
                    res[t][i] = o
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    ts = [threading.Thread(target=body, args=(t,), daemon=True) for t in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join(60)
    sys.setswitchinterval(old)
    return res


class ChildLost(Exception):
    pass


def in_child(f, *args):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                data = ("ok", f(*args))
            except BaseException:       # noqa: BLE001
                data = ("error", traceback.format_exc())
            with os.fdopen(w, "wb") as fh:
                pickle.dump(data, fh)
        finally:
            os._exit(0)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as fh:
            raw = fh.read()
    finally:
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
    if not raw:
        raise ChildLost()
    k, v = pickle.loads(raw)
    if k == "error":
        raise RuntimeError(v)
    return v


def modules():
    ms = {}
    for p in target.SIGS:
        if p not in compare.REF and p not in WRITERS:
            continue
        ms.setdefault(p.rsplit(".", 1)[0], []).append(p)
    return ms


MODS = modules()


class Pure(Prop):
    id = "C17"
    rule = ("a history of >= 4 calls (related by shared arguments) of which >= 2 returned a result, executed in two orders in two fresh "
            "processes (or concurrently in threads) with all outcomes compared")
    quick, thorough = 9000, 150000
    shrink_s = 25.0
    assumptions = ["each child process is forked from a worker that has imported but never called the code"]

    def units(self):
        return {m: 0.4 + len(ps) ** 0.5 for m, ps in MODS.items()}

    def modules_of(self, unit):
        return [unit]

    def gen(self, r, mod):
        calls = []
        if r.random() < 0.04:           # a long history of one or two functions, to overrun whatever remembers a limited number
            ps = [pick(r, mod) for _ in range(r.choice([1, 2]))]
            base = [{"path": p, "args": values(r, p)} for p in ps]
            n = r.choice([40, 150, 300])
            calls = base + [self.vary(r, r.choice(base)) if r.random() < 0.9 else dict(r.choice(base)) for _ in range(n)]
            order = list(range(len(calls)))
            r.shuffle(order)
            return {"calls": calls, "order": order, "scribble": r.random() < 0.3}
        nbase = r.choice([1, 1, 2, 3])
        for _ in range(nbase):
            m = mod if r.random() < 0.8 else r.choice(sorted(MODS))
            path = pick(r, m)
            calls.append(self.one(r, path))
        base = list(calls)
        n = r.randint(4, 12)
        while len(calls) < n:
            x = r.random()
            c = r.choice(base)
            if x < 0.5:             # same call with one or two inputs changed
                d = self.vary(r, c)
            elif x < 0.6:           # the very same call again
                d = dict(c)
            elif x < 0.75:          # another function of the module, sharing the values
                d = self.sibling(r, c)
            else:
                m = mod if r.random() < 0.8 else r.choice(sorted(MODS))
                d = self.one(r, pick(r, m))
            if d:
                calls.append(d)
        calls = [self.odd(r, c) if r.random() < 0.15 else c for c in calls]
        order = list(range(len(calls)))
        r.shuffle(order)
        case = {"calls": calls, "order": order, "scribble": r.random() < 0.5}
        if r.random() < 0.25 and not any(c["path"] in WRITERS for c in calls):
            case["threads"] = r.choice([2, 3, 4])
        return case

    def one(self, r, path):
        if path in WRITERS and r.random() < 0.6:
            n = r.choice([1, 2, 3, 8])
            a = values(r, path)
            return {"path": path, "args": {k: v for k, v in a.items() if k == "file_name"},
                    "arr": {k: [c24.number(r, k) for _ in range(n)] for k in a if k != "file_name"}}
        t = arrays.table().get(path)
        if path not in SLOW and t and r.random() < 0.45:
            c = arrays.make(r, path, t, r.choice([1, 2, 3]))
            if c:
                return {"path": path, "args": c["args"], "arr": c["arr"]}
        return {"path": path, "args": values(r, path)}

    def odd(self, r, c):
        """a value far outside any range: whatever the calculation makes of it, it leaves no trace"""
        if c["path"] in WRITERS or c["path"] in SLOW or c["path"].rsplit(".", 2)[-2].startswith("takahashi1990"):
            return c
        d = {"path": c["path"], "args": dict(c["args"])}
        if c.get("arr"):
            d["arr"] = {k: list(v) for k, v in c["arr"].items()}
        ks = [k for k, v in d["args"].items() if isinstance(v, float) and k not in ("tolerance",)] + sorted(d.get("arr", ()))
        for k in r.sample(ks, min(len(ks), r.choice([1, 1, 2]))):
            f = r.choice([lambda x: 0.0, lambda x: -x, lambda x: float("nan"), lambda x: float("inf"), lambda x: 1000.0 * x,
                          lambda x: 0.001 * x, lambda x: 0.3 * x, lambda x: 3.0 * x])
            if k in d["args"]:
                d["args"][k] = f(d["args"][k])
            else:
                i = r.randrange(len(d["arr"][k]))
                d["arr"][k][i] = f(d["arr"][k][i])
        return d

    def vary(self, r, c):
        o = values(r, c["path"])
        d = {"path": c["path"], "args": dict(c["args"])}
        if c.get("arr"):
            d["arr"] = {k: list(v) for k, v in c["arr"].items()}
        ks = [k for k in o if k in d["args"]]
        for k in r.sample(ks, min(len(ks), r.choice([1, 1, 2]))):
            if r.random() < 0.3 and isinstance(d["args"][k], float):       # almost the same value
                d["args"][k] *= 1.0 + r.choice([-1, 1]) * 10.0 ** -r.uniform(2.0, 10.0)
            else:
                d["args"][k] = o[k]
        if d.get("arr") and r.random() < 0.6:
            x = r.random()
            for k in d["arr"]:
                if x < 0.35 and k in o and isinstance(o[k], (int, float)):
                    d["arr"][k][r.randrange(len(d["arr"][k]))] = float(o[k])
                elif x < 0.6:
                    d["arr"][k] = d["arr"][k][::-1]
                elif x < 0.8:
                    d["arr"][k] = d["arr"][k][:1] * len(d["arr"][k])
        return d

    def sibling(self, r, c):
        m = c["path"].rsplit(".", 1)[0]
        p = pick(r, m)
        o = values(r, p)
        for k in o:
            if k in c["args"]:
                o[k] = c["args"][k]
        return {"path": p, "args": o}

    def check(self, case):
        n = len(case["calls"])
        try:
            if case.get("threads"):
                a, bad = in_child(program, case, list(range(n)))
                if bad:
                    return V("fail", bad)
                res = in_child(threaded, case)
                for t, rs in enumerate(res):
                    for i in range(n):
                        x = rs[i]
                        if x is None or not agree(x, a[i][:2] if a[i][0] == "ok" else a[i]):
                            return V("fail", "call %d (%s) gives %s when run alone but %s in a thread running with %d others" % (
                                i, case["calls"][i]["path"], compare.fmt(a[i]), compare.fmt(x), case["threads"] - 1))
                key = "threads"
            else:
                a, bad = in_child(program, case, list(range(n)))
                if bad:
                    return V("fail", bad)
                b, bad = in_child(program, case, case["order"])
                if bad:
                    return V("fail", bad)
                for i in range(n):
                    if not agree(a[i], b[i]):
                        return V("fail", "call %d (%s) gives %s after calls %s but %s after calls %s" % (
                            i, case["calls"][i]["path"], compare.fmt(a[i]), list(range(i)), compare.fmt(b[i]),
                            case["order"][:case["order"].index(i)]))
                # equal calls have equal outcomes
                for i in range(n):
                    for j in range(i):
                        if repr(case["calls"][i]) == repr(case["calls"][j]) and not agree(a[i], a[j]):
                            return V("fail", "the same call gives %s first and %s later" % (compare.fmt(a[j]), compare.fmt(a[i])))
                key = "scribble" if case.get("scribble") else "history"
        except ChildLost:
            return V("fail", "a call ended the process")
        return V("ok" if n >= 4 and sum(x[0] == "ok" for x in a) >= 2 else "trivial", key=key)

    def shrinks(self, case):
        n = len(case["calls"])
        m = n // 2
        while n > 8 and m >= 4:
            for lo in range(0, n, m):
                keep = [i for i in range(n) if not lo <= i < lo + m]
                if keep:
                    yield dict(case, calls=[case["calls"][i] for i in keep], order=[keep.index(o) for o in case["order"] if o in keep])
            m //= 2
        for i in range(n):
            if n > 1:
                c = dict(case)
                c["calls"] = case["calls"][:i] + case["calls"][i + 1:]
                c["order"] = [o - (o > i) for o in case["order"] if o != i]
                yield c
        for i, call in enumerate(case["calls"]):
            req = {q for q, need, _ in target.SIGS[call["path"]] if need}
            for b in shrink_args(call["args"], req):
                c = dict(case)
                c["calls"] = list(case["calls"])
                c["calls"][i] = dict(call, args=b)
                yield c


prop = Pure()
