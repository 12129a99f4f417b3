"""Access to the code under test (always /repo's working tree)."""
import ast
import importlib
import json
import os
import sys
import warnings
from signal import setitimer, ITIMER_VIRTUAL

REPO = "/repo"
PKG = "deltares_coastal_structures_toolbox.functions"
HERE = os.path.dirname(os.path.abspath(__file__))
nan = float("nan")

with open(os.path.join(HERE, "sigs.json")) as fh:
    _raw = json.load(fh)
#: documented call signature: path -> [(name, required?, default)]
SIGS = {p: [(n, d == "REQ", nan if d == "NAN" else (None if d == "REQ" else d)) for n, d in ps]
        for p, ps in _raw.items()}


class Missing(Exception):
    pass


def setup():
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import numpy as np
    np.seterr(all="ignore")
    arm()
    import deltares_coastal_structures_toolbox as d
    f = os.path.realpath(d.__file__ or list(d.__path__)[0])
    if not f.startswith(REPO):
        raise RuntimeError("code under test imported from %s instead of %s" % (f, REPO))


def module(path):
    return importlib.import_module(PKG + "." + path.rsplit(".", 1)[0])


_cache = {}


def fn(path):
    f = _cache.get(path)
    if f is None:
        f = getattr(module(path), path.rsplit(".", 1)[1], None)
        if f is None:
            raise Missing(path)
        _cache[path] = f
    return f


class CallTimeout(BaseException):
    pass


CPU_LIMIT = 30.0


def _alarm(*_):
    raise CallTimeout()


def arm():
    import signal
    signal.signal(signal.SIGVTALRM, _alarm)


def call(path, kwargs, positional=0, watch=None):
    """-> (kind, value, warnings) with kind 'ok' or 'err'; watch: list that receives what the call changed in the warnings module"""
    f = fn(path)
    args = ()
    if positional:
        names = [n for n, _, _ in SIGS[path]]
        args = []
        kwargs = dict(kwargs)
        for n in names[:positional]:
            if n not in kwargs:
                break
            args.append(kwargs.pop(n))
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        if watch is not None:       # what the call does to the warning filters is undone on leaving this block: look before that
            warnings.filterwarnings("always", message="vp: no warning has this text")
            seen = (list(warnings.filters), warnings.showwarning)
        try:
            setitimer(ITIMER_VIRTUAL, CPU_LIMIT)
            r = ("ok", f(*args, **kwargs))
            setitimer(ITIMER_VIRTUAL, 0)
        except CallTimeout:
            r = ("err", TimeoutError("no result after %g s of CPU time" % CPU_LIMIT))
        except Exception as e:      # noqa: BLE001
            r = ("err", e)
        finally:
            setitimer(ITIMER_VIRTUAL, 0)
        if watch is not None and seen != (list(warnings.filters), warnings.showwarning):
            watch.append("warning filters")
    return r[0], r[1], [(w.category, str(w.message)) for w in ws]


# --- literals mined from the current source, used to aim the generator at thresholds -------------
def _file(modpath):
    return os.path.join(REPO, PKG.replace(".", "/"), modpath.replace(".", "/") + ".py")


_base_lits = None
_lits = {}


def scan_literals(modpath):
    nums, strs = set(), set()
    try:
        with open(_file(modpath)) as fh:
            tree = ast.parse(fh.read())
    except Exception:       # noqa: BLE001
        return nums, strs

    def val(n):
        try:
            v = eval(compile(ast.Expression(n), "", "eval"), {"__builtins__": {}})      # constant folding
            return v
        except Exception:   # noqa: BLE001
            return None
    for n in ast.walk(tree):
        if isinstance(n, (ast.BinOp, ast.UnaryOp, ast.Constant)):
            v = val(n)
            if isinstance(v, bool) or v is None:
                continue
            if isinstance(v, (int, float)) and abs(v) < 1e8:
                nums.add(float(v))
            elif isinstance(v, str) and len(v) < 25 and "\n" not in v:
                strs.add(v)
    return nums, strs


RELATED = {"hydraulic.wave_runup.eurotop2018": ["hydraulic.wave_runup.taw2002"],
           "hydraulic.wave_overtopping.taw2002": ["hydraulic.wave_runup.taw2002"],
           "hydraulic.wave_overtopping.eurotop2018": ["hydraulic.wave_runup.taw2002", "hydraulic.wave_runup.eurotop2018"],
           "hydraulic.wave_overtopping.deridder2026": ["hydraulic.wave_overtopping.deridder2024"],
           "structural.stability_rock_armour.vandermeer2021": ["structural.stability_rock_armour.vandermeer1988_modified"],
           "structural.stability_rock_rear.vangent2007": ["hydraulic.wave_runup.vangent2001"],
           "structural.stability_rock_rear.vangentpozueta2004": ["hydraulic.wave_runup.vangent2001",
                                                                 "hydraulic.wave_overtopping.vangent2002_velocity"],
           "structural.stability_concrete_armour.xblocplus": ["structural.stability_concrete_armour.xbloc"]}


def literals(path):
    """-> (all literals, literals that were not in the analysed baseline)"""
    global _base_lits
    if _base_lits is None:
        with open(os.path.join(HERE, "literals.json")) as fh:
            _base_lits = json.load(fh)
    mod = path.rsplit(".", 1)[0]
    if mod not in _lits:
        nums, new = set(), set()
        for m in [mod] + RELATED.get(mod, []) + ["core_physics"]:
            a, _ = scan_literals(m)
            if m != "core_physics":
                nums |= a
            new |= a - set(_base_lits.get(m, []))
        _lits[mod] = (sorted(x for x in nums), sorted(new))
    return _lits[mod]


# --- which modules differ from the analysed baseline (only used to aim effort, never to judge) ----
def _norm(tree):
    for n in ast.walk(tree):
        b = getattr(n, "body", None)
        if isinstance(b, list) and b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) \
                and isinstance(b[0].value.value, str):
            n.body = b[1:] or [ast.Pass()]
    return ast.dump(tree)


def source_sums():
    """module -> (digest of its docstring-free syntax tree, set of package modules it imports)"""
    import hashlib
    root = os.path.join(REPO, PKG.split(".")[0])
    out = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            if not f.endswith(".py"):
                continue
            p = os.path.join(d, f)
            mod = os.path.relpath(p, REPO)[:-3].replace(os.sep, ".")
            if mod.endswith(".__init__"):
                mod = mod[:-9]
            try:
                with open(p) as fh:
                    src = fh.read()
                tree = ast.parse(src)
            except Exception:       # noqa: BLE001
                out[mod] = ("unparsable", [])
                continue
            imps = set()
            for n in ast.walk(tree):
                if isinstance(n, ast.Import):
                    imps |= {a.name for a in n.names}
                elif isinstance(n, ast.ImportFrom):
                    base = n.module or ""
                    if n.level:
                        base = ".".join(mod.split(".")[:-n.level] + ([base] if base else []))
                    imps.add(base)
                    imps |= {base + "." + a.name for a in n.names}
            out[mod] = (hashlib.sha256(_norm(tree).encode()).hexdigest()[:16], sorted(i for i in imps if i.startswith(PKG.split(".")[0])))
    return out


def changed_modules():
    """short names (without the package prefix) of modules that changed or import a changed module"""
    try:
        with open(os.path.join(HERE, "sums.json")) as fh:
            base = json.load(fh)
        cur = source_sums()
    except Exception:       # noqa: BLE001
        return set()
    direct = {m for m in cur if base.get(m) != cur[m][0]}
    # a change in a widely shared module says little: only direct importers are aimed at as well
    out = set(direct)
    for m in cur:
        if set(cur[m][1]) & direct:
            out.add(m)
    if len(out) > 0.6 * len(cur):
        out = direct
    return {m[len(PKG) + 1:] for m in out if m.startswith(PKG + ".")}


def import_all():
    for m in sorted({p.rsplit(".", 1)[0] for p in SIGS}):
        try:
            importlib.import_module(PKG + "." + m)
        except ModuleNotFoundError:
            pass            # reported as a missing public function where it matters
