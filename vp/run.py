"""Driver:  python -m vp.run C01 [--tier quick|thorough] [--replay FILE] [--cases N] [--unit SUBSTR]

exit 0 property held on everything explored; 1 violation (VIOLATION line printed); 2 harness error.
"""
import argparse
import collections
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import sys
import time
import traceback

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

from vp import target            # noqa: E402
from vp.prop import V            # noqa: E402

PROP = None
CHUNK_S = 2.0
SOFT = {"quick": 420.0, "thorough": 5400.0}


def load(pid):
    m = importlib.import_module("vp.props." + pid.lower())
    return m.prop


def h64(s):
    return int.from_bytes(hashlib.blake2b(s.encode(), digest_size=8).digest(), "big")


def run_case(case):
    try:
        return PROP.check(case)
    except target.Missing as e:
        return V("fail", "public function %s no longer exists" % e)


def one(unit, seed, i):
    r = random.Random("%s:%s:%s:%d" % (PROP.id, seed, unit, i))
    case = PROP.gen(r, unit)
    if case is None:
        return None, V("discard")
    return case, run_case(case)


def shrink(case, v, budget):
    t0 = time.time()
    best, bv, n = case, v, 0
    improved = True
    while improved and time.time() - t0 < budget:
        improved = False
        for c in PROP.shrinks(best):
            if time.time() - t0 > budget:
                break
            n += 1
            try:
                w = run_case(c)
            except Exception:       # noqa: BLE001  (a shrink candidate may leave the harness' domain)
                continue
            if w.status == "fail":
                best, bv, improved = c, w, True
                break
    return best, bv, n


def work(task):
    unit, seed, lo, hi, stop_at = task
    st = collections.Counter()
    keys = collections.Counter()
    seen = set()
    samples = []
    fail = None
    evals = 0
    for i in range(lo, hi):
        if time.time() > stop_at:
            st["not_run"] += hi - i
            break
        try:
            case, v = one(unit, seed, i)
        except Exception:           # noqa: BLE001
            return {"unit": unit, "error": "unit %s case %d\n%s" % (unit, i, traceback.format_exc())}
        evals += 1
        st[v.status] += 1
        if v.key:
            keys[v.key] += 1
        if v.status == "ok":
            seen.add(h64(unit + "|" + PROP.distinct_key(case)))
            if len(samples) < 1:
                samples.append(case)
        if v.status == "fail":
            try:
                c2, v2, n = shrink(case, v, PROP.shrink_s)
            except Exception:       # noqa: BLE001   (a failing shrinker must not lose the failure)
                c2, v2, n = case, v, 0
            fail = {"unit": unit, "index": i, "case": c2, "detail": v2.detail, "original": case,
                    "original_detail": v.detail, "shrink_steps": n}
            break
    return {"unit": unit, "st": st, "keys": keys, "seen": seen, "samples": samples, "fail": fail, "evals": evals}


def plan(prop, tier, cases, focus):
    units = prop.units()
    total = cases or getattr(prop, tier)
    wsum = float(sum(units.values()))
    counts = {u: max(1, int(round(total * w / wsum))) for u, w in units.items()}
    hot = [u for u in units if any(m in focus for m in prop.modules_of(u))] if focus else []
    if hot:
        hsum = float(sum(units[u] for u in hot))
        for u in hot:
            counts[u] += min(int(1.5 * total * units[u] / hsum), 12 * counts[u] + 3000)
    return counts, hot


def write_replay(prop, seed, tier, f):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    body = {"property": prop.id, "unit": f["unit"], "seed": seed, "tier": tier, "index": f["index"],
            "detail": f["detail"], "case": f["case"], "original_case": f["original"], "original_detail": f["original_detail"]}
    name = "%s-%016x.json" % (prop.id, h64(json.dumps(f["case"], sort_keys=True)))
    p = os.path.join(d, name)
    with open(p, "w") as fh:
        json.dump(body, fh, indent=1, sort_keys=True)
    return p


def known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    with open(p) as fh:
        return [k for k in json.load(fh)["findings"] if k["property"] == pid]


def main():
    global PROP
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--deep", action="store_true")
    ap.add_argument("--unit", default="")
    ap.add_argument("--jobs", type=int, default=os.cpu_count() or 8)
    ap.add_argument("--no-evidence", action="store_true")
    ap.add_argument("-v", action="store_true")
    o = ap.parse_args()
    t0 = time.time()
    tier = o.tier if o.tier in ("quick", "thorough") else "quick"
    seed = os.environ.get("VERIF_SEED", "1")
    try:
        target.setup()
        target.import_all()
    except Exception:       # noqa: BLE001
        # the tree does not import: no answer about the property
        traceback.print_exc()
        return 2
    PROP = load(o.prop)
    PROP.setup()
    if o.replay:
        with open(o.replay) as fh:
            body = json.load(fh)
        v = run_case(body["case"])
        print(v.status, v.detail)
        if v.status == "fail":
            print("VIOLATION property=%s replay=%s" % (PROP.id, o.replay))
            return 1
        return 0
    focus = target.changed_modules()
    counts, hot = plan(PROP, tier, o.cases, focus)
    if o.deep:          # every case that a run after a change in any one module could generate with this seed
        for m in {m for u in PROP.units() for m in PROP.modules_of(u)}:
            for u, n in plan(PROP, tier, o.cases, {m})[0].items():
                counts[u] = max(counts[u], n)
    if o.unit:
        counts = {u: n for u, n in counts.items() if o.unit in u}
    stop_at = t0 + (36000 if o.deep else SOFT[tier])
    tasks = []
    per = max(20, min(2000, sum(counts.values()) // (o.jobs * 12) + 1))
    for u, n in counts.items():
        step = max(1, min(per, PROP.chunk(u) if hasattr(PROP, "chunk") else per))
        for lo in range(0, n, step):
            tasks.append((u, seed, lo, min(n, lo + step), stop_at))
    random.Random(0).shuffle(tasks)
    hotset = set(hot)
    tasks.sort(key=lambda t: t[0] not in hotset)
    st, keys, per_unit = collections.Counter(), collections.Counter(), collections.defaultdict(collections.Counter)
    seen, samples, fails, errors, evals = set(), {}, {}, [], 0
    ctx = mp.get_context("fork")
    with ctx.Pool(o.jobs) as pool:
        for r in pool.imap_unordered(work, tasks, chunksize=1):
            if "error" in r:
                errors.append(r["error"])
                if len(errors) > 3:
                    break
                continue
            evals += r["evals"]
            st.update(r["st"])
            keys.update(r["keys"])
            per_unit[r["unit"]].update(r["st"])
            seen |= r["seen"]
            if r["samples"]:
                samples.setdefault(r["unit"], r["samples"][0])
            if r["fail"]:
                u = r["unit"]
                if u not in fails or len(json.dumps(r["fail"]["case"])) < len(json.dumps(fails[u]["case"])):
                    fails[u] = r["fail"]
                if len(fails) >= 5 or (time.time() - t0 > 60 and len(fails) >= 2):
                    break
        pool.terminate()
    # known findings are re-executed one by one
    for k in known(PROP.id):
        v = run_case(k["case"])
        if v.status == "fail":
            print("KNOWN-FINDING: property=%s %s" % (PROP.id, k["what"]))
    wall = time.time() - t0
    keysamp = sorted(samples)
    random.Random(1).shuffle(keysamp)
    ev = {"property": PROP.id, "tier": tier, "seed": int(seed) if seed.lstrip("-").isdigit() else 0, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(seen), "rule": PROP.rule,
                       "samples": [{"unit": u, "case": samples[u]} for u in keysamp[:8]],
                       "statuses": dict(st), "classes": dict(keys), "units": len(counts),
                       "units_without_nontrivial_case": sorted(u for u in counts if not per_unit[u]["ok"]),
                       "min_nontrivial_per_unit": min([per_unit[u]["ok"] for u in counts] or [0]),
                       "focus_modules": sorted(focus)},
          "wall_s": round(wall, 2), "violations": len(fails), "assumptions": PROP.assumptions}
    if not o.no_evidence:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", PROP.id + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, sort_keys=True)
    print("%s %s seed=%s: %d cases, %d distinct non-trivial, %s, %.1f s" % (PROP.id, tier, seed, evals, len(seen), dict(st), wall))
    if o.v:
        for u in sorted(counts):
            print("  ", u, counts[u], dict(per_unit[u]))
        print("  ", dict(keys))
    for u in sorted(fails):
        f = fails[u]
        p = write_replay(PROP, seed, tier, f)
        print("  %s\n    case   %s\n    detail %s" % (u, json.dumps(f["case"]), f["detail"]))
        print("VIOLATION property=%s replay=%s" % (PROP.id, p))
    if fails:
        return 1
    if errors:
        print("HARNESS ERROR\n" + errors[0], file=sys.stderr)
        return 2
    if not seen:
        print("HARNESS ERROR: no non-trivial case was generated", file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
