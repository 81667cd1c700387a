"""Parallel driver, verdict, evidence, known findings, replay artefacts."""
import json
import os
import sys
import time
import multiprocessing as mp
from concurrent.futures import ProcessPoolExecutor
from concurrent.futures.process import BrokenProcessPool

from . import engine

ROOT = engine.ROOT


def known_findings(prop):
    """Lines  finding: property=<id> key=<key> :: <what>  (fixed: lines suppress nothing)."""
    out = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: property=%s key=" % prop):
                rest = line.split(" key=", 1)[1]
                key, what = rest.split(" :: ", 1)
                out[key] = what
    return out


_mod = None
_deadline = None


def _work(item):
    cfg, kw = item
    if _deadline and time.time() > _deadline:
        r = engine.Result(cfg)
        r.capped = True
        r.states = 0
        return r
    return engine.explore(_mod.run, cfg, **kw)


def main(prop, mod, tier, seed, replay=None):
    global _mod, _deadline
    _mod = mod
    engine.Ctx.tier = tier
    t0 = time.time()
    kw = {"limit_s": getattr(mod, "LIMIT_S", 240)}
    if replay:
        r = json.load(open(replay))
        engine.Ctx.tier = r.get("tier", tier)
        res = engine.explore(mod.run, detuple(r["cfg"]), only=r["choices"], **kw)
        for v in res.violations:
            print("REPLAYED %s\n  %s\n  %s" % (v["key"], v["msg"], " ; ".join(v["trail"])))
        print("reproduced" if res.violations else "not reproduced")
        return 1 if res.violations else 0

    cfgs = list(mod.configs(tier))
    assert len(cfgs) == len(set(map(engine.cfg_name, cfgs))), "duplicate configurations"
    budget = float(os.environ.get("VERIF_BUDGET", "780" if tier == "quick" else "14400"))
    _deadline = t0 + budget
    cost = getattr(mod, "cost", lambda c: 1)
    order = sorted(cfgs, key=lambda c: -cost(c))
    nproc = int(os.environ.get("VERIF_JOBS", "8"))
    results = []
    try:
        with ProcessPoolExecutor(nproc, mp_context=mp.get_context("fork")) as ex:
            for r in ex.map(_work, [(c, kw) for c in order], chunksize=1):
                results.append(r)
    except BrokenProcessPool as e:
        print("ERROR: a worker process died: %s" % e)
        return 2
    errors = [r for r in results if r.error]
    pos = {engine.cfg_name(c): i for i, c in enumerate(cfgs)}
    results.sort(key=lambda r: pos[engine.cfg_name(r.cfg)])

    known = known_findings(prop)
    seen_known, new = {}, []
    for r in results:
        for v in r.violations:
            if v["key"] in known:
                seen_known[v["key"]] = v
            else:
                new.append(v)
    capped = [r for r in results if r.capped]
    digests = set()
    extra = {}
    for r in results:
        digests |= r.digests
        for k, v in r.extra.items():
            extra[k] = extra.get(k, 0) + v
    big = sorted(results, key=lambda r: -r.states)[:2] + results[:2]
    cov = {
        "states": sum(r.states for r in results),
        "transitions": sum(r.transitions for r in results),
        "traces_validated_against_impl": sum(r.traces for r in results),
        "configurations": len(results),
        "model_comparisons": sum(r.compares for r in results),
        "distinct_observed_behaviours": len(digests),
        "exhaustive": not capped and not errors,
        "capped_configurations": [engine.cfg_name(r.cfg) for r in capped][:20],
        "bounds": getattr(mod, "BOUNDS", {}).get(tier, getattr(mod, "BOUNDS", {}).get("quick", "")),
        "rule": "state = node of the choice tree (configuration, operation history); transition = call into "
                "the implementation; trace = complete execution of the real code compared with the reference model",
        "samples": [{"configuration": r.cfg, "leaf": r.sample, "states": r.states, "traces": r.traces}
                    for r in big if r.sample is not None],
    }
    cov.update(extra)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": cov, "wall_s": round(time.time() - t0, 2), "violations": len(new),
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])) + [
              "floating point agreement within the stated tolerance",
              "nothing outside the stated bounds is claimed"]}
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)

    print("%s %s: configurations=%d states=%d transitions=%d traces=%d comparisons=%d outcomes=%d wall=%.1fs%s"
          % (prop, tier, len(results), cov["states"], cov["transitions"],
             cov["traces_validated_against_impl"], cov["model_comparisons"], len(digests),
             ev["wall_s"], " CAPPED" if capped else ""))
    if os.environ.get("VERIF_VERBOSE"):
        for r in sorted(results, key=lambda r: -r.wall)[:12]:
            print("   %.1fs %s" % (r.wall, engine.cfg_name(r.cfg)))
    for k, v in sorted(seen_known.items()):
        print("KNOWN-FINDING: property=%s %s :: %s" % (prop, k, known[k]))
    if errors:
        for r in errors[:5]:
            print("ERROR in harness: %s %s" % (engine.cfg_name(r.cfg), r.error))
        if not new:
            return 2
    if new:
        d = os.path.join(ROOT, "replays")
        os.makedirs(d, exist_ok=True)
        for i, v in enumerate(new):
            path = os.path.join(d, "%s-%d.json" % (prop, i))
            if i < 20:
                with open(path, "w") as f:
                    json.dump(dict(v, property=prop, tier=tier,
                                   how="python run_check.py %s --replay <this file>" % prop), f, indent=1, default=str)
                print("VIOLATION property=%s replay=%s" % (prop, path))
                print("   %s\n   %s\n   after %s" % (v["key"], v["msg"], " ; ".join(v["trail"])))
        return 1
    return 0


def detuple(x):
    return tuple(detuple(y) for y in x) if isinstance(x, list) else x
