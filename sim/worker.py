"""One shard of a check: `python -m sim.worker PROP SEED TIER SHARD NSHARDS TOTAL DEADLINE_S`."""

import json
import os
import sys
import traceback
from collections import Counter

from . import engine
from . import world as W
from .engine import _clock


def main():
    prop, seed, tier, shard, nshards, total, limit = sys.argv[1:8]
    seed, shard, nshards, total = int(seed), int(shard), int(nshards), int(total)
    deadline = _clock() + float(limit)
    replay_dir = os.environ["VERIF_REPLAY_DIR"]
    known = json.loads(os.environ.get("VERIF_KNOWN", "[]"))
    mod = engine.load(prop)
    hashseed = os.environ.get("PYTHONHASHSEED", "random")
    agg = {
        "runs": 0, "stats": Counter(), "faults": Counter(), "sim_ns": 0, "steps": 0,
        "digests": set(), "nontrivial": set(), "faulty_runs": 0, "plain_runs": 0,
        "samples": [], "violation": None, "known_hits": Counter(), "error": None,
        "determinism_pairs": 0, "truncated": False, "planned": 0,
    }
    try:
        for index in range(shard, total, nshards):
            agg["planned"] += 1
            if _clock() > deadline:
                agg["truncated"] = True
                continue
            plan = engine.make_plan(mod, prop, seed, index, tier)
            rseed = engine.run_seed(prop, seed, index)
            out = engine.execute(mod, plan, rseed)
            if out["fail"] and out["fail"]["sig"] == "hang":
                # one more try with far more patience before calling it a hang
                out = engine.execute(mod, plan, rseed, timeout=240.0)
            agg["runs"] += 1
            agg["sim_ns"] += out["sim_ns"]
            agg["steps"] += out["steps"]
            agg["stats"].update(out["stats"])
            agg["faults"].update(out["faults"])
            agg["digests"].add(out["digest"][:16])
            if out["faults"]:
                agg["faulty_runs"] += 1
            else:
                agg["plain_runs"] += 1
            if getattr(mod, "nontrivial", _nontrivial)(out):
                agg["nontrivial"].add(out["sched"][:16])
            if len(agg["samples"]) < 1 and index < nshards * 2:
                agg["samples"].append({
                    "run": index, "run_seed": rseed,
                    "plan": _brief(plan), "digest": out["digest"],
                    "steps": out["steps"], "faults": out["faults"],
                })
            if index // nshards in (0, 7, 31):
                again = engine.execute(mod, plan, rseed)
                agg["determinism_pairs"] += 1
                if again["digest"] != out["digest"] and not out["fail"]:
                    raise W.HarnessError(
                        f"run {index} is not deterministic: {out['digest']} != {again['digest']}")
            if out["fail"]:
                sig = out["fail"]["sig"]
                if sig in known:
                    agg["known_hits"][sig] += 1
                    continue
                sys.stderr.write(f"[{prop}] run {index}: {sig}\n{out['fail']['message']}\n")
                small, rec, final = engine.minimise(mod, plan, rseed, out["fail"])
                if final is None:
                    small, rec, final = plan, out["choices"], out
                path = os.path.join(replay_dir, f"{prop}-seed{seed}-run{index}.json")
                engine.write_replay(path, prop, seed, index, rseed, small, rec, final, hashseed)
                agg["violation"] = {
                    "run": index, "sig": sig, "message": final["fail"]["message"],
                    "replay": path,
                }
                break
    except W.HarnessError as e:
        agg["error"] = str(e)
    except Exception:
        agg["error"] = traceback.format_exc()
    agg["digests"] = sorted(agg["digests"])
    agg["nontrivial"] = sorted(agg["nontrivial"])
    json.dump(agg, sys.stdout)
    sys.stdout.flush()
    os._exit(0)


def _nontrivial(out):
    return bool(out["faults"]) or out["stats"].get("reach:overlap", 0) > 0


def _brief(plan):
    text = json.dumps(plan)
    return json.loads(text) if len(text) < 3000 else {"excerpt": text[:3000]}


main()
