#!/usr/bin/env python3
"""
Runs the check of one property:  check.py PROP [--tier quick|thorough] [--runs N]

Exit 0: the property held in every simulated run.  Exit 1, with a VIOLATION
line: a run violated it; the replay file reproduces it.  Exit 3: the simulator
itself failed, which is no verdict.
"""

import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
PY = os.environ.get("VERIF_PYTHON") or (
    "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable)
NSHARDS = 8


def load_known(prop):
    path = os.path.join(HERE, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if not line or line.startswith("#") or line.startswith("fixed:"):
                    continue
                doc = json.loads(line)
                if doc.get("property") == prop:
                    out.append(doc)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--no-evidence", action="store_true")
    args = ap.parse_args()
    prop, seed = args.prop, args.seed
    tier = "thorough" if args.tier == "thorough" else "quick"
    sys.path.insert(0, HERE)
    meta = json.loads(subprocess.run(
        [PY, "-c", "import sys,json;sys.path.insert(0,%r);import props_meta as m;"
         "print(json.dumps(m.META[%r]))" % (HERE, prop)],
        check=True, capture_output=True, text=True).stdout)
    total = args.runs or meta["runs"][tier]
    limit = 420 if tier == "quick" else 3300
    known = load_known(prop)
    replay_dir = os.environ.get("VERIF_REPLAY_DIR") or os.path.join(HERE, "replays")
    os.makedirs(replay_dir, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="vsim-")
    started = time.time()
    procs = []
    try:
        for shard in range(NSHARDS):
            env = dict(os.environ)
            env.update(
                PYTHONHASHSEED=str((seed * 1000003 + shard * 7919) % 4294967295),
                PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"),
                PYTHONPATH=HERE,
                VERIF_REPLAY_DIR=replay_dir,
                VERIF_KNOWN=json.dumps([k["signature"] for k in known]),
                PYTHONDONTWRITEBYTECODE="",
                HOME=scratch, TMPDIR=scratch,
            )
            out = open(os.path.join(scratch, f"out{shard}"), "w+")
            procs.append((shard, out, subprocess.Popen(
                [PY, "-m", "sim.worker", prop, str(seed), tier, str(shard),
                 str(NSHARDS), str(total), str(limit)],
                cwd=HERE, env=env, stdout=out)))
        results, errors = [], []
        hard = started + limit + 360
        violated = False
        pending = list(procs)
        grace = None
        while pending:
            for item in list(pending):
                shard, out, p = item
                if p.poll() is None:
                    continue
                pending.remove(item)
                out.seek(0)
                text = out.read()
                try:
                    res = json.loads(text)
                except ValueError:
                    errors.append(f"shard {shard} ended with code {p.returncode}: {text[-500:]}")
                    continue
                results.append(res)
                if res["violation"]:
                    violated = True
            if violated and pending and grace is None:
                grace = time.time() + 20
            if pending and (time.time() > hard or (grace and time.time() > grace)):
                for shard, out, p in pending:
                    p.kill()
                    p.wait()
                    if not violated:
                        errors.append(f"shard {shard} exceeded the time limit")
                pending = []
            time.sleep(0.05)
    finally:
        for shard, out, p in procs:
            if p.poll() is None:
                p.kill()
                p.wait()
            out.close()
        shutil.rmtree(scratch, ignore_errors=True)
    wall = time.time() - started

    agg = {k: Counter() for k in ("stats", "faults", "known_hits")}
    num = Counter()
    digests, nontrivial, samples, violations = set(), set(), [], []
    for res in results:
        for k in agg:
            agg[k].update(res[k])
        for k in ("runs", "sim_ns", "steps", "faulty_runs", "plain_runs", "determinism_pairs", "planned"):
            num[k] += res[k]
        digests.update(res["digests"])
        nontrivial.update(res["nontrivial"])
        samples.extend(res["samples"])
        if res["violation"]:
            violations.append(res["violation"])
        if res["error"]:
            errors.append(res["error"])
    reach = {k[6:]: v for k, v in sorted(agg["stats"].items()) if k.startswith("reach:")}
    other = {k: v for k, v in sorted(agg["stats"].items()) if not k.startswith("reach:")}
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": num["runs"],
            "distinct_nontrivial": len(nontrivial),
            "rule": meta["rule"],
            "samples": samples[:4],
            "simulated_runs": num["runs"],
            "simulated_runs_planned": num["planned"],
            "seeds_per_hour": round(num["runs"] / wall * 3600) if wall else 0,
            "simulated_seconds": round(num["sim_ns"] / 1e9, 6),
            "scheduler_steps": num["steps"],
            "runs_with_faults_fired": num["faulty_runs"],
            "runs_without_faults": num["plain_runs"],
            "faults_fired": dict(sorted(agg["faults"].items())),
            "distinct_event_traces": len(digests),
            "reached": reach,
            "activity": other,
            "reruns_compared_for_determinism": num["determinism_pairs"],
            "known_findings_hit": dict(agg["known_hits"]),
            "components": meta["components"],
        },
        "assumptions": meta["assumptions"],
        "violations": [
            {"run": v["run"], "signature": v["sig"], "replay": v["replay"]} for v in violations],
        "wall_s": round(wall, 3),
    }
    if not args.no_evidence:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
    print(
        f"{prop} {tier} seed={seed}: {num['runs']} runs, {len(nontrivial)} distinct "
        f"non-trivial, faults {dict(sorted(agg['faults'].items()))}, {wall:.1f} s")
    for k in known:
        if agg["known_hits"].get(k["signature"]):
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if violations:
        v = min(violations, key=lambda v: v["run"])
        print(f"violation {v['sig']} in run {v['run']}\n{v['message'][-1500:]}")
        env = dict(os.environ, PYTHONPATH=HERE)
        env.pop("PYTHONHASHSEED", None)
        env["PYTHONPYCACHEPREFIX"] = os.path.join(tempfile.gettempdir(), "vsim-none")
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        try:
            r = subprocess.run(
                [PY, "-m", "sim.replay", v["replay"]], cwd=HERE, env=env,
                capture_output=True, text=True, timeout=150)
            print("fresh-process " + (r.stdout.strip().splitlines() or ["replay: no output"])[0])
        except subprocess.TimeoutExpired:
            print("fresh-process replay: timed out")
        print(f"VIOLATION property={prop} replay={v['replay']}")
        return 1
    if errors:
        print("HARNESS-ERROR " + "\n".join(errors)[-3000:])
        return 3
    if num["runs"] < min(total, max(1, total // 4)):
        print(f"HARNESS-ERROR only {num['runs']} of {total} runs fitted into the time limit")
        return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
