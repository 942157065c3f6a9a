"""Executes, shrinks and replays simulated runs of one property."""

import copy
import importlib
import json
import os
import random
import sys
import time
import traceback

from . import boot  # noqa: F401  (must come first)
from . import world as W
from .choices import derive
from .fs import SimCrash

_clock = W._real_monotonic


def load(prop):
    return importlib.import_module("props." + prop.lower())


def run_seed(prop, seed, index):
    return derive("run", prop, seed, index)


def make_plan(mod, prop, seed, index, tier):
    rng = random.Random(derive("plan", prop, seed, index))
    plan = mod.gen(rng, tier)
    return json.loads(json.dumps(plan))     # only what a replay file can hold


def execute(mod, plan, seed, recorded=None, timeout=120.0):
    """Runs one simulation in a forked child; the result dict, always."""

    def body():
        w = W.World(seed, recorded, fs=boot.fresh_fs(), cfg=dict(plan.get("cfg") or {}, **extra))
        with w.active():
            try:
                mod.run(w, plan)
            except W.HarnessError:
                raise
            except SimCrash as e:
                raise W.HarnessError("crash outside a lifetime") from e
            except Exception as e:
                if W.through_aiootp(e):
                    w.fail_exc("unexpected-exception", e)
                raise
        return w.result()

    extra = {}
    status, out = W.in_child(body, timeout)
    if status == "ok" and out["fail"] and out["fail"]["sig"] == W.NEED_THREADS:
        extra = {"exec_threads": True}
        status, out = W.in_child(body, timeout)
    if status == "ok":
        return out
    if status == "hang":
        return {
            "fail": {"sig": "hang", "message": f"the run did not end in {timeout} s of real time"},
            "digest": "hang", "sched": "hang", "log": [], "choices": recorded or {},
            "stats": {}, "faults": {}, "sim_ns": 0, "steps": 0, "ret": None, "extra": {},
        }
    raise W.HarnessError(out)


# --------------------------------------------------------------- minimising
def _ddmin(items, test, deadline):
    """Smallest sub-list found for which test(sub-list) holds."""
    n = 2
    while items and _clock() < deadline:
        size = max(1, len(items) // n)
        reduced = False
        start = 0
        while start < len(items) and _clock() < deadline:
            trial = items[:start] + items[start + size:]
            if test(trial):
                items = trial
                reduced = True
            else:
                start += size
        if size == 1 and not reduced:
            break
        if not reduced:
            n = min(len(items), n * 2) or 1
        elif size == 1:
            n = len(items) or 1
    return items


def minimise(mod, plan, seed, fail, budget=75.0):
    """Shrinks plan lists, then schedule choices, keeping the same violation."""
    deadline = _clock() + budget
    sig = fail["sig"]
    per_run = 30.0 if sig == "hang" else 60.0

    def same(p, rec=None):
        try:
            out = execute(mod, p, seed, rec, timeout=per_run)
        except W.HarnessError:
            return None
        return out if out["fail"] and out["fail"]["sig"] == sig else None

    if sig == "hang":
        deadline = _clock() + 30
    plan = copy.deepcopy(plan)
    for _ in range(2):
        before = json.dumps(plan)
        for key in getattr(mod, "SHRINK", ()):
            path = key.split(".")
            holder = plan
            for part in path[:-1]:
                holder = holder.get(part, {})
            if not isinstance(holder.get(path[-1]), list):
                continue

            def test(trial, path=path):
                p = copy.deepcopy(plan)
                h = p
                for part in path[:-1]:
                    h = h[part]
                h[path[-1]] = trial
                return same(p) is not None

            small = _ddmin(list(holder[path[-1]]), test, deadline)
            holder[path[-1]] = small
        for p in getattr(mod, "simplify", lambda plan: ())(plan):
            if _clock() > deadline:
                break
            if same(p):
                plan = p
        if json.dumps(plan) == before or _clock() > deadline:
            break
    out = same(plan)
    if out is None:
        return plan, None, None
    rec = out["choices"]
    if same(plan, rec) is None:
        return plan, None, out
    # schedule: drop whole streams, then chunks
    for stream in sorted(rec):
        if _clock() > deadline:
            break
        trial = {k: v for k, v in rec.items() if k != stream}
        if same(plan, trial):
            rec = trial
    for stream in sorted(rec):
        vals = list(rec[stream])
        chunk = max(1, len(vals) // 2)
        while _clock() < deadline:
            changed = False
            for start in range(0, len(vals), chunk):
                if _clock() > deadline:
                    break
                part = vals[start:start + chunk]
                if not any(part):
                    continue
                trial_vals = vals[:start] + [0] * len(part) + vals[start + chunk:]
                if same(plan, dict(rec, **{stream: trial_vals})):
                    vals = trial_vals
                    rec = dict(rec, **{stream: vals})
                    changed = True
            if chunk == 1:
                break
            if not changed or chunk > 1:
                chunk = max(1, chunk // 2)
        while vals and vals[-1] == 0:
            vals.pop()
        rec = dict(rec, **{stream: vals})
    out = same(plan, rec)
    return plan, rec, out


def write_replay(path, prop, seed, index, run_seed_, plan, recorded, out, hashseed):
    doc = {
        "property": prop,
        "verif_seed": seed,
        "run_index": index,
        "run_seed": run_seed_,
        "hashseed": hashseed,
        "plan": plan,
        "choices": recorded,
        "violation": out["fail"],
        "digest": out["digest"],
        "trace": out["log"],
    }
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        json.dump(doc, f, indent=1)
