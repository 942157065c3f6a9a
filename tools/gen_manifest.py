"""Writes /verif/MANIFEST.json from props_meta.py and properties.jsonl."""
import json, os, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import props_meta

NA = {
    "N01": "A pure function of key and value: no concurrency, time, I/O or multi-party behaviour for the result to depend on, so a simulated schedule or fault sequence adds nothing; deciding it needs exhaustive or algebraic reasoning over inputs.",
    "N02": "A pure function of its inputs with no schedule, clock, I/O or peer to simulate; injectivity is a statement over all inputs.",
    "N03": "A pure function of its inputs; separation of outputs is a cryptographic statement over inputs, not over schedules or faults.",
    "N04": "A pure function of its inputs; round trips and rejection of malformed text have no schedule, clock, I/O or peer to simulate.",
}
checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)
    m = props_meta.META.get(p["id"])
    if m is None:
        na.append({"property": p["id"], "reason": NA.get(p["id"], "no check has been built for this property yet")})
        continue
    base = f"/opt/venv/bin/python /verif/check.py {p['id']}"
    checks.append({
        "property": p["id"],
        "quick_cmd": base + " --tier quick",
        "thorough_cmd": base + " --tier thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": "deterministic simulation with fault injection: seeded search over schedules and fault sequences, oracle checked during and after every simulated run, minimised replay file per violation",
        "level": "exploration",
        "level_note": m.get("note") or f"{m['runs']['quick']} seeded runs in the quick tier, {m['runs']['thorough']} in the thorough tier; no claim beyond the runs made",
    })
doc = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -c \"import aiofiles, cryptography\"",
    "checks": checks,
    "not_applicable": na,
    "notes": "One integer (VERIF_SEED) decides every run. Replay a violation with: cd /verif && /opt/venv/bin/python -m sim.replay <file> [-v]. No hooks are needed in /repo; the simulator replaces os, io, time, asyncio loop, threads, process pools and OS randomness before importing aiootp.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
