"""`python -m sim.replay FILE`: re-executes a replay file; exit 1 when it reproduces."""

import json
import os
import sys

if __name__ == "__main__":
    path = sys.argv[1]
    with open(path) as f:
        doc = json.load(f)
    want = str(doc["hashseed"])
    if os.environ.get("PYTHONHASHSEED") != want and want != "random":
        env = dict(os.environ, PYTHONHASHSEED=want)
        os.execve(sys.executable, [sys.executable, "-m", "sim.replay", *sys.argv[1:]], env)
    from . import engine

    mod = engine.load(doc["property"])
    out = engine.execute(mod, doc["plan"], doc["run_seed"], doc["choices"])
    fail = out["fail"]
    if fail is None:
        print("replay: no violation")
        os._exit(0)
    same = fail["sig"] == doc["violation"]["sig"] and out["digest"] == doc["digest"]
    print(f"replay: {fail['sig']} ({'exactly as recorded' if same else 'differs from the record'})")
    if "-v" in sys.argv:
        print(fail["message"])
        print("\n".join(out["log"]))
    print(f"VIOLATION property={doc['property']} replay={path}")
    sys.stdout.flush()
    os._exit(1 if same else 2)
