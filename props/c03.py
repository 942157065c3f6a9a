"""C03: salt files stay whole, stable and unreadable at rest under concurrency."""

import asyncio
import errno
import hashlib
import time

from sim.actors import code, gen_cfg, run_actors
from sim.lin import History, TooHard, describe, linearizable

import aiootp
from aiootp import _paths as P

SHRINK = ["actors", "read_faults"]
ROOT = "/sim/db"


def gen(rng, tier):
    cfg = gen_cfg(rng)
    n_keys = rng.choice([1, 1, 2])
    mix = rng.choice([
        ["open"], ["open", "open", "read"], ["open", "read", "update"],
        ["open", "read", "update", "delete"], ["read", "read", "update", "delete", "open"],
    ])
    actors = []
    p_rel = rng.choice([0, 0, 0.5])     # paths relative to the working directory
    for i in range(rng.randint(2, 7)):
        ops = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            ops.append({
                "op": rng.choice(mix), "key": rng.randrange(n_keys),
                "pre": rng.choice([0, 0, 0, 1e-5, 2e-4, 1e-3]),
                "salt": rng.getrandbits(40),
                "size": rng.choice([32, 32, 33, 64, 9000]),
                "rel": rng.random() < p_rel,
            })
        actors.append({"place": rng.randrange(3), "ops": ops})
    read_faults = []
    if rng.random() < 0.25:
        for _ in range(rng.choice([1, 2])):
            read_faults.append({
                "at": rng.randrange(60), "kind": rng.choice(["eio", "short_read"]),
                "arg": rng.randrange(50)})
    return {
        "cfg": cfg, "n_keys": n_keys, "actors": actors, "read_faults": read_faults,
        "present": rng.random() < 0.4, "dirs": rng.random() < 0.5,
        "admin": rng.random() < 0.3,
    }


def simplify(plan):
    for i, a in enumerate(plan["actors"]):
        for j in range(len(a["ops"])):
            p = {**plan, "actors": [dict(x, ops=list(x["ops"])) for x in plan["actors"]]}
            del p["actors"][i]["ops"][j]
            if p["actors"][i]["ops"]:
                yield p


def run(w, plan):
    fs = w.fs
    fs.cwd = "/sim"
    fs.mkdir(ROOT)
    admin = plan["admin"]
    if plan["dirs"] or plan["present"]:
        fs.mkdir(ROOT + "/secure")
        if admin:
            fs.mkdir(ROOT + "/secure/_admin")
    keys = [hashlib.sha256(b"key%d" % k).digest() for k in range(plan["n_keys"])]
    base = P.AdminPath(ROOT) if admin else P.SecurePath(ROOT)
    paths = [P._find_salt_file(base, key=k) for k in keys]
    first = {}
    if plan["present"]:
        for k, path in enumerate(paths):
            first[k] = hashlib.sha256(b"first%d" % k).digest()
            fs.poke(str(path), first[k])
            fs.nodes[str(path)].mode = 0
    fs.n_read = 0
    for f in plan["read_faults"]:
        fs.read_faults[f["at"]] = f
    hist = {k: History(w) for k in range(plan["n_keys"])}
    under_way = [0]

    def salt_of(op):
        return hashlib.shake_128(b"%d" % op["salt"]).digest(op["size"])

    def outcome(e):
        if isinstance(e, FileNotFoundError):
            return "missing"
        if isinstance(e, OSError) and e.errno == errno.EIO:
            w.fault("read_error_reported")
            return "eio"
        w.fail_exc("unexpected-exception", e)

    def begin():
        under_way[0] += 1

    def finish():
        under_way[0] -= 1
        if not under_way[0]:
            at_rest()

    def at_rest():
        for path in paths:
            node = w.fs.nodes.get(str(path))
            if node is not None and node.mode & 0o777:
                w.fail(
                    "readable-at-rest",
                    f"{path} has permission bits {oct(node.mode)} while no operation runs")

    async def a_do(h, who, op, name, arg, fn):
        begin()
        rec = h.start(who, name, arg)
        try:
            res = await fn()
        except Exception as e:
            res = outcome(e)
        h.end(rec, res)
        finish()
        return res

    def s_do(h, who, op, name, arg, fn):
        begin()
        rec = h.start(who, name, arg)
        try:
            res = fn()
        except Exception as e:
            res = outcome(e)
        h.end(rec, res)
        finish()
        return res

    async def a_actor(i):
        for j, op in enumerate(plan["actors"][i]["ops"]):
            await asyncio.sleep(op["pre"])
            who, k = f"a{i}.{j}", op["key"]
            h, path, root = hist[k], paths[k], ROOT
            if op["rel"]:
                path, root = path.relative_to(fs.cwd), root.removeprefix(fs.cwd + "/")
            if op["op"] == "open":
                async def ensure():
                    p = await P.AsyncSecureSaltPath(root, key=keys[k], _admin=admin)
                    w.check(p == paths[k], "wrong-path", lambda: f"{p} is not {paths[k]}")
                    return "ok"
                if await a_do(h, who, op, "ensure", None, ensure) == "ok":
                    await a_do(h, who, op, "read", None, lambda: P._aread_salt_file(path))
            elif op["op"] == "read":
                await a_do(h, who, op, "read", None, lambda: P._aread_salt_file(path))
            elif op["op"] == "update":
                salt = salt_of(op)
                await a_do(h, who, op, "update", salt, lambda: P._aupdate_salt_file(path, salt=salt))
            else:
                await a_do(h, who, op, "delete", None, lambda: P._adelete_salt_file(path))

    def s_actor(i):
        for j, op in enumerate(plan["actors"][i]["ops"]):
            w.sync_point("between")
            if op["pre"]:
                time.sleep(op["pre"])
            who, k = f"a{i}.{j}", op["key"]
            h, path, root = hist[k], paths[k], ROOT
            if op["rel"]:
                path, root = path.relative_to(fs.cwd), root.removeprefix(fs.cwd + "/")
            if op["op"] == "open":
                def ensure():
                    p = P.SecureSaltPath(root, key=keys[k], _admin=admin)
                    w.check(p == paths[k], "wrong-path", lambda: f"{p} is not {paths[k]}")
                    return "ok"
                if s_do(h, who, op, "ensure", None, ensure) == "ok":
                    s_do(h, who, op, "read", None, lambda: P._read_salt_file(path))
            elif op["op"] == "read":
                s_do(h, who, op, "read", None, lambda: P._read_salt_file(path))
            elif op["op"] == "update":
                salt = salt_of(op)
                s_do(h, who, op, "update", salt, lambda: P._update_salt_file(path, salt=salt))
            else:
                s_do(h, who, op, "delete", None, lambda: P._delete_salt_file(path))

    run_actors(
        w, len(plan["actors"]), a_actor, s_actor, lambda i: plan["actors"][i]["place"],
        trace=code("_paths.py", "asynchs/guards"))
    w.fs.read_faults = {}
    at_rest()
    for k in range(plan["n_keys"]):
        ops = list(hist[k].ops)
        # what is on disk at the end is what the last operation left
        rec = hist[k].start("end", "read")
        data = w.fs.peek(str(paths[k]))
        hist[k].end(rec, "missing" if data is None else data)
        ops.append(rec)
        updates = {o["arg"] for o in ops if o["name"] == "update"}
        initial = ("val", first[k]) if k in first else ("absent",)

        def step(state, op):
            name, res = op["name"], op["res"]
            if res == "eio":        # a read fault: nothing changed, or it did
                if name == "ensure" and state[0] == "absent":
                    return [state, ("new",)]
                return [state]
            if name == "ensure":
                return [("new",)] if state[0] == "absent" else [state]
            if name == "read":
                if state[0] == "absent":
                    return [state] if res == "missing" else []
                if state[0] == "val":
                    return [state] if res == state[1] else []
                ok = isinstance(res, bytes) and len(res) >= 32 and res not in updates
                return [("val", res)] if ok and res != first.get(k) else []
            if state[0] == "absent":
                return [state] if res == "missing" else []
            if res == "missing":
                return []
            return [("val", op["arg"])] if name == "update" else [("absent",)]

        try:
            ok = linearizable(ops, initial, step)
        except TooHard:
            w.reach("history_too_hard")
            ok = True
        w.check(ok, "not-linearizable", lambda: "no order of the operations explains:\n" + describe(ops))
    left = [p for p in w.fs.files(ROOT) if p not in map(str, paths)]
    w.check(not left, "stray-files", lambda: f"left behind: {left}")
