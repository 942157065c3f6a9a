"""C22: salt files and the package seed survive crashes and disk faults."""

import asyncio
import copy
import hashlib

from sim import boot
from sim import loop as L
from sim.fs import SimCrash

SHRINK = ["lives"]
ROOT = "/sim/db"
ABSENT, NEW = "absent", "new"
KINDS = (
    ["crash_before"] * 3 + ["crash_after"] * 2 + ["crash_torn"] * 4
    + ["eio", "eio", "enospc", "full", "full", "short_write", "cancel"]
)


def gen(rng, tier):
    p_fault = rng.choice([0.2, 0.5, 0.8])
    lives = []
    for _ in range(rng.choice([1, 2, 3])):
        ops = []
        for _ in range(rng.choice([1, 3, 6])):
            op = {"op": rng.choice(["open", "open", "read", "update", "update", "update", "delete"]),
                  "key": rng.randrange(2), "async": rng.random() < 0.5,
                  "salt": rng.getrandbits(40), "size": rng.choice([32, 32, 64, 9000])}
            if rng.random() < p_fault:
                op["fault"] = fault(rng)
            ops.append(op)
        life = {"ops": ops, "start": rng.random() < 0.3}
        if life["start"] and rng.random() < 0.7:
            life["fault"] = fault(rng)
        lives.append(life)
    return {
        "cfg": {"reorder": rng.choice([0, 0.5]), "jitter": 0, "exec_spread": rng.choice([0, 0.5, 0.9]), "exec_n": 6},
        "admin": rng.random() < 0.3, "lives": lives,
    }


def fault(rng):
    kind = rng.choice(KINDS)
    return {"k": rng.randrange(40) if kind == "cancel" else rng.choice([0, 0, 1, 1, 2, 2, 3, 4, 5, 6, 8]),
            "kind": kind, "arg": rng.randrange(1 << 16), "read": kind == "eio" and rng.random() < 0.4}


def simplify(plan):
    for i, life in enumerate(plan["lives"]):
        for k, op in enumerate(life["ops"]):
            p = copy.deepcopy(plan)
            del p["lives"][i]["ops"][k]
            yield p
            if "fault" in op:
                p = copy.deepcopy(plan)
                del p["lives"][i]["ops"][k]["fault"]
                yield p


def nontrivial(out):
    return out["stats"].get("reach:read_after_fault", 0) > 0 or out["stats"].get("reach:started_after_fault", 0) > 0


def salt_of(op):
    return hashlib.shake_256(b"%d" % op["salt"]).digest(op["size"])


def run(w, plan):
    w.fs.mkdir(ROOT)
    w.extra = {"may": [[ABSENT], [ABSENT]], "hurt": [False, False], "start_hurt": False}
    for life in plan["lives"]:
        w.lifetime(lambda child: one_life(child, plan, life))
    w.lifetime(lambda child: last_life(child, plan))


def last_life(w, plan):
    calm(w)
    if any(life["start"] for life in plan["lives"]):
        start(w, None)
    for key in (0, 1):
        step(w, plan, {"op": "read", "key": key, "async": False})
        step(w, plan, {"op": "open", "key": key, "async": False})
        step(w, plan, {"op": "update", "key": key, "async": True, "salt": key, "size": 40})
        step(w, plan, {"op": "read", "key": key, "async": True})
        step(w, plan, {"op": "delete", "key": key, "async": False})
        step(w, plan, {"op": "read", "key": key, "async": False})


def one_life(w, plan, life):
    calm(w)
    if life["start"]:
        start(w, life.get("fault"))
    for op in life["ops"]:
        step(w, plan, op)


def calm(w):
    w.fs.full = False
    w.fs.faults, w.fs.read_faults = {}, {}


def arm(w, fault):
    """Plans a file system fault; returns when to cancel the call, if at all."""
    if fault is None:
        return None
    w.reach("fault_planned")
    if fault["kind"] == "cancel":
        return fault["k"]
    if fault["read"]:
        w.fs.read_faults = {w.fs.n_read + fault["k"]: fault}
    else:
        w.fs.faults = {w.fs.n_mut + fault["k"]: fault}
    return None


def fired(w, mark):
    """Whether the planned fault has come to pass."""
    return len(w.fs.fired) > mark or w.fs.full


def start(w, fault):
    """The package is imported, as by a new process."""
    hurt = w.extra["start_hurt"]
    arm(w, fault)
    mark = len(w.fs.fired)
    w.extra["start_hurt"] = hurt or fault is not None
    try:
        boot.import_again(w)
    except SimCrash:
        raise
    except Exception as e:
        if not fired(w, mark):
            w.fail_exc("does-not-start", e)
        w.event("start failed")
        calm(w)
        boot.import_again(w)
    calm(w)
    w.event("started")
    if hurt:
        w.reach("started_after_fault")


def step(w, plan, op):
    from aiootp import _paths as P
    key, name = op["key"], op["op"]
    may = w.extra["may"][key]
    salt_key = hashlib.sha256(b"%d" % key).digest()
    admin = plan["admin"]
    path = P._find_salt_file(P.AdminPath(ROOT) if admin else P.SecurePath(ROOT), key=salt_key)
    # what the file may hold if this call does not come back
    after = {"open": [NEW if x == ABSENT else x for x in may], "update": [salt_of(op)] if name == "update" else [],
             "delete": [ABSENT], "read": may}[name]
    torn = may + [x for x in after if x not in may]
    if name == "update" and may == [ABSENT]:
        torn = may
    fault = op.get("fault")
    w.extra["may"][key] = torn
    w.extra["hurt"][key] = w.extra["hurt"][key] or fault is not None
    mark = len(w.fs.fired)
    cancel = arm(w, fault)
    sync = {
        "open": lambda: P.SecureSaltPath(ROOT, key=salt_key, _admin=admin),
        "read": lambda: P._read_salt_file(path),
        "update": lambda: P._update_salt_file(path, salt=salt_of(op)),
        "delete": lambda: P._delete_salt_file(path)}
    asyn = {
        "open": lambda: P.AsyncSecureSaltPath(ROOT, key=salt_key, _admin=admin),
        "read": lambda: P._aread_salt_file(path),
        "update": lambda: P._aupdate_salt_file(path, salt=salt_of(op)),
        "delete": lambda: P._adelete_salt_file(path)}
    try:
        if op["async"]:
            result = L.run(w, cancelled_after(w, asyn[name](), cancel))
        else:
            result = sync[name]()
        error = None
    except SimCrash:
        raise
    except (Exception, asyncio.CancelledError) as e:
        result, error = None, e
    hit = fired(w, mark) or isinstance(error, asyncio.CancelledError)
    calm(w)
    w.event(f"{name} {key} {type(error).__name__} {'hit' if hit else ''}")
    if error is None:
        if name == "read":
            w.check(type(result) is bytes and len(result) >= 32, "short-salt", lambda: f"read returned {result!r}")
            w.check(result in may or NEW in may, "salt-lost", lambda: (
                f"reading salt {key} returned {result[:8].hex()}..., expected {shown(may)}"))
            w.extra["may"][key] = [result]
            if w.extra["hurt"][key]:
                w.reach("read_after_fault")
        elif name == "open":
            # the next read tells which one it is
            w.extra["may"][key] = after
        elif name == "update":
            w.check(may != [ABSENT], "updated-nothing", f"updating salt {key} succeeded although there was none")
            w.extra["may"][key] = after
        else:
            w.check(may != [ABSENT], "deleted-nothing", f"deleting salt {key} succeeded although there was none")
            w.extra["may"][key] = after
        node = w.fs.nodes.get(str(path))
        if name in ("read", "update"):
            w.check(not node.mode & 0o777, "readable-at-rest", lambda: f"mode {oct(node.mode)} after {name}")
        return
    if isinstance(error, FileNotFoundError) and not hit:
        w.check(ABSENT in may and name != "open", "salt-lost", lambda: (
            f"{name} of salt {key} found no file, expected {shown(may)}"))
        w.extra["may"][key] = [ABSENT]
        if w.extra["hurt"][key]:
            w.reach("read_after_fault")
        return
    if not hit:
        w.fail_exc(f"{name}-failed", error)
    w.reach("fault_reported")


async def cancelled_after(w, coro, steps):
    task = asyncio.ensure_future(coro)
    if steps is None:
        return await task
    for _ in range(steps):
        if task.done():
            break
        await asyncio.sleep(0)
    else:
        if not task.done():
            w.fault("cancelled")
            task.cancel()
    return await task


def shown(may):
    return [x if isinstance(x, str) else x[:8].hex() + "..." for x in may]
