"""C26: when an asynchronous call has ended, nothing of it goes on."""

import asyncio
import copy
import gc
from pathlib import Path

from sim import loop as L

from . import dbsim as D
from .passwords import use_less_memory

from aiootp import AsyncDatabase
from aiootp import _paths as P

SHRINK = ["ops"]
KEY = b"\x44" * 64
KINDS = (["save"] * 5 + ["exit"] * 2 + ["load"] * 3 + ["put", "save_tag", "query", "pop", "rollback", "clear"]
         + ["delete_sub", "delete", "salt", "salt", "profile", "delete_profile"])
SALT_OPS = ["make", "read", "update", "delete", "secure"]


def gen(rng, tier):
    m, t, s = D.METAS
    places = [[], [], [m], [t], [m, t], [m, t, s]][:rng.choice([1, 3, 4, 6])]
    tags = D.TAGS[:rng.choice([2, 4, 8])]
    ops = []
    for _ in range(rng.choice([1, 2, 4, 7])):
        for _ in range(rng.choice([0, 1, 3, 6])):
            ops.append({"op": "set", "path": rng.choice(places), "tag": rng.choice(tags), "value": D.gen_value(rng)})
        op = {"op": rng.choice(KINDS), "path": rng.choice(places), "tag": rng.choice(tags), "value": D.gen_value(rng)}
        op["how"] = rng.choice(SALT_OPS)
        r = rng.random()
        if r < 0.5:
            op["fault"] = {"kind": rng.choice(["eio", "eio", "enospc"]), "k": rng.choice([0, 1, 2, 3, 4, 6, 9, 14, 20]),
                           "arg": 0}
            if rng.random() < 0.3:
                op["again"] = rng.choice([1, 2, 5])
        elif r < 0.75:
            op["read_fault"] = rng.choice([0, 1, 2, 3, 4, 6, 9, 14])
        elif r < 0.8:
            op["full"] = True
        ops.append(op)
    return {
        "cfg": {
            "reorder": rng.choice([0, 0.5, 0.9]), "jitter": rng.choice([0, 0.3]), "jit_n": 6,
            "exec_spread": rng.choice([0, 0.5, 0.9]), "exec_n": 6,
        },
        "ops": ops,
    }


def simplify(plan):
    for i, op in enumerate(plan["ops"]):
        for key in ("fault", "again", "read_fault", "full"):
            if key in op:
                p = copy.deepcopy(plan)
                del p["ops"][i][key]
                yield p


def nontrivial(out):
    return out["stats"].get("reach:ended_with_error", 0) > 0


def run(w, plan):
    use_less_memory()
    w.fs.mkdir(D.ROOT)
    w.fs.mkdir(D.ROOT + "/own")
    L.run(w, main(w, plan))


def state(w, db):
    return (w.fs.n_mut, w.fs.n_read, {p: bytes(w.fs.peek(p)) for p in w.fs.files("/")},
            db and sorted(db.tags), db and sorted(db.metatags))


async def main(w, plan):
    home = {"db": await AsyncDatabase(KEY, path=D.ROOT)}
    w.fs.poke(D.ROOT + "/own/present", b"s" * 40)
    for n, op in enumerate(plan["ops"]):
        if "fault" in op:
            w.fs.faults = {w.fs.n_mut + op["fault"]["k"]: dict(op["fault"])}
            if "again" in op:
                w.fs.faults[w.fs.n_mut + op["fault"]["k"] + op["again"]] = dict(op["fault"])
        elif "read_fault" in op:
            w.fs.read_faults = {w.fs.n_read + op["read_fault"]: {"kind": "eio", "k": 0, "arg": 0}}
        w.fs.full = op.get("full", False)
        try:
            await perform(home, op)
            res = "ok"
        except Exception as error:
            res = type(error).__name__
            if isinstance(error, OSError):
                w.reach("ended_with_error")
        w.event(f"{n} {op['op']} {'/'.join(op['path'])} -> {res}")
        before = state(w, home["db"])
        await asyncio.sleep(0.5)
        after = state(w, home["db"])
        changed = sorted(p for p in before[2].keys() | after[2].keys() if before[2].get(p) != after[2].get(p))
        w.check(not changed, "files-changed-afterwards",
                lambda: f"{op['op']} ended with {res}, and {len(changed)} files changed after that: {changed[:3]}")
        w.check(before[:2] == after[:2], "file-access-afterwards",
                lambda: f"{op['op']} ended with {res}, and {sum(after[:2]) - sum(before[:2])} file system calls came after that")
        w.check(before[3:] == after[3:], "database-changed-afterwards",
                lambda: f"{op['op']} ended with {res}, and the listed tags changed after that")
        if w.fs.fds:
            gc.collect()
        w.check(not w.fs.fds, "file-left-open", lambda: f"{op['op']} left {[f.path for f in w.fs.fds.values()]} open")
        w.fs.faults, w.fs.read_faults, w.fs.full = {}, {}, False
    w.reach("done")


async def perform(home, op):
    kind, tag, value = op["op"], op["tag"], D.value_of(op["value"])
    if kind == "salt":
        path = Path(D.ROOT) / "own" / ["present", "other"][op["value"][1] % 2]
        salt = bytes([op["value"][1] % 256]) * 32
        how = op["how"]
        if how == "make":
            await P._amake_salt_file(path, salt=salt)
        elif how == "read":
            await P._aread_salt_file(path)
        elif how == "update":
            await P._aupdate_salt_file(path, salt=salt)
        elif how == "delete":
            await P._adelete_salt_file(path)
        else:
            await P.AsyncSecureSaltPath(D.ROOT, key=salt)
        return
    if kind == "profile":
        profile = await AsyncDatabase.agenerate_profile(
            username=b"user", passphrase=b"passphrase of some length", mb=1, cpu=1, cores=1)
        await profile.asave_database()
        home["profile"] = profile
        return
    if kind == "delete_profile":
        if "profile" in home:
            await home.pop("profile").adelete_database()
        return
    db = home["db"] = home["db"] or await AsyncDatabase(KEY, path=D.ROOT)
    if kind == "delete":
        home["db"] = None
        await db.adelete_database()
        home["db"] = await AsyncDatabase(KEY, path=D.ROOT)
        return
    for name in op["path"]:
        parent, db = db, await db.ametatag(name)
    if kind == "set":
        await db.aset_tag(tag, value)
    elif kind == "put":
        await db.aset_tag(tag, value, cache=False)
    elif kind == "save":
        await home["db"].asave_database()
    elif kind == "save_tag":
        await db.asave_tag(tag)
    elif kind == "exit":
        async with db:
            db[tag] = value
    elif kind == "load":
        await db.aclear_cache()
        how = op["value"][1] % 3
        if how == 0:
            await db.aload_tags()
        elif how == 1:
            await db.aload_metatags()
        else:
            home["db"] = await AsyncDatabase(KEY, path=D.ROOT, preload=True)
    elif kind == "query":
        await db.aquery_tag(tag)
    elif kind == "pop":
        await db.apop_tag(tag)
    elif kind == "rollback":
        await db.arollback_tag(tag)
    elif kind == "clear":
        await db.aclear_cache()
    elif kind == "delete_sub" and op["path"]:
        await parent.adelete_metatag(op["path"][-1])
