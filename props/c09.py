"""C09: concurrent tasks using one async database see one consistent map."""

import asyncio
import copy
import itertools

from sim import loop as L
from sim.lin import History, TooHard, describe, linearizable

from . import dbsim as D
from .dbsim import ABSENT, frozen

import aiootp

SHRINK = ["tasks", "setup"]
MIXES = [
    ["set", "query"], ["put", "query", "pop"], ["set", "put", "query", "load", "save_tag"],
    ["set", "save", "query", "pop"], ["put", "load", "pop"], ["set", "drop", "put", "query"],
    ["set", "put", "query", "load", "pop", "save_tag", "drop", "save", "item"],
    ["item", "save", "drop", "query"],
    ["set", "put", "save_tag", "rollback", "query"], ["item", "put", "save", "rollback", "query", "load"],
    ["set", "put", "save_tag", "clear", "query"], ["put", "load", "save", "clear", "query", "pop"],
]


def gen(rng, tier):
    tags = rng.sample(D.TAGS, rng.choice([1, 1, 2, 3]))
    metas = rng.choice([[], [], [D.METAS[0]], D.METAS[:2]])
    mix = rng.choice(MIXES)
    p_cancel = rng.choice([0, 0, 0.15])
    tasks = []
    for _ in range(rng.randint(2, 5)):
        ops = []
        for _ in range(rng.choice([1, 2, 3, 4])):
            op = {
                "op": rng.choice(mix), "tag": rng.choice(tags),
                "sub": rng.choice(metas) if metas and rng.random() < 0.7 else "",
                "n": rng.randrange(1 << 30),
                "pre": rng.choice([0, 0, 0, 1e-5, 2e-4]),
            }
            if rng.random() < p_cancel and op["op"] not in ("pop", "item"):
                op["cancel"] = rng.randrange(60)
            ops.append(op)
        tasks.append(ops)
    setup = [
        {"tag": t, "n": rng.randrange(1 << 30), "saved": rng.random() < 0.7, "cached": rng.random() < 0.3}
        for t in tags if rng.random() < 0.6]
    return {
        "cfg": {
            "reorder": rng.choice([0, 0.3, 0.9]), "jitter": rng.choice([0, 0.3]), "jit_n": 6,
            "exec_spread": rng.choice([0.2, 0.5, 0.9]), "exec_n": 6,
        },
        "tasks": tasks, "setup": setup, "final_save": rng.random() < 0.6,
        "restart": rng.random() < 0.2, "preload": rng.random() < 0.3,
    }


def simplify(plan):
    for i, ops in enumerate(plan["tasks"]):
        for j in range(len(ops)):
            p = copy.deepcopy(plan)
            del p["tasks"][i][j]
            yield p
            if "cancel" in ops[j]:
                p = copy.deepcopy(plan)
                del p["tasks"][i][j]["cancel"]
                yield p
            if ops[j]["pre"]:
                p = copy.deepcopy(plan)
                p["tasks"][i][j]["pre"] = 0
                yield p


def nontrivial(out):
    return out["stats"].get("reach:overlap", 0) > 0


def value(op):
    return b"v%d" % op["n"] if op["n"] & 1 else {"v": op["n"]}


def step(state, op):
    """
    One tag: (value, whether it is in memory, value on disk).  Returns the
    states that may follow, () when the recorded result is impossible.
    """
    val, mem, disk = state
    name, arg, res = op["name"], op["arg"], op["res"]
    if res == "cancelled":
        out = {state}
        if name == "set":
            out |= {(arg, True, disk)}
        elif name == "put":
            out |= {(arg, True, disk), (arg, True, arg), (arg, False, arg)}
        elif name == "load" and val != ABSENT:
            out |= {(val, True, disk)}
        elif name in ("save_tag", "drop", "save") and mem:
            out |= {(val, True, val)}
            if name == "drop":
                out |= {(val, False, val)}
        elif name in ("rollback", "clear"):
            out |= {(disk, False, disk)}
        return tuple(out)
    if name in ("rollback", "clear"):
        return ((disk, False, disk),)
    if name in ("set", "item"):
        return ((arg, True, disk),)
    if name == "put":
        return ((arg, False, arg),)
    if name in ("query", "load"):
        if res != val:
            return ()
        if name == "load" and val != ABSENT:
            return ((val, True, disk),)
        return (state,)
    if name == "pop":
        # a tag that is listed and has no value is popped as None
        ok = res == val or (val == ABSENT and res == frozen(None))
        return ((ABSENT, False, ABSENT),) if ok else ()
    if name in ("save_tag", "drop"):
        # with nothing unsaved it does not matter whether a copy is in memory
        if res == "missing":
            return (state,) if not mem or val == disk else ()
        if mem:
            return ((val, name == "save_tag", val),)
        return (state,) if val == disk != ABSENT else ()
    if name == "save":
        return ((val, mem, val if mem else disk),)
    if name == "reopened":
        return (state,) if res == disk else ()
    raise ValueError(name)


def run(w, plan):
    w.fs.mkdir(D.ROOT)
    hist = {}       # (sub, tag) -> History
    initial = {}
    made = {}       # (sub, tag) -> when it was first known to be set
    saved = []      # starts of completed saves
    clock = itertools.count()

    def history(key):
        if key not in hist:
            hist[key] = History(w)
            initial.setdefault(key, (ABSENT, False, ABSENT))
        return hist[key]

    keys = sorted({(op["sub"], op["tag"]) for ops in plan["tasks"] for op in ops}
                  | {("", s["tag"]) for s in plan["setup"]})
    subs = sorted({k[0] for k in keys if k[0]})
    for k in keys:
        history(k)

    async def act(db, op):
        kind, tag = op["op"], op["tag"]
        if kind == "save":
            await db.asave_database()
            return "done"
        if kind == "clear":
            await db.aclear_cache()
            return "done"
        d = await db.ametatag(op["sub"]) if op["sub"] else db
        if kind == "set":
            await d.aset_tag(tag, value(op))
        elif kind == "item":
            d[tag] = value(op)
        elif kind == "put":
            await d.aset_tag(tag, value(op), cache=False)
        elif kind in ("query", "load"):
            try:
                return frozen(await d.aquery_tag(tag, cache=kind == "load"))
            except LookupError:
                return ABSENT
        elif kind == "pop":
            try:
                return frozen(await d.apop_tag(tag))
            except LookupError:
                return ABSENT
        elif kind in ("save_tag", "drop"):
            try:
                await d.asave_tag(tag, drop_cache=kind == "drop")
            except LookupError:
                return "missing"
        elif kind == "rollback":
            await d.arollback_tag(tag)
        return "done"

    async def one(db, who, op):
        if op["pre"]:
            await asyncio.sleep(op["pre"])
        began = next(clock)
        touched = keys if op["op"] in ("save", "clear") else [(op["sub"], op["tag"])]
        recs = [(hist[k], hist[k].start(who, op["op"], frozen(value(op)))) for k in touched]
        if "cancel" in op:
            task = asyncio.ensure_future(act(db, op))

            def fire():
                if not task.done():
                    w.fault("cancellation")
                    task.cancel()

            w.at_step(w.steps + 1 + op["cancel"], fire)
            try:
                res = await task
            except asyncio.CancelledError:
                res = "cancelled"
        else:
            res = await act(db, op)
        for h, rec in recs:
            h.end(rec, res)
        if op["op"] == "save" and res == "done":
            saved.append(began)
        elif op["op"] in ("set", "item", "put") and res == "done":
            made.setdefault((op["sub"], op["tag"]), next(clock))

    async def actor(db, who, ops):
        for op in ops:
            try:
                await one(db, who, op)
            except Exception as e:
                w.fail_exc(f"{op['op']}-failed", e)

    async def main():
        db = await aiootp.AsyncDatabase(D.KEY, path=D.ROOT)
        for s in plan["setup"]:
            v = frozen(value(s))
            await db.aset_tag(s["tag"], value(s), cache=s["cached"] or not s["saved"])
            if s["saved"] and s["cached"]:
                await db.asave_tag(s["tag"])
            initial["", s["tag"]] = (
                v, s["cached"] or not s["saved"], v if s["saved"] else ABSENT)
        # the index is saved, the unsaved tags stay unsaved
        unsaved = [s for s in plan["setup"] if not s["saved"]]
        for s in unsaved:
            await db.arollback_tag(s["tag"])
        await db.asave_database()
        for s in unsaved:
            await db.aset_tag(s["tag"], value(s))
        tasks = [
            asyncio.ensure_future(actor(db, f"t{i}", ops)) for i, ops in enumerate(plan["tasks"])]
        for res in await asyncio.gather(*tasks, return_exceptions=True):
            if isinstance(res, BaseException):
                raise res
        loop = asyncio.get_running_loop()
        while loop.jobs_open:       # jobs whose task was cancelled
            await asyncio.sleep(0.001)
        for sub, tag in keys:
            d = await db.ametatag(sub) if sub else db
            h = hist[sub, tag]
            rec = h.start("end", "query")
            try:
                res = frozen(await d.aquery_tag(tag))
            except LookupError:
                res = ABSENT
            h.end(rec, res)
        if plan["final_save"]:
            recs = [(h, h.start("end", "save")) for h in hist.values()]
            await db.asave_database()
            for h, rec in recs:
                h.end(rec, "done")
        return None

    async def reopen():
        db = await aiootp.AsyncDatabase(D.KEY, path=D.ROOT, preload=plan["preload"])
        found = []
        for sub, tag in keys:
            if sub and not plan["final_save"]:
                continue
            d = await db.ametatag(sub) if sub else db
            try:
                res = frozen(await d.aquery_tag(tag))
            except LookupError:
                res = ABSENT
            cleared = res == ABSENT and any(o["name"] == "clear" for o in hist[sub, tag].ops)
            if plan["final_save"] and (res != ABSENT) != (tag in d.tags) and not cleared:
                w.fail("index-disagrees", f"{tag!r} of {sub!r} reads {res}, listed: {sorted(d.tags)}")
            found.append(((sub, tag), res))
        if not plan["final_save"]:
            listed(db)
        return found

    def listed(db):
        """What was there before a completed save began is in the index."""
        for (sub, tag), first in sorted(made.items()):
            if not any(first < began for began in saved):
                continue
            if sub:
                w.check(sub in db.metatags, "sub-database-not-listed", lambda: f"{sub} is not in {sorted(db.metatags)}")
            elif not any(o["name"] in ("pop", "rollback") for o in hist[sub, tag].ops):
                w.check(tag in db.tags, "tag-not-listed", lambda: f"{tag!r} is not in {sorted(db.tags)}")
                w.reach("index_checked")

    def judge():
        for k in sorted(hist):
            try:
                ok = linearizable(hist[k].ops, initial[k], step)
            except TooHard:
                w.reach("too_hard")
                continue
            if not ok:
                w.fail(
                    "not-linearizable",
                    f"tag {k} starting as {initial[k]} (value, in memory, on disk):\n" + describe(hist[k].ops))

    L.run(w, main())
    judge()
    found = L.run(w, reopen())
    for k, res in found:
        h = hist[k]
        h.end(h.start("reopen", "reopened"), res)
    judge()

    async def discard():
        """However many asked for a sub-database, one deletion removes it."""
        db = await aiootp.AsyncDatabase(D.KEY, path=D.ROOT)
        for sub in sorted(db.metatags):
            await db.adelete_metatag(sub)
            w.reach("sub_database_discarded")
            w.check(sub not in db.metatags, "sub-database-still-listed", lambda: f"{sub} is deleted but listed")

    L.run(w, discard())
