"""C08: deleting a database removes all of its files and nothing else."""

import asyncio

from . import dbsim as D
from .dbsim import ABSENT, Client

SHRINK = ["ops", "after", "decoys"]
KEYS = [b"\x31" * 64, b"\x32" * 64, b"\x33" * 64]
DECOYS = [
    "0", "1", "notes.txt", "db", "secure/salt", "x" * 37, "a", "m", ".hidden", "sub/0", "manifest", "-",
]
OPS = ["set"] * 4 + ["put"] * 4 + ["save"] * 3 + ["save_tag", "pop", "del", "rollback", "clear", "query"]
POST = ["set", "put", "item", "save", "save_tag", "query", "meta", "pop", "exit"]


def gen(rng, tier):
    n = rng.choice([1, 2, 2, 3])
    m, t, s = D.METAS
    places = [[], [], [m], [m], [t], [m, t], [m, t, s]][:rng.choice([1, 3, 5, 7])]
    tags = rng.sample(D.TAGS, rng.choice([1, 3, 5]))
    ops = [
        {"db": rng.randrange(n), "path": rng.choice(places), "op": rng.choice(OPS),
         "tag": rng.choice(tags), "value": D.gen_value(rng)}
        for _ in range(rng.choice([3, 8, 16]))]
    sub = rng.random() < 0.4 and len(places) > 2
    victim = {"db": rng.randrange(n), "path": rng.choice(places[2:]) if sub else []}
    fault = None
    r = rng.random()
    if r < 0.15:
        fault = {"kind": rng.choice(["crash_before", "crash_after"]), "k": rng.choice([0, 0, 1, 1, 2, 3, 4, 6, 9])}
    elif r < 0.3:
        fault = {"kind": "eio", "k": rng.choice([0, 0, 1, 1, 2, 3, 4, 6, 9])}
    elif r < 0.4:
        fault = {"kind": "lost", "k": rng.choice([0, 0, 1, 1, 2, 3, 4, 6, 9])}
    return {
        "cfg": {
            "reorder": rng.choice([0, 0.5, 0.9]), "jitter": rng.choice([0, 0.3]), "jit_n": 6,
            "exec_spread": rng.choice([0, 0.5, 0.9]), "exec_n": 6,
        },
        "n": n, "ops": ops, "victim": victim, "async": rng.random() < 0.6, "async2": rng.random() < 0.5,
        "reopen": rng.choice(["no", "no", "yes", "preload"]), "fault": fault,
        "decoys": rng.sample(DECOYS, rng.choice([0, 3, 6])),
        "also": rng.random() < 0.3, "busy": rng.random() < 0.5,
        "after": [
            {"op": rng.choice(POST), "tag": rng.choice(tags), "value": D.gen_value(rng)}
            for _ in range(rng.choice([0, 2, 5]))],
        "parent_save": rng.random() < 0.7, "reborn": rng.random() < 0.5,
    }


def nontrivial(out):
    return out["stats"].get("reach:files_removed", 0) > 0


async def perform(c, op):
    kind, tag = op["op"], op["tag"]
    v = D.value_of(op["value"])
    if kind == "set":
        await c.call("set_tag", tag, v)
    elif kind == "item":
        c.db[tag] = v
    elif kind == "put":
        await c.call("set_tag", tag, v, cache=False)
    elif kind == "save":
        await c.call("save_database")
    elif kind == "save_tag":
        try:
            await c.call("save_tag", tag)
        except LookupError:
            pass
    elif kind == "pop":
        await c.call("pop_tag", tag, silent=True)
    elif kind == "del":
        del c.db[tag]
    elif kind == "rollback":
        await c.call("rollback_tag", tag)
    elif kind == "clear":
        await c.call("clear_cache")
    elif kind == "query":
        await c.query(tag, cache=True)
    elif kind == "meta":
        await c.meta("other")
    elif kind == "exit":
        if c.is_async:
            async with c.db:
                pass
        else:
            with c.db:
                pass


def run(w, plan):
    w.fs.mkdir(D.ROOT)
    for sub in ("secure", "sub"):
        w.fs.mkdir(f"{D.ROOT}/{sub}")
    for name in plan["decoys"]:
        w.fs.poke(f"{D.ROOT}/{name}", b"not yours: " + name.encode())
    victim = (plan["victim"]["db"], tuple(plan["victim"]["path"]))

    def listing(w):
        return {p: bytes(w.fs.peek(p)) for p in w.fs.files(D.ROOT)}

    def beneath(owner, top):
        return owner[0] == top[0] and owner[1][:len(top[1])] == top[1]

    def verify(w, before, owner, gone):
        after = listing(w)
        lost = sorted(set(before) - set(after))
        for p in lost:
            w.check(
                p in owner and any(beneath(owner[p], g) for g in gone), "foreign-file-deleted",
                lambda: f"{p} belonged to {owner.get(p, 'nobody')}, deleted {gone}")
        for p in sorted(after):
            if p in owner and any(beneath(owner[p], g) for g in gone):
                w.fail("file-left-behind", f"{p} of {owner[p]} is still there after deleting {gone}")
            if p in before and after[p] != before[p]:
                w.fail("foreign-file-changed", f"{p} of {owner.get(p, 'nobody')} changed")
            if p not in before:
                w.fail("file-appeared", f"{p} appeared during deletion")
        w.reach("files_removed", len(lost))
        return after

    async def again(w):
        """Deletes what was left of an interrupted deletion."""
        w.reach("deletion_cut_short")
        c = await Client.open(plan["async2"] if w.life else plan["async"], key=KEYS[victim[0]], path=D.ROOT)
        if victim[1]:
            w.reach("sub_deletion_cut_short")
            await (await c.at(victim[1][:-1])).call("delete_metatag", victim[1][-1])
        else:
            await c.call("delete_database")

    async def main(w):
        is_async = plan["async"]
        owner = {}
        values = {}         # (db, path) -> {tag: value}: what reading gives

        async def owned(ident, coro):
            before = set(w.fs.files(D.ROOT))
            out = await coro
            for p in sorted(set(w.fs.files(D.ROOT)) - before):
                owner[p] = ident
            return out

        dbs = [await Client.open(is_async, key=KEYS[k], path=D.ROOT) for k in range(plan["n"])]

        def tree(k):
            """Ancestors first."""
            return sorted({i[1][:j] for i in idents if i[0] == k for j in range(len(i[1]) + 1)} | {()}, key=len)

        idents = [(op["db"], tuple(op["path"])) for op in plan["ops"]] + [victim]

        async def save_all(k):
            # one database at a time, so that its new files are known as its own
            for p in reversed(tree(k)):
                await owned((k, p), (await dbs[k].at(p)).call("save_database"))

        for op in plan["ops"]:
            ident = (op["db"], tuple(op["path"]))
            d = await dbs[op["db"]].at(op["path"])
            w.event(f"{op['op']} {ident} {op['tag'][:9]}")
            if op["op"] == "save":
                for p in reversed([p for p in tree(op["db"]) if p[:len(ident[1])] == ident[1]]):
                    await owned((op["db"], p), (await dbs[op["db"]].at(p)).call("save_database"))
            else:
                await owned(ident, perform(d, op))
        if plan["reopen"] != "no":
            for k in range(plan["n"]):
                await save_all(k)
            dbs[:] = [
                await Client.open(is_async, key=KEYS[k], path=D.ROOT, preload=plan["reopen"] == "preload")
                for k in range(plan["n"])]
        tags = sorted({op["tag"] for op in plan["ops"]})
        for ident in sorted(set(idents)):
            d = await dbs[ident[0]].at(ident[1])
            values[ident] = {t: await d.query(t) for t in tags}

        async def remove(k, path):
            if path:
                await (await dbs[k].at(path[:-1])).call("delete_metatag", path[-1])
            else:
                await dbs[k].call("delete_database")

        gone = [victim]
        w.event(f"delete {victim} {plan['fault']}")
        handle = await dbs[victim[0]].at(victim[1])
        inner = [
            await dbs[i[0]].at(i[1]) for i in sorted(set(idents)) if beneath(i, victim) and i != victim]
        before = listing(w)
        fault = plan["fault"]
        if fault is not None and fault["kind"] == "lost":
            # somebody else removed one of its files already
            mine = sorted(p for p, o in owner.items() if beneath(o, victim) and p in before)
            if mine:
                gone_file = mine[fault["k"] % len(mine)]
                w.fault("file_already_gone")
                w.fs.drop(gone_file)
                before.pop(gone_file)
            await remove(*victim)
        elif fault is not None:
            # cut short, then done again with a fresh object
            await save_all(victim[0])
            before = listing(w)
            w.fs.faults = {w.fs.n_mut + fault["k"]: dict(fault, arg=0)}
            w.extra = {"before": before, "owner": owner, "found": (values, gone, tags)}
            try:
                await remove(*victim)
            except OSError:
                w.fs.faults = {}
                handle = None
                if victim[1] and plan["parent_save"]:
                    # whoever goes on and saves still finds it listed
                    await dbs[victim[0]].call("save_database")
                    now = listing(w)
                    before = {p: now.get(p, c) if not beneath(owner.get(p, (None, ())), victim) else c
                              for p, c in before.items()}
                await again(w)
            w.fs.faults = {}
        elif is_async and plan["busy"]:
            others = [k for k in range(plan["n"]) if k != victim[0]]
            jobs = [remove(*victim)]
            if plan["also"] and others:
                gone.append((others[0], ()))
                jobs.append(remove(others[0], ()))
                others = others[1:]
            elif plan["also"] and victim[1]:
                sibling = [i for i in sorted(set(idents)) if i[0] == victim[0] and i[1]
                           and len(i[1]) == 1 and not beneath(victim, i) and not beneath(i, victim)]
                if sibling:
                    gone.append(sibling[0])
                    jobs.append(remove(*sibling[0]))
            for k in others:
                jobs.append(reads(w, dbs[k], values.get((k, ()), {})))
            w.reach("concurrent_deletion")
            await asyncio.gather(*jobs)
        else:
            await remove(*victim)

        after = verify(w, before, owner, gone)

        # the deleted object is of no more use
        for c in ([handle] + inner if handle is not None else []):
            for op in plan["after"]:
                try:
                    await perform(c, op)
                except Exception:
                    w.reach("use_after_delete_refused")
            now = listing(w)
            for p in sorted(set(now) - set(after)):
                w.fail("file-recreated", f"{p} appeared by using a deleted database")
            w.check(now == after, "file-changed", "using a deleted database changed files")
        if victim[1] and plan["parent_save"] and handle is not None:
            parent = await dbs[victim[0]].at(victim[1][:-1])
            w.check(victim[1][-1] not in parent.db.metatags, "still-listed", "the deleted sub-database is listed")
            await dbs[victim[0]].call("save_database")
            now = listing(w)
            for p in sorted(now):
                if p not in after and any(p == q and beneath(o, victim) for q, o in owner.items()):
                    w.fail("file-recreated", f"{p} came back when the parent was saved")
        if victim[1] and plan["reborn"] and handle is not None and tags:
            # another one of its name starts empty and can be deleted as well
            before = set(listing(w))
            new = await dbs[victim[0]].at(victim[1])
            w.check(not new.db.tags, "not-empty", lambda: f"{victim} made again lists {sorted(new.db.tags)}")
            got = await new.query(tags[0])
            w.check(got is ABSENT, "not-empty", lambda: f"{tags[0]!r} of {victim} made again reads {D.show(got)}")
            await new.call("set_tag", tags[0], b"again", cache=False)
            await new.call("save_database")
            made = set(listing(w)) - before
            w.check(made, "nothing-saved", f"saving {victim} made again wrote no file")
            await remove(*victim)
            now = set(listing(w))
            w.check(not made & now, "file-left-behind", lambda: f"{sorted(made & now)} of {victim} made again")
            w.check(before <= now, "foreign-file-deleted", lambda: f"{sorted(before - now)} went with {victim}")
            w.reach("deleted_twice")
        return values, gone, tags

    async def look(w, values, gone, tags):
        for k in range(plan["n"]):
            c = await Client.open(plan["async2"], key=KEYS[k], path=D.ROOT)
            for ident in sorted(i for i in values if i[0] == k):
                if not any(beneath(ident, g) for g in gone):
                    continue
                d = await c.at(ident[1])
                w.check(not d.db.tags, "not-empty", lambda: f"{ident} lists {sorted(d.db.tags)}")
                for t in tags:
                    got = await d.query(t)
                    w.check(got is ABSENT, "not-empty", lambda: f"{t!r} of {ident} reads {D.show(got)}")
                w.reach("starts_empty")

    if (plan["fault"] or {}).get("kind", "").startswith("crash"):
        status, found = w.lifetime(lambda cw: D.session(cw, plan["async"], main(cw)))
        if status == "crash":
            w.fs.faults = {}
            D.session(w, plan["async2"], again(w))
            verify(w, w.extra["before"], w.extra["owner"], [victim])
            found = w.extra["found"]
    else:
        found = D.session(w, plan["async"], main(w))
    D.session(w, plan["async2"], look(w, *found))


async def reads(w, c, values):
    for t, v in values.items():
        got = await c.query(t)
        w.check(D.same(got, v), "other-database-disturbed", lambda: f"{t!r} reads {D.show(got)}, was {D.show(v)}")
        await asyncio.sleep(0)
