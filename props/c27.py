"""C27: partitions of one database with a writer each, in several processes or objects."""

import copy
import itertools

from sim import loop as L
from sim import procs
from sim.actors import code, gen_cfg, run_actors
from sim.fs import SimCrash

from . import dbsim as D
from .dbsim import ABSENT, Client

SHRINK = ["rounds"]
CRASHES = ["crash_before", "crash_after", "crash_torn", "crash_torn"]
ERRORS = ["eio", "enospc", "full", "short_write", "eio"]
OPS = {
    "sub": ["put"] * 3 + ["save_tag"] * 2 + ["with"] * 4 + ["pop", "nest", "nest"] + ["own"] * 2
        + ["read"] * 6 + ["list"] * 2,
    "tags": ["put"] * 4 + ["save_tag"] * 3 + ["pop"] + ["own"] * 2 + ["read"] * 6 + ["list"],
}
END = float("inf")
TRACES = [("",), ("databases",)]


def gen(rng, tier):
    n = rng.choice([2, 2, 3, 4])
    tags = rng.sample(D.TAGS, rng.choice([1, 2, 3]))
    kinds = [rng.choice(["sub", "sub", "tags"]) for _ in range(n)]
    rounds = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        actors = []
        for i in range(n):
            ops = []
            for _ in range(rng.choice([1, 2, 3, 5])):
                kind = rng.choice(OPS[kinds[i]])
                op = {"op": kind, "tag": rng.choice(tags)}
                if kind in ("put", "save_tag", "with", "nest"):
                    op["values"] = [
                        [rng.choice(tags), D.gen_value(rng)] for _ in range(rng.choice([1, 1, 2, 3]))]
                if kind in ("read", "list"):
                    op.update(part=rng.randrange(n), fresh=rng.random() < 0.4, nest=rng.random() < 0.25)
                if kind == "nest":
                    op["whole"] = rng.random() < 0.5
                if kind == "save_tag":
                    op["drop"] = rng.random() < 0.5
                ops.extend([op] * (rng.choice([1, 1, 2, 4]) if kind == "read" else 1))
            actors.append({"async": rng.random() < 0.5, "ops": ops})
        r = {"how": rng.choice(["procs", "objects"]), "actors": actors, "fault": None,
             "audit_async": rng.random() < 0.5}
        if rng.random() < 0.4:
            kind = rng.choice(CRASHES + ERRORS) if r["how"] == "procs" else rng.choice(ERRORS)
            r["fault"] = [rng.randrange(n), {
                "k": rng.randrange(25), "kind": kind, "arg": rng.randrange(1 << 16)}]
            if kind in ("eio",) and rng.random() < 0.4:
                r["fault"][1]["read"] = True
        rounds.append(r)
    cfg = gen_cfg(rng, ("tasks", "threads", "threads", "mixed"))
    cfg["opcodes"] = rng.random() < 0.2
    cfg["stall_p"] = rng.choice([0, 0.1, 0.4])
    return {
        "cfg": cfg, "stick": rng.choice([0, 0, 0.5, 0.8]), "trace": rng.choice([0, 1, 1]), "tags": tags, "kinds": kinds, "rounds": rounds,
        "first": {str(i): [[t, D.gen_value(rng)] for t in tags if rng.random() < 0.6] for i in range(n)},
        "loop": [rng.randrange(3) for _ in range(n)],
    }


def simplify(plan):
    for i, r in enumerate(plan["rounds"]):
        if r["fault"]:
            p = copy.deepcopy(plan)
            p["rounds"][i]["fault"] = None
            yield p
        for k, a in enumerate(r["actors"]):
            for j in range(len(a["ops"])):
                p = copy.deepcopy(plan)
                del p["rounds"][i]["actors"][k]["ops"][j]
                yield p


def nontrivial(out):
    return out["stats"].get("reach:read_of_another", 0) > 0


def place(plan, i, tag):
    """Path and name of a tag of partition i."""
    if plan["kinds"][i] == "sub":
        return [f"process_{i}"], tag
    return [], f"{i}:{tag}"


def run(w, plan):
    w.fs.mkdir(D.ROOT)
    n = len(plan["kinds"])
    status, _ = w.lifetime(lambda cw: D.drive(setup(plan)))
    assert status == "ok"
    known = {}      # (partition, nested, tag) or (partition, nested): what a new process finds
    for i in range(n):
        for nested in (0, 1):
            for tag in plan["tags"]:
                known[i, nested, tag] = ABSENT
            known[i, nested] = frozenset()
        for tag, spec in plan["first"][str(i)]:
            known[i, 0, tag] = D.value_of(spec)
        known[i, 0] = frozenset(t for t, _ in plan["first"][str(i)])
    for no, r in enumerate(plan["rounds"]):
        if r["how"] == "procs":
            faults = {} if r["fault"] is None else {r["fault"][0]: [r["fault"][1]]}
            outcome = procs.together(
                w, [lambda cw, i=i: process(cw, plan, r, i, known) for i in range(n)],
                faults=faults, stick=plan["stick"])
            logs = [ret for _, ret in outcome]
            if any(log is None for log in logs):
                w.reach("crashed_unseen")
        else:
            _, logs = w.lifetime(lambda cw: objects(cw, plan, r, known))
            w.reach("objects")
        judge(w, plan, no, known, logs)
        w.fs.full = False
        _, found = w.lifetime(lambda cw: D.session(cw, r["audit_async"], audit(plan, r["audit_async"])))
        for key, value in found.items():
            ok = candidates(known, logs, key, END, END)
            w.check(any(alike(value, v) for v in ok.values()), "not-kept", lambda: (
                f"round {no}: {key} is {D.show(value)} and can only be {[D.show(v) for v in ok.values()]}"))
            known[key] = value


def alike(a, b):
    return a == b if isinstance(a, frozenset) or isinstance(b, frozenset) else D.same(a, b)


async def setup(plan):
    c = await Client.open(False)
    for i, kind in enumerate(plan["kinds"]):
        if kind == "sub":
            await c.at(place(plan, i, "")[0])
        for tag, spec in plan["first"][str(i)]:
            path, name = place(plan, i, tag)
            await (await c.at(path)).call("set_tag", name, D.value_of(spec))
    await c.call("save_database")


def candidates(known, logs, key, t0, t1):
    """What a read of `key` that lasted from t0 to t1 may have found: {number of the write: value}."""
    ok = {0: known[key]}
    n = 0
    for log in logs:
        for what, k, value, begun, ended in log or ():
            if what != "write" or k != key:
                continue
            n += 1
            if begun > t1:
                continue
            if ended < t0:
                ok = {}
            ok[n] = value
    return ok


def judge(w, plan, no, known, logs):
    reads = sorted(
        ((begun, ended, i, key, value) for i, log in enumerate(logs)
         for what, key, value, begun, ended in log or () if what == "read"), key=lambda r: r[:3])
    seen = {}       # key: [(when, number of a write that had happened by then)]
    for begun, ended, i, key, value in reads:
        ok = candidates(known, logs, key, begun, ended)
        fit = [n for n, v in ok.items() if alike(value, v)]
        w.check(fit, "wrong-read", lambda: (
            f"round {no}: user {i} read {key} as {D.show(value)}; at that time it can only have been"
            f" {[D.show(v) for v in ok.values()]}"))
        least = max((n for when, n in seen.get(key, ()) if when < begun), default=0)
        w.check(fit[-1] >= least, "old-value-again", lambda: (
            f"round {no}: user {i} read {key} as {D.show(value)} after a newer value had been read"))
        seen.setdefault(key, []).append((ended, fit[0]))
        if key[0] != i:
            w.reach("read_of_another")
            if len(ok) > 1:
                w.reach("read_while_written")
            if least:
                w.reach("read_after_read")


class User:
    """The owner of one partition, who reads the others too."""

    def __init__(self, w, plan, r, i, known, clock):
        self.w, self.plan, self.i, self.clock = w, plan, i, clock
        self.ops, self.is_async = r["actors"][i]["ops"], r["actors"][i]["async"]
        self.log = []
        self.pending = []
        self.listed = [set(known[i, 0]), set(known[i, 1])]      # in memory
        self.cached = [{}, {}]
        self.known = known

    def write(self, pending, nested, tag, value):
        pending.append(["write", (self.i, nested, tag) if tag is not None else (self.i, nested), value, None, END])

    async def live(self):
        try:
            self.ref = await Client.open(self.is_async)
            for op in self.ops:
                if not await self.step(op):
                    break
        except SimCrash:
            self.w.reach("crashed")
        except OSError:
            if not self.w.fs.fired and not self.w.fs.full:
                raise
            self.w.reach("error_at_opening")
        return self.log

    async def step(self, op):
        self.pending = []
        self.t0 = self.clock[0]()
        done = False
        try:
            await self.perform(op, self.pending)
            done = True
        except OSError as e:
            if not self.w.fs.fired and not self.w.fs.full:
                self.w.fail_exc(f"{op['op']}-failed", e)
            self.w.reach("error")
            return False
        except (SimCrash, GeneratorExit):
            raise
        except Exception as e:
            self.w.fail_exc(f"{op['op']}-failed", e)
        finally:
            self.flush(done)
        self.w.event(f"user {self.i} {op['op']}")
        return True

    def flush(self, done):
        """Notes what the operation did or, not being done, may have done."""
        pending, self.pending = self.pending, []
        if not pending:
            return
        first, last = self.clock[1](self.t0)
        for entry in pending:
            if entry[0] == "read" and not done:
                continue
            entry[3] = first
            if done:
                entry[4] = last
            self.log.append(tuple(entry))

    async def perform(self, op, pending):
        plan, i, kind, tag = self.plan, self.i, op["op"], op["tag"]
        path, name = place(plan, i, tag)
        if kind == "read" or kind == "list":
            return await self.look(op, pending)
        own = await self.ref.at(path)
        if kind == "put":
            for tag, spec in op["values"][:1]:
                value = D.value_of(spec)
                self.listed[0].add(tag)
                self.cached[0].pop(tag, None)
                self.write(pending, 0, tag, value)
                await own.call("set_tag", place(plan, i, tag)[1], value, cache=False)
        elif kind == "save_tag":
            for tag, spec in op["values"][:1]:
                value = D.value_of(spec)
                self.listed[0].add(tag)
                self.cached[0][tag] = value
                if op["drop"]:
                    self.cached[0].pop(tag)
                self.write(pending, 0, tag, value)
                await own.call("set_tag", place(plan, i, tag)[1], value)
                await own.call("save_tag", place(plan, i, tag)[1], drop_cache=op["drop"])
        elif kind == "with":
            for tag, spec in op["values"]:
                self.cached[0][tag] = D.value_of(spec)
                self.listed[0].add(tag)
            self.saved(pending, (0, 1))
            if own.is_async:
                async with own.db as db:
                    for tag, spec in op["values"]:
                        db[tag] = D.value_of(spec)
            else:
                with own.db as db:
                    for tag, spec in op["values"]:
                        db[tag] = D.value_of(spec)
        elif kind == "pop":
            self.listed[0].discard(tag)
            self.cached[0].pop(tag, None)
            self.write(pending, 0, tag, ABSENT)
            await own.call("pop_tag", name, silent=True)
        elif kind == "nest":
            inner = await own.meta("inner")
            for tag, spec in op["values"]:
                self.cached[1][tag] = D.value_of(spec)
                self.listed[1].add(tag)
                await inner.call("set_tag", tag, D.value_of(spec))
            self.saved(pending, (0, 1) if op["whole"] else (1,))
            await (own if op["whole"] else inner).call("save_database")
        elif kind == "own":
            value = await own.query(name)
            self.w.event(f"own {D.show(value)}")
            if tag in self.cached[0]:
                self.w.check(D.same(value, self.cached[0][tag]), "own-value", lambda: (
                    f"user {i} set {tag!r} to {D.show(self.cached[0][tag])} and finds {D.show(value)}"))
            else:
                pending.append(["read", (i, 0, tag), value, None, END])

    def saved(self, pending, levels):
        for nested in levels:
            if nested and not hasattr(self, "_inner") and not self.listed[1]:
                continue
            for tag, value in self.cached[nested].items():
                self.write(pending, nested, tag, value)
            self.write(pending, nested, None, frozenset(self.listed[nested]))

    async def look(self, op, pending):
        plan, j, tag = self.plan, op["part"], op["tag"]
        path, name = place(plan, j, tag)
        nested = int(op["nest"] and bool(path))
        if op["op"] == "list":
            c = await Client.open(self.is_async)
            if not path:
                tags = frozenset(t.split(":", 1)[1] for t in c.db.tags if t.startswith(f"{j}:"))
            else:
                c = await c.at(path)
                if nested:
                    c = await c.meta("inner")
                tags = frozenset(c.db.tags)
            pending.append(["read", (j, nested), tags, None, END])
            self.w.event(f"listed {j} {nested} {sorted(tags)}")
            return
        if (nested or op["fresh"]) and (j != self.i):
            c = await Client.open(self.is_async)
        elif j == self.i:
            return
        else:
            c = self.ref
        c = await c.at(path)
        if nested:
            c = await c.meta("inner")
            name = tag
        value = await c.query(name)
        pending.append(["read", (j, nested, tag), value, None, END])
        self.w.event(f"read {j} {nested} {tag!r} {D.show(value)}")


def process(w, plan, r, i, known):
    fs = w.fs

    def begin():
        fs.mark()

    def end(_):
        return (fs.first or fs.when, fs.when)

    user = User(w, plan, r, i, known, (begin, end))
    try:
        D.session(w, user.is_async, user.live())
    except SimCrash:
        w.reach("crashed")
        user.flush(False)
    return list(user.log)


def objects(w, plan, r, known):
    count = itertools.count(1)
    clock = (lambda: next(count), lambda t0: (t0, next(count)))
    mode = w.cfg["mode"]
    if mode == "tasks":
        for a in r["actors"]:
            a["async"] = True
    users = [User(w, plan, r, i, known, clock) for i in range(len(r["actors"]))]
    for i, u in enumerate(users):
        u.is_async = mode == "tasks" or (mode == "mixed" and plan["loop"][i] < 2)
    if r["fault"] is not None:
        kind = "read_faults" if r["fault"][1].get("read") else "faults"
        start = w.fs.n_read if kind == "read_faults" else w.fs.n_mut
        setattr(w.fs, kind, {start + r["fault"][1]["k"]: r["fault"][1]})
    run_actors(
        w, len(users), lambda i: users[i].live(), lambda i: D.drive(users[i].live()),
        place=lambda i: plan["loop"][i], trace=code(*TRACES[plan["trace"]]))
    return [u.log for u in users]


async def audit(plan, is_async):
    found = {}
    c = await Client.open(is_async)
    for i in range(len(plan["kinds"])):
        path = place(plan, i, "")[0]
        part = await c.at(path)
        if path:
            found[i, 0] = frozenset(part.db.tags)
        for tag in plan["tags"]:
            found[i, 0, tag] = await part.query(place(plan, i, tag)[1])
        if path:
            inner = await part.meta("inner")
            found[i, 1] = frozenset(inner.db.tags)
            for tag in plan["tags"]:
                found[i, 1, tag] = await inner.query(tag)
    return found
