"""C05: a crash or disk fault never loses data that was already saved."""

import asyncio
import copy

from . import dbsim as D
from .dbsim import ABSENT, Client, Model

SHRINK = ["sessions"]

KINDS = (
    ["crash_before"] * 3 + ["crash_after"] * 2 + ["crash_torn"] * 4
    + ["eio", "eio", "enospc", "full", "full", "short_write", "cancel", "cancel"]
)
OPS = (
    ["set"] * 6 + ["put"] * 3 + ["pop"] * 2 + ["del"] + ["save_tag"] * 3 + ["save"] * 6
    + ["meta"] * 2 + ["delmeta"] + ["delete"] + ["clear"]
)
WRITES = {"put", "pop", "del", "save_tag", "save", "delmeta", "delete"}


def gen(rng, tier):
    tags = rng.sample(D.TAGS, rng.choice([1, 2, 4]))
    paths = [[], [], [D.METAS[0]], [D.METAS[0], D.METAS[1]]][:rng.choice([1, 2, 3, 4])]
    p_fault = rng.choice([0.15, 0.4, 0.8])
    sessions = []
    for _ in range(rng.choice([2, 3, 4])):
        ops = []
        for _ in range(rng.choice([2, 4, 7])):
            kind = rng.choice(OPS)
            op = {
                "op": kind, "path": rng.choice(paths), "tag": rng.choice(tags),
                "value": D.gen_value(rng), "name": rng.choice(D.METAS),
            }
            if kind == "save_tag":
                op["drop"] = rng.random() < 0.4
            if kind in WRITES and rng.random() < p_fault:
                op["fault"] = {
                    "k": rng.choice([0, 0, 0, 1, 1, 2, 2, 3, 4, 5, 6, 8, 10]),
                    "kind": rng.choice(KINDS), "arg": rng.randrange(1 << 16)}
                if op["fault"]["kind"] == "cancel":
                    op["fault"]["k"] = rng.randrange(60)
                op["after"] = rng.choice(["retry", "retry", "newer", "reopen"])
                op["value2"] = D.gen_value(rng)
            ops.append(op)
        sessions.append({
            "async": rng.random() < 0.5, "preload": rng.random() < 0.3, "ops": ops})
    return {
        "cfg": {
            "reorder": rng.choice([0, 0.5, 0.9]), "jitter": rng.choice([0, 0.3]), "jit_n": 6,
            "exec_spread": rng.choice([0, 0.5, 0.9]), "exec_n": 6,
        },
        "sessions": sessions,
    }


def simplify(plan):
    for i, s in enumerate(plan["sessions"]):
        for j in range(len(s["ops"])):
            p = copy.deepcopy(plan)
            del p["sessions"][i]["ops"][j]
            yield p
        for j, op in enumerate(s["ops"]):
            if "fault" in op:
                p = copy.deepcopy(plan)
                del p["sessions"][i]["ops"][j]["fault"]
                yield p


def nontrivial(out):
    return bool(out["faults"])


class Reopen(Exception):
    """The session ends here."""


def view(model):
    """What a fresh process would find: {path: (tags, subs, {tag: value})}."""
    m = copy.deepcopy(model)
    m.reopen()
    return {
        p: (frozenset(n.listed), tuple(sorted(n.subs)), dict(n.files))
        for p, n in m.store.items()
    }


def apply(model, op):
    """The operation on the model; whether it changes anything."""
    p, tag, kind = tuple(op["path"]), op["tag"], op["op"]
    if kind == "set":
        model.set(p, tag, D.value_of(op["value"]))
    elif kind == "put":
        model.set(p, tag, D.value_of(op["value"]), cache=False)
    elif kind in ("pop", "del"):
        model.pop(p, tag)
    elif kind == "save_tag":
        model.save_tag(p, tag, op["drop"])
    elif kind == "save":
        model.save(p)
    elif kind == "meta":
        model.meta(p, op["name"])
    elif kind == "delmeta":
        model.delete_meta(p, op["name"])
    elif kind == "delete":
        model.wipe(())
    elif kind == "clear":
        model.clear(p)


async def perform(c, op):
    p, tag, kind = tuple(op["path"]), op["tag"], op["op"]
    d = await c.at(p)
    if kind == "set":
        await d.call("set_tag", tag, D.value_of(op["value"]))
    elif kind == "put":
        await d.call("set_tag", tag, D.value_of(op["value"]), cache=False)
    elif kind == "pop":
        await d.call("pop_tag", tag, silent=True)
    elif kind == "del":
        del d.db[tag]
    elif kind == "save_tag":
        try:
            await d.call("save_tag", tag, drop_cache=op["drop"])
        except LookupError:
            pass
    elif kind == "save":
        await d.call("save_database")
    elif kind == "meta":
        await d.meta(op["name"])
    elif kind == "delmeta":
        try:
            await d.call("delete_metatag", op["name"])
        except LookupError:
            pass
    elif kind == "delete":
        await c.call("delete_database")
    elif kind == "clear":
        await d.call("clear_cache")


def run(w, plan):
    w.fs.mkdir(D.ROOT)
    model = Model()
    allowed = [view(model)]         # durable states the last operation permits
    for i, s in enumerate(plan["sessions"] + [None]):
        def life(cw, s=s, model=model, allowed=allowed):
            return one_life(cw, s, model, allowed)

        w.extra = {}
        status, ret = w.lifetime(life)
        if status == "crash":
            # the model as it was reported just before the fatal operation
            allowed = w.extra["allowed"]
            model = w.extra["model"]
            w.reach("crashed")
        else:
            model, allowed = ret


def one_life(w, s, model, allowed):
    flavour = s or {"async": False, "preload": False, "ops": []}
    state = {}

    async def main():
        c = await Client.open(flavour["async"], path=D.ROOT, preload=flavour["preload"])
        state["model"] = await observe(w, c, allowed)
        m = state["model"]
        if flavour["preload"]:
            for p in list(m.store):
                if all(p[i] in m.store[p[:i]].subs for i in range(len(p))):
                    for tag in list(m.store[p].listed):
                        m.query(p, tag, cache=True)
        # a database counts as saved from its first completed save on
        m.save(())
        state["allowed"] = [view(m)]
        w.extra = {"model": m, "allowed": state["allowed"]}
        await c.call("save_database")
        for op in flavour["ops"]:
            try:
                await step(w, c, m, op, state)
            except Reopen:
                return

    w.extra = {"model": model, "allowed": allowed}
    D.session(w, flavour["async"], main())
    return state["model"], state["allowed"]


async def step(w, c, m, op, state):
    p = tuple(op["path"])
    for i in range(len(p)):
        m.meta(p[:i], p[i])
    # sub-databases count as saved from their first completed save on
    d = await c.at(p)
    if op["op"] in ("put", "save_tag", "pop", "del") and m.node(p).disk is None:
        await d.call("save_database")
        m.save(p)
        if p:
            await c.call("save_database")
            m.save(())
    before = view(m)
    after = copy.deepcopy(m)
    apply(after, op)
    fault = op.get("fault")
    # what a crash from here on may leave
    w.extra = {"model": m, "allowed": [before, view(after)]}
    w.event(f"op {op['op']} {'/'.join(op['path'])} {op['tag'][:9]} {fault['kind'] if fault else ''}")
    failed = None
    if fault is None:
        await perform(c, op)
    elif fault["kind"] == "cancel":
        if not c.is_async:
            await perform(c, op)
        else:
            task = asyncio.ensure_future(perform(c, op))

            def fire():
                if not task.done():
                    w.fault("cancellation")
                    task.cancel()

            w.at_step(w.steps + 1 + fault["k"], fire)
            try:
                await task
            except asyncio.CancelledError as e:
                failed = e
    else:
        w.fs.faults = {w.fs.n_mut + fault["k"]: fault}
        try:
            await perform(c, op)
        except OSError as e:
            failed = e
        finally:
            w.fs.faults = {}
            w.fs.full = False
    if failed is None:
        apply(m, op)
        state["allowed"] = [view(m)]
        w.extra = {"model": m, "allowed": state["allowed"]}
        if op["op"] == "delete":
            raise Reopen
        return
    w.reach("failure_reported")
    state["allowed"] = [before, view(after)]
    if op["op"] not in ("put", "save_tag", "save") or op["after"] == "reopen":
        raise Reopen
    if op["op"] == "put":
        # set in memory already, whatever became of the file
        m.set(p, op["tag"], D.value_of(op["value"]))
    again = dict(op)
    again.pop("fault")
    if op["after"] == "newer":
        v = D.value_of(op["value2"])
        await d.call("set_tag", op["tag"], v)
        m.set(p, op["tag"], v)
        again["value"] = op["value2"]
        w.reach("newer_value_saved_after_failure")
    mid = view(after)
    apply(m, again)
    w.extra = {"model": m, "allowed": [before, mid, view(m)]}
    await perform(c, again)
    state["allowed"] = [view(m)]
    w.extra = {"model": m, "allowed": state["allowed"]}
    w.reach("saved_after_failure")


async def observe(w, c, allowed):
    """Reads everything back; the model that was found, if it is permitted."""
    m = Model()
    empty = (frozenset(), (), {})
    for p in sorted({p for a in allowed for p in a}, key=len):
        d = await c.at(p)
        n = m.node(p)
        here = [a.get(p, empty) for a in allowed]
        seen = (frozenset(d.db.tags), tuple(sorted(d.db.metatags)))
        w.check(
            any(seen == h[:2] for h in here), "index-lost",
            lambda: f"{p} lists {seen}, permitted {[h[:2] for h in here]}")
        n.listed, n.subs = set(seen[0]), list(seen[1])
        for tag in sorted({t for h in here for t in h[2]} | seen[0]):
            got = await d.query(tag)
            want = [h[2].get(tag, ABSENT) for h in here]
            if not any(D.same(got, v) for v in want):
                w.fail(
                    "saved-value-lost",
                    f"{tag!r} of {p} reads {D.show(got)}, permitted {[D.show(v) for v in want]}")
            if got is not ABSENT:
                n.files[tag] = got
                w.reach("saved_value_read_back")
        if p and p[-1] not in m.node(p[:-1]).subs:
            m.node(p[:-1]).subs.append(p[-1])       # looking at it lists it
    return m
