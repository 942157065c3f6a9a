"""C06: a database behaves like a persistent map for one client."""

import errno

from . import dbsim as D
from .dbsim import ABSENT, Client, Model

SHRINK = ["ops"]

OPS = (
    ["set"] * 5 + ["setitem"] * 3 + ["query"] * 4 + ["get"] * 2 + ["pop"] * 2 + ["del"]
    + ["rollback"] * 2 + ["clear"] + ["save_tag"] * 2 + ["save"] * 5 + ["reopen"] * 3
    + ["meta"] * 3 + ["delmeta"] + ["look"] * 2 + ["load_tags"] + ["reload"]
)


def gen(rng, tier):
    ntags = rng.choice([1, 2, 3, 10])
    tags = rng.sample(D.TAGS, ntags)
    ops = []
    paths = [[], [], [], [D.METAS[0]], [D.METAS[1]], [D.METAS[0], D.METAS[2]]]
    depth = rng.choice([1, 4, 6])
    for _ in range(rng.choice([4, 8, 14, 24])):
        kind = rng.choice(OPS)
        op = {"op": kind, "path": rng.choice(paths[:depth]), "tag": rng.choice(tags)}
        if kind in ("set", "setitem"):
            op["value"] = D.gen_value(rng)
        if kind in ("set", "query", "rollback"):
            op["cache"] = rng.random() < 0.6
        if kind in ("query", "pop"):
            op["silent"] = rng.random() < 0.4
        if kind == "reload":
            op["preload"] = rng.random() < 0.4
            op["index"] = rng.random() < 0.6
        if kind == "clear":
            op["metatags"] = rng.random() < 0.7
        if kind == "save_tag":
            op["drop"] = rng.random() < 0.4
        if kind in ("meta", "delmeta"):
            op["name"] = rng.choice(D.METAS)
        if kind == "reopen":
            op["async"] = rng.random() < 0.5
            op["preload"] = rng.random() < 0.4
            op["restart"] = rng.random() < 0.4
            op["context"] = rng.random() < 0.15
        if kind == "query" and rng.random() < 0.1:
            op["read_fault"] = [rng.randrange(4), rng.choice(["eio", "short_read"]), rng.randrange(99)]
        ops.append(op)
    return {
        "cfg": {
            "reorder": rng.choice([0, 0.5, 0.9]), "jitter": rng.choice([0, 0.3]),
            "exec_spread": rng.choice([0, 0.5]),
        },
        "async0": rng.random() < 0.5, "default_path": rng.random() < 0.1, "ops": ops,
    }


def nontrivial(out):
    return out["stats"].get("reach:read_of_saved", 0) > 0


def split(ops, first_async):
    """Cuts the plan into sessions: (is_async, preload, restart, context, ops)."""
    out = [[first_async, False, False, False, []]]
    for op in ops:
        if op["op"] == "reopen":
            out[-1][3] = op["context"]
            out.append([op["async"], op["preload"], op["restart"], False, []])
        else:
            out[-1][4].append(op)
    return out


def run(w, plan):
    if not plan["default_path"]:
        w.fs.mkdir(D.ROOT)
    model = Model()
    sessions = split(plan["ops"], plan["async0"])
    # lifetimes: consecutive sessions without a restart share one process
    groups = []
    for s in sessions:
        if s[2] or not groups:
            groups.append([])
        groups[-1].append(s)
    first = True
    for group in groups:
        def life(cw, group=group, model=model, first=first):
            for i, s in enumerate(group):
                if not (first and i == 0):
                    model.reopen()
                    cw.reach("reopened")
                D.session(cw, s[0], one_session(cw, plan, model, s))
            return model

        if len(groups) == 1:
            life(w)
        else:
            status, model = w.lifetime(life)
        first = False


async def one_session(w, plan, model, s):
    is_async, preload, _, context, ops = s
    path = None if plan["default_path"] else D.ROOT
    c = await Client.open(is_async, path=path, preload=preload)
    if preload:
        for p in list(model.store):
            n = model.store[p]
            if reachable(model, p):
                for tag in list(n.listed):
                    model.query(p, tag, cache=True)
    await look(w, c, model, ())
    if context:
        if is_async:
            async with c.db:
                await do_ops(w, c, model, ops)
        else:
            with c.db:
                await do_ops(w, c, model, ops)
        model.save(())
    else:
        await do_ops(w, c, model, ops)
    await look(w, c, model, ())


def reachable(model, p):
    return all(p[i] in model.store[p[:i]].subs for i in range(len(p)))


async def do_ops(w, c, model, ops):
    for i, op in enumerate(ops):
        w.event(f"op {op['op']} {'/'.join(op['path'])} {op['tag'][:9]}")
        await one_op(w, c, model, op)


async def one_op(w, c, model, op):
    p, tag, kind = tuple(op["path"]), op["tag"], op["op"]
    for i in range(len(p)):
        model.meta(p[:i], p[i])
    d = await c.at(p)

    def expect(got, want, what):
        if want is not ABSENT and want in (None,) and got is None:
            return
        if not D.same(got, want):
            w.fail("wrong-value", f"{what} of {tag!r} in {p} gave {D.show(got)}, the model {D.show(want)}")

    if kind in ("set", "setitem"):
        v = D.value_of(op["value"])
        cache = op.get("cache", True)
        if kind == "set":
            await d.call("set_tag", tag, v, cache=cache)
        else:
            d.db[tag] = v
        model.set(p, tag, v, cache)
    elif kind == "query":
        fault = op.get("read_fault")
        if fault:
            w.fs.read_faults = {w.fs.n_read + fault[0]: {"kind": fault[1], "arg": fault[2]}}
        try:
            got = await d.query(tag, cache=op["cache"], silent=op["silent"])
        except OSError as e:
            if e.errno != errno.EIO:
                raise
            w.reach("read_error_reported")
            return
        finally:
            w.fs.read_faults = {}
        if tag not in model.node(p).cache and tag in model.node(p).files:
            w.reach("read_of_saved")
        want = model.query(p, tag, cache=op["cache"])
        if op["silent"] and want is ABSENT:
            want = None
        expect(got, want, "query")
    elif kind == "get":
        expect(d.db[tag], model.get(p, tag), "lookup")
    elif kind == "pop":
        want, had = model.pop(p, tag)
        try:
            got = await d.call("pop_tag", tag, silent=op["silent"])
            w.check(had or op["silent"], "pop-of-nothing", lambda: f"popping unknown {tag!r} did not fail")
        except LookupError:
            w.check(
                not had and not op["silent"], "pop-refused",
                lambda: f"popping {tag!r} failed though it was there")
            return
        expect(got, None if want is ABSENT else want, "pop")
    elif kind == "del":
        del d.db[tag]
        model.pop(p, tag)
    elif kind == "rollback":
        await d.call("rollback_tag", tag, cache=op["cache"])
        model.rollback(p, tag, op["cache"])
    elif kind == "clear":
        await d.call("clear_cache", metatags=op["metatags"])
        model.clear(p, op["metatags"])
    elif kind == "save_tag":
        try:
            await d.call("save_tag", tag, drop_cache=op["drop"])
            ok = True
        except LookupError:
            ok = False
        want = model.save_tag(p, tag, op["drop"])
        w.check(ok == want, "save-tag", lambda: f"save_tag({tag!r}) {'worked' if ok else 'failed'}")
    elif kind == "save":
        await d.call("save_database")
        model.save(p)
    elif kind == "meta":
        await d.meta(op["name"])
        model.meta(p, op["name"])
    elif kind == "delmeta":
        try:
            await d.call("delete_metatag", op["name"])
            ok = True
        except LookupError:
            ok = False
        want = model.delete_meta(p, op["name"])
        w.check(ok == want, "delete-metatag", lambda: f"delete_metatag {'worked' if ok else 'failed'}")
    elif kind == "load_tags":
        await d.call("load_tags", silent=True)
        for t in list(model.node(p).listed):
            model.query(p, t, cache=True)
    elif kind == "reload":
        n = model.node(p)
        if n.disk is None and op["index"]:
            return
        await d.call("load_database", manifest=op["index"], preload=op["preload"], silent=True)
        if op["index"]:
            n.listed, n.subs = set(n.disk[0]), list(n.disk[1])
            for name in n.subs:
                model.node(p + (name,))
        if op["preload"]:
            for t in list(n.listed):
                model.query(p, t, cache=True)
    elif kind == "look":
        await look(w, c, model, p)


async def look(w, c, model, p):
    """Everything observable about one database and those below it."""
    d = await c.at(p)
    n = model.node(p)
    db = d.db
    w.check(set(db.tags) == n.listed, "tags", lambda: f"tags of {p}: {sorted(db.tags)} not {sorted(n.listed)}")
    w.check(len(db) == len(n.listed), "len", lambda: f"len of {p}: {len(db)} not {len(n.listed)}")
    w.check(set(db.metatags) == set(n.subs), "metatags", lambda: f"metatags {db.metatags} not {n.subs}")
    w.check(bool(db) == bool(n.listed or n.subs), "truth", lambda: f"bool({p}) is {bool(db)}")
    for tag in D.TAGS:
        want = tag in n.listed or tag in n.cache
        w.check((tag in db) == want, "contains", lambda: f"{tag!r} in {p} is not {want}")
        got = await d.query(tag)
        want = model.query(p, tag)
        if tag in n.files and tag not in n.cache:
            w.reach("read_of_saved")
        w.check(
            D.same(got, want), "wrong-value",
            lambda: f"query of {tag!r} in {p} gave {D.show(got)}, the model {D.show(want)}")
    for name in n.subs:
        w.check(
            getattr(db, name) is (await d.meta(name)).db, "handle",
            lambda: f"{name} is not the attribute of {p}")
        await look(w, c, model, p + (name,))
