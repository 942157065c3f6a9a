"""C07: damaged or misplaced database files are reported, never believed."""

from . import dbsim as D
from .dbsim import ABSENT, Client

SHRINK = ["damage", "trouble", "tags"]
KEYS = [b"\x11" * 64, b"\x22" * 64]


def gen(rng, tier):
    names = [[0, []], [0, []], [0, [D.METAS[0]]], [1, []]]
    tags = []
    for i in range(rng.choice([2, 3, 5])):
        db, path = rng.choice(names)
        tags.append({
            "db": db, "path": path, "tag": rng.choice(D.TAGS[:5]) if rng.random() < 0.6 else f"t{i}",
            "value": D.gen_value(rng), "older": D.gen_value(rng) if rng.random() < 0.3 else None,
        })
    damage = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        damage.append({
            "target": rng.randrange(1 << 16), "other": rng.randrange(1 << 16),
            "root": rng.random() < 0.2,
            "kind": rng.choice([
                "flip", "flip", "flip", "byte", "truncate", "truncate", "empty", "extend", "remove",
                "swap", "swap", "copy", "older", "zero", "block", "edges"]),
            "pos": rng.randrange(1 << 20), "bit": rng.randrange(8), "n": rng.randrange(1 << 16),
            "near": rng.choice(["any", "head", "tail", "edge"]),
        })
    trouble = []
    for _ in range(rng.choice([0, 0, 1, 2])):
        trouble.append({
            "at": rng.randrange(10), "call": rng.randrange(5), "arg": rng.randrange(99),
            "kind": rng.choice(["eio", "eio", "emfile", "short_read"]),
        })
    return {
        "trouble": trouble,
        "cfg": {"reorder": rng.choice([0, 0.5]), "exec_spread": rng.choice([0, 0.5])},
        "tags": tags, "damage": damage, "async1": rng.random() < 0.5, "async2": rng.random() < 0.5,
        "preload": rng.random() < 0.3, "restart": rng.random() < 0.5,
        "while_open": rng.random() < 0.3, "heal": rng.random() < 0.5,
    }


def nontrivial(out):
    return out["stats"].get("reach:damaged_read", 0) > 0


class Trouble:
    """Makes the disk fail some of the reads."""

    def __init__(self, w, plan):
        self.w = w
        self.plan = {t["at"]: t for t in plan.get("trouble", ())}
        self.n = 0

    def __enter__(self):
        fs = self.w.fs
        t = self.plan.get(self.n)
        self.n += 1
        self.before = len(fs.fired)
        fs.read_faults = {fs.n_read + t["call"]: t} if t else {}

    def __exit__(self, *_):
        self.w.fs.read_faults = {}

    @property
    def struck(self):
        return any(
            f.startswith(("eio", "emfile")) for f in self.w.fs.fired[self.before:])


def run(w, plan):
    w.fs.mkdir(D.ROOT)
    trouble = Trouble(w, plan)

    async def build(w, is_async):
        """Saves everything file by file, noting which file holds what."""
        def changed(before):
            now = w.fs.files(D.ROOT)
            return [p for p in sorted(now) if before.get(p) != now[p]]

        where, versions, roots = {}, {}, {}
        clients = {}
        for k in (0, 1):
            snap = w.fs.files(D.ROOT)
            clients[k] = await Client.open(is_async, key=KEYS[k], path=D.ROOT)
            await clients[k].call("save_database")
            (roots[(k, ())],) = changed(snap)
        for t in plan["tags"]:
            path = tuple(t["path"])
            if (t["db"], path) not in roots:
                d = await clients[t["db"]].at(path)
                snap = w.fs.files(D.ROOT)
                await d.call("save_database")
                (roots[(t["db"], path)],) = changed(snap)
                await clients[t["db"]].call("save_database")
        for t in plan["tags"]:
            path = tuple(t["path"])
            d = await clients[t["db"]].at(path)
            ident = (t["db"], path, t["tag"])
            for spec in (t["older"], t["value"]):
                if spec is None:
                    continue
                snap = w.fs.files(D.ROOT)
                await d.call("set_tag", t["tag"], D.value_of(spec))
                await d.call("save_tag", t["tag"])
                (file,) = changed(snap)
                where[ident] = file
                versions.setdefault(ident, []).append((D.value_of(spec), w.fs.peek(file)))
        old_roots = {r: w.fs.peek(f) for r, f in roots.items()}
        for c in clients.values():
            await c.call("clear_cache")
            await c.call("save_database")
        return where, versions, roots, old_roots, clients

    async def attack_and_read(is_async, where, versions, roots, old_roots, clients=None):
        intact = w.fs.files(D.ROOT)
        tag_files = sorted(where.items(), key=str)
        hit_roots = set()
        for dmg in plan["damage"]:
            if dmg["root"]:
                r = sorted(roots)[dmg["target"] % len(roots)]
                spoil(w, dmg, roots[r], old_roots[r], sorted(roots.values()) + [f for _, f in tag_files])
            else:
                ident, file = tag_files[dmg["target"] % len(tag_files)]
                old = versions[ident][0][1]
                spoil(w, dmg, file, old, [f for _, f in tag_files] + sorted(roots.values()))
        for r, file in roots.items():
            now = w.fs.peek(file)
            if now is None:
                hit_roots.add((r, "gone"))
            elif now not in (intact[file], old_roots[r]):
                hit_roots.add((r, "bad"))
        state = {}
        for k in (0, 1):
            bad = [r for r, how in hit_roots if r[0] == k and how == "bad"]
            gone = {r[1] for r, how in hit_roots if r[0] == k and how == "gone"}
            if clients is not None:
                c = clients[k]      # opened before the damage: indexes are in memory
                await c.call("clear_cache")
                bad, gone = [], set()
            else:
                preload = plan["preload"]
                try:
                    with trouble:
                        c = await Client.open(is_async, key=KEYS[k], path=D.ROOT, preload=preload)
                except Exception as e:
                    w.reach("open_refused")
                    if bad:
                        w.reach("damaged_read")
                        continue
                    if not preload and not trouble.struck:
                        w.fail_exc("open-refused-though-index-intact", e)
                    c = await Client.open(is_async, key=KEYS[k], path=D.ROOT)
                else:
                    if [r for r in bad if r[1] == () or () not in gone]:
                        w.fail("damaged-index-believed", f"database {k} opened with a damaged index {bad}")
            for ident, file in tag_files:
                if ident[0] != k:
                    continue
                if any(ident[1][:n] in gone for n in range(len(ident[1]) + 1)):
                    # a database without its index starts afresh
                    d = await c.at(ident[1])
                    got = await d.query(ident[2])
                    w.check(got is ABSENT, "value-without-index", lambda: f"{ident} reads {D.show(got)}")
                    continue
                await read_one(w, c, ident, file, versions[ident], plan, trouble)

    def spoil(w, dmg, file, old, others):
        data = w.fs.peek(file)
        kind = dmg["kind"]
        if data is None:
            return
        n = len(data)
        if not n and kind not in ("extend", "remove", "swap", "copy"):
            return
        if n:
            near = dmg["near"]
            pos = dmg["pos"] % n
            if near == "head":
                pos %= min(n, 64)
            elif near == "tail":
                pos = n - 1 - pos % min(n, 40)
            elif near == "edge":
                pos = min(n - 1, (pos // 64) * 64)
        w.fault("file_" + kind)
        w.event(f"damage {kind} {file[-8:]}")
        if kind == "flip":
            data = data[:pos] + bytes([data[pos] ^ 1 << dmg["bit"]]) + data[pos + 1:]
        elif kind == "byte":
            data = data[:pos] + bytes([(data[pos] + 1 + dmg["n"] % 255) % 256]) + data[pos + 1:]
        elif kind == "truncate":
            data = data[:pos]
        elif kind == "empty":
            data = b""
        elif kind == "extend":
            data += bytes([dmg["n"] % 256]) * (1 + dmg["pos"] % 300)
        elif kind == "zero":
            data = data[:pos] + b"\0" * len(data[pos:pos + 64]) + data[pos + 64:]
        elif kind == "block":
            at = (pos // 256) * 256
            data = data[:at] + data[at + 256:]
        elif kind == "edges":
            data = data[1:] + data[:1]
        elif kind == "older":
            data = old
        if kind == "remove":
            w.fs.drop(file)
            return
        if kind in ("swap", "copy"):
            other = others[dmg["other"] % len(others)]
            theirs = w.fs.peek(other)
            if other == file or theirs is None:
                return
            w.fs.poke(file, theirs)
            if kind == "swap":
                w.fs.poke(other, data)
            return
        w.fs.poke(file, data)

    async def both(is_async):
        found = await build(w, is_async)
        await attack_and_read(is_async, *found)

    if plan["while_open"]:
        D.session(w, plan["async1"], both(plan["async1"]))
        return
    if plan["restart"]:
        status, found = w.lifetime(
            lambda cw: D.session(cw, plan["async1"], build(cw, plan["async1"]))[:4])
        D.session(w, plan["async2"], attack_and_read(plan["async2"], *found))
    else:
        found = D.session(w, plan["async1"], build(w, plan["async1"]))
        D.session(w, plan["async2"], attack_and_read(plan["async2"], *found[:4]))


async def read_one(w, c, ident, file, versions, plan, trouble):
    d = await c.at(ident[1])
    data = w.fs.peek(file)
    good = [v for v, ct in versions if ct == data]
    for silent in (False, True):
        try:
            with trouble:
                got = await d.call("query_tag", ident[2], silent=silent)
        except Exception as e:
            if trouble.struck:
                w.reach("read_error_reported")
                if isinstance(e, LookupError):
                    w.fail_exc("unreadable-file-called-missing", e)
                continue
            if good:
                w.fail_exc("good-file-refused", e)
            if isinstance(e, LookupError) and data is not None:
                w.fail_exc("damaged-file-called-missing", e)
            if data is None and (silent or not isinstance(e, LookupError)):
                w.fail_exc("missing-file-not-tolerated", e)
            w.reach("damaged_read")
            continue
        if good:
            w.check(D.same(got, good[0]), "wrong-value", lambda: f"{ident} reads {D.show(got)}")
        elif data is None:
            w.reach("damaged_read")
            w.check(silent and got is None, "missing-file-believed", lambda: f"{ident} reads {D.show(got)}")
        else:
            w.fail("damaged-file-believed", f"{ident} reads {D.show(got)} (silent={silent})")
    if not good and plan["heal"]:
        await d.call("set_tag", ident[2], b"healed", cache=False)
        got = await d.query(ident[2])
        w.check(got == b"healed", "not-healed", lambda: f"{ident} reads {D.show(got)}")
        w.reach("healed")

