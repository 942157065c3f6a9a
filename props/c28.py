"""C28: processes that split off draw values of their own and do not get stuck."""

import copy
import sys

from sim import loop as L
from sim import world as W
from sim.actors import code, run_actors
from .c16 import source
from .passwords import use_less_memory

SHRINK = ["actors"]
ROOT = "/sim/db"
SURE = ["csprng"] * 5 + ["rng"]                                 # also without a good source
MORE = ["guid", "guid", "raw", "raw", "token", "cipher", "x25519", "ed25519"]
WORK = ["threads", "processes", "threads", "password", "salt", "salt", "database", "database", "profile"]     # nothing to compare

PROFILE = dict(username=b"someone", passphrase=b"a passphrase", salt=b"s" * 32, path=ROOT, mb=1)


def gen(rng, tier):
    how = rng.choice(["good", "good", "good", "stuck", "repeats", "cycles"])
    kinds = SURE + (MORE + WORK if how == "good" else [])
    focus = rng.choice([kinds, [rng.choice(kinds)], [rng.choice(sorted(set(kinds)))]])

    def draw():
        return {
            "op": "draw", "how": rng.choice(focus), "size": rng.choice([16, 16, 32, 64, 200]), "async": rng.random() < 0.4,
            "entropy": rng.choice(["none", "none", "bytes", "object"]), "freshness": rng.choice([0, 0, 1]),
        }

    def fork(depth):
        ops = [draw() for _ in range(rng.choice([1, 1, 2, 3]))]
        if depth < 2 and rng.random() < 0.3:
            ops.insert(rng.randrange(len(ops) + 1), fork(depth + 1))
        return {"op": "fork", "ops": ops}

    actors = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        ops = [draw() for _ in range(rng.choice([0, 1, 2, 4]))]
        for _ in range(rng.choice([0, 1, 1, 2])):
            ops.insert(rng.randrange(len(ops) + 1), fork(0))
        actors.append(ops)
    return {
        "cfg": {
            "mode": rng.choice(["tasks", "threads", "threads", "mixed", "mixed"]), "reorder": rng.choice([0, 0.5, 0.9]),
            "jitter": rng.choice([0, 0.3]), "jit_n": 6, "exec_n": 6,
            "exec_spread": rng.choice([0, 0.5]), "mean_gap": rng.choice([3, 10, 30, 100]), "opcodes": rng.random() < 0.5,
            "yield_p": rng.choice([0.05, 0.3, 0.6]), "tick_ns": rng.choice([0, 1, 100]),
        },
        "actors": actors, "source": how, "frozen": rng.random() < 0.4,
    }


def simplify(plan):
    def without(ops):
        for k, op in enumerate(ops):
            yield ops[:k] + ops[k + 1:]
            if op["op"] == "fork":
                for fewer in without(op["ops"]):
                    yield ops[:k] + [dict(op, ops=fewer)] + ops[k + 1:]

    for i, ops in enumerate(plan["actors"]):
        for fewer in without(ops):
            p = copy.deepcopy(plan)
            p["actors"][i] = fewer
            yield p


def nontrivial(out):
    return out["stats"].get("reach:drawn_after_split", 0) > 0


class Tools:
    """Objects that exist before anybody splits off."""

    def __init__(self, w, plan):
        import aiootp
        self.aiootp, self.w = aiootp, w
        self.randoms = aiootp.randoms
        self.guid = aiootp.GUID(key=b"s" * aiootp.GUID.key_size(16), config_id=16)
        self.raw = self.randoms.ids.raw_guid.RawGUID(b"\x01", config_id=16)
        self.cipher = aiootp.Chunky2048(b"k" * 64)
        self.numbers = 0
        w.fs.mkdir(ROOT)
        self.salt = aiootp._paths.SecureSaltPath(ROOT, key=b"k" * 32)
        self.salt_value = aiootp._paths._read_salt_file(self.salt)


def run(w, plan):
    use_less_memory()
    if plan["frozen"]:
        w.fault("clock_stopped")
        w.freeze_clock(True)
    if plan["source"] != "good":
        w.fault("random_source_" + plan["source"])
        source(w, plan["source"])
    tools = Tools(w, plan)
    made, forks = [], [0]

    def split(cw, who, op):
        """The process splits; the new one has this thread only."""
        forks[0] += 1
        name = f"{who} child {forks[0]}"
        pid, frozen, fault = cw.pid * 10 + forks[0], cw.clock_frozen, cw.urandom_fault

        def child(new):
            new.pid = new.split = pid
            if frozen:
                new.freeze_clock(True)
            new.urandom_fault = fault
            out = []
            for k, inner in enumerate(op["ops"]):
                step(new, f"{name} call {k}", inner, out)
            return out

        cw.fault("split")
        cw.event(f"{who} splits off")
        files = cw.fs
        tracer = sys.gettrace()     # the thread scheduler's; there is nobody to switch to in the new process
        sys.settrace(None)
        try:
            _, out = cw.lifetime(child)
            cw.fs = files       # of no concern here, and others may have files open
        finally:
            sys.settrace(tracer)
        cw.reach("split")
        return out

    def step(cw, who, op, out):
        if op["op"] == "fork":
            out.extend(split(cw, who, op))
        else:
            value = L.run(cw, adraw(tools, op)) if op["async"] else draw(tools, op)
            out.append((who, op["how"], value))
            cw.reach("drawn_after_split")
            cw.event(f"{who} {op['how']}")

    async def a_actor(i):
        for k, op in enumerate(plan["actors"][i]):
            who = f"actor {i} call {k}"
            if op["op"] == "fork":
                made.extend(split(w, who, op))
            else:
                made.append((who, op["how"], await adraw(tools, op)))
            w.event(f"{who} done")

    def s_actor(i):
        for k, op in enumerate(plan["actors"][i]):
            who = f"actor {i} call {k}"
            if op["op"] == "fork":
                made.extend(split(w, who, op))
            else:
                made.append((who, op["how"], draw(tools, op)))
            w.event(f"{who} done")

    run_actors(w, len(plan["actors"]), a_actor, s_actor, place=lambda i: (2, 0, 2, 0)[i],
               trace=code("randoms/", "keygens/curve_25519/", "asynchs/", "_paths.py", "databases/"))
    seen = {}
    for who, how, value in made:
        if how in WORK:
            continue
        head = value[:64] if how == "cipher" else value[:16]
        w.check(head not in seen, "repeated-value", lambda: (
            f"{who} got {how} {value.hex()[:40]}, which {seen[head]} had been given"))
        seen[head] = who


def extra(op):
    out = {}
    if op["entropy"] == "bytes":
        out["entropy"] = b"the same entropy"
    elif op["entropy"] == "object":
        out["entropy"] = {"the same": 1}
    if op["how"] == "rng":
        out["freshness"] = op["freshness"]
    return out


def draw(t, op):
    how, size = op["how"], op["size"]
    if how == "csprng":
        return t.aiootp.csprng(size, **extra(op))
    if how == "rng":
        return t.randoms.random_number_generator(size, **extra(op))
    if how == "guid":
        return t.guid.new()
    if how == "raw":
        return t.raw.new()
    if how == "token":
        return t.randoms.token_bytes(size)
    if how == "cipher":
        return t.cipher.bytes_encrypt(b"the same")
    if how in WORK:
        return work(t, op)
    cls = t.aiootp.X25519 if how == "x25519" else t.aiootp.Ed25519
    return cls().generate().secret_bytes


async def adraw(t, op):
    how, size = op["how"], op["size"]
    if not op["async"] and how != "rng" and how not in WORK:       # those would block the event loop
        return draw(t, op)
    if how == "csprng":
        return await t.aiootp.acsprng(size, **extra(op))
    if how == "rng":
        return await t.randoms.arandom_number_generator(size, **extra(op))
    if how == "guid":
        return await t.guid.anew()
    if how == "raw":
        return await t.raw.anew()
    if how == "token":
        return await t.randoms.atoken_bytes(size)
    if how == "cipher":
        return await t.cipher.abytes_encrypt(b"the same")
    if how in WORK:
        return await awork(t, op)
    cls = t.aiootp.X25519 if how == "x25519" else t.aiootp.Ed25519
    return (await cls().agenerate()).secret_bytes


def work(t, op):
    how = op["how"]
    t.numbers += 1
    key = t.numbers.to_bytes(64, "big")
    if how == "threads":
        right = t.aiootp.asynchs.Threads.submit(pow, 3, op["size"]).result() == 3 ** op["size"]
    elif how == "processes":
        right = t.aiootp.asynchs.Processes.submit(pow, 3, op["size"]).result() == 3 ** op["size"]
    elif how == "password":
        p = t.aiootp.Passcrypt(mb=1, cpu=1, cores=1, tag_size=16)
        p.verify(p.hash_passphrase(b"a passphrase"), b"a passphrase")
        right = True
    elif how == "salt":
        right = t.aiootp._paths._read_salt_file(t.salt) == t.salt_value
    elif how == "profile":
        db = t.aiootp.Database.generate_profile(**PROFILE)
        right = db.filename("tag") == t.aiootp.Database.generate_profile(**PROFILE).filename("tag")
    else:
        db = t.aiootp.Database(key, path=ROOT)
        with db:
            db["tag"] = op["size"]
        right = t.aiootp.Database(key, path=ROOT).query_tag("tag") == op["size"]
    W.CUR.check(right, "wrong-result", f"{how} gave a wrong result")
    W.CUR.reach("worked")


async def awork(t, op):
    how = op["how"]
    t.numbers += 1
    key = t.numbers.to_bytes(64, "big")
    if how == "threads":
        right = await (await t.aiootp.asynchs.Threads.asubmit(pow, 3, op["size"])).aresult() == 3 ** op["size"]
    elif how == "processes":
        right = await (await t.aiootp.asynchs.Processes.asubmit(pow, 3, op["size"])).aresult() == 3 ** op["size"]
    elif how == "password":
        p = t.aiootp.Passcrypt(mb=1, cpu=1, cores=1, tag_size=16)
        await p.averify(await p.ahash_passphrase(b"a passphrase"), b"a passphrase")
        right = True
    elif how == "salt":
        right = await t.aiootp._paths._aread_salt_file(t.salt) == t.salt_value
    elif how == "profile":
        db = await t.aiootp.AsyncDatabase.agenerate_profile(**PROFILE)
        other = await t.aiootp.AsyncDatabase.agenerate_profile(**PROFILE)
        right = await db.afilename("tag") == await other.afilename("tag")
    else:
        db = await t.aiootp.AsyncDatabase(key, path=ROOT)
        async with db:
            db["tag"] = op["size"]
        right = await (await t.aiootp.AsyncDatabase(key, path=ROOT)).aquery_tag("tag") == op["size"]
    W.CUR.check(right, "wrong-result", f"{how} gave a wrong result")
    W.CUR.reach("worked")
