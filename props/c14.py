"""C14: ciphertexts are fresh whatever the clock does."""

import asyncio
import base64
import copy

from sim import loop as L
from sim.actors import code, run_actors

from . import dbsim as D
from . import streams as S

import aiootp
from aiootp import AsyncDatabase, Database

SHRINK = ["lives"]
SEC = 10 ** 9
# tag, salt, iv and inner header sizes of the published formats
LAYOUT = {"Chunky2048": (32, 8, 8, 20), "Slick256": (24, 8, 8, 12)}


def gen(rng, tier):
    name = rng.choice(list(S.CIPHERS))
    block = S.CIPHERS[name][1]
    stuck = rng.random() < 0.3
    mode = "tasks" if stuck else rng.choice(["tasks", "threads"])
    contents = [[rng.randrange(1 << 40), rng.choice([0, 1, block, 3 * block, 3 * block + 7, 5 * block])] for _ in range(2)]
    lives = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        actors = []
        for _ in range(1 if stuck else rng.choice([1, 2, 3])):
            actors.append([{
                "kind": rng.choice(
                    ["bytes", "bytes", "token", "stream", "json"] + ["db", "db bytes", "db json", "db token"] * (not stuck)),
                "async": rng.random() < 0.5, "what": rng.randrange(2), "salt": rng.random() < 0.3,
                "clock": rng.choice([0, 0, -SEC, SEC, 1, -10 ** 5 * SEC]),
                "parts": rng.choice([1, 2, 3]),
            } for _ in range(rng.choice([1, 2, 4, 6]))])
        lives.append({"frozen": rng.random() < 0.5, "back": rng.random() < 0.5, "actors": actors})
    return {
        "cfg": {
            "mode": mode, "reorder": rng.choice([0, 0.5, 0.9]), "jitter": rng.choice([0, 0.3]), "jit_n": 5,
            "exec_n": 6, "mean_gap": rng.choice([20, 100, 500, 2000]), "opcodes": rng.random() < 0.2,
            "yield_p": rng.choice([0.05, 0.3]), "stall_p": rng.choice([0, 0.1, 0.4]),
        },
        "cipher": name, "contents": contents, "stuck": stuck, "lives": lives,
    }


def simplify(plan):
    for i, life in enumerate(plan["lives"]):
        for j, ops in enumerate(life["actors"]):
            for k in range(len(ops)):
                p = copy.deepcopy(plan)
                del p["lives"][i]["actors"][j][k]
                yield p


def nontrivial(out):
    return out["stats"].get("reach:compared", 0) > 0


def run(w, plan):
    w.fs.mkdir(D.ROOT)
    for i in range(3):
        w.fs.mkdir(f"{D.ROOT}/{i}")
    w.fs.mkdir(f"{D.ROOT}/m")
    w.lifetime(lambda child: bool(Database(D.KEY, path=f"{D.ROOT}/m").save_database()))
    made = []       # (what, salted by the user, content, tag+salt+iv+body)
    start = w.wall_ns()
    for life in plan["lives"]:
        if life["back"]:
            w.fault("clock_set_back")
            w.set_wall(start)
        made += w.lifetime(lambda child: one_life(child, plan, life, len(made)))[1]
        w.fault("restart")
    judge(w, plan, made)


def one_life(w, plan, life, before):
    if life["frozen"]:
        w.fault("clock_stopped")
        w.freeze_clock(True)
    if plan["stuck"]:
        w.fault("random_source_stuck")
        w.urandom_fault = lambda n: b"\x07" * n
    Cipher = S.CIPHERS[plan["cipher"]][0]
    cipher = Cipher(b"key " * 16)
    made = []
    dbs = {}

    def content(op):
        n, size = plan["contents"][op["what"]]
        return S.data(n, size)

    def clock(op):
        if plan["stuck"]:
            # every encryption falls into a second of its own
            w.set_wall(1_800_000_000 * SEC + (before + len(made)) * 7 * SEC)
        elif op["clock"]:
            w.fault("clock_jump")
            w.jump_clock(op["clock"])

    def keep(op, data, raw):
        made.append([op["kind"], bool(op["salt"]) and op["kind"] in ("bytes", "json", "stream"), data, raw])
        w.event(f"{op['kind']} {op['what']} {op['clock']}")

    async def a_one(op, i):
        clock(op)
        data, kind = content(op), op["kind"]
        kw = {"salt": b"saltsalt"} if op["salt"] else {}
        if kind == "stream":
            tx = await S.Sender(cipher, op["async"], kw.get("salt"), b"").start()
            step = len(data) // op["parts"] + 1
            packets = []
            for at in range(0, len(data), step):
                await tx.feed(data[at:at + step])
                async for p in tx.draw():
                    packets.append(p)
            async for p in tx.finish():
                packets.append(p)
            id_size = len(packets[0]) - S.CIPHERS[plan["cipher"]][1]
            keep(op, data, tx.tag + tx.stream.salt + tx.stream.iv + b"".join(p[id_size:] for p in packets))
        elif kind.startswith("db "):
            if ("a", i) not in dbs:
                dbs["a", i] = await AsyncDatabase(D.KEY, path=f"{D.ROOT}/m")
            db = dbs["a", i]
            if kind == "db bytes":
                keep(op, data, await db.abytes_encrypt(data))
            elif kind == "db json":
                keep(op, b'"' + data.hex().encode() + b'"', await db.ajson_encrypt(data.hex()))
            else:
                keep(op, data, untoken(await db.amake_token(data)))
        elif kind == "db":
            db = await AsyncDatabase(D.KEY, path=f"{D.ROOT}/{i}")
            await db.aset_tag("t%d" % op["what"], data)
            await db.asave_database()
            collect(i, await db.afilename("t%d" % op["what"]))
        elif kind == "bytes":
            keep(op, data, await cipher.abytes_encrypt(data, **kw))
        elif kind == "json":
            keep(op, b'"' + data.hex().encode() + b'"', await cipher.ajson_encrypt(data.hex(), **kw))
        else:
            keep(op, data, untoken(await cipher.amake_token(data)))

    def s_one(op, i):
        clock(op)
        data, kind = content(op), op["kind"]
        kw = {"salt": b"saltsalt"} if op["salt"] else {}
        if kind == "stream":
            stream = cipher.stream_encrypt(**kw).buffer(data)
            body = b"".join(b for _, b in stream.finalize())
            keep(op, data, stream.shmac.result + stream.salt + stream.iv + body)
        elif kind.startswith("db "):
            if ("s", i) not in dbs:
                dbs["s", i] = Database(D.KEY, path=f"{D.ROOT}/m")
            db = dbs["s", i]
            if kind == "db bytes":
                keep(op, data, db.bytes_encrypt(data))
            elif kind == "db json":
                keep(op, b'"' + data.hex().encode() + b'"', db.json_encrypt(data.hex()))
            else:
                keep(op, data, untoken(db.make_token(data)))
        elif kind == "db":
            db = Database(D.KEY, path=f"{D.ROOT}/{i}")
            db.set_tag("t%d" % op["what"], data)
            db.save_database()
            collect(i, db.filename("t%d" % op["what"]))
        elif kind == "bytes":
            keep(op, data, cipher.bytes_encrypt(data, **kw))
        elif kind == "json":
            keep(op, b'"' + data.hex().encode() + b'"', cipher.json_encrypt(data.hex(), **kw))
        else:
            keep(op, data, untoken(cipher.make_token(data)))

    def collect(i, filename):
        made.append(["db", False, None, w.fs.peek(f"{D.ROOT}/{i}/{filename}")])
        w.event("db")

    async def a_actor(i):
        for op in life["actors"][i]:
            if op["async"] or op["kind"] == "stream":
                await a_one(op, i)
            else:
                s_one(op, i)
            await asyncio.sleep(0)

    def s_actor(i):
        for op in life["actors"][i]:
            w.sync_point("between")
            s_one(op, i)

    run_actors(w, len(life["actors"]), a_actor, s_actor, trace=code(
        "databases", "ciphers/cipher_interface", "ciphers/cipher_streams", "ciphers/padding", "ciphers/key_bundle", "ciphers/cipher_kdfs"))
    return made


def untoken(token):
    return base64.urlsafe_b64decode(token + b"=" * (-len(token) % 4))


def judge(w, plan, made):
    salts, ivs, tags, blocks, keys = {}, {}, {}, {}, {}

    def once(table, value, k, what):
        if value in table:
            a, b = made[table[value]], made[k]
            w.fail("repeated-" + what, (
                f"encryption {table[value]} ({a[0]}) and {k} ({b[0]}) have the same {what} {value[:16].hex()}"))
        table[value] = k

    for k, (kind, salted, data, raw) in enumerate(made):
        name = plan["cipher"]
        if kind.startswith("db"):
            name = "Slick256" if kind == "db token" else "Chunky2048"
        tag_n, salt_n, iv_n, head = LAYOUT[name]
        block = S.CIPHERS[name][1]
        tag, rest = raw[:tag_n], raw[tag_n:]
        salt, rest = rest[:salt_n], rest[salt_n:]
        iv, body = rest[:iv_n], rest[iv_n:]
        w.check(body and len(body) % block == 0, "layout", f"{kind} ciphertext has {len(raw)} bytes")
        once(tags, tag, k, "tag")
        if not plan["stuck"]:
            if not salted:
                once(salts, salt, k, "salt")
            once(ivs, iv, k, "iv")
        for at in range(0, len(body), block):
            once(blocks, body[at:at + block], k, "ciphertext-block")
            if name == "Chunky2048" and data is not None and at and at - head + block <= len(data):
                plain = data[at - head:at - head + block]
                once(keys, bytes(map(int.__xor__, plain, body[at:at + block])), k, "keystream-block")
        if name == "Chunky2048" and data is not None and len(data) >= block - head:
            once(keys, bytes(map(int.__xor__, data[:block - head], body[head:block])), k, "keystream-block")
        if k:
            w.reach("compared")
