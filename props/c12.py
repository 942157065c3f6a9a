"""C12: one-shot messages and tokens are delivered as sent or rejected."""

import asyncio
import base64
import copy
import json

from sim import loop as L
from sim.actors import code, run_actors
from sim.net import Net, gen_net

from . import dbsim as D
from . import streams as S

import aiootp

SHRINK = ["senders"]
KEYS = [b"key " * 16, b"yek " * 16]
AADS = [b"", b"aad", b"aad\0", b"x" * 300, None]
NAMES = ["", "f", "f\0", "ünïcode✓"]
FALSY = ["", 0, False, [], {}, {"": ""}, 0.0, "\0", "0", [None]]
KINDS = ["bytes", "json", "token"]


def gen(rng, tier):
    name = rng.choice(list(S.CIPHERS))
    block = S.CIPHERS[name][1]
    mode = rng.choice(["tasks", "tasks", "threads"])
    senders = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        senders.append([{
            "n": rng.randrange(1 << 40), "size": S.sizes(rng, block), "kind": rng.choice(KINDS),
            "async": rng.random() < 0.5, "read_async": rng.random() < 0.5,
            "key": int(rng.random() < 0.2), "aad": rng.choice([0, 1, 2, 3, 4]),
            "salt": rng.random() < 0.2, "name": rng.choice([0, 0, 1, 2, 3]), "pre": rng.choice([0, 0, 2e-5, 1e-3]),
            # what the reader believes, when it is not what the sender did
            "read_as": rng.choice([None] * 8 + ["key", "aad", "name", "cipher"]),
        } for _ in range(rng.choice([1, 2, 3, 5]))])
    net = gen_net(rng)
    net["loss"] = 0
    return {
        "cfg": {
            "mode": mode, "reorder": rng.choice([0, 0.3, 0.9]), "jitter": rng.choice([0, 0.3]), "jit_n": 5,
            "mean_gap": rng.choice([20, 80, 300, 1500]), "opcodes": rng.random() < 0.2,
            "yield_p": rng.choice([0.05, 0.3, 0.6]), "stall_p": rng.choice([0, 0.1, 0.4]),
        },
        "cipher": "Database" if rng.random() < 0.25 else name, "net": net, "senders": senders,
    }


def simplify(plan):
    for i, ops in enumerate(plan["senders"]):
        for j, op in enumerate(ops):
            p = copy.deepcopy(plan)
            del p["senders"][i][j]
            yield p
            for key, plain in (("async", False), ("read_async", False), ("salt", False), ("aad", 0), ("name", 0), ("pre", 0), ("read_as", None)):
                if op[key] != plain:
                    p = copy.deepcopy(plan)
                    p["senders"][i][j][key] = plain
                    yield p
    for key in plan["net"]:
        if plan["net"][key]:
            p = copy.deepcopy(plan)
            p["net"][key] = 0
            yield p


def nontrivial(out):
    return out["stats"].get("reach:read", 0) > 0 and out["stats"].get("reach:refused", 0) > 0


def content(op):
    raw = S.content(op["n"], op["size"])
    if op["kind"] == "json":
        return [{"text": raw.hex(), "n": [op["size"], None, True, -1.5]}, raw.hex(), op["size"], None,
                {"✓\ud83d": [raw.hex()]}, FALSY[op["size"] % len(FALSY)]][op["n"] % 6]
    return raw


def wire(kind, got):
    """The ciphertext bytes a received message stands for, None for none."""
    if kind != "token":
        return got
    try:
        return base64.urlsafe_b64decode(got + b"=" * (-len(got) % 4))
    except ValueError:
        return None


class Case:
    def __init__(self, w, plan):
        self.w, self.plan = w, plan
        self.other = "Slick256" if plan["cipher"] == "Chunky2048" else "Chunky2048"
        self.ciphers = {
            (name, i): S.CIPHERS[name][0](key) for i, key in enumerate(KEYS) for name in S.CIPHERS}
        self.sent = {}      # wire bytes -> (cipher name, key, aad, file name, kind, content)
        if plan["cipher"] == "Database":
            self.open_databases()

    def open_databases(self):
        """One saved database for each key, with an object of either interface."""
        w = self.w
        w.fs.mkdir(D.ROOT)
        for i, key in enumerate(KEYS):
            db = aiootp.Database(key, path=D.ROOT)
            db.save_database()
            self.ciphers["Database", i] = db
        if w.cfg["mode"] == "tasks":
            async def opened():
                for i, key in enumerate(KEYS):
                    self.ciphers["AsyncDatabase", i] = await aiootp.AsyncDatabase(key, path=D.ROOT)
            L.run(w, opened())

    def expect(self, op, got):
        """(cipher, kind, key, aad, file name) the reader uses for this message."""
        name, kind, key, aad = self.plan["cipher"], op["kind"], op["key"], op["aad"]
        file = op["name"] if name == "Database" else 0
        how = op["read_as"]
        if how == "key":
            key = 1 - key
        elif how == "aad":
            aad = (aad + 1) % len(AADS)
        elif how == "cipher":
            name = self.other
        elif how == "name" and name == "Database":
            file = (file + 1) % len(NAMES)
        return name, kind, key, aad, file

    def made(self, op, message):
        self.w.event(f"sent {op['kind']} {op['size']}")
        kind = op["kind"]
        if kind == "token":
            self.w.check(set(message) <= set(
                b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"),
                "token-not-urlsafe", f"{message[:40]}")
        raw = wire(kind, message)
        self.w.check(raw not in self.sent, "repeated-ciphertext", "two messages have one ciphertext")
        name = self.plan["cipher"]
        self.sent[raw] = (name, op["key"], AADS[op["aad"]] or b"", op["name"] if name == "Database" else 0, kind, content(op))

    def judge(self, op, believed, got, result, error):
        w = self.w
        name, kind, key, aad, file = believed
        raw = wire(kind, got)
        genuine = self.sent.get(raw)
        right = genuine is not None and genuine[:4] == (name, key, AADS[aad] or b"", file)
        what = f"{kind} message {got[:24].hex()}.. read with key {key}, associated data {aad}, file name {file}"
        w.event(f"read {kind} {'error' if error else 'ok'}")
        if not right:
            if error is None:
                w.fail("accepted-wrong", f"{what} gave a result though nobody sent it so")
            w.reach("refused")
            return
        sent_kind, data = genuine[4], genuine[5]
        if sent_kind != kind and "json" in (sent_kind, kind):
            if error is None:
                want = json.dumps(data).encode() if sent_kind == "json" else None
                w.check(want is None or result == want, "wrong-content", what)
            return
        if error is not None:
            if got not in (raw, base64.urlsafe_b64encode(raw).rstrip(b"=")):
                return      # another spelling of the token may be refused
            w.fail_exc("refused-genuine", error)
        w.check(D.same(result, data), "wrong-content", lambda: f"{what}: {result!r:.80} is not {data!r:.80}")
        w.reach("read")

    def kw(self, op):
        kw = {} if AADS[op["aad"]] is None else {"aad": AADS[op["aad"]]}
        if self.plan["cipher"] == "Database":
            kw["filename"] = NAMES[op["name"]]
        elif op["salt"] and op["kind"] != "token":
            kw["salt"] = b"saltsalt"
        return kw

    def find(self, name, key, is_async):
        """The cipher or database to use."""
        return self.ciphers["AsyncDatabase" if name == "Database" and is_async else name, key]

    def read_kw(self, name, aad, file):
        kw = {} if AADS[aad] is None else {"aad": AADS[aad]}
        if name == "Database":
            kw["filename"] = NAMES[file]
        return kw

    def s_make(self, op):
        c = self.find(self.plan["cipher"], op["key"], False)
        fn = {"bytes": c.bytes_encrypt, "json": c.json_encrypt, "token": c.make_token}[op["kind"]]
        self.made(op, m := fn(content(op), **self.kw(op)))
        return m

    async def a_make(self, op):
        if not op["async"]:
            return self.s_make(op)
        c = self.find(self.plan["cipher"], op["key"], True)
        fn = {"bytes": c.abytes_encrypt, "json": c.ajson_encrypt, "token": c.amake_token}[op["kind"]]
        self.made(op, m := await fn(content(op), **self.kw(op)))
        return m

    def s_read(self, op, got):
        believed = name, kind, key, aad, file = self.expect(op, got)
        c = self.find(name, key, False)
        fn = {"bytes": c.bytes_decrypt, "json": c.json_decrypt, "token": c.read_token}[kind]
        result = error = None
        try:
            result = fn(got, **self.read_kw(name, aad, file))
        except Exception as e:
            error = e
        self.judge(op, believed, got, result, error)

    async def a_read(self, op, got):
        if not op["read_async"]:
            return self.s_read(op, got)
        believed = name, kind, key, aad, file = self.expect(op, got)
        c = self.find(name, key, True)
        fn = {"bytes": c.abytes_decrypt, "json": c.ajson_decrypt, "token": c.aread_token}[kind]
        result = error = None
        try:
            result = await fn(got, **self.read_kw(name, aad, file))
        except Exception as e:
            error = e
        self.judge(op, believed, got, result, error)


def resize(w, net, data):
    """Cuts or lengthens a message."""
    how = w.choices.pick("size", 4)
    if how == 0:
        return data[:w.choices.pick("size", len(data))]
    if how == 1:
        return data + b"A" * (1 + w.choices.pick("size", 300))
    if how == 2:
        return data[1 + w.choices.pick("size", len(data) - 1):]
    other = net.seen[w.choices.pick("size", len(net.seen))] if net.seen else data
    return data + other


def run(w, plan):
    case = Case(w, plan)
    net = Net(w, plan["net"])
    if w.cfg["mode"] == "tasks":
        return L.run(w, tasks(w, plan, case, net))

    def actor(i):
        for op in plan["senders"][i]:
            w.sync_point("between")
            message = case.s_make(op)
            todo = [message]
            if net._chance("damage"):
                w.fault("message_damaged")
                todo.insert(0, net.mangle(message))
            if net._chance("dup"):
                w.fault("message_resized")
                todo.insert(0, resize(w, net, message))
            if net.seen and net._chance("foreign"):
                w.fault("message_replaced_by_another")
                todo.insert(0, net.seen[net._pick(len(net.seen))])
            net.seen.append(message)
            for m in todo:
                case.s_read(op, m)

    run_actors(w, len(plan["senders"]), None, actor, trace=code("ciphers", "generics", "databases"))


async def tasks(w, plan, case, net):
    waiting = []

    async def sender(ops):
        for op in ops:
            await asyncio.sleep(op["pre"])
            message = await case.a_make(op)

            def deliver(m, op=op):
                if net._chance("damage") and len(m) > 2:
                    w.fault("message_resized")
                    waiting.append(asyncio.ensure_future(case.a_read(op, resize(w, net, m))))
                waiting.append(asyncio.ensure_future(case.a_read(op, m)))

            net.send("x", message, deliver)

    await asyncio.gather(*[sender(ops) for ops in plan["senders"]])
    await asyncio.sleep(0.2)
    await asyncio.gather(*waiting)
