"""C17: key exchanges agree exactly when the messages arrive intact."""

import asyncio
import copy

from sim import loop as L
from sim.actors import code, run_actors
from sim.net import Net, gen_net

from aiootp import X25519

SHRINK = ["sessions"]


class Weather(Net):
    """Also damages the bit of a public key that the curve ignores."""

    def mangle(self, data):
        if len(data) % 32 == 0 and data and self._pick(2):
            out = bytearray(data)
            out[31 + 32 * self._pick(len(data) // 32)] ^= 0x80
            return bytes(out)
        return super().mangle(data)


class Claimed(X25519):
    """A key of one's own under the public key of somebody else."""

    __slots__ = ("_claimed_bytes",)

    @property
    def public_bytes(self):
        return getattr(self, "_claimed_bytes", None) or super().public_bytes


def gen(rng, tier):
    mode = rng.choice(["tasks", "tasks", "threads"])
    net = gen_net(rng)
    if rng.random() < 0.3:
        net = dict.fromkeys(net, 0)
    p_bad = rng.choice([0, 0.2, 0.5])
    sessions = []
    for _ in range(rng.choice([1, 2, 3, 5])):
        sessions.append({
            "proto": rng.choice(["dh2", "dh3", "dh3"]), "client": rng.randrange(2), "server": rng.randrange(2),
            "aclient": rng.random() < 0.6, "aserver": rng.random() < 0.6,
            "who": rng.choice(["false server", "false client", "wrong server"]) if rng.random() < p_bad else "honest",
            "start": rng.choice([0, 0, 0.0003, 0.01]), "tries": rng.choice([1, 2, 4]),
            "raw_keys": rng.random() < 0.2,
        })
    return {
        "cfg": {
            "mode": mode, "reorder": rng.choice([0, 0.5, 0.9]), "jitter": rng.choice([0, 0.3]), "jit_n": 5,
            "mean_gap": rng.choice([5, 20, 60]), "opcodes": rng.random() < 0.3, "yield_p": 0.2,
        },
        "net": net, "sessions": sessions,
    }


def simplify(plan):
    for k in plan["net"]:
        if plan["net"][k]:
            yield dict(plan, net=dict(plan["net"], **{k: 0}))
    for i in range(len(plan["sessions"])):
        for k, v in (("aclient", False), ("aserver", False), ("start", 0), ("tries", 1)):
            if plan["sessions"][i][k] != v:
                p = copy.deepcopy(plan)
                p["sessions"][i][k] = v
                yield p


def nontrivial(out):
    return out["stats"].get("reach:both_ended", 0) > 0


class Session:
    """One client, and whatever server objects answer to its messages."""

    def __init__(self, w, i, plan, keys):
        self.w, self.i, self.plan = w, i, plan
        self.proto, who = plan["proto"], plan["who"]
        if who == "false client" and self.proto == "dh2":
            who = "honest"  # clients have no identity there
        self.who = who
        self.my, self.server_id = keys[0][plan["client"]], keys[1][plan["server"]]
        self.expected = self.server_id.public_bytes
        if who == "wrong server":
            self.server_id = keys[1][1 - plan["server"]]
        elif who == "false server":
            self.server_id = claim(self.expected)
        elif who == "false client":
            self.my = claim(self.my.public_bytes)
        if who != "honest":
            w.fault(who.replace(" ", "_"))
        self.client = X25519.dh2_client() if self.proto == "dh2" else self.my.dh3_client()
        self.sent = None
        self.fresh_server()
        self.server_open = 0
        self.client_ok = False
        self.client_used = 0

    def fresh_server(self):
        self.server = self.server_id.dh2_server() if self.proto == "dh2" else self.server_id.dh3_server()
        self.server_ok, self.server_used = False, 0

    def split(self, message):
        return (message,) if self.proto == "dh2" else (message[:32], message[32:])

    def opened(self, message):
        self.sent = message if self.proto == "dh2" else b"".join(message)
        return self.sent

    def peer(self):
        return X25519().import_public_key(self.expected).public_key if self.plan["raw_keys"] else self.expected

    # what either side ends up with
    def server_took(self, book, message, kdf):
        w = self.w
        w.check(not self.server_ok, "second-message-accepted", f"session {self.i}: the server took a second message")
        self.server_ok = True
        reply = self.server.send()
        book["server"].append((self.transcript(self.split(message), self.server_id.public_bytes, reply),
                               self.who == "false server", digest(kdf), f"server of session {self.i}"))
        return reply

    def server_refused(self, message, error):
        if self.server_used == 1 and message == self.sent:
            self.w.fail_exc("good-message-refused", error)
        self.w.reach("server_refused")

    def client_took(self, book, reply, kdf):
        w = self.w
        w.check(not self.client_ok, "second-message-accepted", f"session {self.i}: the client took a second message")
        self.client_ok = True
        book["client"].append((self.transcript(self.split(self.sent), self.expected, reply),
                               self.who == "false client", digest(kdf), f"client of session {self.i}"))

    def client_refused(self, reply, error, book):
        if self.client_used == 1 and any(reply == t[-1] for t, *_ in book["server"]):
            self.w.fail_exc("good-message-refused", error)
        self.w.reach("client_refused")

    def transcript(self, first, server_id, reply):
        return (self.proto, *first, server_id, reply)


def claim(public_bytes):
    key = Claimed().generate()
    key._claimed_bytes = public_bytes
    return key


def digest(kdf):
    return kdf.sha3_256(b"probe"), kdf.shake_256(b"probe", size=40), kdf.copy().sha3_512()


def run(w, plan):
    keys = [[X25519().generate() for _ in range(2)] for _ in range(2)]
    book = {"client": [], "server": []}
    sessions = [Session(w, i, s, keys) for i, s in enumerate(plan["sessions"])]
    if plan["cfg"]["mode"] == "tasks":
        L.run(w, networked(w, plan, sessions, book))
    else:
        run_actors(w, len(sessions), None, lambda i: alone(w, plan, sessions, i, book),
                   trace=code("keygens/", "commons/instances"))
    judge(w, book)


def judge(w, book):
    everyone = [(side, *entry) for side in book for entry in book[side]]
    for n, (side_a, trans_a, false_a, keys_a, name_a) in enumerate(everyone):
        for side_b, trans_b, false_b, keys_b, name_b in everyone[:n]:
            same = trans_a == trans_b
            if same and not false_a and not false_b:
                w.check(keys_a == keys_b, "keys-differ", lambda: (
                    f"{name_a} and {name_b} saw the same messages and keys but derived different keys"))
                w.reach("agreed")
            else:
                w.check(all(x != y for x, y in zip(keys_a, keys_b)), "keys-agree", lambda: (
                    f"{name_a} and {name_b} derived the same keys, although "
                    + ("one of them is an impostor" if same else "they did not see the same messages")))
                w.reach("kept_apart")
    if book["client"] and book["server"]:
        w.reach("both_ended")


# ------------------------------------------------------------ over a network
async def networked(w, plan, sessions, book):
    net = Weather(w, plan["net"])
    open_tasks = set()

    def spawn(coro):
        task = asyncio.ensure_future(coro)
        open_tasks.add(task)
        return task

    async def to_server(s, message):
        s.server_used += 1
        s.server_open += 1
        w.event(f"server {s.i} gets {'it' if message == s.sent else 'other'}")
        try:
            if s.plan["aserver"]:
                kdf = await s.server.areceive(*s.split(message))
            else:
                kdf = s.server.receive(*s.split(message))
        except Exception as error:
            s.server_refused(message, error)
        else:
            s.server_took(book, message, kdf)
        finally:
            s.server_open -= 1
        if not s.server_ok:
            if not s.server_open:
                s.fresh_server()
            return
        reply = await s.server.asend() if s.plan["aserver"] else s.server.send()
        net.send(f"s{s.i}", reply, lambda r: spawn(to_client(s, r)))

    async def to_client(s, reply):
        w.event(f"client {s.i} gets a reply")
        s.client_used += 1
        try:
            if s.plan["aclient"]:
                kdf = await s.client.areceive(reply)
            else:
                kdf = s.client.receive(reply)
        except Exception as error:
            s.client_refused(reply, error, book)
        else:
            s.client_took(book, reply, kdf)

    async def session(s):
        await asyncio.sleep(s.plan["start"])
        message = s.opened(await s.client.asend(s.peer()) if s.plan["aclient"] else s.client.send(s.peer()))
        for _ in range(s.plan["tries"]):
            net.send(f"c{s.i}", message, lambda m: spawn(to_server(s, m)))
            await asyncio.sleep(0.02)
        await asyncio.sleep(0.2)

    await asyncio.gather(*map(session, sessions))
    for task in list(open_tasks):
        await task


# ------------------------------------------------ one thread for each session
def alone(w, plan, sessions, i, book):
    s = sessions[i]
    net = Weather(w, plan["net"])

    def wire(message):
        net.seen = [x.sent for x in sessions if x.sent]
        out = [message]
        if net._chance("damage"):
            w.fault("message_damaged")
            out = [net.mangle(message)]
        elif net._chance("foreign"):
            w.fault("message_replaced_by_another")
            out = [net.seen[net._pick(len(net.seen))]]
        if net._chance("dup"):
            w.fault("message_duplicated")
            out.append(message)
        return out

    reply = None
    for message in wire(s.opened(s.client.send(s.peer()))):
        s.server_used += 1
        w.event(f"server {i}")
        try:
            kdf = s.server.receive(*s.split(message))
        except Exception as error:
            s.server_refused(message, error)
        else:
            reply = s.server_took(book, message, kdf)
    if reply is None:
        return
    for message in wire(reply):
        s.client_used += 1
        w.event(f"client {i}")
        try:
            kdf = s.client.receive(message)
        except Exception as error:
            s.client_refused(message, error, book)
        else:
            s.client_took(book, message, kdf)
