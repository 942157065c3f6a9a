"""C25: key objects and key bundles serve whoever comes first, and nobody else."""

import asyncio
import copy
import hashlib

from sim.actors import code, gen_cfg, run_actors

from . import streams as S

from aiootp import Ed25519, X25519

SHRINK = ["actors"]
TRACE = code("keygens/curve_25519", "ciphers/", "commons/", "_exceptions")

KEYS = {"X25519": X25519, "Ed25519": Ed25519}
KEY_OPS = ["generate", "secret", "secret", "public", "public", "bad", "read", "read"]
BUNDLE_OPS = ["own", "own", "own", "shared", "shared", "fails"]


class Fails(Exception):
    """The source of the data broke."""


def gen(rng, tier):
    cfg = gen_cfg(rng, modes=("tasks", "threads", "threads", "mixed"))
    cfg["mean_gap"] = rng.choice([3, 8, 20, 60, 200])
    cfg["opcodes"] = rng.random() < 0.6
    objects = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        if rng.random() < 0.55:
            objects.append({"kind": rng.choice(list(KEYS))})
        else:
            objects.append({
                "kind": rng.choice(list(S.CIPHERS)), "side": rng.choice(["encipher", "encipher", "decipher"]),
                "is_async": cfg["mode"] == "tasks" or (cfg["mode"] == "mixed" and rng.random() < 0.5),
                "blocks": rng.choice([1, 1, 2, 4]), "n": rng.randrange(1 << 30)})
    actors = []
    for i in range(rng.randint(2, 5)):
        ops = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            o = rng.randrange(len(objects))
            op = {"o": o, "do": rng.choice(KEY_OPS if objects[o]["kind"] in KEYS else BUNDLE_OPS),
                  "n": rng.randrange(1 << 30)}
            if cfg["mode"] == "tasks" and rng.random() < 0.15:
                op["cancel"] = rng.randrange(1, 8)
            ops.append(op)
        actors.append({"place": rng.choice([0, 0, 1, 2]), "ops": ops})
    return {"cfg": cfg, "objects": objects, "actors": actors}


def simplify(plan):
    for i, actor in enumerate(plan["actors"]):
        for j in range(len(actor["ops"])):
            p = copy.deepcopy(plan)
            del p["actors"][i]["ops"][j]
            yield p
            if "cancel" in actor["ops"][j]:
                p = copy.deepcopy(plan)
                del p["actors"][i]["ops"][j]["cancel"]
                yield p


def nontrivial(out):
    return out["stats"].get("reach:decided", 0) > 0


class Key:
    """One key object that several would fill."""

    def __init__(self, w, i, spec):
        self.w, self.i, self.kind = w, i, spec["kind"]
        self.Key = KEYS[spec["kind"]]
        self.key = self.Key()
        self.tried = 0
        self.won = []       # (what, secret or None, public)
        self.seen = {}      # public bytes that were read
        self.maybe = []     # cancelled attempts

    def material(self, op):
        secret = hashlib.sha256(b"key %d" % op["n"]).digest()
        return secret, self.Key().import_secret_key(secret).public_bytes

    def call(self, op, a=""):
        """The call to make, and what it would leave in the object."""
        do = op["do"]
        secret, public = self.material(op)
        if do == "generate":
            return getattr(self.key, a + "generate"), (), None, None
        if do == "secret":
            return getattr(self.key, a + "import_secret_key"), (secret,), secret, public
        if do == "public":
            return getattr(self.key, a + "import_public_key"), (public,), None, public
        bad = [b"short", 7, None, secret + b"x"][op["n"] % 4]
        return getattr(self.key, a + ("import_secret_key" if op["n"] & 8 else "import_public_key")), (bad,), None, None

    def note(self, op, error, secret, public, cancelled=False):
        w, do = self.w, op["do"]
        w.event(f"key {self.i} {do} -> {'cancelled' if cancelled else type(error).__name__ if error else 'ok'}")
        if do == "bad":
            w.check(error is not None or cancelled, "bad-key-taken", f"object {self.i} took a malformed key")
            w.fault("bad_key")
            return
        self.tried += 1
        if cancelled:
            w.fault("cancelled")
            self.maybe.append((do, secret, public))
        elif error is None:
            self.won.append((do, secret, public))
            self.look("after its own success")
        else:
            w.check(isinstance(error, PermissionError), "wrong-refusal",
                    f"object {self.i}: {do} was refused with {error!r}")
            w.reach("refused")

    def look(self, when):
        if self.key.has_public_key():
            self.seen[self.key.public_bytes] = when

    async def act(self, op):
        if op["do"] == "read":
            self.look("while filling")
            return
        fn, args, secret, public = self.call(op, "a")
        task = asyncio.ensure_future(fn(*args))
        for _ in range(op.get("cancel", 0)):
            await asyncio.sleep(0)
        if "cancel" in op:
            task.cancel()
        try:
            await task
        except asyncio.CancelledError:
            self.note(op, None, secret, public, cancelled=True)
        except Exception as error:
            self.note(op, error, secret, public)
        else:
            self.note(op, None, secret, public)

    def act_now(self, op):
        if op["do"] == "read":
            self.look("while filling")
            return
        fn, args, secret, public = self.call(op)
        try:
            fn(*args)
        except Exception as error:
            self.note(op, error, secret, public)
        else:
            self.note(op, None, secret, public)

    def judge(self):
        w, key, what = self.w, self.key, f"{self.kind} object {self.i}"
        w.check(len(self.won) <= 1, "filled-twice", f"{what} took {len(self.won)} keys: {[x[0] for x in self.won]}")
        if not self.won and not (self.maybe and key.has_public_key()):
            w.check(not key.has_public_key() and not key.has_secret_key(), "filled-by-refused",
                    f"{what} holds a key though no attempt succeeded")
            w.check(self.tried == len(self.maybe), "all-refused", f"{what}: all of {self.tried} attempts were refused")
            key.generate()      # it can still be filled
            w.check(key.has_secret_key(), "not-fillable", f"{what} did not take a key after refused ones")
            return
        if self.tried > 1:
            w.reach("decided")
        self.look("at the end")
        w.check(len(self.seen) == 1, "key-changed", f"{what} showed {len(self.seen)} public keys: {list(self.seen.values())}")
        if key.has_secret_key():
            w.check(key.secret_key.public_key().public_bytes_raw() == key.public_bytes, "keys-do-not-match",
                    f"{what}: the secret key does not belong to the public key")
        for do, secret, public in self.won:
            if public is not None:
                w.check(key.public_bytes == public, "not-the-winners-key", f"{what} holds another key than the one it took")
            if do == "public":
                w.check(not key.has_secret_key(), "secret-from-nowhere", f"{what} was given a public key and holds a secret one")
            else:
                w.check(key.has_secret_key(), "secret-lost", f"{what} was given a secret key and holds none")
            if secret is not None:
                w.check(key.secret_bytes == secret, "not-the-winners-key", f"{what} holds another secret key than the one it took")


class Bundle:
    """One key bundle that several would use for a stream."""

    def __init__(self, w, i, spec):
        self.w, self.i, self.spec = w, i, spec
        Cipher, self.block = S.CIPHERS[spec["kind"]]
        self.cipher = Cipher(b"key " * 16)
        self.plain = [S.data(spec["n"] + k, self.block) for k in range(spec["blocks"])]
        self.streams = []   # (blocks given, output) of every stream that gave something
        self.tried = self.opened = self.broken = 0

    def blocks(self, op):
        if self.spec["side"] == "decipher":
            return self.given
        return [S.data(op["n"] + k, self.block) for k in range(self.spec["blocks"])]

    def shmac(self, bundle, side):
        shmac = self.cipher._StreamHMAC(bundle)
        return shmac._for_encryption() if side == "encipher" else shmac._for_decryption()

    def make(self, **kw):
        return self.cipher._KeyAADBundle(self.cipher._kdfs, aad=b"test", **kw)

    def encipher_now(self, bundle, blocks):
        shmac = self.shmac(bundle, "encipher")
        return list(self.cipher._Junction.bytes_encipher((block for block in blocks), shmac=shmac))

    def decipher_now(self, bundle, blocks):
        shmac = self.shmac(bundle, "decipher")
        return list(self.cipher._Junction.bytes_decipher((block for block in blocks), shmac=shmac))

    def prepare(self):
        """The bundle and the authenticator that some of the actors share, in sync mode."""
        kw = {}
        if self.spec["side"] == "decipher":
            first = self.make().sync_mode()
            self.given = self.encipher_now(first, self.plain)
            kw = {"salt": first.salt, "iv": first.iv}
        self.bundle = self.make(**kw)
        if not self.spec["is_async"]:
            self.ready(self.bundle.sync_mode())

    async def aprepare(self):
        if self.spec["is_async"] and not hasattr(self, "shared"):
            # one task sets the mode, those that come later use the bundle
            self.shared = None
            self.ready(await self.bundle.async_mode())
        while self.shared is None:
            await asyncio.sleep(1e-5)

    def ready(self, bundle):
        self.shared = self.shmac(bundle, self.spec["side"])

    def source(self, op):
        for k, block in enumerate(self.blocks(op)):
            if op["do"] == "fails" and k == self.spec["blocks"] // 2:
                self.w.fault("source_fails")
                raise Fails
            yield block

    async def asource(self, op):
        for block in self.source(op):
            await asyncio.sleep(0)
            yield block

    def open(self, op, a=""):
        shmac = self.shared
        if op["do"] != "shared":
            shmac = self.shmac(self.bundle, self.spec["side"])
        fn = getattr(self.cipher._Junction, f"{a}bytes_{self.spec['side']}")
        stream = fn((self.asource if a else self.source)(op), shmac=shmac)
        self.opened += 1
        return stream

    def note(self, op, out, error):
        w = self.w
        self.tried += 1
        w.event(f"bundle {self.i} {op['do']} -> {len(out)} {type(error).__name__ if error else 'ok'}")
        if out or error is None:
            self.streams.append((self.blocks(op), out))
        if isinstance(error, asyncio.CancelledError):
            self.broken += 1
        elif error is not None and not isinstance(error, Fails):
            w.check(isinstance(error, PermissionError), "wrong-refusal",
                    f"bundle {self.i}: a second use was refused with {error!r}")
            w.reach("refused")

    async def act(self, op):
        if not self.spec["is_async"]:
            return
        await self.aprepare()
        out = []

        async def use():
            async for block in self.open(op, "a"):
                out.append(block)

        task = asyncio.ensure_future(use())
        for _ in range(op.get("cancel", 0)):
            await asyncio.sleep(0)
        if "cancel" in op:
            task.cancel()
        try:
            await task
        except asyncio.CancelledError as error:
            self.w.fault("cancelled")
            self.note(op, out, error)
        except Exception as error:
            self.note(op, out, error)
        else:
            self.note(op, out, None)

    def act_now(self, op):
        if self.spec["is_async"]:
            return
        out = []
        try:
            for block in self.open(op):
                out.append(block)
        except Exception as error:
            self.note(op, out, error)
        else:
            self.note(op, out, None)

    def judge(self):
        w, what = self.w, f"{self.spec['kind']} bundle {self.i}"
        w.check(self.opened <= 1 and len(self.streams) <= 1, "bundle-used-twice",
                f"{what}: {self.opened} of {self.tried} uses were let through, {len(self.streams)} gave output")
        if not self.tried:
            return
        w.check(self.opened or self.broken, "all-refused", f"{what}: all of {self.tried} uses were refused")
        for given, out in self.streams:
            w.reach("stream")
            if self.spec["side"] == "decipher":
                w.check(out == self.plain[:len(out)], "wrong-stream", f"{what}: the stream gave other plaintext")
            else:
                other = self.make(salt=self.bundle.salt, iv=self.bundle.iv).sync_mode()
                w.check(self.decipher_now(other, out) == given[:len(out)], "wrong-stream",
                        f"{what}: the stream does not decipher to its plaintext")
        if self.tried > 1:
            w.reach("decided")


def run(w, plan):
    objects = [(Key if spec["kind"] in KEYS else Bundle)(w, i, spec) for i, spec in enumerate(plan["objects"])]
    for thing in objects:
        if isinstance(thing, Bundle):
            thing.prepare()

    async def a_actor(i):
        for op in plan["actors"][i]["ops"]:
            await objects[op["o"]].act(op)

    def s_actor(i):
        for op in plan["actors"][i]["ops"]:
            objects[op["o"]].act_now(op)

    run_actors(w, len(plan["actors"]), a_actor, s_actor, place=lambda i: plan["actors"][i]["place"], trace=TRACE)
    for thing in objects:
        thing.judge()
