"""C13: lifetimes are enforced against the clock whatever the clock does."""

import asyncio
import copy

from sim import loop as L
from sim.world import EPOCH_NS

from . import dbsim as D
from . import streams as S

import aiootp
from aiootp import AsyncDatabase, Database, Passcrypt
from aiootp._exceptions import TimestampExpired

SHRINK = ["reads"]
AIOOTP_EPOCH = 1_672_531_200 * 10 ** 9
SEC = 10 ** 9
KINDS = ["bytes", "json", "token", "stream", "stream", "tag", "tagbytes", "dbtoken", "dbbytes", "dbjson", "hash", "clock"]
UNITS = {
    "nanoseconds": 1, "microseconds": 10 ** 3, "milliseconds": 10 ** 6, "centiseconds": 10 ** 7,
    "deciseconds": 10 ** 8, "seconds": SEC, "minutes": 60 * SEC, "hours": 3600 * SEC, "days": 86400 * SEC}
TTLS = [0, 1, 2, 3, 60, 3600, 10 ** 6]


def gen(rng, tier):
    kind = rng.choice(KINDS)
    if kind == "hash" and rng.random() < 0.6:
        kind = "stream"
    written = EPOCH_NS + rng.randrange(-10 ** 6, 10 ** 8) * SEC + rng.choice(
        [0, 1, SEC - 1, SEC - 7, rng.randrange(SEC)])
    unit = rng.choice(list(UNITS)) if kind == "clock" else "seconds"
    U = UNITS[unit]
    reads = []
    for _ in range(rng.choice([1, 2, 3, 5])):
        ttl = rng.choice(TTLS)
        if reads and reads[-1]["ttl"] is not None and rng.random() < 0.4:
            ttl = reads[-1]["ttl"]
        near = ttl * U + rng.choice([-U, 0, U, 2 * U])
        how = rng.random()
        if how < 0.6:
            # around the reading at which the limit is reached
            base = (written - AIOOTP_EPOCH) // U * U + AIOOTP_EPOCH if rng.random() < 0.6 else written
            at = base + near + rng.choice([-1, 0, 1, -9, 9, -U // 2, rng.randrange(-U, U)])
        elif how < 0.8:
            at = written - rng.choice([1, SEC, 10 ** 5 * SEC, rng.randrange(10 ** 15)])
        else:
            at = written + rng.choice([0, 1, SEC, 10 ** 8 * SEC, rng.randrange(10 ** 16)])
        reads.append({
            "ttl": rng.choice([ttl, ttl, ttl, None]), "at": max(at, AIOOTP_EPOCH + 2 * SEC),
            "async": rng.random() < 0.5, "frozen": rng.random() < 0.7,
            "steps": [rng.choice(["draw", "feed", "feed", "feed_bad", "finish", "jump"]) for _ in range(rng.randrange(7))],
            "jump": rng.choice([1, -1, SEC, -SEC, ttl * SEC + 2 * SEC, -ttl * SEC - 2 * SEC, 10 ** 5 * SEC]),
            "moves": rng.choice([[], [], [[rng.randrange(1, 12), rng.choice([2 * SEC, -2 * SEC, ttl * SEC + SEC, 10 ** 4 * SEC])]]]),
        })
    return {
        "cfg": {"reorder": rng.choice([0, 0.5]), "wall0": written},
        "kind": kind, "unit": unit, "cipher": rng.choice(list(S.CIPHERS)), "n": rng.randrange(1 << 40),
        "write_async": rng.random() < 0.5, "size": rng.choice([0, 1, 31, 32, 300, 800]),
        "tasks": rng.random() < 0.3, "same_db": rng.random() < 0.6, "reads": reads,
    }


def simplify(plan):
    for i, r in enumerate(plan["reads"]):
        for key, plain in (("steps", r["steps"][:-1]), ("moves", []), ("frozen", True), ("async", False)):
            if r[key] != plain:
                p = copy.deepcopy(plan)
                p["reads"][i][key] = plain
                yield p


def nontrivial(out):
    s = out["stats"]
    return s.get("reach:rejected", 0) + s.get("reach:read", 0) > 0


class Readings:
    """Every value the wall clock had while a call ran."""

    def __init__(self, w):
        self.w = w
        self.open = []

    def now(self):
        w = self.w
        return w.frozen_at if w.clock_frozen else w.wall0 + w.now_ns + w.wall_offset

    def start(self):
        span = [[self.now(), None]]
        self.open.append(span)
        return span

    def jump(self, ns):
        at = self.now()
        for span in self.open:
            span[-1][1] = at
        self.w.jump_clock(ns)
        for span in self.open:
            span.append([self.now(), None])

    def end(self, span):
        span[-1][1] = self.now()
        self.open.remove(span)
        return span


def verdicts(written, span, ttl, unit, per=SEC):
    """(may be read, may be rejected, smallest and largest excess)"""
    if ttl is None:
        return True, False, 0, 0
    stamps = {(t - AIOOTP_EPOCH) // unit for t in written}
    lo = min((a - AIOOTP_EPOCH) // unit for a, _ in span) - max(stamps)
    hi = max((b - AIOOTP_EPOCH) // unit for _, b in span) - min(stamps)
    limit = ttl * per // unit
    return lo <= limit, hi > limit, max(lo - limit, 1), hi - limit


class Case:
    def __init__(self, w, plan):
        self.w, self.plan = w, plan
        self.kind = plan["kind"]
        self.cipher = S.CIPHERS[plan["cipher"]][0](b"key " * 16)
        self.readings = Readings(w)
        self.data = S.data(plan["n"], plan["size"])
        self.dbs = {}
        self.per = UNITS[plan["unit"]]
        self.unit = 1 if self.kind == "hash" else self.per

    # ------------------------------------------------------------- writing
    def write(self):
        plan, w = self.plan, self.w
        span = self.readings.start()
        a = plan["write_async"]
        c, kind, data = self.cipher, self.kind, self.data
        if kind == "bytes":
            self.got = L.run(w, c.abytes_encrypt(data)) if a else c.bytes_encrypt(data)
        elif kind == "json":
            self.got = L.run(w, c.ajson_encrypt(data.hex())) if a else c.json_encrypt(data.hex())
        elif kind == "token":
            self.got = L.run(w, c.amake_token(data)) if a else c.make_token(data)
        elif kind == "stream":
            async def make():
                tx = await S.Sender(c, a, None, b"").start()
                await tx.feed(data)
                packets = [p async for p in tx.finish()]
                return tx, packets
            self.got = L.run(w, make())
        elif kind == "clock":
            self.clock = aiootp.asynchs.Clock(plan["unit"])
            self.got = L.run(w, self.clock.amake_timestamp(size=8)) if a else self.clock.make_timestamp(size=8)
        elif kind == "hash":
            pc = Passcrypt(mb=1, cpu=1, cores=1, tag_size=16)
            self.got = L.run(w, pc.ahash_passphrase(b"passphrase!!")) if a else pc.hash_passphrase(b"passphrase!!")
        else:
            value = data if kind == "tagbytes" else data.hex()
            if a:
                async def store():
                    db = await AsyncDatabase(D.KEY, path=D.ROOT)
                    await db.aset_tag("t", value)
                    await db.asave_database()
                    if kind == "dbtoken":
                        return db, await db.amake_token(data)
                    if kind == "dbjson":
                        return db, await db.ajson_encrypt(value, filename="f")
                    return db, await db.abytes_encrypt(data, filename="f")
                self.db_obj, self.got = L.run(w, store())
            else:
                db = Database(D.KEY, path=D.ROOT)
                db.set_tag("t", value)
                db.save_database()
                self.db_obj = db
                if kind == "dbtoken":
                    self.got = db.make_token(data)
                elif kind == "dbjson":
                    self.got = db.json_encrypt(value, filename="f")
                else:
                    self.got = db.bytes_encrypt(data, filename="f")
        span = self.readings.end(span)
        self.written = span[0]

    # ------------------------------------------------------------- reading
    async def one(self, r, fn, want):
        """One call under a limit; fn() gives an awaitable or a result."""
        span = self.readings.start()
        result = error = None
        try:
            result = fn()
            if hasattr(result, "__await__"):
                result = await result
        except TimestampExpired as e:
            error = e
        finally:
            span = self.readings.end(span)
        may, may_not, low, high = verdicts(self.written, span, r["ttl"], self.unit, self.per)
        w = self.w
        what = f"{self.kind} written at {self.written[0]}, read at {span} with limit {r['ttl']}"
        w.event(f"{self.kind} {r['ttl']} {'rejected' if error else 'read'}")
        if error is None:
            w.check(may, "expired-data-read", what)
            w.check(result == want, "wrong-data", what)
            w.reach("read")
            return True
        w.check(may_not, "rejected-in-time", what)
        w.reach("rejected")
        w.check(low <= error.expired_by <= high, "wrong-excess",
                lambda: f"{what}: reported {error.expired_by}, not in {low}..{high}")
        if self.kind == "clock":
            w.check(error.units == self.plan["unit"], "wrong-unit", f"{what}: {error.units}")
        return False

    async def read(self, r):
        kind, c, ttl = self.kind, self.cipher, r["ttl"]
        kw = {} if ttl is None else {"ttl": ttl}
        a = r["async"]
        pick = lambda x, y: x if a else y
        if kind == "stream":
            return await self.read_stream(r)
        if kind == "hash":
            await self.one(r, lambda: pick(Passcrypt.averify, Passcrypt.verify)(self.got, b"passphrase!!", **kw), None)
            return
        if kind == "clock":
            await self.one(r, lambda: pick(self.clock.atest_timestamp, self.clock.test_timestamp)(self.got, ttl), None)
            return
        if kind in ("tag", "tagbytes", "dbtoken", "dbbytes", "dbjson"):
            db = self.dbs.get(a) if self.plan["same_db"] and not kind.startswith("tag") else None
            if db is None:
                db = await AsyncDatabase(D.KEY, path=D.ROOT) if a else Database(D.KEY, path=D.ROOT)
                self.dbs[a] = db
            if kind in ("tag", "tagbytes"):
                await self.one(
                    r, lambda: (db.aquery_tag if a else db.query_tag)("t", **kw),
                    self.data if kind == "tagbytes" else self.data.hex())
            elif kind == "dbjson":
                await self.one(r, lambda: (db.ajson_decrypt if a else db.json_decrypt)(
                    self.got, filename="f", **kw), self.data.hex())
            elif kind == "dbtoken":
                await self.one(r, lambda: (db.aread_token if a else db.read_token)(self.got, **kw), self.data)
            else:
                await self.one(r, lambda: (db.abytes_decrypt if a else db.bytes_decrypt)(
                    self.got, filename="f", **kw), self.data)
            return
        fns = {
            "bytes": (c.abytes_decrypt, c.bytes_decrypt, self.data),
            "json": (c.ajson_decrypt, c.json_decrypt, self.data.hex()),
            "token": (c.aread_token, c.read_token, self.data),
        }[kind]
        await self.one(r, lambda: pick(*fns[:2])(self.got, **kw), fns[2])

    async def read_stream(self, r):
        """Any sequence of calls on one decryption stream."""
        w = self.w
        tx, packets = self.got
        rx = await S.Receiver(
            self.cipher, r["async"], tx.stream.salt, tx.stream.iv, b"", r["ttl"]).start()
        fed, out, begun, closed = 0, b"", False, False

        async def drawing(gen, may_fail):
            """Draws; judged against the clock until the first time it is let."""
            nonlocal out, begun
            span = self.readings.start()
            error = None
            try:
                async for part in gen:
                    out += part
            except TimestampExpired as e:
                error = e
            except Exception as e:
                if not may_fail:
                    raise
                w.event(f"draw {type(e).__name__}")
                self.readings.end(span)
                return False
            span = self.readings.end(span)
            may, may_not, low, high = verdicts(self.written, span, r["ttl"], SEC)
            what = f"stream written at {self.written[0]}, read at {span} with limit {r['ttl']}"
            w.event(f"draw {r['ttl']} {'rejected' if error else 'read'}")
            if error is not None:
                w.check(not begun, "rejected-later", f"{what}, after it was let out before")
                w.check(may_not, "rejected-in-time", what)
                w.check(low <= error.expired_by <= high, "wrong-excess",
                        lambda: f"{what}: reported {error.expired_by}, not in {low}..{high}")
                w.reach("rejected")
                return False
            if fed and not begun:
                w.check(may, "expired-data-read", what)
                w.reach("read")
                begun = True
            return True

        def released_late():
            w.check(begun or not out, "expired-data-read", "plaintext came out of a stream that was never let through")

        for step in r["steps"]:
            if step == "feed" and fed < len(packets) and not closed:
                await rx.feed(packets[fed])
                fed += 1
            elif step == "feed_bad" and not closed:
                p = packets[(fed + 1) % len(packets)]
                try:
                    await rx.feed(p[:-1] + bytes([p[-1] ^ 1]))
                except Exception:
                    pass
            elif step == "jump":
                w.fault("clock_jump")
                self.readings.jump(r["jump"])
            elif step == "draw":
                await drawing(rx.draw(), may_fail=not fed)
            elif step == "finish" and not closed and (not fed or fed == len(packets)):
                closed = True
                await drawing(rx.finish(), may_fail=not fed)
            released_late()
        if not closed:
            while fed < len(packets):
                await rx.feed(packets[fed])
                fed += 1
            if await drawing(rx.finish(), may_fail=False):
                w.check(out == self.data, "wrong-data", f"{len(out)} of {len(self.data)} bytes")
        elif fed:
            # closed for good: neither way lets anything out late
            for gen in (rx.draw(), rx.finish()):
                try:
                    await drawing(gen, may_fail=True)
                finally:
                    released_late()

    async def reader(self, r):
        w = self.w

        async def mover():
            for steps, ns in r["moves"]:
                for _ in range(steps):
                    await asyncio.sleep(0)
                w.fault("clock_jump_during_call")
                self.readings.jump(ns)

        if r["moves"]:
            await asyncio.gather(self.read(r), mover())
        else:
            await self.read(r)


def run(w, plan):
    w.fs.mkdir(D.ROOT)
    case = Case(w, plan)
    case.write()

    async def main():
        for r in plan["reads"]:
            w.fault("clock_set")
            w.freeze_clock(False)
            w.set_wall(r["at"])
            if r["frozen"]:
                w.fault("clock_stopped")
                w.freeze_clock(True)
            await case.reader(r)
        if plan["tasks"]:       # all again, at once, under one clock
            w.freeze_clock(True)
            await asyncio.gather(*[case.reader(dict(x, moves=[], steps=[])) for x in plan["reads"]])

    L.run(w, main())
