"""C11: concurrent buffering keeps a stream whole and closes it exactly once."""

import asyncio
import copy
import time

from sim import loop as L
from sim.actors import code, run_actors
from sim.lin import History, TooHard, describe, linearizable

from . import streams as S

import aiootp
from aiootp._exceptions import CipherStreamIsClosed

SHRINK = ["feeders", "closers"]


def gen(rng, tier):
    name = rng.choice(list(S.CIPHERS))
    block = S.CIPHERS[name][1]
    side = rng.choice(["encrypt", "encrypt", "encrypt", "decrypt"])
    mode = rng.choice(["tasks", "threads"])
    p_cancel = rng.choice([0, 0, 0.3]) if mode == "tasks" and side == "encrypt" else 0
    pres = [0, 0, 0, 1e-5, 5e-5, 2e-4]
    feeders = []
    for _ in range(rng.randint(1, 4)):
        ops = []
        for _ in range(rng.choice([1, 2, 3])):
            op = {"n": rng.randrange(1 << 40), "size": S.sizes(rng, block), "pre": rng.choice(pres)}
            if rng.random() < p_cancel:
                op["cancel"] = rng.randrange(1, 30)
            ops.append(op)
        feeders.append(ops)
    return {
        "cfg": {
            "mode": mode, "reorder": rng.choice([0, 0.3, 0.9]), "jitter": rng.choice([0, 0.3]), "jit_n": 5,
            "mean_gap": rng.choice([5, 20, 80, 300]), "opcodes": rng.random() < 0.4,
            "yield_p": rng.choice([0.05, 0.3, 0.6]),
        },
        "cipher": name, "side": side, "feeders": feeders,
        "closers": [rng.choice([0, 1e-5, 1e-4, 5e-4, 2e-3]) for _ in range(rng.choice([1, 1, 2, 3]))],
        "drawers": [rng.choice([1e-5, 1e-4]) for _ in range(rng.choice([0, 1, 1, 2]))],
    }


def simplify(plan):
    for i, ops in enumerate(plan["feeders"]):
        for j in range(len(ops)):
            p = copy.deepcopy(plan)
            del p["feeders"][i][j]
            yield p
            if "cancel" in ops[j]:
                p = copy.deepcopy(plan)
                del p["feeders"][i][j]["cancel"]
                yield p
    if plan["drawers"]:
        yield dict(plan, drawers=plan["drawers"][1:])


def nontrivial(out):
    return out["stats"].get("reach:overlap", 0) > 0 and out["stats"].get("reach:whole", 0) > 0


def run(w, plan):
    Cipher, block = S.CIPHERS[plan["cipher"]]
    cipher = Cipher(b"key " * 16)
    (encrypt if plan["side"] == "encrypt" else decrypt)(w, plan, cipher)


def overlapping(w, ops):
    for a in ops:
        for b in ops:
            if a is not b and a["inv"] < b["inv"] < (a["ret"] or 1 << 62):
                w.reach("overlap")
                return


def encrypt(w, plan, cipher):
    tasks = w.cfg["mode"] == "tasks"
    hist = History(w)
    packets = []
    box = {}
    busy = []       # who draws packets right now: draws never overlap
    final = []

    async def a_turn():
        while busy:
            await asyncio.sleep(1e-5)
        busy.append(1)

    def s_turn():
        while True:
            while busy:
                time.sleep(1e-5)
            busy.append(1)
            if len(busy) == 1:
                return
            busy.pop()

    async def a_feed(i):
        for j, op in enumerate(plan["feeders"][i]):
            await asyncio.sleep(op["pre"])
            chunk = S.data(op["n"], op["size"])
            rec = hist.start(f"f{i}.{j}", "feed", chunk)
            task = asyncio.ensure_future(box["s"].abuffer(chunk))
            if "cancel" in op:
                for _ in range(op["cancel"]):
                    await asyncio.sleep(0)
                task.cancel()
            try:
                await task
                res = "ok"
            except CipherStreamIsClosed:
                res = "closed"
            except asyncio.CancelledError:
                w.fault("feed_cancelled")
                res = "cancelled"
            hist.end(rec, res)

    def s_feed(i):
        for j, op in enumerate(plan["feeders"][i]):
            w.sync_point("between")
            if op["pre"]:
                time.sleep(op["pre"])
            chunk = S.data(op["n"], op["size"])
            rec = hist.start(f"f{i}.{j}", "feed", chunk)
            try:
                box["s"].buffer(chunk)
                res = "ok"
            except CipherStreamIsClosed:
                res = "closed"
            hist.end(rec, res)

    async def a_draw(i):
        for _ in range(6):
            await asyncio.sleep(plan["drawers"][i])
            await a_turn()
            if not final:
                async for block_id, block in box["s"]:
                    packets.append(block_id + block)
                    w.reach("drawn_early")
            busy.pop()

    def s_draw(i):
        for _ in range(6):
            time.sleep(plan["drawers"][i])
            s_turn()
            if not final:
                for block_id, block in box["s"]:
                    packets.append(block_id + block)
                    w.reach("drawn_early")
            busy.pop()

    async def a_close(i):
        await asyncio.sleep(plan["closers"][i])
        await a_turn()
        final.append(i)
        busy.pop()
        rec = hist.start(f"c{i}", "close")
        mine = []
        try:
            async for block_id, block in box["s"].afinalize():
                mine.append(block_id + block)
            res = "ok"
        except CipherStreamIsClosed:
            res = "closed"
            w.check(not mine, "packets-from-refused", "a refused finalization gave packets")
        hist.end(rec, res)
        packets.extend(mine)

    def s_close(i):
        time.sleep(plan["closers"][i])
        s_turn()
        final.append(i)
        busy.pop()
        rec = hist.start(f"c{i}", "close")
        mine = []
        try:
            for block_id, block in box["s"].finalize():
                mine.append(block_id + block)
            res = "ok"
        except CipherStreamIsClosed:
            res = "closed"
            w.check(not mine, "packets-from-refused", "a refused finalization gave packets")
        hist.end(rec, res)
        packets.extend(mine)

    nf, nc, nd = len(plan["feeders"]), len(plan["closers"]), len(plan["drawers"])

    def pick(i, feed, close, draw):
        if i < nf:
            return feed(i)
        if i < nf + nc:
            return close(i - nf)
        return draw(i - nf - nc)

    if tasks:
        box["s"] = L.run(w, cipher.astream_encrypt())
    else:
        box["s"] = cipher.stream_encrypt()
    run_actors(
        w, nf + nc + nd, lambda i: pick(i, a_feed, a_close, a_draw), lambda i: pick(i, s_feed, s_close, s_draw),
        trace=code("ciphers/cipher_streams.py", "asynchs/guards"))
    stream = box["s"]
    overlapping(w, hist.ops)
    if not nc:
        return
    for late in ("feed", "close"):
        rec = hist.start("late", late, b"late" * 99)
        try:
            stream.buffer(b"late" * 99) if not tasks and late == "feed" else \
                list(stream.finalize()) if not tasks else \
                L.run(w, stream.abuffer(b"late" * 99)) if late == "feed" else \
                L.run(w, drain(stream.afinalize()))
            res = "ok"
        except CipherStreamIsClosed:
            res = "closed"
        hist.end(rec, res)
    # what a receiver makes of it
    rx = cipher.stream_decrypt(salt=stream.salt, iv=stream.iv)
    rx.buffer(b"".join(packets))
    text = b"".join(list(rx) + list(rx.finalize()))
    rx.shmac.test_shmac(stream.shmac.result)
    w.reach("whole")

    def step(state, op):
        at, closed = state
        name, arg, res = op["name"], op["arg"], op["res"]
        if name == "close":
            if res == "ok":
                return [(at, True)] if not closed and at == len(text) else []
            return [state] if closed else []
        out = []
        if res in ("closed", "cancelled") and (closed or res == "cancelled"):
            out.append(state)
        if res in ("ok", "cancelled") and not closed and text.startswith(arg, at):
            out.append((at + len(arg), closed))
        return out

    try:
        ok = linearizable(hist.ops, (0, False), step)
    except TooHard:
        w.reach("history_too_hard")
        ok = True
    w.check(ok, "not-whole", lambda: (
        f"the {len(text)} bytes that were streamed are no order of the chunks that were taken:\n"
        + describe([dict(o, arg=len(o["arg"]) if o["arg"] else None) for o in hist.ops])))


async def drain(gen):
    return [x async for x in gen]


def decrypt(w, plan, cipher):
    """The last packets are fed while somebody else finalizes."""
    tasks = w.cfg["mode"] == "tasks"
    message = b"".join(S.data(op["n"], op["size"]) for ops in plan["feeders"] for op in ops)
    tx = cipher.stream_encrypt().buffer(message)
    packets = [i + b for i, b in tx.finalize()]
    cut = max(0, len(packets) - 3)
    if cut:
        first = packets[:cut]
    else:
        first = []
    hist = History(w)
    result = {}

    def ready(stream):
        return {"fed": stream}

    kw = {"salt": tx.salt, "iv": tx.iv}
    if tasks:
        async def start():
            s = await cipher.astream_decrypt(**kw)
            if first:
                await s.abuffer(b"".join(first))
            return s
        stream = L.run(w, start())
    else:
        stream = cipher.stream_decrypt(**kw)
        if first:
            stream.buffer(b"".join(first))
    last = b"".join(packets[cut:])

    async def a_feed():
        rec = hist.start("f", "feed", "last")
        try:
            await stream.abuffer(last)
            res = "ok"
        except CipherStreamIsClosed:
            res = "closed"
        hist.end(rec, res)

    def s_feed():
        w.sync_point("between")
        rec = hist.start("f", "feed", "last")
        try:
            stream.buffer(last)
            res = "ok"
        except CipherStreamIsClosed:
            res = "closed"
        hist.end(rec, res)

    def ended(i, rec, out, error):
        if isinstance(error, CipherStreamIsClosed):
            res = "closed"
        else:
            # finalizing early ends with whatever error, or with less text
            res = "ok"
            w.check("out" not in result, "finalized-twice", "two finalizations were admitted")
            result["out"], result["error"] = out, error
        hist.end(rec, res)

    async def a_close(i):
        await asyncio.sleep(plan["closers"][i])
        rec = hist.start(f"c{i}", "close")
        out, error = [], None
        try:
            async for part in stream.afinalize():
                out.append(part)
        except Exception as e:
            error = e
        ended(i, rec, out, error)

    def s_close(i):
        time.sleep(plan["closers"][i])
        rec = hist.start(f"c{i}", "close")
        out, error = [], None
        try:
            for part in stream.finalize():
                out.append(part)
        except Exception as e:
            error = e
        ended(i, rec, out, error)

    run_actors(
        w, 1 + len(plan["closers"]), lambda i: a_close(i - 1) if i else a_feed(),
        lambda i: s_close(i - 1) if i else s_feed(),
        trace=code("ciphers/decipher_streams.py", "asynchs/guards"))
    overlapping(w, hist.ops)
    if not plan["closers"]:
        return

    def step(closed, op):
        if op["name"] == "close":
            return [True] if (op["res"] == "closed") == closed else []
        return [closed] if (op["res"] == "closed") == closed else []

    w.check(linearizable(hist.ops, False, step), "closed-wrongly", lambda: describe(hist.ops))
    fed = [o for o in hist.ops if o["name"] == "feed"][0]["res"] == "ok"
    if fed:
        if result["error"] is not None:
            w.fail_exc("finalize-failed", result["error"])
        w.check(b"".join(result["out"]) == message, "lost-plaintext", lambda: (
            f"{len(b''.join(result['out']))} of {len(message)} bytes came out"))
        stream.shmac.test_shmac(tx.shmac.result)
        w.reach("whole")
    else:
        w.reach("whole")
        try:
            stream.shmac.test_shmac(tx.shmac.result)
        except Exception:
            pass
        else:
            w.fail("short-stream-accepted", "a stream without its last packets passed final authentication")
