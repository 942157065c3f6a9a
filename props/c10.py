"""C10: a streamed ciphertext is recovered exactly or the damage is reported."""

import asyncio
import copy

from sim import loop as L
from sim.net import Net, gen_net

from . import streams as S

import aiootp

SHRINK = ["sessions"]
AADS = [b"", b"aad", b"x" * 300]


def gen(rng, tier):
    name = rng.choice(list(S.CIPHERS))
    block = S.CIPHERS[name][1]
    shared_salt = rng.random() < 0.3
    sessions = []
    for i in range(rng.choice([1, 2, 2, 3])):
        sessions.append({
            "n": rng.randrange(1 << 40),
            "send_async": rng.random() < 0.5, "recv_async": rng.random() < 0.5,
            "chunks": [S.sizes(rng, block) for _ in range(rng.choice([0, 1, 2, 3, 5]))],
            "draws": rng.choice(["each", "some", "end"]),
            "batch": rng.choice([1, 1, 2, 4]),
            "recv_draws": rng.choice(["each", "some", "end"]),
            "aad": rng.randrange(len(AADS)) if rng.random() < 0.5 else 0,
            "salt": "shared" if shared_salt else "",
            # where the receiver gives up: packets short of the end, or 0
            "cut": rng.choice([0, 0, 0, 1, 2, 9]),
            "odd": rng.random() < 0.2,
            "part": rng.choice([0, 0, 0, 0.004]),
        })
    return {
        "cfg": {"reorder": rng.choice([0, 0.3, 0.9]), "jitter": rng.choice([0, 0.3]), "jit_n": 5},
        "cipher": name, "net": gen_net(rng), "sessions": sessions,
        "heal_at": rng.choice([0.02, 0.1]),
    }


def simplify(plan):
    for i, s in enumerate(plan["sessions"]):
        for key, plain in (("chunks", s["chunks"][:-1]), ("batch", 1), ("odd", False), ("part", 0),
                           ("send_async", False), ("recv_async", False), ("aad", 0), ("salt", "")):
            if s[key] != plain:
                p = copy.deepcopy(plan)
                p["sessions"][i][key] = plain
                yield p
    for key in plan["net"]:
        if plan["net"][key]:
            p = copy.deepcopy(plan)
            p["net"][key] = 0
            yield p


def nontrivial(out):
    return out["stats"].get("reach:recovered", 0) + out["stats"].get("reach:cut_reported", 0) > 0


def run(w, plan):
    Cipher, block = S.CIPHERS[plan["cipher"]]
    cipher = Cipher(b"key " * 16)
    L.run(w, main(w, plan, cipher, block))


async def main(w, plan, cipher, block):
    loop = asyncio.get_running_loop()
    net = Net(w, plan["net"])
    loop.call_exactly(int(plan["heal_at"] * 1e9), net.heal)
    tags = {}
    await asyncio.gather(*[
        session(w, net, cipher, block, i, s, tags) for i, s in enumerate(plan["sessions"])])


async def session(w, net, cipher, block, i, s, tags):
    size = sum(s["chunks"])
    message = S.content(s["n"], size)
    aad = AADS[s["aad"]]
    packets = []        # as sent, in order
    done = asyncio.Event()      # the sender has finalized
    closed = asyncio.Event()    # the receiver has finished
    state = {"acked": 0}
    inbox = asyncio.Queue()
    salt = b"saltsalt" if s["salt"] else None
    tx = await S.Sender(cipher, s["send_async"], salt, aad).start()
    rx = await S.Receiver(cipher, s["recv_async"], tx.stream.salt, tx.stream.iv, aad).start()
    packet_size = rx.stream.PACKETSIZE
    if s["part"]:
        net.part(f"to{i}", s["part"])

    def transmit(k):
        net.send(f"to{i}", packets[k], inbox.put_nowait)

    async def sender():
        at = 0
        for j, n in enumerate(s["chunks"]):
            await tx.feed(message[at:at + n])
            at += n
            if s["draws"] == "each" or (s["draws"] == "some" and j % 2):
                async for p in tx.draw():
                    packets.append(p)
                    transmit(len(packets) - 1)
            await asyncio.sleep(0)
        async for p in tx.finish():
            packets.append(p)
            transmit(len(packets) - 1)
        for p in packets:
            w.check(len(p) == packet_size, "packet-size", f"{len(p)} is not {packet_size}")
        tags[i] = tx.tag
        done.set()
        while not closed.is_set():      # go back to what is not acknowledged
            await asyncio.sleep(0.003)
            for k in range(state["acked"], min(len(packets), state["acked"] + 4)):
                transmit(k)

    def acknowledge(n):
        state["acked"] = max(state["acked"], n)

    async def strangers():
        """Receivers that hold something else take nothing."""
        await done.wait()
        kw = {"salt": tx.stream.salt, "iv": tx.stream.iv, "aad": aad}
        what = ["salt", "iv", "aad", "key"][w.choices.pick("stranger", 4)]
        other = cipher
        if what == "key":
            other = type(cipher)(net.mangle(b"key " * 16))
        elif kw[what]:
            kw[what] = net.mangle(kw[what])
        else:
            kw[what] = b"\0"
        them = await S.Receiver(other, s["recv_async"], **kw).start()
        try:
            await them.feed(b"".join(packets))
        except cipher.InvalidBlockID:
            w.reach("stranger_refused")
        else:
            w.fail("stranger-accepted", f"a receiver with another {what} took the packets")

    async def receiver():
        accepted, out, turn = 0, b"", 0

        def released(part):
            nonlocal out
            out += part
            w.check(message.startswith(out), "wrong-plaintext",
                    lambda: f"session {i} released something the sender did not stream at byte {len(out) - len(part)}")
            w.check(len(out) <= accepted * block, "released-too-early",
                    lambda: f"session {i} released {len(out)} bytes of {accepted} accepted packets")

        while True:
            if done.is_set() and accepted >= max(len(packets) - s["cut"], 0):
                break
            batch = [await inbox.get()]
            while len(batch) < s["batch"] and not inbox.empty():
                batch.append(inbox.get_nowait())
            if s["odd"] and turn % 3 == 1:
                try:
                    await rx.feed(b"".join(batch)[:-1])
                except Exception as e:
                    if not isinstance(e, ValueError):
                        w.fail_exc("odd-length", e)
                else:
                    w.fail("odd-length-accepted", "data that is no whole number of packets was taken")
            while batch:
                good = 0
                while good < len(batch) and accepted + good < len(packets) \
                        and batch[good] == packets[accepted + good]:
                    good += 1
                try:
                    await rx.feed(b"".join(batch))
                except cipher.InvalidBlockID as e:
                    w.event(f"{i} feed {len(batch)} refused at {good}")
                    w.check(good < len(batch), "refused-genuine",
                            lambda: f"session {i} refused packet {accepted + good - 1}, sent unchanged and in order")
                    st = e.failure_state
                    rest = st.buffer()
                    w.check(bytes(st.block_id) + bytes(st.block) == batch[good]
                            and rest == b"".join(batch[good + 1:]), "failure-state",
                            "the reported failure does not name the first refused packet and what follows it")
                    w.fault("packet_refused")
                    accepted += good
                    batch = batch[good + 1:]
                else:
                    w.event(f"{i} feed {len(batch)} taken")
                    w.check(good == len(batch), "accepted-wrong-packet",
                            lambda: f"session {i} took {batch[good].hex()[:32]}.. as packet {accepted + good}")
                    accepted += good
                    batch = []
                net.send(f"ack{i}", accepted, acknowledge, control=True)
                turn += 1
                if accepted and (s["recv_draws"] == "each" or (s["recv_draws"] == "some" and turn % 2)):
                    async for part in rx.draw():
                        released(part)
        closed.set()
        await strangers()
        whole = accepted == len(packets)
        if whole:
            async for part in rx.finish():
                released(part)
            w.check(out == message, "lost-plaintext",
                    lambda: f"session {i} recovered {len(out)} of {len(message)} bytes")
            wrong = [net.mangle(tags[i])] + [t for j, t in tags.items() if j != i]
            for t in wrong:
                try:
                    await rx.verify(t)
                except cipher.InvalidSHMAC:
                    pass
                else:
                    w.fail("wrong-tag-accepted", f"session {i} verified with a wrong final tag")
            await rx.verify(tags[i])
            w.reach("recovered")
        else:
            w.fault("stream_cut_short")
            try:
                async for part in rx.finish():
                    pass
                await rx.verify(tags[i])
            except Exception as e:
                w.event(f"{i} cut {type(e).__name__}")
                w.reach("cut_reported")
            else:
                w.fail("cut-stream-accepted",
                       f"session {i} verified with {accepted} of {len(packets)} packets")

    await asyncio.gather(sender(), receiver())
