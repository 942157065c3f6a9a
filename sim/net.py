"""A simulated network: loss, duplication, delay, reordering, damage, partitions."""

import asyncio

DELAYS_NS = (0, 20_000, 100_000, 500_000, 2_000_000, 10_000_000, 50_000_000)


class Net:
    """
    Delivers byte messages to callbacks on the running loop.  `cfg` holds the
    chance of each fault; after `heal()` every message arrives, once, intact.
    """

    def __init__(self, w, cfg):
        self.w = w
        self.cfg = cfg
        self.healed = False
        self.parted = set()
        self.seen = []          # every message ever sent, for replays and mixing

    def heal(self):
        if not self.healed:
            self.w.note("network healed")
        self.healed = True
        self.parted = set()

    def part(self, link, seconds):
        """Cuts one link for a while."""
        self.w.fault("partition")
        self.parted.add(link)
        asyncio.get_running_loop().call_exactly(int(seconds * 1e9), self.parted.discard, link)

    def _chance(self, name):
        p = 0 if self.healed else self.cfg.get(name, 0)
        return bool(p) and self.w.choices.pick("net." + name, 1 + 64, bias=1 - p) > 0

    def _pick(self, n):
        return self.w.choices.pick("net.how", n)

    def mangle(self, data):
        """A damaged form of `data`, never equal to it."""
        old = bytes(data)
        how = self._pick(6)
        out = bytearray(old)
        if how == 0 or not out:
            i = self._pick(max(1, len(out)))
            if out:
                out[i] ^= 1 << self._pick(8)
            else:
                out = bytearray(b"\0")
        elif how == 1:
            i = self._pick(len(out))
            out[i] = (out[i] + 1 + self._pick(255)) % 256
        elif how == 2:
            i = self._pick(len(out))
            n = 1 + self._pick(16)
            out[i:i + n] = bytes(len(out[i:i + n]))
        elif how == 3 and self.seen:
            other = self.seen[self._pick(len(self.seen))]
            cut = self._pick(len(out))
            out = bytearray(old[:cut] + other[cut:cut + len(old) - cut])
            out += old[len(out):]
        elif how == 4:
            i, j = self._pick(len(out)), self._pick(len(out))
            out[i], out[j] = out[j], out[i]
        else:
            out[-1] ^= 1 + self._pick(255)
        if bytes(out) == old:
            out[self._pick(len(out))] ^= 0x80
        return bytes(out)

    def send(self, link, data, deliver, control=False):
        """Passes `data` to deliver(data), or does what networks do.
        A control message is lost, repeated and delayed, but not damaged."""
        w = self.w
        if link in self.parted:
            w.fault("lost_in_partition")
            return
        if self._chance("loss"):
            w.fault("message_lost")
            return
        copies = 1
        if self._chance("dup"):
            w.fault("message_duplicated")
            copies = 2
        for _ in range(copies):
            payload = data
            if not control and self._chance("damage"):
                w.fault("message_damaged")
                payload = self.mangle(data)
            elif not control and self.seen and self._chance("foreign"):
                w.fault("message_replaced_by_another")
                payload = self.seen[self._pick(len(self.seen))]
            delay = 0
            if not self.healed:
                delay = DELAYS_NS[w.choices.pick(
                    "net.delay", len(DELAYS_NS), bias=1 - self.cfg.get("delay", 0.5))]
                if delay >= DELAYS_NS[4]:
                    w.fault("message_delayed")
            asyncio.get_running_loop().call_exactly(delay + 1_000, deliver, payload)
        if not control:
            self.seen.append(data)
        if len(self.seen) > 64:
            del self.seen[0]


def gen_net(rng):
    """A network weather for one run (swarm: most faults off in most runs)."""
    return {
        "loss": rng.choice([0, 0, 0.1, 0.3]),
        "dup": rng.choice([0, 0, 0.1, 0.4]),
        "damage": rng.choice([0, 0.1, 0.3, 0.6]),
        "foreign": rng.choice([0, 0, 0.1, 0.4]),
        "delay": rng.choice([0, 0.2, 0.6, 0.9]),
    }
