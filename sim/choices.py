"""
The single source of scheduling decisions of a simulated run.

Every decision is an integer in a named stream.  In record mode the integers
come from a PRNG derived from the run's seed; in replay mode they come from a
recorded list and, past its end, are 0, which every caller defines as "the
plain choice" (first ready task, no pre-emption, no delay).
"""

import hashlib
import random


def derive(*parts):
    """A 63-bit integer derived from the given parts, stable everywhere."""
    text = "\x1f".join(str(p) for p in parts).encode()
    return int.from_bytes(hashlib.sha256(text).digest()[:8], "big") >> 1


class Choices:
    def __init__(self, seed=None, recorded=None):
        self.recorded = recorded
        self.seed = seed
        self.log = {}
        self.rngs = {}
        self.pos = {}

    def rng(self, stream):
        r = self.rngs.get(stream)
        if r is None:
            r = self.rngs[stream] = random.Random(derive(self.seed, stream))
        return r

    def _next(self, stream):
        pos = self.pos.get(stream, 0)
        self.pos[stream] = pos + 1
        items = self.recorded.get(stream, ())
        return items[pos] if pos < len(items) else 0

    def _note(self, stream, value):
        self.log.setdefault(stream, []).append(value)
        return value

    def pick(self, stream, n, bias=0.0):
        """An integer in [0, n); `bias` is the chance of a forced 0."""
        if n <= 1:
            return 0
        if self.recorded is not None:
            return self._note(stream, min(self._next(stream), n - 1))
        rng = self.rng(stream)
        if bias and rng.random() < bias:
            return self._note(stream, 0)
        return self._note(stream, rng.randrange(n))

    def gap(self, stream, mean):
        """
        Number of events until the next pre-emption: at least 1, geometric
        around `mean`; 0 means "never again".
        """
        if self.recorded is not None:
            return self._note(stream, self._next(stream))
        if not mean:
            return self._note(stream, 0)
        return self._note(stream, 1 + int(self.rng(stream).expovariate(1.0 / mean)))
