"""What the stream and message checks share: ciphers, sizes, two interfaces."""

import hashlib

import aiootp
from aiootp import Chunky2048, Slick256

CIPHERS = {"Chunky2048": (Chunky2048, 256), "Slick256": (Slick256, 32)}


def data(seed, size):
    """`size` bytes that differ everywhere between seeds."""
    return hashlib.shake_128(b"data%d" % seed).digest(size)


def content(seed, size):
    """`size` bytes as a user may have them: now and then mostly zeros or ones."""
    raw = data(seed, size)
    part = seed // 16 % (size + 1)
    return {
        0: bytes(size), 1: raw[:part] + bytes(size - part), 2: bytes(part) + raw[part:], 3: b"\xff" * size,
    }.get(seed % 16, raw)


def sizes(rng, block):
    """A chunk size, mostly near a block boundary."""
    head = 20 if block == 256 else 12
    return rng.choice([
        0, 1, 2, block - 1, block, block + 1, block - head, block - head - 1,
        block - head + 1, 2 * block - head, 2 * block, 3 * block + 5,
        rng.randrange(block), rng.randrange(4 * block)])


class Sender:
    """An encryption stream behind one async face."""

    def __init__(self, cipher, is_async, salt, aad):
        self.cipher, self.is_async, self.salt, self.aad = cipher, is_async, salt, aad

    async def start(self):
        if self.is_async:
            self.stream = await self.cipher.astream_encrypt(salt=self.salt, aad=self.aad)
        else:
            self.stream = self.cipher.stream_encrypt(salt=self.salt, aad=self.aad)
        return self

    async def feed(self, chunk):
        if self.is_async:
            await self.stream.abuffer(chunk)
        else:
            self.stream.buffer(chunk)

    async def draw(self):
        if self.is_async:
            async for block_id, block in self.stream:
                yield block_id + block
        else:
            for block_id, block in self.stream:
                yield block_id + block

    async def finish(self):
        if self.is_async:
            async for block_id, block in self.stream.afinalize():
                yield block_id + block
        else:
            for block_id, block in self.stream.finalize():
                yield block_id + block

    @property
    def tag(self):
        return self.stream.shmac.result


class Receiver:
    """A decryption stream behind one async face."""

    def __init__(self, cipher, is_async, salt, iv, aad, ttl=None):
        self.cipher, self.is_async = cipher, is_async
        self.kw = {"salt": salt, "iv": iv, "aad": aad}
        if ttl is not None:
            self.kw["ttl"] = ttl

    async def start(self):
        if self.is_async:
            self.stream = await self.cipher.astream_decrypt(**self.kw)
        else:
            self.stream = self.cipher.stream_decrypt(**self.kw)
        return self

    async def feed(self, packets):
        if self.is_async:
            await self.stream.abuffer(packets)
        else:
            self.stream.buffer(packets)

    async def draw(self):
        if self.is_async:
            async for block in self.stream:
                yield block
        else:
            for block in self.stream:
                yield block

    async def finish(self):
        if self.is_async:
            async for block in self.stream.afinalize():
                yield block
        else:
            for block in self.stream.finalize():
                yield block

    async def verify(self, tag):
        if self.is_async:
            await self.stream.shmac.atest_shmac(tag)
        else:
            self.stream.shmac.test_shmac(tag)
