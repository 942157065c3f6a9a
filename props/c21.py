"""C21: async calls give the sync answer, alone or interleaved."""

import asyncio
import copy
import random
from collections import deque
from hashlib import blake2b, sha3_256, sha3_512, sha256, shake_128, shake_256

from sim.actors import code, run_actors
from sim.lin import History, TooHard, describe, linearizable
from props.dbsim import Client, drive
from props.passwords import use_less_memory

from aiootp import Chunky2048, Domains, DomainKDF, Ed25519, GUID, SequenceID, Slick256, X25519
from aiootp import _gentools as G
from aiootp._exceptions import Ignore
from aiootp import _paths as P
from aiootp import generics as N
from aiootp._permutations.affine_permutation import AffinePermutation
from aiootp._permutations.affine_xor_chain import AffineXORChain
from aiootp._permutations.fast_affine_xor_chain import FastAffineXORChain
from aiootp.asynchs import Clock
from aiootp.ciphers.padding import Padding
from aiootp.keygens import Passcrypt, amnemonic, mnemonic
from aiootp.keygens.mnemonics import akeyed_choices, keyed_choices
from aiootp.randoms import acsprng, csprng
from aiootp.randoms import simple as R
from aiootp.generics import ByteIO
from aiootp.generics import canon, transform

SHRINK = ["actors"]
ROOT = "/sim"
THE_FS = [None]
CIPHERS = {"Chunky2048": Chunky2048, "Slick256": Slick256}


async def collect(agen, limit, pause):
    out = []
    async for item in agen:
        out.append(item)
        if len(out) == limit:
            await agen.aclose()
            break
        if pause:
            await asyncio.sleep(0)
    return out


def take(gen, limit):
    out = []
    for item in gen:
        out.append(item)
        if len(out) == limit:
            gen.close()
            break
    return out


def blob(r, sizes=(0, 1, 5, 16, 32, 33, 64, 100)):
    return r.randbytes(r.choice(sizes))


def blobs(r):
    return [blob(r) for _ in range(r.choice([0, 1, 2, 3, 6]))]


# Each entry makes, from a generator of choices, the async and the sync form of
# one call on equal inputs, and optionally what turns results into comparable
# ones.
PAIRS = {}


def pair(fn):
    PAIRS[fn.__name__] = fn
    return fn


# ------------------------------------------------------------------ iteration
async def afeed(items):
    for item in items:
        await asyncio.sleep(0)
        yield item


def gens(r, af, sf, limit=None):
    limit, pause = limit or r.choice([1, 3, 50]), r.random() < 0.3
    return (lambda: collect(af(), limit, pause)), (lambda: take(sf(), limit))


@pair
def batch(r):
    data, size = blob(r), r.choice([1, 2, 7, 32, 200, 0, -1])
    return gens(r, lambda: G.abatch(data, size=size), lambda: G.batch(data, size=size))


@pair
def resize(r):
    data, size, blocks = blob(r), r.choice([1, 2, 7, 32, 200, 0]), r.choice([None, 1, 2, 9, 0])
    data = r.choice([data, list(data)])
    return gens(r, lambda: G.aresize(data, size, blocks=blocks), lambda: G.resize(data, size, blocks=blocks))


@pair
def unpack(r):
    items = blobs(r)
    src = r.choice([lambda: items, lambda: afeed(items)])
    return gens(r, lambda: G.aunpack(src()), lambda: G.unpack(items))


@pair
def zips(r):
    its = [blobs(r) for _ in range(r.choice([1, 2, 3]))]
    kinds = [r.random() < 0.5 for _ in its]
    return gens(
        r, lambda: G.azip(*[afeed(x) if k else x for x, k in zip(its, kinds)]),
        lambda: (list(x) for x in zip(*its)))


@pair
def cycle(r):
    items = [*range(r.choice([0, 1, 3]))]
    src = r.choice([lambda: items, lambda: afeed(items)])
    return gens(r, lambda: G.acycle(src()), lambda: G.cycle(items), r.choice([1, 4, 10]))


@pair
def bytes_count(r):
    kw = {"start": r.choice([0, 250, 2**32 - 2, -1]), "size": r.choice([1, 4, 8]),
          "byte_order": r.choice(["big", "little"])}
    return gens(r, lambda: G.abytes_count(**kw), lambda: G.bytes_count(**kw), r.choice([1, 9]))


@pair
def count(r):
    start = r.choice([0, 7, -3, "x", 1.5])
    return gens(r, lambda: G.acount(start=start), lambda: G.count(start=start), r.choice([1, 5]))


@pair
def bytes_range(r):
    a = r.choice([(5,), (2, 9), (0, 20, 3), (300,), (5, -1, -2)])
    size = r.choice([1, 8])
    return gens(r, lambda: G.abytes_range(*a, size=size), lambda: G.bytes_range(*a, size=size), 400)


@pair
def ranges(r):
    a = r.choice([(5,), (2, 9), (0, 20, 3), (5, -1, -2), ()])
    return gens(r, lambda: G.arange(*a), lambda: (x for x in range(*a)))


@pair
def collate(r):
    its = [blobs(r) for _ in range(r.choice([0, 1, 3]))]
    return gens(
        r, lambda: G.acollate(*[afeed(x) if i % 2 else x for i, x in enumerate(its)]), lambda: G.collate(*its))


@pair
def popleft(r):
    items = blobs(r)
    return gens(r, lambda: G.apopleft(deque(items)), lambda: G.popleft(deque(items)))


@pair
def ignore(r):
    raised = r.choice([None, None, ValueError, KeyError, IndexError, KeyboardInterrupt])
    kinds = r.choice([(), (ValueError,), (LookupError, ValueError), (BaseException,)])
    given = [name for name in ("if_except", "if_else", "finally_run") if r.random() < 0.6]
    answer, fails, late = r.random() < 0.6, r.choice([None, None, *given]), r.random() < 0.3
    slots = {"if_except": "except_code", "if_else": "else_code", "finally_run": "finally_code"}

    def handler(name, log, is_async):
        def handle(relay):
            log.append((name, type(relay.error).__name__))
            if name == fails:
                raise OSError(name)
            return answer

        async def ahandle(relay):
            await asyncio.sleep(0)
            return handle(relay)

        return ahandle if is_async else handle

    def setup(log, is_async):
        handlers = {name: handler(name, log, is_async) for name in given}
        relay = Ignore(*kinds, **({} if late else handlers))
        return relay, handlers if late else {}

    async def af():
        log = []
        relay, handlers = setup(log, True)
        try:
            async with relay as bound:
                for name, fn in handlers.items():
                    setattr(bound, slots[name], fn)
                await asyncio.sleep(0)
                if raised:
                    raise raised("inside")
            log.append("went on")
        except (Exception, KeyboardInterrupt) as e:
            log.append(type(e).__name__)
        if asyncio.current_task().cancelling():
            raise asyncio.CancelledError    # a handler's error had taken its place
        return log, type(relay.error).__name__

    def sf():
        log = []
        relay, handlers = setup(log, False)
        try:
            with relay as bound:
                for name, fn in handlers.items():
                    setattr(bound, slots[name], fn)
                if raised:
                    raise raised("inside")
            log.append("went on")
        except (Exception, KeyboardInterrupt) as e:
            log.append(type(e).__name__)
        return log, type(relay.error).__name__

    return af, sf


# ------------------------------------------------- encoding, packing, hashing
def call(af, sf, *a, **kw):
    return (lambda: af(*a, **kw)), (lambda: sf(*a, **kw))


@pair
def bytes_are_equal(r):
    a = blob(r)
    return call(canon.abytes_are_equal, canon.bytes_are_equal, a, r.choice([a, blob(r), a + b"\0", 5]))


@pair
def fullblock_ljust(r):
    return call(canon.afullblock_ljust, canon.fullblock_ljust, blob(r), r.choice([1, 4, 64, 0]), pad=r.choice([b"\0", b"=", b""]))


@pair
def encode_key(r):
    return call(canon.aencode_key, canon.encode_key, blob(r), r.choice([8, 64, 136]), pad=r.choice([b"\0", b"x"]))


@pair
def pack(r):
    items, kw = blobs(r), {"blocksize": r.choice([1, 4, 64, 168]), "pad": r.choice([b"\0", b"\x5c"]),
                           "int_bytes": r.choice([1, 2, 8])}
    return call(N.acanonical_pack, N.canonical_pack, *items, **kw)


@pair
def unpack_packed(r):
    data = bytearray(N.canonical_pack(*blobs(r), blocksize=r.choice([1, 4, 64])))
    how = r.choice(["", "", "cut", "flip", "more"])
    if how == "cut":
        del data[r.randrange(len(data)):]
    elif how == "flip":
        data[r.randrange(len(data))] ^= 1 << r.randrange(8)
    elif how == "more":
        data += r.randbytes(r.choice([1, 8]))
    data = bytes(data)
    return call(N.acanonical_unpack, N.canonical_unpack, data)


@pair
def encode_items(r):
    items, n = blobs(r), r.choice([1, 2, 8])
    return gens(r, lambda: canon.aencode_items(*items, int_bytes=n), lambda: canon.encode_items(*items, int_bytes=n), 50)


@pair
def hash_bytes(r):
    hasher = r.choice([sha3_512, sha3_256, sha256, blake2b, shake_128, shake_256])
    kw = {"hasher": hasher, "key": r.choice([None, b"", blob(r), r.randbytes(200)]), "pad": r.choice([b"\0", b"z"])}
    if hasher in (shake_128, shake_256):
        kw["size"] = r.choice([1, 32, 200, None])
    return call(N.ahash_bytes, N.hash_bytes, *blobs(r), **kw)


@pair
def base_as_int(r):
    table = r.choice(["0123456789abcdef", "01234", b"abcdef"])
    base = r.choice([None, 2, len(table)])
    text = table[:0].join([table[i:i + 1] for i in (r.randrange(len(table)) for _ in range(r.choice([0, 1, 6, 40])))])
    return call(transform.abase_as_int, transform.base_as_int, text, base, table=table)


@pair
def int_as_base(r):
    table = r.choice(["0123456789abcdef", "01234", b"abcdef"])
    return call(transform.aint_as_base, transform.int_as_base, r.choice([0, 1, r.getrandbits(64), r.getrandbits(700)]),
                r.choice([None, 2, 4]), table=table)


@pair
def xi_mix(r):
    return call(transform.axi_mix, transform.xi_mix, blob(r), r.choice([1, 8, 16]))


@pair
def encode_constant(r):
    return call(Domains.aencode_constant, Domains.encode_constant, r.choice(["name", b"name", "", 5]), r.choice([1, 8, 168]),
                domain=blob(r), aad=blob(r))


@pair
def to_urlsafe(r):
    return call(ByteIO.abytes_to_urlsafe, ByteIO.bytes_to_urlsafe, blob(r))


@pair
def from_urlsafe(r):
    return call(ByteIO.aurlsafe_to_bytes, ByteIO.urlsafe_to_bytes, r.choice([
        ByteIO.bytes_to_urlsafe(blob(r)), ByteIO.bytes_to_urlsafe(blob(r)).decode(), "a", b"!!!", "é"]))


@pair
def to_filename(r):
    return call(ByteIO.abytes_to_filename, ByteIO.bytes_to_filename, blob(r))


@pair
def from_filename(r):
    return call(ByteIO.afilename_to_bytes, ByteIO.filename_to_bytes, r.choice([
        ByteIO.bytes_to_filename(blob(r)), "", "UPPER", "0"]))


@pair
def index_key(r):
    return call(P.afilename_to_index_key, P.filename_to_index_key, r.choice(["", "file", "é"]), *blobs(r),
                size=r.choice([1, 32]), key=r.choice([None, r.randbytes(32)]))


@pair
def deniable_filename(r):
    return call(P.adeniable_filename, P.deniable_filename, blob(r), size=r.choice([0, 1, 8, 16, 17]))


# ------------------------------------------------------------ keys and ciphers
@pair
def kdf(r):
    obj = DomainKDF(blob(r), *blobs(r), key=r.randbytes(r.choice([1, 64, 168])))
    name = r.choice(["sha3_256", "sha3_512", "shake_128", "shake_256"])
    kw = {"aad": blob(r)}
    if name.startswith("shake"):
        kw["size"] = r.choice([1, 32, 300])
    return call(getattr(obj, "a" + name), getattr(obj, name), *blobs(r), **kw)


@pair
def kdf_updates(r):
    a = blob(r), r.randbytes(64)
    updates = [blobs(r) for _ in range(r.choice([1, 2, 4]))]

    async def af():
        obj = DomainKDF(a[0], key=a[1])
        for u in updates:
            await obj.aupdate(*u)
        return await obj.asha3_256()

    def sf():
        obj = DomainKDF(a[0], key=a[1])
        for u in updates:
            obj.update(*u)
        return obj.sha3_256()

    return af, sf


@pair
def choices(r):
    words, n = [b"a", b"b", b"c", b"d"][:r.choice([1, 4])], r.choice([0, 1, 8])
    kw = {"domain": blob(r), "key": r.randbytes(64)}
    return gens(r, lambda: akeyed_choices(words, n, **kw), lambda: keyed_choices(words, n, **kw), 50)


@pair
def mnemonics(r):
    words = r.choice([None, ["x", "y", "z"]])
    size = r.choice([1, 8, 24])
    kw = {"words": words, "salt": r.randbytes(16)}
    if r.random() < 0.4:
        kw.update(mb=1, cpu=r.choice([1, 2]), cores=r.choice([1, 2]))
        return call(amnemonic, mnemonic, r.choice([b"a passphrase of some length", b"x", b""]), size, **kw)
    known = words and set(words)
    return (*call(amnemonic, mnemonic, None, size, **kw),
            lambda res: (len(res), known is None or set(res) <= known))


@pair
def permute(r):
    cls = r.choice([AffinePermutation, AffineXORChain, FastAffineXORChain])
    size = r.choice([1, 2, 8, 16, 32])
    obj = cls(key=r.randbytes(cls.key_size(size)), config_id=size)
    name = r.choice(["permute", "invert"] + (["uncapped_permute", "uncapped_invert"] if cls is not AffinePermutation else []))
    return call(getattr(obj, "a" + name), getattr(obj, name), r.getrandbits(8 * size))


@pair
def sequence_id(r):
    size = r.choice([1, 6, 12, 32])
    obj = SequenceID(key=r.randbytes(SequenceID.key_size(size)), config_id=size)
    if r.random() < 0.5:
        return call(obj.anew, obj.new, r.getrandbits(8 * size))
    return call(obj.aread, obj.read, r.randbytes(size))


@pair
def guid_read(r):
    size = r.choice([12, 16, 32])
    obj = GUID(key=r.randbytes(GUID.key_size(size)), config_id=size)
    return (*call(obj.aread, obj.read, r.randbytes(r.choice([size, size, size - 1]))),
            lambda c: (c.timestamp, c.token, c.node_id, c.ticker))


@pair
def guid_new(r):
    size = r.choice([12, 16, 32])
    obj = GUID(key=r.randbytes(GUID.key_size(size)), config_id=size, node_id=b"n")
    return (*call(obj.anew, obj.new), lambda g: (len(g), obj.read(g).node_id))


@pair
def sign(r):
    key = Ed25519().import_secret_key(r.randbytes(32))
    return call(key.asign, key.sign, blob(r))


@pair
def verify(r):
    key = Ed25519().import_secret_key(r.randbytes(32))
    data = blob(r)
    signature = r.choice([key.sign(data), key.sign(data), r.randbytes(64), b""])
    kw = r.choice([{}, {"public_key": key.public_bytes}, {"public_key": r.randbytes(32)}, {"public_key": b"short"}])
    return call(key.averify, key.verify, signature, data, **kw)


@pair
def exchange(r):
    mine, theirs = (X25519().import_secret_key(r.randbytes(32)) for _ in "ab")
    return call(mine.aexchange, mine.exchange, r.choice([theirs.public_bytes, theirs.public_key, bytes(32), b"x"]))


@pair
def import_key(r):
    cls, kind = r.choice([Ed25519, X25519]), r.choice(["secret", "public"])
    raw = r.choice([r.randbytes(32), cls().import_secret_key(r.randbytes(32)).public_bytes, r.randbytes(31), "text"])
    return (lambda: getattr(cls(), f"aimport_{kind}_key")(raw), lambda: getattr(cls(), f"import_{kind}_key")(raw),
            lambda k: (k.public_bytes, k.has_secret_key()))


@pair
def generate(r):
    cls = r.choice([Ed25519, X25519])
    return (lambda: cls().agenerate(), lambda: cls().generate(),
            lambda k: (k.has_secret_key(), cls().import_secret_key(k.secret_bytes).public_bytes == k.public_bytes))


@pair
def padding(r):
    pad = Padding(r.choice([Chunky2048, Slick256])._config)
    data = r.randbytes(r.choice([0, 1, 30, 31, 32, 255, 256, 600]))
    return (*call(pad.apad_plaintext, pad.pad_plaintext, data),
            lambda p: (len(p), pad.depad_plaintext(p)))


@pair
def depadding(r):
    pad = Padding(r.choice([Chunky2048, Slick256])._config)
    data = pad.pad_plaintext(r.randbytes(r.choice([0, 1, 31, 256])))
    return call(pad.adepad_plaintext, pad.depad_plaintext, data, ttl=r.choice([None, 1000]))


@pair
def encrypt(r):
    name = r.choice(sorted(CIPHERS))
    cipher = CIPHERS[name](r.randbytes(64))
    kw = {"aad": blob(r)}
    if r.random() < 0.3:
        data = r.choice([{"a": [1, None, "x"]}, [], "text", 7, {1, 2}])
        return *call(cipher.ajson_encrypt, cipher.json_encrypt, data, **kw), lambda c: cipher.json_decrypt(c, **kw)
    data = r.randbytes(r.choice([0, 1, 31, 300]))
    if r.random() < 0.3:
        return *call(cipher.amake_token, cipher.make_token, data, **kw), lambda c: cipher.read_token(c, **kw)
    return (*call(cipher.abytes_encrypt, cipher.bytes_encrypt, data, **kw),
            lambda c: (len(c), cipher.bytes_decrypt(c, **kw)))


@pair
def decrypt(r):
    name = r.choice(sorted(CIPHERS))
    cipher = CIPHERS[name](r.randbytes(64))
    aad = blob(r)
    data = bytearray(cipher.bytes_encrypt(r.randbytes(r.choice([0, 1, 31, 300])), aad=aad))
    how = r.choice(["", "", "flip", "cut", "aad"])
    if how == "flip":
        data[r.randrange(len(data))] ^= 1
    elif how == "cut":
        del data[r.randrange(len(data)):]
    elif how == "aad":
        aad += b"\0"
    data = bytes(data)
    if r.random() < 0.3:
        token = ByteIO.bytes_to_urlsafe(data)
        return call(cipher.aread_token, cipher.read_token, token, aad=aad)
    return call(cipher.abytes_decrypt, cipher.bytes_decrypt, data, aad=aad)


@pair
def block_ids(r):
    cipher = CIPHERS[r.choice(sorted(CIPHERS))](r.randbytes(64))
    stream = cipher.stream_encrypt()
    stream.buffer(r.randbytes(2000))
    for _ in zip(range(3), stream):
        pass
    block, aad, size = r.randbytes(r.choice([32, 256])), blob(r), r.choice([None, 16, 24, 32, 1, 400])
    mac = stream.shmac
    if r.random() < 0.5:
        return call(mac.anext_block_id, mac.next_block_id, block, size=size, aad=aad)
    right = mac.next_block_id(block, aad=aad)
    return call(mac.atest_next_block_id, mac.test_next_block_id,
                r.choice([right, r.randbytes(24), b"", "x"]), block, aad=aad)


@pair
def randomness(r):
    n = r.choice([1, 8, 100])
    return r.choice([
        lambda: (*call(R.atoken_bytes, R.token_bytes, n), len),
        lambda: (*call(R.atoken_bits, R.token_bits, n), lambda x: 0 <= x < 2**n),
        lambda: (*call(R.achoice, R.choice, [*range(n)]), lambda x: x in range(n)),
        lambda: (*call(R.auniform, R.uniform, 3, 3 + n), lambda x: 3 <= x <= 3 + n),
        lambda: (*call(R.arandom_sleep, R.random_sleep, 1e-4 * n), lambda x: x),
        lambda: (*call(R.acanonical_token, R.canonical_token), len),
        lambda: (*call(acsprng, csprng), len),
    ])()


@pair
def clocks(r):
    obj = Clock(r.choice(["seconds", "hours", "days"]), epoch=r.choice([0, 10**18]))
    stamp = obj.make_timestamp()
    old = max(obj.time() - 10_000, 0).to_bytes(8, "big")
    return r.choice([
        lambda: (*call(obj.amake_timestamp, obj.make_timestamp, size=8), lambda x: abs(obj.delta(x)) <= 100),
        lambda: call(obj.aread_timestamp, obj.read_timestamp, stamp, byte_order=r.choice(["big", "little"])),
        lambda: (*call(obj.adelta, obj.delta, stamp), lambda x: 0 <= x <= 100),
        lambda: call(obj.atest_timestamp, obj.test_timestamp, r.choice([stamp, old]), r.choice([None, 200, 100_000_000])),
        lambda: (*call(obj.atime, obj.time), lambda x: abs(x - obj.time()) <= 100),
    ])()


@pair
def files(r):
    path = ROOT + "/work/" + r.choice(["present", "absent", "folder", "no/such"])
    if "present" not in path or r.random() < 0.6:
        return call(ByteIO.aread, ByteIO.read, path, r.choice([-1, 0, 7, 20_000]))
    own, data = f"{ROOT}/work/own{r.getrandbits(60)}-", r.randbytes(r.choice([0, 5, 9000]))
    number = iter(range(1000))
    how = r.choice(["write", "append"])

    async def af():
        p = own + str(next(number))
        await ByteIO.awrite(p, b"before")
        await getattr(ByteIO, "a" + how)(p, data)
        return await ByteIO.aread(p)

    def sf():
        p = own + str(next(number))
        ByteIO.write(p, b"before")
        getattr(ByteIO, how)(p, data)
        return ByteIO.read(p)

    return af, sf


@pair
def passcrypt(r):
    obj = Passcrypt(mb=1, cpu=r.choice([1, 2]), cores=r.choice([1, 2]), tag_size=r.choice([16, 64]))
    phrase = r.choice([b"a passphrase of some length", b"x" * 12, b"", "text"])
    if r.random() < 0.5:
        return call(obj.anew, obj.new, phrase, r.choice([r.randbytes(16), b"short"]), aad=blob(r))
    made = bytearray(obj.hash_passphrase(b"x" * 12))
    if r.random() < 0.4:
        made[r.randrange(len(made))] ^= 1
    return call(Passcrypt.averify, Passcrypt.verify, bytes(made), phrase, ttl=r.choice([None, 1000]),
                mb_allowed=r.choice([range(1, 4), range(2, 4)]), cpu_allowed=range(1, 4), cores_allowed=range(1, 4))


@pair
def database(r):
    key, number, root = r.randbytes(64), iter(range(1000)), f"{ROOT}/work/db{r.getrandbits(60)}-"
    script = []
    for _ in range(r.choice([2, 5, 9])):
        tag = r.choice(["a", "b", ""])
        script.append(r.choice([
            ("set_tag", (tag, r.choice([b"raw", {"x": 1}, "text", 5, {1, 2}]))), ("query_tag", (tag,)),
            ("pop_tag", (tag,)), ("rollback_tag", (tag,)), ("clear_cache", ()), ("save_tag", (tag,)),
            ("save_database", ()), ("delete_metatag", ("m",)), ("load_database", ()), ("set_tag", (tag, 3)),
            ("read_token", (b"no token",)), ("bytes_decrypt", (b"no ciphertext",)), ("json_decrypt", (b"",)),
        ]))

    async def both(is_async):
        path = root + str(next(number))
        THE_FS[0].mkdir(path)
        db = await Client.open(is_async, key, path)
        out = []
        for name, a in script:
            try:
                res = await db.call(name, *a)
            except Exception as e:
                res = type(e).__name__
            out.append((name, res if isinstance(res, (str, bytes, int, dict)) else None, sorted(db.db.tags)))
        token = await db.call("make_token", b"data")
        out.append(await db.call("read_token", token))
        out.append(await db.call("json_decrypt", await db.call("json_encrypt", [1, "x"])))
        out.append(await db.call("bytes_decrypt", await db.call("bytes_encrypt", b"yz", aad=b"a"), aad=b"a"))
        return out

    return (lambda: both(True)), (lambda: drive(both(False)))


# ------------------------------------------------------ accumulating objects
# Each has methods named after its operations, `do(name, arg)` in the async and
# `sync(name, arg)` in the sync form, and a model `step`.
class Kdf:
    OPS = ["update", "update", "update", "sha3_256", "shake_128", "copy"]

    def __init__(self, r):
        self.seed = r.randbytes(8), r.randbytes(64)
        self.obj = self.fresh()
        self.known = {}

    def fresh(self):
        return DomainKDF(self.seed[0], key=self.seed[1])

    def items(self, arg):
        return random.Random(arg), [bytes([arg % 256]) * (arg % 300), b"end"][:1 + arg % 2]

    async def do(self, name, arg):
        _, items = self.items(arg)
        if name == "update":
            await self.obj.aupdate(*items)
        elif name == "sha3_256":
            return await self.obj.asha3_256(*items)
        elif name == "shake_128":
            return await self.obj.ashake_128(*items, size=32)
        else:
            return await self.obj.copy().asha3_512(*items)

    def sync(self, name, arg, obj=None):
        obj = obj or self.obj
        _, items = self.items(arg)
        if name == "update":
            obj.update(*items)
        elif name == "sha3_256":
            return obj.sha3_256(*items)
        elif name == "shake_128":
            return obj.shake_128(*items, size=32)
        else:
            return obj.copy().sha3_512(*items)

    def apply(self, state, name, arg):
        key = state, name, arg
        if key not in self.known:
            obj = self.fresh()
            for a in state:
                self.sync("update", a, obj)
            self.known[key] = self.sync(name, arg, obj)
        return self.known[key]

    def step(self, state, op):
        if op["name"] == "update":
            return ((*state, op["arg"]),)
        return (state,) if op["res"] in (None, self.apply(state, op["name"], op["arg"])) else ()

    final = ("sha3_256", 1)


class Chain(Kdf):
    OPS = ["step", "step", "update_increment", "permute", "permute", "invert"]
    CLASS = AffineXORChain

    def __init__(self, r):
        self.size = r.choice([1, 2, 8, 16])
        self.key = r.randbytes(self.CLASS.key_size(self.size))
        self.obj = self.fresh()
        self.known = {}

    def fresh(self):
        return self.CLASS(key=self.key, config_id=self.size)

    def value(self, name, arg):
        value = random.Random(arg).getrandbits(8 * self.size)
        return (value or 1,) if name == "update_increment" else () if name == "step" else (value,)

    async def do(self, name, arg):
        return await getattr(self.obj, "a" + name)(*self.value(name, arg))

    def sync(self, name, arg, obj=None):
        return getattr(obj or self.obj, name)(*self.value(name, arg))

    def apply(self, state, name, arg):
        key = state, name, arg
        if key not in self.known:
            obj = self.fresh()
            for n, a in state:
                self.sync(n, a, obj)
            self.known[key] = self.sync(name, arg, obj)
        return self.known[key]

    def step(self, state, op):
        if op["name"] in ("step", "update_increment"):
            return ((*state, (op["name"], op["arg"])),)
        return (state,) if op["res"] in (None, self.apply(state, op["name"], op["arg"])) else ()

    final = ("permute", 1)


class FastChain(Chain):
    CLASS = FastAffineXORChain


class Queue:
    """Consumers of one queue get every item once, in order."""

    OPS = ["drain", "drain", "some"]

    def __init__(self, r):
        self.items = tuple(range(r.choice([3, 8, 20])))
        self.obj = deque(self.items)
        self.got = []

    async def do(self, name, arg):
        mine = []
        async for item in G.apopleft(self.obj):
            mine.append(item)
            self.got.append(item)
            if name == "some" and len(mine) > arg % 4:
                break
        return tuple(mine)

    def sync(self, name, arg, obj=None):
        mine = []
        for item in G.popleft(self.obj):
            mine.append(item)
            self.got.append(item)
            if name == "some" and len(mine) > arg % 4:
                break
        return tuple(mine)

    final = ("drain", 0)

    def judge(self, w, ops):
        w.check(self.got == list(self.items), "queue-items", lambda: f"of {self.items} the consumers got {self.got}")
        for op in ops:
            if op["res"]:
                w.check(list(op["res"]) == sorted(op["res"]), "queue-order", lambda: f"a consumer got {op['res']}")


class Appended:
    """One file that several tasks append to."""

    OPS = ["append", "append", "append", "read"]

    def __init__(self, r):
        self.path = f"{ROOT}/work/log{r.getrandbits(60)}"
        ByteIO.write(self.path, b"")

    def data(self, arg):
        return b"<%d:" % arg + b"." * (arg % 50 if arg % 5 else 9000) + b">"

    async def do(self, name, arg):
        if name == "append":
            await ByteIO.aappend(self.path, self.data(arg))
        else:
            return await ByteIO.aread(self.path)

    def sync(self, name, arg, obj=None):
        if name == "append":
            ByteIO.append(self.path, self.data(arg))
        else:
            return ByteIO.read(self.path)

    final = ("read", 0)

    def step(self, state, op):
        if op["name"] == "append":
            return (state + self.data(op["arg"]),)
        return (state,) if op["res"] in (None, state) else ()

    initial = b""


class Keys:
    """A key object can be filled once."""

    OPS = ["generate", "import_secret_key", "import_public_key", "sign"]

    def __init__(self, r):
        self.obj = Ed25519()

    def arg(self, name, arg):
        if name == "generate":
            return ()
        key = Ed25519().import_secret_key(random.Random(arg).randbytes(32))
        return (key.secret_bytes if name == "import_secret_key" else key.public_bytes,)

    async def do(self, name, arg):
        if name == "sign":
            return await self.obj.asign(b"data") and None
        key = await getattr(self.obj, "a" + name)(*self.arg(name, arg))
        return key.public_bytes

    def sync(self, name, arg, obj=None):
        if name == "sign":
            return self.obj.sign(b"data") and None
        return getattr(self.obj, name)(*self.arg(name, arg)).public_bytes

    def judge(self, w, ops):
        filled = [op for op in ops if op["name"] != "sign" and isinstance(op["res"], bytes)]
        open_ = [op for op in ops if op["name"] != "sign" and op["ret"] is None]
        w.check(len(filled) <= 1, "key-filled-twice", lambda: "one key object was filled twice:\n" + describe(ops))
        if ops and not open_ and any(op["name"] != "sign" for op in ops):
            w.check(len(filled) == 1, "key-never-filled", lambda: "every call failed:\n" + describe(ops))
        if filled:
            w.check(self.obj.public_bytes == filled[0]["res"], "key-replaced", "the key is not the accepted one")
            if filled[0]["name"] != "import_public_key":
                Ed25519().import_public_key(filled[0]["res"]).verify(self.obj.sign(b"x"), b"x")

    final = None


class Tag:
    """The tag of a stream is made once."""

    OPS = ["finalize", "finalize", "result"]

    def __init__(self, r):
        cipher = CIPHERS[r.choice(sorted(CIPHERS))](r.randbytes(64))
        stream = cipher.stream_encrypt()
        stream.buffer(r.randbytes(2000))
        for _ in zip(range(3), stream):
            pass
        self.obj = stream.shmac

    async def do(self, name, arg):
        return self.obj.result if name == "result" else await self.obj.afinalize()

    def sync(self, name, arg, obj=None):
        return self.obj.result if name == "result" else self.obj.finalize()

    def judge(self, w, ops):
        made = [op for op in ops if op["name"] == "finalize" and isinstance(op["res"], bytes)]
        tries = [op for op in ops if op["name"] == "finalize"]
        w.check(len(made) <= 1, "tag-made-twice", lambda: "one stream was finalized twice:\n" + describe(ops))
        if tries and all(op["ret"] for op in tries):
            w.check(len(made) == 1, "tag-never-made", lambda: "every call failed:\n" + describe(ops))
        for op in ops:
            if op["name"] == "result" and op["ret"] and made:
                got = isinstance(op["res"], bytes)
                w.check(not got or op["res"] == made[0]["res"], "tag-differs", lambda: "two tags:\n" + describe(ops))
                w.check(got or op["inv"] < made[0]["ret"], "tag-lost", lambda: "a tag is gone:\n" + describe(ops))

    final = None


SHARED = {"kdf": Kdf, "chain": Chain, "fast": FastChain, "queue": Queue, "log": Appended, "keys": Keys, "tag": Tag}
SLOW = ("mnemonics", "passcrypt")


def gen(rng, tier):
    mode = rng.choice(["tasks", "tasks", "tasks", "mixed", "threads"])
    names = sorted(PAIRS)
    some = rng.sample(names, rng.choice([1, 2, 5]))      # swarm: few kinds in one run
    calls = []
    for _ in range(rng.choice([1, 2, 4, 8])):
        name = rng.choice(some)
        if name in SLOW and mode != "tasks":
            name = rng.choice(["kdf", "pack", "hash_bytes"])
        calls.append({"op": name, "seed": rng.getrandbits(32)})
    shared = []
    if mode != "threads":
        for _ in range(rng.choice([0, 1, 1, 2])):
            shared.append({"kind": rng.choice(sorted(SHARED)), "seed": rng.getrandbits(32)})
    cancels = rng.random() < 0.4
    actors = []
    for _ in range(rng.choice([2, 3, 4, 6])):
        place = rng.choice([0, 0, 1, 2])
        ops = []
        for _ in range(rng.choice([1, 2, 3])):
            op = {"sync": rng.random() < 0.2, "pause": rng.choice([0, 0, 0, 1, 3]),
                  "cancel": rng.choice([0, 1, 2, 3, 6]) if cancels and rng.random() < 0.3 else None}
            if shared and (mode == "tasks" or place == 0) and rng.random() < 0.6:
                k = rng.randrange(len(shared))
                op.update(shared=k, name=rng.choice(SHARED[shared[k]["kind"]].OPS), arg=rng.randrange(1000))
            else:
                op["call"] = rng.randrange(len(calls))
            ops.append(op)
        actors.append({"place": place, "ops": ops})
    return {
        "cfg": {
            "mode": mode, "reorder": rng.choice([0, 0.3, 0.6, 0.9]), "jitter": rng.choice([0, 0.3]), "jit_n": 5,
            "exec_spread": rng.choice([0, 0.5]), "exec_n": 6,
            "mean_gap": rng.choice([3, 15, 60]), "opcodes": rng.random() < 0.4, "yield_p": 0.2,
        },
        "calls": calls, "shared": shared, "actors": actors,
    }


def simplify(plan):
    for i, a in enumerate(plan["actors"]):
        for k, op in enumerate(a["ops"]):
            p = copy.deepcopy(plan)
            del p["actors"][i]["ops"][k]
            yield p
            for key, v in (("cancel", None), ("pause", 0), ("sync", True)):
                if op[key] != v:
                    p = copy.deepcopy(plan)
                    p["actors"][i]["ops"][k][key] = v
                    yield p


def nontrivial(out):
    return out["stats"].get("reach:compared", 0) > 0


class Failed:
    """A call's error, equal to any of the same type."""

    def __init__(self, error):
        self.error = error

    def __eq__(self, other):
        return isinstance(other, Failed) and type(self.error) is type(other.error)

    def __repr__(self):
        return f"{type(self.error).__name__}({self.error})"


def run(w, plan):
    w.block_count = 0
    use_less_memory()
    THE_FS[0] = w.fs
    w.fs.mkdir(ROOT + "/work")
    w.fs.mkdir(ROOT + "/work/folder")
    w.fs.poke(ROOT + "/work/present", bytes(range(256)) * 60)

    calls = []
    for c in plan["calls"]:
        af, sf, *view = PAIRS[c["op"]](random.Random(c["seed"]))
        view = view[0] if view else lambda x: x
        calls.append((c["op"], af, sf, view))

    def s_try(sf, view):
        try:
            return view(sf())
        except Exception as e:
            return Failed(e)

    want = [s_try(sf, view) for _, _, sf, view in calls]
    shared = [SHARED[s["kind"]](random.Random(s["seed"])) for s in plan["shared"]]
    histories = [History(w) for _ in shared]
    running = {}

    def compare(op, got, form):
        name = calls[op["call"]][0]
        w.event(f"{name} {form}")
        w.reach("compared")
        w.reach("pair_" + name)
        if isinstance(got, Failed):
            w.reach("error_compared")
        if len(running) > 1:
            w.reach("overlap")
        w.check(got == want[op["call"]], f"twin:{name}", lambda: (
            f"{form} {name} of {plan['calls'][op['call']]} gave {str(got)[:200]}, alone the sync form gives "
            f"{str(want[op['call']])[:200]}"))

    async def limited(op, coro):
        """Runs the coroutine, or cancels it after some turns of the loop."""
        if op["cancel"] is None:
            return await coro
        task = asyncio.ensure_future(coro)
        for _ in range(op["cancel"]):
            await asyncio.sleep(0)
        task.cancel()
        return await task

    async def a_op(i, op):
        for _ in range(op["pause"]):
            await asyncio.sleep(0)
        if "shared" in op:
            obj, h = shared[op["shared"]], histories[op["shared"]]
            rec = h.start(i, op["name"], op["arg"])
            try:
                if op["sync"]:
                    h.end(rec, obj.sync(op["name"], op["arg"]))
                else:
                    h.end(rec, await limited(op, obj.do(op["name"], op["arg"])))
            except asyncio.CancelledError:
                h.open -= 1
                w.fault("cancel")
            except Exception as e:
                if obj.final:
                    raise
                h.end(rec, type(e).__name__)
            w.reach("shared_" + type(obj).__name__)
            return
        name, af, sf, view = calls[op["call"]]
        if op["sync"] and name not in SLOW + ("randomness",):
            compare(op, s_try(sf, view), "sync")
            return
        running[i] = True
        try:
            got = view(await limited(op, af()))
        except asyncio.CancelledError:
            w.fault("cancel")
            return
        except Exception as e:
            got = Failed(e)
        finally:
            del running[i]
        compare(op, got, "async")

    async def a_actor(i):
        for op in plan["actors"][i]["ops"]:
            await a_op(i, op)

    def s_actor(i):
        for op in plan["actors"][i]["ops"]:
            running[i] = True
            _, _, sf, view = calls[op["call"]]
            got = s_try(sf, view)
            del running[i]
            compare(op, got, "sync")

    run_actors(w, len(plan["actors"]), a_actor, s_actor, place=lambda i: plan["actors"][i]["place"],
               trace=code("generics", "_gentools.py", "keygens/domain_kdf", "keygens/mnemonics", "_permutations",
                          "randoms/ids", "ciphers", "_paths.py"))
    for obj, h in zip(shared, histories):
        if obj.final:
            rec = h.start("end", *obj.final)
            h.end(rec, obj.sync(*obj.final))
        if hasattr(obj, "judge"):
            obj.judge(w, h.ops)
            continue
        try:
            good = linearizable(h.ops, getattr(obj, "initial", ()), obj.step, 20_000)
        except TooHard:
            w.note("history too hard")
            continue
        w.check(good, f"no-serial-order:{type(obj).__name__}", lambda: (
            "no serial order of the calls explains the results:\n" + describe(h.ops)))
