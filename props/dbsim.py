"""Shared database client and reference model of the database properties."""

import hashlib
import json

from sim import loop as L

import aiootp

ROOT = "/sim/db"
ABSENT = "(absent)"

TAGS = ["a", "b", "c", "tag with spaces", "", "0", "1", "taxes", "ünïcode✓", "x" * 200]
METAS = ["m", "taxes2020", "sub_db"]
KEY = b"\x5a" * 64


def value_of(spec):
    """The value a plan's small JSON spec stands for."""
    kind, n = spec
    rnd = hashlib.shake_128(b"%d" % n)
    if kind == "bytes":
        return rnd.digest(n % 40)
    if kind == "flagged":       # bytes that look like other stored forms
        return [b"\x00" * 16, b'"text"', b"null", b"{}", b"bytes:", b"\x00", b"[1]"][n % 7] + rnd.digest(n % 5)
    if kind == "big":
        return rnd.digest(250 + n % 900)
    if kind == "json":
        return [
            n, -n, n / 7, True, False, None, "text %d" % n, "", "✓ü\n\0", [], {}, [1, [n, {"k": None}]],
            {"a": n, "b": [1.5, "x"], "": {}}, 2 ** 70 + n, "x" * (n % 700),
        ][n % 15]
    raise ValueError(kind)


def gen_value(rng):
    return [rng.choice(["bytes", "json", "json", "flagged", "big"]), rng.randrange(1 << 20)]


def same(a, b):
    """Equality that also tells 1 from True and 1 from 1.0."""
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return a == b


def frozen(v):
    """A hashable stand-in for a value."""
    if isinstance(v, bytes):
        return ("b", v)
    if isinstance(v, str) and v == ABSENT:
        return ABSENT
    return ("j", json.dumps(v, sort_keys=True))


def show(v):
    return repr(v)[:80]


def drive(coro):
    """Runs a coroutine that never really waits."""
    try:
        coro.send(None)
    except StopIteration as e:
        return e.value
    raise RuntimeError("a synchronous session tried to wait")


def session(w, is_async, coro):
    return L.run(w, coro) if is_async else drive(coro)


class Client:
    """One open database object, sync or async behind the same calls."""

    def __init__(self, db, is_async):
        self.db, self.is_async = db, is_async

    @classmethod
    async def open(cls, is_async, key=KEY, path=ROOT, **kw):
        if is_async:
            return cls(await aiootp.AsyncDatabase(key, path=path, **kw), True)
        return cls(aiootp.Database(key, path=path, **kw), False)

    async def call(self, name, *a, **k):
        if self.is_async:
            return await getattr(self.db, "a" + name)(*a, **k)
        return getattr(self.db, name)(*a, **k)

    async def meta(self, name, **k):
        return Client(await self.call("metatag", name, **k), self.is_async)

    async def at(self, path):
        """The (sub-)database with the given path of names."""
        c = self
        for name in path:
            c = await c.meta(name)
        return c

    async def query(self, tag, **k):
        """The value, or ABSENT when the database says there is none."""
        try:
            return await self.call("query_tag", tag, **k)
        except LookupError:
            return ABSENT


class Node:
    """The model of one database: what is in memory and what is saved."""

    def __init__(self):
        self.cache = {}         # tag -> value
        self.listed = set()     # tags in the in-memory index
        self.subs = []          # names in the in-memory index
        self.files = {}         # tag -> value on disk
        self.disk = None        # (listed, subs) on disk, or None
        self.children = {}      # name -> Node, opened in this session


class Model:
    """The whole tree of one root key."""

    def __init__(self):
        self.store = {(): Node()}

    def node(self, path):
        return self.store.setdefault(tuple(path), Node())

    def reopen(self):
        """All that was only in memory is gone."""
        known = dict(self.store)
        self.store = {}

        def load(path):
            old = known.get(path)
            n = self.store[path] = Node()
            if old is None or old.disk is None:
                return          # never saved: starts afresh with a new salt
            n.files, n.disk = old.files, old.disk
            n.listed, n.subs = set(old.disk[0]), list(old.disk[1])
            for name in n.subs:
                load(path + (name,))
            # saved directly though its parent does not list it: reachable
            for p in known:
                if len(p) == len(path) + 1 and p[:-1] == path and p[-1] not in n.subs:
                    self.hidden(known, p)

        load(())

    def hidden(self, known, path):
        old = known[path]
        if old.disk is None:
            return
        n = self.store[path] = Node()
        n.files, n.disk = old.files, old.disk
        n.listed, n.subs = set(old.disk[0]), list(old.disk[1])
        for p in known:
            if len(p) == len(path) + 1 and p[:-1] == path:
                self.hidden(known, p)

    # every operation of one node, by the same names as the real ones
    def set(self, path, tag, value, cache=True):
        n = self.node(path)
        n.cache[tag] = value
        n.listed.add(tag)
        if not cache:
            n.files[tag] = n.cache.pop(tag)

    def get(self, path, tag):
        return self.node(path).cache.get(tag)

    def query(self, path, tag, cache=False):
        n = self.node(path)
        if tag in n.cache:
            return n.cache[tag]
        if tag in n.files:
            if cache:
                n.cache[tag] = n.files[tag]
            return n.files[tag]
        return ABSENT

    def pop(self, path, tag):
        n = self.node(path)
        value = self.query(path, tag)
        had = tag in n.listed or tag in n.cache or tag in n.files
        n.listed.discard(tag)
        n.cache.pop(tag, None)
        n.files.pop(tag, None)
        return value, had

    def rollback(self, path, tag, cache=False):
        n = self.node(path)
        if tag not in n.files:
            n.listed.discard(tag)
        n.cache.pop(tag, None)
        if cache:
            self.query(path, tag, cache=True)

    def clear(self, path, metatags=True):
        n = self.node(path)
        n.cache.clear()
        if metatags:
            for name in n.subs:
                self.clear(tuple(path) + (name,))

    def save_tag(self, path, tag, drop=False):
        n = self.node(path)
        if tag not in n.cache:
            return False
        n.files[tag] = n.cache[tag]
        if drop:
            del n.cache[tag]
        return True

    def save(self, path):
        n = self.node(path)
        n.disk = (frozenset(n.listed), tuple(n.subs))
        n.files.update(n.cache)
        for name in n.subs:
            self.save(tuple(path) + (name,))

    def meta(self, path, name):
        n = self.node(path)
        self.node(tuple(path) + (name,))
        if name not in n.subs:
            n.subs.append(name)

    def delete_meta(self, path, name):
        n = self.node(path)
        if name not in n.subs:
            return False
        self.wipe(tuple(path) + (name,))
        n.subs.remove(name)
        return True

    def wipe(self, path):
        for p in [p for p in self.store if p[:len(path)] == tuple(path)]:
            del self.store[p]
