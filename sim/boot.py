"""
Puts the simulated world under Python before aiootp and aiofiles are imported,
then imports them.  Import this module first in every simulating process.
"""

# everything from the standard library that may capture the originals
import _thread
import asyncio
import asyncio.events
import builtins
import collections
import concurrent.futures
import concurrent.futures.process
import concurrent.futures.thread
import datetime
import gc
import getpass
import hashlib
import hmac
import io
import json
import logging
import multiprocessing
import multiprocessing.connection
import os
import pathlib
import queue
import random
import secrets
import shutil
import sys
import tempfile
import threading
import time
import warnings

from . import workers
from . import world as W
from .fs import FD_BASE, SimFS, sim_open
from .loop import SimLoop, SimPolicy
from .threads import SimLock, SimRLock

REPO = os.environ.get("VERIF_REPO", "/repo")
DB_DIR = os.path.join(REPO, "aiootp", "db")

REAL = {}


def _patch_time():
    def dispatcher(name, fn):
        real = REAL["time." + name] = getattr(time, name)

        def wrapper(*a):
            w = W.CUR
            return real(*a) if w is None else fn(w, *a)

        wrapper.__name__ = name
        setattr(time, name, wrapper)

    dispatcher("time_ns", lambda w: w.wall_ns())
    dispatcher("time", lambda w: w.wall_ns() / 1e9)
    dispatcher("sleep", lambda w, s: w.sleep(s))
    dispatcher("perf_counter", lambda w: w.perf_ns() / 1e9)
    dispatcher("perf_counter_ns", lambda w: w.perf_ns())
    dispatcher("monotonic", lambda w: w.perf_ns() / 1e9)
    dispatcher("monotonic_ns", lambda w: w.perf_ns())
    dispatcher("process_time", lambda w: w.perf_ns() / 1e9)
    dispatcher("process_time_ns", lambda w: w.perf_ns())
    dispatcher("thread_time", lambda w: w.perf_ns() / 1e9)
    dispatcher("thread_time_ns", lambda w: w.perf_ns())

    def gettime(w, clock):
        return w.wall_ns() if clock == time.CLOCK_REALTIME else w.perf_ns()

    dispatcher("clock_gettime", lambda w, clock: gettime(w, clock) / 1e9)
    dispatcher("clock_gettime_ns", gettime)

    class SimDatetime(datetime.datetime):
        @classmethod
        def now(cls, tz=None):
            if W.CUR is None:
                return super().now(tz)
            return cls.fromtimestamp(W.CUR.wall_ns() / 1e9, tz)

        @classmethod
        def utcnow(cls):
            return cls.now(datetime.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return cls.now()

    SimDatetime.__name__ = SimDatetime.__qualname__ = "datetime"
    datetime.datetime = SimDatetime


def _patch_random():
    real = REAL["os.urandom"] = os.urandom

    def urandom(n):
        w = W.CUR
        return real(n) if w is None else w.urandom(n)

    os.urandom = urandom
    if hasattr(os, "getrandom"):
        os.getrandom = lambda size, flags=0: urandom(size)
    random._urandom = urandom
    real_seed = random.Random.seed

    def seed(self, a=None, version=2):
        if a is None and W.CUR is not None:     # C code would ask the OS
            a = int.from_bytes(W.CUR.urandom(32), "big")
        real_seed(self, a, version)

    random.Random.seed = seed
    random.seed = random._inst.seed


PATH_CALLS = (
    "stat", "lstat", "chmod", "mkdir", "rmdir", "unlink", "remove", "rename",
    "replace", "link", "symlink", "readlink", "access", "utime", "listdir",
    "scandir", "truncate", "open", "listxattr", "chown",
)
FD_CALLS = (
    "read", "write", "close", "fstat", "fsync", "fdatasync", "ftruncate",
    "lseek", "fchmod", "isatty", "pread", "pwrite", "readv", "writev", "posix_fallocate",
)


def _patch_os():
    def path_call(name):
        real = REAL["os." + name] = getattr(os, name)

        def wrapper(path=".", *a, **k):
            w = W.CUR
            if w is not None and w.fs.owns(path):
                return getattr(w.fs, name)(path, *a, **k)
            return real(path, *a, **k)

        wrapper.__name__ = wrapper.__qualname__ = name
        wrapper.__doc__ = real.__doc__
        setattr(os, name, wrapper)

    def fd_call(name):
        real = REAL["os." + name] = getattr(os, name)

        def wrapper(fd, *a, **k):
            if isinstance(fd, int) and fd >= FD_BASE and W.CUR is not None:
                return getattr(W.CUR.fs, name)(fd, *a, **k)
            return real(fd, *a, **k)

        wrapper.__name__ = wrapper.__qualname__ = name
        wrapper.__doc__ = real.__doc__
        setattr(os, name, wrapper)

    for name in PATH_CALLS:
        path_call(name)
    for name in FD_CALLS:
        fd_call(name)

    real_getcwd = REAL["os.getcwd"] = os.getcwd

    def getcwd():
        w = W.CUR
        return w.fs.cwd if w is not None and w.fs.cwd is not None else real_getcwd()

    os.getcwd = getcwd
    real_open = REAL["open"] = builtins.open

    def open(file, mode="r", *a, **k):
        w = W.CUR
        if w is not None and w.fs.owns(file):
            return sim_open(w.fs, file, mode, *a, **k)
        return real_open(file, mode, *a, **k)

    builtins.open = open
    io.open = open
    shutil._USE_CP_SENDFILE = False     # between real descriptors only
    shutil._use_fd_functions = False


def _patch_console():
    """What a program asks its user, a world's console answers."""

    def dispatcher(module, name, fn):
        real = getattr(module, name)

        def wrapper(prompt="", *a, **k):
            w = W.CUR
            return real(prompt, *a, **k) if w is None or w.console is None else fn(w.console, prompt)

        wrapper.__name__ = name
        setattr(module, name, wrapper)

    dispatcher(builtins, "input", lambda c, prompt: c.ask(prompt))
    dispatcher(getpass, "getpass", lambda c, prompt: c.ask_secret(prompt))


def _patch_keys():
    """Secret keys of the curves come from the world's random source."""
    try:
        from cryptography.hazmat.primitives.asymmetric.ed25519 import Ed25519PrivateKey
        from cryptography.hazmat.primitives.asymmetric.x25519 import X25519PrivateKey
    except ImportError:
        return
    for cls in (Ed25519PrivateKey, X25519PrivateKey):
        cls.from_private_bytes(bytes(32))       # imports the rest of the library
        cls.generate = classmethod(lambda cls: cls.from_private_bytes(os.urandom(32)))


def _patch_threads():
    REAL["threading.Lock"] = threading.Lock
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock      # what conditions and events wait on


def _patch_ids():
    """
    Process ids are replaced for good; thread ids only in what aiootp
    captures at import, as the standard library needs the real ones.
    """
    real_ident = REAL["get_ident"] = _thread.get_ident
    real_getpid = REAL["getpid"] = os.getpid

    def get_ident():
        w = W.CUR
        if w is None:
            return real_ident()
        if w.sched is not None and w.sched.is_member():
            return 7000 + w.sched.me().tid
        return 7000

    def getpid():
        w = W.CUR
        if w is None:
            return real_getpid()
        if w.sched is not None and w.sched.is_member():
            return w.sched.pids.get(w.sched.me().tid, w.pid)
        return w.pid

    os.getpid = getpid
    real_current = threading.current_thread

    def current_thread():
        w = W.CUR
        if w is None or w.sched is None or not w.sched.is_member():
            return real_current()
        return workers.thread_of(w.sched.me())

    threading.get_ident = get_ident
    threading.get_native_id = get_ident
    threading.current_thread = threading.currentThread = current_thread
    return get_ident


def _import():
    real_ident = _thread.get_ident
    _thread.get_ident = REAL["sim_ident"]
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            import aiofiles
            import aiofiles.os
            import aiootp
    finally:
        _thread.get_ident = real_ident
    return aiootp


def import_again(w):
    """
    Imports aiootp anew, as a restarted process does.  Returns the package and
    the background threads that it wanted to start.
    """
    for name in [n for n in sys.modules if n.split(".")[0] == "aiootp"]:
        del sys.modules[name]
    w.deferred_threads = []
    aiootp = _import()
    threads, w.deferred_threads = w.deferred_threads, None
    return aiootp, threads


def _import_aiootp():
    """
    Imports aiootp inside a fixed boot world, so that everything it computes
    at import time is the same in every process; background threads that it
    starts meanwhile are recorded instead of started.
    """
    boot = W.World(seed=20240229, fs=SimFS((DB_DIR, "/sim")))
    boot.max_steps = 10**9
    boot.deferred_threads = []
    REAL["sim_ident"] = _patch_ids()
    asyncio.set_event_loop_policy(SimPolicy())
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    with boot.active():
        aiootp = _import()
    path = os.path.dirname(os.path.abspath(aiootp.__file__))
    if os.path.realpath(path) != os.path.realpath(os.path.join(REPO, "aiootp")):
        raise W.HarnessError(f"aiootp was imported from {path}, not from {REPO}")
    return boot, boot.deferred_threads


_patch_time()
_patch_random()
_patch_keys()
_patch_console()
_patch_os()
_patch_threads()
workers.install()
gc.disable()
sys.unraisablehook = lambda *a: None
threading.excepthook = lambda *a: None
BOOT, STARTED = _import_aiootp()
warnings.simplefilter("ignore")
logging.disable(logging.CRITICAL)
BOOT_FS = BOOT.fs.export()


def fresh_fs():
    """A file system holding only what importing aiootp left behind."""
    fs = SimFS.load(BOOT_FS)
    return fs
