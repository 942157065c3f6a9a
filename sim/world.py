"""One simulated world: clock, randomness, file system, scheduler, event log."""

import asyncio
import hashlib
import os
import pickle
import random
import select
import signal
import sys
import tempfile
import time as _time
import traceback
from collections import Counter

from . import choices as _choices
from .fs import SimCrash, SimFS

EPOCH_NS = 1_800_000_000_000_000_000  # 2027-01-15, the default wall clock start

_real_monotonic = _time.monotonic

NEED_THREADS = "(needs threads)"

CUR = None      # the active world of this process, or None


class HarnessError(Exception):
    """
    The simulator itself misbehaved; never a verdict about aiootp.  Inside a
    simulated process it ends the run at once, before anyone can take it for
    an answer of the code under test.
    """

    def __init__(self, *args):
        super().__init__(*args)
        if CUR is not None and _emit_fd is not None:
            text = "".join(traceback.format_stack(limit=12)) + str(self)
            _write_all(_emit_fd, pickle.dumps(("err", text)))
            os._exit(0)


def through_aiootp(exc):
    """Whether the exception passed through code of aiootp."""
    from . import boot

    pre = os.path.join(boot.REPO, "aiootp") + os.sep
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        for frame, _ in traceback.walk_tb(exc.__traceback__):
            if frame.f_code.co_filename.startswith(pre):
                return True
        exc = exc.__cause__ or exc.__context__
    return False


class World:
    max_steps = 200_000
    max_sim_s = 3_600.0 * 24
    on_sleep = None             # called at the end of every synchronous sleep
    block_count = 2_000         # sync sleeps inside one loop step
    keep_log = 600

    def __init__(self, seed, recorded=None, fs=None, cfg=None, name="w"):
        self.seed = seed
        self.name = name
        self.choices = _choices.Choices(seed, recorded)
        self.cfg = dict(cfg or {})
        self.now_ns = 0
        self.wall0 = self.cfg.get("wall0", EPOCH_NS)
        self.wall_offset = 0        # clock jumps and skews
        self.tick_ns = self.cfg.get("tick_ns", 100)   # clock advance per reading
        self.clock_frozen = False
        self.frozen_at = 0
        self.urandom_rng = random.Random(_choices.derive(seed, "urandom"))
        self.urandom_fault = None   # callable(n) -> bytes
        self.fs = fs if fs is not None else SimFS(("/sim",))
        self.fs.on_call = self._fs_call
        self.fs.trace = self.note
        self.steps = 0
        self.epochs = 0
        self.stats = Counter()
        self.faults = Counter()
        self.digest = hashlib.blake2b(digest_size=16)
        self.sched_digest = hashlib.blake2b(digest_size=16)
        self.log = []
        self.sched = None           # thread scheduler, when one is running
        self.emit_fd = None
        self.triggers = {}          # step -> [callables]
        self.child_choices = {}
        self.in_job = 0             # inside an executor job run in place
        self.life = 0
        self.notes_on = True
        self.extra = {}
        self.worker_death = {}      # n-th process worker -> when it dies
        self.pool_death = {}        # n-th pool job -> True
        self.on_pool_job = None     # called for every job given to a pool
        self.extra_hooks = {}
        self.pid = 4242
        self.split = 0              # which process this is, among those that split off from one another
        self.console = None         # answers what the program asks its user
        self.pending = []           # (when, n, callable): what is under way without a thread
        self.pending_n = 0

    # ------------------------------------------------------------- log
    def note(self, text):
        if not self.notes_on:
            return
        line = f"{self.now_ns} {text}"
        self.digest.update(line.encode() + b"\n")
        if len(self.log) < self.keep_log:
            self.log.append(line)
        else:
            self.log[self.keep_log // 2:] = self.log[self.keep_log // 2 + 1:] + [line]

    def event(self, text):
        """A harness-visible event: counts toward the interleaving digest."""
        self.sched_digest.update(text.encode() + b"\n")
        self.note(text)

    def reach(self, name, n=1):
        self.stats["reach:" + name] += n

    def fault(self, name, n=1):
        self.faults[name] += n

    # ------------------------------------------------------------ verdict
    def result(self, fail=None, ret=None):
        for f in self.fs.fired:
            self.faults[f] += 1
        self.fs.fired = []
        ch = {k: v for k, v in self.choices.log.items()}
        ch.update(self.child_choices)
        return {
            "fail": fail,
            "ret": ret,
            "digest": self.digest.hexdigest(),
            "sched": self.sched_digest.hexdigest(),
            "log": self.log,
            "choices": ch,
            "stats": dict(self.stats),
            "faults": dict(self.faults),
            "sim_ns": self.now_ns,
            "steps": self.steps,
            "extra": self.extra,
        }

    def fail(self, sig, message=""):
        """Reports a violation and ends this simulated process at once."""
        self.note(f"VIOLATION {sig}")
        emit_and_exit(self, self.result(fail={"sig": sig, "message": message[:4000]}))

    def check(self, cond, sig, message=""):
        if not cond:
            self.fail(sig, message() if callable(message) else message)

    def fail_exc(self, sig, exc):
        text = "".join(traceback.format_exception(exc))[-3000:]
        self.fail(f"{sig}:{type(exc).__name__}", text)

    # -------------------------------------------------------------- steps
    def step(self):
        self.steps += 1
        todo = self.triggers.pop(self.steps, None)
        if todo:
            for fn in todo:
                fn()
        if self.steps > self.max_steps:
            self.fail("no-progress", f"no end after {self.steps} scheduler steps")

    def at_step(self, step, fn):
        self.triggers.setdefault(step, []).append(fn)

    # -------------------------------------------------------------- clock
    def wall_ns(self):
        if self.clock_frozen:
            return self.frozen_at
        self.now_ns += self.tick_ns
        return self.wall0 + self.now_ns + self.wall_offset

    def freeze_clock(self, on=True):
        if on and not self.clock_frozen:
            self.frozen_at = self.wall0 + self.now_ns + self.wall_offset
        self.clock_frozen = on

    def jump_clock(self, ns):
        self.wall_offset += ns
        if self.clock_frozen:
            self.frozen_at += ns
        self.note(f"clock jump {ns}")

    def set_wall(self, ns):
        self.wall_offset = ns - self.wall0 - self.now_ns
        if self.clock_frozen:
            self.frozen_at = ns

    def perf_ns(self):
        self.now_ns += self.tick_ns
        return self.now_ns

    def advance(self, ns):
        self.now_ns += max(0, int(ns))
        self.epochs += 1    # everything that could run has run
        if self.now_ns > self.max_sim_s * 1e9:
            self.fail("no-progress", "simulated time limit reached")

    def sleep(self, seconds):
        if seconds < 0:
            raise ValueError("sleep length must be non-negative")
        if self.fs.dead:
            raise SimCrash("the process is gone")
        ns = int(seconds * 1e9)
        loop = asyncio._get_running_loop()
        if loop is not None:
            loop.step_sleeps += 1
            self.stats["sleep_in_loop"] += 1
            if loop.step_sleeps > self.block_count:
                self.fail(
                    "event-loop-blocked",
                    "a coroutine kept waiting synchronously inside the event loop:\n"
                    + "".join(traceback.format_stack(limit=14)),
                )
        if self.sched is not None and self.sched.is_member() and not self.in_job:
            self.sched.sleep(ns)
        else:
            self.need_threads()
            self.steps += 1
            if self.steps > self.max_steps:
                self.fail(
                    "no-progress",
                    "a synchronous wait never ended:\n"
                    + "".join(traceback.format_stack(limit=14)),
                )
            self.advance(max(ns, 1))
            if self.pending:
                self.fire_due()
        if self.on_sleep is not None:
            self.on_sleep()

    def need_threads(self):
        """
        Code in an executor job wants to wait.  Jobs run in place by default,
        so the run starts over with every job on a thread of its own.
        """
        if self.in_job:
            emit_and_exit(self, self.result(fail={"sig": NEED_THREADS, "message": ""}))

    # ------------------------------------------- things under way, no threads
    def later(self, delay_ns, fn):
        """Has fn called at a virtual time, in a world without threads."""
        self.pending_n += 1
        item = (self.now_ns + int(delay_ns), self.pending_n, fn)
        self.pending.append(item)
        loop = asyncio._get_running_loop()
        if loop is not None:
            loop.call_exactly(delay_ns, self._fire, item)

    def _fire(self, item):
        if item in self.pending:
            self.pending.remove(item)
            item[2]()

    def fire_due(self):
        for item in sorted(i for i in self.pending if i[0] <= self.now_ns):
            self._fire(item)

    def fire_next(self):
        """Moves on to the next thing under way; False if there is none."""
        if not self.pending:
            return False
        item = min(self.pending)
        self.advance(item[0] - self.now_ns)
        self._fire(item)
        return True

    def idle_until(self, when_ns):
        """The event loop of the current thread has nothing to do until then."""
        if self.sched is not None and self.sched.is_member():
            self.sched.sleep(max(0, when_ns - self.now_ns))
        else:
            self.advance(max(0, when_ns - self.now_ns))

    def sync_point(self, what):
        if self.sched is not None and self.sched.is_member():
            self.sched.maybe_yield(what)

    def _fs_call(self, name, path, mutating):
        self.sync_point("fs")

    # --------------------------------------------------------- randomness
    def urandom(self, n):
        if self.urandom_fault is not None:
            out = self.urandom_fault(n)
            if out is not None:
                return out
        return self.urandom_rng.randbytes(n)

    # ----------------------------------------------------------- lifetimes
    def lifetime(self, fn, timeout=120.0, cfg=None):
        """
        Runs `fn(world)` as one life of the simulated process, in a forked
        child, so that nothing but the file system survives its end.  Returns
        ("ok", value) or ("crash", value so far); a violation inside is passed
        on as this world's own.
        """
        self.life += 1
        label = f"L{self.life}"
        rec = self.choices.recorded
        if rec is not None:
            pre = label + "/"
            rec = {k[len(pre):]: v for k, v in rec.items() if k.startswith(pre)}

        def body():
            child = World(
                _choices.derive(self.seed, label), rec,
                cfg=dict(self.cfg, **(cfg or {})), name=label)
            child.fs.nodes = self.fs.nodes
            child.fs.ino = self.fs.ino
            child.fs.mounts = self.fs.mounts
            child.fs.faults = self.fs.faults
            child.fs.read_faults = self.fs.read_faults
            child.fs.full = self.fs.full
            child.wall0 = self.wall0
            child.wall_offset = self.wall_offset + self.now_ns
            child.max_steps = self.max_steps
            child.extra = self.extra
            crashed = False
            ret = None
            with child.active():
                try:
                    ret = fn(child)
                except SimCrash:
                    crashed = True
                except HarnessError:
                    raise
                except Exception as e:
                    if through_aiootp(e):
                        child.fail_exc("unexpected-exception", e)
                    raise
            child.fs.dead = False
            out = child.result(ret=(crashed, ret))
            out["fs"] = child.fs.export()
            out["counts"] = (child.fs.n_mut, child.fs.n_read)
            return out

        sys.stdout.flush()
        status, out = in_child(body, timeout)
        if status == "hang":
            self.fail("hang", f"{label} did not end in {timeout} s of real time")
        if status == "err":
            raise HarnessError(out)
        for k, v in out["choices"].items():
            self.child_choices[f"{label}/{k}"] = v
        self.digest.update(out["digest"].encode())
        self.sched_digest.update(out["sched"].encode())
        self.log.append(f"-- {label} --")
        self.log.extend(out["log"])
        self.stats.update(out["stats"])
        self.faults.update(out["faults"])
        self.steps += out["steps"]
        self.now_ns += out["sim_ns"]
        self.extra = out["extra"]
        if out["fail"]:
            emit_and_exit(self, self.result(fail=out["fail"]))
        crashed, ret = out["ret"]
        state = out["fs"]
        fresh = SimFS.load(state)
        fresh.on_call, fresh.trace = self.fs.on_call, self.fs.trace
        self.fs = fresh
        self.last_counts = out["counts"]
        return ("crash" if crashed else "ok"), ret

    def active(self):
        return _Active(self)


class _Active:
    def __init__(self, world):
        self.world = world

    def __enter__(self):
        global CUR
        self.prev, CUR = CUR, self.world
        random.seed(_choices.derive(self.world.seed, "random"))
        tempfile._name_sequence = None
        return self.world

    def __exit__(self, *exc):
        global CUR
        CUR = self.prev


_emit_fd = None


def emit_and_exit(world, result):
    """Ends the current forked child with the given result."""
    if _emit_fd is None:
        raise HarnessError("violation outside a simulated process: %r" % (result["fail"],))
    _write_all(_emit_fd, pickle.dumps(("ok", result)))
    os._exit(0)


def _write_all(fd, data):
    view = memoryview(data)
    while view:
        n = os.write(fd, view)
        view = view[n:]


def in_child(fn, timeout):
    """Runs fn() in a forked child: ("ok", value) | ("err", text) | ("hang", None)."""
    global _emit_fd
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            _emit_fd = w
            try:
                payload = ("ok", fn())
            except BaseException as e:
                payload = ("err", "".join(traceback.format_exception(e)))
            try:
                blob = pickle.dumps(payload)
            except BaseException as e:
                blob = pickle.dumps(("err", "unpicklable result: %r" % (e,)))
            _write_all(w, blob)
        finally:
            os._exit(0)
    os.close(w)
    chunks = []
    deadline = _real_monotonic() + timeout
    status = None
    try:
        while True:
            left = deadline - _real_monotonic()
            if left <= 0:
                status = ("hang", None)
                break
            ready, _, _ = select.select([r], [], [], min(left, 5.0))
            if ready:
                chunk = os.read(r, 1 << 20)
                if not chunk:
                    break
                chunks.append(chunk)
    finally:
        os.close(r)
        if status is not None:
            try:
                os.kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        os.waitpid(pid, 0)
    if status is not None:
        return status
    data = b"".join(chunks)
    if not data:
        return ("err", "child ended without a result")
    return pickle.loads(data)
