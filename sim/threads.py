"""
Cooperative scheduling of real threads: exactly one runs at a time, and who
runs next is a choice of the world.  Threads can be switched at simulated
sleeps, simulated locks, file system calls, event loop steps and - through a
trace function - between any two lines or bytecodes of aiootp's own code.
"""

import sys
import _thread
import traceback

from .fs import SimCrash

_alloc = _thread.allocate_lock


def _importing():
    """Whether this thread is within an import, i.e. holds real locks."""
    frame = sys._getframe(1)
    while frame is not None:
        if frame.f_code.co_filename == "<frozen importlib._bootstrap>":
            return True
        frame = frame.f_back
    return False


class _T:
    __slots__ = ("tid", "name", "fn", "sem", "wake", "blocked", "waits", "done", "error", "result", "daemon", "thread")

    def __init__(self, tid, name, fn, daemon):
        self.tid, self.name, self.fn, self.daemon = tid, name, fn, daemon
        self.sem = _alloc()
        self.sem.acquire()
        self.wake = 0
        self.blocked = None
        self.waits = None
        self.thread = None
        self.done = False
        self.error = None
        self.result = None


class ThreadSched:
    def __init__(self, world, mean_gap=0, opcodes=False, trace_prefix=(), yield_p=0.5):
        self.w = world
        self.mean_gap = mean_gap
        self.opcodes = opcodes
        self.trace_prefix = tuple(trace_prefix)
        self.yield_p = yield_p
        self.stall_p = world.cfg.get("stall_p", 0)  # chance that a pre-empted thread stays off for long
        self.ts = []
        self.by_ident = {}
        self.pids = {}
        self.current = None
        self.main = _alloc()
        self.main.acquire()
        self.gap = 0
        self.cache = {}
        self.switches = 0
        self.stalls = 0
        self.preempts = 0
        self.tracing = bool(trace_prefix) and (mean_gap > 0 or world.choices.recorded is not None)

    def spawn(self, fn, name=None, daemon=False):
        """Daemons are left where they are once everyone else is done."""
        t = _T(len(self.ts), name or f"t{len(self.ts)}", fn, daemon)
        self.ts.append(t)
        if self.current is not None:    # spawned while running
            _thread.start_new_thread(self._body, (t,))
        return t

    def others_alive(self):
        me = self.me()
        return any(t is not me and not t.done for t in self.ts)

    def is_member(self):
        return _thread.get_ident() in self.by_ident

    # -------------------------------------------------------------- running
    def run(self):
        self.w.sched = self
        if self.tracing:
            self.gap = self.w.choices.gap("gap", self.mean_gap)
        for t in list(self.ts):
            _thread.start_new_thread(self._body, (t,))
        first = self._choose(None)
        self.current = first
        first.sem.release()
        self.main.acquire()
        self.w.sched = None
        self.w.stats["thread_switches"] += self.switches
        self.w.stats["preemptions"] += self.preempts
        return self.ts

    def _body(self, t):
        t.sem.acquire()
        self.by_ident[_thread.get_ident()] = t
        try:
            if self.tracing:
                sys.settrace(self._trace)
            try:
                t.result = t.fn()
            finally:
                sys.settrace(None)
        except BaseException as e:
            t.error = e
        t.done = True
        del self.by_ident[_thread.get_ident()]
        if isinstance(t.error, SimCrash):
            self.main.release()     # the process is gone, and all its threads
            return
        try:
            nxt = self._choose(None)
            if nxt is None:
                self.main.release()
            else:
                self.current = nxt
                nxt.sem.release()
        except BaseException:
            traceback.print_exc()
            self.main.release()

    def _runnable(self):
        now = self.w.now_ns
        return [
            t for t in self.ts if not t.done and t.blocked is None and t.wake <= now
        ]

    def _choose(self, cur):
        """Picks who runs next; advances time when everyone sleeps."""
        if all(t.done or t.daemon for t in self.ts):
            return None
        while True:
            ready = self._runnable()
            if ready:
                break
            sleepers = [t.wake for t in self.ts if not t.done and t.blocked is None]
            if sleepers:
                self.w.advance(min(sleepers) - self.w.now_ns)
                continue
            stuck = [t.name for t in self.ts if not t.done]
            self.w.fail("deadlock", f"threads {stuck} wait for locks nobody will release")
        if cur is not None and cur in ready:
            ready.remove(cur)
            ready.insert(0, cur)
        if len(ready) == 1:
            return ready[0]
        return ready[self.w.choices.pick("thr", len(ready))]

    def _switch(self, cur):
        self.w.step()
        nxt = self._choose(cur)
        if nxt is cur:
            return
        self.switches += 1
        self.current = nxt
        if nxt is None:
            self.main.release()
        else:
            nxt.sem.release()
        cur.sem.acquire()

    # ------------------------------------------------------- sync operations
    def me(self):
        return self.by_ident[_thread.get_ident()]

    def sleep(self, ns):
        t = self.me()
        t.wake = self.w.now_ns + max(int(ns), 1)
        self._switch(t)

    def maybe_yield(self, what):
        if self.yield_p and self.w.choices.pick("yld", 8, bias=1 - self.yield_p) and not _importing():
            self._switch(self.me())

    def yield_now(self):
        self._switch(self.me())

    def block(self, obj):
        t = self.me()
        t.blocked = obj
        self._switch(t)

    def block_until(self, obj, when):
        t = self.me()
        t.waits = obj
        t.wake = max(when, self.w.now_ns + 1)
        self._switch(t)
        t.waits = None

    def unblock(self, obj):
        for t in self.ts:
            if t.blocked is obj:
                t.blocked = None
            if t.waits is obj:
                t.waits = None
                t.wake = min(t.wake, self.w.now_ns)

    # -------------------------------------------------------------- tracing
    def _trace(self, frame, event, arg):
        code = frame.f_code
        wanted = self.cache.get(code)
        if wanted is None:
            wanted = self.cache[code] = code.co_filename.startswith(self.trace_prefix)
        if not wanted:
            return None
        if self.opcodes:
            frame.f_trace_opcodes = True
            frame.f_trace_lines = False
        return self._local

    def _local(self, frame, event, arg):
        if event == "line" or event == "opcode":
            if self.gap > 0:
                self.gap -= 1
                if self.gap == 0:
                    self.gap = self.w.choices.gap("gap", self.mean_gap)
                    if _importing():
                        return self._local
                    self.preempts += 1
                    t = self.me()
                    if self.stall_p and self.stalls < 4:
                        long = self.w.choices.pick("stall", 9, bias=1 - self.stall_p)
                        if long:
                            self.stalls += 1
                            self.w.fault("thread_stalled")
                            t.wake = self.w.now_ns + 10 ** (2 + long)
                    self._switch(t)
        return self._local


class SimLock:
    """Stands in for threading.Lock; real outside a world."""

    def __init__(self):
        self._real = _alloc()

    def acquire(self, blocking=True, timeout=-1):
        from . import world as W
        w = W.CUR
        if w is None:
            return self._real.acquire(blocking, timeout)
        if w.sched is not None and w.sched.is_member():
            w.sched.maybe_yield("lock")
            end = None if timeout is None or timeout < 0 else w.now_ns + int(timeout * 1e9)
            while not self._real.acquire(False):
                if not blocking or (end is not None and w.now_ns >= end):
                    return False
                w.stats["reach:lock_contended"] += 1
                if end is None:
                    w.sched.block(self)
                else:
                    w.sched.block_until(self, end)
            return True
        if self._real.acquire(False):
            return True
        if not blocking:
            return False
        w.need_threads()
        end = w.now_ns + int(timeout * 1e9)
        while w.pending and (timeout < 0 or min(w.pending)[0] <= end):
            w.fire_next()
            if self._real.acquire(False):
                return True
        if timeout >= 0:
            w.sleep(max(0, end - w.now_ns) / 1e9)
            return self._real.acquire(False)
        w.fail(
            "deadlock", "a lock was waited for by the only thread, which holds it:\n"
            + "".join(traceback.format_stack(limit=10)))

    def release(self):
        from . import world as W
        self._real.release()
        w = W.CUR
        if w is not None and w.sched is not None:
            w.sched.unblock(self)

    def locked(self):
        return self._real.locked()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *exc):
        self.release()

    def _at_fork_reinit(self):
        self._real = _alloc()


class SimRLock(SimLock):
    def __init__(self):
        super().__init__()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._count += 1
            return True
        if super().acquire(blocking, timeout):
            self._owner, self._count = me, 1
            return True
        return False

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            super().release()

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _recursion_count(self):
        return self._count if self._owner == _thread.get_ident() else 0

    def _release_save(self):
        state = (self._count, self._owner)
        self._count, self._owner = 0, None
        super().release()
        return state

    def _acquire_restore(self, state):
        super().acquire()
        self._count, self._owner = state
