"""
Simulated threads, processes, pools and result queues.

Inside a thread-scheduled world every worker is a scheduled thread.  Process
workers additionally copy their arguments and results by pickling, cannot exit
while more than a pipe's worth of their results is unread, and can die.  In a
world without a thread scheduler pool jobs run at once and report back later.
"""

import concurrent.futures as cf
import concurrent.futures.process as cfp
import pickle
import queue as _queue
import threading
from collections import deque

from . import world as W
from .fs import SimCrash
from .loop import DELAYS_NS

PIPE_BYTES = 65_536

_RealThread = threading.Thread
_RealQueue = _queue.Queue


class WorkerDeath(BaseException):
    """A process worker was killed."""


def _world():
    w = W.CUR
    if w is None:
        raise W.HarnessError("a worker was used outside a simulated world")
    return w


def _sched(w):
    return w.sched if w.sched is not None and w.sched.is_member() else None


class SimThread:
    """The part of threading.Thread's interface that workers use."""

    _seq = 0
    kind = "thread"

    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None):
        self._target, self._args, self._kwargs = target, args, dict(kwargs or {})
        SimThread._seq += 1
        self.name = name or f"SimThread-{SimThread._seq}"
        self.daemon = bool(daemon)
        self._started = False
        self._t = None
        self._finished = False
        self.exitcode = None
        self.ident = self.native_id = None
        self.pid = None

    def run(self):
        if self._target is not None:
            self._target(*self._args, **self._kwargs)

    def start(self):
        w = _world()
        if self._started:
            raise RuntimeError("threads can only be started once")
        self._started = True
        w.stats[f"{self.kind}_workers"] += 1
        sched = _sched(w)
        hook = w.extra_hooks.get("on_start") if hasattr(w, "extra_hooks") else None
        if hook is not None:
            hook(self)
        if sched is None:
            deferred = getattr(w, "deferred_threads", None)
            if deferred is not None:
                deferred.append(self)
                return
            self._run_now()
            return
        self._begin(w, sched)

    def resume(self):
        """Starts a thread whose start was put off."""
        w = _world()
        self._begin(w, w.sched)

    def _begin(self, w, sched):
        delay = DELAYS_NS[w.choices.pick("wstart", len(DELAYS_NS), bias=0.4)]
        self._t = sched.spawn(self._entry, self.name, self.daemon)
        self._t.wake = w.now_ns + delay
        self._t.thread = self
        self.ident = self.native_id = 7000 + self._t.tid

    def _entry(self):
        try:
            self._main()
        finally:
            self._finished = True

    def _main(self):
        try:
            self.run()
        except SystemExit:
            pass
        except Exception:
            W.CUR.stats["reach:worker_raised"] += 1

    def _run_now(self):
        try:
            self._main()
        finally:
            self._finished = True

    def is_alive(self):
        return self._started and not self._finished

    def join(self, timeout=None):
        w = _world()
        waited = 0
        while self.is_alive():
            if timeout is not None and waited >= timeout:
                return
            w.sleep(0.0001)
            waited += 0.0001

    def isDaemon(self):
        return self.daemon

    def setDaemon(self, daemon):
        self.daemon = daemon

    def getName(self):
        return self.name

    def setName(self, name):
        self.name = name


def thread_of(t):
    """The thread object of a scheduled thread."""
    if t.thread is None:
        t.thread = SimThread(name=t.name, daemon=t.daemon)
        t.thread._started, t.thread._t = True, t
        t.thread.ident = t.thread.native_id = 7000 + t.tid
    return t.thread


class SimTimer(SimThread):
    """threading.Timer"""

    def __init__(self, interval, function, args=None, kwargs=None):
        super().__init__(target=function, args=args or (), kwargs=kwargs)
        self.interval = interval
        self.finished = threading.Event()

    def cancel(self):
        self.finished.set()

    def run(self):
        self.finished.wait(self.interval)
        if not self.finished.is_set():
            super().run()
        self.finished.set()


class SimQueue:
    """queue.Queue without blocking primitives of its own."""

    def __init__(self, maxsize=0):
        self.maxsize = maxsize
        self.items = deque()

    def qsize(self):
        return len(self.items)

    def empty(self):
        return not self.items

    def full(self):
        return 0 < self.maxsize <= len(self.items)

    def put(self, item, block=True, timeout=None):
        w = _world()
        waited = 0.0
        while self.full():
            if not block or (timeout is not None and waited >= timeout):
                raise _queue.Full
            w.sleep(0.0001)
            waited += 0.0001
        self.items.append(self._in(item))

    def put_nowait(self, item):
        self.put(item, block=False)

    def get(self, block=True, timeout=None):
        w = _world()
        waited = 0.0
        while not self._ready():
            if not block or (timeout is not None and waited >= timeout):
                raise _queue.Empty
            w.sleep(0.0001)
            waited += 0.0001
        return self._out(self.items.popleft())

    def get_nowait(self):
        return self.get(block=False)

    def _ready(self):
        return bool(self.items)

    def _in(self, item):
        return item

    def _out(self, item):
        return item

    def task_done(self):
        pass

    def join(self):
        pass


class SimMPQueue(SimQueue):
    """A multiprocessing queue: pickled items through a bounded pipe."""

    def __init__(self, maxsize=0, *, ctx=None):
        super().__init__(maxsize)

    def empty(self):
        return not self._ready()

    def _ready(self):
        return bool(self.items) and self.items[0][0] <= W.CUR.now_ns

    def _in(self, item):
        # handed to the pipe by a feeder thread, some time later
        w = W.CUR
        delay = DELAYS_NS[w.choices.pick("feeder", 6, bias=0.5)]
        return w.now_ns + delay, pickle.dumps(item)

    def _out(self, item):
        return pickle.loads(item[1])

    def unread_bytes(self):
        return sum(len(i[1]) for i in self.items)

    def unsent(self):
        return any(i[0] > W.CUR.now_ns for i in self.items) or self.unread_bytes() > PIPE_BYTES

    def close(self):
        pass

    def join_thread(self):
        pass

    def cancel_join_thread(self):
        pass


class SimProcess(SimThread):
    """A spawned process: own copies of arguments, pipe-bound exit, can die."""

    kind = "process"
    _pids = 50_000

    def start(self):
        SimProcess._pids += 1
        self.pid = SimProcess._pids
        plain = [a for a in self._args if not isinstance(a, SimMPQueue)]
        pickle.dumps((plain, self._kwargs))     # what spawning would refuse
        self._args = tuple(
            a if isinstance(a, SimMPQueue) else pickle.loads(pickle.dumps(a))
            for a in self._args)
        self._kwargs = pickle.loads(pickle.dumps(self._kwargs))
        super().start()

    def _main(self):
        w = W.CUR
        if w.sched is not None and self._t is not None:
            w.sched.pids[self._t.tid] = self.pid
        queues = [a for a in self._args if isinstance(a, SimMPQueue)]
        try:
            death = w.worker_death.pop(self.pid - 50_001, None) if w.worker_death else None
            if death == "before":
                raise WorkerDeath
            self.run()
            if death == "after":
                # killed before the feeder thread flushed the result
                for q in queues:
                    q.items.clear()
                raise WorkerDeath
            self.exitcode = 0
        except WorkerDeath:
            w.fault("worker_death")
            self.exitcode = -9
            return
        except SystemExit as e:
            self.exitcode = e.code if isinstance(e.code, int) else 1
        except Exception:
            w.stats["reach:worker_raised"] += 1
            self.exitcode = 1
        # the feeder thread must hand everything to the pipe before exit
        while any(q.unsent() for q in queues):
            w.stats["reach:worker_waits_for_pipe"] += 1
            w.sleep(0.0005)
        # and the interpreter takes its time to end
        w.sleep(DELAYS_NS[w.choices.pick("exit", len(DELAYS_NS), bias=0.5)] / 1e9)

    def terminate(self):
        self._finished = True

    kill = terminate

    def close(self):
        pass


class SimContext:
    """Stands in for multiprocessing's spawn context."""

    Process = SimProcess

    def Queue(self, maxsize=0):
        return SimMPQueue(maxsize)

    def SimpleQueue(self):
        return SimMPQueue()

    def get_start_method(self, allow_none=False):
        return "spawn"


class SimFuture(cf.Future):
    """A pool future whose completion becomes visible at a virtual time."""

    def _finish(self, result, error):
        try:
            if error is None:
                self.set_result(result)
            else:
                self.set_exception(error)
        except cf.InvalidStateError:
            pass        # cancelled, or lost with the pool, in the meantime


class SimPool(cf.Executor):
    """A worker pool; jobs finish in an order the world chooses."""

    is_process = False

    def __init__(self, max_workers=None, *_, **__):
        self._broken = False
        self._shutdown = False
        self._max_workers = max_workers or 4
        self._active = 0
        self._jobs = 0
        self._open = []         # not worked off yet
        self._given = []        # not reported back yet
        self._home = None       # the process that has the workers

    def submit(self, fn, /, *args, **kwargs):
        w = _world()
        if w.on_pool_job:
            w.on_pool_job()
        if self._broken:
            raise cfp.BrokenProcessPool(self._broken)
        if self._shutdown:
            raise RuntimeError("cannot schedule new futures after shutdown")
        fut = SimFuture()
        if self._home is None:
            self._home = w.split
        elif self._home != w.split:
            w.stats["reach:pool_without_workers"] += 1
            return fut          # nobody will ever take it up
        self._open.append(fut)
        self._given = [f for f in self._given if not f.done()] + [fut]
        index = self._jobs
        self._jobs += 1
        w.stats["pool_jobs"] += 1
        if self.is_process:
            fn, args, kwargs = pickle.loads(pickle.dumps((fn, args, kwargs)))
        sched = _sched(w)
        delay = DELAYS_NS[w.choices.pick("pool", len(DELAYS_NS), bias=0.3)]
        if sched is None:
            fut.set_running_or_notify_cancel()
            done = self._run(fut, fn, args, kwargs, index)
            if done:
                w.later(delay, lambda: fut._finish(*done))
            return fut
        start = DELAYS_NS[w.choices.pick("pstart", len(DELAYS_NS), bias=0.3)]

        def job():
            while self._active >= self._max_workers and not fut.cancelled() and not self._broken:
                w.sleep(0.00005)
            if self._broken:
                return          # whoever broke it reports
            try:
                wanted = fut.set_running_or_notify_cancel()
            except RuntimeError:
                return          # lost with the pool in the meantime
            if not wanted:
                if fut in self._open:
                    self._open.remove(fut)
                return
            self._active += 1
            if self.is_process:
                SimProcess._pids += 1
                w.sched.pids[w.sched.me().tid] = SimProcess._pids
            try:
                done = self._run(fut, fn, args, kwargs, index)
            finally:
                self._active -= 1
            if done:
                w.sleep(delay / 1e9)
                fut._finish(*done)

        t = sched.spawn(job, f"pool{index}")
        t.wake = w.now_ns + start
        return fut

    def _run(self, fut, fn, args, kwargs, index):
        w = W.CUR
        if self.is_process and w.pool_death and w.pool_death.pop(str(index), None):
            self._break(w)
            return None
        import asyncio
        prev = asyncio._get_running_loop()
        asyncio._set_running_loop(None)
        try:
            result, error = fn(*args, **kwargs), None
        except SimCrash:
            raise
        except WorkerDeath:
            if not self.is_process:
                raise
            self._break(w)
            return None
        except BaseException as e:
            result, error = None, e
        finally:
            asyncio._set_running_loop(prev)
        if fut not in self._open:
            return None         # the pool broke meanwhile
        self._open.remove(fut)
        if self.is_process:
            try:
                result, error = pickle.loads(pickle.dumps((result, error)))
            except Exception as e:
                result, error = None, e
        return result, error

    def _break(self, w):
        """A worker died: the pool is of no more use, nor is what it runs."""
        if self._broken:
            return
        w.fault("pool_worker_death")
        self._broken = "a child process terminated abruptly"
        sched = _sched(w)
        for fut in self._open:
            delay = DELAYS_NS[w.choices.pick("pool", len(DELAYS_NS), bias=0.3)]
            if sched is None:
                w.later(delay, lambda fut=fut: self._lose(fut))
            else:
                t = sched.spawn(lambda fut=fut: self._lose(fut), "pool-manager")
                t.wake = w.now_ns + delay
        self._open.clear()

    def _lose(self, fut):
        fut._finish(None, cfp.BrokenProcessPool(self._broken))

    def map(self, fn, *iterables, timeout=None, chunksize=1):
        futs = [self.submit(fn, *a) for a in zip(*iterables)]
        return (f.result(timeout) for f in futs)

    def shutdown(self, wait=True, *, cancel_futures=False):
        self._shutdown = True
        if cancel_futures:
            for fut in self._given:
                fut.cancel()
        while wait and any(not fut.done() for fut in self._given):
            _world().sleep(0.0001)


class SimThreadPool(SimPool):
    pass


class SimProcessPool(SimPool):
    is_process = True


def install():
    import multiprocessing
    real_get_context = multiprocessing.get_context

    def get_context(method=None):
        if W.CUR is not None:
            return SimContext()
        return real_get_context(method)

    multiprocessing.get_context = get_context
    multiprocessing.Process = SimProcess
    multiprocessing.Queue = SimMPQueue
    multiprocessing.SimpleQueue = SimMPQueue
    multiprocessing.context.SpawnContext = SimContext
    multiprocessing.context.SpawnProcess = SimProcess
    cf.ProcessPoolExecutor = cfp.ProcessPoolExecutor = SimProcessPool
    cf.ThreadPoolExecutor = cf.thread.ThreadPoolExecutor = SimThreadPool
    threading.Thread = SimThread
    threading.Timer = SimTimer
    _queue.Queue = _queue.SimpleQueue = SimQueue
