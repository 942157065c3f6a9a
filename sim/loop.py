"""A virtual-time asyncio event loop whose every ordering decision is seeded."""

import asyncio
import heapq
from asyncio import events
from math import ceil

from .fs import SimCrash
from . import world as W
from .threads import ThreadSched

DELAYS_NS = (0, 0, 1_000, 7_000, 20_000, 100_000, 1_500_000, 40_000_000)


class SimLoop(asyncio.BaseEventLoop):
    """
    Tasks and callbacks run one at a time; which ready one runs next, how late
    a timer fires, and when an executor job starts, takes effect and reports
    back are choices of the world.
    """

    def __init__(self, world):
        super().__init__()
        self._world = world
        cfg = world.cfg
        self.reorder = cfg.get("reorder", 0.5)      # chance of a non-FIFO pick
        self.jitter = cfg.get("jitter", 0.3)        # chance a timer is late
        self.exec_spread = cfg.get("exec_spread", 0.6)
        self.jit_n = cfg.get("jit_n", len(DELAYS_NS))
        self.exec_n = cfg.get("exec_n", len(DELAYS_NS))
        self.jobs_open = 0
        self.step_sleeps = 0    # synchronous waits inside the current step
        self.owner = None

    @property
    def world(self):
        # a loop made while aiootp was imported serves whichever world is on
        return W.CUR if W.CUR is not None else self._world

    # asyncio plumbing that a real loop would delegate to a selector
    def _process_events(self, event_list):
        pass

    def _write_to_self(self):
        self.wake()

    def wake(self):
        """Ends the loop's idle wait when another thread has work for it."""
        sched = self.world.sched
        if sched is not None and self.owner is not None:
            self.owner.wake = min(self.owner.wake, self.world.now_ns)
            if self.owner.blocked is self:
                self.owner.blocked = None

    def time(self):
        return self.world.now_ns / 1e9

    def call_at(self, when, callback, *args, context=None):
        if self.jitter:
            w = self.world
            i = w.choices.pick("jit", self.jit_n, bias=1 - self.jitter)
            when += DELAYS_NS[i] / 1e9
        return super().call_at(when, callback, *args, context=context)

    def call_later(self, delay, callback, *args, context=None):
        return self.call_at(self.time() + delay, callback, *args, context=context)

    def call_exactly(self, delay_ns, callback, *args):
        """A timer without jitter, for the harness."""
        return super().call_at(self.time() + delay_ns / 1e9, callback, *args)

    def _run_once(self):
        w = self.world
        w.step()
        self.step_sleeps = 0
        sched, ready = self._scheduled, self._ready
        threads = w.sched if w.sched is not None and w.sched.is_member() else None
        self.owner = None if threads is None else threads.me()
        while True:
            while sched and sched[0]._cancelled:
                h = heapq.heappop(sched)
                h._scheduled = False
                self._timer_cancelled_count -= 1
            now = self.time()
            while sched and sched[0]._when <= now:
                h = heapq.heappop(sched)
                h._scheduled = False
                if h._cancelled:
                    self._timer_cancelled_count -= 1
                else:
                    ready.append(h)
            while ready and ready[0]._cancelled:
                ready.popleft()
            if ready or self._stopping:
                break
            if sched:
                w.idle_until(max(ceil(sched[0]._when * 1e9), w.now_ns + 1))
            elif threads is not None and threads.others_alive():
                threads.block(self)
            else:
                w.fail("deadlock", "the event loop has nothing left to run but is not done")
        if not ready:
            return
        i = 0
        if len(ready) > 1 and self.reorder:
            i = w.choices.pick("rdy", len(ready), bias=1 - self.reorder)
        handle = ready[i]
        del ready[i]
        if not handle._cancelled:
            handle._run()
        w.sync_point("loop")

    # ------------------------------------------------------------ executor
    def run_in_executor(self, executor, func, *args):
        w = self.world
        if executor is not None and hasattr(executor, "is_process"):
            return asyncio.wrap_future(executor.submit(func, *args), loop=self)
        fut = self.create_future()
        picks = [
            DELAYS_NS[w.choices.pick("exec", self.exec_n, bias=1 - self.exec_spread)]
            for _ in range(3)
        ]
        self.jobs_open += 1
        w.stats["executor_jobs"] += 1
        if w.cfg.get("exec_threads") and w.sched is not None and w.sched.is_member():
            return self._run_in_thread(fut, func, args, picks)

        def start():
            if fut.cancelled():
                w.stats["reach:job_cancelled_before_start"] += 1
                self.jobs_open -= 1
                return
            self.call_exactly(picks[1], effect)

        def effect():
            if fut.cancelled():
                w.stats["reach:job_ran_though_cancelled"] += 1
            prev = events._get_running_loop()
            events._set_running_loop(None)
            w.in_job += 1
            try:
                result, error = func(*args), None
            except (SimCrash, KeyboardInterrupt, SystemExit):
                raise
            except BaseException as e:
                result, error = None, e
            finally:
                w.in_job -= 1
                events._set_running_loop(prev)
            self.call_exactly(picks[2], deliver, result, error)

        def deliver(result, error):
            self.jobs_open -= 1
            if fut.done():
                return
            if error is None:
                fut.set_result(result)
            else:
                fut.set_exception(error)

        self.call_exactly(picks[0], start)
        return fut

    def _run_in_thread(self, fut, func, args, picks):
        """The job on a scheduled thread of its own, free to wait."""
        w = self.world

        def deliver(result, error):
            self.jobs_open -= 1
            if fut.done():
                return
            if error is None:
                fut.set_result(result)
            else:
                fut.set_exception(error)

        def job():
            if fut.cancelled():
                w.stats["reach:job_cancelled_before_start"] += 1
                self.jobs_open -= 1
                self.wake()
                return
            try:
                result, error = func(*args), None
            except (SimCrash, KeyboardInterrupt, SystemExit):
                raise
            except BaseException as e:
                result, error = None, e
            self.call_exactly(picks[2], deliver, result, error)
            self.wake()

        t = w.sched.spawn(job, f"exec{len(w.sched.ts)}")
        t.wake = w.now_ns + picks[0] + picks[1]
        return fut

    async def shutdown_default_executor(self, timeout=None):
        return None

    def call_exception_handler(self, context):
        # unretrieved task exceptions and the like: the harness looks at the
        # results of its own tasks, nothing is printed
        self.world.stats["loop_exception_contexts"] += 1
        exc = context.get("exception")
        if isinstance(exc, (SimCrash, SystemExit, KeyboardInterrupt)):
            raise exc

    def drain_jobs(self):
        """Lets executor jobs that nobody awaits any more finish."""

        async def wait():
            while self.jobs_open:
                await asyncio.sleep(0.001)

        self.run_until_complete(wait())


class SimPolicy(asyncio.DefaultEventLoopPolicy):
    """Hands out simulated loops while a world is active."""

    def new_event_loop(self):
        if W.CUR is not None:
            return SimLoop(W.CUR)
        return super().new_event_loop()


def run(world, coro):
    """Runs a coroutine to completion on a fresh simulated loop."""
    if world.cfg.get("exec_threads") and world.sched is None:
        sched = ThreadSched(world, yield_p=0.3)
        main = sched.spawn(lambda: _run(world, coro), "loop")
        sched.run()
        for t in sched.ts:
            if isinstance(t.error, SimCrash):
                raise t.error
        if main.error is not None:
            raise main.error
        return main.result
    return _run(world, coro)


def _run(world, coro):
    loop = SimLoop(world)
    asyncio.set_event_loop(loop)
    try:
        return loop.run_until_complete(coro)
    finally:
        if not world.fs.dead:
            asyncio.set_event_loop(None)
