"""Places concurrent actors on event loops and threads of one world."""

import asyncio
import os

from . import boot
from .fs import SimCrash
from .loop import SimLoop
from .threads import ThreadSched

AIOOTP = os.path.join(boot.REPO, "aiootp") + os.sep


def code(*parts):
    """Trace prefixes for pre-emption inside the given aiootp modules."""
    return tuple(os.path.join(AIOOTP, *p.split("/")) for p in parts)


def gen_cfg(rng, modes=("tasks", "tasks", "threads", "mixed")):
    return {
        "mode": rng.choice(modes),
        "reorder": rng.choice([0.0, 0.2, 0.5, 0.9]),
        "jitter": rng.choice([0.0, 0.1, 0.5]),
        "jit_n": 6,
        "exec_spread": rng.choice([0.0, 0.3, 0.7]),
        "exec_n": 6,
        "mean_gap": rng.choice([0, 10, 40, 150, 600]),
        "opcodes": rng.random() < 0.4,
        "yield_p": rng.choice([0.05, 0.3, 0.6]),
    }


def run_actors(w, n, a_fn, s_fn, place=None, trace=(AIOOTP,)):
    """
    Runs actor i as a coroutine a_fn(i) or as a thread s_fn(i), by the world's
    mode and place(i) (0 and 1 are event loops, anything else is a thread, in
    mixed mode).  An exception that leaves an actor is a violation.
    """
    place = place or (lambda i: 0)

    def loop_body(members):
        async def main():
            tasks = [asyncio.ensure_future(a_fn(i)) for i in members]
            done = await asyncio.gather(*tasks, return_exceptions=True)
            for res in done:
                if isinstance(res, BaseException):
                    raise res

        loop = SimLoop(w)
        asyncio.set_event_loop(loop)
        loop.run_until_complete(main())
        loop.drain_jobs()

    mode = w.cfg["mode"]
    loops, threads = {}, []
    for i in range(n):
        if mode == "tasks":
            loops.setdefault(0, []).append(i)
        elif mode == "mixed" and place(i) < 2:
            loops.setdefault(place(i), []).append(i)
        else:
            threads.append(i)
    if mode == "tasks" and not w.cfg.get("exec_threads"):
        if loops:
            loop_body(loops[0])
        return
    sched = ThreadSched(
        w, mean_gap=w.cfg["mean_gap"], opcodes=w.cfg["opcodes"],
        trace_prefix=trace, yield_p=w.cfg["yield_p"])
    for p in sorted(loops):
        sched.spawn(lambda m=loops[p]: loop_body(m), f"loop{p}")
    for i in threads:
        sched.spawn(lambda i=i: s_fn(i), f"thread{i}")
    if not sched.ts:
        return
    errors = [t.error for t in sched.run() if t.error is not None]
    for e in errors:
        if isinstance(e, SimCrash):
            raise e
    for e in errors:
        raise e
