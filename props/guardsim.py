"""Shared workload and oracle of the guard properties (C01, C02)."""

import asyncio
import os
import threading
import time

from sim import boot
from sim.loop import SimLoop
from sim.threads import ThreadSched

import aiootp

GUARD_CODE = (os.path.join(boot.REPO, "aiootp", "asynchs", "guards"),)


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    """An exception outside the Exception hierarchy, like SystemExit."""


BOOMS = (
    None, Boom, BaseBoom, KeyboardInterrupt, GeneratorExit, asyncio.CancelledError,
    StopAsyncIteration, LookupError, OSError, RuntimeError, TimeoutError, SystemExit,
)


class Interrupts:
    """Ends chosen synchronous waits with an exception, like a signal does."""

    def __init__(self, w):
        self.w = w
        self.armed = {}
        w.on_sleep = self.slept

    def slept(self):
        me = threading.get_ident()
        left, rec = self.armed.get(me) or (None, None)
        if left is None:
            return
        if left > 0:
            self.armed[me] = (left - 1, rec)
            return
        self.armed[me] = None
        rec["gone"] = rec["ask_seq"]  # no turn is owed to it any more
        self.w.fault("interrupted_wait")
        self.w.event("interrupt")
        raise KeyboardInterrupt("interrupted while waiting")

    def arm(self, after, rec):
        self.armed[threading.get_ident()] = (after, rec)

    def disarm(self):
        """Tells whether the wait was left alone."""
        return self.armed.pop(threading.get_ident(), None) is not None


def gen_cfg(rng):
    mode = rng.choice(["tasks", "tasks", "threads", "mixed"])
    return {
        "mode": mode,
        "reorder": rng.choice([0.0, 0.2, 0.5, 0.9]),
        "jitter": rng.choice([0.0, 0.1, 0.5]),
        "jit_n": 6,
        "tick_ns": 0,
        "mean_gap": rng.choice([3, 8, 20, 60, 200]),
        "opcodes": rng.random() < 0.6,
        "yield_p": rng.choice([0.1, 0.5]),
        "kind": rng.choice(["managed", "managed", "plain"]),
        "probe": rng.choice([None, None, 5e-6, 1e-4]),
    }


def gen_actors(rng, tier, n_targets, p_excl, max_actors=7, max_ops=3):
    n = rng.randint(2, max_actors)
    actors = []
    for i in range(n):
        ops = []
        for _ in range(rng.randint(1, max_ops)):
            ops.append({
                "target": rng.randrange(n_targets),
                "excl": rng.random() < p_excl,
                "pre": rng.choice([0, 0, 0, 5e-6, 3e-5, 3e-4]),
                "yields": rng.randint(0, 3),
                "hold": rng.choice([0, 0, 1e-5, 5e-5, 3e-4, 1.2e-3]),
            })
        actors.append({"place": rng.randrange(3), "ops": ops})
    return actors


class Oracle:
    """Watches entries and exits of all contexts of one run."""

    def __init__(self, w):
        self.w = w
        self.seq = 0
        self.recs = []
        self.running = {}

    def ask(self, target, excl, who):
        self.seq += 1
        rec = {
            "id": len(self.recs), "target": target, "excl": excl, "who": who,
            "ask_seq": self.seq, "ask_epoch": self.w.epochs, "ask_ns": self.w.now_ns,
            "in": None, "out": None, "gone": None, "in_ns": None,
        }
        self.recs.append(rec)
        self.w.event(f"ask {who} t{target} {'X' if excl else 's'}")
        return rec

    def enter(self, rec):
        w = self.w
        self.seq += 1
        rec["in"], rec["in_ns"] = self.seq, w.now_ns
        w.event(f"in {rec['who']} t{rec['target']}")
        run = self.running.setdefault(rec["target"], [])
        for other in run:
            if other["excl"] or rec["excl"]:
                w.fail(
                    "overlap",
                    f"{self.show(rec)} entered while {self.show(other)} was inside")
            else:
                w.reach("shared_together")
        run.append(rec)
        # admission order against contexts that are known to have asked before
        for other in self.recs:
            if other is rec or other["target"] != rec["target"]:
                continue
            if not (other["excl"] or rec["excl"]):
                continue
            if other["ask_epoch"] < rec["ask_epoch"]:
                w.reach("ordered_pair")
                if other["in"] is None and other["gone"] is None:
                    w.fail(
                        "overtaken",
                        f"{self.show(rec)} was admitted before {self.show(other)}, "
                        "which was already waiting when it asked")
        # nobody in the way: admission is prompt
        if not w.cfg["jitter"] and rec["in_ns"] - rec["ask_ns"] > 600_000:
            blockers = [
                o for o in self.recs
                if o is not rec and o["target"] == rec["target"]
                and (o["excl"] or rec["excl"])
                and o["ask_seq"] < rec["in"]
                and (o["end"] if o.get("end") else 1 << 62) > rec["ask_seq"]
            ]
            if not blockers:
                w.fail(
                    "needless-wait",
                    f"{self.show(rec)} waited {(rec['in_ns'] - rec['ask_ns']) / 1e9} s "
                    "though nothing on its target was in its way")

    def leave(self, rec):
        self.seq += 1
        rec["out"] = self.seq
        run = self.running[rec["target"]]
        run[:] = [r for r in run if r is not rec]
        self.w.event(f"out {rec['who']} t{rec['target']}")

    def end(self, rec):
        """The whole context statement is over, entered or not."""
        self.seq += 1
        rec["end"] = self.seq
        rec["gone"] = self.seq

    def withdrawn(self, actor):
        """The actor's task was told to stop: it no longer holds a place."""
        for rec in self.recs:
            if rec["in"] is None and rec["who"].startswith(f"a{actor}."):
                rec["gone"] = self.seq

    def show(self, rec):
        kind = "exclusive" if rec["excl"] else "shared"
        return f"context {rec['id']} ({kind}, {rec['who']}, target {rec['target']})"

    def finish(self):
        w = self.w
        live = sum(
            1 for r in self.recs for s in self.recs
            if r["id"] < s["id"] and r["target"] == s["target"]
            and r["in"] and s["ask_seq"] < (r["out"] or 1 << 62) and r["ask_seq"] < (s["out"] or 1 << 62)
        )
        w.reach("overlap", live)
        w.stats["contexts"] += len(self.recs)


class Factory:
    """Makes guard objects for targets, of the kind the run asks for."""

    def __init__(self, w, n_targets):
        self.kind = w.cfg["kind"]
        self.probe = w.cfg.get("probe")
        self.multi = aiootp.asynchs.MultiConcurrencyGaurd()
        G = self.G = aiootp.asynchs.ConcurrencyGuard
        self.pairs = [G.DequePair() for _ in range(n_targets)]

    def make(self, target, excl):
        if self.kind == "managed":
            fn = self.multi.guard if excl else self.multi.monitor
            return fn(("target", target), probe_delay=self.probe)
        pol = self.G.policies
        return self.G(
            self.pairs[target],
            policy=pol.Exclusive() if excl else pol.NonExclusive(),
            probe_delay=self.probe,
        )

    def leftovers(self):
        out = []
        if len(self.multi.targets):
            out.append(f"targets retained: {list(self.multi.targets)}")
        for i, pair in enumerate(self.pairs):
            if pair.queue or pair.observers:
                out.append(f"target {i}: queue {len(pair.queue)}, observers {len(pair.observers)}")
        return out


async def _apause(yields, hold):
    for _ in range(yields):
        await asyncio.sleep(0)
    if hold:
        await asyncio.sleep(hold)


def _pause(w, yields, hold):
    for _ in range(yields):
        w.sync_point("body")
    if hold:
        time.sleep(hold)


async def a_context(w, oracle, factory, who, op, guard=None):
    guard = guard or factory.make(op["target"], op["excl"])
    rec = oracle.ask(op["target"], op["excl"], who)
    boom = None
    try:
        async with guard:
            oracle.enter(rec)
            try:
                await _apause(op["yields"], op["hold"])
                if op.get("boom"):
                    w.fault("exception_in_context")
                    boom = BOOMS[op["boom"]](who)
                    raise boom
            finally:
                oracle.leave(rec)
    except BaseException as e:
        if isinstance(e, (Boom, BaseBoom)) and e is not boom:
            w.fail("wrong-exception", f"{who}: {e!r} is not the exception raised inside")
        if e is not boom:
            raise
        boom = None
    finally:
        oracle.end(rec)
    if boom is not None:
        w.fail("swallowed-exception", f"the exception raised inside the context of {who} vanished")
    return guard


def s_context(w, oracle, factory, who, op, guard=None, interrupts=None):
    guard = guard or factory.make(op["target"], op["excl"])
    rec = oracle.ask(op["target"], op["excl"], who)
    boom = None
    interrupt = op.get("interrupt") if interrupts else None
    if interrupt is not None:
        interrupts.arm(interrupt, rec)
    try:
        with guard:
            if interrupt is not None:
                w.check(
                    interrupts.disarm(), "swallowed-interrupt",
                    f"{who}: an interrupted wait for the guard went on")
            oracle.enter(rec)
            try:
                _pause(w, op["yields"], op["hold"])
                if op.get("boom"):
                    w.fault("exception_in_context")
                    boom = BOOMS[op["boom"]](who)
                    raise boom
            finally:
                oracle.leave(rec)
    except BaseException as e:
        if isinstance(e, (Boom, BaseBoom)) and e is not boom:
            w.fail("wrong-exception", f"{who}: {e!r} is not the exception raised inside")
        if interrupt is not None and rec["in"] is None and isinstance(e, KeyboardInterrupt):
            interrupts.disarm()
        elif e is not boom:
            raise
        boom = None
    finally:
        oracle.end(rec)
    if boom is not None:
        w.fail("swallowed-exception", f"the exception raised inside the context of {who} vanished")
    return guard


def run_workload(w, actors, oracle, factory, cancels=(), a_op=None, s_op=None):
    """
    Places the actors on one event loop, on threads, or on a mix of both, runs
    them to the end and returns {actor index: outcome}.
    """
    a_op = a_op or (lambda who, op: a_context(w, oracle, factory, who, op))
    s_op = s_op or (lambda who, op: s_context(w, oracle, factory, who, op))
    outcomes = {}

    async def actor(i):
        for j, op in enumerate(actors[i]["ops"]):
            if op["pre"]:
                await asyncio.sleep(op["pre"])
            else:
                await asyncio.sleep(0)
            await a_op(f"a{i}.{j}", op)

    def thread_actor(i):
        for j, op in enumerate(actors[i]["ops"]):
            _pause(w, 1, op["pre"])
            s_op(f"a{i}.{j}", op)

    def loop_body(members):
        async def main():
            tasks = {i: asyncio.ensure_future(actor(i)) for i in members}
            for c in cancels:
                if c["actor"] in tasks:
                    def fire(c=c):
                        task = tasks[c["actor"]]
                        if not task.done():
                            task.cancel()
                            oracle.withdrawn(c["actor"])
                            cancelled.add(c["actor"])
                            w.fault("cancellation")
                            w.event(f"cancel a{c['actor']}")
                    if "step" in c:
                        w.at_step(c["step"], fire)
                    else:
                        asyncio.get_running_loop().call_exactly(c["at_ns"], fire)
            done = await asyncio.gather(*tasks.values(), return_exceptions=True)
            for i, res in zip(tasks, done):
                if isinstance(res, asyncio.CancelledError) and i in cancelled:
                    outcomes[i] = "cancelled"
                elif isinstance(res, BaseException):
                    w.fail_exc("unexpected-exception", res)
                elif i in cancelled:
                    w.fail("swallowed-cancellation", f"actor a{i} was cancelled but ended normally")
                else:
                    outcomes[i] = "ok"

        cancelled = set()
        loop = SimLoop(w)
        asyncio.set_event_loop(loop)
        loop.run_until_complete(main())

    mode = w.cfg["mode"]
    ids = range(len(actors))
    if mode == "tasks":
        loop_body(list(ids))
    else:
        sched = ThreadSched(
            w, mean_gap=w.cfg["mean_gap"], opcodes=w.cfg["opcodes"],
            trace_prefix=GUARD_CODE, yield_p=w.cfg["yield_p"])
        loops = {}
        if mode == "mixed":
            for i in ids:
                if actors[i]["place"] < 2:
                    loops.setdefault(actors[i]["place"], []).append(i)
        for place in sorted(loops):
            sched.spawn(lambda m=loops[place]: loop_body(m), f"loop{place}")
        in_loops = {i for m in loops.values() for i in m}
        for i in ids:
            if i not in in_loops:
                sched.spawn(lambda i=i: thread_actor(i), f"thread{i}")
        for t in sched.run():
            if t.error is not None:
                w.fail_exc("unexpected-exception", t.error)
    return outcomes
