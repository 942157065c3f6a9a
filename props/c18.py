"""C18: work handed to threads or processes returns its own result once."""

import asyncio
import copy
import time
from collections import Counter

from sim.actors import code, run_actors
from sim.workers import WorkerDeath

from aiootp.asynchs import Processes, Threads

SHRINK = ["actors"]
KINDS = {"threads": Threads, "processes": Processes}
CALLS = Counter()       # every simulated worker shares the harness's memory


class Expected(Exception):
    pass


ERRORS = (Expected, Expected, Expected, KeyError, OSError, TimeoutError, ValueError)


# ------------------------------------------------- what the workers are given
def finish(token, size, end, shape):
    if end == "raise":
        raise ERRORS[token % len(ERRORS)](token)
    if end == "die":
        raise WorkerDeath
    return answer(token, size, shape)


def answer(token, size, shape):
    if shape == "pair":
        return token, bytes([token % 251]) * size
    return {"none": None, "false": False, "empty": [], "error": "an error", "dict": {token: "x"}}[shape]


def plain(token, size, nap, end, shape="pair"):
    CALLS[token] += 1
    if nap:
        time.sleep(nap)
    return finish(token, size, end, shape)


async def coro(token, size, nap, end, shape="pair"):
    CALLS[token] += 1
    await asyncio.sleep(nap)
    return finish(token, size, end, shape)


def gen(rng, tier):
    mode = rng.choice(["mixed", "mixed", "threads"])
    deaths = rng.random() < 0.35
    faults = rng.random() < 0.6
    actors = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        ops = []
        for _ in range(rng.choice([1, 2, 3, 5])):
            kind = rng.choice(["threads", "processes"])
            how = rng.choice(["new", "submit", "submit_late", "gather"])
            renew = rng.random() < 0.06
            jobs = []
            for _ in range(rng.choice([2, 3, 5]) if how == "gather" else 1):
                end = "return"
                if faults and rng.random() < 0.25:
                    end = "die" if deaths and kind == "processes" else "raise"
                jobs.append({
                    "size": rng.choice([0, 1, 100, 100, 65_000, 70_000, 300_000]),
                    "nap": rng.choice([0, 0, 0.0004, 0.003, 0.02]), "end": end, "coro": rng.random() < 0.4,
                    "shape": rng.choice(["pair"] * 6 + ["none", "false", "empty", "error", "dict"])})
            ops.append({"kind": kind, "how": how, "jobs": jobs, "async": rng.random() < 0.7,
                        "kw": rng.random() < 0.3, "renew": renew,
                        "probe": rng.choice([None, None, 0.0005, 0.01])})
        actors.append({"place": rng.choice([0, 0, 1, 2]), "ops": ops})
    return {
        "cfg": {
            "mode": mode, "reorder": rng.choice([0, 0.5, 0.9]), "jitter": rng.choice([0, 0.3]),
            "mean_gap": rng.choice([0, 3, 10, 40]), "opcodes": rng.random() < 0.3,
            "yield_p": rng.choice([0.05, 0.3]),
        },
        "lost": {str(rng.randrange(6)): "after"} if deaths and rng.random() < 0.5 else {},
        "actors": actors,
    }


def simplify(plan):
    if plan["lost"]:
        yield dict(plan, lost={})
    for i, a in enumerate(plan["actors"]):
        for k in range(len(a["ops"])):
            p = copy.deepcopy(plan)
            del p["actors"][i]["ops"][k]
            yield p


def nontrivial(out):
    return out["stats"].get("reach:result_checked", 0) > 0 or out["stats"].get("reach:error_reported", 0) > 0


def run(w, plan):
    CALLS.clear()
    w.block_count = 20      # 2 ms of waiting inside one step of an event loop
    w.worker_death = {int(k): v for k, v in plan["lost"].items()}
    number = iter(range(1, 10_000))
    healthy = []
    shut = [0, 0]       # pools being shut down, and shut down ever

    def renew(op):
        """Somebody shuts the pool down and has it replaced."""
        if not op.get("renew"):
            return
        w.fault("pool_shut_down")
        shut[0] += 1
        shut[1] += 1
        cls = KINDS[op["kind"]]
        cls.pool.shutdown(wait=False)
        cls.reset_pool()
        shut[0] -= 1

    def jobs_of(op, sync):
        out = []
        for job in op["jobs"]:
            token = next(number)
            fn = coro if job["coro"] and not sync else plain
            args = (token, job["size"], job["nap"], job["end"], job.get("shape", "pair"))
            out.append((token, fn, args, job))
        return out

    def split(op, args):
        """Some arguments are handed over by name."""
        kw = {} if op["probe"] is None else {"probe_delay": op["probe"]}
        if op.get("kw"):
            return args[:2], dict(kw, nap=args[2], end=args[3], shape=args[4])
        return args, kw

    def common(op):
        """Arguments all functions of a gathering are called with."""
        return {"args": (7,), "kwargs": {"more": "x"}} if op.get("kw") else {"args": ()}

    def judge(op, made, got, error, before):
        """`got` are the results, in order; a call that failed has an error."""
        w.event(f"{op['kind']} {op['how']} {'error' if error else 'ok'}")
        ends = [job["end"] for *_, job in made]
        fair = all(e == "return" for e in ends)
        if error is None:
            w.check(fair, "failure-taken-as-success", lambda: f"{op} returned {str(got)[:80]} although a function failed")
            want = [answer(token, job["size"], job.get("shape", "pair")) for token, _, _, job in made]
            w.check(got == want, "wrong-result", lambda: (
                f"{op} returned the results of calls {[g[0] if isinstance(g, tuple) else g for g in got]}, "
                f"expected {str(want)[:80]}"))
            healthy.extend(token for token, *_ in made)
            w.reach("result_checked")
            return
        w.reach("error_reported")
        died = w.faults["worker_death"] + w.faults["pool_worker_death"] + w.faults["pool_reset"]
        may_fail = not fair or (op["kind"] == "processes" and died)
        if isinstance(error, RuntimeError) and (before[0] or shut[1] > before[1]):
            may_fail = True     # the pool was shut down meanwhile
        if not may_fail:
            w.fail_exc("healthy-call-failed", error)

    async def a_op(op):
        renew(op)
        cls, made, before = KINDS[op["kind"]], jobs_of(op, False), list(shut)
        got = error = None
        try:
            if op["how"] == "new":
                (args, kw), fn = split(op, made[0][2]), made[0][1]
                got = [await cls.anew(fn, *args, **kw)]
            elif op["how"] == "gather":
                kind = {plain: Bound, coro: AsyncBound}
                calls = [kind[fn](args, op.get("kw")).do for _, fn, args, _ in made]
                got = await cls.agather(*calls, **common(op))
            else:
                args, kw = split(op, made[0][2])
                fut = await cls.asubmit(made[0][1], *args, **kw)
                if op["how"] == "submit_late":
                    await asyncio.sleep(0.01)
                got = [await fut.aresult()]
        except Exception as e:
            error = e
        judge(op, made, got, error, before)
        reset(cls, error)

    def s_op(op):
        renew(op)
        cls, made, before = KINDS[op["kind"]], jobs_of(op, True), list(shut)
        got = error = None
        try:
            if op["how"] == "new":
                (args, kw), fn = split(op, made[0][2]), made[0][1]
                got = [cls.new(fn, *args, **kw)]
            elif op["how"] == "gather":
                calls = [Bound(args, op.get("kw")).do for _, _, args, _ in made]
                got = cls.gather(*calls, **common(op))
            else:
                args, kw = split(op, made[0][2])
                fut = cls.submit(made[0][1], *args, **kw)
                if op["how"] == "submit_late":
                    time.sleep(0.01)
                got = [fut.result()]
        except Exception as e:
            error = e
        judge(op, made, got, error, before)
        reset(cls, error)

    def reset(cls, error):
        if isinstance(error, cls.BrokenPool):
            w.fault("pool_reset")
            cls.reset_pool()
            w.reach("pool_reset")

    async def a_actor(i):
        for op in plan["actors"][i]["ops"]:
            await a_op(op)

    def s_actor(i):
        for op in plan["actors"][i]["ops"]:
            s_op(op)

    run_actors(w, len(plan["actors"]), a_actor, s_actor, place=lambda i: plan["actors"][i]["place"],
               trace=code("asynchs/concurrency_interface", "asynchs/threads", "asynchs/processes"))
    for token, n in CALLS.items():
        w.check(n == 1, "ran-twice", f"the function of call {token} ran {n} times")
    for token in healthy:
        w.check(CALLS[token] == 1, "never-ran", f"the function of call {token} ran {CALLS[token]} times")


class Bound:
    """A picklable function with nothing but common arguments."""

    def __init__(self, args, common):
        self.args = args
        self.common = common

    def right(self, given):
        if given != ((7, "x") if self.common else (None, None)):
            raise AssertionError(f"the function was called with {given}")

    def do(self, less=None, more=None):
        self.right((less, more))
        return plain(*self.args)


class AsyncBound(Bound):
    async def do(self, less=None, more=None):
        self.right((less, more))
        return await coro(*self.args)
