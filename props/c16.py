"""C16: random values never repeat and generators survive concurrency."""

import asyncio
import copy
import random
from collections import deque
from hashlib import shake_256

from sim import boot
from sim.actors import code, run_actors
from sim.fs import SimCrash

SHRINK = ["lives"]
MS = 10 ** 6
SEC = 10 ** 9


def gen(rng, tier):
    if rng.random() < 0.2:
        return gen_gatherer(rng)
    mode = rng.choice(["tasks", "threads", "mixed"])
    lives = []
    for n in range(rng.choice([1, 2, 2, 3])):
        actors = [[{
            "how": rng.choice(["csprng"] * 6 + ["rng", "pool"]),
            "size": rng.choice([16, 16, 24, 32, 64, 100, 200]),
            "entropy": rng.choice(["none", "none", "bytes", "object"]),
            "freshness": rng.choice([0, 0, 1, 2]),
            "async": rng.random() < 0.5,
        } for _ in range(rng.choice([1, 2, 4, 8]))] for _ in range(rng.choice([1, 2, 2, 3, 4]))]
        lives.append({"actors": actors, "restart": n > 0 or rng.random() < 0.3, "gatherer": rng.random() < 0.6,
                      "back": rng.random() < 0.6, "crash": rng.choice([0] * 5 + [1, 2, 3, 4, 5, 6])})
    return {
        "cfg": {
            "mode": mode, "reorder": rng.choice([0, 0.5, 0.9]), "jitter": rng.choice([0, 0.3]),
            "mean_gap": rng.choice([3, 10, 30, 100]), "opcodes": rng.random() < 0.4,
            "yield_p": rng.choice([0.05, 0.3]),
            "tick_ns": rng.choice([0, 1, 100]),
        },
        "kind": "draw", "lives": lives, "frozen": rng.random() < 0.4,
        "source": rng.choice(["good", "stuck", "repeats", "cycles", "repeats"]),
    }


def gen_gatherer(rng):
    delay = rng.choice([0.1, 0.5, 2])
    steps = []
    if rng.random() < 0.5:
        return {
            "cfg": {"mode": "threads", "reorder": 0, "jitter": 0, "mean_gap": rng.choice([2, 3, 5, 8]),
                    "opcodes": rng.random() < 0.3, "yield_p": 0.1, "tick_ns": 1, "stall_p": 0.2},
            "kind": "pace", "delay": 2, "lives": [[{
                "delay": rng.choice([0.02, 0.05]), "for": rng.choice([0.01, 0.02, 0.05]),
                "sleep": rng.choice([0.001, 0.01, 0.02, 0.03, 0.06])}
                for _ in range(rng.choice([2, 4, 8]))] for _ in range(rng.choice([1, 2, 3]))],
        }
    for _ in range(rng.choice([1, 2, 3, 5])):
        steps.append({"do": rng.choice(["wait", "wait", "pace", "hurry", "hurry", "idle"]),
                      "delay": rng.choice([0.02, 0.1, 0.5, 2]), "for": rng.choice([0.05, 0.3, 1]),
                      "after": rng.choice([0, 0.1, 0.5, 1])})
    return {
        "cfg": {"mode": "threads", "reorder": 0, "jitter": 0, "mean_gap": rng.choice([2, 5, 20, 60]),
                "opcodes": rng.random() < 0.3, "yield_p": 0.1, "tick_ns": 1},
        "kind": "gather", "delay": delay, "lives": steps, "others": rng.choice([0, 1, 2]),
        "abrupt": rng.random() < 0.5,
    }


def simplify(plan):
    if plan["kind"] != "draw":
        return
    for i, life in enumerate(plan["lives"]):
        for j, ops in enumerate(life["actors"]):
            if len(life["actors"]) > 1:
                p = copy.deepcopy(plan)
                del p["lives"][i]["actors"][j]
                yield p
            for k in range(len(ops)):
                p = copy.deepcopy(plan)
                del p["lives"][i]["actors"][j][k]
                yield p


def nontrivial(out):
    return out["stats"].get("reach:compared", 0) > 0 or out["stats"].get("reach:gathered", 0) > 0


def run(w, plan):
    if plan["kind"] == "gather":
        return run_gatherer(w, plan)
    if plan["kind"] == "pace":
        return run_pace(w, plan)
    seen = {}
    start = w.wall_ns()
    for i, life in enumerate(plan["lives"]):
        if life["back"]:
            w.fault("clock_set_back")
            w.set_wall(start)
        known = set(w.fs.files(boot.DB_DIR))
        status, made = w.lifetime(lambda child: one_life(child, plan, life))
        w.fault("restart")
        if status == "crash" and plan["source"] != "good":
            # names that a failing random source gave will be given again
            for path in set(w.fs.files(boot.DB_DIR)) - known:
                w.fs.drop(path)
        for who, value in made or ():
            head = value[:16]
            if head in seen:
                w.fail("repeated-value", f"{who} in life {i} returned {value.hex()[:40]}..., which {seen[head]} had returned")
            seen[head] = f"{who} in life {i}"
        if len(seen) > 1:
            w.reach("compared")


def one_life(w, plan, life):
    if plan["frozen"]:
        w.fault("clock_stopped")
        w.freeze_clock(True)
    if plan["source"] != "good":
        w.fault("random_source_" + plan["source"])
        source(w, plan["source"])
    threads = boot.STARTED
    import aiootp
    if life["restart"]:
        if life["crash"]:
            w.fs.faults = {w.fs.n_mut + life["crash"]: {"kind": "crash_before"}}
        aiootp, threads = boot.import_again(w)
    randoms = aiootp.randoms
    made, pooled = [], set()
    pool = randoms.threading_safe_entropy_pool.ThreadingSafeEntropyPool(
        b"seed", obj=shake_256, pool=deque([b"%032d" % i for i in range(32)], maxlen=32))

    def keep(who, op, value):
        w.check(type(value) is bytes and len(value) == op["size"], "wrong-size",
                lambda: f"{who} asked for {op['size']} bytes and got {value!r}")
        if op["how"] == "pool":     # a pool of one's own starts the same in every life
            w.check(value[:16] not in pooled, "repeated-value", lambda: f"{who} got a value the pool had given before")
            pooled.add(value[:16])
        else:
            made.append((who, value))
        w.event(f"{who} {op['size']} {op['how']}")

    def kw(op):
        out = {}
        if op["entropy"] == "bytes":
            out["entropy"] = b"the same entropy"
        elif op["entropy"] == "object":
            out["entropy"] = {"the same": 1}
        if op["how"] == "rng":
            out["freshness"] = op["freshness"]
        return out

    async def a_actor(i):
        for k, op in enumerate(life["actors"][i]):
            who = f"actor {i} call {k}"
            if op["how"] == "rng":
                keep(who, op, await randoms.arandom_number_generator(op["size"], **kw(op)))
            elif op["how"] == "pool":
                keep(who, op, (await pool.ahash(size=op["size"])) if op["async"] else pool.hash(size=op["size"]))
            elif op["async"]:
                keep(who, op, await aiootp.acsprng(op["size"], **kw(op)))
            else:
                keep(who, op, aiootp.csprng(op["size"], **kw(op)))

    def s_actor(i):
        if i == 0 and life["gatherer"]:
            for t in threads:
                t.resume()
            w.reach("gatherer_running")
        for k, op in enumerate(life["actors"][i]):
            who = f"actor {i} call {k}"
            if op["how"] == "rng":
                keep(who, op, randoms.random_number_generator(op["size"], **kw(op)))
            elif op["how"] == "pool":
                keep(who, op, pool.hash(size=op["size"]))
            else:
                keep(who, op, aiootp.csprng(op["size"], **kw(op)))

    run_actors(w, len(life["actors"]), a_actor, s_actor, place=lambda i: (2, 0, 2, 0)[i],
               trace=code("randoms/"))
    return made


def source(w, how):
    """The operating system's random source stops being random."""
    if how == "stuck":
        w.urandom_fault = lambda n: b"\x55" * n
    elif how == "cycles":
        block = random.Random(5).randbytes(4096)
        w.urandom_fault = lambda n: (block * (n // 4096 + 1))[:n]
    else:       # every life gets what the one before got
        w.urandom_fault = random.Random(6).randbytes


# ------------------------------------------------------------- the gatherer
def gatherer(w, delay):
    from aiootp.randoms.entropy_daemon import EntropyDaemon
    from aiootp.randoms.threading_safe_entropy_pool import ThreadingSafeEntropyPool

    class Pool(deque):
        def appendleft(self, item):
            fed.append((w.now_ns, item))
            w.reach("fed")
            super().appendleft(item)

    fed = []
    pool = Pool([b"%032d" % i for i in range(32)], maxlen=32)
    gadget = ThreadingSafeEntropyPool(b"seed", obj=shake_256, pool=pool)
    return EntropyDaemon(entropy_pool=pool, gadget=gadget, max_delay=delay), gadget, fed


def run_pace(w, plan):
    """Several threads hurry the gatherer; in the end it must calm down."""
    daemon, _, fed = gatherer(w, plan["delay"])

    def actor(i):
        for step in plan["lives"][i]:
            daemon.set_temporary_max_delay(step["delay"], duration=step["for"])
            w.event(f"hurry {i}")
            w.sleep(step["sleep"])

    def thread(i):
        if i == len(plan["lives"]):
            daemon.start()
        else:
            actor(i)
        left.pop()
        if left:
            return
        w.sleep(0.2 + 2 * plan["delay"])
        mark = len(fed)
        w.sleep(10 * plan["delay"])
        rate = len(fed) - mark
        w.check(rate < 45, "too-fast", lambda: (
            f"the gatherer fed {rate} times in {plan['delay'] * 10} s at a longest delay of {plan['delay']} s"))
        w.reach("gathered")
        daemon.cancel()

    left = list(range(len(plan["lives"]) + 1))
    run_actors(w, len(left), None, thread, trace=code("randoms/entropy_daemon"))


def run_gatherer(w, plan):
    daemon, gadget, fed = gatherer(w, plan["delay"])
    slack = 50 * MS
    stop = []

    def steps():
        base = plan["delay"]
        begun = w.now_ns
        daemon.start()
        w.sleep(0.02)
        for n, step in enumerate(plan["lives"]):
            w.event(f"{step['do']} {step['delay']}")
            pace, span = base, base * 3
            if plan["abrupt"] and n == len(plan["lives"]) - 1:
                span = 0.01
            if step["do"] == "pace":
                daemon.set_max_delay(step["delay"])
                pace, base = max(base, step["delay"]), step["delay"]
            elif step["do"] == "hurry":
                daemon.set_temporary_max_delay(step["delay"], duration=step["for"])
                w.sleep(step["for"] * step["after"])
                pace = max(pace, step["delay"])
            elif step["do"] == "idle":
                # whatever pace was set for a time is over by now
                mark = len(fed)
                w.sleep(base * 10)
                rate = len(fed) - mark
                w.check(10 * 4 > rate - 4, "too-fast", lambda: (
                    f"the gatherer fed {rate} times in {base * 10} s at a longest delay of {base} s"))
                w.reach("pace_judged")
            mark = w.now_ns
            w.sleep(span)
            times = [t for t, _ in fed if t > mark - (pace * SEC + slack)] + [w.now_ns]
            for a, b in zip(times, times[1:]):
                w.check(b - a <= pace * SEC + slack, "gatherer-idle", lambda: (
                    f"step {n}: nothing was fed for {(b - a) / SEC} s at a longest delay of {pace} s"))
            due = w.now_ns - begun > pace * SEC + slack     # even if it was slow to start
            w.check(len(times) > 1 or not due, "gatherer-idle", lambda: f"step {n}: nothing was fed in the last {pace} s")
            last = n == len(plan["lives"]) - 1
            if step["do"] in ("pace", "hurry") and not (last and plan["abrupt"]):
                w.sleep(step["for"] + pace + 0.1)
        daemon.cancel()
        mark = w.now_ns
        w.sleep(max(base, 3) + 1)
        late = [t for t, _ in fed if t > mark]
        w.check(len(late) < 3, "gatherer-goes-on", lambda: f"fed {len(late)} times after it was told to stop")
        stop.append(1)

    def other(i):
        k = 0
        while not stop and k < 200:
            value = gadget.hash(b"data", size=32)
            w.check(len(value) == 32, "wrong-size", "hash")
            others.append(value)
            k += 1
            w.sleep(0.037 * i)

    others = []

    def actor(i):
        steps() if i == 0 else other(i)

    run_actors(w, 1 + plan["others"], None, actor, trace=code("randoms/entropy_daemon"))
    values = [v for _, v in fed] + others
    w.check(len(set(values)) == len(values), "repeated-value", "the gatherer fed the same value twice")
    w.check(all(type(v) is bytes and len(v) >= 32 for v in values), "weak-value", "the gatherer fed a short value")
    w.reach("gathered")
