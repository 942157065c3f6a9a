"""C15: identifiers are unique and ordered as promised under threads and clocks."""

import asyncio
import copy

from sim import loop as L
from sim.actors import code, run_actors

from aiootp import GUID

SHRINK = ["actors"]
AIOOTP_EPOCH = 1_672_531_200 * 10 ** 9


def gen(rng, tier):
    mode = rng.choice(["tasks", "threads", "threads", "threads"])
    many = rng.random() < 0.4
    actors = [{
        "calls": rng.choice([260, 300, 520]) if many and i == 0 else rng.choice([1, 2, 5, 20]),
        "gen": rng.choice([0, 0, 0, 1]), "async": mode == "tasks" and rng.random() < 0.6,
    } for i in range(rng.choice([2, 2, 3, 4]))]
    return {
        "cfg": {
            "mode": mode, "reorder": rng.choice([0, 0.5, 0.9]), "jitter": 0,
            "mean_gap": rng.choice([3, 10, 40, 200, 1000]), "opcodes": rng.random() < 0.7,
            "yield_p": rng.choice([0.05, 0.3]), "tick_ns": rng.choice([0, 0, 0, 1, 3, 100]),
            "stall_p": rng.choice([0, 0, 0.1, 0.5]),
        },
        "size": rng.choice([12, 13, 16, 16, 24, 32]),
        "node": rng.randrange(256), "random": rng.choice(["stuck", "stuck", "fine"]),
        "per_ns": rng.choice([256, 256, 256, 60, 2]), "step": rng.choice([1, 1, 2, 10 ** 9]), "actors": actors,
    }


def simplify(plan):
    for i, a in enumerate(plan["actors"]):
        if a["calls"] > 1:
            for n in (a["calls"] // 2, a["calls"] - 1):
                p = copy.deepcopy(plan)
                p["actors"][i]["calls"] = n
                yield p


def nontrivial(out):
    return out["stats"].get("reach:several_in_one_ns", 0) > 0 or out["stats"].get("reach:time_passed", 0) > 0


def run(w, plan):
    size = plan["size"]
    nodes = [bytes([plan["node"]]), bytes([plan["node"] ^ 0x80])]
    if plan["random"] == "stuck":
        w.urandom_fault = lambda n: b"\x07" * n
        w.fault("random_source_stuck")
    key = bytes(range(256)) * 4
    gens = [GUID(key=key[:GUID.key_size(size)], node_id=n, config_id=size) for n in nodes]
    made = []
    count = running = 0
    if w.tick_ns == 0:
        w.fault("clock_stopped")

    def now():
        return w.wall0 + w.now_ns + w.wall_offset

    def begin():
        nonlocal count, running
        count += 1
        running += 1
        if count > plan["per_ns"]:      # never more than 256 in a nanosecond
            count = running
            w.jump_clock(plan["step"])
            w.reach("time_passed")
        return now()

    def keep(g, start, got):
        nonlocal running
        running -= 1
        made.append((g, start, now(), got))

    async def a_actor(i):
        a = plan["actors"][i]
        for _ in range(a["calls"]):
            start = begin()
            if a["async"]:
                keep(a["gen"], start, await gens[a["gen"]].anew())
            else:
                keep(a["gen"], start, gens[a["gen"]].new())
                await asyncio.sleep(0)

    def s_actor(i):
        a = plan["actors"][i]
        for _ in range(a["calls"]):
            start = begin()
            keep(a["gen"], start, gens[a["gen"]].new())

    run_actors(w, len(plan["actors"]), a_actor, s_actor, trace=code("randoms/ids/raw_guid", "asynchs/clocks"))
    if plan["cfg"]["tick_ns"] == 0:
        w.reach("several_in_one_ns")
    seen = {}
    decoded = []
    for k, (g, start, end, got) in enumerate(made):
        w.event(f"{g}")
        w.check(len(got) == size, "wrong-size", f"{len(got)} is not {size}")
        if got in seen:
            o = made[seen[got]]
            w.fail("repeated-identifier", (
                f"calls {seen[got]} (clock {o[1]}..{o[2]}) and {k} (clock {start}..{end}) both gave {got.hex()}"))
        seen[got] = k
        parts = gens[g].read(got)
        w.check(parts.node_id == nodes[g], "wrong-node", f"{parts.node_id} is not {nodes[g]}")
        at = int.from_bytes(parts.timestamp, "big") + AIOOTP_EPOCH
        w.check(start <= at <= end, "wrong-time", f"{at} is not in {start}..{end}")
        if plan["random"] == "stuck":
            w.check(parts.token == b"\x07" * (size - 10), "wrong-token", f"{parts.token}")
        decoded.append((parts, at))
    w.note(" ".join(p.ticker.hex() for p, _ in decoded[:200]))
    times = {id(p): at for p, at in decoded}
    ordered = [times[id(p)] for p in sorted(p for p, _ in decoded)]
    w.check(ordered == sorted(ordered), "wrong-order", "sorting decoded identifiers does not sort their times")
    w.event(str([int.from_bytes(p.ticker, "big") for p, _ in decoded]))
