"""C01: guarded contexts exclude each other and are admitted in order."""

import asyncio

from . import guardsim as G
from sim.loop import SimLoop

SHRINK = ["actors"]


def gen(rng, tier):
    cfg = G.gen_cfg(rng)
    n_targets = rng.choice([1, 1, 2, 3])
    plan = {
        "cfg": cfg,
        "n_targets": n_targets,
        "actors": G.gen_actors(rng, tier, n_targets, rng.choice([0.3, 0.5, 0.8, 1.0])),
        "manual": rng.random() < 0.15,
    }
    if plan["manual"]:
        cfg["kind"] = "plain"
        n = rng.randint(2, 6)
        plan["actors"] = [
            {"place": 0, "ops": [dict(o, target=0) for o in a["ops"][:1]]}
            for a in G.gen_actors(rng, tier, 1, 0.7, max_actors=n)
        ]
        plan["order"] = rng.sample(range(len(plan["actors"])), len(plan["actors"]))
    return plan


def simplify(plan):
    for i, a in enumerate(plan["actors"]):
        for j in range(len(a["ops"])):
            p = {**plan, "actors": [dict(x, ops=list(x["ops"])) for x in plan["actors"]]}
            del p["actors"][i]["ops"][j]
            if p["actors"][i]["ops"]:
                yield p


def run(w, plan):
    oracle = G.Oracle(w)
    factory = G.Factory(w, plan["n_targets"])
    if plan.get("manual"):
        return run_manual(w, plan, oracle, factory)
    G.run_workload(w, plan["actors"], oracle, factory)
    oracle.finish()


def run_manual(w, plan, oracle, factory):
    """The caller fixes the order up front; contexts must follow it."""
    pol = factory.G.policies
    pair = factory.pairs[0]
    actors = plan["actors"]
    order = [i for i in plan["order"] if i < len(actors)]
    guards = {}
    for i in order:
        op = actors[i]["ops"][0]
        guards[i] = factory.G(
            pair,
            policy=pol.QueueManually() if op["excl"] else pol.NonExclusiveQueueManually(),
            probe_delay=w.cfg["probe"],
        )
        pair.queue.append(guards[i])
    w.reach("manual_order")

    def check_order(rec_index):
        pos = order.index(rec_index)
        op = actors[rec_index]["ops"][0]
        for prev in order[:pos]:
            prev_op = actors[prev]["ops"][0]
            if (op["excl"] or prev_op["excl"]) and prev not in entered:
                w.fail("queue-order", f"context {rec_index} ran before {prev}, queued earlier")
        entered.add(rec_index)

    entered = set()

    class Watch(G.Oracle):
        def enter(self, rec):
            check_order(int(rec["who"][1:].split(".")[0]))
            rec["ask_epoch"] = 1 << 60      # asking order is the queue's here
            super().enter(rec)

        def ask(self, *a):
            rec = super().ask(*a)
            rec["ask_epoch"] = 1 << 60
            return rec

    watch = Watch(w)

    def idx(who):
        return int(who[1:].split(".")[0])

    G.run_workload(
        w, actors, watch, factory,
        a_op=lambda who, op: G.a_context(w, watch, factory, who, op, guard=guards[idx(who)]),
        s_op=lambda who, op: G.s_context(w, watch, factory, who, op, guard=guards[idx(who)]),
    )
    watch.finish()
