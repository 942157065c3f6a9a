"""C02: a guarded context that ends in any way never strands the others."""

import asyncio

from . import guardsim as G

SHRINK = ["cancels", "actors"]


def gen(rng, tier):
    cfg = G.gen_cfg(rng)
    cfg["mode"] = rng.choice(["tasks", "tasks", "tasks", "mixed", "threads"])
    n_targets = rng.choice([1, 1, 2])
    actors = G.gen_actors(rng, tier, n_targets, rng.choice([0.4, 0.7, 1.0]), max_actors=6)
    p_boom = rng.choice([0, 0.2, 0.5])
    p_reuse = rng.choice([0, 0, 0.2, 0.6])
    p_int = rng.choice([0, 0, 0.2, 0.5])
    for a in actors:
        for op in a["ops"]:
            op["boom"] = rng.randint(1, len(G.BOOMS) - 1) if rng.random() < p_boom else 0
            op["reuse"] = (
                rng.choice(["spent", "nested", "shared", "shared"])
                if rng.random() < p_reuse else None)
            op["interrupt"] = rng.randint(0, 6) if rng.random() < p_int else None
            op["hold"] = rng.choice([0, 0, 1e-5, 5e-5, 3e-4])
    cancels = []
    if cfg["mode"] != "threads":
        for _ in range(rng.choice([0, 1, 1, 2, 4])):
            c = {"actor": rng.randrange(len(actors))}
            if rng.random() < 0.7:
                c["step"] = rng.randint(2, 60)
            else:
                c["at_ns"] = rng.choice([0, 3_000, 12_000, 40_000, 900_000])
            cancels.append(c)
    return {"cfg": cfg, "n_targets": n_targets, "actors": actors, "cancels": cancels}


def simplify(plan):
    for i, a in enumerate(plan["actors"]):
        for j in range(len(a["ops"])):
            p = {**plan, "actors": [dict(x, ops=list(x["ops"])) for x in plan["actors"]]}
            del p["actors"][i]["ops"][j]
            if p["actors"][i]["ops"]:
                yield p


def run(w, plan):
    oracle = G.Oracle(w)
    factory = G.Factory(w, plan["n_targets"])
    interrupts = G.Interrupts(w)
    shared = {}

    def common(op):
        """One guard object for every two or three users of its kind."""
        key = op["target"], op["excl"]
        if key not in shared or shared[key]["left"] == 0:
            shared[key] = {"guard": factory.make(*key), "left": 3, "entries": 0}
        shared[key]["left"] -= 1
        w.fault("guard_reuse")
        return shared[key]

    def only(use, who):
        use["entries"] += 1
        w.check(
            use["entries"] == 1, "reuse-accepted",
            f"{who}: a guard object another context used was entered again")

    async def a_op(who, op):
        if op.get("reuse") == "shared":
            use = common(op)
            rec = oracle.ask(op["target"], op["excl"], who)
            rec["gone"] = rec["ask_seq"]  # no turn is owed to it: it may be refused
            try:
                async with use["guard"]:
                    only(use, who)
                    oracle.enter(rec)
                    try:
                        await G._apause(op["yields"], op["hold"])
                    finally:
                        oracle.leave(rec)
            except asyncio.CancelledError:
                raise
            except Exception as e:
                w.reach("refused_shared")
                link = e
                while link is not None:
                    if isinstance(link, asyncio.CancelledError):
                        raise link
                    link = link.__context__
            finally:
                oracle.end(rec)
            return
        if op.get("reuse") == "nested":
            guard = factory.make(op["target"], op["excl"])
            w.fault("guard_reuse")
            refused = False
            rec = oracle.ask(op["target"], op["excl"], who)
            try:
                async with guard:
                    oracle.enter(rec)
                    try:
                        try:
                            async with guard:
                                w.fail("reuse-accepted", f"{who}: a running guard was entered again")
                        except asyncio.CancelledError:
                            raise
                        except Exception:
                            refused = True
                    finally:
                        oracle.leave(rec)
            except asyncio.CancelledError:
                raise
            except Exception as e:
                # the outer use of a misused guard may be refused on leaving,
                # also when it leaves because of a cancellation
                link = e
                while link is not None:
                    if isinstance(link, asyncio.CancelledError):
                        raise link
                    link = link.__context__
                if not refused:
                    raise
            finally:
                oracle.end(rec)
            return
        guard = await G.a_context(w, oracle, factory, who, op)
        if op.get("reuse") == "spent":
            w.fault("guard_reuse")
            try:
                async with guard:
                    w.fail("reuse-accepted", f"{who}: a spent guard was entered again")
            except asyncio.CancelledError:
                raise
            except Exception:
                pass

    def s_op(who, op):
        if op.get("reuse") == "shared":
            use = common(op)
            rec = oracle.ask(op["target"], op["excl"], who)
            rec["gone"] = rec["ask_seq"]
            try:
                with use["guard"]:
                    only(use, who)
                    oracle.enter(rec)
                    try:
                        G._pause(w, op["yields"], op["hold"])
                    finally:
                        oracle.leave(rec)
            except Exception:
                w.reach("refused_shared")
            finally:
                oracle.end(rec)
            return
        if op.get("reuse") == "nested":
            guard = factory.make(op["target"], op["excl"])
            w.fault("guard_reuse")
            refused = False
            rec = oracle.ask(op["target"], op["excl"], who)
            try:
                with guard:
                    oracle.enter(rec)
                    try:
                        try:
                            with guard:
                                w.fail("reuse-accepted", f"{who}: a running guard was entered again")
                        except Exception:
                            refused = True
                    finally:
                        oracle.leave(rec)
            except Exception:
                if not refused:
                    raise
            finally:
                oracle.end(rec)
            return
        guard = G.s_context(w, oracle, factory, who, op, interrupts=interrupts)
        if op.get("reuse") == "spent":
            w.fault("guard_reuse")
            try:
                with guard:
                    w.fail("reuse-accepted", f"{who}: a spent guard was entered again")
            except Exception:
                pass

    G.run_workload(w, plan["actors"], oracle, factory, plan["cancels"], a_op, s_op)
    left = factory.leftovers()
    w.check(not left, "leftovers", lambda: "; ".join(left))
    # a newcomer on every target is admitted at once
    async def newcomer(t, excl):
        async with factory.make(t, excl):
            pass

    for t in range(plan["n_targets"]):
        for excl in (True, False):
            with factory.make(t, excl):
                pass
    oracle.finish()
