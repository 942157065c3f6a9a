"""C04: the same credentials always open the same profile, others never do."""

import asyncio
import copy

from sim.actors import code, gen_cfg, run_actors

from . import dbsim as D
from .dbsim import ABSENT, Client
from .passwords import use_less_memory

import aiootp

SHRINK = ["lives"]
TAGS = ["a", "b", "c"]
TRACE = code("databases", "_paths.py")
BASE = {"username": "alice", "passphrase": "correct horse battery", "salt": "", "aad": "", "extra": ["mail"]}
VARIANTS = [
    {}, {"username": "alicf"}, {"passphrase": "correct horse batterz"}, {"salt": "s"}, {"aad": "x"},
    {"extra": []}, {"extra": ["mail", ""]}, {"extra": ["mai", "l"]}, {"username": "alicemail", "extra": []},
    {"salt": "alice", "username": ""}, {"passphrase": "correct horse battery "},
]


def gen(rng, tier):
    cfg = gen_cfg(rng, ("tasks", "threads", "mixed"))
    creds = [0] + rng.sample(range(1, len(VARIANTS)), rng.choice([0, 1, 2]))
    related = any(siblings(a, b) for a in creds for b in creds if a < b)
    lives = []
    for _ in range(rng.choice([1, 2, 3])):
        phases = []
        for _ in range(rng.choice([1, 2])):
            if rng.random() < 0.5:
                phases.append({
                    "openers": [
                        {"cred": rng.choice(creds), "place": rng.randrange(3), "async": rng.random() < 0.5,
                         "pre": rng.choice([0, 0, 1e-5, 2e-4]), "value": D.gen_value(rng),
                         "save": rng.random() < 0.4}
                        for _ in range(rng.choice([2, 2, 3]))]})
            else:
                phases.append({
                    "cred": rng.choice(creds), "async": rng.random() < 0.5, "preload": rng.random() < 0.3,
                    "ops": [
                        {"op": rng.choice(["put", "put", "set", "save", "pop"]), "tag": rng.choice(TAGS),
                         "value": D.gen_value(rng)} for _ in range(rng.choice([1, 2, 3]))]
                    + ([{"op": "delete"}] if rng.random() < (0.03 if related else 0.3) else [])})
        crash = None
        if rng.random() < 0.5:
            crash = {
                "k": rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 18, 24]),
                "kind": rng.choice(["crash_before", "crash_after", "crash_torn"]), "arg": rng.randrange(1 << 16)}
        lives.append({"phases": phases, "crash": crash})
    return {"cfg": cfg, "creds": creds, "lives": lives, "full_size": rng.random() < 0.05}


def simplify(plan):
    for i, life in enumerate(plan["lives"]):
        if life["crash"]:
            p = copy.deepcopy(plan)
            p["lives"][i]["crash"] = None
            yield p
        for j, ph in enumerate(life["phases"]):
            p = copy.deepcopy(plan)
            del p["lives"][i]["phases"][j]
            yield p
            for key in ("openers", "ops"):
                for k in range(len(ph.get(key, ()))):
                    p = copy.deepcopy(plan)
                    del p["lives"][i]["phases"][j][key][k]
                    if p["lives"][i]["phases"][j][key]:
                        yield p


def kwargs(cred):
    c = {**BASE, **VARIANTS[cred]}
    return [x.encode() for x in c["extra"]], dict(
        username=c["username"].encode(), passphrase=c["passphrase"].encode(), salt=c["salt"].encode(),
        aad=c["aad"].encode(), mb=1, cpu=2, cores=1, path=D.ROOT)


async def a_open(cred, **kw):
    extra, k = kwargs(cred)
    return Client(await aiootp.AsyncDatabase.agenerate_profile(*extra, **k, **kw), True)


def s_open(cred, **kw):
    extra, k = kwargs(cred)
    return Client(aiootp.Database.generate_profile(*extra, **k, **kw), False)


async def open_profile(is_async, cred, **kw):
    return await a_open(cred, **kw) if is_async else s_open(cred, **kw)


def run(w, plan):
    w.fs.mkdir(D.ROOT)
    if not plan["full_size"]:
        use_less_memory()
    # cred -> {tag: [values that may be found]}
    may = {c: {} for c in plan["creds"]}
    may["salt deleted"] = []
    for life in plan["lives"]:
        if life["crash"]:
            w.fs.faults = {life["crash"]["k"]: life["crash"]}
        w.extra = {"may": may}
        status, ret = w.lifetime(lambda cw: one_life(cw, plan, life, may))
        w.fs.faults = {}
        if status == "crash":
            w.reach("crashed")
        may = w.extra["may"]
        # a fresh process finds everything
        w.lifetime(lambda cw: audit(cw, plan, may, life["phases"][0].get("async", True) if life["phases"] else True))
        may = w.extra["may"]


def one_life(w, plan, life, may):
    may = copy.deepcopy(may)
    w.fs.n_mut = 0
    for ph in life["phases"]:
        if "openers" in ph:
            many(w, ph["openers"], may)
        else:
            D.session(w, ph["async"], use(w, ph, may))


def siblings(a, b):
    if isinstance(a, str):
        return False
    a, b = ({**BASE, **VARIANTS[c], "passphrase": ""} for c in (a, b))
    return a == b


def note(w, may):
    w.extra = {"may": copy.deepcopy(may)}


async def look(w, c, cred, may):
    for tag in TAGS:
        want = may[cred].get(tag, [ABSENT])
        got = await c.query(tag)
        if not any(D.same(got, v) for v in want):
            lost = cred in may["salt deleted"] and got is ABSENT
            w.fail(
                "profile-lost-with-passphrase-sibling" if lost else "wrong-profile-contents",
                f"{tag!r} of profile {cred} reads {D.show(got)}, permitted {[D.show(v) for v in want]}")
        may[cred][tag] = [got]
        if got is not ABSENT:
            w.reach("value_found")
    note(w, may)


async def use(w, ph, may):
    cred = ph["cred"]
    w.event(f"open {cred} {'a' if ph['async'] else 's'}")
    c = await open_profile(ph["async"], cred, preload=ph["preload"])
    await look(w, c, cred, may)
    mem = {}

    async def save():
        here = may[cred]
        for tag, v in mem.items():
            here[tag] = here.get(tag, [ABSENT]) + [v]
        note(w, may)
        await c.call("save_database")
        for tag, v in mem.items():
            here[tag] = [v]

    for op in ph["ops"]:
        kind = op["op"]
        w.event(f"{kind} {cred}")
        here = may[cred]
        if kind == "put":
            v = D.value_of(op["value"])
            here[op["tag"]] = here.get(op["tag"], [ABSENT]) + [v]
            note(w, may)
            await c.call("set_tag", op["tag"], v, cache=False)
            here[op["tag"]] = [v]
            mem.pop(op["tag"], None)
        elif kind == "set":
            v = D.value_of(op["value"])
            await c.call("set_tag", op["tag"], v)
            mem[op["tag"]] = v
        elif kind == "save":
            await save()
        elif kind == "pop":
            here[op["tag"]] = here.get(op["tag"], [ABSENT]) + [ABSENT]
            note(w, may)
            await c.call("pop_tag", op["tag"], silent=True)
            here[op["tag"]] = [ABSENT]
            mem.pop(op["tag"], None)
        elif kind == "delete":
            await save()        # the index knows every tag
            for tag in TAGS:
                here[tag] = here.get(tag, [ABSENT]) + [ABSENT]
            note(w, may)
            # profiles that differ in nothing but the passphrase share a salt
            may["salt deleted"] += [o for o in may if o != cred and siblings(o, cred)]
            note(w, may)
            files = set(w.fs.files(D.ROOT))
            await c.call("delete_database")
            gone = files - set(w.fs.files(D.ROOT))
            w.check(
                any("secure" in p for p in gone), "secrets-left-behind",
                "deleting the profile removed no secret file")
            may[cred] = {}
            w.reach("profile_deleted")
        note(w, may)


def many(w, openers, may):
    """Several openers at once, each then storing a value of its own, one of a profile's saving all of it."""
    counts, savers = {}, {}
    for i, o in enumerate(openers):
        if o.get("save"):
            savers.setdefault(o["cred"], i)
        o["tag"] = TAGS[counts.setdefault(o["cred"], 0) % len(TAGS)]
        counts[o["cred"]] += 1
    clash = {(o["cred"], o["tag"]) for o in openers}
    for cred, tag in clash:
        vals = [D.value_of(o["value"]) for o in openers if (o["cred"], o["tag"]) == (cred, tag)]
        may[cred][tag] = may[cred].get(tag, [ABSENT]) + vals
    note(w, may)

    async def a_fn(i):
        o = openers[i]
        if o["pre"]:
            await asyncio.sleep(o["pre"])
        w.event(f"open {o['cred']}")
        c = await a_open(o["cred"])
        w.event(f"opened {o['cred']}")
        if savers.get(o["cred"]) == i:
            return await save(c, o)
        await c.call("set_tag", o["tag"], D.value_of(o["value"]), cache=False)

    async def save(c, o):
        await c.call("set_tag", o["tag"], D.value_of(o["value"]))
        await c.meta("sub")
        await c.call("save_database")
        w.event(f"saved {o['cred']}")

    async def listed(is_async):
        for cred, i in savers.items():
            c = await open_profile(is_async, cred)
            w.check(
                openers[i]["tag"] in c.db.tags and "sub" in c.db.metatags, "saved-index-lost",
                lambda: f"profile {cred} lists {c.db.tags} and {c.db.metatags} after it was saved")
            w.reach("saved_among_openers")

    def s_fn(i):
        o = openers[i]
        if o["pre"]:
            w.sleep(o["pre"])
        w.event(f"open {o['cred']}")
        c = s_open(o["cred"])
        w.event(f"opened {o['cred']}")
        if savers.get(o["cred"]) == i:
            return D.drive(save(c, o))
        c.db.set_tag(o["tag"], D.value_of(o["value"]), cache=False)

    run_actors(w, len(openers), a_fn, s_fn, place=lambda i: openers[i]["place"], trace=TRACE)
    w.reach("opened_concurrently")
    D.session(w, openers[0]["async"], listed(openers[0]["async"]))
    for cred, tag in clash:
        may[cred][tag] = [D.value_of(o["value"]) for o in openers if (o["cred"], o["tag"]) == (cred, tag)]
    note(w, may)


def audit(w, plan, may, is_async):
    may = copy.deepcopy(may)

    async def main():
        for cred in plan["creds"]:
            c = await open_profile(is_async, cred)
            await look(w, c, cred, may)

    D.session(w, is_async, main())
