"""C24: processes that work with the same salts at the same time get along."""

import copy
import hashlib

from sim import boot
from sim import loop as L
from sim import procs
from sim.fs import SimCrash

from .passwords import use_less_memory

SHRINK = ["rounds"]
ROOT = "/sim/db"
KINDS = ["crash_before", "crash_after", "crash_torn"]


def gen(rng, tier):
    rounds = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        kind = rng.choice(["start", "start", "salts", "salts", "salts", "profile"])
        people = []
        for _ in range(rng.choice([2, 2, 3, 4])):
            if kind == "start":
                p = {"ops": [{"op": "start"}]}
            elif kind == "profile":
                p = {"ops": [{"op": "profile", "async": rng.random() < 0.5}]}
            else:
                p = {"ops": [
                    {"op": rng.choice(["open", "read", "read", "update"]), "key": rng.choice([0, 0, 0, 1]),
                     "async": rng.random() < 0.4, "salt": rng.getrandbits(40), "size": rng.choice([32, 64, 9000])}
                    for _ in range(rng.choice([1, 2, 3]))]}
            people.append(p)
        r = {"kind": kind, "procs": people, "fault": None}
        if rng.random() < 0.25:
            r["fault"] = [rng.randrange(len(people)), {
                "k": rng.randrange(12), "kind": rng.choice(KINDS), "arg": rng.randrange(1 << 16)}]
        rounds.append(r)
    return {
        "cfg": {"exec_n": 6}, "stick": rng.choice([0, 0, 0.5, 0.8]),
        "first": rng.random() < 0.5, "admin": rng.random() < 0.3, "rounds": rounds,
    }


def simplify(plan):
    for i, r in enumerate(plan["rounds"]):
        if r["fault"]:
            p = copy.deepcopy(plan)
            p["rounds"][i]["fault"] = None
            yield p
        if len(r["procs"]) > 2:
            for k in range(len(r["procs"])):
                p = copy.deepcopy(plan)
                del p["rounds"][i]["procs"][k]
                p["rounds"][i]["fault"] = None
                yield p
        for k, proc in enumerate(r["procs"]):
            for j in range(len(proc["ops"])):
                if len(proc["ops"]) > 1:
                    p = copy.deepcopy(plan)
                    del p["rounds"][i]["procs"][k]["ops"][j]
                    yield p


def nontrivial(out):
    return out["stats"].get("reach:side_by_side", 0) > 0


def run(w, plan):
    use_less_memory()
    w.fs.mkdir(ROOT)
    if plan["first"]:
        for path in [p for p in w.fs.nodes if p.startswith(boot.DB_DIR + "/")]:
            w.fs.drop(path)
    for key in (0, 1):
        if plan["first"]:
            continue
        w.lifetime(lambda cw: step(cw, plan, {"op": "open", "key": key, "async": False}))
    hurt = False
    may = [None, None]      # what each salt may be; None: any, or missing
    for n, r in enumerate(plan["rounds"]):
        faults = {} if r["fault"] is None else {r["fault"][0] % len(r["procs"]): [r["fault"][1]]}
        outcome = procs.together(
            w, [lambda cw, p=p: live(cw, plan, p) for p in r["procs"]], faults=faults, stick=plan["stick"])
        hurt = hurt or bool(faults)
        seen = {0: set(), 1: set()}
        written = {0: set(), 1: set()}
        profiles = False
        for i, (status, ret) in enumerate(outcome):
            if status == "crash":
                w.reach("crashed")
            for what, key, value in ret or ():
                if what == "profile":
                    profiles = True
                elif what == "read":
                    seen[key].add(value)
            for op in r["procs"][i]["ops"]:
                if op["op"] == "update":
                    written[op["key"]].add(salt_of(op))
        for key in (0, 1):
            strange = seen[key] - written[key]
            w.check(len(strange) <= 1, "salts-differ", lambda: (
                f"round {n}: salt {key} was read as {sorted(s[:8].hex() for s in strange)}, none of them an update"))
            if may[key] is not None:
                w.check(seen[key] <= may[key] | written[key], "strange-salt", lambda: (
                    f"round {n}: salt {key} was read as {sorted(s[:8].hex() for s in seen[key])}"))
        w.reach("side_by_side")
        status, ret = w.lifetime(lambda cw: audit(cw, plan, r, hurt))
        for key in (0, 1):
            if ret[key] is not None:
                before = may[key]
                if before is None:
                    # made in this round: the one that its processes saw, if they saw it
                    before = seen[key] - written[key]
                    w.check(not before or ret[key] in before | written[key], "salt-replaced", lambda: (
                        f"round {n}: salt {key} was read as {sorted(s[:8].hex() for s in before)} and is now"
                        f" {ret[key][:8].hex()}"))
                else:
                    w.check(ret[key] in before | written[key], "salt-replaced", lambda: (
                        f"round {n}: salt {key} is now {ret[key][:8].hex()}"))
                may[key] = {ret[key]}
            else:
                w.check(may[key] is None, "salt-lost", f"round {n}: salt {key} is gone")
        if profiles:
            w.lifetime(same_profile)


def salt_of(op):
    return hashlib.shake_256(b"%d" % op["salt"]).digest(op["size"])


def live(w, plan, proc):
    out = []
    for op in proc["ops"]:
        try:
            out.append(step(w, plan, op))
        except SimCrash:
            break
        except Exception as e:
            if isinstance(e, FileNotFoundError) and op["op"] in ("read", "update") and plan["first"]:
                continue
            w.fail_exc(f"{op['op']}-failed", e)
    if w.fs.dead:
        raise SimCrash("process is dead")
    return [x for x in out if x]


def step(w, plan, op):
    name = op["op"]
    if name == "start":
        boot.import_again(w)
        w.event("started")
        return None
    if name == "profile":
        return ("profile", 0, profile(w, op))
    from aiootp import _paths as P
    salt_key = hashlib.sha256(b"%d" % op["key"]).digest()
    admin = plan["admin"]
    path = P._find_salt_file(P.AdminPath(ROOT) if admin else P.SecurePath(ROOT), key=salt_key)
    if name == "open":
        if op["async"]:
            L.run(w, P.AsyncSecureSaltPath(ROOT, key=salt_key, _admin=admin))
        else:
            P.SecureSaltPath(ROOT, key=salt_key, _admin=admin)
    elif name == "update":
        salt = salt_of(op)
        if op["async"]:
            L.run(w, P._aupdate_salt_file(path, salt=salt))
        else:
            P._update_salt_file(path, salt=salt)
        return None
    salt = L.run(w, P._aread_salt_file(path)) if op["async"] else P._read_salt_file(path)
    w.check(len(salt) >= 32, "short-salt", lambda: f"read returned {salt!r}")
    w.event(f"{name} {op['key']} {salt[:4].hex()}")
    return ("read", op["key"], salt)


def profile(w, op):
    from aiootp import AsyncDatabase, Database
    kw = dict(username=b"someone", passphrase=b"a passphrase", salt=b"s" * 32, path=ROOT, mb=1)
    if op["async"]:
        async def opened():
            db = await AsyncDatabase.agenerate_profile(**kw)
            return await db.afilename("tag")
        return L.run(w, opened())
    return Database.generate_profile(**kw).filename("tag")


def audit(w, plan, r, hurt):
    from aiootp import _paths as P
    out = []
    for key in (0, 1):
        salt_key = hashlib.sha256(b"%d" % key).digest()
        path = P._find_salt_file(P.AdminPath(ROOT) if plan["admin"] else P.SecurePath(ROOT), key=salt_key)
        node = w.fs.nodes.get(str(path))
        if node is None:
            out.append(None)
            continue
        w.check(not node.mode & 0o777 or hurt, "readable-at-rest", lambda: f"mode {oct(node.mode)}")
        out.append(P._read_salt_file(path))
    if r["kind"] == "start":
        boot.import_again(w)
    return out


def same_profile(w):
    """The profile that several processes opened is still open to the next one."""
    try:
        name = profile(w, {"async": False})
    except Exception as e:
        w.fail_exc("profile-lost", e)
    w.event(f"profile {name}")
