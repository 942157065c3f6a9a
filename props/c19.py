"""C19: password hashes verify for the right password only, in any worker order."""

import asyncio
import copy
from contextvars import ContextVar

from sim.actors import code, run_actors

from aiootp import Passcrypt
from aiootp.keygens.passcrypt.config import PasscryptConfig, passcrypt_spec

from .passwords import use_less_memory

SHRINK = ["actors"]
JOBS = ContextVar("jobs")       # what the running call asked of the pool


class Peppered(Passcrypt):
    PEPPER = b"a secret of the operator"


CLASSES = [Passcrypt, Passcrypt, Peppered]
SPECS = [
    passcrypt_spec,
    PasscryptConfig(CONFIG_ID=b"c19_seconds", TIME_UNIT="seconds", TIMESTAMP_BYTES=5, PASSCRYPT_PAD=b"\x11"),
    PasscryptConfig(CONFIG_ID=b"c19_salty", MIN_SALT_SIZE=12, DEFAULT_SCHEMA_SALT_SIZE=12, MB_BYTES=2, MAX_MB=256**2),
]
WORDS = [b"correct horse", b"correct horse ", b"correct horsf", b"\x00" * 12, b"\x00" * 13]
AADS = [b"", b"\x00", b"user", b"user "]
DAMAGE = ["flip_tag", "flip_salt", "flip_time", "mb", "cpu", "cores", "salt_size", "cut", "cut_much", "grow", "empty"]


def gen(rng, tier):
    one = rng.random() < 0.3
    deaths = {}
    if rng.random() < 0.35:
        deaths = {str(rng.randrange(10)): True for _ in range(rng.choice([1, 1, 2]))}
    actors = []
    for _ in range(1 if one else rng.choice([2, 3, 4])):
        ops = []
        for _ in range(rng.choice([3, 5, 7]) if one else rng.choice([1, 2, 4])):
            kind = rng.choice(["hash", "hash", "verify", "verify", "verify", "new"])
            op = {"kind": kind, "word": rng.randrange(len(WORDS)),
                  "aad": rng.randrange(len(AADS))}
            if rng.random() < 0.05:
                op["cancel"] = rng.choice([0.0001, 0.0009, 0.004])
            if kind == "verify":
                op["pick"] = rng.randrange(50)
                op["change"] = rng.choice(["nothing"] * 5 + [
                    "word", "aad", "class", "spec", "damage", "damage", "damage", "limits", "limits", "ttl"])
                op["arg"] = [rng.randrange(1 << 16) for _ in range(3)]
                op["damage"] = rng.choice(DAMAGE)
            else:
                op.update(cls=rng.randrange(len(CLASSES)), spec=rng.choice([0, 0, 0, 1, 2]),
                          mb=rng.choice([1, 1, 2, 3, 5]), cpu=rng.choice([1, 1, 2, 3, 4]),
                          cores=rng.choice([1, 2, 3, 4]), tag_size=rng.choice([16, 17, 32, 64, 200]),
                          salt_size=rng.choice([12, 16, 31]) if rng.random() < 0.5 else None,
                          salt=rng.randrange(2))
            ops.append(op)
        actors.append({"place": rng.choice([0, 0, 1, 2]), "ops": ops})
    return {
        "cfg": {
            "mode": rng.choice(["mixed", "mixed", "threads", "tasks"]), "reorder": rng.choice([0, 0.5, 0.9]),
            "jitter": rng.choice([0, 0.3]), "mean_gap": rng.choice([0, 5, 20, 60]), "opcodes": False,
            "yield_p": rng.choice([0.05, 0.3]),
        },
        "full_size": rng.random() < 0.03,
        "deaths": deaths, "actors": actors,
    }


def simplify(plan):
    for k in plan["deaths"]:
        yield dict(plan, deaths={x: y for x, y in plan["deaths"].items() if x != k})
    for i, a in enumerate(plan["actors"]):
        for k in range(len(a["ops"])):
            p = copy.deepcopy(plan)
            del p["actors"][i]["ops"][k]
            yield p


def nontrivial(out):
    return out["stats"].get("reach:verified", 0) + out["stats"].get("reach:refused", 0) > 0


def settings(op):
    spec = SPECS[op["spec"]]
    out = {"mb": op["mb"], "cpu": op["cpu"], "cores": op["cores"], "tag_size": op["tag_size"], "config": spec}
    if op["salt_size"]:
        out["salt_size"] = op["salt_size"]
    elif op["spec"] == 2:
        out["salt_size"] = 12
    return out


def damaged(composed, spec, how, arg):
    """The hash with one change, and the resources that it then asks for."""
    t, m = spec.TIMESTAMP_BYTES, spec.MB_BYTES
    head = spec.HEADER_BYTES
    out = bytearray(composed)
    salt_size = out[head - 1] + 1
    tag = head + salt_size
    if how == "flip_tag":
        out[tag + arg[0] % (len(out) - tag)] ^= 1 << arg[1] % 8
    elif how == "flip_salt":
        out[head + arg[0] % salt_size] ^= 1 << arg[1] % 8
    elif how == "flip_time":
        out[arg[0] % t] ^= 1 << arg[1] % 8
    elif how == "mb":
        out[t + m - 1] = (out[t + m - 1] + 1 + arg[0] % 4) % 8
    elif how == "cpu":
        out[t + m] = (out[t + m] + 1 + arg[0] % 3) % 4
    elif how == "cores":
        out[t + m + 1] = (out[t + m + 1] + 1 + arg[0] % 3) % 4
    elif how == "salt_size":
        out[head - 1] = (out[head - 1] + (1 if arg[0] % 2 else -1)) % 256
    elif how == "cut":
        del out[-1:]
    elif how == "cut_much":
        del out[arg[0] % len(out):]
    elif how == "grow":
        out.append(arg[0] % 256)
    else:
        out.clear()
    return bytes(out)


def run(w, plan):
    w.block_count = 20
    w.max_steps *= 4
    w.pool_death = dict(plan["deaths"])

    def job_given():
        box = JOBS.get(None)
        if box is not None:
            box[0] += 1

    w.on_pool_job = job_given
    if not plan["full_size"]:
        use_less_memory()
    alone = len(plan["actors"]) == 1
    made, tags = [], {}
    failed = []         # (deaths when it started, deaths when it ended)

    def deaths():
        return w.faults["pool_worker_death"]

    def prepare(op):
        """What to call, and what is to come of it."""
        kind = op["kind"]
        if kind == "new":
            cls, kw = CLASSES[op["cls"]], settings(op)
            salt = bytes([op["salt"]]) * kw.get("salt_size", 8)
            key = (cls.PEPPER, op["word"], op["aad"], salt, *(v for k, v in kw.items() if k != "config"), op["spec"])
            args, aad = (WORDS[op["word"]], salt), AADS[op["aad"]]
            return "new", cls(**kw), args, {"aad": aad}, key
        if kind == "hash":
            cls, kw = CLASSES[op["cls"]], settings(op)
            record = {"cls": cls, "word": op["word"], "aad": op["aad"], "spec": op["spec"], "kw": kw,
                      "from": w.wall_ns()}
            return "hash_passphrase", cls(**kw), (WORDS[op["word"]],), {"aad": AADS[op["aad"]]}, record
        if not made:
            return None
        rec = made[op["pick"] % len(made)]
        change, arg = op["change"], op["arg"]
        cls, spec, word, aad, composed = rec["cls"], SPECS[rec["spec"]], rec["word"], rec["aad"], rec["hash"]
        kw, want = {}, "good"
        if change == "word":
            word = (word + 1 + arg[0] % (len(WORDS) - 1)) % len(WORDS)
            want = "wrong"
        elif change == "aad":
            aad = (aad + 1 + arg[0] % (len(AADS) - 1)) % len(AADS)
            want = "wrong"
        elif change == "class":
            cls = Peppered if cls is Passcrypt else Passcrypt
            want = "wrong"
        elif change == "spec":
            spec = SPECS[(rec["spec"] + 1 + arg[0] % 2) % 3]
            want = "bad"
            kw = {"mb_allowed": range(1, 9), "cpu_allowed": range(1, 9), "cores_allowed": range(1, 9)}
        elif change == "damage":
            composed = damaged(composed, spec, op["damage"], arg)
            want = "good" if composed == rec["hash"] else "bad"
            kw = {"mb_allowed": range(1, 9), "cpu_allowed": range(1, 9), "cores_allowed": range(1, 9)}
        elif change == "limits":
            for n, name in enumerate(("mb", "cpu", "cores")):
                low = 1 + arg[n] % 3
                kw[name + "_allowed"] = range(low, low + 1 + arg[n] // 3 % 5)
                if rec["kw"][name] not in kw[name + "_allowed"]:
                    want = "resources"
        elif change == "ttl":
            kw["ttl"] = 2 + arg[0] % 9
            if arg[1] % 2 and alone:
                w.jump_clock(arg[2] % 12 * 10**9)
            low, high = ((w.wall_ns() - rec[k]) / 10**9 for k in ("to", "from"))
            if low > kw["ttl"] + 1.5:
                want = "expired"
            elif high > kw["ttl"] - 1.5 or not alone:
                return None
        return "verify", cls, (composed, WORDS[word]), dict(kw, aad=AADS[aad], config=spec), (want, rec)

    def concluded(op, call, got, error, jobs, before):
        name, _, _, _, info = call
        kind = type(error).__name__ if error else "ok"
        w.event(f"{name} {op.get('change', '')} {kind}")
        if isinstance(error, asyncio.CancelledError):
            w.fault("call_cancelled")
            return
        want, rec = info if name == "verify" else ("good", None)
        # A death in the pool excuses errors until it was reported to somebody.
        now, (deaths_before, failed_before) = deaths(), before
        excused = now > max([0] + [end if alone else start for start, end in failed[:failed_before]])
        if excused and jobs and error is not None and not isinstance(error, Passcrypt.InvalidPassphrase):
            failed.append((deaths_before, now))
        if error is not None and want == "good" and excused:
            w.reach("failed_after_death")
            return
        if name == "verify":
            if want == "good":
                if error is not None:
                    w.fail_exc("right-password-refused", error)
                w.reach("verified")
                return
            w.check(error is not None, "wrongly-verified", lambda: f"{op} verified, made from {describe(rec)}")
            w.reach("refused")
            if want in ("resources", "expired"):
                w.check(jobs == 0, "limits-ignored", lambda: (
                    f"{op} started {jobs} workers although its limits forbid the hash from {describe(rec)}"))
                kinds = ResourceWarning if want == "resources" else cls_expired
                if not isinstance(error, kinds):
                    w.fail_exc("wrong-kind-of-refusal", error)
                w.reach(want)
            elif want == "wrong" and not isinstance(error, Passcrypt.InvalidPassphrase):
                if not excused:
                    w.fail_exc("wrong-kind-of-refusal", error)
            return
        if error is not None:
            w.fail_exc("hashing-failed", error)
        if name == "new":
            w.check(tags.setdefault(info, got) == got, "hash-differs", lambda: (
                f"{op}: the same inputs gave {tags[info].hex()} and {got.hex()}"))
            for other, tag in tags.items():
                w.check(other == info or tag != got, "hash-repeats", lambda: (
                    f"inputs {info} and {other} both gave {got.hex()}"))
            w.reach("hashed")
        else:
            made.append(dict(info, hash=got, to=w.wall_ns()))
            w.reach("hashed")

    cls_expired = Passcrypt.TimestampExpired

    async def a_actor(i):
        for op in plan["actors"][i]["ops"]:
            call = prepare(op)
            if call is None:
                continue
            name, obj, args, kw, _ = call
            box, before, got, error = [0], (deaths(), len(failed)), None, None
            JOBS.set(box)
            try:
                coro = getattr(obj, "a" + name)(*args, **kw)
                got = await (doomed(coro, op["cancel"]) if "cancel" in op else coro)
            except (Exception, asyncio.CancelledError) as e:
                error = e
            concluded(op, call, got, error, box[0], before)

    async def doomed(coro, after):
        task = asyncio.ensure_future(coro)
        await asyncio.sleep(after)
        task.cancel()
        return await task

    def s_actor(i):
        for op in plan["actors"][i]["ops"]:
            call = prepare(op)
            if call is None:
                continue
            name, obj, args, kw, _ = call
            box, before, got, error = [0], (deaths(), len(failed)), None, None
            JOBS.set(box)
            try:
                got = getattr(obj, name)(*args, **kw)
            except Exception as e:
                error = e
            concluded(op, call, got, error, box[0], before)

    run_actors(w, len(plan["actors"]), a_actor, s_actor, place=lambda i: plan["actors"][i]["place"],
               trace=code("passcrypt/interface", "asynchs/concurrency_interface", "asynchs/processes"))


def describe(rec):
    return {k: v for k, v in rec.items() if k in ("word", "aad", "spec")} | {
        k: v for k, v in rec["kw"].items() if k != "config"}
