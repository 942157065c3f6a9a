"""C20: a signed package verifies exactly for what was signed, despite faults."""

import copy
import hashlib
import json

from aiootp import PackageSigner, PackageVerifier

from .passwords import use_less_memory

SHRINK = ["lives"]
HOME = "/sim/db"
TREE = "/sim/pkg"
KINDS = (
    ["crash_before"] * 3 + ["crash_after"] * 2 + ["crash_torn"] * 3 + ["eio", "eio", "enospc", "full", "short_write"]
)
NAMES = ["setup.py", "src/a.py", "src/b.py", "ü.txt", "README", "a b"]
PACKAGES = ["tool", "tool2"]
VERSIONS = ["1.0", "1.0.1"]
OPS = (
    ["file"] * 6 + ["sign"] * 6 + ["save"] * 3 + ["check"] * 6 + ["key"] * 2 + ["credential"] * 2 + ["scope"] * 2
    + ["drop_file"]
)
CHANGES = [
    "content", "content", "swap_contents", "missing_file", "digest", "rename", "add_entry", "remove_entry",
    "version", "package", "date", "scope", "add_scope", "credential", "signature", "other_signature", "checksum",
    "key_in_summary", "verifier_key", "older_summary",
]


def gen(rng, tier):
    lives = []
    p_fault = rng.choice([0, 0.2, 0.5])
    for n in range(rng.choice([1, 2, 3, 4])):
        ops = []
        if n == 0 or rng.random() < 0.3:
            ops.append({"op": "key", "n": rng.randrange(3)})
        for name in rng.sample(range(len(NAMES)), rng.choice([1, 2, 3])):
            ops.append({"op": "file", "name": name, "data": rng.randrange(4)})
        if n == 0 or rng.random() < 0.4:
            ops.append({"op": "sign"})
        for _ in range(rng.choice([1, 2, 4, 6])):
            kind = rng.choice(OPS)
            op = {"op": kind, "name": rng.randrange(len(NAMES)), "data": rng.randrange(4), "n": rng.randrange(3)}
            if kind == "check":
                op.update(changes=[{"kind": rng.choice(CHANGES), "arg": rng.randrange(1 << 16),
                                    "forge": rng.random() < 0.6} for _ in range(rng.choice([1, 3, 5]))],
                          text=rng.random() < 0.5, files=rng.random() < 0.8)
            ops.append(op)
        ops.append({"op": "check", "changes": [{"kind": rng.choice(CHANGES), "arg": rng.randrange(1 << 16),
                                                "forge": rng.random() < 0.6}], "text": True, "files": True})
        for op in ops:
            if op["op"] in ("sign", "save") and rng.random() < p_fault:
                op["fault"] = {"k": rng.choice([0, 0, 1, 1, 2, 2, 3, 4, 5, 6, 8]), "kind": rng.choice(KINDS),
                               "arg": rng.randrange(1 << 16)}
        life = {"package": rng.choice([0, 0, 0, 1]), "version": rng.choice([0, 0, 1]), "ops": ops,
                "again": n > 0 and rng.random() < 0.5}
        r = rng.random()
        if r < p_fault / 2:
            life["open_fault"] = {"k": rng.randrange(24), "kind": rng.choice(KINDS), "arg": rng.randrange(1 << 16)}
        elif r < p_fault:
            life["read_fault"] = {"k": rng.randrange(30), "kind": rng.choice(["eio", "short_read"]),
                                  "arg": rng.randrange(99)}
        lives.append(life)
    return {"cfg": {}, "full_size": rng.random() < 0.03, "lives": lives}


def simplify(plan):
    for i, life in enumerate(plan["lives"]):
        for k in ("open_fault", "read_fault"):
            if k in life:
                p = copy.deepcopy(plan)
                del p["lives"][i][k]
                yield p
        for j, op in enumerate(life["ops"]):
            p = copy.deepcopy(plan)
            del p["lives"][i]["ops"][j]
            yield p
            if "fault" in op:
                p = copy.deepcopy(plan)
                del p["lives"][i]["ops"][j]["fault"]
                yield p
            for k in range(len(op.get("changes", ()))):
                p = copy.deepcopy(plan)
                del p["lives"][i]["ops"][j]["changes"][k]
                yield p


def nontrivial(out):
    return out["stats"].get("reach:verified", 0) > 0


def data_of(n):
    return [b"", b"print('hello')\n", b"\x00" * 1000, b"print('hello')\r\n"][n]


EMPTY = {"key": None, "versions": {}, "credentials": {}}


def run(w, plan):
    if not plan["full_size"]:
        use_less_memory()
    w.fs.mkdir(HOME)
    w.fs.mkdir(TREE)
    w.fs.mkdir(TREE + "/src")
    # package -> what its record on disk may be; signature -> what it signs
    known = {"disk": {p: [EMPTY] for p in PACKAGES}, "signed": {}, "old": []}
    last = None
    for life in plan["lives"] + [None]:
        if life is not None and life["again"] and last is not None:
            files = [o for o in last["ops"] if o["op"] in ("file", "scope")]
            life = dict(life, package=last["package"], version=last["version"],
                        ops=files[::-1] + life["ops"])
        w.extra = copy.deepcopy(known)
        status, ret = w.lifetime(lambda cw: one_life(cw, life, copy.deepcopy(known)))
        w.fs.faults, w.fs.read_faults, w.fs.full = {}, {}, False
        known = w.extra
        if status == "crash":
            w.reach("crashed")
        last = life


def found(signer, package):
    """What the signer's database holds for its package."""
    record = signer.db[package]
    try:
        key = signer.signing_key.secret_bytes.hex()
    except Exception as e:
        if "SigningKeyNotSet" not in type(e).__name__ and not isinstance(e, LookupError):
            raise
        key = None
    return {"key": key, "versions": dict(record["versions"]), "credentials": dict(record["public_credentials"])}


def connect(w, package, version, fault=None, read_fault=None):
    signer = PackageSigner(package=package, version=version, date=20_000, author="nobody")
    if fault:
        w.fs.faults = {w.fs.n_mut + fault["k"]: fault}
    if read_fault:
        w.fs.read_faults = {w.fs.n_read + read_fault["k"]: read_fault}
    try:
        signer.connect_to_secure_database(
            username=b"user", passphrase=b"a passphrase", path=HOME, mb=1, cpu=1, cores=1)
    finally:
        w.fs.faults, w.fs.read_faults, w.fs.full = {}, {}, False
    return signer


def one_life(w, life, known):
    def persist():
        w.extra = copy.deepcopy(known)

    if life is None:
        for p in PACKAGES:
            audit(w, connect(w, p, VERSIONS[0]), p, known)
        return
    package, version = PACKAGES[life["package"]], VERSIONS[life["version"]]
    try:
        signer = connect(w, package, version, life.get("open_fault"), life.get("read_fault"))
    except Exception:
        if not w.fs.fired:
            raise
        w.reach("open_failed")
        signer = connect(w, package, version)
    memory = audit(w, signer, package, known)
    known["disk"][package] = [copy.deepcopy(memory)]
    persist()
    mine = {"files": {}, "scope": {"author": "nobody", "package": package, "version": version, "date": 20_000}}

    def snapshot():
        return json.dumps([sorted(mine["files"].items()), memory["credentials"], mine["scope"], memory["key"]],
                          sort_keys=True)

    for op in life["ops"]:
        kind = op["op"]
        w.event(f"{kind} {package} {op.get('fault', {}).get('kind', '')}")
        if kind == "key":
            secret = bytes([op["n"] + 1 + 3 * life["package"]]) * 32
            signer.update_signing_key(secret)
            memory["key"] = secret.hex()
        elif kind == "file":
            signer.add_file(NAMES[op["name"]], data_of(op["data"]))
            mine["files"][NAMES[op["name"]]] = op["data"]
        elif kind == "drop_file":
            if NAMES[op["name"]] in mine["files"]:
                del signer.files[NAMES[op["name"]]]
                del mine["files"][NAMES[op["name"]]]
        elif kind == "credential":
            signer.update_public_credentials(**{f"c{op['n']}": {"b": op["data"], "a": [1, None]}})
            memory["credentials"][f"c{op['n']}"] = {"b": op["data"], "a": [1, None]}
        elif kind == "scope":
            signer.update_scope(**{f"s{op['n']}": op["data"]})
            mine["scope"][f"s{op['n']}"] = op["data"]
        elif kind in ("sign", "save"):
            if kind == "sign" and memory["key"] is None:
                try:
                    signer.sign_package()
                except Exception:
                    w.reach("refused_without_key")
                else:
                    w.fail("signed-without-key", "a package was signed without a signing key")
                continue
            if kind == "sign":
                memory["versions"][version] = [snapshot()]      # and a signature yet to be seen
            known["disk"][package].append(copy.deepcopy(memory))
            persist()       # what a crash from here on may leave
            if "fault" in op:
                w.fs.faults = {w.fs.n_mut + op["fault"]["k"]: op["fault"]}
            try:
                signer.sign_package() if kind == "sign" else signer.db.save_database()
            except OSError:
                w.reach("failure_reported")
                saved = False
            else:
                saved = kind == "save"      # signing alone need not reach the disk
            finally:
                w.fs.faults, w.fs.full = {}, False
            got = found(signer, package)
            w.check(matches(got, memory, known), "record-changed", lambda: (
                f"after {kind} the signer holds {got}, expected {memory}"))
            memory = copy.deepcopy(got)
            if saved:
                known["disk"][package] = [copy.deepcopy(memory)]
                persist()
        elif kind == "check":
            check(w, op, signer, memory, mine, version, known, snapshot())
            persist()


def matches(got, model, known):
    """Whether the record is the model's; takes note of what new signatures sign."""
    news = {v: x[0] for v, x in model["versions"].items() if isinstance(x, list)}
    same = {**model, "versions": {v: got["versions"].get(v) if v in news else x for v, x in model["versions"].items()}}
    if got != same:
        return False
    for v, what in news.items():
        if known["signed"].setdefault(got["versions"][v], what) != what:
            return False
    return True


def audit(w, signer, package, known):
    """What a fresh process finds is what was saved."""
    got = found(signer, package)
    allowed = known["disk"][package]
    if not any(matches(got, a, known) for a in allowed):
        w.fail("saved-record-lost", f"{package}: found {got}, permitted {allowed}")
    if got["versions"]:
        w.reach("signature_read_back")
    return copy.deepcopy(got)


def check(w, op, signer, memory, mine, version, known, now):
    signature = memory["versions"].get(version)
    valid = signature is not None and memory["key"] is not None and known["signed"][signature] == now
    try:
        summary = signer.summarize()
    except Exception as e:
        if valid:
            w.fail_exc("good-summary-refused", e)
        w.reach("unsigned_refused")
        return
    w.check(valid, "summary-of-unsigned-package", lambda: (
        f"a summary was given although what was signed is {known['signed'].get(signature)}, not {now}"))
    public = signer.signing_key.public_bytes
    for name, n in mine["files"].items():
        w.fs.poke(f"{TREE}/{name}", data_of(n))

    def verdict(s, key=public, files=True):
        verifier = PackageVerifier(key, path=TREE) if files else PackageVerifier(key, verify_files=False)
        try:
            verifier.verify_summary(json.dumps(s) if op["text"] else s)
        except Exception as e:
            return e
        return None

    error = verdict(summary, files=op["files"])
    if error is not None:
        w.fail_exc("good-package-refused", error)
    w.reach("verified")
    for change in op["changes"]:
        altered, key, files, undo = alter(w, summary, public, mine, change, known)
        if altered is None:
            continue
        if change["forge"]:
            forge(altered)
        error = verdict(altered, key, files)
        for path, data in undo:
            w.fs.poke(path, data)
        w.check(error is not None, "altered-package-accepted", lambda: (
            f"a package altered by {change} was accepted: {json.dumps(altered)[:600]}"))
        w.reach("altered_refused")
    known["old"] = known["old"][-3:] + [summary]


def forge(summary):
    """Anyone can make the checksum of a summary right again."""
    inner = {k: v for k, v in summary.items() if k not in ("checksum", "signature")}
    summary["checksum"] = hashlib.sha384(json.dumps(inner).encode()).hexdigest()


def alter(w, summary, public, mine, change, known):
    s, arg, kind = copy.deepcopy(summary), change["arg"], change["kind"]
    sums, names = s["checksums"], sorted(mine["files"])
    nothing = (None, None, None, ())
    key, files, undo = public, True, []

    def flip(hexed):
        i = arg % len(hexed)
        return hexed[:i] + "0123456789abcdef"[int(hexed[i], 16) ^ (1 << arg // 7 % 4)] + hexed[i + 1:]

    if kind in ("content", "missing_file", "digest", "rename", "remove_entry", "swap_contents") and not names:
        return nothing
    name = names[arg % len(names)] if names else None
    if kind == "content":
        path = f"{TREE}/{name}"
        undo.append((path, w.fs.peek(path)))
        data = bytearray(w.fs.peek(path))
        if data and arg & 256:
            data[arg % len(data)] ^= 1 << arg // 9 % 8
        else:
            data += b"\n"
        w.fs.poke(path, bytes(data))
    elif kind == "swap_contents":
        other = names[(arg + 1) % len(names)]
        a, b = f"{TREE}/{name}", f"{TREE}/{other}"
        if w.fs.peek(a) == w.fs.peek(b):
            return nothing
        undo += [(a, w.fs.peek(a)), (b, w.fs.peek(b))]
        w.fs.poke(a, undo[1][1])
        w.fs.poke(b, undo[0][1])
    elif kind == "missing_file":
        sums["no such file"] = sums.pop(name)
    elif kind == "digest":
        sums[name] = flip(sums[name])
        files = bool(arg & 1)
    elif kind == "rename":
        new = NAMES[arg // 7 % len(NAMES)]
        if new in sums:
            return nothing
        sums[new] = sums.pop(name)
        files = False
    elif kind == "add_entry":
        new = NAMES[arg // 7 % len(NAMES)]
        if new in sums:
            return nothing
        sums[new] = hashlib.sha384(b"").hexdigest()
        files = False
    elif kind == "remove_entry":
        del sums[name]
    elif kind in ("version", "package"):
        s["scope"][kind] += "1"
    elif kind == "date":
        s["scope"]["date"] += 1
    elif kind == "scope":
        s["scope"]["author"] = "somebody"
    elif kind == "add_scope":
        s["scope"]["zzz"] = None
    elif kind == "credential":
        s["public_credentials"]["c9"] = 1
    elif kind == "signature":
        s["signature"] = flip(s["signature"])
    elif kind == "other_signature":
        others = [x for x in known["signed"] if x != s["signature"]]
        if not others:
            return nothing
        s["signature"] = others[arg % len(others)]
    elif kind == "checksum":
        if change["forge"]:
            return nothing
        s["checksum"] = flip(s["checksum"])
    elif kind == "key_in_summary":
        s["signing_key"] = flip(s["signing_key"])
    elif kind == "verifier_key":
        other = PackageSigner.generate_signing_key()
        key = other.public_bytes
        if arg & 1:
            s["signing_key"] = key.hex()
    elif kind == "older_summary":
        # another summary's signature and checksum over this one's contents
        others = [x for x in known["old"] if x["checksum"] != s["checksum"]]
        if not others:
            return nothing
        s["checksum"], s["signature"] = (others[arg % len(others)][k] for k in ("checksum", "signature"))
    w.fault("package_altered")
    return s, key, files, undo
