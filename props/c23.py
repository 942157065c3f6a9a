"""C23: security reports can be read with the keys that were kept for them."""

import contextlib
import copy
import io
import json
import re
import sys

import aiootp
from aiootp import Database, DomainKDF, Domains, X25519
from aiootp.generics import ByteIO
from cryptography.hazmat.primitives.ciphers.aead import ChaCha20Poly1305

from .passwords import use_less_memory

SHRINK = ["lives"]
KINDS = (
    ["crash_before"] * 3 + ["crash_after"] * 2 + ["crash_torn"] * 3 + ["eio", "eio", "enospc", "full", "short_write"]
)
EMAILS = ["me@example.org", "you@example.org", "ü@example.org"]
PASSPHRASES = ["a passphrase", "another one"]
MESSAGES = [
    "", "one line\n", "no newline at the end", "first\nsecond\n\nthird\n", "naïve ✓\n", "x" * 3000 + "\n",
]
DAY = 86_400 * 10 ** 9
KEPT = 4            # a session and the three before it stay readable


def gen(rng, tier):
    lives = []
    p_fault = rng.choice([0, 0.2, 0.5])
    for n in range(rng.choice([1, 2, 3, 4, 5, 6])):
        life = {
            "want": rng.choice(["y", "y", "y", "Yes", " yes ", "y", "n", "", "no"]) if rng.random() < 0.5 else "y",
            "email": rng.choice([0, 0, 0, 1, 2]), "passphrase": rng.choice([0, 0, 0, 1]),
            "mb": rng.choice([1, 1, 1, 2]),
            "slips": [rng.choice(["word", "empty", "float", "unsure"]) for _ in range(rng.choice([0, 0, 0, 1, 2]))],
            "message": rng.randrange(len(MESSAGES)),
            "days": rng.choice([0, 0, 1, 400, -1]),
        }
        r = rng.random()
        top = 30 if n == 0 else 14
        if r < p_fault * 0.6:
            life["fault"] = {"k": rng.randrange(top), "kind": rng.choice(KINDS), "arg": rng.randrange(1 << 16)}
        elif r < p_fault * 0.8:
            life["read_fault"] = {"k": rng.randrange(26), "kind": rng.choice(["eio", "short_read"]),
                                  "arg": rng.randrange(99)}
        elif r < p_fault:
            life["interrupt"] = rng.choice(["prompt", "prompt", "message"])
            life["at"] = rng.randrange(6)
        lives.append(life)
    return {"cfg": {}, "lives": lives}


def simplify(plan):
    for i, life in enumerate(plan["lives"]):
        for k in ("fault", "read_fault", "interrupt"):
            if k in life:
                p = copy.deepcopy(plan)
                del p["lives"][i][k]
                yield p
        if life["slips"]:
            p = copy.deepcopy(plan)
            p["lives"][i]["slips"] = []
            yield p


def nontrivial(out):
    return out["stats"].get("reach:earlier_report_read", 0) > 0


class Console:
    """A person at a keyboard, who may give up."""

    def __init__(self, w, life):
        self.w = w
        sizes, sure = [], []
        for slip in life["slips"]:
            sizes.append({"word": "many", "empty": "", "float": "1.5", "unsure": "4"}[slip])
            sure += ["n"] * (slip == "unsure")
        self.answers = {
            "size": iter([*sizes, str(life["mb"])]), "sure": iter([*sure, "y"]),
            "email": iter([EMAILS[life["email"]]]), "want": iter([life["want"]])}
        self.secret = PASSPHRASES[life["passphrase"]]
        self.stop = life["at"] if life.get("interrupt") == "prompt" else None
        self.asked = 0

    def _ask(self):
        if self.asked == self.stop:
            self.w.fault("interrupted_by_user")
            raise KeyboardInterrupt
        self.asked += 1

    def ask(self, prompt):
        self._ask()
        prompt = prompt.lower()
        kind = ("email" if "address" in prompt else "sure" if "sure" in prompt
                else "size" if "mebibyte" in prompt or "ram" in prompt.split() else "want")
        try:
            return next(self.answers[kind])
        except StopIteration:
            raise EOFError from None

    def ask_secret(self, prompt):
        self._ask()
        return self.secret


class Typed(io.StringIO):
    """What is typed as the message; breaks off where the person gives up."""

    stop = None

    def __next__(self):
        if self.stop is not None:
            if self.stop == 0:
                self.stop_now()
            self.stop -= 1
        return super().__next__()

    def read(self, *a):
        if self.stop is not None:
            self.stop_now()
        return super().read(*a)

    def readlines(self, *a):
        return self.read().splitlines(keepends=True)

    def readline(self, *a):
        if self.stop is not None:
            if self.stop == 0:
                self.stop_now()
            self.stop -= 1
        return super().readline(*a)


def run(w, plan):
    use_less_memory()
    done = {}       # who -> their sessions, oldest first
    for n, life in enumerate(plan["lives"]):
        who = (EMAILS[life["email"]], PASSPHRASES[life["passphrase"]], life["mb"])
        if life["days"]:
            w.fault("clock_jump")
            w.jump_clock(life["days"] * DAY)
        w.extra = {}
        status, ret = w.lifetime(lambda cw: one_life(cw, life))
        w.fs.faults, w.fs.read_faults, w.fs.full = {}, {}, False
        if status == "crash":
            w.reach("crashed")
        printed = w.extra.get("printed")
        w.event(f"{n} {who} {status} {ret} {printed is not None}")
        if ret == "declined":
            w.check(printed is None, "unwanted-report", "a report was made that was not wanted")
            continue
        if ret in ("failed", "interrupted") or status == "crash":
            w.check(printed is None or status == "crash", "report-in-spite-of-failure",
                    f"session {n} printed a report and then failed")
        done.setdefault(who, []).append((n, life, printed))
        for other, sessions in done.items():
            if any(p for _, _, p in sessions[-KEPT:]):
                w.lifetime(lambda cw: audit(cw, other, sessions[-KEPT:], n))


def one_life(w, life):
    console = Console(w, life)
    typed = Typed(MESSAGES[life["message"]])
    if life.get("interrupt") == "message":
        typed.stop = life["at"]

        def stop_now():
            w.fault("interrupted_by_user")
            raise KeyboardInterrupt

        typed.stop_now = stop_now
    screen = io.StringIO()
    if "fault" in life:
        w.fs.faults = {w.fs.n_mut + life["fault"]["k"]: life["fault"]}
    if "read_fault" in life:
        w.fs.read_faults = {w.fs.n_read + life["read_fault"]["k"]: life["read_fault"]}
    before = w.fs.n_mut
    stdin, sys.stdin = sys.stdin, typed
    w.console = console
    try:
        with contextlib.redirect_stdout(screen):
            aiootp.report_security_issue()
        ended = "ended"
    except KeyboardInterrupt:
        if life.get("interrupt") is None:
            raise
        ended = "interrupted"
    except Exception:
        if not w.fs.fired:
            raise
        w.reach("failure_reported")
        ended = "failed"
    finally:
        sys.stdin = stdin
        w.console = None
        w.extra = {"printed": report(screen.getvalue())}
    if not life["want"].strip().lower().startswith("y"):
        w.check(w.fs.n_mut == before, "unwanted-files", "files were written though no report was wanted")
        return "declined"
    if ended == "ended":
        w.check(w.extra["printed"] is not None, "no-report", lambda: f"no report was printed:\n{screen.getvalue()}")
        text = MESSAGES[life["message"]].strip()
        w.check(len(text) < 5 or text not in screen.getvalue(), "message-shown", "the message was printed in the clear")
        w.reach("reported")
    return ended


def report(text):
    found = re.search(r"\{.*\}", text, re.S)
    return json.loads(found.group()) if found else None


def audit(w, who, sessions, now):
    """The reports of the last sessions can be read with what is stored."""
    email, passphrase, mb = who
    public = bytes.fromhex(aiootp.__PUBLIC_X25519_KEY__)
    db = Database.generate_profile(
        username=email.encode(), passphrase=passphrase.encode(), salt=public,
        aad=b"aiootp_security_issue_reports", mb=mb)
    stored = db.query_tag("conversation", silent=True) or {"period_keys": []}
    keys = [X25519().import_secret_key(db.read_token(token, aad=b"period_key")) for token in stored["period_keys"]]
    for n, life, printed in sessions:
        if printed is None:
            continue
        raw = {k: ByteIO.urlsafe_to_bytes(v) for k, v in printed.items()}
        mine = [k for k in keys if k.public_bytes == raw["public_key"]]
        w.check(mine, "report-key-lost", lambda: (
            f"after session {now} the key of session {n} of {email} is not among the {len(keys)} kept"))
        kdf = DomainKDF(Domains.USER, raw["date"], raw["public_key"], public, key=mine[0].exchange(public))
        key = kdf.sha3_256(raw["siv"], aad=Domains.ENCRYPTION_KEY)
        try:
            text = ChaCha20Poly1305(key).decrypt(raw["siv"][:12], raw["encrypted_message"], raw["siv"])
        except Exception as e:
            w.fail_exc("report-unreadable", e)
        w.check(MESSAGES[life["message"]].encode() in text and email.encode() in text, "report-differs",
                lambda: f"session {n}: the report holds {text[:200]!r}")
        w.reach("report_read")
        if n < now:
            w.reach("earlier_report_read")
