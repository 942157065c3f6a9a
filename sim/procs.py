"""
Several simulated processes at the same time, on one file system.

Each is a forked child with a world, clock and random source of its own.  Its
file system calls are carried out one by one by the parent, which holds the
shared state and picks, by seed, whose call is next once every process has
made one or has ended.
"""

import os
import pickle
import select
import signal
import socket
import struct
import sys
import traceback

from . import choices as _choices
from . import world as W
from .fs import SimCrash, SimFS

CALLS = (
    "stat", "lstat", "fstat", "chmod", "fchmod", "mkdir", "rmdir", "unlink", "remove", "rename", "replace",
    "link", "symlink", "readlink", "access", "utime", "listdir", "truncate", "open", "close", "read", "pread",
    "write", "lseek", "ftruncate", "fsync", "fdatasync",
)
QUIET = {"fstat", "close", "lseek"}     # these neither see nor change what others do
TIMEOUT = 60


def _send(sock, value):
    data = pickle.dumps(value)
    sock.sendall(struct.pack("<I", len(data)) + data)


def _recv(sock):
    def exactly(n):
        data = b""
        while len(data) < n:
            part = sock.recv(n - len(data))
            if not part:
                return None
            data += part
        return data

    head = exactly(4)
    return None if head is None else pickle.loads(exactly(struct.unpack("<I", head)[0]))


class RemoteFS(SimFS):
    """The file system as a process sees it: every call goes to the parent."""

    def __init__(self, mounts, sock):
        super().__init__(mounts)
        self.sock = sock
        self.first = self.when = 0      # the parent's step count at the first and at the latest call

    def mark(self):
        """From here on, `first` is about the calls to come."""
        self.first = 0

    def _remote(self, name, *a, **k):
        if self.dead:
            raise SimCrash("process is dead")
        if self.on_call is not None and name not in QUIET:
            path = a[0] if a and isinstance(a[0], str) else None
            self.on_call(name, path, True)
        if a and isinstance(a[0], os.PathLike):
            a = (os.fspath(a[0]), *a[1:])
        if name == "write":
            a = (a[0], bytes(a[1]), *a[2:])
        _send(self.sock, (name, a, k))
        status, value, self.fired, self.full, self.when = _recv(self.sock)
        self.first = self.first or self.when
        if status == "crash":
            self.dead = True
            raise SimCrash(value)
        if status == "raise":
            raise value
        return value

    def _get(self, p):
        return self._remote("look", p)

    def _file(self, fd):
        return self._remote("look_fd", fd)

    def close(self, fd):
        return None if self.dead else self._remote("close", fd)


for _name in CALLS:
    if _name != "close":
        setattr(RemoteFS, _name, (lambda name: lambda self, *a, **k: self._remote(name, *a, **k))(_name))


class _Seen:
    """What a process may know about a node without further calls."""

    def __init__(self, kind, mode):
        self.kind, self.mode = kind, mode
        self.node = self


class Process:
    def __init__(self, w, n, fn, faults, cfg):
        self.n, self.label = n, f"L{w.life}.{n}"
        self.fs = SimFS(w.fs.mounts)
        self.fs.nodes = w.fs.nodes
        self.fs.next_fd += n << 16
        self.fs.cwd = w.fs.cwd
        for fault in faults:
            kind = "read_faults" if fault.get("read") else "faults"
            getattr(self.fs, kind)[fault["k"]] = fault
        self.call = None            # the call that it waits for
        self.out = None
        self.ended = False
        rec = w.choices.recorded
        if rec is not None:
            pre = self.label + "/"
            rec = {k[len(pre):]: v for k, v in rec.items() if k.startswith(pre)}
        self.sock, theirs = socket.socketpair()
        self.pipe, result = os.pipe()
        sys.stdout.flush()
        self.pid = os.fork()
        if self.pid == 0:
            self.sock.close()
            os.close(self.pipe)
            self._live(w, fn, cfg, rec, theirs, result)
        theirs.close()
        os.close(result)

    def _live(self, w, fn, cfg, rec, sock, result):
        W._emit_fd = result
        try:
            try:
                fs = RemoteFS(w.fs.mounts, sock)
                fs.cwd = w.fs.cwd
                child = W.World(
                    _choices.derive(w.seed, self.label), rec, fs=fs,
                    cfg=dict(w.cfg, **(cfg or {})), name=self.label)
                child.pid = 4242 + self.n
                child.wall0 = w.wall0
                child.wall_offset = w.wall_offset + w.now_ns
                child.max_steps = w.max_steps
                crashed, ret = False, None
                with child.active():
                    try:
                        ret = fn(child)
                    except SimCrash:
                        crashed = True
                    except W.HarnessError:
                        raise
                    except Exception as e:
                        if W.through_aiootp(e):
                            child.fail_exc("unexpected-exception", e)
                        raise
                payload = ("ok", child.result(ret=(crashed, ret)))
            except BaseException as e:
                payload = ("err", "".join(traceback.format_exception(e)))
            try:
                blob = pickle.dumps(payload)
            except BaseException as e:
                blob = pickle.dumps(("err", "unpicklable result: %r" % (e,)))
            W._write_all(result, blob)
        finally:
            os._exit(0)

    def wait(self, w):
        """Until it makes its next call or has ended."""
        chunks = []
        while True:
            ready, _, _ = select.select([self.sock, self.pipe], [], [], TIMEOUT)
            if not ready:
                os.kill(self.pid, signal.SIGKILL)
                w.fail("hang", f"{self.label} made no call in {TIMEOUT} s of real time")
            if self.pipe in ready:
                part = os.read(self.pipe, 1 << 20)
                if part:
                    chunks.append(part)
                    continue
                break
            self.call = _recv(self.sock)
            if self.call is not None:
                return
            ready = [self.pipe]
            while part := os.read(self.pipe, 1 << 20):
                chunks.append(part)
            break
        self.ended = True
        self.sock.close()
        os.close(self.pipe)
        os.waitpid(self.pid, 0)
        status, self.out = pickle.loads(b"".join(chunks)) if chunks else ("err", "process ended without a result")
        if status == "err":
            raise W.HarnessError(self.out)

    def serve(self, w):
        """Carries out its call."""
        name, a, k = self.call
        self.call = None
        fs = self.fs
        fs.ino, fs.full = w.fs.ino, w.fs.full
        try:
            if name == "look":
                node = fs._get(a[0])
                reply = ("ok", _Seen(node.kind, node.mode))
            elif name == "look_fd":
                node = fs._file(a[0]).node
                reply = ("ok", _Seen(node.kind, node.mode))
            else:
                reply = ("ok", getattr(fs, name)(*a, **k))
        except SimCrash as e:
            reply = ("crash", str(e))
        except Exception as e:
            reply = ("raise", e)
        w.fs.ino, w.fs.full = fs.ino, fs.full
        if name not in QUIET:
            w.event(f"{self.label} {name} {a[0] if a and isinstance(a[0], str) else ''} {reply[0]}")
        _send(self.sock, (*reply, list(fs.fired), fs.full, w.steps))


def together(w, fns, faults=None, cfg=None, stick=0.0):
    """
    Runs every `fn(world)` as a process of its own, all at the same time.
    Returns their [("ok" | "crash", value)].
    """
    w.life += 1
    procs = []
    for n, fn in enumerate(fns):
        procs.append(Process(w, n, fn, (faults or {}).get(n, ()), cfg))
    try:
        _drive(w, procs, stick)
    finally:
        for p in procs:
            if not p.ended:
                try:
                    os.kill(p.pid, signal.SIGKILL)
                    os.waitpid(p.pid, 0)
                except (ProcessLookupError, ChildProcessError):
                    pass
    outcome = []
    for p in procs:
        crashed, ret = p.out["ret"]
        outcome.append(("crash" if crashed else "ok", ret))
    return outcome


def _drive(w, procs, stick):
    for p in procs:
        p.wait(w)
    last = None
    while live := [p for p in procs if not p.ended]:
        w.steps += 1
        if w.steps > w.max_steps:
            w.fail("no-progress", f"processes still running after {w.steps} file system calls")
        live.sort(key=lambda p: p is not last)      # the plain choice is to go on with the same one
        last = live[w.choices.pick("proc", len(live), stick)]
        last.serve(w)
        last.wait(w)
        if last.ended:
            _collect(w, last)
    w.now_ns += max(p.out["sim_ns"] for p in procs)


def _collect(w, p):
    out = p.out
    for k, v in out["choices"].items():
        w.child_choices[f"{p.label}/{k}"] = v
    w.digest.update(out["digest"].encode())
    w.sched_digest.update(out["sched"].encode())
    w.log.append(f"-- {p.label} --")
    w.log.extend(out["log"])
    w.stats.update(out["stats"])
    w.faults.update(out["faults"])
    if out["fail"]:
        W.emit_and_exit(w, w.result(fail=out["fail"]))
