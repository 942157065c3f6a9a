"""
An in-memory file system with numbered calls, permission checks for a
non-privileged owner, input/output faults and process-crash semantics.

What survives a crash is what completed calls had done; the call in progress
is lost, done in part (writes), or done, as the fault says.  User-space buffers
that were not flushed are lost because the Python objects holding them are.
"""

import errno
import io
import os
import stat as st

FD_BASE = 1 << 20


class SimCrash(BaseException):
    """The simulated process died."""


class Node:
    __slots__ = ("kind", "mode", "data", "ino", "mtime", "nlink")

    def __init__(self, kind, mode, ino, data=b"", mtime=0):
        self.kind, self.mode, self.ino = kind, mode, ino
        self.data = bytearray(data)
        self.mtime = mtime
        self.nlink = 1


class OpenFile:
    __slots__ = ("node", "pos", "flags", "path", "closed")

    def __init__(self, node, flags, path):
        self.node, self.flags, self.path = node, flags, path
        self.pos = 0
        self.closed = False


def oserror(code, path=None):
    if path is None:
        return OSError(code, os.strerror(code))
    return OSError(code, os.strerror(code), str(path))


class SimFS:
    def __init__(self, mounts=("/sim",)):
        self.mounts = tuple(mounts)
        self.nodes = {}
        self.ino = 100
        self.fds = {}
        self.next_fd = FD_BASE
        self.umask = 0o022
        self.on_call = None         # callable(name, path, mutating) -> None
        self.faults = {}            # mutating-call index -> fault dict
        self.read_faults = {}       # read-call index -> fault dict
        self.n_mut = 0
        self.n_read = 0
        self.n_all = 0
        self.full = False
        self.dead = False
        self.fired = []             # names of faults that fired
        self.trace = None           # callable(str)
        for m in self.mounts:
            self.nodes[m] = self._node("d", 0o755)

    # ------------------------------------------------------------ state
    def _node(self, kind, mode, data=b""):
        self.ino += 1
        return Node(kind, mode, self.ino, data)

    cwd = None      # where relative paths start, when simulated

    def export(self):
        """Plain, picklable durable state."""
        return {
            "mounts": list(self.mounts),
            "nodes": {
                p: (n.kind, n.mode, bytes(n.data)) for p, n in self.nodes.items()
            },
        }

    @classmethod
    def load(cls, state):
        fs = cls(state["mounts"])
        for p, (kind, mode, data) in state["nodes"].items():
            fs.nodes[p] = fs._node(kind, mode, data)
        return fs

    def owns(self, path):
        if isinstance(path, int):
            return path >= FD_BASE
        try:
            p = os.fspath(path)
        except TypeError:
            return False
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not p.startswith("/"):
            return self.cwd is not None
        for m in self.mounts:
            if p == m or p.startswith(m + "/"):
                return True
        return False

    def norm(self, path):
        p = os.fspath(path)
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if "\0" in p:
            raise ValueError("embedded null byte")
        return os.path.normpath(os.path.join(self.cwd or "/", p))

    # ------------------------------------------------------- call plumbing
    def _call(self, name, path, mutating):
        """Numbers the call, and applies the fault planned for it, if any."""
        if self.dead:
            raise SimCrash("process is dead")
        self.n_all += 1
        if self.on_call is not None:
            self.on_call(name, path, mutating)
            if self.dead:
                raise SimCrash("process is dead")
        if mutating:
            index = self.n_mut
            self.n_mut += 1
            fault = self.faults.get(index)
        else:
            index = self.n_read
            self.n_read += 1
            fault = self.read_faults.get(index)
        if self.trace is not None:
            self.trace(f"fs {name} {self._label(path)}")
        if fault is None:
            return None
        kind = fault["kind"]
        if kind == "crash_before":
            self.crash("crash_before")
        if kind == "eio":
            self.fired.append("eio_" + name)
            raise oserror(errno.EIO, path if isinstance(path, str) else None)
        if kind == "enospc" and name in ("write", "creat", "mkdir"):
            self.fired.append("enospc_" + name)
            raise oserror(errno.ENOSPC, path if isinstance(path, str) else None)
        if kind == "full":
            self.fired.append("disk_full")
            self.full = True
        if kind == "emfile" and name in ("open", "creat"):
            self.fired.append("emfile")
            raise oserror(errno.EMFILE, path if isinstance(path, str) else None)
        return fault

    def _label(self, path):
        return path if isinstance(path, str) else str(path)

    def crash(self, kind):
        self.fired.append(kind)
        self.dead = True
        if self.trace is not None:
            self.trace(f"fs {kind}")
        raise SimCrash(kind)

    def _after(self, fault):
        if fault is not None and fault["kind"] in ("crash_after", "crash_torn"):
            self.crash("crash_after")

    # ------------------------------------------------------------- lookup
    def _parent(self, p):
        return os.path.dirname(p)

    def _walk(self, p):
        """Checks the search permission and type of every ancestor."""
        parent = self._parent(p)
        for m in self.mounts:
            if p == m:
                return
        node = self.nodes.get(parent)
        if node is None:
            raise oserror(errno.ENOENT, p)
        if node.kind != "d":
            raise oserror(errno.ENOTDIR, p)
        if not node.mode & 0o100:
            raise oserror(errno.EACCES, p)
        self._walk(parent)

    def _get(self, p):
        self._walk(p)
        node = self.nodes.get(p)
        if node is None:
            raise oserror(errno.ENOENT, p)
        return node

    def _need_dir_write(self, p):
        parent = self.nodes.get(self._parent(p))
        if parent is None:
            raise oserror(errno.ENOENT, p)
        if not parent.mode & 0o200 or not parent.mode & 0o100:
            raise oserror(errno.EACCES, p)

    def children(self, p):
        pre = p.rstrip("/") + "/"
        return [q for q in self.nodes if q.startswith(pre) and "/" not in q[len(pre):]]

    # -------------------------------------------------------------- calls
    def stat(self, path, *a, **k):
        if isinstance(path, int):
            return self.fstat(path)
        p = self.norm(path)
        self._call("stat", p, False)
        return self._stat(self._get(p))

    def _stat(self, node):
        kind = st.S_IFDIR if node.kind == "d" else st.S_IFREG
        return os.stat_result((
            kind | node.mode, node.ino, 1, node.nlink, 1000, 1000, len(node.data),
            node.mtime, node.mtime, node.mtime,
        ))

    lstat = stat

    def fstat(self, fd):
        return self._stat(self._file(fd).node)

    def _file(self, fd):
        f = self.fds.get(fd)
        if f is None or f.closed:
            raise oserror(errno.EBADF)
        return f

    def chmod(self, path, mode, *a, **k):
        if isinstance(path, int):
            return self.fchmod(path, mode)
        p = self.norm(path)
        fault = self._call("chmod", p, True)
        self._get(p).mode = mode & 0o7777
        self._after(fault)

    def fchmod(self, fd, mode):
        fault = self._call("chmod", fd, True)
        self._file(fd).node.mode = mode & 0o7777
        self._after(fault)

    def mkdir(self, path, mode=0o777, *a, **k):
        p = self.norm(path)
        fault = self._call("mkdir", p, True)
        self._walk(p)
        if p in self.nodes:
            raise oserror(errno.EEXIST, p)
        self._need_dir_write(p)
        if self.full:
            raise oserror(errno.ENOSPC, p)
        self.nodes[p] = self._node("d", mode & ~self.umask)
        self._after(fault)

    def rmdir(self, path, *a, **k):
        p = self.norm(path)
        fault = self._call("rmdir", p, True)
        node = self._get(p)
        if node.kind != "d":
            raise oserror(errno.ENOTDIR, p)
        if self.children(p):
            raise oserror(errno.ENOTEMPTY, p)
        self._need_dir_write(p)
        del self.nodes[p]
        self._after(fault)

    def unlink(self, path, *a, **k):
        p = self.norm(path)
        fault = self._call("unlink", p, True)
        node = self._get(p)
        if node.kind == "d":
            raise oserror(errno.EISDIR, p)
        self._need_dir_write(p)
        del self.nodes[p]
        node.nlink -= 1
        self._after(fault)

    remove = unlink

    def rename(self, src, dst, *a, **k):
        s, d = self.norm(src), self.norm(dst)
        fault = self._call("rename", s, True)
        node = self._get(s)
        self._walk(d)
        self._need_dir_write(s)
        self._need_dir_write(d)
        old = self.nodes.get(d)
        if old is not None and old is not node:
            if old.kind == "d" and node.kind != "d":
                raise oserror(errno.EISDIR, d)
            if old.kind != "d" and node.kind == "d":
                raise oserror(errno.ENOTDIR, d)
            if old.kind == "d" and self.children(d):
                raise oserror(errno.ENOTEMPTY, d)
        moves = [q for q in self.nodes if q == s or q.startswith(s + "/")]
        for q in moves:
            self.nodes[d + q[len(s):]] = self.nodes.pop(q)
        self._after(fault)

    replace = rename

    def link(self, src, dst, *a, **k):
        s, d = self.norm(src), self.norm(dst)
        fault = self._call("link", s, True)
        node = self._get(s)
        self._walk(d)
        if d in self.nodes:
            raise oserror(errno.EEXIST, d)
        self._need_dir_write(d)
        self.nodes[d] = node
        node.nlink += 1
        self._after(fault)

    def symlink(self, *a, **k):
        raise oserror(errno.EPERM)

    def readlink(self, path, *a, **k):
        self._get(self.norm(path))
        raise oserror(errno.EINVAL, path)

    def access(self, path, mode, *a, **k):
        try:
            node = self._get(self.norm(path))
        except OSError:
            return False
        if mode == os.F_OK:
            return True
        bits = (node.mode >> 6) & 7
        return (bits & mode) == mode

    def utime(self, path, *a, **k):
        self._get(self.norm(path))

    def listdir(self, path="."):
        p = self.norm(path)
        self._call("listdir", p, False)
        node = self._get(p)
        if node.kind != "d":
            raise oserror(errno.ENOTDIR, p)
        if not node.mode & 0o400:
            raise oserror(errno.EACCES, p)
        return sorted(os.path.basename(q) for q in self.children(p))

    def scandir(self, path="."):
        names = self.listdir(path)
        return _Scan([_Entry(self, os.path.join(os.fspath(path), n), n) for n in names])

    def truncate(self, path, length):
        if isinstance(path, int):
            return self.ftruncate(path, length)
        fd = self.open(path, os.O_WRONLY)
        try:
            self.ftruncate(fd, length)
        finally:
            self.close(fd)

    def open(self, path, flags, mode=0o777, *a, **k):
        p = self.norm(path)
        exists = p in self.nodes
        creating = bool(flags & os.O_CREAT) and not exists
        trunc = bool(flags & os.O_TRUNC)
        fault = self._call(
            "creat" if creating or trunc else "open", p, creating or trunc)
        self._walk(p)
        node = self.nodes.get(p)
        acc = flags & (os.O_RDONLY | os.O_WRONLY | os.O_RDWR)
        if node is None:
            if not flags & os.O_CREAT:
                raise oserror(errno.ENOENT, p)
            self._need_dir_write(p)
            if self.full:
                raise oserror(errno.ENOSPC, p)
            node = self.nodes[p] = self._node("f", mode & ~self.umask)
        else:
            if flags & os.O_CREAT and flags & os.O_EXCL:
                raise oserror(errno.EEXIST, p)
            if node.kind == "d":
                if acc != os.O_RDONLY:
                    raise oserror(errno.EISDIR, p)
            else:
                if acc in (os.O_RDONLY, os.O_RDWR) and not node.mode & 0o400:
                    raise oserror(errno.EACCES, p)
                if acc in (os.O_WRONLY, os.O_RDWR) and not node.mode & 0o200:
                    raise oserror(errno.EACCES, p)
                if flags & os.O_DIRECTORY:
                    raise oserror(errno.ENOTDIR, p)
            if trunc and node.kind == "f":
                node.data = bytearray()
        fd = self.next_fd
        self.next_fd += 1
        self.fds[fd] = OpenFile(node, flags, p)
        self._after(fault)
        return fd

    def close(self, fd):
        f = self.fds.pop(fd, None)
        if f is None:
            if self.dead:
                return
            raise oserror(errno.EBADF)
        f.closed = True

    def read(self, fd, n):
        f = self._file(fd)
        if (f.flags & 3) == os.O_WRONLY:
            raise oserror(errno.EBADF)
        if f.node.kind == "d":
            raise oserror(errno.EISDIR)
        fault = self._call("read", f.path, False)
        if n < 0:
            n = len(f.node.data)
        out = bytes(f.node.data[f.pos:f.pos + n])
        if fault is not None:
            if fault["kind"] == "short_read" and len(out) > 1:
                self.fired.append("short_read")
                out = out[:1 + fault.get("arg", 0) % (len(out) - 1)]
        f.pos += len(out)
        return out

    def pread(self, fd, n, offset):
        f = self._file(fd)
        self._call("read", f.path, False)
        return bytes(f.node.data[offset:offset + n])

    def write(self, fd, data):
        if self.dead:
            raise SimCrash("process is dead")
        f = self._file(fd)
        if (f.flags & 3) == os.O_RDONLY:
            raise oserror(errno.EBADF)
        data = bytes(data)
        fault = self._call("write", f.path, True)
        if self.full:
            raise oserror(errno.ENOSPC, f.path)
        if fault is not None and fault["kind"] in ("short_write", "crash_torn"):
            if len(data) > 1:
                keep = 1 + fault.get("arg", 0) % (len(data) - 1)
                self._put(f, data[:keep])
                if fault["kind"] == "crash_torn":
                    self.crash("crash_torn")
                self.fired.append("short_write")
                return keep
        self._put(f, data)
        self._after(fault)
        return len(data)

    def _put(self, f, data):
        if f.flags & os.O_APPEND:
            f.pos = len(f.node.data)
        buf = f.node.data
        if f.pos > len(buf):
            buf.extend(b"\0" * (f.pos - len(buf)))
        buf[f.pos:f.pos + len(data)] = data
        f.pos += len(data)

    def lseek(self, fd, pos, how):
        f = self._file(fd)
        base = {0: 0, 1: f.pos, 2: len(f.node.data)}[how]
        if base + pos < 0:
            raise oserror(errno.EINVAL)
        f.pos = base + pos
        return f.pos

    def ftruncate(self, fd, length):
        f = self._file(fd)
        fault = self._call("truncate", f.path, True)
        buf = f.node.data
        if length < len(buf):
            del buf[length:]
        else:
            buf.extend(b"\0" * (length - len(buf)))
        self._after(fault)

    def fsync(self, fd):
        fault = self._call("fsync", self._file(fd).path, True)
        self._after(fault)

    fdatasync = fsync

    def isatty(self, fd):
        return False

    def pwrite(self, fd, data, offset):
        pos = self.lseek(fd, 0, 1)
        self.lseek(fd, offset, 0)
        try:
            return self.write(fd, data)
        finally:
            self.lseek(fd, pos, 0)

    def writev(self, fd, buffers):
        return self.write(fd, b"".join(buffers))

    def readv(self, fd, buffers):
        data = self.read(fd, sum(map(len, buffers)))
        rest = data
        for buffer in buffers:
            part, rest = rest[:len(buffer)], rest[len(buffer):]
            buffer[:len(part)] = part
        return len(data)

    def posix_fallocate(self, fd, offset, length):
        if self.fstat(fd).st_size < offset + length:
            self.ftruncate(fd, offset + length)

    def listxattr(self, path=None, *a, **k):
        return []

    def chown(self, path, *a, **k):
        self.stat(path)

    # --------------------------------------------------- harness-side access
    def peek(self, path):
        node = self.nodes.get(path)
        return None if node is None or node.kind != "f" else bytes(node.data)

    def poke(self, path, data):
        node = self.nodes.get(path)
        if node is None:
            self.nodes[path] = self._node("f", 0o644, data)
        else:
            node.data = bytearray(data)

    def drop(self, path):
        self.nodes.pop(path, None)

    def files(self, prefix=None):
        """{path: bytes} of the regular files, optionally below a prefix."""
        return {
            p: bytes(n.data) for p, n in self.nodes.items()
            if n.kind == "f" and (prefix is None or p.startswith(prefix))
        }


class _Entry:
    def __init__(self, fs, path, name):
        self._fs, self.path, self.name = fs, path, name

    def is_dir(self, *, follow_symlinks=True):
        return self._fs._get(self._fs.norm(self.path)).kind == "d"

    def is_file(self, *, follow_symlinks=True):
        return self._fs._get(self._fs.norm(self.path)).kind == "f"

    def is_junction(self):
        return False

    def is_symlink(self):
        return False

    def stat(self, *, follow_symlinks=True):
        return self._fs.stat(self.path)

    def inode(self):
        return self._fs.stat(self.path).st_ino

    def __fspath__(self):
        return self.path


class _Scan:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def close(self):
        return None


class SimRaw(io.RawIOBase):
    """The raw file object below Python's own buffering."""

    def __init__(self, fs, fd, readable, writable, appending, name, closefd=True):
        self._fs, self._fd = fs, fd
        self._r, self._w = readable, writable
        self._closefd = closefd
        self.name = name
        self.mode = "rb+" if readable and writable else ("wb" if writable else "rb")
        if appending:
            fs.lseek(fd, 0, 2)

    def fileno(self):
        return self._fd

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return True

    def isatty(self):
        return False

    def readinto(self, buffer):
        data = self._fs.read(self._fd, len(buffer))
        buffer[:len(data)] = data
        return len(data)

    def write(self, data):
        if self._fs.dead:
            # a dying process' late flush reaches nothing
            return len(data)
        return self._fs.write(self._fd, data)

    def seek(self, pos, how=0):
        return self._fs.lseek(self._fd, pos, how)

    def tell(self):
        return self._fs.lseek(self._fd, 0, 1)

    def truncate(self, size=None):
        size = self.tell() if size is None else size
        self._fs.ftruncate(self._fd, size)
        return size

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                if self._closefd:
                    self._fs.close(self._fd)


def sim_open(
    fs, file, mode="r", buffering=-1, encoding=None, errors=None,
    newline=None, closefd=True, opener=None,
):
    modes = set(mode)
    if modes - set("axrwb+tU") or len(mode) > len(modes):
        raise ValueError("invalid mode: %r" % mode)
    creating, reading = "x" in modes, "r" in modes
    writing, appending = "w" in modes, "a" in modes
    updating, text, binary = "+" in modes, "t" in modes, "b" in modes
    if text and binary:
        raise ValueError("can't have text and binary mode at once")
    if creating + reading + writing + appending != 1:
        raise ValueError("must have exactly one of create/read/write/append mode")
    if binary and encoding is not None:
        raise ValueError("binary mode doesn't take an encoding argument")
    flags = os.O_CLOEXEC
    if updating:
        flags |= os.O_RDWR
    else:
        flags |= os.O_RDONLY if reading else os.O_WRONLY
    if creating:
        flags |= os.O_CREAT | os.O_EXCL
    elif writing:
        flags |= os.O_CREAT | os.O_TRUNC
    elif appending:
        flags |= os.O_CREAT | os.O_APPEND
    if isinstance(file, int):
        fd = file
    elif opener is not None:
        fd = opener(file, flags)
    else:
        fd = fs.open(file, flags, 0o666)
    if fs._file(fd).node.kind == "d":
        fs.close(fd)
        raise oserror(errno.EISDIR, file)
    raw = SimRaw(
        fs, fd, reading or updating, not reading or updating, appending, file, closefd)
    if buffering == 0:
        if not binary:
            raise ValueError("can't have unbuffered text I/O")
        return raw
    size = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
    if updating:
        buffer = io.BufferedRandom(raw, size)
    elif reading:
        buffer = io.BufferedReader(raw, size)
    else:
        buffer = io.BufferedWriter(raw, size)
    if binary:
        return buffer
    out = io.TextIOWrapper(buffer, encoding, errors, newline, buffering == 1)
    out.mode = mode
    return out
