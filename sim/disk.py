"""The simulated disk.

``open`` (also ``io.open``), ``os.fsync``, ``os.replace``/``os.rename``, ``os.remove``/``os.unlink`` and
``os.truncate`` on paths below a disk's root come here; Python's real ``io`` stack (text encoding, buffering,
retry on close) runs on top of a raw file whose every write is a step of the simulation.  The bytes live in
real files below the run's scratch directory, so plain reads need no model.

What is modelled per path: the *live* content (what a process sees) and the *durable* content (what survives
a power failure for certain).  A power failure keeps the durable content plus an arbitrary prefix of what was
appended since, possibly with a tail of zero bytes; a process crash keeps everything handed to the operating
system.  A plan is a list of [op number, kind, arg]; op numbers count write-side calls (open for
writing, write, fsync, close) since ``arm``.
"""
import errno
import io
import os

from . import env


class SimCrash(BaseException):
    """The process died at this point."""
    simulated = True


class Raw(io.RawIOBase):
    def __init__(self, disk, path, mode):
        self.disk, self.path, self.mode = disk, path, mode
        flags = {"r": os.O_RDONLY, "w": os.O_WRONLY | os.O_CREAT | os.O_TRUNC, "a": os.O_WRONLY | os.O_CREAT | os.O_APPEND,
                 "x": os.O_WRONLY | os.O_CREAT | os.O_EXCL}[mode[0]]
        if "+" in mode:
            flags = flags & ~3 | os.O_RDWR
        self.fd = os.open(path, flags, 0o600)
        self.writes = mode[0] != "r" or "+" in mode
        self.epoch = disk.epoch
        self.name = path
        disk.fds[self.fd] = path

    def readable(self):
        return self.mode[0] == "r" or "+" in self.mode

    def writable(self):
        return self.writes

    def seekable(self):
        return True

    def fileno(self):
        return self.fd

    def isatty(self):
        return False

    def dead(self):
        return self.epoch != self.disk.epoch or self.disk.crashed

    def readinto(self, b):
        data = os.read(self.fd, len(b))
        b[:len(data)] = data
        return len(data)

    def seek(self, pos, whence=0):
        return os.lseek(self.fd, pos, whence)

    def tell(self):
        return os.lseek(self.fd, 0, 1)

    def truncate(self, size=None):
        if not self.dead():
            os.ftruncate(self.fd, self.tell() if size is None else size)

    def write(self, b):
        b = bytes(b)
        if self.dead():
            return len(b)
        return self.disk.write(self, b)

    def close(self):
        if not self.closed:
            try:
                if self.writes and not self.dead():
                    self.disk.step("close", self.path)
            finally:
                self.disk.fds.pop(self.fd, None)
                os.close(self.fd)
                super().close()


class Disk:
    """One machine's disk: the files below ``root``."""

    def __init__(self, root):
        self.root = os.path.realpath(root) + os.sep
        os.makedirs(self.root, exist_ok=True)
        self.durable = {}
        self.fds = {}
        self.epoch = 0
        self.crashed = False
        self.plan = {}
        self.n = 0
        self.fired = []
        self.full = False
        self.log = []

    # -- faults -----------------------------------------------------------------------------------
    def arm(self, plan):
        """plan: {op number: [kind, arg]}"""
        self.plan = {int(k): v for k, v in (plan or {}).items()}
        self.n = 0
        self.log = []

    def disarm(self):
        self.plan = {}
        self.full = False

    def step(self, what, path, data=b""):
        """One write-side system call; returns how many bytes are let through (None = all)."""
        self.n += 1
        self.log.append(what)
        f = self.plan.get(self.n)
        if f is None:
            if self.full and what == "write":
                raise OSError(errno.ENOSPC, "No space left on device", path)
            return None
        kind, arg = f
        self.fired.append((kind, what))
        if kind == "crash":
            if data:
                return ("crash", arg)
            self.crashed = True
            raise SimCrash()
        if kind == "enospc":
            if what == "write":
                self.full = True
                return arg
            if what == "open":
                raise OSError(errno.ENOSPC, "No space left on device", path)
            return None
        if kind == "eio":
            raise OSError(errno.EIO, "Input/output error", path)
        if kind == "short":
            return arg
        raise env.HarnessError(kind)

    def write(self, raw, b):
        k = self.step("write", raw.path, b)
        if k is None:
            return os.write(raw.fd, b)
        if isinstance(k, tuple):
            os.write(raw.fd, b[:int(len(b) * k[1])])
            self.crashed = True
            raise SimCrash()
        part = b[:max(0, min(len(b) - 1, int(len(b) * k)))]
        if part:
            return os.write(raw.fd, part)
        if self.full:
            raise OSError(errno.ENOSPC, "No space left on device", raw.path)
        return os.write(raw.fd, b)

    # -- durability -------------------------------------------------------------------------------
    def live(self, path):
        try:
            with env.REAL_OPEN(path, "rb") as fp:
                return fp.read()
        except FileNotFoundError:
            return None

    def sync(self, path):
        self.durable[path] = self.live(path)

    def sync_all(self):
        """Writeback has caught up."""
        for p in self.files():
            self.sync(p)

    def files(self):
        return sorted(os.path.join(d, f) for d, _, fs in os.walk(self.root) for f in fs)

    def restart(self, power, rng):
        """What the next process finds."""
        self.epoch += 1
        self.crashed = False
        self.disarm()
        if power:
            for p in self.files():
                live, dur = self.live(p), self.durable.get(p) or b""
                if live == dur:
                    continue
                if live.startswith(dur):
                    new = live[len(dur):]
                    keep = rng.choice([0, len(new), rng.randint(0, len(new))])
                    zeros = rng.randint(0, len(new) - keep) if rng.random() < .3 else 0
                    out = dur + new[:keep] + b"\0" * zeros
                else:
                    out = rng.choice([dur, live, live[:rng.randint(0, len(live))]])
                with env.REAL_OPEN(p, "wb") as fp:
                    fp.write(out)
                if out != live:
                    self.fired.append(("lost-write", "power"))
        self.sync_all()

    def mine(self, path):
        return os.path.realpath(path).startswith(self.root)


DISKS = []
_installed = False
_os = {}


def find(path):
    if not DISKS:
        return None
    try:
        path = os.fspath(path)
    except TypeError:
        return None
    if isinstance(path, bytes):
        path = os.fsdecode(path)
    for d in DISKS:
        if d.mine(path):
            return d
    return None


def _open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    d = None if isinstance(file, int) else find(file)
    if d is None:
        return env.REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
    path = os.path.realpath(os.fspath(file))
    if d.crashed:
        raise SimCrash()
    if mode[0] != "r" or "+" in mode:
        d.step("open", path)
    raw = Raw(d, path, mode.replace("b", "").replace("t", ""))
    if "b" in mode and buffering == 0:
        return raw
    if raw.writes and raw.readable():
        buf = io.BufferedRandom(raw)
    elif raw.writes:
        buf = io.BufferedWriter(raw)
    else:
        buf = io.BufferedReader(raw)
    if "b" in mode:
        return buf
    txt = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, buffering == 1)
    txt.mode = mode
    return txt


def install():
    global _installed
    env.OPEN_HOOK = _open
    if _installed:
        return
    _installed = True
    io.open = lambda file, *a, **kw: env.OPEN_HOOK(file, *a, **kw) if env.OPEN_HOOK else env.REAL_OPEN(file, *a, **kw)
    for name in ("fsync", "fdatasync", "replace", "rename", "remove", "unlink", "truncate"):
        _os[name] = getattr(os, name)

    def fsync(fd):
        n = fd if isinstance(fd, int) else fd.fileno()
        for d in DISKS:
            if n in d.fds:
                if d.crashed:
                    return
                d.step("fsync", d.fds[n])
                d.sync(d.fds[n])
                return
        return _os["fsync"](fd)

    os.fsync = os.fdatasync = fsync

    def renaming(name):
        def do(src, dst, **kw):
            d = find(dst)
            if d is None:
                return _os[name](src, dst, **kw)
            if d.crashed:
                return
            d.step("rename", dst)
            src, dst = os.path.realpath(src), os.path.realpath(dst)
            _os[name](src, dst, **kw)
            # metadata is ordered: after a power failure it is the old file or what is durable of the new
            if d.durable.get(src) is not None:
                d.durable[dst] = d.durable.pop(src)
        return do

    os.replace, os.rename = renaming("replace"), renaming("rename")

    def removing(name):
        def do(path, **kw):
            d = find(path)
            if d is not None:
                if d.crashed:
                    return
                d.step("remove", path)
                d.durable.pop(os.path.realpath(path), None)
            return _os[name](path, **kw)
        return do

    os.remove, os.unlink = removing("remove"), removing("unlink")

    def truncate(path, length):
        d = None if isinstance(path, int) else find(path)
        if d is not None:
            if d.crashed:
                return
            d.step("truncate", path)
        return _os["truncate"](path, length)

    os.truncate = truncate
