"""The simulated file-system boundary, clock and entropy.

Everything the code under test does to the outside world goes through `os.*`
and `open`.  Those entry points are replaced by wrappers which, for paths below
the run's private scratch directory,

  * number and record the call as an event (op, path, n-th occurrence),
  * yield to the thread scheduler, advance the simulated clock,
  * consult the run's fault plan and, if a fault is due, make the call fail,
    come back short, tear, vanish, or be interrupted.

Directory listing order, temporary names, the clock and os.urandom are
functions of the run's seed.  The bytes themselves live in a real scratch
directory (private to the run) so that tarfile/zipfile/gzip/shutil run their
real code.  A `sys.addaudithook` hook is the safety net: it sees *every* file
operation of the interpreter, blocks mutations outside the scratch directory
and reports them.
"""
import builtins
import errno
import io
import os
import random
import stat as _stat
import sys
import tempfile
import time
import _thread

from boot import CURRENT_SCHED

REAL = {n: getattr(os, n) for n in (
    "stat lstat access listdir scandir open mkdir rmdir unlink remove rename replace link symlink readlink "
    "chmod chown lchown utime truncate mknod mkfifo write read fsync close urandom getcwd").split()}
REAL_OPEN = io.open
RealFileIO = io.FileIO

# fault kinds that make sense per operation
ERRNO = {
    "ENOENT": errno.ENOENT, "EACCES": errno.EACCES, "EIO": errno.EIO, "EMFILE": errno.EMFILE,
    "ENOSPC": errno.ENOSPC, "EROFS": errno.EROFS, "EDQUOT": errno.EDQUOT, "EBUSY": errno.EBUSY, "ESTALE": errno.ESTALE,
    "ENOMEM": errno.ENOMEM, "EINVAL": errno.EINVAL,
}
FAULTS = {
    "stat": ["ENOENT", "EACCES", "EIO"],
    "lstat": ["EACCES", "EIO"],
    "access": ["EACCES"],
    "open_r": ["ENOENT", "EACCES", "EIO", "EMFILE", "ESTALE"],
    "open_w": ["EACCES", "ENOSPC", "EROFS", "EMFILE"],
    "read": ["EIO", "ESTALE", "short"],
    "write": ["ENOSPC", "EIO", "torn", "short"],
    "close_w": ["EIO", "EDQUOT"],
    "listdir": ["EACCES", "EIO", "EMFILE"],
    "mkdir": ["EACCES", "ENOSPC", "EROFS"],
    "rmdir": ["EACCES", "EIO", "EBUSY"],
    "unlink": ["EACCES", "EIO", "EBUSY"],
    "rename": ["EACCES", "EIO", "ENOSPC"],
    "link": ["EACCES", "ENOSPC"],
    "symlink": ["EACCES", "ENOSPC"],
    "chmod": ["EACCES", "EROFS"],
    "utime": ["EACCES", "EROFS"],
    "fsync": ["EIO", "ENOSPC"],
    "opendir": ["EACCES", "EMFILE"],
    "readlink": ["EACCES"],
}
BENIGN = {"short"}


class SimBlocked(BaseException):
    """The code under test would block forever (e.g. FIFO without a writer)."""


class World:
    def __init__(self, root, seed=0, order="sorted", plan=None, max_events=400000):
        self.root = os.path.realpath(root)
        self.pfx = self.root + os.sep
        self.seed = seed
        self.order = order
        self.r = random.Random("world/%s" % (seed,))
        self.active = False
        self.n = 0
        self.trace = []
        self.counts = {}
        self.pcounts = {}
        self.plan = {}
        self.fired = []
        self.set_plan(plan or [])
        self.clock = 1_700_000_000.0
        self.clock0 = self.clock
        self.raws = []
        self.escapes = []
        self.reads_outside = []
        self.fdpath = {}
        self.max_events = max_events
        self.blocked = None
        self.listings = 0
        self.mutations = []
        self.watch_mut = False
        self.open_dir_fd = None

    # --------------------------------------------------------------- plan
    def set_plan(self, plan):
        """plan: list of {"op","path","nth","kind"[,"arg"]}; nth 0 = every occurrence;
        op "*" = from the nth operation (of any sort) on that path onwards"""
        self.plan = {}
        self.always = {}
        self.sticky = {}
        for f in plan:
            k = (f["op"], f["path"])
            if f["op"] == "*":
                self.sticky[f["path"]] = f
            elif f.get("nth", 1) == 0:
                self.always[k] = f
            else:
                self.plan[k + (f.get("nth", 1),)] = f

    def reset_counts(self):
        self.counts = {}
        self.pcounts = {}
        self.trace = []

    # -------------------------------------------------------------- paths
    def rel(self, path, dir_fd=None):
        """Relative path if `path` lies in the world, else None."""
        if isinstance(path, int):
            try:
                p = REAL["readlink"]("/proc/self/fd/%d" % path)
            except OSError:
                return None
        else:
            try:
                p = os.fspath(path)
            except TypeError:
                return None
            if isinstance(p, bytes):
                p = os.fsdecode(p)
            if not p.startswith("/"):
                if dir_fd is not None:
                    try:
                        base = REAL["readlink"]("/proc/self/fd/%d" % dir_fd)
                    except OSError:
                        return None
                else:
                    try:
                        base = REAL["getcwd"]()
                    except OSError:
                        return None
                p = base + "/" + p
        p = os.path.normpath(p)
        if p == self.root:
            return "."
        if p.startswith(self.pfx):
            return p[len(self.pfx):]
        return None

    # -------------------------------------------------------------- event
    def event(self, op, rel):
        self.n += 1
        self.clock += 0.000113
        k = (op, rel)
        c = self.counts.get(k, 0) + 1
        self.counts[k] = c
        if len(self.trace) < 20000:
            self.trace.append((op, rel, c))
        s = CURRENT_SCHED[0]
        if s is not None:
            s.yield_point("fs")
        if self.n > self.max_events:
            self.blocked = "more than %d file-system events" % self.max_events
            raise SimBlocked(self.blocked)
        f = self.plan.get(k + (c,)) or self.always.get(k)
        if f is None and self.sticky:
            g = self.sticky.get(rel)
            if g is not None:
                self.pcounts[rel] = self.pcounts.get(rel, 0) + 1
                if self.pcounts[rel] >= g["nth"] and op != "close_w":
                    f = g
        if f is not None:
            self.fired.append((op, rel, c, f["kind"]))
            kind = f["kind"]
            if kind == "interrupt":
                raise KeyboardInterrupt()
            if kind == "memory":
                raise MemoryError()
            if kind in ERRNO:
                raise OSError(ERRNO[kind], os.strerror(ERRNO[kind]), rel)
            return f
        return None

    def sort_names(self, names, rel):
        names = sorted(names)
        if self.order == "sorted":
            return names
        if self.order == "reversed":
            return names[::-1]
        self.listings += 1
        random.Random("ls/%s/%s" % (self.order, ",".join(names))).shuffle(names)
        return names

    def open_handles(self):
        out = []
        for ref in self.raws:
            r = ref()
            if r is not None and not r.closed:
                out.append(r._rel)
        return out


W = [None]


def world():
    w = W[0]
    return w if (w is not None and w.active) else None


# ------------------------------------------------------------------ os.*
def _wrap(name, op, pathargs=(0,)):
    orig = REAL[name]

    def w(*a, **k):
        wd = world()
        if wd is None or not a:
            return orig(*a, **k)
        rel = wd.rel(a[0], k.get("dir_fd"))
        if rel is None and len(pathargs) > 1 and len(a) > 1:
            rel = wd.rel(a[1])
        if rel is None:
            return orig(*a, **k)
        wd.event(op, rel)
        return orig(*a, **k)
    w.__name__ = name
    return w


def _symlink(src, dst, target_is_directory=False, *, dir_fd=None):
    wd = world()
    if wd is not None:
        rel = wd.rel(dst, dir_fd)
        if rel is not None:
            wd.event("symlink", rel)
    return REAL["symlink"](src, dst, target_is_directory, dir_fd=dir_fd)


def _listdir(path="."):
    wd = world()
    if wd is None:
        return REAL["listdir"](path)
    rel = wd.rel(path)
    if rel is None:
        return REAL["listdir"](path)
    wd.event("listdir", rel)
    return wd.sort_names(REAL["listdir"](path), rel)


class _Scan:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self._it = iter(())


def _scandir(path="."):
    wd = world()
    if wd is None:
        return REAL["scandir"](path)
    rel = wd.rel(path)
    if rel is None:
        return REAL["scandir"](path)
    wd.event("listdir", rel)
    with REAL["scandir"](path) as it:
        by = {os.fsdecode(e.name): e for e in it}
    return _Scan([by[n] for n in wd.sort_names(by, rel)])


def _os_open(path, flags, mode=0o777, *, dir_fd=None):
    wd = world()
    if wd is None:
        return REAL["open"](path, flags, mode, dir_fd=dir_fd)
    rel = wd.rel(path, dir_fd)
    if rel is None:
        return REAL["open"](path, flags, mode, dir_fd=dir_fd)
    if flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT):
        op = "open_w"
    else:
        op = "open_r"
        try:
            if _stat.S_ISDIR(REAL["stat"](path, dir_fd=dir_fd).st_mode):
                op = "opendir"
        except OSError:
            pass
    wd.event(op, rel)
    wd.open_dir_fd = dir_fd  # the audit event of open() does not carry it
    try:
        fd = REAL["open"](path, flags, mode, dir_fd=dir_fd)
    finally:
        wd.open_dir_fd = None
    wd.fdpath[fd] = rel
    return fd


def _os_write(fd, data):
    wd = world()
    if wd is None or fd not in wd.fdpath:
        return REAL["write"](fd, data)
    f = wd.event("write", wd.fdpath[fd])
    return _do_write(f, lambda b: REAL["write"](fd, b), data, wd.fdpath[fd])


def _os_read(fd, n):
    wd = world()
    if wd is None or fd not in wd.fdpath:
        return REAL["read"](fd, n)
    f = wd.event("read", wd.fdpath[fd])
    if f and f["kind"] == "short":
        n = max(1, min(n, f.get("arg", 1)))
    return REAL["read"](fd, n)


def _os_close(fd):
    wd = world()
    if wd is not None:
        wd.fdpath.pop(fd, None)
    return REAL["close"](fd)


def _os_fsync(fd):
    wd = world()
    if wd is not None:
        rel = wd.rel(fd if isinstance(fd, int) else fd.fileno())
        if rel is not None:
            wd.event("fsync", rel)
    return REAL["fsync"](fd)


def _do_write(f, raw_write, b, rel):
    if f is not None:
        b = bytes(b)
        if f["kind"] == "short" and len(b) > 1:
            return raw_write(b[:max(1, min(len(b) - 1, f.get("arg", len(b) // 2)))])
        if f["kind"] == "torn":
            if b:
                raw_write(b[:min(len(b), f.get("arg", len(b) // 2))])
            raise OSError(errno.ENOSPC, os.strerror(errno.ENOSPC), rel)
    return raw_write(b)


# --------------------------------------------------------------- open()
class SimRaw(RealFileIO):
    """A raw file whose reads, writes and close are simulator events."""

    def _setup(self, wd, rel, writing):
        import weakref
        self._wd = wd
        self._rel = rel
        self._w = writing
        wd.raws.append(weakref.ref(self))

    def readinto(self, b):
        f = self._wd.event("read", self._rel) if self._wd.active else None
        if f and f["kind"] == "short" and len(b) > 1:
            mv = memoryview(b)[:max(1, min(len(b), f.get("arg", 1)))]
            return super().readinto(mv)
        return super().readinto(b)

    def read(self, n=-1):
        if n is None or n < 0:
            return self.readall()
        f = self._wd.event("read", self._rel) if self._wd.active else None
        if f and f["kind"] == "short" and n > 1:
            n = max(1, min(n, f.get("arg", 1)))
        return super().read(n)

    def readall(self):
        out = []
        n = 65536
        while True:
            c = self.read(n)
            if not c:
                break
            out.append(c)
        return b"".join(out)

    def write(self, b):
        f = self._wd.event("write", self._rel) if self._wd.active else None
        return _do_write(f, super().write, b, self._rel)

    def close(self):
        if self.closed:
            return
        err = None
        if self._w and self._wd.active:
            try:
                self._wd.event("close_w", self._rel)
            except BaseException as e:  # the descriptor is gone in any case
                err = e
        super().close()
        if err is not None:
            raise err


def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    wd = world()
    if wd is None or isinstance(mode, str) is False:
        return REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
    rel = wd.rel(file)
    if rel is None or rel.endswith(" (deleted)"):
        return REAL_OPEN(file, mode, buffering, encoding, errors, newline, closefd, opener)
    binary = "b" in mode
    raw_mode = mode.replace("b", "").replace("t", "")
    writing = any(c in raw_mode for c in "wax+")
    given = isinstance(file, int)  # a descriptor (os.fdopen): opening it was an event of its own
    if not given:
        if opener is None:
            wd.event("open_w" if writing else "open_r", rel)
        try:
            st = REAL["stat"](file)
            if _stat.S_ISFIFO(st.st_mode):
                wd.blocked = "open() of FIFO %s would block forever" % rel
                raise SimBlocked(wd.blocked)
        except OSError:
            pass
    if binary and encoding is not None:
        raise ValueError("binary mode doesn't take an encoding argument")
    if given:
        raw = SimRaw(file, raw_mode, closefd)
    elif opener is not None:  # tempfile's file objects
        raw = SimRaw(file, raw_mode, True, opener)
        rel = wd.rel(raw.fileno()) or rel
        if rel.endswith(" (deleted)"):  # an anonymous file
            rel = os.path.dirname(rel) + "/(anonymous)"
    else:
        raw = SimRaw(file, raw_mode)
    raw._setup(wd, rel, writing)
    try:
        if buffering == 0:
            if not binary:
                raise ValueError("can't have unbuffered text I/O")
            return raw
        bs = io.DEFAULT_BUFFER_SIZE if buffering < 2 else buffering
        if "+" in raw_mode:
            buf = io.BufferedRandom(raw, bs)
        elif writing:
            buf = io.BufferedWriter(raw, bs)
        else:
            buf = io.BufferedReader(raw, bs)
        if binary:
            return buf
        text = io.TextIOWrapper(buf, io.text_encoding(encoding), errors, newline, buffering == 1)
        text.mode = mode
        return text
    except BaseException:
        raw.close()
        raise


# ------------------------------------------------------- clock, entropy
class SimNames:
    """Deterministic replacement of tempfile's random name sequence.  Names may
    repeat (`dup` > 0): callers must cope with collisions, as mkdtemp does."""

    def __init__(self, seed, dup=0):
        self.r = random.Random("names/%s" % (seed,))
        self.last = "aaaaaaaa"
        self.dup = dup

    def __iter__(self):
        return self

    def __next__(self):
        if self.dup and self.r.random() < self.dup:
            return self.last
        self.last = "".join(self.r.choices("abcdefghijklmnopqrstuvwxyz0123456789_", k=8))
        return self.last


# ----------------------------------------------------------- audit hook
MUT = {"os.mkdir": (0, 2), "os.rmdir": (0, 1), "os.remove": (0, 1), "os.rename": (1, 3), "os.chmod": (0, 2),
       "os.chown": (0, 3), "os.utime": (0, 3), "os.truncate": (0, None), "os.symlink": (1, 2), "os.link": (1, 3),
       "os.setxattr": (0, None), "os.removexattr": (0, None)}


def _abs(path, dir_fd=None):
    if isinstance(path, int):
        try:
            return REAL["readlink"]("/proc/self/fd/%d" % path)
        except OSError:
            return None
    p = os.fspath(path)
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if not p.startswith("/"):
        if isinstance(dir_fd, int) and dir_fd >= 0:
            try:
                base = REAL["readlink"]("/proc/self/fd/%d" % dir_fd)
            except OSError:
                return None
        else:
            base = REAL["getcwd"]()
        p = base + "/" + p
    return p


def _real_target(p, follow=True):
    """Resolve symlinks with the real calls (never the simulated ones)."""
    d, b = os.path.split(p.rstrip("/") or "/")
    seen = 0
    cur = "/"
    parts = [x for x in d.split("/") if x] + ([b] if b else [])
    i = 0
    while i < len(parts):
        c = parts[i]
        if c == ".":
            i += 1
            continue
        if c == "..":
            cur = os.path.dirname(cur)
            i += 1
            continue
        nxt = cur.rstrip("/") + "/" + c
        last = i == len(parts) - 1
        if not last or follow:
            try:
                t = REAL["readlink"](nxt)
                seen += 1
                if seen > 40:
                    return nxt
                tp = [x for x in t.split("/") if x]
                if t.startswith("/"):
                    cur = "/"
                parts = parts[:i] + tp + parts[i + 1:]
                parts = parts[i:]
                i = 0
                continue
            except OSError:
                pass
        cur = nxt
        i += 1
    return cur


_in_hook = [False]


def audit(event, args):
    wd = W[0]
    if wd is None or not wd.active or _in_hook[0]:
        return
    if event == "open":
        path, mode, flags = args
        if path is None or isinstance(path, int):
            return
        _in_hook[0] = True
        try:
            wr = isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)
            p = _abs(path, wd.open_dir_fd)
            if p is None:
                return
            if wr:
                t = _real_target(p)
                if t.startswith("/dev/null") or t.startswith(wd.pfx):
                    if wd.watch_mut:
                        wd.mutations.append(("open_w", t))
                    return
                wd.escapes.append(("open_w", t))
                raise PermissionError(errno.EACCES, "blocked by simulator", t)
            elif wd.watch_mut and p.startswith(wd.pfx):
                t = _real_target(p)
                wd.mutations.append(("open_r", t))
        finally:
            _in_hook[0] = False
        return
    m = MUT.get(event)
    if m is None:
        if event in ("os.system", "subprocess.Popen", "os.exec", "os.posix_spawn", "socket.connect", "socket.bind"):
            wd.escapes.append((event, repr(args)[:200]))
            raise PermissionError(errno.EACCES, "blocked by simulator", event)
        return
    _in_hook[0] = True
    try:
        idx, fdidx = m
        dfd = args[fdidx] if fdidx is not None and len(args) > fdidx else None
        p = _abs(args[idx], dfd)
        if p is None:
            return
        follow = event not in ("os.rmdir", "os.remove", "os.rename", "os.symlink", "os.link", "os.mkdir")
        t = _real_target(p, follow)
        targets = [t]
        if event == "os.link" or event == "os.rename":
            q = _abs(args[0], args[2] if len(args) > 2 else None)
            if q is not None:
                targets.append(_real_target(q, event == "os.link"))
        for t in targets:
            if not (t.startswith(wd.pfx) or t == wd.root):
                wd.escapes.append((event, t))
                raise PermissionError(errno.EACCES, "blocked by simulator", t)
            if wd.watch_mut:
                wd.mutations.append((event, t))
    finally:
        _in_hook[0] = False


_installed = [False]


def install(clock=True):
    """Install the wrappers (in the forked child that performs the run)."""
    if _installed[0]:
        return
    _installed[0] = True
    for name, op in (("stat", "stat"), ("lstat", "lstat"), ("access", "access"), ("mkdir", "mkdir"),
                     ("rmdir", "rmdir"), ("unlink", "unlink"), ("remove", "unlink"), ("chmod", "chmod"),
                     ("chown", "chmod"), ("lchown", "chmod"), ("utime", "utime"), ("truncate", "open_w"),
                     ("mknod", "mknod"), ("mkfifo", "mknod"), ("readlink", "readlink")):
        setattr(os, name, _wrap(name, op))
    os.rename = _wrap("rename", "rename", (0, 1))
    os.replace = _wrap("replace", "rename", (0, 1))
    os.link = _wrap("link", "link", (0, 1))
    os.symlink = _symlink
    os.listdir = _listdir
    os.scandir = _scandir
    os.open = _os_open
    os.write = _os_write
    os.read = _os_read
    os.close = _os_close
    os.fsync = _os_fsync
    builtins.open = sim_open
    io.open = sim_open
    import tarfile
    tarfile.bltn_open = sim_open
    import shutil
    shutil._USE_CP_SENDFILE = False
    if clock:
        def now():
            wd = W[0]
            if wd is None:
                return 0.0
            wd.clock += 1e-7
            return wd.clock
        time.time = now
        time.monotonic = now
        time.perf_counter = now
        time.time_ns = lambda: int(now() * 1e9)
        time.monotonic_ns = time.time_ns
        time.perf_counter_ns = time.time_ns

        def nap(s):
            wd = W[0]
            if wd is not None:
                wd.clock += max(0.0, s)
            sc = CURRENT_SCHED[0]
            if sc is not None:
                sc.yield_point("sleep")
        time.sleep = nap
    sys.addaudithook(audit)


def enter(root, seed=0, order="sorted", plan=None, names_dup=0, tmp="tmp", **kw):
    """Create the world of this run and make it current (inactive)."""
    install()
    w = World(root, seed, order, plan, **kw)
    W[0] = w
    for d in ("in", "out", tmp):
        os.makedirs(os.path.join(w.root, d), exist_ok=True)
    tempfile.tempdir = os.path.join(w.root, tmp)
    os.environ["TMPDIR"] = tempfile.tempdir
    tempfile._name_sequence = SimNames(seed, names_dup)
    random.seed("global/%s" % (seed,))
    er = random.Random("entropy/%s" % (seed,))
    os.urandom = lambda n: er.randbytes(n)
    random._urandom = os.urandom
    return w


# ------------------------------------------------------ content helpers
def put(root, files):
    for rel, data in files.items():
        p = os.path.join(root, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if isinstance(data, str):
            data = data.encode("utf-8")
        with REAL_OPEN(p, "wb") as f:
            f.write(data)


def snapshot(root, mtime=True):
    """{relpath: (type, mode, size/hash, ...)} using the real calls only."""
    import hashlib
    out = {}
    root = os.path.realpath(root)

    def walk(d, rel):
        for name in sorted(REAL["listdir"](d)):
            p = d + "/" + name
            r = rel + name
            st = REAL["lstat"](p)
            typ = _stat.S_IFMT(st.st_mode)
            ent = [typ, _stat.S_IMODE(st.st_mode), st.st_nlink if typ != _stat.S_IFDIR else 0]
            if mtime and typ != _stat.S_IFDIR:
                ent.append(st.st_mtime_ns)
            if typ == _stat.S_IFREG:
                with REAL_OPEN(p, "rb") as f:
                    ent.append(hashlib.sha1(f.read()).hexdigest())
            elif typ == _stat.S_IFLNK:
                ent.append(REAL["readlink"](p))
            out[r] = tuple(ent)
            if typ == _stat.S_IFDIR:
                walk(p, r + "/")
    if os.path.isdir(root):
        walk(root, "")
    return out
