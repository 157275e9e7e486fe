"""Fork-per-run execution, worker pool, minimisation, replay and evidence.

One *run* = one forked child of a booted interpreter: it starts from exactly
the same process image every time (package imported, nothing processed), so a
run is a pure function of (case, code).
"""
import hashlib
import json
import mmap
import os
import pickle
import select
import signal
import struct
import subprocess
import sys
import time
import traceback
import _thread

REAL_TIME = time.time
RMONO = time.monotonic
_real_read, _real_write, _real_close = os.read, os.write, os.close

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = os.path.join(VERIF, "sim")


class HarnessError(Exception):
    pass


def h64(*parts):
    return int.from_bytes(hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()[:8], "big")


# -------------------------------------------------------------- scratch
def scratch_base():
    for d in ("/dev/shm", "/tmp"):
        try:
            if os.access(d, os.W_OK):
                st = os.statvfs(d)
                if st.f_bavail * st.f_frsize > 512 << 20:
                    return d
        except OSError:
            pass
    return "/tmp"


class Scratch:
    def __init__(self):
        import tempfile
        self.base = tempfile.mkdtemp(prefix="l2jsim_", dir=scratch_base())
        os.chmod(self.base, 0o711)  # runs may give up their privileges
        self.n = 0

    def new(self):
        self.n += 1
        p = os.path.join(self.base, "%d_%d" % (os.getpid(), self.n))
        os.mkdir(p)
        return p

    def drop(self, p):
        rmtree(p)

    def close(self):
        rmtree(self.base)


def rmtree(p):
    """Remove a scratch tree (never follows links; tolerates odd modes)."""
    assert "/l2jsim_" in p, p
    try:
        names = os.listdir(p)
    except OSError:
        try:
            os.chmod(p, 0o700)
            names = os.listdir(p)
        except OSError:
            return
    for n in names:
        q = p + "/" + n
        try:
            if os.path.isdir(q) and not os.path.islink(q):
                rmtree(q)
            else:
                os.unlink(q)
        except OSError:
            pass
    try:
        os.rmdir(p)
    except OSError:
        pass


# ------------------------------------------------------------- children
STEPS = [0]
TOOL_B = 4
_emit = [None]


class Budget:
    """Deterministic work counter: function entries and loop back-edges of the
    package under test.  Exceeding the limit ends the run with a verdict."""

    def __init__(self, limit, pkg):
        self.n = 0
        self.limit = limit
        self.pkg = pkg
        mon = sys.monitoring
        self.mon = mon

        def cb(code, *a):
            if not code.co_filename.startswith(pkg):
                return mon.DISABLE
            self.n += 1
            if self.n > self.limit:
                self.overrun()
        mon.use_tool_id(TOOL_B, "l2jbudget")
        mon.register_callback(TOOL_B, mon.events.PY_START, cb)
        mon.register_callback(TOOL_B, mon.events.JUMP, cb)
        mon.set_events(TOOL_B, mon.events.PY_START | mon.events.JUMP)

    def overrun(self):
        self.mon.set_events(TOOL_B, 0)
        if _emit[0]:
            _emit[0]({"__budget__": self.n})


class Interrupter:
    """Raise `exc` at the n-th source line executed in the chosen modules."""
    TOOL = 5

    def __init__(self, at, pkg, subdirs, exc):
        mon = sys.monitoring
        self.mon = mon
        self.n = 0
        self.at = at
        self.exc = exc
        self.fired = None
        pre = tuple(pkg + s for s in subdirs)

        def cb(code, line):
            if not code.co_filename.startswith(pre):
                return mon.DISABLE
            self.n += 1
            if self.n == self.at:
                self.fired = "%s:%s" % (code.co_filename[len(pkg):], line)
                raise self.exc()
        mon.use_tool_id(self.TOOL, "l2jint")
        mon.register_callback(self.TOOL, mon.events.LINE, cb)
        mon.set_events(self.TOOL, mon.events.LINE)
        mon.restart_events()

    def stop(self):
        self.mon.set_events(self.TOOL, 0)
        self.mon.register_callback(self.TOOL, self.mon.events.LINE, None)
        self.mon.free_tool_id(self.TOOL)


def fork_call(fn, args, timeout=60.0, cpu_limit=None):
    """Run fn(*args) in a forked child; return its (picklable) result.

    Returns {"__hang__": ...} if the child stopped consuming CPU or consumed
    more than `cpu_limit` seconds of it, and raises HarnessError if it crashed
    or merely ran too long."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            _real_close(r)
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            signal.signal(signal.SIGTERM, signal.SIG_DFL)
            dn = os.open(os.devnull, os.O_RDWR)
            os.dup2(dn, 1)
            if not os.environ.get("L2J_DEBUG"):
                os.dup2(dn, 2)
            sys.stdout = open(os.devnull, "w")
            if not os.environ.get("L2J_DEBUG"):
                sys.stderr = open(os.devnull, "w")

            def emit(obj):
                data = pickle.dumps(obj)
                data = struct.pack("<Q", len(data)) + data
                mv = memoryview(data)
                while mv:
                    n = _real_write(w, mv[:1 << 16])
                    mv = mv[n:]
                os._exit(0)
            _emit[0] = emit
            try:
                res = fn(*args)
            except BaseException:
                res = {"__crash__": traceback.format_exc()}
            emit(res)
        except BaseException:
            code = 70
        finally:
            os._exit(code or 71)
    _real_close(w)
    buf = bytearray()
    t0 = RMONO()
    last_cpu, last_t = -1, t0
    hang = None
    try:
        while True:
            rl, _, _ = select.select([r], [], [], 1.0)
            if rl:
                c = _real_read(r, 1 << 20)
                if not c:
                    break
                buf += c
                continue
            now = RMONO()
            cpu = _cpu(pid)
            if cpu_limit and cpu > cpu_limit * _HZ and not buf:
                hang = "still computing after %d s of processor time" % cpu_limit
                break
            if cpu != last_cpu:
                last_cpu, last_t = cpu, now
            elif now - last_t > 20.0 and not buf:
                hang = "no progress: the run is blocked forever"
                break
            if now - t0 > timeout:
                hang = "timeout"
                break
    finally:
        _real_close(r)
        if hang:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
        _, st = os.waitpid(pid, 0)
    if hang == "timeout":
        raise HarnessError("run exceeded %.0f s of wall time" % timeout)
    if hang:
        return {"__hang__": hang}
    if len(buf) < 8:
        raise HarnessError("run child died (status %d)" % st)
    n = struct.unpack("<Q", bytes(buf[:8]))[0]
    res = pickle.loads(bytes(buf[8:8 + n]))
    if isinstance(res, dict) and "__crash__" in res:
        raise HarnessError("harness exception in run:\n" + res["__crash__"])
    return res


_HZ = os.sysconf("SC_CLK_TCK")


def _cpu(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            s = f.read().rsplit(")", 1)[1].split()
        return int(s[11]) + int(s[12])
    except (OSError, IndexError):
        return -1


# ------------------------------------------------------------- execution
class Ctx:
    """What a property's execute() gets: fork, scratch directories, reference
    cache and, for environment properties, foreign interpreters."""

    def __init__(self, scratch, tier):
        self.scratch = scratch
        self.tier = tier
        self.cache = {}
        self.interps = {}
        self.forks = 0
        self.timeout = 120.0
        self.cpu = None

    def fork(self, fn, *args, keep=False):
        """Run fn(root, *args) in a child with a fresh scratch world."""
        self.forks += 1
        root = self.scratch.new()
        try:
            return fork_call(fn, (root,) + args, self.timeout, self.cpu)
        finally:
            self.scratch.drop(root)

    def ref(self, key, fn, *args):
        """Memoised reference run."""
        k = hashlib.sha1(repr(key).encode("utf-8", "surrogateescape")).digest()
        if k not in self.cache:
            if len(self.cache) > 400:
                self.cache.clear()
            self.cache[k] = self.fork(fn, *args)
        return self.cache[k]

    def interp(self, name):
        if name not in self.interps:
            self.interps[name] = Interp(name)
        return self.interps[name]

    def close(self):
        for i in self.interps.values():
            i.close()


class Interp:
    """A separate interpreter with another environment (hash seed, locale, ...).
    Persistent; each call still forks a fresh child inside it."""

    def __init__(self, name):
        from props import ENVS
        spec = ENVS[name]
        env = {k: v for k, v in os.environ.items() if not (k.startswith("PYTHON") or k.startswith("LC_") or k in ("LANG", "TMPDIR"))}
        env.update(spec["env"])
        env["L2J_REPO"] = os.environ.get("L2J_REPO", "/repo")
        self.p = subprocess.Popen([sys.executable] + spec.get("args", []) + [os.path.join(SIM, "main.py"), "--serve"],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, env=env, cwd="/")

    def call(self, modname, fname, args, timeout=120.0):
        data = pickle.dumps((modname, fname, args, timeout))
        self.p.stdin.write(struct.pack("<Q", len(data)) + data)
        self.p.stdin.flush()
        hd = self.p.stdout.read(8)
        if len(hd) < 8:
            raise HarnessError("interpreter server died")
        res = pickle.loads(self.p.stdout.read(struct.unpack("<Q", hd)[0]))
        if isinstance(res, dict) and "__harness__" in res:
            raise HarnessError(res["__harness__"])
        return res

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()


def serve():
    import importlib
    inp, out = sys.stdin.buffer, os.fdopen(os.dup(1), "wb")
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    while True:
        hd = inp.read(8)
        if len(hd) < 8:
            return
        modname, fname, args, timeout = pickle.loads(inp.read(struct.unpack("<Q", hd)[0]))
        try:
            fn = getattr(importlib.import_module(modname), fname)
            res = fork_call(fn, args, timeout)
        except Exception:
            res = {"__harness__": traceback.format_exc()}
        data = pickle.dumps(res)
        out.write(struct.pack("<Q", len(data)) + data)
        out.flush()


# ------------------------------------------------------------------ pool
def _send(fd, obj):
    data = pickle.dumps(obj)
    data = struct.pack("<Q", len(data)) + data
    mv = memoryview(data)
    while mv:
        n = _real_write(fd, mv)
        mv = mv[n:]


def run_pool(prop, seed, tier, indices, deadline, nworkers, keep_going=False):
    """Run cases in parallel; returns (results {i: verdict}, errors)."""
    shared = mmap.mmap(-1, 8)
    shared[:8] = struct.pack("<q", 1 << 60)
    pipes, pids = {}, []
    scratch = Scratch()
    nxt = mmap.mmap(-1, 8)
    for k in range(nworkers):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                _real_close(r)
                for f in pipes:
                    _real_close(f)
                ctx = Ctx(scratch, tier)
                scratch.n = 0
                for i in indices[k::nworkers]:
                    if RMONO() > deadline:
                        break
                    if not keep_going and i > struct.unpack("<q", shared[:8])[0]:
                        break
                    try:
                        case = prop.gen(h64(prop.ID, seed, i), tier, i)
                        v = prop.execute(case, ctx)
                    except HarnessError as e:
                        _send(w, (i, None, str(e)))
                        continue
                    except Exception:
                        _send(w, (i, None, traceback.format_exc()))
                        continue
                    if v["viol"]:
                        cur = struct.unpack("<q", shared[:8])[0]
                        if i < cur:
                            shared[:8] = struct.pack("<q", i)
                    else:
                        v.pop("case", None)
                    _send(w, (i, v, None))
                ctx.close()
            except BaseException:
                code = 1
            os._exit(code)
        _real_close(w)
        pipes[r] = bytearray()
        pids.append(pid)
    results, errors = {}, []
    try:
        while pipes:
            rl, _, _ = select.select(list(pipes), [], [], 1.0)
            for r in rl:
                c = _real_read(r, 1 << 20)
                if not c:
                    _real_close(r)
                    del pipes[r]
                    continue
                b = pipes[r]
                b += c
                while len(b) >= 8:
                    n = struct.unpack("<Q", bytes(b[:8]))[0]
                    if len(b) < 8 + n:
                        break
                    i, v, err = pickle.loads(bytes(b[8:8 + n]))
                    del b[:8 + n]
                    if err:
                        errors.append((i, err))
                    else:
                        results[i] = v
    finally:
        for p in pids:
            try:
                os.waitpid(p, 0)
            except ChildProcessError:
                pass
        scratch.close()
    return results, errors


def run_one(prop, case, tier, ctx=None):
    own = ctx is None
    if own:
        ctx = Ctx(Scratch(), tier)
    try:
        return prop.execute(case, ctx)
    finally:
        if own:
            ctx.close()
            ctx.scratch.close()


# ------------------------------------------------------------- minimise
def minimise(prop, case, viol, tier, max_runs=250, wall=120.0):
    """Greedy shrink while the same violation class persists."""
    scratch = Scratch()
    ctx = Ctx(scratch, tier)
    t0 = RMONO()
    runs = 0
    cls = viol[0]["class"]
    try:
        improved = True
        while improved and runs < max_runs and RMONO() - t0 < wall:
            improved = False
            for cand in prop.shrinks(case):
                runs += 1
                if runs > max_runs or RMONO() - t0 > wall:
                    break
                try:
                    v = prop.execute(cand, ctx)
                except Exception:
                    continue
                vs = [x for x in v["viol"] if x["class"] == cls]
                if vs:
                    case = v.get("case") or cand
                    viol = vs
                    improved = True
                    break
    finally:
        ctx.close()
        scratch.close()
    return case, viol, runs


def shrink_list(xs):
    """ddmin-style: drop halves, quarters, ..., single elements."""
    n = len(xs)
    size = n // 2
    while size >= 1:
        for a in range(0, n, size):
            yield xs[:a] + xs[a + size:]
        size //= 2


def shrink_text(t):
    """Drop paragraphs / lines of a document, keeping its frame."""
    if not isinstance(t, str):
        return
    paras = t.split("\n\n")
    if len(paras) > 1:
        for ps in shrink_list(paras):
            yield "\n\n".join(ps)
    lines = t.split("\n")
    if 1 < len(lines) <= 60:
        for ls in shrink_list(lines):
            yield "\n".join(ls)
