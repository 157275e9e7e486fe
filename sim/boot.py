"""Process bootstrap: seams that must exist before the code under test is imported.

* every lock created through `threading` becomes a SimLock: inside a simulated
  schedule it blocks cooperatively (so the simulator owns who runs and can see
  deadlocks); outside of one it is an ordinary lock;
* no byte code is written into /repo;
* the package is imported from REPO's working tree.
"""
import sys
import os

sys.dont_write_bytecode = True
REPO = os.environ.get("L2J_REPO", "/repo")
PKG = os.path.join(os.path.realpath(REPO), "latex2json") + os.sep

import _thread
import threading

CURRENT_SCHED = [None]  # the active Scheduler, if any


class SimLock:
    """threading.Lock replacement (non reentrant)."""
    _reentrant = False

    def __init__(self):
        self._real = _thread.allocate_lock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        s = CURRENT_SCHED[0]
        me = _thread.get_ident()
        if s is None or not s.owns(me):
            if self._reentrant and self._owner == me:
                self._count += 1
                return True
            ok = self._real.acquire(blocking, timeout)
            if ok:
                self._owner = me
                self._count = 1
            return ok
        s.yield_point("lock")
        while True:
            if self._reentrant and self._owner == me:
                self._count += 1
                return True
            if self._real.acquire(False):
                self._owner = me
                self._count = 1
                return True
            if not blocking or (timeout is not None and timeout >= 0):
                return False
            s.block_on(self)

    def release(self):
        if self._reentrant:
            if self._owner != _thread.get_ident():
                raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if self._count <= 0:
            self._owner = None
            self._count = 0
            self._real.release()
            s = CURRENT_SCHED[0]
            if s is not None:
                s.unblocked(self)

    def locked(self):
        return self._real.locked()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._real = _thread.allocate_lock()
        self._owner = None
        self._count = 0


class SimRLock(SimLock):
    _reentrant = True

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        c = self._count
        self._count = 1
        self.release()
        return c

    def _acquire_restore(self, c):
        self.acquire()
        self._count = c


def install_locks():
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._allocate_lock = SimLock
    threading._RLock = SimRLock
    threading._CRLock = None
    import logging
    logging._lock = SimRLock()
    for ref in list(logging._handlerList):
        h = ref()
        if h is not None:
            h.createLock()


def import_target():
    sys.path[:] = [p for p in sys.path if os.path.realpath(p or ".") != os.path.realpath(REPO)]
    sys.path.insert(0, REPO)
    for m in ("chardet", "pydantic", "colorama", "json", "tempfile", "shutil", "tarfile", "zipfile", "gzip",
              "bz2", "lzma", "zlib", "traceback", "encodings.idna", "encodings.latin_1", "encodings.cp1252",
              "encodings.utf_8", "encodings.ascii", "decimal", "copy", "uuid", "linecache", "warnings"):
        try:
            __import__(m)
        except ImportError:
            pass
    import latex2json
    import latex2json.tex_reader
    import latex2json.parser.tex_preamble
    f = os.path.realpath(latex2json.__file__)
    if not f.startswith(PKG):
        raise RuntimeError("latex2json imported from %s, not from %s" % (f, PKG))
    return latex2json


def boot(quiet=True):
    install_locks()
    import_target()
    import logging
    root = logging.getLogger()
    for h in list(root.handlers):
        root.removeHandler(h)
    root.addHandler(logging.NullHandler())
    logging.raiseExceptions = False
    # chardet imports its model tables lazily; load them here, once
    import chardet
    chardet.detect("Gau\u00df caf\u00e9 Erd\u0151s \u4e2d\u6587 \u03a9mega na\u00efve".encode("utf-8"))
    chardet.detect(b"plain ascii text")
