"""Seams: everything nondeterministic that trikit can meet is routed through here.

Imported before trikit.  Installs
  * replacements for threading.Lock/RLock created by trikit code (the simulator
    then knows who waits for what),
  * replacements for builtins.open/io.open (files below watched roots can fail),
  * sys.monitoring callbacks on every line and call of trikit code (points at
    which the simulator may switch threads or interrupt a call).
All of them are inert until a run arms them.
"""
import _thread
import builtins
import concurrent.futures.thread as _pool
import gc
import io
import os
import random
import sys
import threading
import types
import weakref

REPO = os.environ.get("SIM_REPO", "/repo")
PKG = os.path.join(os.path.realpath(REPO), "trikit") + os.sep
_real_alloc = _thread.allocate_lock
_real_Lock, _real_RLock = threading.Lock, threading.RLock


class SimDeadlock(BaseException):
    """A blocking acquire that nobody can ever satisfy."""


class SimAbort(BaseException):
    """The simulator gives up on this run (step limit)."""


class _State:
    sched = None          # active scheduler, or None outside scheduled phases
    hook = None           # callable(code, line, kind) for each event, or None
    workers = None        # Workers, or None


S = _State()


# --------------------------------------------------------------------- locks

def _from_trikit(depth):
    f = sys._getframe(depth)
    for _ in range(3):
        if f is None:
            return False
        if f.f_code.co_filename.startswith(PKG):
            return True
        if not f.f_code.co_filename.endswith("threading.py"):
            return False
        f = f.f_back
    return False


class SimLock:
    _re = False

    def __init__(self):
        self._owner = None
        self._count = 0

    def _me(self):
        return S.sched.cur if S.sched is not None else -1

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        if self._re and self._owner == me and self._count:
            self._count += 1
            return True
        while self._count:
            if not blocking:
                return False
            if S.sched is None:
                if timeout is not None and timeout >= 0:
                    return False
                raise SimDeadlock("acquire of a lock that is never released")
            if not S.sched.block(self, timeout):
                return False
        self._owner, self._count = me, 1
        return True

    def release(self):
        if not self._count:
            raise RuntimeError("release unlocked lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            if S.sched is not None:
                S.sched.wake(self)

    def locked(self):
        return bool(self._count)

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return bool(self._count) and self._owner == self._me()

    def _release_save(self):
        c, self._count = self._count, 1
        self.release()
        return c

    def _acquire_restore(self, c):
        self.acquire()
        self._count = c

    def _at_fork_reinit(self):
        self._owner, self._count = None, 0


class SimRLock(SimLock):
    _re = True


def _Lock():
    return SimLock() if _from_trikit(2) else _real_Lock()


def _RLock(*a, **k):
    return SimRLock() if _from_trikit(2) else _real_RLock(*a, **k)


# ------------------------------------------------------------ trikit's own threads

class Workers:
    """Decides which of the threads and pool jobs that trikit starts itself are late.

    A late one waits until another one has finished (or, if there is none, a moment)."""

    def __init__(self, seed):
        self.rng, self.n, self.done, self.held = random.Random(seed), 0, 0, 0
        self.cv = threading.Condition(_real_Lock())

    def number(self, x):
        self.n += 1
        x._sim_late = self.rng.random() < .5

    def gate(self, x):
        if getattr(x, "_sim_late", False):
            self.held += 1
            with self.cv:
                k = self.done
                self.cv.wait_for(lambda: self.done > k, .15)

    def finished(self):
        with self.cv:
            self.done += 1
            self.cv.notify_all()


def _late(cls, skip):
    init, run = cls.__init__, cls.run

    def sim_init(self, *a, **k):
        init(self, *a, **k)
        if S.workers is not None and not skip(self):
            S.workers.number(self)

    def sim_run(self):
        w = S.workers if hasattr(self, "_sim_late") else None
        if w is None:
            return run(self)
        w.gate(self)
        try:
            return run(self)
        finally:
            w.finished()
    cls.__init__, cls.run = sim_init, sim_run


def _not_trikits(th):
    """A worker of a pool (its jobs are delayed one by one) or a thread of the simulator."""
    m = getattr(getattr(th, "_target", None), "__module__", None) or ""
    return m.startswith(("sim.", "concurrent."))


# ---------------------------------------------------------------------- files

class FaultFS:
    """Fault decisions for files under watched roots.

    plan: list of {"op": "open"|"read"|"write"|"close", "at": k, "kind": ..., "n": ...};
    the k-th operation of that type (counted over the armed period) gets the fault.
    """
    def __init__(self):
        self.armed = False
        self.roots = ()
        self.plan = []
        self.counts = {}
        self.fired = []
        self.log = []
        self.live = []
        self.fds = {}                      # descriptors obtained through os.open

    def arm(self, roots, plan):
        self.roots = tuple(os.path.realpath(r) for r in roots)
        self.plan = list(plan)
        self.counts = {}
        self.fired = []
        self.log = []
        self.armed = True

    def disarm(self):
        self.armed = False

    def watched(self, path):
        if not self.armed or not isinstance(path, (str, bytes, os.PathLike)):
            return False
        p = os.fspath(path)
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.realpath(p)
        return any(p == r or p.startswith(r + os.sep) for r in self.roots)

    def next(self, op):
        if S.sched is not None and op != "close":
            S.sched.io_point()
        k = self.counts.get(op, 0)
        self.counts[op] = k + 1
        for f in self.plan:
            if f["op"] == op and (f["at"] == k or (f.get("sticky") and k >= f["at"])):
                self.fired.append(f["kind"])
                return f
        return None

    def open_handles(self, by_trikit=False):
        out = [r() for r in self.live]
        return [f.name for f in out if f is not None and not f.closed and (f.by_trikit or not by_trikit)] + \
            list(self.fds.values())


FS = FaultFS()


def _raise(kind):
    import errno
    if kind == "KeyboardInterrupt":
        raise KeyboardInterrupt
    if kind == "MemoryError":
        raise MemoryError
    no = getattr(errno, kind)
    raise OSError(no, os.strerror(no))


class SimRaw(io.RawIOBase):
    """A real file on the scratch disk whose operations can fail."""

    def __init__(self, path, mode, closefd=True, opener=None, name=None):
        self._f = io.FileIO(path, mode, closefd, opener)
        self.name = name or path
        self.mode = mode
        self.by_trikit = _from_trikit(3)   # opened by trikit itself, not by a library it called
        FS.live.append(weakref.ref(self))

    def readable(self):
        return self._f.readable()

    def writable(self):
        return self._f.writable()

    def seekable(self):
        return self._f.seekable()

    def seek(self, *a):
        return self._f.seek(*a)

    def tell(self):
        return self._f.tell()

    def truncate(self, *a):
        return self._f.truncate(*a)

    def fileno(self):
        # No descriptor: every byte has to pass through the simulator.
        raise io.UnsupportedOperation("fileno")

    def isatty(self):
        return False

    def readinto(self, b):
        f = FS.next("read") if FS.armed else None
        n = len(b)
        if f:
            if f["kind"] == "short":
                n = max(1, min(n, int(f["n"])))
            elif f["kind"] == "EINTR":
                raise InterruptedError(4, "Interrupted system call")
            else:
                _raise(f["kind"])
        data = self._f.read(n)
        b[:len(data)] = data
        FS.log.append(("read", len(data)))
        return len(data)

    def write(self, b):
        b = bytes(b)
        f = FS.next("write") if FS.armed else None
        n = len(b)
        if f:
            if f["kind"] == "short":
                n = max(1, min(n, int(f["n"])))
            elif f["kind"] == "EINTR":
                raise InterruptedError(4, "Interrupted system call")
            elif f["kind"] == "torn":
                self._f.write(b[:max(0, min(n - 1, int(f["n"])))])
                _raise("ENOSPC")
            else:
                _raise(f["kind"])
        self._f.write(b[:n])
        FS.log.append(("write", n))
        return n

    def close(self):
        if self.closed:
            return
        f = FS.next("close") if FS.armed else None
        try:
            super().close()
        finally:
            self._f.close()
        if f:
            _raise(f["kind"])


_real_open = io.open
_os = {k: getattr(os, k) for k in ("open", "read", "write", "close", "replace", "rename")}


def _open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
          closefd=True, opener=None):
    fd = type(file) is int and file in FS.fds
    if not fd and not FS.watched(file):
        return _real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    f = FS.next("open") if FS.armed and not fd else None
    if f:
        _raise(f["kind"])
    FS.log.append(("open", mode))
    path = file if fd else os.fspath(file)
    base = mode.replace("t", "").replace("b", "").replace("U", "")
    raw = SimRaw(path, base, closefd, opener, FS.fds[file] if fd else None)
    if fd and closefd:
        FS.fds.pop(file)
    try:
        size = buffering if buffering > 1 else FS_BUFFER[0]
        if "b" in mode and buffering == 0:
            return raw
        if "+" in base:
            buf = io.BufferedRandom(raw, size)
        elif "r" in base:
            buf = io.BufferedReader(raw, size)
        else:
            buf = io.BufferedWriter(raw, size)
        if "b" in mode:
            return buf
        txt = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
        txt.mode = mode
        return txt
    except BaseException:
        raw.close()
        raise


def _os_open(path, flags, mode=0o777, *, dir_fd=None):
    if dir_fd is not None or not FS.watched(path):
        return _os["open"](path, flags, mode, dir_fd=dir_fd)
    f = FS.next("open")
    if f:
        _raise(f["kind"])
    fd = _os["open"](path, flags, mode)
    FS.fds[fd] = os.fspath(path)
    return fd


def _os_write(fd, data):
    if fd not in FS.fds or not FS.armed:
        return _os["write"](fd, data)
    f, b = FS.next("write"), bytes(data)
    n = len(b)
    if f and f["kind"] == "short":
        n = max(1, min(n, int(f["n"])))
    elif f and f["kind"] == "torn":
        _os["write"](fd, b[:max(0, min(n - 1, int(f["n"])))])
        _raise("ENOSPC")
    elif f and f["kind"] != "EINTR":
        _raise(f["kind"])
    return _os["write"](fd, b[:n])


def _os_read(fd, n):
    if fd not in FS.fds or not FS.armed:
        return _os["read"](fd, n)
    f = FS.next("read")
    if f and f["kind"] == "short":
        n = max(1, min(n, int(f["n"])))
    elif f and f["kind"] != "EINTR":
        _raise(f["kind"])
    return _os["read"](fd, n)


def _os_close(fd):
    known = fd in FS.fds
    _os["close"](fd)
    if known:
        FS.fds.pop(fd, None)
        f = FS.next("close") if FS.armed else None
        if f:
            _raise(f["kind"])


def _mover(name):
    def move(src, dst, *, src_dir_fd=None, dst_dir_fd=None):
        if src_dir_fd is None and dst_dir_fd is None and FS.watched(dst):
            f = FS.next("rename")
            if f:
                _raise(f["kind"])
        return _os[name](src, dst, src_dir_fd=src_dir_fd, dst_dir_fd=dst_dir_fd)
    return move


FS_BUFFER = [8192]


# ----------------------------------------------------------------- monitoring

_TOOL = 4
_EV = sys.monitoring.events


def _on_line(code, line):
    h = S.hook
    if h is not None:
        h(code, line, 0)


def _on_call(code, offset, func, arg0):
    h = S.hook
    if h is not None:
        h(code, offset, 1, func)


def _on_instr(code, offset):
    h = S.hook
    if h is not None:
        h(code, offset, 2)


def _walk(code, out):
    if code in out:
        return
    out.add(code)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            _walk(c, out)


def trikit_code():
    out = set()
    for o in gc.get_objects():
        if isinstance(o, types.FunctionType) and o.__code__.co_filename.startswith(PKG) \
                and "/tests/" not in o.__code__.co_filename:
            _walk(o.__code__, out)
    return out


def install():
    threading.Lock, threading.RLock = _Lock, _RLock
    builtins.open = _open
    _late(threading.Thread, _not_trikits)
    _late(_pool._WorkItem, lambda x: False)
    io.open = _open
    os.open, os.read, os.write, os.close = _os_open, _os_read, _os_write, _os_close
    os.replace, os.rename = _mover("replace"), _mover("rename")


def watch_code():
    """Call after trikit is imported; returns the number of code objects."""
    global CODES
    if sys.monitoring.get_tool(_TOOL) is None:
        sys.monitoring.use_tool_id(_TOOL, "trikit-sim")
    sys.monitoring.register_callback(_TOOL, _EV.LINE, _on_line)
    sys.monitoring.register_callback(_TOOL, _EV.CALL, _on_call)
    sys.monitoring.register_callback(_TOOL, _EV.INSTRUCTION, _on_instr)
    CODES = sorted(trikit_code(), key=lambda c: (c.co_filename, c.co_firstlineno, c.co_name))
    set_fine(False)
    return len(CODES)


CODES = []


def set_fine(fine):
    ev = _EV.LINE | _EV.CALL | (_EV.INSTRUCTION if fine else 0)
    for c in CODES:
        sys.monitoring.set_local_events(_TOOL, c, ev)
