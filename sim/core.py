"""Scheduler, interruption points and process isolation."""
import _thread
import dis
import hashlib
import os
import pickle
import random
import select
import signal
import sys
import threading
import time
import traceback
import types

from . import seams, state
from .seams import S, SimAbort, SimDeadlock


class HarnessError(Exception):
    pass


class Violation(Exception):
    """What the oracle found.  `cls` is the class the shrinker preserves."""

    def __init__(self, cls, detail):
        super().__init__("%s: %s" % (cls, detail))
        self.cls, self.detail = cls, detail


def rng_for(*parts):
    h = hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


# ---------------------------------------------------------------- event points

_skip_cache = {}
_LOCKNAMES = {"acquire", "release", "__enter__", "__exit__"}


def _skips(code):
    """(offsets, lines) of code at which an interruption can't be delivered to
    CPython code: the way out of a with block and explicit lock handling."""
    got = _skip_cache.get(code)
    if got is None:
        offs, lines = set(), set()
        ins = list(dis.get_instructions(code))
        line, try_after = None, False
        for k, x in enumerate(ins):
            if x.starts_line is not None:
                line = x.starts_line
                if try_after:
                    lines.add(line)
                    try_after = x.opname == "NOP"
            if x.argval in ("acquire", "release") and "ATTR" in x.opname or \
                    x.argval in ("acquire", "release") and "METHOD" in x.opname:
                lines.add(line)
                try_after = try_after or x.argval == "acquire"
            if x.opname == "LOAD_CONST" and x.argval is None and k + 3 < len(ins) and \
                    all(y.opname == "LOAD_CONST" and y.argval is None for y in ins[k:k + 3]) and \
                    ins[k + 3].opname == "CALL":
                offs.update(y.offset for y in ins[k:k + 5])
        got = _skip_cache[code] = (offs, lines)
    return got


def interruptible(code, where, kind, func):
    offs, lines = _skips(code)
    if kind == 1:
        if where in offs:
            return False
        if getattr(func, "__name__", None) in _LOCKNAMES:
            return False
        return True
    if where in lines:
        return False
    # callback -> seams._on_line -> this; the frame below those is trikit's.
    f = sys._getframe(1)
    while f is not None and f.f_code is not code:
        f = f.f_back
    return f is None or f.f_lasti not in offs


def exc_of(kind):
    return {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError}[kind]


class OpInterrupt:
    """Counts the events of one call and raises at the chosen one."""

    def __init__(self, kind=None, at=None, record=None):
        self.kind, self.at, self.record = kind, at, record
        self.n = 0
        self.fired = None

    def event(self, code, where, kind, func):
        if kind == 2 or not interruptible(code, where, kind, func):
            return
        k = self.n
        self.n += 1
        if self.record is not None:
            self.record.event(code, where, kind, func)
        if self.at is not None and k == self.at:
            self.fired = (code.co_name, where, kind)
            raise exc_of(self.kind)("simulated") if self.kind == "MemoryError" else exc_of(self.kind)()


class Recorder:
    """Lists the events of a thread's calls, and those just after (and before) shared state changed."""

    def __init__(self, digest=None):
        self.rec, self.hot, self.digest = [], [], digest
        self.seen, self.last = {}, None

    def event(self, code, where, kind, func):
        key = (code.co_name, code.co_firstlineno, where, kind)
        if self.digest is not None:
            c = self.seen[key] = self.seen.get(key, 0) + 1
            if c < 3:
                d = self.digest()
                if self.last is not None and d != self.last[1]:
                    self.hot.append((self.last[0], len(self.rec)))
                self.last = (len(self.rec), d)
        self.rec.append(key)

    def pick(self, u, u2, before=False):
        """An event number: if state was watched, one next to a change of it; else any distinct line or call."""
        if self.digest is not None and self.hot:
            idx = sorted({x for h in self.hot for x in (h if before else h[1:])})
        else:
            idx = range(len(self.rec))
        occ = {}
        for k in idx:
            occ.setdefault(self.rec[k], []).append(k)
        if not occ:
            return None
        keys = sorted(occ)
        o = occ[keys[int(u * len(keys))]]
        return o[int(u2 * u2 * len(o))]


def resolve_interrupt(q, perform, roots):
    """Turn an interruption request into an event number."""
    if "at" not in q:
        def probe():
            rc = Recorder((lambda: state.digest(roots())) if q.get("hot") else None)
            it = OpInterrupt(record=rc)
            with solo(it):
                try:
                    perform(it)
                except BaseException:
                    pass
            at = rc.pick(q["u"], q["u2"])
            return 10 ** 9 if at is None else at
        q["at"] = in_child(probe, 60, "probe")
    return OpInterrupt(q["kind"], q["at"])


def resolve_targets(pol, n, alone, roots):
    """Turn requested pre-emptions into event numbers: every line and call a thread executes is as likely to be one,
    or every one next to a change of shared state.

    alone(t) performs the calls of thread t; it is run in a fork to see its events."""
    if pol["kind"] != "target" or "pts" in pol:
        return
    pol["pts"], recs = [], {}
    for t, u, u2 in pol.pop("want"):
        t %= n
        if t not in recs:
            def probe():
                r = Recorder((lambda: state.digest(roots())) if pol.get("hot") else None)
                with solo(r):
                    alone(t)
                r.digest = bool(r.digest) or None
                return r
            recs[t] = in_child(probe, 60, "probe")
        at = recs[t].pick(u, u2, True)
        if at is not None:
            pol["pts"].append([t, at])
    pol.setdefault("first", pol["pts"][0][0] if pol["pts"] else 0)


# ------------------------------------------------------------------- scheduler

class Scheduler:
    """Runs callables on real threads of which exactly one makes progress."""

    def __init__(self, policy, max_steps=400000):
        self.policy = policy
        self.max_steps = max_steps
        self.step = 0
        self.cur = None
        self.switches = []
        self.preempts = 0                  # switches in the middle of a call
        self.h = hashlib.blake2b(digest_size=8)
        self.dead = None
        self.rng = random.Random(policy.get("seed", 0))
        self.ids = {}
        self.waiting = {}
        self.interrupts = {}

    # thread state
    def run(self, funcs):
        n = len(funcs)
        self.n = n
        self.done = [False] * n
        self.gates = [_thread.allocate_lock() for _ in range(n)]
        for g in self.gates:
            g.acquire()
        self.fin = _thread.allocate_lock()
        self.fin.acquire()
        self._init_policy()
        order = list(range(n))
        self.rng.shuffle(order)
        kind = self.policy["kind"]
        first = self.policy["first"] if "first" in self.policy else order[0]
        if kind == "pct":
            first = max(range(n), key=lambda t: self.prio[t])
        self.first = first
        self.errors = [None] * n
        ths = [threading.Thread(target=self._main, args=(t, funcs[t]), daemon=True) for t in range(n)]
        S.sched = self
        for t in ths:
            t.start()
        S.hook = self.event
        self.cur = first
        self.gates[first].release()
        self.fin.acquire()
        S.hook = None
        S.sched = None
        for t in ths:
            t.join(10)
        for e in self.errors:
            if e is not None:
                raise e

    def _main(self, t, fn):
        self.ids[_thread.get_ident()] = t
        self.gates[t].acquire()
        try:
            if self.dead is None:
                fn()
        except (SimAbort, SimDeadlock):
            pass
        except BaseException as e:          # only harness code can get here
            self.errors[t] = e
        self.done[t] = True
        if self.dead is not None:
            self._abort_next()
            return
        nxt = self._runnable()
        if nxt:
            self._note(self._pick(nxt, forced=True))
        elif all(self.done):
            self.fin.release()
        else:
            self.dead = "deadlock"
            self._abort_next()

    def _abort_next(self):
        for u in range(self.n):
            if not self.done[u]:
                self.cur = u
                self.gates[u].release()
                return
        self.fin.release()

    def _runnable(self):
        return [u for u in range(self.n) if not self.done[u] and u not in self.waiting]

    def _note(self, t):
        if self.policy["kind"] != "list":
            self.switches.append([self.step, t])
        else:
            self.switches.append([self.step, t])
        self.cur = t
        self.gates[t].release()

    def _switch(self, me, t):
        self.preempts += 1
        self._note(t)
        self.gates[me].acquire()
        if self.dead is not None:
            raise SimAbort

    # policy
    def _init_policy(self):
        p = self.policy
        k = p["kind"]
        if k == "rand":
            self.next_at = self._gap()
        elif k == "pct":
            self.prio = list(range(1, self.n + 1))
            self.rng.shuffle(self.prio)
            self.points = sorted(self.rng.randrange(1, max(2, p["horizon"])) for _ in range(p["depth"]))
            self.low = 0
        elif k == "list":
            self.sched = {int(s): t for s, t in p["switches"]}
        elif k == "target":
            self.pts = {}
            for t, at in p["pts"]:
                self.pts.setdefault(t, set()).add(at)
            self.own = [0] * self.n

    def _gap(self):
        p = self.policy["p"]
        if p >= 1:
            return self.step + 1
        import math
        return self.step + 1 + int(math.log(1.0 - self.rng.random()) / math.log(1.0 - p))

    def _pick(self, cand, forced=False):
        k = self.policy["kind"]
        if k == "list":
            t = self.sched.get(self.step)
            return t if t in cand else cand[0]
        if k == "pct":
            return max(cand, key=lambda t: self.prio[t])
        return cand[self.rng.randrange(len(cand))]

    def _point(self, me, a, b):
        """A point at which another thread may go on."""
        self.step += 1
        self.h.update(b"%d.%d.%d;" % (me, a, b))
        if self.step > self.max_steps:
            self.dead = "no progress within %d steps" % self.max_steps
            raise SimAbort
        k = self.policy["kind"]
        if k == "rand":
            if self.step >= self.next_at:
                self.next_at = self._gap()
                c = [u for u in self._runnable() if u != me]
                if c:
                    self._switch(me, self._pick(c))
        elif k == "pct":
            if self.points and self.step >= self.points[0]:
                self.points.pop(0)
                self.low -= 1
                self.prio[me] = self.low
                t = self._pick(self._runnable())
                if t != me:
                    self._switch(me, t)
        elif k == "list":
            t = self.sched.get(self.step)
            if t is not None and t != me and t in self._runnable():
                self._switch(me, t)
        elif k == "target" and a != -1:
            n = self.own[me]
            self.own[me] = n + 1
            if n in self.pts.get(me, ()):
                c = [u for u in self._runnable() if u != me]
                if c:
                    self._switch(me, self._pick(c))

    def io_point(self):
        """A thread waits for the disk: others may run."""
        me = self.ids.get(_thread.get_ident())
        if me is not None:
            if self.dead is not None:
                raise SimAbort
            self._point(me, -1, 0)

    def event(self, code, where, kind, func=None):
        me = self.ids.get(_thread.get_ident())
        if me is None:
            return
        if self.dead is not None:
            raise SimAbort
        self._point(me, code.co_firstlineno, where)
        it = self.interrupts.get(me)
        if it is not None:
            it.event(code, where, kind, func)

    # locks
    def block(self, lock, timeout=-1):
        me = self.cur
        self.step += 1
        self.waiting[me] = lock
        c = self._runnable()
        if not c:
            if timeout is not None and timeout >= 0:
                del self.waiting[me]
                return False
            self.dead = "deadlock"
            raise SimAbort
        if timeout is not None and timeout >= 0 and self.rng.random() < .5:
            del self.waiting[me]
            return False
        self._switch(me, self._pick(c))
        return True

    def wake(self, lock):
        for u in [u for u, l in self.waiting.items() if l is lock]:
            del self.waiting[u]


def run_threads(funcs, policy, max_steps=400000):
    s = Scheduler(policy, max_steps)
    s.run(funcs)
    return s


class solo:
    """Arms an OpInterrupt for a call on the current thread."""

    def __init__(self, it):
        self.it = it

    def __enter__(self):
        me = _thread.get_ident()
        it = self.it

        def hook(code, where, kind, func=None):
            if _thread.get_ident() == me:
                it.event(code, where, kind, func)
        S.hook = hook
        return it

    def __exit__(self, *a):
        S.hook = None


# -------------------------------------------------------------- forked children

class ChildDied(HarnessError):
    pass


class ChildTimeout(ChildDied):
    pass


def in_child(fn, timeout=120.0, label=""):
    """Runs fn() in a fork and returns its (pickled) result."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                out = ("ok", fn())
            except BaseException as e:
                out = ("exc", "".join(traceback.format_exception(e)))
            data = pickle.dumps(out, protocol=4)
            off = 0
            while off < len(data):
                off += os.write(w, data[off:off + 65536])
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    chunks, end = [], time.monotonic() + timeout
    try:
        while True:
            left = end - time.monotonic()
            if left <= 0 or not select.select([r], [], [], left)[0]:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                raise ChildTimeout("%s: no answer within %.0f s" % (label, timeout))
            b = os.read(r, 1 << 20)
            if not b:
                break
            chunks.append(b)
    finally:
        os.close(r)
    _, st = os.waitpid(pid, 0)
    data = b"".join(chunks)
    if st != 0 or not data:
        raise ChildDied("%s: child ended with status %d" % (label, st))
    kind, val = pickle.loads(data)
    if kind == "exc":
        raise HarnessError("%s:\n%s" % (label, val))
    return val
