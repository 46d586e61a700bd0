"""Deterministic simulator core: threads, locks, clock, files, directory order.

`install()` patches the seams once, before the code under test is imported.
All seams consult the module global `S`; while it is None they pass through.
A child process that is to run one simulated command sets `S = Sim(cfg)`.

Every choice comes from `random.Random` instances derived from the plan, or from
the explicit decision lists in the plan (replay).  Nothing here reads a real
clock or real entropy.
"""
import sys
import os
import io
import builtins
import errno
import random
import threading
import _thread
import time
import queue
import stat as _stat

S = None                 # active simulator, or None
REPO_SRC = "/repo/src"

_real = {}


class Stop(BaseException):
    """raised in a simulated thread that must unwind because the run is over"""


class Task:
    __slots__ = ("tid", "name", "baton", "state", "wake", "waiting", "thread",
                 "done", "daemon", "prio", "exc")

    def __init__(self, tid, name, daemon=False):
        self.tid = tid
        self.name = name
        self.baton = _real["allocate_lock"]()
        self.baton.acquire()
        self.state = "run"        # run | block
        self.wake = None          # virtual deadline or None
        self.waiting = None
        self.thread = None
        self.done = False
        self.daemon = daemon
        self.prio = 0
        self.exc = None


class Crash(BaseException):
    pass


class Sim:
    """One simulated process."""

    def __init__(self, cfg, report):
        self.cfg = cfg
        self.report = report                    # callable(dict): final report, then exit
        self.roots = [os.path.realpath(r) for r in cfg["roots"]]
        self.tmp_remap = cfg.get("tmp_remap")
        sched = cfg.get("sched") or {}
        self.policy = sched.get("policy", "default")
        self.rng = random.Random("sched/%s" % sched.get("seed", 0))
        self.p_sync = sched.get("p_sync", 0.0)
        self.p_io = sched.get("p_io", 0.0)
        self.line_gap = sched.get("line_gap", 0)      # mean line distance, 0 = off
        self.replay = sched.get("switches")           # {"s": [[step, tid]...], "l": [[line, tid]..]}
        self.max_steps = cfg.get("max_steps", 3_000_000)
        self.max_vtime = cfg.get("max_vtime", 36000.0)
        self.max_jumps = cfg.get("max_jumps", 0)
        self.jumps = 0
        self.steps = 0
        self.lines = 0
        self.next_line = None
        self.switches_s = []
        self.switches_l = []
        self.sig = 0
        self.nswitch = 0
        self.tasks = []
        self.by_ident = {}
        self.current = None
        self.clock0 = cfg.get("clock", 1_500_000_000.0)
        self.vt = 0.0
        self.tick = cfg.get("tick", 0.0005)
        self.clock_jumps = sorted(cfg.get("clock_jumps", []))   # [[vt, delta]]
        self.clock_off = 0.0
        self.ops = 0                  # mutating FS operations
        self.rops = 0                 # read opens
        self.oplog = []
        self.log_ops = cfg.get("log_ops", True)
        self.faults = list(cfg.get("faults", []))
        self.fired = {}
        self.full = False             # persistent ENOSPC
        self.thread_excs = []
        self.dir_seed = cfg.get("dir_seed", 0)
        self.over = False
        self.cpus = cfg.get("cpus", 4)
        self.uuid_rng = random.Random("uuid/%s" % cfg.get("rand_seed", 0))
        self.workers = None
        self.in_worker = None
        self.pct_points = None
        if self.policy == "pct":
            est = max(10, int(sched.get("est_steps", 2000)))
            d = sched.get("depth", 3)
            self.pct_points = sorted(self.rng.randrange(est) for _ in range(d))
        if self.replay is not None:
            self.rep_s = {int(a): b for a, b in self.replay.get("s", [])}
            self.rep_l = [list(x) for x in self.replay.get("l", [])]
            self.rep_li = 0
            self.next_line = self.rep_l[0][0] if self.rep_l else None
        elif self.line_gap:
            self._draw_line()
        self.main = self._new_task("main", False)
        self.main.baton.release()
        self.main.baton.acquire()
        self.by_ident[_thread.get_ident()] = self.main
        self.current = self.main

    # ------------------------------------------------------------- scheduling
    def _new_task(self, name, daemon):
        t = Task(len(self.tasks), name, daemon)
        if self.policy == "pct":
            t.prio = self.rng.random()
        elif self.policy == "main_first":
            t.prio = 1.0 if t.tid == 0 else self.rng.random() * 0.5
        elif self.policy == "main_last":
            t.prio = 0.0 if t.tid == 0 else 0.5 + self.rng.random() * 0.5
        self.tasks.append(t)
        return t

    def _draw_line(self):
        u = self.rng.random()
        import math
        gap = 1 + int(-math.log(1.0 - u) * self.line_gap)
        self.next_line = self.lines + gap

    def _runnable(self):
        return [t for t in self.tasks if not t.done and t.state == "run"]

    def me(self):
        return self.by_ident.get(_thread.get_ident())

    def yield_point(self, kind):
        me = self.current
        if self.over:
            raise Stop()
        if self.by_ident.get(_thread.get_ident()) is not me:
            return
        self.steps += 1
        if self.steps > self.max_steps:
            self.finish({"status": "livelock", "why": "step budget %d exhausted" % self.max_steps})
        if self.in_worker is not None:
            return
        if len(self.tasks) == 1:
            return
        run = self._runnable()
        if len(run) < 2:
            return
        nxt = self._decide(me, run, kind)
        if nxt is not me:
            self.switches_s.append([self.steps, nxt.tid])
            self._switch(me, nxt)

    def _decide(self, me, run, kind):
        if self.replay is not None:
            tid = self.rep_s.get(self.steps)
            if tid is None:
                return me
            for t in run:
                if t.tid == tid:
                    return t
            return me
        pol = self.policy
        if pol == "default":
            return me
        if pol == "random":
            p = self.p_io if kind[0] == "i" else self.p_sync
            if self.rng.random() < p:
                others = [t for t in run if t is not me]
                return others[self.rng.randrange(len(others))]
            return me
        # priority policies
        if pol == "pct" and self.pct_points and self.steps >= self.pct_points[0]:
            self.pct_points.pop(0)
            me.prio = -self.rng.random() - len(self.pct_points)
        if pol in ("main_first", "main_last") and self.p_io and self.rng.random() < self.p_io * 0.05:
            others = [t for t in run if t is not me]
            return others[self.rng.randrange(len(others))]
        return max(run, key=lambda t: (t.prio, -t.tid))

    def _pick_forced(self, run):
        """current task cannot continue: choose who does."""
        if self.replay is not None:
            tid = self.rep_s.get(self.steps)
            for t in run:
                if t.tid == tid:
                    return t
            return run[0]
        if self.policy == "random":
            t = run[self.rng.randrange(len(run))]
        elif self.policy == "default":
            t = run[0]
        else:
            t = max(run, key=lambda x: (x.prio, -x.tid))
        if t is not run[0]:
            self.switches_s.append([self.steps, t.tid])
        return t

    def _note(self, tid):
        self.nswitch += 1
        self.sig = (self.sig * 1000003 + tid * 7919 + self.ops * 31 + self.steps) & 0xFFFFFFFFFFFFFFFF

    def _switch(self, me, nxt):
        self._note(nxt.tid)
        self.current = nxt
        nxt.baton.release()
        if not me.done:
            me.baton.acquire()
            if self.over:
                raise Stop()

    def block(self, waiting, deadline=None):
        """Block the current task until made runnable (returns True) or the
        virtual deadline passes (returns False)."""
        me = self.current
        self.steps += 1
        if self.steps > self.max_steps:
            self.finish({"status": "livelock", "why": "step budget %d exhausted" % self.max_steps})
        me.state = "block"
        me.wake = deadline
        me.waiting = waiting
        self._dispatch(me)
        me.waiting = None
        if me.wake == -1:
            me.wake = None
            return False
        me.wake = None
        return True

    def _dispatch(self, me):
        while True:
            run = self._runnable()
            if run:
                break
            sl = [t for t in self.tasks if not t.done and t.state == "block" and t.wake is not None]
            if not sl:
                if me.done and all(t.done for t in self.tasks):
                    return
                self.finish({"status": "deadlock",
                             "why": "no runnable task: " + ", ".join(
                                 "%s waits for %s" % (t.name, t.waiting)
                                 for t in self.tasks if not t.done)})
            t = min(sl, key=lambda t: (t.wake, t.tid))
            if t.wake > self.vt:
                self.vt = t.wake
            if self.vt > self.max_vtime:
                self.finish({"status": "livelock",
                             "why": "no progress within %d virtual seconds: " % self.max_vtime + ", ".join(
                                 "%s waits for %s" % (x.name, x.waiting)
                                 for x in self.tasks if not x.done)})
            t.state = "run"
            t.wake = -1
        self.steps += 1
        nxt = self._pick_forced(run)
        if nxt is me:
            return
        self._switch(me, nxt)

    def unblock(self, t):
        if t.state == "block":
            t.state = "run"
            t.wake = None

    def sleep(self, secs):
        self.block("sleep", self.vt + max(0.0, secs))

    def start_thread(self, th):
        task = self._new_task(th.name, th.daemon)
        task.thread = th
        th._sim_task = task
        threading._limbo[th] = th
        _real["start_new_thread"](self._thread_main, (th, task))
        self.yield_point("start")

    def _thread_main(self, th, task):
        task.baton.acquire()
        self.by_ident[_thread.get_ident()] = task
        if self.over:
            return
        try:
            th._bootstrap_inner()
        except Stop:
            pass
        except BaseException as e:       # pragma: no cover
            task.exc = repr(e)
        if self.over:
            return
        task.done = True
        for t in self.tasks:
            if t.state == "block" and t.waiting == ("join", task.tid):
                self.unblock(t)
        try:
            self._dispatch(task)
        except Stop:
            pass

    def join_task(self, task, timeout=None):
        self.yield_point("join")
        dl = None if timeout is None else self.vt + max(0.0, timeout)
        while not task.done:
            if not self.block(("join", task.tid), dl):
                return

    # ------------------------------------------------------------- finish
    def summary(self):
        return {
            "steps": self.steps, "lines": self.lines, "jumps": self.jumps, "nswitch": self.nswitch,
            "sig": "%016x" % self.sig, "ops": self.ops, "rops": self.rops,
            "oplog": self.oplog, "fired": self.fired, "vtime": round(self.vt, 6),
            "switches": {"s": self.switches_s, "l": self.switches_l},
            "tasks": len(self.tasks), "thread_excs": self.thread_excs,
        }

    def finish(self, rep):
        """End of the simulated process, from any thread. Never returns."""
        self.over = True
        rep = dict(rep)
        rep.update(self.summary())
        self.report(rep)

    def crash(self, why):
        self.finish({"status": "crash", "why": why})

    # ------------------------------------------------------------- clock
    def now(self):
        self.vt += self.tick
        while self.clock_jumps and self.vt >= self.clock_jumps[0][0]:
            _, d = self.clock_jumps.pop(0)
            self.clock_off += d
            self.fired["clock_jump"] = self.fired.get("clock_jump", 0) + 1
        return self.clock0 + self.vt + self.clock_off

    def mono(self):
        self.vt += self.tick
        return 1000.0 + self.vt

    # ------------------------------------------------------------- files
    def inside(self, path):
        """absolute path if it lies under a simulated root, else None"""
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        if not isinstance(p, str):
            return None
        p = os.path.abspath(p)
        for r in self.roots:
            if p == r or p.startswith(r + "/"):
                return p
        return None

    def remap(self, path):
        """/tmp debug files of the code under test go to the scratch folder"""
        if self.tmp_remap is None:
            return path
        try:
            p = os.fspath(path)
        except TypeError:
            return path
        if isinstance(p, str) and p.startswith("/tmp/") and self.inside(p) is None:
            q = self.tmp_remap + p[4:]
            return q
        return path

    def hit(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    def op(self, kind, path, n=0):
        """One mutating file operation. Returns None, or a fault dict the caller
        must apply; may raise OSError; may end the process."""
        if self.in_worker is not None:
            return self.in_worker.op(kind, path, n)
        self.yield_point("io")
        return self.op_decide(kind, path, n)

    def op_decide(self, kind, path, n):
        i = self.ops
        self.ops += 1
        if self.log_ops and len(self.oplog) < 60000:
            self.oplog.append([kind, self.rel(path), n])
        for f in self.faults:
            if f.get("done") or f["kind"] in ("read_eio",):
                continue
            if self._match(f, i, kind, path):
                f["done"] = True
                return self._apply(f, kind, path, n)
        if self.full and kind in ("write", "create", "mkdir", "truncate_grow"):
            self.hit("enospc_again")
            raise OSError(errno.ENOSPC, "No space left on device (simulated)", str(path))
        return None

    def rel(self, path):
        p = str(path)
        for r in self.roots:
            if p.startswith(r + "/"):
                return p[len(r) + 1:]
        return p

    def _match(self, f, i, kind, path):
        if "op" in f:
            return f["op"] == i
        if "nth" in f:        # nth op whose relative path contains `path` and kind in kinds
            rp = self.rel(path)
            if f.get("path") and f["path"] not in rp:
                return False
            if f.get("on") and kind not in f["on"]:
                return False
            f["seen"] = f.get("seen", -1) + 1
            return f["seen"] == f["nth"]
        return False

    def _apply(self, f, kind, path, n):
        k = f["kind"]
        if k == "crash":
            self.hit("crash")
            self.crash("crash before %s %s" % (kind, self.rel(path)))
        if k == "torn":
            if kind == "write" and n > 0:
                self.hit("torn")
                return {"torn": int(n * f.get("keep", f.get("frac", 0.5))), "die": True}
            self.hit("crash")
            self.crash("crash before %s %s" % (kind, self.rel(path)))
        if k == "enospc":
            self.full = True
            self.hit("enospc")
            if kind == "write" and n > 0:
                return {"torn": int(n * f.get("keep", f.get("frac", 0.0))), "err": errno.ENOSPC}
            if kind in ("create", "mkdir"):
                raise OSError(errno.ENOSPC, "No space left on device (simulated)", str(path))
            return None
        if k == "eio":
            if kind in ("write", "create", "mkdir", "rename", "close"):
                self.hit("eio")
                raise OSError(errno.EIO, "Input/output error (simulated)", str(path))
            f["done"] = False
            if "op" in f:
                f["op"] += 1
            return None
        if k == "short":
            if kind == "write" and n > 1:
                self.hit("short")
                return {"short": max(1, int(n * f.get("keep", f.get("frac", 0.5))))}
            f["done"] = False
            if "op" in f:
                f["op"] += 1
            return None
        if k == "kill_worker":
            return {"kill_worker": True}
        raise ValueError("unknown fault kind %r" % k)

    def read_op(self, path):
        if self.in_worker is not None:
            return self.in_worker.read_op(path)
        self.yield_point("io")
        return self.read_decide(path)

    def read_decide(self, path):
        i = self.rops
        self.rops += 1
        for f in self.faults:
            if f.get("done") or f["kind"] != "read_eio":
                continue
            if f.get("sticky"):          # bad sectors: this file can be written but not read
                if f["path"] in self.rel(path):
                    self.hit("read_eio_sticky")
                    raise OSError(errno.EIO, "Input/output error (simulated)", str(path))
                continue
            ok = f.get("rop") == i
            if not ok and "nth" in f and f.get("path", "") in self.rel(path):
                f["seen"] = f.get("seen", -1) + 1
                ok = f["seen"] == f["nth"]
            if ok:
                f["done"] = True
                self.hit("read_eio")
                raise OSError(errno.EIO, "Input/output error (simulated)", str(path))

    def order(self, path, names):
        """directory order is whatever the seed says"""
        names = sorted(names)
        if self.dir_seed:
            random.Random("dir/%s/%s" % (self.dir_seed, self.rel(path))).shuffle(names)
        return names


# ----------------------------------------------------------------- sim locks
class SimLock:
    def __init__(self):
        self._locked = False
        self._waiters = []

    def acquire(self, blocking=True, timeout=-1):
        s = S
        if s is None or s.in_worker is not None:
            if self._locked:
                if not blocking or timeout >= 0:
                    return False
                raise RuntimeError("simulator: lock contention outside a simulated run")
            self._locked = True
            return True
        if s.over:
            return True
        if s.me() is None:
            self._locked = True
            return True
        s.yield_point("lock")
        dl = None if timeout is None or timeout < 0 else s.vt + timeout
        while self._locked:
            if not blocking:
                return False
            me = s.current
            self._waiters.append(me)
            ok = s.block("lock@%s" % _where(), dl)
            if me in self._waiters:
                self._waiters.remove(me)
            if not ok and self._locked:
                return False
        self._locked = True
        return True

    def release(self):
        if not self._locked:
            if S is not None and S.over:
                return
            raise RuntimeError("release unlocked lock")
        self._locked = False
        s = S
        if s is None or s.over or s.in_worker is not None:
            return
        for t in self._waiters:
            s.unblock(t)
        if self._waiters:
            s.yield_point("unlock")

    def locked(self):
        return self._locked

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._locked = False
        self._waiters = []

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked


def _where():
    f = sys._getframe(2)
    while f is not None and "/opsim/" in f.f_code.co_filename:
        f = f.f_back
    n = 0
    g = f
    while g is not None and n < 12:
        if g.f_code.co_filename.startswith(REPO_SRC):
            return "%s:%d" % (os.path.basename(g.f_code.co_filename), g.f_lineno)
        g = g.f_back
        n += 1
    return "%s:%d" % (os.path.basename(f.f_code.co_filename), f.f_lineno) if f else "?"


class SimRLock:
    def __init__(self):
        self._block = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._count += 1
            return True
        rc = self._block.acquire(blocking, timeout)
        if rc:
            self._owner = me
            self._count = 1
        return rc

    def release(self):
        if self._owner != _thread.get_ident():
            if S is not None and S.over:
                return
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._block.release()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _acquire_restore(self, state):
        self._block.acquire()
        self._count, self._owner = state

    def _release_save(self):
        if self._count == 0:
            raise RuntimeError("cannot release un-acquired lock")
        state = (self._count, self._owner)
        self._count = 0
        self._owner = None
        self._block.release()
        return state

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _recursion_count(self):
        return self._count if self._is_owned() else 0

    def _at_fork_reinit(self):
        self._block._at_fork_reinit()
        self._owner = None
        self._count = 0


# ----------------------------------------------------------------- threads
def _t_start(self):
    s = S
    if s is None or s.in_worker is not None or s.me() is None:
        return _real["Thread.start"](self)
    if not self._initialized:
        raise RuntimeError("thread.__init__() not called")
    if getattr(self, "_sim_task", None) is not None:
        raise RuntimeError("threads can only be started once")
    s.start_thread(self)


def _t_join(self, timeout=None):
    s = S
    task = getattr(self, "_sim_task", None)
    if s is None or task is None:
        return _real["Thread.join"](self, timeout)
    if task is s.me():
        raise RuntimeError("cannot join current thread")
    s.join_task(task, timeout)


def _t_is_alive(self):
    task = getattr(self, "_sim_task", None)
    if S is None or task is None:
        return _real["Thread.is_alive"](self)
    return not task.done


def _excepthook(args):
    s = S
    if s is not None:
        if isinstance(args.exc_value, (Stop, SystemExit)) or args.exc_type in (Stop, SystemExit):
            return
        import traceback
        tb = traceback.extract_tb(args.exc_traceback)
        last = [f for f in tb if f.filename.startswith(REPO_SRC)]
        where = "%s:%s" % (os.path.basename(last[-1].filename), last[-1].name) if last else "?"
        s.thread_excs.append([args.thread.name if args.thread else "?",
                              args.exc_type.__name__, str(args.exc_value)[:300], where])
        try:
            sys.stderr.write("Exception in thread %s: %s\n" % (
                args.thread.name if args.thread else "?",
                "".join(traceback.format_exception_only(args.exc_type, args.exc_value))))
        except Exception:
            pass
        return
    return _real["excepthook"](args)


# ----------------------------------------------------------------- files
class SimRaw(io.FileIO):
    """Raw file under a simulated root, opened for writing."""

    def __init__(self, path, mode):
        self._sim_path = os.path.abspath(os.fspath(path))
        super().__init__(path, mode)

    def write(self, b):
        s = S
        if s is None:
            return super().write(b)
        mv = memoryview(b).cast("B") if not isinstance(b, (bytes, bytearray)) else b
        n = len(mv)
        r = s.op("write", self._sim_path, n)
        if r is None:
            tot = 0
            while tot < n:
                tot += super().write(mv[tot:] if tot else mv)
            return n
        if "torn" in r:
            k = r["torn"]
            if k > 0:
                super().write(bytes(mv[:k]))
            if r.get("die"):
                s.crash("torn write of %d/%d bytes to %s" % (k, n, s.rel(self._sim_path)))
            raise OSError(r["err"], "simulated", self._sim_path)
        if "short" in r:
            return super().write(bytes(mv[: r["short"]]))
        return super().write(b)

    def truncate(self, size=None):
        s = S
        if s is not None:
            s.op("truncate", self._sim_path, 0)
        return super().truncate(size)


def _sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
              closefd=True, opener=None):
    s = S
    if s is None or isinstance(file, int) or opener is not None:
        return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    file = s.remap(file)
    p = s.inside(file)
    if p is None:
        return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    writing = any(c in mode for c in "wax+")
    if not writing:
        s.read_op(p)
        return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    binary = "b" in mode
    if binary and encoding is not None:
        raise ValueError("binary mode doesn't take an encoding argument")
    rawmode = "".join(c for c in mode if c in "rwax+")
    existed = os.path.exists(p)
    if os.path.isdir(p) or not os.path.isdir(os.path.dirname(p)):
        # let the real call raise the real error
        return _real["open"](file, mode, buffering, encoding, errors, newline, closefd, opener)
    if "x" in rawmode and existed:
        raise FileExistsError(errno.EEXIST, os.strerror(errno.EEXIST), p)
    if "r" in rawmode and not existed:
        raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), p)
    if "w" in rawmode:
        s.op("create" if not existed else "truncate", p, 0)
    elif "r" in rawmode:
        s.op("openrw", p, 0)
    else:
        s.op("create" if not existed else "append", p, 0)
    raw = SimRaw(file, rawmode)
    if buffering == 0:
        if not binary:
            raw.close()
            raise ValueError("can't have unbuffered text I/O")
        return raw
    bs = buffering if buffering > 1 else io.DEFAULT_BUFFER_SIZE
    if "+" in rawmode:
        buf = io.BufferedRandom(raw, bs)
    else:
        buf = io.BufferedWriter(raw, bs)
    if binary:
        return buf
    text = io.TextIOWrapper(buf, encoding or "utf-8", errors, newline, buffering == 1)
    text.mode = mode
    return text


def _wrap1(name, kind):
    def f(path, *a, **k):
        s = S
        if s is not None and not isinstance(path, int):
            path = s.remap(path)
            p = s.inside(path)
            if p is not None:
                if kind == "mkdir" and (os.path.lexists(p) or not os.path.isdir(os.path.dirname(p))):
                    s.yield_point("io")       # will fail for real; still a schedule point
                else:
                    s.op(kind, p, 0)
        return _real[name](path, *a, **k)
    f.__name__ = name
    return f


def _wrap_stat(name):
    real = getattr(os, name)

    def f(path, *a, **k):
        s = S
        if s is not None and type(path) is not int and s.tmp_remap is not None:
            path = s.remap(path)
        return real(path, *a, **k)
    f.__name__ = name
    return f


def _wrap2(name, kind):
    def f(a, b, *r, **k):
        s = S
        if s is not None:
            a, b = s.remap(a), s.remap(b)
            p = s.inside(b) or s.inside(a)
            if p is not None:
                s.op(kind, p, 0)
        return _real[name](a, b, *r, **k)
    f.__name__ = name
    return f


def _listdir(path="."):
    s = S
    r = _real["listdir"](path)
    if s is None or isinstance(path, int):
        return r
    p = s.inside(path)
    if p is None:
        return r
    s.yield_point("io")
    return s.order(p, r)


class _Scan:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def _scandir(path="."):
    s = S
    if s is None or isinstance(path, int):
        return _real["scandir"](path)
    p = s.inside(path)
    if p is None:
        return _real["scandir"](path)
    s.yield_point("io")
    with _real["scandir"](path) as it:
        d = {e.name: e for e in it}
    return _Scan([d[n] for n in s.order(p, d)])


# ----------------------------------------------------------------- clock etc.
def _time():
    return _real["time"]() if S is None else S.now()


def _time_ns():
    return _real["time_ns"]() if S is None else int(S.now() * 1e9)


def _monotonic():
    return _real["monotonic"]() if S is None else S.mono()


def _perf():
    return _real["perf_counter"]() if S is None else S.mono()


def _sleep(secs):
    s = S
    if s is None:
        return _real["sleep"](secs)
    if s.in_worker is not None or s.me() is None:
        s.vt += secs
        return
    s.sleep(secs)


class _Fn:
    """a callable that does not turn into a method when stored on a class"""

    def __init__(self, f):
        self.f = f

    def __call__(self, *a):
        return self.f(*a)


_localtime = _Fn(lambda secs=None: _real["localtime"](_time() if secs is None else secs))
_gmtime = _Fn(lambda secs=None: _real["gmtime"](_time() if secs is None else secs))


class SimPipeQueue:
    """multiprocessing SimpleQueue used between threads of one process"""

    def __init__(self):
        self._q = []
        self._waiters = []
        self._reader = self

    def empty(self):
        return not self._q

    def put(self, x):
        self._q.append(x)
        s = S
        for t in self._waiters:
            s.unblock(t)
        if s is not None and not s.over:
            s.yield_point("queue")

    def get(self):
        _mp_wait([self])
        return self._q.pop(0)

    def close(self):
        pass


def _mp_wait(objs, timeout=None):
    if not objs or not all(isinstance(o, SimPipeQueue) for o in objs):
        return _real["mp_wait"](objs, timeout)
    s = S
    s.yield_point("queue")
    dl = None if timeout is None else s.vt + max(0.0, timeout)
    while not any(o._q for o in objs):
        me = s.current
        for o in objs:
            o._waiters.append(me)
        ok = s.block("pool queue", dl)
        for o in objs:
            if me in o._waiters:
                o._waiters.remove(me)
        if not ok:
            break
    return [o for o in objs if o._q]


def _ctx_simplequeue(self):
    if S is not None and S.in_worker is None:
        return SimPipeQueue()
    return _real["mp_SimpleQueue"](self)


def _strftime(fmt, t=None):
    return _real["strftime"](fmt, _localtime() if t is None else t)


def _cpu_count():
    return _real["cpu_count"]() if S is None else S.cpus


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    R = _real
    R["allocate_lock"] = _thread.allocate_lock
    R["start_new_thread"] = threading._start_new_thread
    R["Thread.start"] = threading.Thread.start
    R["Thread.join"] = threading.Thread.join
    R["Thread.is_alive"] = threading.Thread.is_alive
    R["excepthook"] = threading.excepthook
    R["open"] = io.open
    for n in ("mkdir", "rmdir", "remove", "unlink", "rename", "replace", "listdir", "scandir",
              "cpu_count", "link", "symlink", "truncate", "utime", "chmod"):
        R[n] = getattr(os, n)
    for n in ("time", "time_ns", "monotonic", "perf_counter", "sleep", "localtime", "gmtime", "strftime"):
        R[n] = getattr(time, n)

    threading.Lock = SimLock
    threading._allocate_lock = SimLock
    threading.RLock = SimRLock
    threading.Thread.start = _t_start
    threading.Thread.join = _t_join
    threading.Thread.is_alive = _t_is_alive
    threading.excepthook = _excepthook
    threading._time = _monotonic
    queue.SimpleQueue = queue._PySimpleQueue
    queue.time = _monotonic

    builtins.open = _sim_open
    io.open = _sim_open
    os.stat = _wrap_stat("stat")
    os.lstat = _wrap_stat("lstat")
    os.mkdir = _wrap1("mkdir", "mkdir")
    os.rmdir = _wrap1("rmdir", "rmdir")
    os.remove = _wrap1("remove", "unlink")
    os.unlink = _wrap1("unlink", "unlink")
    os.truncate = _wrap1("truncate", "truncate")
    os.rename = _wrap2("rename", "rename")
    os.replace = _wrap2("replace", "rename")
    os.link = _wrap2("link", "rename")
    os.symlink = _wrap2("symlink", "rename")
    os.listdir = _listdir
    os.scandir = _scandir
    os.cpu_count = _cpu_count
    import shutil
    shutil._USE_CP_SENDFILE = False
    shutil._use_fd_functions = False
    time.time = _time
    time.time_ns = _time_ns
    time.monotonic = _monotonic
    time.perf_counter = _perf
    time.sleep = _sleep
    time.localtime = _localtime
    time.gmtime = _gmtime
    time.strftime = _strftime
    import timeit
    timeit.default_timer = _perf
    import uuid
    R["uuid4"] = uuid.uuid4

    def uuid4():
        if S is None:
            return R["uuid4"]()
        return uuid.UUID(int=S.uuid_rng.getrandbits(128), version=4)
    uuid.uuid4 = uuid4
    import logging
    logging._lock = SimRLock()
    logging.Formatter.converter = _localtime
    import multiprocessing.context
    import multiprocessing.connection
    import multiprocessing.pool
    R["mp_SimpleQueue"] = multiprocessing.context.BaseContext.SimpleQueue
    R["mp_wait"] = multiprocessing.connection.wait
    multiprocessing.context.BaseContext.SimpleQueue = _ctx_simplequeue
    multiprocessing.connection.wait = _mp_wait
    multiprocessing.pool.wait = _mp_wait
    import random as _r  # noqa
    os.register_at_fork(after_in_child=lambda: None)


# ----------------------------------------------------------------- line preemption
_TOOL = 3


def enable_monitor(lines):
    """Count loop iterations of the code under test, and preempt at its source lines (sys.monitoring)."""
    mon = sys.monitoring
    mon.use_tool_id(_TOOL, "opsim")
    events = mon.events.JUMP | (mon.events.LINE if lines else 0)

    def py_start(code, off):
        fn = code.co_filename
        if fn.startswith(REPO_SRC) and code.co_name != "<module>" and "/tests/" not in fn:
            mon.set_local_events(_TOOL, code, events)
        return mon.DISABLE

    def jump(code, src, dst):
        s = S
        s.jumps += 1
        if s.jumps > s.max_jumps > 0:
            ln = [l for a, b, l in code.co_lines() if a <= dst < b]
            s.finish({"status": "livelock", "why": "%d loop iterations, now in %s:%s %s" % (
                s.max_jumps, os.path.basename(code.co_filename), ln[0] if ln else "?", code.co_name)})

    def line(code, ln):
        s = S
        s.lines += 1
        nl = s.next_line
        if nl is None or s.lines < nl:
            return
        _line_switch(s)

    mon.register_callback(_TOOL, mon.events.PY_START, py_start)
    mon.register_callback(_TOOL, mon.events.LINE, line)
    mon.register_callback(_TOOL, mon.events.JUMP, jump)
    mon.set_events(_TOOL, mon.events.PY_START)


def _line_switch(s):
    if s.over:
        raise Stop()
    me = s.current
    if s.by_ident.get(_thread.get_ident()) is not me:
        return
    if s.replay is not None:
        at, tid = s.rep_l[s.rep_li]
        s.rep_li += 1
        s.next_line = s.rep_l[s.rep_li][0] if s.rep_li < len(s.rep_l) else None
        for t in s._runnable():
            if t.tid == tid and t is not me:
                s.switches_l.append([s.lines, tid])
                s._switch(me, t)
                return
        return
    s._draw_line()
    others = [t for t in s._runnable() if t is not me]
    if not others:
        return
    t = others[s.rng.randrange(len(others))]
    s.switches_l.append([s.lines, t.tid])
    s._switch(me, t)
