"""joblib.Parallel under the simulator: real forked worker processes, pickled
tasks, and a coordinator that lets exactly one worker run at a time, between two
of its file operations, in an order the seed decides."""
import io
import os
import pickle
import random
import signal
import struct
import traceback

import cloudpickle
import numpy as np

from . import core

_WORKER_MAX = 6


def _send(fd, obj):
    b = pickle.dumps(obj, protocol=4)
    b = struct.pack("<Q", len(b)) + b
    mv = memoryview(b)
    while mv:
        k = os.write(fd, mv)
        mv = mv[k:]


def _recv(fd):
    def rd(n):
        out = b""
        while len(out) < n:
            c = os.read(fd, n - len(out))
            if not c:
                raise EOFError
            out += c
        return out
    n = struct.unpack("<Q", rd(8))[0]
    return pickle.loads(rd(n))


class _Pickler(cloudpickle.CloudPickler):
    def reducer_override(self, obj):
        if isinstance(obj, np.memmap):
            try:
                from joblib._memmapping_reducer import _get_backing_memmap, _reduce_memmap_backed
                m = _get_backing_memmap(obj)
                if m is not None and getattr(m, "_mmap", None) is not None:
                    m.flush()
                    return _reduce_memmap_backed(obj, m)
            except ImportError:
                pass
        return super().reducer_override(obj)


def dumps(obj):
    f = io.BytesIO()
    _Pickler(f, protocol=4).dump(obj)
    return f.getvalue()


class WorkerSide:
    def __init__(self, rfd, wfd):
        self.rfd, self.wfd = rfd, wfd

    def _rpc(self, msg):
        try:
            _send(self.wfd, msg)
            r = _recv(self.rfd)
        except (EOFError, BrokenPipeError):
            os._exit(9)
        if r[0] == "ok":
            return r[1]
        if r[0] == "err":
            raise OSError(r[1], r[2], r[3])
        os._exit(9)

    def op(self, kind, path, n):
        return self._rpc(("op", kind, str(path), n))

    def read_op(self, path):
        return self._rpc(("read", str(path)))

    def crash_all(self, why):
        try:
            _send(self.wfd, ("crash", why))
        except OSError:
            pass
        os._exit(9)

    def loop(self):
        while True:
            try:
                m = _recv(self.rfd)
            except EOFError:
                os._exit(0)
            if m[0] != "task":
                os._exit(0)
            try:
                f, a, k = pickle.loads(m[1])
                random.seed("worker/%s" % m[2])
                core.S.uuid_rng = random.Random("uuid/%s/%s" % (core.S.cfg.get("rand_seed", 0), m[2]))
                np.random.seed(m[2] & 0x7FFFFFFF)
                res = (True, dumps(f(*a, **k)))
            except BaseException as e:
                tb = traceback.format_exc()
                try:
                    b = dumps(e)
                    pickle.loads(b)
                except Exception:
                    b = dumps(RuntimeError("%s: %s" % (type(e).__name__, e)))
                res = (False, b, tb)
            try:
                _send(self.wfd, ("done",) + res)
            except OSError:
                os._exit(9)


class Worker:
    def __init__(self, sim):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                for fd in sim.close_in_worker:
                    try:
                        os.close(fd)
                    except OSError:
                        pass
                side = WorkerSide(r1, w2)
                sim.in_worker = side
                sim.crash = side.crash_all
                sim.finish = lambda rep: side.crash_all(rep.get("why", "?"))
                sim.tasks = sim.tasks[:1]
                side.loop()
            finally:
                os._exit(9)
        os.close(r1)
        os.close(w2)
        sim.close_in_worker += [w1, r2]
        self.pid, self.w, self.r = pid, w1, r2
        self.idle = True
        self.pending = None
        self.task = None

    def kill(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        try:
            os.waitpid(self.pid, 0)
        except ChildProcessError:
            pass
        os.close(self.w)
        os.close(self.r)


class Pool:
    def __init__(self, sim, n):
        self.sim = sim
        self.workers = [Worker(sim) for _ in range(n)]
        self.decisions = 0
        self.seq = 0

    def kill_all(self):
        for w in self.workers:
            w.kill()
            for fd in (w.w, w.r):
                if fd in self.sim.close_in_worker:
                    self.sim.close_in_worker.remove(fd)
        self.workers = []

    def ensure(self, n):
        while len(self.workers) < n:
            self.workers.append(Worker(self.sim))

    def choose(self, options):
        if len(options) == 1:
            return options[0]
        s = self.sim
        k = self.decisions
        self.decisions += 1
        if s.replay is not None:
            i = s.rep_w.get(k, 0)
            return options[i % len(options)]
        if s.policy == "default":
            return options[0]
        if s.policy == "random":
            i = s.rng.randrange(len(options))
        else:
            # priority-like: stick with one worker, change seldom
            if s.rng.random() < 0.08 or not hasattr(self, "_perm"):
                self._perm = list(range(16))
                s.rng.shuffle(self._perm)
            i = min(range(len(options)), key=lambda j: self._perm[options[j] % 16])
        if i:
            s.switches_w.append([k, i])
        s._note(options[i])
        return options[i]

    def run(self, tasks, n):
        s = self.sim
        self.ensure(n)
        ws = self.workers[:n]
        it = iter(tasks)
        exhausted = False
        results = {}
        cnt = 0
        while True:
            opts = []
            for i, w in enumerate(ws):
                if w.idle:
                    if not exhausted:
                        opts.append(i)
                else:
                    opts.append(i)
            if not opts:
                break
            i = self.choose(opts)
            w = ws[i]
            s.steps += 1
            if s.steps > s.max_steps:
                s.finish({"status": "livelock", "why": "step budget exhausted in worker pool"})
            if w.idle:
                try:
                    t = next(it)
                except StopIteration:
                    exhausted = True
                    continue
                blob = dumps(tuple(t))
                w.idle = False
                w.task = cnt
                cnt += 1
                self.seq += 1
                _send(w.w, ("task", blob, self.seq))
            else:
                m = w.pending
                try:
                    if m[0] == "op":
                        r = s.op_decide(m[1], m[2], m[3])
                        if isinstance(r, dict) and r.get("kill_worker"):
                            s.hit("kill_worker")
                            self.kill_all()
                            from joblib.externals.loky.process_executor import TerminatedWorkerError
                            raise TerminatedWorkerError("A worker process was killed (simulated)")
                    else:
                        r = s.read_decide(m[1])
                    rep = ("ok", r)
                except OSError as e:
                    rep = ("err", e.errno, e.strerror, e.filename)
                w.pending = None
                _send(w.w, rep)
            try:
                m = _recv(w.r)
            except EOFError:
                self.kill_all()
                from joblib.externals.loky.process_executor import TerminatedWorkerError
                raise TerminatedWorkerError("A worker process died")
            if m[0] == "crash":
                self.kill_all()
                s.crash(m[1])
            if m[0] == "done":
                w.idle = True
                if m[1]:
                    results[w.task] = pickle.loads(m[2])
                else:
                    exc = pickle.loads(m[2])
                    s.worker_tb = m[3]
                    self.kill_all()
                    raise exc
            else:
                w.pending = m
        return [results[i] for i in range(cnt)]


class SimParallel:
    def __init__(self, n_jobs=None, *a, **k):
        self.n_jobs = 1 if n_jobs is None else n_jobs
        self.kw = k

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def _effective(self):
        s = core.S
        n = self.n_jobs
        if n == 0:
            raise ValueError("n_jobs == 0 in Parallel has no meaning")
        if n < 0:
            n = max(s.cpus + 1 + n, 1)
        return min(n, _WORKER_MAX)

    def __call__(self, iterable):
        s = core.S
        if s is None:
            return [f(*a, **k) for f, a, k in iterable]
        n = self._effective()
        if n == 1 or s.in_worker is not None:
            return [f(*a, **k) for f, a, k in iterable]
        if s.workers is None:
            s.workers = Pool(s, 0)
        s.pcalls = getattr(s, "pcalls", 0) + 1
        return s.workers.run(iterable, n)


def install():
    import joblib
    import joblib.parallel
    joblib.Parallel = SimParallel
    joblib.parallel.Parallel = SimParallel
    joblib.cpu_count = core._cpu_count
    joblib.parallel.cpu_count = core._cpu_count
