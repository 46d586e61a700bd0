"""Zygote side: import the code under test once behind the seams, then fork one
child per simulated command."""
import gc
import json
import os
import random
import select
import signal
import sys
import time
import traceback

from . import core

_real_mono = time.monotonic


class HarnessError(Exception):
    pass


def prepare(need):
    """import repo code after the seams are in place"""
    os.environ.setdefault("MPLBACKEND", "Agg")
    core.install()
    sys.path.insert(0, core.REPO_SRC)
    sys.dont_write_bytecode = True
    sys.argv = ["sim"]
    import numpy as np  # noqa
    import numpy.lib.format as nf
    nf.isfileobj = lambda f: False
    try:
        import numpy.lib._format_impl as nf2
        nf2.isfileobj = lambda f: False
    except ImportError:
        pass
    from . import jobs
    jobs.install()
    from . import stubs
    stubs.install_pre()
    import auv_nav.auv_nav  # noqa
    if "correct_images" in need:
        import correct_images.correct_images  # noqa
    if "auv_cal" in need:
        import auv_cal.auv_cal  # noqa
    stubs.install_post()
    import oplab
    if not os.path.realpath(oplab.__file__).startswith(core.REPO_SRC):
        raise HarnessError("oplab imported from %s" % oplab.__file__)
    os.system = lambda *_: 0
    gc.collect()
    gc.freeze()
    gc.disable()


def run_command(cfg, wall=150):
    """Fork a child, run one simulated command, return its report."""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 97
        try:
            os.close(r)
            _child(cfg, w)
            code = 0
        except BaseException:
            try:
                os.write(w, json.dumps({"status": "harness", "why": traceback.format_exc()}).encode())
            except Exception:
                pass
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    t0 = _real_mono()
    timed_out = False
    while True:
        left = wall - (_real_mono() - t0)
        if left <= 0:
            timed_out = True
            break
        rl, _, _ = select.select([r], [], [], min(left, 5))
        if rl:
            b = os.read(r, 1 << 20)
            if not b:
                break
            chunks.append(b)
    os.close(r)
    if timed_out:
        try:
            os.killpg(pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
        raise HarnessError("wall timeout (%ds) in %s" % (wall, cfg.get("argv")))
    os.waitpid(pid, 0)
    try:
        rep = json.loads(b"".join(chunks))
    except ValueError:
        raise HarnessError("child died without a report: %s %r" % (cfg.get("argv"), b"".join(chunks)[-300:]))
    if rep["status"] == "harness":
        raise HarnessError(rep["why"])
    return rep


def _child(cfg, wfd):
    os.setpgid(0, 0)
    os.umask(0o022)
    out = cfg.get("stdout") or "/dev/null"
    fd = os.open(out, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o644)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    nul = os.open("/dev/null", os.O_RDONLY)
    os.dup2(nul, 0)
    sys.stdout = core._real["open"](1, "w", encoding="utf-8", errors="replace", closefd=False)
    sys.stderr = core._real["open"](2, "w", encoding="utf-8", errors="replace", closefd=False)
    os.environ["TZ"] = cfg.get("tz", "UTC")
    os.environ["HOME"] = cfg.get("home", "/nonexistent")
    os.environ["USER"] = os.environ["LOGNAME"] = cfg.get("user", "sim")
    time.tzset()
    os.chdir(cfg.get("cwd", "/"))
    import numpy as np
    random.seed("main/%s" % cfg.get("rand_seed", 0))
    np.random.seed(int(cfg.get("rand_seed", 0)) & 0x7FFFFFFF)

    def report(rep):
        try:
            sys.stdout.flush()
            sys.stderr.flush()
        except Exception:
            pass
        b = json.dumps(rep).encode()
        mv = memoryview(b)
        while mv:
            k = os.write(wfd, mv)
            mv = mv[k:]
        if sim.workers is not None and sim.in_worker is None:
            for w in sim.workers.workers:
                try:
                    os.kill(w.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
        os._exit(0)

    sim = core.Sim(cfg, report)
    sim.switches_w = []
    sim.rep_w = {}
    sim.worker_tb = None
    if sim.replay is not None:
        sim.rep_w = {int(a): b for a, b in sim.replay.get("w", [])}
    sim.close_in_worker = [wfd]
    core.S = sim
    if cfg.get("jobs"):
        from . import jobs
        sim.workers = jobs.Pool(sim, cfg["jobs"])
    lines = bool(sim.line_gap or (sim.replay and sim.replay.get("l")))
    if lines or sim.max_jumps:
        core.enable_monitor(lines)
    rep = {"status": "exit", "code": 0, "exc": None}
    try:
        rv = _dispatch(cfg)
        if cfg.get("want_result"):
            rep["result"] = rv
    except SystemExit as e:
        c = e.code
        if c is None:
            c = 0
        elif not isinstance(c, int):
            c = 1
        rep["code"] = c & 0xFF
    except BaseException as e:
        if isinstance(e, core.Stop):
            return
        sys.stderr.write(traceback.format_exc())
        tb = traceback.extract_tb(e.__traceback__)
        last = [f for f in tb if f.filename.startswith(core.REPO_SRC)]
        rep["code"] = 1
        rep["exc"] = [type(e).__name__, str(e)[:300],
                      "%s:%s" % (os.path.basename(last[-1].filename), last[-1].name) if last else "?"]
        if sim.worker_tb:
            rep["worker_tb"] = sim.worker_tb[-1500:]
    # interpreter shutdown joins the non-daemon threads
    for t in list(sim.tasks[1:]):
        if not t.daemon:
            sim.join_task(t)
    rep["switches_w"] = sim.switches_w
    sim.finish(rep)


def _dispatch(cfg):
    prog = cfg["prog"]
    if prog == "call":
        import importlib
        m, f = cfg["func"].split(":")
        return getattr(importlib.import_module(m), f)(*cfg.get("args", []))
    sys.argv = [prog] + list(cfg["argv"])
    if prog == "auv_nav":
        import auv_nav.auv_nav as m
        return m.main()
    if prog == "correct_images":
        import correct_images.correct_images as m
        return m.main()
    if prog == "auv_cal":
        import auv_cal.auv_cal as m
        return m.main()
    raise HarnessError("unknown program %s" % prog)
