#!/usr/bin/env python3
"""Run the check of one property.

  check.py <ID> [--tier quick|thorough] [--seeds N] [--first S] [--workers N]
  check.py <ID> --replay FILE
  check.py <ID> --determinism N        every seed twice, in differing conditions
"""
import argparse
import json
import os
import queue
import shutil
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
ENV = {"MPLBACKEND": "Agg", "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0",
       "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "MKL_NUM_THREADS": "1",
       "NUMBA_NUM_THREADS": "1", "PYTHONUNBUFFERED": "1", "PYTHONWARNINGS": "ignore"}


def env(extra=None):
    e = dict(os.environ)
    e.update(ENV)
    e["PYTHONPATH"] = HERE
    e.pop("VERIF_SEED", None)
    e["NUMBA_CACHE_DIR"] = os.path.join("/tmp", "opsim-numba-%d" % os.getpid())
    e.update(extra or {})
    return e


class Worker:
    def __init__(self, pid, tier, i, extra_env=None):
        self.wid = "%08d" % ((os.getpid() * 100 + i) % 100000000)
        self.err = open("/tmp/opsim-%s.err" % self.wid, "w+")
        self.p = subprocess.Popen([PY, "-m", "opsim.worker", pid, tier, self.wid], cwd=HERE,
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
                                  text=True, env=env(extra_env))
        line = self.p.stdout.readline()
        if not line:
            self.err.seek(0)
            raise RuntimeError("worker failed to start:\n" + self.err.read()[-4000:])

    def ask(self, m):
        self.p.stdin.write(json.dumps(m) + "\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            self.err.seek(0)
            raise RuntimeError("worker died:\n" + self.err.read()[-4000:])
        return json.loads(line)

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(20)
        except Exception:
            self.p.kill()
        self.err.close()
        for f in ("/tmp/opsim-%s.err" % self.wid,):
            try:
                os.unlink(f)
            except OSError:
                pass
        shutil.rmtree("/tmp/opsim-%s" % self.wid, ignore_errors=True)


def known_findings():
    p = os.path.join(HERE, "known_findings.json")
    with open(p) as f:
        return json.load(f)


def run_pool(pid, tier, seeds, nworkers, deadline, known, minimise=True, stop_on=True, extra_env=None):
    q = queue.Queue()
    for s in seeds:
        q.put(s)
    results, lock, stop = [], threading.Lock(), threading.Event()
    errors = []

    def loop(i):
        try:
            w = Worker(pid, tier, i, extra_env)
        except Exception as e:
            errors.append(str(e))
            return
        try:
            while not stop.is_set() and time.time() < deadline:
                try:
                    s = q.get_nowait()
                except queue.Empty:
                    return
                r = w.ask({"cmd": "seed", "seed": s, "minimise": minimise and not stop.is_set(), "known": known})
                with lock:
                    results.append(r)
                if stop_on and any(v["key"] not in known for v in r.get("violations", [])):
                    stop.set()
        except Exception as e:
            errors.append("seed %s: %s" % (s, e))
        finally:
            w.close()
    th = [threading.Thread(target=loop, args=(i,)) for i in range(nworkers)]
    for t in th:
        t.start()
    for t in th:
        t.join()
    return results, errors


def replay(pid, path, quiet=False, extra_env=None):
    with open(path) as f:
        doc = json.load(f)
    w = Worker(pid, doc.get("tier", "quick"), 97, extra_env)
    try:
        r = w.ask({"cmd": "plan", "plan": doc["plan"]})
    finally:
        w.close()
    if r.get("harness"):
        print("HARNESS-ERROR " + r["harness"])
        return 2, r
    same = any(v["key"] == doc["key"] for v in r["violations"])
    if not quiet:
        for v in r["violations"]:
            print("  %s: %s" % (v["key"], v["msg"]))
        if same:
            print("VIOLATION property=%s replay=%s" % (pid, path))
        else:
            print("replay did not reproduce %s" % doc["key"])
    return (1 if same else 0), r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seeds", type=int)
    ap.add_argument("--first", type=int)
    ap.add_argument("--workers", type=int, default=min(8, os.cpu_count() or 4))
    ap.add_argument("--replay")
    ap.add_argument("--determinism", type=int)
    ap.add_argument("--keep-going", action="store_true")
    a = ap.parse_args()
    sys.path.insert(0, HERE)
    if a.replay:
        sys.exit(replay(a.pid, a.replay)[0])
    from props.meta import META
    meta = META[a.pid]
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    vseed = int(os.environ.get("VERIF_SEED") or 1)
    n = a.seeds or meta[tier]
    first = a.first if a.first is not None else vseed * 1000000
    cap = meta.get("cap_" + tier, 420 if tier == "quick" else 3000)
    t0 = time.time()

    if a.determinism:
        return determinism(a, tier, first)

    kf = [k for k in known_findings() if k["property"] == a.pid and k["status"] == "open"]
    known = [k["key"] for k in kf]
    seeds = list(range(first, first + n))
    results, errors = run_pool(a.pid, tier, seeds, a.workers, t0 + cap, known, stop_on=not a.keep_going)
    # a harness problem on one seed is retried once, alone
    bad = [r for r in results if r.get("harness")]
    good = [r for r in results if not r.get("harness")]
    if bad and not any(r.get("plan") for r in good):
        again, e2 = run_pool(a.pid, tier, [r["seed"] for r in bad], 2, time.time() + 240, known)
        errors += e2
        good += [r for r in again if not r.get("harness")]
        bad = [r for r in again if r.get("harness")]
    viol = [r for r in good if r.get("plan")]
    status = 0
    rdir = os.path.join(HERE, "replays")
    lines = []
    if viol:
        os.makedirs(rdir, exist_ok=True)
        for r in sorted(viol, key=lambda r: r["seed"])[:8 if a.keep_going else 1]:
            path = os.path.join(rdir, "%s-%d.json" % (a.pid, r["seed"]))
            with open(path, "w") as f:
                json.dump({"property": a.pid, "key": r["key"], "tier": tier, "seed": r["seed"],
                           "violations": r["violations"], "plan": r["plan"]}, f, indent=1)
            rc, rr = replay(a.pid, path, quiet=True)
            for v in r["violations"][:6]:
                print("  seed %d: %s: %s" % (r["seed"], v["key"], v["msg"]))
            print("  minimised in %s runs; replay in a fresh process %s" % (
                r.get("min_runs"), "reproduces it" if rc == 1 else "does NOT reproduce it"))
            if rc == 1:
                lines.append("VIOLATION property=%s replay=%s" % (a.pid, path))
                status = 1
            else:
                errors.append("seed %d: violation %s not reproduced by replay" % (r["seed"], r["key"]))
    for k in kf:
        print("KNOWN-FINDING: property=%s %s" % (a.pid, k["text"]))
    wall = time.time() - t0
    write_evidence(a.pid, tier, vseed, meta, good, wall, len(lines), seeds, a.workers)
    for ln in lines:
        print(ln)
    if status == 0 and (errors or bad):
        for e in errors[:5]:
            print("HARNESS-ERROR " + e)
        for r in bad[:5]:
            print("HARNESS-ERROR seed %s %s" % (r.get("seed"), r["harness"]))
        sys.exit(2)
    if status == 0 and not good:
        print("HARNESS-ERROR no run completed")
        sys.exit(2)
    print("%s: %d runs, %d violations, %.1f s" % (a.pid, len(good), len(lines), wall))
    sys.exit(status)


def write_evidence(pid, tier, vseed, meta, good, wall, nviol, seeds, workers):
    fired, notes, stats, sigs = {}, {}, {}, set()
    nontriv = set()
    for r in good:
        for k, v in r["fired"].items():
            fired[k] = fired.get(k, 0) + v
        for k, v in r["notes"].items():
            notes[k] = max(notes.get(k, 0), v) if k.startswith("max_") else notes.get(k, 0) + v
        for k, v in r["stats"].items():
            stats[k] = max(stats.get(k, 0), v) if k.startswith("max_") else stats.get(k, 0) + v
        sigs.update(r["sigs"])
        if r["fired"] or r["stats"].get("switches") or r["notes"].get("nontrivial"):
            nontriv.add("|".join(r["sigs"]))
    ev = {
        "property": pid, "tier": tier, "seed": vseed, "level": meta["level"],
        "coverage": {
            "evaluations": len(good),
            "distinct_nontrivial": len(nontriv),
            "rule": "one evaluation = one simulated history (plan) fully determined by its seed; non-trivial = at "
                    "least one injected fault fired or at least one context switch away from the default schedule "
                    "happened; distinct = differing hash over the sequence of (task switched to, step, file-op index) "
                    "and the number of file operations",
            "samples": [{"seed": r["seed"], "stats": r["stats"], "fired": r["fired"], "notes": r["notes"]}
                        for r in sorted(good, key=lambda r: r["seed"])[:4]],
            "seeds": [seeds[0], seeds[-1]] if seeds else [],
            "simulated_commands": stats.get("commands", 0),
            "runs_per_hour": round(len(good) / wall * 3600) if wall else 0,
            "commands_per_hour": round(stats.get("commands", 0) / wall * 3600) if wall else 0,
            "simulated_time_s": round(stats.get("vtime", 0), 1),
            "scheduling_steps": stats.get("steps", 0),
            "context_switches": stats.get("switches", 0),
            "file_operations": stats.get("ops", 0),
            "faults_injected": fired,
            "distinct_interleavings": len(sigs),
            "scenario_counts": notes,
            "real_components": meta.get("real", ""),
            "stubbed_components": meta.get("stub", ""),
            "workers": workers,
        },
        "assumptions": meta.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": nviol,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)


def determinism(a, tier, first):
    seeds = list(range(first, first + a.determinism))
    r1, e1 = run_pool(a.pid, tier, seeds, a.workers, time.time() + 3000, [], minimise=False, stop_on=False)
    r2, e2 = run_pool(a.pid, tier, list(reversed(seeds)), max(1, a.workers // 3), time.time() + 3000, [],
                      minimise=False, stop_on=False, extra_env={"PYTHONHASHSEED": "12345", "LANG": "C"})

    def norm(r):
        r = dict(r)
        r.pop("wall", None)
        return json.dumps(r, sort_keys=True)
    d1 = {r["seed"]: norm(r) for r in r1}
    d2 = {r["seed"]: norm(r) for r in r2}
    bad = [s for s in seeds if d1.get(s) != d2.get(s)]
    print("determinism %s: %d seeds, %d differ %s %s" % (a.pid, len(seeds), len(bad), bad[:10], (e1 + e2)[:3]))
    for s in bad[:2]:
        print(d1.get(s, "")[:1500])
        print(d2.get(s, "")[:1500])
    sys.exit(1 if bad or e1 or e2 else 0)


if __name__ == "__main__":
    main()
