"""One zygote: imports the code under test, then executes plans one by one on
behalf of the driver (newline-delimited JSON on stdin/stdout)."""
import copy
import importlib
import json
import os
import random
import shutil
import sys
import time
import traceback

_clock = time.perf_counter


def load(pid):
    from props import REGISTRY
    mod = importlib.import_module("props." + REGISTRY[pid])
    return mod.PROPS[pid]


def execute(prop, plan, scratch):
    from opsim.ctx import Ctx
    ctx = Ctx(scratch)
    ctx.clean()
    t = _clock()
    try:
        prop.execute(ctx, plan)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return ctx, _clock() - t


def seeded_plan(prop, seed, tier):
    rng = random.Random("%s/%s" % (prop.id, seed))
    plan = prop.generate(rng, tier, seed)
    plan["seed"] = seed
    plan["property"] = prop.id
    return json.loads(json.dumps(plan))


def has_key(ctx, key):
    return any(v["key"] == key for v in ctx.violations)


def minimise(prop, plan, key, scratch, budget_s=90, budget_runs=80):
    """greedy: accept a smaller plan as long as the same violation remains"""
    from opsim.ctx import materialise, strip_recorded
    t0 = _clock()
    runs = 0
    mat = materialise(plan)

    def attempt(cand):
        nonlocal runs
        runs += 1
        c = strip_recorded(cand)
        try:
            ctx, _ = execute(prop, c, scratch)
        except Exception:
            return None
        return materialise(c) if has_key(ctx, key) else None

    got = attempt(mat)
    if got is None:
        return strip_recorded(plan), runs, False
    best = mat
    progress = True
    while progress and runs < budget_runs and _clock() - t0 < budget_s:
        progress = False
        for cand in list(generic_shrinks(best)) + list(prop.shrink(best)):
            if runs >= budget_runs or _clock() - t0 > budget_s:
                break
            if cand == best:
                continue
            if attempt(cand) is not None:
                best = cand
                progress = True
                break
    return strip_recorded(best), runs, True


def _paths(o, pre=()):
    if isinstance(o, dict):
        for k, v in o.items():
            yield from _paths(v, pre + (k,))
        yield pre, o
    elif isinstance(o, list):
        for i, v in enumerate(o):
            yield from _paths(v, pre + (i,))


def _at(o, path):
    for p in path:
        o = o[p]
    return o


def generic_shrinks(plan):
    """drop faults; thin out schedule decisions"""
    for path, o in list(_paths(plan)):
        if isinstance(o.get("faults"), list) and o["faults"]:
            for i in range(len(o["faults"])):
                c = copy.deepcopy(plan)
                del _at(c, path)["faults"][i]
                yield c
        if isinstance(o.get("switches"), dict):
            for kk in ("s", "l", "w"):
                lst = o["switches"].get(kk) or []
                n = len(lst)
                if not n:
                    continue
                c = copy.deepcopy(plan)
                _at(c, path)["switches"][kk] = []
                yield c
                size = n // 2
                while size >= 1:
                    for i in range(0, n, size):
                        if n > 64 and size < n // 16:
                            break
                        c = copy.deepcopy(plan)
                        del _at(c, path)["switches"][kk][i:i + size]
                        yield c
                    size //= 2
        if o.get("dir_seed"):
            c = copy.deepcopy(plan)
            _at(c, path)["dir_seed"] = 0
            yield c


def result(ctx, dt, seed):
    return {"seed": seed, "violations": ctx.violations, "stats": ctx.stats, "fired": ctx.fired,
            "sigs": sorted(ctx.sigs), "notes": ctx.notes, "wall": round(dt, 3)}


def main():
    pid, tier, wid = sys.argv[1], sys.argv[2], sys.argv[3]
    out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    from opsim import zygote
    prop = load(pid)
    zygote.prepare(prop.need)
    if hasattr(prop, "setup"):
        prop.setup()
    scratch = "/tmp/opsim-%s" % wid

    def send(o):
        out.write(json.dumps(o) + "\n")
        out.flush()
    send({"ready": True})
    for line in sys.stdin:
        m = json.loads(line)
        try:
            if m["cmd"] == "seed":
                plan = seeded_plan(prop, m["seed"], tier)
                ctx, dt = execute(prop, plan, scratch)
                r = result(ctx, dt, m["seed"])
                if ctx.violations and m.get("minimise"):
                    key = [v["key"] for v in ctx.violations if v["key"] not in m.get("known", [])]
                    if key:
                        small, runs, ok = minimise(prop, plan, key[0], scratch)
                        r["plan"], r["min_runs"], r["min_ok"], r["key"] = small, runs, ok, key[0]
                        if not ok:
                            r["plan"] = seeded_plan(prop, m["seed"], tier)
                send(r)
            elif m["cmd"] == "plan":
                ctx, dt = execute(prop, m["plan"], scratch)
                send(result(ctx, dt, m["plan"].get("seed")))
        except Exception as e:
            send({"seed": m.get("seed"), "harness": "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()[-3000:])})


if __name__ == "__main__":
    main()
