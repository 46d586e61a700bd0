"""Shared pieces of the property modules."""
import copy
import json
import os

from worlds import nav

ZONES = ["UTC", "Asia/Tokyo", "America/New_York", "Europe/London", "Pacific/Auckland", "America/St_Johns"]


def rand_sched(rng, lines=False, seed=None):
    pol = rng.choice(["random", "random", "pct", "pct", "main_first", "main_last", "default"])
    s = {"policy": pol, "seed": seed if seed is not None else rng.randrange(1 << 30)}
    if pol == "random":
        s["p_sync"] = rng.choice([0.02, 0.1, 0.4, 0.8])
        s["p_io"] = rng.choice([0.02, 0.1, 0.4, 0.8])
    elif pol == "pct":
        s["depth"] = rng.choice([1, 2, 3, 5])
        s["est_steps"] = rng.choice([200, 800, 3000])
    elif pol in ("main_first", "main_last"):
        s["p_io"] = rng.choice([0.0, 0.2, 0.5])
    if lines and pol != "default" and rng.random() < 0.6:
        s["line_gap"] = rng.choice([30, 200, 1000, 5000])
    return s


def rand_env(rng):
    return {"cpus": rng.choice([1, 2, 4, 6, 8]), "dir_seed": rng.choice([0, rng.randrange(1, 1 << 20)]),
            "tz": rng.choice(ZONES), "clock": 1_600_000_000.0 + rng.randrange(0, 100_000_000),
            "rand_seed": 1}


def parse_step(rng, paths, force=False, merge=False, sched=True):
    st = {"prog": "auv_nav", "argv": ["parse"] + (["-F"] if force else []) + (["--merge"] if merge else []) + paths}
    st.update(rand_env(rng))
    st["sched"] = rand_sched(rng) if sched else {"policy": "default"}
    return st


def plain(step):
    """the same command, default schedule, no faults, one fixed host"""
    s = copy.deepcopy(step)
    s["sched"] = {"policy": "default"}
    s["faults"] = []
    s["dir_seed"] = 0
    s["tz"] = "UTC"
    s["clock"] = 1_650_000_000.0
    s["cpus"] = 4
    s.pop("clock_jumps", None)
    return s


def load_json(path):
    with open(path) as f:
        return json.load(f)


def ok_exit(rep):
    return rep["status"] == "exit" and rep["code"] == 0


def brief(rep):
    s = "%s code=%s" % (rep["status"], rep.get("code"))
    if rep.get("exc"):
        s += " %s: %s at %s" % tuple(rep["exc"])
    if rep.get("why"):
        s += " (%s)" % rep["why"]
    if rep.get("thread_excs"):
        s += " thread %s" % rep["thread_excs"][:2]
    return s


def exc_key(rep):
    if rep["status"] in ("deadlock", "livelock"):
        return rep["status"]
    if rep.get("exc"):
        return "%s@%s" % (rep["exc"][0], rep["exc"][2])
    return "exit%s" % rep.get("code")


def nav_path(root, spec):
    return os.path.join(nav.proc_dir(root, spec), "nav", "nav_standard.json")


def order_problem(records):
    last = None
    for r in records:
        t = r["epoch_timestamp"]
        if last is not None and t < last:
            return "record at %.6f follows record at %.6f" % (t, last)
        last = t
    return None


def shrink_spec(spec):
    """smaller dives"""
    def v(**kw):
        c = copy.deepcopy(spec)
        for k, val in kw.items():
            o = c
            ks = k.split("__")
            for p in ks[:-1]:
                o = o[p]
            o[ks[-1]] = val
        return c
    for h in list(spec["has"]):
        if h != "velocity":
            yield v(has=[x for x in spec["has"] if x != h])
    if spec["dur"] > 8:
        yield v(dur=max(8, spec["dur"] // 2))
    if spec["phins"]["rate"] > 1:
        yield v(phins__rate=1)
    if spec["phins"].get("junk"):
        yield v(phins__junk=False)
    if spec["gaps"]["files"] > 1:
        yield v(gaps__files=1)
    if spec["image"]["drop"]:
        yield v(image__drop={})
    for k in ("nav", "usbl", "image"):
        if spec["toff"][k]:
            yield v(**{"toff__" + k: 0.0})
        if spec["tz"][k] != "utc":
            yield v(**{"tz__" + k: "utc"})


def rand_crash(rng):
    """crash somewhere: before an operation, or in the middle of a write"""
    k = rng.choice(["crash", "crash", "torn"])
    f = {"kind": k, "frac": rng.random()}
    if k == "torn":
        f["keep"] = rng.random()
    if rng.random() < 0.5:
        # aim at one of the result files rather than at any operation
        f["aim"] = rng.random()
    return f


def resolve(fault, ops, aim=None):
    """turn a relative position into an operation index of a known trace"""
    f = dict(fault)
    if "frac" not in f:
        return f
    frac = f.pop("frac")
    a = f.pop("aim", None)
    idx = None
    if a is not None and aim:
        sel = [i for i, o in enumerate(ops) if any(x in o[1] for x in aim)]
        if sel:
            idx = sel[int(a * len(sel)) % len(sel)]
    if idx is None:
        idx = int(frac * len(ops)) % max(1, len(ops))
    if f["kind"] in ("torn", "enospc", "eio", "short"):
        # needs a write: next one at or after the position
        w = [i for i in range(idx, len(ops)) if ops[i][0] == "write"] or \
            [i for i in range(len(ops)) if ops[i][0] == "write"]
        if w:
            idx = w[0]
    f["op"] = idx
    return f
