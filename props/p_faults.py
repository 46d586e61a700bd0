"""Properties that hold for parse and process together: failing storage, killed
processes, existing results, raw data, termination."""
import copy
import json
import os
import random

from worlds import nav, proc
from opsim.ctx import tree, diff_tree
from .common import (brief, exc_key, nav_path, ok_exit, parse_step, plain, rand_crash, rand_env, rand_sched, resolve,
                     shrink_spec)
from .p_process import out_tree, process_step, rand_window, renav_dirs, shrink_proc

TABLES = ("csv/",)


def small_proc(rng, **kw):
    s = proc.random_spec(rng, **kw)
    s["dur"] = 30
    s["cfg"]["pf"] = s["cfg"]["pf"] and rng.random() < 0.3
    s["cfg"]["particles"] = 4
    for k in ("orientation", "dvl"):
        s["sens"][k]["every"] = max(0.5, s["sens"][k]["every"])
    s["img"]["every"] = max(0.5, s["img"]["every"])
    if "out" in str(s["sens"]):
        for k in s["sens"]:
            s["sens"][k].pop("out", None)
    return s


def small_nav(rng):
    s = nav.random_spec(rng, small=True)
    s["dur"] = rng.choice([10, 15])
    return s


def scene(rng):
    """a dive and the command that works on it"""
    if rng.random() < 0.4:
        spec = small_nav(rng)
        return {"what": "parse", "spec": spec, "step": parse_step(rng, [nav.raw_dir("@", spec)])}
    spec = small_proc(rng)
    return {"what": "process", "spec": spec, "step": process_step(rng, spec, lines=False)}


def setup(ctx, plan):
    if plan["what"] == "parse":
        nav.build(plan["spec"], ctx.root)
    else:
        proc.build(plan["spec"], ctx.root)


def results(ctx, plan):
    """what the command promises to deliver: the navigation file, or the tables"""
    if plan["what"] == "parse":
        base = nav.proc_dir(ctx.root, plan["spec"])
        return {k: v for k, v in tree(base).items() if k == "nav/nav_standard.json"}
    return {k: v for k, v in out_tree(ctx.root, plan["spec"]).items() if "/csv/" in k}


def forced(step):
    s = copy.deepcopy(step)
    if "-F" not in s["argv"]:
        s["argv"].insert(1, "-F")
    return s


class Base:
    need = set()

    def shrink(self, plan):
        sh = shrink_spec if plan["what"] == "parse" else shrink_proc
        for s in sh(plan["spec"]):
            c = copy.deepcopy(plan)
            c["spec"] = s
            yield c


AIM = ["nav_standard", "/nav/", "/csv/"]


class P07(Base):
    """A disk that fails or fills up is never reported as success."""
    id = "P07"

    def generate(self, rng, tier, seed):
        p = scene(rng)
        fs = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            k = rng.choice(["enospc", "enospc", "eio", "eio", "eio", "short", "read_eio"])
            if k == "read_eio":
                fs.append({"kind": k, "rop": rng.choice([rng.randrange(0, 12), rng.randrange(0, 60)])})
            else:
                f = {"kind": k, "frac": rng.random(), "keep": rng.choice([0.0, rng.random()]), "any": rng.random() < 0.4}
                if rng.random() < 0.6:
                    f["aim"] = rng.random()
                fs.append(f)
        p["faults"] = fs
        return p

    def execute(self, ctx, plan):
        setup(ctx, plan)
        ctx.save("start")
        ref = ctx.run(plain(plan["step"]))
        if not ok_exit(ref):
            ctx.violate("fails/" + exc_key(ref), "%s of an intact dive ended with %s" % (plan["what"], brief(ref)) + ctx.out(400))
            return
        want = results(ctx, plan)
        ops = ref["oplog"]
        plan["faults"] = [self.place(f, ops) for f in plan["faults"]]
        ctx.load("start")
        step = plan["step"]
        step["faults"] = plan["faults"]
        rep = ctx.run(step)
        if rep["status"] in ("deadlock", "livelock"):
            ctx.violate("hang", "%s never ends after %s: %s" % (plan["what"], self.what(plan, ops), brief(rep)))
            return
        if not ok_exit(rep):
            ctx.note("reported")
            return
        d = diff_tree(want, results(ctx, plan))
        if d:
            ctx.violate("silent/" + plan["what"], "%s ended with status 0 although %s; result: %s" % (
                plan["what"], self.what(plan, ops), "; ".join(d[:3])) + ctx.out(300))
        else:
            ctx.note("harmless")

    def place(self, f, ops):
        if "frac" not in f:
            return f
        g = dict(f)
        if g.pop("any", False):
            # creation of files and folders, renames: not only writes
            k = g["kind"]
            g["kind"] = "crash"
            g = resolve(g, ops, AIM)
            g["kind"] = k
            return g
        return resolve(g, ops, AIM)

    def what(self, plan, ops):
        out = []
        for f in plan["faults"]:
            if "op" in f:
                out.append("%s at file operation %d (%s)" % (f["kind"], f["op"], " ".join(map(str, ops[f["op"]])) if f["op"] < len(ops) else "?"))
            else:
                out.append("%s at read %s" % (f["kind"], f.get("rop")))
        return ", ".join(out)

    def shrink(self, plan):
        if len(plan["faults"]) > 1:
            for i in range(len(plan["faults"])):
                c = copy.deepcopy(plan)
                del c["faults"][i]
                yield c
        yield from super().shrink(plan)


class P08(Base):
    """Process killed: refuses or completes without the overwrite option, converges with it."""
    id = "P08"

    def generate(self, rng, tier, seed):
        spec = small_proc(rng)
        p = {"what": "process", "spec": spec, "step": process_step(rng, spec, lines=False), "crash": rand_crash(rng),
             "again": [rand_crash(rng) for _ in range(rng.choice([0, 0, 1]))],
             "old": rng.random() < 0.3, "env": rand_env(rng)}
        if p["old"]:
            p["step"] = forced(p["step"])
        return p

    def execute(self, ctx, plan):
        spec = plan["spec"]
        step = plan["step"]
        proc.build(spec, ctx.root)
        ctx.save("start")
        ref = ctx.run(plain(step))
        if not ok_exit(ref):
            ctx.violate("fails/" + exc_key(ref), "process of an intact dive ended with " + brief(ref) + ctx.out(400))
            return
        want = results(ctx, plan)
        ctx.load("start")
        if plan["old"]:
            # the results of the same navigation with another configuration are there
            s2 = copy.deepcopy(spec)
            s2["vehicle"]["LC"] = [0.0, 0.0, 0.0]
            proc.build(s2, ctx.root)
            ctx.run(plain(step))
            proc.build(spec, ctx.root)
        ops = ref["oplog"]
        for n, c in enumerate([plan["crash"]] + plan["again"]):
            cf = resolve(c, ops, AIM)
            c.clear()
            c.update(cf)
            st = copy.deepcopy(step) if n == 0 else forced(step)
            st["faults"] = [cf]
            if n:
                st["sched"] = {"policy": "default"}
            rep = ctx.run(st)
            if n == 0:
                step["sched"].update({k: v for k, v in st["sched"].items() if k == "recorded"})
            if ok_exit(rep):
                d = diff_tree(want, results(ctx, plan))
                if d:
                    ctx.violate("wrong/ran", "process ended with status 0 and wrong results: " + "; ".join(d[:3]))
                return
        retry = {"prog": "auv_nav", "argv": [a for a in step["argv"] if a != "-F"], "sched": {"policy": "default"}}
        retry.update(plan["env"])
        before = results(ctx, plan)
        rep = ctx.run(retry)
        if rep["status"] != "exit":
            ctx.violate("retry-hang", "process after a crash: " + brief(rep))
            return
        now = results(ctx, plan)
        if ok_exit(rep):
            d = diff_tree(want, now)
            if d:
                ctx.violate("retry-silent", "process killed at %s; run again it ended with status 0 but the results are "
                            "not complete: %s" % (self.at(plan, ops), "; ".join(d[:3])))
                return
            ctx.note("completed")
        else:
            ctx.note("refused")
            d = diff_tree(before, now)
            if d:
                ctx.violate("refuse-changes", "process refused to overwrite but changed results: " + "; ".join(d[:3]))
                return
        rep = ctx.run(forced(retry))
        if not ok_exit(rep):
            ctx.violate("force-fails/" + exc_key(rep), "process -F after a crash at %s ended with %s" % (
                self.at(plan, ops), brief(rep)) + ctx.out(400))
            return
        d = diff_tree(want, results(ctx, plan))
        if d:
            ctx.violate("force-differs", "process -F after a crash at %s gave other results than without the crash: %s" % (
                self.at(plan, ops), "; ".join(d[:3])))

    def at(self, plan, ops):
        i = plan["crash"].get("op", -1)
        return "file operation %d (%s)" % (i, " ".join(map(str, ops[i])) if 0 <= i < len(ops) else "?")

    def shrink(self, plan):
        if plan["again"]:
            c = copy.deepcopy(plan)
            c["again"] = []
            yield c
        if plan["old"]:
            c = copy.deepcopy(plan)
            c["old"] = False
            yield c
        yield from super().shrink(plan)


# ------------------------------------------------------------------ existing results, raw data
def commands(rng, spec, what, n, force):
    """a history of commands on one dive"""
    out = []
    for _ in range(n):
        k = rng.choice(["parse", "process", "process", "window"] if what == "process" else ["parse", "parse", "process"])
        f = force and rng.random() < 0.4
        if k == "parse":
            st = parse_step(rng, [nav.raw_dir("@", spec)], force=f)
        else:
            st = process_step(rng, spec, force=f, lines=False, window=rand_window(rng, spec) if k == "window" else None)
        if rng.random() < 0.35:
            c = rand_crash(rng) if rng.random() < 0.6 else {"kind": rng.choice(["enospc", "eio", "short"]), "frac": rng.random()}
            c["op"] = int(c.pop("frac") ** 2 * 400)
            c.pop("aim", None)
            st["faults"] = [c]
        out.append(st)
    return out


def keep(root, spec, part):
    base = {"results": nav.proc_dir, "raw": nav.raw_dir, "config": nav.conf_dir}[part](root, spec)
    out = {}
    for k, v in tree(base).items():
        if v != "d" and not k.startswith("log/") and "log" != k.split("/")[0]:
            out[k] = v
    return out


class P09(Base):
    """Existing results stay as they are without the overwrite option."""
    id = "P09"

    def generate(self, rng, tier, seed):
        p = scene(rng)
        p["cmds"] = commands(rng, p["spec"], p["what"], rng.choice([1, 2, 3]), force=False)
        p["touch"] = rng.random() < 0.6
        return p

    def execute(self, ctx, plan):
        spec = plan["spec"]
        setup(ctx, plan)
        rep = ctx.run(plain(plan["step"]))
        if not ok_exit(rep):
            ctx.violate("fails/" + exc_key(rep), "%s of an intact dive ended with %s" % (plan["what"], brief(rep)) + ctx.out(400))
            return
        if plan["touch"]:
            # the inputs have changed since: a rerun would give something else
            if plan["what"] == "parse":
                s2 = copy.deepcopy(spec)
                s2["dur"] = max(8, spec["dur"] - 3)
                nav.build(s2, ctx.root)
            else:
                s2 = copy.deepcopy(spec)
                s2["vehicle"]["LC"] = [0.1, 0.2, 0.3]
                s2["vehicle"]["depth"] = [0.1, 0.0, 0.9]
                nav.dump_yaml(os.path.join(nav.raw_dir(ctx.root, spec), "vehicle.yaml"), proc.vehicle_yaml(s2))
        have = keep(ctx.root, spec, "results")
        for st in plan["cmds"]:
            rep = ctx.run(st)
            if rep["status"] in ("deadlock", "livelock"):
                ctx.violate("hang", "%s: %s" % (st["argv"][0], brief(rep)))
                return
            now = keep(ctx.root, spec, "results")
            bad = [k for k in have if now.get(k) != have[k]]
            if bad:
                ctx.violate("changed/" + st["argv"][0], "%s without -F (%s) changed or removed existing results: %s" % (
                    " ".join(st["argv"]), brief(rep), bad[:4]))
                return
            if ok_exit(rep):
                have = now       # what a successful command added is a result as well

    def shrink(self, plan):
        if len(plan["cmds"]) > 1:
            for i in range(len(plan["cmds"])):
                c = copy.deepcopy(plan)
                del c["cmds"][i]
                yield c
        for i, st in enumerate(plan["cmds"]):
            if st.get("faults"):
                c = copy.deepcopy(plan)
                c["cmds"][i]["faults"] = []
                yield c
        yield from super().shrink(plan)


class P10(P09):
    """Raw data and configuration are never written."""
    id = "P10"

    def generate(self, rng, tier, seed):
        p = scene(rng)
        if p["what"] == "process" and rng.random() < 0.5:
            proc.add_variants(rng, p["spec"])
        p["cmds"] = commands(rng, p["spec"], p["what"], rng.choice([2, 3, 4]), force=True)
        p["touch"] = False
        return p

    def execute(self, ctx, plan):
        spec = plan["spec"]
        setup(ctx, plan)
        raw, cfg = keep(ctx.root, spec, "raw"), keep(ctx.root, spec, "config")
        for st in [plain(plan["step"])] + plan["cmds"]:
            rep = ctx.run(st)
            d = diff_tree(raw, keep(ctx.root, spec, "raw"))
            if d:
                ctx.violate("raw/" + st["argv"][0], "%s (%s) changed raw data: %s" % (" ".join(st["argv"]), brief(rep), d[:4]))
                return
            now = keep(ctx.root, spec, "config")
            bad = [k for k in cfg if now.get(k) != cfg[k]]
            if bad:
                ctx.violate("config/" + st["argv"][0], "%s (%s) changed the configuration: %s" % (" ".join(st["argv"]), brief(rep), bad))
                return


# ------------------------------------------------------------------ termination
def rand_damage(rng):
    return {"file": rng.random(), "kind": rng.choice(["cut", "delete", "empty", "lines", "dup", "noise", "swap", "key"]),
            "a": rng.random(), "b": rng.random(), "seed": rng.randrange(1 << 20)}


def damage(files, d):
    p = files[int(d["file"] * len(files)) % len(files)]
    if not os.path.exists(p):
        return "gone"
    name = os.path.basename(p)
    k = d["kind"]
    if k == "delete":
        os.remove(p)
        return "deleted " + name
    with open(p, "rb") as f:
        b = f.read()
    rng = random.Random(d["seed"])
    if k == "empty":
        b = b""
    elif k == "cut":
        b = b[:int(len(b) * d["a"])]
    elif k in ("lines", "dup", "swap"):
        ls = b.splitlines(keepends=True)
        n = len(ls)
        i = int(d["a"] * n)
        j = min(n, i + 1 + int(d["b"] * d["b"] * n))
        if k == "lines":
            del ls[i:j]
        elif k == "dup":
            ls[i:i] = ls[i:j]
        else:
            x = ls[:]
            rng.shuffle(x)
            ls = x
        b = b"".join(ls)
    elif k == "noise":
        b = bytearray(b)
        for _ in range(1 + int(d["b"] * 20)):
            if b:
                b[rng.randrange(len(b))] = rng.choice(b"\x00\xff,$*0-9.aZ{}[]:\n ")
        b = bytes(b)
    elif k == "key" and name.endswith(".yaml"):
        import yaml
        try:
            o = yaml.safe_load(b)
        except yaml.YAMLError:
            return "unreadable " + name
        x = o
        while isinstance(x, dict) and x:
            q = sorted(x)[rng.randrange(len(x))]
            if isinstance(x[q], dict) and x[q] and rng.random() < 0.7:
                x = x[q]
                continue
            if rng.random() < 0.5:
                del x[q]
            else:
                x[q] = rng.choice([None, -1, 0, "x", [], {}])
            break
        b = yaml.safe_dump(o).encode()
    with open(p, "wb") as f:
        f.write(b)
    return "%s %s" % (k, name)


def rand_edit(rng):
    """change of the records of a navigation file that leaves it well formed"""
    return {"kind": rng.choice(["thin", "first", "gap", "same", "shift", "dup", "null", "big", "none", "late", "order", "sparse", "sparse", "sparse"]),
            "cat": rng.choice(["usbl", "usbl", "orientation", "velocity", "depth", "altitude", "image", "image", "*"]),
            "a": rng.random(), "b": rng.random(), "n": rng.choice([1, 2, 3, 5, 10, 25]), "dt": rng.choice([0.001, 1.0, 25.0, 500.0])}


def edit_records(recs, e):
    head, body = recs[:1], recs[1:]
    mine = [r for r in body if e["cat"] in ("*", r["category"])]
    rest = [r for r in body if not (e["cat"] in ("*", r["category"]))]
    if not mine:
        return recs
    k, n = e["kind"], e["n"]
    t0, t1 = mine[0]["epoch_timestamp"], mine[-1]["epoch_timestamp"]

    def move(r, t):
        d = t - r["epoch_timestamp"]
        for x in [r] + [r[c][0] for c in ("camera1", "camera2", "camera3") if c in r]:
            for q in ("epoch_timestamp", "epoch_timestamp_dvl", "epoch_timestamp_depth"):
                if q in x:
                    x[q] += d
    if k == "thin":
        mine = mine[int(e["a"] * n)::n]
    elif k == "sparse":
        # neighbours further apart than the 20 s or so that separate a jump from a step
        s, last = [], None
        for r in mine:
            if last is None or r["epoch_timestamp"] - last > 20.0 + e["a"]:
                last = r["epoch_timestamp"]
                s.append(r)
        mine = s
    elif k == "first":
        mine = mine[:n] if e["a"] < 0.5 else mine[-n:]
    elif k == "gap":
        a = t0 + e["a"] * (t1 - t0)
        mine = [r for r in mine if not a <= r["epoch_timestamp"] <= a + e["dt"]]
    elif k == "same":
        i = int(e["a"] * len(mine))
        for r in mine[i:i + n]:
            move(r, mine[i]["epoch_timestamp"])
    elif k in ("shift", "late"):
        for r in mine[int(e["a"] * len(mine)) if k == "late" else 0:]:
            move(r, r["epoch_timestamp"] + e["dt"] * (1 if e["b"] < 0.6 else -1))
    elif k == "dup":
        i = int(e["a"] * len(mine))
        mine = mine[:i] + copy.deepcopy(mine[i:i + n]) + mine[i:]
    elif k in ("null", "big"):
        i = int(e["a"] * len(mine))
        for r in mine[i:i + n]:
            for x in r.get("data", []) + r.get("data_target", []):
                for q in sorted(x):
                    if isinstance(x[q], float):
                        x[q] = (None if e["b"] < 0.5 else float("nan")) if k == "null" else x[q] * 1e6
                        break
    elif k == "none":
        mine = []
    body = rest + mine
    if k != "order":
        body.sort(key=lambda r: r["epoch_timestamp"])
    return head + body


class P11(Base):
    """Every command ends."""
    id = "P11"

    def generate(self, rng, tier, seed):
        p = scene(rng)
        p["damage"] = [rand_damage(rng) for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))]
        p["edits"] = []
        if p["what"] == "process" and rng.random() < 0.6:
            p["edits"] = [rand_edit(rng) for _ in range(rng.choice([1, 1, 2, 3]))]
            if rng.random() < 0.7:
                p["damage"] = []
            if any(e["kind"] == "sparse" for e in p["edits"]):
                p["spec"]["dur"] = 75
                p["spec"]["cfg"]["usbl_filter"] = rng.random() < 0.5
                p["spec"]["cfg"].update(pf=False, plot=False)
                if rng.random() < 0.7:
                    p["spec"]["cfg"].update(ekf=False, spp=False)
                for k in ("orientation", "dvl", "depth", "altitude"):
                    p["spec"]["sens"][k]["every"] = 1.0
        if rng.random() < 0.35 or not (p["damage"] or p["edits"]):
            c = {"kind": rng.choice(["enospc", "eio", "short", "read_eio"])}
            if c["kind"] == "read_eio":
                c["rop"] = rng.randrange(0, 30)
            else:
                c["op"] = rng.choice([rng.randrange(0, 12), rng.randrange(0, 300)])
            p["step"]["faults"] = [c]
        return p

    def execute(self, ctx, plan):
        setup(ctx, plan)
        done = []
        for e in plan.get("edits", []):
            p = nav_path(ctx.root, plan["spec"])
            with open(p) as f:
                recs = json.load(f)
            recs = edit_records(recs, e)
            nav.write(p, json.dumps(recs, indent=2))
            done.append("%s of %s" % (e["kind"], e["cat"]))
        for d in plan["damage"]:
            files = []
            for base in ("raw", "processed", "configuration"):
                for dp, dn, fn in os.walk(os.path.join(ctx.root, base)):
                    dn.sort()
                    files += [os.path.join(dp, f) for f in sorted(fn) if not f.endswith((".tif", ".png", ".raw"))]
            done.append(damage(files, d))
        rep = ctx.run(plan["step"])
        ctx.note("exit_%s" % ("ok" if ok_exit(rep) else "error") if rep["status"] == "exit" else rep["status"])
        if rep["status"] in ("deadlock", "livelock"):
            ctx.violate("hang/" + plan["what"], "%s never ends (%s); inputs: %s; faults: %s" % (
                plan["what"], brief(rep), done, plan["step"].get("faults")) + ctx.out(300))

    def shrink(self, plan):
        for key in ("damage", "edits"):
            for i in range(len(plan.get(key, []))):
                c = copy.deepcopy(plan)
                del c[key][i]
                yield c
        if plan["step"].get("faults"):
            c = copy.deepcopy(plan)
            c["step"]["faults"] = []
            yield c
        yield from super().shrink(plan)


PROPS = {p.id: p for p in (P07(), P08(), P09(), P10(), P11())}
