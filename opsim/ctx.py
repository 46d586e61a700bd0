"""Worker-side execution context: runs commands of a plan inside the simulator,
collects statistics and violations, writes the decisions it took back into the
plan so that the plan afterwards is an explicit replay."""
import copy
import hashlib
import os
import shutil

from . import zygote

MAX_JUMPS = 3_000_000        # loop iterations of the code under test in one command


class Ctx:
    def __init__(self, scratch):
        self.scratch = scratch
        self.root = os.path.join(scratch, "w")
        self.violations = []
        self.stats = {"commands": 0, "vtime": 0.0, "steps": 0, "ops": 0, "switches": 0}
        self.fired = {}
        self.sigs = set()
        self.notes = {}
        self.wall = 90

    # ---- scratch
    def clean(self):
        shutil.rmtree(self.scratch, ignore_errors=True)
        os.makedirs(self.root)
        os.makedirs(os.path.join(self.scratch, "t"))

    def fresh(self):
        shutil.rmtree(self.root, ignore_errors=True)
        os.makedirs(self.root)

    def save(self, name):
        """keep a copy of the simulated disk"""
        d = os.path.join(self.scratch, name)
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(self.root, d, symlinks=True)
        return d

    def load(self, name):
        shutil.rmtree(self.root, ignore_errors=True)
        shutil.copytree(os.path.join(self.scratch, name), self.root, symlinks=True)

    def move(self, name):
        d = os.path.join(self.scratch, name)
        shutil.rmtree(d, ignore_errors=True)
        os.rename(self.root, d)
        os.makedirs(self.root)
        return d

    # ---- commands
    def run(self, step, **extra):
        cfg = copy.deepcopy(step)
        cfg.update(extra)
        cfg.setdefault("roots", [self.root])
        cfg.setdefault("tmp_remap", os.path.join(self.scratch, "t"))
        cfg.setdefault("stdout", os.path.join(self.scratch, "out.txt"))
        cfg.setdefault("cwd", self.root)
        cfg["argv"] = [a.replace("@", self.root) for a in cfg.get("argv", [])]
        cfg.setdefault("max_jumps", MAX_JUMPS)
        rep = zygote.run_command(cfg, wall=self.wall)
        self.stats["max_jumps"] = max(self.stats.get("max_jumps", 0), rep.get("jumps", 0))
        self.stats["commands"] += 1
        for k, kk in (("vtime", "vtime"), ("steps", "steps"), ("ops", "ops"), ("nswitch", "switches")):
            self.stats[kk] += rep.get(k, 0)
        for k, v in rep.get("fired", {}).items():
            self.fired[k] = self.fired.get(k, 0) + v
        self.sigs.add(rep.get("sig", "0") + "/" + str(rep.get("ops")))
        # make the plan explicit
        sch = step.setdefault("sched", {})
        if not sch.get("switches"):
            sch["recorded"] = dict(rep.get("switches") or {"s": [], "l": []}, w=rep.get("switches_w") or [])
        return rep

    def out(self, n=2000):
        try:
            with open(os.path.join(self.scratch, "out.txt"), errors="replace") as f:
                return " | " + " / ".join(x.strip() for x in f.read().splitlines() if x.strip())[-n:]
        except OSError:
            return ""

    # ---- verdicts
    def violate(self, key, msg):
        self.violations.append({"key": key, "msg": str(msg)[:1500]})

    def worst(self, k, v):
        """largest deviation seen, of those with a tolerance"""
        self.notes["max_" + k] = max(self.notes.get("max_" + k, 0), round(float(v), 5))

    def note(self, k, n=1):
        self.notes[k] = self.notes.get(k, 0) + n


def materialise(plan):
    """turn recorded decisions into explicit ones"""
    def walk(o):
        if isinstance(o, dict):
            if "recorded" in o:
                rec = o.pop("recorded")
                if not o.get("switches"):
                    o["switches"] = rec
            for v in o.values():
                walk(v)
        elif isinstance(o, list):
            for v in o:
                walk(v)
    p = copy.deepcopy(plan)
    walk(p)
    return p


def strip_recorded(plan):
    def walk(o):
        if isinstance(o, dict):
            o.pop("recorded", None)
            for v in o.values():
                walk(v)
        elif isinstance(o, list):
            for v in o:
                walk(v)
    p = copy.deepcopy(plan)
    walk(p)
    return p


def tree(root, skip=()):
    """{relative path: sha256 of content, or 'd' for a directory}"""
    out = {}
    for dp, dn, fn in os.walk(root):
        dn.sort()
        for n in dn:
            rel = os.path.relpath(os.path.join(dp, n), root)
            if not any(rel.startswith(s) for s in skip):
                out[rel] = "d"
        for n in sorted(fn):
            p = os.path.join(dp, n)
            rel = os.path.relpath(p, root)
            if any(rel.startswith(s) for s in skip):
                continue
            with open(p, "rb") as f:
                out[rel] = hashlib.sha256(f.read()).hexdigest()
    return out


def diff_tree(a, b):
    out = []
    for k in sorted(set(a) | set(b)):
        if k not in a:
            out.append("extra %s" % k)
        elif k not in b:
            out.append("missing %s" % k)
        elif a[k] != b[k]:
            out.append("differs %s" % k)
    return out
