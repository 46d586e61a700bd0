"""helpers of the demonstrations: a generated dive, and the real commands run on it"""
import json
import os
import random
import subprocess
import sys

from worlds import cal, ci, conv, instr, nav, proc

ROOT = sys.argv[1]
PRE = "import sys, os\n"


def command(mod, args, pre="", timeout=200):
    """run `mod.main()` in a child process, with python lines `pre` executed before it"""
    code = PRE + pre + "\nimport %s as M\nsys.argv = %r\nM.main()\n" % (mod, [mod.split(".")[0]] + list(args))
    try:
        r = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True, timeout=timeout, cwd=ROOT)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return "timeout", ""


def auv_nav(*args, **kw):
    return command("auv_nav.auv_nav", args, **kw)


def correct_images(*args, **kw):
    return command("correct_images.correct_images", args, **kw)


def auv_cal(*args, **kw):
    return command("auv_cal.auv_cal", list(args) + [os.path.join(ROOT, "processed", cal.PLACE, "calibration")], **kw)


def ci_spec(seed=1, **over):
    return ci.random_spec(random.Random(seed), **over)


def nav_records(path):
    with open(path) as f:
        return [nav.flatten(r) for r in json.load(f)]


def nav_file(spec):
    return os.path.join(nav.proc_dir(ROOT, spec), "nav", "nav_standard.json")


def nav_spec(seed=1, **over):
    return nav.random_spec(random.Random(seed), **over)


def proc_spec(seed=1, **over):
    return proc.random_spec(random.Random(seed), **over)


def tree(path):
    """relative path -> bytes"""
    out = {}
    for d, _, files in os.walk(path):
        for f in files:
            p = os.path.join(d, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, path)] = fh.read()
    return out


def results(spec):
    """csv tables of the newest result folder"""
    p = nav.proc_dir(ROOT, spec)
    return {k: v for k, v in tree(p).items() if k.startswith("json_renav") and k.endswith(".csv")}


def fail(msg):
    print("FAIL:", str(msg)[:800])
    sys.exit(1)


def done():
    print("ok")
    sys.exit(0)
