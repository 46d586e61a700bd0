"""Conversion of solutions: `auv_nav convert`."""
import copy
import math
import os
import random

from worlds import conv, instr, nav
from opsim.ctx import diff_tree
from .common import brief, exc_key, load_json, nav_path, ok_exit, parse_step, plain, rand_env, rand_sched, resolve

D = math.pi / 180.0


def near(a, b, tol=1e-6):
    try:
        return abs(float(a) - float(b)) <= tol * max(1.0, abs(float(b)))
    except (TypeError, ValueError):
        return False


def near_angle(a, b, tol=1e-6):
    try:
        return abs((float(a) - float(b) + 180) % 360 - 180) <= tol
    except (TypeError, ValueError):
        return False


def conv_step(rng, args):
    st = {"prog": "auv_nav", "argv": ["convert"] + args}
    st.update(rand_env(rng))
    st["sched"] = rand_sched(rng)
    return st


def tree(base):
    out = {}
    for d, _, fs in os.walk(base):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, "rb") as o:
                out[os.path.relpath(p, base)] = o.read()
    return out


def forced(st):
    c = copy.deepcopy(st)
    c["argv"].append("-F")
    c["faults"] = []
    return c


class P20:
    """Converted solutions keep every pose and image, and never silently replace results."""
    id = "P20"
    need = set()

    def generate(self, rng, tier, seed):
        what = rng.choice(["to_acfr", "from_acfr", "from_acfr", "hybis"])
        p = {"what": what}
        if what == "hybis":
            p["spec"] = s = conv.hybis_spec(rng)
            raw = nav.raw_dir("@", s)
            ref = s["origin"] if s["ref"] else (0, 0)
            p["out"] = nav.proc_dir("@", s)
            p["step"] = conv_step(rng, ["hybis_to_oplab", "-i", raw + "/nav/hybis.csv", "-d", raw + "/image", "-o", nav.raw_dir("@", s),
                                        "--reference-lat=%r" % ref[0], "--reference-lon=%r" % ref[1]])
        else:
            p["spec"] = s = conv.acfr_spec(rng)
            p["tracks"] = rng.randrange(1 << 30)
            p["parse"] = plain(parse_step(rng, [nav.raw_dir("@", s)]))
            p["out"] = nav.proc_dir("@", s) + "/converted"
            if what == "to_acfr":
                p["step"] = conv_step(rng, ["oplab_to_acfr", nav.raw_dir("@", s), p["out"]])
            else:
                p["n"] = rng.choice([2, 3, 9, 25])
                v, st = rng.choice([(1, 1), (1, 1), (1, 0), (0, 1)])
                p["laser"] = bool(st) and rng.random() < .7
                a = []
                if v:
                    a += ["--vehicle-pose", "@/acfr/vehicle_pose_est.data"]
                if st:
                    a += ["--stereo-pose", "@/acfr/stereo_pose_est.data"]
                if p["laser"]:
                    a += ["-d", nav.raw_dir("@", s)]
                p["step"] = conv_step(rng, ["acfr_to_oplab"] + a + ["-o", p["out"]])
        p["fault"] = None
        if rng.random() < .5:
            k = rng.choice(["crash", "crash", "eio", "enospc", "short"])
            p["fault"] = {"kind": k, "frac": rng.random(), "keep": rng.choice([0.0, rng.random()])}
            if rng.random() < .6:
                p["fault"]["aim"] = rng.random()
        p["old"] = rng.random() < .3
        return p

    # ---------------------------------------------------------------- inputs
    def prepare(self, ctx, plan, second=False):
        """raw data and the solution to convert; `second` writes another solution of the same dive"""
        s = plan["spec"]
        if plan["what"] == "hybis":
            if second:
                s = dict(s, seed=s["seed"] + 1)
            if not second or True:
                d = os.path.join(nav.raw_dir(ctx.root, s), "image")
                for f in (os.listdir(d) if os.path.isdir(d) else []):
                    os.remove(os.path.join(d, f))
                self.exp, self.pts = conv.build_hybis(s, ctx.root)
            return True
        if not second:
            instr.build(s, ctx.root)
            if not ok_exit(ctx.run(plan["parse"])):
                return False
            self.nav = load_json(nav_path(ctx.root, s))
        rng = random.Random(plan["tracks"] + second)
        im = [r for r in self.nav if r["category"] == "image"]
        if plan["what"] == "to_acfr":
            ts = [r["epoch_timestamp"] for r in self.nav[1:]]
            self.centre = conv.walk(rng, s["origin"], [ts[0] + .1 * i for i in range(rng.choice([2, 30]))])
            self.cams = [(conv.walk(rng, s["origin"], [r["camera%d" % k][0]["epoch_timestamp"] for r in im]),
                          [r["camera%d" % k][0]["filename"] for r in im]) for k in (1, 2)]
            conv.put_solution(s, ctx.root, {"centre": self.centre, "Cam1": self.cams[0], "Cam2": self.cams[1]})
            return True
        n = plan["n"]
        la = [r["epoch_timestamp"] for r in self.nav if r["category"] == "laser"]
        t0 = la[0] - rng.choice([.5, -.5]) if la else s["t0"]
        step = max(.2, (la[-1] - la[0] + 1.2) / (n - 1)) if la else 1.0
        ts = [round(t0 + i * step, 3) for i in range(n)]
        self.centre = conv.walk(rng, s["origin"], ts)
        cams = conv.walk(rng, s["origin"], ts)
        self.cams = [(cams, ["PR_%04d_LC16.tif" % i for i in range(n)]), (cams, ["PR_%04d_RM16.tif" % i for i in range(n)])]
        conv.put_acfr(os.path.join(ctx.root, "acfr/vehicle_pose_est.data"), s["origin"], self.centre)
        conv.put_acfr(os.path.join(ctx.root, "acfr/stereo_pose_est.data"), s["origin"], cams, (self.cams[0][1], self.cams[1][1]))
        return True

    def outputs(self, ctx, plan):
        if plan["what"] == "hybis":
            base = nav.proc_dir(ctx.root, plan["spec"])
            return {k: v for k, v in tree(base).items() if k.startswith("json_renav")} if os.path.isdir(base) else {}
        base = plan["out"].replace("@", ctx.root)
        return tree(base) if os.path.isdir(base) else {}

    # ---------------------------------------------------------------- oracle
    def judge(self, ctx, plan, out):
        w = getattr(self, "judge_" + plan["what"])(plan, {k: v.decode("utf-8", "replace") for k, v in out.items()})
        if w:
            ctx.violate("content/%s/%s" % (plan["what"], w[0]), "%s: %s" % (" ".join(plan["step"]["argv"][:2]), w[1]))
            return False
        return True

    def judge_to_acfr(self, plan, out):
        s = plan["spec"]
        for name, poses, names in (("vehicle_pose_est.data", self.centre, None), ("stereo_pose_est.data", self.cams[0][0], self.cams)):
            if name not in out:
                return "missing", "no %s" % name
            org, rows = conv.data_rows(out[name])
            if not near(org.get("ORIGIN_LATITUDE"), s["origin"][0]) or not near(org.get("ORIGIN_LONGITUDE"), s["origin"][1]):
                return "origin", "%s gives origin %s instead of %s" % (name, org, s["origin"])
            if len(rows) != len(poses):
                return "rows", "%s has %d poses instead of %d" % (name, len(rows), len(poses))
            for i, (r, p) in enumerate(zip(rows, poses)):
                want = [i, p["t"], p["lat"], p["lon"], p["n"], p["e"], p["d"]]
                for v, x, k in zip(r, want, ("identifier", "time", "latitude", "longitude", "north", "east", "depth")):
                    if not near(v, x, 1e-9):
                        return "value", "%s of pose %d in %s is %s, not %s" % (k, i, name, v, x)
                ang = (-p["pitch"], p["roll"], p["yaw"] - 90) if names else (p["roll"], p["pitch"], p["yaw"])
                for v, x, k in zip(r[7:10], ang, "XYZ"):
                    if not near_angle(math.degrees(float(v)), x):
                        return "angle", "%s angle of pose %d in %s is %s rad, not %s" % (k, i, name, v, x * D)
                rest = r[10:]
                if names:
                    if rest[:2] != [os.path.basename(names[0][1][i]), os.path.basename(names[1][1][i])]:
                        return "name", "pose %d of %s names %s" % (i, name, rest[:2])
                    rest = rest[2:]
                if not near(rest[0], p["alt"], 1e-9):
                    return "altitude", "altitude of pose %d in %s is %s, not %s" % (i, name, rest[0], p["alt"])
        raw = out.get("dRAWLOGS_cv/combined.RAW.auv")
        if raw is None:
            return "missing", "no combined.RAW.auv"
        want, alt, ori = [], None, None
        for r in self.nav[1:]:
            f = nav.flatten(r)
            t, c = f["epoch_timestamp"], f["category"]
            if c == "velocity" and f.get("frame") == "body" and alt and ori:
                want.append(("RDI:", t, [alt["altitude"], ori["heading"], ori["pitch"], ori["roll"], f["x_velocity"], f["y_velocity"],
                                         f["z_velocity"]]))
                alt = ori = None
            elif c == "altitude":
                alt = f
            elif c == "orientation":
                ori = f
                want.append(("PHINS_COMPASS:", t, [f["roll"], f["pitch"], f["heading"]]))
            elif c == "depth":
                want.append(("PAROSCI:", f["epoch_timestamp_depth"], [f["depth"]]))
            elif c == "usbl":
                want.append(("SSBL_FIX:", t, [f["northings"], f["eastings"], f["depth"]]))
            elif c == "image":
                want.append(("VIS:", r["camera1"][0]["epoch_timestamp"], r["camera1"][0]["filename"]))
                want.append(("VIS:", r["camera2"][0]["epoch_timestamp"], r["camera2"][0]["filename"]))
        lines = raw.splitlines()
        if len(lines) != len(want):
            return "raw_rows", "combined.RAW.auv has %d lines instead of %d" % (len(lines), len(want))
        for ln, (k, t, v) in zip(lines, want):
            q = ln.split()
            if q[0] != k or not near(q[1], t, 1e-12):
                return "raw_order", "combined.RAW.auv has %r where %s %s is expected" % (ln[:80], k, t)
            if k == "VIS:":
                ok = q[3] == v
            else:
                words = [x for x in ln.replace(":", " ").split()]
                ok = True
                for x in v:
                    hit = [i for i, y in enumerate(words) if near(y, x, 1e-12)]
                    if not hit:
                        ok = False
            if not ok:
                return "raw_value", "combined.RAW.auv has %r, expected values %s" % (ln[:200], v)
        return None

    def judge_from_acfr(self, plan, out):
        argv = plan["step"]["argv"]
        jobs = []
        if "--vehicle-pose" in argv:
            jobs.append(("centre", self.centre, None))
        if "--stereo-pose" in argv:
            jobs += [("LC", self.cams[0][0], self.cams[0][1]), ("RC", self.cams[1][0], self.cams[1][1])]
        for key, poses, names in jobs:
            name = [k for k in out if key in k and k.endswith(".csv")]
            if len(name) != 1:
                return "missing", "%d tables of %s: %s" % (len(name), key, sorted(out))
            rows = conv.table(out[name[0]])
            if len(rows) != len(poses):
                return "rows", "%s has %d poses instead of %d" % (name[0], len(rows), len(poses))
            for i, (r, p) in enumerate(zip(rows, poses)):
                w = self.row(r, p, names[i] if names else None)
                if w:
                    return "value", "row %d of %s: %s" % (i, name[0], w)
        if plan["laser"]:
            name = [k for k in out if "laser" in k]
            if len(name) != 1:
                return "missing", "%d laser tables: %s" % (len(name), sorted(out))
            rows = conv.table(out[name[0]])
            la = [r for r in self.nav if r["category"] == "laser"]
            if len(rows) != len(la):
                return "laser_rows", "%s has %d images instead of %d" % (name[0], len(rows), len(la))
            cams = self.cams[0][0]
            for r, x in zip(rows, la):
                t = x["epoch_timestamp"]
                if r["relative_path"] != x["filename"] or not near(r["timestamp [s]"], t, 1e-12):
                    return "laser_name", "%s at %s where %s at %s is expected" % (r["relative_path"], r["timestamp [s]"], x["filename"], t)
                for a, b in zip(cams, cams[1:]):
                    if a["t"] <= t <= b["t"]:
                        f = (t - a["t"]) / (b["t"] - a["t"])
                        q = {k: a[k] + f * (b[k] - a[k]) for k in a}
                        q["yaw"] = a["yaw"] + f * ((b["yaw"] - a["yaw"] + 180) % 360 - 180)
                        w = self.row(r, q, None, 1e-5)
                        if w:
                            return "laser_value", "laser image at %s between poses at %s and %s: %s" % (t, a["t"], b["t"], w)
                        break
        return None

    def row(self, r, p, name, tol=1e-7):
        if name is not None and r["relative_path"] != name:
            return "image %s instead of %s" % (r["relative_path"], name)
        t = r.get("timestamp [s]", r.get("timestamp"))
        if not near(t, p["t"], 1e-12):
            return "time %s instead of %s" % (t, p["t"])
        for k, c in (("n", "northing [m]"), ("e", "easting [m]"), ("d", "depth [m]"), ("alt", "altitude [m]"), ("lat", "latitude [deg]"),
                     ("lon", "longitude [deg]")):
            if not near(r[c], p[k], tol):
                return "%s is %s instead of %s" % (c, r[c], p[k])
        for k, c in (("roll", "roll [deg]"), ("pitch", "pitch [deg]"), ("yaw", "heading [deg]")):
            if not near_angle(r[c], p[k], 1e-5):
                return "%s is %s instead of %s" % (c, r[c], p[k])
        return None

    def judge_hybis(self, plan, out):
        name = [k for k in out if k.endswith(".csv")]
        if len(name) != 1:
            return "missing", "%d tables: %s" % (len(name), sorted(out))
        rows = conv.table(out[name[0]])
        if len(rows) != len(self.exp):
            return "rows", "%d rows for %d images" % (len(rows), len(self.exp))
        for i, (r, x) in enumerate(zip(rows, self.exp)):
            if os.path.basename(r["relative_path"]) != x["name"]:
                return "name", "row %d is of %s, not of %s" % (i, r["relative_path"], x["name"])
            r.setdefault("timestamp [s]", r.get("timestamp"))
            for k, c in (("n", "northing [m]"), ("e", "easting [m]")):
                if abs(float(r[c]) - x[k]) > .02:
                    return "value", "%s of %s is %s instead of %s" % (c, x["name"], r[c], x[k])
            y = dict(x, n=float(r["northing [m]"]), e=float(r["easting [m]"]))
            w = self.row(r, y, None, 1e-6)
            if w:
                return "value", "%s: %s" % (x["name"], w)
        return None

    # ---------------------------------------------------------------- run
    def execute(self, ctx, plan):
        st = plan["step"]
        cmd = st["argv"][1]
        if not self.prepare(ctx, plan):
            ctx.note("no_parse")
            return
        ctx.note(plan["what"])
        if plan["old"]:
            # earlier results, of another solution
            if not ok_exit(ctx.run(plain(st))):
                ctx.violate("fails/%s" % plan["what"], "%s of an intact solution failed" % cmd + ctx.out(600))
                return
            self.prepare(ctx, plan, second=True)
            ctx.note("replaced")
        old = self.outputs(ctx, plan)
        ctx.save("start")
        run = forced(st) if plan["old"] else copy.deepcopy(st)
        run["faults"] = []
        rep = ctx.run(run)
        if not ok_exit(rep):
            ctx.violate("fails/%s/%s" % (plan["what"], exc_key(rep)), "%s of an intact solution ended with %s" % (cmd, brief(rep)) + ctx.out(600))
            return
        want = self.outputs(ctx, plan)
        if plan["what"] == "hybis" and plan["old"]:
            # another solution may span another time, and so has a folder of its own
            want = {k: v for k, v in want.items() if k not in old or old[k] != v} or want
            new = want
        else:
            new = want
        if not self.judge(ctx, plan, new):
            return
        ctx.note("nontrivial")
        want = self.outputs(ctx, plan)
        if plan["fault"]:
            ctx.load("start")
            f = plan["fault"] = resolve(plan["fault"], rep["oplog"], ["/converted", "json_renav"]) if "frac" in plan["fault"] else plan["fault"]
            run["faults"] = [f]
            ops = rep["oplog"]
            w = "%s at file operation %d (%s)" % (f["kind"], f["op"], " ".join(map(str, ops[f["op"]])) if f["op"] < len(ops) else "?")
            rep = ctx.run(run)
            if rep["status"] in ("deadlock", "livelock"):
                ctx.violate("hang", "%s never ends after %s" % (cmd, w))
                return
            if ok_exit(rep):
                d = diff_tree(want, self.outputs(ctx, plan))
                if d:
                    ctx.violate("silent/" + plan["what"], "%s ended with status 0 although %s: %s" % (cmd, w, "; ".join(d[:3])))
                    return
                ctx.note("harmless")
            else:
                ctx.note("stopped")
        # again, without the overwrite option
        have = self.outputs(ctx, plan)
        again = plain(st)
        rep = ctx.run(again)
        now = self.outputs(ctx, plan)
        lost = [k for k in have if now.get(k) != have[k] and have[k]]
        if lost:
            ctx.violate("overwrites/" + plan["what"], "%s without -F replaced the existing %s" % (cmd, lost[:3]))
            return
        if ok_exit(rep):
            d = diff_tree(want, now)
            if d:
                ctx.violate("incomplete/" + plan["what"], "%s without -F ended with status 0 and left %s" % (cmd, "; ".join(d[:3])))
                return
            ctx.note("completed")
        rep = ctx.run(forced(again))
        if not ok_exit(rep):
            ctx.violate("forced/%s" % plan["what"], "%s -F over earlier results ended with %s" % (cmd, brief(rep)) + ctx.out(400))
            return
        d = diff_tree(want, self.outputs(ctx, plan))
        if d:
            ctx.violate("differs/" + plan["what"], "%s -F over earlier results differs from a first run: %s" % (cmd, "; ".join(d[:3])))

    def shrink(self, plan):
        for k, v in (("old", False), ("fault", None)):
            if plan[k]:
                c = copy.deepcopy(plan)
                c[k] = v
                yield c


PROPS = {p.id: p for p in (P20(),)}
