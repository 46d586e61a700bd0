"""Properties of `auv_nav process`."""
import bisect
import copy
import csv
import glob
import math
import os

from worlds import nav, proc
from opsim.ctx import tree, diff_tree
from .common import brief, exc_key, ok_exit, plain, rand_crash, rand_env, rand_sched, resolve


def process_step(rng, spec, force=False, lines=True, window=None, extra=()):
    st = {"prog": "auv_nav", "argv": ["process"] + (["-F"] if force else []) + list(extra)}
    if window:
        st["argv"] += ["-s", window[0], "-e", window[1]]
    st["argv"].append(nav.raw_dir("@", spec))
    st.update(rand_env(rng))
    st["sched"] = rand_sched(rng, lines=lines)
    return st


def renav_dirs(root, spec):
    return sorted(glob.glob(os.path.join(nav.proc_dir(root, spec), "json_renav_*")))


def out_tree(root, spec):
    """the results of process: everything below the json_renav folders"""
    base = nav.proc_dir(root, spec)
    return {k: v for k, v in tree(base).items() if k.startswith("json_renav_") and v != "d"}


def read_csv(path):
    with open(path, newline="") as f:
        rows = list(csv.reader(f))
    if not rows:
        return [], []
    return [h.strip() for h in rows[0]], rows[1:]


def table(path):
    """list of dicts; numbers where they are numbers; None when a row is malformed"""
    head, rows = read_csv(path)
    out = []
    for r in rows:
        if len(r) != len(head):
            return head, None, r
        d = {}
        for h, x in zip(head, r):
            try:
                d[h] = float(x)
            except ValueError:
                d[h] = x
        out.append(d)
    return head, out, None


# ------------------------------------------------------------------ raw sensor tables
RAW = {
    "velocity_body": ("epoch_timestamp_dvl", ["x_velocity", "y_velocity", "z_velocity", "x_velocity_std",
                                              "y_velocity_std", "z_velocity_std"]),
    "velocity_inertial": ("epoch_timestamp", ["north_velocity", "east_velocity", "down_velocity"]),
    "altitude": ("epoch_timestamp", ["altitude"]),
    "orientation": ("epoch_timestamp", ["roll", "pitch", "heading>yaw", "roll_std", "pitch_std", "heading_std>yaw_std"]),
    "depth": ("epoch_timestamp", ["depth", "depth_std"]),
    "usbl": ("epoch_timestamp", ["latitude", "longitude", "northings", "eastings", "depth", "distance_to_ship",
                                 "northings_std", "eastings_std", "depth_std"]),
}


def raw_expect(recs, lo, hi):
    """rows each raw sensor table must have"""
    out = {k: [] for k in RAW}
    for r in recs:
        c = r["category"]
        if not lo <= r["epoch_timestamp"] <= hi:
            continue
        if c == "velocity":
            c = "velocity_body" if r["frame"] == "body" else "velocity_inertial"
            if c == "velocity_body" and abs(r["epoch_timestamp"] - r["epoch_timestamp_dvl"]) >= 1.0:
                continue
        if c not in out:
            continue
        f = nav.flatten(r)
        tk, cols = RAW[c]
        row = [f[tk]]
        for x in cols:
            row.append(f[x.split(">")[0]])
        out[c].append(row)
    return out


def check_raw(ctx, out, recs, lo, hi):
    exp = raw_expect(recs, lo, hi)
    for name, rows in exp.items():
        p = os.path.join(out, "csv", "sensor_values_and_uncertainties", name + ".csv")
        if len(rows) < 2:
            continue
        if not os.path.exists(p):
            ctx.violate("raw/missing", "process reported success but %s.csv does not exist (%d readings)" % (name, len(rows)))
            continue
        head, got, bad = table(p)
        if got is None:
            ctx.violate("raw/malformed", "%s.csv has a malformed row %s" % (name, bad))
            continue
        cols = ["epoch_timestamp"] + [c.split(">")[-1] for c in RAW[name][1]]
        g = [[r.get(c) for c in cols] for r in got]
        if len(g) != len(rows):
            ctx.violate("raw/count", "%s.csv has %d rows for %d readings" % (name, len(g), len(rows)))
            continue
        # equal time stamps may come in any order
        for a, b in zip(sorted(g, key=str), sorted(rows, key=lambda r: str([float(x) for x in r]))):
            if any(not isinstance(x, float) or abs(x - y) > 1e-9 * (1 + abs(y)) for x, y in zip(a, b)):
                ctx.violate("raw/value", "%s.csv has row %s for reading %s" % (name, a, b))
                break


# ------------------------------------------------------------------ navigation solutions
def wrap(d):
    return (d + 180.0) % 360.0 - 180.0


def interp_rows(rows, t, keys):
    """linear interpolation of a solution table (heading the short way round)"""
    lo, hi = 0, len(rows) - 1
    if t < rows[0]["timestamp"] or t > rows[-1]["timestamp"]:
        return None
    while hi - lo > 1:
        m = (lo + hi) // 2
        if rows[m]["timestamp"] <= t:
            lo = m
        else:
            hi = m
    a, b = rows[lo], rows[hi]
    f = 0.0 if b["timestamp"] == a["timestamp"] else (t - a["timestamp"]) / (b["timestamp"] - a["timestamp"])
    out = {}
    for k in keys:
        if k == "heading [deg]":
            out[k] = a[k] + f * wrap(b[k] - a[k])
        else:
            out[k] = a[k] + f * (b[k] - a[k])
    return out


class Sol:
    """tolerances per solution, in metres and degrees; chosen as at least twice the largest error seen on the
    unchanged code over some thousands of simulated dives (DESIGN.md)"""
    def __init__(self, name, folder, tag, pos, ang, depth, alt, rel):
        self.name, self.folder, self.tag = name, folder, tag
        self.pos, self.ang, self.depth, self.alt, self.rel = pos, ang, depth, alt, rel


DR = Sol("dead_reckoning", "dead_reckoning", "dr", 0.4, 0.005, 0.005, 0.1, 0.005)
EKF = Sol("ekf", "ekf", "ekf", 0.6, 1.0, 0.01, 0.1, 0.005)
PF = Sol("particle_filter", "particle_filter", "pf", 1.5, 15.0, 0.5, 1.2, 0.005)

AXES = ["x", "y", "z", "roll", "pitch", "yaw"]
STD = ["vehicle_std_%s %s" % (a, "[m]" if len(a) == 1 else "[deg]") for a in AXES]
KEYS = ["northing [m]", "easting [m]", "depth [m]", "roll [deg]", "pitch [deg]", "heading [deg]", "altitude [m]"]


def dr_span(spec, recs, lo, hi):
    """orientation stamps between the first and the last DVL stamp"""
    dv = [r["epoch_timestamp_dvl"] for r in recs if r["category"] == "velocity" and r["frame"] == "body"
          and lo <= r["epoch_timestamp"] <= hi]
    return [r["epoch_timestamp"] for r in recs if r["category"] == "orientation"
            and lo <= r["epoch_timestamp"] <= hi and dv[0] <= r["epoch_timestamp"] <= dv[-1]]


class Judge:
    def __init__(self, ctx, spec, recs, out, lo, hi):
        self.ctx, self.spec, self.recs, self.out = ctx, spec, recs, out
        self.lo, self.hi = lo, hi
        self.T = proc.Truth(spec)
        self.err = {}
        self.off = {tuple(x) for x in spec["cfg"]["off"]}
        self.has_usbl = bool(spec["sens"].get("usbl"))
        self.span = dr_span(spec, recs, lo, hi)

    def note(self, key, v):
        self.err[key] = max(self.err.get(key, 0.0), v)

    def bad(self, key, msg):
        self.ctx.violate(key, msg)

    def load(self, sol, name, flag, optional=False):
        p = os.path.join(self.out, "csv", sol.folder, name + ".csv")
        if (sol.folder, flag) in self.off:
            if os.path.exists(p):
                self.bad("%s/unwanted" % sol.tag, "%s.csv was written although it is switched off" % name)
            return None
        if not os.path.exists(p):
            if not optional:
                self.bad("%s/missing" % sol.tag, "process reported success but %s.csv does not exist" % name)
            return None
        head, rows, bad = table(p)
        if rows is None:
            self.bad("%s/malformed" % sol.tag, "%s.csv has a malformed row %s" % (name, str(bad)[:200]))
            return None
        return rows

    def row(self, sol, what, r, t, arm, origin=None):
        """one row against the truth"""
        n, e, d = self.T.pos(t, arm)
        shift = (0.0, 0.0) if origin is None else origin
        vals = []
        for k in KEYS:
            if not isinstance(r.get(k), float) or r[k] != r[k]:
                self.bad("%s/novalue" % sol.tag, "%s at %.3f has no %s: %r" % (what, t, k, r.get(k)))
                return False
            vals.append(r[k])
        checks = [("pos", math.hypot(vals[0] - n - shift[0], vals[1] - e - shift[1]), sol.pos),
                  ("depth", abs(vals[2] - d), sol.depth),
                  ("ang", max(abs(wrap(vals[3] - self.T.roll)), abs(wrap(vals[4] - self.T.pitch)),
                              abs(wrap(vals[5] - self.T.heading(t)))),
                   sol.ang * (1.0 + 1.5 * abs(self.spec["traj"]["turn"]))),
                  ("alt", abs(vals[6] - self.T.alt(t, arm)), sol.alt)]
        for nm, v, tol in checks:
            self.note("%s/%s/%s" % (sol.tag, "turn%g" % abs(self.spec["traj"]["turn"]), nm), v)
            if v > tol:
                self.bad("%s/%s" % (sol.tag, nm), "%s at %.3f: %s is off by %.3f (allowed %.2f): %s" % (
                    what, t, nm, v, tol, {k: round(x, 3) for k, x in zip(KEYS, vals)}))
                return False
        return True

    def latlon(self, sol, what, r):
        if not self.has_usbl:
            return True
        la, lo = r.get("latitude [deg]"), r.get("longitude [deg]")
        if not isinstance(la, float) or not isinstance(lo, float):
            self.bad("%s/latlon" % sol.tag, "%s has no latitude or longitude: %r, %r" % (what, la, lo))
            return False
        n, e = nav.ne_from_ll(self.spec["origin"], la, lo)
        v = math.hypot(n - r["northing [m]"], e - r["easting [m]"])
        self.note("%s/latlon" % sol.tag, v)
        if v > 0.05:
            self.bad("%s/latlon" % sol.tag, "%s: latitude/longitude is %.3f m away from northing/easting" % (what, v))
            return False
        return True

    def solution(self, sol):
        """vehicle centre track"""
        rows = self.load(sol, "auv_%s_centre" % sol.tag, "auv_centre")
        origin = None
        if rows:
            ts = [r["timestamp"] for r in rows]
            if any(b <= a for a, b in zip(ts, ts[1:])):
                self.bad("%s/order" % sol.tag, "auv_%s_centre.csv: time stamps do not increase" % sol.tag)
            want = set(self.span)
            if sol is DR:
                if set(ts) - want or want - set(ts) - {self.span[0]}:
                    self.bad("dr/stamps", "auv_dr_centre.csv: %d rows for %d attitude readings between the first and the "
                             "last DVL reading" % (len(ts), len(want)))
            elif want - set(ts) - set(self.span[:2]):
                self.bad("%s/stamps" % sol.tag, "auv_%s_centre.csv lacks %d of the attitude time stamps" % (
                    sol.tag, len(want - set(ts))))
            if not self.has_usbl:
                n, e, _ = self.T.pos(ts[0])
                if sol is DR:
                    self.note("dr/nousbl", math.hypot(rows[0]["northing [m]"], rows[0]["easting [m]"]))
                origin = (rows[0]["northing [m]"] - n, rows[0]["easting [m]"] - e)
            for r in rows:
                if not self.row(sol, "centre", r, r["timestamp"], (0, 0, 0), origin):
                    break
                if not self.latlon(sol, "centre at %.3f" % r["timestamp"], r):
                    break
        return rows, origin

    def sensor(self, sol, name, flag, times, arm, centre, origin, key=None):
        """a camera or payload: every reading inside the track exactly once, at its place"""
        lo, hi = self.span[0], self.span[-1]
        if len(self.span) > 1 and len(times) < 2:
            return
        first = self.span[1] if len(self.span) > 1 else lo
        must = [x for x in times if first < x[0] < hi]
        may = [x for x in times if lo <= x[0] <= hi]
        rows = self.load(sol, name, flag, optional=len(must) < 2)
        if rows is None:
            return
        tk = "timestamp [s]"
        if key is not None:
            tk = key
        ts = [r[tk] for r in rows]
        if any(b < a for a, b in zip(ts, ts[1:])):
            self.bad("%s/order" % sol.tag, "%s.csv: time stamps go back" % name)
        idx = {}
        for t, f in may:
            idx[round(t * 1000)] = (t, f)
        seen = set()
        for r in rows:
            k = round(r[tk] * 1000)
            if k not in idx:
                self.bad("%s/extra" % sol.tag, "%s.csv has a row at %.3f: no reading inside the track (%.3f to %.3f) "
                         "has that time" % (name, r[tk], lo, hi))
                return
            if k in seen:
                self.bad("%s/twice" % sol.tag, "%s.csv has two rows for %.3f" % (name, r[tk]))
                return
            seen.add(k)
            t, f = idx[k]
            if f is not None and r.get("relative_path") != f:
                self.bad("%s/name" % sol.tag, "%s.csv: image at %.3f is called %r, expected %r" % (name, t, r.get("relative_path"), f))
                return
            if key is None:
                if not self.row(sol, name, r, t, arm, origin):
                    return
                if not self.latlon(sol, name, r):
                    return
            else:
                n, e, d = self.T.pos(t, arm)
                o = origin or (0.0, 0.0)
                v = math.hypot(r["northing [m]"] - n - o[0], r["easting [m]"] - e - o[1])
                self.note("%s/%s/pos" % (sol.tag, "payload"), v)
                if v > sol.pos or abs(r["depth [m]"] - d) > sol.depth:
                    self.bad("%s/payload" % sol.tag, "%s.csv: position at %.3f is off by %.3f m, depth by %.3f m" % (
                        name, t, v, r["depth [m]"] - d))
                    return
            if centre:
                c = interp_rows(centre, t, KEYS)
                if c is not None:
                    rx, ry, rz = proc.rot(c["roll [deg]"], c["pitch [deg]"], c["heading [deg]"], *arm)
                    v = math.hypot(r["northing [m]"] - c["northing [m]"] - rx, r["easting [m]"] - c["easting [m]"] - ry)
                    w = abs(r["depth [m]"] - c["depth [m]"] - rz)
                    self.note("%s/rel" % sol.tag, max(v, w))
                    if v > sol.rel or w > sol.rel:
                        self.bad("%s/lever" % sol.tag, "%s.csv at %.3f: %.3f m sideways and %.3f m in depth away from "
                                 "where the vehicle track and the mounting position put it" % (name, t, v, w))
                        return
        miss = [x for x in must if round(x[0] * 1000) not in seen]
        if miss:
            self.bad("%s/lost" % sol.tag, "%s.csv lacks %d of %d readings inside the track (%.3f to %.3f), e.g. %s" % (
                name, len(miss), len(must), lo, hi, miss[0]))

    def cameras(self, sol, centre, origin):
        s = self.spec
        ims = [(a, b) for a, b in zip(proc.image_times(s, 1), proc.image_times(s, 2)) if self.lo <= a[0] <= self.hi]
        self.sensor(sol, "auv_%s_LC" % sol.tag, "camera_1", [a for a, _ in ims], s["vehicle"]["LC"], centre, origin)
        self.sensor(sol, "auv_%s_RC" % sol.tag, "camera_2", [b for _, b in ims], s["vehicle"]["RC"], centre, origin)
        if s.get("laser"):
            ls = [(t, proc.laser_name(s, t)) for t in proc.stamps(s, self.T, "laser") if self.lo <= t <= self.hi]
            self.sensor(sol, "auv_%s_LZ_laser" % sol.tag, "camera_3", ls, s["vehicle"]["LZ"], centre, origin)
        if s.get("payload"):
            pt = [(t, None) for t in proc.payload_times(s)]
            nm = {"dr": "ctd_dr", "ekf": "ctd_ekf", "pf": "ctd_pf"}[sol.tag]
            # the table repeats the logged time; the record is at that time plus the offset
            self.payload(sol, nm, pt, s["vehicle"]["ctd"], centre, origin)

    def payload(self, sol, nm, pt, arm, centre, origin):
        p = os.path.join(self.out, "csv", sol.folder, nm + ".csv")
        toff = self.spec["payload"]["toff"]
        if os.path.exists(p) and toff:
            head, rows, bad = table(p)
            # compare in the logged clock
            pt = [(t, None) for t, _ in pt]
        self._toff = toff
        shifted = Shift(self, toff)
        shifted.sensor(sol, nm, "payload", pt, arm, centre, origin, key="corrected_timestamp")

    def uncertainty(self, sol):
        """the deviations stated for the track and for every image, and the covariance tables they agree with"""
        rows = self.load(sol, "auv_%s_centre" % sol.tag, "auv_centre")
        for r in rows or []:
            for k in STD:
                if not isinstance(r.get(k), float) or not 0 < r[k] < 1e6:
                    self.bad("%s/std" % sol.tag, "centre at %.3f: %s is %r" % (r["timestamp"], k, r.get(k)))
                    return
        times = [r["timestamp"] for r in rows or []]
        for cam in ("LC", "RC", "LZ_laser", "LZ_laser_at_dvl"):
            p = os.path.join(self.out, "csv", sol.folder, "auv_%s_%s" % (sol.tag, cam))
            if not os.path.exists(p + ".csv"):
                continue
            if not os.path.exists(p + "_cov.csv"):
                self.bad("%s/cov/missing" % sol.tag, "there is %s.csv and no covariance table for it" % os.path.basename(p))
                return
            _, a, _ = table(p + ".csv")
            _, b, bad = table(p + "_cov.csv")
            if b is None or [r["relative_path"] for r in a] != [r["relative_path"] for r in b]:
                self.bad("%s/cov/rows" % sol.tag, "%s_cov.csv does not have one row for each image of the table: %s" % (
                    os.path.basename(p), bad))
                return
            for r, c in zip(a, b):
                j = bisect.bisect_right(times, r["timestamp [s]"])
                around = rows[j - 1:j + 1] if 0 < j < len(times) else []
                for i, x in enumerate(AXES):
                    if around:
                        lo, hi = sorted(e[STD[i]] for e in around)
                        self.note("%s/between" % sol.tag, max(lo - r[STD[i]], r[STD[i]] - hi) / (hi + 1e-9))
                        if not lo * 0.999 - 1e-6 <= r[STD[i]] <= hi * 1.001 + 1e-6:
                            self.bad("%s/std/between" % sol.tag, "%s of %s is %g, the track states %g to %g around that time" % (
                                STD[i], r["relative_path"], r[STD[i]], lo, hi))
                            return
                        f = (r["timestamp [s]"] - times[j - 1]) / (times[j] - times[j - 1])
                        d = [abs(r[STD[i]] - e[STD[i]]) for e in around]
                        if f < 0.2 and d[0] > d[1] + 0.1 * (hi - lo) + 1e-6 or f > 0.8 and d[1] > d[0] + 0.1 * (hi - lo) + 1e-6:
                            self.bad("%s/std/nearest" % sol.tag, "%s of %s at %.3f is %g, the track states %g at %.3f and %g at %.3f" % (
                                STD[i], r["relative_path"], r["timestamp [s]"], r[STD[i]], around[0][STD[i]], times[j - 1],
                                around[1][STD[i]], times[j]))
                            return
                    v = c["cov_%s_%s" % (x, x)]
                    w = r[STD[i]] if i < 3 else math.radians(r[STD[i]])
                    self.note("%s/cov" % sol.tag, abs(math.sqrt(max(v, 0)) - w) / (1e-6 + w))
                    if not v > 0 or abs(math.sqrt(v) - w) > 1e-4 * w + 1e-7:
                        self.bad("%s/cov/std" % sol.tag, "%s of %s: the table says %g, the covariance table %g squared" % (
                            STD[i], r["relative_path"], r[STD[i]], v))
                        return
                    for y in AXES[:i]:
                        q, q2 = c["cov_%s_%s" % (x, y)], c["cov_%s_%s" % (y, x)]
                        m = math.sqrt(v * c["cov_%s_%s" % (y, y)])
                        self.note("%s/corr" % sol.tag, abs(q) / m)
                        self.note("%s/sym" % sol.tag, abs(q - q2) / m)
                        if abs(q - q2) > 1e-5 * m or abs(q) > 1.0001 * m:
                            self.bad("%s/cov/shape" % sol.tag, "covariance of %s and %s of %s is %g and %g, with variances of product %g" % (
                                x, y, r["relative_path"], q, q2, m * m))
                            return

    def at_dvl(self):
        return os.path.join(self.out, "csv", "ekf", "auv_ekf_LZ_laser_at_dvl")

    def relative(self, a, b, before, after):
        """relative uncertainties of the laser images a to b: tables of exactly these, nothing else touched"""
        new = {k: v for k, v in after.items() if k not in before}
        d = [k for k in before if k.endswith(".csv") and after.get(k) != before[k]]
        if d:
            self.bad("relative/touched", "computing relative uncertainties changed %s" % d[:3])
            return
        _, pose, _ = table(self.at_dvl() + ".csv")
        _, cov, _ = table(self.at_dvl() + "_cov.csv")
        names = [r["relative_path"] for r in pose]
        i, j = names.index(a), names.index(b)
        for how in ("subtraction", "ekf_propagation"):
            p = os.path.join(self.out, "csv", "ekf", "auv_ekf_cov_based_on_%s_LZ_laser_at_dvl" % how)
            if not os.path.exists(p + ".csv") or not os.path.exists(p + "_cov.csv"):
                self.bad("relative/missing", "no table %s.csv and _cov.csv" % os.path.basename(p))
                return
            _, r, bad = table(p + ".csv")
            _, c, bad2 = table(p + "_cov.csv")
            for x in (r, c):
                if x is None or [y["relative_path"] for y in x] != names[i:j + 1]:
                    self.bad("relative/rows", "%s: rows %s, images asked for %s" % (
                        os.path.basename(p), x and [y["relative_path"] for y in x][:4], names[i:j + 1][:4]))
                    return
            for k, (x, y) in enumerate(zip(r, c)):
                if abs(x["timestamp [s]"] - pose[i + k]["timestamp [s]"]) > 0.0005:
                    self.bad("relative/time", "%s: %s at %.3f" % (os.path.basename(p), x["relative_path"], x["timestamp [s]"]))
                    return
                g = math.hypot(x["northing [m]"] - pose[i + k]["northing [m]"], x["easting [m]"] - pose[i + k]["easting [m]"])
                self.note("relative/%s/pos" % how, g)
                for u in AXES:
                    for w in AXES:
                        q = y["cov_%s_%s" % (u, w)]
                        m = math.sqrt(max(y["cov_%s_%s" % (u, u)], 0) * max(y["cov_%s_%s" % (w, w)], 0))
                        want = None
                        if how == "subtraction":
                            want = 0.0 if k == 0 else cov[i]["cov_%s_%s" % (u, w)] + cov[i + k]["cov_%s_%s" % (u, w)]
                            if abs(q - want) > 1e-9 + 1e-6 * abs(want):
                                self.bad("relative/sum", "covariance %s %s of %s relative to %s: %g, the sum is %g" % (
                                    u, w, x["relative_path"], a, q, want))
                                return
                            if g > 1e-6:
                                self.bad("relative/pose", "%s is not where the table says" % x["relative_path"])
                                return
                        elif k == 0 and abs(q) > 1e-5:
                            self.bad("relative/first", "covariance %s %s of %s relative to itself is %g" % (u, w, a, q))
                            return
                        elif k and (u == w and q <= 0 or abs(q) > 1.0001 * m + 1e-12 or abs(q - y["cov_%s_%s" % (w, u)]) > 1e-5 * m + 1e-12):
                            self.bad("relative/shape", "covariance %s %s of %s relative to %s is %g and %g (variances' product %g)" % (
                                u, w, x["relative_path"], a, q, y["cov_%s_%s" % (w, u)], m * m))
                            return

    def usbl(self):
        """accepted fixes are real fixes, in order, none of the gross errors"""
        p = os.path.join(self.out, "csv", "auv_usbl.csv")
        fixes = [nav.flatten(r) for r in self.recs if r["category"] == "usbl"]
        k = 0
        good = {}
        for r in fixes:
            good[r["epoch_timestamp"]] = (r, self.spec["outliers"].get(str(k)))
            k += 1
        if not os.path.exists(p):
            if len(fixes) > 12:
                self.bad("usbl/missing", "auv_usbl.csv does not exist")
            return
        head, rows, bad = table(p)
        if rows is None:
            self.bad("usbl/malformed", "auv_usbl.csv has a malformed row %s" % bad)
            return
        last = None
        for r in rows:
            t = r["Timestamp"]
            if t not in good or (last is not None and t <= last):
                self.bad("usbl/rows", "auv_usbl.csv: %.3f is not a fix, or is out of order" % t)
                return
            last = t
            f, bad = good[t]
            if bad and self.spec["cfg"]["usbl_filter"]:
                self.bad("usbl/outlier", "auv_usbl.csv accepts the fix at %.3f, which is wrong by hundreds of metres (%s)" % (t, bad))
                return
            for a, b in (("Northing [m]", "northings"), ("Easting [m]", "eastings"), ("Depth [m]", "depth"),
                         ("Latitude [deg]", "latitude"), ("Longitude [deg]", "longitude")):
                if abs(r[a] - f[b]) > 1e-9 * (1 + abs(f[b])):
                    self.bad("usbl/value", "auv_usbl.csv: %s at %.3f is %r, the fix says %r" % (a, t, r[a], f[b]))
                    return

    def all(self):
        cfg = self.spec["cfg"]
        check_raw(self.ctx, self.out, self.recs, self.lo, self.hi)
        if not cfg["csv"]:
            return
        centre, origin = self.solution(DR)
        self.cameras(DR, centre, origin)
        dvl = self.load(DR, "auv_dr_dvl", "auv_dvl")
        if centre and dvl:
            by = {r["timestamp"]: r for r in dvl}
            arm = self.spec["vehicle"]["dvl"]
            for r in centre:
                q = by.get(r["timestamp"])
                if q is None:
                    self.bad("dr/dvl", "auv_dr_dvl.csv lacks %.3f" % r["timestamp"])
                    break
                x, y, _ = proc.rot(r["roll [deg]"], r["pitch [deg]"], r["heading [deg]"], *arm)
                v = math.hypot(q["northing [m]"] - r["northing [m]"] - x, q["easting [m]"] - r["easting [m]"] - y)
                self.note("dr/dvl", v)
                if v > 0.01:
                    self.bad("dr/dvl", "auv_dr_dvl.csv at %.3f is %.3f m away from the DVL's place on the vehicle" % (r["timestamp"], v))
                    break
        if self.has_usbl and cfg["csv_usbl"]:
            self.usbl()
        if cfg["ekf"]:
            c, o = self.solution(EKF)
            self.cameras(EKF, c, origin if not self.has_usbl else None)
            if self.spec.get("laser"):
                ls = [(t, proc.laser_name(self.spec, t)) for t in proc.stamps(self.spec, self.T, "laser") if self.lo <= t <= self.hi]
                self.sensor(EKF, "auv_ekf_LZ_laser_at_dvl", "camera_3", ls, self.spec["vehicle"]["dvl"], c,
                            origin if not self.has_usbl else None)
            self.uncertainty(EKF)
        if cfg["pf"] and self.has_usbl:
            c, o = self.solution(PF)
            self.cameras(PF, c, None)


class Shift(Judge):
    """payload tables carry the logged time; the reading belongs to logged time + offset"""
    def __init__(self, j, toff):
        self.__dict__.update(j.__dict__)
        self.toff = toff

    def load(self, sol, name, flag, optional=False):
        rows = Judge.load(self, sol, name, flag, optional)
        if rows:
            for r in rows:
                r["corrected_timestamp"] += self.toff
        return rows


def stamp(t):
    return nav.iso(t).strftime("%Y%m%d%H%M%S")


def rand_window(rng, spec):
    """a time window on whole seconds"""
    a = math.ceil(spec["t0"]) + rng.randrange(0, 6)
    b = a + rng.randrange(22, max(23, spec["dur"] - 4))
    return [stamp(a), stamp(b)]


def bounds(plan, recs):
    if plan.get("window"):
        import calendar
        import time
        return tuple(float(calendar.timegm(time.strptime(x, "%Y%m%d%H%M%S"))) for x in plan["window"])
    return recs[1]["epoch_timestamp"], recs[-1]["epoch_timestamp"]


def shrink_proc(spec):
    def v(f):
        c = copy.deepcopy(spec)
        f(c)
        return c
    if spec["dur"] > 30:
        yield v(lambda c: c.update(dur=30))
    for k in ("ekf", "pf", "plot", "spp"):
        if spec["cfg"][k]:
            yield v(lambda c, k=k: c["cfg"].update({k: False}))
    for k in ("payload", "laser"):
        if spec.get(k):
            yield v(lambda c, k=k: c.update({k: None}))
    if spec["sens"].get("inertial"):
        yield v(lambda c: c["sens"].pop("inertial"))
    if spec["outliers"]:
        yield v(lambda c: c.update(outliers={}))
    if spec["cfg"]["off"]:
        yield v(lambda c: c["cfg"].update(off=[]))
    for k in spec["sens"]:
        if spec["sens"][k].get("out"):
            yield v(lambda c, k=k: c["sens"][k].pop("out"))
        if spec["sens"][k]["every"] < 1.0:
            yield v(lambda c, k=k: c["sens"][k].update(every=1.0))


class Base:
    need = set()

    def shrink(self, plan):
        for s in shrink_proc(plan["spec"]):
            c = copy.deepcopy(plan)
            c["spec"] = s
            yield c


class P05(Base):
    """Process output does not depend on the schedule or the host; raw tables are complete."""
    id = "P05"

    def generate(self, rng, tier, seed):
        spec = proc.random_spec(rng)
        win = rand_window(rng, spec) if rng.random() < 0.15 else None
        return {"spec": spec, "window": win, "step": process_step(rng, spec, window=win)}

    def execute(self, ctx, plan):
        spec = plan["spec"]
        recs = proc.build(spec, ctx.root)
        ctx.save("start")
        ref = ctx.run(plain(plan["step"]))
        if not ok_exit(ref):
            ctx.violate("process-fails/" + exc_key(ref), "process of an intact dive ended with " + brief(ref) + ctx.out(500))
            return
        want = out_tree(ctx.root, spec)
        ctx.load("start")
        rep = ctx.run(plan["step"])
        if not ok_exit(rep):
            ctx.violate("schedule-fails/" + exc_key(rep), "process of an intact dive ended with %s under one schedule, with "
                        "success under another" % brief(rep) + ctx.out(500))
            return
        d = diff_tree(want, out_tree(ctx.root, spec))
        if d:
            ctx.violate("schedule/" + d[0].split()[0], "the results differ between two runs on the same dive: " + "; ".join(d[:5]))
        lo, hi = bounds(plan, recs)
        for o in renav_dirs(ctx.root, spec):
            check_raw(ctx, o, recs, lo, hi)


class P06(Base):
    """The navigation solutions are where the vehicle was; every image inside the track once."""
    id = "P06"

    def generate(self, rng, tier, seed):
        spec = proc.random_spec(rng, small=(tier == "quick" or rng.random() < 0.6))
        win = rand_window(rng, spec) if rng.random() < 0.15 else None
        plan = {"spec": spec, "window": win, "step": process_step(rng, spec, window=win)}
        if spec["laser"] and spec["cfg"]["ekf"] and rng.random() < 0.7:
            plan["relative"] = {"from": rng.random(), "to": rng.random(), "step": process_step(rng, spec, window=win)}
        return plan

    def relative(self, ctx, plan, j):
        """the second mode of process: uncertainty of the laser images relative to one of them"""
        rel = plan["relative"]
        if not os.path.exists(j.at_dvl() + "_cov.csv"):
            return
        names = [r["relative_path"] for r in table(j.at_dvl() + ".csv")[1]]
        if len(names) < 2:
            return
        a, b = sorted((int(rel["from"] * len(names)), int(rel["to"] * len(names))))
        if a == b:          # an image relative to itself: nothing to compute
            a, b = (a, b + 1) if b + 1 < len(names) else (a - 1, b)
        before = tree(j.out)
        st = copy.deepcopy(rel["step"])
        st["argv"][1:1] = ["-r", "--start_image_identifier", names[a], "--end_image_identifier", names[b]]
        rep = ctx.run(st)
        if rep["status"] != "exit" or rep.get("exc"):
            ctx.violate("relative/fails/" + exc_key(rep), "relative uncertainties of %s to %s: %s %s" % (names[a], names[b], brief(rep), ctx.out(500)))
            return
        j.relative(names[a], names[b], before, tree(j.out))

    def execute(self, ctx, plan):
        spec = plan["spec"]
        recs = proc.build(spec, ctx.root)
        rep = ctx.run(plan["step"])
        if not ok_exit(rep):
            ctx.violate("process-fails/" + exc_key(rep), "process of an intact dive ended with " + brief(rep) + ctx.out(500))
            return
        ds = renav_dirs(ctx.root, spec)
        if len(ds) != 1:
            ctx.violate("output", "process left %d result folders" % len(ds))
            return
        lo, hi = bounds(plan, recs)
        j = Judge(ctx, spec, recs, ds[0], lo, hi)
        j.all()
        if plan.get("relative") and not ctx.violations:
            self.relative(ctx, plan, j)
        ctx.err = j.err


PROPS = {p.id: p for p in (P05(), P06())}
