"""Solutions to be converted: navigation results, ACFR pose files, HyBIS logs, and readers of what comes out."""
import csv
import io
import math
import os
import random

from . import instr
from .nav import iso, ne_from_ll, proc_dir, raw_dir, write

D = math.pi / 180.0
NAV_COLS = ("timestamp,northing [m],easting [m],depth [m],roll [deg],pitch [deg],heading [deg],altitude [m],latitude [deg],"
            "longitude [deg],vehicle_std_x [m],vehicle_std_y [m],vehicle_std_z [m],vehicle_std_roll [deg],vehicle_std_pitch [deg],"
            "vehicle_std_yaw [deg],vehicle_std_vx [m/s],vehicle_std_vy [m/s],vehicle_std_vz [m/s],vehicle_std_vroll [deg/s],"
            "vehicle_std_vpitch [deg/s],vehicle_std_vyaw [deg/s]")
CAM_COLS = ("relative_path,northing [m],easting [m],depth [m],roll [deg],pitch [deg],heading [deg],altitude [m],timestamp [s],"
            "latitude [deg],longitude [deg],x_velocity [m/s],y_velocity [m/s],z_velocity [m/s],"
            + NAV_COLS[NAV_COLS.index("vehicle_std_x"):])


def pose(rng, origin, t):
    return {"t": t, "n": rng.uniform(-500, 500), "e": rng.uniform(-500, 500), "d": rng.uniform(5, 1500), "alt": rng.uniform(1, 30),
            "roll": rng.uniform(-20, 20), "pitch": rng.uniform(-20, 20), "yaw": rng.uniform(0, 360),
            "lat": origin[0] + rng.uniform(-.01, .01), "lon": origin[1] + rng.uniform(-.01, .01)}


def walk(rng, origin, times):
    """poses of one track: neighbours are close to each other"""
    out, q = [], None
    for t in times:
        p = pose(rng, origin, t)
        if q:
            for k, s in (("n", 1.0), ("e", 1.0), ("d", .5), ("alt", .5), ("roll", 3), ("pitch", 3), ("yaw", 8), ("lat", 1e-5), ("lon", 1e-5)):
                p[k] = q[k] + rng.uniform(-s, s)
            p["yaw"] %= 360
            p["alt"], p["d"] = abs(p["alt"]), abs(p["d"])
        out.append(p)
        q = p
    return out


def put_solution(spec, root, tracks):
    """json_renav*/csv/ekf of the dive; tracks: name -> list of poses (centre), (poses, names) (cameras)"""
    t = iso(spec["t0"]).strftime("%Y%m%d_%H%M%S")
    d = os.path.join(proc_dir(root, spec), "json_renav_%s_%s" % (t, t), "csv", "ekf")
    for name, v in tracks.items():
        if name == "centre":
            rows = [NAV_COLS] + [",".join(map(repr, [p["t"], p["n"], p["e"], p["d"], p["roll"], p["pitch"], p["yaw"], p["alt"], p["lat"],
                                                     p["lon"]] + [.1] * 12)) for p in v]
        else:
            rows = [CAM_COLS] + ["%s," % f + ",".join(map(repr, [p["n"], p["e"], p["d"], p["roll"], p["pitch"], p["yaw"], p["alt"], p["t"],
                                                                 p["lat"], p["lon"], .1, .2, .3] + [.1] * 12)) for p, f in zip(*v)]
        write(os.path.join(d, "auv_ekf_%s.csv" % name), "\n".join(rows) + "\n")


# ------------------------------------------------------------------ ACFR pose files
def data_rows(text):
    """values of the lines of a pose file, and its origin"""
    rows, org = [], {}
    for ln in text.splitlines():
        if ln.startswith("%") or not ln.strip():
            continue
        p = ln.split()
        if p[0].startswith("ORIGIN"):
            org[p[0]] = float(p[1])
        else:
            rows.append(p)
    return org, rows


def put_acfr(path, origin, poses, names=None):
    """a pose file as the ACFR tools write it: fixed header, angles of the frame in radians"""
    n = 55 if names else 44
    out = ["% " + ("STEREO" if names else "VEHICLE") + "_POSE_FILE"] + ["%"] * (n - 1)
    out += ["ORIGIN_LATITUDE  %.16f" % origin[0], "ORIGIN_LONGITUDE %.16f" % origin[1]]
    for i, p in enumerate(poses):
        if names:
            x, y, z = -p["pitch"], p["roll"], p["yaw"] - 90
            if z < -180:
                z += 360
        else:
            x, y, z = p["roll"], p["pitch"], p["yaw"]
        v = ["%d" % i, "%.6f" % p["t"]] + ["%.12f" % p[k] for k in ("lat", "lon", "n", "e", "d")] + ["%.14f" % (a * D) for a in (x, y, z)]
        if names:
            v += [names[0][i], names[1][i]]
        v.append("%.12f" % p["alt"])
        if names:
            v += ["1.5", "0"]
        out.append(" ".join(v))
    write(path, "\n".join(out) + "\n")


def table(text):
    return list(csv.DictReader(io.StringIO(text)))


# ------------------------------------------------------------------ ACFR dives
def acfr_spec(rng):
    s = instr.random_spec(rng)
    toff = rng.choice([[0, 0, 0], [0.5, -0.25, 0]])
    fam = {"velocity": "ae2000", "orientation": "ae2000", "depth": "ae2000", "altitude": "ae2000"}
    parts = {}
    n = rng.choice([3, 8, 20])
    for c, f in list(fam.items()) + [("usbl", rng.choice(["usbl_dump", "sonardyne_mrt"])), ("image", "seaxerocks_3")]:
        p = {"fmt": f, "tz": "utc" if f == "ae2000" else rng.choice(["utc", 9]), "toff": 0.0, "lag": 1.0, "n": n, "step": 1.0, "files": 1,
             "f": 0.01, "o": 0.2}
        if f == "usbl_dump":
            p["id"] = "T1"
        if f == "seaxerocks_3":
            p.update({"first": 5, "sub": 0, "ext": "jpg", "cam_toff": toff})
        parts[c] = p
    if rng.random() < .3:
        del parts[rng.choice(["usbl", "altitude", "depth"])]
    s["parts"] = parts
    return s


# ------------------------------------------------------------------ HyBIS
def hybis_spec(rng):
    t0 = rng.choice([1502943000, 1655000000]) + rng.randrange(80000)
    n = rng.choice([4, 15, 40])
    return {"seed": rng.randrange(1 << 30), "t0": t0, "n": n, "step": rng.choice([1, 2, 5]), "origin": list(rng.choice(
        [(59.85, -7.05), (-33.5, 151.3), (0.4, 0.5)])), "place": "2018/cruise", "dive": "hybis", "images": rng.choice([1, 5, 12]),
        "ref": rng.random() < .7, "yaw": rng.choice([20.0, 180.0, 355.0])}


def ddm(v, w, hemi):
    a = abs(v)
    d = int(a)
    m = (a - d) * 60
    s = "%0*d%08.5f%s" % (w, d, m, hemi[0] if v >= 0 else hemi[1])
    return s, math.copysign(d + float("%.5f" % m) / 60, v)


def build_hybis(spec, root):
    """writes log and images; returns the expected row of every image"""
    rng = random.Random(spec["seed"])
    d = raw_dir(root, spec)
    head = "Date , Time, Roll, Pitch, Heading, Pressure, Altitude, Hybis Long, Hybis Lat"
    rows, pts = [head], []
    t = spec["t0"]
    track = walk(rng, spec["origin"], [0] * spec["n"])
    yaw = spec["yaw"]
    for i, p in enumerate(track):
        w = iso(t)
        yaw = (yaw + rng.uniform(-6, 6)) % 360
        lat = round(p["lat"], 7)
        lon = round(p["lon"], 7)
        slat, lat = ddm(lat, 2, "NS")
        slon, lon = ddm(lon, 3, "EW")
        q = {"t": t, "lat": lat, "lon": lon, "roll": round(p["roll"], 2), "pitch": round(p["pitch"], 2), "yaw": round(yaw, 2) % 360,
             "d": round(p["d"], 2), "alt": round(p["alt"], 2) + .1}
        lost = rng.random() < .1 and 0 < i < spec["n"] - 1
        rows.append("%s, %s, %.2f, %.2f, %.2f, %.2f, %.2f, %s, %s" % (
            w.strftime("%d/%m/%Y"), w.strftime("%H:%M:%S"), q["roll"], q["pitch"], q["yaw"], q["d"], q["alt"], "0" if lost else slon,
            "0" if lost else slat))
        if not lost:
            pts.append(q)
        t += spec["step"] * rng.choice([1, 1, 3])
    write(os.path.join(d, "nav/hybis.csv"), "\n".join(rows) + "\n")
    ref = spec["origin"] if spec["ref"] else (pts[0]["lat"], pts[0]["lon"])
    exp = []
    for i in range(spec["images"]):
        j = rng.randrange(len(pts) - 1)
        a, b = pts[j], pts[j + 1]
        ti = rng.choice([a["t"], b["t"], round(rng.uniform(a["t"], b["t"]), 3), round(rng.uniform(a["t"], b["t"]), 3)])
        f = (ti - a["t"]) / (b["t"] - a["t"])
        x = {k: a[k] + f * (b[k] - a[k]) for k in ("lat", "lon", "roll", "pitch", "d", "alt")}
        x["yaw"] = (a["yaw"] + f * ((b["yaw"] - a["yaw"] + 180) % 360 - 180)) % 360
        x["n"], x["e"] = ne_from_ll(ref, x["lat"], x["lon"])
        x["t"] = ti
        name = "img%03d.jpg" % ((i * 7 + 3) % 100)
        p = os.path.join(d, "image", name)
        write(p, "x")
        ns = int(round(ti * 1000)) * 1000000
        os.utime(p, ns=(ns, ns))
        exp.append(dict(x, name=name))
    return sorted(exp, key=lambda r: r["name"]), pts
