"""Dives recorded by other vehicles: every instrument log format next to PHINS and GAPS.

`build` writes the raw folder of a dive from a JSON spec and returns the
records a user expects, computed from the numbers put into the logs.  Each
entry of spec["parts"] is one instrument stream: category, format, time zone
and time offset of its clock, number and spacing of its readings.
"""
import math
import os
import random

from .nav import dump_yaml, iso, ne_from_ll, nmea, raw_dir, tz_h, write, yaw_rot

D = math.pi / 180.0


def r_(rng, lo, hi, nd):
    return round(rng.uniform(lo, hi), nd)


def times(spec, part, rng, q):
    """reading times on the grid of the format (q: readings per second it can tell apart)"""
    step = max(1, int(round(part["step"] * q)))
    k0 = int(round((spec["t0"] + part["lag"]) * q))
    out = []
    k = k0
    for _ in range(part["n"]):
        out.append(k / float(q))
        k += step if rng.random() < 0.8 else step * 3 + (1 if q > 1 else 0)
    return out


def clock(t, part, q=1000):
    """what the instrument's clock showed at t"""
    k = round((t - part["toff"] + tz_h(part["tz"]) * 3600.0) * q)
    return iso(k // q), k % q          # whole seconds, fraction in 1/q


def stamp(t, part, fmt, q, width):
    w, f = clock(t, part, q)
    return w.strftime(fmt) + ("%0*d" % (width, f) if width else "")


def std_of(part, v):
    return abs(v) * part["f"] + part["o"]


def usbl_exp(spec, part, t, lat, lon, depth, own=True):
    n, e = ne_from_ll(spec["origin"], lat, lon)
    r = {"epoch_timestamp": t, "category": "usbl", "latitude": lat, "longitude": lon, "northings": n, "eastings": e,
         "depth": depth}
    if own:
        s = depth * part["f"] + part["o"]
        r.update({"northings_std": s, "eastings_std": s, "depth_std": s})
    return r


def position(spec, rng, nd=7):
    return (round(spec["origin"][0] + rng.uniform(-0.01, 0.01), nd),
            round(spec["origin"][1] + rng.uniform(-0.01, 0.01), nd))


def ddmm(v, dw, nd):
    """(degrees, minutes text, value that text stands for)"""
    a = abs(v)
    d = int(a)
    m = round((a - d) * 60, nd)
    if m >= 60:
        d, m = d + 1, 0.0
    return d, ("%0*.*f" % (nd + 3, nd, m)), math.copysign(d + m / 60.0, v)


# ------------------------------------------------------------------ positions
def usbl_dump(spec, part, rng, d):
    lines, exp = [], []
    for t in times(spec, part, rng, 1):
        w = stamp(t, part, "%Y-%m-%d,%H:%M:%S", 1, 0)
        for lab in rng.sample([part["id"], "T9"], rng.choice([1, 2])) if rng.random() < 0.5 else [part["id"]]:
            lat, lon = position(spec, rng)
            a, am, lat = ddmm(lat, 2, 5)
            o, om, lon = ddmm(lon, 3, 5)
            dep, dist = r_(rng, 5, 1500, 1), r_(rng, 1500, 2500, 1)
            lost = rng.random() < 0.1
            row = [w, lab, "1", "2", "3"]
            if lost:
                row += ["", "", "", "", "", ""]
            else:
                row += ["%02d-%s %s" % (a, am, "N" if lat >= 0 else "S"), "%03d-%s %s" % (o, om, "E" if lon >= 0 else "W"),
                        "D=%.1f" % dep, "L=%.1f" % r_(rng, 1, 900, 1), "B=%.1f" % r_(rng, 0, 360, 1), "S=%.1f" % dist]
            lines.append(",".join(row))
            if lab == part["id"] and not lost:
                r = usbl_exp(spec, part, t, lat, lon, dep, own=False)
                s = part["f"] * dist + part["o"]
                r.update({"northings_std": s, "eastings_std": s, "depth_std": s, "distance_to_ship": dist})
                exp.append(r)
    write(os.path.join(d, "nav/usbl/fixes.txt"), "\r\n".join(lines) + "\r\n")
    return {"filepath": "nav/usbl/", "filename": "fixes.txt", "id": part["id"]}, exp


def gga(spec, rng, talk, hms, lat, lon, sid, alt=0.0):
    a, am, lat = ddmm(lat, 2, 5)
    o, om, lon = ddmm(lon, 3, 5)
    return lat, lon, "%s,%s,%02d%s,%s,%03d%s,%s,%s,08,0.9,%.1f,M,46.9,M,,%s" % (
        talk, hms, a, am, "N" if lat >= 0 else "S", o, om, "E" if lon >= 0 else "W", "%s", alt, sid)


def noc_nmea(spec, part, rng, d):
    exp, files = [], {}
    q = 10 ** part["digits"]
    ts = times(spec, part, rng, q)
    for i, t in enumerate(ts):
        for sid in ([part["id"], 44] if rng.random() < 0.4 else [part["id"]]):
            lat, lon = position(spec, rng)
            dep = r_(rng, 5, 1500, 1)
            hms = stamp(t, part, "%H%M%S.", q, part["digits"])
            lat, lon, body = gga(spec, rng, "GPGGA", hms, lat, lon, "%04d" % sid, -dep)
            day = clock(t, part, q)[0].strftime("%d/%m/%Y %H:%M:%S")
            files.setdefault(i * part["files"] // len(ts), []).append(day + "\t" + nmea(body % "1"))
            if sid == part["id"]:
                exp.append(usbl_exp(spec, part, t, lat, lon, dep))
        if rng.random() < 0.1:
            files[i * part["files"] // len(ts)].append("")
    for k, v in files.items():
        sub = "a/" if k % 2 else ""
        write(os.path.join(d, "nav/usbl/%s%d.txt" % (sub, (k * 7 + 3) % 10)), "\n".join(v) + "\n")
    return {"filepath": "nav/usbl/", "id": part["id"]}, exp


def sonardyne_gga(spec, part, rng, d):
    v = part["fmt"][-1]
    exp, rows = [], []
    for t in times(spec, part, rng, 1000):
        for fid in ([2, 5] if rng.random() < 0.4 else [2]):
            lat, lon = position(spec, rng)
            if v in "a4":
                tm = stamp(t, part, "%H:%M:%S.", 1000, 3)
                lat, lon, body = gga(spec, rng, "GPGGA", "000000.00", lat, lon, "%d" % (fid if v == "4" else 9))
                rows.append("RX %s port " % tm + nmea(body % ("%d" % (fid if v == "a" else 7))))
            else:
                tm = stamp(t, part, "%Y/%m/%d %H:%M:%S.", 1000, 3)
                lat, lon, body = gga(spec, rng, "GPGGA", "000000.00", lat, lon, "%d" % fid)
                if v == "2":
                    rows.append(tm + " a b c d " + nmea((body % "4").replace(",M,,", ",M,")))
                else:
                    rows.append(tm + " a b c d " + nmea(body % "4"))
            if fid == 2:
                r = usbl_exp(spec, part, t, lat, lon, 0.0, own=False)
                exp.append(r)
    w = clock(spec["t0"] + part["lag"], part, 1000)[0].strftime("%Y%m%d")
    name = {"a": w + "_GGAlsq_1.txt", "2": "CommsLog_GNSS_1.txt", "3": "GGAPosition.txt", "4": w + "_GGA.txt"}[v]
    write(os.path.join(d, "nav/usbl", name), "\n".join(rows) + "\n")
    return {"filepath": "nav/usbl/", "field_id": 2}, exp


def sonardyne_mrt(spec, part, rng, d):
    exp, rows = [], []

    def line(kind, src, t, *vals):
        return ",".join([kind, "u1", "s1", src, "p1", "pn", "as", stamp(t, part, "%Y-%m-%d %H:%M:%S.", 1000, 3), "f", "1"]
                        + ["%s" % x for x in vals])
    for t in times(spec, part, rng, 1000):
        lat, lon = position(spec, rng, 8)
        slat, slon = position(spec, rng, 8)
        alt, hdg = -r_(rng, 5, 1500, 2), r_(rng, 0, 359.9, 1)
        g = [line("LatLongObs", "AUV 1", t, lat, lon, alt, True, True, True),
             line("LatLongObs", "GNSS 1", t, slat, slon, 1.5, True, True, True),
             line("PitchRollHeadingObs", "MRT-USBL", t, 0.1, 0.2, hdg, True, True, True)]
        if rng.random() < 0.3:
            g.append(line("LatLongObs", "AUV 2", t, 1.0, 2.0, 3.0, True, True, True))
        if rng.random() < 0.3:
            g.append(line("HeadingObs", "GYRO", t, 12.0, True))
        rng.shuffle(g)
        rows.append(g)
        r = usbl_exp(spec, part, t, lat, lon, -alt, own=False)
        sn, se = ne_from_ll(spec["origin"], slat, slon)
        n2, e2 = ne_from_ll((slat, slon), lat, lon)
        dist = math.sqrt(n2 * n2 + e2 * e2 + alt * alt)
        s = part["f"] * dist + part["o"]
        r.update({"ship_latitude": slat, "ship_longitude": slon, "ship_northings": sn, "ship_eastings": se,
                  "ship_heading": hdg, "distance_to_ship": dist, "northings_std": s, "eastings_std": s, "depth_std": s})
        exp.append(r)
    nf = part["files"]
    head = "Sonardyne log\n" + "".join("# column %d\n" % i for i in range(35))
    write(os.path.join(d, "nav/usbl/run.csv"), head)
    for i in range(nf):
        g = rows[i * len(rows) // nf:(i + 1) * len(rows) // nf]
        write(os.path.join(d, "nav/usbl/run_%d.csv" % (i + 1)), head + "".join(x + "\n" for y in g for x in y))
    return {"filepath": "nav/usbl/", "filename": "run.csv"}, exp


# ------------------------------------------------------------------ vehicles that log into one table
def rows_of(spec, part, rng, q):
    """table of readings shared by the categories of one logger"""
    out = []
    for t in times(spec, part, rng, q):
        lat, lon = position(spec, rng)
        out.append({"t": t, "vx": r_(rng, -1, 1, 3), "vy": r_(rng, -1, 1, 3), "vz": r_(rng, -1, 1, 3), "lock": rng.random() < 0.85,
                    "roll": r_(rng, -20, 20, 2), "pitch": r_(rng, -20, 20, 2), "yaw": r_(rng, 0, 359.99, 2),
                    "depth": r_(rng, 5, 1500, 2), "alt": r_(rng, 1, 30, 2), "lat": lat, "lon": lon,
                    "gap": rng.random() < 0.1, "fix": rng.random() < 0.7, "verr": r_(rng, 1, 30, 0)})
    return out


def vel_exp(spec, p, t, x, y, z, std=None):
    s = (std_of(p, x), std_of(p, y), std_of(p, z)) if std is None else (std,) * 3
    return {"epoch_timestamp": t, "category": "velocity", "frame": "body", "epoch_timestamp_dvl": t, "x_velocity": x,
            "y_velocity": y, "z_velocity": z, "x_velocity_std": s[0], "y_velocity_std": s[1], "z_velocity_std": s[2]}


def ori_exp(p, t, r, pi, y, std=None):
    s = (p["o"],) * 3 if std is None else std
    return {"epoch_timestamp": t, "category": "orientation", "roll": r, "pitch": pi, "heading": y, "roll_std": s[0],
            "pitch_std": s[1], "heading_std": s[2]}


def dep_exp(p, t, v, off=False):
    return {"epoch_timestamp": t, "category": "depth", "depth": v, "epoch_timestamp_depth": t,
            "depth_std": v * p["f"] + (p["o"] if off else 0.0)}


def alt_exp(p, t, v, off=False):
    return {"epoch_timestamp": t, "category": "altitude", "altitude": v, "epoch_timestamp_dvl": t,
            "altitude_std": v * p["f"] + (p["o"] if off else 0.0)}


def num(v, empty=False):
    return "" if empty else "%r" % v


def alr(spec, parts, rng, d):
    """one csv for all categories; its times are epoch seconds"""
    p0 = parts["velocity"]
    rows = rows_of(spec, p0, rng, 1000)
    key = rng.choice(["timestamp", "corrected_timestamp", "epoch_timestamp"])
    cols = [key, "DVL_down_BT_valid", "DVL_down_BT_x", "DVL_down_BT_y", "DVL_down_BT_z", "AUV_roll", "AUV_pitch", "AUV_heading",
            "AUV_depth", "AUV_altitude", "GPS_latitude", "GPS_longitude"]
    if key == "corrected_timestamp":
        cols.append("timestamp")
    text, exp = [",".join(cols)], []
    for r in rows:
        t = r["t"]
        row = ["%.3f" % t, "1" if r["lock"] else "0"] + [num(r[k], not r["lock"]) for k in ("vx", "vy", "vz")] + \
            [num(r[k] * D, r["gap"]) for k in ("roll", "pitch", "yaw")] + \
            [num(r["depth"]), num(r["alt"], not r["lock"]), num(r["lat"], not r["fix"]), num(r["lon"], not r["fix"])]
        if key == "corrected_timestamp":
            row.append("%.3f" % (t + 77.7))
        text.append(",".join(row))
        if r["lock"]:
            exp.append(vel_exp(spec, p0, t, r["vx"], r["vy"], r["vz"]))
            if "altitude" in parts:
                exp.append(alt_exp(parts["altitude"], t, r["alt"]))
        if "orientation" in parts and not r["gap"]:
            exp.append(ori_exp(parts["orientation"], t, r["roll"], r["pitch"], r["yaw"]))
        if "depth" in parts:
            exp.append(dep_exp(parts["depth"], t, r["depth"]))
        if "usbl" in parts and r["fix"]:
            exp.append(usbl_exp(spec, parts["usbl"], t, r["lat"], r["lon"], r["depth"]))
    write(os.path.join(d, "nav/alr/log.csv"), "\n".join(text) + "\n")
    return {k: {"filepath": "nav/alr/", "filename": "log.csv"} for k in parts}, exp


def autosub(spec, parts, rng, d):
    import numpy as np
    import scipy.io
    os.makedirs(os.path.join(d, "nav/autosub"))
    exp, md = [], {}
    p = parts["velocity"]

    def col(name, rows, **fields):
        md[name] = {"eTime": np.array([r["t"] for r in rows])}
        for k, f in fields.items():
            md[name][k] = np.array([float(f(r)) for r in rows])
    tabs = {c: rows_of(spec, dict(p, lag=p["lag"] + 0.1 * i), rng, 1000) for i, c in enumerate(["vel", "ori", "dep", "alt"])}
    col("ADCPbin00", tabs["vel"], Vnorth0=lambda r: r["vx"] * 1000, Veast0=lambda r: r["vy"] * 1000,
        Vdown0=lambda r: r["vz"] * 1000, Verr0=lambda r: r["verr"])
    col("INSAttitude", tabs["ori"], Roll=lambda r: r["roll"] * D, Pitch=lambda r: r["pitch"] * D, Heading=lambda r: r["yaw"] * D)
    col("DepCtlNode", tabs["dep"], DepCtldepth=lambda r: r["depth"])
    col("ADCPLog_1", tabs["alt"], ADCPAvAlt=lambda r: r["alt"])
    for r in tabs["vel"]:
        exp.append(vel_exp(spec, p, r["t"], -r["vx"], -r["vy"], -r["vz"], r["verr"] * 0.001))
    if "orientation" in parts:
        exp += [ori_exp(parts["orientation"], r["t"], r["roll"], r["pitch"], r["yaw"]) for r in tabs["ori"]]
    if "depth" in parts:
        exp += [dep_exp(parts["depth"], r["t"], r["depth"]) for r in tabs["dep"]]
    if "altitude" in parts:
        exp += [alt_exp(parts["altitude"], r["t"], r["alt"]) for r in tabs["alt"]]
    scipy.io.savemat(os.path.join(d, "nav/autosub/m.mat"), {"missionData": md})
    return {k: {"filepath": "nav/autosub/", "filename": "m.mat"} for k in parts}, exp


def ae2000(spec, parts, rng, d):
    p = parts["velocity"]
    utc = dict(p, tz="utc")
    conf, exp = {}, []
    w = clock(spec["t0"], utc)[0].strftime("%y%m%d%H%M%S")
    names = {"velocity": "dvl%s.csv" % w, "altitude": "dvl%s.csv" % w, "orientation": "quadrans%s.csv" % w,
             "depth": "pos%s.csv" % w}
    dvl = rows_of(spec, p, rng, 1000)
    quad = rows_of(spec, dict(p, lag=p["lag"] + 0.03), rng, 1000)
    pos = rows_of(spec, dict(p, lag=p["lag"] + 0.07), rng, 1000)

    def when(t):
        return stamp(t, utc, "%Y/%m/%d %H:%M:%S.", 1000, 3)
    t1 = ["no,date,dvl_validBottom,dvl_surgeVelBottom,dvl_swayVelBottom,dvl_heaveVelBottom,dvl_rangeBottom"]
    for i, r in enumerate(dvl):
        t1.append("%d,%s,%s,%d,%d,%d,%.2f" % (i, when(r["t"]), "" if r["gap"] else int(r["lock"]), r["vx"] * 1000, r["vy"] * 1000,
                                              r["vz"] * 1000, r["alt"]))
        if r["lock"] and not r["gap"]:
            x, y = yaw_rot(spec["vehicle"]["dvl_yaw"], int(r["vx"] * 1000) / 1000.0, int(r["vy"] * 1000) / 1000.0)
            exp.append(vel_exp(spec, p, r["t"], x, y, int(r["vz"] * 1000) / 1000.0))
            if "altitude" in parts:
                exp.append(alt_exp(parts["altitude"], r["t"], r["alt"], True))
    t2 = ["no,date,roll,pitch,yaw"]
    for i, r in enumerate(quad):
        t2.append("%d,%s,%.2f,%.2f,%.2f" % (i, when(r["t"]), r["roll"], r["pitch"], r["yaw"]))
        if "orientation" in parts:
            po = parts["orientation"]
            exp.append(ori_exp(po, r["t"], r["roll"], r["pitch"], (r["yaw"] + spec["vehicle"]["ins_yaw"]) % 360.0,
                               (std_of(po, r["roll"]), std_of(po, r["pitch"]), std_of(po, r["yaw"]))))
    t3 = ["no,date,Depth"]
    last = None
    for i, r in enumerate(pos):
        v = 0.0 if r["gap"] else r["depth"]
        if rng.random() < 0.2 and last is not None:
            v = last                       # the sensor has no new value yet
        t3.append("%d,%s,%s" % (i, when(r["t"]), num(v)))
        if v > 0 and v != last and "depth" in parts:
            exp.append(dep_exp(parts["depth"], r["t"], v, True))
        if v > 0:
            last = v
    if rng.random() < 0.3:
        t1.append("%d" % len(dvl))         # the logger was switched off in the middle of a line
    for n, t in ((names["velocity"], t1), (names["orientation"], t2), (names["depth"], t3)):
        write(os.path.join(d, "nav/ae_log", n), "\n".join(t) + "\n")
    return {k: {"filepath": "nav/ae_log/", "filename": names[k]} for k in parts}, exp


def koyo(spec, parts, rng, d):
    p = parts["orientation"]
    rows = rows_of(spec, p, rng, 1)
    exp = []
    t1 = ["Date,Time,LatD,LatM,LatS,Roll,Pich,Hedding,Depth(ROV),ALT"]
    for r in rows:
        t1.append(",".join([stamp(r["t"], p, "%Y/%m/%d,%H:%M:%S", 1, 0), "22", "51", "25.5",
                            num(r["roll"], r["gap"]), num(r["pitch"]), num(r["yaw"]), num(r["depth"], not r["fix"]),
                            num(r["alt"], not r["lock"])]))
        if not r["gap"]:
            exp.append(ori_exp(p, r["t"], r["roll"], r["pitch"], r["yaw"]))
        if "depth" in parts and r["fix"]:
            exp.append(dep_exp(parts["depth"], r["t"], r["depth"]))
        if "altitude" in parts and r["lock"]:
            exp.append(alt_exp(parts["altitude"], r["t"], r["alt"]))
    write(os.path.join(d, "nav/hypack/raw.csv"), "\n".join(t1) + "\n")
    conf = {k: {"filepath": "nav/hypack/", "filename": "raw.csv"} for k in parts}
    t2 = ["no,timestamp,Hedding,Lat,Lon,Depth(ROV),ALT,dist,Lat_flt,Lon_flt,calc_depth,surge,heave"]
    rows = rows_of(spec, dict(p, lag=p["lag"] + 3), rng, 1)
    for i, r in enumerate(rows):
        t2.append(",".join(["%d" % i, stamp(r["t"], p, "%Y-%m-%d %H:%M:%S", 1, 0), "94.9", "1.0", "2.0", num(r["depth"], not r["fix"]),
                            "10", "0", num(r["lat"]), num(r["lon"]), "5", num(r["vx"], r["gap"]), num(r["vz"])]))
        if "usbl" in parts and r["fix"]:
            exp.append(usbl_exp(spec, parts["usbl"], r["t"], r["lat"], r["lon"], r["depth"]))
        if "velocity" in parts and not r["gap"]:
            exp.append(vel_exp(spec, parts["velocity"], r["t"], r["vx"], 0.0, r["vz"]))
    write(os.path.join(d, "nav/posfilter/pos.csv"), "\n".join(t2) + "\n")
    for k in ("usbl", "velocity"):
        if k in parts:
            conf[k] = {"filepath": "nav/posfilter/", "filename": "pos.csv"}
    return conf, exp


def rdi(spec, parts, rng, d):
    """PD6 ensembles: attitude first, then the time, then velocity and range"""
    p = next(iter(parts.values()))
    exp, text = [], []
    for r in rows_of(spec, p, rng, 100):
        t = r["t"]
        text.append(":SA,%+.2f,%+.2f,%.2f" % (r["pitch"], r["roll"], r["yaw"]))
        text.append(":TS,%s,35.0,+12.0,   0.0,1480.0,  0" % stamp(t, p, "%y%m%d%H%M%S", 100, 2))
        v = [int(round(r[k] * 1000)) for k in ("vx", "vy", "vz")]
        bad = not r["lock"]
        text.append(":BI,%+d,%+d,%+d,%+d,%s" % (((-32768,) * 4 if bad else (*v, int(r["verr"]))) + ("V" if bad else "A",)))
        text.append(":BS,+1,+2,+3,A")
        text.append(":BD,%+.2f,%+.2f,%+.2f,%.2f,0.10" % (0, 0, 0, 0.0 if bad else r["alt"]))
        if "orientation" in parts:
            exp.append(ori_exp(parts["orientation"], t, r["roll"], r["pitch"], r["yaw"]))
        if not bad and "velocity" in parts:
            x, y = yaw_rot(spec["vehicle"]["dvl_yaw"], v[0] / 1000.0, v[1] / 1000.0)
            exp.append(vel_exp(spec, parts["velocity"], t, x, y, v[2] / 1000.0, int(r["verr"]) * 0.001))
        if not bad and "altitude" in parts:
            exp.append(dict(alt_exp(parts["altitude"], t, r["alt"]), sound_velocity=1480.0))
    write(os.path.join(d, "nav/rdi/dvl.pd6"), "\r\n".join(text) + "\r\n")
    return {k: {"filepath": "nav/rdi/", "filename": "dvl.pd6"} for k in parts}, exp


def ntnu(spec, parts, rng, d):
    p = next(iter(parts.values()))
    exp, files = [], {}
    rows = rows_of(spec, p, rng, 1000)
    for i, r in enumerate(rows):
        w, f = clock(r["t"], p)
        row = ["%s.%03d" % (w.strftime("%H:%M:%S"), f)] + ["0"] * 6
        v = [r["vx"], r["vy"], r["vz"]] if r["lock"] else [-32.768] * 3
        row += ["%.3f" % x for x in v] + ["0"] * 3 + ["0"] * 43
        row += ["%.2f" % r_(rng, 1, 30, 2), "%.2f" % (r["alt"] - 0.5), "%.2f" % r_(rng, 1, 30, 2), "%.2f" % (r["alt"] + 0.5)]
        row += ["0"] * 7
        files.setdefault((w.strftime("%Y%m%d"), i * p["files"] // len(rows)), []).append("\t".join(row))
        if "velocity" in parts and r["lock"]:
            x, y = yaw_rot(spec["vehicle"]["dvl_yaw"], v[0], v[1])
            exp.append(vel_exp(spec, parts["velocity"], r["t"], x, y, v[2]))
        if "altitude" in parts:
            exp.append(alt_exp(parts["altitude"], r["t"], r["alt"]))
    for (day, k), v in files.items():
        write(os.path.join(d, "nav/ntnu_dvl/%s_%d.log" % (day, (7 * k + 3) % 10)), "# log\n# columns\n" + "\n".join(v) + "\n")
    return {k: {"filepath": "nav/ntnu_dvl/"} for k in parts}, exp


def eiva(spec, parts, rng, d):
    p = next(iter(parts.values()))
    uid = 3
    exp, rows = [], []
    yaw = spec["vehicle"]["ins_yaw"]
    for r in rows_of(spec, p, rng, 1000):
        w, f = clock(r["t"], p)
        s = "%s.%03d" % (w.strftime("%Y:%m:%d:%H:%M:%S"), f)
        g = []
        k = rng.choice(["all", "all", "all", "ori", "usbl", "depth"])
        if k in ("all", "ori"):
            g.append("R132  4 %s %s" % (s, nmea("PRDID,%+.2f,%+.2f,%.2f" % (r["pitch"], r["roll"], r["yaw"]))))
            if "orientation" in parts:
                a, b = yaw_rot(yaw, r["roll"], r["pitch"])
                exp.append(ori_exp(parts["orientation"], r["t"], a, b, r["yaw"]))
        if k in ("all", "depth"):
            g.append("D     %d  19  1 %s %.2f" % (uid, s, r["depth"]))
            if "depth" in parts:
                exp.append(dep_exp(parts["depth"], r["t"], r["depth"]))
        if k in ("all", "usbl"):
            g.append("P  D  %4d %s 500.0 600.0 %.2f %.8f %.8f 0" % (uid, s, -r["depth"], r["lat"], r["lon"]))
            if "usbl" in parts:
                exp.append(usbl_exp(spec, parts["usbl"], r["t"], r["lat"], r["lon"], r["depth"]))
        if rng.random() < 0.2:
            g.append("P  D  %4d %s 500.0 600.0 %.2f %.8f %.8f 0" % (uid + 4, s, -1.0, 0.5, 0.5))
        if rng.random() < 0.2:
            g.append("R132  7 %s %s" % (s, nmea("PRDID,+1.00,+1.00,1.00")))
        rng.shuffle(g)
        rows.append(g)
    nf = p["files"]
    for i in range(nf):
        g = rows[i * len(rows) // nf:(i + 1) * len(rows) // nf]
        write(os.path.join(d, "nav/eiva/%d_G.NPD" % ((7 * i + 3) % 10)), "".join(x + "\n" for y in g for x in y))
    return {k: dict({"filepath": "nav/eiva/"}, **({"id": uid} if k == "usbl" else {})) for k in parts}, exp


# ------------------------------------------------------------------ images
def img(t, c1, c2=None, t2=None):
    r = {"epoch_timestamp": t, "category": "image", "camera1": os.path.basename(c1), "camera1_path": c1, "camera1_timestamp": t}
    if c2:
        r.update({"camera2": os.path.basename(c2), "camera2_path": c2, "camera2_timestamp": t if t2 is None else t2})
    return r


def seaxerocks(spec, part, rng, d):
    exp = []
    toffs = part.get("cam_toff", [0, 0, 0])
    base = "image/SeaXerocks1/Xviii"
    t1, first = ["index,date,time,ms"], part["first"]
    for i, t in enumerate(times(spec, part, rng, 1000)):
        idx = "%07d" % (first + i)
        w, f = clock(t, part)
        t1.append("%s,%s,%s,%03d" % (idx, w.strftime("%Y%m%d"), w.strftime("%H%M%S"), f))
        exp.append(img(t + toffs[0], base + "/Cam1/%s.raw" % idx, base + "/Cam2/%s.raw" % idx, t + toffs[1]))
    write(os.path.join(d, base, "FileTime.csv"), "\r\n".join(t1) + "\r\n")
    os.makedirs(os.path.join(d, base, "Cam1"), exist_ok=True)
    os.makedirs(os.path.join(d, base, "Cam2"), exist_ok=True)
    lm = "image/SeaXerocks1/LM165"
    t3 = ["index,date,time,ms"]
    ts = times(spec, dict(part, lag=part["lag"] + 0.2), rng, 1000)
    for i, t in enumerate(ts):
        idx = "%07d" % (first + i)
        w, f = clock(t, part)
        t3.append("%s,%s,%s,%03d" % (idx, w.strftime("%Y%m%d"), w.strftime("%H%M%S"), f))
        rel = "%s/image%s.%s" % (idx[part["sub"]:part["sub"] + 3], idx, part["ext"])
        if i == len(ts) - 1 or rng.random() < 0.7:
            write(os.path.join(d, lm, rel), "x")
        exp.append({"epoch_timestamp": t + toffs[2], "category": "laser", "filename": lm + "/" + rel})
    write(os.path.join(d, lm, "FileTime.csv"), "\r\n".join(t3) + "\r\n")
    cams = [{"name": "Cam1", "path": base + "/Cam1"}, {"name": "Cam2", "path": base + "/Cam2"},
            {"name": "LM165", "path": lm, "records_laser": True}]
    for c, o in zip(cams, toffs):
        if o:
            c["timeoffset_s"] = o
    return {"cameras": cams}, exp


def biocam(spec, part, rng, d):
    exp, base = [], "image/b"

    def name(t, cam, i):
        # the clock of the camera is neither set nor quite as fast
        c = (t - part["toff"] - part["cam_c"]) / (1.0 + part["cam_m"][cam]) if part["fmt"] == "biocam" else t + 5.0
        w, f = clock(t, part, 1000000)
        k = round((c + tz_h(part["tz"]) * 3600.0) * 1000000)
        cw, cf = iso(k // 1000000), k % 1000000
        return "%s_%06d_%s_%06d_pcoc.tif" % (w.strftime("%Y%m%d_%H%M%S"), f, cw.strftime("%Y%m%d_%H%M%S"), cf)
    for i, t in enumerate(times(spec, part, rng, 1000)):
        t2 = t + rng.choice([0.0, 0.004, -0.003])
        n1, n2 = base + "/cam61_strobe/" + name(t, 0, i), base + "/cam62_strobe/" + name(t2, 1, i)
        miss = rng.choice(["1", "2"]) if 2 < i and rng.random() < 0.1 else None
        if miss != "1":
            write(os.path.join(d, n1), "x")
        if miss != "2":
            write(os.path.join(d, n2), "x")
        if not miss:
            exp.append(img(t, n1, n2, t2))
    for i, t in enumerate(times(spec, dict(part, lag=part["lag"] + 0.35), rng, 1000)):
        n = base + "/cam62_laser/%03d/" % (i % 3) + name(t, 1, i).replace("_pcoc.tif", "_laser.jpg")
        write(os.path.join(d, n), "x")
        exp.append({"epoch_timestamp": t, "category": "laser", "camera3": os.path.basename(n), "camera3_path": n,
                    "camera3_timestamp": t})
    return {"cameras": [{"name": "cam61", "path": base}, {"name": "cam62", "path": base}]}, exp


def ntnu_stereo(spec, part, rng, d):
    exp = []
    for i, t in enumerate(times(spec, part, rng, 1000)):
        t2 = t + rng.choice([0.0, 0.01, -0.02])

        def name(x, c):
            w, f = clock(x, part, 10000)
            return "image/%02d/%s.%04d%s.jpg" % (i % 3, w.strftime("%y%m%d-%H%M%S"), f, c)
        n1, n2 = name(t, "L"), name(t2, "R")
        miss = rng.choice(["1", "2"]) if i and rng.random() < 0.12 else None
        if miss != "1":
            write(os.path.join(d, n1), "x")
        if miss != "2":
            write(os.path.join(d, n2), "x")
        if not miss:
            exp.append(img(t, n1, n2, t2))
    return {"cameras": [{"name": "left", "path": "image"}, {"name": "right", "path": "image"}]}, exp


VOYIS = [{"name": "stills", "type": "rggb", "bit_depth": 16, "path": "image/stills", "extension": "tif",
          "filename_to_date": "x", "filename_to_date_pps": "x" * 19 + "YYYYxMMxDDxhhmmssxfffuuuxx.xxx",
          "filename_to_date_system": "x" * 22 + "YYYYxMMxDDxhhmmssxfffuuuxx.xxx"},
         {"name": "laser", "type": "grayscale", "bit_depth": 16, "path": "image/laser", "extension": "tif",
          "filename_to_date": "x", "filename_to_date_pps": "x" * 20 + "YYYYxMMxDDxhhmmssxfffuuuxx.xxx",
          "filename_to_date_system": "x" * 23 + "YYYYxMMxDDxhhmmssxfffuuuxx.xxx"}]


def voyis(spec, part, rng, d):
    exp = []
    for k, pre in (("stills", "raw_stills_raw_"), ("laser", "laser_laser_raw_")):
        if k == "laser" and not part.get("laser"):
            continue
        ts = times(spec, dict(part, lag=part["lag"] + (0.3 if k == "laser" else 0), n=part["n"] + (3 if k == "laser" else 0)),
                   rng, 1000)
        for i, t in enumerate(ts):
            w, f = clock(t, part, 1000000)
            src = "PPS" if rng.random() < 0.7 else "SYSTEM"
            n = "image/%s/%02d/%s%s_%s.%06d_%d.tif" % (k, i % 3, pre, src, w.strftime("%Y-%m-%dT%H%M%S"), f, i % 10)
            write(os.path.join(d, n), "x")
            exp.append(img(t, n))
    return {"cameras": [{"name": "stills", "path": "image/stills"}, {"name": "laser", "path": "image/laser"}]}, exp


def gopro(spec, part, rng, d):
    exp, rows = [], ["file_left,number_left,file_right,number_right,epoch"]
    for i, t in enumerate(times(spec, part, rng, 1000)):
        n1, n2 = "G%07d.JPG" % (i + 5), "G%07d.JPG" % (i + 905)
        rows.append("%s,%d,%s,%d,%.3f" % (n1, i + 5, n2, i + 905, t))
        miss = rng.choice(["1", "2"]) if rng.random() < 0.12 else None
        if miss != "1":
            write(os.path.join(d, "image/left", n1), "x")
        if miss != "2":
            write(os.path.join(d, "image/right", n2), "x")
        if not miss:
            exp.append(img(t, "image/left/" + n1, "image/right/" + n2))
    write(os.path.join(d, "image/filelist.csv"), "\n".join(rows) + "\n")
    return {"cameras": [{"name": "gopro_left", "path": "image/left/"}, {"name": "gopro_right", "path": "image/right/"}]}, exp


TABLES = {"alr": alr, "autosub": autosub, "ae2000": ae2000, "koyo21rov": koyo, "rdi": rdi, "ntnu_dvl": ntnu,
          "eiva_navipac": eiva}
USBL = {"usbl_dump": usbl_dump, "NOC_nmea": noc_nmea, "sonardyne_gga": sonardyne_gga, "sonardyne_gga2": sonardyne_gga,
        "sonardyne_gga3": sonardyne_gga, "sonardyne_gga4": sonardyne_gga, "sonardyne_mrt": sonardyne_mrt}
IMAGES = {"seaxerocks_3": seaxerocks, "biocam": biocam, "biocam4000_15c": biocam, "ntnu_stereo": ntnu_stereo, "voyis": voyis,
          "stereo_gopro": gopro}


# ------------------------------------------------------------------ dives
def build(spec, root):
    d = raw_dir(root, spec)
    os.makedirs(d, exist_ok=True)
    parts = spec["parts"]
    m = {"version": 1, "origin": {"latitude": spec["origin"][0], "longitude": spec["origin"][1],
                                  "coordinate_reference_system": "wgs84", "date": iso(spec["t0"]).strftime("%Y/%m/%d")}}
    exp = [{"epoch_timestamp": 0.0, "category": "origin", "latitude": spec["origin"][0], "longitude": spec["origin"][1]}]
    groups = {}
    for c, p in parts.items():
        groups.setdefault(p["fmt"], {})[c] = p
    for fmt, g in groups.items():
        rng = random.Random("%s/%s" % (spec["seed"], fmt))
        if fmt in TABLES:
            conf, e = TABLES[fmt](spec, g, rng, d)
        elif fmt in USBL:
            c, e = USBL[fmt](spec, g["usbl"], rng, d)
            conf = {"usbl": c}
        else:
            c, e = IMAGES[fmt](spec, g["image"], rng, d)
            conf = {"image": c}
        exp += e
        for c, cf in conf.items():
            p = g[c]
            m[c] = dict({"format": fmt, "timezone": p["tz"], "timeoffset": p["toff"]}, **cf)
            if c != "image":
                m[c].update({"std_factor": p["f"], "std_offset": p["o"]})
    v = spec["vehicle"]

    def fr(x, yaw=0.0):
        return {"surge_m": x, "sway_m": 0.1, "heave_m": 0.2, "roll_deg": 0, "pitch_deg": 0, "yaw_deg": yaw}
    veh = {"origin": fr(0), "usbl": fr(1), "ins": fr(0.5, v["ins_yaw"]), "dvl": fr(-0.5, v["dvl_yaw"]), "depth": fr(0.3)}
    for i, c in enumerate(m.get("image", {}).get("cameras", [])):
        veh[c["name"]] = fr(0.1 * i)
    dump_yaml(os.path.join(d, "mission.yaml"), m)
    dump_yaml(os.path.join(d, "vehicle.yaml"), veh)
    dump_yaml(os.path.join(d, "camera.yaml"), {"camera_system": parts.get("image", {}).get("fmt", "none"), "cameras": VOYIS[:(
        2 if parts.get("image", {}).get("laser") else 1)]} if parts.get("image", {}).get("fmt") == "voyis" else
        {"camera_system": "none", "cameras": [{"name": "a"}]})
    return exp


# formats whose clock cannot be described in mission.yaml (epoch seconds, or UTC by definition)
NO_ZONE = {"alr", "autosub", "ae2000", "stereo_gopro"}
NO_OFFSET = {"alr", "autosub", "stereo_gopro", "voyis", "sonardyne_gga", "sonardyne_gga2", "sonardyne_gga3", "sonardyne_gga4"}
DATE_IN_NAME = {"sonardyne_gga", "sonardyne_gga4"}

FAMILIES = [
    {"velocity": "ae2000", "orientation": "ae2000", "depth": "ae2000", "altitude": "ae2000"},
    {"velocity": "alr", "orientation": "alr", "depth": "alr", "altitude": "alr", "usbl": "alr"},
    {"velocity": "autosub", "orientation": "autosub", "depth": "autosub", "altitude": "autosub"},
    {"velocity": "rdi", "orientation": "rdi", "altitude": "rdi"},
    {"velocity": "rdi", "orientation": "rdi", "altitude": "rdi", "depth": "eiva_navipac", "usbl": "eiva_navipac"},
    {"velocity": "ntnu_dvl", "altitude": "ntnu_dvl", "orientation": "eiva_navipac", "depth": "eiva_navipac", "usbl": "eiva_navipac"},
    {"velocity": "koyo21rov", "orientation": "koyo21rov", "depth": "koyo21rov", "altitude": "koyo21rov", "usbl": "koyo21rov"},
    {},
]
ORIGINS = [(26.674083, 127.868054), (50.337972, -4.177747), (-33.5, 151.3), (-22.4, -41.9), (0.02, 0.03), (-0.3, -0.4),
           (63.61, 10.5)]


def random_spec(rng, dive=0, **over):
    t0 = rng.choice([1502943000, 1528700000, 1655000000, 1618934400]) + rng.randrange(0, 80000)
    fam = dict(rng.choice(FAMILIES))
    if "usbl" not in fam and (not fam or rng.random() < 0.8):
        fam["usbl"] = rng.choice(sorted(USBL))
    if not fam or rng.random() < 0.8:
        fam["image"] = rng.choice(sorted(IMAGES))
    keep = {"velocity", "orientation"}
    for c in list(fam):
        if c not in keep and len(fam) > 1 and rng.random() < 0.15:
            del fam[c]
    # EIVA lists the depth of a transponder, which only the usbl entry of mission.yaml names
    if fam.get("depth") == "eiva_navipac" and fam.get("usbl") != "eiva_navipac":
        del fam["depth"]
    spec = {"seed": rng.randrange(1 << 30), "t0": t0, "origin": list(rng.choice(ORIGINS)),
            "place": "2018/cruise", "dive": iso(t0).strftime("%Y%m%d_%H%M%S_v") + str(dive),
            "vehicle": {"dvl_yaw": rng.choice([0, 0, 45.0, -30.0, 90.0]), "ins_yaw": rng.choice([0, 0, 10.0, -20.0])},
            "parts": {}}
    clocks = {}
    for c, f in sorted(fam.items()):
        if f not in clocks:
            clocks[f] = {"tz": "utc" if f in NO_ZONE else rng.choice(["utc", "utc", 0, 9, "jst", "cet", -5, 5.5]),
                         "toff": 0.0 if f in NO_OFFSET else rng.choice([0.0, 0.0, 2.5, -7.25, 3600.0]),
                         "lag": rng.randrange(0, 4000) / 1000.0, "n": rng.choice([2, 5, 12, 30]),
                         "step": rng.choice([0.25, 1.0, 1.0, 3.7, 40.0]), "files": rng.choice([1, 2, 3])}
            k = clocks[f]
            if f in DATE_IN_NAME or f == "sonardyne_mrt":
                k["lag"] = round(k["lag"], 3)
            if f in ("usbl_dump", "koyo21rov"):
                k["lag"] = float(int(k["lag"]))
                k["toff"] = float(int(k["toff"]))
            if f in ("biocam", "ntnu_stereo"):
                k["step"] = max(1.0, k["step"])
                k["n"] = max(5, k["n"])
            k["files"] = min(k["files"], k["n"])
        p = dict(clocks[f], fmt=f, f=rng.choice([0.0, 0.001, 0.02]), o=rng.choice([0.0, 0.2, 2.0]))
        if f == "usbl_dump":
            p["id"] = "T1"
        if f == "NOC_nmea":
            p["id"] = rng.choice([3, 7])
            p["digits"] = rng.choice([2, 3])
        if f == "seaxerocks_3":
            p.update({"first": rng.choice([0, 995, 9995, 123456]), "sub": rng.choice([0, 1]), "ext": rng.choice(["jpg", "tif"]),
                      "cam_toff": rng.choice([[0, 0, 0], [0.5, -0.25, 0], [0, 0, 1.5]])})
        if f in ("biocam", "biocam4000_15c"):
            p.update({"cam_c": rng.choice([0.0, 12.5, -3000.25]), "cam_m": rng.choice([[0.0, 0.0], [1e-5, -2e-5]])})
        if f == "voyis":
            p["laser"] = rng.random() < 0.6
        spec["parts"][c] = p
    # a day change in the middle of a log that carries the date in its name cannot be written down
    for c, p in spec["parts"].items():
        if p["fmt"] in DATE_IN_NAME:
            a = clock(spec["t0"] + p["lag"], p, 1000)[0].date()
            while clock(spec["t0"] + p["lag"] + p["n"] * (p["step"] * 3 + 1), p, 1000)[0].date() != a and p["n"] > 1:
                p["n"] -= 1
            p["step"] = min(p["step"], 1.0)
            p["files"] = 1
    spec.update(over)
    return spec
