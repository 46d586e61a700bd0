"""Synthetic dives with a closed-form truth.

A dive is described by a small JSON spec; `build` writes its raw folder and
returns the records a user expects to find afterwards.  The expectation comes
from the numbers that were put into the logs, never from the code under test.
"""
import datetime
import math
import os

UTC = datetime.timezone.utc


def iso(t):
    return datetime.datetime.fromtimestamp(t, UTC)


# ------------------------------------------------------------------ trajectory
class Traj:
    """Vehicle centre: slow sinusoidal speed, constant or slowly turning heading."""

    def __init__(self, spec):
        tr = spec["traj"]
        self.t0 = spec["t0"]
        self.hdg0 = tr["hdg0"]
        self.turn = tr["turn"]              # deg/s
        self.u = tr["u"]                    # m/s surge
        self.v = tr.get("v", 0.0)           # m/s sway
        self.n0, self.e0 = tr["n0"], tr["e0"]
        self.d0, self.dr = tr["d0"], tr["dr"]        # depth, depth rate
        self.alt0, self.alt_a = tr["alt0"], tr["alt_a"]
        self.roll, self.pitch = tr.get("roll", 0.0), tr.get("pitch", 0.0)

    def heading(self, t):
        return (self.hdg0 + self.turn * (t - self.t0)) % 360.0

    def ne(self, t):
        """exact position for constant surge/sway speed and constant turn rate"""
        h0 = math.radians(self.hdg0)
        w = math.radians(self.turn)
        dt = t - self.t0
        if abs(w) < 1e-12:
            a, b = dt * math.cos(h0), dt * math.sin(h0)
        else:
            a = (math.sin(h0 + w * dt) - math.sin(h0)) / w        # int cos
            b = (math.cos(h0) - math.cos(h0 + w * dt)) / w        # int sin
        n = self.n0 + self.u * a - self.v * b
        e = self.e0 + self.u * b + self.v * a
        return n, e

    def depth(self, t):
        return self.d0 + self.dr * (t - self.t0)

    def alt(self, t):
        return self.alt0 + self.alt_a * math.sin(0.05 * (t - self.t0))


def ll(origin, n, e):
    from geographiclib.geodesic import Geodesic
    r = Geodesic.WGS84.Direct(origin[0], origin[1], math.degrees(math.atan2(e, n)), math.hypot(n, e))
    return r["lat2"], r["lon2"]


def ne_from_ll(origin, lat, lon):
    from geographiclib.geodesic import Geodesic
    r = Geodesic.WGS84.Inverse(origin[0], origin[1], lat, lon)
    a = math.radians(r["azi1"])
    return r["s12"] * math.cos(a), r["s12"] * math.sin(a)


def yaw_rot(deg, x, y):
    a = math.radians(deg)
    return math.cos(a) * x - math.sin(a) * y, math.sin(a) * x + math.cos(a) * y


def local(t, tz_h, toff):
    """wall-clock as a logger with this time zone and this known lag writes it"""
    return iso(round((t - toff + tz_h * 3600.0) * 1000) / 1000.0)


TZ_NAMES = {"utc": 0, "jst": 9, "cet": 1}


def tz_h(v):
    return TZ_NAMES.get(v.lower(), None) if isinstance(v, str) else float(v)


def xsum(body):
    s = 0
    for c in body:
        s ^= ord(c)
    return "%02X" % s


def nmea(body):
    return "$" + body + "*" + xsum(body)


# ------------------------------------------------------------------ PHINS
def phins_lines(spec):
    """[(text, meaning)] in file order"""
    tr = Traj(spec)
    p = spec["phins"]
    z, off = tz_h(spec["tz"]["nav"]), spec["toff"]["nav"]
    yaw = spec["vehicle"]["dvl_yaw"]
    out = []
    n = int(spec["dur"] * p["rate"])
    for k in range(n):
        t = round(spec["t0"] + k / p["rate"], 3)
        lt = local(t, z, off)
        hms = lt.strftime("%H%M%S.") + "%03d" % (lt.microsecond // 1000)
        td = round(t - p["dvl_lag"], 3)
        ld = local(td, z, off)
        dhms = ld.strftime("%H%M%S.") + "%03d" % (ld.microsecond // 1000)
        h = tr.heading(t)
        out.append((nmea("PIXSE,TIME__,%s000" % hms), ("time", t)))
        out.append((nmea("HEHDT,%.3f,T" % h), ("hdg", round(h, 3))))
        r, q = round(tr.roll * math.sin(0.3 * k), 3), round(tr.pitch * math.cos(0.2 * k), 3)
        out.append((nmea("PIXSE,ATITUD,%.3f,%.3f" % (r, q)), ("att", r, q)))
        out.append((nmea("PIXSE,STDHRP,%.4f,%.4f,%.4f" % (0.1, 0.02, 0.03)), ("attstd", 0.1, 0.02, 0.03)))
        hr = math.radians(h)
        vn = tr.u * math.cos(hr) - tr.v * math.sin(hr)
        ve = tr.u * math.sin(hr) + tr.v * math.cos(hr)
        vn, ve, vu = round(vn, 6), round(ve, 6), round(-tr.dr, 6)
        out.append((nmea("PIXSE,SPEED_,%.6f,%.6f,%.6f" % (ve, vn, vu)), ("vel", ve, vn, vu)))
        out.append((nmea("PIXSE,STDSPD,0.010000,0.010000,0.010000"), ("velstd",)))
        d = round(tr.depth(t), 4)
        out.append((nmea("PIXSE,DEPIN_,%.4f,%s" % (d, hms)), ("depth", d, t)))
        if k % p["dvl_every"] == 0:
            # what the sensor sees so that the vehicle frame velocity is (u, v, dr)
            sx, sy = yaw_rot(-yaw, tr.u, -tr.v)
            sx, sy, sz = round(sx, 6), round(sy, 6), round(-tr.dr, 6)
            a = round(tr.alt(t), 3)
            out.append((nmea("PIXSE,LOGIN_,%.6f,%.6f,%.6f,0.0,%s" % (sx, sy, sz, dhms)),
                        ("dvl", sx, sy, sz, td)))
            out.append((nmea("PIXSE,LOGDVL,%.3f,%.3f,%.3f" % (1500.0, 0.5, a)), ("alt", a)))
        if p.get("junk") and k % 7 == 3:
            out.append(("$PIXSE,UTMWGS,R,53,0.0,0.0,0.0", None))
            out.append((nmea("PIXSE,ALGSTS,00000005,00000000"), ("other",)))
    return out


def phins_model(lines, spec):
    """Reference model: the records these valid lines stand for."""
    yaw = spec["vehicle"]["dvl_yaw"]
    st = spec["std"]
    ts = None
    tdvl = None
    hdg = None
    std = None
    att = None
    rec = []
    for _, m in lines:
        if m is None or m[0] == "other":
            continue
        k = m[0]
        if k == "time":
            ts = m[1]
        if k == "hdg":
            hdg = m[1]
        elif k == "att":
            att = yaw_rot(yaw, -m[1], -m[2]) if hdg is not None else (-m[1], -m[2])
        elif k == "attstd":
            a, b = yaw_rot(yaw, m[2], m[3])
            std = (m[1], a, b)
        elif k == "vel" and ts is not None:
            rec.append({"epoch_timestamp": ts, "category": "velocity", "frame": "inertial",
                        "east_velocity": m[1], "north_velocity": m[2], "down_velocity": -m[3]})
        elif k == "depth" and ts is not None:
            rec.append({"epoch_timestamp": ts, "category": "depth", "depth": m[1],
                        "depth_std": m[1] * st["depth_f"], "epoch_timestamp_depth": m[2]})
        elif k == "dvl":
            tdvl = m[4]
            if ts is not None:
                x, y = yaw_rot(yaw, m[1], m[2])
                z = m[3]
                rec.append({"epoch_timestamp": ts, "category": "velocity", "frame": "body",
                            "epoch_timestamp_dvl": tdvl,
                            "x_velocity": x, "y_velocity": -y, "z_velocity": -z,
                            "x_velocity_std": abs(x) * st["vel_f"] + st["vel_o"],
                            "y_velocity_std": abs(y) * st["vel_f"] + st["vel_o"],
                            "z_velocity_std": abs(z) * st["vel_f"] + st["vel_o"]})
        elif k == "alt" and ts is not None and tdvl is not None:
            rec.append({"epoch_timestamp": ts, "category": "altitude", "altitude": m[1],
                        "altitude_std": m[1] * st["alt_f"], "epoch_timestamp_dvl": tdvl})
        if k in ("time", "hdg", "att", "attstd") and hdg is not None and att is not None and std is not None \
                and ts is not None:
            rec.append({"epoch_timestamp": ts, "category": "orientation", "heading": hdg,
                        "roll": att[0], "pitch": att[1],
                        "heading_std": std[0], "roll_std": std[1], "pitch_std": std[2]})
            hdg = att = None
        elif k == "time":
            hdg = att = None          # what was lost is not completed with later packets
    return rec


# ------------------------------------------------------------------ GAPS
def dm(v, width):
    s = abs(v)
    d = int(s)
    m = (s - d) * 60.0
    m = round(m, 5)
    if m >= 60.0:
        d, m = d + 1, 0.0
    return "%0*d%08.5f" % (width, d, m), (d + m / 60.0) * (1 if v >= 0 else -1)


def gaps_groups(spec):
    """each group: prior ship fix, prior heading, target fix, posterior ship fix,
    posterior heading; one USBL record per group"""
    tr = Traj(spec)
    g = spec["gaps"]
    z, off = tz_h(spec["tz"]["usbl"]), spec["toff"]["usbl"]
    o = spec["origin"]
    out = []
    n = int(spec["dur"] / g["every"])
    for k in range(n):
        t = round(spec["t0"] + g["phase"] + k * g["every"], 3)
        tn, te = tr.ne(t)
        ex, ey = g["err"][k % len(g["err"])]
        lat, lon = ll(o, tn + ex, te + ey)
        depth = round(tr.depth(t), 2)
        ta, tb = round(t - 0.4, 3), round(t + 0.6, 3)
        sn, se = g["ship"]
        pla, plo = ll(o, sn, se)
        qla, qlo = ll(o, sn + 1.0, se + 2.0)
        ha, hb = g["ship_hdg"], g["ship_hdg"] + 1.0

        def fix(t_, ident, la, lo, dep):
            lt = local(t_, z, off)
            s1, v1 = dm(la, 2)
            s2, v2 = dm(lo, 3)
            body = "PTSAG,#%05d,%s,%02d,%02d,%04d,%d,%s,%s,%s,%s,F,%.2f,1" % (
                k, lt.strftime("%H%M%S.") + "%03d" % (lt.microsecond // 1000), lt.day, lt.month, lt.year,
                ident, s1, "N" if la >= 0 else "S", s2, "E" if lo >= 0 else "W", dep)
            return "$" + body + "*" + xsum(body), v1, v2
        l1, a1, b1 = fix(ta, 0, pla, plo, 0.0)
        l2, a2, b2 = fix(t, g["id"], lat, lon, depth)
        l3, a3, b3 = fix(tb, 0, qla, qlo, 0.0)
        lines = [l1, "$HEHDT,%.2f,T*00" % ha, l2]
        if g.get("other"):
            lines.insert(2, fix(round(t - 0.1, 3), g["id"] + 1, lat, lon, depth)[0])
        lines += [l3, "$HEHDT,%.2f,T*00" % hb]
        f = (t - ta) / (tb - ta)
        slat, slon = a1 + f * (a3 - a1), b1 + f * (b3 - b1)
        nn, ee = ne_from_ll(o, a2, b2)
        s_n, s_e = ne_from_ll(o, slat, slon)
        rn, re_ = ne_from_ll((slat, slon), a2, b2)
        dist = math.sqrt(rn * rn + re_ * re_ + depth * depth)
        sd = spec["std"]["usbl_f"] * dist + spec["std"]["usbl_o"]
        rec = {"epoch_timestamp": t, "category": "usbl", "latitude": a2, "longitude": b2,
               "northings": nn, "eastings": ee, "depth": depth, "northings_std": sd,
               "ship_latitude": slat, "ship_longitude": slon, "ship_northings": s_n,
               "ship_eastings": s_e, "ship_heading": ha + f * (hb - ha), "distance_to_ship": dist}
        out.append((lines, rec))
    return out


# ------------------------------------------------------------------ tide
def tide_series(spec):
    td = spec["tide"]
    out = []
    step = td["step"]
    t = math.floor((spec["t0"] + td["from"]) / 60.0) * 60.0
    for k in range(td["n"]):
        tt = t + k * step
        out.append((tt, round(td["a"] + td["b"] * math.sin(0.7 * k + td["c"]), td.get("dig", 2))))
    return out


def tide_text(spec, s):
    if spec["tide"]["format"] == "NOC_polpred":
        txt = "h1\nh2\nh3\nh4\n Date      Time      Level     Speed    Direc'n\n      m\n"
        for t, h in s:
            x = iso(t)
            txt += "%2d/%2d/%4d  %02d:%02d     %6.2f      0.14       51\n" % (
                x.day, x.month, x.year, x.hour, x.minute, h)
    else:
        txt = '"Computation Type","Time Series"\n"Model","G"\n"Datum","MSL"\n""\n"Date/Time (UTC)","H"\n"x"\n'
        for t, h in s:
            txt += "%s,%.5f,0.17887,74\n" % (iso(t).strftime("%Y-%m-%dT%H:%M:%SZ"), h)
    return txt


def tide_at(series, t):
    """linear interpolation, None outside the table"""
    if t < series[0][0] or t > series[-1][0]:
        return None
    for (a, x), (b, y) in zip(series, series[1:]):
        if a <= t <= b:
            return x + (y - x) * (t - a) / (b - a)
    return None


# ------------------------------------------------------------------ images (acfr)
def acfr_images(spec):
    im = spec["image"]
    z, off = tz_h(spec["tz"]["image"]), spec["toff"]["image"]
    out = []
    n = int(spec["dur"] / im["every"])
    for k in range(n):
        t = round(spec["t0"] + im["phase"] + k * im["every"], 3)
        t2 = round(t + im["skew"][k % len(im["skew"])], 3)

        def name(tt, lab):
            lt = local(tt, z, off)
            return "PR_%s_%03d_%s16.tif" % (lt.strftime("%Y%m%d_%H%M%S"), lt.microsecond // 1000, lab)
        drop = im.get("drop", {}).get(str(k))
        out.append((t, name(t, "LC"), t2, name(t2, "RC"), drop))
    return out


# ------------------------------------------------------------------ a dive
def write(path, text, mode="w"):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, mode) as f:
        f.write(text)


def dump_yaml(path, obj):
    import yaml
    write(path, yaml.safe_dump(obj, sort_keys=False))


def raw_dir(root, spec):
    return os.path.join(root, "raw", spec["place"], spec["dive"])


def proc_dir(root, spec):
    return os.path.join(root, "processed", spec["place"], spec["dive"])


def conf_dir(root, spec):
    return os.path.join(root, "configuration", spec["place"], spec["dive"])


def vehicle_style(spec, v):
    """the same vehicle as older versions of the software described it, or with frame names of its own"""
    st = spec.get("yaml")
    if st == "legacy":
        out = {}
        for k, f in v.items():
            n = {"LC": "camera1", "RC": "camera2"}.get(k, k)
            out[n] = {"x_offset": f["surge_m"], "y_offset": f["sway_m"], "z_offset": f["heave_m"]} if "surge_m" in f else f
        return out
    if st == "origins":
        return {{"LC": "fore_cam", "RC": "aft_cam"}.get(k, k): f for k, f in v.items()}
    return v


def mission_style(spec, m):
    st = spec.get("yaml")
    if st == "legacy":
        m.pop("version", None)
        for k in ("velocity", "orientation"):
            if k in m:
                m[k]["headingoffset"] = spec["vehicle"].get("dvl_yaw", 0.0)
        if "usbl" in m:
            m["usbl"]["label"] = m["usbl"].pop("id")
        if "image" in m:
            c = m["image"].pop("cameras")
            m["image"].update({"filepath": c[0]["path"], "camera1": c[0]["name"], "camera2": c[1]["name"]})
    if st == "origins" and "image" in m:
        for c in m["image"]["cameras"]:
            c["origin"] = {"LC": "fore_cam", "RC": "aft_cam"}.get(c["name"], c["name"])
        for k, o in (("velocity", "dvl"), ("orientation", "ins"), ("depth", "depth")):
            if k in m:
                m[k]["origin"] = o
    return m


def vehicle_yaml(spec):
    v = spec["vehicle"]

    def fr(x, y, z, yaw=0.0):
        return {"surge_m": x, "sway_m": y, "heave_m": z, "roll_deg": 0, "pitch_deg": 0, "yaw_deg": yaw}
    return {"origin": fr(0, 0, 0), "usbl": fr(*v["usbl"]), "ins": fr(*v["ins"]),
            "dvl": fr(*v["dvl"], v["dvl_yaw"]), "depth": fr(*v["depth"]),
            "LC": fr(*v["LC"]), "RC": fr(*v["RC"])}


def mission_yaml(spec):
    o = spec["origin"]
    m = {"version": 1,
         "origin": {"latitude": o[0], "longitude": o[1], "coordinate_reference_system": "wgs84",
                    "date": iso(spec["t0"]).strftime("%Y/%m/%d")}}
    st = spec["std"]
    nav = {"format": "phins", "filepath": "nav/phins/", "filename": phins_name(spec),
           "timezone": spec["tz"]["nav"], "timeoffset": spec["toff"]["nav"]}
    has = spec["has"]
    if "velocity" in has:
        m["velocity"] = dict(nav, std_factor=st["vel_f"], std_offset=st["vel_o"])
    if "orientation" in has:
        m["orientation"] = dict(nav)
    if "depth" in has:
        m["depth"] = dict(nav, std_factor=st["depth_f"])
    if "altitude" in has:
        m["altitude"] = dict(nav, std_factor=st["alt_f"])
    if "usbl" in has:
        m["usbl"] = {"format": "gaps", "filepath": "nav/gaps/", "timezone": spec["tz"]["usbl"],
                     "timeoffset": spec["toff"]["usbl"], "id": spec["gaps"]["id"],
                     "std_factor": st["usbl_f"], "std_offset": st["usbl_o"]}
    if "tide" in has:
        m["tide"] = {"format": spec["tide"]["format"], "filepath": "nav/tide/",
                     "timezone": "utc", "timeoffset": 0.0}
    if "image" in has:
        m["image"] = {"format": "acfr_standard",
                      "cameras": [{"name": "LC", "path": "image/r1/i1/"}, {"name": "RC", "path": "image/r1/i1/"}],
                      "timezone": spec["tz"]["image"], "timeoffset": spec["toff"]["image"]}
    return m


CAMERA_YAML = {
    "camera_system": "acfr_standard",
    "cameras": [
        {"name": "LC", "type": "rggb", "bit_depth": 16, "path": "image/r1/i1/*LC*", "extension": "tif",
         "filename_to_date": "xxxYYYYMMDDxhhmmssxfffxxxxx.xxx"},
        {"name": "RC", "type": "rggb", "bit_depth": 16, "path": "image/r1/i1/*RC*", "extension": "tif",
         "filename_to_date": "xxxYYYYMMDDxhhmmssxfffxxxxx.xxx"}],
}


def phins_name(spec):
    lt = local(spec["t0"], tz_h(spec["tz"]["nav"]), spec["toff"]["nav"])
    return lt.strftime("%Y%m%d") + "_phins.txt"


def build(spec, root, damage=None):
    """Write the raw folder of a dive. Returns the expected records.

    damage: function(lines) -> lines for the PHINS stream, as [(text, meaning)].
    """
    d = raw_dir(root, spec)
    os.makedirs(d, exist_ok=True)
    dump_yaml(os.path.join(d, "mission.yaml"), mission_style(spec, mission_yaml(spec)))
    dump_yaml(os.path.join(d, "vehicle.yaml"), vehicle_style(spec, vehicle_yaml(spec)))
    dump_yaml(os.path.join(d, "camera.yaml"), CAMERA_YAML)
    exp = []
    has = spec["has"]
    lines = phins_lines(spec)
    if damage is not None:
        lines = damage(lines)
    write(os.path.join(d, "nav/phins", phins_name(spec)), "".join(
        (x + "\r\n") if not isinstance(x, tuple) else x[0] for x in
        [(t if m != "raw" else (t,)) for t, m in lines]))
    recs = phins_model([x for x in lines if x[1] != "raw"], spec)
    for r in recs:
        if r["category"] in has:
            exp.append(r)
    if "usbl" in has:
        groups = gaps_groups(spec)
        nf = spec["gaps"]["files"]
        per = max(1, math.ceil(len(groups) / nf))
        for i in range(nf):
            part = groups[i * per:(i + 1) * per]
            write(os.path.join(d, "nav/gaps", "%02d_gaps.dat" % ((i * 7 + 3) % 10)),
                  "".join(x + "\r\n" for g, _ in part for x in g))
        exp += [r for _, r in groups]
    if "tide" in has:
        s = tide_series(spec)
        nf = spec["tide"].get("files", 1)
        per = max(1, math.ceil(len(s) / nf))
        for i in range(nf):
            part = s[i * per:(i + 1) * per]
            if part:
                write(os.path.join(d, "nav/tide/%d_tide.txt" % ((i * 7 + 3) % 10)), tide_text(spec, part))
        for r in exp:
            if r["category"] in ("depth", "usbl"):
                c = tide_at(s, r["epoch_timestamp"])
                if c is not None:
                    r["depth"] = r["depth"] - c
                    r["tide"] = c
    if "image" in has:
        for t, n1, t2, n2, drop in acfr_images(spec):
            base = os.path.join(d, "image/r1/i1")
            if drop != "L":
                write(os.path.join(base, n1), "x")
            if drop != "R":
                write(os.path.join(base, n2), "x")
            if drop is None:
                exp.append({"epoch_timestamp": t, "category": "image",
                            "camera1": n1, "camera2": n2, "camera2_timestamp": t2})
    exp.append({"epoch_timestamp": 0.0, "category": "origin", "latitude": spec["origin"][0],
                "longitude": spec["origin"][1]})
    return exp


# ------------------------------------------------------------------ reading results
def flatten(rec):
    """nav_standard.json record -> flat dict comparable with an expectation"""
    out = {}
    for k, v in rec.items():
        if k in ("data", "data_target"):
            for d in v:
                out.update(d)
        elif k == "data_ship":
            for d in v:
                for kk, vv in d.items():
                    out["ship_" + kk] = vv
        elif k in ("camera1", "camera2", "camera3"):
            out[k] = os.path.basename(v[0]["filename"])
            out[k + "_path"] = v[0]["filename"]
            out[k + "_timestamp"] = v[0]["epoch_timestamp"]
        else:
            out[k] = v
    return out


def close(a, b, key):
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return a == b
    if "timestamp" in key:
        return abs(a - b) < 2e-3
    if "latitude" in key or "longitude" in key:
        return abs(a - b) < 2e-8
    return abs(a - b) <= 1e-6 + 1e-6 * abs(b)


def rkey(r):
    """identity of a record: what it is and when"""
    c = r["category"]
    if c == "velocity":
        c += "/" + str(r.get("frame"))
    if c == "image":
        c += "/" + str(r.get("camera1"))
    return (c, round(r["epoch_timestamp"] * 1000))


def compare(exp, got):
    """multiset comparison; returns list of difference strings"""
    from collections import defaultdict
    diffs = []
    E, G = defaultdict(list), defaultdict(list)
    for r in exp:
        E[rkey(r)].append(r)
    for r in got:
        G[rkey(r)].append(r)
    for k in sorted(set(E) | set(G), key=str):
        e, g = E.get(k, []), G.get(k, [])
        if len(e) != len(g):
            diffs.append("record %s at %.3f: expected %d, found %d" % (k[0], k[1] / 1000.0, len(e), len(g)))
            continue
        for a in e:
            bad = None
            for b in g:
                miss = [x for x in a if x != "tide" and not close(b.get(x), a[x], x)]
                if not miss:
                    bad = None
                    break
                bad = "record %s at %.3f: %s is %r, expected %r" % (
                    k[0], k[1] / 1000.0, miss[0], b.get(miss[0]), a[miss[0]])
            if bad:
                diffs.append(bad)
    return diffs


# ------------------------------------------------------------------ random specs
def random_spec(rng, small=True, **over):
    t0 = rng.choice([1502943000.0, 1528700000.0, 1655000000.0, 1600000123.0]) + rng.randrange(0, 3000)
    if rng.random() < 0.06:
        t0 = 999999990.0 + rng.randrange(0, 8)       # the second the epoch gained a digit
    # keep clear of midnight in every zone used: PHINS logs carry no date
    dur = rng.choice([20, 30, 40] if small else [60, 90])
    tz = rng.choice(["utc", "jst", 0, 2, -5, "cet"])
    spec = {
        "place": "cruise", "dive": iso(t0).strftime("%Y%m%d_%H%M%S_") + rng.choice(["ts", "ae", "ug"]),
        "t0": t0, "dur": dur,
        "tz": {"nav": tz, "usbl": rng.choice(["utc", "jst", 1]), "image": rng.choice(["utc", "jst", 3])},
        "toff": {"nav": rng.choice([0.0, 0.0, 1.5, -2.25]), "usbl": rng.choice([0.0, 0.5]),
                 "image": rng.choice([0.0, 0.0, -0.75])},
        "origin": rng.choice([[26.674083, 127.868054], [-33.1, 18.2], [54.2, -8.4], [-10.5, -70.25]]),
        "traj": {"hdg0": rng.uniform(0, 359), "turn": rng.choice([0.0, 0.5, -1.0, 3.0]), "u": rng.uniform(0.2, 1.0),
                 "v": rng.choice([0.0, 0.1, -0.2]), "n0": rng.uniform(-50, 50), "e0": rng.uniform(-50, 50),
                 "d0": rng.uniform(20, 900), "dr": rng.choice([0.0, 0.02, -0.03]),
                 "alt0": rng.uniform(3, 9), "alt_a": rng.choice([0.0, 0.5]),
                 "roll": rng.choice([0.0, 2.0]), "pitch": rng.choice([0.0, 3.0])},
        "vehicle": {"usbl": [0.1, 0, -0.5], "ins": [0.1, 0, 0], "dvl": [-0.45, 0, 0.45],
                    "dvl_yaw": rng.choice([0.0, -45.0, 90.0]), "depth": [0.16, 0, 0],
                    "LC": [-0.05, -0.3, 0.18], "RC": [-0.05, -0.1, 0.18]},
        "std": {"vel_f": 0.001, "vel_o": 0.002, "depth_f": 0.0001, "alt_f": 0.01, "usbl_f": 0.006, "usbl_o": 2.0},
        "phins": {"rate": rng.choice([1, 2, 4]), "dvl_lag": rng.choice([0.0, 0.1, 0.3]),
                  "dvl_every": rng.choice([1, 1, 2]), "junk": rng.random() < 0.5},
        "gaps": {"every": rng.choice([3, 4, 5]), "phase": 0.7, "id": rng.choice([1, 2, 3]),
                 "err": [[round(rng.uniform(-2, 2), 2), round(rng.uniform(-2, 2), 2)] for _ in range(5)],
                 "ship": [rng.uniform(-80, 80), rng.uniform(-80, 80)], "ship_hdg": round(rng.uniform(0, 350), 2),
                 "files": rng.choice([1, 2, 3]), "other": rng.random() < 0.3},
        "image": {"every": rng.choice([1, 2, 3]), "phase": round(rng.uniform(0.0, 0.9), 3),
                  "skew": [rng.choice([0.0, 0.01, -0.02, 0.03]) for _ in range(3)], "drop": {}},
        "tide": {"format": rng.choice(["NOC_polpred", "NOC_CTI"]), "from": rng.choice([-7200, -60, 10]),
                 "step": rng.choice([60, 600, 900]), "n": rng.choice([4, 8, 30]),
                 "a": 0.5, "b": 0.8, "c": rng.uniform(0, 6), "dig": 2,
                 "files": rng.choice([1, 1, 2])},
        "has": ["velocity", "orientation", "depth", "altitude", "usbl", "image"],
    }
    if rng.random() < 0.5:
        spec["has"].append("tide")
    spec["yaml"] = rng.choice(["now"] * 8 + ["legacy", "origins"])
    if rng.random() < 0.3:
        for _ in range(rng.randrange(1, 4)):
            spec["image"]["drop"][str(rng.randrange(0, 8))] = rng.choice("LR")
    spec.update(over)
    # midnight guard
    z = tz_h(spec["tz"]["nav"])
    lt = local(spec["t0"] - 10, z, spec["toff"]["nav"])
    lt2 = local(spec["t0"] + spec["dur"] + 10, z, spec["toff"]["nav"])
    if lt.date() != lt2.date():
        spec["t0"] += 3600.0
        spec["dive"] = iso(spec["t0"]).strftime("%Y%m%d_%H%M%S_ts")
    return spec
