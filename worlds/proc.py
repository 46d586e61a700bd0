"""A parsed dive (navigation file, vehicle, mission, configuration) for
`auv_nav process`, with the true position of every sensor in closed form."""
import json
import math
import os

from . import nav

PFP = 0.15
DEFAULT_YAML = "/repo/src/auv_nav/default_yaml/auv_nav.yaml"


def rot(roll, pitch, yaw, x, y, z):
    """vehicle frame -> north, east, down (yaw, pitch, roll order)"""
    r, p, w = (math.radians(a) for a in (roll, pitch, yaw))
    y, z = math.cos(r) * y - math.sin(r) * z, math.sin(r) * y + math.cos(r) * z
    x, z = math.cos(p) * x + math.sin(p) * z, -math.sin(p) * x + math.cos(p) * z
    return math.cos(w) * x - math.sin(w) * y, math.sin(w) * x + math.cos(w) * y, z


def unrot(roll, pitch, yaw, x, y, z):
    w = math.radians(yaw)
    x, y = math.cos(w) * x + math.sin(w) * y, -math.sin(w) * x + math.cos(w) * y
    p = math.radians(pitch)
    x, z = math.cos(p) * x - math.sin(p) * z, math.sin(p) * x + math.cos(p) * z
    r = math.radians(roll)
    y, z = math.cos(r) * y + math.sin(r) * z, -math.sin(r) * y + math.cos(r) * z
    return x, y, z


class Truth:
    def __init__(self, spec):
        self.spec = spec
        self.tr = nav.Traj(spec)
        self.roll, self.pitch = spec["traj"]["roll"], spec["traj"]["pitch"]

    def heading(self, t):
        return self.tr.heading(t)

    def pos(self, t, arm=(0.0, 0.0, 0.0)):
        n, e = self.tr.ne(t)
        d = self.tr.depth(t)
        x, y, z = rot(self.roll, self.pitch, self.heading(t), *arm)
        return n + x, e + y, d + z

    def alt(self, t, arm=(0.0, 0.0, 0.0)):
        """the sea floor is flat under the vehicle: altitude at the origin minus how much lower the sensor sits"""
        _, _, z = rot(self.roll, self.pitch, self.heading(t), *arm)
        return self.tr.alt(t) - z

    def body_velocity(self, t):
        h = self.heading(t)
        hr = math.radians(h)
        vn = self.tr.u * math.cos(hr) - self.tr.v * math.sin(hr)
        ve = self.tr.u * math.sin(hr) + self.tr.v * math.cos(hr)
        return unrot(self.roll, self.pitch, h, vn, ve, self.tr.dr)


def stamps(spec, s, key):
    """time stamps of one sensor: rate, phase, outages"""
    c = spec["sens"][key]
    out = []
    n = int((spec["dur"] - c["phase"]) / c["every"])
    for k in range(n):
        t = round(spec["t0"] + c["phase"] + k * c["every"], 3)
        r = t - spec["t0"]
        if any(a <= r < b for a, b in c.get("out", [])):
            continue
        out.append(t)
    return out


def image_times(spec, cam):
    im = spec["img"]
    out = []
    n = int((spec["dur"] + im["before"] + im["after"]) / im["every"])
    for k in range(n):
        t = round(spec["t0"] - im["before"] + im["phase"] + k * im["every"] + (im["skew"] if cam == 2 else 0.0), 3)
        side = "LC" if cam == 1 else "RC"
        if spec["cfg"]["spp"]:
            # SLAM++ output needs numbered images
            out.append((t, "image/r1/%s/image%07d.tif" % (side, 100 + k)))
        else:
            out.append((t, "image/r1/i1/PR_%s_%03d_%s16.tif" % (
                nav.iso(t).strftime("%Y%m%d_%H%M%S"), round((t % 1) * 1000) % 1000, side)))
    return out


def payload_times(spec):
    p = spec["payload"]
    n = int((spec["dur"] + 6) / p["every"])
    return [round(spec["t0"] - 3 + p["phase"] + k * p["every"], 3) for k in range(n)]


def std_records(spec):
    """records of nav_standard.json"""
    T = Truth(spec)
    v = spec["vehicle"]
    out = []
    for t in stamps(spec, T, "orientation"):
        out.append({"epoch_timestamp": t, "class": "measurement", "sensor": "sim", "frame": "body",
                    "category": "orientation",
                    "data": [{"heading": round(T.heading(t), 6), "heading_std": 0.1},
                             {"roll": T.roll, "roll_std": 0.02}, {"pitch": T.pitch, "pitch_std": 0.03}]})
    lag = spec["sens"]["dvl"].get("lag", 0.0)
    for t in stamps(spec, T, "dvl"):
        td = round(t - lag, 3)
        x, y, z = T.body_velocity(td)
        out.append({"epoch_timestamp": t, "epoch_timestamp_dvl": td, "class": "measurement", "sensor": "sim",
                    "frame": "body", "category": "velocity",
                    "data": [{"x_velocity": round(x, 9), "x_velocity_std": 0.003},
                             {"y_velocity": round(y, 9), "y_velocity_std": 0.003},
                             {"z_velocity": round(z, 9), "z_velocity_std": 0.003}]})
    if spec["sens"].get("inertial"):
        for t in stamps(spec, T, "inertial"):
            hr = math.radians(T.heading(t))
            out.append({"epoch_timestamp": t, "class": "measurement", "sensor": "sim", "frame": "inertial",
                        "category": "velocity",
                        "data": [{"north_velocity": T.tr.u * math.cos(hr) - T.tr.v * math.sin(hr),
                                  "north_velocity_std": 0.01},
                                 {"east_velocity": T.tr.u * math.sin(hr) + T.tr.v * math.cos(hr),
                                  "east_velocity_std": 0.01},
                                 {"down_velocity": T.tr.dr, "down_velocity_std": 0.01}]})
    for t in stamps(spec, T, "depth"):
        d = T.pos(t, v["depth"])[2]
        out.append({"epoch_timestamp": t, "epoch_timestamp_depth": t, "class": "measurement", "sensor": "sim",
                    "frame": "inertial", "category": "depth",
                    "data": [{"depth": round(d, 6), "depth_std": round(d * 1e-4, 9)}]})
    for t in stamps(spec, T, "altitude"):
        a = T.alt(t, v["dvl"])
        out.append({"epoch_timestamp": t, "epoch_timestamp_dvl": t, "class": "measurement", "sensor": "sim",
                    "frame": "body", "category": "altitude",
                    "data": [{"altitude": round(a, 6), "altitude_std": round(a * 0.01, 9)},
                             {"sound_velocity": 1500.0, "sound_velocity_correction": 0.5}]})
    if spec["sens"].get("usbl"):
        for k, t in enumerate(stamps(spec, T, "usbl")):
            n, e, d = T.pos(t, v["usbl"])
            bad = spec["outliers"].get(str(k))
            if bad == "pos":
                n, e = n + 400.0, e - 300.0
            elif bad == "depth":
                d = d + 300.0
            la, lo = nav.ll(spec["origin"], n, e)
            dist = math.sqrt(n * n + e * e + d * d)
            sd = 2.0 + 0.006 * dist
            out.append({"epoch_timestamp": t, "class": "measurement", "sensor": "sim", "frame": "inertial",
                        "category": "usbl",
                        "data_ship": [{"latitude": spec["origin"][0], "longitude": spec["origin"][1]},
                                      {"northings": 0.0, "eastings": 0.0}, {"heading": 12.5}],
                        "data_target": [{"latitude": la, "latitude_std": 3e-5}, {"longitude": lo, "longitude_std": 3e-5},
                                        {"northings": n, "northings_std": sd}, {"eastings": e, "eastings_std": sd},
                                        {"depth": d, "depth_std": sd}, {"distance_to_ship": dist}]})
    if spec.get("img"):
        a, b = image_times(spec, 1), image_times(spec, 2)
        for (t1, f1), (t2, f2) in zip(a, b):
            out.append({"epoch_timestamp": t1, "class": "measurement", "sensor": "acfr_standard", "frame": "body",
                        "category": "image", "camera1": [{"epoch_timestamp": t1, "filename": f1}],
                        "camera2": [{"epoch_timestamp": t2, "filename": f2}]})
    if spec.get("laser"):
        for t in stamps(spec, T, "laser"):
            out.append({"epoch_timestamp": t, "class": "measurement", "sensor": "sim", "frame": "body",
                        "category": "laser", "camera1": [{"epoch_timestamp": t, "filename": laser_name(spec, t)}]})
    # the order in which equal time stamps appear is not promised
    out.sort(key=lambda r: (r["epoch_timestamp"], r["category"], r.get("frame", "")))
    return [{"epoch_timestamp": 0.0, "class": "origin", "category": "origin",
             "data": [{"latitude": spec["origin"][0], "longitude": spec["origin"][1], "crs": "wgs84",
                       "date": nav.iso(spec["t0"]).strftime("%Y/%m/%d")}]}] + out


def laser_name(spec, t):
    return "image/r1/laser/image%07d.tif" % round((t - spec["t0"]) * 1000)


def vehicle_yaml(spec):
    v = spec["vehicle"]

    def fr(x, y, z):
        return {"surge_m": x, "sway_m": y, "heave_m": z, "roll_deg": 0, "pitch_deg": 0, "yaw_deg": 0}
    o = {"origin": fr(0, 0, 0)}
    for k in ("usbl", "ins", "dvl", "depth", "LC", "RC"):
        o[k] = fr(*v[k])
    if spec.get("laser"):
        o["LZ"] = fr(*v["LZ"])
    if spec.get("payload"):
        o["payloads"] = {"ctd": fr(*v["ctd"])}
    return o


def mission_yaml(spec):
    o = spec["origin"]
    sec = {"format": "phins", "filepath": "nav/phins/", "filename": "none.txt", "timezone": "utc", "timeoffset": 0.0}
    m = {"version": 1, "origin": {"latitude": o[0], "longitude": o[1], "coordinate_reference_system": "wgs84",
                                  "date": nav.iso(spec["t0"]).strftime("%Y/%m/%d")}}
    m["velocity"] = dict(sec, std_factor=0.001, std_offset=0.002)
    m["orientation"] = dict(sec)
    m["depth"] = dict(sec, std_factor=0.0001)
    m["altitude"] = dict(sec, std_factor=0.01)
    m["usbl"] = {"format": "gaps", "filepath": "nav/gaps/", "timezone": "utc", "timeoffset": 0.0, "id": 1,
                 "std_factor": 0.006, "std_offset": 2.0}
    cams = [{"name": "LC", "path": "image/r1/i1/"}, {"name": "RC", "path": "image/r1/i1/"}]
    if spec.get("laser"):
        cams.append({"name": "LZ", "path": "image/r1/laser/"})
    m["image"] = {"format": "acfr_standard", "cameras": cams, "timezone": "utc", "timeoffset": 0.0}
    if spec.get("payload"):
        m["payloads"] = {"ctd": {"format": "generic_csv", "path": "nav/ctd/ctd.csv", "columns": [],
                                 "timezone": "utc", "timeoffset": spec["payload"]["toff"]}}
    return m


def config(spec):
    import yaml
    with open(DEFAULT_YAML) as f:
        c = yaml.safe_load(f)
    k = spec["cfg"]
    c["usbl_filter"]["activate"] = k["usbl_filter"]
    c["ekf"]["activate"] = k["ekf"]
    c["ekf"]["activate_smoother"] = k["smooth"]
    c["particle_filter"]["activate"] = k["pf"]
    c["particle_filter"]["particles_number"] = k["particles"]
    c["plot_output"]["activate"] = k["plot"]
    c["plot_output"]["html_plot"] = k["plot"]
    c["spp_output"]["activate"] = k["spp"]
    c["csv_output"]["activate"] = k["csv"]
    c["csv_output"]["usbl"] = k["csv_usbl"]
    for sec, name in k.get("off", []):
        c["csv_output"][sec][name] = False
    for x in k.get("variant", []):
        if x == "old_names" and "std" in c:
            for new, old in (("position_xy", "usbl"), ("position_z", "depth"), ("speed", "dvl")):
                c["std"][old] = c["std"].pop(new)
        elif x == "no_std" and not k["ekf"] and not k["pf"]:
            c.pop("std")
        elif x == "no_spp" and not k["spp"]:
            c.pop("spp_output")
        elif x == "no_pf" and not k["pf"]:
            c.pop("particle_filter")
        elif x == "no_ekf" and not k["ekf"]:
            c.pop("ekf")
        elif x == "cov15":
            for key in ("process_noise_covariance", "initial_estimate_covariance"):
                q = c["ekf"][key]
                n = int(round(len(q) ** 0.5))
                c["ekf"][key] = [q[i * n + j] if i < n and j < n else (0.1 if i == j else 0.0)
                                 for i in range(15) for j in range(15)]
        elif x == "short_ekf" and k["smooth"]:
            c["ekf"].pop("activate_smoother", None)
            c["ekf"].pop("mahalanobis_distance_threshold", None)
    return c


VARIANTS = ["old_names", "no_std", "no_spp", "no_pf", "no_ekf", "cov15", "short_ekf"]


def add_variants(rng, spec):
    """configuration files of other ages: old names, missing optional sections"""
    spec["cfg"]["variant"] = rng.sample(VARIANTS, rng.choice([1, 1, 2, 3]))
    if "no_ekf" in spec["cfg"]["variant"]:
        spec["cfg"]["variant"] = [x for x in spec["cfg"]["variant"] if x not in ("cov15", "short_ekf")]
    return spec


def build(spec, root, mission=True):
    """raw + processed + configuration folders of a parsed dive; returns the records"""
    raw, pr = nav.raw_dir(root, spec), nav.proc_dir(root, spec)
    nav.dump_yaml(os.path.join(raw, "mission.yaml"), nav.mission_style(spec, mission_yaml(spec)))
    nav.dump_yaml(os.path.join(raw, "vehicle.yaml"), nav.vehicle_style(spec, vehicle_yaml(spec)))
    nav.dump_yaml(os.path.join(raw, "camera.yaml"), nav.CAMERA_YAML)
    recs = std_records(spec)
    nav.write(os.path.join(pr, "nav", "nav_standard.json"), json.dumps(recs, indent=2))
    os.makedirs(os.path.join(pr, "log"), exist_ok=True)
    nav.dump_yaml(os.path.join(nav.conf_dir(root, spec), "auv_nav.yaml"), config(spec))
    if spec.get("payload"):
        T = Truth(spec)
        txt = "corrected_timestamp,temperature\n"
        for t in payload_times(spec):
            txt += "%.3f,%.4f\n" % (t - spec["payload"]["toff"], 4.0 + 0.001 * (t - spec["t0"]))
        nav.write(os.path.join(raw, "nav/ctd/ctd.csv"), txt)
    return recs


def random_spec(rng, small=True, **over):
    t0 = float(rng.choice([1502943000, 1528700000, 1655000000, 1709164795]) + rng.randrange(0, 3000))
    dur = rng.choice([30, 40] if small else [50, 70])
    turn = rng.choice([0.0, 0.0, 0.0, 1.0, -2.0, 4.0])
    arm = 1.0 if turn == 0.0 else 0.1

    def r(a):
        return round(rng.uniform(-a, a), 3)

    def sens(every, ph=0.9):
        return {"every": every, "phase": round(rng.uniform(0.0, ph), 3)}
    spec = {
        "place": "cruise", "dive": nav.iso(t0).strftime("%Y%m%d_%H%M%S_") + rng.choice(["ts", "ae"]),
        "t0": t0, "dur": dur,
        "origin": rng.choice([[26.674083, 127.868054], [-33.1, 18.2], [54.2, -8.4], [-10.5, -70.25]]),
        "traj": {"hdg0": rng.choice([rng.uniform(0, 359), 355.0, 2.0]), "turn": turn, "u": rng.uniform(0.2, 1.0),
                 "v": rng.choice([0.0, 0.1, -0.2]), "n0": rng.uniform(-50, 50), "e0": rng.uniform(-50, 50),
                 "d0": rng.uniform(20, 500), "dr": rng.choice([0.0, 0.02, -0.05]),
                 "alt0": rng.uniform(4, 9), "alt_a": rng.choice([0.0, 0.5]),
                 "roll": rng.choice([0.0, 0.0, 4.0]), "pitch": rng.choice([0.0, 0.0, -5.0])},
        "vehicle": {"usbl": [r(0.1), r(0.1), -0.5], "ins": [0.1, 0, 0], "dvl": [r(arm), r(arm), round(rng.uniform(0, 0.8), 3)],
                    "depth": [r(0.3), 0, r(0.5)], "LC": [r(0.8), r(0.8), r(0.5)], "RC": [r(0.8), r(0.8), r(0.5)],
                    "LZ": [r(0.8), r(0.8), r(0.5)], "ctd": [r(0.8), r(0.8), r(0.5)]},
        "sens": {"orientation": sens(rng.choice([0.2, 0.5, 1.0])), "dvl": sens(rng.choice([0.25, 0.5, 1.0])),
                 "depth": sens(rng.choice([0.25, 0.5, 1.0])), "altitude": sens(rng.choice([0.25, 0.5, 1.0])),
                 "usbl": sens(rng.choice([1.0, 2.0]))},
        "outliers": {}, "laser": False, "payload": None,
        "img": {"every": rng.choice([0.21, 0.5, 1.0, 2.3]), "phase": round(rng.uniform(0, 0.9), 3), "skew": rng.choice([0.0, 0.011, 0.03]),
                "before": rng.choice([0, 2, 4]), "after": rng.choice([0, 2, 4])},
        "cfg": {"usbl_filter": True, "ekf": rng.random() < 0.6, "smooth": rng.random() < 0.6, "pf": rng.random() < PFP,
                "particles": 20, "plot": rng.random() < 0.5, "spp": rng.random() < 0.15, "csv": True, "csv_usbl": True,
                "off": []},
    }
    s = spec["sens"]
    s["dvl"]["lag"] = rng.choice([0.0, 0.0, 0.1, 0.4])
    if rng.random() < 0.4:
        s["inertial"] = sens(rng.choice([0.5, 1.0]))
    if rng.random() < 0.08:
        s.pop("usbl")
    elif s["usbl"]["every"] == 1.0 and rng.random() < 0.45:
        # a filter that compares neighbours needs a majority of good neighbours
        for _ in range(rng.randrange(1, 4)):
            spec["outliers"][str(rng.randrange(5, 12))] = rng.choice(["pos", "depth"])
    if rng.random() < 0.08:
        spec["cfg"]["usbl_filter"] = False
        spec["outliers"] = {}
    if rng.random() < 0.3:
        spec["payload"] = {"every": rng.choice([0.5, 1.3]), "phase": round(rng.uniform(0, 0.9), 3),
                           "toff": rng.choice([0.0, 1.5])}
    if rng.random() < 0.3:
        spec["laser"] = True
        s["laser"] = sens(rng.choice([0.3, 1.0]))
    if rng.random() < 0.2:
        spec["cfg"]["off"] = rng.sample([["dead_reckoning", "camera_1"], ["dead_reckoning", "auv_dvl"], ["ekf", "camera_2"],
                                         ["dead_reckoning", "camera_2"], ["ekf", "auv_centre"], ["ekf", "camera_1"]], 2)
    if rng.random() < 0.25:
        # one sensor is silent for a while
        k = rng.choice(["dvl", "altitude", "depth"] + (["orientation"] if turn == 0.0 else []))
        a = rng.uniform(5, dur - 15)
        s[k]["out"] = [[a, a + rng.choice([2, 5])]]
    spec["yaml"] = rng.choice(["now"] * 8 + ["legacy", "origins"])
    if spec["laser"] and spec["yaml"] == "legacy":
        spec["yaml"] = "now"
    if rng.random() < 0.15:
        add_variants(rng, spec)
    spec.update(over)
    return spec
