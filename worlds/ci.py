"""A dive of images with a navigation solution, for `correct_images`, and the
correction a user expects, computed independently from the generated pixels."""
import math
import os

import numpy as np

from .nav import dump_yaml, iso, write

PLACE = "2020/cruise"
BIN = 0.1


def dive_dir(root, base, dive):
    return os.path.join(root, base, PLACE, dive["name"])


def image_name(dive, cam, k):
    t = dive["t0"] + k * 2.0
    ms = 100 + (k * 37) % 800
    return "PR_%s_%03d_%s16.%s" % (iso(t).strftime("%Y%m%d_%H%M%S"), ms, cam["name"], cam["ext"])


def folder_of(spec, dive, cam, k):
    if cam["path"] == "flat":
        return "image/%s" % cam["name"]
    if cam["path"] == "split":          # the logger opened a second folder
        return "image/i%s" % ("20200101_%02d" % (k * dive["nfold"] // max(1, len(dive["alts"]))))
    return "image/i20200101"


def cam_path(cam):
    if cam["path"] == "flat":
        return "image/%s" % cam["name"]
    return "image/i*/*%s*" % cam["name"]


def pixels(spec, dive, cam, k):
    """the stored image: [h, w] or [h, w, 3] unsigned integers"""
    h, w = spec["h"], spec["w"]
    ch = 3 if cam["type"] in ("rgb", "bgr") else 1
    r = np.random.RandomState((spec["pix"] * 7919 + dive["seed"] * 131 + k * 17 + sum(map(ord, cam["name"]))) % (2 ** 31))
    fix = np.random.RandomState(spec["pix"])
    a0 = fix.uniform(0.4, 1.05, size=(h, w, ch))
    b = fix.uniform(0.15, 0.35, size=(h, w, ch))
    c0 = fix.uniform(0.03, 0.06, size=(h, w, ch))
    alt = dive["alts"][k]
    if alt is None:
        alt = 5.0
    v = a0 * np.exp(-b * alt) + c0
    v = v * r.normal(1.0, spec["noise"], size=(h, w, ch))
    v = np.clip(v, 0.004, 0.93)
    m = 2 ** cam["bit"]
    img = np.round(v * (m - 1))
    if spec.get("dark"):
        img[0, :spec["dark"], :] = 0
    img = img.astype(np.uint16 if cam["bit"] > 8 else np.uint8)
    return img if ch == 3 else img[:, :, 0]


def stored(cam, img):
    """sensors of 12 bit write the upper bits of a 16-bit file"""
    return np.left_shift(img, 16 - cam["bit"]) if 8 < cam["bit"] < 16 else img


def put_image(path, img):
    import imageio.v2 as iio
    os.makedirs(os.path.dirname(path), exist_ok=True)
    iio.imwrite(path, img)


HEADER = ("relative_path,northing [m],easting [m],depth [m],roll [deg],pitch [deg],heading [deg],altitude [m],"
          "timestamp [s],latitude [deg],longitude [deg],x_velocity [m/s],y_velocity [m/s],z_velocity [m/s]\n")


def alt_text(a):
    return "None" if a is None else "%.6f" % a


def rows(spec, dive, cam, shift=0.0):
    """(index, relative path, altitude, csv text) of every navigated image"""
    out = []
    for k, a in enumerate(dive["alts"]):
        if k in dive["no_nav"]:
            continue
        rel = folder_of(spec, dive, cam, k) + "/" + image_name(dive, cam, k)
        t = dive["t0"] + k * 2.0 + (100 + (k * 37) % 800) / 1000.0
        a2 = None if a is None else round(a + shift, 6)
        out.append((k, rel, a2, "%s,%.4f,%.4f,%.3f,0.1,0.2,%.2f,%s,%.3f,%.8f,%.8f,0.5,0.0,0.0\n" % (
            rel, 3.0 + k * 0.8, 1.0 - k * 0.1, 50.25, 12.0, alt_text(a2), t, 26.5 + k * 1e-5, 127.8)))
    return out


def solutions(dive):
    """names of the navigation solutions, the one that counts first"""
    return sorted(dive["sols"])


def write_nav(spec, dive, root):
    pd = dive_dir(root, "processed", dive)
    for i, s in enumerate(solutions(dive)):
        for cam in spec["cams"]:
            body = HEADER + "".join(r[3] for r in rows(spec, dive, cam, 0.0 if i == 0 else 0.35 * i))
            if dive["nav"] in ("ekf", "both"):
                write(os.path.join(pd, s, "csv/ekf/auv_ekf_%s.csv" % cam["name"]), body)
            if dive["nav"] in ("dr", "both"):
                other = HEADER + "".join(r[3] for r in rows(spec, dive, cam, 0.0 if dive["nav"] == "dr" and i == 0 else 0.2))
                write(os.path.join(pd, s, "csv/dead_reckoning/auv_dr_%s.csv" % cam["name"]), other)


def config(spec, dive):
    c = spec["cfg"]
    y = {"version": 2, "method": c["method"],
         "colour_correction": {
             "distance_metric": c["metric"],
             "metric_path": c["path"] if c["path"] == "json_renav_*" else solutions(dive)[0],
             "altitude_filter": {"parse": {"min_m": c["parse"][0], "max_m": c["parse"][1]},
                                 "process": {"min_m": c["process"][0], "max_m": c["process"][1]}},
             "smoothing": c["smoothing"], "window_size": 3},
         "cameras": [], "output_settings": {"undistort": False, "compression_parameter": c["fmt"]}}
    if c.get("old_filter"):
        y["colour_correction"]["altitude_filter"] = {"min_m": c["parse"][0], "max_m": c["parse"][1]}
    for cam in spec["cams"]:
        y["cameras"].append({
            "camera_name": cam["name"],
            "image_file_list": {m: ("list_%s_%s.txt" % (m, cam["name"]) if c["lists"].get(m) else "none")
                                for m in ("parse", "process")},
            "colour_correction": {"brightness": c["brightness"], "contrast": c["contrast"]},
            "manual_balance": {"subtractors_rgb": c["sub"], "colour_gain_matrix_rgb": c["gain"]}})
    return y


def prange(spec):
    """altitude range for process"""
    c = spec["cfg"]
    return c["parse"] if c.get("old_filter") else c["process"]


def conf_name(spec):
    s = spec["cfg"].get("suffix")
    return "correct_images_%s.yaml" % s if s else "correct_images.yaml"


def in_list(spec, mode, k):
    q = spec["cfg"]["lists"].get(mode)
    return True if not q else (k * 2654435761 + q) % 97 < 73


def build(spec, root):
    for dive in spec["dives"]:
        rd = dive_dir(root, "raw", dive)
        os.makedirs(rd, exist_ok=True)
        dump_yaml(os.path.join(rd, "mission.yaml"), {
            "version": 1, "origin": {"latitude": 26.5, "longitude": 127.8, "coordinate_reference_system": "wgs84",
                                     "date": "2020/01/01"},
            "image": {"format": "acfr_standard", "cameras": [
                {"name": c["name"], "origin": c["name"], "type": c["type"], "bit_depth": c["bit"], "path": "image"}
                for c in spec["cams"]], "timezone": 0, "timeoffset": 0.0}})
        fr = {"surge_m": 0.0, "sway_m": 0.0, "heave_m": 0.0, "roll_deg": 0, "pitch_deg": 0, "yaw_deg": 0}
        dump_yaml(os.path.join(rd, "vehicle.yaml"), {k: dict(fr) for k in
                                                     ("origin", "usbl", "ins", "dvl", "depth", "LC", "RC")})
        dump_yaml(os.path.join(rd, "camera.yaml"), {"camera_system": "acfr_standard", "cameras": [
            {"name": c["name"], "type": c["type"], "bit_depth": c["bit"], "path": cam_path(c),
             "extension": c["ext"], "filename_to_date": "xxxYYYYMMDDxhhmmssxfffxxxxx.xxx"} for c in spec["cams"]]})
        cd = dive_dir(root, "configuration", dive)
        dump_yaml(os.path.join(cd, conf_name(spec)), config(spec, dive))
        for cam in spec["cams"]:
            for mode in ("parse", "process"):
                if spec["cfg"]["lists"].get(mode):
                    write(os.path.join(cd, "list_%s_%s.txt" % (mode, cam["name"])), "".join(
                        image_name(dive, cam, k) + "\n" for k in range(len(dive["alts"])) if in_list(spec, mode, k)))
            for k in range(len(dive["alts"])):
                if k in dive["lost"]:
                    continue
                put_image(os.path.join(rd, folder_of(spec, dive, cam, k), image_name(dive, cam, k)),
                          stored(cam, pixels(spec, dive, cam, k)))
        write_nav(spec, dive, root)


def eligible(spec, dive, cam, mode):
    """[(index, relative path, altitude)] of the images a command has to use"""
    out = []
    if spec["cfg"]["method"] == "manual_balance":
        return sorted(((k, folder_of(spec, dive, cam, k) + "/" + image_name(dive, cam, k), None)
                       for k in range(len(dive["alts"])) if k not in dive["lost"]), key=lambda x: x[1])
    lo, hi = spec["cfg"]["parse"] if mode == "parse" else prange(spec)
    for k, rel, a, _ in rows(spec, dive, cam):
        if k in dive["lost"] or a is None or not lo < a < hi or not in_list(spec, mode, k):
            continue
        out.append((k, rel, a))
    return out


# ------------------------------------------------------------------ reference
def unit(spec, dive, cam, k):
    return pixels(spec, dive, cam, k).astype(np.float64) / 2.0 ** cam["bit"]


def bins(spec):
    lo, hi = spec["cfg"]["parse"]
    return np.arange(lo, hi + 0.5 * BIN, BIN)


def smooth(how, stack):
    if how == "mean":
        return stack.mean(axis=0)
    if how == "median":
        return np.median(stack, axis=0)
    if how == "mean_trimmed":
        n = len(stack)
        return np.sort(stack, axis=0)[int(n * 0.1):int(n * 0.9)].mean(axis=0)
    raise ValueError(how)


def ref_bins(spec, cam, dives):
    """({bin: (mean altitude, sample image)}, all altitudes, all (dive, index)) for the altitude metric"""
    every = [(d, k, a) for d in dives for k, _, a in eligible(spec, d, cam, "parse")]
    edges = bins(spec)
    out = {}
    for i in range(len(edges) - 1):
        sel = [x for x in every if edges[i] <= x[2] < edges[i + 1]]
        if len(sel) >= 10:
            st = np.stack([unit(spec, d, cam, k) for d, k, _ in sel])
            out[i] = (float(np.mean([x[2] for x in sel])), smooth(spec["cfg"]["smoothing"], st))
    return out, every


def attenuate(img, alt, attn, gain):
    """img [h, w] or [h, w, c]; attn [c, h, w, 3]; gain [c, h, w]"""
    x = img if img.ndim == 3 else img[:, :, None]
    out = np.empty(x.shape)
    for c in range(x.shape[2]):
        out[:, :, c] = gain[c] / (attn[c, :, :, 0] * np.exp(attn[c, :, :, 1] * alt) + attn[c, :, :, 2]) * x[:, :, c]
    return out if img.ndim == 3 else out[:, :, 0]


def running_stats(images):
    """mean and std over the images, pixels brighter than 0.95 replaced by the mean so far"""
    n, m, s = 0, None, None
    for x in images:
        x = x.copy()
        if m is None:
            m, s = np.zeros(x.shape), np.zeros(x.shape)
        x[x > 0.95] = m[x > 0.95]
        n += 1
        d = x - m
        m = m + d / n
        s = s + d * (x - m)
    return m, np.maximum(np.sqrt(s / n), 1e-6)


def plain_stats(images):
    st = np.stack(images)
    return st.mean(axis=0), st.std(axis=0)


BAYER = {"rggb": "COLOR_BAYER_BG2RGB_EA", "grbg": "COLOR_BAYER_GB2RGB_EA",
         "bggr": "COLOR_BAYER_RG2RGB_EA", "gbrg": "COLOR_BAYER_GR2RGB_EA"}


def develop(spec, cam, img, alt, par):
    """8-bit image expected from one raw image (float pixels) and the stored parameters"""
    import cv2
    c = spec["cfg"]
    if c["method"] == "colour_correction":
        if c["metric"] == "altitude":
            img = attenuate(img, alt, par["attn"], par["gain"])
            m, s = par["mean"], par["std"]
        else:
            m, s = par["raw_mean"], par["raw_std"]
        with np.errstate(all="ignore"):
            img = np.clip((img - m) / s * c["contrast"] / 100.0 + c["brightness"] / 100.0, 0, 1)
    if cam["type"] in BAYER:
        u = (img.astype(np.float32) * 65535).clip(0, 65535).astype(np.uint16)
        img = cv2.cvtColor(u, getattr(cv2, BAYER[cam["type"]])).astype(np.float64) / 65536.0
    elif cam["type"] == "rgb":
        img = img[:, :, ::-1]
    if c["method"] == "manual_balance":
        g, o = np.array(c["gain"], float), np.array(c["sub"], float)
        img = (img - o[0]) * g[0, 0] if img.ndim == 2 else (img - o) @ g.T
    else:
        with np.errstate(all="ignore"):
            img = 12.92 * img if (img < 0.0031308).all() else 1.055 * np.power(img, 1 / 1.5) - 0.055
    return (img * 255).clip(0, 255)


def params_dir(spec, dive, cam, root):
    c = spec["cfg"]
    n = "params_" + (c["metric"] if c["method"] == "colour_correction" else "manual")
    if c.get("suffix"):
        n += "_" + c["suffix"]
    return os.path.join(dive_dir(root, "processed", dive), "image", cam["name"], n)


def images_dir(spec, dive, cam, root):
    c = spec["cfg"]
    if c["method"] == "colour_correction":
        n = "corrected_%s_mean_%d_std_%d" % (c["metric"], int(c["brightness"]), int(c["contrast"]))
    else:
        g, s = np.array(c["gain"]), np.array(c["sub"])
        n = "corrected_manual_gain_%s_%s_%s_sub_%s_%s_%s" % (g[0, 0], g[1, 1], g[2, 2], s[0], s[1], s[2])
    if c.get("suffix"):
        n += "_" + c["suffix"]
    return os.path.join(dive_dir(root, "processed", dive), "image", cam["name"], n)


def load_params(d):
    out = {}
    for k, n in (("attn", "attenuation_parameters"), ("gain", "correction_gains"), ("mean", "image_corrected_mean"),
                 ("std", "image_corrected_std"), ("raw_mean", "image_raw_mean"), ("raw_std", "image_raw_std")):
        p = os.path.join(d, n + ".npy")
        if os.path.exists(p):
            a = np.load(p).astype(np.float64)
            out[k] = a if k in ("attn", "gain") else a.squeeze()
    return out


# ------------------------------------------------------------------ random specs
def random_spec(rng, ndives=1, metric=None, method=None, ncams=None):
    metric = metric or rng.choice(["altitude", "altitude", "uniform"])
    method = method or "colour_correction"
    h, w = rng.choice([(10, 10), (10, 12), (12, 10)])
    lo = rng.choice([2.0, 2.2, 2.5])
    gap, nb = rng.choice([(10, 4), (15, 3), (12, 3), (8, 4)])
    hi = round(lo + ((nb - 1) * gap + 1) * BIN + rng.choice([0.0, 0.1, 0.5]), 1)
    cams = []
    for i in range(ncams or rng.choice([1, 1, 2])):
        ty = rng.choice(["grayscale", "rggb", "bggr", "grbg", "gbrg", "grayscale", "rgb", "bgr"])
        bit = 8 if ty in ("rgb", "bgr") else rng.choice([8, 16, 12])
        ext = rng.choice(["tif", "png"])
        cams.append({"name": "LC" if i == 0 else "RC", "type": ty, "bit": bit, "ext": ext})
    style = rng.choice(["flat", "folder", "split"])
    if any(c["ext"] != cams[0]["ext"] for c in cams) and style != "flat":
        style = "flat"
    dives = []
    t0 = 1580000000.0 + rng.randrange(0, 100000)
    for q in range(ndives):
        alts = []
        if metric == "altitude":
            for b in range(nb):
                n = rng.choice([10, 10, 11, 13]) if rng.random() < 0.85 or b == 0 else rng.choice([0, 3, 9])
                alts += [lo + b * gap * BIN + rng.uniform(0.01, 0.09) for _ in range(n)]
            if rng.random() < 0.4:
                k = rng.randrange((nb - 1) * gap)
                alts += [lo + k * BIN + rng.uniform(0.01, 0.09) for _ in range(rng.choice([1, 3]))]
        else:
            alts = [rng.uniform(lo + 0.01, hi - 0.01) for _ in range(rng.choice([4, 7, 12]))]
        for _ in range(rng.choice([0, 1, 4])):
            alts.append(rng.choice([None, lo - rng.uniform(0.02, 1.0), hi + rng.uniform(0.02, 1.0)]))
        alts = [a if a is None else round(a, 6) for a in alts]
        rng.shuffle(alts)
        spare = [k for k in range(len(alts)) if rng.random() < 0.04]
        # keep enough images in range
        dives.append({"name": "%s_dive%d" % (iso(t0 + q * 86400).strftime("%Y%m%d_%H%M%S"), q), "t0": t0 + q * 86400,
                      "seed": q + 1, "alts": alts, "nfold": rng.choice([2, 3]),
                      "lost": [k for k in spare if rng.random() < 0.5 and k > 0], "no_nav": [k for k in spare if rng.random() < 0.5],
                      "sols": rng.choice([["json_renav_20200101_000000_20200101_010000"]] * 3 + [
                          ["json_renav_20200101_000000_20200101_010000", "json_renav_20200101_002000_20200101_003000"]]),
                      "nav": rng.choice(["ekf", "dr", "both"])})
    for c in cams:
        c["path"] = style
    spec = {"h": h, "w": w, "pix": rng.randrange(1, 10000), "noise": rng.choice([0.0, 0.02, 0.05]),
            "dark": rng.choice([0, 0, 0, 2]), "cams": cams, "dives": dives,
            "cfg": {"method": method, "metric": metric, "path": rng.choice(["json_renav_*", "named"]),
                    "parse": [lo, hi], "process": rng.choice([[lo, hi], [round(lo - 0.5, 2), round(hi + 0.5, 2)], [round(lo + 0.15, 2), hi]]),
                    "smoothing": rng.choice(["mean", "median", "mean_trimmed"]), "fmt": rng.choice(["png", "png", "tif", "tiff"]),
                    "lists": {}, "brightness": rng.choice([30, 25.5, 40]), "contrast": rng.choice([3, 5, 10.0]),
                    "sub": [0, 0, 0], "gain": [[1, 0, 0], [0, 1, 0], [0, 0, 1]], "old_filter": rng.random() < 0.1,
                    "suffix": rng.choice(["", "", "", "b-2"])}}
    if rng.random() < 0.3:
        spec["cfg"]["lists"][rng.choice(["parse", "process"])] = rng.randrange(1, 97)
    if method == "manual_balance":
        spec["cfg"]["sub"] = [rng.choice([0, 0.02, 0.05]) for _ in range(3)]
        spec["cfg"]["gain"] = [[rng.choice([1, 1.5, 0.7]) if i == j else rng.choice([0, 0, 0.1]) for j in range(3)] for i in range(3)]
    return spec


def math_ok(x):
    return math.isfinite(x)
