"""Two or three calibrated cameras that look at a calibration board and at a
laser sheet on the sea floor, rendered pixel by pixel, for `auv_cal`."""
import math
import os

import numpy as np

from .nav import dump_yaml, write

PLACE = "2020/cruise"
SS = ((-.25, -.25), (.25, -.25), (-.25, .25), (.25, .25))


def camera(rng, name, w=240, h=180):
    f = rng.uniform(230, 290)
    return {"name": name, "w": w, "h": h, "f": f, "cx": w / 2 + rng.uniform(-4, 4), "cy": h / 2 + rng.uniform(-4, 4),
            "k1": rng.choice([0.0, rng.uniform(-0.12, 0.06)])}


def K(c):
    return np.array([[c["f"], 0, c["cx"]], [0, c["f"], c["cy"]], [0, 0, 1.0]])


def dist(c):
    return np.array([c["k1"], 0, 0, 0, 0.0])


def rot(rx, ry, rz):
    import cv2
    a = cv2.Rodrigues(np.array([rx, 0, 0], float))[0]
    b = cv2.Rodrigues(np.array([0, ry, 0], float))[0]
    c = cv2.Rodrigues(np.array([0, 0, rz], float))[0]
    return c @ b @ a


def extr(c):
    """camera <- rig"""
    return rot(*c.get("rot", (0, 0, 0))), np.array(c.get("t", (0, 0, 0.0)))


_rays = {}


def rays(c):
    import cv2
    key = (c["w"], c["h"], c["f"], c["cx"], c["cy"], c["k1"])
    if key not in _rays:
        if len(_rays) > 8:
            _rays.clear()
        u, v = np.meshgrid(np.arange(c["w"], dtype=float), np.arange(c["h"], dtype=float))
        out = []
        for dx, dy in SS:
            p = np.stack([u.ravel() + dx, v.ravel() + dy], axis=-1).reshape(-1, 1, 2)
            q = cv2.undistortPoints(p, K(c), dist(c)).reshape(-1, 2)
            out.append(np.concatenate([q, np.ones((len(q), 1))], axis=1))
        _rays[key] = out
    return _rays[key]


def pattern(board, x, y):
    """0 or 1 on the board plane, the first feature at the origin"""
    s, (nc, nr) = board["size"], board["shape"]
    i, j = x / s, y / s
    if board["pattern"] == "Chessboard":
        a, b = np.floor(i + 1), np.floor(j + 1)
        v = ((a + b) % 2).astype(float)
        out = (i < -1) | (i > nc) | (j < -1) | (j > nr)
        return np.where(out, 1.0, v)
    if board["pattern"] == "Circles":
        a, b = np.clip(np.round(i), 0, nc - 1), np.clip(np.round(j), 0, nr - 1)
        r = 0.30
        d = np.hypot(i - a, j - b)
        return np.where(d < r, 0.0, 1.0)
    b = np.clip(np.round(j), 0, nr - 1)
    m = b % 2
    a = np.clip(np.round((i - m) / 2), 0, nc - 1)
    d = np.hypot(i - (2 * a + m), j - b)
    return np.where(d < 0.5, 0.0, 1.0)


def centre(board):
    nc, nr = board["shape"]
    if board["pattern"] == "ACircles":
        return np.array([nc - 0.5, (nr - 1) / 2, 0]) * board["size"]
    return np.array([(nc - 1) / 2, (nr - 1) / 2, 0]) * board["size"]


def board_image(spec, c, pose):
    """what camera c sees of the board at the pose (in the rig frame)"""
    board = spec["board"]
    Rb = rot(*pose["rot"])
    tb = np.array(pose["pos"]) - Rb @ centre(board)
    Rc, tc = extr(c)
    R, t = Rc @ Rb, Rc @ tb + tc
    n = R[:, 2]
    acc = 0
    for q in rays(c):
        k = (n @ t) / (q @ n)
        p = (q * k[:, None] - t) @ R
        acc = acc + pattern(board, p[:, 0], p[:, 1])
    v = acc / len(SS)
    img = (30 + 190 * v).reshape(c["h"], c["w"])
    if board["invert"]:
        img = 250 - img
    r = np.random.RandomState((spec["pix"] * 131 + pose["k"] * 17 + sum(map(ord, c["name"]))) % (2 ** 31))
    img = img + r.normal(0, 1.0, img.shape)
    return np.clip(np.round(img), 0, 255).astype(np.uint8)


def laser_image(spec, c, shot, lasers):
    """laser sheets on a flat sea floor at z = shot["z"] (rig frame): sheet a x + b y + c z + d = 0 in rig axes"""
    Rc, tc = extr(c)
    org = -Rc.T @ tc
    acc = 0
    for q in rays(c):
        d = q @ Rc                      # rows: Rc.T @ q
        k = (shot["z"] - org[2]) / d[:, 2]
        p = org + d * k[:, None]
        for pl in lasers:
            n = np.array(pl[:3])
            e = (p @ n + pl[3]) / np.linalg.norm(n)
            s = 1.1 * shot["z"] / c["f"]
            acc = acc + np.exp(-0.5 * (e / s) ** 2)
    img = 200 * (np.zeros(c["w"] * c["h"]) + acc / len(SS)).reshape(c["h"], c["w"])
    r = np.random.RandomState((spec["pix"] * 137 + shot["k"] * 19 + sum(map(ord, c["name"]))) % (2 ** 31))
    img = img + np.abs(r.normal(0, 0.4, img.shape))
    return np.clip(np.round(img), 0, 255).astype(np.uint8)


# ------------------------------------------------------------------ specification
def random_board(rng):
    pat = rng.choice(["Chessboard", "Circles", "ACircles"])
    shape = {"Chessboard": rng.choice([(7, 6), (6, 7), (6, 5)]), "Circles": rng.choice([(6, 5), (7, 5)]),
             "ACircles": rng.choice([(4, 9), (4, 7)])}[pat]
    return {"pattern": pat, "shape": shape, "size": 0.02 if pat == "ACircles" else 0.03, "invert": pat != "Chessboard" and rng.random() < 0.4,
            "word": rng.choice([pat, pat[0].lower() + pat[1:]]) if pat != "ACircles" else rng.choice(["ACircles", "acircles"])}


def random_spec(rng, ncams=None, npose=None):
    ncams = ncams or rng.choice([1, 2, 2, 2, 3, 3])
    fmt = rng.choice(["sx3", "biocam", "acfr"])
    names = {"sx3": ["Cam51707923", "Cam51707925", "LM165"], "biocam": ["cam_left", "cam_right", "cam_top"],
             "acfr": ["LC", "RC", "FC"]}[fmt][:ncams]
    cams = []
    board = random_board(rng)
    for i, n in enumerate(names):
        c = camera(rng, n)
        if i and board["pattern"] == "Chessboard" and rng.random() < 0.3:
            c = camera(rng, n, *rng.choice([(300, 225), (320, 180), (200, 180)]))
            c["f"] = c["f"] * min(c["w"] / 240, c["h"] / 180)
        if i:
            c["rot"] = [rng.uniform(-.03, .03) for _ in range(3)]
            b = rng.choice([-1, 1]) * rng.uniform(.05, .07)
            c["t"] = [rng.uniform(-.004, .004), b, rng.uniform(-.004, .004)]
            if rng.random() < 0.4:
                c["t"] = [c["t"][1], c["t"][0], c["t"][2]]
        c["base"] = rng.choice(["processed", "processed", "raw"])
        c["split"] = rng.random() < 0.2
        c["ext"] = rng.choice(["png", "png", "tif", "jpg"])
        c["lag"] = rng.randrange(0, 30)
        cams.append(c)
    n = npose or rng.randrange(17, 21)
    t0 = 1577880000 + rng.randrange(0, 86400 * 300)
    if rng.random() < 0.15:
        t0 = t0 - t0 % 86400 - rng.randrange(1, 20)         # across midnight
    poses, t = [], t0 * 1000
    for k in range(n):
        poses.append(random_pose(rng, board, k, t, cams))
        t += rng.randrange(400, 3500)
    spec = {"pix": rng.randrange(1 << 20), "cams": cams, "board": board, "poses": poses, "fmt": fmt, "lost": {}, "bad": {}, "away": {}}
    for c in cams:
        ks = list(range(n))
        rng.shuffle(ks)
        nl = rng.choice([0, 0, 1, 2])
        spec["lost"][c["name"]] = sorted(ks[:nl])
        spec["bad"][c["name"]] = {str(k): rng.choice(["empty", "text", "cut"]) for k in ks[nl:nl + rng.choice([0, 0, 0, 1])]}
        na = rng.choice([0, 0, 0, 1, 2])
        spec["away"][c["name"]] = sorted(ks[len(ks) - na:])
    return spec


def outline(board):
    nc, nr = board["shape"]
    w = (2 * nc - 1 if board["pattern"] == "ACircles" else nc - 1) * board["size"]
    h = (nr - 1) * board["size"]
    e = board["size"] * (1.1 if board["pattern"] == "Chessboard" else 0.6)
    return np.array([[-e, -e, 0], [w + e, -e, 0], [w + e, h + e, 0], [-e, h + e, 0]])


def project(c, p):
    import cv2
    R, t = extr(c)
    return cv2.projectPoints(np.asarray(p, float), cv2.Rodrigues(R)[0], t, K(c), dist(c))[0].reshape(-1, 2)


def placed(board, pose, p):
    Rb = rot(*pose["rot"])
    return (np.asarray(p) - centre(board)) @ Rb.T + np.array(pose["pos"])


def random_pose(rng, board, k, t, cams):
    """the whole board in view of every camera"""
    q = outline(board)
    ext = np.ptp(q, axis=0).max()
    for i in range(2000):
        z = rng.uniform(1.45, 2.3) * ext * (1 + i / 1000)
        pose = {"k": k, "t": t, "pos": [rng.uniform(-.45, .45) * z * .6, rng.uniform(-.4, .4) * z * .6, z],
                "rot": [rng.uniform(-.5, .5), rng.uniform(-.5, .5), rng.uniform(-.25, .25)]}
        w = placed(board, pose, q)
        if all((u[:, 0] > 2).all() and (u[:, 0] < c["w"] - 3).all() and (u[:, 1] > 2).all() and (u[:, 1] < c["h"] - 3).all()
               for c in cams for u in [project(c, w)]):
            break
    return pose


def stamp(ms):
    import datetime
    d = datetime.datetime.fromtimestamp(ms // 1000, datetime.timezone.utc)
    return d.strftime("%Y%m%d_%H%M%S"), ms % 1000


def image_name(spec, i, item):
    c = spec["cams"][i]
    if spec["fmt"] == "sx3":
        pre = "" if i and spec["pix"] % 2 else "image"
        return "%s%07d.%s" % (pre, 100 + item["k"], c["ext"])
    s, ms = stamp(item["t"] + c["lag"])
    if spec["fmt"] == "acfr":
        return "PR_%s_%03d_%s16.%s" % (s, ms, c["name"], c["ext"])
    return "%s_%03d%03d_%s_%03d%03d_%s.%s" % (s, ms, (item["k"] * 91) % 1000, s, ms, (item["k"] * 57) % 1000, "pcoc", c["ext"])


def folders(c, kind):
    b = "../20200101_%s/image/%s" % (kind, c["name"])
    return [b + "_a", b + "_b"] if c["split"] else [b]


def base(root, where):
    return os.path.join(root, where, PLACE, "calibration")


def damage(data, how):
    if how == "empty":
        return b""
    if how == "text":
        return b"this is not an image\n" * 20
    return data[:max(8, len(data) // 6)]


def save(spec, root, kind, i, item, img):
    import cv2
    c = spec["cams"][i]
    fs = folders(c, kind)
    d = os.path.normpath(os.path.join(base(root, c["base"]), fs[item["k"] % len(fs)]))
    ok, buf = cv2.imencode("." + c["ext"], img, [cv2.IMWRITE_JPEG_QUALITY, 95])
    data = buf.tobytes()
    how = spec["bad"].get(c["name"], {}).get(str(item["k"])) if kind == "calib" else None
    if how:
        data = damage(data, how)
    write(os.path.join(d, image_name(spec, i, item)), data, "wb")


def build(spec, root, boards=True):
    import cv2
    for w in ("raw", "processed", "configuration"):
        os.makedirs(base(root, w), exist_ok=True)
    b = spec["board"]
    cfg = {"cameras": [], "camera_calibration": {"pattern": b["word"], "rows": b["shape"][0], "cols": b["shape"][1], "size": b["size"],
                                                "invert": b["invert"]}}
    for c in spec["cams"]:
        fs = folders(c, "calib")
        e = {"name": c["name"], "camera_calibration": {"path": fs if c["split"] else fs[0], "glob_pattern": "*." + c["ext"]}}
        if spec.get("laser"):
            e["laser_calibration"] = {"path": folders(dict(c, split=False), "laser")[0], "glob_pattern": "*." + c["ext"]}
        cfg["cameras"].append(e)
    if spec.get("laser"):
        cfg["laser_calibration"] = spec["laser"]["cfg"]
        if "skip_first" in spec["laser"]:
            cfg["skip_first"] = spec["laser"]["skip_first"]
    dump_yaml(os.path.join(base(root, "configuration"), "calibration.yaml"), cfg)
    if boards:
        for i, c in enumerate(spec["cams"]):
            for p in spec["poses"]:
                if p["k"] in spec["lost"].get(c["name"], []):
                    continue
                q = p
                mv = spec.get("moved", {}).get(c["name"], {}).get(str(p["k"]))
                if mv:
                    q = dict(p, pos=[a + b for a, b in zip(p["pos"], mv)])
                if p["k"] in spec["away"].get(c["name"], []):
                    q = dict(p, pos=[9.0, 9.0, p["pos"][2]])
                save(spec, root, "calib", i, p, board_image(spec, c, q))


# ------------------------------------------------------------------ laser
def laser_spec(rng):
    """two cameras one above the other, one or two laser sheets, a flat sea floor that comes nearer and goes"""
    fmt = rng.choice(["sx3", "biocam"])
    names = ["Cam51707923", "LM165"] if fmt == "sx3" else ["cam_left", "cam_top"]
    cams = []
    for i, n in enumerate(names):
        c = camera(rng, n, 360, 240)
        c["k1"] = rng.choice([0.0, rng.uniform(-.08, .03)])
        if i:
            c["rot"] = [rng.uniform(-.02, .02) for _ in range(3)]
            c["t"] = [rng.uniform(-.004, .004), rng.choice([-1, 1]) * rng.uniform(.10, .12), rng.uniform(-.004, .004)]
        c.update(base=rng.choice(["processed", "raw"]), split=False, ext=rng.choice(["png", "tif"]), lag=rng.randrange(0, 30))
        cams.append(c)
    two = rng.random() < 0.5
    n = rng.randrange(13, 20)
    t = (1577880000 + rng.randrange(0, 86400 * 300)) * 1000
    zs = [1.0 + 1.6 * (k + rng.uniform(.2, .8)) / n for k in range(n)]
    rng.shuffle(zs)
    shots = []
    for k in range(n):
        shots.append({"k": k, "t": t, "z": round(zs[k], 4)})
        t += rng.randrange(300, 3000)
    # x + b y + c z + d = 0 in the axes of the vehicle: x = -image y, y = image x
    up = [1.0, rng.uniform(-.05, .05), -rng.uniform(.20, .24), rng.uniform(-.01, .02)]
    low = [1.0, rng.uniform(-.05, .05), rng.uniform(.20, .24), rng.uniform(-.02, .01)]
    lasers = [up, low] if two else [up if rng.random() < 0.5 else low]
    la = {"shots": shots, "lasers": lasers, "lost": {}, "dark": {}, "cfg": {}}
    spec = {"pix": rng.randrange(1 << 20), "cams": cams, "board": random_board(rng), "poses": [], "fmt": fmt, "lost": {}, "bad": {}, "away": {},
            "laser": la}
    for c in cams:
        ks = list(range(n))
        rng.shuffle(ks)
        a, b = rng.choice([0, 0, 1, 1, 2]), rng.choice([0, 0, 1, 2])
        la["lost"][c["name"]] = sorted(ks[:a])
        la["dark"][c["name"]] = sorted(ks[a:a + b])
    la["off"] = {}
    if two and rng.random() < .6:
        # one of the lasers fails for a while
        a = rng.randrange(n)
        for k in range(a, min(n, a + rng.choice([1, 2, 3]))):
            la["off"][str(k)] = rng.randrange(2)
    if rng.random() < 0.25:
        la["skip_first"] = rng.choice([0, 1, 2])
    det = {"window_size": 5, "min_greenness_ratio": 0.05, "num_columns": rng.choice([9, 11, 14]), "remap": True}
    if two:
        det.update(two_lasers=True, start_row=0, end_row=120, start_row_b=120, end_row_b=240)
    elif rng.random() < 0.5:
        det["two_lasers"] = False
    la["cfg"] = {"detection": det, "stratify": {"min_z_m": 0.8, "max_z_m": 3.0, "number_of_bins": rng.choice([5, 8]),
                                               "max_points_per_bin": rng.choice([300, 300, 40])},
                 "ransac": {"max_cloud_size": 10000, "min_distance_threshold": 0.03, "sample_size_ratio": 0.8,
                            "goal_inliers_ratio": 0.999, "max_iterations": 5000}}
    return spec


def cv_plane(p):
    """the sheet in the axes of the left camera"""
    return [p[1], -p[0], p[2], p[3]]


def build_laser(spec, root):
    la = spec["laser"]
    for i, c in enumerate(spec["cams"]):
        for s in la["shots"]:
            if s["k"] not in la["lost"].get(c["name"], []):
                on = s["k"] not in la["dark"].get(c["name"], [])
                lasers = [cv_plane(p) for w, p in enumerate(la["lasers"]) if w != la.get("off", {}).get(str(s["k"]))]
                save(spec, root, "laser", i, s, laser_image(spec, c, s, lasers if on else []))


def mat(name, m, ind="  "):
    m = np.atleast_2d(np.asarray(m, float))
    return "%s%s: !!opencv-matrix\n%s  rows: %d\n%s  cols: %d\n%s  dt: d\n%s  data: [%s]\n" % (
        ind, name, ind, m.shape[0], ind, m.shape[1], ind, ind, ", ".join("%.9f" % x for x in m.ravel()))


def put_stereo(spec, root):
    """the stereo calibration of the true cameras"""
    import cv2
    a, b = spec["cams"][:2]
    Ra, ta = extr(a)
    Rb, tb = extr(b)
    R, T = Rb @ Ra.T, tb - Rb @ Ra.T @ ta
    r = cv2.stereoRectify(K(a), dist(a), K(b), dist(b), (a["w"], a["h"]), R, T.reshape(3, 1), flags=cv2.CALIB_ZERO_DISPARITY, alpha=1.0)
    txt = "%YAML:1.0\n"
    for side, c, Rr, P in (("left", a, r[0], r[2]), ("right", b, r[1], r[3])):
        txt += "%s:\n  image_width: %d\n  image_height: %d\n  camera_name: %s\n" % (side, c["w"], c["h"], c["name"])
        txt += mat("camera_matrix", K(c)) + "  distortion_model: plumb_bob\n" + mat("distortion_coefficients", dist(c))
        txt += mat("rectification_matrix", Rr) + mat("projection_matrix", P)
    txt += "extrinsics:\n" + mat("rotation_matrix", R) + mat("translation_vector", T.reshape(3, 1))
    f = os.path.join(base(root, "processed"), "stereo_%s_%s.yaml" % (a["name"], b["name"]))
    write(f, txt)
    return f
