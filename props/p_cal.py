"""auv_cal: the cameras and laser sheets recovered from images of them, and
what is left when a calibration is interrupted or the storage fails."""
import copy
import json
import os
import re

import numpy as np

from worlds import cal
from opsim.ctx import tree, diff_tree
from .common import brief, exc_key, ok_exit, plain, rand_env, resolve

MAX_JUMPS = 20_000_000
FOOT = re.compile(rb'^(date|user|host|version): .*\n', re.M)


def out_dir(root):
    return cal.base(root, "processed")


def step(rng, cmd, flags=(), more=()):
    st = {"prog": "auv_cal", "argv": [cmd] + list(flags) + list(more) + ["@/processed/" + cal.PLACE + "/calibration"],
          "max_jumps": MAX_JUMPS}
    st.update(rand_env(rng))
    st["sched"] = {"policy": rng.choice(["random", "random", "sticky", "default"]), "seed": rng.randrange(1 << 30)}
    return st


def results(root):
    """the files a calibration leaves, without who made them and when"""
    d = out_dir(root)
    out = {}
    for n in sorted(os.listdir(d)):
        if n.endswith((".yaml", ".json", ".ply")):
            with open(os.path.join(d, n), "rb") as f:
                out[n] = FOOT.sub(b"", f.read())
    return out


def keys(t, ext):
    return {k: v for k, v in t.items() if k.endswith(ext)}


def store(path):
    import cv2
    fs = cv2.FileStorage(path, cv2.FILE_STORAGE_READ)
    if not fs.isOpened():
        raise ValueError("cannot be read")
    return fs


def files_of(spec, i):
    """{file name: pose} of the images of a camera that are in place"""
    c = spec["cams"][i]
    return {cal.image_name(spec, i, p): p for p in spec["poses"] if p["k"] not in spec["lost"].get(c["name"], [])}


def good_files(spec, i):
    """those that show the board"""
    c = spec["cams"][i]
    skip = spec["away"].get(c["name"], []) + [int(k) for k in spec["bad"].get(c["name"], {})]
    return {n: p for n, p in files_of(spec, i).items() if p["k"] not in skip}


def features(board):
    nc, nr = board["shape"]
    if board["pattern"] == "Chessboard":
        nc, nr = max(nc, nr), min(nc, nr)
    pts = []
    for j in range(nr):
        for i in range(nc):
            if board["pattern"] == "ACircles":
                pts.append([(2 * i + j % 2) * board["size"], j * board["size"], 0])
            else:
                pts.append([i * board["size"], j * board["size"], 0])
    return np.array(pts)


def true_points(spec, c, pose):
    """where camera c sees the corners or circles"""
    b = spec["board"]
    mv = spec.get("moved", {}).get(c["name"], {}).get(str(pose["k"]))
    if mv:
        pose = dict(pose, pos=[x + y for x, y in zip(pose["pos"], mv)])
    f = features(dict(b, shape=b["shape"]))
    if b["pattern"] == "Chessboard" and b["shape"][0] < b["shape"][1]:
        # the board is drawn upright, the pattern is counted along its longer side
        f = f[:, [1, 0, 2]]
    return cal.project(c, cal.placed(b, pose, f))


def shrunk(c, size):
    """intrinsics of the images of c after padding and scaling them to another size"""
    w, h = size
    k = cal.K(c)
    ar, o = w / h, c["w"] / c["h"]
    px = py = 0
    if ar < o:
        py = int((c["w"] / ar - c["h"]) / 2)
    elif ar > o:
        px = int((ar * c["h"] - c["w"]) / 2)
    s = h / (c["h"] + 2 * py)
    s2 = w / (c["w"] + 2 * px)
    k[0] = [k[0, 0] * s2, 0, (k[0, 2] + px + .5) * s2 - .5]
    k[1] = [0, k[1, 1] * s, (k[1, 2] + py + .5) * s - .5]
    return k, s


def found(spec, root, i, name):
    """an independent look at the image: is the board certainly there for all to see?"""
    import cv2
    c, b = spec["cams"][i], spec["board"]
    p = files_of(spec, i)[name]
    fs = cal.folders(c, "calib")
    img = cv2.imread(os.path.normpath(os.path.join(cal.base(root, c["base"]), fs[p["k"] % len(fs)], name)), 0)
    if img is None:
        return False
    q = true_points(spec, c, p)
    if (q < 11).any() or (q[:, 0] > c["w"] - 12).any() or (q[:, 1] > c["h"] - 12).any():
        return False
    nc, nr = b["shape"]
    if b["pattern"] == "Chessboard":
        ok, _ = cv2.findChessboardCorners(img, (max(nc, nr), min(nc, nr)), flags=cv2.CALIB_CB_ADAPTIVE_THRESH
                                          | cv2.CALIB_CB_NORMALIZE_IMAGE | cv2.CALIB_CB_FAST_CHECK)
        return bool(ok)
    if b["invert"]:
        img = cv2.bitwise_not(img)
    fl = cv2.CALIB_CB_SYMMETRIC_GRID if b["pattern"] == "Circles" else cv2.CALIB_CB_ASYMMETRIC_GRID
    ok, _ = cv2.findCirclesGrid(img, (nc, nr), flags=fl | cv2.CALIB_CB_CLUSTERING)
    return bool(ok)


# ------------------------------------------------------------------ reference checks
def check_corners(ctx, spec, i):
    c = spec["cams"][i]
    f = os.path.join(out_dir(ctx.root), "mono_%s.json" % c["name"])
    if not os.path.exists(f):
        ctx.violate("missing", "mono ended with status 0 without " + os.path.basename(f))
        return False
    data = json.load(open(f))
    names = [os.path.basename(e["file"]) for e in data]
    good = good_files(spec, i)
    if len(set(names)) != len(names):
        ctx.violate("twice", "%s lists images twice" % os.path.basename(f))
        return False
    for e, n in zip(data, names):
        if n not in good:
            ctx.violate("ghost", "%s has corners for %s, an image that does not show the board" % (os.path.basename(f), n))
            return False
        if list(e["size"]) != [c["w"], c["h"]]:
            ctx.violate("size", "%s: size %s of %s, expected %s" % (os.path.basename(f), e["size"], n, [c["w"], c["h"]]))
            return False
        q = np.array(e["corners"]).reshape(-1, 2)
        t = true_points(spec, c, good[n])
        d = np.inf
        if q.shape == t.shape:
            # OpenCV misplaces some circles now and then
            share = .97 if spec["board"]["pattern"] == "Chessboard" else .5
            far = lambda x: np.sort(np.abs(q - x).max(axis=-1), axis=None)[int(share * len(t))]  # noqa: E731
            d = far(t)
            if spec["board"]["pattern"] != "ACircles":
                # they may be counted from any corner
                nc, nr = spec["board"]["shape"]
                if spec["board"]["pattern"] == "Chessboard":
                    nc, nr = max(nc, nr), min(nc, nr)
                g, q = t.reshape(nr, nc, 2), q.reshape(nr, nc, 2)
                d = min(far(x) for x in (g, g[::-1], g[:, ::-1], g[::-1, ::-1]))
        if d > 2.5:
            ctx.violate("corners", "%s: corners of %s are up to %.1f pixels from where the board is" % (os.path.basename(f), n, d))
            return False
    for n in sorted(good):
        if n not in names and found(spec, ctx.root, i, n):
            ctx.violate("overlooked", "%s lacks %s, which shows the board" % (os.path.basename(f), n))
            return False
    return True


def node(fs, name):
    m = fs.getNode(name).mat()
    return m


def check_model(ctx, what, fs, c, K, size, scale=1.0, where=None):
    """name, size and the rays the camera sees along"""
    w, h = int(fs.getNode("image_width").real()), int(fs.getNode("image_height").real())
    if fs.getNode("camera_name").string() != c["name"] or (w, h) != tuple(size):
        ctx.violate("camera", "%s describes %s %dx%d, expected %s %dx%d" % ((what, fs.getNode("camera_name").string(), w, h, c["name"]) + tuple(size)))
        return None
    k, d = fs.getNode("camera_matrix").mat(), fs.getNode("distortion_coefficients").mat().ravel()
    e = np.abs(k - K)
    if e[0, 0] > .03 * K[0, 0] or e[1, 1] > .03 * K[1, 1] or max(e[0, 2], e[1, 2]) > 6 * max(scale, .7):
        ctx.violate("intrinsics", "%s: camera matrix %s, the camera is %s" % (what, np.round(k, 2).tolist(), np.round(K, 2).tolist()))
        return None
    import cv2
    # inside the field of view of the poses
    pts = np.array([[x, y] for x in (.2, .5, .8) for y in (.2, .5, .8)]) * [w, h]
    a = cv2.undistortPoints(pts.reshape(-1, 1, 2), k, d).reshape(-1, 2)
    b = cv2.undistortPoints(pts.reshape(-1, 1, 2), K, cal.dist(c)).reshape(-1, 2)
    px = np.abs(a - b).max() * K[0, 0]
    ctx.worst("ray", px)
    if px > 7 * max(scale, .7):
        ctx.violate("distortion", "%s: rays up to %.1f pixels from those of the camera" % (what, px))
        return None
    return k, d


def check_mono(ctx, spec, i, name=None):
    import cv2
    c = spec["cams"][i]
    name = name or "mono_%s.yaml" % c["name"]
    f = os.path.join(out_dir(ctx.root), name)
    if not os.path.exists(f):
        ctx.violate("missing", "mono ended with status 0 without " + name)
        return False
    fs = store(f)
    r = check_model(ctx, name, fs, c, cal.K(c), (c["w"], c["h"]), c["w"] / 240)
    if r is None:
        return False
    k, d = r
    n, e = fs.getNode("number_of_images").real(), fs.getNode("avg_reprojection_error").real()
    js = len(json.load(open(f[:-5] + ".json")))
    if not 4 <= n <= js or not 0 < e < 1.0:
        ctx.violate("quality", "%s: %d images (corners in %d), reprojection error %.3f" % (name, n, js, e))
        return False
    p = cv2.getOptimalNewCameraMatrix(k, d, (c["w"], c["h"]), 1.0)[0]
    q = fs.getNode("projection_matrix").mat()
    if np.abs(q[:, :3] - p).max() > .5 or np.abs(fs.getNode("rectification_matrix").mat() - np.eye(3)).max() > 1e-6:
        ctx.violate("projection", "%s: projection matrix %s does not belong to its camera matrix (%s)" % (
            name, np.round(q, 2).tolist(), np.round(p, 2).tolist()))
        return False
    return True


def relative(a, b):
    Ra, ta = cal.extr(a)
    Rb, tb = cal.extr(b)
    R = Rb @ Ra.T
    return R, tb - R @ ta


def check_stereo(ctx, spec, i, j):
    import cv2
    a, b = spec["cams"][i], spec["cams"][j]
    name = "stereo_%s_%s.yaml" % (a["name"], b["name"])
    f = os.path.join(out_dir(ctx.root), name)
    if not os.path.exists(f):
        ctx.violate("missing", "stereo ended with status 0 without " + name)
        return False
    fs = store(f)
    left, right = fs.getNode("left"), fs.getNode("right")
    size = (a["w"], a["h"])
    r = check_model(ctx, name + " left", left, a, cal.K(a), size, a["w"] / 240)
    if r is None:
        return False
    k1, d1 = r
    kb, s = shrunk(b, size) if (b["w"], b["h"]) != size else (cal.K(b), 1.0)
    if (b["w"], b["h"]) != size:
        small = store(os.path.join(out_dir(ctx.root), "resized_mono_%s.yaml" % b["name"]))
        if small.getNode("number_of_images").real() < 12:
            # the board was found in too few of the small images to know the distortion
            ctx.note("few_when_resized")
            return True
    r = check_model(ctx, name + " right", right, b, kb, size, a["w"] / 240)
    if r is None:
        return False
    k2, d2 = r
    for c, k, d, resized in ((a, k1, d1, False), (b, k2, d2, (b["w"], b["h"]) != size)):
        m = store(os.path.join(out_dir(ctx.root), ("resized_" if resized else "") + "mono_%s.yaml" % c["name"]))
        if np.abs(m.getNode("camera_matrix").mat() - k).max() > 1e-4 or np.abs(m.getNode("distortion_coefficients").mat().ravel() - d).max() > 1e-5:
            ctx.violate("mono", "%s: camera %s is not the one of its mono calibration" % (name, c["name"]))
            return False
    ex = fs.getNode("extrinsics")
    R, T = ex.getNode("rotation_matrix").mat(), ex.getNode("translation_vector").mat().reshape(3)
    Rt, Tt = relative(a, b)
    if spec["board"]["pattern"] == "Circles" and not same_order(ctx, spec, i, j):
        # a symmetric pattern was counted from different corners in the two cameras
        ctx.note("circles_turned")
        return True
    ang, dt = np.linalg.norm(cv2.Rodrigues(R @ Rt.T)[0]), np.abs(T - Tt).max()
    ctx.worst("angle", ang)
    ctx.worst("shift", dt)
    n, e = fs.getNode("number_of_images").real(), fs.getNode("avg_reprojection_error").real()
    # one outlier may stay in where the error is still small
    lax = 1.4 if any(max(map(abs, m)) < .015 for v in spec.get("moved", {}).values() for m in list(v.values())[:1]) else 1.0
    if e > 1.3 and lax == 1.0 and spec.get("moved"):
        # large outliers have bent the first fit so far that they do not stand out
        ctx.note("outliers_stay")
        return True
    if ang > .04 * lax or dt > .018 * lax:
        ctx.violate("pose", "%s: the cameras are turned by %.4f rad and shifted by %.4f m from where they are (%d pairs, error %.2f)" % (
            name, ang, dt, n, e))
        return False
    common = set(p["k"] for p in good_files(spec, i).values()) & set(p["k"] for p in good_files(spec, j).values())
    if not 8 <= n <= len(common) or not 0 < e < 1.5:
        ctx.violate("quality", "%s: %d pairs (the board is in %d), reprojection error %.3f" % (name, n, len(common), e))
        return False
    if not spec.get("moved") and e < .6:
        m = distinct_pairs(spec, ctx.root, i, j)
        if m is not None and n != m:
            ctx.violate("pairs", "%s: %d pairs, there are %d that belong together and differ from each other" % (name, n, m))
            return False
    out = cv2.stereoRectify(k1, d1, k2, d2, size, R, T.reshape(3, 1), flags=cv2.CALIB_ZERO_DISPARITY, alpha=1.0)
    for nd, Rr, P in ((left, out[0], out[2]), (right, out[1], out[3])):
        q = nd.getNode("projection_matrix").mat()
        if np.abs(nd.getNode("rectification_matrix").mat() - Rr).max() > 1e-3 or np.abs(q - P).max() > .01 * np.abs(P).max():
            ctx.violate("rectification", "%s: rectification and projection of %s do not belong to its extrinsics" % (
                name, nd.getNode("camera_name").string()))
            return False
    E = np.array([[0, -T[2], T[1]], [T[2], 0, -T[0]], [-T[1], T[0], 0]]) @ R
    q = ex.getNode("essential_matrix").mat()
    if min(np.abs(q - E).max(), np.abs(q / np.linalg.norm(q) - E / np.linalg.norm(E)).max()) > 1e-3:
        ctx.violate("essential", "%s: essential matrix does not belong to its extrinsics" % name)
        return False
    return True


def distinct_pairs(spec, root, i, j):
    """number of image pairs with stored corners, less those in which the board is where it was in an earlier one"""
    a, b = spec["cams"][i], spec["cams"][j]
    nc, nr = spec["board"]["shape"]
    if spec["board"]["pattern"] == "Chessboard":
        nc, nr = max(nc, nr), min(nc, nr)
    right = set()
    g = good_files(spec, j)
    fj = os.path.join(out_dir(root), ("resized_" if (a["w"], a["h"]) != (b["w"], b["h"]) else "") + "mono_%s.json" % b["name"])
    for e in json.load(open(fj)):
        right.add(g[os.path.basename(e["file"])]["k"])
    g = good_files(spec, i)
    kept = []
    for e in json.load(open(os.path.join(out_dir(root), "mono_%s.json" % a["name"]))):
        if g[os.path.basename(e["file"])]["k"] not in right:
            continue
        q = np.array(e["corners"]).reshape(-1, 2)
        ul, ur, dr, dl = q[0], q[nc - 1], q[-1], q[-nc]
        cross = lambda u, v: abs(u[0] * v[1] - u[1] * v[0])     # noqa: E731
        area = (cross(ur - ul, dr - ul) + cross(dr - ul, dl - ul)) / 2
        u, v = ul - ur, dr - ur
        ang = np.arccos(u @ v / np.linalg.norm(u) / np.linalg.norm(v))
        s = np.sqrt(area)
        p = np.array([np.clip((q[:, 0].mean() - s / 2) / (a["w"] - s), 0, 1), np.clip((q[:, 1].mean() - s / 2) / (a["h"] - s), 0, 1),
                      s / np.sqrt(a["w"] * a["h"]), min(1, 2 * abs(np.pi / 2 - ang))])
        d = min([np.abs(p - o).sum() for o in kept], default=1)
        if abs(d - .12) < 1e-3:
            return None
        if d > .12:
            kept.append(p)
    return len(kept)


def same_order(ctx, spec, i, j):
    turned = {}
    nc, nr = spec["board"]["shape"]
    for n in (i, j):
        c = spec["cams"][n]
        good = good_files(spec, n)
        for e in json.load(open(os.path.join(out_dir(ctx.root), "mono_%s.json" % c["name"]))):
            p = good[os.path.basename(e["file"])]
            g, q = true_points(spec, c, p).reshape(nr, nc, 2), np.array(e["corners"]).reshape(nr, nc, 2)
            o = [np.abs(q - x).mean() for x in (g, g[::-1], g[:, ::-1], g[::-1, ::-1])]
            turned.setdefault(p["k"], set()).add(int(np.argmin(o)))
    return all(len(v) == 1 for v in turned.values())


def pairs(spec):
    n = len(spec["cams"])
    return [[], [], [(0, 1)], [(0, 1), (0, 2), (2, 0)]][n]


def enough(spec):
    """images for every camera and pair, with room to spare"""
    n = len(spec["cams"])
    g = [set(p["k"] for p in good_files(spec, i).values()) for i in range(n)]
    return all(len(files_of(spec, i)) >= 8 and len(g[i]) >= 11 for i in range(n)) and all(len(g[i] & g[j]) >= 11 for i, j in pairs(spec))


def refused(ctx, spec, rep):
    """the command said that there is too little to calibrate with, and there may be"""
    if rep["status"] != "exit" or rep.get("exc"):
        return False
    txt = ctx.out(600)
    if "Too few stereo" in txt:
        ctx.note("too_alike")
        return True
    if "pattern was not found" in txt and len({(c["w"], c["h"]) for c in spec["cams"]}) > 1:
        ctx.note("unclear_when_resized")
        return True
    if "pattern was not found" in txt and any(sum(found(spec, ctx.root, i, n) for n in good_files(spec, i)) < 4
                                              for i in range(len(spec["cams"]))):
        ctx.note("unclear")
        return True
    return False


def fixed(st):
    return plain(st)


# ------------------------------------------------------------------ laser
def read_ply(f):
    txt = open(f).read().split("end_header\n", 1)
    n = int(re.search(r"element vertex (\d+)", txt[0]).group(1))
    p = np.array([[float(x) for x in ln.split()] for ln in txt[1].splitlines()]).reshape(-1, 3)
    return n, p


def lit(spec):
    """depths at which both cameras have the laser in view"""
    la = spec["laser"]
    a, b = spec["cams"][:2]
    out = []
    for s in la["shots"]:
        if all(s["k"] not in la[w].get(c["name"], []) for w in ("lost", "dark") for c in (a, b)):
            out.append(s)
    return out


def paired(spec):
    """lit shots that are not skipped: skip_first drops the first images of either camera"""
    la = spec["laser"]
    n = la.get("skip_first", 0)
    have = [[s["k"] for s in la["shots"] if s["k"] not in la["lost"].get(c["name"], [])][n:] for c in spec["cams"][:2]]
    return [s for s in lit(spec) if s["k"] in have[0] and s["k"] in have[1]]


def dist_to(pl, p):
    return (p @ np.array(pl[:3]) + pl[3]) / np.linalg.norm(pl[:3])


def check_laser(ctx, spec, planes):
    import yaml
    la = spec["laser"]
    a = spec["cams"][0]
    d = out_dir(ctx.root)
    shots = paired(spec)
    zs = np.array([s["z"] for s in shots])
    two = len(la["lasers"]) == 2
    for which, pl in enumerate(la["lasers"]):
        tag = "b_" if which else ""
        ply = os.path.join(d, "points_%s%s.ply" % (tag, a["name"]))
        yml = os.path.join(d, "laser_calibration_%s_%s.yaml" % ("bottom" if which else "top", a["name"]))
        for f in (ply, yml):
            if not os.path.exists(f):
                ctx.violate("missing", "laser ended with status 0 without " + os.path.basename(f))
                return False
        n, p = read_ply(ply)
        if n != len(p):
            ctx.violate("ply", "%s announces %d points and has %d" % (os.path.basename(ply), n, len(p)))
            return False
        dz = np.abs(p[:, 2][:, None] - zs[None]) / zs[None]
        near = dz.argmin(axis=1)
        rel = dz.min(axis=1)
        ctx.worst("depth", rel.max())
        if rel.max() > .03:
            k = rel.argmax()
            ctx.violate("depth", "%s: point %s is not on the sea floor of any image pair (nearest %.2f m)" % (
                os.path.basename(ply), p[k].round(3).tolist(), zs[near[k]]))
            return False
        res = np.abs(dist_to(pl, p))
        ctx.worst("sheet", res.max())
        if res.max() > .005:
            k = res.argmax()
            ctx.violate("sheet", "%s: point %s is %.3f m from the laser sheet" % (os.path.basename(ply), p[k].round(3).tolist(), res[k]))
            return False
        miss = [s for k, s in enumerate(shots) if la.get("off", {}).get(str(s["k"])) != which and not (near == k).any() and visible(spec, pl, s)]
        if miss:
            ctx.violate("lost", "%s: no point of image pair %s, which shows the laser" % (os.path.basename(ply), miss[0]["k"]))
            return False
        if not check_bins(ctx, os.path.join(d, "points_%srs_%s.ply" % (tag, a["name"])), p, la["cfg"]["stratify"]):
            return False
        y = yaml.safe_load(open(yml))
        m = np.array(y["mean_plane"])
        e = np.abs(m - pl)
        ctx.worst("plane", e.max())
        if e.max() > .005:
            ctx.violate("plane", "%s: plane %s, the laser sheet is %s" % (os.path.basename(yml), m.round(4).tolist(), np.round(pl, 4).tolist()))
            return False
        c = np.array(y["mean_xyz_m"])
        if abs(dist_to(m, c)) > .003 or abs(c[2] - p[:, 2].mean()) > .25 or abs(dist_to(pl, c)) > .004:
            ctx.violate("mean", "%s: mean point %s is not that of the points on the sheet" % (os.path.basename(yml), c.round(3).tolist()))
            return False
        up = np.array(y.get("uncertainty_planes", []))
        if len(up) != planes:
            ctx.violate("count", "%s: %d uncertainty planes, %d were asked for" % (os.path.basename(yml), len(up), planes))
            return False
        for u in up:
            # each goes through three of the points, widely spread
            r = np.sort(np.abs(dist_to(u, p)))[:3]
            if r.max() > 1e-3 or abs(dist_to(u, c)) > .01 or np.abs(u - m).max() > .03:
                ctx.violate("uncertainty", "%s: uncertainty plane %s does not go through the points of this laser (%s)" % (
                    os.path.basename(yml), u.round(3).tolist(), m.round(3).tolist()))
                return False
    if not two and any("bottom" in n or n.startswith("points_b") for n in os.listdir(d)):
        ctx.violate("bottom", "a calibration of a second laser, which there is not")
        return False
    return True


def check_bins(ctx, f, p, st):
    """the selected points: of every range of depths as many as there are, up to the configured number"""
    name = os.path.basename(f)
    if not os.path.exists(f):
        ctx.violate("missing", "laser ended with status 0 without " + name)
        return False
    n, q = read_ply(f)
    cnt = {}
    for x in p:
        cnt[tuple(x)] = cnt.get(tuple(x), 0) + 1
    for x in q:
        cnt[tuple(x)] = cnt.get(tuple(x), 0) - 1
        if cnt[tuple(x)] < 0:
            ctx.violate("selected", "%s: point %s is not one of the points of this laser" % (name, x.tolist()))
            return False
    edges = np.linspace(st["min_z_m"], st["max_z_m"], st["number_of_bins"] + 1)
    if n != len(q) or (q[:, 2] < edges[0] - 1e-4).any() or (q[:, 2] > edges[-1] + 1e-4).any():
        ctx.violate("range", "%s: points outside %.1f to %.1f m" % (name, edges[0], edges[-1]))
        return False
    if (np.abs(p[:, 2][:, None] - edges[None]) < 1e-4).any():
        return True
    for lo, hi in zip(edges, edges[1:]):
        have, of = ((q[:, 2] > lo) & (q[:, 2] < hi)).sum(), ((p[:, 2] > lo) & (p[:, 2] < hi)).sum()
        if have != min(of, st["max_points_per_bin"]):
            ctx.violate("bins", "%s: %d of %d points between %.2f and %.2f m, at most %d were asked for" % (
                name, have, of, lo, hi, st["max_points_per_bin"]))
            return False
    return True


def thin(spec):
    """uncertainty planes need a cloud that is wide and deep"""
    off = spec["laser"].get("off", {})
    for which in (0, 1):
        z = [s["z"] for s in paired(spec) if off.get(str(s["k"])) != which]
        if len(z) < 7 or max(z) - min(z) < 1.2:
            return True
    return False


def visible(spec, pl, s):
    """the line is well inside both images over the middle columns"""
    q = cal.cv_plane(pl)
    z = s["z"]
    xs = np.linspace(-.25, .25, 11) * z
    ys = -(q[0] * xs + q[2] * z + q[3]) / q[1]
    p = np.stack([xs, ys, np.full(11, z)], axis=1)
    a, b = spec["cams"][:2]
    rows = [(0, 240)]
    det = spec["laser"]["cfg"]["detection"]
    if det.get("two_lasers"):
        rows = [(0, 120)] if pl is spec["laser"]["lasers"][0] else [(120, 240)]
    for c in (a, b):
        v = cal.project(c, p)[:, 1]
        if v.min() < rows[0][0] + 28 or v.max() > rows[0][1] - 28:
            return False
    return True


# ------------------------------------------------------------------ properties
class Base:
    need = {"auv_cal"}

    def setup(self):
        import cv2
        cv2.setNumThreads(0)

    def shrink(self, plan):
        spec = plan["spec"]

        def v(f):
            c = copy.deepcopy(plan)
            f(c["spec"])
            return c
        if len(spec["cams"]) > 2:
            yield v(lambda s: s["cams"].pop())
        for k in ("lost", "bad", "away", "moved"):
            for n in spec.get(k, {}):
                if spec[k][n]:
                    yield v(lambda s: s[k][n].clear())
        if spec.get("laser", {}).get("off"):
            yield v(lambda s: s["laser"]["off"].clear())
        for k in ("lost", "dark"):
            for n in spec.get("laser", {}).get(k, {}):
                if spec["laser"][k][n]:
                    yield v(lambda s: s["laser"][k][n].clear())


class P16(Base):
    """The calibrated cameras are the ones that took the images."""
    id = "P16"

    def generate(self, rng, tier, seed):
        graded = rng.random() < .2
        spec = cal.random_spec(rng)
        while graded and (spec["board"]["pattern"] != "Chessboard" or len(spec["cams"]) < 2):
            spec = cal.random_spec(rng)
        if graded or len(spec["cams"]) > 1 and rng.random() < .35:
            # the board was moved between the two exposures
            c = rng.choice(spec["cams"][1:])
            sizes = rng.choice([[.010], [.010], [.010, .010]])
            if graded:
                sizes = rng.choice([[.03, .012], [.035, .016, .009]])
                # each rejection uncovers the next: room for several rounds
                while len(spec["poses"]) < 24:
                    p = cal.random_pose(rng, spec["board"], len(spec["poses"]), spec["poses"][-1]["t"] + rng.randrange(400, 3500), spec["cams"])
                    spec["poses"].append(p)
            spec["moved"] = {c["name"]: {str(k): [rng.choice([-1, 1]) * z * rng.uniform(.6, 1.4), rng.choice([-1, 1]) * z * rng.uniform(.6, 1.4), 0.0]
                                         for k, z in zip(rng.sample(range(len(spec["poses"])), len(sizes)), sizes)}}
        cmds = ["mono", "stereo"] if rng.random() < .6 else ["stereo"]
        if len(spec["cams"]) < 2:
            cmds = ["mono"]
        return {"spec": spec, "cmds": [step(rng, c) for c in cmds], "again": rng.random() < .5,
                "exact": rng.random() < .5, "force": step(rng, rng.choice(cmds), [rng.choice(["-F", "-F", "-FF"])])}

    def execute(self, ctx, plan):
        spec = plan["spec"]
        if not enough(spec):
            ctx.note("too_few")
            return
        cal.build(spec, ctx.root)
        raw = tree(os.path.join(ctx.root, "raw"))
        ctx.save("start")
        for st in plan["cmds"]:
            rep = ctx.run(st)
            if not ok_exit(rep):
                if refused(ctx, spec, rep):
                    return
                ctx.violate("fails/" + exc_key(rep), "%s of good images ended with %s" % (st["argv"][0], brief(rep)) + ctx.out(500))
                return
        ctx.note("calibrated")
        if not self.judge(ctx, plan):
            return
        got = results(ctx.root)
        if {k: v for k, v in tree(os.path.join(ctx.root, "raw")).items() if "/log" not in k and k != "log"} != \
                {k: v for k, v in raw.items()}:
            ctx.violate("raw", "calibration changed the raw folder")
            return
        if plan["again"]:
            st = plan["force"]
            rep = ctx.run(st)
            if not ok_exit(rep):
                ctx.violate("again-fails/" + exc_key(rep), "%s %s after a calibration ended with %s" % (st["argv"][0], st["argv"][1], brief(rep)) + ctx.out(400))
                return
            d = diff_tree(keys(got, ".yaml"), keys(results(ctx.root), ".yaml"))
            if d:
                ctx.violate("again", "calibrating again with the stored corners gave something else: " + "; ".join(d[:3]))
                return
        if plan["exact"]:
            ctx.load("start")
            for st in plan["cmds"]:
                rep = ctx.run(fixed(st))
                if not ok_exit(rep):
                    ctx.violate("fails/" + exc_key(rep), "%s of good images ended with %s" % (st["argv"][0], brief(rep)))
                    return
            d = diff_tree(got, results(ctx.root))
            if d:
                ctx.violate("schedule", "calibration depends on the schedule of the workers or the host: " + "; ".join(d[:3]))

    def judge(self, ctx, plan):
        spec = plan["spec"]
        for i in range(len(spec["cams"])):
            if not (check_corners(ctx, spec, i) and check_mono(ctx, spec, i)):
                return False
        if len(spec["cams"]) > 1:
            for i, j in pairs(spec):
                if not check_stereo(ctx, spec, i, j):
                    return False
        return True


class P17(Base):
    """The calibrated laser sheets are the ones in the images."""
    id = "P17"

    def generate(self, rng, tier, seed):
        spec = cal.laser_spec(rng)
        u = rng.choice([1, 2, 3, 5])
        return {"spec": spec, "step": step(rng, "laser", [], ["-u", str(u)]), "planes": u, "again": rng.random() < .6,
                "exact": rng.random() < .4, "force": step(rng, "laser", ["-F"], ["-u", str(u)])}

    def execute(self, ctx, plan):
        spec = plan["spec"]
        la = spec["laser"]
        if any(len(la["shots"]) - len(la["lost"][c["name"]]) < 8 + la.get("skip_first", 0) for c in spec["cams"]) or thin(spec):
            ctx.note("too_few")
            return
        cal.build(spec, ctx.root, boards=False)
        cal.build_laser(spec, ctx.root)
        cal.put_stereo(spec, ctx.root)
        raw = tree(os.path.join(ctx.root, "raw"))
        ctx.save("start")
        rep = ctx.run(plan["step"])
        if not ok_exit(rep):
            ctx.violate("fails/" + exc_key(rep), "laser ended with %s" % brief(rep) + ctx.out(500))
            return
        if not check_laser(ctx, spec, plan["planes"]):
            return
        if tree(os.path.join(ctx.root, "raw")) != raw:
            ctx.violate("raw", "calibration changed the raw folder")
            return
        got = results(ctx.root)
        if plan["again"]:
            rep = ctx.run(plan["force"])
            if not ok_exit(rep):
                ctx.violate("again-fails/" + exc_key(rep), "laser -F after a calibration ended with %s" % brief(rep) + ctx.out(400))
                return
            d = diff_tree(got, results(ctx.root))
            if d:
                ctx.violate("again", "calibrating again with the stored detections gave something else: " + "; ".join(d[:3]))
                return
        if plan["exact"]:
            ctx.load("start")
            rep = ctx.run(fixed(plan["step"]))
            if not ok_exit(rep):
                ctx.violate("fails/" + exc_key(rep), "laser ended with %s" % brief(rep))
                return
            d = diff_tree(got, results(ctx.root))
            if d:
                ctx.violate("schedule", "laser calibration depends on the schedule of the workers or the host: " + "; ".join(d[:3]))


AIM = (".yaml", ".json", ".txt", ".ply")


def rand_fault(rng, what):
    k = rng.choice(["crash", "crash", "crash", "torn", "torn", "enospc", "enospc", "eio", "eio", "short", "read_eio", "kill_worker"])
    if k == "read_eio":
        return {"kind": k, "which": rng.random()}
    f = {"kind": k, "frac": rng.random(), "keep": rng.choice([0.0, rng.random()])}
    if rng.random() < .75:
        f["aim"] = rng.random()
    return f


def place(f, ops):
    if "which" in f:
        names = ["mono_", ".json", "calibration.yaml"]
        return {"kind": "read_eio", "path": names[int(f["which"] * 3)], "nth": int(f["which"] * 997) % 3}
    if "frac" not in f:
        return f
    g = dict(f)
    anywhere = g["kind"] == "kill_worker"
    aim = g.pop("aim", None)
    sel = [i for i, o in enumerate(ops) if o[1].split(".tmp")[0].endswith(AIM) and "/log/" not in o[1] and
           (g["kind"] == "crash" or o[0] == "write")]
    if aim is None or not sel or anywhere:
        k = g["kind"]
        if anywhere:
            g["kind"] = "crash"
        g = resolve(g, ops)
        g["kind"] = k
        return g
    g.pop("frac")
    files = sorted({ops[i][1] for i in sel})
    path = files[int(aim * len(files))]
    sel = [i for i in sel if ops[i][1] == path]
    i = sel[int(aim * 7919) % len(sel)]
    g.update(path=path, on=[ops[i][0]], nth=sum(1 for o in ops[:i] if o[0] == ops[i][0] and path in o[1]))
    return g


def at(f, ops):
    if "nth" in f:
        return "%s at %s %d of %s" % (f["kind"], f.get("on", ["read"])[0], f["nth"] + 1, f["path"])
    i = f["op"]
    return "%s at file operation %d (%s)" % (f["kind"], i, " ".join(map(str, ops[i])) if i < len(ops) else "?")


class P18(Base):
    """Interrupted or failing calibration."""
    id = "P18"

    def generate(self, rng, tier, seed):
        what = rng.choice(["mono", "stereo", "stereo", "laser"])
        if what == "laser":
            spec = cal.laser_spec(rng)
            spec["laser"]["cfg"]["detection"]["num_columns"] = 9
        else:
            spec = cal.random_spec(rng, ncams={"mono": rng.choice([1, 2]), "stereo": rng.choice([2, 2, 3])}[what])
        old = rng.random() < .35
        more = ["-u", "3"] if what == "laser" else []
        flags = [rng.choice(["-F", "-FF"])] if old else rng.choice([[], [], [], ["-F"], ["-FF"]])
        p = {"what": what, "spec": spec, "ready": what == "stereo" and rng.random() < .5, "old": old, "step": step(rng, what, flags, more),
             "fault": rand_fault(rng, what), "retry": step(rng, what, [], more)}
        if rng.random() < .1:
            # nothing to calibrate from
            p["old"] = p["ready"] = False
            p["step"]["argv"] = [x for x in p["step"]["argv"] if x not in ("-F", "-FF")]
            if what == "laser":
                c = rng.choice(spec["cams"])["name"]
                ks = [s["k"] for s in spec["laser"]["shots"]]
                p["hopeless"] = "fewer than eight images"
                spec["laser"]["lost"][c] = sorted(rng.sample(ks, len(ks) - rng.randrange(1, 8)))
            else:
                c = rng.choice(spec["cams"])["name"]
                p["hopeless"] = "no image with the board"
                spec["away"][c] = [q["k"] for q in spec["poses"]]
            p["blind"] = c
        return p

    def prepare(self, ctx, plan):
        """inputs, and what earlier commands left; False if there is nothing to look at"""
        spec, what = plan["spec"], plan["what"]
        la = what == "laser"
        if la:
            s = spec["laser"]
            if any(len(s["shots"]) - len(s["lost"][c["name"]]) < 8 + s.get("skip_first", 0) for c in spec["cams"]) or thin(spec):
                return False
        elif not enough(spec):
            return False
        cal.build(spec, ctx.root, boards=not la)
        if la:
            cal.build_laser(spec, ctx.root)
            cal.put_stereo(spec, ctx.root)
        if plan["ready"]:
            if not ok_exit(ctx.run(fixed(dict(plan["retry"], argv=["mono"] + plan["retry"]["argv"][-1:])))):
                return False
        if plan["old"]:
            # an earlier calibration, before some more images were added
            ctx.save("all")
            drop = sorted(os.path.join(dp, f) for dp, dn, fn in os.walk(ctx.root) for f in fn if "/image/" in dp and f.endswith(("png", "tif", "jpg")))
            gone = [drop[3], drop[-2]]
            data = [open(f, "rb").read() for f in gone]
            for f in gone:
                os.remove(f)
            rep = ctx.run(fixed(plan["retry"]))
            for f, b in zip(gone, data):
                with open(f, "wb") as o:
                    o.write(b)
            if not ok_exit(rep):
                return False
        return True

    def execute(self, ctx, plan):
        spec, st, what = plan["spec"], plan["step"], plan["what"]
        if plan.get("hopeless"):
            cal.build(spec, ctx.root, boards=what != "laser")
            if what == "laser":
                cal.build_laser(spec, ctx.root)
                cal.put_stereo(spec, ctx.root)
            rep = ctx.run(st)
            ctx.note("hopeless")
            made = [k for k in results(ctx.root) if (k.startswith("laser_") if what == "laser" else plan["blind"] in k) and k.endswith(".yaml")]
            if rep["status"] != "exit":
                ctx.violate("hang", "%s with %s: %s" % (what, plan["hopeless"], brief(rep)))
            elif ok_exit(rep) or made:
                ctx.violate("hopeless", "%s with %s of %s ended with status %s and made %s" % (
                    what, plan["hopeless"], plan["blind"], "0" if ok_exit(rep) else "1", made or "no calibration"))
            return
        if not self.prepare(ctx, plan):
            ctx.note("too_few")
            return
        old = results(ctx.root)
        ctx.save("start")
        ref = ctx.run(fixed(st))
        if not ok_exit(ref):
            if refused(ctx, spec, ref):
                return
            ctx.violate("fails/" + exc_key(ref), "%s ended with %s" % (what, brief(ref)) + ctx.out(400))
            return
        want = results(ctx.root)
        ctx.load("start")
        ops = ref["oplog"]
        plan["fault"] = place(plan["fault"], ops)
        st["faults"] = [plan["fault"]]
        rep = ctx.run(st)
        w = "%s %s" % (" ".join(a for a in st["argv"] if a.startswith("-")), at(plan["fault"], ops))
        if rep["status"] in ("deadlock", "livelock"):
            ctx.violate("hang", "%s never ends after %s: %s" % (what, w, brief(rep)))
            return
        if ok_exit(rep):
            d = diff_tree(want, results(ctx.root))
            if d:
                ctx.violate("silent/" + what, "%s ended with status 0 although %s; result: %s" % (what, w, "; ".join(d[:3])) + ctx.out(300))
                return
            ctx.note("harmless")
        else:
            ctx.note("stopped")
        have = results(ctx.root)
        for k in keys(have, (".yaml", ".json")):
            if have[k] != want.get(k) and have[k] != old.get(k):
                ctx.violate("torn/" + k.split("_")[0], "%s stopped by %s leaves a %s that no complete run wrote" % (what, w, k))
                return
        for k in keys(old, (".yaml", ".json")):
            if k not in have:
                ctx.violate("gone", "%s stopped by %s leaves neither the old nor the new %s" % (what, w, k))
                return
        rep = ctx.run(plan["retry"])
        if rep["status"] != "exit":
            ctx.violate("retry-hang", "%s after %s: %s" % (what, w, brief(rep)))
            return
        now = results(ctx.root)
        bad = [k for k in keys(have, ".yaml") if now.get(k) != have[k]]
        if bad:
            ctx.violate("overwrites", "%s without -F changed existing results: %s" % (what, bad[:3]))
            return
        if ok_exit(rep) and not plan["old"]:
            # points are written anew with every run, only calibrations are kept
            d = diff_tree(keys(want, (".yaml", ".json")), keys(now, (".yaml", ".json")))
            if d:
                ctx.violate("retry-silent", "%s after %s; run again it ended with status 0 but the results are not complete: %s" % (
                    what, w, "; ".join(d[:3])))
                return
            ctx.note("completed")
        elif not ok_exit(rep):
            ctx.note("refused")
        fin = copy.deepcopy(plan["retry"])
        fl = [a for a in st["argv"] if a in ("-F", "-FF")] or ["-F"]
        fin["argv"][1:1] = fl
        rep = ctx.run(fin)
        if not ok_exit(rep):
            ctx.violate("force-fails/" + exc_key(rep), "%s %s after %s ended with %s" % (what, fl[0], w, brief(rep)) + ctx.out(400))
            return
        d = diff_tree(want, results(ctx.root))
        if d:
            ctx.violate("force-differs", "%s %s after %s gave other results than without the failure: %s" % (what, fl[0], w, "; ".join(d[:3])))

    def shrink(self, plan):
        if plan["old"]:
            c = copy.deepcopy(plan)
            c["old"] = False
            yield c
        yield from super().shrink(plan)


PROPS = {p.id: p for p in (P16(), P17(), P18())}
