"""correct_images: corrected images, correction parameters, crashes and storage
failures, existing results and raw data."""
import copy
import csv
import os

import numpy as np

from worlds import ci
from opsim.ctx import tree, diff_tree
from .common import brief, exc_key, ok_exit, plain, rand_crash, rand_env, resolve

MAX_JUMPS = 20_000_000


def pool_sched(rng):
    pol = rng.choice(["random", "random", "sticky", "default"])
    return {"policy": pol, "seed": rng.randrange(1 << 30)}


def step(rng, spec, cmd, dives=None, force=False):
    argv = [cmd] + (["-F"] if force else [])
    if spec["cfg"].get("suffix"):
        argv += ["--suffix", spec["cfg"]["suffix"]]
    if cmd == "parse" and rng.random() < 0.4:
        argv += ["--memmap-location", "@/scratch"]
    dives = dives or spec["dives"]
    argv += [ci.dive_dir("@", "raw", d) for d in (dives if cmd == "parse" else dives[:1])]
    st = {"prog": "correct_images", "argv": argv, "max_jumps": MAX_JUMPS}
    st.update(rand_env(rng))
    st["mem"] = rng.choice([2 ** 34, 2 ** 34, 40_000, 1000])
    st["sched"] = pool_sched(rng)
    return st


def fixed(st):
    s = plain(st)
    s["mem"] = 2 ** 34
    return s


def forced(st):
    s = copy.deepcopy(st)
    if "-F" not in s["argv"]:
        s["argv"].insert(1, "-F")
    return s


def leftovers(ctx):
    out = []
    for dp, dn, fn in os.walk(ctx.root):
        out += [os.path.relpath(os.path.join(dp, f), ctx.root) for f in fn if f.endswith(".map")]
    return out


def all_results(spec, root):
    """every file below processed/<dive>/image"""
    out = {}
    for d in spec["dives"]:
        b = os.path.join(ci.dive_dir(root, "processed", d), "image")
        out.update({d["name"] + "/" + k: v for k, v in tree(b).items() if v != "d"})
    return out


def npys(t):
    return {k: v for k, v in t.items() if k.endswith(".npy")}


def images(t):
    return {k: v for k, v in t.items() if "/corrected_" in k}


def put_params(spec, dive, root, seed):
    """stored correction parameters as an earlier parse leaves them"""
    r = np.random.RandomState(seed % (2 ** 31))
    h, w = spec["h"], spec["w"]
    for cam in spec["cams"]:
        ch = 3 if cam["type"] in ("rgb", "bgr") else 1
        d = ci.params_dir(spec, dive, cam, root)
        os.makedirs(d, exist_ok=True)

        def save(n, a):
            np.save(os.path.join(d, n + ".npy"), a)
        mean = r.uniform(0.2, 0.5, (h, w, ch)).astype(np.float32)
        std = r.uniform(0.02, 0.06, (h, w, ch)).astype(np.float32)
        if spec["cfg"]["metric"] == "altitude":
            a = np.stack([r.uniform(0.5, 1.4, (ch, h, w)), -r.uniform(0.15, 0.35, (ch, h, w)),
                          r.uniform(0.0, 0.05, (ch, h, w))], axis=-1).astype(np.float32)
            save("attenuation_parameters", a)
            save("correction_gains", r.uniform(0.2, 0.6, (ch, h, w)))
            save("image_corrected_mean", mean)
            save("image_corrected_std", std)
        else:
            save("image_raw_mean", mean if ch == 3 else mean[:, :, 0])
            save("image_raw_std", std if ch == 3 else std[:, :, 0])


# ------------------------------------------------------------------ comparison with the reference
def check_images(ctx, spec, dive, root, pix=True):
    import imageio.v2 as iio
    for cam in spec["cams"]:
        el = ci.eligible(spec, dive, cam, "process")
        d = ci.images_dir(spec, dive, cam, root)
        fmt = spec["cfg"]["fmt"]
        want = {os.path.splitext(os.path.basename(rel))[0]: (k, rel, a) for k, rel, a in el}
        have = sorted(os.listdir(d)) if os.path.isdir(d) else []
        exp = sorted([s + "." + fmt for s in want] + ["filelist.csv"])
        if have != exp:
            miss, extra = sorted(set(exp) - set(have)), sorted(set(have) - set(exp))
            ctx.violate("set", "camera %s: corrected images missing %s, unexpected %s" % (cam["name"], miss[:4], extra[:4]))
            return False
        with open(os.path.join(d, "filelist.csv"), newline="") as f:
            rows = list(csv.DictReader(f))
        got = [r["relative_path"] for r in rows]
        if sorted(got) != sorted(s + "." + fmt for s in want):
            ctx.violate("list", "camera %s: filelist.csv has %d rows for %d images: missing %s, unexpected or double %s" % (
                cam["name"], len(got), len(want), sorted(set(exp) - set(got) - {"filelist.csv"})[:3],
                sorted(x for x in got if x not in exp or got.count(x) > 1)[:3]))
            return False
        nav = {r[1]: r[3].strip().split(",") for r in ci.rows(spec, dive, cam)}
        head = ci.HEADER.strip().split(",")
        for r in rows:
            k, rel, a = want[os.path.splitext(r["relative_path"])[0]]
            raw = r.get("raw_relative_path")
            if raw is not None and raw != rel:
                ctx.violate("list-raw", "filelist.csv says %s comes from %s, expected %s" % (r["relative_path"], raw, rel))
                return False
            if rel not in nav or spec["cfg"]["method"] != "colour_correction":
                continue
            for name, v in zip(head[1:], nav[rel][1:]):
                if name not in r:
                    ctx.violate("list-col", "filelist.csv has no column %s" % name)
                    return False
                if not same(r[name], v):
                    ctx.violate("list-nav", "filelist.csv: %s of %s is %s, navigation says %s" % (name, r["relative_path"], r[name], v))
                    return False
        if not pix:
            continue
        par = ci.load_params(ci.params_dir(spec, dive, cam, root))
        for s, (k, rel, a) in sorted(want.items()):
            p = os.path.join(d, s + "." + fmt)
            try:
                img = iio.imread(p)
            except Exception as e:
                ctx.violate("unreadable", "corrected image %s cannot be read: %s" % (s, e))
                return False
            ref = ci.develop(spec, cam, ci.unit(spec, dive, cam, k), a, par)
            if img.shape != ref.shape:
                ctx.violate("shape", "corrected image %s has shape %s, expected %s" % (s, img.shape, ref.shape))
                return False
            with np.errstate(all="ignore"):
                ok = np.abs(img.astype(float) - np.floor(ref)) <= 1.01
            ok |= ~np.isfinite(ref)
            bad = int((~ok).sum())
            if bad > (0.02 * ok.size if cam["type"] in ci.BAYER else 0):
                y = np.argwhere(~ok)[0]
                ctx.violate("pixels", "corrected image %s (altitude %s): %d of %d pixels differ from the correction of this image, "
                            "e.g. %s is %s, expected %.1f" % (s, a, bad, ok.size, y.tolist(), img[tuple(y)], ref[tuple(y)]))
                return False
    return True


def same(a, b):
    if a == b:
        return True
    try:
        return abs(float(a) - float(b)) <= 1e-9 * max(1.0, abs(float(b)))
    except ValueError:
        return (a or "None") == (b or "None")


def check_params(ctx, spec, root):
    dives = spec["dives"]
    for cam in spec["cams"]:
        first = ci.params_dir(spec, dives[-1], cam, root)
        par = ci.load_params(first)
        for d in dives:
            q = ci.load_params(ci.params_dir(spec, d, cam, root))
            if sorted(q) != sorted(par) or any(not np.array_equal(q[k], par[k], equal_nan=True) for k in par):
                ctx.violate("dives", "camera %s: the dives parsed together do not share the same parameters (%s: %s, %s: %s)" % (
                    cam["name"], dives[-1]["name"], sorted(par), d["name"], sorted(q)))
                return False
        ch = 3 if cam["type"] in ("rgb", "bgr") else 1
        if spec["cfg"]["metric"] == "uniform":
            every = [(d, k) for d in dives for k, _, a in ci.eligible(spec, d, cam, "parse")]
            m, s = ci.plain_stats([ci.unit(spec, d, cam, k) for d, k in every])
            for n, ref in (("raw_mean", m), ("raw_std", s)):
                if n not in par:
                    ctx.violate("missing", "camera %s: %s was not written" % (cam["name"], n))
                    return False
                if par[n].shape != ref.shape or np.abs(par[n] - ref).max() > 2e-4:
                    ctx.violate(n, "camera %s: %s is not that of the %d images in the altitude range: off by %.5f" % (
                        cam["name"], n, len(every), np.abs(par[n] - ref).max() if par[n].shape == ref.shape else -1))
                    return False
            continue
        for n in ("attn", "gain", "mean", "std"):
            if n not in par:
                ctx.violate("missing", "camera %s: parameter %s was not written" % (cam["name"], n))
                return False
        ref, every = ci.ref_bins(spec, cam, dives)
        nb = len(ci.bins(spec)) - 1
        im = np.load(os.path.join(first, "images_map.npy"))
        dm = np.load(os.path.join(first, "distances_map.npy"))
        for i in range(nb):
            if i in ref:
                alt, sample = ref[i]
                e1 = np.abs(dm[i] - alt).max()
                e2 = np.abs(im[i].reshape(sample.shape) - sample).max()
            else:
                e1, e2 = np.abs(dm[i]).max(), np.abs(im[i]).max()
            if not (e1 < 1e-4 and e2 < 2e-4):
                ctx.violate("bin", "camera %s: altitude bin %d (%s): distance off by %.4f, intensity off by %.5f" % (
                    cam["name"], i, "used" if i in ref else "too few images", e1, e2))
                return False
        # the curve goes through the bins it was fitted to
        if len(ref) >= 1:
            al = np.array([ref[i][0] for i in sorted(ref)])
            sa = np.stack([ref[i][1].reshape(spec["h"], spec["w"], ch) for i in sorted(ref)])
            at = par["attn"]
            pred = np.stack([np.moveaxis(at[..., 0] * np.exp(at[..., 1] * x) + at[..., 2], 0, -1) for x in al])
            tol = 0.05 + 2.0 * spec["noise"]
            live = sa.min(axis=0) > 1e-3
            rel = np.abs(pred - sa) / np.maximum(sa, 1e-3)
            bad = (rel.max(axis=0) > tol) & live
            if bad.any():
                y = np.argwhere(bad)[0].tolist()
                ctx.violate("fit", "camera %s: the attenuation curve misses the images by %.0f%% at pixel %s" % (
                    cam["name"], 100 * rel.max(axis=0)[tuple(y)], y))
                return False
            if (at[..., 1] > 0).any() or (at[..., 2] < 0).any() or not np.isfinite(at).all():
                ctx.violate("fit-sign", "camera %s: attenuation that grows with distance" % cam["name"])
                return False
        target = float(np.mean([a for _, _, a in every]))
        at = par["attn"]
        g = at[..., 0] * np.exp(at[..., 1] * target) + at[..., 2]
        if np.abs(par["gain"] - g).max() > 1e-4:
            ctx.violate("gain", "camera %s: correction gains are not those of the mean altitude: off by %.5f" % (
                cam["name"], np.abs(par["gain"] - g).max()))
            return False
        m, s, near = running(spec, cam, every, par)
        for n, r in (("mean", m), ("std", s)):
            e = np.abs(par[n].reshape(r.shape) - r)
            e[near] = 0
            if e.max() > 1e-3:
                ctx.violate("corrected_" + n, "camera %s: stored %s of the corrected images is off by %.4f" % (cam["name"], n, e.max()))
                return False
    return True


def running(spec, cam, every, par):
    imgs = [ci.attenuate(ci.unit(spec, d, cam, k), a, par["attn"], par["gain"]) for d, k, a in every]
    m, s = ci.running_stats(imgs)
    near = np.zeros(m.shape, bool)
    for x in imgs:
        near |= np.abs(x - 0.95) < 1e-5
    return m, s, near


# ------------------------------------------------------------------ properties
class Base:
    need = {"correct_images"}

    def setup(self):
        warm()

    def shrink(self, plan):
        yield from shrink_ci(plan)


def warm():
    """compile and load what every run needs, once"""
    import tempfile
    import imageio
    import imageio.v2 as iio
    import matplotlib.pyplot as plt
    with tempfile.TemporaryDirectory() as tmp:
        # plugins are found and remembered at first use
        for ext in ("png", "tif", "tiff"):
            for img in (np.zeros((10, 10), np.uint8), np.zeros((10, 10), np.uint16), np.zeros((10, 10, 3), np.uint8)):
                f = os.path.join(tmp, "a." + ext)
                iio.imwrite(f, img)
                iio.imread(f)
                imageio.imread(f)
        try:
            from correct_images.tools.curve_fitting import curve_fitting
            a = np.array([2.0, 2.1, 2.2, 2.3])
            y = 0.7 * np.exp(-0.2 * a) + 0.02
            for dt in (np.float32, np.float64):
                curve_fitting(a.astype(dt), y.astype(dt), 0, 0, os.path.join(tmp, "a.png"))
        except Exception:
            pass
    f = plt.figure()
    plt.plot([1, 2], [2, 3])
    plt.imshow(np.zeros((3, 3)))
    plt.colorbar()
    plt.title("x")
    plt.close(f)


def shrink_ci(plan):
    spec = plan["spec"]

    def v(f):
        c = copy.deepcopy(plan)
        f(c["spec"])
        return c
    if len(spec["cams"]) > 1:
        yield v(lambda s: s["cams"].pop())
        yield v(lambda s: s["cams"].pop(0))
    if spec["cfg"]["lists"]:
        yield v(lambda s: s["cfg"]["lists"].clear())
    if spec["noise"]:
        yield v(lambda s: s.update(noise=0.0))
    for i, d in enumerate(spec["dives"]):
        if d["lost"]:
            yield v(lambda s: s["dives"][i]["lost"].clear())
        if d["no_nav"]:
            yield v(lambda s: s["dives"][i]["no_nav"].clear())
        if len(d["sols"]) > 1:
            yield v(lambda s: s["dives"][i]["sols"].pop())
        if spec["cfg"]["metric"] == "uniform" and len(d["alts"]) > 4:
            yield v(lambda s: s["dives"][i]["alts"].__delitem__(slice(len(d["alts"]) // 2, None)))
    for n in ("steps", "cmds"):
        for i in range(len(plan.get(n, []))):
            c = copy.deepcopy(plan)
            del c[n][i]
            yield c


class P12(Base):
    """Every selected image is corrected once, by its own distance."""
    id = "P12"

    def generate(self, rng, tier, seed):
        m = "manual_balance" if rng.random() < 0.12 else "colour_correction"
        spec = ci.random_spec(rng, method=m)
        p = {"spec": spec, "params": rng.randrange(1 << 30), "step": step(rng, spec, "process")}
        if m == "colour_correction":
            # no dark pixels: their stored deviation is zero
            spec["dark"] = 0
            if rng.random() < 0.12:
                p["params"] = None
                p["parse"] = step(rng, spec, "parse")
                if rng.random() < 0.4:
                    p["step"]["argv"][0] = "correct"
        return p

    def execute(self, ctx, plan):
        spec = plan["spec"]
        dive = spec["dives"][0]
        ci.build(spec, ctx.root)
        together = plan["step"]["argv"][0] == "correct"
        if spec["cfg"]["method"] == "colour_correction" and plan["params"] is not None:
            put_params(spec, dive, ctx.root, plan["params"])
        elif spec["cfg"]["method"] == "colour_correction" and not together:
            if not enough(spec):
                return
            rep = ctx.run(plan["parse"])
            if not ok_exit(rep):
                ctx.violate("parse/" + exc_key(rep), "parse ended with " + brief(rep) + ctx.out(400))
                return
        if together and not enough(spec):
            return
        if not all(ci.eligible(spec, dive, c, "process") for c in spec["cams"]):
            ctx.note("nothing_selected")
            return
        ctx.save("start")
        rep = ctx.run(plan["step"])
        if not ok_exit(rep):
            ctx.violate("fails/" + exc_key(rep), "%s of an intact dive ended with %s" % (plan["step"]["argv"][0], brief(rep)) + ctx.out(500))
            return
        if not check_images(ctx, spec, dive, ctx.root):
            return
        got = images(all_results(spec, ctx.root))
        ctx.load("start")
        st = fixed(plan["step"])
        rep = ctx.run(st)
        if not ok_exit(rep):
            ctx.violate("fails/" + exc_key(rep), "process ended with " + brief(rep))
            return
        d = diff_tree(images(all_results(spec, ctx.root)), got)
        if d:
            ctx.violate("schedule", "results depend on the schedule of the workers or the host: " + "; ".join(d[:3]))


def enough(spec):
    """parse needs three images per camera, and one usable altitude bin"""
    for cam in spec["cams"]:
        n = sum(len(ci.eligible(spec, d, cam, "parse")) for d in spec["dives"])
        if n < 3:
            return False
        if spec["cfg"]["metric"] == "altitude" and len(ci.ref_bins(dict(spec, cfg=dict(spec["cfg"], smoothing="mean")),
                                                                   cam, spec["dives"])[0]) < 2:
            return False
    return True


class P13(Base):
    """Correction parameters are those of the selected images of all dives."""
    id = "P13"

    def generate(self, rng, tier, seed):
        spec = ci.random_spec(rng, ndives=rng.choice([1, 1, 2, 2, 3]), metric=rng.choice(["altitude", "altitude", "uniform"]))
        return {"spec": spec, "step": step(rng, spec, "parse"), "exact": rng.random() < 0.5}

    def execute(self, ctx, plan):
        spec = plan["spec"]
        if not enough(spec):
            ctx.note("too_few")
            return
        ci.build(spec, ctx.root)
        ctx.save("start")
        rep = ctx.run(plan["step"])
        if not ok_exit(rep):
            ctx.violate("fails/" + exc_key(rep), "parse of intact dives ended with " + brief(rep) + ctx.out(500))
            return
        left = leftovers(ctx)
        if left:
            ctx.violate("temporary", "parse left temporary files behind: %s" % left[:3])
            return
        if not check_params(ctx, spec, ctx.root):
            return
        if not plan["exact"]:
            return
        got = npys(all_results(spec, ctx.root))
        ctx.load("start")
        rep = ctx.run(fixed(plan["step"]))
        if not ok_exit(rep):
            ctx.violate("fails/" + exc_key(rep), "parse ended with " + brief(rep))
            return
        d = diff_tree(npys(all_results(spec, ctx.root)), got)
        if d:
            ctx.violate("schedule", "parameters depend on the schedule of the workers or the host: " + "; ".join(d[:3]))


# ------------------------------------------------------------------ failures, crashes
USED = ("attenuation_parameters.npy", "correction_gains.npy", "image_corrected_mean.npy", "image_corrected_std.npy",
        "image_raw_mean.npy", "image_raw_std.npy")
AIM = {"parse": list(USED) + ["attenuation_coeff", "gain.png"], "process": ["corrected_", "filelist"]}


def used(t, dive, cam):
    return {k: v for k, v in t.items() if k.startswith(dive["name"] + "/" + cam["name"] + "/params_") and k.endswith(USED)}


def rand_fault(rng, what=None):
    if what == "process" and rng.random() < 0.12:
        return {"kind": "read_eio", "sticky": True, "which": rng.random()}
    if what == "parse" and rng.random() < 0.3:
        return {"kind": "crash", "between": rng.random()}
    k = rng.choice(["crash", "crash", "crash", "torn", "enospc", "enospc", "eio", "eio", "short", "read_eio", "kill_worker",
                    "kill_worker"])
    if k == "read_eio":
        return {"kind": k, "rop": rng.choice([rng.randrange(0, 20), rng.randrange(0, 150)])}
    f = {"kind": k, "frac": rng.random(), "keep": rng.choice([0.0, rng.random()])}
    if rng.random() < 0.7:
        f["aim"] = rng.random()
    if k in ("enospc", "eio") and rng.random() < 0.4:
        f["any"] = True
    return f


def place(f, ops, what, want):
    if "which" in f:
        # one of the images cannot be read back
        n = sorted(k for k in want if not k.endswith(".csv"))
        return {"kind": "read_eio", "sticky": True, "path": "image/" + n[int(f["which"] * len(n))].split("/", 1)[1]}
    if "between" in f:
        # just before one of the files that process uses first appears
        first = {}
        for o in ops:
            if any(x in o[1] for x in USED) and o[0] != "remove":
                first.setdefault(o[1], o[0])
        if not first:
            return {"kind": "crash", "op": int(f["between"] * len(ops))}
        path = sorted(first)[int(f["between"] * len(first))]
        return {"kind": "crash", "path": path, "on": [first[path]], "nth": 0}
    if "frac" not in f:
        return f
    g = dict(f)
    anywhere = g.pop("any", False) or g["kind"] == "kill_worker"
    aim = g.pop("aim", None)
    sel = [i for i, o in enumerate(ops) if any(x in o[1] for x in AIM[what]) and
           (anywhere or g["kind"] == "crash" or o[0] == "write")]
    if aim is None or not sel:
        k = g["kind"]
        if anywhere:
            g["kind"] = "crash"
        g = resolve(g, ops)
        g["kind"] = k
        return g
    # by file, as the order of the workers differs from run to run
    g.pop("frac")
    files = sorted({ops[i][1] for i in sel})
    path = files[int(aim * len(files))]
    sel = [i for i in sel if ops[i][1] == path]
    i = sel[int(aim * 7919) % len(sel)]
    g.update(path=path, on=[ops[i][0]], nth=sum(1 for o in ops[:i] if o[0] == ops[i][0] and path in o[1]))
    return g


def at(f, ops):
    if "nth" in f:
        return "%s at %s %d of %s" % (f["kind"], f["on"][0], f["nth"] + 1, f["path"])
    if "op" not in f:
        return "%s at read %s" % (f["kind"], f.get("rop", f.get("path")))
    i = f["op"]
    return "%s at file operation %d (%s)" % (f["kind"], i, " ".join(map(str, ops[i])) if i < len(ops) else "?")


class P14(Base):
    """Interrupted or failing correct_images."""
    id = "P14"

    def generate(self, rng, tier, seed):
        what = rng.choice(["parse", "process"])
        metric = rng.choice(["altitude", "uniform"]) if what == "parse" else None
        spec = ci.random_spec(rng, metric=metric, ndives=rng.choice([1, 1, 2]) if what == "parse" else 1)
        spec["dark"] = 0
        if what == "process":
            for d in spec["dives"]:
                d["alts"] = d["alts"][:14]
                d["lost"] = [k for k in d["lost"] if k < 14]
        p = {"what": what, "spec": spec, "params": rng.randrange(1 << 30), "step": step(rng, spec, what),
             "fault": rand_fault(rng, what), "old": rng.random() < (0.75 if what == "parse" else 0.3), "env": rand_env(rng)}
        if p["old"]:
            p["step"] = forced(p["step"])
        return p

    def wanted(self, ctx, plan):
        t = all_results(plan["spec"], ctx.root)
        if plan["what"] == "parse":
            return {k: v for k, v in t.items() if k.endswith(USED)}
        return images(t)

    def execute(self, ctx, plan):
        spec, st, what = plan["spec"], plan["step"], plan["what"]
        if not (enough(spec) if what == "parse" else all(ci.eligible(spec, spec["dives"][0], c, "process") for c in spec["cams"])):
            ctx.note("too_few")
            return
        ci.build(spec, ctx.root)
        if what == "process":
            put_params(spec, spec["dives"][0], ctx.root, plan["params"])
        ctx.save("start")
        ref = ctx.run(fixed(st))
        if not ok_exit(ref):
            ctx.violate("fails/" + exc_key(ref), "%s of an intact dive ended with %s" % (what, brief(ref)) + ctx.out(400))
            return
        want = self.wanted(ctx, plan)
        ctx.load("start")
        if plan["old"]:
            # results of the same configuration from other inputs
            if what == "parse":
                for i, d in enumerate(spec["dives"]):
                    put_params(spec, d, ctx.root, plan["params"] + i)
            else:
                put_params(spec, spec["dives"][0], ctx.root, plan["params"] + 1)
                ctx.run(fixed(st))
                put_params(spec, spec["dives"][0], ctx.root, plan["params"])
        old = all_results(spec, ctx.root)
        ops = ref["oplog"]
        plan["fault"] = place(plan["fault"], ops, what, want)
        st["faults"] = [plan["fault"]]
        rep = ctx.run(st)
        w = at(plan["fault"], ops)
        if rep["status"] in ("deadlock", "livelock"):
            ctx.violate("hang", "%s never ends after %s: %s" % (what, w, brief(rep)))
            return
        if ok_exit(rep):
            d = diff_tree(want, self.wanted(ctx, plan))
            if d:
                ctx.violate("silent/" + what, "%s ended with status 0 although %s; result: %s" % (what, w, "; ".join(d[:3])) + ctx.out(300))
                return
            if rep.get("fired", {}).get("read_eio_sticky"):
                ctx.violate("unreadable", "process ended with status 0 although an image it wrote could not be read back: " + w)
                return
            ctx.note("harmless")
        else:
            ctx.note("stopped")
        if what == "parse" and not self.not_mixed(ctx, plan, want, old, w):
            return
        retry = {"prog": "correct_images", "argv": [a for a in st["argv"] if a != "-F"], "max_jumps": MAX_JUMPS,
                 "sched": {"policy": "default"}}
        retry.update(plan["env"])
        before = all_results(spec, ctx.root)
        rep = ctx.run(retry)
        if rep["status"] != "exit":
            ctx.violate("retry-hang", "%s after a failure: %s" % (what, brief(rep)))
            return
        if ok_exit(rep):
            d = diff_tree(want, self.wanted(ctx, plan))
            if d:
                ctx.violate("retry-silent", "%s after %s; run again it ended with status 0 but the results are not complete: %s" % (
                    what, w, "; ".join(d[:3])))
                return
            ctx.note("completed")
        else:
            ctx.note("refused")
            now = all_results(spec, ctx.root)
            bad = [k for k in before if now.get(k) != before[k]]
            if bad:
                ctx.violate("refuse-changes", "%s refused to overwrite but changed results: %s" % (what, bad[:3]))
                return
        rep = ctx.run(forced(retry))
        if not ok_exit(rep):
            ctx.violate("force-fails/" + exc_key(rep), "%s -F after %s ended with %s" % (what, w, brief(rep)) + ctx.out(400))
            return
        d = diff_tree(want, self.wanted(ctx, plan))
        if d:
            ctx.violate("force-differs", "%s -F after %s gave other results than without the failure: %s" % (what, w, "; ".join(d[:3])))

    def not_mixed(self, ctx, plan, want, old, w):
        """process takes the old parameters, the new ones, or none"""
        spec = plan["spec"]
        have = all_results(spec, ctx.root)
        ctx.save("after")
        for i, dive in enumerate(spec["dives"]):
            if not all(ci.eligible(spec, dive, c, "process") for c in spec["cams"]):
                continue
            pr = {"prog": "correct_images", "argv": ["process"] + self.suffix(spec) + [ci.dive_dir("@", "raw", dive)],
                  "max_jumps": MAX_JUMPS, "sched": {"policy": "default"}}
            pr.update(plan["env"])
            rep = ctx.run(pr)
            if not ok_exit(rep):
                continue
            for cam in spec["cams"]:
                u = used(have, dive, cam)
                if u != used(want, dive, cam) and u != used(old, dive, cam):
                    ctx.violate("mixed", "parse%s stopped by %s; process then accepts parameters of camera %s that no complete parse "
                                "wrote: %s" % (" -F" if plan["old"] else "", w, cam["name"], "; ".join(diff_tree(used(want, dive, cam), u)[:3])))
                    return False
            if not check_images(ctx, spec, dive, ctx.root):
                return False
        ctx.load("after")
        return True

    @staticmethod
    def suffix(spec):
        return ["--suffix", spec["cfg"]["suffix"]] if spec["cfg"].get("suffix") else []

    def shrink(self, plan):
        if plan["old"]:
            c = copy.deepcopy(plan)
            c["old"] = False
            yield c
        yield from super().shrink(plan)


# ------------------------------------------------------------------ existing results, raw data
def below(root, part, only=None):
    out = {}
    for k, v in tree(os.path.join(root, part)).items():
        if v != "d" and "/log/" not in k:
            out[k] = v
    return out


class P15(Base):
    """Existing images, parameters, raw data and navigation stay as they are."""
    id = "P15"

    def generate(self, rng, tier, seed):
        method = "manual_balance" if rng.random() < 0.1 else "colour_correction"
        spec = ci.random_spec(rng, metric=rng.choice(["altitude", "uniform", "uniform", "uniform"]), ndives=rng.choice([1, 2, 2]),
                              method=method)
        spec["dark"] = 0
        cmds = []
        for _ in range(rng.choice([2, 3, 4])):
            k = rng.choice(["parse", "parse", "process", "process", "correct"])
            dives = spec["dives"][:]
            rng.shuffle(dives)
            if k != "parse" or rng.random() < 0.5:
                dives = dives[:1]
            st = step(rng, spec, k, dives, force=rng.random() < 0.3)
            if rng.random() < 0.3:
                f = rand_fault(rng)
                if "frac" in f:
                    f["op"] = int(f.pop("frac") ** 2 * 300)
                f.pop("aim", None)
                f.pop("any", None)
                st["faults"] = [f]
            if rng.random() < 0.4:
                st["conf"] = {"brightness": rng.choice([20, 30, 45]), "process": [round(spec["cfg"]["parse"][0] - 0.3, 2),
                                                                                 spec["cfg"]["parse"][1]]}
            cmds.append(st)
        return {"spec": spec, "cmds": cmds, "have": rng.choice(["none", "params", "params", "both"]), "params": rng.randrange(1 << 30)}

    def execute(self, ctx, plan):
        spec = plan["spec"]
        ci.build(spec, ctx.root)
        if plan["have"] != "none" and spec["cfg"]["method"] == "colour_correction":
            for i, d in enumerate(spec["dives"]):
                if i == 0 or plan["have"] == "both":
                    put_params(spec, d, ctx.root, plan["params"] + i)
        fixed_parts = {}
        for part in ("raw", "configuration"):
            fixed_parts[part] = below(ctx.root, part)
        nav = {k: v for k, v in below(ctx.root, "processed").items() if "/image/" not in k}
        have = {k: v for k, v in below(ctx.root, "processed").items() if "/image/" in k}
        for st in plan["cmds"]:
            if st.get("conf"):
                # the user edits the configuration
                s2 = copy.deepcopy(spec)
                s2["cfg"].update(st["conf"])
                for d in spec["dives"]:
                    ci.dump_yaml(os.path.join(ci.dive_dir(ctx.root, "configuration", d), ci.conf_name(spec)), ci.config(s2, d))
                fixed_parts["configuration"] = below(ctx.root, "configuration")
            rep = ctx.run(st)
            if rep["status"] in ("deadlock", "livelock"):
                ctx.violate("hang", "%s: %s" % (st["argv"][0], brief(rep)))
                return
            ctx.note("ok" if ok_exit(rep) else "not_ok")
            cmd = " ".join(st["argv"])
            for part, was in fixed_parts.items():
                now = below(ctx.root, part)
                bad = diff_tree(was, now) if part == "raw" else [k for k in was if now.get(k) != was[k]]
                if bad:
                    ctx.violate(part + "/" + st["argv"][0], "%s (%s) changed %s: %s" % (cmd, brief(rep), part, bad[:4]))
                    return
            now = below(ctx.root, "processed")
            bad = [k for k in nav if now.get(k) != nav[k]]
            if bad:
                ctx.violate("nav/" + st["argv"][0], "%s (%s) changed the navigation results: %s" % (cmd, brief(rep), bad[:4]))
                return
            now = {k: v for k, v in now.items() if "/image/" in k}
            if "-F" in st["argv"]:
                # only what the command is about
                mine = [k for k in have if now.get(k) != have[k] and not self.about(st, k)]
                if mine:
                    ctx.violate("other/" + st["argv"][0], "%s (%s) changed results it is not about: %s" % (cmd, brief(rep), mine[:4]))
                    return
                have = now
                continue
            bad = [k for k in have if now.get(k) != have[k]]
            if bad:
                ctx.violate("changed/" + st["argv"][0], "%s without -F (%s) changed or removed existing results: %s" % (cmd, brief(rep), bad[:4]))
                return
            if ok_exit(rep):
                have = now

    @staticmethod
    def about(st, k):
        """-F of parse renews parameters, of process images, of the named dives"""
        cmd = st["argv"][0]
        if not any(os.path.basename(a) in k.split("/") for a in st["argv"] if a.startswith("@/raw")):
            return False
        n = k.split("/image/")[1].split("/")
        return (cmd != "process" and n[1].startswith("params_")) or (cmd != "parse" and n[1].startswith("corrected_"))


PROPS = {p.id: p for p in (P12(), P13(), P14(), P15())}
