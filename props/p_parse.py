"""Properties of `auv_nav parse`."""
import copy
import os
import random

from worlds import nav
from opsim.ctx import tree, diff_tree
from .common import (brief, exc_key, load_json, nav_path, ok_exit, order_problem, parse_step, plain, rand_crash,
                     rand_env, rand_sched, resolve, shrink_spec)


def check_nav(ctx, spec, exp, root, tag=""):
    p = nav_path(root, spec)
    if not os.path.exists(p):
        ctx.violate("no-output" + tag, "parse reported success but there is no navigation file" + ctx.out(600))
        return None
    try:
        raw = load_json(p)
    except ValueError as e:
        ctx.violate("bad-json" + tag, "navigation file is not valid JSON: %s" % e)
        return None
    got = [nav.flatten(r) for r in raw]
    d = nav.compare(exp, got)
    if d:
        ctx.violate("records" + tag, "%d differences, e.g. %s" % (len(d), "; ".join(d[:3])))
    o = order_problem(raw)
    if o:
        ctx.violate("order" + tag, o)
    return raw


def nav_state(spec, root, exps):
    """'absent', 'torn', index of the expectation it satisfies, or a difference"""
    p = nav_path(root, spec)
    if not os.path.exists(p):
        return "absent", ""
    try:
        raw = load_json(p)
        got = [nav.flatten(r) for r in raw]
    except (ValueError, KeyError, TypeError) as e:
        return "torn", "not readable: %s" % e
    why = ""
    for i, e in enumerate(exps):
        d = nav.compare(e, got)
        o = order_problem(raw)
        if not d and not o:
            return i, ""
        why = (d[:2] or [o])[0]
    return "partial", why


class Base:
    need = set()

    def shrink(self, plan):
        for key in ("spec", "spec2"):
            if key in plan and plan[key]:
                for s in shrink_spec(plan[key]):
                    c = copy.deepcopy(plan)
                    c[key] = s
                    yield c


class P01(Base):
    """Every sensor reading exactly once, right value, right UTC time, in time order."""
    id = "P01"

    def generate(self, rng, tier, seed):
        spec = nav.random_spec(rng, small=(tier == "quick" or rng.random() < 0.7))
        return {"spec": spec, "step": parse_step(rng, [nav.raw_dir("@", spec)], force=rng.random() < 0.3)}

    def execute(self, ctx, plan):
        spec = plan["spec"]
        exp = nav.build(spec, ctx.root)
        rep = ctx.run(plan["step"])
        if not ok_exit(rep):
            ctx.violate("parse-fails/" + exc_key(rep), "parse of an intact dive ended with " + brief(rep) + ctx.out(600))
            return
        check_nav(ctx, spec, exp, ctx.root)


# ------------------------------------------------------------------ damage
def line_ok(text):
    """independent packet check: $ body * XOR"""
    parts = text.strip().split("*")
    if len(parts) != 2:
        return False
    body = parts[0].strip()
    if body.split(",")[0] not in ("$PIXSE", "$HEHDT"):
        return False
    return nav.xsum(body[1:]) == parts[1].upper()


def apply_damage(lines, hits):
    """hits: [kind, position 0..1, number]; returns lines with damaged text.

    A damaged line keeps its meaning only if it is still an intact packet."""
    out = [[t, m, False] for t, m in lines]
    known = {t.strip(): m for t, m in lines}
    for kind, pos, num in hits:
        if not out:
            break
        i = int(pos * len(out)) % len(out)
        t = out[i][0]
        r = random.Random(num)
        if kind == "flip" and len(t) > 2:
            j = r.randrange(len(t))
            c = chr((ord(t[j]) ^ (1 << r.randrange(7))) & 0x7F)
            if c in "\r\n\x0b\x0c\x1c\x1d\x1e\x85" or c == t[j]:
                c = "~"
            out[i] = [t[:j] + c + t[j + 1:], out[i][1], True]
        elif kind == "cut" and len(t) > 2:
            out[i] = [t[:r.randrange(1, len(t))], out[i][1], True]
        elif kind == "head" and len(t) > 2:
            out[i] = [t[r.randrange(1, len(t)):], out[i][1], True]
        elif kind == "nosum":
            out[i] = [t.split("*")[0], out[i][1], True]
        elif kind == "badsum":
            b = t.split("*")[0]
            out[i] = [b + "*%02X" % ((int(nav.xsum(b[1:]), 16) + r.randrange(1, 255)) & 0xFF), out[i][1], True]
        elif kind == "join" and i + 1 < len(out):
            out[i] = [t + out[i + 1][0], None, True]
            del out[i + 1]
        elif kind == "drop":
            del out[i]
        elif kind == "junk":
            out.insert(i, ["".join(chr(r.randrange(33, 126)) for _ in range(r.randrange(1, 40))), None, True])
        elif kind == "blank":
            out.insert(i, ["", None, True])
        elif kind == "swap":
            j = r.randrange(2, len(t))
            k = r.randrange(2, len(t))
            a, b = min(j, k), max(j, k)
            if a != b:
                out[i] = [t[:a] + t[b] + t[a + 1:b] + t[a] + t[b + 1:], out[i][1], True]
    res = []
    for t, m, touched in out:
        if touched:
            if not line_ok(t):
                res.append((t, None))
            elif t.strip() in known:
                res.append((t, known[t.strip()]))      # e.g. joined with a blank line: still intact
            # otherwise an undetectable change (compensating errors): leave the line out
        else:
            res.append((t, m))
    return res


class P02(Base):
    """A damaged packet costs only itself."""
    id = "P02"
    KINDS = ["flip", "flip", "cut", "cut", "head", "nosum", "badsum", "join", "drop", "junk", "blank"]

    def generate(self, rng, tier, seed):
        spec = nav.random_spec(rng, small=True)
        spec["has"] = [x for x in spec["has"] if x != "tide" or rng.random() < 0.3]
        kinds = rng.sample(self.KINDS, rng.randrange(1, 5))
        n = rng.choice([1, 1, 2, 5, 20, 60])
        hits = [[rng.choice(kinds), rng.random(), rng.randrange(1 << 30)] for _ in range(n)]
        eof = rng.random() if rng.random() < 0.3 else None
        return {"spec": spec, "hits": hits, "eof": eof, "step": parse_step(rng, [nav.raw_dir("@", spec)])}

    def execute(self, ctx, plan):
        spec = plan["spec"]

        def damage(lines):
            # the first time message stays: what precedes it has no time of its own
            ls = lines[:1] + apply_damage(lines[1:], plan["hits"])
            if plan["eof"] is not None and len(ls) > 1:
                # the logger stopped in the middle of a line
                i = 1 + int(plan["eof"] * (len(ls) - 1))
                ls = ls[:i + 1]
                t, m = ls[-1]
                k = int(plan["eof"] * 7919) % max(1, len(t))
                ls[-1] = (t[:k], m if k == len(t) else None)
            return ls
        exp = nav.build(spec, ctx.root, damage=damage)
        for h in plan["hits"]:
            ctx.note("damage_" + h[0])
        ctx.note("nontrivial")
        rep = ctx.run(plan["step"])
        if not ok_exit(rep):
            ctx.violate("parse-fails/" + exc_key(rep), "parse of a log with damaged packets ended with " + brief(rep))
            return
        check_nav(ctx, spec, exp, ctx.root)

    def shrink(self, plan):
        if plan["eof"] is not None:
            c = copy.deepcopy(plan)
            c["eof"] = None
            yield c
        n = len(plan["hits"])
        if n > 1:
            for part in (plan["hits"][:n // 2], plan["hits"][n // 2:]):
                c = copy.deepcopy(plan)
                c["hits"] = part
                yield c
        if n <= 6:
            for i in range(n):
                c = copy.deepcopy(plan)
                del c["hits"][i]
                yield c
        yield from super().shrink(plan)


# ------------------------------------------------------------------ crash
class P03(Base):
    """After a crash at any point the navigation file is absent, the previous one or the new one, whole."""
    id = "P03"

    def generate(self, rng, tier, seed):
        spec = nav.random_spec(rng, small=True)
        step = parse_step(rng, [nav.raw_dir("@", spec)])
        plan = {"spec": spec, "step": step, "crash": rand_crash(rng), "again": []}
        plan["old"] = rng.random() < 0.5       # an older parse exists; the interrupted one is forced
        if plan["old"]:
            step["argv"].insert(1, "-F")
        for _ in range(rng.choice([0, 0, 1])):
            plan["again"].append(rand_crash(rng))
        plan["retry"] = rand_env(rng)
        plan["force_retry"] = rng.random() < 0.5
        return plan

    def execute(self, ctx, plan):
        spec = plan["spec"]
        exps = []
        if plan["old"]:
            spec0 = copy.deepcopy(spec)
            spec0["dur"] = max(8, spec["dur"] // 2)
            exps.append(nav.build(spec0, ctx.root))
            r = ctx.run(plain(plan["step"]), clock=1_500_000_000.0)
            if not ok_exit(r):
                ctx.violate("parse-fails/" + exc_key(r), brief(r))
                return
        exp = nav.build(spec, ctx.root)
        exps.append(exp)
        ctx.save("start")
        ref = ctx.run(plain(plan["step"]))
        if not ok_exit(ref):
            ctx.violate("parse-fails/" + exc_key(ref), brief(ref))
            return
        check_nav(ctx, spec, exp, ctx.root, "/clean")
        ops = ref["oplog"]
        ctx.load("start")
        step = plan["step"]
        for n, c in enumerate([plan["crash"]] + plan["again"]):
            cf = resolve(c, ops, aim=["nav_standard", "/nav/"])
            c.clear()
            c.update(cf)
            st = copy.deepcopy(step)
            st["faults"] = [cf]
            st["clock"] = step["clock"] + 1000.0 * n
            if n:
                st["sched"] = {"policy": "default"}
            rep = ctx.run(st)
            if n == 0:
                step["sched"].update({k: v for k, v in st["sched"].items() if k == "recorded"})
            state, why = nav_state(spec, ctx.root, exps)
            if state in ("torn", "partial"):
                ctx.violate("crash-leaves-" + state, "after a crash at file operation %s (%s) the navigation file is %s: %s"
                            % (cf.get("op"), " ".join(map(str, (rep["oplog"] or [["?"]])[-1])), state, why))
                return
            ctx.note("state_%s" % state)
        argv = [a for a in step["argv"] if a != "-F"]
        if plan["force_retry"] or plan["old"]:
            argv.insert(1, "-F")
        retry = {"prog": "auv_nav", "argv": argv, "sched": {"policy": "default"}}
        retry.update(plan["retry"])
        rep = ctx.run(retry)
        if not ok_exit(rep):
            ctx.violate("retry-fails/" + exc_key(rep), "parse after a crash ended with " + brief(rep) + ctx.out(500))
            return
        check_nav(ctx, spec, exp, ctx.root, "/retry")

    def shrink(self, plan):
        if plan["again"]:
            c = copy.deepcopy(plan)
            c["again"] = []
            yield c
        yield from super().shrink(plan)


# ------------------------------------------------------------------ several dives
def prefixed(exp, spec):
    out = []
    for r in exp:
        if r["category"] == "origin":
            continue
        r = dict(r)
        r["dive"] = spec["dive"]
        out.append(r)
    return out


class P04(Base):
    """Several dives in one command: each as if alone; the merge is the union."""
    id = "P04"

    def generate(self, rng, tier, seed):
        n = rng.choice([2, 2, 3])
        specs = []
        base = nav.random_spec(rng, small=True)
        for i in range(n):
            s = nav.random_spec(rng, small=True)
            s["origin"] = base["origin"]
            s["dur"] = rng.choice([10, 15, 20])
            s["t0"] = base["t0"] + i * rng.choice([60, 600, 3000])
            s["place"] = "cruise"
            s["tz"]["nav"] = base["tz"]["nav"]
            s["toff"]["nav"] = base["toff"]["nav"]
            z = nav.tz_h(s["tz"]["nav"])
            if nav.local(s["t0"] - 10, z, 0).date() != nav.local(s["t0"] + 60, z, 0).date():
                s["t0"] += 200.0
            s["dive"] = nav.iso(s["t0"]).strftime("%Y%m%d_%H%M%S_") + "d%d" % i
            specs.append(s)
        rng.shuffle(specs)
        merge = rng.random() < 0.6
        step = parse_step(rng, [nav.raw_dir("@", s) for s in specs], merge=merge, force=rng.random() < 0.3)
        pre = rng.random() < 0.25       # one of them was parsed before
        return {"specs": specs, "step": step, "merge": merge, "pre": pre}

    def execute(self, ctx, plan):
        specs = plan["specs"]
        exps = [nav.build(s, ctx.root) for s in specs]
        if plan["pre"]:
            r = ctx.run({"prog": "auv_nav", "argv": ["parse", nav.raw_dir("@", specs[-1])],
                         "sched": {"policy": "default"}})
            if not ok_exit(r):
                ctx.violate("parse-fails/" + exc_key(r), brief(r))
                return
        rep = ctx.run(plan["step"])
        if not ok_exit(rep):
            ctx.violate("parse-fails/" + exc_key(rep),
                        "parse of %d dives%s ended with %s" % (len(specs), " with merge" if plan["merge"] else "",
                                                               brief(rep)) + ctx.out(400))
            return
        for s, e in zip(specs, exps):
            check_nav(ctx, s, e, ctx.root, "/single")
        if plan["merge"]:
            import datetime
            ds = sorted(datetime.datetime.strptime(s["dive"][:15], "%Y%m%d_%H%M%S") for s in specs)
            name = ds[0].strftime("%Y%m%d%H%M%S") + "_" + ds[-1].strftime("%Y%m%d%H%M%S") + "_merged"
            m = {"place": "cruise", "dive": name}
            exp = [r for s, e in zip(specs, exps) for r in prefixed(e, s)]
            exp.append([r for r in exps[0] if r["category"] == "origin"][0])
            raw = check_nav(ctx, m, exp_nodive(exp), ctx.root, "/merged")
            if raw is not None:
                self.check_prefix(ctx, raw, exp)

    def check_prefix(self, ctx, raw, exp):
        """image names in the merged file name the dive they come from"""
        from collections import Counter
        want = Counter()
        for r in exp:
            for c in ("camera1", "camera2"):
                if c in r:
                    want[(r["dive"], r[c])] += 1
        got = Counter()
        for r in raw:
            for c in ("camera1", "camera2"):
                if c in r:
                    fn = r[c][0]["filename"]
                    got[(fn.split("/")[0], os.path.basename(fn))] += 1
        if want != got:
            d = list((want - got).items())[:2] + list((got - want).items())[:2]
            ctx.violate("prefix/merged", "image names in the merged file: %s" % d)

    def shrink(self, plan):
        for i in range(len(plan["specs"])):
            if len(plan["specs"]) > 2:
                c = copy.deepcopy(plan)
                d = nav.raw_dir("@", c["specs"][i])
                del c["specs"][i]
                c["step"]["argv"].remove(d)
                yield c
            for s in shrink_spec(plan["specs"][i]):
                c = copy.deepcopy(plan)
                c["specs"][i] = s
                yield c


def exp_nodive(exp):
    return [{k: v for k, v in r.items() if k != "dive"} for r in exp]


PROPS = {p.id: p for p in (P01(), P02(), P03(), P04())}
