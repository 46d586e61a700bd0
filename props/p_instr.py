"""Dives of other vehicles: all the instrument formats `auv_nav parse` reads."""
import copy

from worlds import instr, nav
from .common import brief, exc_key, ok_exit, parse_step, resolve
from .p_parse import check_nav


class P19:
    """Every supported instrument format: each reading once, right value, right UTC time."""
    id = "P19"
    need = set()

    def generate(self, rng, tier, seed):
        n = 2 if rng.random() < 0.35 else 1
        specs = [instr.random_spec(rng, i) for i in range(n)]
        if n == 2 and rng.random() < 0.5:
            # a second dive of the same vehicle, the next day
            a = specs[0]
            b = copy.deepcopy(a)
            b["seed"] = rng.randrange(1 << 30)
            b["t0"] = a["t0"] + 86400
            b["dive"] = a["dive"] + "_2"
            specs[1] = b
        p = {"specs": specs, "step": parse_step(rng, [nav.raw_dir("@", s) for s in specs], force=rng.random() < 0.3), "fault": None}
        if rng.random() < 0.4:
            # a log that cannot be read, or a result that cannot be written
            k = rng.choice(["read_eio", "read_eio", "eio", "enospc", "short", "crash"])
            if k == "read_eio":
                p["fault"] = {"kind": k, "path": "raw/", "nth": rng.choice([rng.randrange(12), rng.randrange(60)])}
            else:
                p["fault"] = {"kind": k, "frac": rng.random(), "keep": rng.choice([0.0, rng.random()])}
                if rng.random() < 0.6:
                    p["fault"]["aim"] = rng.random()
        return p

    def execute(self, ctx, plan):
        exps = [instr.build(s, ctx.root) for s in plan["specs"]]
        for s in plan["specs"]:
            for c, p in s["parts"].items():
                ctx.note("%s_%s" % (p["fmt"], c))
        if len(exps) > 1:
            ctx.note("several_dives")
        if any(len(e) > 1 for e in exps):
            ctx.note("nontrivial")
        if plan.get("fault"):
            ctx.save("start")
        rep = ctx.run(plan["step"])
        if not ok_exit(rep):
            ctx.violate("parse-fails/" + exc_key(rep), "parse of %s ended with %s" % (
                sorted({p["fmt"] for s in plan["specs"] for p in s["parts"].values()}), brief(rep)) + ctx.out(600))
            return
        for i, (s, e) in enumerate(zip(plan["specs"], exps)):
            check_nav(ctx, s, e, ctx.root, tag="/second" if i else "")
        if not plan.get("fault") or ctx.violations:
            return
        ctx.load("start")
        f = plan["fault"] = resolve(plan["fault"], rep["oplog"], ["nav_standard"])
        rep = ctx.run(dict(plan["step"], faults=[dict(f)]))
        if rep["status"] in ("deadlock", "livelock"):
            ctx.violate("hang", "parse never ends after %s" % f)
        elif ok_exit(rep):
            ctx.note("harmless")
            for i, (s, e) in enumerate(zip(plan["specs"], exps)):
                check_nav(ctx, s, e, ctx.root, tag="/fault")
        else:
            ctx.note("stopped")

    def shrink(self, plan):
        n = len(plan["specs"])
        if plan.get("fault"):
            c = copy.deepcopy(plan)
            c["fault"] = None
            yield c
        if n > 1:
            for i in range(n):
                c = copy.deepcopy(plan)
                del c["specs"][i]
                c["step"]["argv"] = [a for a in c["step"]["argv"] if a != nav.raw_dir("@", plan["specs"][i])]
                yield c
        for i in range(n):
            for k in list(plan["specs"][i]["parts"]):
                if len(plan["specs"][i]["parts"]) > 1:
                    c = copy.deepcopy(plan)
                    del c["specs"][i]["parts"][k]
                    # EIVA needs the usbl entry to find its depth
                    if k == "usbl" and c["specs"][i]["parts"].get("depth", {}).get("fmt") == "eiva_navipac":
                        continue
                    yield c
            for k, p in plan["specs"][i]["parts"].items():
                if p["n"] > 5:
                    c = copy.deepcopy(plan)
                    c["specs"][i]["parts"][k]["n"] = 5
                    c["specs"][i]["parts"][k]["files"] = 1
                    yield c


PROPS = {p.id: p for p in (P19(),)}
