"""C17: the simulation boundary of 3D scenes."""
import copy, re

import scenes
from common import *
from engine import Skip, Violation
from props_contact import Contacts, Motion, World, mv, v9
from props_model import configs, drop_env, events
from props_phys import Frame

FAR = 1.0e9


def extents(W, A, i):
    """smallest axis-aligned box around body i"""
    kind, geo = W.shape[i]
    x = A.x[i]
    if kind == "round":
        return [c - geo for c in x], [c + geo for c in x]
    q = A.rest[i][3:]
    R = [q[0:3], q[3:6], q[6:9]]
    if kind == "box":
        pts = [[a * geo[0], b * geo[1], c * geo[2]] for a in (-1, 1) for b in (-1, 1) for c in (-1, 1)]
    else:
        pts = geo.hull
    P = [mv(R, p) for p in pts]
    return [x[c] + min(p[c] for p in P) for c in range(3)], [x[c] + max(p[c] for p in P) for c in range(3)]


class Boundary(Prop):
    id = "C17"
    sims = ["rb3d"]
    rule = ("one case = one generated 3D scene run without a boundary and again with a boundary placed so that a seeded body passes a seeded face "
            "in a seeded step, or none does, over histories assembled by killed and resumed processes; non-trivial = the boundary decides "
            "something; distinct = different complete event history")

    def gen(self, r):
        k = r.random()
        if k < 0.5:
            g = Motion()
            g.sims = ["rb3d"]
            s = g.gen(r)["scene"]
        elif k < 0.75:
            s = Contacts().cloud(r, "rb3d")
        else:
            s = scenes.GEN["rb3d"](r, {"impact_kinds": ["lcp", "gr"], "penalty": False}, 5)
            s["misc"] = [m for m in s["misc"] if "simulation_boundary" not in m]
        s["end"] = scenes.n(r.choice([2, 3, 5, 8]) * scenes.dt_value(s))
        s["opts"].update(o=1, i=r.choice([0, 0, 1]), f=None, s=r.choice([None, 1, 1]), e=None)
        s["script"] = None
        if len(s["bodies"]) > 8:
            del s["bodies"][8:]
            s["nb"] = 8
        if r.random() < 0.4:
            s["script"] = ["cb startOfStep", "cb endOfStep", "cb endOfSim"]
        return {"scene": s, "env": rand_env(r), "behave": r.choice(["exit", "exit", "exit", "exit", "exit", "none"]),
                "faces": [[r.randrange(6), r.randrange(1 << 16), r.choice([0.5, 0.5, 0.02, 0.98])] for _ in range(r.choice([1, 1, 1, 2]))],
                "others": r.choice(["far", "near", "near"]), "kill": r.randrange(1 << 16) if r.random() < 0.4 else None}

    def execute(self, ctx, plan):
        s = plan["scene"]
        base, T = baseline(ctx, s, plan["env"])
        C = {k: Frame("rb3d", h) for k, h in configs(T).items() if h is not None}
        W = World(s)
        n = max(C)
        if sorted(C) != list(range(n + 1)) or n < 2:
            raise Skip("too few frames")
        box = {k: [extents(W, C[k], i) for i in range(C[k].n)] for k in C}
        lo = {k: [min(b[0][c] for b in box[k]) for c in range(3)] for k in box}
        hi = {k: [max(b[1][c] for b in box[k]) for c in range(3)] for k in box}
        scale = 1 + max(abs(x) for k in box for c in range(3) for x in (lo[k][c], hi[k][c]))
        if not scale < 1e6:
            raise Skip("bodies too far away")
        # faces that nothing reaches, then the ones to be passed
        m = 0.01 * scale if plan["others"] == "near" else FAR
        mn = [min(lo[k][c] for k in lo) - m for c in range(3)]
        mx = [max(hi[k][c] for k in hi) + m for c in range(3)]
        for face, at, f in plan["faces"]:
            c = face % 3
            j = 1 + at % n
            if face < 3:
                run = min(lo[k][c] for k in range(1, j)) if j > 1 else lo[j][c] + 0.2
                x = run + (lo[j][c] - run) * f if lo[j][c] < run else run - 0.3 * scale
                mn[c] = max(mn[c], x)
            else:
                run = max(hi[k][c] for k in range(1, j)) if j > 1 else hi[j][c] - 0.2
                x = run + (hi[j][c] - run) * f if hi[j][c] > run else run + 0.3 * scale
                mx[c] = min(mx[c], x)
        mn, mx = [float("%.15g" % x) for x in mn], [float("%.15g" % x) for x in mx]
        if any(a >= b for a, b in zip(mn, mx)):
            raise Skip("empty boundary")
        stop = None
        for k in range(1, n + 1):
            gap = min([lo[k][c] - mn[c] for c in range(3)] + [mx[c] - hi[k][c] for c in range(3)])
            if abs(gap) < 1e-9 * scale:
                raise Skip("a body exactly on the boundary")
            if gap < 0:
                stop = k
                break
        if plan["behave"] == "none":
            stop = None
        t = copy.deepcopy(s)
        t["misc"].append('<simulation_boundary violation_behavior="%s" min="%s" max="%s"/>' %
                         (plan["behave"], " ".join("%.15g" % x for x in mn), " ".join("%.15g" % x for x in mx)))
        ctx.stats["boundary_crossed" if stop else "boundary_respected"] += 1
        r = start(ctx, t, plan["env"])
        t1 = ctx.world.tree()
        ctx.state(t1)
        what = "boundary %s to %s (%s)" % (mn, mx, plan["behave"])
        v = self.verify(r, T, t1, stop, what, "run")
        if v or plan["kill"] is None or s["opts"]["s"] != 1:
            return v
        # the same decision after a kill and a resume
        ops = r.ops()
        start(ctx, t, plan["env"], [[ops[plan["kill"] % len(ops)][0], "crash_before", 0, 0]])
        ks = frames_of(ctx.world.tree(), "serial")
        if len(ks) < 2:
            return None
        r = resume(ctx, t, snapshot_rel(t1, ks[-2]), plan["env"])
        ctx.stats["assembled_histories"] += 1
        return self.verify(r, T, ctx.world.tree(), stop, what, "run resumed from frame %d" % ks[-2], ks[-2])

    def verify(self, r, T, t, stop, what, who, first=0):
        if stop is None:
            if not r.ok():
                return Violation("stopped_without_reason", "%s: every body stays inside, but the %s ends with %s: %s" % (what, who, r.outcome(), r.log.strip()[-160:]))
        elif not r.clean_failure():
            return Violation("boundary_ignored", "%s: a body is outside after step %d, but the %s ends with %s" % (what, stop, who, r.outcome()))
        want = {k: x for k, x in T.items() if classify(k) and classify(k)[0] == "config" and (stop is None or classify(k)[1] < stop)}
        have = {k: x for k, x in t.items() if classify(k) and classify(k)[0] == "config"}
        d = diff(want, have)
        if d:
            return Violation("boundary_ignored" if stop is not None and "should not" in d else "boundary_changes_run", "%s, %s, first body outside after step %s: %s" % (what, who, stop, d))
        for k, x in t.items():
            c = classify(k)
            if c and c[0] == "forces" and c[1] < (stop - 1 if stop else FAR) and T.get(k) != x:
                return Violation("boundary_changes_run", "%s: the contact forces %s of the %s differ" % (what, k, who))
            if c and c[0] in ("forces", "serial") and stop is not None and c[1] >= stop:
                return Violation("boundary_ignored", "%s: a body is outside after step %d, but the %s writes %s" % (what, stop, who, k))
        if stop is not None:
            late = [w for _, w in events(r) if w[0] == "begin" and (w[1] == "endOfSim" or w[1] == "endOfStep" and int(w[2]) >= stop or w[1] == "startOfStep" and int(w[2]) > stop)]
            if late:
                return Violation("boundary_ignored", "%s: a body is outside after step %d, but the %s goes on to call %s" % (what, stop, who, " ".join(late[0][1:])))
        return None

    def shrink(self, plan):
        for k in ("kill",):
            if plan[k] is not None:
                q = copy.deepcopy(plan)
                q[k] = None
                yield q
        yield from drop_env(plan)
        if len(plan["faces"]) > 1:
            for i in range(len(plan["faces"])):
                q = copy.deepcopy(plan)
                del q["faces"][i]
                yield q
        yield from Prop.shrink(self, plan)


PROPS = {"C17": Boundary()}
