"""C10: script edits against an executable model of what each edit means."""
import copy, math, re

import scenes
from common import *
from engine import Skip, Violation
from props_model import GOOD_IMPACT, arr, configs, drop_env, events, forces
from props_phys import Frame, vec

SKIP_KEYS = re.compile(r"(^|/)(run_stats|time|iteration|timestep|dt)(/|$)")


def attr(xml, **kw):
    """xml element with attributes replaced"""
    for k, v in kw.items():
        xml = re.sub(r'( %s=)"[^"]*"' % k, lambda m: '%s"%s"' % (m.group(1), v), xml)
    return xml


def planes(s):
    return [i for i, x in enumerate(s["statics"]) if x.startswith("<static_plane ")]


def num(a):
    return a.split(":", 1)[1]


class Scene:
    """A scene plus the state only scripts can give it (wall motion, cylinder orientation)."""

    def __init__(self, s):
        self.s = s
        self.wall = [{} for _ in planes(s)]  # per plane: script function -> argument texts
        self.cyl = {}

    def copy(self):
        return copy.deepcopy(self)

    def apply(self, e):
        """e = [fn, arg texts...]"""
        s, fn, a = self.s, e[0], e[1:]
        if fn in ("setStaticPlanePosition", "setStaticPlaneNormal"):
            i = planes(s)[int(num(a[0]))]
            t = " ".join(num(x) for x in a[1:])
            s["statics"][i] = attr(s["statics"][i], **{"x" if "Position" in fn else "n": t})
        elif fn in ("setStaticPlaneVelocity", "setStaticPlaneAngularVelocity"):
            self.wall[int(num(a[0]))][fn] = a[1:]
        elif fn == "deleteStaticPlane":
            i = int(num(a[0]))
            del s["statics"][planes(s)[i]]
            del self.wall[i]
        elif fn == "insertBall":
            v = [num(x) for x in a]
            s["bodies"].append('<ball x="%s" y="%s" vx="%s" vy="%s" m="%s" r="%s" fixed="%s"/>' % (v[0], v[1], v[2], v[3], v[5], v[4], v[6]))
        elif fn == "addBody":
            v = [num(x) for x in a]
            s["bodies"].append('<rigid_body x="%s %s" theta="%s" v="%s %s" omega="%s" rho="%s" geo_idx="%s" fixed="%s"/>' % tuple(v))
        elif fn == "addCircleGeometry":
            s["geometry"].append('<geometry type="circle" r="%s"/>' % num(a[0]))
        elif fn == "delete_bodies":
            ids = {int(x) for x in num(a[0]).split(",") if x}
            s["bodies"] = [b for i, b in enumerate(s["bodies"]) if i not in ids]
        elif fn == "delete_geometry":
            ids = {int(x) for x in num(a[0]).split(",") if x}
            new, k = {}, 0
            for i in range(len(s["geometry"])):
                if i not in ids:
                    new[i] = k
                    k += 1
            s["geometry"] = [g for i, g in enumerate(s["geometry"]) if i not in ids]
            s["bodies"] = [attr(b, geo_idx=new[int(vec("geo_idx", b)[0])]) for b in s["bodies"]]
        elif fn == "setGravityForce":
            i = int(num(a[0]))
            s["forces"][i] = attr(s["forces"][i], f=" ".join(num(x) for x in a[1:]))
        elif fn in ("setStaticCylinderOrientation", "setStaticCylinderAngularVelocity"):
            self.cyl[fn + num(a[0])] = [fn] + a
        elif fn in ("poke", "pokev"):
            i, x = int(num(a[0])), num(a[1])
            D = 2 if s["sim"] == "ball2d" else 3
            n = len(s["bodies"])
            if s["sim"] == "ball2d":
                k = ["x", "y"] if fn == "poke" else ["vx", "vy"]
                s["bodies"][i // 2] = attr(s["bodies"][i // 2], **{k[i % 2]: x})
            else:
                k = "x" if fn == "poke" else "v" if i < 3 * n else "omega"
                b = s["bodies"][(i % (3 * n)) // 3]
                p = re.search(r' %s="([^"]*)"' % k, b).group(1).split()
                p[i % 3] = x
                s["bodies"][(i % (3 * n)) // 3] = attr(b, **{k: " ".join(p)})
        else:
            raise ValueError(fn)
        s["nb"] = len(s["bodies"])

    def residual(self):
        out = []
        for i, w in enumerate(self.wall):
            for fn in sorted(w):
                out.append("%s I:%d %s" % (fn, i, " ".join(w[fn])))
        return out + [" ".join(c) for _, c in sorted(self.cyl.items())]

    def place(self, f):
        """bodies where the recorded frame has them"""
        s = self.s
        g = lambda c: " ".join("%.17g" % x for x in c)
        for i in range(f.n):
            if s["sim"] == "ball2d":
                s["bodies"][i] = attr(s["bodies"][i], x="%.17g" % f.x[i][0], y="%.17g" % f.x[i][1], vx="%.17g" % f.v[i][0], vy="%.17g" % f.v[i][1])
            elif s["sim"] == "rb2d":
                s["bodies"][i] = attr(s["bodies"][i], x=g(f.x[i]), theta="%.17g" % f.rest[i][2], v=g(f.v[i]), omega="%.17g" % f.w[i])
            else:
                s["bodies"][i] = attr(s["bodies"][i], x=g(f.x[i]), v=g(f.v[i]), omega=g(f.w[i]))


def rand_edit(r, sc):
    """a valid edit of the current scene"""
    s = sc.s
    sim, np, nb = s["sim"], len(planes(s)), len(s["bodies"])
    N = scenes.n
    o = []
    if np:
        o += ["setStaticPlanePosition", "setStaticPlaneVelocity"]
    if sim == "ball2d":
        o += ["insertBall", "insertBall"] + (["deleteStaticPlane"] if np else []) + (["poke", "pokev"] if nb else [])
    elif sim == "rb2d":
        o += ["addBody", "addBody", "addCircleGeometry"] if s["geometry"] else ["addCircleGeometry"]
        o += ["deleteStaticPlane", "setStaticPlaneNormal", "setStaticPlaneAngularVelocity"] if np else []
        o += ["delete_bodies", "delete_bodies"] if nb else []
        if unused(s):
            o += ["delete_geometry"] * 2
    else:
        o += ["setGravityForce"] * 2 if s["forces"] else []
        o += ["setStaticCylinderAngularVelocity", "setStaticCylinderOrientation"] if s.get("ncyl") else []
        o += ["pokev", "poke"] if nb else []
    if not o:
        return None
    k = r.choice(o)
    D = 3 if sim == "rb3d" else 2
    pl = "I:%d" % r.randrange(np) if np else None
    dd = lambda *x: ["d:" + N(y) for y in x]
    if k == "setStaticPlanePosition":
        p = vec("x", s["statics"][planes(s)[int(pl[2:])]])
        return [k, pl] + dd(*[c + r.uniform(-0.08, 0.04) for c in p])
    if k == "setStaticPlaneVelocity":
        return [k, pl] + dd(*[r.uniform(-1.5, 1.5) for _ in range(D)])
    if k == "setStaticPlaneAngularVelocity":
        return [k, pl] + dd(r.uniform(-2, 2))
    if k == "setStaticPlaneNormal":
        p = vec("n", s["statics"][planes(s)[int(pl[2:])]])
        return [k, pl] + dd(*[c + r.uniform(-0.1, 0.1) for c in p])
    if k == "deleteStaticPlane":
        return [k, pl]
    if k == "insertBall":
        return [k] + dd(r.uniform(-0.5, 3), r.uniform(0.3, 3.2), r.uniform(-2, 2), r.uniform(-3, 1), r.choice([0.4, 0.3, 0.52]), r.choice([1, 2, 0.45])) + ["i:%d" % r.choice([0, 0, 1])]
    if k == "addBody":
        return [k] + dd(r.uniform(-0.5, 3), r.uniform(0.3, 3.2), r.uniform(-1, 1), r.uniform(-2, 2), r.uniform(-3, 1), r.uniform(-2, 2), r.choice([1, 1.7, 0.6])) + \
            ["i:%d" % r.randrange(len(s["geometry"])), "i:%d" % r.choice([0, 0, 0, 1])]
    if k == "addCircleGeometry":
        return [k] + dd(r.choice([0.35, 0.3, 0.61]))
    if k == "delete_bodies":
        ids = [r.randrange(nb) for _ in range(r.randint(1, min(3, nb)))]
        return [k, "u:" + ",".join(map(str, ids if r.random() < 0.2 else r.sample(range(nb), len(set(ids)))))]
    if k == "delete_geometry":
        u = unused(s)
        return [k, "u:" + ",".join(map(str, r.sample(u, r.randint(1, len(u)))))]
    if k == "setGravityForce":
        return [k, "I:%d" % r.randrange(len(s["forces"]))] + dd(*[r.uniform(-6, 6) for _ in range(3)])
    if k == "setStaticCylinderAngularVelocity":
        return [k, "I:0"] + dd(*[r.uniform(-2, 2) for _ in range(3)])
    if k == "setStaticCylinderOrientation":
        a = r.choice([(0, 0, 1), (0, 1, 0), (0.6, 0.8, 0), (0, 0.6, -0.8)])
        return [k, "I:0"] + dd(*a) + dd(r.uniform(-3, 3))
    b = r.randrange(nb)
    while sim == "rb3d" and 'fixed="1"' in s["bodies"][b]:
        b += 1
        if b == nb:
            return None
    if k == "poke":
        p = float(vec("xy"[0] if D == 3 else "x", s["bodies"][b])[0])
        return [k, "I:%d" % (D * b), "d:" + N(p + r.uniform(-0.1, 0.1))]
    i = r.randrange(D * b, D * b + D) + (3 * nb if sim == "rb3d" and r.random() < 0.4 else 0)
    return [k, "I:%d" % i, "d:" + N(r.uniform(-3, 3))]


def unused(s):
    used = {int(vec("geo_idx", b)[0]) for b in s["bodies"]}
    return [i for i in range(len(s["geometry"])) if i not in used]


def bad_edit(r, sc):
    """an edit the program must refuse -> (fn, args...)"""
    s = sc.s
    sim, np, nb = s["sim"], len(planes(s)), len(s["bodies"])
    D = 3 if sim == "rb3d" else 2
    bi = lambda n: "I:%d" % r.choice([n, n, n + 1, n + 7, 4294967295])
    dd = ["d:0.5"] * D
    o = [["setStaticPlanePosition", bi(np)] + dd, ["setStaticPlaneVelocity", bi(np)] + dd]
    if sim != "rb3d":
        o.append(["deleteStaticPlane", bi(np)])
    if np:
        o.append(["setStaticPlaneVelocity", "I:0"] + dd[1:])
        o.append(["setStaticPlanePosition", "I:0"] + dd + ["d:1"])
    if sim == "ball2d":
        for rad, m, f in (("0", "1", 0), ("-0.5", "1", 0), ("0.5", "0", 1), ("0.5", "-2", 0), ("0.5", "1", 2), ("0.5", "1", -1)):
            o.append(["insertBall", "d:1", "d:1", "d:0", "d:0", "d:" + rad, "d:" + m, "i:%d" % f])
        o.append(["insertBall", "d:1", "d:1"])
    elif sim == "rb2d":
        ng = len(s["geometry"])
        o += [["setStaticPlaneNormal", bi(np)] + dd, ["setStaticPlaneAngularVelocity", bi(np), "d:1"],
              ["addCircleGeometry", "d:" + r.choice(["0", "-1"])],
              ["delete_bodies", "u:" + ",".join(map(str, r.choice([[nb], [nb + 3], [0, nb] if nb else [nb], [4294967295]])))],
              ["delete_geometry", "u:" + ",".join(map(str, r.choice([[ng], [ng + 1]])))], ["delete_bodies", "d:1", "d:1"]]
        for rho, g, f in (("0", 0, 0), ("-1", 0, 0), ("1", ng, 0), ("1", ng + 4, 0), ("1", -1, 0), ("1", 0, 2), ("1", 0, -1)):
            o.append(["addBody"] + ["d:1"] * 6 + ["d:" + rho, "i:%d" % g, "i:%d" % f])
        used = [i for i in range(ng) if i not in unused(s)]
        if used:
            o += [["delete_geometry", "u:%d" % r.choice(used)]] * 2
    else:
        nc = s.get("ncyl", 0)
        o += [["setStaticCylinderAngularVelocity", bi(nc)] + dd, ["setStaticCylinderOrientation", bi(nc), "d:0", "d:1", "d:0", "d:0.1"],
              ["setGravityForce", bi(len(s["forces"]))] + dd]
        if nc:
            o += [["setStaticCylinderOrientation", "I:0", "d:0", "d:1.5", "d:0", "d:0.1"], ["setStaticCylinderOrientation", "I:0", "d:0", "d:0", "d:0", "d:0.1"]]
    return r.choice(o)


class Edits(Prop):
    id = "C10"
    rule = ("one case = one scripted run: edits at one point of a history compared with a fresh run of the scene the edits describe, started "
            "from the recorded state, and with the unedited run before that point; the edited run resumed from a seeded snapshot; an invalid "
            "edit at a seeded point; coefficients set by a script compared with the same values in the scene; moving walls compared with "
            "bodies moving the other way; non-trivial = an edit was executed; distinct = different complete event history")

    def scene(self, r, contact=None, **kw):
        sim = kw.pop("sim", None) or r.choice(self.sims)
        w = {"impact_kinds": GOOD_IMPACT, "portal": False, "penalty": False if r.random() < 0.7 else None}
        if w["penalty"] is None:
            del w["penalty"]
        if contact:
            w["contact"] = contact
        w.update(kw)
        s = scenes.GEN[sim](r, w, r.choice([2, 3, 5, 8]))
        scenes.enlarge(r, s, long=False)
        s["renderers"] = []
        s["contact"] = s["contact"].replace('cache_impulses="1"', 'cache_impulses="0"')
        s["contact"] = re.sub(r'cache_impulses="normal[a-z_]*"', 'cache_impulses="none"', s["contact"])
        if s["end"] is None:
            s["end"] = "0.1"
        s["opts"].update(o=1, i=1, f=None, s=None)
        if s["integrator"] == "exponential_euler":
            s["bodies"] = [b.replace('fixed="1"', 'fixed="0"') for b in s["bodies"]]
        if sim == "rb3d":
            s["bodies"] = [re.sub(r' (v|omega)="[^"]*"', r' \1="0 0 0"', b) if 'fixed="1"' in b else b for b in s["bodies"]]
        return s

    def gen(self, r):
        mode = r.choice(["history", "history", "history", "scene", "bad", "bad", "coef", "wall"])
        env = rand_env(r)
        plan = {"mode": mode, "env": env}
        if mode == "coef":
            s = self.scene(r, contact=r.choice(["impact", "sobogus", "sobogus"]), sim=r.choice(["ball2d", "rb3d"]))
            plan.update(scene=s, mu=r.choice(["0", "0.15", "0.7"]), cor=r.choice(["0", "0.25", "0.8"]), which=r.choice(["mu", "cor", "both"]), one=r.random() < 0.4)
            return plan
        if mode == "wall":
            return self.gen_wall(r, plan)
        s = self.scene(r, spheres=True if r.random() < 0.6 else None)
        if mode == "bad":
            s["opts"].update(s=r.choice([None, 0, 1]))
        N = scenes.total_steps(s)
        sc = Scene(copy.deepcopy(s))
        acts = []  # [cb, iteration, edit]
        if mode == "scene":
            for _ in range(r.randint(1, 4)):
                e = rand_edit(r, sc)
                if e:
                    acts.append(["startOfSim", 0, e])
                    sc.apply(e)
            s["opts"]["s"] = r.choice([None, 1])
        else:
            sites = sorted({(it, k) for it, k in [(r.randint(0, max(0, N - 1)), r.choice([0, 1])) for _ in range(r.choice([1, 1, 2, 3]))]})
            for it, k in sites:
                # k == 0: at the end of step it; k == 1: at the start of step it + 1
                cb, i = ("startOfStep", it + 1) if k else ("endOfStep", it) if it else ("startOfSim", 0)
                for _ in range(r.randint(1, 3)):
                    e = rand_edit(r, sc)
                    if e:
                        acts.append([cb, i, e])
                        sc.apply(e)
        plan.update(scene=s, acts=acts)
        if mode == "history":
            plan["resume"] = r.randrange(1 << 16) if r.random() < 0.3 else None
        if mode == "bad":
            pos = r.choice(["startOfSim", "startOfStep", "endOfStep", "startOfStep", "endOfStep", "endOfSim"])
            it = r.randint(1, max(1, N)) if "Step" in pos else 0
            k = r.randint(0, len(acts))
            last = (0 if pos == "startOfSim" else 1 << 30 if pos == "endOfSim" else it, {"startOfStep": 0}.get(pos, 1))
            acts[:] = [a for a in acts if (0 if a[0] == "startOfSim" else a[1], {"startOfStep": 0}.get(a[0], 1)) <= last]
            sc = Scene(copy.deepcopy(s))
            for a in acts:
                sc.apply(a[2])
            plan["bad"] = [pos, it, bad_edit(r, sc)]
        return plan

    # ------------------------------------------------------------------------------------------------------------ running
    def script(self, s, acts):
        t = copy.deepcopy(s)
        t["script"] = ["cb startOfSim", "cb startOfStep", "cb endOfStep", "cb endOfSim"] + ["at %s %d %s" % (a[0], a[1], " ".join(a[2])) for a in acts]
        return t

    def execute(self, ctx, plan):
        return {"history": self.history, "scene": self.scene_mode, "bad": self.bad, "coef": self.coef, "wall": self.wall}[plan["mode"]](ctx, plan)

    def same(self, s, a, b, exact):
        """difference between two recorded configurations or force files"""
        ka = {k: v for k, v in a.items() if not SKIP_KEYS.search(k)}
        kb = {k: v for k, v in b.items() if not SKIP_KEYS.search(k)}
        if s["sim"] == "rb3d" and not exact:
            # orientation of a sphere is not part of the scene: compare what is observable
            for d in (ka, kb):
                for k in [k for k in d if k.endswith("state/q") or k.startswith("state/R")]:
                    t, dim, v = d[k]
                    n = len(v) // 12
                    d[k] = (t, dim[:1], v[:3 * n])
        for k in sorted(set(ka) | set(kb)):
            x, y = ka.get(k), kb.get(k)
            if x == y:
                continue
            if x is None or y is None or x[1] != y[1] or exact:
                return "%s: %s / %s" % (k, str(x)[:140], str(y)[:140])
            if len(x[2]) != len(y[2]) or any(isinstance(p, str) or abs(p - q) > 1e-6 * (1 + abs(p)) for p, q in zip(x[2], y[2])):
                return "%s: %s / %s" % (k, str(x)[:140], str(y)[:140])
        return None

    def history(self, ctx, plan):
        s, acts = plan["scene"], plan["acts"]
        if not acts:
            raise Skip("no edit applies")
        cb, it = acts[-1][0], acts[-1][1]
        last = [a for a in acts if a[0] == cb and a[1] == it]
        before = [a for a in acts if not (a[0] == cb and a[1] == it)]
        k = it - 1 if cb == "startOfStep" else it  # the edit is made to the state of frame k
        shown = cb != "startOfStep"
        # the history without the last edits
        _, T0 = baseline(ctx, self.script(s, before), plan["env"])
        C0, F0 = configs(T0), forces(T0)
        full = self.script(s, acts)
        full["opts"] = dict(s["opts"], s=1 if plan["resume"] is not None else None)
        r, T1 = baseline(ctx, full, plan["env"])
        ctx.state(T1)
        C1, F1 = configs(T1), forces(T1)
        if k not in C0 or k not in C1:
            raise Skip("run ends before the edit")
        for a in last:
            if not any(w[0] == "call" and w[1] == a[2][0] for _, w in events(r)):
                return Violation("edit_not_executed", "%s at %s %d never ran" % (a[2], cb, it))
        ctx.stats["edits"] += len(acts)
        for j in sorted(C0):
            if j < k or (j == k and not shown):
                if j not in C1 or C0[j] != C1[j]:
                    return Violation("edit_changes_the_past", "edit at %s %d changes frame %d%s" % (cb, it, j, h5diff(T0[name(T0, "config", j)], T1.get(name(T1, "config", j), b""))))
            if j < k and F0.get(j) != F1.get(j):
                return Violation("edit_changes_the_past", "edit at %s %d changes the forces of frame %d" % (cb, it, j))
        # what scripts see before and after the edits
        sc = Scene(copy.deepcopy(s))
        for a in before:
            sc.apply(a[2])
        if len(sc.s["bodies"]) != Frame(s["sim"], C0[k]).n:
            return Violation("edit_differs", "frame %d should record %d bodies" % (k, len(sc.s["bodies"])))
        sc.place(Frame(s["sim"], C0[k]))
        for a in last:
            sc.apply(a[2])
        v = self.seen(r, cb, it, sc)
        if v:
            return v
        if plan["resume"] is not None:
            ks = frames_of(T1, "serial")
            sn = snapshot_rel(T1, ks[plan["resume"] % len(ks)])
            ctx.world.restore({n: x for n, x in T1.items() if classify(n)[1] <= classify(sn)[1]})
            rr = resume(ctx, full, sn, plan["env"])
            d = diff(T1, ctx.world.tree()) if rr.ok() else "ends with " + rr.outcome()
            if d:
                return Violation("edit_lost_by_resume", "edits %s, resumed from %s: %s" % (acts, sn, d))
        # the scene the edits describe, started at frame k
        exact = s["sim"] != "rb3d"
        if not exact and any("sphere" not in g for g in s["geometry"]):
            raise Skip("orientation matters")
        if "staggered" in s["contact"]:  # starts each step from the friction impulses of the previous one
            return None
        n = scenes.total_steps(s) - k
        t = sc.s
        t["end"] = scenes.n(max(n, 1) * scenes.dt_value(s))
        t["opts"] = dict(s["opts"], e=None, s=None)
        t = self.script(t, [["startOfSim", 0, x.split(" ")] for x in sc.residual()])
        _, T2 = baseline(ctx, t, plan["env"])
        C2, F2 = configs(T2), forces(T2)
        ctx.stats["restarts"] += 1
        for j in sorted(C2):
            if k + j not in C1:
                continue
            if j or shown:
                d = self.same(s, C2[j], C1[k + j], exact)
                if d:
                    return Violation("edit_differs", "edits %s at %s %d: frame %d differs from a run of the edited scene (%s)" % ([a[2] for a in last], cb, it, k + j, d))
            if j in F2 and k + j in F1:
                d = self.same(s, F2[j], F1[k + j], exact)
                if d:
                    return Violation("edit_differs", "edits %s at %s %d: forces of frame %d differ from a run of the edited scene (%s)" % ([a[2] for a in last], cb, it, k + j, d))
        return None

    def seen(self, r, cb, it, sc):
        """what the script sees after its edits"""
        s = sc.s
        on, obs = False, {}
        for _, w in events(r):
            if w[0] == "begin":
                on = w[1] == cb and (cb == "startOfSim" or int(w[2]) == it)
            elif on and w[0] == "obs" and w[1] == cb + ".after":
                obs[w[2]] = w[3]
        want = {"numStaticPlanes": len(planes(s)), "num_bodies": len(s["bodies"]), "num_geometry": len(s["geometry"])}
        for k, v in want.items():
            if k in obs and int(float(obs[k])) != v:
                return Violation("edit_not_visible", "after the edits at %s %d %s is %s instead of %d" % (cb, it, k, obs[k], v))
        if s["sim"] == "ball2d":
            for k, ks in (("configuration", ("x", "y")), ("velocity", ("vx", "vy"))):
                w = [vec(a, b)[0] for b in s["bodies"] for a in ks]
                if arr(obs.get(k, "[]")) != w:
                    return Violation("edit_not_visible", "after the edits at %s %d %s is %s instead of %s" % (cb, it, k, obs.get(k), w))
        return None

    def scene_mode(self, ctx, plan):
        s, acts = plan["scene"], plan["acts"]
        if not acts:
            raise Skip("no edit applies")
        _, T1 = baseline(ctx, self.script(s, acts), plan["env"])
        ctx.state(T1)
        sc = Scene(copy.deepcopy(s))
        for a in acts:
            sc.apply(a[2])
        t = self.script(sc.s, [["startOfSim", 0, x.split(" ")] for x in sc.residual()])
        _, T2 = baseline(ctx, t, plan["env"])
        ctx.stats["edits"] += len(acts)
        d = diff(T2, T1)
        if d:
            return Violation("edit_differs", "edits %s at startOfSim differ from the scene they describe: %s" % ([a[2] for a in acts], d))
        return None

    def bad(self, ctx, plan):
        s = plan["scene"]
        pos, it, e = plan["bad"]
        acts = plan["acts"] + [[pos, it, e]]
        r = start(ctx, self.script(s, acts), plan["env"])
        ls = r.lines()
        calls = [i for i, l in enumerate(ls) if l.startswith("P call ")]
        if len(calls) <= len(plan["acts"]):
            raise Skip("run ends before the invalid edit")
        at = calls[len(plan["acts"])]  # valid edits come first
        if not ls[at].startswith("P call " + " ".join(e)):
            raise Skip("edits out of order")
        if len(calls) > len(plan["acts"]) + 1:
            return Violation("goes_on_after_bad_edit", "%s at %s %d: the script goes on" % (e, pos, it))
        ctx.stats["invalid_edits"] += 1
        ctx.state(ctx.world.tree())
        if not r.clean_failure():
            return Violation("bad_edit_accepted", "%s at %s %d: run ends with %s instead of a failure status" % (e, pos, it, r.outcome()))
        for l in ls[at + 1:]:
            if l.startswith("P begin") or (l.startswith("O ") and l.split(" ")[2] in ("openw", "h5fcreate", "rename", "h5dwrite", "unlink", "ftruncate")):
                return Violation("goes_on_after_bad_edit", "%s at %s %d: %s follows" % (e, pos, it, l))
        return None

    def coef(self, ctx, plan):
        s = plan["scene"]
        cbs = ["cb frictionCoefficient", "cb restitutionCoefficient"]
        a, b = copy.deepcopy(s), copy.deepcopy(s)
        a["script"], b["script"] = list(cbs), list(cbs)
        mu = plan["which"] != "cor" and s["mu"] is not None
        co = plan["which"] != "mu" and "symplectic_euler" not in s["contact"]
        if not mu and not co:
            raise Skip("no coefficient to set")
        if mu:
            a["script"].append("coef mu * " + plan["mu"])
            b["contact"] = re.sub(r' mu="[^"]*"', ' mu="%s"' % plan["mu"], b["contact"])
        if co:
            a["script"].append("coef cor * " + plan["cor"])
            b["contact"] = re.sub(r' CoR="[^"]*"', ' CoR="%s"' % plan["cor"], b["contact"])
        _, T1 = baseline(ctx, a, plan["env"])
        ctx.state(T1)
        _, T2 = baseline(ctx, b, plan["env"])
        ctx.stats["coefficient_runs"] += 1
        d = diff(T2, T1, only=lambda n: classify(n)[0] != "serial")
        if d:
            return Violation("coefficient_ignored", "script coefficients mu=%s cor=%s differ from the same values in the scene: %s" %
                             (plan["mu"] if mu else "-", plan["cor"] if co else "-", d))
        return None

    # ------------------------------------------------------------------------------------------------------- moving walls
    def gen_wall(self, r, plan):
        sim = r.choice(self.sims)
        s = self.scene(r, sim=sim, contact=r.choice(["impact", "sobogus", "sobogus", "sobogus"]), spheres=True, mesh=False, boxes=False, cylinder=False,
                       layout="pile", penalty=False)
        s["contact"] = s["contact"].replace('stabilization="1"', 'stabilization="0"')
        D = 3 if sim == "rb3d" else 2
        s["forces"] = []
        cyl = sim == "rb3d" and r.random() < 0.5
        s["end"] = scenes.n(scenes.dt_value(s))
        s["opts"]["e"] = None
        ang = r.uniform(0, 2 * math.pi)
        n = [math.cos(ang), math.sin(ang)] + ([0.0] if D == 3 else [])
        pen = r.uniform(0.0005, 0.002)
        if sim != "ball2d":
            s["geometry"] = ['<geometry type="%s" r="0.5"/>' % ("circle" if D == 2 else "sphere")]
        if cyl:
            R = 2.0
            c = [0.5, 1.0, 0.0]
            s["statics"] = ['<static_cylinder x="0.5 1 0" axis="0 0 1" R="2"/>']
            x = [c[i] - (R - 0.5 + pen) * n[i] for i in range(3)]
            p = [c[i] - R * n[i] for i in range(3)]
            s["ncyl"] = 1
        else:
            c = [r.uniform(-1, 1) for _ in range(D)]
            tg = [-n[1], n[0]] + ([r.uniform(-1, 1)] if D == 3 else [])
            k = r.uniform(-2, 2)
            s["statics"] = ['<static_plane x="%s" n="%s"/>' % (" ".join("%.12g" % v for v in c), " ".join("%.12g" % v for v in n))]
            p = [c[i] + k * tg[i] for i in range(D)]
            x = [p[i] + (0.5 - pen) * n[i] for i in range(D)]
        # approach so that the contact acts
        v = [r.uniform(-1, 1) - 2.5 * n[i] for i in range(D)]
        w = r.uniform(-2, 2)
        kind = "angular" if cyl or (sim == "rb2d" and r.random() < 0.5) else "linear"
        if kind == "linear":
            u = [r.uniform(-0.8, 0.8) for _ in range(D)]
            spin = None
        else:
            spin = r.uniform(-1, 1)
            arm = [p[i] - c[i] for i in range(2)]
            u = [-spin * arm[1], spin * arm[0]] + ([0.0] if D == 3 else [])
        plan.update(scene=s, x=x, v=v, w=w, u=u, spin=spin, cyl=cyl, kind=kind)
        return plan

    def wall(self, ctx, plan):
        s, D = plan["scene"], len(plan["x"])
        g = lambda c: " ".join("%.15g" % x for x in c)
        out = []
        for moving in (True, False):
            t = copy.deepcopy(s)
            v = plan["v"] if moving else [a - b for a, b in zip(plan["v"], plan["u"])]
            if s["sim"] == "ball2d":
                t["bodies"] = ['<ball x="%.15g" y="%.15g" vx="%.15g" vy="%.15g" m="1.3" r="0.5" fixed="0"/>' % (plan["x"][0], plan["x"][1], v[0], v[1])]
            elif D == 2:
                t["bodies"] = ['<rigid_body x="%s" theta="0.2" v="%s" omega="%.15g" rho="1.2" geo_idx="0" fixed="0"/>' % (g(plan["x"]), g(v), plan["w"])]
            else:
                t["bodies"] = ['<rigid_body_with_density x="%s" v="%s" omega="%s" rho="1.2" fixed="0" geo_idx="0"/>' % (g(plan["x"]), g(v), g([plan["w"], 0.3, -plan["w"]]))]
            acts = []
            if moving:
                if plan["cyl"]:
                    e = ["setStaticCylinderAngularVelocity", "I:0", "d:0", "d:0", "d:%.15g" % plan["spin"]]
                elif plan["kind"] == "angular":
                    e = ["setStaticPlaneAngularVelocity", "I:0", "d:%.15g" % plan["spin"]]
                else:
                    e = ["setStaticPlaneVelocity", "I:0"] + ["d:%.15g" % c for c in plan["u"]]
                acts = [["startOfSim", 0, e]]
            _, T = baseline(ctx, self.script(t, acts), plan["env"])
            ctx.state(T)
            C, F = configs(T), forces(T)
            if scal(F[0], "collision_count") != 1:
                raise Skip("no single contact")
            a, b = Frame(s["sim"], C[0]), Frame(s["sim"], C[1])
            out.append(([q - p for p, q in zip(a.v[0], b.v[0])], cols(F[0], "collision_forces")[0]))
        ctx.stats["moving_walls"] += 1
        (dm, fm), (ds, fs) = out
        size = 1e-6 + 0.02 * max(map(abs, ds)) if plan["kind"] == "angular" else 1e-6 * (1 + max(map(abs, ds)))
        if not max(map(abs, fs)) > 1e-6:
            raise Skip("contact separates")
        for p, q in zip(dm + list(fm), ds + list(fs)):
            if abs(p - q) > size:
                return Violation("wall_motion", "a body meeting a moving wall (%s %s) gets velocity change %s, force %s; the same relative motion "
                                 "against a wall at rest gives %s, %s" % (plan["kind"], plan["spin"] if plan["kind"] == "angular" else plan["u"], dm, fm, ds, fs))
        return None

    def shrink(self, plan):
        yield from drop_env(plan)
        if plan.get("resume") is not None:
            q = copy.deepcopy(plan)
            q["resume"] = None
            yield q
        if plan["mode"] in ("history", "scene", "bad"):
            for i in range(len(plan["acts"])):
                q = copy.deepcopy(plan)
                del q["acts"][i]
                if q["acts"] or plan["mode"] == "bad":
                    yield q
        if plan["mode"] in ("coef", "bad"):
            yield from Prop.shrink(self, plan)
        elif plan["mode"] != "wall":
            for q in Prop.shrink(self, plan):
                if len(q["scene"]["bodies"]) == len(plan["scene"]["bodies"]) and len(q["scene"]["statics"]) == len(plan["scene"]["statics"]) and \
                        len(q["scene"]["forces"]) == len(plan["scene"]["forces"]):
                    yield q


def name(tree, kind, k):
    return next((n for n in tree if classify(n) == (kind, k)), "")


PROPS = {"C10": Edits()}
