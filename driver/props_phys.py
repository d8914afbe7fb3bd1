"""C11, C13: bookkeeping of bodies, momentum and periodic boundaries over recorded histories."""
import copy, math, re

import scenes
from common import *
from engine import Skip, Violation
from props_model import GOOD_IMPACT, configs, drop_env, forces


class Frame:
    """bodies of one recorded configuration"""

    def __init__(self, sim, h):
        self.sim, self.h = sim, h
        g = lambda k: h[k][2] if k in h else []
        self.dim = 3 if sim == "rb3d" else 2
        if sim == "ball2d":
            q, v, m = g("q"), g("v"), g("m")
            self.n = len(q) // 2
            self.x = [tuple(q[2 * i:2 * i + 2]) for i in range(self.n)]
            self.v = [tuple(v[2 * i:2 * i + 2]) for i in range(self.n)]
            self.m = [m[2 * i] for i in range(self.n)]
            self.rest = [q[2 * i:2 * i + 2] for i in range(self.n)]
            self.w = self.I = None
            self.fixed = None
            self.shape = [(m[2 * i], m[2 * i + 1], g("r")[i]) for i in range(self.n)]
        elif sim == "rb2d":
            q, v, m = g("q"), g("v"), g("m")
            self.n = len(q) // 3
            self.x = [tuple(q[3 * i:3 * i + 2]) for i in range(self.n)]
            self.v = [tuple(v[3 * i:3 * i + 2]) for i in range(self.n)]
            self.w = [v[3 * i + 2] for i in range(self.n)]
            self.m = [m[3 * i] for i in range(self.n)]
            self.I = [m[3 * i + 2] for i in range(self.n)]
            self.rest = [q[3 * i:3 * i + 3] for i in range(self.n)]
            self.fixed = g("kinematically_scripted")
            geo = cols(h, "geometry/geometry_indices")
            self.shape = [(tuple(m[3 * i:3 * i + 3]), self.fixed[i], shape_of(h, geo[i])) for i in range(self.n)]
        else:
            q, v, m = g("state/q"), g("state/v"), g("state/M0")
            n = self.n = len(v) // 6
            self.x = [tuple(q[3 * i:3 * i + 3]) for i in range(n)]
            self.v = [tuple(v[3 * i:3 * i + 3]) for i in range(n)]
            self.w = [tuple(v[3 * n + 3 * i:3 * n + 3 * i + 3]) for i in range(n)]
            self.m = [m[3 * i] for i in range(n)]
            self.I = [tuple(m[3 * n + 3 * i:3 * n + 3 * i + 3]) for i in range(n)]
            self.rest = [list(q[3 * i:3 * i + 3]) + list(q[3 * n + 9 * i:3 * n + 9 * i + 9]) for i in range(n)]
            self.fixed = g("state/kinematically_scripted")
            geo = cols(h, "geometry/geometry_indices")
            self.shape = [(tuple(m[3 * i:3 * i + 3]), self.I[i], self.fixed[i], shape_of(h, geo[i])) for i in range(n)]


def shape_of(h, gi):
    """what a (type, index) column of geometry_indices stands for"""
    return tuple(gi)


def vec(tag, xml):
    m = re.search(r'\b%s="([^"]*)"' % tag, xml)
    return [float(x) for x in m.group(1).split()] if m else None


def geo_of(s, i):
    g = s["geometry"][i]
    ty = re.search(r'type="(\w+)"', g).group(1)
    return ty, vec("r", g)


def expected(s):
    """per body of the scene as written: (x, v, spin, mass, inertia or None, fixed)"""
    out = []
    for b in s["bodies"]:
        if s["sim"] == "ball2d":
            f = lambda k: vec(k, b)[0]
            out.append(((f("x"), f("y")), (f("vx"), f("vy")), None, f("m"), None, int(f("fixed"))))
            continue
        x, v, w = vec("x", b), vec("v", b), vec("omega", b)
        ty, r = geo_of(s, int(vec("geo_idx", b)[0]))
        rho = vec("rho", b)[0]
        m = I = None
        if ty == "circle":
            m = rho * math.pi * r[0] ** 2
            I = m * r[0] ** 2 / 2
        elif ty == "box" and s["sim"] == "rb2d":
            m = rho * 4 * r[0] * r[1]
            I = m * (r[0] ** 2 + r[1] ** 2) / 3
        elif ty == "sphere":
            m = rho * 4 * math.pi * r[0] ** 3 / 3
            I = (0.4 * m * r[0] ** 2,) * 3
        elif ty == "box":
            m = rho * 8 * r[0] * r[1] * r[2]
            I = (m * (r[1] ** 2 + r[2] ** 2) / 3, m * (r[0] ** 2 + r[2] ** 2) / 3, m * (r[0] ** 2 + r[1] ** 2) / 3)
        out.append((tuple(x), tuple(v), w[0] if s["sim"] == "rb2d" else tuple(w), m, I, int((vec("fixed", b) or [0])[0])))
    return out


NUM = re.compile(r"-?(?:inf|nan|\d[\d.]*(?:e[-+]?\d+)?)")


def records(h, k):
    """elements of a dataset of structures: lists of numbers in the order of the members"""
    return [[float(x) for x in NUM.findall(e)] for e in h[k][2]] if k in h else []


def misdrawn(s, h, t):
    """compares shapes, walls and boundaries recorded at time t with the scene as written (nothing scripted); -> text or None"""
    same = lambda a, b: len(a) == len(b) and all(near(p, q, 1e-9 * (1 + abs(p))) for p, q in zip(a, b))
    sim = s["sim"]
    used = set()
    for p in s["portals"]:
        used |= {int(vec("planeA", p)[0]), int(vec("planeB", p)[0])}
    planes = [x for x in s["statics"] if "static_plane " in x]
    nrm = lambda v: [c / math.sqrt(sum(a * a for a in v)) for c in v]
    walls = [(vec("x", p), nrm(vec("n", p))) for i, p in enumerate(planes) if i not in used]
    if sim == "ball2d":
        r = [vec("r", b) for b in s["bodies"]]
        if not same([x[0] for x in r], h["r"][2] if "r" in h else []):
            return "the radii are %s, recorded are %s" % (r, h["r"][2] if "r" in h else None)
        got = [list(a) + list(b) for a, b in zip(cols(h, "static_plane_centers"), cols(h, "static_plane_normals"))]
    else:
        kinds = [("boxes", "box"), ("circles", "circle")] if sim == "rb2d" else [("boxes", "box"), ("spheres", "sphere"), ("meshes", "mesh")]
        geo = [geo_of(s, i) for i in range(len(s["geometry"]))]
        for name, ty in kinds:
            want = [i for i, g in enumerate(geo) if g[0] == ty]
            if ty == "mesh":
                rec = [e.strip('{}"') for e in h["geometry/meshes"][2]] if "geometry/meshes" in h else []
                exp = [re.search(r'filename="([^"]*)"', s["geometry"][i]).group(1) for i in want]
                ok = rec == exp
            else:
                rec, exp = records(h, "geometry/" + name), [geo[i][1] for i in want]
                ok = len(rec) == len(exp) and all(same(a, b) for a, b in zip(rec, exp))
            if not ok:
                return "the %s of the scene are %s, recorded are %s" % (name, exp, rec)
        gi = cols(h, "geometry/geometry_indices")
        number = {"rb2d": {"circle": 0, "box": 1}, "rb3d": {"box": 0, "sphere": 1, "mesh": 3}}[sim]
        for i, b in enumerate(s["bodies"]):
            k = int(vec("geo_idx", b)[0])
            k += len(geo) if k < 0 else 0
            e = (number[geo[k][0]], sum(1 for g in geo[:k] if g[0] == geo[k][0]))
            if i >= len(gi) or tuple(gi[i]) != e:
                return "body %d uses geometry %d, a %s, recorded is (type, index) %s instead of %s" % (i, k, geo[k][0], gi[i] if i < len(gi) else None, e)
        got = records(h, "static_geometry/static_planes")
    exp = [list(x) + list(n) + ([0.0] * 6 if sim == "rb3d" else []) for x, n in walls]
    if len(got) != len(exp) or not all(same(a, b) for a, b in zip(exp, got)):
        return "the planes are %s, recorded are %s" % (exp, got)
    if sim == "rb3d":
        cyl = [x for x in s["statics"] if "static_cylinder " in x]
        got = records(h, "static_geometry/static_cylinders")
        if len(got) != len(cyl):
            return "the scene has %d cylinders, %d are recorded" % (len(cyl), len(got))
        for c, g in zip(cyl, got):
            x, y, z, w = g[3:7]
            ax = [2 * (x * y - w * z), 1 - 2 * (x * x + z * z), 2 * (y * z + w * x)]  # image of the y axis
            e = vec("x", c) + nrm(vec("axis", c)) + [0.0] * 6 + vec("R", c)
            if not same(e, g[:3] + ax + g[7:]):
                return "a cylinder is %s (centre, axis, motion, radius), recorded is %s" % (e, g[:3] + ax + g[7:])
    if sim == "rb2d":
        got = records(h, "static_geometry/planar_portals")
        exp = []
        for p in sorted(s["portals"], key=lambda p: "lees" in p):
            a, b = planes[int(vec("planeA", p)[0])], planes[int(vec("planeB", p)[0])]
            v, bd = (vec("v", p)[0], vec("bounds", p)[0]) if "lees" in p else (0.0, 0.0)
            d = v * t
            exp.append((vec("x", a) + nrm(vec("n", a)) + vec("x", b) + nrm(vec("n", b)) + [v, bd], d - 2 * bd * math.floor((d + bd) / (2 * bd)) if v and bd else 0.0))
        if len(exp) != len(got):
            return "the scene has %d periodic boundaries, %d are recorded" % (len(exp), len(got))
        for (e, d), g in zip(exp, got):
            off = abs(d - g[-1])
            if not same(e, g[:-1]) or min(off, abs(off - 2 * e[-1])) > 1e-9 * (1 + abs(e[-2] * t)):
                return "a periodic boundary is %s displaced by %g, recorded is %s" % (e, d, g)
    return None


def gravity(s):
    g = [0.0] * (3 if s["sim"] == "rb3d" else 2)
    for f in s["forces"]:
        if "gravity" not in f:
            return None
        a = [vec("fx", f)[0], vec("fy", f)[0]] if s["sim"] == "ball2d" else vec("f", f)
        g = [p + q for p, q in zip(g, a)]
    return g


def near(a, b, tol):
    return abs(a - b) <= tol


# ----------------------------------------------------------------------------------------------------------------------- C11
class Bookkeeping(Prop):
    id = "C11"
    rule = ("one case = one generated run (every step recorded together with its contact forces, or at a lower rate) whose recorded frames "
            "are balanced body by body, killed and resumed at a seeded operation so that the history is assembled from several processes; "
            "non-trivial = at least two frames; distinct = different complete event history")

    def gen(self, r):
        sim = r.choice(self.sims)
        s = scenes.GEN[sim](r, {"impact_kinds": GOOD_IMPACT, "penalty": False, "layout": r.choice(["pile", "pile", "cluster", "drum"]) if sim == "ball2d" else None,
                                "portal": False if r.random() < 0.8 else None}, r.choice([1, 2, 4, 8]))
        scenes.enlarge(r, s)
        if r.random() < 0.25 and not s["portals"]:
            s["statics"], s["renderers"], s["nplanes"], s["ncyl"] = [], [], 0, 0
            if r.random() < 0.5:
                s["forces"] = []
        if s["integrator"] == "exponential_euler":  # not supported together
            s["bodies"] = [b.replace('fixed="1"', 'fixed="0"') for b in s["bodies"]]
        if sim == "rb3d":  # fixed bodies of the 3D simulator are stationary (asserted by its integrators)
            s["bodies"] = [re.sub(r' (v|omega)="[^"]*"', r' \1="0 0 0"', b) if 'fixed="1"' in b else b for b in s["bodies"]]
        if r.random() < 0.3:
            scenes.add_script(r, s, edits=False, all_callbacks=True)
        o = s["opts"]
        o["o"], o["i"] = 1, 1
        if r.random() < 0.7:
            o["f"] = None
        o["s"] = r.choice([0, 1, 1])
        return {"scene": s, "env": rand_env(r), "kill": r.randrange(1 << 16) if r.random() < 0.35 else None}

    def execute(self, ctx, plan):
        s = plan["scene"]
        base, T = baseline(ctx, s, plan["env"])
        ctx.state(T)
        v = self.judge(ctx, s, T, plan)
        if v or plan["kill"] is None:
            return v
        # the same history assembled by a killed and a resumed process
        ops = [o for o in base.ops()]
        k = ops[plan["kill"] % len(ops)][0]
        start(ctx, s, plan["env"], [[k, "crash_before", 0, 0]])
        t = ctx.world.tree()
        ks = frames_of(t, "serial")
        sn = None
        if s["opts"]["s"] == 1 and len(ks) > 1:
            sn = snapshot_rel(t, ks[-2])
        elif s["opts"]["s"] == 0 and "serial.bin" in t:
            sn = "serial.bin"
        if sn is None:
            return None
        r = resume(ctx, s, sn, plan["env"])
        if not r.ok():
            raise Skip("resume fails")
        ctx.stats["assembled_histories"] += 1
        return self.judge(ctx, s, ctx.world.tree(), plan)

    def judge(self, ctx, s, T, plan):
        C = {k: Frame(s["sim"], h) for k, h in configs(T).items() if h is not None}
        F = forces(T)
        if len(C) < 2:
            raise Skip("fewer than two frames")
        sim = s["sim"]
        m = scenes.save_steps(s)
        dt = scenes.dt_value(s)
        g = gravity(s)
        first = C[min(C)]
        exp = expected(s)
        fixed = [e[5] for e in exp]
        if sim == "ball2d" and not plan.get("fixed_balls"):
            fixed = [0] * len(exp)  # see known_findings.json: the flag has no effect on balls
        # frame 0 is the scene
        f0 = C.get(0)
        if f0 is not None:
            if f0.n != len(exp):
                return Violation("initial_state", "the scene has %d bodies, frame 0 records %d" % (len(exp), f0.n))
            for i, e in enumerate(exp):
                if list(e[0]) != list(f0.x[i]) and not s["portals"] or list(e[1]) != list(f0.v[i]):
                    return Violation("initial_state", "body %d starts at %s with velocity %s, frame 0 records %s and %s" % (i, e[0], e[1], f0.x[i], f0.v[i]))
                if e[2] is not None and (list(e[2]) if sim == "rb3d" else e[2]) != (list(f0.w[i]) if sim == "rb3d" else f0.w[i]):
                    return Violation("initial_state", "body %d starts with spin %s, frame 0 records %s" % (i, e[2], f0.w[i]))
                if e[3] is not None and not near(e[3], f0.m[i], 1e-9 * e[3]):
                    return Violation("initial_state", "body %d has mass %s, frame 0 records %s" % (i, e[3], f0.m[i]))
                if e[4] is not None:
                    a, b = (sorted(e[4]), sorted(f0.I[i])) if sim == "rb3d" else ([e[4]], [f0.I[i]])
                    if any(not near(p, q, 1e-9 * p) for p, q in zip(a, b)):
                        return Violation("initial_state", "body %d has inertia %s, frame 0 records %s" % (i, a, b))
                if f0.fixed is not None and f0.fixed[i] != e[5]:
                    return Violation("initial_state", "body %d fixed=%d, frame 0 records %s" % (i, e[5], f0.fixed[i]))
        if f0 is not None and not any(l.split()[:1] == ["at"] for l in s["script"] or []):
            for k in sorted(C):
                bad = misdrawn(s, C[k].h, k * m * dt)
                if bad:
                    return Violation("wrong_scene_recorded", "frame %d: %s" % (k, bad))
            ctx.stats["recorded_scenes_compared"] += 1
        geo0 = {k: v for k, v in first.h.items() if k.startswith("geometry/")}
        st0 = {k: v for k, v in first.h.items() if k.startswith("static_geometry/static") or k.startswith("static_plane")}
        for k in sorted(C):
            c = C[k]
            if c.n != first.n:
                return Violation("bodies_changed", "frame %d records %d bodies, frame 0 %d" % (k, c.n, first.n))
            if c.shape != first.shape:
                i = [a == b for a, b in zip(c.shape, first.shape)].index(False)
                return Violation("body_changed", "body %d is %s in frame %d and %s in frame 0" % (i, c.shape[i], k, first.shape[i]))
            if {a: b for a, b in c.h.items() if a.startswith("geometry/")} != geo0:
                return Violation("body_changed", "geometry changes between frames 0 and %d" % k)
            if {a: b for a, b in c.h.items() if a.startswith("static_geometry/static") or a.startswith("static_plane")} != st0:
                return Violation("wall_changed", "static geometry changes between frames 0 and %d" % k)
        le = any("lees" in p for p in s["portals"])
        ks = sorted(C)
        for a, b in zip(ks, ks[1:]):
            if b != a + 1:
                continue
            A, B = C[a], C[b]
            for i in range(A.n):
                if fixed[i] and not le and (A.v[i] != B.v[i] or (A.w is not None and A.w[i] != B.w[i])):
                    return Violation("fixed_body_moved", "fixed %s %d changes velocity from %s to %s in frame %d" % ("ball" if sim == "ball2d" else "body", i, A.v[i], B.v[i], b))
                if fixed[i] and not any(A.v[i]) and (A.w is None or not any([A.w[i]] if sim == "rb2d" else A.w[i])) and A.rest[i] != B.rest[i]:
                    return Violation("fixed_body_moved", "fixed %s %d moves from %s to %s in frame %d" % ("ball" if sim == "ball2d" else "body", i, A.rest[i], B.rest[i], b))
            if m != 1 or g is None or le or (s["contact"] and a not in F):
                continue
            D = A.dim
            imp = [[0.0] * D for _ in range(A.n)]
            tor = [[0.0] * 3 for _ in range(A.n)]
            size = [0.0] * A.n
            h = F.get(a, {})
            nc = (scal(h, "collision_count") or 0) if s["contact"] else 0
            if nc:
                ctx.stats["contact_steps"] += 1
                idx, pts = cols(h, "collision_indices"), cols(h, "collision_points")
                nrm, fs = cols(h, "collision_normals"), cols(h, "collision_forces")
                if not (len(idx) == len(pts) == len(nrm) == len(fs) == nc):
                    return Violation("force_file", "frame %d: %d contacts but %d/%d/%d/%d columns" % (a, nc, len(idx), len(pts), len(nrm), len(fs)))
                for (ia, ib), p, n, f in zip(idx, pts, nrm, fs):
                    if not 0 <= ia < A.n or ib >= A.n or ib == ia:
                        return Violation("force_file", "frame %d: contact between %d and %d of %d bodies" % (a, ia, ib, A.n))
                    if not near(sum(x * x for x in n), 1.0, 1e-9) and not s["files"]:
                        return Violation("force_file", "frame %d: contact normal %s is not a unit vector" % (a, n))
                    fn = sum(x * y for x, y in zip(f, n))
                    ft = math.sqrt(max(0.0, sum((x - fn * y) ** 2 for x, y in zip(f, n))))
                    sc = math.sqrt(sum(x * x for x in f))
                    if fn < -1e-9 * (1 + sc):
                        return Violation("pulling_contact", "frame %d: contact %d-%d pulls with %s along its normal" % (a, ia, ib, fn))
                    v = self.coulomb(s, a, ia, ib, fn, ft)
                    if v:
                        return v
                    for j, sg in ((ia, 1), (ib, -1)):
                        if j < 0:
                            continue
                        ff = [sg * x for x in f]
                        arm = [p[c] - A.x[j][c] for c in range(D)] + [0.0] * (3 - D)
                        f3 = ff + [0.0] * (3 - D)
                        for c in range(D):
                            imp[j][c] += ff[c]
                        t = (arm[1] * f3[2] - arm[2] * f3[1], arm[2] * f3[0] - arm[0] * f3[2], arm[0] * f3[1] - arm[1] * f3[0])
                        for c in range(3):
                            tor[j][c] += t[c]
                        size[j] += sc
            for i in range(A.n):
                if fixed[i]:
                    continue
                mass = A.m[i]
                for c in range(D):
                    want = imp[i][c] + mass * g[c] * dt
                    got = mass * (B.v[i][c] - A.v[i][c])
                    tol = 1e-9 * (1 + size[i] + mass * (abs(A.v[i][c]) + abs(B.v[i][c])))
                    if not near(want, got, tol):
                        return Violation("momentum_balance", "body %d gains momentum %s along axis %d from frame %d to %d, gravity and recorded forces "
                                         "give %s" % (i, got, c, a, b, want))
                ctx.stats["balances"] += 1
                if s["portals"]:
                    continue
                if sim == "rb2d":
                    got = A.I[i] * (B.w[i] - A.w[i])
                    if not near(got, tor[i][2], 1e-8 * (1 + size[i] + abs(A.w[i]) + abs(B.w[i]))):
                        return Violation("angular_balance", "body %d gains angular momentum %s from frame %d to %d, recorded forces give %s" % (i, got, a, b, tor[i][2]))
                elif sim == "rb3d" and self.ball(s, i):
                    for c in range(3):
                        got = A.I[i][c] * (B.w[i][c] - A.w[i][c])
                        if not near(got, tor[i][c], 1e-8 * (1 + size[i] + abs(A.w[i][c]) + abs(B.w[i][c]))):
                            return Violation("angular_balance", "body %d gains angular momentum %s about axis %d from frame %d to %d, recorded forces give %s"
                                             % (i, got, c, a, b, tor[i][c]))
        if not s["statics"] and g is not None and not any(fixed) and not le:
            ctx.stats["isolated"] += 1
            for a, b in zip(ks, ks[1:]):
                A, B = C[a], C[b]
                M = sum(A.m)
                for c in range(A.dim):
                    pa = sum(A.m[i] * A.v[i][c] for i in range(A.n)) + M * g[c] * dt * m * (b - a)
                    pb = sum(B.m[i] * B.v[i][c] for i in range(A.n))
                    sc = sum(A.m[i] * (abs(A.v[i][c]) + abs(B.v[i][c])) for i in range(A.n))
                    if not near(pa, pb, 1e-8 * (1 + sc) * m):
                        return Violation("total_momentum", "total momentum along axis %d is %s instead of %s in frame %d" % (c, pb, pa, b))
        return None

    def ball(self, s, i):
        return geo_of(s, int(vec("geo_idx", s["bodies"][i])[0]))[0] == "sphere"

    def coulomb(self, s, frame, ia, ib, fn, ft):
        if s["mu"] is None:
            if ft > 1e-9 * (1 + fn):
                return Violation("friction_bound", "frame %d: contact %d-%d has friction %s in a scene without friction" % (frame, ia, ib, ft))
            return None
        if "sobogus" not in s["contact"]:
            return None
        mus = {float(s["mu"])}
        if s.get("script"):
            for l in s["script"]:
                if l.startswith("coef mu"):
                    x = float(l.split()[3])
                    mus = {x} if l.split()[2] == "*" else mus | {x}
        if ft > max(mus) * fn + 1e-8 * (1 + fn):
            return Violation("friction_bound", "frame %d: contact %d-%d has friction %s, normal force %s and coefficient %s" % (frame, ia, ib, ft, fn, max(mus)))
        return None

    def shrink(self, plan):
        if plan["kill"] is not None:
            q = copy.deepcopy(plan)
            q["kill"] = None
            yield q
        yield from drop_env(plan)
        yield from Prop.shrink(self, plan)


# ----------------------------------------------------------------------------------------------------------------------- C13
MULT = {0: "1 1 -1", 1: "1 1 -1", 2: "1 -1 1"}  # the multiplier that makes a 3D portal along this axis a translation


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def tangent(n):
    return [-n[1], n[0]]


class Portals:
    """Reference model of the periodic domain of a scene: pairs of planes, [shear speed, bounds] for shearing ones."""

    def __init__(self, s):
        st = [(vec("x", x), vec("n", x)) for x in s["statics"]]
        self.list = []
        for p in s["portals"]:
            a, b = int(vec("planeA", p)[0]), int(vec("planeB", p)[0])
            v = vec("v", p)
            self.list.append((st[a], st[b], v[0] if v else 0.0, vec("bounds", p)[0] if v else 0.0))
        self.list.sort(key=lambda p: p[2] != 0.0)  # plain portals are listed and enforced before shearing ones
        self.dim = len(st[0][0])

    def distances(self, x):
        return [dot(n, sub(x, q)) for a, b, _, _ in self.list for q, n in (a, b)]

    def dx(self, v, bounds, t):
        return 0.0 if not v else v * t - 2 * bounds * math.floor((v * t + bounds) / (2 * bounds))

    def through(self, x, a, b, v, bounds, t):
        """image of x leaving through a; velocity kick"""
        na = dot(a[1], sub(a[0], x))
        if self.dim == 3:
            d = sub(b[0], a[0])
            w = dot(d, a[1])
            return [q + w * k for q, k in zip(x, a[1])], [0.0] * 3
        ta = dot(tangent(a[1]), sub(a[0], x)) + self.dx(v, bounds, t)
        if v:
            ta -= 2 * bounds * math.floor((ta + bounds) / (2 * bounds))
        n, tg = b[1], tangent(b[1])
        return [b[0][c] + na * n[c] + ta * tg[c] for c in range(2)], [-v * c for c in tangent(a[1])]

    def enforce(self, x, v, t):
        """-> x, v, number of crossings, smallest distance to a decision boundary"""
        k, margin = 0, 9e9
        x, v = list(x), list(v)
        for a, b, s, bd in self.list:
            da, db = dot(a[1], sub(x, a[0])), dot(b[1], sub(x, b[0]))
            margin = min(margin, abs(da), abs(db))
            if da < 0 or db < 0:
                p, q = (a, b) if da < 0 else (b, a)
                if s:
                    ta = dot(tangent(p[1]), sub(p[0], x)) + self.dx(s, bd, t) + bd
                    f = ta / (2 * bd) - math.floor(ta / (2 * bd))
                    margin = min(margin, f, 1 - f)
                x, kick = self.through(x, p, q, s, bd, t)
                v = [i + j for i, j in zip(v, kick)]
                k += 1
        return x, v, k, margin


class Periodic(Prop):
    id = "C13"
    rule = ("one case = one run in a periodic domain: free bodies against a reference model of crossing (planar, shearing, tilted and crossed "
            "boundaries), two touching bodies moved bodily across a boundary, or an arbitrary contact scene whose bodies must stay inside and "
            "whose boundary motion must survive a resume; non-trivial = at least one crossing or contact; distinct = different complete event "
            "history")

    def domain(self, r, s, mode, two=True):
        """planes and portals; returns (origin, axes, widths)"""
        sim = s["sim"]
        D = 3 if sim == "rb3d" else 2
        if D == 3:
            axes = r.sample([0, 1, 2], r.choice([1, 1, 2]) if two else 1)
            ns = [[1.0 if c == a else 0.0 for c in range(3)] for a in axes]
        else:
            n = r.choice([[1, 0], [0, 1], [-1, 0], [0.6, 0.8], [0.8, -0.6]])
            ns = [n] + ([tangent(n)] if two and r.random() < 0.35 else [])
        o = [r.choice([0, -0.5, 1.25]) for _ in range(D)]
        ws = [r.choice([4, 3, 5.5]) for _ in ns]
        for i, n in enumerate(ns):
            p = o
            both = D == 2 and len(ns) == 2 and i == 0 and mode == "free" and r.random() < 0.5
            if both:  # shearing boundary that wraps along the other axis
                p = [o[c] + 0.5 * ws[1] * ns[1][c] for c in range(D)]
            far = [p[c] + ws[i] * n[c] for c in range(D)]
            pl = ['<static_plane x="%s" n="%s"/>' % (scenes.V(*p), scenes.V(*n)), '<static_plane x="%s" n="%s"/>' % (scenes.V(*far), scenes.V(*[-c for c in n]))]
            sw = r.random() < 0.3
            k = len(s["statics"])
            s["statics"] += pl[::-1] if sw else pl
            if D == 3:
                s["portals"].append('<planar_portal planeA="%d" planeB="%d" multiplier="%s"/>' % (k, k + 1, MULT[axes[i]]))
            elif both:
                s["portals"].append('<lees_edwards_portal planeA="%d" planeB="%d" v="%s" bounds="%s"/>' % (k, k + 1, r.choice(["0.7", "-2", "15", "-40"]), n4(ws[1] / 2)))
                s["features"] += ["lees_edwards", "corner_portal"]
            elif len(ns) == 1 and r.random() < 0.5:
                s["portals"].append('<lees_edwards_portal planeA="%d" planeB="%d" v="%s" bounds="%s"/>' % (k, k + 1, r.choice(["0.7", "-2", "15", "-40"]), n4(ws[i] * r.choice([1, 0.5, 2]))))
                s["features"].append("lees_edwards")
            else:
                s["portals"].append('<planar_portal planeA="%d" planeB="%d"/>' % (k, k + 1))
                s["features"].append("planar_portal")
        s["nplanes"] = 0
        return o, ns, ws

    def body(self, s, x, v, w, r):
        D = len(x)
        if s["sim"] == "ball2d":
            return '<ball x="%s" y="%s" vx="%s" vy="%s" m="%s" r="0.5" fixed="0"/>' % (n9(x[0]), n9(x[1]), n9(v[0]), n9(v[1]), r.choice(["1", "0.3", "2.7"]))
        if D == 2:
            return '<rigid_body x="%s" theta="0.25" v="%s" omega="%s" rho="%s" geo_idx="0" fixed="0"/>' % (v9(x), v9(v), n9(w), r.choice(["1", "2.5"]))
        return '<rigid_body_with_density x="%s" v="%s" omega="%s" rho="%s" fixed="0" geo_idx="0"/>' % (v9(x), v9(v), v9([w, 0.5 * w, -w]), r.choice(["1", "2.5"]))

    def gen(self, r):
        mode = r.choice(["free", "free", "pair", "pair", "any"])
        sim = r.choice(self.sims)
        env = rand_env(r)
        if mode == "any":
            s = scenes.GEN[sim](r, {"portal": True, "impact_kinds": GOOD_IMPACT, "penalty": False}, r.choice([4, 8, 12]))
            if r.random() < 0.3:
                scenes.add_script(r, s, edits=False)
            s["opts"].update(o=1, s=1)
            return {"mode": mode, "scene": s, "env": env, "resume": r.randrange(1 << 16)}
        g = scenes.GEN[sim](r, {"contact": "none" if mode == "free" else r.choice(["impact", "sobogus", "sobogus"]), "impact_kinds": ["lcp", "gr"],
                                "penalty": False, "portal": False, "spheres": True, "boxes": False, "mesh": False, "cylinder": False,
                                "layout": "pile"}, 8)
        s = scenes.base(sim)
        for k in ("dt", "end", "opts", "integrator", "contact", "mu", "features"):
            s[k] = g[k]
        if s["end"] is None:
            s["end"] = "0.1"
        if mode == "pair":  # the program has no drift correction for contacts across a boundary (their gap is "not implemented")
            s["contact"] = s["contact"].replace('stabilization="1"', 'stabilization="0"')
        s["features"].append("portal_" + mode)
        o, ns, ws = self.domain(r, s, mode)
        D = len(o)
        if sim != "ball2d":
            s["geometry"] = ['<geometry type="%s" r="0.5"/>' % ("circle" if D == 2 else "sphere")]
        if r.random() < 0.5:
            gv = [r.uniform(-10, 10) for _ in range(D)]
            s["forces"] = ['<gravity fx="%s" fy="%s"/>' % (n4(gv[0]), n4(gv[1]))] if sim == "ball2d" else ['<near_earth_gravity f="%s"/>' % scenes.V(*gv)]
        s["opts"].update(o=1, i=0, s=None)
        inside = lambda k: r.uniform(0.001, 0.999) if r.random() < 0.5 else r.choice([r.uniform(0.001, 0.03), r.uniform(0.97, 0.999)])
        plan = {"mode": mode, "scene": s, "env": env}
        if mode == "free":
            for _ in range(r.randint(1, 6)):
                x = list(o)
                for n, w in zip(ns, ws):
                    f = inside(w) * w
                    x = [x[c] + f * n[c] for c in range(D)]
                if len(ns) == 1:  # anywhere along the boundary
                    tg = tangent(ns[0]) if D == 2 else [ns[0][1], ns[0][2], ns[0][0]]
                    f = r.uniform(-1, 4)
                    x = [x[c] + f * tg[c] for c in range(D)]
                v = [r.uniform(-20, 20) for _ in range(D)]
                s["bodies"].append(self.body(s, x, v, r.uniform(-2, 2), r))
        else:
            # two bodies in contact in the middle; "shift" moves both along the first axis
            n, w = ns[0], ws[0]
            mid = list(o)
            for k, ww in zip(ns, ws):
                mid = [mid[c] + 0.5 * ww * k[c] for c in range(D)]
            ang = r.uniform(0, 2 * math.pi)
            d = [math.cos(ang), math.sin(ang)] + ([r.uniform(-0.5, 0.5)] if D == 3 else [])
            ln = math.sqrt(dot(d, d))
            h = 0.5 * r.uniform(0.93, 0.985) / ln
            va, vb = [r.uniform(-1, 1) for _ in range(D)], [r.uniform(-1, 1) for _ in range(D)]
            sp = r.uniform(0.5, 2) / ln
            va = [p - sp * q for p, q in zip(va, d)]
            vb = [p + sp * q for p, q in zip(vb, d)]
            plan["pair"] = [[[round(mid[c] + h * d[c], 9) for c in range(D)], va], [[round(mid[c] - h * d[c], 9) for c in range(D)], vb]]
            # the boundary cuts between or through the bodies
            plan["shift"] = round((0.5 + r.uniform(-0.2, 0.2) * min(1.0, 1.0 / w)) * w * r.choice([1, -1]), 6)
            plan["wr"] = [r.uniform(-2, 2), r.uniform(-2, 2), r.randrange(1 << 16)]
            if "lees_edwards" in s["features"] and r.random() < 0.6:  # the shear during a step should matter little
                s["dt"], s["end"] = r.choice([("1/500", "0.01"), ("1/2000", "0.002")])
            plan["fast"] = 0.0
            if r.random() < 0.4:  # flying towards or away from the boundary, which they reach within the step
                go = r.choice([1, -1]) * r.uniform(0.05, 0.35)
                plan["fast"] = go / scenes.dt_value(s)
                plan["shift"] = round(plan["shift"] - go, 6)
            s["opts"].update(i=1, f=None)
            s["mu"] = s["mu"]
        s["nb"] = len(s["bodies"])
        return plan

    # ------------------------------------------------------------------------------------------------------------------
    def execute(self, ctx, plan):
        return getattr(self, plan["mode"])(ctx, plan)

    def inside(self, s, C, P):
        ks = sorted(C)
        width = min(abs(dot(a[1], sub(b[0], a[0]))) for a, b, _, _ in P.list)
        step = scenes.dt_value(s)
        for j, k in enumerate(ks):
            # a body is brought back by one period per step: a contact problem without a solution (a body wedged between moving
            # fixed ones) can throw it farther than that
            if any(math.sqrt(dot(v, v)) * step > 0.8 * width for f in ks[max(0, j - 1):j + 1] for v in C[f].v):
                break
            for i in range(C[k].n):
                d = min(P.distances(C[k].x[i]))
                if d < -1e-9:
                    return Violation("outside", "body %d is at %s in frame %d, %g outside the periodic domain" % (i, C[k].x[i], k, -d))
        return None

    def any(self, ctx, plan):
        s = plan["scene"]
        _, T = baseline(ctx, s, plan["env"])
        ctx.state(T)
        P = Portals(s)
        C = {k: Frame(s["sim"], h) for k, h in configs(T).items()}
        v = self.inside(s, C, P)
        if v:
            return v
        if any(C[k].shape != C[0].shape for k in C):
            return Violation("body_changed", "mass or shape of a body changes in a periodic domain")
        ks = frames_of(T, "serial")
        sn = snapshot_rel(T, ks[plan["resume"] % len(ks)])
        ctx.world.restore({n: x for n, x in T.items() if classify(n)[1] <= classify(sn)[1]})
        r = resume(ctx, s, sn, plan["env"])
        d = diff(T, ctx.world.tree()) if r.ok() else "ends with " + r.outcome()
        if d:
            return Violation("resume_differs", "resuming a periodic scene from %s: %s" % (sn, d))
        return None

    def free(self, ctx, plan):
        s = plan["scene"]
        _, T = baseline(ctx, s, plan["env"])
        ctx.state(T)
        P = Portals(s)
        C = {k: Frame(s["sim"], h) for k, h in configs(T).items()}
        v = self.inside(s, C, P)
        if v:
            return v
        dt, m, g = scenes.dt_value(s), scenes.save_steps(s), gravity(s)
        crossings = 0
        for k in sorted(C):
            if k + 1 not in C:
                continue
            A, B = C[k], C[k + 1]
            if A.shape != B.shape:
                return Violation("body_changed", "mass or shape of a body changes in frame %d" % (k + 1))
            for i in range(A.n):
                x, v = list(A.x[i]), list(A.v[i])
                for j in range(m):
                    v1 = [p + dt * q for p, q in zip(v, g)]
                    if s["integrator"] == "symplectic_euler":
                        x = [p + dt * q for p, q in zip(x, v1)]
                    elif s["integrator"] == "exponential_euler":
                        x = [p + dt * q for p, q in zip(x, v)]
                    else:
                        x = [p + 0.5 * dt * (a + b) for p, a, b in zip(x, v, v1)]
                    x, v, c, margin = P.enforce(x, v1, (k * m + j + 1) * dt)
                    crossings += c
                    if margin < 1e-7:
                        raise Skip("body exactly on a boundary")
                if any(not near(p, q, 1e-8) for p, q in zip(x, B.x[i])):
                    return Violation("crossing", "body %d should be at %s in frame %d but is at %s" % (i, x, k + 1, list(B.x[i])))
                if any(not near(p, q, 1e-8) for p, q in zip(v, B.v[i])):
                    return Violation("crossing_velocity", "body %d should have velocity %s in frame %d but has %s" % (i, v, k + 1, list(B.v[i])))
                if A.w is not None and s["sim"] == "rb2d" and A.w[i] != B.w[i]:
                    return Violation("crossing_velocity", "free body %d changes its spin in frame %d" % (i, k + 1))
        ctx.stats["crossings"] += crossings
        return None

    def pair(self, ctx, plan):
        s = plan["scene"]
        P = Portals(s)
        a, b, shear, bd = P.list[0]
        # axis pointing from plane a into the domain
        import random
        res = []
        for shift in (0.0, plan["shift"]):
            t = copy.deepcopy(s)
            r = random.Random(plan["wr"][2])
            kicks = []
            for (x, v), w in zip(plan["pair"], plan["wr"]):
                x = [p + shift * q for p, q in zip(x, a[1])]
                v = [p + plan.get("fast", 0.0) * q for p, q in zip(v, a[1])]
                x, v, c, margin = P.enforce(x, v, 0.0)
                if margin < 1e-6:
                    raise Skip("body exactly on a boundary")
                kicks.append(c)
                t["bodies"].append(self.body(t, x, v, w, r))
            if kicks[0] == kicks[1] and shift == 0.0 and kicks[0]:
                raise Skip("bad placement")
            _, T = baseline(ctx, t, plan["env"])
            ctx.state(T)
            C = {k: Frame(t["sim"], h) for k, h in configs(T).items()}
            v = self.inside(t, C, P)
            if v:
                return v
            res.append((C, forces(T)))
        (C0, F0), (C1, F1) = res
        dt = scenes.dt_value(s)
        last = max(C0) if not shear else 1
        n0 = scal(F0[0], "collision_count")
        n1 = scal(F1[0], "collision_count")
        if not n0:
            raise Skip("the bodies do not touch")
        ctx.stats["contact_pairs"] += 1
        if n0 != n1:
            return Violation("contact_across_boundary", "bodies side by side have %d contact(s) in the middle but %d across the boundary" % (n0, n1))
        for k in range(1, last + 1):
            if k not in C0 or k not in C1:
                continue
            if k > 1 and scal(F0.get(k - 1, {}), "collision_count") != scal(F1.get(k - 1, {}), "collision_count"):
                break  # separating bodies: contacts inside the domain are swept, those across a boundary are not
            for i in range(2):
                va, vb = list(C0[k].v[i]), list(C1[k].v[i])
                tol = 1e-6 * (1 + max(map(abs, va)))
                if shear:
                    # the shear of the crossing is removed: velocities agree modulo the speed of the boundary
                    tg = tangent(a[1])
                    d = dot(sub(va, vb), tg)
                    own = sub(va, [plan.get("fast", 0.0) * q for q in a[1]])
                    tol += 12 * abs(shear) * dt * (1 + 2 * max(map(abs, own)) + min(abs(shear), 4))
                    if abs(shear) < 3 * tol:
                        raise Skip("shear too small against the timestep error")
                    rem = min(abs(d - c * shear) for c in (-1, 0, 1))
                    dn = abs(dot(sub(va, vb), a[1]))
                    if rem > tol or dn > tol:
                        return Violation("contact_across_boundary", "body %d leaves the contact with %s in the middle and %s across the shearing boundary (tolerance %g)" % (i, va, vb, tol))
                    continue
                if any(not near(p, q, tol) for p, q in zip(va, vb)):
                    return Violation("contact_across_boundary", "frame %d: body %d leaves the contact with velocity %s in the middle and %s across the boundary" % (k, i, va, vb))
                if C0[k].w is not None:
                    wa, wb = C0[k].w[i], C1[k].w[i]
                    if any(not near(p, q, 1e-5 * (1 + abs(p))) for p, q in zip(*([[wa], [wb]] if s["sim"] == "rb2d" else [wa, wb]))):
                        return Violation("contact_across_boundary", "frame %d: body %d leaves the contact with spin %s in the middle and %s across the boundary" % (k, i, wa, wb))
                xa = [p + plan["shift"] * q for p, q in zip(C0[k].x[i], a[1])]
                img, _, _, margin = P.enforce(xa, va, 0.0)
                if margin > 1e-5 and any(not near(p, q, 1e-5) for p, q in zip(img, C1[k].x[i])):
                    return Violation("contact_across_boundary", "frame %d: body %d should be at %s but is at %s" % (k, i, img, list(C1[k].x[i])))
        return None

    def shrink(self, plan):
        yield from drop_env(plan)
        if plan["mode"] == "any":
            yield from Prop.shrink(self, plan)
            return
        for q in Prop.shrink(self, plan):
            if q["scene"]["portals"] and (q["scene"]["contact"] or plan["mode"] == "free"):
                yield q


def n9(x):
    return "%.9g" % x


def v9(x):
    return " ".join(n9(c) for c in x)


n4 = scenes.n

PROPS = {"C11": Bookkeeping(), "C13": Periodic()}
