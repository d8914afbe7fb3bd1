"""C14, C15, C16: contacts and motion of recorded histories against small reference models.

All three judge the files a run leaves (configuration k and contact forces k, recorded for every step), under seeded schedules, memory
contents and clocks, and over histories assembled by processes that were killed and resumed."""
import copy, math, re

import scenes
from common import *
from engine import Skip, Violation
from props_model import GOOD_IMPACT, configs, drop_env, forces
from props_phys import Frame, Periodic, Portals, dot, expected, geo_of, gravity, n9, near, sub, tangent, v9, vec


# ------------------------------------------------------------------------------------------------------------- small geometry
def add(a, b, f=1.0):
    return [x + f * y for x, y in zip(a, b)]


def norm(a):
    return math.sqrt(dot(a, a))


def unit(a):
    n = norm(a)
    return [x / n for x in a]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def mv(R, x):  # R: rows
    return [dot(r, x) for r in R]


def mtv(R, x):
    return [sum(R[i][j] * x[i] for i in range(len(R))) for j in range(len(R[0]))]


def mm(A, B):
    return [[sum(A[i][k] * B[k][j] for k in range(3)) for j in range(3)] for i in range(3)]


def rot2(t):
    c, s = math.cos(t), math.sin(t)
    return [[c, -s], [s, c]]


def rotv(w):
    """rotation matrix of the rotation vector w"""
    a = norm(w)
    if a < 1e-300:
        return [[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]]
    x, y, z = [c / a for c in w]
    c, s = math.cos(a), math.sin(a)
    C = 1 - c
    return [[c + x * x * C, x * y * C - z * s, x * z * C + y * s],
            [y * x * C + z * s, c + y * y * C, y * z * C - x * s],
            [z * x * C - y * s, z * y * C + x * s, c + z * z * C]]


def swept(d0, d1):
    """smallest distance from the origin to the segment d0 d1"""
    e = sub(d1, d0)
    q = dot(e, e)
    t = 0.0 if q == 0 else min(1.0, max(0.0, -dot(d0, e) / q))
    return norm(add(d0, e, t))


def corners(r):
    out = [[]]
    for c in r:
        out = [o + [s * c] for o in out for s in (-1, 1)]
    return out


def sat(xa, Ra, ra, xb, Rb, rb):
    """largest separation over the separating axes of two boxes (negative: overlap depth)"""
    D = len(xa)
    ax = [[Ra[i][k] for i in range(D)] for k in range(D)] + [[Rb[i][k] for i in range(D)] for k in range(D)]
    if D == 3:
        ax += [cross(ax[i], ax[3 + j]) for i in range(3) for j in range(3)]
    d = sub(xb, xa)
    best = -1e300
    for a in ax:
        l = norm(a)
        if l < 1e-6:
            continue
        a = [c / l for c in a]
        ha = sum(ra[k] * abs(sum(a[i] * Ra[i][k] for i in range(D))) for k in range(D))
        hb = sum(rb[k] * abs(sum(a[i] * Rb[i][k] for i in range(D))) for k in range(D))
        best = max(best, abs(dot(a, d)) - ha - hb)
    return best


def extent(n, R, r):
    """half width of a box along n"""
    D = len(r)
    return sum(r[k] * abs(sum(n[i] * R[i][k] for i in range(D))) for k in range(D))


def outside(p, x, R, r):
    """distance of p from a box"""
    y = mtv(R, sub(p, x))
    return norm([max(abs(c) - h, 0.0) for c, h in zip(y, r)])


class Mesh:
    """surface samples, hull and signed distance grid of a mesh file"""

    def __init__(self, text):
        h = parse_h5(text.encode())
        self.samples = [list(c) for c in cols(h, "surface_samples/samples")]
        self.hull = [list(c) for c in cols(h, "convex_hull/vertices")]
        self.dim = h["sdf/grid_dimensions"][2]
        self.org = h["sdf/grid_origin"][2]
        self.d = h["sdf/cell_delta"][2]
        self.v = h["sdf/signed_distance"][2]
        self.size = max(norm(x) for x in self.hull)

    def dist(self, x):
        """trilinear interpolation of the grid; None outside"""
        n = self.dim
        u = [(x[c] - self.org[c]) / self.d[c] for c in range(3)]
        if any(u[c] < 0 or u[c] > n[c] - 1 for c in range(3)):
            return None
        i = [min(int(u[c]), n[c] - 2) for c in range(3)]
        f = [u[c] - i[c] for c in range(3)]
        t = 0.0
        for a in (0, 1):
            for b in (0, 1):
                for c in (0, 1):
                    w = (f[0] if a else 1 - f[0]) * (f[1] if b else 1 - f[1]) * (f[2] if c else 1 - f[2])
                    t += w * self.v[(i[0] + a) + n[0] * ((i[1] + b) + n[1] * (i[2] + c))]
        return t


# --------------------------------------------------------------------------------------------------------- the scene, as geometry
class World:
    """shapes, walls and integrator of a scene"""

    def __init__(self, s):
        self.s, self.sim = s, s["sim"]
        self.D = 3 if self.sim == "rb3d" else 2
        self.shape, self.fixed = [], []
        meshes = {}
        for b in s["bodies"]:
            if self.sim == "ball2d":
                self.shape.append(("round", vec("r", b)[0]))
                self.fixed.append(0)
                continue
            g = s["geometry"][int(vec("geo_idx", b)[0])]
            ty = re.search(r'type="(\w+)"', g).group(1)
            if ty in ("circle", "sphere"):
                self.shape.append(("round", vec("r", g)[0]))
            elif ty == "box":
                self.shape.append(("box", vec("r", g)))
            elif ty == "mesh":
                f = re.search(r'filename="[^"]*/([^"/]*)"', g).group(1)
                if f not in meshes:
                    meshes[f] = Mesh(s["files"][f])
                self.shape.append(("mesh", meshes[f]))
            else:
                raise Skip("shape without a model")
            self.fixed.append(int((vec("fixed", b) or [0])[0]))
        used = set()
        for p in s["portals"]:
            used |= {int(vec("planeA", p)[0]), int(vec("planeB", p)[0])}
        planes = [x for x in s["statics"] if "static_plane " in x]
        self.planes = [(vec("x", x), unit(vec("n", x))) for i, x in enumerate(planes) if i not in used]
        self.drums = [([vec("x", x)[0], vec("y", x)[0]], vec("r", x)[0]) for x in s["statics"] if "static_drum " in x]
        self.cyls = [(vec("x", x), unit(vec("axis", x)), vec("R", x)[0]) for x in s["statics"] if "static_cylinder " in x]
        self.portals = Portals(s) if s["portals"] else None
        self.clear = min(min(abs(dot(a[1], sub(b[0], a[0]))), 2 * bd if v else 9e9) for a, b, v, bd in self.portals.list) if self.portals else 0.0
        self.g = gravity(s)
        self.dt = scenes.dt_value(s)
        m = re.search(r'staggering="(\w+)"', s["contact"])
        self.stag = m.group(1) if m else None
        self.wallv, self.wallw = None, None  # motion a script gives to the only wall
        self.pair = {}  # coefficients a script derives from the bodies that meet
        for l in s.get("script") or []:
            f = l.split()
            if f[0] == "coefpair":
                self.pair[f[1]] = float(f[2])
            if f[:2] == ["at", "startOfSim"]:
                a = [float(x[2:]) for x in f[5:]]
                if f[3] == "setStaticPlaneVelocity":
                    self.wallv = a
                elif f[3] == "setStaticPlaneAngularVelocity":
                    self.wallw = a[0]
                elif f[3] == "setStaticCylinderAngularVelocity":
                    self.wallw = a

    def coef(self, which, c, default):
        if which not in self.pair:
            return default
        return self.pair[which] * ((max(c[0], -1) + max(c[1], -1) + 2) % 4) / 3.0

    def wall_velocity(self, p, x):
        """velocity of the point of the wall that touches a round body centred at x at p"""
        u = list(self.wallv) if self.wallv else [0.0] * self.D
        if self.wallw is not None:
            if self.cyls:
                X, ax, R = self.cyls[0]
                d = sub(x, X)
                h = dot(ax, d)
                u = add(u, cross(self.wallw, add([h * c for c in ax], unit(add(d, ax, -h)), R)))
            else:
                arm = sub(p, self.planes[0][0])
                u = add(u, [-self.wallw * arm[1], self.wallw * arm[0]])
        return u

    def size(self, i):
        k, r = self.shape[i]
        return r if k == "round" else norm(r) if k == "box" else r.size

    def predicted(self, A, i):
        """position and orientation of body i at the end of a step without contacts; orientation error bound"""
        dt, g = self.dt, self.g
        x, v = list(A.x[i]), list(A.v[i])
        if self.fixed[i]:
            x1 = add(x, v, dt) if self.sim == "rb2d" else x
        elif self.stag == "symplectic_euler":
            x1 = add(add(x, v, dt), g, dt * dt)
        elif self.s["integrator"] == "symplectic_euler":
            x1 = add(add(x, v, dt), g, dt * dt)
        elif self.s["integrator"] == "exponential_euler":
            x1 = add(x, v, dt)
        else:
            x1 = add(add(x, v, dt), g, 0.5 * dt * dt)
        if self.shape[i][0] == "round":
            return x1, None, None, 0.0
        if self.D == 2:
            t = A.rest[i][2]
            return x1, rot2(t), rot2(t + dt * A.w[i]), 0.0
        q = A.rest[i][3:]
        R0 = [q[0:3], q[3:6], q[6:9]]
        if self.fixed[i]:
            return x1, R0, R0, 0.0
        w = A.w[i]
        I = [abs(c) for c in A.I[i]]
        a = norm(w) * dt
        return x1, R0, mm(rotv([dt * c for c in w]), R0), (a * a * max(I) / min(I) + 1e-12) * self.size(i)


# ----------------------------------------------------------------------------------------------------------------------- C14
class Contacts(Prop):
    id = "C14"
    rule = ("one case = one generated scene (a dense cloud of bodies of very different sizes and speeds, a pile, boxes, meshes, drums, cylinders "
            "or a periodic domain) whose contact files are compared, step by step, with the contacts a brute-force reference model derives from "
            "the recorded configuration, over histories assembled by killed and resumed processes; non-trivial = at least one contact expected; "
            "distinct = different complete event history")
    converged_only = False

    # ------------------------------------------------------------------------------------------------------- generation
    def contact(self, r, s, sim):
        k = r.random()
        if k < 0.7:
            st = r.choice(["geometric", "geometric", "stabilized"] + (["symplectic_euler"] if sim != "rb2d" else []))
            s["mu"] = r.choice(["0", "0.3", "1"])
            s["contact"] = ('<sobogus_friction_solver mu="%s" CoR="%s" max_iters="%d" eval_every="2" tol="1.0e-8" cache_impulses="none" staggering="%s"%s/>'
                            % (s["mu"], "0" if st == "symplectic_euler" else r.choice(["0", "0.5", "1"]), r.choice([2, 6]), st,
                               ' stabilization="0" penetration_threshold="0"' if st == "symplectic_euler" else ""))
            s["features"].append("sobogus_" + st)
        else:
            s["mu"] = None
            s["contact"] = '<impact_operator type="lcp" CoR="%s"%s><solver name="%s" tol="1.0e-6"%s/></impact_operator>' % (
                r.choice(["0", "0.5"]), "" if sim == "rb3d" else ' cache_impulses="0"', "apgd" if sim == "ball2d" else "ql", ' max_iters="20"' if sim == "ball2d" else "")
            s["features"].append("lcp")

    def cloud(self, r, sim):
        s = scenes.base(sim)
        D = 3 if sim == "rb3d" else 2
        F = s["features"]
        s["dt"] = r.choice(["1/100", "1/50", "1/20", "0.003", "1/7"])
        steps = r.choice([1, 1, 2, 3])
        s["end"] = scenes.n(steps * scenes.dt_value(s))
        s["opts"] = {"o": 1, "i": 1, "f": None, "s": r.choice([None, 0, 1]), "e": None}
        s["integrator"] = r.choice(["split_ham", "dmv", "exponential_euler"]) if D == 3 else r.choice(["verlet", "symplectic_euler"])
        self.contact(r, s, sim)
        if r.random() < 0.6:
            g = [r.uniform(-10, 10) for _ in range(D)]
            s["forces"] = ['<gravity fx="%s" fy="%s"/>' % (scenes.n(g[0]), scenes.n(g[1]))] if sim == "ball2d" else ['<near_earth_gravity f="%s"/>' % scenes.V(*g)]
        fam = "round"
        if sim == "rb2d":
            fam = r.choice(["round", "round", "box", "mix"])
        elif sim == "rb3d":
            fam = r.choice(["round", "round", "box", "mesh"])
        portal = fam == "round" and r.random() < 0.3
        lo, hi = r.choice([(0.05, 3.0), (0.3, 0.6), (0.05, 0.1), (0.5, 0.5)]) if fam == "round" else (0.2, r.choice([0.3, 1.0]))
        if portal:  # a body meets its own image unless it is well below half the domain
            lo, hi = min(lo, 0.3), min(hi, 0.7)
        rad = lambda: float(scenes.n(math.exp(r.uniform(math.log(lo), math.log(hi)))))
        nb = r.choice([2, 3, 5, 8, 12, 20] + ([40] if fam == "round" else []))
        if fam == "round" and r.random() < 0.02 and not portal:
            nb = r.choice([80, 150, 300])
        if fam in ("box", "mix"):
            nb = min(nb, 8)
        if fam == "mesh":
            nb = min(nb, 5)
        F += ["cloud", "fam_" + fam]
        off = [r.choice([0, 0, -7.3, 40.5, -120]) for _ in range(D)]
        fixed_ok = s["integrator"] != "exponential_euler" and fam != "mix"
        if fam == "box" and sim == "rb2d":
            fixed_ok = False
        geo = []
        if sim != "ball2d":
            for _ in range(r.choice([1, 2, 4])):
                k = fam if fam != "mix" else r.choice(["round", "box"])
                if k == "round":
                    a = rad()
                    geo.append(a)
                    s["geometry"].append('<geometry type="%s" r="%s"/>' % ("sphere" if D == 3 else "circle", scenes.n(a)))
                elif k == "box":
                    a = [rad() for _ in range(D)]
                    geo.append(norm(a))
                    s["geometry"].append('<geometry type="box" r="%s"/>' % scenes.V(*a))
                else:
                    h = r.choice([0.5, 0.4, 0.25])
                    nm = "mesh%d.h5" % len(geo)
                    s["files"][nm] = scenes.box_mesh(h)
                    s["geometry"].append('<geometry type="mesh" filename="../scene/%s"/>' % nm)
                    geo.append(h * 1.7)
        sizes = [rad() for _ in range(nb)] if sim == "ball2d" else None
        gi = None if sim == "ball2d" else [r.randrange(len(geo)) for _ in range(nb)]
        if sizes is None:
            sizes = [geo[i] for i in gi]
        # region filled to a seeded density
        vol = sum((2 * x) ** D for x in sizes)
        L = (vol * r.choice([0.4, 0.8, 1.5, 4.0])) ** (1.0 / D) + max(sizes) * r.choice([0, 0.5, 1])
        dom = None
        if portal:
            dom = Periodic.domain(Periodic(), r, s, "free" if r.random() < 0.5 else "pair")
            F.append("periodic")
        else:
            for _ in range(r.choice([0, 1, 2, 4])):
                n_ = [r.uniform(-1, 1) for _ in range(D)]
                if r.random() < 0.4:
                    n_ = [0.0] * D
                    n_[r.randrange(D)] = r.choice([1.0, -1.0])
                n_ = [float(scenes.n(c)) for c in n_]
                p = [o + L * r.uniform(0, 1) for o in off]
                # push it back so that some bodies reach it and most are on the right side
                c = [o + 0.5 * L for o in off]
                p = add(c, unit(n_), -L * r.uniform(0.2, 0.6))
                s["statics"].append('<static_plane x="%s" n="%s"/>' % (v9(p), scenes.V(*n_)))
            c = [o + 0.5 * L for o in off]
            if sim == "ball2d" and r.random() < 0.25:
                for k in range(r.choice([1, 1, 2, 3])):
                    e = [y + (L * r.uniform(-0.2, 0.2) if k else 0) for y in c]
                    s["statics"].append('<static_drum x="%s" y="%s" r="%s"/>' % (n9(e[0]), n9(e[1]), n9(L * r.choice([0.5, 0.6] if k else [0.5]) + max(sizes))))
                F.append("drum")
            if sim == "rb3d" and fam == "round" and r.random() < 0.25:
                for k in range(r.choice([1, 1, 2])):
                    e = [y + (L * r.uniform(-0.2, 0.2) if k else 0) for y in c]
                    s["statics"].append('<static_cylinder x="%s" axis="%s" R="%s"/>' % (v9(e), r.choice(["0 0 1", "0 1 0", "0.6 0 0.8", "1 2 0"]), n9(L * r.choice([0.5, 0.6] if k else [0.5]) + max(sizes))))
                F.append("cylinder")
        speed = r.choice([0.5, 5, 40]) * (1 if fam == "round" else 0.2)
        for i in range(nb):
            if dom:
                o, ns, ws = dom
                x = list(o)
                for n_, w in zip(ns, ws):
                    x = add(x, n_, w * r.choice([r.uniform(0.001, 0.999), r.uniform(0.001, 0.06), r.uniform(0.94, 0.999)]))
                if len(ns) < D:
                    rest = [tangent(ns[0])] if D == 2 else [[1.0 if c == a else 0.0 for c in range(3)] for a in range(3) if all(abs(n_[a]) < 0.5 for n_ in ns)]
                    for t in rest:
                        x = add(x, t, r.uniform(-1.5, 1.5))
            else:
                x = [o + L * r.uniform(0, 1) for o in off]
            v = [r.uniform(-1, 1) * speed for _ in range(D)]
            if r.random() < 0.2:
                v = [0.0] * D
            fx = 1 if fixed_ok and r.random() < 0.15 else 0
            if fx and (D == 3 or r.random() < 0.5):
                v = [0.0] * D
            if sim == "ball2d":
                s["bodies"].append('<ball x="%s" y="%s" vx="%s" vy="%s" m="%s" r="%s" fixed="0"/>' % (n9(x[0]), n9(x[1]), n9(v[0]), n9(v[1]), r.choice(["1", "0.3"]), n9(sizes[i])))
            elif D == 2:
                w = 0.0 if fx else r.uniform(-3, 3)
                s["bodies"].append('<rigid_body x="%s" theta="%s" v="%s" omega="%s" rho="%s" geo_idx="%d" fixed="%d"/>'
                                   % (v9(x), n9(r.choice([0, r.uniform(-3, 3)])), v9(v), n9(w), r.choice(["1", "2.5"]), gi[i], fx))
            else:
                w = [0.0] * 3 if fx else [r.uniform(-2, 2) for _ in range(3)]
                R = "" if r.random() < 0.3 else ' R="%s"' % scenes.V(*[r.uniform(-2, 2) for _ in range(3)])
                s["bodies"].append('<rigid_body_with_density x="%s" v="%s" omega="%s" rho="%s" fixed="%d" geo_idx="%d"%s/>'
                                   % (v9(x), v9(v), v9(w), r.choice(["1", "2.5"]), fx, gi[i] - (len(geo) if r.random() < 0.1 else 0), R))
        s["nb"] = nb
        s["nplanes"] = sum("static_plane " in x for x in s["statics"]) - 2 * len(s["portals"])
        s["ncyl"] = sum("static_cylinder " in x for x in s["statics"])
        return s

    def gen(self, r):
        sim = r.choice(self.sims)
        if r.random() < 0.75:
            s = self.cloud(r, sim)
        else:
            s = scenes.GEN[sim](r, {"impact_kinds": GOOD_IMPACT, "penalty": False, "portal": False, "contact": r.choice(["impact", "sobogus", "sobogus"])}, r.choice([2, 5]))
            if sim == "rb3d":
                s["bodies"] = [re.sub(r' (v|omega)="[^"]*"', r' \1="0 0 0"', b) if 'fixed="1"' in b else b for b in s["bodies"]]
                if s["integrator"] == "exponential_euler":
                    s["bodies"] = [b.replace('fixed="1"', 'fixed="0"') for b in s["bodies"]]
            s["opts"].update(o=1, i=1, f=None, s=r.choice([0, 1, None]))
        return {"scene": s, "env": rand_env(r), "kill": r.randrange(1 << 16) if r.random() < 0.2 else None}

    # ------------------------------------------------------------------------------------------------------------ model
    def wanted(self, W, A, k):
        """expected contacts of the step that starts at frame A: exact ones (a, b, sure, n, p) and groups (a, b, at least, at most)"""
        n, D = A.n, W.D
        pred = [W.predicted(A, i) for i in range(n)]
        exact, groups = [], []
        scale = 1 + max([max(map(abs, x)) for x in A.x] + [max(map(abs, p[0])) for p in pred])
        tol = 1e-8 * scale
        sure = lambda gap, e: None if gap > e else gap < -e  # None: certainly not
        P = W.portals
        t = (k + 1) * W.dt
        for i in range(n):
            xi, x1, Ri0, Ri1, ei = A.x[i], *pred[i]
            kind, geo = W.shape[i]
            if not W.fixed[i]:
                for j, (p, nn) in enumerate(W.planes):
                    code = -j - 2
                    if kind == "round":
                        c = sure(dot(nn, sub(x1, p)) - geo, tol)
                        if c is not None:
                            exact.append((i, code, c, nn, add(xi, nn, -geo)))
                    else:
                        for b in corners(geo) if kind == "box" else geo.hull:
                            c = sure(dot(nn, sub(add(x1, mv(Ri1, b)), p)), tol + ei)
                            if c is not None:
                                exact.append((i, code, c, nn, add(xi, mv(Ri0, b))))
                for j, (X, R) in enumerate(W.drums):
                    c = sure(R - geo - norm(sub(x1, X)), tol)
                    if c is not None:
                        nn = unit(sub(X, xi))
                        exact.append((i, -j - 2, c, nn, add(xi, nn, -geo)))
                for j, (X, ax, R) in enumerate(W.cyls):
                    perp = lambda y: add(sub(y, X), ax, -dot(ax, sub(y, X)))
                    if kind == "round":
                        c = sure(R - geo - norm(perp(x1)), tol)
                        if c is not None:
                            nn = unit([-q for q in perp(xi)])
                            exact.append((i, -j - 2, c, nn, add(xi, nn, -geo)))
                    else:
                        groups.append((i, -j - 2, 0, 10 ** 6))
            for j in range(i + 1, n):
                if W.fixed[i] and W.fixed[j]:
                    continue
                a, b = (j, i) if W.fixed[i] else (i, j)
                (ka, ga), (kb, gb) = W.shape[a], W.shape[b]
                xa, xb, pa, pb = A.x[a], A.x[b], pred[a], pred[b]
                d1 = sub(pa[0], pb[0])
                if norm(sub(xa, xb)) - norm(sub(pa[0], xa)) - norm(sub(pb[0], xb)) > W.size(a) + W.size(b) + tol and not P:
                    continue  # certainly apart
                e = tol + pa[3] + pb[3]
                if ka == kb == "round":
                    R = ga + gb
                    d0 = sub(xa, xb)
                    cross_b = False
                    if D == 2 and not P:
                        gap = swept(d0, d1) - R
                        c = sure(gap, 1e-7 * scale)
                    elif D == 2:
                        c = sure(norm(d1) - R, 1e-7 * scale)
                        if c is None and swept(d0, d1) < R + 1e-7 * scale:
                            c = False
                    else:
                        c = sure(norm(d1) - R, tol)
                    if P:
                        v = self.images(W, A, a, b, pred, t, scale)
                        if v:
                            hit, must, corner = v
                            if c is not None or swept(d0, d1) < R + 1e-7 * scale:
                                hit = hit + [d0]
                            # no two images meet at once in a domain that is wide enough; the motion since the start of the step may add one
                            few = 1 if c or swept(d0, d1) > R + 1e-7 * scale else 2
                            groups.append((a, b, 1 if must or c else 0, few if W.clear > 2 * R + 1e-3 * scale else 4, hit, corner))
                            continue
                    if c is not None:
                        if norm(d0) == 0:
                            continue
                        nn = unit(d0)
                        if W.sim == "ball2d":
                            p = add(xa, nn, -ga)
                        elif W.fixed[b]:
                            p = None
                        else:
                            p = add(xa, sub(xb, xa), ga / R)
                        exact.append((a, b, c, nn, p))
                elif ka == kb == "box":
                    c = sure(sat(pa[0], pa[2], ga, pb[0], pb[2], gb), 1e-6 * scale + e)
                    if c is not None:
                        groups.append((a, b, 1 if c else 0, 16))
                elif ka == kb == "mesh":
                    lo = hi = 0
                    for (xu, _, Ru, _), gu, (xo, _, Ro, _), go in ((pa, ga, pb, gb), (pb, gb, pa, ga)):
                        for q in gu.samples:
                            y = mtv(Ro, sub(add(xu, mv(Ru, q)), xo))
                            z = go.dist(y)
                            edge = min(min(y[c] - go.org[c], go.org[c] + (go.dim[c] - 1) * go.d[c] - y[c]) for c in range(3))
                            if z is None:
                                hi += edge > -e - 1e-6
                            elif z < 2 * e + 1e-9:
                                hi += 1
                                lo += z < -2 * e - 1e-9 and edge > e + 1e-6
                    if hi:
                        groups.append((a, b, lo, hi))
                elif {ka, kb} == {"round", "box"} and D == 2:
                    (xo, _, _, _), ro, (xq, _, Rq, _), rq = (pa, ga, pb, gb) if ka == "round" else (pb, gb, pa, ga)
                    y = mtv(Rq, sub(xo, xq))
                    o = norm([max(abs(y[c]) - rq[c], 0.0) for c in range(2)])
                    c = sure(o - ro, 1e-7 * scale)
                    if c is not None:
                        groups.append((a, b, 1 if c else 0, 1))
                else:
                    groups.append((a, b, 0, 10 ** 6))
        return exact, groups, scale

    def images(self, W, A, a, b, pred, t, scale):
        """contacts of two round bodies across the boundaries of a periodic domain: (displacements at the start of the step, certain?, at a corner?)"""
        P, R = W.portals, W.shape[a][1] + W.shape[b][1]
        planes = [(k, pl, ot, v, bd) for k, (q, w, v, bd) in enumerate(P.list) for pl, ot in ((q, w), (w, q))]
        inside = min(dot(pl[1], sub(pred[u][0], pl[0])) for u in (a, b) for _, pl, _, _, _ in planes) > 1e-6 * scale
        own = {}
        for u in (a, b):
            x0, x1, r = A.x[u], pred[u][0], W.shape[u][1]
            own[u] = [(x1, [x0], None, True)]
            for m, (k, pl, ot, v, bd) in enumerate(planes):
                img, at0 = P.through(x1, pl, ot, v, bd, t)[0], P.through(x0, pl, ot, v, bd, t)[0]
                reach = dot(pl[1], sub(x1, pl[0])) < r - 1e-6 * scale and dot(ot[1], sub(x1, ot[0])) > r + 1e-6 * scale
                own[u].append((img, [add(x0, sub(img, x1))] + ([at0] if v else []), m, reach))
        hit, must, corner = [], False, False
        for ya, xa, ma, ra in own[a]:
            for yb, xb, mb, rb in own[b]:
                if ma == mb and (ma is None or not planes[ma][3]):  # at their own place, or carried along together
                    continue
                shear = [planes[m][4] for m in (ma, mb) if m is not None and planes[m][3]]
                d = norm(sub(ya, yb))
                if ma == mb:  # the image along a shearing boundary repeats
                    if d < R + 1e-7 * scale and norm(sub(sub(ya, yb), sub(own[a][0][0], own[b][0][0]))) > 1e-6 * scale:
                        hit += [sub(p, q) for p in xa for q in xb]
                    continue
                if d < R + 1e-7 * scale + 2 * sum(shear):
                    hit += [sub(p, q) for p in xa for q in xb]
                if d < R - 1e-6 * scale and inside:
                    if ma is None or mb is None:
                        must = must or ra and rb
                    elif planes[ma][0] != planes[mb][0] and not shear:
                        if ra and rb:
                            must = True
                        else:
                            corner = True
        # across a corner: both images of both bodies are away, the same place is reached through either boundary
        return (hit, must, corner and not must) if hit else None

    def shaped(self, W, A, i, j, p, n, scale, ctx):
        """does a contact of two bodies that are not both round fit their shapes?"""
        (ki, gi), (kj, gj) = W.shape[i], W.shape[j]
        (xi, _, Ri, ei), (xj, _, Rj, ej) = W.predicted(A, i), W.predicted(A, j)
        e = 1e-6 * scale + ei + ej
        if ki == kj == "box":
            d = sub(xi, xj)
            depth = -sat(xi, Ri, gi, xj, Rj, gj)
            along = extent(n, Ri, gi) + extent(n, Rj, gj) - dot(n, d)
            ctx.stats["box_contacts_checked"] += 1
            if dot(n, d) < -e:
                return "the normal does not point towards the first body"
            if along > (1.1 if W.D == 3 else 1.0) * depth + 4 * e:
                return "the boxes overlap by %g along the normal but by %g in another direction" % (along, depth)
            # where two edges meet, the point is taken from the lines they lie on, which may end before it
            face = W.D == 2 or any(abs(abs(sum(n[q] * R[q][c] for q in range(3))) - 1) < 1e-9 for R in (Ri, Rj) for c in range(3))
            for x, R, g in ((xi, Ri, gi), (xj, Rj, gj)) if face else ():
                if outside(p, x, R, g) > along + e:
                    return "the point is %g away from the overlap" % outside(p, x, R, g)
            if not face:
                lines, side = [], -1.0
                for x, R, g in ((xi, Ri, gi), (xj, Rj, gj)):
                    ax = [[R[q][c] for q in range(3)] for c in range(3)]
                    al = [dot(n, a) for a in ax]
                    c = min(range(3), key=lambda k: abs(al[k]))
                    if abs(al[c]) > 1e-6 or min(abs(al[k]) for k in range(3) if k != c) < 1e-3:
                        lines = None
                        break
                    o = x
                    for k in range(3):
                        if k != c:
                            o = add(o, ax[k], math.copysign(g[k], side * al[k]))
                    lines.append((o, ax[c]))
                    side = 1.0
                if lines:
                    (o1, u1), (o2, u2) = lines
                    w, c = sub(o2, o1), dot(u1, u2)
                    if 1 - c * c > 0.01:
                        s1, s2 = (dot(u1, w) - c * dot(u2, w)) / (1 - c * c), (c * dot(u1, w) - dot(u2, w)) / (1 - c * c)
                        pp = [0.5 * (a + b) for a, b in zip(add(o1, u1, s1), add(o2, u2, s2))]
                        ctx.stats["edge_contacts_checked"] += 1
                        if any(not near(a, b, 20 * e / (1 - c * c)) for a, b in zip(p, pp)):
                            return "the point is not where the two edges are closest: %s" % pp
        elif {ki, kj} == {"round", "box"} and W.D == 2:
            ctx.stats["circle_box_contacts_checked"] += 1
            sg = 1.0 if ki == "round" else -1.0
            (c, r), (x, R, h) = ((xi, gi), (xj, Rj, gj)) if ki == "round" else ((xj, gj), (xi, Ri, gi))
            y = mtv(R, sub(c, x))
            cl = [min(max(a, -b), b) for a, b in zip(y, h)]
            d = norm(sub(y, cl))
            if d > 1e-4 * scale:
                m = mv(R, [q / d for q in sub(y, cl)])
                pp = add(add(x, mv(R, cl)), m, 0.5 * (d - r))
                if W.fixed[j]:  # on the disc where the step starts
                    pp = add(A.x[i], m, -r)
                if any(not near(a, sg * b, 1e-3 * e / 1e-6 / scale + 1e-5) for a, b in zip(n, m)) or any(not near(a, b, 10 * e) for a, b in zip(p, pp)):
                    return "the disc is nearest to the box at %s with normal %s" % (pp, m)
        elif ki == kj == "mesh":
            near_p = min(norm(sub(p, add(x, mv(R, q)))) for x, R, g in ((xi, Ri, gi), (xj, Rj, gj)) for q in g.samples)
            if near_p > 2 * e:
                return "the point is %g away from every surface sample" % near_p
        return None

    def judge(self, ctx, s, T):
        W = World(s)
        if W.g is None:
            raise Skip("forces without a model")
        C = {k: Frame(s["sim"], h) for k, h in configs(T).items() if h is not None}
        Fo = forces(T)
        seen, late = 0, None
        for k in sorted(Fo):
            if k not in C:
                continue
            A = C[k]
            if not finite(A):  # an orientation solve without a solution (a tiny body spun up beyond half a turn per step)
                break
            exact, groups, scale = self.wanted(W, A, k)
            h = Fo[k]
            rec = list(zip(cols(h, "collision_indices"), cols(h, "collision_points"), cols(h, "collision_normals")))
            seen += len(exact) + len(groups)
            ctx.stats["contacts_checked"] += len(rec)
            ctx.stats["contacts_expected"] += sum(1 for e in exact if e[2]) + sum(1 for g in groups if g[2])
            left = {}
            for (a, b), p, n in rec:
                left.setdefault((a, b) if b < 0 else (min(a, b), max(a, b)), []).append(((a, b), p, n))
            for (a, b), p, n in rec:
                if b >= 0 and a < A.n and b < A.n and W.fixed[a] and not W.fixed[b]:
                    return Violation("wrong_contact", "frame %d: contact %d-%d lists the fixed body first" % (k, a, b))
            eps = 1e-7 * scale
            for a, b, c, n, p in sorted(exact, key=lambda e: not e[2]):
                L = left.get((a, b) if b < 0 else (min(a, b), max(a, b)), [])
                hit = None
                for m in L:
                    nn = n if m[0] == (a, b) else [-x for x in n]
                    if all(near(x, y, 1e-6 * scale) for x, y in zip(m[2], nn)) and (p is None or s["sim"] == "ball2d" and b >= 0 or all(near(x, y, eps) for x, y in zip(m[1], p))):
                        if s["sim"] == "ball2d" and b >= 0:
                            f = m[0][0]
                            pp = add(A.x[f], nn, -W.shape[f][1])
                            if not all(near(x, y, eps) for x, y in zip(m[1], pp)):
                                continue
                        hit = m
                        break
                if hit:
                    L.remove(hit)
                elif c:
                    if L:
                        return Violation("wrong_contact", "frame %d: bodies %d and %d touch with normal %s at %s, recorded is %s" % (k, a, b, n, p, L[0]))
                    return Violation("missed_contact", "frame %d: %s touch but no contact is recorded" % (k, who(a, b)))
            for a, b, lo, hi, *rest in groups:
                key = (a, b) if b < 0 else (min(a, b), max(a, b))
                L = left.pop(key, [])
                if rest and rest[1] and not L:
                    ctx.stats["corner_contacts_missed"] += 1  # listed in known_findings.json
                    if "corner" in s["features"]:
                        late = late or Violation("missed_corner_contact", "frame %d: %s touch across the corner of the periodic domain but no contact is recorded (only one of them reaches over its boundaries)" % (k, who(a, b)))
                if len(L) < lo:
                    return Violation("missed_contact", "frame %d: %s have %d contact(s) recorded, at least %d expected" % (k, who(a, b), len(L), lo))
                if len(L) > hi:
                    return Violation("invented_contact", "frame %d: %s have %d contact(s) recorded, at most %d possible" % (k, who(a, b), len(L), hi))
                for (i, j), p, n in L:
                    if not near(norm(n), 1.0, 1e-6) and not s["files"]:
                        return Violation("wrong_contact", "frame %d: the normal %s of contact %d-%d is no unit vector" % (k, n, i, j))
                    if rest:
                        ctx.stats["periodic_contacts_checked"] += 1
                        ri, rj = W.shape[i][1], W.shape[j][1]
                        for d in rest[0]:
                            m = unit(d if (i, j) == (a, b) else [-x for x in d])
                            pp = [add(A.x[i], m, -ri), add(A.x[i], m, -norm(d) * ri / (ri + rj))][s["sim"] != "ball2d"]
                            if all(near(x, y, 1e-6 * scale) for x, y in zip(n, m)) and (W.fixed[b] or all(near(x, y, eps) for x, y in zip(p, pp))):
                                break
                        else:
                            return Violation("wrong_contact", "frame %d: contact %d-%d at %s with normal %s fits none of their images: %s apart" % (k, i, j, list(p), list(n), rest[0]))
                    if j >= 0 and not W.portals:
                        bad = self.shaped(W, A, i, j, p, n, scale, ctx)
                        if bad:
                            return Violation("wrong_contact", "frame %d: contact %d-%d at %s with normal %s: %s" % (k, i, j, list(p), list(n), bad))
                    # the contact point lies on both bodies
                    if j >= 0 and not W.portals:
                        slack = eps + sum(norm(sub(W.predicted(A, q)[0], A.x[q])) for q in (i, j))
                        for q in (i, j):
                            if norm(sub(p, A.x[q])) > W.size(q) + 0.5 * (W.size(i) + W.size(j)) + slack:
                                return Violation("wrong_contact", "frame %d: contact point %s of %d-%d is %g away from body %d of size %g" % (k, p, i, j, norm(sub(p, A.x[q])), q, W.size(q)))
            for key, L in left.items():
                if L:
                    return Violation("invented_contact", "frame %d: %s do not touch but the contact %s is recorded" % (k, who(*key), L[0]))
        if not seen:
            raise Skip("no contact expected")
        return late

    def initial(self, ctx, s, log, T):
        """the warning about collisions in the initial state, for scenes without periodic boundaries"""
        C = configs(T)
        if s["sim"] == "rb2d" or s["portals"] or s["script"] or C.get(0) is None:
            return None
        W = World(s)
        W.dt = 0.0
        if W.g is None:
            return None
        A = Frame(s["sim"], C[0])
        exact, groups, scale = self.wanted(W, A, -1)
        lo = sum(1 for e in exact if e[2]) + sum(g[2] for g in groups)
        hi = len(exact) + sum(g[3] for g in groups)
        said = re.findall(r"^   (\w+) : (\d+) : (\S+)(?: : (\S+))?$", log, re.M)
        n = sum(int(x[1]) for x in said)
        ctx.stats["initial_warnings_checked"] += 1
        if not lo <= n <= hi:
            return Violation("wrong_initial_collisions", "%d initial collisions are reported, %s expected: %s" % (n, lo if lo == hi else "%d to %d" % (lo, hi), said))
        if groups or len(exact) != lo or any(W.fixed) or W.drums or not exact:
            return None
        depth = vol = 0.0
        for a, b, _, nn, _ in exact:
            ra = W.shape[a][1]
            if W.shape[a][0] != "round":
                return None
            if b >= 0:
                rb = W.shape[b][1]
                d = norm(sub(A.x[a], A.x[b]))
                depth += min(0.0, d - ra - rb)
                if d <= abs(ra - rb):
                    vol += 4.0 / 3.0 * math.pi * min(ra, rb) ** 3
                elif d < ra + rb:
                    vol += math.pi * (ra + rb - d) ** 2 * (d * d + 2 * d * (ra + rb) - 3 * (ra - rb) ** 2) / (12 * d)
            elif W.cyls and W.planes:
                return None  # which of the two walls is meant
            elif W.cyls:
                X, ax, R = W.cyls[-b - 2]
                y = sub(A.x[a], X)
                depth += min(0.0, R - norm(add(y, ax, -dot(ax, y))) - ra)
            else:
                p, m = W.planes[-b - 2]
                depth += min(0.0, dot(m, sub(A.x[a], p)) - ra)
        tells = [float(x[2]) for x in said if "not_supported" not in x[2]]
        if len(tells) == len(said) and not near(sum(tells), depth, 1e-4 * abs(depth) + 1e-8 * scale):
            return Violation("wrong_initial_collisions", "the initial collisions have a total depth of %g, reported: %s" % (depth, said))
        vols = [float(x[3]) for x in said if x[3] and "not_supported" not in x[3]]
        if vols and not near(sum(vols), vol, 1e-4 * vol + 1e-8 * scale ** 3):
            return Violation("wrong_initial_collisions", "the initial overlaps of the spheres have a total volume of %g, reported: %s" % (vol, said))
        ctx.stats["initial_depths_checked"] += 1
        return None

    def execute(self, ctx, plan):
        s = plan["scene"]
        base, T = baseline(ctx, s, plan["env"])
        ctx.state(T)
        if not self.converged_only:
            v = self.initial(ctx, s, base.log, T)
            if v:
                return v
        ctx.loose = 0.0
        ctx.dmv_failed = "DMV failed" in base.log
        if self.converged_only:
            if re.search("exceeded max iter|failed to solve QP|DMV failed", base.log):
                raise Skip("a solver gave up")
            # the projected gradient solver says how far it got: thousands of iterations bring it close to a solution at the least
            got = [float(x) for x in re.findall(r"LCPOperatorAPGD warning.*: (\S+)", base.log)]
            ctx.loose = max(got + [0.0])
            if not ctx.loose < 1e-4:
                A = Frame(s["sim"], configs(T)[0])
                top = 1 + max(norm(v) for v in A.v) + norm(gravity(s) or [0, 0]) * scenes.dt_value(s)
                if not ctx.loose < 0.05 * top:
                    if not self.roomy(s, T):
                        raise Skip("a squeezed body")
                    return Violation("no_solution", "the projected gradient solver ends with an error of %g in a scene with speeds up to %g" % (ctx.loose, top))
                raise Skip("a solver gave up")
        v = self.judge(ctx, s, T)
        if v or plan["kill"] is None:
            return v
        T2 = assembled(ctx, s, plan, base)
        return self.judge(ctx, s, T2) if T2 is not None else None

    def roomy(self, s, T):
        """is there, in every step, a motion of the bodies that separates all contacts at a fair fraction of its speed? (otherwise the
        contact problem has no solution, or one that only enormous impulses reach)"""
        C = {k: Frame(s["sim"], h) for k, h in configs(T).items()}
        Fo = forces(T)
        W = World(s)
        if W.g is None or not Fo or len(Fo) < len(C) - 1 or set(Fo) != set(range(len(Fo))) or scenes.save_steps(s) != 1:
            return False
        for k in sorted(Fo):
            if k not in C:
                continue
            M = Moment(W, C[k], Fo[k])
            con = [(a, b, n) for a, b, p, n, f in M.con]
            v = [[0.0] * W.D for _ in range(M.n)]
            for i in range(3000):
                if not con:
                    break
                gap, a, b, n = min((dot(n, sub(v[a], v[b] if b >= 0 and not W.fixed[b] else [0.0] * W.D)), a, b, n) for a, b, n in con)
                if gap > 0.08 * max(norm(x) for x in v):
                    break
                if not W.fixed[a]:
                    v[a] = add(v[a], n)
                if b >= 0 and not W.fixed[b]:
                    v[b] = add(v[b], n, -1.0)
            else:
                return False
        return True

    def shrink(self, plan):
        if plan["kill"] is not None:
            q = copy.deepcopy(plan)
            q["kill"] = None
            yield q
        yield from drop_env(plan)
        n = len(plan["scene"]["bodies"])
        for w in (n // 2, n // 4):
            for i in range(0, n, w) if w > 1 else []:
                q = copy.deepcopy(plan)
                del q["scene"]["bodies"][i:i + w]
                q["scene"]["nb"] = len(q["scene"]["bodies"])
                if q["scene"]["bodies"]:
                    yield q
        for q in Prop.shrink(self, plan):
            if q["scene"]["contact"]:
                yield q


def finite(A):
    return all(math.isfinite(c) for i in range(A.n) for c in list(A.rest[i]) + list(A.v[i]))


def who(a, b):
    return "body %d and wall %d" % (a, -b - 2) if b < 0 else "bodies %d and %d" % (a, b)


def assembled(ctx, s, plan, base):
    """the same history written by a process killed at a seeded operation and a second one resumed from its last usable snapshot"""
    ops = base.ops()
    k = ops[plan["kill"] % len(ops)][0]
    start(ctx, s, plan["env"], [[k, "crash_before", 0, 0]])
    t = ctx.world.tree()
    ks = frames_of(t, "serial")
    sn = None
    if s["opts"]["s"] == 1 and len(ks) > 1:
        sn = snapshot_rel(t, ks[-2])
    elif s["opts"]["s"] == 0 and "serial.bin" in t:
        sn = "serial.bin"
    if sn is None:
        return None
    r = resume(ctx, s, sn, plan["env"])
    if not r.ok():
        raise Skip("resume fails")
    ctx.stats["assembled_histories"] += 1
    return ctx.world.tree()


# ----------------------------------------------------------------------------------------------------------------------- C15
class Moment:
    """one recorded step: velocities, inverse masses and contacts at its start"""

    def __init__(self, W, A, h):
        self.W, self.A = W, A
        self.n = A.n
        self.con = []
        if h:
            for (a, b), p, n, f in zip(cols(h, "collision_indices"), cols(h, "collision_points"), cols(h, "collision_normals"), cols(h, "collision_forces")):
                self.con.append((a, b, p, n, f))
        self.v0 = [(list(A.v[i]), self.spin(i)) for i in range(self.n)]

    def spin(self, i):
        if self.A.w is None:
            return 0.0
        return list(self.A.w[i]) if self.W.D == 3 else self.A.w[i]

    def kicked(self, base, impulses):
        """velocities after impulses (a, b, p, f) act on base"""
        W, A, D = self.W, self.A, self.W.D
        v = [(list(x), list(w) if D == 3 else w) for x, w in base]
        for a, b, p, f in impulses:
            for j, sg in ((a, 1.0), (b, -1.0)):
                if j < 0 or W.fixed[j]:
                    continue
                x, w = v[j]
                x = add(x, f, sg / A.m[j])
                if A.w is not None:
                    arm = sub(p, A.x[j])
                    if D == 2:
                        w = w + sg * (arm[0] * f[1] - arm[1] * f[0]) / A.I[j]
                    else:
                        w = add(w, self.iinv(j, cross(arm, f)), sg)
                v[j] = (x, w)
        return v

    def iinv(self, j, t):
        q = self.A.rest[j][3:]
        R = [q[0:3], q[3:6], q[6:9]]
        y = mtv(R, t)
        return mv(R, [c / i for c, i in zip(y, self.A.I[j])])

    def iw(self, j, w):
        q = self.A.rest[j][3:]
        R = [q[0:3], q[3:6], q[6:9]]
        return mv(R, [c * i for c, i in zip(mtv(R, w), self.A.I[j])])

    def rel(self, v, c):
        """relative velocity of contact c at its point"""
        a, b, p, n, f = c
        out = [0.0] * self.W.D
        if b < 0:
            out = add(out, self.W.wall_velocity(p, self.A.x[a]), -1.0)
        for j, sg in ((a, 1.0), (b, -1.0)):
            if j < 0 or self.W.fixed[j] and self.W.D == 3:
                continue
            x, w = v[j]
            u = list(x)
            if self.A.w is not None:
                arm = sub(p, self.A.x[j])
                u = add(u, [-w * arm[1], w * arm[0]] if self.W.D == 2 else cross(w, arm))
            out = add(out, u, sg)
        return out

    def mobility(self, c):
        """normal velocity change per unit of normal impulse"""
        a, b, p, n, f = c
        z = [([0.0] * self.W.D, [0.0] * 3 if self.W.D == 3 else 0.0) for _ in range(self.n)]
        v = self.kicked(z, [(a, b, p, n)])
        # fixed bodies and walls are at rest here
        return dot(n, sub(self.rel(v, c), self.rel(z, c)))

    def energy(self, v):
        t = 0.0
        for j, (x, w) in enumerate(v):
            if self.W.fixed[j]:
                continue
            t += 0.5 * self.A.m[j] * dot(x, x)
            if self.A.w is not None:
                t += 0.5 * self.A.I[j] * w * w if self.W.D == 2 else 0.5 * dot(w, self.iw(j, w))
        return t


class Resolve(Contacts):
    id = "C15"
    rule = ("one case = one generated scene (cloud, pile, boxes, meshes, drum, cylinder) run with a seeded impact operator or friction solver whose "
            "recorded contact forces are checked, contact by contact, against the contact law (non-penetration, complementarity, restitution, Coulomb "
            "friction, energy), over histories assembled by killed and resumed processes; non-trivial = at least one contact recorded; distinct = "
            "different complete event history")
    converged_only = True

    def contact(self, r, s, sim):
        F = s["features"]
        s["mu"] = None
        k = r.random()
        cor = r.choice(["0", "0.25", "0.5", "0.9", "1"])
        cache = "" if sim == "rb3d" else ' cache_impulses="%d"' % (1 if sim == "ball2d" and r.random() < 0.3 else 0)
        sol = lambda tag="solver": '<%s name="apgd" tol="%s" max_iters="4000"/>' % (tag, r.choice(["1.0e-8", "1.0e-11"])) if sim == "ball2d" and r.random() < 0.6 else '<%s name="ql" tol="1.0e-12"/>' % tag
        if k < 0.45:
            st = r.choice(["geometric", "geometric", "stabilized"] + (["symplectic_euler", "symplectic_euler"] if sim != "rb2d" else []))
            s["mu"] = r.choice(["0", "0.1", "0.4", "1.2"])
            ch = "none" if st == "stabilized" else r.choice(["none", "none", "normal", "normal_and_friction"]) if sim == "ball2d" else "none"
            extra = ""
            if st == "symplectic_euler":
                cor = "0"
                extra = ' stabilization="%d" penetration_threshold="%s"' % (r.choice([0, 1]), r.choice(["0", "0.001", "0.05"]))
            s["contact"] = ('<sobogus_friction_solver mu="%s" CoR="%s" max_iters="%d" eval_every="%d" tol="1.0e-16" cache_impulses="%s" staggering="%s"%s/>'
                            % (s["mu"], cor, 3000, r.choice([1, 20]), ch, st, extra))
            F.append("sobogus_" + st)
            return
        if sim == "ball2d" and k < 0.6:
            s["mu"] = r.choice(["0", "0.2", "0.8"])
            s["contact"] = ('<staggered_projections_friction_solver mu="%s" CoR="%s" internal_warm_start_alpha="%d" internal_warm_start_beta="%d" staggering="%s" '
                            'tol="1.0e-12" max_iters="40">%s<mdp_friction_solver name="ql" tol="1.0e-12"/></staggered_projections_friction_solver>'
                            % (s["mu"], cor, r.choice([0, 1]), r.choice([0, 1]), r.choice(["geometric", "stabilized"]), sol("lcp_impact_solver")))
            F.append("staggered")
            return
        k = r.choice(["lcp", "gr", "grr", "gauss_seidel"] if sim == "ball2d" or s.get("gs_ok") else ["lcp", "gr", "grr"])
        F.append("impact_" + k)
        if k == "gauss_seidel":
            s["contact"] = '<impact_operator type="gauss_seidel" CoR="%s" v_tol="1.0e-6"%s/>' % (cor, cache)
        elif k == "lcp":
            s["contact"] = '<impact_operator type="lcp" CoR="%s"%s>%s</impact_operator>' % (cor, cache, sol())
        elif k == "gr":
            s["contact"] = '<impact_operator type="gr" CoR="%s" v_tol="1.0e-6"%s>%s</impact_operator>' % (cor, cache, sol())
        else:
            el = '<elastic_operator type="gauss_seidel" v_tol="1.0e-6"/>' if sim == "ball2d" and r.random() < 0.4 else '<elastic_operator type="gr" v_tol="1.0e-6">%s</elastic_operator>' % sol()
            s["contact"] = '<impact_operator type="grr" CoR="%s"%s>%s<inelastic_operator type="lcp">%s</inelastic_operator></impact_operator>' % (cor, cache, el, sol())

    def gen(self, r):
        sim = r.choice(self.sims)
        while True:
            s = self.cloud(r, sim)
            imp = "impact_operator" in s["contact"]
            if s["portals"] or "fam_mesh" in s["features"] and imp or sim == "rb2d" and imp and "fam_round" not in s["features"]:
                continue
            if "gauss_seidel" in s["contact"]:
                s["statics"], s["nplanes"] = [], 0
            if 'stabilization="1"' in s["contact"] and ("fam_round" not in s["features"] or "drum" in s["features"]):
                continue
            break
        if r.random() < 0.3:  # a chain of few bodies about to meet
            del s["bodies"][r.choice([1, 2, 3, 4]):]
            s["nb"] = len(s["bodies"])
        if sim == "rb2d" and r.random() < 0.4 and "fam_round" in s["features"] and "gauss_seidel" not in s["contact"] and "stabilization" not in s["contact"]:
            self.pusher(r, s)
            if r.random() < 0.3:
                s["mu"] = None
                s["contact"] = '<impact_operator type="gr" CoR="%s" v_tol="1.0e-6" cache_impulses="0"><solver name="ql" tol="1.0e-12"/></impact_operator>' % r.choice(["0", "0.25", "0.5", "1"])
        if len(s["bodies"]) > 12:
            del s["bodies"][12:]
            s["nb"] = 12
        if s["statics"] and "fam_round" in s["features"] and r.random() < 0.4 and 'stabilization="1"' not in s["contact"]:
            self.moving_wall(r, s)
        if sim != "rb2d" and r.random() < 0.3 and ("sobogus" in s["contact"] or "staggered" in s["contact"] or "lcp" in s["contact"]):
            self.scripted_coefficients(r, s)
        fx = [i for i, b in enumerate(s["bodies"]) if 'fixed="1"' in b]
        if len(fx) > 1 or s["statics"]:  # a body between a wall and a moving body has no admissible velocity
            for i in fx:
                s["bodies"][i] = re.sub(r' v="[^"]*"', ' v="0 0%s"' % (" 0" if sim == "rb3d" else ""), s["bodies"][i])
        if sim == "ball2d" and 'type="lcp"' in s["contact"] and r.random() < 0.15:
            self.press(r, s)
            return {"scene": s, "env": rand_env(r), "kill": None, "press": True}
        return {"scene": s, "env": rand_env(r), "kill": r.randrange(1 << 16) if r.random() < 0.2 else None}

    def execute(self, ctx, plan):
        if not plan.get("press"):
            return Contacts.execute(self, ctx, plan)
        baseline(ctx, plan["scene"], plan["env"])  # no admissible velocity exists: the run only has to end
        ctx.stats["presses"] += 1
        return None

    def press(self, r, s):
        """balls in a row between two planes that a script moves towards each other"""
        k = r.choice([1, 1, 2, 3])
        a, v = r.uniform(0, 6.28), r.choice(["1", "0.5", n9(r.uniform(0.1, 3))])
        c, d = (math.cos(a), math.sin(a)) if r.random() < 0.6 else (1.0, 0.0)
        R = 0.25
        g = r.choice([0, 1e-3, 0.02])
        s["statics"] = ['<static_plane x="%s" n="%s"/>' % (v9([-c * (R - g), -d * (R - g)]), v9([c, d])),
                        '<static_plane x="%s" n="%s"/>' % (v9([c * (R * (2 * k - 1) - g), d * (R * (2 * k - 1) - g)]), v9([-c, -d]))]
        s["nplanes"], s["forces"], s["mu"] = 2, [f for f in s["forces"] if r.random() < 0.3], None
        s["bodies"] = ['<ball x="%s" y="%s" vx="%s" vy="0" m="1" r="%s" fixed="0"/>' % (n9(2 * R * i * c), n9(2 * R * i * d), r.choice(["0", "0", "0.3"]), n9(R))
                       for i in range(k)]
        s["nb"] = k
        s["script"] = ["cb startOfSim", "at startOfSim 0 setStaticPlaneVelocity I:0 d:%s d:%s" % (n9(c * float(v)), n9(d * float(v))),
                       "at startOfSim 0 setStaticPlaneVelocity I:1 d:%s d:%s" % (n9(-c * float(v)), n9(-d * float(v)))]
        s["features"] = [f for f in s["features"] if f.startswith("impact")] + ["press"]

    def scripted_coefficients(self, r, s):
        L = s.setdefault("script", None) or []
        if s["mu"] is not None and r.random() < 0.8:
            L = L + ["cb frictionCoefficient", "coefpair mu " + r.choice(["0.2", "0.8", "1.5"])]
        if 'type="g' not in s["contact"] and 'symplectic_euler"' not in s["contact"] and r.random() < 0.7:
            L = L + ["cb restitutionCoefficient", "coefpair cor " + r.choice(["0.3", "0.75", "1"])]
        if L:
            s["script"] = L
            s["features"].append("scripted_coefficients")

    def moving_wall(self, r, s):
        """one wall, which a script moves"""
        w = [x for x in s["statics"] if "drum" not in x]
        if not w:
            return
        w = r.choice([x for x in w if "cylinder" in x] or w)
        s["statics"] = [w]
        s["nplanes"], s["ncyl"] = int("plane" in w), int("cylinder" in w)
        s["bodies"] = [b.replace('fixed="1"', 'fixed="0"') for b in s["bodies"]]
        D = 3 if s["sim"] == "rb3d" else 2
        d = lambda k: " ".join("d:" + n9(r.uniform(-3, 3)) for _ in range(k))
        L = []
        if s["ncyl"]:
            L.append("setStaticCylinderAngularVelocity I:0 " + d(3))
        else:
            k = r.randrange(3) if s["sim"] == "rb2d" else 0
            if k < 2:
                L.append("setStaticPlaneVelocity I:0 " + d(D))
            if k > 0:
                L.append("setStaticPlaneAngularVelocity I:0 " + d(1))
        s["script"] = ["cb startOfSim"] + ["at startOfSim 0 " + x for x in L]
        s["features"].append("moving_wall")

    def pusher(self, r, s):
        """a disc that moves on its own through others, some of which it touches and some of which touch each other"""
        s["statics"], s["nplanes"] = [], 0
        s["geometry"] = ['<geometry type="circle" r="%s"/>' % a for a in ("0.5", "0.3")]
        R, out = [0.5, 0.3], []
        n = r.choice([2, 3, 4, 6])
        at = r.randrange(n + 1)
        g0 = r.randrange(2)
        turn = r.uniform(0, 6.28)
        for i in range(n):
            a = turn + 6.2831853 * i / n
            g = r.randrange(2)
            d = R[g0] + R[g] - r.choice([0.0005, 0.01, -0.005])
            v = [r.choice([0, r.uniform(-2, 2)]) for _ in range(2)]
            x = [d * math.cos(a), d * math.sin(a)]
            out.append('<rigid_body x="%s" theta="0" v="%s" omega="%s" rho="%s" geo_idx="%d" fixed="0"/>' % (v9(x), v9(v), n9(r.uniform(-2, 2)), r.choice(["1", "3"]), g))
            if r.random() < 0.5:  # and one behind it
                h = r.randrange(2)
                e = d + R[g] + R[h] - r.choice([0.0005, 0.01])
                out.append('<rigid_body x="%s" theta="0" v="%s" omega="0" rho="1" geo_idx="%d" fixed="0"/>'
                           % (v9([e * math.cos(a), e * math.sin(a)]), v9([r.uniform(-2, 2) for _ in range(2)]), h))
        w = r.choice([0, 0, r.uniform(-3, 3)])
        out.insert(at, '<rigid_body x="0 0" theta="0" v="%s" omega="%s" rho="1" geo_idx="%d" fixed="1"/>' % (v9([r.uniform(-4, 4) for _ in range(2)]), n9(w), g0))
        s["bodies"], s["nb"] = out, len(out)
        s["features"].append("pusher")

    def judge(self, ctx, s, T):
        W = World(s)
        if W.g is None or W.portals:
            raise Skip("no model")
        C = {k: Frame(s["sim"], h) for k, h in configs(T).items() if h is not None}
        Fo = forces(T)
        con = s["contact"]
        cor = float(re.search(r'CoR="([^"]*)"', con).group(1))
        mu = float(s["mu"]) if s["mu"] is not None else 0.0
        m = re.search(r'<impact_operator type="(\w+)"', con)
        op = m.group(1) if m else "sobogus" if "sobogus" in con else "staggered"
        st = W.stag if not m else "geometric"
        seen = 0
        for k in sorted(Fo):
            if k not in C:
                continue
            A = C[k]
            if s["integrator"] == "dmv" and not (finite(A) and finite(C.get(k + 1, A))):
                break  # its orientation equation has no solution when a body turns by more than half a turn in a step
            M = Moment(W, A, Fo[k])
            if not M.con:
                continue
            if not all(math.isfinite(x) for c in M.con for x in c[4]):
                return Violation("not_finite", "frame %d: contact forces are not numbers" % k)
            if st == "stabilized" and W.D == 3 and any(x[0] != "round" for x in W.shape):
                continue
            seen += len(M.con)
            v = self.law(ctx, s, W, M, k, op, st, cor, mu)
            if v:
                return v
        if not seen:
            raise Skip("no contacts")
        return None

    def law(self, ctx, s, W, M, k, op, st, cor, mu):
        dt = W.dt
        dv = [([0.0] * W.D if W.fixed[i] else [dt * c for c in W.g], [0.0] * 3 if W.D == 3 else 0.0) for i in range(M.n)]
        v0 = M.v0
        plus = lambda a, b: [(add(x, y), add(w, z) if W.D == 3 else w + z) for (x, w), (y, z) in zip(a, b)]
        if st == "stabilized":
            v0 = plus(v0, dv)
        v2 = M.kicked(v0, [(a, b, p, f) for a, b, p, n, f in M.con])
        speed = 1 + max(max(map(abs, x)) + (W.size(i) * (norm(w) if W.D == 3 else abs(w))) for i, (x, w) in enumerate(v0))
        end = plus(v2, dv) if st == "symplectic_euler" else v2
        # largest mobility: what an impulse error of the size the solver accepts amounts to as a velocity
        mob = [M.mobility(c) for c in M.con]
        top = max(mob)
        if min(mob) <= 0:
            return Violation("contact_law", "frame %d: contact %s moves nothing" % (k, M.con[mob.index(min(mob))][:2]))
        if top > 1e7:
            raise Skip("badly scaled")
        # two contacts that squeeze a body between them leave the solvers an ill-conditioned problem
        speed = max([speed] + [abs(dot(c[3], c[4])) * m for c, m in zip(M.con, mob)])
        tol = 2e-5 * speed + 200 * ctx.loose + {"sobogus": 1e-6 * math.sqrt(1 + len(M.con)) * top, "staggered": 1e-5 * speed}.get(op, 0)
        stab = 'stabilization="1"' in s["contact"]
        pen = float((vec("penetration_threshold", s["contact"]) or [0])[0])
        deg = {}
        for c in M.con:
            for j in c[:2]:
                if j >= 0 and not W.fixed[j]:
                    deg[j] = deg.get(j, 0) + 1
        cor_all, mu_all = cor, mu
        for c, mb in zip(M.con, mob):
            a, b, p, n, f = c
            cor, mu = W.coef("cor", c, cor_all), W.coef("mu", c, mu_all)
            fn = dot(f, n)
            ft = add(f, n, -fn)
            nn = norm(n)
            if abs(nn - 1) > 1e-6:
                continue
            u0, r2 = dot(n, M.rel(v0, c)), M.rel(end, c)
            u2 = dot(n, r2)
            ctx.stats["laws_checked"] += 1
            name = "frame %d, contact of %s (normal velocity %g before, %g after, normal impulse %g, friction impulse %g)" % (k, who(a, b), u0, u2, fn, norm(ft))
            if op in ("gr", "gauss_seidel", "grr"):
                if u2 < -2e-6 - 200 * ctx.loose - (tol if op == "grr" else tol * 1e-3):
                    return Violation("penetrating", "%s: the bodies keep approaching" % name)
            else:
                w = u2 + cor * u0
                if st == "symplectic_euler":
                    w = u2
                    if stab:
                        g = self.gap(W, M.A, c)
                        if g is None or abs(abs(g) - pen) < 1e-9:
                            continue
                        g = min(0.0, g)
                        w += 0.0 if abs(g) < pen else g / dt
                if w < -tol:
                    return Violation("penetrating", "%s: the contact law asks for %g more" % (name, -w))
                if min(w, fn * mb) > tol:
                    return Violation("complementarity", "%s: the impulse acts on a contact that separates by %g too fast" % (name, w))
            if deg.get(a, 0) <= 1 and (b < 0 or W.fixed[b] or deg.get(b, 0) <= 1) and st != "symplectic_euler" and mu == 0:
                want = -cor * u0 if u0 < 0 else u0
                ctx.stats["isolated_contacts"] += 1
                if abs(want - u2) > tol + 2e-6:
                    return Violation("restitution", "%s: an isolated contact with coefficient of restitution %g leaves with %g" % (name, cor, want))
            if op == "sobogus" and norm(ft) > mu * fn + 10 * tol / mb:
                return Violation("friction_law", "%s: friction exceeds its bound for coefficient %g" % (name, mu))
            if op == "sobogus" and mu > 0 and fn * mb > 10 * tol:
                ut = add(r2, n, -u2)
                su, sf = norm(ut), norm(ft)
                slack = 10 * tol / mb
                if sf < mu * fn - slack and su > 10 * tol:
                    return Violation("friction_law", "%s: sliding at %g although friction is %g below its bound" % (name, su, mu * fn - sf))
                if su > 100 * tol and sf > 0 and dot(ut, ft) > -0.99 * su * sf:
                    return Violation("friction_law", "%s: friction %s does not oppose the sliding velocity %s" % (name, ft, ut))
        if mu_all == 0 and not W.pair and st == "geometric" and not (W.sim == "rb2d" and any(W.fixed)) and W.wallv is None and W.wallw is None:
            e0, e2 = M.energy(v0), M.energy(v2)
            if e2 > e0 * (1 + 1e-4) + 1e-6 + (1 + e0) * 200 * ctx.loose:
                return Violation("energy", "frame %d: the contacts raise the kinetic energy from %.9g to %.9g" % (k, e0, e2))
        return None

    def gap(self, W, A, c):
        a, b, p, n, f = c
        (ka, ga) = W.shape[a]
        if b < 0:
            j = -b - 2
            if ka != "round":
                if W.planes and not W.cyls:
                    return dot(W.planes[j][1], sub(p, W.planes[j][0]))
                return None
            if W.drums and W.planes or W.cyls and W.planes:
                return None
            if W.drums:
                return W.drums[j][1] - ga - norm(sub(A.x[a], W.drums[j][0]))
            if W.cyls:
                X, ax, R = W.cyls[j]
                d = sub(A.x[a], X)
                return R - ga - norm(add(d, ax, -dot(ax, d)))
            return dot(W.planes[j][1], sub(A.x[a], W.planes[j][0])) - ga
        kb, gb = W.shape[b]
        if ka == kb == "round":
            return norm(sub(A.x[a], A.x[b])) - ga - gb
        return None


# ----------------------------------------------------------------------------------------------------------------------- C16
def free_turn(R, I, w, dt, n=200):
    """orientation after dt of torque-free rotation starting with spin w (world), by many small midpoint steps"""
    L = mv(R, [a * b for a, b in zip(mtv(R, w), I)])

    def om(Q):
        return mv(Q, [a / b for a, b in zip(mtv(Q, L), I)])
    h = dt / n
    for _ in range(n):
        a = om(R)
        b = om(mm(rotv([0.5 * h * c for c in a]), R))
        R = mm(rotv([h * c for c in b]), R)
    return R, om(R)


def angle_between(A, B):
    """largest entry of A - B"""
    return max(abs(A[i][j] - B[i][j]) for i in range(3) for j in range(3))


class Motion(Resolve):
    id = "C16"
    rule = ("one case = one generated scene (free flight, fast spins, clouds in contact) whose recorded frames are compared, step by step, with the motion "
            "the chosen integrator prescribes for the velocities after the recorded contact forces, over histories assembled by killed and resumed processes; "
            "non-trivial = at least one step compared; distinct = different complete event history")
    converged_only = False

    def gen(self, r):
        sim = r.choice(self.sims)
        s = self.cloud(r, sim)
        while s["portals"]:
            s = self.cloud(r, sim)
        k = r.random()
        if k < 0.35:
            s["contact"], s["mu"] = "", None
            s["statics"], s["nplanes"], s["ncyl"] = [], 0, 0
        elif "gauss_seidel" in s["contact"]:
            s["statics"], s["nplanes"] = [], 0
        s["contact"] = re.sub('max_iters="[0-9]+"', 'max_iters="%d"' % r.choice([1, 5, 30]), s["contact"])
        s["contact"] = re.sub('eval_every="[0-9]+"', 'eval_every="1"', s["contact"])
        if len(s["bodies"]) > 12:
            del s["bodies"][12:]
            s["nb"] = 12
        if sim == "rb3d":
            sp = r.choice([1, 1, 5, 20])
            s["bodies"] = [b if 'fixed="1"' in b else re.sub(r'omega="[^"]*"', 'omega="%s"' % v9([r.uniform(-sp, sp) for _ in range(3)]), b) for b in s["bodies"]]
        steps = r.choice([1, 2, 4])
        s["end"] = scenes.n(steps * scenes.dt_value(s))
        if not s["contact"]:
            s["opts"]["i"] = r.choice([0, 1])
        if sim == "ball2d" and (not s["contact"] or "staggering" not in s["contact"]) and r.random() < 0.4:
            for _ in range(r.choice([1, 1, 2])):
                s["forces"].append('<penalty stiffness="%s" potential_power="%s"/>' % (r.choice(["30", "1000", "2.5"]), r.choice(["2.5", "2", "3", "1.5"])))
            s["features"].append("penalty")
        return {"scene": s, "env": rand_env(r), "kill": r.randrange(1 << 16) if r.random() < 0.25 else None}

    def judge(self, ctx, s, T):
        W = World(s)
        self.pen = [(vec("stiffness", f)[0], vec("potential_power", f)[0]) for f in s["forces"] if "<penalty" in f]
        if self.pen:
            W.g = gravity(dict(s, forces=[f for f in s["forces"] if "<penalty" not in f]))
        if W.g is None or W.portals:
            raise Skip("no model")
        C = {k: Frame(s["sim"], h) for k, h in configs(T).items() if h is not None}
        Fo = forces(T)
        seen = 0
        for k in sorted(C):
            if k + 1 not in C or s["contact"] and k not in Fo:
                continue
            A, B = C[k], C[k + 1]
            if s["integrator"] == "dmv" and not (finite(A) and finite(B)):
                break
            M = Moment(W, A, Fo.get(k) if s["contact"] else None)
            seen += 1
            v = self.step(ctx, s, W, M, A, B, k)
            if v:
                return v
        if not seen:
            raise Skip("no step")
        return None

    def step(self, ctx, s, W, M, A, B, k):
        dt, g, D = W.dt, W.g, W.D
        linear = W.stag == "symplectic_euler" or W.stag == "stabilized" and M.con
        v2 = M.kicked(M.v0, [(a, b, p, f) for a, b, p, n, f in M.con])
        if self.pen:
            return self.step_penalty(ctx, s, W, M, A, B, k, [v for v, _ in v2])
        for i in range(A.n):
            x0, xB = A.x[i], B.x[i]
            fx = W.fixed[i]
            what = "fixed body" if fx else "body"
            vb = list(B.v[i])
            if linear:
                want = add(x0, vb, dt) if not (fx and D == 3) else list(x0)
            elif fx:
                want = add(x0, A.v[i], dt) if D == 2 else list(x0)
            elif s["integrator"] == "symplectic_euler":
                want = add(x0, add(v2[i][0], g, dt), dt)
            elif s["integrator"] == "exponential_euler":
                want = add(x0, v2[i][0], dt)
            else:
                want = add(add(x0, v2[i][0], dt), g, 0.5 * dt * dt)
            push = 0 if fx else sum(norm(f[4]) for f in M.con if i in f[:2]) / A.m[i]  # opposing impulses of squeezed bodies can be huge
            sz = 1 + max(map(abs, x0)) + dt * (max(map(abs, v2[i][0])) + max(map(abs, A.v[i])) + push)
            ctx.stats["motions_checked"] += 1
            for c in range(D):
                if not near(want[c], xB[c], 1e-8 * sz):
                    return Violation("position", "%s %d is at %s in frame %d, %s takes it from %s to %s" % (what, i, list(xB), k + 1, W.stag if linear else s["integrator"], list(x0), want))
            # velocity: momentum is what gravity and contacts leave
            vw = list(A.v[i]) if fx else add(v2[i][0], g, dt)
            for c in range(D):
                if not near(vw[c], vb[c], 1e-8 * (1 + sum(map(abs, vw)) + sum(map(abs, A.v[i])) + sum(norm(f[4]) for f in M.con if i in f[:2]) / A.m[i])):
                    return Violation("velocity", "%s %d has velocity %s in frame %d instead of %s" % (what, i, vb, k + 1, vw))
            if A.w is None:
                continue
            if D == 2:
                w2 = A.w[i] if fx else v2[i][1]
                th = A.rest[i][2] + dt * w2
                if not near(B.rest[i][2], th, 1e-8 * (1 + abs(th) + dt * abs(A.w[i]) + dt * sum(norm(f[4]) for f in M.con if i in f[:2]) * W.size(i) / A.I[i])):
                    return Violation("orientation", "%s %d is turned to %s in frame %d, its spin %s takes it from %s to %s" % (what, i, B.rest[i][2], k + 1, w2, A.rest[i][2], th))
                continue
            v = self.turn(ctx, s, W, M, A, B, k, i, linear, v2[i][1])
            if v:
                return v
        return None

    def step_penalty(self, ctx, s, W, M, A, B, k, v):
        """balls that push each other apart while they overlap"""
        dt, n = W.dt, A.n
        top = [0.0] * n

        def acc(X):
            a = [list(W.g) for _ in range(n)]
            for i in range(n):
                for j in range(i + 1, n):
                    d = sub(X[j], X[i])
                    l = norm(d)
                    deep = W.shape[i][1] + W.shape[j][1] - l
                    if l < 1e-6:
                        raise Skip("balls on top of each other")
                    if abs(deep) < 1e-9 and any(e < 2 for _, e in self.pen):
                        raise Skip("balls that just touch")
                    if deep <= 0:
                        continue
                    for st, e in self.pen:
                        f = 0.5 * st * e * deep ** (e - 1)
                        a[i], a[j] = add(a[i], d, -f / l / A.m[i]), add(a[j], d, f / l / A.m[j])
                        top[i], top[j] = top[i] + f / A.m[i], top[j] + f / A.m[j]
                        ctx.stats["penalty_pairs"] += 1
            return a
        a0 = acc(A.x)
        if s["integrator"] == "symplectic_euler":
            vw = [add(v[i], a0[i], dt) for i in range(n)]
            want = [add(list(A.x[i]), vw[i], dt) for i in range(n)]
        else:
            half = [add(v[i], a0[i], 0.5 * dt) for i in range(n)]
            want = [add(list(A.x[i]), half[i], dt) for i in range(n)]
            a1 = acc(want)
            vw = [add(half[i], a1[i], 0.5 * dt) for i in range(n)]
        for i in range(n):
            push = top[i] * dt + sum(norm(f[4]) for f in M.con if i in f[:2]) / A.m[i]
            sz = 1 + max(map(abs, A.x[i])) + norm(v[i]) + push + sum(map(abs, vw[i]))
            ctx.stats["motions_checked"] += 1
            for c in range(2):
                if not near(want[i][c], B.x[i][c], 1e-8 * sz):
                    return Violation("position", "ball %d is at %s in frame %d, %s with penalty forces takes it from %s to %s" % (i, list(B.x[i]), k + 1, s["integrator"], list(A.x[i]), want[i]))
                if not near(vw[i][c], B.v[i][c], 1e-6 * sz):
                    return Violation("velocity", "ball %d has velocity %s in frame %d, penalty forces give %s" % (i, list(B.v[i]), k + 1, vw[i]))
        return None

    def turn(self, ctx, s, W, M, A, B, k, i, linear, w2):
        rows = lambda q: [q[3:6], q[6:9], q[9:12]]
        R0, R1 = rows(A.rest[i]), rows(B.rest[i])
        RtR = [[sum(R1[l][a] * R1[l][b] for l in range(3)) for b in range(3)] for a in range(3)]
        if angle_between(RtR, [[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]]) > 1e-7:
            return Violation("orientation", "the orientation of body %d is no rotation in frame %d: %s" % (i, k + 1, R1))
        if W.fixed[i]:
            return None if R0 == R1 else Violation("orientation", "the orientation of fixed body %d changes in frame %d" % (i, k + 1))
        I, wB, dt = A.I[i], list(B.w[i]), W.dt
        kick = sum(norm(f[4]) for f in M.con if i in f[:2]) * W.size(i) / min(I)
        if linear:
            if angle_between(R1, mm(rotv([dt * c for c in wB]), R0)) > 1e-7 * (1 + dt * norm(wB)):
                return Violation("orientation", "body %d does not turn by its spin %s in frame %d" % (i, wB, k + 1))
            return None
        a = norm(w2) * dt
        if s["integrator"] == "exponential_euler":
            if any(not near(p, q, 1e-8 * (1 + norm(w2) + kick)) for p, q in zip(w2, wB)):
                return Violation("spin", "body %d has spin %s in frame %d instead of %s" % (i, wB, k + 1, w2))
            if a < 0.8 and angle_between(R1, mm(rotv([dt * c for c in w2]), R0)) > a ** 3 / 2 + 1e-9 + 1e-8 * dt * kick:
                return Violation("orientation", "body %d does not turn by its spin %s in frame %d" % (i, w2, k + 1))
            return None
        L0, L1 = mv(R0, [p * q for p, q in zip(mtv(R0, w2), I)]), mv(R1, [p * q for p, q in zip(mtv(R1, wB), I)])
        ctx.stats["turns_checked"] += 1
        if any(not near(p, q, 1e-8 * (norm(L0) + max(I) * kick + 1e-6 * max(I))) for p, q in zip(L0, L1)):
            return Violation("angular_momentum", "body %d has angular momentum %s in frame %d, contacts leave it %s" % (i, L1, k + 1, L0))
        q = max(I) / min(I)
        Pi = [p * q for p, q in zip(mtv(R0, w2), I)]  # angular momentum in the body's frame
        if s["integrator"] == "split_ham":  # turns about the axes of the body one after the other, in the order z y x y z
            R, p, e = R0, list(Pi), [0.0, 0.0, 0.0]
            for ax, h in ((2, 0.5), (1, 0.5), (0, 1.0), (1, 0.5), (2, 0.5)):
                t = [0.0, 0.0, 0.0]
                t[ax] = h * dt * p[ax] / I[ax]
                R, p = mm(R, rotv(t)), mv(rotv([-c for c in t]), p)
                e[ax] += abs(t[ax])
            ctx.stats["split_turns"] += 1
            if angle_between(R1, R) > 1e-8 * (1 + q * sum(e) * (1 + sum(e)) + q * dt * kick):
                return Violation("orientation", "body %d is turned to %s in frame %d, turning about its axes in the order z, y, x, y, z gives %s" % (i, R1, k + 1, R))
        elif s["integrator"] == "dmv" and (a * q < 0.25 or not ctx.dmv_failed):  # discrete Moser-Veselov: hat(dt Pi) = F J - J F^T for the turn F
            F = [[sum(R0[l][x] * R1[l][y] for l in range(3)) for y in range(3)] for x in range(3)]
            J = [0.5 * sum(I) - I[x] for x in range(3)]
            S = [[F[x][y] * J[y] - J[x] * F[y][x] for y in range(3)] for x in range(3)]
            got = [S[2][1] / dt, S[0][2] / dt, S[1][0] / dt]
            ctx.stats["dmv_turns"] += 1
            if any(not near(x, y, 1e-8 * (norm(Pi) + max(I) * (kick + 1 / dt))) for x, y in zip(Pi, got)):
                return Violation("orientation", "body %d is turned to %s in frame %d, which belongs to the angular momentum %s instead of %s" % (i, R1, k + 1, got, Pi))
        if a * q < 0.7:
            R, w = free_turn(R0, I, w2, dt, 20)
            if angle_between(R1, R) > 2 * q * q * a ** 3 + 1e-6 * a + 1e-9 + 1e-8 * q * dt * kick:
                return Violation("orientation", "body %d is turned by %s in frame %d, torque-free rotation gives %s" % (i, R1, k + 1, R))
        return None


PROPS = {"C14": Contacts(), "C15": Resolve(), "C16": Motion()}
