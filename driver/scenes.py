"""Seeded generator of scenes, options and scripts for the three simulators.

A scene is a dict of element lists so that it can be minimised by dropping elements:
  sim, dt (string), end (string), contact (xml or ''), integrator, statics, portals, forces, geometry, bodies (lists of xml),
  script (list of lines or None), files, opts {o,i,f,s,e}, features (set as list)
"""
import math, re
from fractions import Fraction

ROOT = {"ball2d": "ball2d_scene", "rb2d": "rigidbody2d_scene", "rb3d": "rigidbody3d_scene"}


def n(x):
    s = "%.6g" % x
    return "0" if s in ("-0",) else s


def V(*xs):
    return " ".join(n(x) for x in xs)


def render(s):
    o = ["<%s>" % ROOT[s["sim"]]]
    if s.get("script") is not None:
        o.append('  <scripting callback="script"/>')
    if s.get("end") is not None:
        o.append('  <end_time t="%s"/>' % s["end"])
    o += ["  " + x for x in s.get("misc", [])]
    o += ["  " + x for x in s["statics"]]
    o += ["  " + x for x in s.get("renderers", [])]
    o += ["  " + x for x in s["portals"]]
    o.append('  <integrator type="%s" dt="%s"/>' % (s["integrator"], s["dt"]))
    if s["contact"]:
        o.append("  " + s["contact"])
    o += ["  " + x for x in s["forces"]]
    o += ["  " + x for x in s.get("geometry", [])]
    o += ["  " + x for x in s["bodies"]]
    o.append("</%s>" % ROOT[s["sim"]])
    return "\n".join(o) + "\n"


def installed(s):
    return {"xml": render(s), "script": None if s.get("script") is None else "\n".join(s["script"]) + "\n",
            "files": s.get("files") or {}, "opts": s["opts"]}


DTS = [("1/100", 0.01), ("0.01", 0.01), ("1/50", 0.02), ("0.005", 0.005), ("1/64", 1 / 64.), ("3/400", 0.0075),
       ("0.0125", 0.0125), ("1/200", 0.005), ("0.001", 0.001)]


class _Rational:
    def __getitem__(self, s):
        f = Fraction(s)
        return (f.numerator, f.denominator)


RATIONAL = _Rational()


def cor(r):
    return r.choice(["0", "0.3", "0.5", "0.8", "1"])


def lcp_solver(r, sim, tag="solver"):
    if sim == "ball2d" and r.random() < 0.6:
        return '<%s name="apgd" tol="1.0e-9" max_iters="%d"/>' % (tag, r.choice([200, 500])), "apgd"
    return '<%s name="ql" tol="1.0e-9"/>' % tag, "ql"


def impact_contact(r, sim, feats, kinds=None):
    kinds = kinds or ["gauss_seidel", "gauss_seidel", "jacobi", "lcp", "gr", "grr"]
    if sim != "ball2d" and r.random() < 0.8:  # gauss_seidel is implemented for few contact types of the rigid body simulators
        kinds = [k for k in kinds if k != "gauss_seidel"] or kinds
    t = r.choice(kinds)
    cache = "" if sim == "rb3d" else ' cache_impulses="%d"' % r.choice([0, 1])
    c = cor(r)
    feats.append("impact_" + t)
    if t in ("gauss_seidel", "jacobi"):
        if t == "jacobi":
            c = r.choice(["0", "0.3", "0.5"])
        return '<impact_operator type="%s" CoR="%s" v_tol="1.0e-6"%s/>' % (t, c, cache)
    if t == "lcp":
        sol, nm = lcp_solver(r, sim)
        feats.append("lcp_" + nm)
        return '<impact_operator type="lcp" CoR="%s"%s>%s</impact_operator>' % (c, cache, sol)
    if t == "gr":
        sol, nm = lcp_solver(r, sim)
        feats.append("lcp_" + nm)
        return '<impact_operator type="gr" CoR="%s" v_tol="1.0e-6"%s>%s</impact_operator>' % (c, cache, sol)
    sa, na = lcp_solver(r, sim)
    sb, nb = lcp_solver(r, sim)
    ea = r.choice(['<elastic_operator type="gr" v_tol="1.0e-6">%s</elastic_operator>' % sa,
                   '<elastic_operator type="gauss_seidel" v_tol="1.0e-6"/>'])
    return ('<impact_operator type="grr" CoR="%s"%s>%s<inelastic_operator type="lcp">%s</inelastic_operator></impact_operator>'
            % (c, cache, ea, sb))


def sobogus_contact(r, sim, feats):
    mi = r.choice([20, 60, 150])
    ee = r.choice([1, 5, 20])
    mu = r.choice(["0", "0.2", "0.5", "1.1"])
    tol = r.choice(["1.0e-8", "1.0e-12"])
    cache = r.choice(["none", "normal", "normal_and_friction"])
    if sim == "rb2d":
        st = r.choice(["geometric", "geometric", "stabilized"])
    else:
        st = r.choice(["geometric", "geometric", "stabilized", "symplectic_euler"])
    c = cor(r)
    extra = ""
    if st == "stabilized":
        cache = "none"
    if st == "symplectic_euler":
        c = "0"
        extra = ' stabilization="%d" penetration_threshold="%s"' % (r.choice([0, 1]), r.choice(["0", "0.001", "0.05"]))
    ca = ' cache_impulses="%s"' % cache
    feats.append("sobogus_" + st)
    feats.append("cache_" + cache)
    return ('<sobogus_friction_solver mu="%s" CoR="%s" max_iters="%d" eval_every="%d" tol="%s"%s staggering="%s"%s/>'
            % (mu, c, mi, ee, tol, ca, st, extra)), mu


def staggered_contact(r, feats, sim="ball2d"):
    sol, nm = lcp_solver(r, sim, "lcp_impact_solver")
    feats.append("staggered")
    mu = r.choice(["0", "0.2", "0.5"])
    return ('<staggered_projections_friction_solver mu="%s" CoR="%s" internal_warm_start_alpha="%d" '
            'internal_warm_start_beta="%d" staggering="%s" tol="1.0e-6" max_iters="%d">%s'
            '<mdp_friction_solver name="ql" tol="1.0e-9"/></staggered_projections_friction_solver>'
            % (mu, cor(r), r.choice([0, 1]), r.choice([0, 1]), r.choice(["geometric", "stabilized"]),
               r.choice([5, 20]), sol)), mu


def schedule(r, s, max_steps=10):
    """dt, end time, output options"""
    dt, f = r.choice(DTS)
    s["dt"] = dt
    k = r.randint(1, max_steps)
    end = k * f
    j = r.random()
    if j < 0.25:
        end = (k - 0.5) * f
    elif j < 0.35:
        end = (k + 0.25) * f
    s["end"] = n(end)
    num, den = RATIONAL[dt]
    o = {"o": 1, "i": 0, "f": None, "s": None, "e": None}
    if r.random() < 0.5:
        fs = []
        for m in (1, 2, 3, 4, 5):
            # frequency f with 1/(f dt) == m  =>  f = den / (num m)
            if den % (num * m) == 0:
                fs.append(den // (num * m))
        if fs:
            o["f"] = r.choice(fs)
    if r.random() < 0.15:
        o["e"] = s["end"]
        s["end"] = r.choice(["0.5", "1", None]) if r.random() < 0.7 else n(end * 0.5)
    s["opts"] = o
    return f


def wide_schedule(r, s, max_steps):
    """Any rational timestep, end time and rate, instead of the usual few"""
    k = r.random()
    if k < 0.45:
        q = r.choice([r.randint(1, 30), r.randint(1, 300), r.randint(1, 2000)])
        p = r.choice([1, 1, 1, r.randint(1, 12)])
        m = r.choice([1, 1, 2, 10])
        dt = "%d/%d" % (p * m, q * m)
    elif k < 0.7:
        dt = "%d/%d" % (r.choice([1, 1, 3, 5]), 2 ** r.randint(0, 10))
    else:
        d = r.randint(1, 6)
        dt = "%d.%0*d" % (r.choice([0, 0, 0, 1]), d, r.randint(1, 10 ** r.randint(1, d) - 1))
        if r.random() < 0.2:
            dt += "0" * r.randint(1, 2)
    f = Fraction(dt)
    s["dt"] = dt
    k = r.choice([r.randint(1, 12), r.randint(1, max_steps), r.choice([8, 9, 10, 11, 98, 99, 100, 101])])
    k = min(k, max_steps)
    end = f * k
    j = r.random()
    if j < 0.2:
        end = f * Fraction(2 * k - 1, 2)
    elif j < 0.3:
        end = f * Fraction(4 * k + 1, 4)
    s["end"] = repr(float(end)) if r.random() < 0.7 else n(float(end))
    if float(s["end"]) <= 0:
        s["end"] = repr(float(end))
    o = {"o": 1, "i": 0, "f": None, "s": None, "e": None}
    if r.random() < 0.7:
        inv = 1 / f
        fs = [x for x in range(1, min(int(inv), 5000) + 1) if (inv / x).denominator == 1]
        if fs:
            o["f"] = r.choice(fs)
    if r.random() < 0.15:
        o["e"] = s["end"]
        s["end"] = r.choice(["0.5", "1", None]) if r.random() < 0.7 else repr(float(end) * 0.5)
    if s["end"] is None and s["sim"] == "rb2d":
        s["end"] = "1"
    s["opts"] = o


def save_steps(s):
    num, den = RATIONAL[s["dt"]]
    f = s["opts"].get("f")
    if f is None:
        return 1
    return den // (num * f)  # exact: only rates that divide


def end_value(s):
    return float(s["opts"]["e"] if s["opts"].get("e") is not None else s["end"])


def dt_value(s):
    a, b = RATIONAL[s["dt"]]
    return a / b


def base(sim):
    return {"sim": sim, "statics": [], "portals": [], "forces": [], "geometry": [], "bodies": [], "script": None,
            "files": {}, "features": [], "misc": [], "renderers": []}


# ------------------------------------------------------------------------------------------------------------------ ball2d
def ball2d(r, want=None, max_steps=10, simple=False):
    want = want or {}
    s = base("ball2d")
    F = s["features"]
    dt = schedule(r, s, max_steps)
    s["integrator"] = r.choice(["verlet", "symplectic_euler"])
    kind = want.get("contact") or r.choice(["none", "impact", "impact", "sobogus", "sobogus", "sobogus", "staggered"])
    portal = want.get("portal")
    if portal is None:
        portal = r.random() < 0.2
    s["mu"] = None
    if kind == "none":
        s["contact"] = ""
    elif kind == "impact":
        s["contact"] = impact_contact(r, "ball2d", F, want.get("impact_kinds"))
    elif kind == "sobogus":
        s["contact"], s["mu"] = sobogus_contact(r, "ball2d", F)
    else:
        s["contact"], s["mu"] = staggered_contact(r, F)
    F.append("contact_" + kind)
    g = None
    if r.random() < 0.75:
        g = (r.choice([0, 0, 1.5]), r.choice([-9.8, -9.8, -1.0, 4.0]))
        s["forces"].append('<gravity fx="%s" fy="%s"/>' % (n(g[0]), n(g[1])))
        if r.random() < 0.12:
            s["forces"].append('<gravity fx="%s" fy="%s"/>' % (r.choice(["0", "-0.7"]), r.choice(["0.5", "-2"])))
    if want.get("penalty", r.random() < 0.15):
        s["forces"].append('<penalty stiffness="%s" potential_power="%s"/>' % (r.choice(["1000", "300"]), r.choice(["2.5", "2"])))
        F.append("penalty")
    box = 2.0
    layout = r.choice(["pile", "cluster", "drum"]) if not portal else "portal"
    layout = want.get("layout", layout)
    if simple:
        layout = "pile"
    nb = r.randint(1, 6)
    if layout == "pile":
        s["statics"].append('<static_plane x="0 0" n="%s"/>' % r.choice(["0 1", "0.1 1", "0 2"]))
        if r.random() < 0.4:
            s["statics"].append('<static_plane x="-1.2 0" n="1 0"/>')
        if r.random() < 0.2:
            s["statics"].append('<static_plane x="5.2 0" n="-1 0.1"/>')
    elif layout == "drum":
        s["statics"].append('<static_drum x="1" y="1" r="%s"/>' % r.choice(["3.0", "2.5"]))
        if r.random() < 0.3:  # a floor in the drum
            s["statics"].insert(r.randrange(2), '<static_plane x="1 -1" n="%s"/>' % r.choice(["0 1", "0.3 1"]))
        if r.random() < 0.2:  # a wider drum around it
            s["statics"].append('<static_drum x="1" y="1.2" r="%s"/>' % r.choice(["3.3", "4"]))
        F.append("drum")
        nb = min(nb, 4)
    elif layout == "portal":
        w = 4.0
        off = 0.0
        if r.random() < 0.5:
            s["statics"].append('<static_plane x="0 -0.02" n="0 1"/>')
            off = 1
        a, b = int(off), int(off) + 1
        s["statics"].append('<static_plane x="-0.5 0" n="1 0"/>')
        s["statics"].append('<static_plane x="%s 0" n="-1 0"/>' % n(-0.5 + w))
        if r.random() < 0.55:
            s["portals"].append('<planar_portal planeA="%d" planeB="%d"/>' % (a, b))
            F.append("planar_portal")
        else:
            s["portals"].append('<lees_edwards_portal planeA="%d" planeB="%d" v="%s" bounds="%s"/>'
                                % (a, b, r.choice(["0.7", "-2", "15"]), n(w)))
            F.append("lees_edwards")
        if not off and r.random() < 0.5:
            s["statics"].append('<static_plane x="0 -0.5" n="0 1"/>')
            s["statics"].append('<static_plane x="0 3.5" n="0 -1"/>')
            s["portals"].append('<planar_portal planeA="2" planeB="3"/>')
            F.append("corner_portal")
            if "lees" in s["portals"][0]:  # the shearing boundary wraps along the height of the domain
                s["statics"][0] = s["statics"][0].replace(' 0" n', ' 1.5" n')
                s["statics"][1] = s["statics"][1].replace(' 0" n', ' 1.5" n')
                s["portals"][0] = re.sub('bounds="[^"]*"', 'bounds="2"', s["portals"][0])
        nb = min(nb, 5)
    F.append("layout_" + layout)
    bodies = []
    cols = 2 if layout in ("drum", "portal") else 3
    sp = r.choice([0.93, 0.98, 1.0, 1.05])
    for i in range(nb):
        rad = r.choice([0.5, 0.5, 0.45, 0.4])
        x = (i % cols) * sp + r.uniform(-0.04, 0.04)
        y = 0.48 + (i // cols) * sp + r.uniform(-0.04, 0.04)
        if layout == "portal":
            x += r.choice([-0.4, 0.3, 2.2, 2.6])
            x = min(max(x, -0.49), 3.49)
            y = min(y, 3.4)
        vx, vy = r.uniform(-3, 3), r.uniform(-3, 1)
        if layout == "portal" and r.random() < 0.5:
            vx *= 6
        m = r.choice([1, 0.3, 0.5, 2.7])
        fixed = 1 if r.random() < 0.15 else 0
        if fixed:
            F.append("fixed_body")
            if r.random() < 0.6:
                vx = vy = 0.0
        bodies.append((x, y, vx, vy, m, rad, fixed))
    if layout == "drum":
        for i, b in enumerate(bodies):
            ang = i * 1.6 + r.uniform(-0.1, 0.1)
            rr = (2.5 if any('r="2.5"' in x for x in s["statics"]) else 3.0) - b[5] + r.uniform(-0.05, 0.01)
            bodies[i] = (1 + rr * math.cos(ang), 1 + rr * math.sin(ang)) + b[2:]
    s["nb"] = nb
    for b in bodies:
        s["bodies"].append('<ball x="%s" y="%s" vx="%s" vy="%s" m="%s" r="%s" fixed="%d"/>'
                           % (n(b[0]), n(b[1]), n(b[2]), n(b[3]), n(b[4]), n(b[5]), b[6]))
    s["nplanes"] = sum("static_plane " in x for x in s["statics"]) - 2 * len(s["portals"])
    return s


# -------------------------------------------------------------------------------------------------------------------- rb2d
def rb2d(r, want=None, max_steps=10, simple=False):
    want = want or {}
    s = base("rb2d")
    F = s["features"]
    dt = schedule(r, s, max_steps)
    if s["end"] is None:
        s["end"] = "1"
    s["integrator"] = r.choice(["verlet", "symplectic_euler"])
    portal = want.get("portal")
    if portal is None:
        portal = r.random() < 0.25
    kind = want.get("contact") or r.choice(["none", "impact", "impact", "sobogus", "sobogus", "sobogus"])
    s["mu"] = None
    if kind == "none":
        s["contact"] = ""
    elif kind == "impact":
        s["contact"] = impact_contact(r, "rb2d", F, want.get("impact_kinds"))
    else:
        s["contact"], s["mu"] = sobogus_contact(r, "rb2d", F)
    F.append("contact_" + kind)
    cached = 'cache_impulses="1"' in s["contact"] or 'cache_impulses="normal' in s["contact"]
    if r.random() < 0.75:
        s["forces"].append('<near_earth_gravity f="%s"/>' % r.choice(["0 -9.8", "1 -3", "0 5"]))
        if r.random() < 0.12:
            s["forces"].append('<near_earth_gravity f="%s"/>' % r.choice(["0.5 0", "-1 2"]))
    if r.random() < 0.2:
        s["misc"].append('<camera center="0 0" scale="1.0" fps="50" render_at_fps="0" locked="0"/>')
    boxes = want.get("boxes", not cached and not portal and r.random() < 0.5)
    s["geometry"].append('<geometry type="circle" r="0.5"/>')
    ngeo = 1
    geos = [0]
    if r.random() < 0.5:
        s["geometry"].append('<geometry type="circle" r="0.4"/>')
        geos.append(ngeo)
        ngeo += 1
    if boxes:
        s["geometry"].append('<geometry type="box" r="%s"/>' % r.choice(["0.5 0.4", "0.45 0.45"]))
        geos.append(ngeo)
        ngeo += 1
        F.append("box2d")
    if r.random() < 0.2:
        s["geometry"].append('<geometry type="%s" r="%s"/>' % r.choice([("circle", "0.33"), ("box", "0.3 0.2")]))
        ngeo += 1  # unused geometry
    if portal:
        off = 0
        if r.random() < 0.5:
            s["statics"].append('<static_plane x="0 -0.02" n="0 1"/>')
            off = 1
        s["statics"].append('<static_plane x="-0.5 0" n="1 0"/>')
        s["statics"].append('<static_plane x="3.5 0" n="-1 0"/>')
        if r.random() < 0.55:
            s["portals"].append('<planar_portal planeA="%d" planeB="%d"/>' % (off, off + 1))
            F.append("planar_portal")
        else:
            s["portals"].append('<lees_edwards_portal planeA="%d" planeB="%d" v="%s" bounds="4"/>'
                                % (off, off + 1, r.choice(["0.7", "-2", "15"])))
            F.append("lees_edwards")
        if not off and r.random() < 0.5:
            s["statics"].append('<static_plane x="0 -0.5" n="0 1"/>')
            s["statics"].append('<static_plane x="0 3.5" n="0 -1"/>')
            s["portals"].append('<planar_portal planeA="2" planeB="3"/>')
            F.append("corner_portal")
            if "lees" in s["portals"][0]:  # the shearing boundary wraps along the height of the domain
                s["statics"][0] = s["statics"][0].replace(' 0" n', ' 1.5" n')
                s["statics"][1] = s["statics"][1].replace(' 0" n', ' 1.5" n')
                s["portals"][0] = re.sub('bounds="[^"]*"', 'bounds="2"', s["portals"][0])
    elif r.random() < 0.8:
        s["statics"].append('<static_plane x="0 0" n="%s"/>' % r.choice(["0 1", "0.1 1", "0 2"]))
        if r.random() < 0.4:
            s["statics"].append('<static_plane x="-1.2 0" n="1 0"/>')
    nb = r.randint(1, 6)
    cols = 3
    sp = r.choice([0.93, 0.98, 1.0, 1.05])
    for i in range(nb):
        x = (i % cols) * sp + r.uniform(-0.04, 0.04)
        y = 0.48 + (i // cols) * sp + r.uniform(-0.04, 0.04)
        vx, vy = r.uniform(-3, 3), r.uniform(-3, 1)
        if portal:
            x += r.choice([-0.4, 0.3, 1.0])
            x = min(max(x, -0.49), 3.49)
            y = min(y, 3.4)
            if r.random() < 0.5:
                vx *= 6
        fixed = 1 if r.random() < 0.15 else 0
        om = r.uniform(-2, 2)
        if fixed:
            F.append("fixed_body")
            if r.random() < 0.6:
                vx = vy = om = 0.0
        s["bodies"].append('<rigid_body x="%s" theta="%s" v="%s" omega="%s" rho="%s" geo_idx="%d"%s/>'
                           % (V(x, y), n(r.choice([0, r.uniform(-1, 1)])), V(vx, vy), n(om), r.choice(["1", "2.5", "0.7"]),
                              r.choice(geos), "" if not fixed and r.random() < 0.2 else ' fixed="%d"' % fixed))
    s["nb"] = nb
    s["ngeo"] = ngeo
    s["nplanes"] = len(s["statics"]) - 2 * len(s["portals"])
    return s


# -------------------------------------------------------------------------------------------------------------------- rb3d
def box_mesh(h):
    """A cube of half width h as a SIMH5 mesh file with surface samples and signed distance grid."""
    vs = [(x, y, z) for x in (-h, h) for y in (-h, h) for z in (-h, h)]
    fs = [(0, 1, 3), (0, 3, 2), (4, 6, 7), (4, 7, 5), (0, 4, 5), (0, 5, 1), (2, 3, 7), (2, 7, 6), (0, 2, 6), (0, 6, 4),
          (1, 5, 7), (1, 7, 3)]
    N = 7  # odd: no cell of the grid is symmetric about the centre, where the gradient would vanish
    org = -1.4 * h
    d = 2.8 * h / (N - 1)

    def sdf(p):
        q = [abs(c) - h for c in p]
        o = math.sqrt(sum(max(c, 0) ** 2 for c in q))
        return o + min(max(q), 0.0)
    grid = []
    for k in range(N):
        for j in range(N):
            for i in range(N):
                grid.append(sdf((org + i * d, org + j * d, org + k * d)))
    vol = (2 * h) ** 3
    inr = vol * ((2 * h) ** 2 + (2 * h) ** 2) / 12.0

    def mat(cols):  # 3 x N written row major
        return " ".join("%.17g" % c[a] for a in range(3) for c in cols)
    D = []

    def ds(path, typ, rows, cols, vals):
        D.append("D %s %s 2 %d %d\n%s" % (path, typ, rows, cols, vals))
    ds("convex_hull/vertices", "f64", 3, 8, mat(vs))
    ds("mesh/faces", "u32", 3, 12, " ".join(str(f[a]) for a in range(3) for f in fs))
    ds("mesh/vertices", "f64", 3, 8, mat(vs))
    ds("moments/I_on_rho", "f64", 3, 1, " ".join(["%.17g" % inr] * 3))
    ds("moments/R", "f64", 3, 3, "1 0 0 0 1 0 0 0 1")
    ds("moments/volume", "f64", 1, 1, "%.17g" % vol)
    ds("moments/x", "f64", 3, 1, "0 0 0")
    ds("sdf/cell_delta", "f64", 3, 1, " ".join(["%.17g" % d] * 3))
    ds("sdf/grid_dimensions", "u32", 3, 1, "%d %d %d" % (N, N, N))
    ds("sdf/grid_origin", "f64", 3, 1, " ".join(["%.17g" % org] * 3))
    ds("sdf/signed_distance", "f64", N * N * N, 1, " ".join("%.17g" % g for g in grid))
    ds("surface_samples/samples", "f64", 3, 8, mat(vs))
    gs = sorted({x.split()[1].split("/")[0] for x in D})
    return "SIMH5 1\n" + "".join("G %s\n" % g for g in gs) + "\n".join(D) + "\nEND\n"


def rb3d(r, want=None, max_steps=10, simple=False):
    want = want or {}
    s = base("rb3d")
    F = s["features"]
    dt = schedule(r, s, max_steps)
    s["integrator"] = r.choice(["split_ham", "split_ham", "dmv", "exponential_euler"])
    kind = want.get("contact") or r.choice(["none", "impact", "impact", "sobogus", "sobogus", "sobogus"])
    s["mu"] = None
    if kind == "none":
        s["contact"] = ""
    elif kind == "impact":
        s["contact"] = impact_contact(r, "rb3d", F, want.get("impact_kinds"))
    else:
        s["contact"], s["mu"] = sobogus_contact(r, "rb3d", F)
    F.append("contact_" + kind)
    F.append("int_" + s["integrator"])
    cached = 'cache_impulses="normal' in s["contact"]
    portal = want.get("portal")
    if portal is None:
        portal = r.random() < 0.15
    cyl = want.get("cylinder", not portal and r.random() < 0.2)
    if r.random() < 0.75:
        s["forces"].append('<near_earth_gravity f="%s"/>' % r.choice(["0 -9.8 0", "1 -3 0.5", "0 5 0"]))
    if r.random() < 0.15:
        s["forces"].append('<near_earth_gravity f="0 -0.5 0"/>')
    s["geometry"].append('<geometry type="sphere" r="0.5"/>')
    geos = [0]
    ngeo = 1
    if r.random() < 0.4:
        s["geometry"].append('<geometry type="sphere" r="0.4"/>')
        geos.append(ngeo)
        ngeo += 1
    spheres_only = cached or portal or cyl or want.get("spheres")
    fam = "sphere" if spheres_only else r.choice(["sphere", "sphere", "box", "box", "mesh", "mesh", "mix"])
    if cyl and not (cached or want.get("spheres")) and r.random() < 0.3:
        fam = "mesh"
    if want.get("mesh", True) is False and fam in ("mesh", "mix"):
        fam = "box"
    if fam in ("box", "mix"):
        if fam == "box":
            geos = []
        s["geometry"].append('<geometry type="box" r="%s"/>' % r.choice(["0.5 0.4 0.3", "0.45 0.45 0.45"]))
        geos.append(ngeo)
        ngeo += 1
        F.append("box3d")
    if fam in ("mesh", "mix"):
        if fam == "mesh":
            geos = []
        h = r.choice([0.5, 0.4])
        s["files"]["mesh.h5"] = box_mesh(h)
        s["geometry"].append('<geometry type="mesh" filename="../scene/mesh.h5"/>')
        geos.append(ngeo)
        ngeo += 1
        F.append("mesh")
    if portal:
        off = 0
        if r.random() < 0.5:
            s["statics"].append('<static_plane x="0 -0.02 0" n="0 1 0"/>')
            off = 1
        s["statics"].append('<static_plane x="-0.5 0 0" n="1 0 0"/>')
        s["statics"].append('<static_plane x="3.5 0 0" n="-1 0 0"/>')
        s["portals"].append('<planar_portal planeA="%d" planeB="%d" multiplier="%s"/>' % (off, off + 1, r.choice(["1 1 1", "1 1 1", "1 1 -1", "1 -1 1"])))
        F.append("planar_portal")
    elif cyl:
        s["statics"].append('<static_cylinder x="0.5 1 0" axis="%s" R="%s"/>' % (r.choice(["0 0 1", "0 1 0", "0 0 -1"]), r.choice(["2", "2.5"])))
        if r.random() < 0.25:  # a wider one around it
            s["statics"].append('<static_cylinder x="0.5 1 0" axis="%s" R="%s"/>' % (re.search('axis="([^"]*)"', s["statics"][0]).group(1), r.choice(["2.6", "3"])))
        if r.random() < 0.25:  # a wall across it
            s["statics"].append('<static_plane x="%s" n="%s"/>' % r.choice([("0 -0.2 0", "0 1 0"), ("0 0 -0.52", "0 0 1")]))
        F.append("cylinder")
    elif r.random() < 0.85:
        s["statics"].append('<static_plane x="0 0 0" n="%s"/>' % r.choice(["0 1 0", "0.1 1 0", "0 2 0"]))
        if r.random() < 0.4:
            s["statics"].append('<static_plane x="-1.2 0 0" n="1 0 0.1"/>')
    if r.random() < 0.15:
        s["misc"].append('<simulation_boundary violation_behavior="%s" min="-90 -90 -90" max="90 90 90"/>' % r.choice(["none", "exit"]))
        F.append("boundary")
    if r.random() < 0.2:
        s["misc"].append(r.choice([
            '<camera_perspective theta="1.0" phi="0.5" rho="12.0" lookat="0 0 0" up="0 1 0" fps="50" render_at_fps="0" locked="0"/>',
            '<camera_orthographic projection_plane="xy" x="0 0 0" scale="4" fps="50" render_at_fps="0" locked="0"/>']))
        F.append("camera")
    if r.random() < 0.25:
        for i, x in enumerate([x for x in s["statics"] if "static_plane " in x]):
            if portal and r.random() < 0.3:
                continue
            s["renderers"].append('<static_plane_renderer plane="%d" r="%s"/>' % (i, r.choice(["4 1", "5.5 2.5"])))
        for i, x in enumerate([x for x in s["statics"] if "static_cylinder " in x]):
            s["renderers"].append('<static_cylinder_renderer cylinder_idx="%d" L="%s"/>' % (i, r.choice(["4", "7.5"])))
        if s["renderers"]:
            F.append("renderers")
    nb = r.randint(1, 5)
    cols = 3
    sp = r.choice([0.93, 0.98, 1.0, 1.05])
    for i in range(nb):
        x = (i % cols) * sp + r.uniform(-0.04, 0.04)
        y = 0.48 + (i // cols) * sp + r.uniform(-0.04, 0.04)
        z = r.uniform(-0.1, 0.1)
        vx, vy, vz = r.uniform(-3, 3), r.uniform(-3, 1), r.uniform(-1, 1)
        if portal:
            x += r.choice([-0.4, 0.3, 1.0])
            x = min(max(x, -0.49), 3.49)
            if r.random() < 0.5:
                vx *= 6
        if cyl:
            ang = i * 1.5 + r.uniform(-0.1, 0.1)
            rr = (2.0 if 'R="2"' in s["statics"][0] else 2.5) - 0.5 + r.uniform(-0.05, 0.01)
            if 'axis="0 1 0"' in s["statics"][0]:
                x, y, z = 0.5 + rr * math.cos(ang), 1 + z, rr * math.sin(ang)
            else:
                x, y = 0.5 + rr * math.cos(ang), 1 + rr * math.sin(ang)
        fixed = 1 if r.random() < 0.15 else 0
        om = (r.uniform(-2, 2), r.uniform(-2, 2), r.uniform(-2, 2))
        if fixed:
            F.append("fixed_body")
            if r.random() < 0.6:
                vx = vy = vz = 0.0
                om = (0, 0, 0)
        R = "" if r.random() < 0.5 else ' R="%s"' % V(r.uniform(-1, 1), r.uniform(-1, 1), r.uniform(-1, 1))
        s["bodies"].append('<rigid_body_with_density x="%s" v="%s" omega="%s" rho="%s" fixed="%d" geo_idx="%d"%s/>'
                           % (V(x, y, z), V(vx, vy, vz), V(*om), r.choice(["1", "2.5", "0.7"]), fixed, r.choice(geos) - (ngeo if r.random() < 0.1 else 0), R))
    s["nb"] = nb
    s["ngeo"] = ngeo
    s["nplanes"] = sum("static_plane " in x for x in s["statics"]) - 2 * len(s["portals"])
    s["ncyl"] = sum("static_cylinder" in x for x in s["statics"])
    return s


def supported(r, sim, max_steps=10):
    """Scenes every feature of which is implemented: any failure of an undisturbed run is a defect."""
    k = r.choice(["none", "none", "sobogus"])
    s = GEN[sim](r, {"contact": k, "portal": False, "penalty": False, "cylinder": False, "spheres": True, "mesh": False, "boxes": False,
                     "layout": "pile"}, max_steps)
    if k == "sobogus":
        s["contact"] = ('<sobogus_friction_solver mu="0.3" CoR="%s" max_iters="20" eval_every="5" tol="1.0e-8" cache_impulses="none" '
                        'staggering="geometric"/>' % cor(r))
        s["mu"] = "0.3"
    if max_steps > 40:
        del s["bodies"][2:]
        s["nb"] = len(s["bodies"])
    return s


GEN = {"ball2d": ball2d, "rb2d": rb2d, "rb3d": rb3d}

CALLBACKS = ["startOfSim", "endOfSim", "startOfStep", "endOfStep", "frictionCoefficient", "restitutionCoefficient"]


def enlarge(r, s, long=True):
    """Rarely: a scene with far more bodies, shapes or steps than usual (beyond the ranges of small counters and first growth of buffers)"""
    if r.random() >= 0.04:
        return
    slow = bool(re.search(r'gr"|grr"|lcp|jacobi|staggered', s["contact"]))
    mesh = any("mesh" in g for g in s["geometry"])
    roomy = not s["portals"] and not any("drum" in x or "cylinder" in x for x in s["statics"])
    if roomy and (not long or r.random() < 0.6):
        N = r.choice([20, 40, 70] if mesh or slow else [20, 70, 140, 270, 320])
        sp = 3.2 if slow or r.random() < 0.3 else r.choice([0.96, 1.4, 2.0])
        cols = r.choice([8, 17, 40])
        y0 = 6.0 + r.random()
        tpl = list(s["bodies"])
        if s["geometry"] and r.random() < 0.4:
            g = len(s["geometry"])
            s["geometry"] = s["geometry"] + [r.choice(s["geometry"][:g]) for _ in range(r.choice([5, 30, 260]) if not mesh else 3)]
            s["ngeo"] = len(s["geometry"])
        for i in range(N - len(tpl)):
            b = r.choice(tpl)
            x, y = (i % cols) * sp + r.uniform(-0.02, 0.02), y0 + (i // cols) * sp + r.uniform(-0.02, 0.02)
            if s["sim"] == "ball2d":
                b = re.sub(r' x="[^"]*" y="[^"]*"', ' x="%s" y="%s"' % (n(x), n(y)), b)
            else:
                b = re.sub(r' x="[^"]*"', ' x="%s"' % (V(x, y) if s["sim"] == "rb2d" else V(x, y, r.uniform(-0.02, 0.02))), b)
                if s.get("ngeo") and r.random() < 0.8:
                    b = re.sub(r'geo_idx="[^"]*"', 'geo_idx="%d"' % r.randrange(len(s["geometry"])), b)
            s["bodies"].append(b)
        s["nb"] = len(s["bodies"])
        s["features"].append("crowd")
    elif long:
        k = r.choice([30, 60, 130, 260, 300] if not slow and not mesh else [30, 60])
        if len(s["bodies"]) > 3:
            del s["bodies"][3:]
            s["nb"] = len(s["bodies"])
        s["end"] = n(k * dt_value(s))
        s["opts"]["e"] = None
        s["features"].append("long")


def total_steps(s):
    return int(math.ceil(end_value(s) / dt_value(s) - 1e-9))


def add_script(r, s, edits=True, all_callbacks=False):
    """Adds a script with valid edits only."""
    sim = s["sim"]
    cbs = list(CALLBACKS) if all_callbacks else [c for c in CALLBACKS if r.random() < 0.7]
    lines = ["cb " + c for c in cbs]
    if sim == "rb2d":  # its coefficient callbacks are called, but the module gives scripts no arrays to write to
        cbs = [c for c in cbs if "Coefficient" not in c]
    if "frictionCoefficient" in cbs:
        lines.append("coef mu %s %s" % (r.choice(["*", "ball_ball", "static_plane_constraint"]), r.choice(["0", "0.15", "0.4"])))
    if "restitutionCoefficient" in cbs and 'symplectic_euler' not in s["contact"]:
        lines.append("coef cor %s %s" % (r.choice(["*", "ball_ball", "static_plane_constraint"]), r.choice(["0", "0.25", "0.6"])))
    T = max(1, total_steps(s))
    if edits:
        nact = r.randint(1, 4)
        st = {"planes": s.get("nplanes", 0), "nb": s["nb"], "ngeo": s.get("ngeo", 0), "cyl": s.get("ncyl", 0)}
        sites = []
        for _ in range(nact):
            cb = r.choice(["startOfStep", "startOfStep", "endOfStep", "startOfSim"])
            it = r.randint(1, T) if cb != "startOfSim" else 0
            sites.append((0 if cb == "startOfSim" else it, 0 if cb == "startOfStep" else 1, cb))
        sites.sort()
        for (it, _, cb) in sites:
            if cb not in cbs:
                cbs.append(cb)
                lines.insert(0, "cb " + cb)
            a = edit_action(r, s, st)
            if a:
                lines.append("at %s %d %s" % (cb, it, a))
        s["features"].append("edits")
    s["script"] = lines
    s["features"].append("script")
    return s


def edit_action(r, s, st):
    sim = s["sim"]
    opts = []
    if sim == "ball2d":
        opts += ["insertBall"] * 2
        if st["planes"] > 0:
            opts += ["setStaticPlanePosition", "setStaticPlaneVelocity", "deleteStaticPlane"]
        k = r.choice(opts)
        if k == "insertBall":
            st["nb"] += 1
            return "insertBall d:%s d:%s d:%s d:%s d:0.4 d:%s i:%d" % (n(r.uniform(0, 3)), n(r.uniform(2.0, 3.2)), n(r.uniform(-1, 1)), n(r.uniform(-2, 0)), r.choice(["1", "2"]), r.choice([0, 0, 1]))
    elif sim == "rb2d":
        opts += ["addCircleGeometry", "addBody", "addBody"]
        if st["planes"] > 0:
            opts += ["setStaticPlanePosition", "setStaticPlaneVelocity", "setStaticPlaneAngularVelocity", "deleteStaticPlane", "setStaticPlaneNormal"]
        if st["nb"] > 0:
            opts += ["delete_bodies"]
        k = r.choice(opts)
        if k == "addCircleGeometry":
            st["ngeo"] += 1
            return "addCircleGeometry d:%s" % r.choice(["0.35", "0.3"])
        if k == "addBody":
            st["nb"] += 1
            return "addBody d:%s d:%s d:0.1 d:%s d:%s d:0.5 d:1.5 i:%d i:%d" % (n(r.uniform(0, 3)), n(r.uniform(2.0, 3.2)), n(r.uniform(-1, 1)), n(r.uniform(-2, 0)), 0, r.choice([0, 0, 1]))
        if k == "delete_bodies":
            m = r.randint(1, min(2, st["nb"]))
            ids = r.sample(range(st["nb"]), m)
            st["nb"] -= m
            return "delete_bodies u:%s" % ",".join(map(str, ids))
        if k == "setStaticPlaneNormal":
            return "setStaticPlaneNormal I:%d d:%s d:1" % (r.randrange(st["planes"]), r.choice(["0.05", "-0.1"]))
        if k == "setStaticPlaneAngularVelocity":
            return "setStaticPlaneAngularVelocity I:%d d:%s" % (r.randrange(st["planes"]), r.choice(["0.5", "-1"]))
    else:
        opts = []
        if st["planes"] > 0:
            opts += ["setStaticPlanePosition", "setStaticPlaneVelocity"]
        if st["cyl"] > 0:
            opts += ["setStaticCylinderAngularVelocity", "setStaticCylinderOrientation"]
        if s["forces"]:
            opts += ["setGravityForce"]
        if not opts:
            return None
        k = r.choice(opts)
        if k == "setGravityForce":
            return "setGravityForce I:%d d:0.5 d:%s d:0.25" % (r.randrange(len(s["forces"])), r.choice(["-4", "3", "0"]))
        if k == "setStaticCylinderAngularVelocity":
            return "setStaticCylinderAngularVelocity I:0 d:0 d:0 d:%s" % r.choice(["1", "-2"])
        if k == "setStaticCylinderOrientation":
            return "setStaticCylinderOrientation I:0 d:0 d:0 d:1 d:%s" % r.choice(["0.1", "-0.2"])
        if k == "setStaticPlanePosition":
            return "setStaticPlanePosition I:%d d:0 d:%s d:0" % (r.randrange(st["planes"]), n(r.uniform(-0.1, 0.02)))
        return "setStaticPlaneVelocity I:%d d:%s d:%s d:0" % (r.randrange(st["planes"]), n(r.uniform(-1, 1)), n(r.uniform(-0.5, 0.5)))
    i = r.randrange(st["planes"])
    if k == "deleteStaticPlane":
        st["planes"] -= 1
        return "deleteStaticPlane I:%d" % i
    if k == "setStaticPlanePosition":
        return "setStaticPlanePosition I:%d d:0 d:%s" % (i, n(r.uniform(-0.1, 0.02)))
    return "setStaticPlaneVelocity I:%d d:%s d:%s" % (i, n(r.uniform(-1, 1)), n(r.uniform(-0.5, 0.5)))
