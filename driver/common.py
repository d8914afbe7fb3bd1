"""Shared pieces of the property checks."""
import copy, os, re

import scenes
import simclient
from engine import Fails, Skip, Violation

REAL = ["the complete command line program of each simulator: option parsing, scene parsing, simulation loop, output schedule, "
        "snapshot code, integrators, collision detection, impact and friction maps and operators, scripting glue, HDF5 wrapper "
        "(/repo sources, unmodified, main renamed)", "libstdc++ streams, libc stdio", "RapidXML (the copy in Boost), Eigen"]
STUB = ["HDF5 library (in-memory model whose file image goes through the simulated disk)", "Python interpreter and NumPy (script "
        "interpreter with the same C interface)", "So-bogus Gauss-Seidel friction solver and QL quadratic program solver (small "
        "deterministic solvers with the same interface)",
        "libgomp worker scheduling (seeded coroutine scheduler)", "clock, heap contents and addresses, file system calls (seams)"]
ASSUME = ["the stubbed libraries behave like the real ones at the interface the code uses",
          "a kill ends the process between or inside system calls; data handed to the system survives a kill (no power loss)",
          "contact solvers are the stub solvers: accuracy of the real solvers is outside these checks"]

NAME = re.compile(r"(config|forces|serial)_(\d+)\.(h5|bin)$")
FRAME = re.compile(r"(config|forces|serial)_(\d+)\.")


def classify(name):
    """relative path -> (kind, frame) | None"""
    m = NAME.search(os.path.basename(name))
    if m:
        return m.group(1), int(m.group(2))
    if os.path.basename(name) == "serial.bin":
        return "serial", None
    return None


def outputs(tree):
    """Drops temporary files: only files under their final name are output."""
    return {k: v for k, v in tree.items() if classify(k)}


def parse_h5(data):
    """-> {path: (type, dims, values)} or None if the image is not a complete file"""
    t = data.decode("utf-8", "replace")
    if not t.startswith("SIMH5 1\n") or not t.rstrip("\n").endswith("END"):
        return None
    out = {}
    ls = t.split("\n")
    i = 1
    while i < len(ls):
        if ls[i].startswith("D "):
            p = ls[i].split(" ")
            dims = [int(x) for x in p[4:4 + int(p[3])]]
            raw = ls[i + 1].split(" ") if ls[i + 1] else []
            typ = p[2]
            if typ in ("f64", "f32"):
                vals = [float(x) for x in raw]
            elif typ in ("i32", "u32", "i64", "u64"):
                vals = [int(x) for x in raw]
            else:
                vals = raw
            out[p[1]] = (typ, dims, vals)
            i += 2
        elif ls[i] == "END":
            break
        else:
            i += 1
    return out


def scal(h, k):
    return h[k][2][0] if k in h and h[k][2] else None


def cols(h, k):
    """columns of a rows x n dataset written row major"""
    if k not in h:
        return []
    _, (rows, n), v = h[k][0], h[k][1], h[k][2]
    return [tuple(v[r * n + c] for r in range(rows)) for c in range(n)]


def start(ctx, scene, env=None, faults=(), oom=None):
    inst = scenes.installed(scene)
    ctx.world.install(inst)
    return ctx.run(scene["sim"], simclient.start_args(inst), env, faults, oom)


def rerun(ctx, scene, env=None, faults=(), oom=None):
    """start without reinstalling"""
    return ctx.run(scene["sim"], simclient.start_args(scenes.installed(scene)), env, faults, oom)


def resume(ctx, scene, snapshot, env=None, faults=(), oom=None):
    return ctx.run(scene["sim"], ["-r", snapshot], env, faults, oom)


UNSUPPORTED = re.compile(r"not (yet )?(supported|implemented)|currently broken|only supports a single|has not been updated|::\w*[sS]tencilSize|boundary", re.I)


LATE = r"(?:static_cylinder_body|sphere_body)"
CACHED = {"ball2d": "ball_ball|static_plane_constraint|static_drum_constraint", "rb2d": "circle_circle|body_body|kinematic_object_circle|static_plane_circle",
          "rb3d": "sphere_sphere|static_plane_sphere|static_cylinder_sphere|kinematic_sphere_sphere"}
GRADG = {"ball2d": "-", "rb2d": "body_body|static_plane_body", "rb3d": LATE}


def denied(scene, log):
    """a refusal of something the program does support, or that is not in the scene"""
    m = re.search(r"Constraint::(\w+) not implemented for: (\w+)", log)
    sim = scene["sim"]
    if m:
        f, name = m.groups()
        if re.fullmatch(LATE, name):
            return sim != "rb3d"
        if f in ("evalH", "computeContactBasis", "computeRelativeVelocity", "getSimulatedBodyIndices", "getBodyIndices", "getWorldSpaceContactPoint"):
            return True
        if f == "resolveImpact":
            return name in ("ball_ball", "sphere_sphere", "static_plane_sphere")
        if f == "evaluateGapFunction":
            return name in ("ball_ball", "static_plane_constraint", "sphere_sphere", "static_plane_sphere")
        if f == "evalgradg":
            return not re.fullmatch(GRADG[sim], name)
        if f == "getWorldSpaceContactNormal":
            return sim != "rb2d" or not re.match("teleported|kinematic_kick", name)
        return name in ("ball_ball", "static_plane_constraint", "static_drum_constraint", "sphere_sphere", "static_plane_sphere", "static_plane_box", "static_cylinder_sphere")
    m = re.search(r"(\w+) not supported in ConstraintCache", log)
    if m:
        return bool(re.fullmatch(CACHED[sim], m.group(1))) or "teleported" in m.group(1) and not scene["portals"]
    if "Collision between static planes" in log:
        return True
    kinds = set(re.findall(r'type="(\w+)"', " ".join(scene["geometry"])))
    if re.search("Collision between|narrow phase|Kinematic circle vs", log) and len(kinds) < 2:
        return True
    still = ' fixed="1"' in " ".join(scene["bodies"]) or bool(scene["script"])
    if "inematic" in log and "not" in log and sim == "rb2d" and not still:
        return True
    if re.search(r"GRR? only supports a single", log) and not scene["script"]:
        return True
    return "JacobiOperator" in log and 'type="jacobi"' not in scene["contact"]


def must_run(r, scene, what="a fault-free run of a valid scene"):
    """a run without faults that fails has to name something the program does not support"""
    if not r.ok() and "bad_alloc" in r.log and len(scene["bodies"]) > 60:
        raise Skip("a crowd of overlapping bodies takes more memory than a run gets")
    if not r.ok() and r.sig != 24 and not (r.clean_failure() and UNSUPPORTED.search(r.log) and not denied(scene, r.log)):
        raise Fails("%s ends with %s: %s" % (what, r.outcome(), r.log.strip()[-200:]))


def baseline(ctx, scene, env=None):
    """Fault-free uninterrupted run -> (result, tree). Skips scenes the simulator does not support."""
    r = start(ctx, scene, env)
    if not r.ok():
        must_run(r, scene)
        why = "unsupported scene"
        for l in reversed(r.log.strip().split("\n")):
            l = l.strip()
            if l and not l.startswith("Exiting") and not l.startswith("Saving") and not l.startswith("Serializing"):
                why = "unsupported: " + re.sub(r"[0-9./]+", "#", l)[:70]
                break
        raise Skip(why if r.clean_failure() else "uninterrupted run ended with " + r.outcome())
    t = ctx.world.tree()
    ctx.simtime += scenes.total_steps(scene) * scenes.dt_value(scene)
    return r, t


def label_frames(ops):
    """[(idx, kind, path, n, file kind, frame)]: library operations get the file that was last created or opened; serial.bin gets the
    frame of the last configuration file."""
    out = []
    cur = (None, None)
    last = None
    for (i, k, p, n) in ops:
        m = FRAME.search(p)
        if m:
            cur = (m.group(1), int(m.group(2)))
            if m.group(1) == "config":
                last = int(m.group(2))
            lab = cur
        elif "serial.bin" in p:
            cur = ("serial", last)
            lab = cur
        elif k.startswith("h5"):
            lab = cur
        else:
            lab = (None, None)
        out.append((i, k, p, n, lab[0], lab[1]))
    return out


def snapshot_rel(tree, frame):
    for k in tree:
        c = classify(k)
        if c == ("serial", frame):
            return k
    return None


def frames_of(tree, kind):
    return sorted(c[1] for c in (classify(k) for k in tree) if c and c[0] == kind and c[1] is not None)


def diff(a, b, only=None):
    """first difference between expected a and actual b (dicts of bytes)"""
    for k in sorted(set(a) | set(b)):
        if only and not only(k):
            continue
        if k not in b:
            return "%s is missing" % k
        if k not in a:
            return "%s should not exist" % k
        if a[k] != b[k]:
            return "%s differs%s" % (k, h5diff(a[k], b[k]))
    return None


def h5diff(x, y):
    if x.startswith(b"SIMH5") and y.startswith(b"SIMH5"):
        p, q = parse_h5(x), parse_h5(y)
        if p is None or q is None:
            return " (incomplete file)"
        for k in sorted(set(p) | set(q)):
            if p.get(k) != q.get(k):
                return " (%s: %s / %s)" % (k, str(p.get(k))[:120], str(q.get(k))[:120])
        return ""
    n = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
    return " (at byte %d of %d/%d)" % (n, len(x), len(y))


# ------------------------------------------------------------------------------------------------------- generation helpers
def rand_env(r, level=2):
    e = {}
    if r.random() < 0.6:
        m = r.choice([1, 2, 3, 4, 4, 5])
        e["mem"] = [m, r.randrange(1, 1 << 30)]
    if r.random() < 0.4:
        e["clock"] = [r.choice([0, 1, 2, 3]), r.randrange(1, 1 << 30), r.choice([1420070400, 0, 1900000000, 951782399])]
    if r.random() < 0.5:
        e["omp"] = [r.choice([1, 2, 3, 4, 8]), r.randrange(1, 1 << 30), r.choice([0, 1, 3, 10, 50])]
    if r.random() < 0.2:
        e["ent"] = r.randrange(1, 1000)
    return e


def shrink_scene(s):
    """simpler scenes"""
    def c():
        return copy.deepcopy(s)
    if s.get("script") is not None:
        t = c()
        t["script"] = None
        yield t
    for key in ("misc", "renderers"):
        if s.get(key):
            t = c()
            t[key] = []
            yield t
    for k in ("i", "f", "e"):
        if s["opts"].get(k):
            t = c()
            if k == "e":
                t["end"] = t["opts"]["e"]
            t["opts"][k] = None if k != "i" else 0
            yield t
    n = scenes.total_steps(s)
    for m in (1, n // 2, n - 1):
        if 0 < m < n:
            t = c()
            e = scenes.n(m * scenes.dt_value(s))
            if t["opts"].get("e"):
                t["opts"]["e"] = e
            else:
                t["end"] = e
            yield t
    if s["contact"]:
        t = c()
        t["contact"] = ""
        yield t
    nb = len(s["bodies"])
    for part in (2, 4, 8, 16):
        if nb >= 2 * part:
            for j in range(part):
                t = c()
                del t["bodies"][nb * j // part:nb * (j + 1) // part]
                t["nb"] = len(t["bodies"])
                yield t
    for key in ("forces", "bodies"):
        for i in range(len(s[key])):
            if key == "bodies" and len(s[key]) == 1:
                continue
            t = c()
            del t[key][i]
            t["nb"] = len(t["bodies"])
            yield t
    if not s["portals"]:
        for i in range(len(s["statics"])):
            t = c()
            del t["statics"][i]
            yield t
    if s.get("script"):
        for i in range(len(s["script"])):
            t = c()
            del t["script"][i]
            yield t


def shrink_ints(plan, path, small=(0, 1)):
    """plans with the integer at path replaced by smaller ones"""
    o = plan
    for p in path[:-1]:
        o = o[p]
    v = o[path[-1]]
    for x in list(small) + [v // 2, v - 1]:
        if 0 <= x < v:
            q = copy.deepcopy(plan)
            o2 = q
            for p in path[:-1]:
                o2 = o2[p]
            o2[path[-1]] = x
            yield q


class Prop:
    real, stub, assumptions = REAL, STUB, ASSUME
    sims = ["ball2d", "rb2d", "rb3d"]
    cases = {"quick": 10000000, "thorough": 100000000}  # the time budget governs

    def features(self, plan):
        s = plan.get("scene")
        return ([s["sim"]] + list(dict.fromkeys(s["features"]))) if s else []

    def sample(self, plan):
        q = copy.deepcopy(plan)
        s = q.pop("scene", None)
        if s:
            q["scene"] = scenes.render(s).split("\n")
            q["script"] = s.get("script")
            q["options"] = s["opts"]
        return q

    def shrink(self, plan):
        if plan.get("scene"):
            for s in shrink_scene(plan["scene"]):
                q = copy.deepcopy(plan)
                q["scene"] = s
                yield q
