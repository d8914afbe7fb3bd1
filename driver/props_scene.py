"""C12: scenes that cannot be read completely or make no sense never start a simulation."""
import copy, os, re

import scenes
import simclient
from common import *
from engine import Skip, Violation
from props_model import GOOD_IMPACT, drop_env

ATTR = re.compile(r' ([A-Za-z_]+)="([^"]*)"')
OPTIONAL = {"R", "cache_impulses", "fixed"}  # attributes a scene may leave out or that not every solver reads
OUT_OPS = ("openw", "h5fcreate", "rename", "h5dwrite", "unlink", "ftruncate")


class SceneReading(Prop):
    id = "C12"
    rule = ("one case = one generated scene damaged in several seeded ways (cut at a byte, missing, unreadable at a seeded open or read "
            "operation, an attribute removed or garbled, an index out of range, a broken, missing or failing mesh or script) and started, plus "
            "starts of the intact scene with chopped and interrupted reads; non-trivial = the damage was applied and the process ran; "
            "distinct = different complete event history")

    def gen(self, r):
        sim = r.choice(self.sims)
        s = scenes.GEN[sim](r, {"impact_kinds": GOOD_IMPACT}, r.choice([1, 1, 2]))
        if r.random() < 0.4:
            scenes.add_script(r, s, edits=False, all_callbacks=True)
        o = s["opts"]
        o["o"], o["i"], o["s"] = 1, r.choice([0, 1]), r.choice([None, 0, 1])
        dm = []
        for _ in range(8):
            k = r.choice(["cut", "cut", "cut", "missing", "empty", "root", "eio", "eio", "openfail", "benign", "attr_drop", "attr_drop", "attr_garbage", "attr_garbage",
                          "index", "tag", "script_missing", "script_error", "script_eio", "mesh_cut", "mesh_missing", "mesh_eio", "mesh_lib", "range", "range", "range", "options", "options", "longopts"])
            dm.append({"kind": k, "x": r.randrange(1 << 24), "y": r.randrange(1 << 24), "env": rand_env(r), "sticky": r.choice([0, 1])})
        return {"scene": s, "damage": dm}

    def execute(self, ctx, plan):
        s = plan["scene"]
        w = ctx.world
        base = start(ctx, s)
        if not base.ok():
            must_run(base, s)
            raise Skip("unsupported scene" if base.clean_failure() else "uninterrupted run ended with " + base.outcome())
        T = w.tree()
        ctx.state(T)
        inst = scenes.installed(s)
        xml = inst["xml"]
        ops = []
        for o in base.ops():
            if o[1] in OUT_OPS:
                break
            ops.append(o)
        ctx.simtime += scenes.total_steps(s) * scenes.dt_value(s)
        for d in plan["damage"]:
            r = self.damaged(d, s, inst, xml, ops)
            if r is None:
                continue
            new, faults, desc, benign = r
            w.install(new)
            for n in new.get("remove", []):
                os.unlink(w.path("scene", n))
            ctx.fired_now = 0
            args = new.get("args") or simclient.start_args(new)
            r = ctx.run(s["sim"], args, d["env"], faults)
            t = w.tree()
            if faults and not ctx.fired_now:
                continue
            ctx.stats["damage_" + d["kind"]] += 1
            if benign == "help":
                if not r.ok() or t or "P begin" in r.text or "-o/--output_dir" not in r.log:
                    return Violation("help", "%s: the run ends with %s after writing %s" % (desc, r.outcome(), sorted(t)[:3]))
                continue
            if benign:
                if not r.ok():
                    return Violation("chopped_read_refused", "%s: intact scene refused (%s)" % (desc, r.outcome()))
                df = diff(outputs(T), outputs(t))
                if df:
                    return Violation("chopped_read_differs", "%s: %s" % (desc, df))
                continue
            if r.ok():
                return Violation("broken_scene_accepted", "%s: the run exits successfully" % desc)
            if not r.clean_failure():
                return Violation("broken_scene_crashes", "%s: the run ends with %s instead of a failure status" % (desc, r.outcome()))
            if "P begin" in r.text:
                return Violation("broken_scene_starts", "%s: a script callback ran" % desc)
            if t:
                return Violation("broken_scene_starts", "%s: output %s was written" % (desc, sorted(t)[:3]))
        return None

    def damaged(self, d, s, inst, xml, ops):
        """-> (installed scene, faults, description, benign) or None if it does not apply"""
        k, x, y = d["kind"], d["x"], d["y"]
        new = dict(inst)
        of = lambda name, kinds: [o for o in ops if o[2].endswith(name) and o[1] in kinds]
        if k == "cut":
            n = x % len(xml.rstrip())
            new["xml"] = xml[:n]
            return new, [], "scene cut at byte %d of %d" % (n, len(xml)), False
        if k == "empty":
            new["xml"] = ["", " \n", "\n\n<!-- -->"][x % 3]
            return new, [], "empty scene", False
        if k == "missing":
            new["remove"] = ["scene.xml"]
            return new, [], "missing scene", False
        if k == "options":
            a = simclient.start_args(new)
            without = lambda o: [z for i, z in enumerate(a) if z != o and not (i and a[i - 1] == o)]
            c = [(["-i"] + [z for z in without("-o") if z != "-i"], "impulse output without an output directory"), (a + ["-e", ["0", "-1", "abc", "-0.5"][y % 4]], "bad end time"),
                 (a + ["-f", ["abc", "?"][y % 2]], "bad output rate"), (a + ["-s", ["maybe", "no"][y % 2]], "bad snapshot option"), (a + [["-z", "--speed", "--endless"][y % 3]], "unknown option"),
                 (a + ["-e"], "option without its value"), (a + ["../scene/scene.xml"], "two scenes"), (a[1:], "no scene"), (a + ["-r", "nothing.bin"], "resume from a file that does not exist"),
                 (a + [["-h", "--help"][y % 2]], "help")]
            new["args"], desc = c[x % len(c)]
            return new, [], desc, "help" if desc == "help" else False
        if k == "longopts":  # any order, spelt out
            o = new["opts"]
            g = [["../scene/scene.xml"]]
            for q, nm in (("e", "end"), ("f", "frequency"), ("s", "serialize_snapshots")):
                if o.get(q) is not None:
                    g.append(["--" + nm, str(o[q])] if y & 1 else ["--%s=%s" % (nm, o[q])])
            if o.get("o"):
                g.append(["--output_dir", "out"])
            if o.get("i"):
                g.append(["--impulses"])
            i = x % len(g)
            new["args"] = [z for q in g[i:] + g[:i] for z in q]
            return new, [], "options in words: %s" % " ".join(new["args"]), True
        if k == "root":
            root = scenes.ROOT[s["sim"]]
            oth = [v for v in scenes.ROOT.values() if v != root] + ["scene"]
            new["xml"] = xml.replace(root + ">", oth[x % len(oth)] + ">")
            return new, [], "scene of another program", False
        if k in ("eio", "openfail"):
            c = of("scene.xml", ["read"] if k == "eio" else ["openr"])
            if not c:
                return None
            op = c[x % len(c)]
            return new, [[op[0], k, x, d["sticky"]]], "%s of the scene at operation %d" % (k, op[0]), False
        if k == "benign":
            c = [o for o in ops if o[1] == "read"]
            if not c:
                return None
            return new, [[o[0], ["short", "eintr"][(x >> (i % 20)) & 1], y % 4096, 0] for i, o in enumerate(c)], "chopped reads", True
        if k in ("attr_drop", "attr_garbage", "range"):
            ms = list(ATTR.finditer(xml))
            if not ms:
                return None
            if k == "range":
                ms = [m for m in ms if self.outside(re.findall(r"<(\w+)", xml[:m.start()])[-1], m.group(1), y, m.group(2), s["sim"], 'staggering="symplectic_euler"' in xml)]
                if not ms:
                    return None
            m = ms[x % len(ms)]
            el = re.findall(r"<(\w+)", xml[:m.start()])[-1]
            if m.group(1) == "cache_impulses" and k != "range" or m.group(1) == "callback":
                return None
            if k == "attr_drop":
                if m.group(1) in OPTIONAL and not (m.group(1) == "fixed" and s["sim"] != "rb2d"):
                    return None
                new["xml"] = xml[:m.start()] + xml[m.end():]
                return new, [], "attribute %s of %s removed" % (m.group(1), el), False
            bad = self.garbage(el, m.group(1), m.group(2), y) if k == "attr_garbage" else self.outside(el, m.group(1), y, m.group(2), s["sim"], 'staggering="symplectic_euler"' in xml)
            if bad is None:
                return None
            new["xml"] = xml[:m.start()] + ' %s="%s"' % (m.group(1), bad) + xml[m.end():]
            return new, [], 'attribute %s of %s is "%s"' % (m.group(1), el, bad), False
        if k == "index":
            cnt = {"geo_idx": len(s.get("geometry", [])), "planeA": sum("<static_plane " in q for q in s["statics"]), "planeB": sum("<static_plane " in q for q in s["statics"]),
                   "plane": sum("<static_plane " in q for q in s["statics"]), "cylinder_idx": sum("<static_cylinder " in q for q in s["statics"])}
            ms = [m for m in ATTR.finditer(xml) if m.group(1) in cnt]
            if not ms:
                return None
            m = ms[x % len(ms)]
            el = re.findall(r"<(\w+)", xml[:m.start()])[-1]
            b = cnt[m.group(1)] + [0, 0, 1, 9][y % 4]
            new["xml"] = xml[:m.start()] + ' %s="%d"' % (m.group(1), b) + xml[m.end():]
            return new, [], "%s of %s is %d of %d" % (m.group(1), el, b, cnt[m.group(1)]), False
        if k == "tag":
            cs = [i for i, c in enumerate(xml) if c in '"=']  # any of these makes the text malformed
            i = cs[x % len(cs)]
            new["xml"] = xml[:i] + xml[i + 1:]
            return new, [], "character %d (%s) of the scene removed" % (i, xml[i]), False
        if k.startswith("script"):
            if s.get("script") is None:
                return None
            if k == "script_missing":
                new["remove"] = ["script.py"]
                return new, [], "missing script", False
            if k == "script_error":
                new["script"] = inst["script"] + "syntaxerror\n"
                return new, [], "script with a syntax error", False
            c = of("script.py", ["read", "openr"])
            if not c:
                return None
            op = c[x % len(c)]
            return new, [[op[0], "eio" if op[1] == "read" else "openfail", x, d["sticky"]]], "script unreadable at operation %d" % op[0], False
        if k.startswith("mesh"):
            if "mesh.h5" not in inst["files"]:
                return None
            img = inst["files"]["mesh.h5"]
            if k == "mesh_missing":
                new["remove"] = ["mesh.h5"]
                return new, [], "missing mesh", False
            if k == "mesh_cut":
                n = x % (len(img.rstrip()) - 1)
                new["files"] = dict(inst["files"], **{"mesh.h5": img[:n]})
                return new, [], "mesh cut at byte %d" % n, False
            if k == "mesh_eio":
                c = of("mesh.h5", ["read", "openr"])
            else:
                c = [o for o in ops if o[1] in ("h5fopen", "h5gopen", "h5dopen", "h5dread")]
            if not c:
                return None
            op = c[x % len(c)]
            act = {"read": "eio", "openr": "openfail"}.get(op[1], "fail")
            return new, [[op[0], act, x, d["sticky"]]], "mesh unreadable: %s at operation %d (%s)" % (op[1], op[0], op[2]), False
        return None

    def garbage(self, el, a, v, y):
        """a value the attribute cannot have"""
        c = v.split()
        if len(c) > 1:
            i = y % len(c)
            c2 = list(c)
            c2[i] = ["abc", "--1", "x3", "?"][y % 4]
            return " ".join([c2, c[:-1], []][(y >> 4) % 3])
        return ["abc", "", "--1", "?"][y % 4]

    def outside(self, el, a, y, old, sim, se):
        """a number outside the attribute's documented range"""
        neg, pos = ["-1", "-0.001"], ["0", "-1", "-0.001"]
        fr = ("sobogus_friction_solver", "staggered_projections_friction_solver")
        R = {("integrator", "dt"): ["0", "-0.01", "-1/100", "-1", "0/5", "-.5"], ("integrator", "type"): ["euler", "Verlet", "rk4"],
             ("end_time", "t"): pos, ("*", "v_tol"): neg, ("impact_operator", "type"): ["elastic", "LCP", "g"],
             ("solver", "name"): ["apg", "QL", "none"], ("lcp_impact_solver", "name"): ["apg", "none"], ("mdp_friction_solver", "name"): ["q", "none"],
             ("elastic_operator", "type"): ["elastic", "GR"], ("inelastic_operator", "type"): ["elastic", "LCP"],
             ("geometry", "type"): ["cube", "Sphere", "disc"], ("static_cylinder", "R"): ["-1"], ("lees_edwards_portal", "bounds"): neg,
             ("penalty", "stiffness"): neg, ("simulation_boundary", "violation_behavior"): ["stop", "Exit"],
             ("simulation_boundary", "min"): ["90 90 91", "91 -90 -90", "-90 90.5 -90"], ("simulation_boundary", "max"): ["-91 90 90", "90 90 -90"],
             ("planar_portal", "multiplier"): ["1 1 0", "1 2 1", "0.5 1 1"], ("static_cylinder_renderer", "L"): ["-1"],
             ("static_plane_renderer", "r"): ["-1 1", "1 -1"], ("rigid_body", "rho"): pos, ("camera_orthographic", "projection_plane"): ["yx", "xyz"],
             ("camera_perspective", "rho"): ["-1"], ("camera_orthographic", "scale"): ["-1"]}
        for e in fr:
            R.update({(e, "mu"): neg, (e, "CoR"): neg, (e, "max_iters"): ["0"], (e, "tol"): neg, (e, "staggering"): ["geo", "Geometric", "euler"]})
        R[fr[0], "eval_every"] = ["0", "100000"]
        R[fr[0], "cache_impulses"] = ["yes", "both"]
        R[fr[0], "penetration_threshold"] = neg
        if el == "geometry" and a == "r":
            n = len(old.split())
            return " ".join(("-1" if i == y % n else "1") for i in range(n)) if y & 8 else " ".join(("0" if i == y % n else "1") for i in range(n))
        if sim == "rb3d" and a == "cache_impulses" and not se:  # read by one staggering only
            return None
        if el == "static_plane" and a == "n" and sim == "rb2d":
            return "0 0"
        v = R.get((el, a)) or R.get(("*", a))
        return v[y % len(v)] if v else None

    def shrink(self, plan):
        if len(plan["damage"]) > 1:
            for d in plan["damage"]:
                q = copy.deepcopy(plan)
                q["damage"] = [d]
                yield q
        for i, d in enumerate(plan["damage"]):
            if d["env"]:
                q = copy.deepcopy(plan)
                q["damage"][i]["env"] = {}
                yield q
        yield from Prop.shrink(self, plan)


PROPS = {"C12": SceneReading()}
