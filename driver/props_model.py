"""C08-C13: determinism, scripting, physics bookkeeping, scene reading, periodic boundaries."""
import copy, math, os, re

import scenes
from common import *
from engine import Skip, Violation

GOOD_IMPACT = ["gauss_seidel", "lcp", "gr", "grr"]


def out_dir(ctx, s):
    if s["opts"].get("o"):
        os.makedirs(ctx.world.path("work", "out"), exist_ok=True)


def events(r):
    """script history: [(op index at that time, [words])]"""
    out, last = [], -1
    for l in r.lines():
        if l.startswith("O "):
            last = int(l.split(" ", 2)[1])
        elif l.startswith("P "):
            out.append((last, l.split(" ")[1:]))
    return out


def arr(txt):
    t = txt.strip("[]")
    return [float(x) for x in t.split(",")] if t else []


def configs(tree):
    return {classify(n)[1]: parse_h5(v) for n, v in tree.items() if classify(n) and classify(n)[0] == "config"}


def forces(tree):
    return {classify(n)[1]: parse_h5(v) for n, v in tree.items() if classify(n) and classify(n)[0] == "forces"}


KEY = {"ball2d": ("q", "v"), "rb2d": ("q", "v"), "rb3d": ("state/q", "state/v")}


def drop_env(plan, keys=("env",)):
    for k in keys:
        if plan.get(k):
            q = copy.deepcopy(plan)
            q[k] = {}
            yield q


# ----------------------------------------------------------------------------------------------------------------------- C08
class Determinism(Prop):
    id = "C08"
    rule = ("one case = one generated run repeated under several seeded environments (clock start, steps and jumps, heap and stack contents, "
            "addresses, number of workers and their interleaving, older files in the output directory); all files are compared byte for "
            "byte; non-trivial = the scene ran and at least one environment differed from the reference; distinct = different complete "
            "event history")

    def gen(self, r):
        sim = r.choice(self.sims)
        s = scenes.GEN[sim](r, None, r.choice([1, 2, 4, 8]))
        scenes.enlarge(r, s)
        if r.random() < 0.3:
            scenes.add_script(r, s, edits=r.random() < 0.6)
        o = s["opts"]
        o["o"] = 1
        o["i"] = 1 if r.random() < 0.5 else 0
        o["s"] = None if "jacobi" in s["contact"] else r.choice([0, 1, 1, None])
        envs = []
        for _ in range(r.choice([2, 3, 4])):
            e = {"mem": [r.choice([1, 2, 3, 4, 5]), r.randrange(1, 1 << 30)],
                 "clock": [r.choice([0, 1, 2, 3]), r.randrange(1, 1 << 30), r.choice([1420070400, 0, 1900000000, 951782399])],
                 "omp": [r.choice([1, 2, 3, 4, 8, 16]), r.randrange(1, 1 << 30), r.choice([0, 1, 3, 10, 50])], "ent": r.randrange(1, 1000),
                 "tz": r.choice(["UTC", "UTC+9", "EST5EDT"])}
            envs.append({"env": e, "stale": r.randrange(1, 1 << 16) if r.random() < 0.4 else 0})
        return {"scene": s, "envs": envs}

    def execute(self, ctx, plan):
        s = plan["scene"]
        w = ctx.world
        b = start(ctx, s)
        must_run(b, s)
        if b.sig:
            raise Skip("reference run ended with " + b.outcome())
        T = w.tree()
        ctx.state(T)
        for k, e in enumerate(plan["envs"]):
            w.install(scenes.installed(s))
            stale = {}
            x = e["stale"]
            if x:
                names = sorted(T)
                for i, n in enumerate(names):
                    if (x >> (i % 13)) & 1:
                        stale[n] = [b"", b"stale", T[names[-1]], T[n] + b"more", T[n][:len(T[n]) // 2]][(x + i) % 5]
                stale["out/notes.txt"] = b"keep me"
                if s["opts"]["s"] is not None and x & 64:
                    stale["serial.bin" if s["opts"]["s"] == 0 else "out/serial_99999.bin"] = b"old snapshot"
                    for n in names:
                        if "serial" in n:
                            stale[n + ".tmp"] = b"left over by a killed run" * 40
                for n, v in stale.items():
                    w.write("work/" + n, v)
                ctx.stats["stale_files"] += len(stale)
            r = rerun(ctx, s, e["env"])
            if r.sig == 24:
                raise Skip("run ended by the time limit")
            if r.outcome() != b.outcome():
                return Violation("status_depends_on_environment", "environment %s stale=%s: run ends with %s instead of %s" % (e["env"], bool(x), r.outcome(), b.outcome()))
            t = w.tree()
            for n, v in T.items():
                if t.get(n) != v and r.ok():
                    return Violation("output_depends_on_environment", "environment %s stale=%s: %s" % (e["env"], bool(x), diff({n: v}, {n: t[n]} if n in t else {})))
                if t.get(n) != v and not r.ok() and parse_h5(v) is not None and not x:
                    return Violation("output_depends_on_environment", "environment %s (failing run): %s" % (e["env"], diff({n: v}, {n: t[n]} if n in t else {})))
            for n in t:
                if n in T or n.endswith(".tmp"):
                    continue
                if n not in stale:
                    return Violation("output_depends_on_environment", "environment %s stale=%s: %s appears" % (e["env"], bool(x), n))
                if t[n] != stale[n]:
                    return Violation("foreign_file_changed", "older file %s that is not an output of this run was changed" % n)
        if b.ok():
            ctx.simtime += scenes.total_steps(s) * scenes.dt_value(s)
        return None

    def shrink(self, plan):
        if len(plan["envs"]) > 1:
            for e in plan["envs"]:
                q = copy.deepcopy(plan)
                q["envs"] = [e]
                yield q
        for i, e in enumerate(plan["envs"]):
            for k in sorted(e["env"]):
                q = copy.deepcopy(plan)
                del q["envs"][i]["env"][k]
                yield q
            if e["stale"]:
                q = copy.deepcopy(plan)
                q["envs"][i]["stale"] = 0
                yield q
        yield from Prop.shrink(self, plan)


# ----------------------------------------------------------------------------------------------------------------------- C09
class Callbacks(Prop):
    id = "C09"
    rule = ("one case = one generated scripted run whose recorded callback history is compared with the schedule and with the recorded "
            "files, killed and resumed at a seeded operation, and one seeded callback failure (exception, failing call); non-trivial = at "
            "least one callback ran; distinct = different complete event history")

    def gen(self, r):
        sim = r.choice(self.sims)
        s = scenes.GEN[sim](r, {"impact_kinds": GOOD_IMPACT}, r.choice([2, 3, 5, 8]))
        scenes.enlarge(r, s)
        scenes.add_script(r, s, edits=r.random() < 0.4, all_callbacks=r.random() < 0.5)
        o = s["opts"]
        o["o"] = 1
        o["i"] = r.choice([0, 1])
        o["s"] = r.choice([0, 1, 1])
        if r.random() < 0.6:
            o["f"] = None
        return {"scene": s, "env": rand_env(r), "resume": r.randrange(1 << 16) if r.random() < 0.6 else None,
                "fail": {"kind": r.choice(["raise", "py", "py", "coef"]), "x": r.randrange(1 << 16)} if r.random() < 0.8 else None}

    # the calls a run must make from iteration it0, given that it stops at one of the iterations in ends
    def judge(self, s, r, T, it0, fresh, what):
        cbs = [l.split()[1] for l in s["script"] if l.startswith("cb ")]
        ev = events(r)
        m = scenes.save_steps(s)
        cfg = configs(T)
        seq = []  # [name, iteration, [(words)]]
        for _, w in ev:
            if w[0] == "begin":
                seq.append((w[1], int(w[2]), []))
            elif seq:
                seq[-1][2].append(w)
        if seq and seq[-1][2] and False:
            pass
        # order
        i = 0
        names = [(a, b) for a, b, _ in seq]
        if "startOfSim" in cbs and fresh:
            if not names or names[0][0] != "startOfSim":
                return Violation("callback_order", "%s: run does not begin with startOfSim: %s" % (what, names[:2]))
            i = 1
        it = it0
        last_it = it0
        while i < len(names):
            n, k = names[i]
            if n == "endOfSim":
                break
            it = last_it + 1
            if "startOfStep" in cbs:
                if (n, k) != ("startOfStep", it):
                    return Violation("callback_order", "%s: expected startOfStep %d, got %s %s" % (what, it, n, k))
                i += 1
            fr = {"frictionCoefficient": 0, "restitutionCoefficient": 0}
            while i < len(names) and names[i][0] in fr:
                fr[names[i][0]] += 1
                i += 1
            if "endOfStep" in cbs:
                if i >= len(names) or names[i] != ("endOfStep", it):
                    return Violation("callback_order", "%s: expected endOfStep %d, got %s" % (what, it, names[i:i + 1]))
                i += 1
            elif "startOfStep" not in cbs:
                last_it = None
                break
            last_it = it
        if "startOfStep" not in cbs and "endOfStep" not in cbs:
            last_it = None
        if last_it is None:  # no step callbacks: only order of the rest
            rest = [n for n, _ in names[i:] if "Coefficient" not in n]
            if rest not in ([], ["endOfSim"]):
                return Violation("callback_order", "%s: unexpected %s" % (what, rest))
            i = len(names) - len(rest)
        if "endOfSim" in cbs:
            if [n for n, _ in names[i:]] != ["endOfSim"]:
                return Violation("callback_order", "%s: run ends with %s instead of one endOfSim" % (what, names[i:]))
        elif i != len(names):
            return Violation("callback_order", "%s: unexpected callbacks %s" % (what, names[i:]))
        if last_it is not None and ("startOfStep" in cbs or "endOfStep" in cbs):
            top = max(cfg) * m
            if not top <= last_it < top + m:
                return Violation("callback_order", "%s: callbacks end with iteration %d but the last recorded frame is %d" % (what, last_it, top))
        # timestep
        dt = scenes.dt_value(s)
        for n, k, ws in seq:
            for w in ws:
                if w[0] == "obs" and w[2] == "timestep" and abs(float(w[3]) - dt) > 1e-15:
                    return Violation("wrong_timestep", "%s: %s %d sees timestep %s" % (what, n, k, w[3]))
        # observations against recorded frames
        sim = s["sim"]

        def against(c, w, n, k):
            fn, val = w[2], w[3]
            if fn in ("configuration", "velocity"):
                key = KEY[sim][0 if fn == "configuration" else 1]
                want = c[key][2] if key in c else []
                if arr(val) != want:
                    return Violation("observation_differs", "%s: %s %s sees %s %s, recorded %s" % (what, n, k, fn, val[:150], str(want)[:150]))
            elif fn == "num_bodies":
                nb = len(c["kinematically_scripted"][2]) if "kinematically_scripted" in c else 0
                if int(float(val)) != nb:
                    return Violation("observation_differs", "%s: %s %s sees %s bodies, recorded %d" % (what, n, k, val, nb))
            elif fn == "numStaticPlanes":
                key = "static_plane_centers" if sim == "ball2d" else "static_geometry/static_planes"
                np = (c[key][1][1] if sim == "ball2d" else c[key][1][0]) if key in c else 0
                if int(float(val)) != np:
                    return Violation("observation_differs", "%s: %s %s sees %s planes, recorded %d" % (what, n, k, val, np))
            return None
        for n, k, ws in seq:
            f = None
            if n == "startOfStep" and (k - 1) % m == 0:
                f, tag = (k - 1) // m, "startOfStep"
            elif n == "endOfStep" and k % m == 0:
                f, tag = k // m, "endOfStep.after"
            elif n == "startOfSim":
                f, tag = 0, "startOfSim.after"
            elif n == "endOfSim" and last_it is not None and last_it % m == 0:
                f, tag = last_it // m, "endOfSim"
            if f is None or f not in cfg or cfg[f] is None:
                continue
            for w in ws:
                if w[0] == "obs" and w[1] == tag:
                    v = against(cfg[f], w, n, k)
                    if v:
                        return v
        # coefficients
        frc = forces(T)
        it = it0
        cur = []
        if "startOfStep" in cbs:
            per = {}
            for n, k, ws in seq:
                if n == "startOfStep":
                    it = k
                    per[it] = []
                elif "Coefficient" in n and it in per:
                    per[it].append((n, ws))
            friction = s["mu"] is not None
            for it, calls in per.items():
                names = [n for n, _ in calls]
                for c in ("frictionCoefficient", "restitutionCoefficient"):
                    if names.count(c) > 1:
                        return Violation("coefficients", "%s: step %d: %s called %d times" % (what, it, c, names.count(c)))
                if not friction and "frictionCoefficient" in names:
                    return Violation("coefficients", "%s: step %d: frictionCoefficient without friction" % (what, it))
                f = (it - 1) // m
                if (it - 1) % m or f not in frc or not s["contact"]:
                    continue
                h = frc[f]
                nc = scal(h, "collision_count") or 0
                idx = cols(h, "collision_indices") if nc else []
                for c in ("frictionCoefficient", "restitutionCoefficient"):
                    if c not in cbs or (c == "frictionCoefficient" and not friction):
                        continue
                    if names.count(c) != (1 if nc else 0):
                        return Violation("coefficients", "%s: step %d has %d contacts but %d calls of %s" % (what, it, nc, names.count(c), c))
                for n, ws in calls:
                    got = [arr(w[4]) for w in ws if w[0] == "contact"]
                    ln = [w for w in ws if w[0] == "coef"]
                    if ln and (ln[0][2] != "n=%d" % nc or ln[0][3] != "len=%d" % nc):
                        return Violation("coefficients", "%s: step %d records %d contacts, %s is asked for %s %s" % (what, it, nc, n, ln[0][2], ln[0][3]))
                    if not ln and s["sim"] == "rb2d":
                        continue  # no arrays
                    flat = lambda q: [(int(a[0]), max(-1, int(a[1]))) for a in q]
                    if flat(got) != flat(idx):
                        return Violation("coefficients", "%s: step %d: %s is asked for bodies %s, recorded %s" % (what, it, n, got, idx))
                    value = float(s["mu"]) if n == "frictionCoefficient" else float(re.search(r'CoR="([^"]*)"', s["contact"]).group(1))
                    for w in ws:
                        if w[0] == "contact":
                            if float(w[5].split(">")[0]) != value:
                                return Violation("coefficients", "%s: step %d: %s is given %s, the scene says %s" % (what, it, n, w[5], value))
                            if ("static" in w[3]) != (arr(w[4])[1] < 0):
                                return Violation("coefficients", "%s: step %d: the contact of %s is called %s" % (what, it, w[4], w[3]))
        return None

    def execute(self, ctx, plan):
        s = plan["scene"]
        w = ctx.world
        base, T = baseline(ctx, s, plan["env"])
        ctx.state(T)
        ev = events(base)
        ctx.stats["callbacks"] += sum(1 for _, x in ev if x[0] == "begin")
        if not any(x[0] == "begin" for _, x in ev) and any(l.startswith("cb ") and "Coefficient" not in l and "startOfSim" not in l for l in s["script"]):
            return Violation("callback_order", "no callback ran at all")
        v = self.judge(s, base, T, 0, True, "fresh run")
        if v:
            return v
        m = scenes.save_steps(s)
        if plan["resume"] is not None and s["opts"]["s"] == 1:
            ks = frames_of(T, "serial")
            k = ks[plan["resume"] % len(ks)]
            sn = snapshot_rel(T, k)
            w.restore({n: x for n, x in T.items() if classify(n)[1] <= k})
            r = resume(ctx, s, sn, plan["env"])
            if not r.ok():
                raise Skip("resume fails")
            ctx.stats["resumed"] += 1
            if any(x[:2] == ["begin", "startOfSim"] for _, x in events(r)):
                return Violation("callback_order", "startOfSim runs again when resuming from %s" % sn)
            v = self.judge(s, r, w.tree(), k * m, False, "resumed from %s" % sn)
            if v:
                return v
        f = plan["fail"]
        if f:
            sc = copy.deepcopy(s)
            faults = []
            begins = [(i, x) for i, x in ev if x[0] == "begin"]
            if not begins:
                raise Skip("no callback ran")
            if f["kind"] == "coef":
                c = [x for _, x in begins if "Coefficient" in x[1]]
                if not c:
                    f = dict(f, kind="py")
                else:
                    x = c[f["x"] % len(c)]
                    nth = [y for y in c if y[1] == x[1]].index(x) if False else sum(1 for y in c[:f["x"] % len(c)] if y[1] == x[1])
                    sc["script"].append("coefraise %s %d" % (x[1], nth))
                    target = "%s call %d raises" % (x[1], nth)
            if f["kind"] == "raise":
                c = [x for _, x in begins if "Coefficient" not in x[1]]
                if not c:
                    f = dict(f, kind="py")
                else:
                    x = c[f["x"] % len(c)]
                    sc["script"].append("at %s %s raise" % (x[1], x[2] if x[2] != "-2" else "*"))
                    target = "%s %s raises" % (x[1], x[2])
            if f["kind"] == "py":
                ops = [o for o in base.ops() if o[1] == "py"]
                if not ops:
                    raise Skip("no callback operation")
                o = ops[f["x"] % len(ops)]
                faults = [[o[0], "fail", 0, 0]]
                target = "call of %s fails" % o[2]
            r = start(ctx, sc, plan["env"], faults)
            ctx.stats["callback_failures_" + f["kind"]] += 1
            t = w.tree()
            if not r.clean_failure():
                return Violation("failure_not_reported", "%s: run ends with %s instead of a failure status" % (target, r.outcome()))
            ls = r.lines()
            at = None
            for i, l in enumerate(ls):
                if l.startswith("P raise") or (l.startswith("F ") and " fail" in l):
                    at = i
                    break
            if at is None:
                raise Skip("failure did not happen")
            for l in ls[at + 1:]:
                if l.startswith("P begin"):
                    return Violation("goes_on_after_failure", "%s: %s still runs" % (target, l))
                if l.startswith("O ") and l.split(" ")[2] in ("openw", "h5fcreate", "rename", "h5dwrite", "unlink", "ftruncate"):
                    return Violation("goes_on_after_failure", "%s: output operation %s follows" % (target, l))
        return None

    def shrink(self, plan):
        for k in ("resume", "fail"):
            if plan[k] is not None:
                q = copy.deepcopy(plan)
                q[k] = None
                yield q
        yield from drop_env(plan)
        for q in Prop.shrink(self, plan):
            if q["scene"].get("script"):
                yield q
        if plan["fail"]:
            yield from shrink_ints(plan, ["fail", "x"])


PROPS = {"C08": Determinism(), "C09": Callbacks()}
