"""C01-C07: resuming, kills, faults, damaged snapshots, schedule."""
import copy, math
from fractions import Fraction

import scenes
from common import *
from engine import Skip, Violation

CRASH_ACTIONS = ["crash_before", "crash_after", "torn"]


def place(ops, pos, prefer=None):
    """deterministic choice of an operation; prefer(op) narrows the choice"""
    if prefer:
        c = [o for o in ops if prefer(o)]
        if c:
            ops = c
    return ops[pos % len(ops)] if ops else None


def crash_fault(op, mode, p1):
    if mode == "torn" and op[1] != "write":
        mode = "crash_before"
    return [op[0], mode, p1, 0]


def completed(lab, op, after, cur):
    """frames whose snapshot the killed process had finished writing, given its operations without the kill, plus its own start"""
    last = {}
    opened = False
    for o in lab:
        if o[4] == "serial" and o[1] in ("openw", "rename"):
            opened = True
        if o[4] == "serial" and opened and o[1] not in ("openr", "read"):
            last[o[5]] = o[0]
    done = sorted(k for k, i in last.items() if k is not None and (i < op[0] or (after and i == op[0])))
    c = classify(cur)[1] if cur else None
    return sorted(set(done + ([c] if c is not None else [])))


def leftovers(expected, tree):
    """files under a final output name that the uninterrupted run does not write"""
    return sorted(k for k in outputs(tree) if k not in expected)


# ------------------------------------------------------------------------------------------------------------------- C01-C03
class Resume(Prop):
    rule = ("one case = a generated scene, options and script run uninterrupted, then resumed alone from several of its snapshots and "
            "killed/resumed along a seeded history under other memory, clock and worker schedules; non-trivial = the scene is supported "
            "and at least one resume ran to the end; distinct = different complete event history")

    def __init__(self, pid, sim):
        self.id, self.sims, self.sim = pid, [sim], sim

    def gen(self, r):
        s = scenes.GEN[self.sim](r, {"impact_kinds": ["gauss_seidel", "lcp", "gr", "grr"]}, r.choice([2, 4, 6, 10]))
        scenes.enlarge(r, s)
        if r.random() < 0.45:
            scenes.add_script(r, s, edits=r.random() < 0.7)
        o = s["opts"]
        o["o"] = 0 if r.random() < 0.08 else 1
        o["i"] = 1 if o["o"] and r.random() < 0.45 else 0
        o["s"] = 0 if r.random() < 0.2 else 1
        hist = []
        for _ in range(r.choice([1, 1, 2, 3])):
            hist.append({"pos": r.randrange(1 << 20), "mode": r.choice(CRASH_ACTIONS), "p1": r.randrange(1 << 16), "late": r.random() < 0.7,
                         "pick": r.choice(["latest", "latest", "any"]), "rnd": r.randrange(1 << 16), "env": rand_env(r)})
        return {"scene": s, "direct": [r.randrange(1 << 16) for _ in range(r.choice([1, 2, 3]))] + [-1], "env": rand_env(r),
                "renv": rand_env(r), "hist": hist}

    def execute(self, ctx, plan):
        s = plan["scene"]
        base, T = baseline(ctx, s, plan["env"])
        ctx.state(T)
        exp = outputs(T)
        w = ctx.world
        if s["opts"]["s"] == 1:
            ks = frames_of(T, "serial")
            if not ks:
                return Violation("no_snapshot", "no snapshot written although -s 1 was given")
            for d in sorted({(ks[-1] if x < 0 else ks[x % len(ks)]) for x in plan["direct"]}):
                sn = snapshot_rel(T, d)
                w.restore({sn: T[sn]})
                if s["opts"]["o"]:
                    import os
                    os.makedirs(w.path("work", "out"), exist_ok=True)
                r = resume(ctx, s, sn, plan["renv"])
                ctx.stats["direct_resumes"] += 1
                if not r.ok():
                    return Violation("resume_fails", "resume from %s ends with %s: %s" % (sn, r.outcome(), r.log.strip()[-300:]))
                got = outputs(w.tree())
                want = {k: v for k, v in exp.items() if classify(k)[1] is None or classify(k)[1] >= d}
                x = diff(want, got)
                if x:
                    return Violation("resume_differs", "resumed from %s: %s" % (sn, x))
        # kill / resume history
        import os
        inst = scenes.installed(s)
        w.install(inst)
        cur = None
        done = False
        for h in plan["hist"]:
            # the operations the next process would do, without a kill
            snap = w.tree()
            r0 = rerun(ctx, s, plan["renv"]) if cur is None else resume(ctx, s, cur, h["env"])
            ops = r0.ops()
            w.restore(snap)
            os.makedirs(w.path("work", "out"), exist_ok=True)
            lab = label_frames(ops)
            op = place(lab, h["pos"], (lambda o: o[5] is not None or o[1] == "py") if h["late"] else None)
            if op is None:
                break
            f = crash_fault(op, h["mode"], h["p1"])
            r = rerun(ctx, s, plan["renv"], [f]) if cur is None else resume(ctx, s, cur, h["env"], [f])
            if not r.crashed_by_fault():
                break
            ctx.stats["kills"] += 1
            t = w.tree()
            if s["opts"]["s"] == 1:
                complete = completed(lab, op, f[1] == "crash_after", cur)
                if complete:
                    cur = snapshot_rel(T, complete[-1] if h["pick"] == "latest" else complete[h["rnd"] % len(complete)])
            else:
                if "serial.bin" in t and "serial" not in op[2]:
                    cur = "serial.bin"
                elif "serial" in op[2]:
                    break
        r = rerun(ctx, s, plan["renv"]) if cur is None else resume(ctx, s, cur, plan["renv"])
        if not r.ok():
            return Violation("resume_fails", "final resume from %s ends with %s: %s" % (cur, r.outcome(), r.log.strip()[-300:]))
        t = w.tree()
        ctx.state(t)
        x = diff(exp, outputs(t))
        if x:
            return Violation("history_differs", "after %d kills, resumed from %s: %s" % (len(plan["hist"]), cur, x))
        return None

    def shrink(self, plan):
        for i in range(len(plan["hist"])):
            q = copy.deepcopy(plan)
            del q["hist"][i]
            yield q
        for i in range(len(plan["direct"])):
            q = copy.deepcopy(plan)
            del q["direct"][i]
            yield q
        for k in ("env", "renv"):
            if plan[k]:
                q = copy.deepcopy(plan)
                q[k] = {}
                yield q
        yield from Prop.shrink(self, plan)


# ----------------------------------------------------------------------------------------------------------------------- C04
class KillSafe(Prop):
    id = "C04"
    rule = ("one case = a generated run (fresh or resumed) ended at a seeded operation (killed before, after or in the middle of a write, "
            "or ended by a failing write), then resumed from what is on disk; non-trivial = the fault fired after the first snapshot was "
            "complete; distinct = different complete event history")

    def gen(self, r):
        sim = r.choice(self.sims)
        s = scenes.GEN[sim](r, {"impact_kinds": ["gauss_seidel", "lcp", "gr", "grr"]}, r.choice([2, 4, 6]))
        scenes.enlarge(r, s)
        if r.random() < 0.3:
            scenes.add_script(r, s, edits=r.random() < 0.5)
        o = s["opts"]
        o["o"] = 0 if r.random() < 0.1 else 1
        o["i"] = 1 if o["o"] and r.random() < 0.3 else 0
        o["s"] = r.choice([0, 1])
        return {"scene": s, "resume_first": r.randrange(1 << 16) if r.random() < 0.5 else None, "pos": r.randrange(1 << 20),
                "snap_ops": r.random() < 0.75, "mode": r.choice(CRASH_ACTIONS + ["torn", "error"]), "p1": r.randrange(1 << 16),
                "sticky": r.choice([0, 1]), "env": rand_env(r)}

    def execute(self, ctx, plan):
        s = plan["scene"]
        base, T = baseline(ctx, s)
        ctx.state(T)
        w = ctx.world
        import os
        per_frame = s["opts"]["s"] == 1
        first_done = -1
        if plan["resume_first"] is not None:
            if per_frame:
                ks = frames_of(T, "serial")
                k = ks[plan["resume_first"] % len(ks)]
                pre = {n: v for n, v in T.items() if classify(n) is None or classify(n)[1] <= k}
                snap = snapshot_rel(T, k)
                first_done = k
            else:
                pre, snap = dict(T), "serial.bin"
                first_done = max(frames_of(T, "config") or [0])
            args = ("resume", snap)
        else:
            pre, args = {}, ("start", None)

        def prepare():
            w.restore(pre)
            os.makedirs(w.path("work", "out"), exist_ok=True)

        def go(faults):
            return resume(ctx, s, args[1], plan["env"], faults) if args[0] == "resume" else rerun(ctx, s, plan["env"], faults)

        prepare()
        ref = go([])
        if not ref.ok():
            raise Skip("reference run fails: " + ref.outcome())
        lab = label_frames(ref.ops())
        last = {}   # frame -> last operation on its snapshot
        for o in lab:
            if o[4] == "serial" and o[1] not in ("openr", "read") and not (o[1] == "close" and o[0] < 8 and args[0] == "resume"):
                last[o[5]] = o[0]
        writes = [o for o in lab if o[4] == "serial" and o[1] not in ("openr", "read")]
        if not writes:
            raise Skip("no snapshot operations")
        first_complete = None
        if args[0] == "start":
            fr = writes[0][5]
            first_complete = last[fr]
        cand = [o for o in lab if first_complete is None or o[0] > first_complete]
        if not cand:
            raise Skip("nothing after the first snapshot")
        op = place(cand, plan["pos"], (lambda o: o[4] == "serial" and o[1] not in ("openr", "read")) if plan["snap_ops"] else None)
        if plan["mode"] == "error":
            act = {"write": "enospc" if plan["sticky"] else "eio", "openw": "openfail", "close": "closefail"}.get(op[1], "fail")
            f = [op[0], act, plan["p1"], plan["sticky"]]
        else:
            f = crash_fault(op, plan["mode"], plan["p1"])
        prepare()
        r = go([f])
        if not ctx.fired_now:
            raise Skip("fault did not fire")
        if r.ok():
            raise Skip("run completed despite the fault")
        t = w.tree()
        ctx.state(t)
        c = op[0]
        after = f[1] == "crash_after"
        done = [fr for fr, i in last.items() if fr is not None and (i < c or (after and i <= c))]
        newest = max(done + [first_done])
        where = "%s at operation %d (%s %s)" % (f[1], c, op[1], op[2])
        ctx.stats["stopped_in_snapshot" if op[4] == "serial" else "stopped_elsewhere"] += 1
        if per_frame:
            for k in frames_of(T, "serial"):
                if k <= newest:
                    n = snapshot_rel(T, k)
                    if t.get(n) != T[n]:
                        return Violation("snapshot_destroyed", "%s: completed snapshot %s %s" % (where, n, "is gone" if n not in t else "is damaged"))
            snap = snapshot_rel(T, newest)
        else:
            snap = "serial.bin"
            if snap not in t:
                return Violation("snapshot_destroyed", "%s: serial.bin is gone" % where)
        r2 = resume(ctx, s, snap, plan["env"])
        if not r2.ok():
            return Violation("not_resumable", "%s: resuming from %s ends with %s: %s" % (where, snap, r2.outcome(), r2.log.strip()[-200:]))
        if not per_frame and s["opts"]["o"]:
            g = [o[5] for o in label_frames(r2.ops()) if o[4] == "config"]
            if not g or g[0] < newest:
                return Violation("old_snapshot", "%s: snapshot %s was complete but serial.bin holds %s" % (where, newest, g[:1]))
        x = diff(outputs(T), outputs(w.tree()))
        if x:
            return Violation("resume_differs", "%s, resumed from %s: %s" % (where, snap, x))
        return None

    def shrink(self, plan):
        if plan["env"]:
            q = copy.deepcopy(plan)
            q["env"] = {}
            yield q
        if plan["resume_first"] is not None:
            q = copy.deepcopy(plan)
            q["resume_first"] = None
            yield q
        yield from Prop.shrink(self, plan)
        yield from shrink_ints(plan, ["p1"])
        yield from shrink_ints(plan, ["pos"])


# ----------------------------------------------------------------------------------------------------------------------- C05
BENIGN = ("short", "eintr")


class NoSilentDamage(Prop):
    id = "C05"
    rule = ("one case = a generated run with seeded failures of writes, opens, closes, renames, library calls or an allocation; non-trivial "
            "= at least one fault fired on an output operation; distinct = different complete event history")

    def gen(self, r):
        sim = r.choice(self.sims)
        s = scenes.GEN[sim](r, {"impact_kinds": ["gauss_seidel", "lcp", "gr", "grr"]}, r.choice([2, 4, 6]))
        scenes.enlarge(r, s)
        if r.random() < 0.15:
            scenes.add_script(r, s, edits=r.random() < 0.3)
        o = s["opts"]
        o["o"] = 0 if r.random() < 0.08 else 1
        o["i"] = 1 if o["o"] and r.random() < 0.6 else 0
        o["s"] = r.choice([0, 1, 1, None]) if o["o"] else r.choice([0, 1])
        cls = r.choice(["one", "one", "one", "benign", "many", "oom"])
        fs = []
        nf = {"one": 1, "benign": r.choice([1, 3, 8]), "many": 2, "oom": 0}[cls]
        for _ in range(nf):
            fs.append({"pos": r.randrange(1 << 20), "cls": r.choice(["write", "write", "h5", "open", "close", "other"]),
                       "file": r.choice(["any", "any", "forces", "serial", "config"]),
                       "act": r.choice(BENIGN) if cls == "benign" else r.choice(["enospc", "enospc", "eio"]), "p1": r.choice([0, 0, r.randrange(1 << 16)]),
                       "sticky": r.choice([0, 0, 1])})
        return {"scene": s, "faults": fs, "oom": r.randrange(1 << 20) if cls == "oom" else None, "benign": cls == "benign", "env": rand_env(r),
                "resume": r.randrange(1 << 16) if r.random() < 0.2 else None}

    @staticmethod
    def mattered(op, exp, t, base):
        """did the failing operation leave its output file missing or damaged?"""
        for k, v in exp.items():
            c = classify(k)
            if c[0] == op[4] and c[1] == op[5]:
                return t.get(k) != v
        last = None  # serial.bin: overwritten later, so judge by how the file was open
        for o in base.ops():
            if o[0] > op[0]:
                break
            if o[2] == op[2] and o[1] in ("openr", "openw"):
                last = o[1]
        return last != "openr"

    def execute(self, ctx, plan):
        s = plan["scene"]
        base, T = baseline(ctx, s)
        exp = outputs(T)
        w = ctx.world
        import os
        resumed = None
        if plan["resume"] is not None and s["opts"]["s"] == 1:
            ks = frames_of(T, "serial")
            resumed = ks[plan["resume"] % len(ks)]
            sn = snapshot_rel(T, resumed)
            w.restore({sn: T[sn]})
            os.makedirs(w.path("work", "out"), exist_ok=True)
            base = resume(ctx, s, sn, plan["env"])
            if not base.ok():
                raise Skip("resume fails without faults")
            exp = {k: v for k, v in exp.items() if classify(k)[1] >= resumed}
        lab = [o for o in label_frames(base.ops()) if o[4] is not None]
        wr = [o for o in lab if o[1] not in ("openr", "read")]
        fl = []
        used = set()
        for f in plan["faults"]:
            kinds = {"write": ("write",), "h5": None, "open": ("openw",), "close": ("close",), "other": ("rename", "unlink", "fsync", "ftruncate")}[f["cls"]]
            c = [o for o in wr if (o[1].startswith("h5") if kinds is None else o[1] in kinds)]
            c = [o for o in c if f["file"] == "any" or o[4] == f["file"]] or c or wr
            if plan["benign"]:
                c = [o for o in lab if o[1] in ("write", "read")]
            if not c:
                continue
            op = c[f["pos"] % len(c)]
            if op[0] in used:
                continue
            used.add(op[0])
            act = f["act"] if op[1] in ("write", "read") else {"openw": "openfail", "close": "closefail"}.get(op[1], "fail")
            fl.append(([op[0], act, f["p1"], f["sticky"]], op))
        oom = None
        if plan["oom"] is not None:
            oom = plan["oom"] % max(1, base.allocs)
        elif not fl:
            raise Skip("no place for a fault")
        ctx.fired_now = 0
        if resumed is None:
            ctx.world.install(scenes.installed(s))
            r = rerun(ctx, s, plan["env"], [x[0] for x in fl], oom)
        else:
            w.restore({sn: T[sn]})
            os.makedirs(w.path("work", "out"), exist_ok=True)
            r = resume(ctx, s, sn, plan["env"], [x[0] for x in fl], oom)
        t = w.tree()
        ctx.state(t)
        what = ", ".join("%s of %s %s" % (x[0][1], x[1][1], x[1][2]) for x in fl) or "allocation %s" % oom
        if not ctx.fired_now and oom is None:
            raise Skip("fault did not fire")
        if plan["benign"]:
            if not r.ok():
                return Violation("interrupted_call_fails", "%s: run ends with %s" % (what, r.outcome()))
            x = diff(exp, outputs(t))
            return Violation("interrupted_call_changes_output", "%s: %s" % (what, x)) if x else None
        if r.ok():
            ctx.stats["survived"] += 1
            x = diff(exp, outputs(t))
            return Violation("silent_damage", "%s: run exits successfully but %s" % (what, x)) if x else None
        ctx.stats["reported"] += 1
        if oom is None and not r.clean_failure():
            return Violation("crash_on_fault", "%s: run ends with %s instead of a failure status" % (what, r.outcome()))
        if oom is None:
            # nothing later than the first frame whose output the faults damaged
            fired = sorted(int(l.split(" ")[1]) for l in r.lines() if l.startswith("F "))
            firsts = [x[1] for x in fl if x[0][0] in fired and self.mattered(x[1], exp, t, base)]
            if firsts:
                op = min(firsts, key=lambda o: o[0])
                later = [o for o in label_frames(r.ops()) if o[0] > op[0] and o[1] in ("openw", "h5fcreate") and o[4] in ("config", "serial", "forces")
                         and o[5] is not None and op[5] is not None and o[5] > op[5]]
                if later:
                    return Violation("goes_on_after_failure", "%s: later output %s is still produced" % (what, later[0][2]))
                for k, v in exp.items():
                    c = classify(k)
                    if c[1] is not None and op[5] is not None and c[1] < op[5] and not (op[4] == "forces" and c[0] == "forces" and c[1] >= op[5]):
                        if t.get(k) != v:
                            return Violation("earlier_output_damaged", "%s: earlier output %s is %s" % (what, k, "missing" if k not in t else "damaged"))
        return None

    def shrink(self, plan):
        for i in range(len(plan["faults"])):
            if len(plan["faults"]) > 1:
                q = copy.deepcopy(plan)
                del q["faults"][i]
                yield q
        for k, v in (("env", {}), ("resume", None)):
            if plan[k] != v:
                q = copy.deepcopy(plan)
                q[k] = v
                yield q
        yield from Prop.shrink(self, plan)
        for i in range(len(plan["faults"])):
            yield from shrink_ints(plan, ["faults", i, "p1"])
            yield from shrink_ints(plan, ["faults", i, "pos"])


# ----------------------------------------------------------------------------------------------------------------------- C06
class DamagedSnapshot(Prop):
    id = "C06"
    rule = ("one case = a snapshot of a generated run damaged in several seeded ways (cut at a byte, empty, missing, from another simulator, "
            "read error part way) and resumed, plus resumes of the intact snapshot with chopped and interrupted reads; non-trivial = the "
            "damage was applied and the process ran; distinct = different complete event history")

    def gen(self, r):
        sim = r.choice(self.sims)
        s = scenes.GEN[sim](r, {"impact_kinds": ["gauss_seidel", "lcp", "gr", "grr"]}, r.choice([1, 2, 4]))
        scenes.enlarge(r, s)
        if r.random() < 0.3:
            scenes.add_script(r, s, edits=r.random() < 0.3)
        o = s["opts"]
        o["o"], o["i"], o["s"] = 1, r.choice([0, 0, 1]), 1
        dm = []
        for _ in range(8):
            k = r.choice(["cut", "cut", "cut", "cut_end", "cut_start", "empty", "missing", "foreign", "eio", "openfail", "benign", "benign"])
            dm.append({"kind": k, "x": r.randrange(1 << 24), "env": rand_env(r), "other_name": r.random() < 0.3, "sticky": r.choice([0, 1]),
                       "other": r.choice([x for x in self.sims if x != sim])})
        osc = scenes.GEN[dm[0]["other"]](r, {"contact": "none", "portal": False}, 1)
        return {"scene": s, "frame": r.randrange(1 << 16), "damage": dm, "foreign": {x: self._simple(r, x) for x in self.sims if x != sim}}

    @staticmethod
    def _simple(r, sim):
        s = scenes.GEN[sim](r, {"contact": "none", "portal": False}, 1)
        s["opts"] = {"o": 1, "i": 0, "f": None, "s": 1, "e": None}
        s["end"] = scenes.n(scenes.dt_value(s))
        s["script"] = None
        return s

    def execute(self, ctx, plan):
        s = plan["scene"]
        base, T = baseline(ctx, s)
        w = ctx.world
        import os
        ks = frames_of(T, "serial")
        k = ks[plan["frame"] % len(ks)]
        sn = snapshot_rel(T, k)
        img = T[sn]
        pre = {n: v for n, v in T.items() if classify(n) is None or classify(n)[1] <= k}
        foreign = {}
        for d in plan["damage"]:
            if d["kind"] == "foreign" and d["other"] not in foreign:
                o = plan["foreign"][d["other"]]
                r = start(ctx, o)
                t = w.tree()
                ns = frames_of(t, "serial")
                foreign[d["other"]] = t[snapshot_rel(t, ns[0])] if r.ok() and ns else None
        ctx.world.install(scenes.installed(s))
        x = diff(outputs(T), outputs(T))
        exp = {n: v for n, v in outputs(T).items()}
        for d in plan["damage"]:
            name = "out/copy.bin" if d["other_name"] else sn
            tree = dict(pre)
            faults = []
            kind = d["kind"]
            desc = kind
            if kind == "cut":
                n = d["x"] % len(img)
                tree[name], desc = img[:n], "cut at byte %d of %d" % (n, len(img))
            elif kind == "cut_end":
                n = max(0, len(img) - 1 - d["x"] % 40)
                tree[name], desc = img[:n], "cut at byte %d of %d" % (n, len(img))
            elif kind == "cut_start":
                n = min(len(img) - 1, d["x"] % 120)
                tree[name], desc = img[:n], "cut at byte %d of %d" % (n, len(img))
            elif kind == "empty":
                tree[name] = b""
            elif kind == "missing":
                tree.pop(name, None)
            elif kind == "foreign":
                if foreign.get(d["other"]) is None:
                    continue
                tree[name], desc = foreign[d["other"]], "snapshot of " + d["other"]
            else:
                tree[name] = img
            w.restore(tree)
            os.makedirs(w.path("work", "out"), exist_ok=True)
            if kind in ("eio", "openfail", "benign"):
                ref = resume(ctx, s, name, d["env"])
                if not ref.ok():
                    raise Skip("intact snapshot does not resume")
                w.restore(tree)
                os.makedirs(w.path("work", "out"), exist_ok=True)
                mine = [o for o in ref.ops() if o[2].endswith(name)]
                rd = []
                for o in mine:
                    if o[1] in ("openw", "rename") or o[1].startswith("write"):
                        break
                    rd.append(o)
                if kind == "openfail":
                    c = [o for o in rd if o[1] == "openr"]
                else:
                    c = [o for o in rd if o[1] == "read"]
                if kind == "eio" and len(c) > 1:
                    c = c[:-1] if len(img) % 8191 else c
                if not c:
                    continue
                op = c[d["x"] % len(c)]
                if kind == "benign":
                    faults = [[o[0], ["short", "eintr"][(d["x"] >> (i % 20)) & 1], d["x"] % 4096, 0] for i, o in enumerate(c)]
                else:
                    faults = [[op[0], kind, d["x"], d["sticky"]]]
                desc = "%s at %s" % (kind, [f[:2] for f in faults])
            before = w.tree()
            ctx.fired_now = 0
            r = resume(ctx, s, name, d["env"], faults)
            after = w.tree()
            if faults and not ctx.fired_now:
                continue
            ctx.stats["damage_" + kind] += 1
            if kind == "benign":
                if not r.ok():
                    return Violation("chopped_read_refused", "%s: intact snapshot refused (%s)" % (desc, r.outcome()))
                df = diff(exp, {n: v for n, v in outputs(after).items()})
                if df and name == sn:
                    return Violation("chopped_read_differs", "%s: %s" % (desc, df))
                continue
            if r.ok():
                return Violation("damaged_accepted", "%s: resume exits successfully" % desc)
            if not r.clean_failure():
                return Violation("damaged_crashes", "%s: resume ends with %s instead of a failure status" % (desc, r.outcome()))
            if "P begin" in r.text:
                return Violation("damaged_runs_script", "%s: a script callback ran" % desc)
            df = diff(before, after)
            if df:
                return Violation("damaged_touches_output", "%s: %s" % (desc, df))
        ctx.state(T)
        return None

    def shrink(self, plan):
        if len(plan["damage"]) > 1:
            for d in plan["damage"]:
                q = copy.deepcopy(plan)
                q["damage"] = [d]
                yield q
        for i, d in enumerate(plan["damage"]):
            if d["env"]:
                q = copy.deepcopy(plan)
                q["damage"][i]["env"] = {}
                yield q
        yield from Prop.shrink(self, plan)
        if len(plan["damage"]) == 1:
            yield from shrink_ints(plan, ["damage", 0, "x"])


# ----------------------------------------------------------------------------------------------------------------------- C07
class Schedule(Prop):
    id = "C07"
    hang_is_outcome = True
    rule = ("one case = a supported scene with a seeded timestep, end time, output rate and options, run uninterrupted and along a seeded "
            "history of kills and resumes; the files are compared with the schedule computed with exact rational arithmetic; non-trivial = "
            "at least one frame besides the first is due; distinct = different complete event history")

    def gen(self, r):
        sim = r.choice(self.sims)
        ms = r.choice([1, 3, 8, 12, 30, 105])
        s = scenes.supported(r, sim, ms)
        if r.random() < 0.7:
            scenes.wide_schedule(r, s, ms if r.random() < 0.9 else 250)
            s["misc"] = [x for x in s["misc"] if "simulation_boundary" not in x]  # large timesteps leave it
            if scenes.total_steps(s) > 40:
                del s["bodies"][2:]
                s["nb"] = len(s["bodies"])
        if r.random() < 0.25:
            scenes.add_script(r, s, edits=False)
        o = s["opts"]
        o["o"] = 0 if r.random() < 0.1 else 1
        o["i"] = 1 if o["o"] and r.random() < 0.4 else 0
        o["s"] = r.choice([0, 1, 1, None])
        bad = None
        if r.random() < 0.06:
            bad = True
            num, den = scenes.RATIONAL[s["dt"]]
            c = [f for f in [7, 13, 30, 37, 24, 60, 48, 90, 3331] + [r.randint(1, 2 * den) for _ in range(5)] if den % (num * f) != 0 and not (Fraction(den, num * f)).denominator == 1]
            o["f"] = r.choice(c)
            o["o"] = 1
        hist = []
        for _ in range(r.choice([0, 0, 1, 2])):
            hist.append({"pos": r.randrange(1 << 20), "mode": r.choice(CRASH_ACTIONS), "p1": r.randrange(1 << 16), "env": rand_env(r)})
        endless = None
        if not bad and r.random() < 0.12:
            o["o"] = 1
            endless = {"pos": r.randrange(1 << 20), "mode": r.choice(CRASH_ACTIONS), "p1": r.randrange(1 << 16), "pos2": r.randrange(1 << 20)}
        return {"scene": s, "hist": hist if o["s"] is not None else [], "env": rand_env(r), "bad": bad, "endless": endless}

    def expect(self, s):
        dt = Fraction(*scenes.RATIONAL[s["dt"]])
        end = Fraction(str(s["opts"]["e"] if s["opts"].get("e") is not None else s["end"]))
        k = math.ceil(end / dt)
        # The loop compares times in floating point, so an end time that is a multiple of the timestep may be reached a step late;
        # not so when the products are exact
        dyadic = dt.denominator & (dt.denominator - 1) == 0
        kn = round(end / dt)
        if abs(kn * dt - end) <= end / 10 ** 12:
            ks = [kn] if dyadic and kn * dt == end else [kn, kn + 1]
        else:
            ks = [k]
        ks = [max(x, 1) for x in ks]
        return dt, end, ks, scenes.save_steps(s)

    def verify(self, s, T, what):
        dt, end, ks, m = self.expect(s)
        o = s["opts"]
        have = {}
        for n in T:
            c = classify(n)
            if c is None:
                return Violation("unexpected_file", "%s: %s is not an output file of the schedule" % (what, n))
            if c[1] is not None:
                import os
                import re
                dg = re.search(r"_(\d+)\.", os.path.basename(n)).group(1)
                have.setdefault(c[0], {})[c[1]] = (n, dg)
        ok = None
        for N in ks:
            last = N + (1 if o["i"] else 0)
            nfr = last // m + 1
            want = {}
            if o["o"]:
                want["config"] = list(range(nfr))
                if o["i"]:
                    want["forces"] = [i for i in range(N // m + 1)]
            if o["s"] == 1:
                want["serial"] = list(range(nfr))
            if {k: sorted(v) for k, v in have.items()} == want:
                ok = N
                break
        if ok is None:
            return Violation("wrong_frames", "%s: %d steps of %s (end %s, save every %d): have %s" %
                             (what, ks[0], s["dt"], end, m, {k: (sorted(v)[:3], len(v), sorted(v)[-1:]) for k, v in have.items()}))
        if o["s"] == 0 and "serial.bin" not in T:
            return Violation("wrong_frames", "%s: serial.bin missing" % what)
        if o["s"] != 0 and "serial.bin" in T:
            return Violation("wrong_frames", "%s: serial.bin should not exist" % what)
        if o["s"] is None and "serial" in have:
            return Violation("wrong_frames", "%s: snapshots without -s" % what)
        widths = {len(d) for v in have.values() for (_, d) in v.values()}
        if len(widths) > 1:
            return Violation("number_width", "%s: frame numbers of different width %s" % (what, sorted(widths)))
        for kind in ("config", "forces"):
            for k, (n, _) in sorted(have.get(kind, {}).items()):
                h = parse_h5(T[n])
                if h is None:
                    return Violation("incomplete_file", "%s: %s is incomplete" % (what, n))
                it, tm, ts = scal(h, "iteration"), scal(h, "time"), scal(h, "timestep")
                if it != k * m:
                    return Violation("wrong_iteration", "%s: %s records iteration %s, not %d" % (what, n, it, k * m))
                if tm is None or abs(tm - float(dt * k * m)) > 1e-12 * max(1.0, abs(float(dt * k * m))):
                    return Violation("wrong_time", "%s: %s records time %s, not %s" % (what, n, tm, float(dt * k * m)))
                if ts is None or abs(ts - float(dt)) > 1e-15:
                    return Violation("wrong_timestep", "%s: %s records timestep %s" % (what, n, ts))
        return None

    def execute(self, ctx, plan):
        s = plan["scene"]
        import os
        w = ctx.world
        r = start(ctx, s, plan["env"])
        if plan["bad"]:
            if r.ok():
                return Violation("bad_rate_accepted", "output rate %s Hz with timestep %s has no whole number of steps per frame but is accepted" % (s["opts"]["f"], s["dt"]))
            ctx.stats["bad_rate_refused"] += 1
            return None
        if not r.ok():
            return Violation("does_not_finish", "supported scene ends with %s: %s" % (r.outcome(), r.log.strip()[-300:]))
        T = w.tree()
        ctx.state(T)
        v = self.verify(s, T, "uninterrupted")
        if v:
            return v
        ctx.simtime += scenes.total_steps(s) * scenes.dt_value(s)
        ctx.stats["frames"] += len(frames_of(T, "config"))
        if plan.get("endless"):
            v = self.endless(ctx, plan, r, T)
            if v:
                return v
        if plan["hist"]:
            w.install(scenes.installed(s))
            cur = None
            for h in plan["hist"]:
                snap = w.tree()
                r0 = rerun(ctx, s) if cur is None else resume(ctx, s, cur, h["env"])
                w.restore(snap)
                os.makedirs(w.path("work", "out"), exist_ok=True)
                lab = label_frames(r0.ops())
                op = place(lab, h["pos"], lambda o: o[5] is not None or o[1] == "py")
                if op is None:
                    break
                f = crash_fault(op, h["mode"], h["p1"])
                r = rerun(ctx, s, None, [f]) if cur is None else resume(ctx, s, cur, h["env"], [f])
                if not r.crashed_by_fault():
                    break
                ctx.stats["kills"] += 1
                t = w.tree()
                if s["opts"]["s"] == 1:
                    good = completed(lab, op, f[1] == "crash_after", cur)
                    cur = snapshot_rel(T, good[-1]) if good else cur
                elif "serial.bin" in t and "serial" not in op[2]:
                    cur = "serial.bin"
                elif "serial" in op[2]:
                    return None
            r = rerun(ctx, s) if cur is None else resume(ctx, s, cur)
            if not r.ok():
                return Violation("does_not_finish", "after the kills stopped, the run resumed from %s ends with %s" % (cur, r.outcome()))
            t = outputs(w.tree())
            ctx.state(t)
            return self.verify(s, t, "after %d kills" % len(plan["hist"]))
        return None

    @staticmethod
    def numbered(T):
        return {classify(k): v for k, v in T.items() if classify(k) and classify(k)[1] is not None}

    def endless(self, ctx, plan, r, T):
        """without an end time the same run goes on until it is killed, at an operation of the finite run here, and can be resumed"""
        s, e, w = plan["scene"], plan["endless"], ctx.world
        t = copy.deepcopy(s)
        t["end"] = None
        t["opts"]["e"] = None
        N = self.numbered(T)
        # operations of the last step are left out: only there the two runs may differ
        last = max(k for (kind, k) in N if kind == "config")
        lab = [o for o in label_frames(r.ops())]
        # frame numbers are not as wide, so writes of announcements and snapshots differ in length only
        ops = [o for o in lab if o[5] is not None and 0 < o[5] < last]
        if not ops:
            return None
        op = ops[e["pos"] % len(ops)]
        f = crash_fault(op, e["mode"], e["p1"])
        r2 = start(ctx, t, None, [f])
        if not r2.crashed_by_fault():
            return Violation("endless_run_ends", "a scene without end time ends with %s before it is killed in frame %d: %s" % (r2.outcome(), op[5], r2.log.strip()[-200:]))
        ctx.stats["endless"] += 1
        E = outputs(w.tree())
        H = self.numbered(E)
        for (kind, k), d in sorted(H.items()):
            if kind in ("config", "forces") and k < op[5] and d != N.get((kind, k)):
                return Violation("endless_run_differs", "without an end time, %s %d differs from the run with one" % (kind, k))
        for k in range(op[5]):
            for kind in ("config", "serial") if s["opts"]["s"] == 1 else ("config",):
                if (kind, k) not in H:
                    return Violation("endless_run_differs", "without an end time, killed in frame %d, %s %d is missing" % (op[5], kind, k))
        if max(k for (kind, k) in H) > op[5]:
            return Violation("endless_run_differs", "without an end time, frame %d exists after a kill in frame %d" % (max(k for (kind, k) in H), op[5]))
        if s["opts"]["s"] != 1 or op[5] < 1:
            return None
        # resumed, it goes on in the same way
        c = [n for n in E if classify(n) == ("serial", op[5] - 1)][0]
        c0 = snapshot_rel(T, op[5] - 1)
        w.install(scenes.installed(s))
        w.restore(T)
        import os
        os.makedirs(w.path("work", "out"), exist_ok=True)
        r3 = resume(ctx, s, c0)
        lab = [o for o in label_frames(r3.ops()) if o[5] is not None and op[5] <= o[5] < last]
        if not r3.ok() or not lab:
            return None
        w.install(scenes.installed(t))
        w.restore(E)
        os.makedirs(w.path("work", "out"), exist_ok=True)
        op2 = lab[e["pos2"] % len(lab)]
        r4 = resume(ctx, t, c, None, [[op2[0], "crash_before", 0, 0]])
        if not r4.crashed_by_fault():
            return Violation("endless_run_ends", "a scene without end time, resumed from %s, ends with %s before it is killed in frame %d: %s" % (c, r4.outcome(), op2[5], r4.log.strip()[-200:]))
        H = self.numbered(outputs(w.tree()))
        for (kind, k), d in sorted(H.items()):
            if kind in ("config", "forces") and k < op2[5] and d != N.get((kind, k)):
                return Violation("endless_run_differs", "without an end time, after a resume, %s %d differs from the run with one" % (kind, k))
        for k in range(op2[5]):
            if ("config", k) not in H:
                return Violation("endless_run_differs", "without an end time, resumed and killed in frame %d, config %d is missing" % (op2[5], k))
        ctx.stats["endless_resumed"] += 1
        return None

    def shrink(self, plan):
        for i in range(len(plan["hist"])):
            q = copy.deepcopy(plan)
            del q["hist"][i]
            yield q
        if plan["env"]:
            q = copy.deepcopy(plan)
            q["env"] = {}
            yield q
        if plan["hist"] and plan.get("endless"):
            q = copy.deepcopy(plan)
            q["hist"] = []
            yield q
        if not plan["bad"]:
            yield from Prop.shrink(self, plan)


PROPS = {"C01": Resume("C01", "ball2d"), "C02": Resume("C02", "rb2d"), "C03": Resume("C03", "rb3d"), "C04": KillSafe(),
         "C05": NoSilentDamage(), "C06": DamagedSnapshot(), "C07": Schedule()}
