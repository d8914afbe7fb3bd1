"""Seeded search engine: workers, gates, minimiser, replay files and evidence.

A property is an object with
  id, title_rule (text), sims (list), cases {"quick": n, "thorough": n}, and
  gen(rng)          -> plan            (JSON value; everything an execution depends on besides the code)
  execute(ctx,plan) -> None | Violation; raises Skip(reason) when the plan exercises nothing
  shrink(plan)      -> iterator of simpler plans
One case index of one VERIF_SEED is one plan; one plan is one exactly repeatable sequence of simulated executions.
"""
import collections, hashlib, json, multiprocessing, os, queue, random, re, signal, subprocess, sys, time, traceback

import scenes
import simclient
from simclient import HarnessError, Server, World

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Skip(Exception):
    pass


class Fails(Exception):
    """a fault-free run of a valid scene ended with a failure that names no unsupported feature"""

    def __init__(self, detail):
        self.violation = Violation("run_fails", detail)


class Violation:
    def __init__(self, kind, detail):
        self.kind, self.detail = kind, detail

    def __repr__(self):
        return "%s: %s" % (self.kind, self.detail)


class Ctx:
    """Runs simulated processes for one worker and measures what they covered."""

    def __init__(self, binaries):
        self.servers = {k: Server(v) for k, v in binaries.items()}
        self.world = World(self.servers)
        self.stats = collections.Counter()
        self.faults = collections.Counter()
        self.features = collections.Counter()
        self.skips = collections.Counter()
        self.interleavings = set()
        self.states = set()
        self.simtime = 0.0
        self.trace = None  # [str] while a trace is wanted
        self.h = None
        self.fired_now = 0
        self.bounded = 0  # steps of a scene whose every step takes a bounded number of solver iterations
        self.hang_is_outcome = False  # otherwise a run ended by the time limit makes the case inconclusive

    def begin(self, trace=False):
        self.h = hashlib.sha256()
        self.trace = [] if trace else None
        self.fired_now = 0

    def run(self, sim, args, env=None, faults=(), oom=None, cpu=6):
        r = self.world.run(sim, args, env, faults, oom, cpu)
        if r.sig == 24 and not self.hang_is_outcome:
            self.stats["time_limit"] += 1
            if self.bounded and not faults and oom is None and "-r" not in args and sim in ("ball2d", "rb2d", "rb3d"):
                again = self.world.run(sim, args, env, faults, oom, 4 * cpu)
                if again.sig == 24:
                    raise Fails("a fault-free run of a scene of %d steps does not end within %d s of processor time" % (self.bounded, 4 * cpu))
            raise Skip("a run reached the time limit")
        self.stats["runs"] += 1
        self.stats["ops"] += r.nops
        f = r.fired()
        for x in f:
            self.faults[x] += 1
        self.fired_now += len(f)
        if oom is not None and "oom" in r.text:
            self.faults["alloc_failure"] += 1
        if env:
            if env.get("clock", (0,))[0]:
                self.faults["clock_mode_%d" % env["clock"][0]] += 1
            if env.get("mem", (0,))[0]:
                self.faults["memory_mode_%d" % min(4, env["mem"][0])] += 1
        if r.switches:
            self.stats["switches"] += r.switches
            self.interleavings.add(r.shash)
        self.h.update(("%s %s %s\n" % (sim, " ".join(map(str, args)), r.outcome())).encode())
        if r.sig not in (24,):  # a run ended by the CPU limit has no meaningful tail
            self.h.update(r.text.encode("utf-8", "replace"))
        if self.trace is not None:
            self.trace.append({"sim": sim, "args": list(map(str, args)), "env": env or {}, "faults": [list(x) for x in faults],
                               "oom": oom, "outcome": r.outcome(), "fired": f, "ops": r.nops,
                               "tail": [l for l in r.lines() if l][-12:]})
        return r

    def state(self, tree):
        d = simclient.digest(tree)
        self.states.add(d[:16])
        self.h.update(d.encode())

    def digest(self):
        return self.h.hexdigest()

    def close(self):
        for s in self.servers.values():
            s.close()
        self.world.destroy()


def rng_for(seed, pid, k):
    return random.Random("%d/%s/%d" % (seed, pid, k))


UNBOUNDED = re.compile(r'type="grr?"|staggered_projections')  # steps of these may repeat without end or for very long


def bounded_steps(scene):
    """number of steps of a scene that cannot legitimately take long, or 0"""
    if not isinstance(scene, dict) or "contact" not in scene or UNBOUNDED.search(scene["contact"]):
        return 0
    if "gauss_seidel" in scene["contact"] and scene.get("script"):  # bodies pressed between moving walls
        return 0
    m = re.search(r'max_iters="(\d+)"', scene["contact"])
    if m and int(m.group(1)) > 200 and "sobogus" in scene["contact"]:
        return 0
    n = scenes.total_steps(scene)
    return n if n <= 500 and len(scene["bodies"]) <= 60 else 0


def run_plan(prop, ctx, plan, trace=False):
    """-> (violation or None, digest, skipped reason or None)"""
    ctx.begin(trace)
    ctx.hang_is_outcome = getattr(prop, "hang_is_outcome", False)
    ctx.bounded = bounded_steps(plan.get("scene"))
    try:
        v = prop.execute(ctx, plan)
        return v, ctx.digest(), None
    except Fails as e:
        return e.violation, ctx.digest(), None
    except Skip as e:
        return None, ctx.digest(), str(e)
    except (KeyError, IndexError, ValueError, TypeError, AttributeError, ZeroDivisionError, OverflowError, UnicodeError, StopIteration) as e:
        # the files or histories a run left do not have the form every run of the unchanged program gives them
        where = traceback.extract_tb(e.__traceback__)[-1]
        return (Violation("malformed_output", "output of the simulated runs cannot be interpreted: %s: %s (%s:%s)" %
                          (type(e).__name__, e, os.path.basename(where.filename), where.name)), ctx.digest(), None)


def _worker(prop, binaries, seed, wid, nw, ncases, deadline, out, stop):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    ctx = None
    try:
        ctx = Ctx(binaries)
        distinct = set()
        samples = []
        k = wid
        done = nontrivial = 0
        while k < ncases and time.time() < deadline and not stop.is_set():
            plan = prop.gen(rng_for(seed, prop.id, k))
            v, dg, sk = run_plan(prop, ctx, plan)
            done += 1
            if sk:
                ctx.skips[sk] += 1
            else:
                if dg not in distinct:
                    distinct.add(dg)
                    nontrivial += 1
                for f in prop.features(plan):
                    ctx.features[f] += 1
                if len(samples) < 2:
                    samples.append({"case": k, "plan": prop.sample(plan)})
            if v is not None:
                out.put(("violation", k, plan, v.kind, v.detail, dg))
                break
            k += nw
        out.put(("stats", wid, {"done": done, "nontrivial": nontrivial, "distinct": [d[:16] for d in distinct],
                                "stats": dict(ctx.stats), "faults": dict(ctx.faults), "features": dict(ctx.features),
                                "skips": dict(ctx.skips), "interleavings": list(ctx.interleavings)[:200000],
                                "states": list(ctx.states), "simtime": ctx.simtime, "samples": samples}))
    except BaseException:
        out.put(("error", wid, traceback.format_exc()))
    finally:
        if ctx is not None:
            ctx.close()


def search(prop, binaries, seed, ncases, budget, nw=None):
    nw = nw or max(1, min(8, os.cpu_count() or 1))
    mp = multiprocessing.get_context("fork")
    out, stop = mp.Queue(), mp.Event()
    deadline = time.time() + budget
    ps = [mp.Process(target=_worker, args=(prop, binaries, seed, i, nw, ncases, deadline, out, stop)) for i in range(nw)]
    for p in ps:
        p.start()
    viol, errs, agg, finished = [], [], [], 0
    hard = deadline + 90
    while finished < nw:
        try:
            m = out.get(timeout=5)
        except queue.Empty:
            if time.time() > hard:
                errs.append("a worker did not finish in time")
                break
            if all(not p.is_alive() for p in ps) and out.empty():
                errs.append("a worker died")
                break
            continue
        if m[0] == "violation":
            viol.append(m[1:])
            stop.set()
        elif m[0] == "error":
            errs.append(m[2])
            finished += 1
            stop.set()
        else:
            agg.append(m[2])
            finished += 1
    for p in ps:
        p.join(timeout=10)
        if p.is_alive():
            p.terminate()
    viol.sort(key=lambda x: x[0])
    return viol, errs, agg


def minimise(prop, ctx, plan, kind, budget=60.0, limit=600):
    """Greedy: keeps any simpler plan with the same violation kind."""
    t0, n = time.time(), 0
    cur = plan
    again = True
    while again and time.time() - t0 < budget and n < limit:
        again = False
        for cand in prop.shrink(json.loads(json.dumps(cur))):
            if time.time() - t0 > budget or n >= limit:
                break
            n += 1
            try:
                v, _, _ = run_plan(prop, ctx, cand)
            except HarnessError:
                raise
            except Exception:
                continue
            if v is not None and v.kind == kind:
                cur = cand
                again = True
                break
    return cur, n


# ------------------------------------------------------------------------------------------------------- known findings
def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get("findings", [])


def replay_known(prop, binaries):
    """Runs the recorded history of every open finding of this property. -> violations the file does not list"""
    other = []
    for n, k in enumerate(known_findings()):
        if k.get("status") != "open" or k["property"] != prop.id or "plan" not in k:
            continue
        ctx = Ctx(binaries)
        try:
            v, dg, _ = run_plan(prop, ctx, k["plan"])
        finally:
            ctx.close()
        if v is None:
            print("note: the listed finding no longer occurs: %s" % k["what"])
        elif v.kind == k["kind"] and k.get("match", "\0") in v.detail:
            print("KNOWN-FINDING: property=%s %s" % (prop.id, k["what"]), flush=True)
        else:
            other.append((-1 - n, k["plan"], v.kind, v.detail, dg))
    return other


def is_known(pid, kind, detail):
    for k in known_findings():
        if k.get("status") == "open" and k["property"] == pid and k["kind"] == kind and k.get("match", "\0") in detail and "plan" not in k:
            return k
    return None


# ----------------------------------------------------------------------------------------------------------------- main
def replay(prop, binaries, path):
    """Executes a replay file in this process. Exit 1 iff the recorded violation appears exactly as recorded."""
    with open(path) as f:
        d = json.load(f)
    ctx = Ctx(binaries)
    try:
        v, dg, sk = run_plan(prop, ctx, d["plan"], trace=True)
        for t in ctx.trace:
            print("run %s %s -> %s  faults=%s fired=%s" % (t["sim"], " ".join(t["args"]), t["outcome"], t["faults"], t["fired"]))
        if v is None:
            print("replay: no violation" + (" (skipped: %s)" % sk if sk else ""))
            return 0
        print("replay: %s" % v)
        print("replay: digest %s %s" % (dg, "exactly as recorded" if dg == d["digest"] else "differs from the recorded one"))
        if (v.kind == d["kind"] and dg == d["digest"]) or not d.get("exact", True):
            print("VIOLATION property=%s replay=%s" % (prop.id, path))
            return 1
        return 3
    finally:
        ctx.close()


def confirm(prop, binaries, seed, k, plan, kind, detail, dg, trouble):
    """Repeats a violation, minimises it and writes its replay file, which must reproduce it in a fresh process.
    A violation whose executions are not identical each time (the changed program reads memory the simulator does not own) is
    reported with the replay file of the original plan, provided the same kind of violation keeps coming back."""
    exact = True
    ctx = Ctx(binaries)
    try:
        a, b = run_plan(prop, ctx, plan), run_plan(prop, ctx, plan)
        small, n = plan, 0
        if a[0] is None or b[0] is None or a[0].kind != kind or a[1] != b[1] or a[1] != dg:
            exact = False
            again = sum(1 for x in (a, b, run_plan(prop, ctx, plan), run_plan(prop, ctx, plan)) if x[0] is not None)
            if not again:
                trouble.append("case %d (%s: %s) does not repeat: %s / %s" % (k, kind, detail, a[:2], b[:2]))
                return None
        else:
            small, n = minimise(prop, ctx, plan, kind)
        v, dg2, _ = run_plan(prop, ctx, small, trace=True)
        for _ in range(8):
            if v is not None:
                break
            v, dg2, _ = run_plan(prop, ctx, small, trace=True)
        if v is None:
            trouble.append("case %d (%s: %s) does not repeat after minimisation" % (k, kind, detail))
            return None
        trace = ctx.trace
    finally:
        ctx.close()
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    path = os.path.join(VERIF, "replays", "%s_seed%d_case%d.json" % (prop.id, seed, k))

    def write():
        with open(path, "w") as f:
            json.dump({"property": prop.id, "seed": seed, "case": k, "kind": v.kind, "detail": v.detail, "digest": dg2, "plan": small, "exact": exact,
                       "minimisation_runs": n, "schedule_and_fault_trace": trace}, f, indent=1)
    write()
    for attempt in range(6):
        p = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), prop.id, "--replay", path, "--no-build"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 1:
            return {"kind": v.kind, "detail": v.detail, "replay": path, "exact": exact}
        if exact and p.returncode == 3:  # still a violation, but not the identical history
            exact = False
            write()
    trouble.append("replay in a fresh process did not reproduce: %s" % p.stdout[-2000:])
    return None


def check(prop, binaries, tier, seed, t0, budget, ncases=None, nw=None):
    ncases = ncases or prop.cases[tier]
    print("property %s tier %s VERIF_SEED %d: up to %d cases in %.0f s" % (prop.id, tier, seed, ncases, budget), flush=True)
    ts = time.time()
    viol0 = replay_known(prop, binaries)
    viol, errs, agg = search(prop, binaries, seed, ncases, budget, nw)
    viol = viol0 + viol
    wall = time.time() - ts
    tot = collections.defaultdict(collections.Counter)
    inter, states, distinct, samples = set(), set(), set(), []
    done = 0
    simtime = 0.0
    for a in agg:
        done += a["done"]
        simtime += a["simtime"]
        for k in ("stats", "faults", "features", "skips"):
            tot[k].update(a[k])
        inter.update(a["interleavings"])
        states.update(a["states"])
        distinct.update(a["distinct"])
        samples += a["samples"]
    if errs and not viol:
        print("ERROR: " + errs[0], file=sys.stderr)
        return 2
    code, nviol, reported, trouble = 0, 0, [], []
    for (k, plan, kind, detail, dg) in viol:
        if code:
            break
        kf = is_known(prop.id, kind, detail)
        if kf:
            print("KNOWN-FINDING: property=%s %s" % (prop.id, kf["what"]))
            continue
        nviol += 1
        rep = confirm(prop, binaries, seed, k, plan, kind, detail, dg, trouble)
        if rep:
            print("violation: %s: %s" % (rep["kind"], rep["detail"]))
            print("VIOLATION property=%s replay=%s" % (prop.id, rep["replay"]), flush=True)
            reported.append(rep)
            code = 1
    if trouble and not code:
        print("ERROR: " + "\n".join(trouble), file=sys.stderr)
        return 2
    runs = tot["stats"]["runs"]
    ev = {"property": prop.id, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {
              "evaluations": done, "distinct_nontrivial": len(distinct), "rule": prop.rule, "samples": samples[:4],
              "simulated_runs": runs, "simulated_runs_per_hour": int(runs / max(wall, 1e-6) * 3600),
              "seeds_per_hour": int(done / max(wall, 1e-6) * 3600),
              "simulated_seconds_covered": round(simtime, 3), "simulated_operations": tot["stats"]["ops"],
              "faults_fired": dict(sorted(tot["faults"].items())),
              "distinct_interleavings": len(inter), "context_switches": tot["stats"]["switches"],
              "interleaving_measure": "hash of the sequence of worker switches of one execution",
              "distinct_end_states": len(states), "state_measure": "hash of all simulated files at the end of a scenario",
              "skipped_cases": dict(sorted(tot["skips"].items())), "scene_features": dict(sorted(tot["features"].items())),
              "probes": {k: v for k, v in sorted(tot["stats"].items()) if k not in ("runs", "ops", "switches")},
              "real_components": prop.real, "stubbed_components": prop.stub},
          "assumptions": prop.assumptions, "wall_s": round(time.time() - t0, 2), "violations": nviol}
    if reported:
        ev["coverage"]["reported"] = reported
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop.id + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d cases, %d distinct non-trivial, %d simulated runs, %.1f s, faults %s, skipped %s" %
          (prop.id, done, len(distinct), runs, wall, sum(tot["faults"].values()), sum(tot["skips"].values())))
    return code
