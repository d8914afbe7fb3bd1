#!/usr/bin/env python3
"""check.py ID --tier quick|thorough   run the check of one property against /repo
   check.py ID --replay FILE          replay one violation exactly"""
import argparse, os, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, "driver"))


def main():
    t0 = time.time()
    a = argparse.ArgumentParser()
    a.add_argument("id")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a.add_argument("--replay")
    a.add_argument("--no-build", action="store_true")
    a.add_argument("--budget", type=float)
    a.add_argument("--cases", type=int)
    a.add_argument("--workers", type=int)
    o = a.parse_args()
    import build, engine, props
    prop = props.PROPS[o.id]
    if o.no_build:
        bins = {t: os.path.join(build.BUILD, "sim_" + t) for t in prop.sims}
    else:
        try:
            bins = build.build(prop.sims)
        except RuntimeError as e:
            print(e, file=sys.stderr)
            return 2
    if o.replay:
        return engine.replay(prop, bins, o.replay)
    budget = o.budget or (100.0 if o.tier == "quick" else 600.0)
    return engine.check(prop, bins, o.tier, o.seed, t0, budget, o.cases, o.workers)


if __name__ == "__main__":
    sys.exit(main())
