#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the registered checks."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, "driver"))
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = [{"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
           "evidence_file": "evidence/%s.json" % i,
           "technique": "deterministic simulation with fault injection (seeded search, exact replay)", "level": "exploration",
           "level_note": "Seeded search over scenes, scripts, environments, kill points and faults of the real command line programs inside a "
                         "simulator (disk, library, clock, memory and worker-scheduling seams). Held on everything explored; trusts the stubs of "
                         "HDF5, Python/NumPy, QL and So-bogus named in the evidence."}
          for i in ids if i in props.PROPS]
na = [{"property": i, "reason": "check under construction"} for i in ids if i not in props.PROPS]
m = {"version": 1, "setup_cmd": "python3 driver/build.py",
     "hooks": {"guard": "none (no hooks were needed)", "enable": "nothing to enable: the existing seams (library interfaces, system calls, OpenMP and "
               "memory-access instrumentation inserted by the compiler) are intercepted at link time in /verif/sim", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "check.py ID --replay FILE replays a violation exactly. DESIGN.md lists what is outside this technique."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
