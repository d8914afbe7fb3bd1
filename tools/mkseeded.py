#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the definitions below: mkseeded.py [id ...]"""
import json, os, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = {}


def bug(id, prop, edits, demo, needs, breaks, files=None):
    B[id] = dict(prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, files=files or {})


exec(open(os.path.join(V, "tools", "seeded_defs.py")).read())


def kit(dst):
    shutil.copytree(os.path.join(V, "shim"), os.path.join(dst, "shim"))
    for f in ("hdf5_stub.cpp", "python_stub.cpp", "ql_stub.cpp", "runtime.h"):
        shutil.copy(os.path.join(V, "sim", f), dst)
    for f in ("mini_runtime.cpp", "build.sh", "lib.sh"):
        shutil.copy(os.path.join(V, "tools", "demokit", f), dst)


def make(id):
    b = B[id]
    d = os.path.join(V, "seeded", id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    t = tempfile.mkdtemp()
    w = os.path.join(t, "w")
    subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w, "HEAD"])
    try:
        for f, old, new in b["edits"]:
            p = os.path.join(w, f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", w, "diff"], text=True)
    finally:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "remove", "--force", w])
        shutil.rmtree(t, ignore_errors=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    demo = '#!/bin/bash\n# %s\nhere=$(cd "$(dirname "$0")" && pwd)\n. "$here/kit/lib.sh"\n%s\necho ok\n' % (b["breaks"], b["demo"].strip())
    open(os.path.join(d, "demo.sh"), "w").write(demo)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    os.makedirs(os.path.join(d, "kit"))
    kit(os.path.join(d, "kit"))
    for k, v in b["files"].items():
        open(os.path.join(d, k), "w").write(v)
    json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)


for i in sys.argv[1:] or sorted(B):
    make(i)
    print(i)
