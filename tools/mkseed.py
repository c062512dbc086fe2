#!/usr/bin/env python3
"""mkseed.py: builds /verif/seeded/<id>/ from tools/seeds/<id>.py-like definitions given on stdin as python literals
   dict(id, property, needs, breaks, edits=[(file, old, new)], demo=source, timeout)"""
import json, os, re, shutil, subprocess, sys, tempfile
V = "/verif"
def make(s):
    d = os.path.join(V, "seeded", s["id"])
    w = tempfile.mkdtemp(prefix="mk", dir="/tmp")
    subprocess.check_call("git -C /repo archive HEAD src | tar x -C %s && cd %s && git init -q . && git add -A && git -c user.name=x -c user.email=x commit -qm x" % (w, w), shell=True)
    for f, old, new in s["edits"]:
        p = os.path.join(w, "src/sofa/pbrpc", f)
        t = open(p).read()
        assert t.count(old) == 1, (s["id"], f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    diff = subprocess.check_output(["git", "diff"], cwd=w).decode()
    shutil.rmtree(w)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + "/patch.diff", "w").write(diff)
    run = open(V + "/tools/demo/run.sh").read()
    if s.get("timeout"):
        run = run.replace("DEMO_TIMEOUT:-120", "DEMO_TIMEOUT:-%d" % s["timeout"])
    open(d + "/demo.sh", "w").write(run)
    shutil.copy(V + "/tools/demo/demo.h", d)
    shutil.copy(V + "/tools/demo/echo_service.proto", d)
    open(d + "/demo.cc", "w").write('#include "demo.h"\n' + s["demo"].lstrip())
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print("made", s["id"])
if __name__ == "__main__":
    ns = {}
    exec(sys.stdin.read(), ns)
    for s in ns["SEEDS"]:
        make(s)
