#!/usr/bin/env python3
"""tools/run_seeds.py ID...: runs the check of each planted change's property against a scratch copy with the change (development helper)."""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(V, "seeded")))
for i in ids:
    d = "/tmp/seedrun/" + i
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    shutil.copytree("/repo/include", d + "/include")
    r = subprocess.run(["git", "apply", "--directory=" + d.lstrip("/"), os.path.join(V, "seeded", i, "patch.diff")], cwd="/", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        print(i, "DOES NOT APPLY", r.stdout[:200]); continue
    p = json.load(open(os.path.join(V, "seeded", i, "meta.json")))["property"]
    t = time.time()
    r = subprocess.run(["python3", os.path.join(V, "check.py"), p], env=dict(os.environ, MIMICPP_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    print("%-7s %s rc=%d %.0fs %s" % (i, {1: "caught", 0: "MISSED"}.get(r.returncode, "ERROR"), r.returncode, time.time() - t, r.stdout.strip().splitlines()[-1][:220] if r.stdout.strip() else ""), flush=True)
    shutil.rmtree(d, ignore_errors=True)
