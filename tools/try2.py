#!/usr/bin/env python3
"""tools/try2.py NAME SRCS PROFILES COUNT FLAVOUR...: compare the digests of one harness between flavours (development helper)."""
import sys, os, subprocess, time, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import vlib
n, src, prof, cnt = sys.argv[1:5]
def mk(f):
    x = f.split("+")
    std = None
    if "c23" in x:
        x.remove("c23"); std = "c++23"
    return vlib.Program(n, src.split(","), x[0], extra=x[1:], std=std)
ps = [mk(f) for f in sys.argv[5:]]
t = time.time(); vlib.build(ps); print("built in %.1fs" % (time.time() - t))
for pr in prof.split(","):
    ref = None
    for p, f in zip(ps, sys.argv[5:]):
        t = time.time(); rc, o, e = vlib.run_cmd([p.bin, pr, os.environ.get("VERIF_SEED", "1"), "0", cnt], 900, {"HARNESS_DIGESTS": "1"})
        d = dict(re.findall(r"^DIGEST (\d+) (\S+)$", o, re.M))
        ref = ref or d
        diff = sorted(int(k) for k in ref if d.get(k) != ref[k])
        print(pr, f, "rc", rc, "%.1fs" % (time.time() - t), len(d), "cases", len(set(d.values())), "distinct;", len(diff), "differ", diff[:5])
        if diff and ref is not d:
            tr = [vlib.run_cmd([q.bin, pr, os.environ.get("VERIF_SEED", "1"), str(diff[0]), "1"], 900, {"HARNESS_TRACE": "1"})[1].splitlines() for q in (ps[0], p)]
            for a, b in zip(*tr):
                if a != b:
                    print("  first difference:\n    ", a[:300], "\n    ", b[:300]); break
        if rc: print(o[-600:], e[-600:])
