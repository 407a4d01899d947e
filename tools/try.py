#!/usr/bin/env python3
"""tools/try.py NAME SRC[,SRC] PROFILE COUNT [flavour] [extra flags...]: build one harness and run it unsharded (development helper)."""
import sys, os, subprocess, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import vlib
n, src, prof, cnt = sys.argv[1:5]
fl = sys.argv[5] if len(sys.argv) > 5 else "gcc-asan"
p = vlib.Program(n, src.split(","), fl, extra=sys.argv[6:])
t = time.time(); vlib.build([p]); print("built in %.1fs" % (time.time() - t))
for pr in prof.split(","):
    t = time.time(); rc, o, e = vlib.run_cmd([p.bin, pr, os.environ.get("VERIF_SEED", "1"), "0", cnt], 900)
    print(pr, "rc", rc, "%.1fs" % (time.time() - t)); 
    o = "\n".join(l[:1500] for l in o.splitlines() if not l.startswith("SAMPLE "))
    print(o[:900] if rc == 0 else o[:600] + "\n...\n" + o[-600:]); print(e[-1500:])
