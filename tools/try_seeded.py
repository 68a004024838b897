#!/usr/bin/env python3
"""Development tool: run the check of each planted change's property on a copy with the change applied."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COPY = os.environ.get("PLANT_COPY", "/tmp/plant/repo")
sh = lambda c: subprocess.run(c, shell=True, capture_output=True, text=True)
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(V + "/seeded"))
for i in ids:
    d = V + "/seeded/" + i
    prop = json.load(open(d + "/meta.json"))["property"]
    sh(f"git -C {COPY} checkout -q -- . && git -C {COPY} fetch -q /repo && git -C {COPY} reset -q --hard FETCH_HEAD")
    a = sh(f"git -C {COPY} apply {d}/patch.diff")
    t = time.time()
    r = sh(f"cd {V} && VERIF_REPO={COPY} ./check {prop} quick")
    lines = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    print(i, prop, "CAUGHT" if r.returncode == 1 and lines else "MISSED rc=%d" % r.returncode, "%ds" % (time.time() - t), (lines or [r.stderr[-300:]])[0][:150], a.stderr[:200], flush=True)
sh(f"git -C {COPY} checkout -q -- .")
