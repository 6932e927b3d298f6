"""usage (in /opt/venv): cov.py [C01 ...] -- which lines of resippy the workloads run; prints the lines never run"""
import dis
import os
import sys
import glob
sys.path.insert(0, "/verif")
sys.path.insert(0, os.environ.get("RV_REPO", "/repo"))
import numpy as np
import warnings
warnings.simplefilter("ignore")
np.seterr(all="ignore")
REPO = os.environ.get("RV_REPO", "/repo") + "/resippy/"
hit, per, total = {}, {}, {}
mon = sys.monitoring
mon.use_tool_id(3, "cov")


def line(code, n):
    if code.co_filename.startswith(REPO):
        hit.setdefault(code.co_filename, set()).add(n)
    return mon.DISABLE


mon.register_callback(3, mon.events.LINE, line)
mon.set_events(3, mon.events.LINE)
from rv import env
env.prepare()
from rv import core
for p in [a.lower() for a in sys.argv[1:]] or ["c%02d" % i for i in range(1, 28) if i != 26]:
    reg = core.load_registry(p)
    for sc in reg.scenarios:
        for i in range(min(sc.quick, int(os.environ.get("N", "60")))):
            core.run_case(reg, sc, i, 1, "quick", set())
    print(p, file=sys.stderr)
    if os.environ.get("OUT"):
        per[p.upper()] = {f[len(REPO):]: sorted(v) for f, v in hit.items()}
        for f, v in hit.items():
            total.setdefault(f, set()).update(v)
        hit.clear()
        mon.restart_events()
if os.environ.get("OUT"):
    import json
    json.dump(per, open(os.environ["OUT"], "w"))
    hit = total


def lines_of(code, out):
    for c in code.co_consts:
        if hasattr(c, "co_code"):
            out.update(n for _, _, n in c.co_lines() if n and n != c.co_firstlineno)
            lines_of(c, out)
    return out


for f in sorted(glob.glob(REPO + "**/*.py", recursive=True)):
    want = lines_of(compile(open(f).read(), f, "exec"), set())
    miss = sorted(want - hit.get(f, set()))
    if miss:
        src = open(f).read().splitlines()
        print("%s: %d of %d lines not run" % (f[len(REPO):], len(miss), len(want)))
        if len(miss) < len(want):
            for n in miss:
                print("   %4d %s" % (n, src[n - 1]))
