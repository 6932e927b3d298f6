"""usage: seed_new.py <id> <property> <file> <<< json {"old":..., "new":..., "edits":[[file,old,new],...], "needs":..., "breaks":..., "demo":...}

Writes /verif/seeded/<id>/{patch.diff,demo.sh,demo.py,meta.json} from text replacements in a scratch copy of /repo."""
import json
import os
import shutil
import subprocess
import sys
import tempfile


def make(id, prop, edits, needs, breaks, demo):
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="seednew_")
    try:
        subprocess.check_call(["git", "clone", "-q", "/repo", t + "/r"])
        for f, old, new in edits:
            p = os.path.join(t, "r", f)
            s = open(p, newline="").read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w", newline="").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", t + "/r", "diff"])
        # every removed line has to come from the original repository (the first commit)
        base = subprocess.check_output(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], text=True).strip()
        for f, old, new in edits:
            orig = subprocess.check_output(["git", "-C", "/repo", "show", base + ":" + f], text=True)
            olines = set(orig.splitlines())
            for line in diff.decode().splitlines():
                if line.startswith("-") and not line.startswith("---") and line[1:] not in olines:
                    ok = any(line[1:] in subprocess.check_output(["git", "-C", "/repo", "show", base + ":" + g],
                                                                 text=True).splitlines() for g, _, _ in edits)
                    if not ok:
                        print("WARNING: changed line is not original: ", line)
        open(d + "/patch.diff", "wb").write(diff)
    finally:
        shutil.rmtree(t)
    with open(d + "/demo.sh", "w") as f:
        f.write('#!/bin/bash\n# run with cwd = the repository; exit 0 when the property holds, nonzero when it is broken\n'
                'export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" MPLBACKEND=Agg PROJ_NETWORK=OFF\n'
                'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    with open(d + "/demo.py", "w") as f:
        f.write(demo.lstrip("\n"))
    with open(d + "/meta.json", "w") as f:
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, f, indent=1)
        f.write("\n")
