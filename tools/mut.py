#!/usr/bin/env python3
"""usage: mut.py PROP[,PROP] FILE OLD NEW [check.sh options] -- run checks on a scratch copy of /repo with one text change"""
import os, shutil, subprocess, sys, tempfile
props, f, old, new = sys.argv[1:5]
d = tempfile.mkdtemp(prefix="mut_")
try:
    subprocess.check_call("cd /repo && git archive HEAD | tar x -C %s" % d, shell=True)
    p = os.path.join(d, f)
    s = open(p).read()
    assert s.count(old) >= 1, "text not found"
    open(p, "w").write(s.replace(old, new, 1))
    for q in props.split(","):
        r = subprocess.run(["/verif/check.sh", q] + sys.argv[5:], env=dict(os.environ, RV_REPO=d, RV_NOEV="1"), stdout=subprocess.PIPE, text=True)
        print("%s exit %d: %s" % (q, r.returncode, "\n".join(r.stdout.strip().splitlines()[-3:])[:600]))
finally:
    shutil.rmtree(d)
