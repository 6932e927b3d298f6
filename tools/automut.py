"""usage: automut.py HITS.json OUT.txt SEED COUNT [FILE-substring] -- random small mutations of executed lines; lists those no check notices.
HITS.json comes from `OUT=HITS.json tools/cov.py`: the lines each property's workload runs."""
import ast
import concurrent.futures as cf
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

hits, out, seed, count = json.load(open(sys.argv[1])), sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
sub = sys.argv[5] if len(sys.argv) > 5 else ""
COST = "C24 C18 C15 C27 C12 C13 C17 C10 C14 C16 C20 C04 C19 C22 C09 C11 C25 C02 C23 C06 C01 C03 C05 C21 C07 C08".split()
REPO = "/repo/resippy/"
SWAP = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Lt: ast.LtE, ast.LtE: ast.Lt,
        ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.Pow: ast.Mult}


def sites(tree, lines):
    """(description, function that mutates the node in place)"""
    res = []
    for parent in ast.walk(tree):
        for field, val in ast.iter_fields(parent):
            items = val if isinstance(val, list) else [val]
            for i, n in enumerate(items):
                if not isinstance(n, ast.AST) or getattr(n, "lineno", None) not in lines:
                    continue
                key = (field, i if isinstance(val, list) else None)
                if isinstance(n, ast.BinOp) and type(n.op) in SWAP:
                    if isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
                        continue
                    res.append((n.lineno, "op %s" % type(n.op).__name__, lambda n=n: setattr(n, "op", SWAP[type(n.op)]())))
                elif isinstance(n, ast.Compare) and type(n.ops[0]) in SWAP:
                    res.append((n.lineno, "cmp %s" % type(n.ops[0]).__name__, lambda n=n: n.ops.__setitem__(0, SWAP[type(n.ops[0])]())))
                elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
                    res.append((n.lineno, "bool", lambda n=n: setattr(n, "value", not n.value)))
                elif isinstance(n, ast.Constant) and isinstance(n.value, int):
                    res.append((n.lineno, "int+1 %d" % n.value, lambda n=n: setattr(n, "value", n.value + 1)))
                elif isinstance(n, ast.Constant) and isinstance(n.value, float):
                    res.append((n.lineno, "float", lambda n=n: setattr(n, "value", n.value * 1.01 + 0.001)))
                elif isinstance(n, ast.BoolOp):
                    res.append((n.lineno, "boolop", lambda n=n: setattr(n, "op", ast.Or() if isinstance(n.op, ast.And) else ast.And())))
                elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
                    res.append((n.lineno, "drop unary", lambda n=n: setattr(n, "op", ast.UAdd()) if isinstance(n.op, ast.USub) else
                                setattr(n, "operand", ast.UnaryOp(ast.Not(), n.operand))))
                elif isinstance(n, ast.Call):
                    if len(n.args) >= 2:
                        res.append((n.lineno, "swap args", lambda n=n: n.args.__setitem__(slice(0, 2), n.args[1::-1])))
                    if n.keywords:
                        k = random.randrange(len(n.keywords))
                        res.append((n.lineno, "drop keyword %s" % n.keywords[k].arg, lambda n=n, k=k: n.keywords.pop(k)))
                elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and isinstance(val, list):
                    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
                        continue
                    res.append((n.lineno, "delete statement", lambda val=val, i=i, n=n: val.__setitem__(i, ast.copy_location(ast.Pass(), n))))
                elif isinstance(n, ast.If):
                    res.append((n.lineno, "negate if", lambda n=n: setattr(n, "test", ast.UnaryOp(ast.Not(), n.test))))
    return res


def import_lines(code):
    """Lines run when the module is imported: its body, class bodies, and the defaults of functions."""
    res = {n for _, _, n in code.co_lines() if n}
    for c in code.co_consts:
        if hasattr(c, "co_code") and not c.co_flags & 2:
            res |= import_lines(c)
    return res


random.seed(seed)
allsites = []
for f in sorted({f for p in hits.values() for f in p}):
    if sub not in f or f.endswith("__init__.py"):
        continue
    lines = {n for p in hits.values() for n in p.get(f, [])}
    tree = ast.parse(open(REPO + f).read())
    top = import_lines(compile(open(REPO + f).read(), f, "exec"))
    for k, (ln, what, _) in enumerate(sites(tree, lines)):
        # lines that run at import only are seen by everyone
        who = [p for p in COST if ln in hits.get(p, {}).get(f, ()) or (ln in top and set(hits.get(p, {}).get(f, ())) - top)]
        allsites.append((f, ln, what, k, who))
random.shuffle(allsites)
todo = allsites[:count]


def one(t):
    f, ln, what, k, who = t
    d = tempfile.mkdtemp(prefix="am_")
    try:
        shutil.copytree("/repo/resippy", d + "/resippy", ignore=shutil.ignore_patterns("__pycache__"))
        lines = {n for p in hits.values() for n in p.get(f, [])}
        random.seed(seed)
        src = open(REPO + f).read()
        tree = ast.parse(src)
        s = sites(tree, lines)[k]
        s[2]()
        ast.fix_missing_locations(tree)
        try:
            new = ast.unparse(tree)
            compile(new, f, "exec")
        except Exception as e:
            return "skip", t
        open(d + "/resippy/" + f, "w").write(new)
        for p in who:
            try:
                r = subprocess.run(["/verif/check.sh", p, "--jobs", "1"], env=dict(os.environ, RV_REPO=d, RV_NOEV="1", RV_BUDGET="300"),
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
            except subprocess.TimeoutExpired:
                return "timeout " + p, t
            if r.returncode != 0:
                return "killed %s" % p, t
        return "SURVIVED", t
    finally:
        shutil.rmtree(d, ignore_errors=True)


with cf.ThreadPoolExecutor(8) as ex, open(out, "w") as o:
    n = 0
    for fut in cf.as_completed([ex.submit(one, t) for t in todo]):
        r, (f, ln, what, k, who) = fut.result()
        n += 1
        o.write("%s %s:%d %s | %s | %s\n" % (r, f, ln, what, open(REPO + f).read().splitlines()[ln - 1].strip(), ",".join(who)))
        o.flush()
