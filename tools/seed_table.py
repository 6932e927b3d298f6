"""usage: seed_table.py RESULTS   Writes the table of planted bugs in DESIGN.md from the output of seed_try.sh."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
got, cur = {}, None
for line in open(sys.argv[1]):
    m = re.match(r"(\S+): demo clean=(\d+) patched=(\d+) \| tests: (\d+) passed.* \| check (\S+) exit=(\d+)", line)
    if m:
        cur = m.group(1)
        got[cur] = [m.group(6) == "1", m.group(2) == "0" and m.group(3) != "0", ""]
    elif cur and re.match(r"\s+\w+\[\d+\] ", line) and not got[cur][2]:
        got[cur][2] = re.match(r"\s+(\w+)\[\d+\] ([^:]*)", line).group(1, 2)
rows = ["| planted bug | property | needs | caught by (scenario / monitor) |", "|---|---|---|---|"]
for i in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", i, "meta.json")))
    g = got.get(i)
    how = "not run" if g is None else ("%s / %s" % g[2] if g[0] and g[2] else ("caught" if g[0] else "**missed**"))
    rows.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), how))
f = os.path.join(V, "DESIGN.md")
s = open(f).read()
s = re.sub(r"<!-- seeds -->.*?<!-- /seeds -->", lambda _: "<!-- seeds -->\n" + "\n".join(rows) + "\n<!-- /seeds -->", s, flags=re.S)
open(f, "w").write(s)
print(len(rows) - 2, "seeds;", sum(1 for g in got.values() if g[0]), "caught;", [i for i, g in got.items() if not g[1]], "bad demos")
