"""Refresh the table of planted bugs in DESIGN.md."""
import collections, glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = collections.defaultdict(list)
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    t[json.load(open(m))["property"]].append(os.path.basename(os.path.dirname(m)))
rows = "\n".join(f"| {p} | {', '.join(x)} |" for p, x in sorted(t.items()))
p = V + "/DESIGN.md"
s = open(p).read()
s = s.replace("@@TABLE@@", "| C00 | - |")
s = re.sub(r"(\| property \| planted \|\n\|---\|---\|\n)(\|.*\n)+", lambda m: m.group(1) + rows + "\n", s)
s = re.sub(r"holds \d+ changes", f"holds {sum(map(len, t.values()))} changes", s)
open(p, "w").write(s)
