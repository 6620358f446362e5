"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for f in sorted(glob.glob(os.path.join(root, 'seeded', '*', 'meta.json'))):
    m = json.load(open(f))
    rows.append("| %s | %s | %s | %s quick |" % (os.path.basename(os.path.dirname(f)), m['property'], m['needs'].replace('|', '/'), m['property']))
p = os.path.join(root, 'DESIGN.md')
s = open(p).read()
head = "| planted bug | property | needs | caught by |\n|---|---|---|---|\n"
a = s.index(head) + len(head)
b = s.index("\n\n", a)
open(p, 'w').write(s[:a] + "\n".join(rows) + s[b:])
print(len(rows), "planted bugs")
