"""rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json and the table's last column"""
import json
import pathlib
import re

root = pathlib.Path(__file__).parent.parent
path = root / 'DESIGN.md'
text = path.read_text()
mark = '## 5. Planted bugs'
head = text.split(mark)[0].rstrip()
old = dict(re.findall(r'^\| ([^|]+?) \|.*\| ([^|]+?) \|$', text[len(head):], re.M))
rows = []
for d in sorted((root / 'seeded').iterdir()):
    m = json.loads((d / 'meta.json').read_text())
    rows.append(f"| {d.name} | {m['what_it_breaks']} | {m['needs']} | {old.get(d.name, m['property'])} |")
path.write_text(head + f"""

{mark}

Each is confirmed as described in the task (stable tests pass with it, its demo tells it apart); `tools/try_bug.sh seeded/<name>` repeats this and runs the check in a copy.
"Caught by" is the check of the property it was written for, unless said otherwise; "after …" says that the check missed it at first and what was changed.

| bug | breaks | needs | caught by |
|---|---|---|---|
""" + '\n'.join(rows) + '\n')
