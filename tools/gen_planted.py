#!/usr/bin/env python3
"""Write the table of planted bugs into DESIGN.md (between the heading and the next one)."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for n in sorted(os.listdir(f'{V}/seeded')):
    m = json.load(open(f'{V}/seeded/{n}/meta.json'))
    rows.append(f"| {n} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
text = open(f'{V}/DESIGN.md').read()
head, tail = text.split('## Planted bugs\n', 1)
rest = re.split(r'(?m)^## ', tail, maxsplit=1)
intro = f"""
{len(rows)} in `seeded/`; each was confirmed to build, to pass the 46 tests and to fail its demonstration, and
each is caught by the quick check of the property it is listed under.

| planted bug | caught by | what it breaks | what it needs |
|---|---|---|---|
""" + '\n'.join(rows) + '\n'
open(f'{V}/DESIGN.md', 'w').write(head + '## Planted bugs\n' + intro + ('\n## ' + rest[1] if len(rest) > 1 else ''))
