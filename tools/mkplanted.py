#!/usr/bin/env python3
"""Rewrites the table of the planted changes at the end of DESIGN.md (from seeded/*/meta.json)."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(os.listdir(os.path.join(here, 'seeded'))):
    m = json.load(open(os.path.join(here, 'seeded', d, 'meta.json')))
    rows.append((d, m['property'], m['what_it_breaks'].replace('|', '/').replace('\n', ' ')))
p = os.path.join(here, 'DESIGN.md')
s = open(p).read()
mark = '## Planted changes\n'
head = s[:s.index(mark)]
t = head + mark + '''
`seeded/`: each one compiles, passes the 412 tests, and has a demonstration against the public interface. The check of
the property it is written from catches each of them at the quick tier with seed 1 (other checks often do as well: a
wrong update is also a deviation of C08, a lost error of C13).

| change | caught by | what it breaks |
| --- | --- | --- |
'''
for r in rows:
    t += '| %s | %s | %s |\n' % r
t += '''
Besides these, about 150 one-off mutants of the solver, of the update formulas, of the limitations, of the log and of the
XML reader were run against the checks while they were built; those that stayed quiet are equivalent (same observable
behaviour) or inside the freedom listed above. Five whole-crate refactorings (floating point operations reordered
everywhere, loops and helpers restructured, another elimination for the inverse) have to leave the checks quiet.
'''
open(p, 'w').write(t)
