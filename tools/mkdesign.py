#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, the bounds of the checks, the
defects and the planted changes (with the results of tools/caught.txt)"""
import ast
import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)


def main():
    import seeds
    out = [open(os.path.join(HERE, 'design_head.md')).read()]
    out.append('\n## 4. Bounds\n')
    for path in sorted(glob.glob(os.path.join(ROOT, 'checks', 'c*.py'))):
        tree = ast.parse(open(path).read())
        vals = {}
        for n in tree.body:
            if isinstance(n, ast.Assign) and isinstance(
                    n.targets[0], ast.Name):
                try:
                    vals[n.targets[0].id] = ast.literal_eval(n.value)
                except ValueError:
                    pass
        out.append('* **%s** quick: %s. *Thorough:* %s.' % (
            vals['ID'], vals['BOUNDS']['quick'], vals['BOUNDS']['thorough']))
        for a in vals.get('ASSUMPTIONS', []):
            out[-1] += ' *Assumes:* %s.' % a
    times = os.path.join(HERE, 'times.txt')
    if os.path.exists(times):
        out.append('\n### Cost\n\n' + open(times).read())
    out.append('\n## 5. Defects repaired\n')
    with open(os.path.join(ROOT, 'known_findings.json')) as f:
        found = json.load(f)
    found = found['findings'] if isinstance(found, dict) else found
    for e in found:
        out.append('* %s `%s` %s' % (e['property'], e['commit'], e['what']))
    out.append('''
## 6. Planted changes

Each was written from the text of a property and the code, builds, passes the
21 tests and has a demonstration which fails with it. "Missed at first" are
those which the check of the property did not catch when they were planted:
the check was then extended (larger tables, other values...), never with the
case of the demonstration alone.
''')
    notes = {}
    path = os.path.join(HERE, 'caught.txt')
    if os.path.exists(path):
        for line in open(path):
            k, _, v = line.strip().partition(' ')
            notes[k] = v
    out.append('| change | needs | caught by |\n|---|---|---|')
    for s in seeds.SEEDS:
        out.append('| %s | %s | %s |' % (
            s['id'], s['needs'], notes.get(s['id'], s['property'])))
    with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(out) + '\n')


if __name__ == '__main__':
    main()
