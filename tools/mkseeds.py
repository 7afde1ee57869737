#!/usr/bin/env python3
"""Writes seeded/<id>/ (patch.diff, demo.sh, demo.py, util.py, meta.json)
from the definitions of tools/seeds.py, against the files of /repo's HEAD.

Changes that are not wanted any more have to be removed by hand.
"""
import difflib
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
BASE = '8b5dec2'


def show(rev, path):
    return subprocess.run(
        ['git', '-C', '/repo', 'show', rev + ':' + path], check=True,
        stdout=subprocess.PIPE).stdout.decode()


def main(only):
    import seeds
    for s in seeds.SEEDS:
        if only and s['id'] not in only:
            continue
        diff = ''
        for path, changes in s['changes'].items():
            old = show('HEAD', path)
            base = show(BASE, path)
            new = old
            for a, b in changes:
                if '\r\n' in old:
                    a, b = a.replace('\n', '\r\n'), b.replace('\n', '\r\n')
                n = new.count(a)
                assert n == 1, (s['id'], path, n, a)
                new = new.replace(a, b)
            lines = list(difflib.unified_diff(
                old.splitlines(True), new.splitlines(True),
                'a/' + path, 'b/' + path))
            for line in lines:
                if line.startswith('-') and not line.startswith('---'):
                    if line[1:] not in base.splitlines(True):
                        print('warning:', s['id'], 'not original:', line[1:])
            diff += ''.join(lines)
        d = os.path.join(ROOT, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, 'patch.diff'), 'w', newline='') as f:
            f.write(diff)
        with open(os.path.join(d, 'demo.sh'), 'w') as f:
            f.write('#!/bin/bash\nexec /opt/venv/bin/python -W ignore '
                    '"$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        with open(os.path.join(d, 'demo.py'), 'w') as f:
            f.write('from util import *\n\n' + s['demo'].strip('\n') + '\n')
        shutil.copy(os.path.join(HERE, 'seeds_util.py'),
                    os.path.join(d, 'util.py'))
        with open(os.path.join(d, 'meta.json'), 'w') as f:
            json.dump({'property': s['property'], 'needs': s['needs'],
                       'what_it_breaks': s['breaks']}, f, indent=1)
            f.write('\n')
        subprocess.run(['git', '-C', '/repo', 'apply', '--check',
                        os.path.join(d, 'patch.diff')], check=True)


if __name__ == '__main__':
    main(sys.argv[1:])
