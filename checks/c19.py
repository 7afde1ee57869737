"""C19: verification accepts exactly the item files covered by the features"""
import itertools
import os
import subprocess
import sys

import numpy as np

from lib import abx, core
from lib.core import require

ID = 'C19'
BOUNDS = {
    'quick': 'all the subsets of 4 feature files (names which are prefixes '
             'of one another, with dots, slashes, accents) against all the '
             'sequences of 0 to 3 items over them and 2 other files; all '
             'the headers of up to 6 columns with markers anywhere among '
             'those whose validity is specified; separators, blank lines, '
             'last line without end; 600 items of 40 files with one missing '
             'at every 20th place; 5000 items of 1500 files, names of up to '
             '300 characters; the module run as a script',
    'thorough': 'as quick with sequences of 4 items, one missing at every '
                'place',
}
FILES = ['f1', 'f10', 'f1.wav', 'a/f1']
OTHERS = ['f', 'F1']


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for mask in range(1, 16):
        for n in range(0, 5 if deep else 4):
            out.append({'files': mask, 'n': n})
    for n in range(1, 7):
        out.append({'header': n})
    for k in range(8):
        out.append({'long': k, 'step': 1 if deep else 20})
    out.append({'unicode': 1})
    out.append({'wide': 1})
    out.append({'names': 1})
    out.append({'script': 1})
    return out


def features(path, names):
    abx.write_features(
        path, [np.arange(2) * 0.1 for _ in names],
        [np.ones((2, 2)) for _ in names], list(names))


def verify(item, feats, ctx):
    """None if it is accepted, otherwise the message"""
    from ABXpy import verify as v
    before = open(item, 'rb').read(), open(feats, 'rb').read()
    try:
        v.check(item, feats)
        res = None
    except Exception as e:
        res = str(e) or type(e).__name__
    ctx.step()
    require((open(item, 'rb').read(), open(feats, 'rb').read()) == before,
            'the verification modifies its files')
    return res


def write(path, header, rows, sep=' ', blank=None, end=True):
    lines = [sep.join(header)] + [sep.join(str(v) for v in r) for r in rows]
    if blank is not None:
        lines.insert(blank + 1, '' if blank % 2 else '  ')
    with open(path, 'w', encoding='utf8') as f:
        f.write('\n'.join(lines) + ('\n' if end else ''))


HEADER = ['#file', 'onset', 'offset', '#p', 'q']


def run(case, ctx):
    item = ctx.path('d.item')
    feats = ctx.path('d.features')
    if 'files' in case:
        names = [f for i, f in enumerate(FILES) if case['files'] >> i & 1]
        features(feats, names)
        for k, seq in enumerate(itertools.product(
                FILES + OTHERS, repeat=case['n'])):
            rows = [(f, i, i + 1, 'x', 'y') for i, f in enumerate(seq)]
            write(item, HEADER, rows, sep=(' ', '\t', '   ')[k % 3],
                  blank=k % 4 if k % 4 <= len(rows) else None,
                  end=k % 2 == 0)
            res = verify(item, feats, ctx)
            missing = [f for f in seq if f not in names]
            require((res is None) == (not missing), 'items of %s, features '
                    'of %s: %s', seq, names, 'accepted' if res is None
                    else 'refused (%s)' % res)
            require(res is None or any(f in res for f in missing),
                    'items of %s, features of %s: the error does not name '
                    'the file: %s', seq, names, res)
            ctx.state(names, seq)
        return
    if 'header' in case:
        n = case['header']
        features(feats, ['f1'])
        names = ['file', 'onset', 'offset', 'p', 'q', 'r'][:n]
        for marks in itertools.product((0, 1), repeat=n):
            if n >= 4 and sum(marks) > 2 and marks[0] and marks[3]:
                # more markers: not specified
                continue
            cols = ['#' + c if m else c for c, m in zip(names, marks)]
            write(item, cols, [('f1', 0, 1, 'x', 'y', 'z')[:n]])
            good = n >= 4 and marks[0] and marks[3] and sum(marks) == 2
            res = verify(item, feats, ctx)
            require((res is None) == good, 'header %s: %s', cols,
                    'accepted' if res is None else 'refused (%s)' % res)
            ctx.state(cols)
        if n >= 4:
            head = HEADER[:4] + names[4:]
            row = [('f1', 0, 1, 'x', 'y', 'z')[:n]]
            for k in range(3):
                for wrong in ('start', '#item', 'File', '#File', 'filename',
                              'onsets', 'offse', '#offset'):
                    cols = list(head)
                    cols[k] = wrong
                    write(item, cols, row)
                    require(verify(item, feats, ctx) is not None,
                            'header %s: accepted', cols)
            for k, c in ((0, 'file'), (3, 'p')):
                for wrong in (c, c + '#', c + '#' + c, 'x#'):
                    cols = list(head)
                    cols[k] = wrong
                    write(item, cols, row)
                    require(verify(item, feats, ctx) is not None,
                            'header %s: accepted', cols)
            for perm in itertools.permutations(range(4)):
                cols = [head[j] for j in perm] + head[4:]
                write(item, cols, row)
                res = verify(item, feats, ctx)
                require((res is None) == (cols == head), 'header %s: %s',
                        cols, res)
        open(item, 'w').close()
        require(verify(item, feats, ctx) is not None,
                'an empty item file is accepted')
        return
    if 'unicode' in case:
        names = ['\xe9t\xe9', 'o\u0153uf', 'x']
        features(feats, names)
        for f, ok in (('\xe9t\xe9', True), ('o\u0153uf', True),
                      ('ete', False), ('\xe9te', False), ('x', True)):
            write(item, HEADER, [('x', 0, 1, 'a', 'b'), (f, 0, 1, 'a', 'b')])
            res = verify(item, feats, ctx)
            require((res is None) == ok, 'item of %s: %s', f, res)
        return
    if 'wide' in case:
        return wide(item, feats, ctx)
    if 'names' in case:
        return long_names(item, feats, ctx)
    if 'script' in case:
        return script(item, feats, ctx)
    names = ['s%02d' % i for i in range(40)]
    features(feats, names)
    rows = [('s%02d' % (i * 7 % 40), i, i + 1, 'x', i) for i in range(600)]
    write(item, HEADER, rows)
    require(verify(item, feats, ctx) is None, '600 items: refused')
    for i in range(case['long'], 600, 8):
        if i // 8 % case['step'] and i not in (0, 599, 598):
            continue
        for bad in ('s40', 's0', 's'):
            changed = list(rows)
            changed[i] = (bad,) + changed[i][1:]
            write(item, HEADER, changed, sep='\t' if i % 2 else ' ',
                  end=bool(i % 3))
            require(verify(item, feats, ctx) is not None, 'item %d of 600 of '
                    'the missing file %s: accepted', i, bad)
        ctx.state(i)


def wide(item, feats, ctx):
    """many items of many files"""
    names = ['w%04d' % i for i in range(1500)]
    features(feats, names)
    rows = [('w%04d' % (i * 7 % 1500), i, i + 1, 'x', i)
            for i in range(5000)]
    write(item, HEADER, rows)
    require(verify(item, feats, ctx) is None, '5000 items: refused')
    for i in (0, 1, 99, 100, 255, 256, 511, 512, 999, 1000, 1023, 1024,
              1499, 1500, 2047, 2048, 3333, 4095, 4096, 4998, 4999):
        changed = list(rows)
        changed[i] = ('w1500',) + changed[i][1:]
        write(item, HEADER, changed)
        require(verify(item, feats, ctx) is not None, 'item %d of 5000 of '
                'the missing file w1500: accepted', i)
        ctx.state('wide', i)


def long_names(item, feats, ctx):
    """names which only differ by their end or their beginning"""
    for n in (7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 300):
        names = ['a' * (n - 1) + 'b', 'b' + 'a' * (n - 1), 'c' * n]
        features(feats, names)
        for f, ok in [(x, True) for x in names] + [
                ('a' * n, False), ('c' * (n - 1), False),
                ('c' * (n + 1), False), ('a' * (n - 1), False)]:
            write(item, HEADER, [(names[0], 0, 1, 'a', 'b'),
                                 (f, 0, 1, 'a', 'b')])
            res = verify(item, feats, ctx)
            require((res is None) == ok, 'item of %s, features of %s: %s', f,
                    names, res)
        os.remove(feats)
        ctx.state('names', n)


def script(item, feats, ctx):
    """the module run as a script"""
    features(feats, FILES[:2])
    good = [(f, i, i + 1, 'x', 'y') for i, f in enumerate(FILES[:2])]
    for k, (header, rows, ok) in enumerate([
            (HEADER, good, True),
            (HEADER, good + [('f2', 0, 1, 'x', 'y')], False),
            (['#file', 'onset', 'offset', 'p', 'q'], good, False),
            (HEADER, good[::-1] * 3, True)]):
        write(item, header, rows)
        before = open(item, 'rb').read(), open(feats, 'rb').read()
        p = subprocess.run(
            [sys.executable, '-m', 'ABXpy.verify', item, feats],
            cwd=ctx.sub(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
            env=dict(os.environ, PYTHONPATH=core.REPO))
        ctx.step()
        require((p.returncode == 0) == ok, 'script, case %d: status %d: %s',
                k, p.returncode, p.stdout.decode('utf8', 'replace')[-300:])
        require(ok or k != 1 or b'f2' in p.stdout, 'script: the error does '
                'not name the file')
        require((open(item, 'rb').read(), open(feats, 'rb').read()) ==
                before, 'the script modifies its files')
        ctx.state('script', k)
