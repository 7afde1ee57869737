"""C10: the analysis reports the exact mean score of each group"""
import itertools
import os

from lib import abx, tables
from lib.core import require
from checks import c04, c06

ID = 'C10'
BOUNDS = {
    'quick': 'all the assignments of scores to the triplets of 5 small '
             'tables (up to 6 triplets, 1 to 3 by blocks); all the full '
             'designs and label types with 6 patterns of scores; requested '
             'regressors, by labels with a slash; up to 8 regressors of up '
             'to 500 levels (more than 2^64 combinations), up to 50 '
             'regressors, combinations equal modulo powers of two; groups '
             'of up to 66560 triplets; up to 290 by blocks',
    'thorough': 'as quick with all small tables, one row deletions, groups '
                'of up to 2 million triplets',
}

SMALL = {
    't1': (['on', 'ac'], ['ac'], [], ['p s', 'q s', 'p t']),
    't4': (['on', 'ac'], ['ac'], [], ['p s', 'q s', 'q s', 'p t', 'p s']),
    't3': (['on', 'ac'], ['ac'], [], ['p s', 'q s', 'r s', 'p t', 'q s']),
    'by': (['on', 'ac', 'by'], ['ac'], ['by'],
           ['p s u', 'q s v', 'p t u', 'q s u', 'p s v', 'p t v', 'p t v']),
    't6': (['on'], [], [], ['p', 'q', 'p', 'r']),
}


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for name in SMALL:
        for first in (-1, 0, 1):
            out.append({'small': name, 'first': first})
    ts = tables.family(False) if deep else tables.designs(deletions=False)
    for k, c in enumerate(ts):
        rows, columns, across, by = tables.rows_of(c)
        if not abx.triplets(rows, 'on', across, by):
            continue
        for p in range(6):
            if p in (0, 3) or deep or (k + p) % 3 == 0:
                out.append(dict(c, pattern=p, r=['%s_%s' % (
                    columns[(k + j) % len(columns)], 'BXA'[j])
                    for j in range(p % 4)]))
    for spec in c04.SPECS:
        for k, r in enumerate(([], ['zz_A'], ['zz_B', 'fl_X'],
                               ['oo_2', 'aa_X', 'zz_A', 'zz_B', 'zz_X'])):
            out.append({'d': k % 3, 'spec': spec, 'r': r, 'pattern': 2 + k})
    for levels, n in ((2, 7), (20, 2), (50, 3), (127, 6), (200, 5), (200, 6),
                      (254, 4), (254, 6), (255, 6), (256, 6), (257, 7),
                      (300, 5), (300, 6), (300, 7), (500, 7), (500, 8)):
        out.append({'levels': levels, 'n': n, 'pattern': 4})
    for k, (levels, n) in enumerate((
            (16, 4), (256, 1), (256, 2), (256, 4), (256, 5), (256, 6),
            (128, 7), (16, 13), (2, 50))):
        for j, ext in enumerate(('A', 'AB', 'ABX')):
            out.append({'pow2': levels, 'n': n, 'ext': ext,
                        'pattern': 2 + (j + k) % 4})
    for n, size in ((11, 1), (290, 1), (40, 14)):
        for k, r in enumerate(([], ['zz_X'], ['zz_A', 'zz_B'])):
            if deep or n < 99 or k == 1:
                out.append({'many': n, 'size': size, 'r': r, 'pattern': 2 + k,
                            'heavy': n > 99})
    for labels in (['u/v', 'u/w'], ['u/', 'v/w'], ['u/v/w', 'x'],
                   ['u v'[:1], 'a/b'], ['0', 'bys'], ['indexes', 'x'],
                   [0.5, 10], [-3, 3], ['(1,2)', "it's"], ['\xe9', 'u']):
        for order in (0, 1):
            out.append({'bylabels': labels[::1 - 2 * order], 'pattern': 1})
    for cell in ([16, 4, 4], [300, 1, 1], [1, 300, 2], [2, 1, 129],
                 [7, 10, 10], [33, 32, 32], [260, 256, 1]) + (
                     ([41, 40, 40], [70000, 1, 1], [130, 130, 130]) if deep
                     else ()):
        for p in (2, 5):
            out.append({'cell': cell, 'pattern': p})
    return out


def pattern(k, n):
    import numpy as np
    i = np.arange(n)
    return [i * 0, i * 0 + 1, (i * 7919 // 3) % 3 - 1, i % 2 * 2 - 1,
            (i * i) % 3 - 1, np.where(i == n - 1, -1, 1)][k].astype(np.int8)


def write_scores(path, s):
    import h5py
    import numpy as np
    with h5py.File(path, 'w') as f:
        f.create_dataset('scores', data=np.reshape(s, (-1, 1)),
                         dtype=np.int8)


def text(v):
    if isinstance(v, bytes):
        return v.decode('utf8')
    return str(v)


def check(path, blocks, scores):
    """the result file against the definition"""
    from fractions import Fraction
    groups = {}
    for b in blocks:
        cols = [[text(v) for v in b.regs[n]] for n in b.regnames]
        for k, s in enumerate(scores[b.start:b.stop]):
            key = (b.by,) + tuple((n, c[k])
                                  for n, c in zip(b.regnames, cols))
            g = groups.setdefault(key, [0, 0])
            g[0] += int(s)
            g[1] += 1
    with open(path, encoding='utf8') as f:
        lines = f.read().split('\n')
    require(lines[-1] == '', 'the last line is not complete')
    head = lines[0].split('\t')
    require(head[-3:] == ['by', 'score', 'n'], 'columns {}', head)
    require(sorted(head[:-3]) == sorted(blocks[0].regnames), 'columns {} for '
            'regressors {}', head, blocks[0].regnames)
    seen = {}
    for line in lines[1:-1]:
        v = line.split('\t')
        require(len(v) == len(head), 'line {!r} has {} fields', line, len(v))
        d = dict(zip(head, v))
        key = (d['by'],) + tuple((n, d[n]) for n in blocks[0].regnames)
        require(key in groups, 'a line for {} which has no triplet', key)
        require(key not in seen, 'two lines for {}', key)
        total, n = groups[key]
        require(d['n'] == str(n), '{} triplets instead of {} for {}', d['n'],
                n, key)
        want = (Fraction(total, n) + 1) / 2
        require(abs(float(d['score']) - float(want)) < 1e-9,
                'score {} instead of {} for {}', d['score'], float(want),
                key)
        seen[key] = n
    missing = [k for k in groups if k not in seen]
    require(not missing, 'no line for {}', missing[:3])


def run(c, ctx):
    from ABXpy.analyze import analyze
    r, aux = c.get('r', []), None
    if 'small' in c:
        columns, across, by, lines = SMALL[c['small']]
        rows = abx.table([s.split() for s in lines], columns)
    elif 'levels' in c:
        rows, columns, r = c06.leveled(c)
        across, by = ['ac'], []
    elif 'pow2' in c:
        rows, columns, r = c06.pow2(c, c['ext'])
        across, by = ['ac'], []
    elif 'many' in c:
        rows, columns = tables.many(c['many'], c['size'])
        across, by = ['ac'], ['by']
    elif 'cell' in c:
        nA, nB, nX = c['cell']
        rows = ([{'on': 'p', 'ac': 's'}] * nA + [{'on': 'q', 'ac': 's'}] * nB +
                [{'on': 'p', 'ac': 't'}] * nX)
        columns, across, by = ['on', 'ac'], ['ac'], []
    elif 'bylabels' in c:
        rows = [{'on': o, 'ac': a, 'by': b} for b in c['bylabels']
                for o in 'pq' for a in 'st']
        columns, across, by = ['on', 'ac', 'by'], ['ac'], ['by']
    elif 'spec' in c:
        rows, columns = c04.design(c['d']), c04.COLS
        across, by = c04.SPECS[c['spec']]
        aux = c04.AUX
    else:
        rows, columns, across, by = tables.rows_of(c)
    on = c04.ON.get(c.get('spec'), 'on')
    task, out = abx.generate(ctx, rows, columns, on, across, by, None, r,
                             aux=aux)
    blocks = abx.read_task(out, pairs=False)
    n = sum(len(b.triplets) for b in blocks)
    d = ctx.sub()
    if 'small' in c:
        todo = [(c['first'],) + x
                for x in itertools.product((-1, 0, 1), repeat=n - 1)]
    else:
        todo = [pattern(c['pattern'], n)]
    product = 1
    if 'levels' in c:
        for name in blocks[0].regnames:
            product *= len(set(row[name.split('_')[0]] for row in rows))
    for s in todo:
        res, sc = os.path.join(d, 'x.csv'), os.path.join(d, 'x.score')
        write_scores(sc, s)
        try:
            analyze(out, sc, res)
        except AssertionError:
            # the documented limit: the combinations need more than 64 bits
            if product >= 2 ** 63:
                ctx.count('refused')
                return
            raise
        ctx.step()
        check(res, blocks, s)
        with open(res) as f:
            ctx.state(f.read())
        os.remove(res)
    ctx.count('result_files', len(todo))
