"""C01: a task file holds exactly the triplets of the ABX definition"""
import os
import warnings

from lib import abx, tables
from lib.core import require

ID = 'C01'
BOUNDS = {
    'quick': 'all item tables with up to 4 rows over on{2}xacross{2}xby{2} '
             '(5 rows without by), 2 across, 3 valued labels; full designs '
             'and their one row deletions in 11 task shapes and 8 label '
             'types (among which: paths, reserved names); row permutations; sizes at integer type limits (up to 65600 items in a block, 65792 '
             'triplets in a cell), up to 290 by blocks',
    'thorough': 'as quick with up to 6 rows (7 without by), all multisets of '
                'the 4 column shapes up to 4 rows, sizes up to 10^6 triplets',
}
ASSUMPTIONS = ['labels do not contain white space and are not strings pandas '
               'reads as missing values']


def cases(tier):
    deep = tier == 'thorough'
    out = tables.family(deep)
    # every row order of small tables
    for base in ([['p', 's'], ['p', 't'], ['q', 's']],
                 [['p', 's'], ['p', 't'], ['q', 's'], ['q', 't']]):
        n = 1
        for i in range(2, len(base) + 1):
            n *= i
        for p in range(n):
            out.append({'shape': 'on-ac', 'labels': base, 'perm': p})
    # sizes around the limits of the integer types and of the buffers
    sizes = [(1, 63, 2), (1, 64, 2), (1, 125, 2), (1, 126, 2), (1, 127, 1),
             (2, 126, 1), (1, 253, 1), (1, 254, 1), (1, 255, 1), (2, 254, 1),
             (2, 255, 1), (100, 200, 1), (3, 100, 100), (3, 105, 105),
             (4, 128, 128), (4, 129, 128), (1, 700, 100)]
    if deep:
        sizes += [(1, 32766, 1), (1, 32767, 1), (1, 65533, 1), (1, 65534, 1),
                  (1, 65535, 1), (10, 200, 200), (1, 1000, 1000)]
    for s in sizes:
        out.append({'shape': 'sizes', 'sizes': list(s)})
    for n, size in ((11, 1), (60, 1), (290, 1), (60, 14)) + (
            ((1000, 1), (290, 12)) if deep else ()):
        out.append({'shape': 'many', 'n': n, 'size': size,
                    'heavy': n > 99})
    for n in (255, 256, 257, 300, 65535, 65536, 65537, 65600):
        for k, where in enumerate(('first', 'last', 'ends', 'spread')):
            out.append({'shape': 'large', 'n': n, 'where': where,
                        'fill': 'sf'[n > 300 or k % 2], 'by': 1 + k % 2})
    return out


def run(c, ctx):
    if c['shape'] == 'sizes':
        return run_sizes(c, ctx)
    if c['shape'] == 'many':
        return run_many(c, ctx)
    if c['shape'] == 'large':
        return run_large(c, ctx)
    rows, columns, across, by = tables.rows_of(c)
    check(ctx, rows, columns, 'on', across, by)


def check(ctx, rows, columns, on, across, by):
    expected = abx.triplets(rows, on, across, by)
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        task, out = abx.generate(ctx, rows, columns, on, across, by)
    if not expected:
        require(not os.path.exists(out),
                'a task file was written for a task without triplets')
        require(any(issubclass(x.category, UserWarning) for x in w),
                'no warning for a task without triplets')
        ctx.state('empty')
        return
    require(os.path.exists(out), 'no task file for a task with triplets')
    blocks = abx.read_task(out, regressors=False, pairs=False)
    abx.compare_triplets(blocks, expected)
    ctx.state(sorted((abx.by_label(k), v) for k, v in expected.items()))


def run_sizes(c, ctx):
    na, nb, nx = c['sizes']
    # all the A in one on/across cell, all the B and all the X in another
    rows = ([{'on': 'p', 'ac': 's'}] * na + [{'on': 'q', 'ac': 's'}] * nb +
            [{'on': 'p', 'ac': 't'}] * nx)
    import numpy as np
    task, out = abx.generate(ctx, rows, ['on', 'ac'], 'on', ['ac'], [])
    blocks = abx.read_task(out, regressors=False, pairs=False)
    require(len(blocks) == 1, '{} by blocks instead of 1', len(blocks))
    t = np.array(blocks[0].triplets)
    # A in s, B in s, X in t (the other cells give no triplet)
    require(t.shape[0] == na * nb * nx, '{} triplets instead of {}',
            t.shape[0], na * nb * nx)
    a, b, x = t[:, 0], t[:, 1] - na, t[:, 2] - na - nb
    require(((a >= 0) & (a < na) & (b >= 0) & (b < nb) & (x >= 0) &
             (x < nx)).all(), 'a triplet is not one of the task')
    code = (a * nb + b) * nx + x
    require(len(np.unique(code)) == na * nb * nx, 'duplicated triplets')
    ctx.state('sizes', na, nb, nx)


def run_many(c, ctx):
    """many by blocks, all different, some without triplets"""
    rows, columns = tables.many(c['n'], c.get('size', 1))
    check(ctx, rows, columns, 'on', ['ac'], ['by'])


def run_large(c, ctx):
    rows, columns = tables.large(c['n'], c['where'], c['fill'], c['by'])
    check(ctx, rows, columns, 'on', ['ac'], ['by'])
