"""C03: the pairs of a task file are exactly those of its triplets"""
import os

from lib import abx, tables, filters as F
from lib.core import require
from lib.smallbuf import small_buffers
from checks import c04

ID = 'C03'
BOUNDS = {
    'quick': 'all tables up to 4 rows of 3 shapes and all the full designs '
             'with default buffers; designs with read, write and sort '
             'buffers of 1 to 7 rows, filters and thresholds; blocks at the '
             'limits of the key types and beyond the default buffers; blocks '
             'of 256, 300 and 65537 items reduced by filters; 60 by blocks',
    'thorough': 'as quick with tables up to 6 rows, buffers of 1 to 16 rows '
                'in all combinations',
}


def cases(tier):
    deep = tier == 'thorough'
    out = []
    k = 0
    for c in tables.family(deep, full_types=[None, 'int', 'mixed']):
        # tables without triplet have no pairs
        rows, columns, across, by = tables.rows_of(c)
        if not abx.triplets(rows, 'on', across, by):
            continue
        k += 1
        c = dict(c)
        # half of the small tables with small buffers
        if k % 2:
            c['buf'] = [1 + k % 3, 1 + (k // 3) % 4, 1 + (k // 2) % 5]
        out.append(c)
    sizes = range(1, 8) if not deep else range(1, 13)
    for r in sizes:
        for w in (1, 2, 3, 5) if not deep else (1, 2, 3, 4, 5, 7, 11, 16):
            for s in (2, 4, 7, 1000) if not deep else (1, 2, 3, 4, 5, 7, 9,
                                                       13, 1000):
                for shape in ('on-ac', 'on-ac-by'):
                    out.append({'shape': shape, 'labels': tables.FULL[shape],
                                'perm': r * 1000 + w, 'buf': [r, w, s]})
    for t in (1, 2, 3):
        for f in ("[v != 'p' for v in on_B]", "[v == 's' for v in ac_X]",
                  "[v != w for v, w in zip(on_B, ac_X)]", "[v != 's' for v in ac]"):
            for buf in (None, [2, 2, 3]):
                out.append({'shape': 'on-ac', 'labels': tables.FULL['on-ac'],
                            'perm': t, 'threshold': t, 'filter': f,
                            'buf': buf})
    # key types: blocks of n items, the last ones in the triplets
    for n in (15, 16, 17, 127, 128, 129, 255, 256, 257, 300):
        out.append({'big': n, 'mode': 'few'})
    if deep:
        for n in (4096, 32768, 65535, 65536, 65537, 66000):
            out.append({'big': n, 'mode': 'few'})
    # many items, few of which are left by filters
    for n in (256, 257, 300, 65537) + ((65535, 65536, 70000) if deep
                                       else ()):
        for k, where in enumerate(('first', 'last', 'ends', 'spread')):
            for j in (0, 1, 2, 4, 5, 7, 8):
                if deep or ((j + k + n) % 2 and (n < 400 or j in (0, 5))):
                    out.append({'large': n, 'where': where, 'f': j,
                                'buf': None if n > 300 or (j + k) % 3 else
                                [3, 2, 5]})
    out.append({'many': 290 if deep else 60, 'size': 1, 'heavy': 1})
    for n, size in ((20, 1), (30, 12)) + (((290, 1),) if deep else ()):
        out.append({'many': n, 'size': size, 'buf': [7, 5, 300]})
    # beyond the default buffers
    out.append({'big': 60, 'mode': 'all'})
    out.append({'big': 75, 'mode': 'all'})
    out.append({'big': 110, 'mode': 'two'})
    if deep:
        out.append({'big': 150, 'mode': 'all'})
        out.append({'big': 200, 'mode': 'two'})
    return out


def run(c, ctx):
    kw = {}
    filters = [c['filter']] if c.get('filter') else None
    if 'big' in c:
        n = c['big']
        if c['mode'] == 'few':
            rows = [{'on': 'o%d' % i, 'ac': 'a%d' % i}
                    for i in range(n - 6)]
            rows[3:3] = [{'on': 'p', 'ac': 's'}, {'on': 'q', 'ac': 's'}]
            rows += [{'on': 'p', 'ac': 't'}, {'on': 'q', 'ac': 's'},
                     {'on': 'p', 'ac': 't'}, {'on': 'q', 'ac': 't'}]
            columns, across, by = ['on', 'ac'], ['ac'], []
        else:
            rows = [{'on': 'opq'[i % 3], 'ac': 'st'[(i // 3) % 2],
                     'by': 'uv'[(i // 6) % 2] if c['mode'] == 'two' else 'u'}
                    for i in range(n)]
            columns, across, by = ['on', 'ac', 'by'], ['ac'], ['by']
    elif 'many' in c:
        rows, columns = tables.many(c['many'], c['size'])
        across, by = ['ac'], ['by']
    elif 'large' in c:
        rows, columns = tables.large(c['large'], c['where'],
                                     's' if c['large'] < 1000 else 'f')
        across, by = ['ac'], []
        filters = [F.text(f) for f in c04.LARGE[c['f']]]
    else:
        rows, columns, across, by = tables.rows_of(c)
    if c.get('threshold'):
        kw = {'threshold': c['threshold'], 'seed': 3}
    if c.get('buf'):
        r, w, s = c['buf']
        with small_buffers(r, w, s):
            task, out = abx.generate(ctx, rows, columns, 'on', across, by,
                                     filters, **kw)
    else:
        task, out = abx.generate(ctx, rows, columns, 'on', across, by,
                                 filters, **kw)
    require(os.path.exists(out), 'no task file')
    check_pairs(out, ctx)


def check_pairs(out, ctx):
    import numpy as np
    blocks = abx.read_task(out, regressors=False)
    for b in blocks:
        # the codes in the file are sorted and unique
        require((np.diff(b.keys) > 0).all(),
                'the pairs of by block {} are not sorted and unique', b.by)
        t = np.array(b.triplets)
        n = int(max(t.max(), max(max(p) for p in b.pairs))) + 1
        want = np.unique(np.concatenate(
            [t[:, 0] * n + t[:, 2], t[:, 1] * n + t[:, 2]]))
        p = np.array(b.pairs)
        got = np.unique(p[:, 0] * n + p[:, 1])
        require(len(got) == len(b.pairs), 'duplicated pairs')
        require(got.shape == want.shape and (got == want).all(),
                'by block {}: {} pairs, {} of them needed, {} missing',
                b.by, len(got), len(np.intersect1d(got, want)),
                len(np.setdiff1d(want, got)))
        ctx.state(b.by, [int(x) for x in got[:5000]])
