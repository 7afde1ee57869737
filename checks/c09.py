"""C09: the score of each triplet compares its own two distances"""
import itertools
import os

from lib import abx, tables, filters as F
from lib.core import require
from lib.smallbuf import small_buffers
from checks import c04

ID = 'C09'
BOUNDS = {
    'quick': 'all the assignments of distances to the pairs of 6 small '
             'tables (2 to 6 pairs, 3 to 11 values: equal, infinite, '
             'neighbouring floats, negative, denormal); all the full designs '
             'with 7 patterns of distances and read buffers of 1 to 7 rows; '
             'blocks of 15 to 300 items (limits of the key types), also '
             'reduced by filters; 65537 items; 60 by blocks; more '
             'triplets than a read buffer',
    'thorough': 'as quick with more values, deletions of the designs, blocks '
                'up to 66000 items and 500000 triplets',
}
ASSUMPTIONS = ['distances are not NaN']

VALUES = ['0.0', '1.0', 'inf', '-1.0', 'next1', '-0.0', 'prev1', 'tiny',
          '-inf', 'huge', 'max']

SMALL = {
    'ax': (['on', 'ac'], ['ac'], [], ['p s', 'q s', 'p t'], 11),
    'two-b': (['on', 'ac'], ['ac'], [], ['p s', 'q s', 'q s', 'p t'], 7),
    'sym': (['on'], [], [], ['p', 'q', 'p'], 6),
    'two-x': (['on', 'ac'], ['ac'], [], ['p t', 'q s', 'p t', 'p s'], 5),
    'by': (['on', 'ac', 'by'], ['ac'], ['by'],
           ['p s u', 'q s v', 'p t u', 'q s u', 'p s v', 'p t v'], 4),
    'six': (['on', 'ac'], ['ac'], [],
            ['q s', 'p s', 'p t', 'p t', 'q s'], 3),
}


def value(name):
    import numpy as np
    special = {'next1': float(np.nextafter(1, 2)),
               'prev1': float(np.nextafter(1, 0)), 'tiny': 5e-324,
               'huge': 1.7e308,
               'max': float(np.finfo(float).max)}
    return special[name] if name in special else float(name)


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for name, spec in SMALL.items():
        n = spec[4] + (1 if deep and name != 'ax' else 0)
        for v in VALUES[:n]:
            out.append({'small': name, 'n': n, 'first': v})
    for c in tables.designs([None, 'int', 'unicode'], deep):
        for k in range(7):
            if deep or k in (0, 3) or (k + len(out)) % 3 == 0:
                out.append(dict(c, pattern=k,
                                rows=None if k % 2 else 1 + k))
    for r in range(1, 8):
        for s in ('on-ac', 'on-ac-by', 'on-ac-by2'):
            out.append({'shape': s, 'labels': tables.FULL[s], 'perm': 5 * r,
                        'pattern': r % 7, 'rows': r})
    for n in (15, 16, 17, 255, 256, 257, 300) + (
            (65535, 65536, 65537, 66000) if deep else ()):
        for k in (1, 2):
            out.append({'big': n, 'pattern': k})
    for n, size, k in ((290 if deep else 60, 1, 1), (40, 14, 1), (40, 14, 2), (17, 2, 3)):
        out.append({'blocks': n, 'size': size, 'pattern': k,
                    'heavy': n > 50})
    for n in (256, 257, 300, 65537) + ((65535, 65536, 70000) if deep
                                       else ()):
        for k, where in enumerate(('first', 'last', 'ends', 'spread')):
            for j in (0, 1, 2, 4, 5, 7, 8):
                if deep or ((j + k + n) % 2 and (n < 400 or j in (0, 5))):
                    out.append({'large': n, 'where': where, 'f': j,
                                'pattern': 1 + j % 2})
    for n in (60, 75) + ((150, 170) if deep else ()):
        out.append({'many': n, 'pattern': 2})
        out.append({'many': n, 'pattern': 5, 'two': 1})
    return out


def pattern(k, n):
    import numpy as np
    i = np.arange(n)
    if k == 0:
        return np.zeros(n)
    if k == 1:
        return i.astype(float)
    if k == 2:
        return (i * 7919 % 101).astype(float)
    if k == 3:
        return (i % 3).astype(float) - 1
    if k == 4:
        return np.where(i % 4 == 0, np.inf, (i * 31 % 17).astype(float))
    if k == 5:
        return 1 + (i * 13 % 7) * np.finfo(float).eps
    return -(i * i % 23).astype(float)


def write_distances(path, d):
    import h5py
    import numpy as np
    with h5py.File(path, 'w') as f:
        f.attrs['done'] = True
        g = f.create_group('distances')
        g.create_dataset('data', data=np.reshape(d, (-1, 1)))


def check(blocks, d, got):
    """scores against the definition"""
    import numpy as np
    n = sum(len(b.triplets) for b in blocks)
    require(got.shape == (n, 1), 'scores of shape {} for {} triplets',
            got.shape, n)
    for b in blocks:
        where = {}
        for k, p in enumerate(b.pairs):
            where[p] = b.pstart + k
        ax = np.array([d[where[(t[0], t[2])]] for t in b.triplets])
        bx = np.array([d[where[(t[1], t[2])]] for t in b.triplets])
        want = np.where(ax < bx, 1, np.where(ax > bx, -1, 0))
        mine = got[b.start:b.stop, 0]
        if not (mine == want).all():
            i = int(np.nonzero(mine != want)[0][0])
            require(False, 'triplet {} of by block {}: score {} for '
                    'distances {!r} (A, X) and {!r} (B, X)', i, b.by,
                    int(mine[i]), float(ax[i]), float(bx[i]))


def run(c, ctx):
    import h5py
    import numpy as np
    from ABXpy.score import score
    filters = None
    if 'small' in c:
        columns, across, by, lines, _ = SMALL[c['small']]
        rows = abx.table([s.split() for s in lines], columns)
    elif 'big' in c:
        n = c['big']
        rows = [{'on': 'o%d' % i, 'ac': 'a%d' % i} for i in range(n - 6)]
        rows[3:3] = [{'on': 'p', 'ac': 's'}, {'on': 'q', 'ac': 's'}]
        rows += [{'on': 'p', 'ac': 't'}, {'on': 'q', 'ac': 's'},
                 {'on': 'p', 'ac': 't'}, {'on': 'q', 'ac': 't'}]
        columns, across, by = ['on', 'ac'], ['ac'], []
    elif 'blocks' in c:
        rows, columns = tables.many(c['blocks'], c['size'])
        across, by = ['ac'], ['by']
    elif 'large' in c:
        rows, columns = tables.large(c['large'], c['where'],
                                     's' if c['large'] < 1000 else 'f')
        across, by = ['ac'], []
        filters = [F.text(f) for f in c04.LARGE[c['f']]]
    elif 'many' in c:
        rows = [{'on': 'opq'[i % 3], 'ac': 'st'[(i // 3) % 2],
                 'by': 'uv'[(i // 6) % 2] if c.get('two') else 'u'}
                for i in range(c['many'])]
        columns, across, by = ['on', 'ac', 'by'], ['ac'], ['by']
    else:
        rows, columns, across, by = tables.rows_of(c)
    if not abx.triplets(rows, 'on', across, by):
        return
    task, out = abx.generate(ctx, rows, columns, 'on', across, by, filters)
    blocks = abx.read_task(out, regressors=False)
    n_pairs = sum(len(b.pairs) for b in blocks)
    d = ctx.sub()
    if 'small' in c:
        names = VALUES[:c['n']]
        rest = itertools.product(names, repeat=n_pairs - 1)
        todo = [[value(c['first'])] + [value(v) for v in r] for r in rest]
    else:
        todo = [pattern(c['pattern'], n_pairs)]
    for k, values in enumerate(todo):
        values = np.array(values)
        dist = os.path.join(d, 'x.distance')
        out2 = os.path.join(d, 'x.score')
        write_distances(dist, values)
        if c.get('rows'):
            with small_buffers(read_rows=c['rows']):
                score(out, dist, out2)
        else:
            score(out, dist, out2)
        ctx.step()
        with h5py.File(out2, 'r') as f:
            got = f['scores'][...]
        check(blocks, values, got)
        ctx.state(got[:1000, 0].tolist())
        os.remove(out2)
    ctx.count('score_files', len(todo))
