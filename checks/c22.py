"""C22: the whole pipeline gives the ABX scores of the definition"""
import itertools
import math
import os
from fractions import Fraction

from lib import abx, tables
from lib.core import require
from checks import c11

ID = 'C22'
NEEDS_DTW = True
BOUNDS = {
    'quick': 'all the assignments of 3 feature values to the items of 5 '
             'tables of 4 to 6 items; all the permutations of the rows of '
             'two tables of 5 items; all the orders of the labels of 3 '
             'tables of 7 or 8 items with up to 4 repeats (a quarter of '
             'those of a fourth one); full designs of 11 shapes and 8 label '
             'types with 4 patterns of features, 3 distances (a symmetric '
             'and an asymmetric exact one, the default one with and without '
             'normalization), 1 to 3 processes',
    'thorough': 'as quick with 4 values, all the permutations of 6 rows, '
                'one row deletions of the designs and 1 to 5 processes',
}
ASSUMPTIONS = [
    'triplets whose two distances are equal in exact arithmetic without '
    'having the same frames may get any score (rounding)']

TABLES = {
    'ac': (['on', 'ac'], ['ac'], [],
           ['p s', 'q s', 'p t', 'q t', 'p s']),
    'ac3': (['on', 'ac'], ['ac'], [],
            ['p s', 'r s', 'p t', 'p w', 'q s']),
    'no': (['on'], [], [], ['p', 'q', 'p', 'r']),
    'by': (['on', 'by'], [], ['by'],
           ['p u', 'p v', 'q u', 'q v', 'p u', 'p v']),
    'ac2': (['on', 'ac', 'bc'], ['ac', 'bc'], [],
            ['p s m', 'q s m', 'p t n', 'p t m', 'p w n']),
}

# tables whose rows are in all the orders of their labels
REPEATED = {
    'ac': (['on', 'ac'], ['ac'], [],
           ['p s'] * 3 + ['q s'] * 3 + ['p t'] * 2),
    'no': (['on'], [], [], ['p'] * 4 + ['q'] * 3),
    'by': (['on', 'by'], [], ['by'],
           ['p u'] * 3 + ['q u'] * 2 + ['p v', 'q v', 'q v']),
    'ac2': (['on', 'ac', 'bc'], ['ac', 'bc'], [],
            ['p s m'] * 3 + ['q s m'] * 2 + ['p t n'] * 2),
}


def arrangements(lines):
    """all the different orders of a list"""
    left = {}
    for x in lines:
        left[x] = left.get(x, 0) + 1

    def go(k):
        if not k:
            yield []
            return
        for x in sorted(left):
            if left[x]:
                left[x] -= 1
                for rest in go(k - 1):
                    yield [x] + rest
                left[x] += 1
    return go(len(lines))


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for name, spec in TABLES.items():
        n = len(spec[3])
        values = 4 if deep and n < 6 else 3
        for head in itertools.product(range(values), repeat=2):
            out.append({'table': name, 'head': list(head), 'values': values,
                        'dist': 'sum' if sum(head) % 2 else 'order'})
    for name in ('ac', 'ac2'):
        n = len(TABLES[name][3])
        for k in range(0, math.factorial(n), 12):
            out.append({'table': name, 'perms': [k, k + 12],
                        'dist': 'default' if k % 24 else 'order'})
    for name, parts in (('ac', 28), ('no', 2), ('by', 64), ('ac2', 10)):
        for part in range(parts):
            if deep or name != 'by' or part % 4 == 0:
                out.append({'orders': name, 'part': part, 'parts': parts,
                            'dist': 'order'})
    if deep:
        for k in range(0, 720, 12):
            out.append({'table': 'by', 'perms': [k, k + 12], 'dist': 'sum'})
    k = 0
    for c in tables.designs(deletions=deep):
        for dist in ('sum', 'order', 'default', 'default-norm'):
            k += 1
            out.append(dict(c, dist=dist, pattern=k % 5 if dist[0] != 'd'
                            else k % 3, ncpu=1 + (k // 4) % (5 if deep else 3)
                            if k % 3 == 0 else 1))
    return out


# --------------------------------------------------------------- distances
def total(x):
    return sum(int(v) for f in x for v in f)


def sum_distance(x, y, *args, **kw):
    """difference of the sums of the frames (exact)"""
    return float(abs(int(x.sum()) - int(y.sum())))


def order_distance(x, y, *args, **kw):
    """asymmetric (exact)"""
    a, b = int(x.sum()), int(y.sum())
    return float(2 * (b - a) if b > a else a - b)


def angle(p, q):
    a = abs(math.atan2(p[1], p[0]) - math.atan2(q[1], q[0]))
    return min(a, 2 * math.pi - a) / math.pi


def reference(name, x, y):
    """the distance of two lists of frames"""
    if name == 'sum':
        return abs(total(x) - total(y))
    if name == 'order':
        a, b = total(x), total(y)
        return 2 * (b - a) if b > a else a - b
    m = [[0. if tuple(p) == tuple(q) else angle(p, q) for q in y] for p in x]
    cost = c11.best(m)
    last = (len(x) - 1, len(y) - 1)
    if name == 'default':
        return cost[last]
    # number of steps of the path which goes back along the best
    # predecessors, the diagonal first
    i, j = last
    n = 1
    tie = False
    while i or j:
        prev = [(cost[p], p) for p in ((i - 1, j - 1), (i - 1, j), (i, j - 1))
                if p in cost]
        low = min(v for v, _ in prev)
        near = [p for v, p in prev if v - low < 1e-6]
        if len(near) > 1 and len({v for v, p in prev
                                  if v - low < 1e-6}) > 1:
            tie = True
        i, j = near[0]
        n += 1
    return (cost[last] / n) if not tie else None


# --------------------------------------------------------------------- run
def frames(v, name, k=0):
    """frames of an item for the value v"""
    if name in ('sum', 'order'):
        # several frames, their sum identifies v
        return [[v, 0]] + [[3 + j, -3 - j] for j in range((v + k) % 3)]
    a = [0.1, 1.3, 2.9, 0.55, 2.1, 1.75, 0.85, 2.45, 1.05, 1.62][v % 10]
    a += 0.0137 * (v // 10)
    n = 1 + (v % 3)
    return [[math.cos(a + 0.217 * j * j), math.sin(a + 0.217 * j * j)]
            for j in range(n)]


def features(d, items, name):
    """write the features of the items; item i is in file f{i % 3}"""
    import numpy as np
    times, feats = [[], [], []], [[], [], []]
    for i, fr in enumerate(items):
        for j, f in enumerate(fr):
            times[i % 3].append(i + 0.1 * j)
            feats[i % 3].append(f)
        # a frame which belongs to no item
        times[i % 3].append(i + 0.75)
        feats[i % 3].append([100, 100])
    names = [n for n in range(3) if times[n]]
    path = os.path.join(d, 'f.features')
    if os.path.exists(path):
        os.remove(path)
    abx.write_features(path, [np.array(times[n]) for n in names],
                       [np.array(feats[n], dtype=float) for n in names],
                       ['f%d' % n for n in names])
    return path


def expected(rows, across, by, items, name):
    """{key: (lowest total, highest total, n)} in half points"""
    memo = {}

    def dist(i, j):
        if (i, j) not in memo:
            memo[i, j] = reference(name, items[i], items[j])
        return memo[i, j]
    out = {}
    for block, ts in abx.triplets(rows, 'on', across, by).items():
        for a, b, x in ts:
            key = [('by', abx.by_label(block)),
                   ('on_1', str(rows[a]['on'])), ('on_2', str(rows[b]['on']))]
            for c in across:
                key += [(c + '_1', str(rows[a][c])),
                        (c + '_2', str(rows[x][c]))]
            g = out.setdefault(tuple(sorted(key)), [0, 0, 0])
            if items[a] == items[b]:
                s = (1, 1)
            else:
                ax, bx = dist(a, x), dist(b, x)
                if ax is None or bx is None or (
                        isinstance(ax, float) and abs(ax - bx) < 1e-6):
                    s = (0, 2)
                else:
                    s = {True: (2, 2), False: (0, 0)}[ax < bx] \
                        if ax != bx else (1, 1)
            g[0] += s[0]
            g[1] += s[1]
            g[2] += 1
    return out


def pipeline(task, feat, d, name, ncpu, ctx):
    from ABXpy.distances import distances
    from ABXpy.distance import default_distance
    from ABXpy.score import score
    from ABXpy.analyze import analyze
    fun, norm = {'sum': (sum_distance, None), 'order': (order_distance, None),
                 'default': (default_distance, 0),
                 'default-norm': (default_distance, 1)}[name]
    dis, sco, res = [os.path.join(d, 'x' + e)
                     for e in ('.distance', '.score', '.csv')]
    for p in (dis, sco, res):
        if os.path.exists(p):
            os.remove(p)
    distances.compute_distances(feat, 'features', task, dis, fun, norm,
                                n_cpu=ncpu)
    score(task, dis, sco)
    analyze(task, sco, res)
    ctx.step(3)
    return res


def check(path, want, ctx, what=''):
    with open(path, encoding='utf8') as f:
        lines = f.read().split('\n')
    head = lines[0].split('\t')
    got = {}
    for line in lines[1:]:
        if not line:
            continue
        v = line.split('\t')
        require(len(v) == len(head), 'line {!r}', line)
        d = dict(zip(head, v))
        s, n = float(d.pop('score')), int(d.pop('n'))
        key = tuple(sorted(d.items()))
        require(key not in got, 'two lines for {}', key)
        got[key] = (s, n)
    for key, (lo, hi, n) in want.items():
        require(key in got, '{} no line for {} (columns {})', what, key, head)
        require(got[key][1] == n, '{} {} triplets instead of {} for {}', what,
                got[key][1], n, key)
        s = got[key][0]
        a, b = Fraction(lo, 2 * n), Fraction(hi, 2 * n)
        require(float(a) - 1e-9 <= s <= float(b) + 1e-9,
                '{} score {} instead of {} for {}', what, s, float(a), key)
    extra = set(got) - set(want)
    require(not extra, '{} lines without triplets: {}', what,
            sorted(extra)[:3])
    ctx.state(sorted(got.items()))


def orders(c, ctx):
    columns, across, by, lines = REPEATED[c['orders']]
    d = ctx.sub()
    for k, order in enumerate(arrangements(lines)):
        if k % c['parts'] != c['part']:
            continue
        rows = abx.table([s.split() for s in order], columns)
        items = [frames([0, 1, 2, 1, 3, 4, 2, 0][i], c['dist'], i)
                 for i in range(len(rows))]
        feat = features(d, items, c['dist'])
        want = expected(rows, across, by, items, c['dist'])
        _, out = abx.generate(ctx, rows, columns, 'on', across, by)
        check(pipeline(out, feat, d, c['dist'], 1, ctx), want, ctx,
              'rows %s:' % order)
        ctx.count('pipelines', 1)


def run(c, ctx):
    name = c['dist']
    if 'orders' in c:
        return orders(c, ctx)
    if 'table' in c:
        columns, across, by, lines = TABLES[c['table']]
        rows = abx.table([s.split() for s in lines], columns)
    else:
        rows, columns, across, by = tables.rows_of(c)
    n = len(rows)
    d = ctx.sub()
    if 'perms' in c:
        items = [frames([0, 1, 2, 1, 3, 4][i], name, i) for i in range(n)]
        feat = features(d, items, name)
        want = expected(rows, across, by, items, name)
        for k in range(*c['perms']):
            order = abx.permuted(range(n), k)
            _, out = abx.generate(
                ctx, [rows[i] for i in order], columns, 'on', across, by,
                files=[abx.location(i) for i in order])
            check(pipeline(out, feat, d, name, 1, ctx), want, ctx,
                  'rows in the order %s:' % order)
        return
    _, out = abx.generate(ctx, rows, columns, 'on', across, by)
    if not abx.triplets(rows, 'on', across, by):
        require(not os.path.exists(out), 'a task without triplet is written')
        return
    if 'head' in c:
        todo = [tuple(c['head']) + t for t in itertools.product(
            range(c['values']), repeat=n - 2)]
    else:
        p = c['pattern']
        first = {}
        todo = [[(i * 7 + 3) % 30 if p == 0 else
                 (i * i) % 4 if p == 1 else
                 (i % 2) if p == 2 else
                 first.setdefault(r['on'], len(first)) if p == 3 else
                 first.setdefault(tuple(r[a] for a in across + by),
                                  len(first))
                 for i, r in enumerate(rows)]]
    for t in todo:
        items = [frames(v, name, i) for i, v in enumerate(t)]
        feat = features(d, items, name)
        want = expected(rows, across, by, items, name)
        check(pipeline(out, feat, d, name, c.get('ncpu', 1), ctx), want, ctx,
              'features %s:' % (list(t),))
    ctx.count('pipelines', len(todo))
