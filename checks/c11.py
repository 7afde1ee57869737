"""C11: dynamic time warping returns the cost of the best alignment

The compiled extension, rebuilt from the working tree, is called on every
matrix of frame distances of a family and compared with the minimum over all
the alignments, enumerated explicitly (no dynamic programming in the oracle
for the small matrices).
"""
import functools
import itertools

import numpy as np

from lib.core import require

ID = 'C11'
NEEDS_DTW = True
BOUNDS = {
    'quick': 'all matrices of frame distances up to 3x3 over {0,1,2}, up to '
             '4x4 over {0,1}, up to 2x4 and 4x2 over {0,1,2,3}, up to 2x3 '
             'over {0,1,inf}, {-1,0,2} and {1,1+2^-30,2}, 3x3 over {0,1,1+2^-30}, all the '
             'alignments enumerated; one unit cost off every alignment up '
             'to 5x5; structured matrices of all sizes up to 12x12 and up '
             'to 300 frames; row, column, strided and transposed layouts; '
             'both normalizations; empty sequences',
    'thorough': 'as quick with all 3x4 and 4x3 matrices over {0,1,2}, 3x3 '
                'over {0,1,2,3} and {0,1,inf}, 4x4 over {0,1} with all '
                'layouts, all sizes up to 40x40',
}
INF = float('inf')
ALPHABETS = {
    'bin': [0., 1.], 'tri': [0., 1., 2.], 'quad': [0., 1., 2., 3.],
    'inf': [0., 1., INF], 'neg': [-1., 0., 2.],
    'fine': [1., 1. + 2. ** -30, 2.], 'fine0': [0., 1., 1. + 2. ** -30],
}


def chunks(n, m, alphabet, parts):
    return [{'n': n, 'm': m, 'alphabet': alphabet, 'part': p,
             'parts': parts} for p in range(parts)]


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for n in (1, 2, 3):
        for m in (1, 2, 3):
            out += chunks(n, m, 'tri', 27 if n + m == 6 else 1)
    for n in range(1, 5):
        for m in range(1, 5):
            if max(n, m) == 4:
                out += chunks(n, m, 'bin', 64 if n * m == 16 else
                              4 if n * m == 12 else 1)
    out += chunks(2, 4, 'quad', 64) + chunks(4, 2, 'quad', 64)
    for a in ('inf', 'neg', 'fine'):
        for n in (1, 2, 3):
            for m in (1, 2, 3):
                if n * m <= 6:
                    out += chunks(n, m, a, 3 if n * m == 6 else 1)
    out += chunks(3, 3, 'fine0', 27)
    if deep:
        out += chunks(3, 4, 'tri', 300) + chunks(4, 3, 'tri', 300)
        out += chunks(3, 3, 'quad', 64) + chunks(3, 3, 'inf', 27)
    for n in range(1, 6):
        for m in range(1, 6):
            out.append({'n': n, 'm': m, 'paths': 1})
    top = 40 if deep else 12
    for n in range(1, top + 1):
        out.append({'n': n, 'sizes': top})
    for n, m in ((1, 300), (300, 1), (300, 2), (100, 101), (257, 256)):
        out.append({'n': n, 'm': m, 'big': 1})
    out.append({'empty': 1})
    return out


@functools.lru_cache(None)
def alignments(n, m):
    """All the alignments of n and m frames, as lists of flat positions"""
    if n == 1 and m == 1:
        return [(0,)]
    out = []

    def extend(i, j, path):
        path = path + (i * m + j,)
        if (i, j) == (n - 1, m - 1):
            out.append(path)
            return
        for di, dj in ((0, 1), (1, 0), (1, 1)):
            if i + di < n and j + dj < m:
                extend(i + di, j + dj, path)
    extend(0, 0, ())
    return out


def best(matrix):
    """Cost of the best alignment from each cell of the matrix to (0, 0)"""
    n, m = len(matrix), len(matrix[0])
    c = {}
    for i in range(n):
        for j in range(m):
            p = [c[q] for q in ((i - 1, j), (i, j - 1), (i - 1, j - 1))
                 if q in c]
            c[i, j] = matrix[i][j] + (min(p) if p else 0.)
    return c


def lengths(c, n, m):
    """The possible numbers of frame pairs of the optimal alignment: from
    the end, the best predecessor, the diagonal one among equals"""
    res = set()
    todo = [(n - 1, m - 1, 1)]
    seen = set()
    while todo:
        s = todo.pop()
        if s in seen:
            continue
        seen.add(s)
        i, j, k = s
        if i == 0 or j == 0:
            res.add(k + i + j)
            continue
        d, u, l = c[i - 1, j - 1], c[i - 1, j], c[i, j - 1]
        if d <= u and d <= l:
            todo.append((i - 1, j - 1, k + 1))
            continue
        if u <= l:
            todo.append((i - 1, j, k + 1))
        if l <= u:
            todo.append((i, j - 1, k + 1))
    return res


def call(matrix, normalized, layout=0):
    """The real distance, through a metric returning the given matrix"""
    from ABXpy.distances.metrics import dtw
    n, m = matrix.shape
    x, y = np.zeros((n, 1)), np.ones((m, 1))
    seen = []

    def metric(a, b):
        seen.append((a is x or np.array_equal(a, x)) and
                    (b is y or np.array_equal(b, y)))
        if layout == 1:
            return np.asfortranarray(matrix)
        if layout == 2:
            big = np.full((2 * n, 3 * m), 77.)
            big[::2, ::3] = matrix
            return big[::2, ::3]
        if layout == 3:
            return matrix[::-1, ::-1].copy()[::-1, ::-1]
        return matrix
    d = dtw.dtw(x, y, metric, normalized)
    require(seen and all(seen), 'the metric is not called on the sequences')
    return float(d)


def same(a, b):
    return a == b or (a != a and b != b)


def check(matrix, expected, c, ctx, layouts=(0,)):
    n, m = matrix.shape
    for layout in layouts:
        d = call(matrix, False, layout)
        ctx.step(2)
        require(d == expected, 'dtw of %s is %r and not %r', matrix.tolist(),
                d, expected)
        d = call(matrix, True, layout)
        if expected == INF:
            require(d == INF, 'normalized dtw of %s is %r', matrix.tolist(),
                    d)
        else:
            ok = [expected / k for k in lengths(c, n, m)]
            require(d in ok, 'normalized dtw of %s is %r and not %s',
                    matrix.tolist(), d, ok)
    ctx.state(n, m, expected)


def run(case, ctx):
    from ABXpy.distances.metrics import dtw
    if 'empty' in case:
        for n, m in ((0, 0), (0, 1), (1, 0), (0, 3), (3, 0)):
            for normalized in (True, False):
                try:
                    d = dtw.dtw(np.zeros((n, 2)), np.zeros((m, 2)),
                                lambda a, b: np.zeros((len(a), len(b))),
                                normalized)
                except ValueError:
                    ctx.step()
                    continue
                require(False, 'dtw of %d and %d frames is %r', n, m, d)
        return
    if 'alphabet' in case:
        n, m = case['n'], case['m']
        alphabet = ALPHABETS[case['alphabet']]
        paths = alignments(n, m)
        deep = ctx.tier == 'thorough'
        for k, values in enumerate(itertools.product(
                alphabet, repeat=n * m)):
            if k % case['parts'] != case['part']:
                continue
            expected = min(sum(values[p] for p in path) for path in paths)
            matrix = np.array(values).reshape(n, m)
            c = best(matrix.tolist())
            require(c[n - 1, m - 1] == expected, 'oracle')
            check(matrix, expected, c, ctx,
                  range(4) if deep or k // case['parts'] % 7 == 0 else (0,))
            d = call(matrix.T, False)
            require(d == expected, 'dtw of the transposition of %s is %r and '
                    'not %r', matrix.tolist(), d, expected)
        return
    if 'paths' in case:
        n, m = case['n'], case['m']
        for path in alignments(n, m):
            for on, off in ((0., 1.), (1., 3.), (0.25, 4.), (1., INF)):
                values = [off] * (n * m)
                for p in path:
                    values[p] = on
                matrix = np.array(values).reshape(n, m)
                c = best(matrix.tolist())
                if on == 0.:
                    require(c[n - 1, m - 1] == 0, 'oracle')
                check(matrix, c[n - 1, m - 1], c, ctx, (0, 1))
        return
    sizes = [case['m']] if 'big' in case else range(1, case['sizes'] + 1)
    n = case['n']
    for m in sizes:
        i, j = np.meshgrid(np.arange(n), np.arange(m), indexing='ij')
        for matrix in ((i * 3 + j * 5) % 7 / 8., (i * j) % 5 / 4.,
                       abs(i * m - j * n) / 16., np.ones((n, m)),
                       ((i + 2 * j) % 3 == 0) * 1. + (j > i) * 2.,
                       (i + j) * 1., (n + m - i - j) * 0.5):
            c = best(matrix.tolist())
            check(matrix, c[n - 1, m - 1], c, ctx, (0, 2))
