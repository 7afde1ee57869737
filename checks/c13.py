"""C13: sequence distances follow their definition, empty sequences included"""
import itertools
from fractions import Fraction

import numpy as np

from lib.core import require
from checks import c11, c12

ID = 'C13'
NEEDS_DTW = True
BOUNDS = {
    'quick': 'default, Kullback-Leibler and example distances: all pairs of '
             'sequences of 0 to 2 frames over 5 frames, plus lengths up to '
             '12, both precisions and normalizations; Levenshtein: all pairs '
             'of sequences of 0 to 4 frames over 3 frames, 0 to 2 over 9 '
             'frames (negative, fractional, of dimension 1 to 3); uniform '
             'time warping: all pairs of lengths up to 48, against exact '
             'rationals',
    'thorough': 'as quick with 0 to 3 frames over 5 frames, Levenshtein on '
                '0 to 5 frames, uniform time warping up to 140 frames',
}


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for d in ('default', 'kl', 'ex_cosine', 'ex_kl'):
        for dtype in ('f8', 'f4'):
            for n in range(4 if deep else 3):
                for m in range(4 if deep else 3):
                    out.append({'dtw': d, 'dtype': dtype, 'n': n, 'm': m})
            out.append({'dtw': d, 'dtype': dtype, 'long': 1})
    top = 5 if deep else 4
    for n in range(top + 1):
        for m in range(top + 1):
            out.append({'edit': 3, 'n': n, 'm': m})
    for dim in (1, 2, 3):
        for n in range(3):
            for m in range(3):
                out.append({'edit': 9, 'dim': dim, 'n': n, 'm': m})
    out.append({'edit': 'long'})
    for n in range(1, (140 if deep else 48) + 1):
        out.append({'utw': n, 'to': 140 if deep else 48})
    for n, m in ((1, 1001), (7, 1200), (250, 1001), (256, 1024), (500, 501),
                 (999, 1000), (1000, 1001), (3, 2000)):
        out.append({'utw': n, 'm': m})
    return out


FRAMES = [(1., 2.), (2., 1.), (1., 1.), (3., 1.), (1., 2.)]
COSINE = FRAMES[:3] + [(0., 0.), (-2., 1.)]


def functions(name):
    import ABXpy.distance as distance
    from ABXpy.distances import example_distances as ex
    from ABXpy.distances.metrics import cosine, kullback_leibler as kl
    return {'default': (distance.default_distance, cosine.cosine_distance,
                        'cosine'),
            'kl': (distance.dtw_kl_distance, kl.kl_divergence, 'kl111'),
            'ex_cosine': (ex.dtw_cosine, cosine.cosine_distance, 'cosine'),
            'ex_kl': (ex.dtw_kl_divergence, kl.kl_divergence, 'kl111'),
            }[name]


def check_dtw(name, xs, ys, dtype, ctx):
    f, metric, formula = functions(name)
    x = np.array(xs, dtype).reshape(len(xs), 2)
    y = np.array(ys, dtype).reshape(len(ys), 2)
    if len(xs) and len(ys):
        matrix = metric(x, y)
        eps = float(np.finfo(dtype).eps)
        for i, p in enumerate(xs):
            for j, q in enumerate(ys):
                require(c12.compare(formula, p, q, float(matrix[i, j]), eps),
                        '%s of %s and %s is %r', formula, p, q, matrix[i, j])
        c = c11.best(matrix.tolist())
        total = c[len(xs) - 1, len(ys) - 1]
    for normalized in (True, False) + (
            () if name == 'default' else (None,)):
        d = f(x, y) if normalized is None else f(x, y, normalized=normalized)
        ctx.step()
        if not len(xs) and not len(ys):
            expected = [0.]
        elif not len(xs) or not len(ys):
            expected = [float('inf')]
        elif normalized is False:
            expected = [total]
        else:
            expected = [total / k
                        for k in c11.lengths(c, len(xs), len(ys))]
        ok = any(d == e or abs(d - e) <= 1e-9 * max(1., abs(e))
                 for e in expected)
        require(ok, '%s distance (normalized: %s) of %s and %s (%s): %r, not '
                '%r', name, normalized, xs, ys, dtype, d, expected)
        ctx.state(name, round(d, 6) if d == d and abs(d) < 1e9 else str(d))


def levenshtein(a, b):
    d = {(i, 0): i for i in range(len(a) + 1)}
    d.update({(0, j): j for j in range(len(b) + 1)})
    for i in range(1, len(a) + 1):
        for j in range(1, len(b) + 1):
            d[i, j] = min(d[i - 1, j] + 1, d[i, j - 1] + 1,
                          d[i - 1, j - 1] + (a[i - 1] != b[j - 1]))
    return d[len(a), len(b)]


def check_edit(xs, ys, dim, dtype, ctx):
    from ABXpy.distance import edit_distance
    x = np.array(xs, dtype).reshape(len(xs), dim)
    y = np.array(ys, dtype).reshape(len(ys), dim)
    d = edit_distance(x, y)
    ctx.step()
    if bool(len(xs)) != bool(len(ys)):
        expected = float('inf')
    else:
        expected = levenshtein(xs, ys)
    require(d == expected, 'edit distance of %s and %s: %r, not %r', xs, ys,
            d, expected)
    ctx.state('edit', expected)


def warping(n1, n2):
    """{(frame of the shorter, frame of the longer): weight}"""
    out = {}
    for j in range(n2):
        at = Fraction(n1 * (2 * j + 1), 2 * n2)
        k = at.numerator // at.denominator
        if at.denominator == 1:
            out[k - 1, j] = out.get((k - 1, j), 0) + Fraction(1, 2)
            out[k, j] = out.get((k, j), 0) + Fraction(1, 2)
        else:
            out[k, j] = out.get((k, j), 0) + 1
    return out


def check_utw(n1, n2, ctx):
    from ABXpy.distances.metrics.utw import utw
    w = warping(n1, n2)
    x = np.stack([np.arange(n1), np.zeros(n1)], axis=1)
    y = np.stack([np.arange(n2), np.ones(n2)], axis=1)

    for a, b, mod in ((7919, 104729, 15485863), (3, 1000, 10 ** 7)):
        def weight(i, j):
            return (i * a + j * b + i * j * 31 + 1) % mod

        def div(p, q):
            require(p.shape == q.shape and p.shape[1] == 2,
                    'frames compared of shapes %s and %s', p.shape, q.shape)
            # (in any order: the function is symmetric)
            s = np.where(p[:, 1] == 0, p[:, 0], q[:, 0]).astype(int)
            l = np.where(p[:, 1] == 0, q[:, 0], p[:, 0]).astype(int)
            return weight(s, l).astype(float)
        expected = sum(v * weight(i, j) for (i, j), v in w.items())
        for first, second in ((x, y), (y, x)):
            d = utw(first, second, div)
            ctx.step()
            require(Fraction(float(d)) == expected, 'utw of %d and %d '
                    'frames: %r, not %r', len(first), len(second), d,
                    float(expected))
    ctx.state('utw', n1, n2)


def run(case, ctx):
    if 'dtw' in case:
        frames = COSINE if 'kl' not in case['dtw'] else FRAMES
        if 'long' in case:
            for n in range(0, 13):
                for m in range(0, 13):
                    check_dtw(case['dtw'],
                              [frames[(i * i + 1) % 5] for i in range(n)],
                              [frames[(i * 3) % 5] for i in range(m)],
                              case['dtype'], ctx)
            return
        for xs in itertools.product(frames, repeat=case['n']):
            for ys in itertools.product(frames, repeat=case['m']):
                check_dtw(case['dtw'], xs, ys, case['dtype'], ctx)
    elif 'edit' in case:
        if case['edit'] == 'long':
            for n in range(12):
                for m in range(12):
                    for k in (2, 3, 5):
                        check_edit([(i * i % k, 1) for i in range(n)],
                                   [(i * 3 % k, 1) for i in range(m)], 2,
                                   'f8', ctx)
            # frames which are close, or large
            for scale in (2. ** -20, 2. ** -40, 2. ** 40):
                for n in range(1, 5):
                    for m in range(1, 5):
                        check_edit([(i * scale, 1) for i in range(n)],
                                   [(i * i * scale, 1) for i in range(m)],
                                   2, 'f8', ctx)
                        check_edit(
                            [(1 + i * 2. ** -22, 1) for i in range(n)],
                            [(1 + i * i * 2. ** -22, 1) for i in range(m)],
                            2, 'f4', ctx)
            # longer than a machine word, and more symbols
            for n, m in ((70, 65), (130, 64), (64, 64), (200, 3)):
                check_edit([(i * 7 % 90,) for i in range(n)],
                           [(i * 7 % 91,) for i in range(m)], 1, 'f4', ctx)
            return
        if case['edit'] == 3:
            dim, frames = 2, [(0., 1.), (1., 0.), (0., 2.)]
        else:
            dim = case['dim']
            frames = [(v,) + (0.5,) * (dim - 1) for v in
                      (-2., -1., 0., 1., 0.25, -0.5, 4.)]
            frames += [(0.5,) * (dim - 1) + (-1.,), (2.,) * dim]
        for xs in itertools.product(frames, repeat=case['n']):
            for ys in itertools.product(frames, repeat=case['m']):
                check_edit(xs, ys, dim, 'f8', ctx)
                if case['edit'] == 9:
                    check_edit(xs, ys, dim, 'f4', ctx)
    elif 'm' in case:
        check_utw(case['utw'], case['m'], ctx)
    else:
        for n2 in range(case['utw'], case['to'] + 1):
            check_utw(case['utw'], n2, ctx)
