"""C12: frame metrics compute their formula, inputs unchanged"""
import itertools
import math

import numpy as np

from lib.core import require

ID = 'C12'
BOUNDS = {
    'quick': 'all ordered pairs of frames over {-1,0,1,2}^1..3 (cosine) and '
             '{0,1,2,5}^1..3 without null frame (divergences), all pairs of '
             'sequences of 1 and 2 frames of a list of 7 by dimension, '
             'frames scaled by 10^-12 to 10^12, blocks of up to 60 frames, up to 40 dimensions, single and '
             'double precision, 4 memory layouts, the 8 options of the '
             'Kullback-Leibler divergence, both of Jensen-Shannon',
    'thorough': 'as quick with 4 dimensions, frames over 5 values, '
                'sequences of up to 3 frames',
}
KL = ['kl%d%d%d' % f for f in itertools.product((0, 1), repeat=3)]
POSITIVE = KL + ['js0', 'js1', 'sqrtjs', 'hellinger']
SCALES = (1e-12, 1e-6, 1e-3, 1, 1e6, 1e12)
METRICS = ['cosine', 'ncosine'] + POSITIVE


def frames(metric, dim, deep=False):
    if metric in ('cosine', 'ncosine'):
        values = (-1, 0, 1, 2, 0.5) if deep and dim < 3 else (-1, 0, 1, 2)
    else:
        values = (0, 1, 2, 5, 7) if deep and dim < 4 else (0, 1, 2, 5)
    fs = [f for f in itertools.product(values, repeat=dim)]
    if metric in POSITIVE or metric == 'ncosine':
        fs = [f for f in fs if sum(f) != 0]
    if zero_free(metric):
        fs = [f for f in fs if all(v > 0 for v in f)]
    if metric == 'hellinger' or metric.startswith('js'):
        fs = [f for f in fs if any(f)]
    return fs


def zero_free(metric):
    """Metrics which are only defined without zeros"""
    return metric in KL and metric[2] == '0'


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for metric in METRICS:
        for dtype in ('f8', 'f4'):
            for dim in range(1, 5 if deep else 4):
                n = len(frames(metric, dim, deep))
                parts = max(1, n * n // 4000)
                for part in range(parts):
                    out.append({'metric': metric, 'dtype': dtype, 'dim': dim,
                                'pairs': [part, parts]})
                out.append({'metric': metric, 'dtype': dtype, 'dim': dim,
                            'seqs': 3 if deep else 2})
                if dim > 1:
                    out.append({'metric': metric, 'dtype': dtype, 'dim': dim,
                                'scale': 1})
            for dim, n, m in ((2, 1, 60), (3, 60, 1), (5, 17, 33),
                              (40, 9, 20), (40, 33, 32), (13, 60, 60)):
                out.append({'metric': metric, 'dtype': dtype, 'dim': dim,
                            'n': n, 'm': m})
    return out


def function(metric):
    from ABXpy.distances.metrics import cosine, kullback_leibler as kl
    if metric == 'cosine':
        return cosine.cosine_distance
    if metric == 'ncosine':
        return cosine.normalize_cosine_distance
    if metric in KL:
        t, s, n = [c == '1' for c in metric[2:]]
        if t and s and n:
            return kl.kl_divergence
        return lambda x, y: kl.kl_divergence(
            x, y, thresholded=t, symmetrized=s, normalize=n)
    if metric.startswith('js'):
        return lambda x, y: kl.js_divergence(x, y, normalize=metric == 'js1')
    if metric == 'sqrtjs':
        return kl.sqrt_js_divergence
    return kl.hellinger_distance


def norm1(f):
    s = math.fsum(f)
    return [v / s for v in f]


def kl_value(p, q):
    return math.fsum(a * (math.log(a) - math.log(b))
                     for a, b in zip(p, q) if a > 0)


def js_value(p, q):
    m = [(a + b) / 2 for a, b in zip(p, q)]
    return 0.5 * kl_value(p, m) + 0.5 * kl_value(q, m)


def compare(metric, p, q, got, eps):
    """Is the value returned for frames p and q the one of the formula?"""
    if not got == got:
        return False
    if metric == 'ncosine':
        p, q = norm1(p), norm1(q)
        metric = 'cosine'
    if metric == 'cosine':
        a = math.sqrt(math.fsum(v * v for v in p))
        b = math.sqrt(math.fsum(v * v for v in q))
        if a == 0 and b == 0:
            return got == 0
        if a == 0 or b == 0:
            return got == 1
        c = math.fsum(v * w for v, w in zip(p, q)) / (a * b)
        c = max(-1., min(1., c))
        # the angle is ill conditioned, its cosine is not
        return (-1e-12 <= got <= 1 + 1e-6 and
                abs(math.cos(math.pi * got) - c) <= 40 * eps)
    if metric in KL:
        t, s, n = [c == '1' for c in metric[2:]]
        if t or n:
            p, q = norm1(p), norm1(q)
        if t:
            p = norm1([v + eps for v in p])
            q = norm1([v + eps for v in q])
        v = kl_value(p, q)
        if s:
            v = 0.5 * v + 0.5 * kl_value(q, p)
    elif metric in ('js1', 'js0'):
        if metric == 'js1':
            p, q = norm1(p), norm1(q)
        v = js_value(p, q)
    elif metric == 'sqrtjs':
        v = js_value(norm1(p), norm1(q))
        # (the square root is ill conditioned in 0)
        return got >= 0 and abs(got * got - v) <= 60 * eps
    else:
        p, q = norm1(p), norm1(q)
        v = math.sqrt(math.fsum((math.sqrt(a) - math.sqrt(b)) ** 2
                                for a, b in zip(p, q)) / 2)
        return got >= 0 and abs(got - v) <= 60 * eps
    scale = max(1., abs(v), math.fsum(abs(a * math.log(a)) + abs(
        b * math.log(b)) for a, b in zip(p, q) if a > 0 and b > 0))
    if metric in KL:
        # the terms summed may be larger than their sum
        scale = max(scale, math.fsum(
            max(a, b) * (abs(math.log(a)) + abs(math.log(b)))
            for a, b in zip(p, q) if a > 0 and b > 0))
    # 1/sum of normalized values, log of values near eps
    return abs(got - v) <= 100 * eps * scale


def lay(a, layout):
    if layout == 1:
        return np.asfortranarray(a)
    if layout == 2:
        big = np.full((2 * a.shape[0], 2 * a.shape[1]), 3, dtype=a.dtype)
        big[::2, 1::2] = a
        return big[::2, 1::2]
    if layout == 3:
        b = a[::-1].copy()
        return b[::-1]
    return a.copy()


def check(metric, xs, ys, dtype, ctx, layout=0):
    f = function(metric)
    eps = float(np.finfo(dtype).eps)
    x, y = lay(np.array(xs, dtype), layout), lay(np.array(ys, dtype), layout)
    x0, y0 = x.copy(), y.copy()
    old = np.seterr(all='ignore')
    try:
        d = f(x, y)
    finally:
        np.seterr(**old)
    ctx.step()
    require(np.array_equal(x, x0) and np.array_equal(y, y0),
            '%s of %s and %s (%s) modifies its arguments', metric, xs, ys,
            dtype)
    require(isinstance(d, np.ndarray) and d.shape == (len(xs), len(ys)) and
            d.dtype == np.float64,
            '%s of %d and %d frames (%s): not a matrix of doubles: %r',
            metric, len(xs), len(ys), dtype, type(d))
    for i, p in enumerate(xs):
        for j, q in enumerate(ys):
            require(compare(metric, p, q, float(d[i, j]), eps),
                    '%s of frames %s and %s (%s): %r at %s of %s', metric, p,
                    q, dtype, d[i, j], (i, j), d.shape)
    ctx.state(metric, np.round(d, 4).tolist())


def run(case, ctx):
    metric, dtype, dim = case['metric'], case['dtype'], case['dim']
    deep = ctx.tier == 'thorough'
    fs = [] if 'n' in case else frames(metric, dim, deep)
    if not fs and 'n' not in case:
        return
    if 'pairs' in case:
        part, parts = case['pairs']
        # each pair alone: nothing else in the sequences
        for k, (p, q) in enumerate(itertools.product(fs, fs)):
            if k % parts == part and (deep or k // parts % 3 == 0):
                check(metric, [p], [q], dtype, ctx, k % 4)
        # and all together
        if part == 0:
            check(metric, fs, fs[::-1], dtype, ctx)
    elif 'scale' in case:
        # very small and very large frames, also together
        step = max(1, len(fs) // 8)
        fs = fs[::step] + fs[-1:]
        for k, (s, t) in enumerate(itertools.product(SCALES, repeat=2)):
            for p in fs:
                check(metric, [[v * s for v in p]],
                      [[v * t for v in q] for q in fs], dtype, ctx, k % 4)
            check(metric, [[v * (s, t)[i % 2] for v in p]
                           for i, p in enumerate(fs)],
                  [[v * (s, t)[i // 2 % 2] for v in p]
                   for i, p in enumerate(fs)], dtype, ctx, k % 4)
    elif 'seqs' in case:
        step = max(1, len(fs) // 6)
        fs = (fs[:1] + fs[1:-1:step] + fs[-1:])[:7 if deep else 6]
        null = (0,) * dim
        if metric == 'cosine' and null not in fs:
            fs.append(null)
        sizes = range(1, case['seqs'] + 1)
        if deep:
            fs = fs[:5] + ([null] if metric == 'cosine' else [])
        k = 0
        for n in sizes:
            for m in sizes:
                for xs in itertools.product(fs, repeat=n):
                    for ys in itertools.product(fs, repeat=m):
                        k += 1
                        if n + m == 6 and k % 5:
                            continue
                        check(metric, xs, ys, dtype, ctx, k % 4)
    else:
        def seq(n, s):
            out = []
            for i in range(n):
                f = [((i * 7 + s) * (c + 3) + c * c) % 11 + (
                    0.25 if zero_free(metric) or (i + c) % 4 else 0)
                     for c in range(dim)]
                if metric == 'cosine' and i % 5 == 3:
                    f = [0.] * dim
                if not any(f) and metric != 'cosine':
                    f[0] = 1.
                out.append(f)
            return out
        for layout in range(4):
            check(metric, seq(case['n'], layout), seq(case['m'], layout + 3),
                  dtype, ctx, layout)
