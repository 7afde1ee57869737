"""C16: samples without replacement are distinct, in range, complete, uniform

The random generator is replaced by a scripted one, and its outcomes are
enumerated (depth first). A code which draws its random numbers differently
is still checked, on the outcomes of the real generator for a range of seeds.
"""
import contextlib
import itertools
import math
from fractions import Fraction

import numpy as np

from lib.core import require

ID = 'C16'
BOUNDS = {
    'quick': 'selection: all n <= N <= 4, all the outcomes of a generator '
             'with 12 equiprobable values, exact probabilities of all the '
             'subsets; rejection: N=101, n=1 and 2, all outcomes; all n <= '
             'N <= 8 and extreme values of the generator; hypergeometric '
             'draws: all N <= 7, K, n on a grid of 80x80 outcomes against '
             'the exact probabilities; incremental: all chunkings of all '
             'N <= 6 and K <= N with 6 seeds and with all the first 5 '
             'outcomes among 5 extreme ones, chunks beyond the end, up to '
             '10^12 items, expected chunks of more than 10^5 samples; limits '
             'of the choice between algorithms',
    'thorough': 'as quick with N <= 9 for all chunkings, 40 seeds, grids of '
                '300x300 and N <= 10',
}
ASSUMPTIONS = ['an ideal generator: the numbers drawn are independent and '
               'uniform']


class Unscripted(Exception):
    """The code draws random numbers in another way"""


class Stop(BaseException):
    """More numbers are drawn than scripted"""


@contextlib.contextmanager
def scripted(rand=None, randint=None):
    """Replace the functions of numpy.random"""
    names = ['rand', 'random', 'random_sample', 'ranf', 'sample', 'uniform',
             'randint', 'random_integers', 'choice', 'permutation',
             'shuffle', 'hypergeometric', 'default_rng', 'integers',
             'binomial', 'RandomState', 'normal']
    old = {n: getattr(np.random, n) for n in names if hasattr(np.random, n)}

    def refuse(*args, **kw):
        raise Unscripted()

    def one(*args, **kw):
        if args or kw or rand is None:
            raise Unscripted()
        return rand()

    def integer(low, high=None, size=None, **kw):
        if high is None:
            low, high = 0, low
        if randint is None or kw.get('dtype', int) not in (
                int, np.int64, 'l', 'int64') or int(low) != 0:
            raise Unscripted()
        return randint(int(high), size)
    try:
        for n in old:
            setattr(np.random, n, refuse)
        for n in ('rand', 'random', 'random_sample', 'uniform'):
            setattr(np.random, n, one)
        np.random.randint = integer
        yield
    finally:
        for n, f in old.items():
            setattr(np.random, n, f)


def outcomes(values, fun, depth=None):
    """All the runs of fun() over the outcomes of the generator: yields
    (number of draws, result); stops after depth draws if given (result is
    then Stop)"""
    path = []
    while True:
        at = [0]

        def rand():
            if at[0] == len(path):
                if depth is not None and at[0] >= depth:
                    raise Stop()
                path.append(0)
            v = values[path[at[0]]]
            at[0] += 1
            return v
        try:
            with scripted(rand=rand):
                result = fun()
        except Stop:
            result = Stop
        yield at[0], result
        del path[at[0]:]
        while path and path[-1] == len(values) - 1:
            path.pop()
        if not path:
            return
        path[-1] += 1


TOP = 1 - 2. ** -53
EXTREMES = [0., TOP, 0.5, 2. ** -53, 0.9]


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for N in range(0, 5):
        for n in range(N + 1):
            out.append({'uniform': [n, N]})
    for N in range(0, 9):
        for n in range(N + 1):
            out.append({'extreme': [n, N]})
    out.append({'rejection': 1})
    for part in range(8):
        out.append({'rejection': 2, 'part': part})
    for part in range(8):
        out.append({'dispatch': part})
    grid = 300 if deep else 100
    for N in range(2, 11 if deep else 8):
        for K in range(N + 1):
            out.append({'hyper': [N, K], 'grid': grid})
    for N, K in ((30, 12), (40, 5), (50, 45), (200, 3)):
        out.append({'hyper': [N, K], 'grid': grid, 'few': 1})
    for N in range(0, 10 if deep else 7):
        for K in range(N + 1):
            out.append({'chunks': [N, K], 'seeds': 40 if deep else 6})
    for N in range(1, 5):
        for K in range(N + 1):
            for first in range(5):
                out.append({'tree': [N, K], 'first': first,
                            'depth': 6 if deep else 5})
    for k in range(len(BIG)):
        out.append({'big': k})
    for N, K, chunks in ((4, 2, [2, 2]), (5, 2, [3, 2]), (4, 1, [1, 3]),
                         (5, 3, [1, 1, 3]), (6, 3, [4, 2]), (3, 2, [1, 2])):
        out.append({'together': [N, K], 'chunking': chunks,
                    'draws': 40000 if deep else 12000})
    return out


BIG = [(10 ** 12, 1000, 10 ** 11), (10 ** 12, 10, 10 ** 11 + 7),
       (10 ** 6, 3 * 10 ** 5, 10 ** 6), (10 ** 6, 3 * 10 ** 5, 700001),
       (4 * 10 ** 5, 4 * 10 ** 5, 4 * 10 ** 5), (250000, 249999, 240000),
       (10 ** 9, 150000, 10 ** 9), (10 ** 4, 10 ** 4, 100),
       (10 ** 4, 5000, 33), (2 * 10 ** 5, 101000, 2 * 10 ** 5),
       (10 ** 4, 0, 100), (3 * 10 ** 9, 2000, 10 ** 9), (250, 140, 101),
       (300, 200, 150), (10 ** 5, 100, None), (20, 5, None), (7, 0, None),
       (0, 0, None), (10 ** 5, 10 ** 5, None)]


def check_sample(s, n, N, what):
    s = np.asarray(s)
    require(s.ndim == 1 and s.dtype.kind in 'iu', '%s: not integers: %r',
            what, s.dtype)
    require(len(s) == n and len(set(s.tolist())) == n,
            '%s: %s are not %d distinct indices', what, s.tolist()[:20], n)
    require(n == 0 or (s.min() >= 0 and s.max() < N),
            '%s: indices from %s to %s out of 0..%d', what, s.min() if n
            else '', s.max() if n else '', N - 1)


def binomial(n, k):
    return math.comb(n, k) if 0 <= k <= n else 0


def pmf(N, K, n, k):
    return binomial(K, k) * binomial(N - K, n - k) / binomial(N, n)


def run(case, ctx):
    from ABXpy.sampling import sampler
    if 'uniform' in case:
        n, N = case['uniform']
        values = [(i + 0.5) / 12 for i in range(12)]
        found = {}
        what = 'sampling %d out of %d' % (n, N)
        try:
            for draws, s in outcomes(
                    values, lambda: sampler.sample_without_replacement(n, N)):
                ctx.step()
                check_sample(s, n, N, what)
                key = tuple(sorted(np.asarray(s).tolist()))
                found[key] = found.get(key, 0) + Fraction(1, 12 ** draws)
        except Unscripted:
            ctx.count('unscripted')
            return statistics(lambda: sampler.sample_without_replacement(
                n, N), n, N, what, 6000, ctx)
        total = binomial(N, n)
        require(len(found) == total, '%s: %d subsets out of %d are obtained',
                what, len(found), total)
        for key, p in found.items():
            ctx.state('u', N, key)
            require(p == Fraction(1, total), '%s: %s has a probability of '
                    '%s and not 1/%d', what, key, p, total)
    elif 'extreme' in case:
        n, N = case['extreme']
        what = 'sampling %d out of %d' % (n, N)
        try:
            values = EXTREMES if N <= 4 else EXTREMES[:3]
            for draws, s in outcomes(
                    values, lambda: sampler.sample_without_replacement(n, N)):
                ctx.step()
                check_sample(s, n, N, what + ' with extreme random numbers')
                ctx.state('e', N, s.tolist())
        except Unscripted:
            ctx.count('unscripted')
            for seed in range(300):
                np.random.seed(seed)
                check_sample(sampler.sample_without_replacement(n, N), n, N,
                             what)
    elif 'rejection' in case:
        n, N = case['rejection'], 101
        what = 'sampling %d out of %d' % (n, N)
        found = {}

        def attempt(script):
            script = list(script)

            def randint(high, size):
                require(high == N, 'numbers drawn below %d', high)
                if size is None:
                    m = 1
                else:
                    m = int(np.prod(size))
                if m > len(script):
                    raise Stop()
                v = [script.pop(0) for _ in range(m)]
                return v[0] if size is None else np.array(v).reshape(size)
            try:
                with scripted(randint=randint):
                    s = sampler.sample_without_replacement(n, N)
            except Stop:
                return None
            ctx.step()
            check_sample(s, n, N, what)
            key = tuple(sorted(np.asarray(s).tolist()))
            found[key] = found.get(key, 0) + 1
            return key
        try:
            if n == 1:
                for i in range(N):
                    require(attempt([i]) is not None, '%s: drawing again',
                            what)
                require(len(found) == N and set(found.values()) == {1},
                        '%s: not uniform', what)
            else:
                for i in range(case['part'], N, 8):
                    for j in range(N):
                        if i != j:
                            key = attempt([i, j])
                            require(key == (min(i, j), max(i, j)),
                                    '%s: %s when drawing %s', what, key,
                                    (i, j))
                            ctx.state('r', key)
                        else:
                            # drawn twice: the rest is drawn again
                            for k in range(0, N, 5):
                                for l in range(0, N, 23):
                                    script = [i, i] + [k] * 3 + [l] * 3 + \
                                        [(i + 1) % N] * 3
                                    key = attempt(script)
                                    require(key is None or i in key,
                                            '%s: %s when drawing %s', what,
                                            key, script)
        except Unscripted:
            ctx.count('unscripted')
            for seed in range(200):
                np.random.seed(seed)
                check_sample(sampler.sample_without_replacement(n, N), n, N,
                             what)
    elif 'dispatch' in case:
        for k, (N, n) in enumerate(itertools.product(
                (1, 2, 50, 99, 100, 101, 102, 150, 1000),
                list(range(0, 12)) + ['59', '60', '61', '99', '100'])):
            if k % 8 != case['dispatch']:
                continue
            ns = [n] if isinstance(n, int) else \
                [int(N * int(n) / 100.) + e for e in (-1, 0, 1)]
            for m in ns:
                if not 0 <= m <= N:
                    continue
                for seed in range(12):
                    np.random.seed(seed)
                    s = sampler.sample_without_replacement(m, N)
                    ctx.step()
                    check_sample(s, m, N, 'sampling %d out of %d, seed %d'
                                 % (m, N, seed))
                    ctx.state('d', N, m)
                    for dtype in (np.uint16, np.int32):
                        np.random.seed(seed)
                        t = sampler.sample_without_replacement(m, N, dtype)
                        require(t.dtype == dtype and
                                t.tolist() == s.tolist(),
                                'sampling %d out of %d as %s: %s', m, N,
                                dtype, t.tolist()[:20])
    elif 'hyper' in case:
        if not hasattr(sampler, 'hypergeometric_sample'):
            return
        N, K = case['hyper']
        ns = (1, N // 3, N // 2, N - 1) if 'few' in case else range(N + 1)
        for n in ns:
            hyper(sampler.hypergeometric_sample, N, K, n, case['grid'], ctx)
    elif 'chunks' in case:
        N, K = case['chunks']
        for chunks in compositions(N):
            for seed in range(case['seeds']):
                for relative in (True, False):
                    np.random.seed(seed)
                    s = sampler.IncrementalSampler(
                        N, K, **({} if relative else {
                            'relative_indexing': False}))
                    incremental(s, N, K, chunks, relative, ctx, 'seed %d'
                                % seed)
            ctx.state('c', N, K, chunks)
        for step in range(1, N + 2):
            for relative in (True, False):
                np.random.seed(step)
                s = sampler.IncrementalSampler(
                    N, K, step=step, relative_indexing=relative)
                iterate(s, N, K, step, relative, ctx)
    elif 'tree' in case:
        N, K = case['tree']
        values = EXTREMES[case['first']:] + EXTREMES[:case['first']]
        real = np.random.RandomState(case['first'])
        for chunks in compositions(N):
            if 0 in chunks or sum(chunks) > N:
                continue

            def fun():
                s = sampler.IncrementalSampler(N, K, relative_indexing=False)
                incremental(s, N, K, chunks, False, ctx, 'extreme random '
                            'numbers')
            try:
                # the first draws are all enumerated, then the others come
                # from a real generator
                for draws in tree(values[:4], fun, case['depth'] - 1, real,
                                  case['first'] < 4):
                    ctx.state('t', N, K, chunks, draws)
            except Unscripted:
                ctx.count('unscripted')
                return
    elif 'big' in case:
        N, K, step = BIG[case['big']]
        for seed in range(2):
            for relative in (False, True):
                np.random.seed(seed)
                if step is None:
                    s = sampler.IncrementalSampler(
                        N, K, relative_indexing=relative)
                else:
                    s = sampler.IncrementalSampler(
                        N, K, step=step, relative_indexing=relative)
                iterate(s, N, K, step, relative, ctx)
        ctx.state('b', N, K, step)
    else:
        N, K = case['together']

        def draw():
            s = sampler.IncrementalSampler(N, K, relative_indexing=False)
            return np.concatenate([s.sample(c) for c in case['chunking']])
        statistics(draw, K, N, 'sampling %d out of %d in chunks of %s' % (
            K, N, case['chunking']), case['draws'], ctx)


def tree(values, fun, depth, real, go):
    """fun() on all the outcomes of the first draws"""
    for script in itertools.product(values, repeat=depth):
        at = [0]

        def rand():
            at[0] += 1
            if at[0] <= len(script):
                return script[at[0] - 1]
            return real.random_sample()
        with scripted(rand=rand):
            fun()
        yield script


def hyper(f, N, K, n, grid, ctx):
    """The probability of each outcome, over a grid of random numbers"""
    counts = {}
    what = 'number of the %d out of %d items among %d' % (K, N, n)
    # no random number is needed in this case
    possible = [k for k in range(min(n, K) + 1) if pmf(N, K, n, k) > 0]
    accepted, tol = 0, .5 / grid
    try:
        for i in range(grid):
            for j in range(grid):
                script = [(i + 0.5) / grid, (j + 0.5) / grid]

                def rand():
                    if not script:
                        raise Stop()
                    return script.pop(0)
                try:
                    with scripted(rand=rand):
                        k = int(f(N, K, n))
                except Stop:
                    continue
                require(k in possible, '%s: %d', what, k)
                accepted += 1
                counts[k] = counts.get(k, 0) + 1
    except Unscripted:
        ctx.count('unscripted')
        np.random.seed(N * 100 + K * 10 + n)
        accepted, tol = 4000, 0.06
        for _ in range(accepted):
            k = int(f(N, K, n))
            require(k in possible, '%s: %d', what, k)
            counts[k] = counts.get(k, 0) + 1
    ctx.step(accepted)
    require(accepted > 0, '%s: no outcome of the generator is accepted', what)
    for k in possible:
        p = counts.get(k, 0) / accepted
        require(abs(p - pmf(N, K, n, k)) <= tol,
                '%s: %d has a probability of %.4f and not %.4f', what, k, p,
                pmf(N, K, n, k))
    ctx.state('h', N, K, n)


def compositions(N):
    """Successions of chunks which cover N items, exactly or beyond, some
    with empty chunks"""
    out = []
    for cuts in itertools.product((0, 1), repeat=max(0, N - 1)):
        chunks, size = [], 1
        for c in cuts:
            if c:
                chunks.append(size)
                size = 1
            else:
                size += 1
        chunks.append(size)
        if N == 0:
            chunks = []
        out.append(chunks)
    extra = []
    for c in out[:4] + out[-2:]:
        extra.append(c + [3])
        extra.append([0] + c + [0])
        if c:
            extra.append(c[:-1] + [c[-1] + 2])
    return out + extra


def incremental(s, N, K, chunks, relative, ctx, how):
    what = 'sampling %d out of %d in chunks of %s (%s)' % (K, N, chunks, how)
    at, total = 0, []
    for c in chunks:
        got = np.asarray(s.sample(c))
        ctx.step()
        size = max(0, min(c, N - at))
        local = got if relative else got - at
        check_sample(local.astype(np.int64), len(got), size, what)
        total += [int(g) + (at if relative else 0) for g in got]
        at += size
    require(at == N, 'chunks')
    require(len(total) == K and len(set(total)) == K,
            '%s: %s are not %d distinct indices', what, total[:20], K)
    require(not K or (min(total) >= 0 and max(total) < N),
            '%s: %s out of 0..%d', what, total[:20], N - 1)


def iterate(s, N, K, step, relative, ctx):
    what = 'iterating over samples of %d out of %d by steps of %s' % (
        K, N, step)
    at, total = 0, []
    if step is None:
        got = [np.asarray(g) for g in s]
        if relative:
            # (the step is not known)
            require(sum(len(g) for g in got) == K, '%s: %d indices', what,
                    sum(len(g) for g in got))
            return
        total = np.concatenate(got) if got else np.array([], int)
    else:
        for got in s:
            got = np.asarray(got)
            ctx.step()
            size = min(step, N - at)
            require(size > 0, '%s: does not stop', what)
            local = got if relative else got - at
            require(not len(got) or (local.min() >= 0 and
                                     local.max() < size),
                    '%s: an index is not in its chunk of %d', what, size)
            total.append(got + at if relative else got)
            at += size
        require(at == N, '%s: stops at %d', what, at)
        total = np.concatenate(total) if total else np.array([], int)
    require(len(total) == K and len(np.unique(total)) == K,
            '%s: %d indices, %d distinct', what, len(total),
            len(np.unique(total)))
    require(not K or (total.min() >= 0 and total.max() < N),
            '%s: indices out of range', what)


def statistics(draw, n, N, what, draws, ctx):
    """Frequencies of the subsets for the real generator, fixed seed, at
    most 7 standard deviations from uniformity"""
    found = {}
    np.random.seed(12345)
    for _ in range(draws):
        s = np.asarray(draw())
        check_sample(s, n, N, what)
        key = tuple(sorted(s.tolist()))
        found[key] = found.get(key, 0) + 1
    ctx.step(draws)
    total = binomial(N, n)
    sd = math.sqrt(draws * (1. / total) * (1 - 1. / total))
    require(len(found) == total, '%s: %d subsets out of %d are obtained',
            what, len(found), total)
    for key, c in found.items():
        ctx.state('s', N, key)
        require(abs(c - draws / float(total)) <= 7 * sd + 1e-9,
                '%s: %s is obtained %d times out of %d, %d expected', what,
                key, c, draws, draws // total)
