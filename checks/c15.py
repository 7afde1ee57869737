"""C15: external sorting yields a sorted permutation, companions aligned"""
import itertools
import os

import numpy as np

from lib.core import require

ID = 'C15'
BOUNDS = {
    'quick': 'all key sequences of 1 to 6 rows over {0,1,2}, all '
             'permutations of 5 distinct keys, with every legal number of '
             'rows of the memory budget and output buffers of 1, 2 and 5 '
             'rows, 0 to 2 companions; 5 structured key sequences of 10 to '
             '200 rows with every legal budget up to 40 rows; key types '
             'from int8 to uint64 and their extreme values; refusals',
    'thorough': 'as quick with sequences of 7 rows, all the output buffers '
                'up to 5 rows, up to 2000 rows',
}
ASSUMPTIONS = ['a memory budget which does not leave one row to the buffer '
               'of each chunk is refused by the code (checked to leave the '
               'file unchanged) and is not required to sort; tables have at '
               'least one row']


def legal(n):
    """The numbers of rows of the budget accepted for n rows"""
    out = []
    for b in range(1, n + 3):
        chunks = -(-n // b)
        if int(round(b / chunks)) > 0:
            out.append(b)
    return out


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for n in range(1, 8 if deep else 7):
        heads = 3 ** max(0, n - 4)
        for h in range(heads):
            out.append({'n': n, 'head': h, 'deep': deep})
    for first in range(5):
        out.append({'permutations': 5, 'first': first})
    for n in [10, 33, 64, 100, 200] + ([500, 2000] if deep else []):
        for k in range(5):
            out.append({'rows': n, 'kind': k})
    for dtype in ('i1', 'u1', 'i2', 'u2', 'i4', 'u4', 'i8', 'u8'):
        out.append({'dtype': dtype})
    out.append({'refusals': 1})
    return out


def sort(keys, dtype, companions, b, ob, ctx):
    """Sort a file with these keys and companions; b and ob: rows of the
    buffers; checks the file"""
    import h5py
    from ABXpy.h5tools.h5_handler import H5Handler
    n = len(keys)
    d = ctx.sub()
    tmp = os.path.join(d, 'tmp')
    os.mkdir(tmp)
    f = os.path.join(d, 'f.h5')
    data = [np.array(keys, dtype).reshape(n, 1)]
    names = [('key', 'k')]
    for c in range(companions):
        # rows tell where they come from
        a = np.arange(n * (c + 1)).reshape(n, c + 1)
        data.append(a.astype(('f8', 'i2')[c]))
        names.append((('key', 'k2') if c == 0 else ('other', 'x')))
    with h5py.File(f, 'w') as h:
        for (g, s), a in zip(names, data):
            h.require_group(g).create_dataset(s, data=a)
        h.create_group('keep').create_dataset('z', data=np.arange(3))
    weight = sum(a.shape[1] * a.dtype.itemsize for a in data)
    H5Handler(f, 'key', 'k', [g for g, s in names[1:]],
              [s for g, s in names[1:]]).sort(
        b * weight / 1000., ob * weight / 1000., tmpdir=tmp)
    ctx.step()
    what = 'sort of %s (%s) with %d companions, %d rows in memory, %d rows ' \
        'for the output' % (keys if n <= 12 else '%d rows' % n, dtype,
                            companions, b, ob)
    require(os.listdir(tmp) == [], '%s: %s left in the temporary directory',
            what, os.listdir(tmp))
    with h5py.File(f, 'r') as h:
        got = [h[g][s][...] for g, s in names]
        require(h['keep']['z'][...].tolist() == [0, 1, 2],
                '%s: changes another dataset', what)
    for a, g in zip(data, got):
        require(g.shape == a.shape and g.dtype == a.dtype,
                '%s: dataset of shape %s and type %s', what, g.shape, g.dtype)
    require(got[0][:, 0].tolist() == sorted(data[0][:, 0].tolist()),
            '%s: keys %s', what, got[0][:, 0].tolist())
    if companions:
        order = got[1][:, 0].astype(int).tolist()
        require(sorted(order) == list(range(n)), '%s: rows of a companion '
                'are lost or repeated: %s', what, order)
        for a, g in zip(data, got):
            require(np.array_equal(g, a[order]),
                    '%s: a companion is not aligned with the keys', what)
    ctx.state(keys if n < 8 else n, b, ob)


def run(case, ctx):
    import h5py
    from ABXpy.h5tools.h5_handler import H5Handler
    if 'n' in case:
        n = case['n']
        for k, keys in enumerate(itertools.product(range(3), repeat=n)):
            if k % 3 ** max(0, n - 4) != case['head']:
                continue
            for j, b in enumerate(legal(n)):
                obs = range(1, 6) if case['deep'] else (1, 2, 5)
                for ob in obs:
                    if n >= 6 and not case['deep'] and b > 4:
                        continue
                    if n >= 5 and not case['deep'] and (k + ob + j) % 3:
                        continue
                    sort(list(keys), 'i8', (k + b + ob) % 3, b, ob, ctx)
    elif 'permutations' in case:
        for k, p in enumerate(itertools.permutations(
                range(case['permutations']))):
            if p[0] == case['first']:
                for b in legal(5):
                    sort([10 * v for v in p], 'u4', 1 + k % 2, b, 1 + k % 3,
                         ctx)
    elif 'rows' in case:
        n = case['rows']
        keys = [[(i * 7919) % n for i in range(n)],
                [n - i for i in range(n)],
                [i // 5 for i in range(n)],
                [(i * 31) % 4 for i in range(n)],
                [(i * i) % 17 + (i % 3) * 1000 for i in range(n)]][
                    case['kind']]
        bs = legal(n)
        bs = [b for b in bs if b <= 40] or bs[:1]
        if n > 64:
            bs = bs[::4] + [n, n + 1]
        for k, b in enumerate(bs):
            sort(keys, 'i8', k % 3, b, (1, 7, 3, n)[k % 4], ctx)
    elif 'dtype' in case:
        dtype = case['dtype']
        i = np.iinfo(dtype)
        keys = [i.max, i.min, i.max - 1, 0, 1, i.max, i.min + 1]
        if i.bits == 64:
            keys += [2 ** 53, 2 ** 53 + 1, 2 ** 53 + 2]
        for p in itertools.permutations(range(len(keys)), 3 if ctx.tier ==
                                        'thorough' else 2):
            ks = [keys[j] for j in p]
            ks += [k for j, k in enumerate(keys) if j not in p]
            for b in legal(len(ks))[:2]:
                sort(ks, dtype, 2, b, 2, ctx)
    else:
        def check(make, args, allowed, what):
            d = ctx.sub()
            tmp = os.path.join(d, 'tmp')
            os.mkdir(tmp)
            f = os.path.join(d, 'f.h5')
            with h5py.File(f, 'w') as h:
                g = h.create_group('g')
                for name, n in make:
                    g.create_dataset(name, data=np.arange(n)[::-1].reshape(
                        n, 1))
            try:
                H5Handler(f, 'g', 'k', *args).sort(1, 1, tmpdir=tmp)
            except Exception as e:
                ctx.step()
                require(allowed is None or isinstance(e, allowed),
                        '%s: %s', what, type(e).__name__)
            else:
                require(False, '%s: not refused', what)
            require(os.listdir(tmp) == [], '%s: temporary files are left: '
                    '%s', what, os.listdir(tmp))
            with h5py.File(f, 'r') as h:
                for name, n in make:
                    require(h['g'][name][:, 0].tolist() ==
                            list(range(n))[::-1],
                            '%s: the file is changed', what)
        check([('k', 5), ('c', 5)], (['g'], ['missing']), IOError,
              'missing companion')
        check([('k', 5), ('c', 5)], (['nogroup'], ['c']), IOError,
              'missing group')
        check([('c', 5)], (), IOError, 'missing key')
        for n, m in itertools.product(range(1, 6), repeat=2):
            if n != m:
                check([('k', n), ('c', m)], (['g'], ['c']), IOError,
                      'companion of %d rows for %d keys' % (m, n))
                check([('k', n), ('c', n), ('e', m)],
                      (['g', 'g'], ['c', 'e']), IOError,
                      'second companion of %d rows for %d keys' % (m, n))
        # the key among its companions
        try:
            H5Handler(ctx.path('x.h5'), 'g', 'k', ['g'], ['k'])
        except ValueError:
            ctx.step()
        else:
            require(False, 'a key among its own companions is not refused')
        # not enough memory: refused, unchanged
        for n in (9, 20):
            for b in range(1, n):
                if b in legal(n):
                    continue
                f = os.path.join(ctx.sub(), 'f.h5')
                keys = np.arange(n)[::-1].reshape(n, 1)
                with h5py.File(f, 'w') as h:
                    h.create_group('g').create_dataset('k', data=keys)
                try:
                    H5Handler(f, 'g', 'k').sort(b * 8 / 1000., 1)
                except Exception:
                    pass
                with h5py.File(f, 'r') as h:
                    got = h['g']['k'][...]
                require(np.array_equal(got, keys) or
                        np.array_equal(got, keys[::-1]),
                        'budget of %d rows for %d: the rows are damaged', b,
                        n)
                ctx.step()
