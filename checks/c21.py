"""C21: indexed, fused and raw columns are stored losslessly and compactly"""
import itertools
import os

import numpy as np

from lib.core import require

ID = 'C21'
BOUNDS = {
    'quick': 'all the assignments of 1 to 4 columns to raw, own index, '
             'shared index, fused pair and fused group, rows in 1 to 3 '
             'pieces, as labels, positions, sequences or mappings, 4 '
             'group names; numbers of levels around 2^8 and 2^16 (alone, '
             'together, fused); fused keys of up to and beyond 64 bits; '
             'integer types for all n up to 70000 and all around each '
             'power of two up to 2^66, signed or not; raw columns of 10 '
             'types with extreme values, in all orders and pieces; all '
             'the sequences of 2 or 3 pieces of 13 types',
    'thorough': 'as quick with 5 columns and all pieces of 4 rows',
}
KINDS = ['raw', 'own', 'shared', 'fused', 'fused2']


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for n in range(1, 6 if deep else 5):
        combos = list(itertools.product(KINDS, repeat=n))
        for k, c in enumerate(combos):
            if n >= 4 and not deep and k % 4:
                continue
            if n >= 5 and k % 5:
                continue
            out.append({'columns': c})
    for levels in (1, 2, 255, 256, 257, 65535, 65536, 65537):
        for other in (1, 3, 256, 300):
            for fused in (False, True):
                out.append({'levels': [levels, other], 'fused': fused})
    for sizes in ([2] * 40, [2] * 63, [2] * 64, [2] * 65, [2] * 70,
                  [65536] * 4, [65536, 65536, 65536, 65537], [65537] * 4,
                  [256] * 8, [256] * 8 + [1], [256] * 8 + [2], [255] * 8,
                  [3] * 40, [3] * 41, [70000] * 5, [16] * 16, [16] * 17,
                  [16] * 2, [15, 17], [17, 15, 1], [257], [256, 1], [1, 256],
                  [4, 4, 4, 4], [2, 128], [2, 129]):
        out.append({'product': sizes})
    for dims in ([1, 2], [2, 1], [3], [2, 2], [1, 1, 2]):
        for kind in ('raw', 'own', 'fused'):
            out.append({'dims': dims, 'kind': kind})
    for part in range(8):
        out.append({'types': part})
    for k in range(len(RAW)):
        out.append({'raw': k})
    out.append({'mixed': 1})
    out.append({'refusals': 1})
    return out


def decode(f, group, n_columns=None):
    """{column: list of values} from the file alone"""
    g = f[group]
    text = lambda d: [x.decode('utf8') if isinstance(x, bytes) else str(x)
                      for x in g[d][...]] if d in g else []
    indexed = dict(zip(text('indexed_datasets'),
                       text('indexed_datasets_indexes')))
    out = {}
    for c in text('raw_datasets'):
        out[c] = g[c][...].tolist()

    def label(c, i):
        levels = g['indexes'][indexed[c]]
        require(0 <= i < levels.shape[0], 'column %s: level %d of %d', c, i,
                levels.shape[0])
        return i
    names = text('non_fused_datasets')
    if names:
        data = g['indexed_data'][...]
        ends = [int(x) for x in g['indexed_cumudims'][...]]
        require(len(ends) == len(names) and ends[-1] == data.shape[1],
                'columns of the indexed data')
        start = 0
        for c, e in zip(names, ends):
            out[c] = [[label(c, int(v)) for v in row[start:e]]
                      for row in data]
            start = e
    for name in text('fused_datasets'):
        members = [x.decode('utf8') if isinstance(x, bytes) else str(x)
                   for x in g['fused'][name]['datasets'][...]]
        sizes = [int(x) for x in g['fused'][name]['nb_levels'][...]]
        n_columns = n_columns or {}
        width = [n_columns.get(m, 1) for m in members]
        for m in members:
            out[m] = []
        for key in g[name][:, 0]:
            key = int(key)
            for m, size, w in zip(members, sizes, width):
                row = []
                for _ in range(w):
                    row.append(label(m, key % size))
                    key //= size
                out[m].append(row)
            require(key == 0, 'fused dataset %s: key out of range', name)
    levels = {c: (g['indexes'][i].shape[0], g['indexes'][i])
              for c, i in indexed.items()}
    for c, (_, d) in levels.items():
        labels = None
        for row in out[c]:
            for j, v in enumerate(row):
                if labels is None:
                    labels = d[...].tolist()
                row[j] = labels[v]
    return out


def expected(col, data):
    return [[v] for v in data]


def raw_value(i, c):
    return (i * 7 + c, i * 0.5 + c, -i)[c % 3]


LABELS = {'l0': ['x', 'y', '\xe9'], 'l1': [3, 1, 2], 'l2': [0.5, -1.5],
          'l3': ['only'], 'l4': ['p', 'q']}


def run(case, ctx):
    import h5py
    from ABXpy.h5tools.h5io import H5IO
    from ABXpy.misc import type_fitting
    if 'types' in case:
        types(type_fitting.fit_integer_type, case['types'], ctx)
        return
    if 'mixed' in case:
        return mixed(ctx)
    if 'raw' in case:
        return raw(case['raw'], ctx)
    if 'refusals' in case:
        return refusals(ctx)
    if 'columns' in case:
        kinds = case['columns']
        groups = ['/', '/g', '/g/h/', 'k']
        pieces_all = [[4], [1, 3], [2, 1, 1], [0, 4], [1, 0, 3]]
        if ctx.tier == 'thorough':
            pieces_all += [[1, 1, 2], [1, 1, 1, 1], [3, 1], [2, 2], [1, 2, 1]]
        for k, pieces in enumerate(pieces_all):
            if pieces[0] == 0 and 'raw' in kinds:
                # (no type to create the column with)
                continue
            for how in range(3):
                one(kinds, pieces, groups[(k + how) % 4], how, ctx)
        return
    if 'dims' in case:
        # several columns in each dataset, positions or raw
        dims, kind = case['dims'], case['kind']
        names = ['c%d' % i for i in range(len(dims))]
        indexes = {} if kind == 'raw' else {
            n: list(range(10, 13 + i)) for i, n in enumerate(names)}
        fused = {'fu': names} if kind == 'fused' else None
        path = ctx.path('f.h5')
        rows = {n: np.array([[(i * 5 + j + c) % 3 for j in range(d)]
                             for i in range(5)])
                for c, (n, d) in enumerate(zip(names, dims))}
        with H5IO(path, names, indexes, fused) as h:
            h.write({n: v[:2] for n, v in rows.items()}, indexed=True)
            h.write({n: v[2:] for n, v in rows.items()}, indexed=True)
        ctx.step(2)
        with h5py.File(path, 'r') as f:
            got = decode(f, '/', dict(zip(names, dims)))
        for n in names:
            want = rows[n].tolist()
            if kind != 'raw':
                want = [[indexes[n][v] for v in r] for r in want]
            require(got[n] == want, 'columns of widths %s (%s): %s instead '
                    'of %s', dims, kind, got[n], want)
        ctx.state(dims, kind)
        return
    if 'levels' in case:
        sizes, fused = case['levels'], case['fused']
    else:
        sizes, fused = case['product'], True
    names = ['c%d' % i for i in range(len(sizes))]
    shared = {}
    indexes = {}
    for n, s in zip(names, sizes):
        indexes.setdefault('i%d' % s, list(range(5, 5 + s)))
        shared[n] = 'i%d' % s
    total = 1
    for s in sizes:
        total *= s
    path = ctx.path('f.h5')
    rows = {n: [0, s - 1, s // 2, s - 1, (c * 31) % s, 0]
            for c, (n, s) in enumerate(zip(names, sizes))}
    rows[names[0]][5] = sizes[0] - 1
    try:
        with H5IO(path, shared, indexes,
                  {'fu': names} if fused else None) as h:
            h.write({n: v[:3] for n, v in rows.items()}, indexed=True)
            h.write({n: [x + 5 for x in v[3:]] for n, v in rows.items()})
    except ValueError:
        ctx.step()
        require(fused and total > 2 ** 64, 'levels %s: refused', sizes)
        return
    ctx.step(2)
    require(not fused or total <= 2 ** 64,
            'fused levels %s: more than 64 bits and not refused', sizes)
    with h5py.File(path, 'r') as f:
        got = decode(f, '/')
        data = f['fu' if fused else 'indexed_data']
        require(data.dtype.kind == 'u', 'stored as %s', data.dtype)
        if fused:
            need = type_of(total - 1)
            require(data.dtype == need, 'fused levels %s stored as %s and '
                    'not %s', sizes, data.dtype, need)
    for n in names:
        want = [[v + 5] for v in rows[n]]
        require(got[n] == want, 'levels %s (fused: %s): column %s is %s and '
                'not %s', sizes, fused, n, got[n], want)
    ctx.state(sizes, fused)


def type_of(n):
    for t in (np.uint8, np.uint16, np.uint32, np.uint64):
        if n <= int(np.iinfo(t).max):
            return np.dtype(t)


def one(kinds, pieces, group, how, ctx):
    """Columns of these kinds, rows written in pieces; how: 0 labels, 1
    positions, 2 sequences and iterators"""
    import h5py
    from ABXpy.h5tools.h5io import H5IO
    names = ['c%d' % i for i in range(len(kinds))]
    datasets, indexes, fused = {}, {}, {}
    for i, (n, k) in enumerate(zip(names, kinds)):
        if k == 'raw':
            datasets[n] = None
        elif k == 'shared':
            datasets[n] = 'l0'
            indexes['l0'] = LABELS['l0']
        else:
            own = 'l%d' % (1 + i % 4)
            # its own index, under a name of its own
            datasets[n] = 'of_' + n
            indexes['of_' + n] = LABELS[own]
            if k in ('fused', 'fused2'):
                fused.setdefault('fu' + k, []).append(n)
    total = sum(pieces)
    rows, positions = {}, {}
    for i, n in enumerate(names):
        if datasets[n] is None:
            rows[n] = [raw_value(r, i) for r in range(total)]
            positions[n] = rows[n]
        else:
            levels = indexes[datasets[n]]
            positions[n] = [(r * (i + 1) + i) % len(levels)
                            for r in range(total)]
            rows[n] = [levels[p] for p in positions[n]]
    path = ctx.path('f%d.h5' % ctx.n)
    ctx.n += 1
    given = positions if how == 1 else rows
    what = 'columns %s in pieces of %s (%s) in group %s' % (
        kinds, pieces, ('labels', 'positions', 'sequences')[how], group)
    chunks, at = [], 0
    for p in pieces:
        chunks.append({n: given[n][at:at + p] for n in names})
        at += p
    with H5IO(path, datasets, indexes or None, fused or None,
              group=group) as h:
        if how == 2:
            # sequences, in the order in which the columns were declared
            seqs = [[c[n] for n in names] for c in chunks]
            h.write(iter(seqs), iterate=True)
        else:
            for c in chunks:
                h.write(c, indexed=how == 1)
    ctx.step(len(pieces))
    with h5py.File(path, 'r') as f:
        got = decode(f, group)
    require(set(got) == set(names), '%s: %s', what, sorted(got))
    for n in names:
        require(got[n] == [[v] for v in rows[n]], '%s: column %s is %s and '
                'not %s', what, n, got[n], rows[n])
    ctx.state(kinds, pieces, how)


RAW = [
    ('i8', [2 ** 62 + 1, -2 ** 62 - 1, 2 ** 63 - 1, -2 ** 63, 0]),
    ('list', [2 ** 53 + 1, 2 ** 53, -2 ** 53 - 1, 1, 0]),
    ('u8', [2 ** 64 - 1, 2 ** 63, 0, 1, 2 ** 53 + 1]),
    ('i1', [127, -128, 0, 1, -1]), ('u1', [255, 0, 128, 1, 2]),
    ('i4', [2 ** 31 - 1, -2 ** 31, 0, 1, 2 ** 24 + 1]),
    ('f8', [0.1, 1e300, -5e-324, float('inf'), -0.0]),
    ('list', [0.1, 1 / 3., -2.5e-308, 1e22, 0.0]),
    ('f4', [0.5, 1.5, -0.25, 16777216.0, float('-inf')]),
    ('?', [True, False, True, True, False]),
]


def raw(k, ctx):
    """raw columns keep their values, in any number of pieces"""
    import h5py
    from ABXpy.h5tools.h5io import H5IO
    kind, values = RAW[k]
    for perm in itertools.permutations(range(5)):
        data = [values[i] for i in perm]
        for cut in range(1, 6):
            pieces = [data[:cut], data[cut:]] if cut < 5 else [data]
            if kind != 'list':
                pieces = [np.array(p, dtype=kind) for p in pieces]
            other = [i % 3 for i in perm]
            path = ctx.path('raw%d.h5' % (ctx.n % 20))
            ctx.n += 1
            what = 'raw column %s cut at %d' % (data, cut)
            with H5IO(path, {'r': None, 'x': 'x'}, {'x': ['a', 'b', 'c']},
                      None) as h:
                at = 0
                for p in pieces:
                    h.write({'r': p, 'x': other[at:at + len(p)]},
                            indexed=True)
                    at += len(p)
            ctx.step()
            with h5py.File(path, 'r') as f:
                got = decode(f, '/')
            g = [v[0] for v in got['r']]
            g = [v.decode('utf8') if isinstance(v, bytes) else v for v in g]
            require(len(g) == 5 and all(
                repr(a) == repr(b) for a, b in zip(g, data)),
                '%s: %s', what, g)
            require(got['x'] == [['abc'[i]] for i in other] or
                    got['x'] == [['abc'[i].encode()] for i in other],
                    '%s: the other column is %s', what, got['x'])
            os.remove(path)
    ctx.state('raw', k)


MIXED = [[1, 2], [0.5, 3.0], [2 ** 31, -1], [True, False], [4.0, 5.0],
         [2 ** 53 + 1, 1], [float('nan'), 1.0], [1e300, -0.25],
         np.array([1, 2], dtype='i1'), np.array([300, -2], dtype='i2'),
         np.array([0.5, 0.25], dtype='f4'), np.array([200, 0], dtype='u1'),
         np.array([[3], [4]])]


def mixed(ctx):
    """pieces of different types: refused, or stored without loss"""
    import h5py
    from ABXpy.h5tools.h5io import H5IO
    for i, j in itertools.product(range(len(MIXED)), repeat=2):
        for third in (None, 0, 1):
            pieces = [MIXED[i], MIXED[j]] + (
                [MIXED[third]] if third is not None else [])
            data = [float(v) if abs(float(v)) < 2 ** 53 else v
                    for p in pieces for v in np.ravel(p).tolist()]
            path = ctx.path('mixed.h5')
            what = 'raw column in pieces %s' % (pieces,)
            try:
                with H5IO(path, {'r': None, 'x': 'x'}, {'x': ['a', 'b']},
                          None) as h:
                    for p in pieces:
                        h.write({'r': p, 'x': [0, 1]}, indexed=True)
            except Exception:
                # same types, or the first ones hold the others
                kinds = [np.array(p).dtype for p in pieces]
                require(any(k != kinds[0] for k in kinds),
                        '%s: refused', what)
                ctx.state(i, j, 'refused')
            else:
                with h5py.File(path, 'r') as f:
                    got = f['r'][...][:, 0].tolist()
                require(len(got) == len(data) and all(
                    a == b or (a != a and b != b)
                    for a, b in zip(got, data)),
                    '%s: stored as %s', what, got)
                ctx.state(i, j)
            ctx.step()
            if os.path.exists(path):
                os.remove(path)


def types(fit, part, ctx):
    def check(n):
        for signed in (True, False):
            ts = (np.int8, np.int16, np.int32, np.int64) if signed else \
                (np.uint8, np.uint16, np.uint32, np.uint64)
            want = [t for t in ts if n <= int(np.iinfo(t).max)][:1]
            try:
                got = fit(n, is_signed=signed)
            except ValueError:
                require(not want, '%d (signed: %s): refused', n, signed)
                continue
            require(want and np.dtype(got) == np.dtype(want[0]),
                    '%d (signed: %s): %s', n, signed, got)
            if signed:
                require(np.dtype(fit(n)) == np.dtype(got), 'default type')
        ctx.step(2)
    for n in range(part, 70000, 8):
        check(n)
    for p in range(0, 67):
        for e in range(-9, 10):
            if (p + e) % 8 == part and 2 ** p + e >= 0:
                check(2 ** p + e)
                if 2 ** p + e < 2 ** 63:
                    check(np.int64(2 ** p + e))
    ctx.state(part)


def refusals(ctx):
    from ABXpy.h5tools.h5io import H5IO

    def refused(f, what):
        try:
            f()
        except Exception:
            ctx.step()
            return
        require(False, '%s: not refused', what)
    p = ctx.path
    refused(lambda: H5IO(p('a.h5'), ['x', 'y'], {'z': [1]}),
            'index of an unknown column')
    refused(lambda: H5IO(p('b.h5'), {'x': 'i'}, {}), 'missing index')
    refused(lambda: H5IO(p('c.h5'), {'x': None, 'y': 'i'}, {'i': [1, 2]},
                         {'f': ['x', 'y']}), 'fusing a raw column')
    refused(lambda: H5IO(p('d.h5')), 'a file which does not exist')

    def unknown():
        with H5IO(p('e.h5'), ['x'], {'x': ['a', 'b']}) as h:
            h.write({'x': ['c']})
    refused(unknown, 'a label which is not in the index')

    def partial():
        with H5IO(p('f.h5'), ['x', 'y'], {'x': ['a', 'b']}) as h:
            h.write({'x': ['a']})
    refused(partial, 'writing only some of the columns')

    def outside():
        h = H5IO(p('g.h5'), ['x'], {'x': ['a', 'b']})
        h.write({'x': ['a']})
    refused(outside, 'writing out of a context')

    def again():
        with H5IO(p('h.h5'), ['x'], {'x': ['a', 'b']}) as h:
            h.write({'x': ['a']})
        with H5IO(p('h.h5')) as h:
            h.write({'x': ['a']}, append=False)
    refused(again, 'writing again in a file without appending')
