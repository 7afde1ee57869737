"""C07: each distance is that of the features of its own two items"""
import hashlib
import itertools
import os

from lib import abx, tables
from lib.core import require

ID = 'C07'
BOUNDS = {
    'quick': 'items with every combination of bounds before, on, just after, '
             'between and after the frames of their file; 1 to 5 by blocks '
             'of different sizes; 1 to 9 processes; all the ways of '
             'spreading 4 files over 1 to 3 feature files; jobs of 1 to 7 '
             'pairs run in every order; 257 to 65600 items in a block, 60 by '
             'blocks; all the normalization values',
    'thorough': 'as quick with 1 to 17 processes for every table, jobs of 1 '
                'to 40 pairs, 5 feature files',
}
ASSUMPTIONS = ['the distance function is deterministic']


def code(*what):
    h = hashlib.blake2b(repr(what).encode(), digest_size=6).digest()
    return float(int.from_bytes(h, 'big'))


def key(data):
    return (data.shape, data.dtype.str, data.tobytes())


def distance(x, y, *args, **kw):
    """asymmetric, different for all the arguments"""
    return code(key(x), key(y), args, sorted(kw.items()))


def scaled(x, y, *args, **kw):
    return -distance(x, y, *args, **kw) / 3.


# ------------------------------------------------------------------- data
def features(c):
    """{file: (times, features)}"""
    import numpy as np
    out = {}
    dtype = np.dtype(c.get('dtype', 'f8'))
    dim = c.get('dim', 2)
    for n, name in enumerate(c.get('names', ['f0', 'f1', 'f2', 'f3'])):
        k = 5 + n
        if c.get('times') == 'tight':
            # the nearest floats around multiples of 1/8
            t = []
            for m in range(1, k):
                v = m / 8.
                t += [np.nextafter(v, 0), v, np.nextafter(v, 9)]
            t = np.array(t)
        else:
            t = np.arange(1, k + 1) / 8.
        f = np.array([[100 * n + i + 1000 * j for j in range(dim)]
                      for i in range(len(t))], dtype=dtype)
        out[name] = (t, f)
    return out


def bounds_items(c):
    """one item for each combination of bounds"""
    feats = features(c)
    rows, files = [], []
    names = sorted(feats)
    for n, name in enumerate(names[:2]):
        t = feats[name][0]
        lo, hi = 1 / 8., round(t[-1] * 8) / 8.
        spots = [lo - 1 / 16., lo, lo + 1 / 64., lo + 1 / 16., lo + 1 / 8.,
                 hi - 1 / 8., hi - 1 / 64., hi, hi + 1 / 16.]
        for a, b in itertools.product(spots, spots):
            if a <= b:
                rows.append({'on': 'pq'[len(rows) % 2], 'ac': 's',
                             'by': 'u'})
                files.append((name, a, b))
    if c.get('part') is not None:
        rows, files = rows[c['part']::3], files[c['part']::3]
    return rows, files


def grid_items(c):
    """by blocks of different sizes, irregular"""
    sizes = c['sizes']
    feats = features(c)
    names = sorted(feats)
    rows, files = [], []
    i = 0
    for b, n in enumerate(sizes):
        for k in range(n):
            rows.append({'on': 'pqr'[k % 3], 'ac': 'st'[(k // 3) % 2],
                         'by': c.get('bys', 'uvwxyz')[b]})
            name = names[(i * 5 + k) % len(names)]
            a = (1 + (i * 3) % 5) / 8.
            files.append((name, a, a + (i % 4) / 16. + i / 2.0 ** 12))
            i += 1
    # blocks interleaved
    order = sorted(range(len(rows)), key=lambda j: ((j * 7) % len(rows), j))
    return [rows[j] for j in order], [files[j] for j in order]


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for times in (None, 'tight'):
        for part in range(3):
            for ncpu in (1, 3) if not deep else (1, 2, 3, 4, 7):
                out.append({'bounds': 1, 'times': times, 'part': part,
                            'ncpu': ncpu})
    out.append({'bounds': 1, 'part': 0, 'ncpu': 1, 'dtype': 'f4'})
    out.append({'bounds': 1, 'part': 1, 'ncpu': 2, 'dim': 1})
    sizes = [[6], [12], [6, 9], [12, 6, 6], [7, 13, 6, 8], [6, 6, 6, 6, 6],
             [14, 6], [24, 7]]
    for s in sizes:
        for ncpu in ((1, 2, 3, 4, 5, 9) if not deep else range(1, 18)):
            out.append({'sizes': s, 'ncpu': ncpu})
    for norm in ('None', '0', '1', 'True', 'False', '2', '0.0', '1.0'):
        for ncpu in (1, 2):
            out.append({'sizes': [6, 7], 'norm': norm, 'ncpu': ncpu})
    # the features in several files
    for assign in itertools.product(range(3), repeat=4):
        if assign[0] == 0 and (deep or sum(assign) % 2 == 0):
            out.append({'sizes': [6, 7], 'assign': list(assign),
                        'ncpu': 1 + assign[3]})
    for i in range(3):
        out.append({'sizes': [6], 'assign': [0, 1, 2, 1], 'dup': i,
                    'ncpu': 1})
    for names in (['0', '7', '10', '12'], ['a b'[0:1], 'a-b', 'a.b', 'B'],
                  ['\xe9t\xe9', 'x/y', 'z_1', 'z_1_2'],
                  ['1.5', '2.5', 'x1', 'x2'], ['01', '1', '001', '1.0'],
                  ['1e3', '1000', '1000.0', '0x3e8'],
                  ['TRUE', 'True', 'true', 'False'],
                  ['inf', '-inf', '+1', '1'],
                  ['12345678901234567890', '12345678901234567891',
                   '1_0', '10']):
        out.append({'sizes': [12, 6], 'names': names, 'ncpu': 1})
        out.append({'sizes': [12, 6], 'names': names, 'ncpu': 2})
    out.append({'sizes': [6, 7, 8], 'bys': [1, 10, 2], 'ncpu': 2})
    out.append({'sizes': [6, 7, 8], 'bys': [1.5, 0.25, 3.5], 'ncpu': 2})
    out.append({'sizes': [12, 12], 'filter': "[f == 's' for f in ac_B]",
                'ncpu': 2})
    for flt in ("[f != 'r' for f in on]", "[f == 's' for f in ac_X]"):
        out.append({'sizes': [12, 14], 'filter': flt, 'ncpu': 1})
        out.append({'sizes': [12, 14], 'filter': flt, 'ncpu': 3})
    for n, where in itertools.product((257, 300, 65600), (
            'first', 'last', 'ends', 'spread')):
        out.append({'large': n, 'where': where, 'ncpu': 1 + (n > 300)})
    for n, size, ncpu in ((290 if deep else 60, 1, 3), (20, 1, 1), (20, 6, 3)):
        out.append({'many': n, 'size': size, 'ncpu': ncpu, 'heavy': n > 50})
    # explicit jobs
    for s in ([6, 7], [12], [6, 6, 6]):
        for ncpu in (1, 2, 3, 4):
            for rows in (1, 2, 3, 5, 7) if not deep else range(1, 41):
                out.append({'sizes': s, 'jobs': rows, 'ncpu': ncpu})
    return out


def items_and_pairs(path):
    """the items of the pairs of a task file, in order"""
    import h5py
    import pandas
    res = []
    with h5py.File(path, 'r') as fh:
        bys = [str(b) for b in fh['bys'][...]]
        up = fh['unique_pairs/data'][...][:, 0]
        attrs = [[int(v) for v in fh['unique_pairs'].attrs[b]] for b in bys]
    with pandas.HDFStore(path, 'r') as store:
        for b, (base, start, stop) in zip(bys, attrs):
            require(start == len(res), 'pairs of by block {} start at {} '
                    'instead of {}', b, start, len(res))
            db = store['feat_dbs/' + abx.node(store.root.feat_dbs, b)]
            loc = [(str(f), float(a), float(o)) for f, a, o in zip(
                db['file'], db['onset'], db['offset'])]
            for v in up[start:stop].tolist():
                res.append((loc[v % base], loc[v // base]))
    require(len(res) == len(up), 'pairs')
    return res


def item_features(loc, feats):
    import numpy as np
    f, on, off = loc
    t, x = feats[f]
    if len(t) < 1000:
        keep = [i for i in range(len(t)) if on <= t[i] <= off]
    else:
        keep = np.nonzero((t >= on) & (t <= off))[0].tolist()
    return np.array([x[i] for i in keep], dtype=x.dtype).reshape(
        (len(keep), x.shape[1]))


def write_all(d, feats, assign, dup=None):
    """feature files; returns (paths, groups)"""
    paths, groups = [], []
    names = sorted(feats)
    for k in range(max(assign) + 1):
        mine = [n for n, a in zip(names, assign) if a == k]
        if dup is not None and k == (dup + 1) % 3:
            mine.append(names[assign.index(dup)])
        if not mine:
            continue
        path = os.path.join(d, 'features%d.h5' % k)
        group = ['features', 'mfcc', 'g'][k % 3]
        abx.write_features(path, [feats[n][0] for n in mine],
                           [feats[n][1] for n in mine], mine, group)
        paths.append(path)
        groups.append(group)
    return paths, groups


def run(c, ctx):
    import h5py
    import numpy as np
    from ABXpy.distances import distances
    if 'large' in c or 'many' in c:
        if 'large' in c:
            rows = tables.large(c['large'], c['where'], 'f')[0]
        else:
            rows = tables.many(c['many'], c['size'])[0]
        files = [abx.location(i) for i in range(len(rows))]
        # one frame for each item
        feats = {'f%d' % k: (
            np.arange(float(len(rows))),
            np.array([[i, 1000000 + k] for i in range(len(rows))], 'f8'))
            for k in range(3)}
    else:
        feats = features(c)
        rows, files = bounds_items(c) if 'bounds' in c else grid_items(c)
    require(len(set(files)) == len(files), 'locations')
    by = ['by']
    across = [] if 'bounds' in c else ['ac']
    task, out = abx.generate(
        ctx, rows, ['on', 'ac', 'by'], 'on', across, by,
        [c['filter']] if 'filter' in c else None, files=files)
    d = ctx.sub()
    assign = c.get('assign', [0] * len(feats))
    paths, groups = write_all(d, feats, assign, c.get('dup'))
    pairs = items_and_pairs(out)
    dist = os.path.join(d, 'x.distance')
    norm = eval(c.get('norm', 'None'))
    kw = {}
    if norm is not None:
        kw = {'normalized': not (norm == 0)}
    fun = distance
    if 'jobs' in c:
        fun = scaled
        ncpu = c['ncpu']
        jobs = distances.create_distance_jobs(
            out, dist, ncpu, buffer_max_size=c['jobs'] * 8 / 1e6)
        require(len(jobs) == ncpu, '{} jobs for {} processes', len(jobs),
                ncpu)
        with h5py.File(dist, 'r+') as f:
            f['distances/data'][...] = np.nan
        for i in (range(ncpu) if c['jobs'] % 2 else range(ncpu)[::-1]):
            distances.run_distance_job(
                jobs[i], dist, fun, paths, groups, False, i, norm)
            ctx.step()
    else:
        args = (paths[0], groups[0]) if len(paths) == 1 else (paths, groups)
        more = {} if len(paths) == 1 else {'feature_file_as_list': True}
        try:
            distances.compute_distances(
                args[0], args[1], out, dist, fun, norm, n_cpu=c['ncpu'],
                **more)
        except AssertionError:
            if 'dup' in c:
                return
            raise
        require('dup' not in c, 'a file present in two feature files is '
                'accepted')
        ctx.step()
    with h5py.File(dist, 'r') as f:
        got = f['distances/data'][...]
    require(got.shape == (len(pairs), 1), '{} distances for {} pairs',
            got.shape, len(pairs))
    known = {loc: item_features(loc, feats) for p in pairs for loc in p}
    given = set(files) | {(str(f), float(a), float(o)) for f, a, o in files}
    for loc in known:
        require(loc in given, 'unknown item {}', loc)
    for i, (a, x) in enumerate(pairs):
        want = fun(known[a], known[x], **kw)
        if got[i, 0] != want:
            why = 'another value'
            if got[i, 0] == fun(known[x], known[a], **kw):
                why = 'the one of the pair in the other order'
            elif got[i, 0] == fun(known[a], known[x]):
                why = 'computed without the normalization argument'
            else:
                for j, (a2, x2) in enumerate(pairs):
                    if got[i, 0] == fun(known[a2], known[x2], **kw):
                        why = 'the one of pair %d' % j
                        break
            require(False, 'the distance of pair {} ({}, {}) is {}', i, a, x,
                    why)
    ctx.state(len(pairs), got[:50].tolist())
    ctx.count('distances', len(pairs))
