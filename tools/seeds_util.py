"""Helpers of the demonstrations: everything happens in a scratch folder"""
import atexit
import itertools
import os
import shutil
import sys
import tempfile
import warnings

sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
REPO = os.getcwd()
D = tempfile.mkdtemp(prefix='abxdemo')
atexit.register(shutil.rmtree, D, True)
os.chdir(D)
os.environ['PYTHONPATH'] = REPO
warnings.simplefilter('ignore')

import h5py  # noqa
import numpy as np  # noqa
import pandas  # noqa


def items(rows, cols, path='data.item'):
    """row i is located at i, i + 0.5 of file f0"""
    with open(path, 'w') as f:
        f.write('#file onset offset #' + ' '.join(cols) + '\n')
        for i, r in enumerate(rows):
            f.write('f0 %d %d.5 ' % (i, i) + ' '.join(map(str, r)) + '\n')
    return path


def task(rows, cols, on, across=None, by=None, out='data.abx',
         filters=None, regressors=None, **kw):
    from ABXpy.task import Task
    t = Task(items(rows, cols), on, across, by, filters=filters,
             regressors=regressors)
    if os.path.exists(out):
        os.remove(out)
    t.generate_triplets(output=out, **kw)
    return t


def triplets(path='data.abx'):
    """the triplets, in rows of the item file, in order"""
    res = []
    with h5py.File(path, 'r') as f, pandas.HDFStore(path, 'r') as s:
        for i, by in enumerate(f['bys'][...]):
            a, b = f['triplets/by_index'][i]
            rows = np.array([int(x) for x in s['feat_dbs/' + by]['onset']])
            res += [tuple(t) for t in
                    rows[f['triplets/data'][a:b].astype(int)].tolist()]
    return res


def regressor(name, path='data.abx'):
    res = []
    with h5py.File(path, 'r') as f:
        for by in f['bys'][...]:
            g = f['regressors'][by]
            k = list(g['indexed_datasets'][...]).index(name)
            levels = g['indexes'][name][...]
            res += [levels[int(i)] for i in g['indexed_data'][:, k]]
    return res


def pairs(path='data.abx'):
    res = []
    with h5py.File(path, 'r') as f, pandas.HDFStore(path, 'r') as s:
        for by in f['bys'][...]:
            base, a, b = f['unique_pairs'].attrs[by]
            rows = [int(x) for x in s['feat_dbs/' + by]['onset']]
            res += [(rows[int(k % base)], rows[int(k // base)])
                    for k in f['unique_pairs/data'][a:b, 0]]
    return res


def brute(rows, cols, on, across=(), by=(), keep=lambda a, b, x: True):
    ix = {c: i for i, c in enumerate(cols)}
    g = lambda r, c: rows[r][ix[c]]
    n = range(len(rows))
    return [(a, b, x) for a in n for b in n for x in n
            if g(a, on) == g(x, on) != g(b, on) and a != x
            and all(g(a, c) == g(b, c) != g(x, c) for c in across)
            and all(g(a, c) == g(b, c) == g(x, c) for c in by)
            and keep(rows[a], rows[b], rows[x])]


def features(feats, times, path='data.features'):
    """feats: file -> frames"""
    import h5features
    names = sorted(feats)
    if os.path.exists(path):
        os.remove(path)
    h5features.write(path, 'features', names, [times[n] for n in names],
                     [feats[n] for n in names])
    return path


def same(got, want, what):
    got, want = sorted(got), sorted(want)
    assert got == want, '%s: %d instead of %d' % (what, len(got), len(want))
