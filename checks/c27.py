"""C27: generated designs are complete, comparisons see every change"""
import itertools
import os

import numpy as np

from lib.core import require

ID = 'C27'
BOUNDS = {
    'quick': 'designs of base 1 to 5, 1 to 5 columns, 0 to 3 repeats (up to '
             '1300 items), both generators; features of 1 to 4 files with '
             'all the outcomes of the numbers of frames (up to 3), sizes 1 '
             'to 3, over an existing file or not, and with the generator of '
             'numpy; tables and tasks made of them; all the pairs '
             'among 140 tables of 0 to 2 '
             'rows and 1 or 2 columns in 2 orders, with 2 separators; all the pairs of 30 '
             'HDF5 files; all the histories of 4 writings and comparisons '
             'of 2 files, with and without new times of modification',
    'thorough': 'as quick with designs of up to 8000 items and pairs among '
                'tables of 3 rows, histories of 5 operations',
}
ASSUMPTIONS = ['tables are compared as the values pandas reads in them']


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for base in range(1, 6):
        for n in range(1, 6):
            for rep in range(4):
                if base ** n * (rep + 1) <= (8000 if deep else 1300):
                    out.append({'base': base, 'columns': n, 'repeats': rep})
    for files in range(1, 5):
        for frames in range(1, 4):
            out.append({'files': files, 'frames': frames})
    for base, n, rep in ((2, 1, 0), (2, 2, 0), (2, 3, 1), (3, 3, 0),
                         (3, 3, 1), (1, 3, 2), (4, 2, 1)):
        out.append({'both': [base, n, rep]})
    for part in range(16):
        out.append({'csv': 3 if deep else 2, 'part': part})
    for part in range(8):
        out.append({'h5': part})
    for first in range(8):
        out.append({'bytes': first, 'depth': 5 if deep else 4})
    return out


def design(case, ctx):
    from ABXpy.misc import items
    from ABXpy.database import database
    base, n, rep = case['base'], case['columns'], case['repeats']
    for named in (False, True):
        path = ctx.path('x%d.item' % named)
        what = '%s of base %d, %d columns, %d repeats' % (
            'named items' if named else 'items', base, n, rep)
        gen = (items.generate_named_testitems if named
               else items.generate_testitems)
        gen(base, n, rep, path)
        ctx.step()
        db, _, feat = database.load(path, features_info=True)
        columns = ['c%d' % j for j in range(n)]
        require(list(db.columns) == ['item' if named else 'src'] + columns,
                '%s: columns %s', what, list(db.columns))
        require(len(db) == base ** n * (rep + 1), '%s: %d items', what,
                len(db))
        count = {}
        for row in db[columns].values.tolist():
            count[tuple(row)] = count.get(tuple(row), 0) + 1
        label = (lambda j, v: 'c%d_v%d' % (j, v)) if named else (
            lambda j, v: v)
        want = {tuple(label(j, v) for j, v in enumerate(c)): rep + 1
                for c in itertools.product(range(base), repeat=n)}
        require(count == want, '%s: combinations of labels %s', what, count)
        for c in (db.columns[0], 'file'):
            values = list((db if c != 'file' else feat)[c])
            require(len(set(values)) == len(values), '%s: column %s is not '
                    'unique', what, c)
        if named:
            require(list(feat['file']) == ['s%d' % i for i in range(len(db))],
                    '%s: files %s', what, list(feat['file']))
    # optional arguments
    if rep == 0:
        here = os.getcwd()
        os.chdir(ctx.sub())
        try:
            items.generate_testitems(base, n)
            with open('data.item', 'rb') as f, \
                    open(ctx.path('x0.item'), 'rb') as g:
                require(f.read() == g.read(), 'default arguments')
        finally:
            os.chdir(here)
    ctx.state(base, n, rep)


def read_features(path):
    import h5features
    times, feats = h5features.read(path, 'features')
    return ({k: np.asarray(v) for k, v in times.items()},
            {k: np.asarray(v) for k, v in feats.items()})


def coherent(path, files, dim, frames, what, exact=None):
    times, feats = read_features(path)
    names = ['s%d' % i for i in range(files)]
    require(sorted(feats) == sorted(names) and sorted(times) == sorted(names),
            '%s: files %s', what, sorted(feats))
    for i, k in enumerate(names):
        shape = feats[k].shape
        require(len(shape) == 2 and shape[1] == dim and
                1 <= shape[0] <= frames, '%s: file %s of shape %s', what, k,
                shape)
        if exact is not None:
            require(shape[0] == exact[i], '%s: %d frames in %s', what,
                    shape[0], k)
        t = times[k].reshape(shape[0], -1)[:, 0]
        require((t == np.linspace(0, 1, shape[0])).all(), '%s: times %s',
                what, t)
        require(np.isfinite(feats[k]).all(), '%s: features', what)
    values = np.concatenate([feats[k].ravel() for k in names])
    require(len(set(values)) == len(values), '%s: repeated values', what)


class Script(object):
    """the numbers of frames which are drawn"""

    def __init__(self, values):
        self.values = list(values)
        self.calls = []

    def __call__(self, low, high=None, *args, **kw):
        lo, hi = (0, low) if high is None else (low, high)
        self.calls.append((lo, hi))
        v = self.values[len(self.calls) - 1]
        return lo + v


def features(case, ctx):
    from ABXpy.misc import items
    files, frames = case['files'], case['frames']
    for dim in (1, 2, 3):
        for k, outcome in enumerate(itertools.product(range(frames),
                                                      repeat=files)):
            path = ctx.path('f%d.features' % (k % 2))
            script = Script(outcome)
            old = np.random.randint
            np.random.randint = script
            np.random.seed(k)
            what = '%d files, at most %d frames, drawn %s' % (
                files, frames, outcome)
            try:
                items.generate_features(files, dim, frames, path)
            except Exception:
                # (drawn in another way)
                script.calls = []
                np.random.randint = old
                items.generate_features(files, dim, frames, path)
            finally:
                np.random.randint = old
            ctx.step()
            used = script.calls == [(0, frames)] * files
            coherent(path, files, dim, frames, what,
                     [v + 1 for v in outcome] if used else None)
            ctx.state(files, frames, outcome)
        for seed in range(5):
            np.random.seed(seed)
            path = ctx.path('g.features')
            items.generate_features(files, dim, frames, path)
            coherent(path, files, dim, frames, 'seed %d' % seed)


def both(case, ctx):
    from ABXpy.misc import items
    from ABXpy import verify
    from lib import abx
    base, n, rep = case['both']
    item, feat = ctx.path('d.item'), ctx.path('d.features')
    np.random.seed(3)
    items.generate_db_and_feat(base, n, rep, item, 2, 3, feat)
    size = base ** n * (rep + 1)
    what = 'items and features of base %d, %d columns, %d repeats' % (
        base, n, rep)
    coherent(feat, size, 2, 3, what)
    with open(item) as f:
        lines = f.read().splitlines()
    require(len(lines) == size + 1, '%s: %d lines', what, len(lines))
    items.generate_named_testitems(base, n, rep, ctx.path('e.item'))
    with open(ctx.path('e.item')) as f:
        require(f.read().splitlines() == lines, '%s: other items', what)
    # a task on it: all the columns are independent
    if n >= 3 and base > 1:
        from ABXpy.task import Task
        t = Task(item, 'c0', 'c1', 'c2', verbose=False)
        cell = (rep + 1) * base ** (n - 3)
        got = t.stats['nb_triplets']
        want = base * (base * base * cell * (base - 1) * cell *
                       (base - 1) * cell)
        require(got == want, '%s: %d triplets instead of %d', what, got, want)
    ctx.step()
    ctx.state('both', base, n, rep)


# ------------------------------------------------------------- comparisons
def tables(n):
    """(columns, rows)"""
    out = []
    for cols in (('a',), ('b',), ('a', 'b'), ('b', 'a')):
        if len(cols) == 1:
            values = [('1',), ('2',), ('x',)]
        else:
            values = [('1', '1'), ('1', '2'), ('2', '1'), ('x', '1'),
                      ('x', '2')] + ([] if n > 2 else
                                     [('1', 'x'), ('y', '0.5')])
        for k in range(n + 1):
            for rows in itertools.product(values, repeat=k):
                out.append((cols, rows))
    return out


def meaning(table):
    cols, rows = table
    order = sorted(range(len(cols)), key=lambda i: cols[i])
    return (sorted(cols), sorted([row[i] for i in order] for row in rows))


def csv(case, ctx):
    from ABXpy.misc import items
    pool = tables(case['csv'])
    if case['csv'] > 2:
        pool = pool[::3]
    for sep in ('\t', ','):
        paths = []
        for k, (cols, rows) in enumerate(pool):
            p = ctx.path('t%d_%d.csv' % (k, sep == ','))
            with open(p, 'w') as f:
                f.write('\n'.join(sep.join(r) for r in (cols,) + rows) +
                        '\n')
            paths.append(p)
        means = [meaning(t) for t in pool]
        for i in range(len(pool)):
            if i % 16 != case['part']:
                continue
            for j in range(len(pool)):
                # (a third of the different ones with the second separator)
                if means[i] != means[j] and sep == ',' and (i + j) % 3:
                    continue
                if sep == '\t':
                    got = items.csv_cmp(paths[i], paths[j])
                else:
                    got = items.csv_cmp(paths[i], paths[j], sep=',')
                ctx.step()
                want = means[i] == means[j]
                require(bool(got) == want, 'tables %s and %s are said %s',
                        pool[i], pool[j], 'equal' if got else 'different')
        ctx.state(sep, case['part'])


def h5(part, ctx):
    import h5py
    from ABXpy.misc import items
    contents = [{}]
    for d in ([0], [1], [1, 2], [1, 3], [2, 1], [1, 2, 3], [[1, 2]],
              [0.5, 1.5], [0.5, 2.5], [0.5, 1.5000001]):
        contents.append({'x': d})
        contents.append({'g/x': d})
    contents += [{'x': [1, 2], 'y': [1]}, {'x': [1, 2], 'y': [2]},
                 {'x': [1, 2], 'g/y': [1]}, {'y': [1, 2]},
                 {'x': [1, 2], '@': 1}, {'x': [1, 2], '@': 2},
                 {'x': [1, 2], '@x': 1}, {'x': ['a', 'b']},
                 {'x': ['a', 'c']}]
    paths = []
    for copy in range(2):
        for k, c in enumerate(contents):
            p = ctx.path('%d_%d.h5' % (copy, k))
            with h5py.File(p, 'w') as f:
                for name, v in c.items():
                    if name == '@':
                        f.attrs['at'] = v
                    elif name == '@x':
                        f['x'].attrs['at'] = v
                    else:
                        f[name] = np.array(v, dtype='S1') if isinstance(
                            v[0], str) else np.array(v)
            paths.append(p)
    n = len(contents)
    for i in range(n):
        if i % 8 != part:
            continue
        for j in range(n):
            got = items.h5cmp(paths[i], paths[n + j])
            ctx.step()
            require(bool(got) == (i == j), 'HDF5 files %s and %s are said '
                    '%s', contents[i], contents[j],
                    'equal' if got else 'different')
    ctx.state('h5', part)


def files_history(case, ctx):
    """all the histories of writings (with or without a new time of
    modification) and comparisons of two files"""
    from ABXpy.misc import items
    contents = [b'abc', b'abd', b'ab']
    ops = [('write', f, c) for f in range(2) for c in range(3)] + [
        ('cmp', 0, 1), ('cmp', 1, 0)]
    paths = [ctx.path('one'), ctx.path('two')]

    def write(f, c, t):
        with open(paths[f], 'wb') as h:
            h.write(contents[c])
        os.utime(paths[f], (t, t))

    for t0 in (0, 1):
        for rest in itertools.product(ops, repeat=case['depth'] - 1):
            now, step = [0, 0], 0
            write(0, 0, 10 ** 9)
            write(1, 0, 10 ** 9)
            for what, a, b in (ops[case['bytes']],) + rest + (ops[-2],):
                step += 1
                if what == 'write':
                    write(a, b, 10 ** 9 + t0 * step)
                    now[a] = b
                    continue
                got = items.cmp(paths[a], paths[b])
                require(bool(got) == (now[0] == now[1]),
                        'after %s, files %r and %r are said %s',
                        (ops[case['bytes']],) + rest, contents[now[0]],
                        contents[now[1]], 'equal' if got else 'different')
            ctx.step()
    ctx.state('bytes', case['bytes'])


def run(case, ctx):
    if 'base' in case:
        design(case, ctx)
    elif 'files' in case:
        features(case, ctx)
    elif 'both' in case:
        both(case, ctx)
    elif 'csv' in case:
        csv(case, ctx)
    elif 'h5' in case:
        h5(case['h5'], ctx)
    else:
        files_history(case, ctx)
