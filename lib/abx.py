"""Item files, reference model of ABX tasks and decoding of the files
written by ABXpy.

The reference model is plain Python over lists of rows; it shares nothing
with the implementation.
"""
import itertools
import math
import os

from .core import require


# ------------------------------------------------------------ item files
def write_items(path, rows, columns, files=None, sep=' '):
    """Write an item file. rows: list of dicts column -> label.

    The location of row i is (file, onset, offset) = loc(i): it identifies
    the row in everything the implementation writes.
    """
    with open(path, 'w', encoding='utf8') as f:
        head = ['#file', 'onset', 'offset', '#' + columns[0]] + columns[1:]
        f.write(sep.join(head) + '\n')
        for i, row in enumerate(rows):
            loc = files[i] if files else location(i)
            f.write(sep.join(
                [str(x) for x in loc] + [str(row[c]) for c in columns]) + '\n')


def location(i):
    return ('f%d' % (i % 3), float(i), float(i) + 0.5)


def row_of(onset):
    """Row identified by an onset written by `location`"""
    return int(round(onset))


def table(labels, columns):
    """rows as dicts from tuples of labels"""
    return [dict(zip(columns, t)) for t in labels]


# ------------------------------------------------------------- the model
def triplets(rows, on, across, by, keep=None, keep_item=None):
    """All the triplets of a task: {by_key: [(a, b, x), ...]}

    keep(a, b, x): filter on the rows of a triplet; keep_item(row): filter
    on single items (generic filters)
    """
    groups = {}
    for i, r in enumerate(rows):
        if keep_item is None or keep_item(r):
            groups.setdefault(tuple(r[c] for c in by), []).append(i)
    out = {}
    for key, members in groups.items():
        # the conditions only depend on the ON and ACROSS labels, except
        # that X is another item than A
        cells = {}
        for i in members:
            cells.setdefault(
                (rows[i][on],) + tuple(rows[i][c] for c in across),
                []).append(i)
        same_on, same_across = {}, {}
        for c in cells:
            same_on.setdefault(c[0], []).append(c)
            same_across.setdefault(c[1:], []).append(c)
        res = []
        for ca, cb, cx in (
                (ca, cb, cx) for ca in cells for cb in same_across[ca[1:]]
                for cx in same_on[ca[0]]):
            if cb[0] == ca[0] or any(
                    cx[k] == ca[k] for k in range(1, len(ca))):
                continue
            for a in cells[ca]:
                for b in cells[cb]:
                    for x in cells[cx]:
                        if x != a and (keep is None or keep(
                                rows[a], rows[b], rows[x])):
                            res.append((a, b, x))
        if res:
            out[key] = sorted(res)
    return out


def by_label(key):
    """How the implementation names a by block"""
    if len(key) == 0:
        return '0'
    if len(key) == 1:
        return str(key[0])
    return str(tuple(key))


# ---------------------------------------------------------- task decoding
class Block(object):
    pass


def node(group, by):
    """The name of the node of a by label in a group of a task file"""
    name = str(by).replace('%', '%25').replace('/', '%2F')
    if name == '.' or name.startswith('_'):
        name = '%{:02X}'.format(ord(name[0])) + name[1:]
    return name if name in group else str(by)


def read_task(path, regressors=True, pairs=True):
    """Decode a task file: list of Block(by, triplets, regs, pairs)

    Everything is expressed in rows of the item file (see location).
    """
    import h5py
    import numpy as np
    import pandas
    blocks = []
    with h5py.File(path, 'r') as fh:
        bys = [str(b) for b in fh['bys'][...]]
        data = fh['triplets/data'][...]
        index = fh['triplets/by_index'][...]
        up = fh['unique_pairs/data'][...]
        require(data.ndim == 2 and data.shape[1] == 3,
                'triplets are not a 3 columns table')
        require(len(index) == len(bys), 'as many by indexes as by blocks')
        require(len(set(bys)) == len(bys), 'a by block is listed twice: {}',
                bys)
        for n, by in enumerate(bys):
            blk = Block()
            blk.by = by
            blk.start, blk.stop = int(index[n][0]), int(index[n][1])
            blk.raw = data[blk.start:blk.stop].astype(np.int64)
            attrs = fh['unique_pairs'].attrs[by]
            blk.base, blk.pstart, blk.pstop = [int(v) for v in attrs]
            blk.keys = up[blk.pstart:blk.pstop, 0].astype(np.int64)
            blk.regs, blk.numbers = {}, []
            if regressors:
                g = fh['regressors'][node(fh['regressors'], by)]
                names = [str(x) for x in g['indexed_datasets'][...]]
                ind = g['indexed_data'][...]
                require(ind.shape == (blk.stop - blk.start, len(names)),
                        'regressors of by block {} have shape {} for {} '
                        'triplets', by, ind.shape, blk.stop - blk.start)
                for j, name in enumerate(names):
                    levels = list(g['indexes'][name][...])
                    blk.regs[name] = [levels[int(k)] for k in ind[:, j]]
                blk.regnames = names
                # columns of numbers, one by triplet
                blk.numbers = [
                    d[...][:, 0].tolist() for k, d in sorted(g.items())
                    if isinstance(d, h5py.Dataset) and k != 'indexed_data'
                    and d.ndim == 2 and
                    d.shape == (blk.stop - blk.start, 1)]
            blocks.append(blk)
        n_triplets, n_pairs = data.shape[0], up.shape[0]
    pos = 0
    ppos = 0
    for blk in blocks:
        require(blk.start == pos and blk.stop > blk.start,
                'by indexes do not tile the triplets: {} at {}',
                (blk.start, blk.stop), pos)
        pos = blk.stop
        require(blk.pstart == ppos and blk.pstop >= blk.pstart,
                'by indexes do not tile the pairs')
        ppos = blk.pstop
    require(pos == n_triplets, 'by indexes end at {}, there are {} triplets',
            pos, n_triplets)
    require(ppos == n_pairs, 'by indexes end at {}, there are {} pairs',
            ppos, n_pairs)
    with pandas.HDFStore(path, 'r') as store:
        for blk in blocks:
            db = store['feat_dbs/' + node(store.root.feat_dbs, blk.by)]
            blk.items = [
                (str(f), float(a), float(o)) for f, a, o in zip(
                    db['file'], db['onset'], db['offset'])]
    for blk in blocks:
        rid = np.array([row_of(a) for _, a, _ in blk.items])
        blk.rows = rid
        require(blk.raw.min() >= 0 and blk.raw.max() < len(rid),
                'a triplet of by block {} refers to an item which does not '
                'exist', blk.by)
        blk.triplets = [tuple(t) for t in rid[blk.raw].tolist()]
        if pairs:
            first = blk.keys % blk.base
            second = blk.keys // blk.base
            require((blk.keys >= 0).all() and (second < len(rid)).all() and
                    (first < len(rid)).all(),
                    'a pair of by block {} refers to an item which does not '
                    'exist', blk.by)
            blk.pairs = list(zip(rid[first].tolist(), rid[second].tolist()))
    return blocks


# ------------------------------------------------------------ enumeration
def multisets(alphabet, sizes):
    for n in sizes:
        for m in itertools.combinations_with_replacement(alphabet, n):
            yield list(m)


def permuted(seq, k):
    """the k-th (mod n!) permutation of a sequence"""
    seq = list(seq)
    k %= math.factorial(len(seq))
    out = []
    for n in range(len(seq), 0, -1):
        f = math.factorial(n - 1)
        out.append(seq.pop(k // f))
        k %= f
    return out


# ------------------------------------------------------------ running ABX
def make_task(path, on, across, by, filters=None, regressors=None, **kw):
    from ABXpy.task import Task
    if filters:
        kw['filters'] = filters
    if regressors:
        kw['regressors'] = regressors
    return Task(path, on, list(across) or None, list(by) or None, **kw)


def generate(ctx, rows, columns, on, across, by, filters=None,
             regressors=None, name='data', files=None, aux=None, **kw):
    """Item file + task + triplets. Returns (task, path of the task file)

    aux: {column: [columns determined by it]} are written in auxiliary files
    """
    d = ctx.sub()
    item = os.path.join(d, name + '.item')
    derived = [c for cols in (aux or {}).values() for c in cols]
    write_items(item, rows, [c for c in columns if c not in derived], files)
    for col, cols in (aux or {}).items():
        with open(os.path.join(d, name + '.' + col), 'w',
                  encoding='utf8') as f:
            f.write(' '.join([col] + cols) + '\n')
            for line in sorted({
                    ' '.join(str(r[c]) for c in [col] + cols) for r in rows}):
                f.write(line + '\n')
    task = make_task(item, on, across, by, filters, regressors)
    out = os.path.join(d, name + '.abx')
    task.generate_triplets(output=out, **kw)
    ctx.step(2)
    return task, out


def write_features(path, times, features, names, group='features'):
    """An h5features file"""
    import h5features
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        h5features.write(path, group, names, times, features)


def compare_triplets(blocks, expected, what='triplets'):
    """The decoded blocks hold exactly the expected triplets, once each"""
    want = {by_label(k): v for k, v in expected.items()}
    got = {b.by: b.triplets for b in blocks}
    require(set(got) == set(want), '{}: by blocks {} instead of {}', what,
            sorted(got), sorted(want))
    for by, g in got.items():
        w = want[by]
        if len(g) != len(w) or set(g) != set(w):
            sg, sw = set(g), set(w)
            extra = sorted(sg - sw)[:3]
            missing = sorted(sw - sg)[:3]
            dup = len(g) - len(sg)
            require(False, '{} of by block {!r}: {} instead of {}; extra {} '
                    'missing {} duplicates {}', what, by, len(g), len(w),
                    extra, missing, dup)
