"""C14: buffered HDF5 writing and reading preserve the data and its order

All the sequences of write (resp. read) operations up to a depth are run on
the real classes; the model is a list of rows.
"""
import itertools
import os

import numpy as np

from lib.core import require

ID = 'C14'
BOUNDS = {
    'quick': 'writer: all sequences of up to 4 writes of 0 to 5 rows, '
             'buffers of 1 to 5 rows, growing and fixed size datasets '
             '(complete, too short, too long), 1 and 3 columns, 7 item '
             'types, file names and open files, one or two datasets at a '
             'time; reader: 0 to 8 rows, buffers of 1 to 5 rows, 4 refill '
             'policies, all sequences of up to 4 reads of 1, 2, 3, 7 rows '
             'or of the buffer, then to the end; all sub ranges of 8 rows; '
             'two readers of the same dataset',
    'thorough': 'as quick with up to 5 writes and 5 reads, buffers of up to '
                '7 rows, 12 rows',
}
TYPES = ['i8', 'i1', 'u2', 'u8', 'f4', 'f8', 'u1']


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for depth in range(0, 6 if deep else 5):
        for buf in range(1, 8 if deep else 6):
            if depth >= 4:
                for first in range(6):
                    out.append({'write': depth, 'buf': buf, 'first': first})
            else:
                out.append({'write': depth, 'buf': buf})
    for dtype in TYPES:
        for cols in (1, 2, 3, 5):
            out.append({'roundtrip': dtype, 'cols': cols})
    for buf in range(1, 5):
        out.append({'fixed': buf})
    out.append({'overwrite': 1})
    out.append({'two': 1})
    for n in range(0, 13 if deep else 9):
        for buf in range(1, 8 if deep else 6):
            for portion in (0.25, 0.01, 0.5, 1.0):
                out.append({'read': n, 'buf': buf, 'portion': portion,
                            'depth': 5 if deep else 4})
    for buf in range(1, 6):
        for portion in (0.25, 0.75):
            out.append({'range': 8, 'buf': buf, 'portion': portion})
    out.append({'readers': 1})
    return out


def rows(start, n, cols, dtype='i8'):
    a = np.arange(start * cols, (start + n) * cols).reshape(n, cols)
    if dtype[0] == 'f':
        a = a * 0.5
    return (a % 251 if dtype in ('i1', 'u1') else a).astype(dtype)


def mem():
    import h5py
    mem.n = getattr(mem, 'n', 0) + 1
    f = h5py.File('mem%d.h5' % mem.n, 'w', driver='core',
                  backing_store=False)
    OPEN.append(f)
    return f


OPEN = []


def kb(buf, cols, dtype):
    return buf * cols * np.dtype(dtype).itemsize / 1000.


def write(f, pieces, buf, cols=2, dtype='i8', name='d', **kw):
    from ABXpy.h5tools import np2h5
    with np2h5.NP2H5(f) as o:
        d = o.add_dataset('g', name, n_columns=cols, item_type=np.dtype(dtype),
                          buf_size=kb(buf, cols, dtype), **kw)
        at = 0
        for p in pieces:
            d.write(rows(at, p, cols, dtype))
            at += p


def content(f, name='d'):
    import h5py
    if isinstance(f, str):
        with h5py.File(f, 'r') as h:
            return h['g'][name][...]
    return f['g'][name][...]


def equal(a, b):
    return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b)


def check_write(pieces, buf, ctx, on_disk=False):
    n = sum(pieces)
    cols = 1 + len(pieces) % 3
    f = os.path.join(ctx.sub(), 'f.h5') if on_disk else mem()
    write(f, pieces, buf, cols, fixed_size=False)
    ctx.step(len(pieces))
    got = content(f)
    require(equal(got, rows(0, n, cols)), 'writes of %s rows with a buffer '
            'of %d rows, growing: the dataset has %s rows: %s', pieces, buf,
            got.shape[0], got[:, 0].tolist())
    if n:
        write(f, pieces, buf, cols, name='e', n_rows=n)
        ctx.step(len(pieces))
        got = content(f, 'e')
        require(equal(got, rows(0, n, cols)), 'writes of %s rows with a '
                'buffer of %d rows, fixed size: %s', pieces, buf,
                got[:, 0].tolist())
    ctx.state('w', buf, cols, n)
    release()


def refused(f, *args, **kw):
    try:
        f(*args, **kw)
    except Exception as e:
        return type(e).__name__
    return None


def read_all(reader, amounts, n, what, ctx, start=0):
    """Read with these amounts then to the end; returns the positions"""
    at = start
    for a in itertools.chain(amounts, itertools.repeat(None)):
        try:
            data = reader.read() if a is None else reader.read(a)
        except StopIteration:
            break
        ctx.step()
        require(data.shape[0] > 0 and (a is None or data.shape[0] <= a),
                '%s: %d rows for %s asked', what, data.shape[0], a)
        require(a is None or data.shape[0] == min(a, n - at),
                '%s: %d rows for %s asked, %d left', what, data.shape[0], a,
                n - at)
        require(np.array_equal(data[:, 0] // 2,
                               np.arange(at, at + data.shape[0])) and
                np.array_equal(data[:, 1], data[:, 0] + 1),
                '%s: rows %s at %d', what, data[:, 0].tolist(), at)
        at += data.shape[0]
        require(at <= n, '%s: more rows than there are', what)
    require(at == n, '%s: stops at row %d of %d', what, at, n)
    for _ in range(2):
        try:
            reader.read(1)
        except StopIteration:
            continue
        require(False, '%s: the end is not signaled', what)


def release():
    while OPEN:
        OPEN.pop().close()


def run(case, ctx):
    try:
        explore(case, ctx)
    finally:
        release()


def explore(case, ctx):
    from ABXpy.h5tools import np2h5, h52np
    if 'write' in case:
        depth, buf = case['write'], case['buf']
        sizes = [range(6)] * depth
        if 'first' in case:
            sizes[0] = [case['first']]
        for k, pieces in enumerate(itertools.product(*sizes)):
            check_write(pieces, buf, ctx, on_disk=k % 60 == 7)
        # a piece much longer than the buffer
        if 'first' not in case:
            check_write((case['write'], 23, 1), buf, ctx)
        return
    if 'roundtrip' in case:
        dtype, cols = case['roundtrip'], case['cols']
        for buf in (1, 3, 4, 100):
            for pieces in ((1,), (3, 4), (10, 0, 1), (2,) * 9):
                n = sum(pieces)
                for kw in ({'fixed_size': False}, {'n_rows': n}):
                    f = os.path.join(ctx.sub(), 'f.h5')
                    write(f, pieces, buf, cols, dtype, **kw)
                    got = content(f)
                    want = rows(0, n, cols, dtype)
                    require(equal(got, want), '%s rows of %s: %s', pieces,
                            dtype, got.tolist())
                    with h52np.H52NP(f) as i:
                        data = [d for d in i.add_dataset(
                            'g', 'd', buf_size=kb(buf, cols, dtype))]
                    ctx.step(len(data))
                    require(equal(np.concatenate(data), want),
                            'iterating over %d rows of %s: %s', n, dtype,
                            np.concatenate(data).tolist())
        # default buffers
        f = os.path.join(ctx.sub(), 'f.h5')
        with np2h5.NP2H5(f) as o:
            d = o.add_dataset('g', 'd', n_columns=cols, item_type=dtype,
                              fixed_size=False)
            for k in range(3):
                d.write(rows(9000 * k, 9000, cols, dtype))
        require(equal(content(f), rows(0, 27000, cols, dtype)),
                'default buffers: the %s rows written are not there', dtype)
        with h52np.H52NP(f) as i:
            data = np.concatenate(list(i.add_dataset('g', 'd')))
        require(equal(data, rows(0, 27000, cols, dtype)),
                'default buffers: the %s rows read are not those of the file',
                dtype)
        ctx.state('t', dtype, cols)
        return
    if 'fixed' in case:
        buf = case['fixed']
        for n in range(1, 6):
            for pieces in itertools.product(range(4), repeat=2):
                if sum(pieces) < n:
                    for on_disk in (False, True):
                        f = os.path.join(ctx.sub(), 'f.h5') if on_disk \
                            else mem()
                        err = refused(write, f, pieces, buf, 2, n_rows=n)
                        ctx.step()
                        require(err, '%s rows written in a dataset of %d '
                                '(buffer of %d): not reported', pieces, n,
                                buf)
                elif sum(pieces) == n:
                    require(not refused(write, mem(), pieces, buf, 2,
                                        n_rows=n),
                            '%s rows in a dataset of %d: refused', pieces, n)
                elif sum(pieces) > n:
                    f = mem()
                    err = refused(write, f, pieces, buf, 2, n_rows=n)
                    if not err:
                        require(equal(content(f), rows(0, sum(pieces), 2)),
                                '%s rows in a dataset of %d: rows are lost '
                                'silently', pieces, n)
                ctx.state('f', n, pieces)
        return
    if 'overwrite' in case:
        for on_disk in (False, True):
            f = os.path.join(ctx.sub(), 'f.h5') if on_disk else mem()
            write(f, (3,), 2, n_rows=3)
            before = content(f)
            for kw in ({'n_rows': 3}, {'n_rows': 4}, {'fixed_size': False},
                       {'n_rows': 5, 'overwrite': True},
                       {'n_rows': 3, 'overwrite': True, 'dtype': 'i4'},
                       {'n_rows': 3, 'overwrite': True, 'cols': 1},
                       {'fixed_size': False, 'overwrite': True}):
                err = refused(write, f, (3,), 2, **kw)
                ctx.step()
                require(err, 'writing an existing dataset with %s: not '
                        'refused', kw)
                require(equal(content(f), before),
                        'writing an existing dataset with %s changes it', kw)
            with np2h5.NP2H5(f) as o:
                d = o.add_dataset('g', 'd', n_rows=3, n_columns=2,
                                  overwrite=True)
                d.write(rows(5, 3, 2))
            require(equal(content(f), rows(5, 3, 2)),
                    'an overwritten dataset has not the new rows')
            # in another dataset or another group: not concerned
            write(f, (2,), 2, name='z', n_rows=2)
            with np2h5.NP2H5(f) as o:
                o.add_dataset('h', 'd', n_rows=1, n_columns=2).write(
                    rows(9, 1, 2))
            require(equal(content(f), rows(5, 3, 2)) and
                    equal(content(f, 'z'), rows(0, 2, 2)),
                    'writing a dataset changes another one')
        return
    if 'two' in case:
        for k, order in enumerate(itertools.product((0, 1), repeat=6)):
            f = mem()
            at = [0, 0]
            with np2h5.NP2H5(f) as o:
                ds = [o.add_dataset('g', 'd', n_columns=2, fixed_size=False,
                                    buf_size=kb(2, 2, 'i8')),
                      o.add_dataset('g', 'e', n_columns=1, fixed_size=False,
                                    item_type=np.int32,
                                    buf_size=kb(3, 1, 'i4'))]
                for j, w in enumerate(order):
                    n = (j * 5 + k) % 4
                    ds[w].write(rows(at[w], n, 2 - w, ('i8', 'i4')[w]))
                    at[w] += n
            ctx.step(6)
            for w in (0, 1):
                require(equal(content(f, 'de'[w]),
                              rows(0, at[w], 2 - w, ('i8', 'i4')[w])),
                        'two datasets written in order %s: %s', order,
                        content(f, 'de'[w]).tolist())
        return
    if 'read' in case:
        n, buf = case['read'], case['buf']
        f = mem()
        f.create_group('g').create_dataset('d', data=rows(0, n, 2))
        amounts = (None, 1, 2, 3, 7)
        for seq in itertools.product(amounts, repeat=case['depth']):
            with h52np.H52NP(f) as i:
                r = i.add_dataset('g', 'd', buf_size=kb(buf, 2, 'i8'),
                                  minimum_occupied_portion=case['portion'])
                read_all(r, seq, n, '%d rows, buffer of %d, reads %s' % (
                    n, buf, seq), ctx)
            ctx.state('r', n, buf, case['portion'], seq)
        require(equal(content(f), rows(0, n, 2)), 'reading changes the file')
        for bad in (0, -1):
            with h52np.H52NP(f) as i:
                r = i.add_dataset('g', 'd', buf_size=kb(buf, 2, 'i8'))
                require(refused(r.read, bad), 'reading %d rows: not refused',
                        bad)
        return
    if 'range' in case:
        n, buf = case['range'], case['buf']
        f = mem()
        f.create_group('g').create_dataset('d', data=rows(0, n, 2))
        for a in range(n + 1):
            for b in range(a, n + 1):
                for seq in itertools.product((None, 1, 3), repeat=3):
                    with h52np.H52NP(f) as i:
                        r = i.add_subdataset(
                            'g', 'd', buf_size=kb(buf, 2, 'i8'),
                            minimum_occupied_portion=case['portion'],
                            indexes=[a, b])
                        read_all(r, seq, b, 'rows %d to %d of %d, buffer of '
                                 '%d, reads %s' % (a, b, n, buf, seq), ctx,
                                 start=a)
                    ctx.state('s', a, b, buf, seq)
        for seq in itertools.product((None, 1, 3), repeat=3):
            with h52np.H52NP(f) as i:
                r = i.add_subdataset('g', 'd', buf_size=kb(buf, 2, 'i8'))
                read_all(r, seq, n, 'all rows, buffer of %d, reads %s' % (
                    buf, seq), ctx)
        with h52np.H52NP(f) as i:
            data = list(i.add_subdataset('g', 'd', indexes=(1, 6),
                                         buf_size=kb(buf, 2, 'i8')))
            require(equal(np.concatenate(data), rows(1, 5, 2)),
                    'iterating over a range')
            require(refused(i.add_dataset, 'g', 'nothing') and
                    refused(i.add_subdataset, 'g', 'nothing'),
                    'a dataset which does not exist is not refused')
        return
    # two readers of one dataset, all the interleavings of 3 reads each
    f = mem()
    f.create_group('g').create_dataset('d', data=rows(0, 9, 2))
    for order in itertools.product((0, 1), repeat=6):
        for amounts in itertools.product((1, 4), (2, None)):
            with h52np.H52NP(f) as i:
                rs = [i.add_dataset('g', 'd', buf_size=kb(3, 2, 'i8')),
                      i.add_subdataset('g', 'd', buf_size=kb(2, 2, 'i8'),
                                       indexes=[2, 9])]
                got = [[], []]
                for w in order:
                    try:
                        got[w] += rs[w].read(amounts[w])[:, 0].tolist()
                    except StopIteration:
                        pass
                    ctx.step()
                for w in (0, 1):
                    want = [2 * x for x in range(2 * w, 9)]
                    require(got[w] == want[:len(got[w])],
                            'two readers, order %s: %s', order, got[w])
