"""Replace the default buffer sizes of the HDF5 tools by a few rows, so that
buffer boundaries fall everywhere in small data.

The real classes run unchanged: only the value of the `buf_size` argument
(and of the memory given to the external sort) is substituted. Calls which
choose a size themselves are left alone, except for the sort.
"""
import contextlib
import inspect


@contextlib.contextmanager
def small_buffers(read_rows=None, write_rows=None, sort_rows=None):
    import numpy as np
    import ABXpy.h5tools.h52np as h52np
    import ABXpy.h5tools.np2h5 as np2h5
    import ABXpy.h5tools.h5_handler as h5_handler
    undo = []

    def patch(cls, name, make):
        if not hasattr(cls, name):
            return
        old = getattr(cls, name)
        try:
            sig = inspect.signature(old)
        except (TypeError, ValueError):
            return
        new = make(old, sig)
        setattr(cls, name, new)
        undo.append((cls, name, old))

    def reader(old, sig):
        def fun(*args, **kw):
            try:
                b = sig.bind(*args, **kw)
                if 'buf_size' in sig.parameters and \
                        'buf_size' not in b.arguments:
                    me = b.arguments['self']
                    d = me.file[b.arguments['group']][b.arguments['dataset']]
                    b.arguments['buf_size'] = (
                        read_rows * d.shape[1] * d.dtype.itemsize / 1000.)
                return old(*b.args, **b.kwargs)
            except (KeyError, TypeError):
                return old(*args, **kw)
        return fun

    def writer(old, sig):
        def fun(*args, **kw):
            try:
                b = sig.bind(*args, **kw)
                if 'buf_size' in sig.parameters and \
                        'buf_size' not in b.arguments and \
                        b.arguments.get('n_columns'):
                    b.arguments['buf_size'] = (
                        write_rows * b.arguments['n_columns'] *
                        np.dtype(b.arguments.get(
                            'item_type', np.int64)).itemsize / 1000.)
            except TypeError:
                return old(*args, **kw)
            return old(*b.args, **b.kwargs)
        return fun

    def sorter(old, sig):
        def fun(*args, **kw):
            try:
                b = sig.bind(*args, **kw)
                if 'buffer_size' in sig.parameters:
                    import h5py
                    me = b.arguments['self']
                    with h5py.File(me.file, 'r') as f:
                        sets = [f[g][d] for g, d in me.sources]
                        n = sets[0].shape[0]
                        w = sum(s.shape[1] * s.dtype.itemsize for s in sets)
                    rows = min(sort_rows, n)
                    while round(rows / -(-n // rows)) < 1:
                        rows += 1
                    b.arguments['buffer_size'] = rows * w / 1000.
                    b.arguments['o_buffer_size'] = 3 * w / 1000.
            except (TypeError, AttributeError, KeyError, OSError):
                return old(*args, **kw)
            return old(*b.args, **b.kwargs)
        return fun
    if read_rows:
        patch(h52np.H52NP, 'add_dataset', reader)
        patch(h52np.H52NP, 'add_subdataset', reader)
    if write_rows:
        patch(np2h5.NP2H5, 'add_dataset', writer)
    if sort_rows:
        patch(h5_handler.H5Handler, 'sort', sorter)
    try:
        yield
    finally:
        for cls, name, old in undo:
            setattr(cls, name, old)
