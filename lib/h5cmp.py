"""Logical content of files: HDF5 files by objects, values and attributes
(not by bytes, the layout on disk is not part of the content), other files by
bytes"""
import hashlib
import os


def _value(v):
    import numpy as np
    if isinstance(v, np.ndarray):
        if v.dtype.kind == 'O':
            return ('O', v.shape, [_value(x) for x in v.ravel().tolist()])
        if v.dtype.names:
            return (v.dtype.str, str(v.dtype.descr), v.shape, v.tobytes())
        return (v.dtype.str, v.shape, v.tobytes())
    if isinstance(v, np.generic):
        return (v.dtype.str, v.tobytes())
    if isinstance(v, bytes):
        return ('b', v)
    if isinstance(v, str):
        return ('s', v)
    return (type(v).__name__, repr(v))


def dump(path, skip=()):
    """{object path: content} of a file"""
    import h5py
    if not os.path.exists(path):
        return None
    if not h5py.is_hdf5(path):
        with open(path, 'rb') as f:
            return {'bytes': f.read()}
    out = {}

    def attrs(obj):
        return sorted((str(k), _value(obj.attrs[k])) for k in obj.attrs
                      if k not in skip)

    with h5py.File(path, 'r') as fh:
        out['/'] = ('group', attrs(fh))

        def visit(name, obj):
            if isinstance(obj, h5py.Dataset):
                try:
                    v = _value(obj[()])
                except IOError as e:
                    v = ('unreadable', str(type(e)))
                out[name] = ('dataset', v, attrs(obj))
            else:
                out[name] = ('group', attrs(obj))
        fh.visititems(visit)
    return out


def difference(a, b):
    """None, or the first difference between two dumps"""
    if a == b:
        return None
    if a is None or b is None:
        return 'one of the files does not exist'
    for k in sorted(set(a) | set(b)):
        if k not in a:
            return '%s is added' % k
        if k not in b:
            return '%s is missing' % k
        if a[k] != b[k]:
            return '%s differs' % k
    return 'differs'


def digest(d):
    return hashlib.blake2b(repr(
        None if d is None else sorted(d.items())).encode('utf8', 'replace'),
        digest_size=12).hexdigest()


def tree(root):
    """every file and directory under root"""
    out = set()
    for base, dirs, files in os.walk(root):
        for n in dirs + files:
            out.add(os.path.relpath(os.path.join(base, n), root))
    return out
