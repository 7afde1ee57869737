"""Item tables shared by several checks"""
from . import abx

ON2, AC2, BY2 = ['p', 'q'], ['s', 't'], ['u', 'v']
ON3, AC3 = ['p', 'q', 'r'], ['s', 't', 'w']


def combos(*cols):
    out = [()]
    for c in cols:
        out = [o + (v,) for o in out for v in c]
    return [list(o) for o in out]


SHAPES = {
    # name: (columns, across, by); the ON column is always 'on'
    'on': (['on'], [], []),
    'on-ac': (['on', 'ac'], ['ac'], []),
    'on-by': (['on', 'by'], [], ['by']),
    'on-ac-by': (['on', 'ac', 'by'], ['ac'], ['by']),
    'on-ac2': (['on', 'ac', 'bc'], ['ac', 'bc'], []),
    'on-ac2r': (['on', 'ac', 'bc'], ['bc', 'ac'], []),
    'on-ac2-by': (['on', 'ac', 'bc', 'by'], ['ac', 'bc'], ['by']),
    'on-ac-by2': (['on', 'ac', 'by', 'cy'], ['ac'], ['by', 'cy']),
    'on-by2': (['on', 'by', 'cy'], [], ['cy', 'by']),
    'on-ac3': (['on', 'ac', 'bc', 'cc'], ['ac', 'bc', 'cc'], []),
    # columns which play no role, in front and in between
    'extra': (['zz', 'on', 'yy', 'ac'], ['ac'], []),
}

FULL = {
    'on': combos(ON3 + ['p']),
    'on-ac': combos(ON3, AC3),
    'on-by': combos(ON3, BY2),
    'on-ac-by': combos(ON2, AC3, BY2),
    'on-ac2': combos(ON2, AC3, ['m', 'n', 'o']),
    'on-ac2r': combos(ON3, AC2, ['m', 'n']),
    'on-ac2-by': combos(ON2, AC2, ['m', 'n'], BY2),
    'on-ac-by2': combos(ON2, AC2, BY2, ['x', 'y']),
    'on-by2': combos(ON2, BY2, ['x', 'y']) * 2,
    'on-ac3': combos(ON2, AC2, ['m', 'n'], ['i', 'j']),
    'extra': combos(['k'], ON2, ['l', 'h'], AC3),
}

TYPES = [None, 'int', 'float', 'mixed', 'prefix', 'unicode', 'path', 'node']

_CODE = {'p': 0, 'q': 1, 'r': 2, 's': 0, 't': 1, 'w': 2, 'u': 0, 'v': 1,
         'm': 0, 'n': 1, 'o': 2, 'x': 0, 'y': 1, 'k': 5, 'l': 6, 'h': 7,
         'i': 0, 'j': 1}


def label(v, col, types):
    """The label standing for v, of another type"""
    if types is None:
        return v
    code = _CODE[v]
    if types == 'int':
        # not in the order of the codes, different numbers of digits
        return [10, 9, -1, 3, 4, 100, 5, 50][code]
    if types == 'float':
        return [0.5, -1.25, 3.0, 7.5, 0.1, 2.5, 1e3, 0.25][code]
    if types == 'mixed':
        if col == 'on':
            return [3, 20, 100][code]
        if col in ('ac', 'bc', 'cc'):
            return 'sS\xe9'[code] if code < 3 else v
        return [1.5, 2.5, 3.5, 0, 0, 9.5, 8.5, 7.5][code]
    if types == 'prefix':
        return ['a', 'aa', 'a-a', 'aab', 'b', 'b1', 'b10', 'b2'][code]
    if types == 'unicode':
        return ['\xe9', 'e', '\u65e5\u672c', 'z', '\u03b1', '\xdf', 'ss',
                '\u0259'][code]
    if types == 'path':
        # read as paths, these have the same end or one is above the other
        return ['a', 'a/b', '/a', 'a/', 'a//b', './a', 'b/a', '..'][code]
    if types == 'node':
        # names which are reserved in HDF5 or in pytables
        return ['.', '/', '_i_x', '%2E', '_v_y', '%', 'table',
                'a/_i_table'][code]
    raise ValueError(types)


def rows_of(c):
    """(rows, columns, across, by) of a case with shape, labels, perm, types"""
    columns, across, by = SHAPES[c['shape']]
    labels = abx.permuted(c['labels'], c.get('perm', 0))
    rows = [dict((col, label(v, col, c.get('types')))
                 for col, v in zip(columns, t)) for t in labels]
    return rows, columns, across, by


def family(deep, full_types=TYPES, deletions=True):
    """The standard family of tables: all the small multisets of label
    combinations in the main shapes, full designs in all shapes and types,
    and their one row deletions"""
    out = []
    k = [0]

    def add(shape, ms):
        for m in ms:
            k[0] += 1
            out.append({'shape': shape, 'labels': m, 'perm': k[0]})
    add('on', abx.multisets(combos(ON3), range(1, 8 if deep else 6)))
    add('on-by', abx.multisets(combos(ON2, BY2), range(2, 7 if deep else 5)))
    add('on-ac', abx.multisets(combos(ON2, AC2), range(1, 8 if deep else 6)))
    add('on-ac', abx.multisets(combos(ON3, AC3), range(4, 7 if deep else 5)))
    add('on-ac-by', abx.multisets(
        combos(ON2, AC2, BY2), range(3, 7 if deep else 5)))
    add('on-ac2', abx.multisets(
        combos(ON2, AC2, ['m', 'n']), range(3, 6 if deep else 5)))
    if deep:
        add('on-ac2-by', abx.multisets(
            combos(ON2, AC2, ['m', 'n'], BY2), range(3, 5)))
        add('on-ac-by2', abx.multisets(
            combos(ON2, AC2, BY2, ['x', 'y']), range(3, 5)))
        add('on-by2', abx.multisets(
            combos(ON2, BY2, ['x', 'y']), range(3, 5)))
    out += designs(full_types, deletions, k)
    return out


def designs(full_types=TYPES, deletions=True, k=None):
    k = k or [0]
    out = []
    for shape, rows in FULL.items():
        for types in full_types:
            k[0] += 1
            out.append({'shape': shape, 'labels': rows,
                        'perm': k[0] * 7919, 'types': types})
        if deletions:
            for i in range(len(rows)):
                k[0] += 1
                out.append({'shape': shape, 'labels': rows[:i] + rows[i + 1:],
                            'perm': k[0] * 104729})
    return out


# ------------------------------------------------------- many other items
def large(n, where, fill='s', by=1):
    """(rows, columns) of n items: 9 of them (zz > 0) make most triplets

    where: position of these items: first, last, spread or ends. The others
    only serve as B items, when fill is one of the ACROSS labels. With
    several by blocks, every by-th item is in block u.
    """
    special = [{'on': o, 'ac': a, 'by': 'u', 'zz': z, 'fl': (k + z) % 2}
               for k, (o, a, z) in enumerate([
                   ('p', 's', 1), ('q', 's', 2), ('p', 't', 1),
                   ('q', 't', 1), ('p', 's', 2), ('q', 's', 1),
                   ('p', 't', 2), ('q', 't', 2), ('r', 's', 1)])]
    m = n - len(special)
    rest = [{'on': 'z', 'ac': fill, 'by': 'u', 'zz': 0, 'fl': i % 2}
            for i in range(m)]
    if where == 'first':
        rows = special + rest
    elif where == 'last':
        rows = rest + special
    elif where == 'ends':
        rows = special[:4] + rest + special[4:]
    else:
        rows = []
        step = m // (len(special) - 1)
        for i, r in enumerate(special[:-1]):
            rows += [r] + rest[i * step:(i + 1) * step]
        rows += rest[8 * step:] + special[-1:]
    if by > 1:
        # the rows of another block in between
        out = []
        for i, r in enumerate(rows):
            out.append(r)
            if i % 40 == 0 and i < 400:
                out.append(dict(special[i // 40 % 9], by='v', zz=1))
        rows = out
    return rows, ['on', 'ac', 'by', 'zz', 'fl']


def many(n, size=1):
    """(rows, columns) of n by blocks, some without triplets, interleaved;
    size**3 triplets or more in the others"""
    rows = []
    for i in range(n):
        by = 'b%d' % i
        for j in range((2 + i % 2) * size):
            rows.append({'on': 'pq'[(i + j) % 2], 'ac': 's', 'by': by})
        for j in range(size if i % 10 != 3 else 0):
            rows.append({'on': 'pq'[i % 2], 'ac': 't', 'by': by})
    for i, r in enumerate(rows):
        r['zz'] = i * 7 % 11
    return rows[::2] + rows[1::2], ['on', 'ac', 'by', 'zz']
