"""C17: loading an item file keeps each item with its own labels, location"""
import itertools
import math
import os

from lib import abx
from lib.core import require

ID = 'C17'
BOUNDS = {
    'quick': 'tables of 0 to 3 rows with every separator between each two '
             'fields among 4, all the sequences of 2 to 4 of 4 rows which '
             'share their locations or labels, blank lines and lines of spaces at every '
             'position, with or without end of line; all the subsets of '
             'missing labels of 4 rows and 2 columns (3 label types) and of '
             '3x3; auxiliary files: all the subsets and orders of 3 keys, '
             '1 to 3 levels of recursion, several auxiliary files, missing '
             'labels in them; all headers of up to 6 columns with markers '
             'anywhere; tasks generated from tables with removed rows; 29 '
             'alphabets of 2 or 3 labels (punctuation, unicode, numbers) in all '
             'orders, in the item file, as keys and as labels of an '
             'auxiliary file; 12 names of files and folders; 16 sets of names of sound '
             'files; keys which are numbers in one of the files only or in '
             'both: all the item files of 3 rows over 10 keys and auxiliary '
             'files of up to 3 rows, keys listed twice',
    'thorough': 'as quick with all the missing labels of 3 rows and 4 '
                'columns and 5 rows and 2 columns, separators of 3 rows',
}
ASSUMPTIONS = ['numbers have at most 14 significant digits (pandas rounds '
               'the next ones); labels are not quoted']
NAN = 'NaN'


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for n in range(0, 4 if deep else 3):
        for part in range(4 if n else 1):
            out.append({'seps': n, 'part': part})
    for n in range(0, 4):
        for where in range(n + 1):
            for blank in range(6):
                out.append({'blank': n, 'where': where, 'kind': blank})
    for kind in range(3):
        for part in range(8):
            out.append({'missing': [4, 2], 'kind': kind, 'part': part})
    out.append({'missing': [3, 3], 'kind': 0, 'part': 0, 'parts': 1})
    if deep:
        for part in range(8):
            out.append({'missing': [3, 4], 'kind': 1, 'part': part})
            out.append({'missing': [5, 2], 'kind': 0, 'part': part})
    for keys in range(8):
        for shape in range(5):
            out.append({'aux': keys, 'shape': shape})
    for n in range(1, 7):
        out.append({'header': n})
    out.append({'locations': 1})
    for mask in range(64):
        out.append({'task': mask})
    for part in range(4):
        out.append({'taskaux': part})
    out.append({'long': 1})
    for n in range(2, 6 if deep else 5):
        for first in range(4):
            out.append({'repeat': n, 'first': first})
    for k in range(len(TEXTS)):
        out.append({'texts': k})
    for k in range(len(FOLDERS)):
        out.append({'folder': k})
    for k in range(len(KEYS)):
        out.append({'keys': k})
    for k in range(len(FILES)):
        out.append({'files': k})
    return out


# keys of an auxiliary file, which may all be numbers in the item file, in
# the auxiliary file, in both or in none of them
KEYS = ['1', '2', '-3', '01', 'x', '1.5', '2.0', '1e0', 'x1', '1_0']
# names of files are kept as they are written
FILES = [
    ['1', '01', '001'], ['1', '1.0', '1.'], ['1e3', '1000', '1000.0'],
    ['TRUE', 'True', 'true'], ['True', 'False'], ['inf', '-inf', 'Inf'],
    ['+1', '1', '-1'], ['12345678901234567890', '12345678901234567891'],
    ['1_0', '10', '0x10'], ['x', '1', '1.50'], ['-0', '0', '0.0'],
    ['1,000', '1000', '1;0'], ['a/b', 'a.b', 'a#b'], ['\u00e9', 'e', 'E'],
    ['2020-01-01', '20200101', '2020/01/01'], ['.5', '0.5', '0.50'],
]


# columns of labels: each one is kept as it is written
TEXTS = [
    ['yes', 'no'], ['off', 'on'], ['yes', 'no', 'y'], ['1,000', '2', '3,5'], ['50%', '%a', '100%'],
    ['x#', 'y#z', 'x'], ['a;b', 'c|d', 'a,b'], ["a'b", "'a", "b'"],
    ['on', 'off', 'of'], ['t', 'f', 'T'], ['t', 'f'], ['y', 'n'], ['A', 'a', 'B'],
    ['aa:', 'a:', 'E~'], ['\u00e9', 'e\u0301', 'e'], ['12h', '12', '1_2'],
    ['-', '--', '+'], ['x' * 300, 'x' * 299, 'y'], ['a.b', '.a', 'a.'],
    ['(a)', '[a]', '{a}'], ['\\n', '\\t', '\\'], ['a=b', '$x', '&y'],
    ['0x10', '0b1', '1e'], ['\u0661', '\u4e00', '\U0001f600'],
    # numbers
    [2 ** 62 + 1, 2 ** 62, -2 ** 62 - 1], [0.1, 0.300000000001, 1e-300],
    [-0.5, 1e22, 123456789.125], [0, -1, 1], [1.5, -1e-7, 3.25],
]

# names of the item file and its folder
FOLDERS = [
    ('d', 'd'), ('a.b', 'd'), ('c.item', 'd'), ('c.item', 'd.e'),
    ('.item', 'd'), ('e f', 'd'), ('\u00e9', '\u00e9'), ('x', 'item'),
    ('x', 'd.item'), ('x.t', 'd'), ('x', 'd-removed'), ('d.item.t', 'd.t'),
]


def values(frame):
    """rows of a table, whatever its index"""
    return [tuple(plain(v) for v in frame.iloc[i])
            for i in range(len(frame))]


def plain(v):
    return v.item() if hasattr(v, 'item') else v


def same(a, b):
    return a == b or (isinstance(a, float) and isinstance(b, float) and
                      math.isnan(a) and math.isnan(b))


def load(path, ctx):
    from ABXpy.database import database
    out = database.load(path, features_info=True)
    ctx.step()
    short = database.load(path)
    require(len(out) == 3 and len(short) == 2, 'results of load')
    require(values(short[0]) == values(out[0]),
            'the labels depend on whether the locations are asked')
    return out


def forest_names(forest):
    return [(t.name, forest_names(t.children)) for t in forest]


def check(path, columns, expected, locations, ctx, what, forest=None,
          extra=()):
    """expected: the rows of labels kept; locations: theirs"""
    before = open(path, 'rb').read()
    db, hierarchy, feat = load(path, ctx)
    require(open(path, 'rb').read() == before, '%s: the file is modified',
            what)
    require(list(db.columns) == columns, '%s: columns %s instead of %s',
            what, list(db.columns), columns)
    require(list(feat.columns) == ['file', 'onset', 'offset'] + list(extra),
            '%s: locations %s', what, list(feat.columns))
    got = values(db)
    require(got == expected, '%s: labels %s instead of %s', what, got,
            expected)
    got = values(feat)
    require(got == locations, '%s: locations %s instead of %s', what, got,
            locations)
    if forest is not None:
        require(forest_names(hierarchy) == forest, '%s: hierarchy %s instead '
                'of %s', what, forest_names(hierarchy), forest)
    ctx.state(expected, locations)


SEPS = [' ', '\t', '  ', ' \t ']


def loc(i):
    return ('f%d' % (i % 2), i + 0.25, i + 1.5)


def run(case, ctx):
    if 'seps' in case:
        n = case['seps']
        fields = [['#file', 'onset', 'offset', '#p', 'q']]
        fields += [[str(v) for v in loc(i)] + ['a%d' % (i % 2), str(i)]
                   for i in range(n)]
        lines = fields[1:] or fields
        fixed = fields[:1] if n else []
        combos = itertools.product(range(4), repeat=4 * min(len(lines), 1))
        for k, seps in enumerate(combos):
            if n and k % 4 != case['part']:
                continue
            text = []
            for j, f in enumerate(fixed + lines):
                s = f[0]
                for c, v in enumerate(f[1:]):
                    s += SEPS[(seps[c] + j * (k // 7)) % 4] + v
                text.append(s + '\n')
            for end in (True, False):
                path = ctx.path('d.item')
                with open(path, 'w') as h:
                    t = ''.join(text)
                    h.write(t if end else t[:-1])
                check(path, ['p', 'q'],
                      [('a%d' % (i % 2), i) for i in range(n)],
                      [loc(i) for i in range(n)], ctx, repr(t))
        return
    if 'repeat' in case:
        # the same rows, locations or labels several times
        kinds = [('f0', 0.25, 1.5, 'a', 1), ('f0', 0.25, 1.5, 'b', 1),
                 ('f0', 1.25, 2.5, 'a', 1), ('f1', 0.25, 1.5, 'a', 2)]
        more = {'a': 'u', 'b': 'u'}
        for rest in itertools.product(kinds, repeat=case['repeat'] - 1):
            rows = (kinds[case['first']],) + rest
            for with_aux in (False, True):
                path = os.path.join(ctx.sub(), 'd.item')
                with open(path, 'w') as h:
                    h.write('#file onset offset #p q\n' + ''.join(
                        ' '.join(str(v) for v in r) + '\n' for r in rows))
                if with_aux:
                    with open(path[:-5] + '.p', 'w') as h:
                        h.write('p z\n' + ''.join(
                            '%s %s\n' % x for x in more.items()))
                check(path, ['p', 'q'] + ['z'] * with_aux,
                      [r[3:] + ((more[r[3]],) if with_aux else ())
                       for r in rows], [r[:3] for r in rows], ctx,
                      'rows %s' % (rows,))
        return
    if 'blank' in case:
        n, where = case['blank'], case['where']
        lines = ['#file onset offset #p q\n'] + [
            ' '.join(str(v) for v in loc(i)) + ' a%d %d\n' % (i % 2, i)
            for i in range(n)]
        blank = ['\n', '\n\n\n', '  \n', '\t\n', ' \n\n\t \n',
                 '       \n'][case['kind']]
        lines.insert(where + 1, blank)
        for ext in ('', '.item'):
            path = os.path.join(ctx.sub(), 'd.item')
            with open(path, 'w') as h:
                h.write(''.join(lines))
            db, _, feat = load(path[:-5] + ext, ctx)
            require(values(db) == [('a%d' % (i % 2), i) for i in range(n)] and
                    values(feat) == [loc(i) for i in range(n)],
                    '%r: %s %s', lines, values(db), values(feat))
            require(not os.path.exists(path[:-5] + '-removed.item'),
                    '%r: removed rows', lines)
            ctx.state(n, where, case['kind'])
        return
    if 'missing' in case:
        n, c = case['missing']
        columns = ['p', 'q', 'r', 's'][:c]
        label = [lambda i, j: 'v%d' % ((i + j) % 3),
                 lambda i, j: i * 10 + j,
                 lambda i, j: (i + 0.5) if j else 'é%d' % i][case['kind']]
        for mask in range(2 ** (n * c)):
            if mask % case.get('parts', 8) != case['part']:
                continue
            rows = [[NAN if mask >> (i * c + j) & 1 else label(i, j)
                     for j in range(c)] for i in range(n)]
            path = os.path.join(ctx.sub(), 'd.item')
            text = '#file onset offset #%s\n' % ' '.join(columns)
            for i, r in enumerate(rows):
                # missing labels at the end of a line can be left out
                fields = [str(v) for v in r]
                while mask % 3 == 0 and fields and fields[-1] == NAN:
                    fields.pop()
                text += ' '.join([str(v) for v in loc(i)] + fields) + '\n'
            with open(path, 'w', encoding='utf8') as h:
                h.write(text)
            keep = [i for i in range(n) if NAN not in rows[i]]
            what = 'item file with missing labels %r' % text
            check(path, columns, [tuple(rows[i]) for i in keep],
                  [loc(i) for i in keep], ctx, what,
                  [(x, []) for x in columns])
            removed = path[:-5] + '-removed.item'
            if len(keep) == n:
                require(not os.path.exists(removed), '%s: a file of removed '
                        'rows', what)
                continue
            require(os.path.exists(removed), '%s: the removed rows are not '
                    'listed', what)
            with open(removed, encoding='utf8') as h:
                lines = h.read().splitlines()
            require(len(lines) == n - len(keep) + 1, '%s: %s removed rows',
                    what, lines)
            for line, i in zip(lines[1:], [i for i in range(n)
                                           if i not in keep]):
                fields = line.replace(',', ' ').split()
                for v in rows[i]:
                    require(v == NAN or str(v) in fields or
                            str(float(v) if isinstance(v, int) else v)
                            in fields, '%s: removed row %s listed as %s',
                            what, rows[i], line)
        return
    if 'aux' in case:
        return aux(case, ctx)
    if 'header' in case:
        return headers(case['header'], ctx)
    if 'locations' in case:
        for extra in range(0, 4):
            for attr in range(1, 4):
                path = os.path.join(ctx.sub(), 'd.item')
                cols = ['x%d' % i for i in range(extra)]
                attrs = ['p%d' % i for i in range(attr)]
                with open(path, 'w') as h:
                    h.write(' '.join(['#file onset offset'] + cols + [
                        '#' + attrs[0]] + attrs[1:]) + '\n')
                    for i in range(3):
                        h.write(' '.join(str(v) for v in loc(i) + tuple(
                            'l%d%d' % (i, j) for j in range(extra)) + tuple(
                            'a%d%d' % (i, j) for j in range(attr))) + '\n')
                check(path, attrs,
                      [tuple('a%d%d' % (i, j) for j in range(attr))
                       for i in range(3)],
                      [loc(i) + tuple('l%d%d' % (i, j) for j in range(extra))
                       for i in range(3)], ctx,
                      '%d more location columns' % extra, extra=cols)
        return
    if 'task' in case:
        # rows removed, then triplets: same items, same places
        columns = ['on', 'ac', 'by']
        labels = [('p', 's', 'u'), ('q', 's', 'u'), ('p', 't', 'u'),
                  ('p', 's', 'v'), ('q', 's', 'u'), ('p', 't', 'u')]
        rows = abx.table(labels, columns)
        for i in range(6):
            if case['task'] >> i & 1:
                rows[i][columns[i % 3]] = NAN
        kept = [r if NAN not in r.values() else None for r in rows]
        want = abx.triplets(
            [r or {'on': i, 'ac': i, 'by': i} for i, r in enumerate(kept)],
            'on', ['ac'], ['by'])
        if not want:
            return
        task, out = abx.generate(ctx, rows, columns, 'on', ['ac'], ['by'])
        abx.compare_triplets(abx.read_task(out), want,
                             'removed rows %s' % case['task'])
        ctx.state(case['task'])
        return
    if 'taskaux' in case:
        columns = ['on', 'ac', 'spk', 'sex']
        labels = [('p', 's', 's1', 'm'), ('q', 's', 's2', 'f'),
                  ('p', 't', 's1', 'm'), ('q', 's', 's3', 'm'),
                  ('p', 't', 's2', 'f'), ('q', 't', 's1', 'm'),
                  ('p', 's', 's2', 'f'), ('q', 't', 's2', 'f')]
        rows = abx.table(abx.permuted(labels, case['taskaux']), columns)
        want = abx.triplets(rows, 'on', ['ac'], ['sex'])
        task, out = abx.generate(ctx, rows, columns, 'on', ['ac'], ['sex'],
                                 aux={'spk': ['sex']})
        abx.compare_triplets(abx.read_task(out), want, 'auxiliary by')
        return
    if 'texts' in case:
        return texts(TEXTS[case['texts']], ctx)
    if 'folder' in case:
        return folder(FOLDERS[case['folder']], ctx)
    if 'keys' in case:
        return keys(KEYS[case['keys']], ctx)
    if 'files' in case:
        for rows in itertools.product(FILES[case['files']], repeat=3):
            path = os.path.join(ctx.sub(), 'd.item')
            with open(path, 'w', encoding='utf8') as h:
                h.write('#file onset offset #p q\n')
                for i, name in enumerate(rows):
                    h.write('%s %s %s a%d %d\n' % (
                        (name,) + loc(i)[1:] + (i % 2, i)))
            check(path, ['p', 'q'], [('a%d' % (i % 2), i) for i in range(3)],
                  [(name,) + loc(i)[1:] for i, name in enumerate(rows)], ctx,
                  'files %s' % (rows,))
        return
    # many rows
    n = 3000
    path = ctx.path('d.item')
    with open(path, 'w') as h:
        h.write('#file onset offset #p q\n')
        for i in range(n):
            h.write(' '.join(str(v) for v in loc(i)) + ' %s %d\n' % (
                NAN if i % 7 == 3 else 'v%d' % (i % 11), i))
    with open(ctx.path('d.p'), 'w') as h:
        h.write('p k\n')
        for i in range(10, 0, -1):
            h.write('v%d w%d\n' % (i, i))
    keep = [i for i in range(n) if i % 7 != 3 and i % 11]
    check(path, ['p', 'q', 'k'],
          [('v%d' % (i % 11), i, 'w%d' % (i % 11)) for i in keep],
          [loc(i) for i in keep], ctx, '%d rows' % n,
          [('p', [('k', [])]), ('q', [])])


def texts(labels, ctx):
    for perm in itertools.permutations(labels):
        for where in range(3):
            # in the item file, as keys, as labels of an auxiliary file
            path = os.path.join(ctx.sub(), 'd.item')
            n = len(labels)
            use = [j % n for j in (0, 1, 2, 1)]
            keys = ['k0', 'k1', 'k2'][:n]
            first = keys if where == 2 else perm
            with open(path, 'w', encoding='utf8') as h:
                h.write('#file onset offset #t u\n')
                for i, j in enumerate(use):
                    h.write('%s %s %s' % loc(i) + ' %s u%d\n' % (
                        first[j], i))
            want = [(first[j], 'u%d' % i) for i, j in enumerate(use)]
            columns = ['t', 'u']
            if where:
                second = perm if where == 2 else keys
                with open(path[:-4] + 't', 'w', encoding='utf8') as h:
                    h.write('t a\n')
                    for j in reversed(range(n)):
                        h.write('%s %s\n' % (first[j], second[j]))
                columns.append('a')
                want = [w + (second[j],) for w, j in zip(want, use)]
            check(path, columns, want, [loc(i) for i in range(4)], ctx,
                  'labels %s' % (perm,))


def number(text):
    try:
        v = float(text) if '_' not in text else None
    except ValueError:
        return None
    return v


def keys(first, ctx):
    """all the item files of 3 rows whose first key is given, with all the
    auxiliary files of 1 to 3 different rows"""
    from ABXpy.database import database
    path = ctx.path('d.item')
    pool = ['1', '2', '01', 'x', '1.5', '2.0']
    for second, third in itertools.product(pool, repeat=2):
        use = [first, second, third]
        numbers = [number(u) for u in use]
        numeric = None not in numbers
        with open(path, 'w') as h:
            h.write('#file onset offset #t u\n')
            for i, u in enumerate(use):
                h.write('%s %s %s' % loc(i) + ' %s u%d\n' % (u, i))
        shown = numbers if numeric else use
        for n in (1, 2, 3):
            for listed in itertools.permutations(
                    sorted({first, 'x', '1', '01', '2'}), n):
                for twice in (False, True) if n == 2 else (False,):
                    table, same = {}, set()
                    lines = [(k, 'z%d' % j) for j, k in enumerate(listed)]
                    if twice:
                        # another label for a key
                        lines.append((listed[0], 'z9'))
                    for k, z in lines:
                        k = number(k) if numeric else k
                        if k is not None:
                            if k in table:
                                same.add(k)
                            table[k] = z
                    with open(path[:-4] + 't', 'w') as h:
                        h.write('t a\n' + ''.join('%s %s\n' % r
                                                  for r in lines))
                    what = 'keys %s, auxiliary file %s' % (use, lines)
                    if same:
                        # (listed twice: matters when it is used only)
                        if same & set(shown):
                            refuse(path, what)
                        continue
                    keep = [i for i in range(3) if shown[i] in table]
                    db, _, feat = database.load(path, features_info=True)
                    ctx.step()
                    require(values(feat) == [loc(i) for i in keep],
                            '%s: locations %s instead of %s', what,
                            values(feat), [loc(i) for i in keep])
                    require(values(db) == [
                        (shown[i], 'u%d' % i, table[shown[i]])
                        for i in keep], '%s: labels %s', what, values(db))
                    ctx.state(use, lines)


def folder(names, ctx):
    from ABXpy.database import database
    d = os.path.join(ctx.sub(), names[0])
    os.mkdir(d)
    path = os.path.join(d, names[1] + '.item')
    for missing in (False, True):
        with open(path, 'w') as h:
            h.write('#file onset offset #t u\n')
            for i in range(3):
                h.write('%s %s %s' % loc(i) + ' t%d %s\n' % (
                    i % 2, NAN if missing and i == 1 else 'u%d' % i))
        with open(os.path.join(d, names[1] + '.t'), 'w') as h:
            h.write('t a\nt1 z1\nt0 z0\n')
        keep = [i for i in range(3) if not (missing and i == 1)]
        shown = [path]
        if not names[1].endswith('.item'):
            shown.append(path[:-5])
        for p in shown:
            db, forest, feat = load(p, ctx)
            require(list(db.columns) == ['t', 'u', 'a'] and
                    values(db) == [('t%d' % (i % 2), 'u%d' % i,
                                    'z%d' % (i % 2)) for i in keep] and
                    values(feat) == [loc(i) for i in keep],
                    'item file %s of the folder %s: labels %s, locations %s',
                    names[1], names[0], values(db), values(feat))
        require(sorted(os.listdir(d)) == sorted(
            [names[1] + '.item', names[1] + '.t'] +
            [names[1] + '-removed.item'] * missing),
            'item file %s of the folder %s: files %s', names[1], names[0],
            sorted(os.listdir(d)))
        ctx.state(names)


def aux(case, ctx):
    """Main column 't' of 3 keys, in 5 rows; auxiliary files"""
    mask, shape = case['aux'], case['shape']
    keys = [['t0', 't1', 't2'], [0, 1, 2]][shape % 2]
    present = [k for j, k in enumerate(keys) if mask >> j & 1]
    use = [0, 1, 0, 2, 1]
    for order in itertools.permutations(present):
        for missing in range(len(order) + 1):
            d = ctx.sub()
            path = os.path.join(d, 'd.item')
            second = 't u'.split()
            rows = [(keys[j], 'u%d' % (i % 2)) for i, j in enumerate(use)]
            with open(path, 'w') as h:
                h.write('#file onset offset #%s\n' % ' '.join(second))
                for i, r in enumerate(rows):
                    h.write('%s %s %s %s %s\n' % (loc(i) + r))

            def write(name, head, lines):
                with open(os.path.join(d, 'd.' + name), 'w') as h:
                    h.write(' '.join(head) + '\n')
                    for line in lines:
                        h.write(' '.join(str(v) for v in line) + '\n')

            def a(k):
                return 'a%s' % (keys.index(k) % 2)

            def lab(k):
                j = list(order).index(k)
                return NAN if j == missing - 1 and missing else 'z%d' % j
            columns = ['t', 'u']
            if shape in (0, 1):
                # one file, two columns
                write('t', ['t', 'a', 'b'],
                      [(k, a(k), lab(k)) for k in order])
                extra = {k: (a(k), lab(k)) for k in order}
                columns += ['a', 'b']
                forest = [('t', [('a', []), ('b', [])]), ('u', [])]
            elif shape == 2:
                # a file of the column of a file
                write('t', ['t', 'a'], [(k, a(k)) for k in order])
                write('a', ['a', 'c', 'e'], [('a1', 'c1', 5), ('a0', 'c0', 6)])
                extra = {k: (a(k), 'c' + a(k)[1], 5 if a(k) == 'a1' else 6)
                         for k in order}
                columns += ['a', 'c', 'e']
                forest = [('t', [('a', [('c', []), ('e', [])])]), ('u', [])]
            elif shape == 3:
                # three levels
                write('t', ['t', 'a'], [(k, a(k)) for k in order])
                write('a', ['a', 'c'], [('a1', 'c1'), ('a0', 'c0')])
                write('c', ['c', 'g'], [('c0', 'g0'), ('c1', 'g1')])
                extra = {k: (a(k), 'c' + a(k)[1], 'g' + a(k)[1])
                         for k in order}
                columns += ['a', 'c', 'g']
                forest = [('t', [('a', [('c', [('g', [])])])]), ('u', [])]
            else:
                # two files
                write('t', ['t', 'a'], [(k, lab(k)) for k in order])
                write('u', ['u', 'v'], [('u1', 'x'), ('u0', 'y')])
                extra = {k: (lab(k),) for k in order}
                columns += ['a', 'v']
                forest = [('t', [('a', [])]), ('u', [('v', [])])]
            want, places = [], []
            for i, r in enumerate(rows):
                if r[0] not in extra or NAN in extra[r[0]]:
                    continue
                row = r + extra[r[0]]
                if shape == 4:
                    row += ('x' if r[1] == 'u1' else 'y',)
                want.append(row)
                places.append(loc(i))
            if not order:
                # (a file with a header only has no types to join on)
                continue
            check(path, columns, want, places, ctx,
                  'auxiliary files of shape %d, keys %s, %d missing' % (
                      shape, order, missing), forest)
            if missing == 0:
                # a wrong key column
                write('t', ['w', 'a'], [(k, 'x') for k in order])
                refuse(path, 'auxiliary file with another key column')
    ctx.state('aux', mask, shape)


def refuse(path, what):
    from ABXpy.database import database
    try:
        database.load(path, features_info=True)
    except Exception:
        return
    require(False, '%s: not refused', what)


def headers(n, ctx):
    from ABXpy.database import database
    names = ['file', 'onset', 'offset', 'p', 'q', 'r'][:n]
    path = ctx.path('h.item')

    def write(cols):
        with open(path, 'w') as h:
            h.write(' '.join(cols) + '\n')
            h.write(' '.join(str(v) for v in range(len(cols))) + '\n')
    for marks in itertools.product((0, 1), repeat=n):
        cols = ['#' + c if m else c for c, m in zip(names, marks)]
        write(cols)
        good = (n >= 4 and marks[0] and not marks[1] and not marks[2] and
                sum(marks) == 2)
        ctx.step()
        if good:
            db, _, feat = database.load(path, features_info=True)
            at = marks.index(1, 1)
            require(list(db.columns) == names[at:] and
                    list(feat.columns) == names[:at],
                    'header %s: %s and %s', cols, list(db.columns),
                    list(feat.columns))
            require(values(db) == [tuple(range(at, n))] and
                    values(feat) == [('0',) + tuple(range(1, at))],
                    'header %s: %s and %s', cols, values(db), values(feat))
        else:
            refuse(path, 'header %s' % cols)
        ctx.state(cols)
    if n >= 4:
        good = ['#' + names[0]] + names[1:3] + ['#' + names[3]] + names[4:]
        for perm in itertools.permutations(range(3)):
            if perm == (0, 1, 2):
                continue
            cols = list(good)
            for k, j in enumerate(perm):
                cols[k] = good[j]
            write(cols)
            refuse(path, 'header %s' % cols)
            write(['#' + cols[0].strip('#'), cols[1].strip('#'),
                   cols[2].strip('#')] + cols[3:])
            refuse(path, 'header %s' % cols)
        for k, wrong in itertools.product(range(3), ('start', 'File', 'end',
                                                     '#item', 'Onset')):
            cols = list(good)
            cols[k] = wrong
            write(cols)
            refuse(path, 'header %s' % cols)
