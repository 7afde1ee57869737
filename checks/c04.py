"""C04: filters keep exactly the triplets which satisfy all of them"""
import itertools
import os
import warnings

from lib import abx, tables, filters as F
from lib.core import require

ID = 'C04'
BOUNDS = {
    'quick': 'three irregular tables (5 columns and 3 columns of '
             'auxiliary files), ten ON/ACROSS/BY specifications; every '
             'filter on one column (all columns, suffixes and values), '
             'a filter on every two columns, every pair and every '
             'ordered triple of representative filters of the different '
             'levels of evaluation, column names, scripts of 14 forms '
             '(functions, imports, generators, loops, script files...); 255 to '
             '65537 items of which few are left by filters of every level',
    'thorough': 'as quick on five tables, all operators, all ordered pairs, '
                'all pairs over all suffixes, ordered quadruples of levels, '
                '70000 items',
}
ASSUMPTIONS = ['filters are deterministic functions of the labels']

COLS = ['on', 'ac', 'by', 'zz', 'fl', 'oo', 'aa', 'bb']
AUX = {'on': ['oo'], 'ac': ['aa'], 'by': ['bb']}
SPECS = {'std': (['ac'], ['by']), 'noac': ([], ['by']), 'noby': (['ac'], []),
         'none': ([], []), 'by2': (['ac'], ['by', 'fl']),
         'ac2': (['ac', 'fl'], ['by']), 'ac2b': (['zz', 'ac'], []),
         'auxac': (['aa'], ['by']), 'auxby': (['ac'], ['bb']),
         'auxon': (['ac'], ['by'])}
ON = {'auxon': 'oo'}
VALUES = {'on': ['p', 'q', 'r'], 'ac': ['s', 't', 'w'], 'by': ['u', 'v'],
          'zz': [0, 1, 2], 'fl': [0, 1], 'oo': [0, 1], 'aa': ['c', 'd'],
          'bb': [0, 1]}


def design(i):
    """irregular rows"""
    rows = []
    n = 0
    for b in 'uv':
        for o in 'pqr' if i != 1 else 'pq':
            for a in 'stw' if i != 2 else 'st':
                n += 1
                if (n + i) % 6 == 0:
                    continue
                for k in range(2 if n % 4 == i % 4 else 1):
                    rows.append({
                        'on': o, 'ac': a, 'by': b,
                        'zz': (n * (i + 3) + n // 3 + k) % 3,
                        'fl': (n // 2 + k + i) % 2,
                        'oo': int(o == 'q'),
                        'aa': 'c' if a in 'sw' else 'd',
                        'bb': int(b == 'u')})
    # not grouped by label
    return rows[::3] + rows[1::3] + rows[2::3]


def variables(spec):
    across, by = SPECS[spec]
    out = []
    for c in COLS:
        out.append(c)
        for e in 'ABX':
            out.append(c + '_' + e)
        if F.among(c, [ON.get(spec, 'on')]) or F.among(c, across):
            out += [c + '_1', c + '_2']
    return out


def kind(v):
    return type(VALUES[F.split(v)[0]][0])


def singles(spec, scripts=False):
    for v in variables(spec):
        vals = VALUES[F.split(v)[0]]
        for op in ('==', '!=', '<', '>='):
            for val in vals:
                if op == '<' and val == vals[0]:
                    continue
                if op == '>=' and val in vals[:1] + vals[2:]:
                    continue
                yield {'var': v, 'op': op, 'value': val}
        if F.split(v)[0] in ('fl', 'oo', 'bb', 'zz'):
            yield {'name': v}
    for v in ('on_A', 'ac_X', 'zz_B', 'zz', 'by'):
        yield {'var': v, 'op': '!=', 'value': VALUES[F.split(v)[0]][1],
               'form': 'import'}


def doubles(spec, full=True):
    for v, w in itertools.combinations_with_replacement(variables(spec), 2):
        f = {'vars': [v, w]}
        if v == w:
            continue
        same = kind(v) == kind(w)
        yield dict(f, op='==' if same else '!=')
        if same and full:
            yield dict(f, op='<')
        if same and full and kind(v) is int:
            yield dict(f, op='!=')


REPRESENTATIVE = [
    {'var': 'by', 'op': '==', 'value': 'u'},                  # by
    {'var': 'bb_X', 'op': '!=', 'value': 1},                  # by
    {'var': 'zz', 'op': '>=', 'value': 1},                    # generic
    {'vars': ['bb', 'fl'], 'op': '!='},                       # generic, by
    {'name': 'fl'},                                           # generic
    {'var': 'on_1', 'op': '!=', 'value': 'q'},                # block
    {'var': 'aa_1', 'op': '==', 'value': 'c'},                # block
    {'vars': ['on_X', 'by'], 'op': '<'},                      # block, by
    {'var': 'zz_A', 'op': '!=', 'value': 1},                  # A
    {'vars': ['fl_A', 'oo_A'], 'op': '=='},                   # A, block
    {'var': 'on_B', 'op': '!=', 'value': 'p'},                # B
    {'name': 'fl_B'},                                         # B
    {'vars': ['zz_B', 'oo_1'], 'op': '!='},                   # B, block
    {'var': 'ac_2', 'op': '!=', 'value': 't'},                # X
    {'vars': ['fl_X', 'bb_A'], 'op': '=='},                   # X, by
    {'var': 'zz_X', 'op': '<', 'value': 2},                   # X
    {'vars': ['zz_A', 'zz_X'], 'op': '<'},                    # ABX
    {'vars': ['zz_A', 'fl_B'], 'op': '!='},                   # ABX
    {'vars': ['oo_2', 'zz_X'], 'op': '=='},                   # ABX
]
LEVELS = [0, 2, 5, 8, 10, 15, 17, 18]


def cases(tier):
    deep = tier == 'thorough'
    out = []

    def add(d, spec, fs):
        out.append({'d': d, 'spec': spec, 'f': fs})
    for d in range(5 if deep else 1):
        for f in singles('std'):
            add(d, 'std', [f])
    for f in doubles('std', deep):
        add(0, 'std', [f])
    for k, spec in enumerate(list(SPECS)[1:]):
        for f in singles(spec):
            if deep or 'op' not in f or (
                    f['op'] == '!=' and
                    f['value'] == VALUES[F.split(f['var'])[0]][1]):
                add(k % 3, spec, [f])
        if deep:
            for f in doubles(spec, False):
                add(2, spec, [f])
    for i, (f, g) in enumerate(itertools.combinations(REPRESENTATIVE, 2)):
        if deep:
            for d in (1, 2):
                add(d, 'std', [f, g])
                add(d, 'std', [g, f])
        else:
            add(1 + i % 2, 'std', [f, g] if i % 3 else [g, f])
    for i in itertools.permutations(LEVELS if deep else LEVELS[1:-1], 3):
        add(0, 'std', [REPRESENTATIVE[j] for j in i])
    if deep:
        for i in itertools.permutations(LEVELS, 4):
            add(2, 'std', [REPRESENTATIVE[j] for j in i])
        fs = [f for f in singles('std') if f.get('op') == '!=' and
              f['value'] == VALUES[F.split(f['var'])[0]][0]]
        for f, g in itertools.combinations(fs, 2):
            add(1, 'std', [f, g])
    # other ways to write a filter
    for k, v in enumerate(('by', 'bb_X', 'zz', 'oo', 'on_1', 'aa_1', 'zz_A',
                           'on_B', 'fl_B', 'zz_X', 'ac_2')):
        for j, form in enumerate(sorted(F.FORMS)):
            for op in ('==', '!=') if deep else ('==', '!=')[(j + k) % 2:][:1]:
                f = {'var': v, 'op': op, 'form': form,
                     'value': VALUES[F.split(v)[0]][1]}
                add(j % 3, 'std', [f])
                if deep or (j + k) % 5 == 0:
                    add(k % 3, 'std', [REPRESENTATIVE[(j + k) % 19], f,
                                       dict(ZZ, form='file')])
    # two filters of the same level, the second one on what is left
    for v in ('zz', 'zz_A', 'zz_B', 'zz_X'):
        for w in ('fl', 'on', 'ac'):
            w = w + v[2:]
            add(1, 'std', [{'var': v, 'op': '!=', 'value': 0},
                           {'var': w, 'op': '==',
                            'value': VALUES[F.split(w)[0]][1]},
                           {'var': v, 'op': '!=', 'value': 2}])
    # many items: positions in the task are not positions in what is left
    for n in (255, 256, 257, 258, 300, 65537) + (
            (65535, 65536, 70000) if deep else ()):
        for k, where in enumerate(('first', 'last', 'ends', 'spread')):
            for j, fs in enumerate(LARGE):
                if deep or ((j + k + n) % 2 == 0 and (n < 400 or j in (1, 5))):
                    out.append({'large': n, 'where': where, 'f': fs,
                                'spec': ('std', 'noby')[(j + k) % 2],
                                'fill': 'sf'[n > 400 or (j // 2) % 2],
                                'by': 1 + (j + k // 2) % 2})
    return out


ZZ = {'var': 'zz', 'op': '!=', 'value': 0}
LARGE = [
    [ZZ], [ZZ, {'var': 'fl_A', 'op': '==', 'value': 1}],
    [{'var': 'on', 'op': '!=', 'value': 'z'}], [],
    [{'var': 'zz_B', 'op': '!=', 'value': 0}],
    [{'var': 'zz_A', 'op': '==', 'value': 1}],
    [{'var': 'zz_X', 'op': '==', 'value': 2}, ZZ],
    [{'var': 'on_B', 'op': '!=', 'value': 'z'}],
    [{'vars': ['zz_A', 'zz_B'], 'op': '=='}],
    [{'vars': ['fl_B', 'fl_X'], 'op': '!='},
     {'vars': ['zz_B', 'zz_X'], 'op': '<'}],
    [{'var': 'on_1', 'op': '==', 'value': 'q'}, {'name': 'fl'}],
]


def run(c, ctx):
    fs = c['f']
    across, by = SPECS[c['spec']]
    on = ON.get(c['spec'], 'on')
    columns, aux = COLS, AUX
    if 'large' in c:
        rows, columns = tables.large(c['large'], c['where'], c['fill'],
                                     c['by'])
        aux = None
    else:
        rows = design(c['d'])
    folder = ctx.sub()
    texts = [F.text(f, folder) for f in fs]
    if any(F.ambiguous(f, by) for f in fs):
        try:
            abx.generate(ctx, rows, columns, on, across, by, texts, aux=aux)
        except ValueError:
            ctx.state('refused')
            return
        require(False, 'a filter mixing suffixed and unsuffixed columns is '
                'accepted: {}', texts)
    want = abx.triplets(rows, on, across, by,
                        keep=F.keep(fs, on, across, by))
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        task, out = abx.generate(
            ctx, rows, columns, on, across, by, texts, aux=aux)
    if not want:
        require(not os.path.exists(out), 'a task file without triplets')
        require(any(issubclass(w.category, UserWarning) for w in caught),
                'no warning for a task without triplets')
        ctx.state('empty')
        return
    require(os.path.exists(out), 'no task file for {} triplets',
            sum(map(len, want.values())))
    blocks = abx.read_task(out, regressors=False, pairs=False)
    abx.compare_triplets(blocks, want, 'filtered triplets')
    ctx.state(c['spec'], len(rows), [(b.by, b.triplets) for b in blocks])
