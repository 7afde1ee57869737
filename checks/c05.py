"""C05: the regressors of a triplet are the labels of its own items"""
import itertools
import os

from lib import abx, tables, filters as F
from lib.core import require
from checks import c04

ID = 'C05'
BOUNDS = {
    'quick': 'all the full designs (11 shapes, 8 label types, one row '
             'deletions) with default regressors; on irregular tables '
             'with 10 ON/ACROSS/BY specifications: every regressor '
             '(column and suffix), every pair of them for a few columns, '
             'with and without representative filters of every level, '
             'pairs of filters, thresholds 1 and 2; six values computed '
             'by scripts from eight columns; 256 to 300 items reduced '
             'by filters; 60 by blocks',
    'thorough': 'as quick with all small tables, every pair of regressors, '
                'ordered pairs of filters, three tables',
}


def regressors(spec):
    across, by = c04.SPECS[spec]
    return [v for v in c04.variables(spec)
            if F.split(v)[1] or F.among(v, by)]


def cases(tier):
    deep = tier == 'thorough'
    out = []
    ts = tables.family(False) if deep else tables.designs()
    for k, c in enumerate(ts):
        rows, columns, across, by = tables.rows_of(c)
        if not abx.triplets(rows, 'on', across, by):
            continue
        c = dict(c, r=['%s_%s' % (columns[(k + j) % len(columns)], 'BXA'[j])
                       for j in range(k % 4)])
        if k % 3 == 0:
            c['t'] = 1 + k % 2
        out.append(c)

    def add(d, spec, r, fs=(), t=None):
        out.append({'d': d, 'spec': spec, 'r': list(r), 'f': list(fs),
                    't': t})
    for n, spec in enumerate(c04.SPECS):
        add(n % 3, spec, [])
        for k, v in enumerate(regressors(spec)):
            add(k % 3, spec, [v])
            if deep:
                add(1, spec, [v], t=1)
                add(0, spec, [v], [c04.REPRESENTATIVE[k % 19]])
    vs = regressors('std')
    some = ['zz_A', 'zz_B', 'zz_X', 'fl_A', 'oo_X', 'aa_B', 'by', 'bb_X',
            'on_1', 'ac_2', 'on_B', 'ac_A']
    for v, w in itertools.permutations(some, 2):
        if deep or v < w:
            add(len(v + w) % 3, 'std', [v, w])
    if deep:
        for v, w in itertools.combinations(vs, 2):
            add(2, 'std', [v, w], t=2)
    three = ['zz_A', 'fl_B', 'zz_X']
    for k, f in enumerate(c04.REPRESENTATIVE):
        for t in (None, 1, 2):
            add(k % 3, 'std', three, [f], t)
            add((k + 1) % 3, 'std', ['fl_X', 'zz_B', 'oo_A', 'by'], [f], t)
    for k, (f, g) in enumerate(itertools.permutations(
            c04.REPRESENTATIVE, 2)):
        if deep or k % 3 == 0:
            add(k % 3, 'std', three, [f, g], [None, 1, 2][k % 3])
    # computed by scripts
    for k, (fun, v) in enumerate(itertools.product(
            ('neg', 'half', 'flag', 'code', 'big', 'part'),
            ('zz_A', 'zz_B', 'zz_X', 'bb', 'bb_B', 'oo_1', 'oo_X', 'fl_X'))):
        r = 'calc:%s:%s' % (fun, v)
        for t in (None, 1, 2) if deep else (None, 2)[k % 2:][:1]:
            add(k % 3, 'std', [r], (), t)
            add((k + 1) % 3, 'std', [r] + three,
                [c04.REPRESENTATIVE[k % 19]], t)
            add(k % 3, 'noac', [r, 'zz_X'], (), t)
            add((k + 1) % 3, 'std',
                ['calc:half:zz_A', 'zz_B', r, 'calc:neg:fl_B'],
                [c04.REPRESENTATIVE[(k * 3 + 1) % 19]], t)
    lv = [c04.REPRESENTATIVE[i] for i in c04.LEVELS]
    for k, fs in enumerate(itertools.combinations(lv, 3)):
        add(k % 3, 'std', three[::-1], fs, [None, 2][k % 2])
    for n, size in ((20, 1), (30, 12), (290 if deep else 60, 1)):
        for r, t in (([], None), (['zz_X', 'zz_A'], None),
                     (['zz_B'], 1), (['by', 'zz_A', 'zz_B', 'zz_X'], 3)):
            if deep or n < 50 or t == 1:
                out.append({'many': n, 'size': size, 'r': r, 't': t,
                            'heavy': n > 50})
    for n in (256, 257, 300) + ((70000,) if deep else ()):
        for k, where in enumerate(('first', 'last', 'ends', 'spread')):
            for j, fs in enumerate(c04.LARGE):
                if deep or (j + k + n) % 3 == 0:
                    out.append({'large': n, 'where': where, 'f': fs,
                                'r': three, 't': [None, 1, 2][(j + k) % 3]})
    return out


def same(label, level):
    if isinstance(level, bytes):
        level = level.decode('utf8')
    if hasattr(level, 'item'):
        level = level.item()
    if isinstance(label, str) or isinstance(level, str):
        return str(label) == str(level)
    return label == level


def run(c, ctx):
    on = c04.ON.get(c.get('spec'), 'on')
    if 'shape' in c:
        rows, columns, across, by = tables.rows_of(c)
        fs, aux = [], None
    elif 'many' in c:
        rows, columns = tables.many(c['many'], c['size'])
        across, by, fs, aux = ['ac'], ['by'], [], None
    elif 'large' in c:
        rows, columns = tables.large(c['large'], c['where'], by=2)
        across, by, fs, aux = ['ac'], ['by'], c['f'], None
    else:
        rows, columns = c04.design(c['d']), c04.COLS
        across, by = c04.SPECS[c['spec']]
        fs, aux = c['f'], c04.AUX
    want = abx.triplets(rows, on, across, by,
                        keep=F.keep(fs, on, across, by))
    kw = {}
    if c.get('t'):
        kw = {'threshold': c['t'], 'seed': 5}
    try:
        task, out = abx.generate(ctx, rows, columns, on, across, by,
                                 [F.text(f) for f in fs],
                                 [F.reg_text(r) for r in c['r']], aux=aux,
                                 **kw)
    except ValueError:
        # values of several types can be refused
        require(any(r.startswith('calc:part:') for r in c['r']), 'refused')
        ctx.state('refused')
        return
    if not want:
        return
    require(os.path.exists(out), 'no task file')
    blocks = abx.read_task(out, pairs=False)
    need = [on + '_1', on + '_2']
    for a in across:
        need += [a + '_1', a + '_2']
    need += [r for r in c['r'] if not F.is_calc(r)]
    calc = [r for r in c['r'] if F.is_calc(r)]
    wanted = {abx.by_label(k): set(v) for k, v in want.items()}
    for b in blocks:
        require(b.by in wanted, 'unknown by block {}', b.by)
        missing = [n for n in need if n not in b.regs]
        require(not missing, 'regressors {} are missing', missing)
        for name, labels in b.regs.items():
            require(len(labels) == len(b.triplets), 'number of regressors')
            for (i, j, k), level in zip(b.triplets, labels):
                if not (i, j, k) in wanted[b.by]:
                    require(False, 'triplet {} does not belong to the task',
                            (i, j, k))
                v = F.value(name, rows[i], rows[j], rows[k], on, across,
                            by)
                if not same(v, level):
                    require(False, 'regressor {} of triplet {} of by block '
                            '{} is {!r} instead of {!r}', name, (i, j, k),
                            b.by, level, v)
        # (their names are arbitrary)
        left = list(b.numbers)
        for r in calc:
            v = [F.reg_value(r, F.value(F.reg_var(r), rows[i], rows[j],
                                        rows[k], on, across, by))
                 for i, j, k in b.triplets]
            require(v in left, 'no column of by block {} holds {} for each '
                    'triplet: {}', b.by, r, v)
            left.remove(v)
        ctx.state(b.by, b.triplets, calc, sorted(
            (n, [str(x) for x in v]) for n, v in b.regs.items()))
