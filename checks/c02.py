"""C02: the statistics of a task are those of its triplets"""
import os
import re
import warnings

from lib import abx, tables, filters as F
from lib.core import require

ID = 'C02'
BOUNDS = {
    'quick': 'the tables of C01 (all tables up to 4 or 5 rows, full designs, '
             'deletions, label types) without filter; 3 designs with every '
             'single filter and every pair of filters of different levels',
    'thorough': 'the tables of C01 thorough (up to 6 or 7 rows); filters as '
                'in quick on 6 designs',
}

COLS = ['on', 'ac', 'by', 'zz']


def filter_set():
    out = []
    for v in ('on_A', 'on_B', 'on_X', 'on_1', 'on_2'):
        out.append({'var': v, 'op': '!=', 'value': 'q'})
    for v in ('ac_A', 'ac_B', 'ac_X', 'ac_1', 'ac_2'):
        out.append({'var': v, 'op': '==', 'value': 's'})
    for v in ('by', 'by_A', 'by_X'):
        out.append({'var': v, 'op': '==', 'value': 'u'})
    for v in ('zz', 'zz_A', 'zz_B', 'zz_X'):
        out.append({'var': v, 'op': '>=', 'value': 1})
    out.append({'vars': ['zz_A', 'zz_X'], 'op': '<'})
    out.append({'vars': ['zz_A', 'zz_B'], 'op': '=='})
    out.append({'vars': ['on_2', 'zz_X'], 'op': '!='})
    out.append({'vars': ['on', 'ac'], 'op': '!='})
    out.append({'vars': ['zz', 'zz'], 'op': '<'})      # keeps nothing
    return out


def design(i):
    """rows with an uneven extra column"""
    on = 'pqr' if i % 2 else 'pq'
    ac = 'stw' if i % 3 != 1 else 'st'
    rows = []
    n = 0
    for b in 'uv':
        for o in on:
            for a in ac:
                n += 1
                if (n + i) % 7 == 0:
                    continue
                rows.append(dict(zip(COLS, (o, a, b, (n * (i + 3)) % 3))))
                if n % 5 == 0:
                    rows.append(dict(zip(COLS, (o, a, b, n % 2))))
    return rows


def cases(tier):
    deep = tier == 'thorough'
    out = tables.family(deep)
    fs = filter_set()
    for d in range(6 if deep else 2):
        for f in fs:
            out.append({'design': d, 'filters': [f]})
    for d in range(3 if deep else 1):
        for i, f in enumerate(fs):
            for g in fs[:i]:
                out.append({'design': d, 'filters': [f, g]})
    for d in range(3):
        for shape in (([], ['by']), (['ac'], []), (['ac'], ['by', 'zz']),
                      (['ac', 'zz'], ['by']), (['ac', 'zz'], [])):
            out.append({'design': d, 'filters': [], 'across': shape[0],
                        'by': shape[1]})
            for f in fs:
                cols = [F.split(v) for v in F.used(f)]
                if any(e in ('1', '2') and c not in ['on'] + shape[0]
                       for c, e in cols):
                    continue
                out.append({'design': d, 'filters': [f], 'across': shape[0],
                            'by': shape[1]})
    return out


def py(x):
    return x.item() if hasattr(x, 'item') else x


def key(k):
    return tuple(py(x) for x in k) if isinstance(k, tuple) else (py(k),)


def run(c, ctx):
    if 'shape' in c:
        rows, columns, across, by = tables.rows_of(c)
        fs = []
    else:
        rows, columns = design(c['design']), COLS
        across, by = c.get('across', ['ac']), c.get('by', ['by'])
        fs = c['filters']
    d = ctx.sub()
    item = os.path.join(d, 'data.item')
    abx.write_items(item, rows, columns)
    task = abx.make_task(item, 'on', across, by, [F.text(f) for f in fs])
    ctx.step()
    kept = F.keep_item(fs, by)
    expected = abx.triplets(rows, 'on', across, by,
                            keep=F.keep(fs, 'on', across, by))
    total = sum(len(v) for v in expected.values())

    # items of the by levels
    groups = {}
    for i, r in enumerate(rows):
        if kept(r):
            groups.setdefault(tuple(r[x] for x in by), []).append(i)
    st = task.stats
    require(int(st['nb_triplets']) == total,
            'announced {} triplets, there are {}', st['nb_triplets'], total)
    require(st['nb_by_levels'] == len(groups),
            'announced {} by levels, there are {}', st['nb_by_levels'],
            len(groups))

    def cell(i):
        if across:
            return (rows[i]['on'],) + tuple(rows[i][a] for a in across)
        return (rows[i]['on'], i)
    blocks = {k: set(cell(i) for i in v) for k, v in groups.items()}
    require(st['nb_blocks'] == sum(len(v) for v in blocks.values()),
            'announced {} blocks, there are {}', st['nb_blocks'],
            sum(len(v) for v in blocks.values()))
    got = {}
    for k, v in task.by_stats.items():
        kk = key(k) if by else ()
        require(kk in groups and kk not in got, 'unknown by level {}', k)
        got[kk] = v
    require(set(got) == set(groups), 'by levels {} instead of {}',
            sorted(map(str, got)), sorted(map(str, groups)))
    for k, s in got.items():
        members = groups[k]
        ons = {}
        acs = {}
        cells = {}
        for i in members:
            ons[rows[i]['on']] = ons.get(rows[i]['on'], 0) + 1
            a = tuple(rows[i][x] for x in across) if across else (i,)
            acs[a] = acs.get(a, 0) + 1
            cells[cell(i)] = cells.get(cell(i), 0) + 1
        require(s['nb_items'] == len(members), 'by level {}: {} items for {}',
                k, s['nb_items'], len(members))
        require({py(a): int(n) for a, n in s['on_levels'].items()} == ons,
                'by level {}: ON levels', k)
        if across:
            require({key(a): int(n) for a, n in s['across_levels'].items()}
                    == acs, 'by level {}: ACROSS levels', k)
            require({key(a): int(n)
                     for a, n in s['on_across_levels'].items()} == cells,
                    'by level {}: ON-ACROSS levels', k)
        require((s['nb_on_levels'], s['nb_across_levels'],
                 s['nb_on_across_levels']) == (
                     len(ons), len(acs), len(cells)),
                'by level {}: number of levels', k)
        t = expected.get(k, [])
        require(int(s['nb_triplets']) == len(t),
                'by level {}: {} triplets announced for {}', k,
                s['nb_triplets'], len(t))
        sizes = {x: 0 for x in cells}
        for a, _, _ in t:
            sizes[cell(a)] += 1
        if across:
            require({key(a): int(n) for a, n in s['block_sizes'].items()}
                    == sizes, 'by level {}: triplets of the blocks', k)
        else:
            require(sorted(int(n) for n in s['block_sizes'].values()) ==
                    sorted(sizes.values()),
                    'by level {}: triplets of the blocks', k)
    check_summary(ctx, task, rows, across, by, fs, expected, groups)
    # approximate statistics
    task.compute_statistics(approximate=True)
    ctx.step()
    approx = int(task.stats['nb_triplets'])
    coarse = abx.triplets(
        rows, 'on', across, by, keep=F.keep(
            [f for f in fs if F.level(f, 'on', across, by) != 'item'],
            'on', across, by))
    upper = sum(len(v) for v in coarse.values())
    require(total <= approx <= upper,
            'approximate number of triplets {} not between {} and {}',
            approx, total, upper)
    # the count is the one of the generation
    task.compute_statistics()
    out = os.path.join(d, 'data.abx')
    task.generate_triplets(output=out)
    ctx.step(2)
    if total:
        import h5py
        with h5py.File(out, 'r') as fh:
            n = fh['triplets/data'].shape[0]
        require(n == total, '{} triplets announced, {} written', total, n)
        check_summary(ctx, task, rows, across, by, fs, expected, groups)
    else:
        require(not os.path.exists(out), 'no triplet announced, but written')
    ctx.state(total, sorted((str(k), len(v)) for k, v in groups.items()),
              sorted((str(k), sorted(v)) for k, v in expected.items()))


def check_summary(ctx, task, rows, across, by, fs, expected, groups):
    name = ctx.path('summary.txt')
    with warnings.catch_warnings(record=True):
        warnings.simplefilter('always')
        task.print_stats(name)
    ctx.step()
    with open(name) as f:
        text = f.read()
    parts = re.split(r'### by level: (.*) ###\n', text)[1:]
    seen = dict(zip(parts[::2], parts[1::2]))
    require(set(seen) == {abx.by_label(k) for k in groups},
            'by levels of the summary: {}', sorted(seen))
    item_level = any(F.level(f, 'on', across, by) == 'item' for f in fs)
    for k in groups:
        vals = dict(re.findall(r'(\w+): (\d+)', seen[abx.by_label(k)]))
        t = expected.get(k, [])
        require(int(vals['nb_triplets']) == len(t),
                'summary: {} triplets for by level {} instead of {}',
                vals['nb_triplets'], k, len(t))
        if across and not item_level and 'nb_levels' in vals:
            def lab(i):
                return (rows[i]['on'],) + tuple(rows[i][a] for a in across)
            n = len({(lab(a), lab(b), lab(x)) for a, b, x in t})
            require(int(vals['nb_levels']) == n,
                    'summary: {} label combinations for by level {} instead '
                    'of {}', vals['nb_levels'], k, n)
            ctx.count('nb_levels_compared')
