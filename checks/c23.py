"""C23: the command line tools do what the library does

Every combination of the options of each command is executed through the
real entry point (``main`` with ``sys.argv``) and compared with the library
call of the model: which function, on which arguments, writing where.
"""
import contextlib
import io
import itertools
import os
import shutil
import sys

from lib import abx, h5cmp
from lib.core import require

ID = 'C23'
NEEDS_DTW = True
BOUNDS = {
    'quick': 'task: all the combinations of 0 to 2 across, by, filters and '
             'regressors, with and without threshold and seed, crossed with '
             'the place of the output (given, given and existing, default, '
             'default and existing), 6 kinds of item file names (dots, '
             'folders), short and long options, 4 argument '
             'orders, temporary folder, verbosity, statistics only, absolute and '
             'relative paths, columns in any order; '
             'distance: all the combinations of distance (default, '
             'levenshtein, dtw_kl, 5 functions of user modules), normalization, number '
             'of jobs, group, output existing or not; score and analyze: all '
             'the combinations of outputs, missing inputs and 25 pairs of '
             'file names',
    'thorough': 'the full product of the options of the task command with '
                'the places of the output and the argument orders; distance '
                'with up to 4 jobs',
}
ASSUMPTIONS = ['a user distance module is given by the path of its file '
               'without extension; its name is not the one of a module '
               'already imported']

COLUMNS = ['on', 'ac', 'bc', 'by', 'cy']
ACROSS = [[], ['ac'], ['bc', 'ac'], ['ac', 'bc']]
BY = [[], ['by'], ['cy', 'by'], ['by', 'cy']]
FILTERS = [[], ["[a == 's' for a in ac_A]"],
           ["[a != 'z' for a in on_X]", "[c != 'y' for c in cy]"]]
REGRESSORS = [[], ['cy_B'], ['on_A', 'by_X'], ['by_X', 'on_A', 'ac_B']]
THRESHOLD = [(None, None), (1, 3), (2, 0), (3, None)]
PLACES = ['given', 'existing', 'default', 'default-existing', 'stats',
          'stats-existing']


def rows():
    out = []
    for k, (o, a, b, c, d) in enumerate(itertools.product(
            'pq', 'st', 'mn', 'u', 'xy')):
        out.append(dict(on=o, ac=a, bc=b, by=c, cy=d))
        if k % 5 == 0:
            out.append(dict(on=o, ac=a, bc=b, by='v', cy=d))
    return out


def cases(tier):
    deep = tier == 'thorough'
    out = []
    k = 0
    for a, b, f, r, t in itertools.product(range(3), range(3), range(3),
                                           range(3), range(4)):
        if t == 3 and (a + b + f + r) % 4:
            continue
        places = PLACES if deep else [PLACES[(a + b + f + r + t) % 4]]
        if not deep and t == 0 and (a + r) % 3 == 0:
            places = places + ['stats' if b % 2 else 'stats-existing']
        for p in places:
            orders = range(4) if deep and t < 2 else [k % 4]
            for o in orders:
                k += 1
                out.append({'cmd': 'task', 'a': a, 'b': b, 'f': f, 'r': r,
                            't': t, 'rel': (k // 4) % 2, 'place': p, 'order': o, 'long': k % 2,
                            'tmp': k % 3, 'verbose': k % 5 == 0,
                            'name': (k // 2) % len(ITEMS)
                            if p.startswith('default') else 0})
    for d in DISTANCES:
        for n in (None, 0, 1):
            for g in (None, 'features', 'other'):
                for j in (None, 1, 2) if not deep else (None, 1, 2, 3, 4):
                    for e in (0, 1):
                        k += 1
                        if not deep and j == 2 and k % 3:
                            continue
                        out.append({'cmd': 'distance', 'd': d, 'n': n,
                                    'g': g, 'j': j, 'exists': e,
                                    'long': k % 2, 'order': k % 3,
                                    'rel': (k // 6) % 2})
    for place in ('given', 'existing', 'default', 'default-existing',
                  'default-elsewhere'):
        for missing in (None, 'task', 'distance'):
            for i, j in itertools.product(range(len(TASKS)),
                                          range(len(DISTS))):
                if deep or missing is None or (i, j) == (0, 0):
                    k += 1
                    out.append({'cmd': 'score', 'place': place, 'task': i,
                                'dist': j, 'missing': missing, 'rel': k % 2})
    for place in ('given', 'existing'):
        for missing in (None, 'task', 'score'):
            for rel in (0, 1):
                out.append({'cmd': 'analyze', 'place': place,
                            'missing': missing, 'rel': rel})
    return out


# names of items, tasks and distances: path, and path without extension
ITEMS = [('my.data.item', 'my.data'), ('v1.0/x.item', 'v1.0/x'),
         ('a.b.c.item', 'a.b.c'), ('data.abx.item', 'data.abx'),
         ('d.item.item', 'd.item'), ('x.item', 'x')]
TASKS = [('a.abx', 'a'), ('my.a.abx', 'my.a'), ('noext', 'noext'),
         ('v1.0/a.abx', 'v1.0/a'), ('v1.0/noext', 'v1.0/noext')]
DISTS = [('my.b.distance', 'my.b'), ('b.distance', 'b'), ('nodot', 'nodot'),
         ('x.y/z.distance', 'z'), ('x.y/nodot', 'nodot')]
DISTANCES = [None, 'levenshtein', 'dtw_kl', 'user.first', 'user.second',
             'sub/other.first', 'v1.0/third.first', './sub/other.second']
USER = '''
def first(x, y, normalized=None):
    return %s + float(x.sum()) - 2 * float(y.sum()) + (
        0 if normalized is None else 1000 if normalized else 2000)


def second(x, y, normalized=None):
    return -first(x, y, normalized)
'''


def call(main, args, cwd=None):
    """Run an entry point; returns (exception or None, printed text)

    Given a working directory, the paths in the arguments are relative to it.
    """
    argv, path, out = sys.argv, list(sys.path), sys.stdout
    args = [str(a) for a in args]
    here = os.getcwd()
    if cwd:
        args = [('./' if '/./' in a else '') + os.path.relpath(a, cwd)
                if a.startswith(cwd) else a for a in args]
        os.chdir(cwd)
    sys.argv = ['command'] + [str(a) for a in args]
    sys.stdout = io.StringIO()
    try:
        main()
        return None, sys.stdout.getvalue()
    except SystemExit as e:
        return e, sys.stdout.getvalue()
    except Exception as e:
        return e, sys.stdout.getvalue()
    finally:
        os.chdir(here)
        sys.argv, sys.stdout = argv, out
        sys.path[:] = path
        for m in ('user', 'other', 'third'):
            sys.modules.pop(m, None)


def opt(c, short, long):
    return long if c.get('long') else short


def same(a, b, what):
    diff = h5cmp.difference(a, h5cmp.dump(b) if isinstance(b, str) else b)
    require(diff is None, '{}: {}', what, diff)


def unchanged(before, d, what, ignore=()):
    for n, content in before.items():
        if n not in ignore:
            same(content, os.path.join(d, n), '%s: file %s' % (what, n))


def snapshot(d):
    names = [os.path.relpath(os.path.join(root, n), d)
             for root, dirs, files in os.walk(d) for n in files
             if '__pycache__' not in root]
    return {n: h5cmp.dump(os.path.join(d, n)) for n in names}


def within(want, text):
    """the lines of a text are in another one, in order"""
    lines = iter(text.split('\n'))
    return all(w in lines for w in want.split('\n'))


# -------------------------------------------------------------------- task
def run_task(c, ctx):
    import numpy as np
    from ABXpy import task
    d = ctx.sub()
    name, stem = ITEMS[c.get('name', 0)]
    item = os.path.join(d, name)
    if '/' in name:
        os.mkdir(os.path.dirname(item))
    abx.write_items(item, rows(), COLUMNS)
    # several columns: in any order
    across, by = [x[i + (i == 2 and c['order'] % 2)] for x, i in (
        (ACROSS, c['a']), (BY, c['b']))]
    filters, regs = FILTERS[c['f']], REGRESSORS[
        c['r'] + (c['r'] == 2 and c['order'] > 1)]
    thr, seed = THRESHOLD[c['t']]
    regs = [r for r in regs if r.split('_')[0] not in by]
    place = c['place']
    given = os.path.join(d, 'out.file')
    default = os.path.join(d, stem + '.abx')
    positional = [item]
    if place in ('given', 'existing', 'stats-existing'):
        positional.append(given)
    options = [opt(c, '-o', '--on'), 'on']
    for name, values in (('a', across), ('b', by), ('f', filters),
                         ('r', regs)):
        if values:
            options += [opt(c, '-' + name, {
                'a': '--across', 'b': '--by', 'f': '--filters',
                'r': '--regressors'}[name])] + values
    if thr is not None:
        options += [opt(c, '-t', '--threshold'), thr]
    if seed is not None:
        options += ['--seed', seed]
    tmp = None
    if c['tmp']:
        tmp = os.path.join(d, 'tmp', 'deep', 'er')
        if c['tmp'] == 2:
            os.makedirs(tmp)
        options += ['--tempdir', tmp]
    if c['verbose']:
        options += [opt(c, '-v', '--verbose')]
    stats = place.startswith('stats')
    if stats:
        options += ['--stats-only']
    if c['order'] == 0:
        args = positional + options
    elif c['order'] == 1:
        args = options + ['--'] + positional
    elif c['order'] == 2:
        # options in another order
        args = positional + options[2:] + options[:2]
    else:
        args = options[2:] + options[:2] + ['--'] + positional
    # the library
    ref = os.path.join(ctx.sub(), 'ref.abx')
    t = task.Task(item, 'on', across or None, by or None,
                  filters=filters or None, regressors=regs or None)
    if stats:
        t.print_stats(ref)
        with open(ref) as f:
            want = f.read()
    else:
        t.generate_triplets(output=ref, threshold=thr, seed=seed or 0)
        want = h5cmp.dump(ref)
    ctx.step(2)
    # the command
    target = given if place in ('given', 'existing',
                                'stats-existing') else default
    if place.endswith('existing'):
        with open(target, 'w') as f:
            f.write('something else\n')
    if place == 'existing' and c['tmp'] == 1:
        # a task file of another task
        os.remove(target)
        task.Task(item, 'on').generate_triplets(output=target)
    before = snapshot(d)
    np.random.seed(c['a'] + 3)
    err, text = call(task.main, args, d if c['rel'] else None)
    ctx.step()
    what = 'task ' + ' '.join(str(a) for a in args)
    after = snapshot(d)
    if stats:
        require(err is None, '{}: {!r}', what, err)
        require(within(want, text), '{}: the statistics are not those of the task: '
                '{} instead of {}', what, text, want)
        require(set(after) == set(before), '{}: files {} instead of {}', what,
                sorted(after), sorted(before))
        unchanged(before, d, what)
        ctx.state(text)
        return
    if place == 'default-existing':
        require(err is not None, '{}: an existing file at the default place '
                'is replaced', what)
        unchanged(before, d, what)
        return
    require(err is None, '{}: {!r}', what, err)
    rel = os.path.relpath(target, d)
    require(set(after) == set(before) | {rel}, '{}: files {}', what,
            sorted(after))
    unchanged(before, d, what, [rel])
    if seed is None and thr is not None:
        # another sample: same structure
        same({k: v for k, v in want.items() if k == 'bys'},
             {k: v for k, v in after[rel].items()
              if k == 'bys'}, what)
        require(len(after[rel]['triplets/data'][1][2]) ==
                len(want['triplets/data'][1][2]), '{}: number of triplets',
                what)
    else:
        same(want, after[rel], what)
    if tmp:
        require(os.path.isdir(tmp) and not os.listdir(tmp), '{}: temporary '
                'folder', what)
    ctx.state(h5cmp.digest(after[rel]))


# ------------------------------------------------------------- other steps
def prepared(ctx):
    """a directory with a task and features"""
    import numpy as np
    from ABXpy import task
    d = ctx.sub()
    item = os.path.join(d, 'a.item')
    r = [dict(on=o, ac=a, by=b) for o in 'pq' for a in 'st' for b in 'uv']
    r += r[:2]
    abx.write_items(item, r, ['on', 'ac', 'by'])
    task.Task(item, 'on', 'ac', 'by').generate_triplets(
        output=os.path.join(d, 'a.abx'))
    names = ['f0', 'f1', 'f2']
    feat = os.path.join(d, 'a.features')
    for group in ('features', 'other'):
        s = 1 if group == 'features' else 2
        times = [np.arange(60) / 4. for _ in names]
        feats = [np.array([[1. + s * (n + i) % 5, 1 + (i * s) % 3]
                           for i in range(60)]) for n in range(3)]
        abx.write_features(feat, times, feats, names, group)
    with open(os.path.join(d, 'user.py'), 'w') as f:
        f.write(USER % 1)
    os.mkdir(os.path.join(d, 'sub'))
    with open(os.path.join(d, 'sub', 'other.py'), 'w') as f:
        f.write(USER % 50)
    os.mkdir(os.path.join(d, 'v1.0'))
    with open(os.path.join(d, 'v1.0', 'third.py'), 'w') as f:
        f.write(USER % 7)
    return d


def user(n, sign=1):
    space = {}
    exec(USER % n, space)
    return space['first' if sign == 1 else 'second']


def run_distance(c, ctx):
    from ABXpy import distance
    from ABXpy.distances import distances
    d = prepared(ctx)
    # user modules are given by their path without extension
    name = c['d']
    if name and '.' in name:
        name = os.path.join(d, name)
    out = os.path.join(d, 'out.file')
    feat, task = os.path.join(d, 'a.features'), os.path.join(d, 'a.abx')
    if c['exists']:
        with open(out, 'w') as f:
            f.write('something else\n')
    before = snapshot(d)
    options = []
    if name:
        options += [opt(c, '-d', '--distance'), name]
    if c['n'] is not None:
        options += [opt(c, '-n', '--normalization'), c['n']]
    if c['g']:
        options += [opt(c, '-g', '--group'), c['g']]
    if c['j']:
        options += [opt(c, '-j', '--njobs'), c['j']]
    pos = [feat, task, out]
    args = {0: pos + options, 1: options + pos,
            2: pos[:1] + options + pos[1:]}[c['order']]
    what = 'distance ' + ' '.join(str(a) for a in args)
    err, _ = call(distance.main, args, d if c['rel'] else None)
    ctx.step()
    if c['d'] is None and c['n'] is None:
        require(isinstance(err, SystemExit) and err.code not in (0, None),
                '{}: not refused ({!r})', what, err)
        unchanged(before, d, what)
        require(os.path.exists(out) == bool(c['exists']), '{}: output', what)
        return
    fun = {None: distance.default_distance,
           'levenshtein': distance.edit_distance,
           'dtw_kl': distance.dtw_kl_distance, 'user.first': user(1),
           'user.second': user(1, -1), 'sub/other.first': user(50),
           'v1.0/third.first': user(7),
           './sub/other.second': user(50, -1)}[c['d']]
    ref = os.path.join(ctx.sub(), 'ref')
    expected = None
    try:
        distances.compute_distances(
            feat, c['g'] or 'features', task, ref, fun, c['n'], n_cpu=1)
    except Exception as e:
        expected = e
    ctx.step()
    if expected is not None:
        require(err is not None, '{}: no error, the library gives {!r}', what,
                expected)
    else:
        require(err is None, '{}: {!r}', what, err)
        same(h5cmp.dump(ref), out, what)
        ctx.state(h5cmp.digest(h5cmp.dump(out)))
    unchanged(before, d, what, ['out.file'])
    extra = set(snapshot(d)) - set(before) - {'out.file'}
    require(not extra, '{}: files {}', what, sorted(extra))


def run_score(c, ctx):
    from ABXpy import score
    from ABXpy.distances import distances
    d = prepared(ctx)
    (task, tstem), (dist, dstem) = TASKS[c['task']], DISTS[c['dist']]
    where = d
    if c['place'] == 'default-elsewhere':
        where = ctx.sub()
    dist = os.path.join(where, dist)
    task = os.path.join(d, task)
    for p in (task, dist):
        if not os.path.isdir(os.path.dirname(p)):
            os.mkdir(os.path.dirname(p))
    os.rename(os.path.join(d, 'a.abx'), task)
    distances.compute_distances(os.path.join(d, 'a.features'), 'features',
                                task, dist, user(1), None, n_cpu=1)
    ref = os.path.join(ctx.sub(), 'ref')
    score.score(task, dist, ref)
    ctx.step(2)
    want = h5cmp.dump(ref)
    given = os.path.join(d, 'out.file')
    default = os.path.join(d, tstem + '_' + dstem + '.score')
    target = given if c['place'] in ('given', 'existing') else default
    if c['place'].endswith('existing'):
        with open(target, 'w') as f:
            f.write('something else\n')
    if c['missing']:
        os.remove(task if c['missing'] == 'task' else dist)
    before = snapshot(d)
    args = [task, dist] + ([given] if target == given else [])
    what = 'score ' + ' '.join(args)
    err, _ = call(score.main, args, d if c['rel'] else None)
    ctx.step()
    if c['missing'] or c['place'] == 'default-existing':
        require(err is not None, '{}: not refused', what)
        unchanged(before, d, what)
        require(not os.path.exists(target) or c['place'].endswith('existing'),
                '{}: an output is written', what)
        return
    require(err is None, '{}: {!r}', what, err)
    require(os.path.exists(target), '{}: no output at {}', what, target)
    same(want, target, what)
    target = os.path.relpath(target, d)
    unchanged(before, d, what, [target])
    extra = set(snapshot(d)) - set(before) - {target}
    require(not extra, '{}: files {}', what, sorted(extra))
    ctx.state(what)


def run_analyze(c, ctx):
    from ABXpy import analyze, score
    from ABXpy.distances import distances
    d = prepared(ctx)
    task, dist, sco = [os.path.join(d, n)
                       for n in ('a.abx', 'a.distance', 'a.score')]
    distances.compute_distances(os.path.join(d, 'a.features'), 'features',
                                task, dist, user(1), None, n_cpu=1)
    score.score(task, dist, sco)
    ref = os.path.join(ctx.sub(), 'ref')
    analyze.analyze(task, sco, ref)
    ctx.step(3)
    want = h5cmp.dump(ref)
    out = os.path.join(d, 'out.file')
    if c['place'] == 'existing':
        with open(out, 'w') as f:
            f.write('something else\n' * 100)
    if c['missing']:
        os.remove(task if c['missing'] == 'task' else sco)
    before = snapshot(d)
    args = [sco, task, out]
    what = 'analyze ' + ' '.join(args)
    err, text = call(analyze.main, args, d if c['rel'] else None)
    ctx.step()
    if c['missing']:
        require(err is not None, '{}: no error', what)
        unchanged(before, d, what)
        require(os.path.exists(out) == (c['place'] == 'existing'),
                '{}: an output is written', what)
        return
    require(err is None, '{}: {!r}', what, err)
    same(want, out, what)
    unchanged(before, d, what, ['out.file'])
    ctx.state(what)


def run(c, ctx):
    {'task': run_task, 'distance': run_distance, 'score': run_score,
     'analyze': run_analyze}[c['cmd']](c, ctx)
