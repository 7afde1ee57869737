"""C25: runs made at the same time do not disturb each other"""
import itertools
import os
import shutil
import warnings

from lib import abx, h5cmp, sched
from lib.core import HarnessError, require

ID = 'C25'
BOUNDS = {
    'quick': 'two processes running two steps (task generation, distances, '
             'scores, analysis, verification, conversion of features) which '
             'share their input files, folder and temporary folder and '
             'write different outputs, every pair of steps (two generations: '
             'same task, other task, items with missing labels): all the '
             'interleavings of their file operations (opening and closing '
             'HDF5 files, making and removing files) with at most 1 '
             'preemption, 2 for the shortest pairs; three processes for '
             'some triples of steps',
    'thorough': 'as quick with at most 2 preemptions, 3 for the shortest '
                'pairs; three processes for all the triples of the steps '
                'which follow the generation',
}
ASSUMPTIONS = ['processes interact only through files: the visible '
               'operations are opening and closing HDF5 files, making, '
               'moving and removing files']

# step: (inputs, output)
STEPS = {
    'task': (['x.item'], 'o1.abx'),
    'same': (['x.item'], 'o2.abx'),
    'other': (['x.item'], 'o3.abx'),
    'missing': (['m.item'], 'o4.abx'),
    'missing2': (['m.item'], 'o5.abx'),
    'dist': (['t.abx', 'f.features'], 'd1.distance'),
    'dist2': (['t.abx', 'f.features'], 'd2.distance'),
    'score': (['t.abx', 'd.distance'], 's1.score'),
    'score2': (['t.abx', 'd.distance'], 's2.score'),
    'analyze': (['t.abx', 's.score'], 'r1.csv'),
    'analyze2': (['t.abx', 's.score'], 'r2.csv'),
    'verify': (['x.item', 'f.features'], None),
    'convert': (['raw'], 'c1.features'),
    'convert2': (['raw'], 'c2.features'),
}
NAMES = sorted(STEPS)
LONG = ['task', 'same', 'other', 'missing', 'missing2']
SHORT = ['score', 'score2', 'analyze', 'analyze2', 'verify']
QUICK = [('same', 'task'), ('other', 'task'), ('missing', 'missing2'),
         ('dist', 'task'), ('score', 'task'), ('analyze', 'task'),
         ('task', 'verify'), ('convert', 'other')]
PARTS = 6


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for a, b in itertools.combinations(NAMES, 2):
        long = (a in LONG) + (b in LONG)
        if not deep and long and (a, b) not in QUICK:
            continue
        short = a in SHORT and b in SHORT
        bound = (3 if short else 2) if deep else (2 if short else 1)
        for part in range(PARTS if long or deep else 1):
            out.append({'steps': [a, b], 'bound': bound, 'part': part,
                        'parts': PARTS if long or deep else 1})
    after = ['dist', 'score', 'analyze', 'dist2', 'score2', 'analyze2']
    triples = list(itertools.combinations(after, 3))
    for k in triples if deep else triples[:1] + triples[-1:]:
        for part in range(PARTS):
            out.append({'steps': list(k), 'bound': 2 if deep else 1,
                        'part': part, 'parts': PARTS})
    if deep:
        for k in itertools.combinations(LONG, 3):
            for part in range(PARTS):
                out.append({'steps': list(k), 'bound': 1, 'part': part,
                            'parts': PARTS})
    return out


def plain(x, y, *args, **kw):
    return float(((x[:1] - y[:1]) ** 2).sum()) + 0.25 * float(x[0, 0])


def make_inputs(d):
    import numpy as np
    rows = [{'on': o, 'ac': a, 'by': b, 'sp': str(k)}
            for k, (o, a, b) in enumerate(
                itertools.product('pq', 'st', 'uv'))]
    rows += rows[:2]
    cols = ['on', 'ac', 'by', 'sp']
    abx.write_items(os.path.join(d, 'x.item'), rows, cols)
    with open(os.path.join(d, 'x.item')) as f:
        lines = f.read().splitlines()
    lines[3] = ' '.join(lines[3].split(' ')[:-1] + ['NA'])
    with open(os.path.join(d, 'm.item'), 'w') as f:
        f.write('\n'.join(lines) + '\n')
    names = ['f0', 'f1', 'f2']
    times = [np.arange(20) / 2. + .25 for _ in names]
    feats = [np.array([[1. + ((n + 2) * i) % 7, 2. + i % 5]
                       for i in range(20)]) for n in range(3)]
    abx.write_features(os.path.join(d, 'f.features'), times, feats, names)
    os.mkdir(os.path.join(d, 'raw'))
    for n, t, f in zip(names, times, feats):
        np.savez(os.path.join(d, 'raw', n + '.npz'), features=f, time=t)
    os.mkdir(os.path.join(d, 'tmp'))


def step(name, d, default=None):
    """Run a step in the directory d"""
    from ABXpy.task import Task
    from ABXpy.score import score
    from ABXpy.analyze import analyze
    from ABXpy.distances import distances
    from ABXpy.misc import any2h5features
    from ABXpy import verify
    warnings.simplefilter('ignore')
    inputs, output = STEPS[name]
    paths = [os.path.join(d, x) for x in inputs]
    out = output and os.path.join(d, output)
    if default:
        out = os.path.join(d, default)
    if name in LONG:
        spec = ('ac', 'on', 'by') if name == 'other' else ('on', 'ac', 'by')
        Task(paths[0], *spec).generate_triplets(
            output=out, tmpdir=os.path.join(d, 'tmp'))
    elif name.startswith('dist'):
        distances.compute_distances(
            paths[1], 'features', paths[0], out, plain, None, n_cpu=1)
    elif name.startswith('score'):
        score(paths[0], paths[1], out)
    elif name.startswith('analyze'):
        analyze(paths[0], paths[1], out)
    elif name == 'verify':
        if verify.check(*paths) is False:
            raise ValueError('refused')
    else:
        any2h5features.convert(paths[0], out)


_base = [None]


def base(ctx):
    """a directory with all the inputs, and the content of each output when
    its step is alone"""
    if _base[0] is None or _base[0][0] != os.getpid():
        import tempfile
        d = tempfile.mkdtemp(prefix='base')
        make_inputs(d)
        step('task', d, 't.abx')
        step('dist', d, 'd.distance')
        step('score', d, 's.score')
        alone = {}
        for name, (_, out) in STEPS.items():
            s = tempfile.mkdtemp(prefix='alone')
            fill(d, s)
            step(name, s)
            alone[name] = out and h5cmp.dump(os.path.join(s, out))
            require(out is None or alone[name], 'no output of {}', name)
            alone[name, 'files'] = h5cmp.tree(s)
            shutil.rmtree(s)
        inputs = {n: h5cmp.dump(os.path.join(d, n)) for n in h5cmp.tree(d)
                  if os.path.isfile(os.path.join(d, n))}
        _base[0] = (os.getpid(), d, alone, inputs)
        ctx.step(len(STEPS) + 3)
    return _base[0][1:]


def fill(src, dst):
    for n in os.listdir(src):
        if n == 'raw':
            shutil.copytree(os.path.join(src, n), os.path.join(dst, n))
        elif n == 'tmp':
            os.mkdir(os.path.join(dst, n))
        else:
            shutil.copy(os.path.join(src, n), dst)


def run(c, ctx):
    src, alone, inputs = base(ctx)
    with sched.observed(files=True):
        sched.L.everything = True
        try:
            explore(c, ctx, src, alone, inputs)
        finally:
            sched.L.everything = False
            sched.shutdown()


def explore(c, ctx, src, alone, inputs):
    names = c['steps']

    def execute(choices):
        import tempfile
        d = ctx.sub()
        fill(src, d)
        sched.L.watched = {os.path.join(d, n): n
                           for n in list(inputs) + [x[1] for x in
                                                    STEPS.values() if x[1]]}
        s = sched.Scheduler(choices, exclusive=False)
        results = s.run([(step, (n, d), {}) for n in names], len(names),
                        None)
        ctx.step(len(names))
        for n, (ok, value) in zip(names, results):
            if isinstance(value, HarnessError):
                raise value
            require(ok, '{} fails when {} run at the same time: {!r}; '
                    'operations: {}', n, names, value, s.trace[-12:])
        files = set()
        for n in names:
            files |= alone[n, 'files']
            out = STEPS[n][1]
            if out:
                path = os.path.join(d, out)
                require(os.path.exists(path), 'no output of {}; operations: '
                        '{}', n, s.trace)
                diff = h5cmp.difference(alone[n], h5cmp.dump(path))
                require(diff is None, 'the output of {} is not the same as '
                        'when it is alone: {}; operations: {}', n, diff,
                        s.trace)
        for n, content in inputs.items():
            diff = h5cmp.difference(content, h5cmp.dump(os.path.join(d, n)))
            require(diff is None, 'the input {} was changed: {}', n, diff)
        got = h5cmp.tree(d)
        require(got == files, 'files left behind {} or missing {}',
                sorted(got - files), sorted(files - got))
        left = [n for n in os.listdir(tempfile.gettempdir())
                if n.startswith('tmp')]
        require(not left, 'temporary files left behind: {}', left)
        ctx.state(names, [t for t in s.trace])
        shutil.rmtree(d)
        return s
    k = sched.schedules(execute, c['bound'], c['part'], c['parts'])
    ctx.count('schedules', k)
