"""C18: pipeline steps never damage their inputs or earlier results

Explicit-state exploration. The model is a directory with one slot per kind
of file (two for tasks); a state says what each slot holds, as a term: the
task made from a specification, the distances made from a task, etc.
``successors`` gives the operations and what they must do. All the reachable
states are enumerated, and every operation of every state is executed by the
real code on files with the content of that state; the content of all the
files afterwards is compared with the one the model predicts, the content of
a term being what a run on fresh files gave. The states are also reached by
executing their shortest history in a single directory.
"""
import itertools
import os
import shutil

from lib import abx, h5cmp
from lib.core import require, Violation

ID = 'C18'
BOUNDS = {
    'quick': 'all the states reachable with 2 item files, 1 or 2 tasks slots, '
             '1 distance, 1 score and 1 result slot, and all the operations '
             'in each of them (generation with and without threshold, '
             'distances with a failing function, existing, missing and '
             'incompatible files, deletion); every shortest history; every '
             'single failing HDF5 operation of each step; tasks and scores '
             'generated into 6 kinds of other existing files',
    'thorough': 'as quick with more task specifications, two processes for '
                'the distances, and all the histories of 4 operations',
}
ASSUMPTIONS = [
    'the output of a step is not one of its inputs',
    'a file content is its HDF5 objects, values and attributes, or its bytes '
    'for text files',
]

SPECS = {
    'A': ('x', dict(across=['ac'], by=['by']), {}),
    'B': ('y', dict(across=[], by=[]), {}),
    'T': ('x', dict(across=['ac'], by=['by']), dict(threshold=1, seed=7)),
    'U': ('x', dict(across=['ac'], by=['by']), dict(threshold=1, seed=8)),
    'R': ('x', dict(across=['ac'], by=['by'], regressors=['sp_X', 'by'],
                    filters=["[s != '2' for s in sp_A]"]), {}),
    # no triplet
    'N': ('y', dict(across=['ac'], by=['on']), {}),
    # refused: no such column
    'E': ('x', dict(across=['nothing'], by=[]), {}),
    # no such item file
    'M': ('z', dict(across=[], by=[]), {}),
}
TASKS = {'quick': {'t': 'ANEM', 'u': 'B'},
         'thorough': {'t': 'ATNEM', 'u': 'BA'}}
INPUTS = ['x.item', 'y.item', 'f.features']
SLOTS = {'t': 't.abx', 'u': 'u.abx', 'd': 'd.distance', 's': 's.score',
         'r': 'r.csv'}
ORDER = 'tudsr'


# ------------------------------------------------------------------ inputs
def make_inputs(d):
    import numpy as np
    rows = [{'on': o, 'ac': a, 'by': b, 'sp': str(k)}
            for k, (o, a, b) in enumerate(
                itertools.product('pq', 'st', 'uv'))]
    rows += rows[:3]
    abx.write_items(os.path.join(d, 'x.item'), rows,
                    ['on', 'ac', 'by', 'sp'])
    abx.write_items(os.path.join(d, 'y.item'), rows[::-1][:7],
                    ['on', 'ac', 'by', 'sp'])
    names = ['f0', 'f1', 'f2']
    times = [np.arange(40) / 2. + .25 for _ in names]
    feats = [np.array([[1. + ((n + 2) * i) % 7, 2. + i % 5]
                       for i in range(40)]) for n in range(3)]
    abx.write_features(os.path.join(d, 'f.features'), times, feats, names)


class Boom(Exception):
    pass


def plain(x, y, *a, **kw):
    return float(((x[:1] - y[:1]) ** 2).sum()) + 0.25 * float(x[0, 0])


class Fails(object):
    """a distance function which fails at its n-th call"""

    def __init__(self, n):
        self.n = n

    def __call__(self, x, y, *a, **kw):
        self.n -= 1
        if self.n < 0:
            raise Boom('distance')
        return plain(x, y)


# ------------------------------------------------------------------- model
# contents: None or terms ('task', spec), ('dist', task), ('broken', task, n),
# ('score', task, dist), ('res', task, score)
def operations(tier):
    ops = []
    for slot, specs in TASKS[tier].items():
        for s in specs:
            ops.append(('task', slot, s))
    tasks = sorted(TASKS[tier])
    for t in tasks:
        ops.append(('dist', t, 1))
        if tier == 'thorough':
            ops.append(('dist', t, 2))
    ops.append(('fail', 't', 3))
    ops.append(('nofeat', 't'))
    for t in tasks:
        ops.append(('score', t))
    for t in tasks:
        ops.append(('analyze', t))
    for s in ORDER:
        ops.append(('del', s))
    return ops


def compatible(task, other):
    """distances or scores of that very task"""
    return other is not None and other[1] == task


def predict(state, op):
    """(outcome, new state or None): what the model says of an operation.

    outcome: 'ok', 'refused' (an error, nothing changes), 'any' (incompatible
    inputs: the output is not specified, the rest is)
    """
    st = dict(state)
    kind = op[0]
    if kind == 'del':
        if st[op[1]] is None:
            return None
        st[op[1]] = None
        return 'ok', st
    if kind == 'task':
        if op[2] == 'N':
            # nothing to write
            return 'ok', st
        if st[op[1]] is not None or op[2] in 'EM':
            return 'refused', st
        st[op[1]] = ('task', op[2])
        return 'ok', st
    if kind in ('dist', 'fail', 'nofeat'):
        if st[op[1]] is None or st['d'] is not None or kind == 'nofeat':
            return 'refused', st
        if kind == 'fail':
            st['d'] = ('broken', st[op[1]], op[2])
            return 'failed', st
        st['d'] = ('dist', st[op[1]])
        return 'ok', st
    if kind == 'score':
        if st[op[1]] is None or st['d'] is None or st['s'] is not None:
            return 'refused', st
        if st['d'][0] != 'dist' or not compatible(st[op[1]], st['d']):
            return 'any', None
        st['s'] = ('score', st[op[1]], st['d'])
        return 'ok', st
    if kind == 'analyze':
        if st[op[1]] is None or st['s'] is None or not compatible(
                st[op[1]], st['s']):
            return 'any', None
        st['r'] = ('res', st[op[1]], st['s'])
        return 'ok', st


def output(op):
    return {'task': op[1], 'dist': 'd', 'fail': 'd', 'nofeat': 'd',
            'score': 's', 'analyze': 'r', 'del': op[1]}[op[0]]


def freeze(st):
    return tuple(st[k] for k in ORDER)


def reachable(tier):
    """{state: shortest history}, breadth first"""
    init = dict.fromkeys(ORDER)
    seen = {freeze(init): []}
    todo = [init]
    ops = operations(tier)
    for st in todo:
        for i, op in enumerate(ops):
            p = predict(st, op)
            if p is None or p[1] is None:
                continue
            if freeze(p[1]) not in seen:
                seen[freeze(p[1])] = seen[freeze(st)] + [i]
                todo.append(p[1])
    return seen


# --------------------------------------------------------------- execution
def perform(op, d, ncpu=1, fault=None):
    """Run an operation of the pipeline in the directory d"""
    from ABXpy.task import Task
    from ABXpy.score import score
    from ABXpy.analyze import analyze
    from ABXpy.distances import distances
    p = {k: os.path.join(d, v) for k, v in SLOTS.items()}
    kind = op[0]
    if kind == 'del':
        os.remove(p[op[1]])
    elif kind == 'task':
        item, kw, gen = SPECS[op[2]]
        kw = dict(kw)
        task = Task(os.path.join(d, item + '.item'), 'on',
                    kw.pop('across') or None, kw.pop('by') or None, **kw)
        task.generate_triplets(output=p[op[1]],
                               tmpdir=os.path.join(d, 'tmp'), **gen)
    elif kind in ('dist', 'fail', 'nofeat'):
        feat = 'f.features' if kind != 'nofeat' else 'g.features'
        distances.compute_distances(
            os.path.join(d, feat), 'features', p[op[1]], p['d'],
            Fails(op[2]) if kind == 'fail' else plain, None,
            n_cpu=op[2] if kind == 'dist' else 1)
    elif kind == 'score':
        score(p[op[1]], p['d'], p['s'])
    elif kind == 'analyze':
        analyze(p[op[1]], p['s'], p['r'])


_terms = {}
_library = [None]


def library():
    """files with the content of each term, made on fresh files"""
    if _library[0] is None or _library[0][0] != os.getpid():
        import tempfile
        d = tempfile.mkdtemp(prefix='lib')
        make_inputs(d)
        os.mkdir(os.path.join(d, 'tmp'))
        _library[0] = (os.getpid(), d)
        _terms.clear()
        for n in INPUTS:
            _terms[n] = (os.path.join(d, n),
                         h5cmp.dump(os.path.join(d, n)))
    return _library[0][1]


def canonical(term, ctx):
    """(path, dump) of a term"""
    base = library()
    if term not in _terms:
        import tempfile
        d = tempfile.mkdtemp(prefix='w', dir=base)
        os.mkdir(os.path.join(d, 'tmp'))
        for n in INPUTS:
            shutil.copy(os.path.join(base, n), d)
        if term[0] == 'task':
            op = ('task', 't', term[1])
        else:
            shutil.copy(canonical(term[1], ctx)[0],
                        os.path.join(d, SLOTS['t']))
            if term[0] == 'score':
                shutil.copy(canonical(term[2], ctx)[0],
                            os.path.join(d, SLOTS['d']))
            if term[0] == 'res':
                shutil.copy(canonical(term[2], ctx)[0],
                            os.path.join(d, SLOTS['s']))
            op = {'dist': ('dist', 't', 1),
                  'broken': ('fail', 't', term[-1]), 'score': ('score', 't'),
                  'res': ('analyze', 't')}[term[0]]
        try:
            perform(op, d)
        except Boom:
            if term[0] != 'broken':
                raise
        out = os.path.join(d, SLOTS[output(op)])
        _terms[term] = (out, h5cmp.dump(out))
        ctx.step()
    return _terms[term]


def install(state, ctx, d):
    base = library()
    os.makedirs(os.path.join(d, 'tmp'))
    for n in INPUTS:
        shutil.copy(os.path.join(base, n), d)
    for k, term in zip(ORDER, state):
        if term is not None:
            shutil.copy(canonical(term, ctx)[0], os.path.join(d, SLOTS[k]))


def check_state(state, ctx, d, what, ignore=(), opened=True):
    """the directory has the content of the state"""
    library()
    for n in INPUTS:
        diff = h5cmp.difference(_terms[n][1], h5cmp.dump(os.path.join(d, n)))
        require(diff is None, '{}: the input {} was changed: {}', what, n,
                diff)
    for k, term in zip(ORDER, state):
        if k in ignore:
            continue
        path = os.path.join(d, SLOTS[k])
        if term is None:
            require(not os.path.exists(path), '{}: the file {} appeared',
                    what, SLOTS[k])
            continue
        require(os.path.exists(path), '{}: the file {} is missing', what,
                SLOTS[k])
        diff = h5cmp.difference(canonical(term, ctx)[1], h5cmp.dump(path))
        require(diff is None, '{}: the content of {} is not the one of {}: '
                '{}', what, SLOTS[k], term, diff)
    extra = h5cmp.tree(d) - set(INPUTS) - set(SLOTS.values()) - {'tmp'}
    require(not extra, '{}: files left behind: {}', what, sorted(extra))
    import tempfile
    left = [n for n in os.listdir(tempfile.gettempdir())
            if n.startswith('tmp')]
    require(not left, '{}: temporary files left behind: {}', what, left)
    # nor removed ones still open (their space is not released)
    for fd in os.listdir('/proc/self/fd') if opened else []:
        try:
            target = os.readlink('/proc/self/fd/' + fd)
        except OSError:
            continue
        require(not (target.startswith(d) and target.endswith('(deleted)')),
                '{}: the temporary file {} is still open', what, target)


def execute(state, op, ctx, d, pred=None):
    """Run an operation of a state and check the prediction of the model"""
    outcome, after = pred or predict(dict(zip(ORDER, state)), op)
    what = 'operation %s in state %s' % (op, dict(zip(ORDER, state)))
    raised = None
    import random
    import numpy as np
    # the numbers drawn before must make no difference
    np.random.seed(len(repr(state)) + len(repr(op)))
    random.seed(1)
    try:
        perform(op, d)
    except Violation:
        raise
    except Exception as e:
        raised = e
    ctx.step()
    if outcome == 'ok':
        require(raised is None, '{}: failed with {}: {}', what,
                type(raised).__name__, str(raised)[:200])
    elif outcome in ('refused', 'failed'):
        require(raised is not None, '{}: not refused', what)
    if outcome == 'any':
        check_state(state, ctx, d, what, ignore=output(op))
        return None
    new = freeze(after)
    check_state(new, ctx, d, what)
    ctx.state(new)
    return new


# ------------------------------------------------------------------- cases
def cases(tier):
    out = []
    states = reachable(tier)
    ops = operations(tier)
    keys = list(states)
    for n in range(0, len(keys), 6):
        out.append({'states': [n, min(n + 6, len(keys))]})
    # the longest histories include the shorter ones
    prefixes = {tuple(h[:-1]) for h in states.values()}
    hist = [h for h in states.values() if tuple(h) not in prefixes]
    for n in range(0, len(hist), 8):
        out.append({'histories': hist[n:n + 8]})
    if tier == 'thorough':
        # all the sequences of the main operations
        main = [i for i, op in enumerate(ops) if op in (
            ('task', 't', 'A'), ('task', 't', 'T'), ('task', 'u', 'B'),
            ('dist', 't', 1), ('dist', 'u', 1), ('fail', 't', 3),
            ('score', 't'), ('analyze', 't'), ('del', 't'), ('del', 'd'),
            ('del', 's'))]
        for a in main:
            for b in main:
                out.append({'prefix': [a, b], 'main': main, 'depth': 4})
    # every failing operation
    for step in ('task', 'task-T', 'dist', 'score', 'analyze'):
        for cls in FAULTS:
            out.append({'step': step, 'fault': cls})
    for step in ('task', 'task-T', 'task-R', 'score'):
        for kind in OTHERS:
            out.append({'step': step, 'existing': kind})
    for name in ('A', 'T', 'B', 'R'):
        for n in (2, 3):
            out.append({'reuse': name, 'times': n})
    return out


FAULTS = {'open': ('File', '__init__'), 'create': ('Group', 'create_dataset'),
          'group': ('Group', 'create_group'), 'get': ('Dataset', '__getitem__'),
          'set': ('Dataset', '__setitem__'), 'resize': ('Dataset', 'resize')}


class Injected(IOError):
    pass


class Inject(object):
    """the n-th operation of a kind fails, once"""

    def __init__(self, cls, n):
        import h5py
        name, self.attr = FAULTS[cls]
        self.cls = getattr(h5py, name)
        self.n = n
        self.count = 0

    def __enter__(self):
        old = self.old = getattr(self.cls, self.attr)

        def fun(obj, *args, **kw):
            self.count += 1
            if self.count == self.n:
                raise Injected('injected')
            return old(obj, *args, **kw)
        setattr(self.cls, self.attr, fun)
        return self

    def __exit__(self, *a):
        setattr(self.cls, self.attr, self.old)


# files that are not results of a step
OTHERS = {'empty': b'', 'line': b'\n', 'text': b'results\n',
          'zeros': b'\0' * 4096, 'truncated': None, 'link': None}


def existing(c, ctx):
    """any file that exists is kept as it was"""
    A = ('task', 'A')
    state = {'t': A, 'd': ('dist', A)} if c['step'] == 'score' else {}
    state = freeze(dict(dict.fromkeys(ORDER), **state))
    op = ('score', 't') if c['step'] == 'score' else (
        'task', 't', (c['step'] + '-A').split('-')[1])
    slot = output(op)
    d = os.path.join(ctx.sub(), 'd')
    install(state, ctx, d)
    path = os.path.join(d, SLOTS[slot])
    data = OTHERS[c['existing']]
    if data is None:
        after = predict(dict(zip(ORDER, state)), op)[1][slot]
        with open(canonical(after, ctx)[0], 'rb') as f:
            data = f.read()
        if c['existing'] == 'truncated':
            data = data[:len(data) // 2]
    if c['existing'] == 'link':
        with open(os.path.join(d, 'elsewhere'), 'wb') as f:
            f.write(data)
        os.symlink('elsewhere', path)
    else:
        with open(path, 'wb') as f:
            f.write(data)
    what = 'operation %s on an existing file (%s)' % (op, c['existing'])
    try:
        perform(op, d)
    except Exception:
        pass
    else:
        require(False, '{}: not refused', what)
    ctx.step()
    ctx.state('existing', c['step'], c['existing'])
    require(os.path.exists(path), '{}: the file was removed', what)
    with open(path, 'rb') as f:
        require(f.read() == data, '{}: the file was changed', what)
    if c['existing'] == 'link':
        require(os.path.islink(path), '{}: the link was replaced', what)
        os.remove(os.path.join(d, 'elsewhere'))
    check_state(state, ctx, d, what, ignore=slot)


def faults(c, ctx):
    A, T = ('task', 'A'), ('task', 'T')
    D = ('dist', A)
    S = ('score', A, D)
    state = {'task': {}, 'task-T': {}, 'dist': {'t': A},
             'score': {'t': A, 'd': D},
             'analyze': {'t': A, 'd': D, 's': S}}[c['step']]
    state = freeze(dict(dict.fromkeys(ORDER), **state))
    op = {'task': ('task', 't', 'A'), 'task-T': ('task', 't', 'T'),
          'dist': ('dist', 't', 1), 'score': ('score', 't'),
          'analyze': ('analyze', 't')}[c['step']]
    out = os.path.join(SLOTS[output(op)])
    n = 0
    while True:
        n += 1
        d = os.path.join(ctx.sub(), 'd')
        install(state, ctx, d)
        raised = None
        with Inject(c['fault'], n) as inj:
            try:
                perform(op, d)
            except Exception as e:
                raised = e
        ctx.step()
        ctx.state('fault', c['step'], c['fault'], n)
        what = 'operation %s with the failure of %s number %d' % (
            op, c['fault'], n)
        hit = inj.count >= n
        require(hit == (raised is not None) or raised is not None,
                '{}: the failure is not reported', what)
        require(hit or raised is None, '{}: raised {}', what, raised)
        check_state(state, ctx, d, what, ignore=output(op), opened=not hit)
        if not hit:
            term = predict(dict(zip(ORDER, state)), op)[1][output(op)]
            diff = h5cmp.difference(canonical(term, ctx)[1],
                                    h5cmp.dump(os.path.join(d, out)))
            require(diff is None, '{}: {}', what, diff)
        shutil.rmtree(d)
        if not hit:
            break
    ctx.count('injected_faults', n - 1)


def reuse(c, ctx):
    """a task object generates the same task again and again"""
    from ABXpy.task import Task
    import numpy as np
    d = os.path.join(ctx.sub(), 'd')
    install((None,) * len(ORDER), ctx, d)
    item, kw, gen = SPECS[c['reuse']]
    kw = dict(kw)
    task = Task(os.path.join(d, item + '.item'), 'on',
                kw.pop('across') or None, kw.pop('by') or None, **kw)
    want = canonical(('task', c['reuse']), ctx)[1]
    done = []
    for i in range(c['times']):
        np.random.seed(i)
        out = os.path.join(d, 'again%d.abx' % i)
        task.generate_triplets(output=out, tmpdir=os.path.join(d, 'tmp'),
                               **gen)
        ctx.step()
        done.append(out)
        for o in done:
            diff = h5cmp.difference(want, h5cmp.dump(o))
            require(diff is None, 'generation {} of the same task object: {}',
                    i + 1, diff)
        try:
            task.generate_triplets(output=out,
                                   tmpdir=os.path.join(d, 'tmp'), **gen)
        except Exception:
            pass
        else:
            require(False, 'an existing task file is generated again')
    for o in done:
        os.remove(o)
    check_state((None,) * len(ORDER), ctx, d, 'generation')


def run(c, ctx):
    if 'fault' in c:
        return faults(c, ctx)
    if 'existing' in c:
        return existing(c, ctx)
    if 'reuse' in c:
        return reuse(c, ctx)
    ops = operations(ctx.tier)
    if 'states' in c:
        keys = list(reachable(ctx.tier))
        for state in keys[c['states'][0]:c['states'][1]]:
            ctx.state(state)
            for op in ops:
                pred = predict(dict(zip(ORDER, state)), op)
                if pred is None:
                    continue
                d = os.path.join(ctx.sub(), 'd')
                install(state, ctx, d)
                execute(state, op, ctx, d, pred)
                shutil.rmtree(d)
        return
    if 'histories' in c:
        todo = c['histories']
    else:
        todo = [c['prefix'] + list(x) for x in itertools.product(
            c['main'], repeat=c['depth'] - len(c['prefix']))]
    for hist in todo:
        d = os.path.join(ctx.sub(), 'd')
        state = (None,) * len(ORDER)
        install(state, ctx, d)
        for i in hist:
            pred = predict(dict(zip(ORDER, state)), ops[i])
            if pred is None:
                # nothing to delete: same as a shorter history
                break
            state = execute(state, ops[i], ctx, d, pred)
            if state is None:
                break
        shutil.rmtree(d)
        ctx.count('histories')
