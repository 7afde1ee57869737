"""C08: parallel distance computation under every schedule and failure"""
import os
import warnings

from lib import abx, sched
from lib.core import require
from checks import c07

ID = 'C08'
BOUNDS = {
    'quick': '2 processes with up to 3 blocks each and 3 processes with 1 '
             'block: all the interleavings of lock and file operations with '
             'at most 2 preemptions; a failure at every operation (opening, '
             'reading, writing, computing) of every process and of the '
             'parent, under all the schedules with at most 1 preemption',
    'thorough': 'as quick with 3 processes and up to 3 preemptions without '
                'failure, 2 preemptions with a failure',
}
ASSUMPTIONS = [
    'processes communicate only through the lock and the HDF5 files: the '
    'visible operations are those of the lock and opening/closing a file',
    'a process does not die without raising an error (multiprocessing.Pool '
    'cannot recover from that)',
]


def cases(tier):
    deep = tier == 'thorough'
    out = []
    b0, b1 = (3, 2) if deep else (2, 1)
    configs = [([6], 2), ([6, 6], 2), ([9, 6], 2), ([6, 6, 6, 6], 2),
               ([6, 6, 6], 3), ([9], 3), ([6], 4)]
    for sizes, n in configs if deep else configs[:-1]:
        for part in range(6):
            out.append({'sizes': sizes, 'n': n, 'bound': b0 if n < 4 else 1,
                        'part': part})
    for sizes, n in configs[:3] + configs[4:5]:
        # every operation of the parent and of every process
        for who in ['parent'] + list(range(n)):
            for part in range(3):
                out.append({'sizes': sizes, 'n': n, 'fault': who,
                            'part': part, 'bound': b1 if n == 2 else
                            b1 - 1 + deep})
    for sizes in ([6], [6, 6]):
        out.append({'sizes': sizes, 'n': 1, 'fault': 'parent'})
        out.append({'sizes': sizes, 'n': 1, 'bound': 0})
    # real processes, real lock
    for sizes, n in configs:
        out.append({'sizes': sizes, 'n': n, 'real': 1})
    out.append({'sizes': [6, 6], 'n': 2, 'real': 1, 'bad': 1})
    out.append({'sizes': [6], 'n': 3, 'real': 1, 'bad': 5})
    return out


CALLS = [0]


def watched_distance(x, y, *args, **kw):
    sched.point('distance', None, False)
    return c07.distance(x, y, *args, **kw)


def bad_distance(x, y, *args, **kw):
    CALLS[0] += 1
    if c07.key(x) == BAD[0] or CALLS[0] == BAD[1]:
        raise ValueError('bad distance')
    return c07.distance(x, y, *args, **kw)


BAD = [None, None]


def prepare(c, ctx):
    """task, features, expected distances"""
    c = dict(c, names=['f0', 'f1'])
    feats = c07.features(c)
    rows, files = c07.grid_items(c)
    task, out = abx.generate(ctx, rows, ['on', 'ac', 'by'], 'on', ['ac'],
                             ['by'], files=files)
    d = ctx.sub()
    (path,), (group,) = c07.write_all(d, feats, [0, 0])
    pairs = c07.items_and_pairs(out)
    want = [c07.distance(c07.item_features(a, feats),
                         c07.item_features(x, feats)) for a, x in pairs]
    return out, path, group, want, d


def outcome(dist):
    """(done, distances) of a distance file"""
    import h5py
    if not os.path.exists(dist):
        return None, None
    try:
        with h5py.File(dist, 'r') as f:
            done = f.attrs.get('done', None)
            data = f['distances/data'][...][:, 0].tolist() \
                if 'distances/data' in f else None
            return (None if done is None else bool(done)), data
    except OSError:
        return None, None


def run(c, ctx):
    with sched.observed():
        try:
            explore(c, ctx)
        finally:
            sched.shutdown()


def explore(c, ctx):
    from ABXpy.distances import distances
    out, path, group, want, d = prepare(c, ctx)
    n = [0]

    def compute(scheduler, fun, parent_fault=None):
        """returns (error, done, data)"""
        n[0] += 1
        dist = os.path.join(d, 'x%d.distance' % n[0])
        sched.L.watched = {os.path.abspath(out): 'task',
                           os.path.abspath(dist): 'distance'}
        sched.L.count = 0
        sched.L.fault = parent_fault
        sched.L.fired = False
        sched.L.log = []
        sched.L.fd_in = sched.L.fd_out = None
        error = None
        try:
            with sched.stand_ins(scheduler, distances), \
                    warnings.catch_warnings():
                warnings.simplefilter('ignore')
                sched.L.active = True
                try:
                    distances.compute_distances(
                        path, group, out, dist, fun, None, n_cpu=c['n'])
                except (sched.InjectedFault, Exception) as e:
                    if isinstance(e, (sched.HarnessError, sched.Violation)):
                        raise
                    error = e
                finally:
                    sched.L.active = False
        finally:
            sched.L.active = False
        ctx.step()
        res = outcome(dist)
        if os.path.exists(dist):
            os.remove(dist)
        return (error,) + res

    def good(error, done, data, s):
        require(error is None, 'fails under a schedule: {!r}; {}', error,
                s.trace[-12:])
        require(data == want, 'other distances than the sequential '
                'computation under a schedule: {}', s.trace)
        require(done is True, 'the distance file is not marked as done')
        ctx.state(c['n'], c['sizes'], s.trace)

    if 'real' in c:
        return real(c, ctx, distances, out, path, group, want, d)

    if 'fault' not in c:
        def execute(choices):
            s = sched.Scheduler(choices)
            good(*compute(s, watched_distance), s=s)
            return s
        k = sched.schedules(execute, c['bound'], c.get('part', 0),
                            6 if 'part' in c else 1)
        ctx.count('schedules', k)
        return

    # number of operations of each process
    s = sched.Scheduler()
    good(*compute(s, watched_distance), s=s)
    parent_log = list(sched.L.log)
    if c['fault'] == 'parent':
        logs = parent_log
    else:
        logs = [tuple(x) for x in s.logs.get(c['fault'], [])]
    part = c.get('part', 0)
    parts = 3 if 'part' in c else 1
    mine = [k for k, (kind, _) in enumerate(logs)
            if kind != 'distance' or logs[k - 1][0] != 'distance' or
            k + 1 == len(logs) or logs[k + 1][0] != 'distance']
    for j, k in enumerate(mine):
        if j % parts != part:
            continue

        def execute(choices):
            s = sched.Scheduler(
                choices, None if c['fault'] == 'parent' else (c['fault'], k))
            error, done, data = compute(
                s, watched_distance, k if c['fault'] == 'parent' else None)
            where = '%s of process %s' % (logs[k], c['fault'])
            if not (s.fired or sched.L.fired):
                # the operation is not reached under this schedule
                good(error, done, data, s)
                return s
            require(error is not None,
                    'a failure of {} is not reported', where)
            require(done is not True, 'the distance file is marked as done '
                    'after a failure of {}', where)
            ctx.state(c['n'], c['sizes'], k, s.trace)
            return s
        m = sched.schedules(execute, c.get('bound', 0))
        ctx.count('schedules', m)
        ctx.count('faults')


def real(c, ctx, distances, out, path, group, want, d):
    dist = os.path.join(d, 'real.distance')
    fun = c07.distance
    if c.get('bad'):
        fun = bad_distance
        CALLS[0] = 0
        BAD[:] = [None, c['bad']]
    error = None
    try:
        distances.compute_distances(path, group, out, dist, fun, None,
                                    n_cpu=c['n'])
    except ValueError as e:
        if not c.get('bad'):
            raise
        error = e
    ctx.step()
    done, data = outcome(dist)
    if c.get('bad'):
        require(error is not None, 'the error of a process is not reported')
        require(done is not True, 'marked as done after an error')
    else:
        require(data == want, 'other distances with {} processes', c['n'])
        require(done is True, 'not marked as done')
    ctx.state(c['n'], data)
