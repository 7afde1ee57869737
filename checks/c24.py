"""C24: what a task answers does not depend on what was asked before"""
import itertools
import os
import warnings

from lib import abx, h5cmp, filters as F
from lib.core import require

ID = 'C24'
BOUNDS = {
    'quick': 'a state model of a task object (approximate statistics asked '
             'for or not, number of levels computed or not): all the '
             'sequences of 3 operations among 10 (statistics exact or '
             'approximate, summarized or full print, generation with and '
             'without threshold, refused, failed, generation by another '
             'task object, and by tasks on files which are rewritten in '
             'between: items, auxiliary files and scripts) on 4 tasks, of 2 operations on 14 tasks (filters '
             'of every level, empty BY levels, no triplet at all, two '
             'ACROSS columns, requested and computed regressors)',
    'thorough': 'all the sequences of 4 operations on 4 tasks, of 3 on the '
                'others',
}

COLS = ['on', 'ac', 'by', 'zz']
A_X = {'vars': ['zz_A', 'zz_X'], 'op': '<'}
CONFIGS = [
    # (across, by, filters, regressors)
    (['ac'], ['by'], [], []),
    (['ac'], ['by'], [A_X], ['zz_B']),
    (['ac'], ['by'], [{'var': 'on_A', 'op': '==', 'value': 'q'},
                      {'var': 'on_B', 'op': '==', 'value': 'q'}], []),
    ([], ['by'], [{'var': 'zz_X', 'op': '!=', 'value': 1}], ['zz_A']),
    (['ac'], [], [], ['zz_X', 'calc:half:zz_B']),
    ([], [], [{'var': 'zz', 'op': '!=', 'value': 2}], []),
    (['ac', 'zz'], ['by'], [], []),
    (['ac', 'zz'], [], [{'var': 'on_1', 'op': '==', 'value': 'q'}], []),
    (['ac'], ['by'], [{'var': 'by', 'op': '==', 'value': 'v'}], []),
    (['ac'], ['by'], [{'var': 'by', 'op': '==', 'value': 'u'}], ['by']),
    (['ac'], ['by'], [{'var': 'on_1', 'op': '==', 'value': 'q'},
                      {'var': 'zz_B', 'op': '<', 'value': 2}], []),
    (['ac'], ['by', 'zz'], [], []),
    (['ac'], ['by'], [{'var': 'by', 'op': '==', 'value': 'w'}], []),
    (['ac'], ['by'], [{'var': 'zz_A', 'op': '==', 'value': 1},
                      {'var': 'zz_X', 'op': '>=', 'value': 1}], ['calc:neg:zz_X']),
]
DEEP = [0, 1, 2, 3]
OPS = 'SPWFGHRXUV'


def rows():
    out = []
    for n, (b, o, a) in enumerate(itertools.product('uvw', 'pqr', 'st')):
        if b == 'u' and o != 'p' or b == 'w' and a == 't':
            continue
        out.append({'on': o, 'ac': a, 'by': b, 'zz': n % 3})
        if n % 4 == 1:
            out.append({'on': o, 'ac': a, 'by': b, 'zz': (n + 1) % 3})
    return out[1::2] + out[::2]


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for c in range(len(CONFIGS)):
        n = (3 if c in DEEP else 2) + deep
        for first in itertools.product(range(len(OPS) - (n > 2)),
                                       repeat=n - 1):
            out.append({'c': c, 'ops': list(first)})
    return out


def py(x):
    if isinstance(x, dict):
        return {str(k): py(v) for k, v in x.items()}
    if hasattr(x, 'to_dict'):
        return py(x.to_dict())
    return x.item() if hasattr(x, 'item') else x


def answers(task):
    """the statistics held by a task"""
    return py(task.stats), py(task.by_stats)


class Session(object):
    """a task object, the files it makes and the model of its state"""

    def __init__(self, c, ctx):
        across, by, fs, rs = CONFIGS[c]
        self.c, self.ctx, self.d, self.n = c, ctx, ctx.sub(), 0
        self.item = os.path.join(self.d, 'x.item')
        abx.write_items(self.item, rows(), COLS)
        self.args = [list(across), list(by), [F.text(f) for f in fs],
                     [F.reg_text(r) for r in rs]]
        self.copy = [list(x) for x in self.args]
        from ABXpy.task import Task
        self.task = Task(self.item, 'on', *self.args, verbose=bool(c % 2))
        self.other = None
        self.before = h5cmp.dump(self.item)
        self.unchanged()
        # model
        self.mode, self.levels = 'S', False

    def generate(self, task, **kw):
        """(warned, content of the file or None)"""
        self.n += 1
        out = os.path.join(self.d, 'o%d.abx' % self.n)
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            task.generate_triplets(output=out, **kw)
        warned = any('no possible' in str(x.message) for x in w)
        self.last = out
        if not os.path.exists(out):
            return warned, None
        return warned, content(out), h5cmp.dump(out)

    def perform(self, op):
        self.ctx.step()
        if op in 'SP':
            self.task.compute_statistics(**{'approximate': True}
                                         if op == 'P' else {})
            self.mode, self.levels = op, False
            return None
        if op in 'WF':
            name = os.path.join(self.d, 'stats')
            self.task.print_stats(name, summarized=op == 'W')
            if op == 'W':
                self.levels = True
            with open(name) as f:
                return f.read()
        if op == 'G':
            return self.generate(self.task)
        if op == 'H':
            return self.generate(self.task, threshold=1, seed=3)
        if op == 'R':
            out = os.path.join(self.d, 'exists.abx')
            with open(out, 'w') as f:
                f.write('some results')
            try:
                self.task.generate_triplets(output=out)
                res = 'accepted'
            except ValueError:
                res = 'refused'
            with open(out) as f:
                require(f.read() == 'some results',
                        'the existing file was changed')
            return res
        if op == 'X':
            try:
                self.generate(self.task, tmpdir=os.path.join(self.d, 'none'))
                return 'accepted'
            except NameError:
                raise
            except Exception:
                return 'failed'
        if op == 'U':
            if self.other is None:
                self.other = abx.make_task(self.item, 'ac', ['on'], ['by'],
                                           None, ['zz_A'])
            res = self.generate(self.other, threshold=1, seed=3)
            self.other.compute_statistics(approximate=True)
            return res, answers(self.other)

        if op == 'V':
            return [self.rewritten(k) for k in range(3)]

    def rewritten(self, k):
        """a task on files with the same names, but another content"""
        from ABXpy.task import Task
        name = os.path.join(self.d, 'rewritten')
        table = [dict(r, on=('pqr', 'qrp', 'prs')[k]['pqr'.index(r['on'])],
                      yy=('mn', 'lm', 'ml')[k][r['zz'] % 2]) for r in rows()]
        abx.write_items(name + '.item', table, COLS)
        with open(name + '.zz', 'w') as f:
            f.write('zz yy\n' + ''.join('%d %s\n' % (
                z, ('mn', 'lm', 'ml')[k][z % 2]) for z in range(3)))
        flt = {'var': 'zz_A', 'op': '!=', 'value': k}
        with open(name + '.py', 'w') as f:
            f.write(F.text(flt))
        task = Task(name + '.item', 'on', ['ac'], ['by'],
                    filters=[name + '.py'], regressors=['yy_B', 'on_X'])
        want = abx.triplets(table, 'on', ['ac'], ['by'],
                            keep=F.keep([flt], 'on', ['ac'], ['by']))
        res = self.generate(task)
        got = {b[0]: sorted(b[1]) for b in res[1]}
        require(got == {abx.by_label(w): sorted(v) for w, v in want.items()},
                'the triplets are not those of the files, once rewritten: '
                '{} instead of {}', got, want)
        for by, triplets, _, regs in res[1]:
            regs = dict(regs)
            for n, (i, col) in {'yy_B': (1, 'yy'), 'on_X': (2, 'on')}.items():
                require(regs[n] == [table[t[i]][col] for t in triplets],
                        'regressor {} is not that of the files, once '
                        'rewritten', n)
        return res

    def unchanged(self):
        require(self.args == self.copy, 'the arguments given to the task '
                'were changed: {} instead of {}', self.args, self.copy)
        require(h5cmp.dump(self.item) == self.before,
                'the item file was changed')


def content(path):
    """what a task file says, whatever the types used to store it"""
    out = []
    for b in abx.read_task(path):
        out.append((b.by, b.triplets, sorted(b.pairs),
                    sorted((k, [str(x) for x in v])
                           for k, v in b.regs.items())))
    return out


_canonical = {}


def canonical(c, mode, levels, op, ctx):
    """(answer, statistics afterwards) of an operation after the shortest
    history which leads to a state of the model"""
    key = (c, mode, levels, op)
    if key not in _canonical:
        s = Session(c, ctx)
        for o in ('P' if mode == 'P' else '') + ('W' if levels else ''):
            s.perform(o)
        res = s.perform(op) if op else None
        _canonical[key] = (res, answers(s.task))
    return _canonical[key]


def anchored(c, ctx):
    """the shortest histories give the triplets of the definition"""
    if ('anchor', c) in _canonical:
        return
    across, by, fs, _ = CONFIGS[c]
    want = abx.triplets(rows(), 'on', across, by,
                        keep=F.keep(fs, 'on', across, by))
    total = sum(len(v) for v in want.values())
    for mode in 'SP':
        res, (stats, _) = canonical(c, mode, False, 'G', ctx)
        n = stats['nb_triplets']
        require(n == total if mode == 'S' else n >= total,
                'announced {} triplets, there are {}', n, total)
        if not total:
            require(res[1] is None, 'a file was written without triplet '
                    '(statistics: {})', mode)
            require(res[0], 'no warning without triplet (statistics: {})',
                    mode)
            continue
        require(res[1] is not None, 'no task file (statistics: {})', mode)
        require(not res[0], 'warned that there is no triplet')
        got = {b[0]: b[1] for b in res[1]}
        names = {abx.by_label(k): sorted(v) for k, v in want.items()}
        require({k: sorted(v) for k, v in got.items()} == names,
                'triplets {} instead of {} (statistics: {})', got, names,
                mode)
    if total:
        for op in 'GH':
            require(canonical(c, 'S', False, op, ctx)[0][:2] ==
                    canonical(c, 'P', False, op, ctx)[0][:2],
                    'the approximate statistics change what is generated')
    _canonical['anchor', c] = True


def run(c, ctx):
    anchored(c['c'], ctx)
    # (the last operation only in short sequences)
    for last in OPS[:-1] if len(c['ops']) > 1 else OPS:
        ops = [OPS[i] for i in c['ops']] + [last]
        s = Session(c['c'], ctx)
        for k, op in enumerate(ops):
            mode, levels = s.mode, s.levels
            try:
                res = s.perform(op)
            except Exception as e:
                require(False, 'operations {} fail: {!r}',
                        ''.join(ops[:k + 1]), e)
            want, stats = canonical(c['c'], mode, levels, op, ctx)
            what = 'operation %s after %s' % (op, ''.join(ops[:k]) or 'none')
            require(res == want, '{}: {} instead of {}', what,
                    short(res), short(want))
            require(answers(s.task) == stats,
                    '{}: the statistics are {} instead of {}', what,
                    short(answers(s.task)), short(stats))
            s.unchanged()
            ctx.state(c['c'], s.mode, s.levels, op)
        ctx.count('histories')


def short(x):
    return str(x)[:400]
