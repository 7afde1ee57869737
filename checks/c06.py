"""C06: a threshold samples each group of triplets without bias or loss"""
import json
import os
import subprocess
import sys

from lib import abx, core, tables, filters as F
from lib.core import require
from checks import c04

ID = 'C06'
BOUNDS = {
    'quick': 'irregular tables, 10 ON/ACROSS/BY specifications, requested '
             'regressors, filters of every level, thresholds 1 to 4 and '
             'none, regressors computed by scripts (negative, fractional, '
             'boolean, text, large), 6 seeds, each twice from different states of the random '
             'generator; reachability of every triplet over 60 seeds; '
             'groups of up to 600 triplets, products of regressor levels '
             'from 2^8 to beyond 2^57, codes equal modulo powers of two; 256 '
             'to 300 items reduced by filters; three hash seeds of the interpreter',
    'thorough': 'as quick with 20 seeds, 5 tables, reachability over 400 '
                'seeds, groups up to 70000 triplets',
}


def cases(tier):
    deep = tier == 'thorough'
    out = []

    def add(d, spec, r=(), fs=(), **kw):
        out.append(dict({'d': d, 'spec': spec, 'r': list(r), 'f': list(fs),
                         'ts': [None, 1, 2, 3, 4],
                         'seeds': list(range(20 if deep else 3))}, **kw))
    regs = [[], ['zz_B'], ['zz_X'], ['zz_A'], ['fl_B', 'zz_X'],
            ['on_1', 'by'], ['oo_2', 'fl_A', 'bb_X']]
    for d in range(5 if deep else 1):
        for n, spec in enumerate(c04.SPECS):
            add(d, spec)
            for k, r in enumerate(regs[1:]):
                if deep or (k + n + d) % 3 == 0:
                    if all(v in c04.variables(spec) and (
                            F.split(v)[1] or
                            F.among(v, c04.SPECS[spec][1])) for v in r):
                        add(d, spec, r)
    # regressors computed by scripts
    for k, v in enumerate(('zz_B', 'zz_X', 'fl_B', 'oo_B', 'zz_A', 'on_B')):
        for j, fun in enumerate(('neg', 'half', 'flag', 'code', 'big')):
            if v == 'on_B' and fun != 'code':
                continue
            r = 'calc:%s:%s' % (fun, v)
            other = ['calc:neg:zz_X', 'fl_X', 'calc:half:fl_B', 'zz_X',
                     'calc:neg:fl_X'][(j + k) % 5]
            for rs in ([r], [r, other], [other, r, 'calc:neg:zz_B']):
                if len(rs) < 3 or deep:
                    add((j + k) % 3, ('std', 'noac', 'ac2')[(j + k // 2) % 3],
                        rs, ts=[1, 2], seeds=[0], once=not deep)
    for k, f in enumerate(c04.REPRESENTATIVE):
        add(k % 2, 'std', regs[k % 7], [f], ts=[1, 2])
    # the groups of one cell: numbers of A, B and X items
    for nA in (1, 2, 3):
        for nB in (1, 2):
            for nX in (1, 2, 3):
                n = nA * nB * nX
                ts = [t for t in range(1, n)
                      if (t == 1 and n <= 4) or t == n // 2 or deep]
                if ts and (deep or nA + nX < 5):
                    out.append({'cell': [nA, nB, nX], 'ts': ts,
                                'reach': 400 if deep else 60})
    big = [[16, 4, 4], [16, 4, 5], [17, 15, 1], [300, 1, 1], [1, 300, 2],
           [2, 1, 129], [6, 10, 10]]
    if deep:
        big += [[41, 40, 40], [70000, 1, 1], [257, 256, 1]]
    for b in big:
        n = b[0] * b[1] * b[2]
        out.append({'cell': b, 'ts': sorted({
            1, 100, 101, n // 2, n - 1, n, n + 5, 128, 255, 256}), 'seeds': [
                0], 'once': not deep})
    for b in [[300, 1, 1], [10, 10, 3]] + ([[40, 40, 1]] if deep else []):
        n = b[0] * b[1] * b[2]
        out.append({'cell': b, 'ts': [n // 2], 'cover': 30})
    # codes of the groups
    for levels, n in ((2, 7), (20, 2), (50, 3), (200, 5), (200, 6),
                      (254, 6), (255, 6), (256, 6), (257, 7), (300, 7),
                      (500, 7), (254, 8), (300, 9)):
        out.append({'levels': levels, 'n': n, 'ts': [1, 2, 3],
                    'seeds': [0], 'once': not deep})
    for levels, n in ((16, 4), (256, 1), (256, 2), (256, 4), (256, 5),
                      (256, 6), (16, 13), (2, 50)):
        out.append({'pow2': levels, 'n': n, 'ts': [1, 2, 5, 9],
                    'seeds': [0], 'once': not deep})
    for n in (256, 257, 300) + ((70000,) if deep else ()):
        for k, where in enumerate(('first', 'last', 'ends', 'spread')):
            for j, fs in enumerate(c04.LARGE):
                if deep or (j + k + n) % 5 == 0:
                    out.append({'large': n, 'where': where, 'f': fs,
                                'ts': [1, 3], 'seeds': [0],
                                'r': [[], ['fl_B']][j % 2],
                                'once': not deep})
    for spec in ('ac2', 'std'):
        out.append({'hash': [0, 1, 7], 'spec': spec})
    return out


def group_of(names, rows, across, by, on='on'):
    """function giving the group of a triplet"""
    def fun(t):
        a, b, x = (rows[i] for i in t)
        key = [a[on]]
        key += [a[c] for c in across] if across else [t[0]]
        for n in names:
            col, ext = F.split(F.reg_var(n))
            if F.among(col, by) or ext in ('A', '1'):
                continue
            if F.among(col, [on]) and ext == 'X':
                continue
            key.append((n, F.reg_value(n, F.value(
                F.reg_var(n), a, b, x, on, across, by))))
        return tuple(key)
    return fun


def check_sample(blocks, want, names, rows, across, by, t, on='on'):
    if t is None:
        abx.compare_triplets(blocks, want, 'triplets without threshold')
        return
    wanted = {abx.by_label(k): v for k, v in want.items()}
    require(set(b.by for b in blocks) == set(wanted), 'by blocks')
    g = group_of(names, rows, across, by, on)
    for b in blocks:
        groups = {}
        for x in wanted[b.by]:
            groups.setdefault(g(x), []).append(x)
        got = {}
        for x in b.triplets:
            got.setdefault(g(x), []).append(x)
        require(set(got) == set(groups), 'threshold {}: {} groups of '
                'triplets instead of {}', t, len(got), len(groups))
        for k, v in groups.items():
            require(len(set(got[k])) == len(got[k]),
                    'threshold {}: a triplet is drawn twice', t)
            require(set(got[k]) <= set(v),
                    'threshold {}: a triplet which is not in the task', t)
            require(len(got[k]) == min(t, len(v)),
                    'threshold {}: {} triplets out of a group of {}', t,
                    len(got[k]), len(v))


def disturb(n):
    import random
    import numpy as np
    np.random.seed(n + 1000)
    np.random.rand(n % 7)
    np.random.randn(1)
    random.seed(n)


def content(blocks):
    return [(b.by, b.triplets, b.regnames, b.numbers, sorted(
        (k, [str(x) for x in v]) for k, v in b.regs.items()))
        for b in blocks]


def run(c, ctx):
    on = c04.ON.get(c.get('spec'), 'on')
    if 'hash' in c:
        return hashes(c, ctx)
    if 'cell' in c:
        nA, nB, nX = c['cell']
        rows = ([{'on': 'p', 'ac': 's'}] * nA + [{'on': 'q', 'ac': 's'}] * nB +
                [{'on': 'p', 'ac': 't'}] * nX)
        columns, across, by, fs, r, aux = ['on', 'ac'], ['ac'], [], [], [], {}
    elif 'levels' in c:
        rows, columns, r = leveled(c)
        across, by, fs, aux = ['ac'], [], [], {}
    elif 'pow2' in c:
        rows, columns, r = pow2(c, 'BX')
        across, by, fs, aux = ['ac'], [], [], {}
    elif 'large' in c:
        rows, columns = tables.large(c['large'], c['where'], by=2)
        across, by, fs, aux, r = ['ac'], ['by'], c['f'], {}, c['r']
    else:
        rows, columns = c04.design(c['d']), c04.COLS
        across, by = c04.SPECS[c['spec']]
        fs, r, aux = c['f'], c['r'], c04.AUX
    want = abx.triplets(rows, on, across, by,
                        keep=F.keep(fs, on, across, by))
    if not want:
        return
    names = [on + '_2'] + [a + '_2' for a in across] + r
    derived = {k: v for k, v in aux.items()}
    names += [x + '_2' for a in across for x in derived.get(a, [])]
    d = ctx.sub()
    item = os.path.join(d, 'data.item')
    cols = [x for x in columns
            if x not in [y for v in aux.values() for y in v]]
    abx.write_items(item, rows, cols)
    for col, v in aux.items():
        with open(os.path.join(d, 'data.' + col), 'w') as f:
            f.write(' '.join([col] + v) + '\n')
            for line in sorted({' '.join(str(x[y]) for y in [col] + v)
                                for x in rows}):
                f.write(line + '\n')
    n = [0]

    def sample(t, seed, task=None):
        n[0] += 1
        out = os.path.join(d, 't%d.abx' % n[0])
        task = task or abx.make_task(
            item, on, across, by, [F.text(f) for f in fs],
            [F.reg_text(x) for x in r])
        disturb(n[0])
        kw = {} if t is None else {'threshold': t}
        task.generate_triplets(output=out, seed=seed, **kw)
        ctx.step()
        blocks = abx.read_task(out, pairs=False)
        os.remove(out)
        return blocks, task
    if 'reach' in c:
        return reach(c, ctx, sample, want)
    if 'cover' in c:
        allt = set(want[()])
        seen = set()
        task = None
        for seed in range(c['cover']):
            b, task = sample(c['ts'][0], seed, task)
            check_sample(b, want, names, rows, across, by, c['ts'][0],
                         on)
            seen |= set(b[0].triplets)
        require(seen == allt, '{} triplets are never drawn by any of {} '
                'seeds', len(allt - seen), c['cover'])
        return
    first = {}
    for k, seed in enumerate(c['seeds']):
        for t in c['ts'] if k < 1 else c['ts'][1:3]:
            blocks, task = sample(t, seed)
            check_sample(blocks, want, names, rows, across, by, t, on)
            got = content(blocks)
            ctx.state(got)
            if k < (2 if len(c['seeds']) > 3 else 1) and not c.get('once'):
                # the same object again, from another random state
                again, _ = sample(t, seed, task)
                require(content(again) == got, 'seed {} and threshold {}: '
                        'not reproducible with the same task', seed, t)
                again, _ = sample(t, seed)
                require(content(again) == got,
                        'seed {} and threshold {}: not reproducible', seed, t)
            first[(t, seed)] = got


def reach(c, ctx, sample, want):
    """every triplet of a group can be drawn, about as often as the others"""
    allt = sorted(want[()])
    n = len(allt)
    task = None
    S = c['reach']
    for t in c['ts']:
        freq = dict.fromkeys(allt, 0)
        for seed in range(S):
            b, task = sample(t, seed, task)
            got = b[0].triplets
            require(len(got) == t and len(set(got)) == t,
                    '{} triplets for a threshold of {}', len(got), t)
            for x in got:
                require(x in freq, 'triplet {} is not in the task', x)
                freq[x] += 1
        p = float(t) / n
        sd = (S * p * (1 - p)) ** 0.5
        for x, k in freq.items():
            require(k > 0, 'triplet {} is never drawn by {} seeds', x, S)
            require(abs(k - S * p) < 7 * sd,
                    'triplet {} is drawn {} times out of {}, expected {}', x,
                    k, S, S * p)
        ctx.state(sorted(freq.items()))


def leveled(c):
    """Few triplets, regressors with many levels"""
    L, n = c['levels'], c['n']
    cols = ['z%d' % i for i in range((n + 1) // 2)]
    columns = ['on', 'ac'] + cols

    def z(k):
        return 'k%03d' % (k % L)
    rows = []
    for i in range(L):
        rows.append(dict({'on': 'o%d' % i, 'ac': 'a%d' % i},
                         **{x: z(i) for x in cols}))
    for i in range(3):
        rows.append(dict({'on': 'p', 'ac': 's'}, **{x: z(0) for x in cols}))
    # B and X differ in a single column
    for i in range(len(cols) + 1):
        for on, ac in (('q', 's'), ('p', 't')):
            row = {x: z(L - 1) for x in cols}
            if i:
                row[cols[i - 1]] = z(L - 2)
            rows.append(dict({'on': on, 'ac': ac}, **row))
    r = [x + '_B' for x in cols] + [x + '_X' for x in cols]
    return rows, columns, r[:n]


def pow2(c, ext):
    """Few interleaved items which differ in one of n columns with a given
    number of labels each: when it is a power of two, the codes of many
    combinations are the same modulo 2^8, 2^16 or 2^32"""
    L, n = c['pow2'], c['n']
    cols = ['z%02d' % i for i in range(n)]
    rows = [dict({'on': 'a', 'ac': 'a'}, **{x: 'k%03d' % i for x in cols})
            for i in range(L)]
    picked = cols if n <= 8 else cols[:4] + cols[-4:]
    for i in range(2 * len(picked) + 1):
        # the same labels every other row
        row = {x: 'k%03d' % (L - 1) for x in cols}
        if i % 2:
            row[picked[i // 2]] = 'k000'
        for k, (on, ac) in enumerate((('p', 's'), ('q', 's'), ('p', 't'))):
            if 'ABX'[k] in ext or i < 2:
                rows.append(dict({'on': on, 'ac': ac}, **row))
    return rows, ['on', 'ac'] + cols, [
        x + '_' + ext[i % len(ext)] for i, x in enumerate(cols)]


CODE = '''
import sys, json, warnings
warnings.simplefilter('ignore')
sys.path.insert(0, sys.argv[1]); sys.path.insert(0, sys.argv[2])
from lib import core, abx
core.REPO = sys.argv[1]
core.import_repo()
from checks import c04, c06
spec = sys.argv[3]
class C(object): pass
ctx = core.Context()
ctx.dir = sys.argv[4]
across, by = c04.SPECS[spec]
task, out = abx.generate(ctx, c04.design(0), c04.COLS, 'on', across, by,
    None, ['zz_B'], aux=c04.AUX, threshold=1, seed=3)
sys.stdout = sys.__stdout__
print('RESULT' + json.dumps(c06.content(abx.read_task(out))))
'''


def hashes(c, ctx):
    res = []
    for h in c['hash']:
        d = ctx.sub()
        env = dict(os.environ, PYTHONHASHSEED=str(h))
        p = subprocess.run(
            [sys.executable, '-c', CODE, core.REPO, core.VERIF, c['spec'], d],
            stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
        out = [x for x in p.stdout.decode().splitlines()
               if x.startswith('RESULT')]
        require(out, 'generation failed: {}', p.stderr.decode()[-500:])
        res.append(json.loads(out[0][6:]))
        ctx.step()
    for r in res[1:]:
        require(r == res[0], 'the same seed gives different triplets in '
                'another interpreter')
    ctx.state(res[0])
