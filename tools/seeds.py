"""Definitions of the planted changes (see mkseeds.py)"""
SEEDS = []


def seed(id, property, changes, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=property, changes=changes, needs=needs,
                      breaks=breaks, demo=demo))


T = 'ABXpy/task.py'
D = 'ABXpy/distances/distances.py'

seed('c01-index-type', 'C01', {T: [(
    "            ind_type = fit_integer_type(size, is_signed=False)\n",
    "            ind_type = fit_integer_type(\n"
    "                len(A) * len(B), is_signed=False)\n")]},
    'an ON/ACROSS/BY block with more than 255 triplets but at most 255 '
    '(A, B) pairs',
    'the indices of the triplets of the block wrap: some triplets are '
    'repeated and others are missing', '''
rows = ([('a', 's')] + [('a', 't')] * 40 +
        [(c, 's') for c in 'bcdefghi'])
task(rows, ['on', 'ac'], 'on', 'ac')
same(triplets(), brute(rows, ['on', 'ac'], 'on', ['ac']), 'triplets')
''')

seed('c01-antiacross', 'C01', {T: [(
    "                            b = b * (by_frame[col] != across_key[i])\n",
    "                            b = b * (self.db[col] != across_key[i])\n")]},
    'several ACROSS columns and BY blocks whose rows are not the first ones '
    'of the item file',
    'the items X with other ACROSS labels are looked for in the rows of '
    'another BY block', '''
cols = ['on', 'p', 'q', 'by']
rows = [(o, p, q, 'y') for o in 'ab' for p in 'st' for q in 'uv']
rows += [(o, p, q, 'z') for q in 'vu' for p in 'st' for o in 'ab']
task(rows, cols, 'on', ['p', 'q'], 'by')
same(triplets(), brute(rows, cols, 'on', ['p', 'q'], ['by']), 'triplets')
''')

seed('c03-duplicate-pairs', 'C03', {T: [(
    "                                n_pairs += np.unique(pairs).size\n"
    "                                if pairs[0, 0] == last:\n"
    "                                    n_pairs -= 1\n",
    "                                n_pairs += np.unique(pairs).size\n"),
    ("                                if pairs[0, 0] == last:\n"
     "                                    pairs = pairs[1:]\n", "")]},
    'more pairs than a reading buffer can hold (50000 for 17 to 256 items)',
    'a pair cut by the end of the buffer is listed twice', '''
rows = [(o,) for o in 'abc' * 20]
task(rows, ['on'], 'on')
t = triplets()
want = {(a, x) for a, b, x in t} | {(b, x) for a, b, x in t}
same(pairs(), want, 'pairs')
''')

seed('c03-base', 'C03', {T: [(
    "                max_ind = np.max(db.index.values)\n",
    "                max_ind = len(db) - 1\n")]},
    'a generic filter which removes items that are not the last ones of '
    'their BY block',
    'the keys of different pairs are the same, because the base of the keys '
    'is too small', '''
cols = ['on', 'c']
rows = [(o, c) for c in (0, 1) for o in 'ab' for _ in range(3)]
task(rows, cols, 'on', filters=['[v == 1 for v in c]'])
t = triplets()
want = {(a, x) for a, b, x in t} | {(b, x) for a, b, x in t}
same(pairs(), want, 'pairs')
''')

seed('c04-index-type', 'C04', {T: [(
    "            key: fit_integer_type(np.max(db.index.values), "
    "is_signed=False)\n",
    "            key: fit_integer_type(len(db) - 1, is_signed=False)\n")]},
    'a BY block with more than 256 items, reduced to 256 at most by a '
    'generic filter',
    'the items beyond the 256th are replaced by others', '''
cols = ['on', 'c']
rows = [('ab'[i % 2], int(i >= 294)) for i in range(300)]
task(rows, cols, 'on', filters=['[v == 1 for v in c]'])
same(triplets(), brute(rows, cols, 'on', keep=lambda a, b, x:
     a[1] == b[1] == x[1] == 1), 'triplets')
''')

seed('c04-context', 'C04', {'ABXpy/sideop/filter_manager.py': [(
    "        kept = kept[still_up]\n"
    "        for var in context:\n",
    "        kept = kept[still_up]\n"
    "        if len(still_up) == len(kept):\n"
    "            continue\n"
    "        for var in context:\n")]},
    'two filters applied at the same stage (both on A for instance), the '
    'first one rejecting something else than the last items',
    'the second filter is evaluated on other items than those it decides of',
    '''
cols = ['on', 'c', 'd']
rows = [(o, c, d) for o in 'ab' for c in (0, 1) for d in (0, 1)]
task(rows, cols, 'on', filters=['c_A', 'd_A'])
same(triplets(), brute(rows, cols, 'on', keep=lambda a, b, x:
     a[1] == 1 and a[2] == 1), 'triplets')
''')

seed('c05-filtered-regressor', 'C05', {T: [(
    "                regressors[name] = reg[iA]\n"
    "                if self.filters.ABX:\n"
    "                    regressors[name] = regressors[name][ABX_filter_ind]\n",
    "                regressors[name] = reg[iA]\n")]},
    'a regressor on A together with a filter relating several of A, B and X',
    'the labels stored for A are those of other triplets', '''
cols = ['on', 'ac', 'c']
rows = [(o, a, c) for o in 'ab' for a in 'st' for c in (0, 1, 2)]
task(rows, cols, 'on', 'ac', filters=['[v != w for v, w in zip(c_A, c_B)]'],
     regressors=['c_A'])
assert len(triplets()) > 0
assert regressor('c_A') == [rows[a][2] for a, b, x in triplets()]
''')

seed('c06-seed-zero', 'C06', {T: [(
    "        np.random.seed(seed)\n",
    "        if seed:\n            np.random.seed(seed)\n")]},
    'seed 0 and a threshold',
    'the sample is not reproducible with seed 0', '''
rows = [(o, a) for o in 'ab' for a in 'st' for _ in range(8)]
res = []
for i in range(4):
    np.random.seed(100 + i)
    task(rows, ['on', 'ac'], 'on', 'ac', threshold=5, seed=0)
    res.append(triplets())
assert all(r == res[0] for r in res)
''')

seed('c06-last-never', 'C06', {
    'ABXpy/sampling/sampler.py': [(
        "        if (N - t) * u < n - m:\n",
        "        if (N - 1 - t) * u < n - m:\n")]},
    'a threshold: groups of at most 100 triplets, or of which at least 60% '
    'are drawn',
    'all the triplets of a group do not have the same probability to be '
    'drawn and the last one is never drawn', '''
from ABXpy.sampling import sampler
seen = set()
for i in range(400):
    np.random.seed(i)
    s = sampler.sample_without_replacement(2, 5)
    assert len(set(s)) == 2
    seen |= set(s)
assert seen == set(range(5)), seen
''')

seed('c07-cache', 'C07', {D: [(
    "            f = str(f)\n\n            t = np.where(",
    "            f = str(f)\n"
    "            # the frames of an item are often used several times\n"
    "            if (f, on) in cache:\n"
    "                features[ix] = cache[(f, on)]\n"
    "                continue\n\n            t = np.where("), (
    "            features[ix] = self.features[f][t, :]\n",
    "            features[ix] = cache[(f, on)] = self.features[f][t, :]\n"), (
    "    def get_features_from_raw(self, items):\n        features = {}\n",
    "    def get_features_from_raw(self, items):\n        features = {}\n"
    "        cache = {}\n")]},
    'two items of the same file with the same onset and different offsets',
    'the second item gets the features of the first one', '''
from ABXpy.distances.distances import Features_Accessor
items = pandas.DataFrame({'file': ['f', 'f'], 'onset': [0., 0.],
                          'offset': [1., 2.]})
acc = Features_Accessor({'f': np.arange(4.)}, {'f': np.arange(4.)[:, None]})
res = acc.get_features_from_raw(items)
assert [len(res[0]), len(res[1])] == [2, 3], res
''')

seed('c07-normalize', 'C07', {D: [(
    "                if normalize is not None:\n",
    "                if normalize:\n")]},
    'normalization 0 with a distance function whose default is to normalize',
    'the choice not to normalize does not reach the distance function', '''
with open('mydis.py', 'w') as f:
    f.write('def dis(x, y, normalized=True):\\n    return float(normalized)\\n')
import ABXpy.distance
task([(o,) for o in 'aab'], ['on'], 'on')
features({'f0': np.ones((9, 2))}, {'f0': np.arange(9.)})
ABXpy.distance.run('data.features', 'data.abx', 'data.distance', 0,
                   distance=os.path.join(D, 'mydis') + '.dis')
with h5py.File('data.distance', 'r') as f:
    assert (f['distances/data'][...] == 0).all()
''')

seed('c08-lost-error', 'C08', {D: [(
    "            pool.map(worker, args)\n",
    "            pool.map_async(worker, args, chunksize=1)\n")]},
    'several processes, one of which fails',
    'the error of the worker is lost and the distance file is marked as '
    'done', '''
from ABXpy.distances import distances


def dis(x, y):
    raise RuntimeError('cannot compute')


task([(o,) for o in 'aabb'], ['on'], 'on')
features({'f0': np.ones((9, 2))}, {'f0': np.arange(9.)})
try:
    distances.compute_distances('data.features', 'features', 'data.abx',
                                'data.distance', dis, None, n_cpu=2)
except RuntimeError:
    pass
else:
    raise AssertionError('no error')
with h5py.File('data.distance', 'r') as f:
    assert not f.attrs['done']
''')

seed('c08-unlocked', 'C08', {D: [(
    "        if synchronize:\n"
    "            distance_file_lock.acquire()\n"
    "        try:\n"
    "            with h5py.File(distance_file, 'a') as fh:\n",
    "        # nobody else has anything to write with a single block by job\n"
    "        if n_blocks == 1:\n"
    "            synchronize = False\n"
    "        if synchronize:\n"
    "            distance_file_lock.acquire()\n"
    "        try:\n"
    "            with h5py.File(distance_file, 'a') as fh:\n")]},
    'two workers with a single block each, which finish at the same time',
    'the distance file is opened by several processes at the same time', '''
from ABXpy.distances import distances


class Lock(object):
    held = False

    def acquire(self):
        Lock.held = True

    def release(self):
        Lock.held = False


task([(o,) for o in 'aabb'], ['on'], 'on')
features({'f0': np.ones((9, 2))}, {'f0': np.arange(9.)})
jobs = distances.create_distance_jobs('data.abx', 'data.distance', 2)
real = h5py.File
bad = []


def File(name, *args, **kw):
    if str(name).endswith(('.distance', '.abx')) and not Lock.held:
        bad.append(name)
    return real(name, *args, **kw)


distances.h5py.File = File
for i, job in enumerate(jobs):
    distances.run_distance_job(
        job, 'data.distance', lambda x, y: 1., ['data.features'],
        ['features'], False, i, None, Lock())
assert not bad, bad
''')

seed('c09-precision', 'C09', {'ABXpy/score.py': [(
    "                dis = np.reshape(dis, dis.shape[0])\n",
    "                dis = np.reshape(dis, dis.shape[0]).astype(np.float32)\n")]},
    'two distances which differ by less than the single precision',
    'triplets are scored as ties', '''
import ABXpy.score
task([(o,) for o in 'aab'], ['on'], 'on')
with h5py.File('data.abx', 'r') as f:
    n = f['unique_pairs/data'].shape[0]
with h5py.File('data.distance', 'w') as f:
    f.create_dataset('distances/data',
                     data=1 + 1e-12 * np.arange(n, dtype=float)[:, None])
ABXpy.score.score('data.abx', 'data.distance', 'data.score')
with h5py.File('data.score', 'r') as f:
    assert (f['scores'][...] != 0).all()
''')

seed('c09-key-type', 'C09', {'ABXpy/score.py': [(
    "                pair_key_type = type_fitting.fit_integer_type((base) ** 2 - 1,\n"
    "                                                              is_signed=False)\n",
    "                pair_key_type = type_fitting.fit_integer_type(\n"
    "                    max(16 * base, pairs.shape[0]), is_signed=False)\n")]},
    'a BY block with at least 257 items and less than 65536 pairs',
    'the keys of the pairs wrap, other distances are compared', '''
import ABXpy.score
cols = ['on', 'c']
rows = [('a', 1)] + [('b', 0)] * 300 + [('a', 1), ('b', 1), ('c', 1), ('b', 1)]
task(rows, cols, 'on', filters=['[v == 1 for v in c_A]',
     '[v == 1 for v in c_B]', '[v == 1 for v in c_X]'])
p = pairs()
dis = {q: float(i) for i, q in enumerate(p)}
with h5py.File('data.distance', 'w') as f:
    f.create_dataset('distances/data',
                     data=np.array([dis[q] for q in p])[:, None])
ABXpy.score.score('data.abx', 'data.distance', 'data.score')
with h5py.File('data.score', 'r') as f:
    got = f['scores'][:, 0].tolist()
want = [1 if dis[(a, x)] < dis[(b, x)] else -1 for a, b, x in triplets()]
assert got == want
''')

seed('c10-levels-type', 'C10', {'ABXpy/h5tools/h5io.py': [(
    "                max(indexed_levels), is_signed=False)\n",
    "                max(indexed_levels) - 1, is_signed=False)\n")]},
    'a column with exactly 256 different labels',
    'the analysis adds one to the largest stored position, which then '
    'overflows: wrong or missing lines', '''
import ABXpy.analyze
cols = ['on']
rows = [('%03d' % (i // 2),) for i in range(512)]
rows = [('l%03d' % i,) for i in range(256)] + [('l255',)]
task(rows, cols, 'on')
n = len(triplets())
with h5py.File('data.score', 'w') as f:
    f.create_dataset('scores', data=np.ones((n, 1), dtype=np.int8))
ABXpy.analyze.analyze('data.abx', 'data.score', 'data.csv')
res = pandas.read_csv('data.csv', sep='\\t')
assert res['n'].sum() == n
assert len(res) == 255, len(res)
assert set(res['on_1']) == {'l255'} and len(set(res['on_2'])) == 255
''')

seed('c10-sum-type', 'C10', {'ABXpy/analyze.py': [(
    "        means[a] = np.mean(scores[i:i+c])\n",
    "        means[a] = np.sum(scores[i:i+c], dtype=np.int16) / float(c)\n")]},
    'a group of more than 32767 triplets, most of them with the same score',
    'the sum of the scores overflows', '''
import ABXpy.analyze
index = np.zeros(40000, dtype=np.uint8)
means, _, counts = ABXpy.analyze.unique(
    index, np.ones((40000, 1), dtype=np.int8))
assert list(counts) == [40000] and list(means) == [1.], means
''')

seed('c10-score-slice', 'C10', {'ABXpy/analyze.py': [(
    "        permut = np.argsort(new_index)\n",
    "        permut = np.argsort(new_index.astype(np.int32))\n")]},
    'more than 2**31 combinations of labels',
    'the combinations are truncated before being sorted: some of them are '
    'cut in several lines', '''
import ABXpy.analyze
n = 5
regs = ['r%d' % i for i in range(n)]
with h5py.File('data.abx', 'w') as f:
    f.create_dataset('bys', (1,), dtype=h5py.special_dtype(vlen=str))
    f['bys'][0] = 'b'
    g = f.create_group('regressors/b')
    g.create_dataset('indexed_datasets', (n,),
                     dtype=h5py.special_dtype(vlen=str))
    for i, r in enumerate(regs):
        g['indexed_datasets'][i] = r
        g.create_dataset('indexes/' + r, data=np.arange(256))
    rows = [[i % 5, 7, 7, 7, 7] for i in range(15)] + [[0] + [255] * 4]
    g.create_dataset('indexed_data', data=np.array(rows, dtype=np.uint16))
    f.create_dataset('triplets/by_index', data=[[0, len(rows)]])
with h5py.File('data.score', 'w') as f:
    f.create_dataset('scores', data=np.ones((len(rows), 1), dtype=np.int8))
ABXpy.analyze.analyze('data.abx', 'data.score', 'data.csv')
res = pandas.read_csv('data.csv', sep='\\t')
assert sorted(res[regs].values.tolist()) == sorted(
    map(list, set(map(tuple, rows)))), len(res)
''')

seed('c11-diagonal', 'C11', {'ABXpy/distances/metrics/dtw/dtw.pyx': [(
    "            if c_diag <= c_left and c_diag <= c_up:\n",
    "            if c_diag < c_left and c_diag < c_up:\n")]},
    'normalized distance, with equal accumulated costs on the way back',
    'the alignment whose length is used to normalize does not prefer the '
    'diagonal', '''
from ABXpy.distances.metrics.dtw import _dtw
d = np.array([[1., 0.], [0., 1.]])
assert _dtw(2, 2, np.zeros((2, 2)), True) == 0
assert _dtw(2, 2, np.array([[0., 0.], [0., 1.]]), True) == 0.5
''')

seed('c12-small-frames', 'C12', {'ABXpy/distances/metrics/cosine.py': [(
    "    ix = x2 == 0.\n    iy = y2 == 0.\n",
    "    ix = x2 < 1e-6\n    iy = y2 < 1e-6\n")]},
    'frames with very small but not null values',
    'small frames are treated as null frames', '''
from ABXpy.distances.metrics.cosine import cosine_distance
x = np.array([[1e-8, 0.], [0., 1.]])
d = cosine_distance(x, np.array([[1., 0.], [1., 1.]]))
assert np.allclose(d, [[0, .25], [.5, .25]]), d
''')

seed('c12-null-frames', 'C12', {'ABXpy/distances/metrics/cosine.py': [(
    "    for i in np.where(ix)[0]:\n        d[i, iy] = 0.\n",
    "    d[ix][:, iy] = 0.\n")]},
    'null frames in both sequences',
    'the distance of two null frames is 1', '''
from ABXpy.distances.metrics.cosine import cosine_distance
x = np.array([[0., 0.], [0., 1.]])
d = cosine_distance(x, x)
assert np.allclose(d, [[0, 1], [1, 0]]), d
''')

seed('c13-kl-normalized', 'C13', {'ABXpy/distance.py': [(
    "        d = dtw.dtw(x, y, kl.kl_divergence,\n"
    "                    normalized=normalized)\n",
    "        d = dtw.dtw(x, y, kl.kl_divergence, normalized=True)\n")]},
    'the dtw_kl distance without normalization',
    'the distance is normalized all the same', '''
from ABXpy.distance import dtw_kl_distance
x = np.array([[.2, .8], [.5, .5]])
y = np.array([[.7, .3], [.4, .6], [.9, .1]])
a, b = dtw_kl_distance(x, y, True), dtw_kl_distance(x, y, False)
assert a < b, (a, b)
''')

seed('c14-alias', 'C14', {'ABXpy/h5tools/h52np.py': [(
    "            data.append(np.copy(self.buf[self.buf_ix:next_buf_ix, :]))\n",
    "            data.append(self.buf[self.buf_ix:next_buf_ix, :])\n")]},
    'an amount to read which spans several buffers',
    'the rows read first are overwritten by the next ones', '''
from ABXpy.h5tools.h52np import H52NP
with h5py.File('f.h5', 'w') as f:
    f.create_dataset('g/d', data=np.arange(100)[:, None])
with H52NP('f.h5') as i:
    b = i.add_dataset('g', 'd', buf_size=0.08)
    assert b.read(35)[:, 0].tolist() == list(range(35))
''')

seed('c15-lower', 'C15', {'ABXpy/h5tools/h52np.py': [(
    "        return bisect.bisect_right(self.buf[self.buf_ix:, :], x)\n",
    "        return bisect.bisect_right(self.buf, x, self.buf_ix)\n")]},
    'a sort with several chunks, larger than their reading buffers',
    'more rows than allowed are taken from the chunks: the result is not '
    'sorted', '''
from ABXpy.h5tools.h5_handler import H5Handler
key = np.random.RandomState(0).randint(0, 1000, (3000, 1))
with h5py.File('f.h5', 'w') as f:
    f.create_dataset('k/k', data=key)
H5Handler('f.h5', 'k', 'k').sort(buffer_size=4, o_buffer_size=4)
with h5py.File('f.h5', 'r') as f:
    assert f['k/k'][:, 0].tolist() == sorted(key[:, 0].tolist())
''')

seed('c16-oversampling', 'C16', {'ABXpy/sampling/sampler.py': [(
    "        new_sample = np.random.randint(0, int(N), int(remaining)).astype(dtype)\n",
    "        new_sample = np.random.randint(\n"
    "            0, int(N), int(remaining) + 8).astype(dtype)\n"), (
    "        sample = np.union1d(sample, np.unique(new_sample))\n",
    "        sample = np.union1d(sample, np.unique(new_sample))[:int(n)]\n")]},
    'a small sample of a large set (rejection sampling)',
    'small indices are drawn more often than large ones', '''
from ABXpy.sampling import sampler
np.random.seed(3)
m = np.mean([sampler.sample_without_replacement(5, 1000).mean()
             for _ in range(300)])
assert abs(m - 499.5) < 60, m
''')

seed('c16-symmetry', 'C16', {'ABXpy/sampling/sampler.py': [(
    "        if K_eff < K:\n            k = n_eff - k\n"
    "        if n_eff < n:\n            k = K - k\n",
    "        if n_eff < n:\n            k = K - k\n"
    "        elif K_eff < K:\n            k = n_eff - k\n")]},
    'more than half of the items to sample, in a chunk which is more than '
    'half of the remaining items',
    'the number of sampled items of the chunk has a wrong distribution, and '
    'may be out of range', '''
from ABXpy.sampling import sampler
np.random.seed(3)
for N, K, n in [(10, 8, 7), (20, 15, 15), (9, 6, 5)]:
    res = [int(sampler.hypergeometric_sample(N, K, n)) for _ in range(400)]
    assert min(res) >= max(0, K - (N - n)) and max(res) <= min(n, K), res
    assert abs(np.mean(res) - n * K / N) < .5, np.mean(res)
''')

seed('c17-sorted-merge', 'C17', {'ABXpy/database/database.py': [(
    "                db = pandas.merge(db, auxdb, on=col, how='left')\n",
    "                db = pandas.merge(db, auxdb, on=col, how='left', sort=True)\n")]},
    'an auxiliary file whose key column is not sorted in the item file',
    'the labels are attributed to the locations of other items', '''
items([(c,) for c in 'baba'], ['on'])
with open('data.on', 'w') as f:
    f.write('on kind\\na 1\\nb 2\\n')
from ABXpy.database.database import load
db, _, feat = load('data.item', features_info=True)
assert [(int(o), l, int(k)) for o, l, k in zip(
    feat['onset'], db['on'], db['kind'])] == [
    (0, 'b', 2), (1, 'a', 1), (2, 'b', 2), (3, 'a', 1)]
''')

seed('c17-missing', 'C17', {'ABXpy/database/database.py': [(
    "        db = db[~ nanrows]\n",
    "        db = db[~ nanrows].reset_index(drop=True)\n")]},
    'an item file with a missing label which is not in its last row',
    'the remaining items get the location of other items (or the task fails)',
    '''
with open('data.item', 'w') as f:
    f.write('#file onset offset #on c\\n')
    for i, l in enumerate(['a 1', 'b', 'a 2', 'a 3', 'b 1', 'b 2']):
        f.write('f0 %d %d.5 %s\\n' % (i, i, l))
from ABXpy.task import Task
t = Task('data.item', 'on')
t.generate_triplets(output='data.abx')
labels = dict(zip(range(6), 'abaabb'))
for a, b, x in triplets():
    assert labels[a] == labels[x] != labels[b] and 1 not in (a, b, x)
''')

seed('c18-overwrite', 'C18', {D: [(
    "    with h5py.File(distance_file, 'a') as fh:\n"
    "        # fails",
    "    with h5py.File(distance_file, 'w') as fh:\n"
    "        # fails")]},
    'distances computed into a file which already holds distances',
    'the earlier distances are silently destroyed', '''
from ABXpy.distances import distances
task([(o,) for o in 'aabb'], ['on'], 'on')
features({'f0': np.ones((9, 2))}, {'f0': np.arange(9.)})
args = ('data.features', 'features', 'data.abx', 'data.distance')
distances.compute_distances(*args, lambda x, y: 1., None, n_cpu=1)
try:
    distances.compute_distances(*args, lambda x, y: 2., None, n_cpu=1)
except Exception:
    pass
with h5py.File('data.distance', 'r') as f:
    assert (f['distances/data'][...] == 1).all()
''')

seed('c18-temporary', 'C18', {T: [(
    "        finally:\n            os.remove(output_tmp)\n"
    "        if self.verbose:\n            print(\"done.\")\n",
    "        except (IOError, OSError):\n"
    "            # keep the pairs for a later attempt\n"
    "            raise\n"
    "        except Exception:\n"
    "            os.remove(output_tmp)\n"
    "            raise\n"
    "        os.remove(output_tmp)\n"
    "        if self.verbose:\n            print(\"done.\")\n")]},
    'an input/output error while the pairs are written',
    'the temporary file of the pairs is left behind', '''
import ABXpy.task
os.mkdir('tmp')


def fail(*args, **kw):
    raise OSError('disk full')


ABXpy.task.sort_pairs = fail
try:
    task([(o,) for o in 'aabb'], ['on'], 'on', tmpdir='tmp')
except OSError:
    pass
else:
    raise AssertionError('no error')
assert os.listdir('tmp') == [], os.listdir('tmp')
''')

seed('c19-fourth', 'C19', {'ABXpy/verify.py': [(
    "        assert cols[3][0] == '#', 'The fourth column must start with #'\n",
    "        assert '#' in cols[3], 'The fourth column must start with #'\n")]},
    'an item file whose fourth column has a # which is not its first '
    'character',
    'a wrong header is accepted', '''
import ABXpy.verify
features({'f0': np.ones((9, 2))}, {'f0': np.arange(9.)})
with open('data.item', 'w') as f:
    f.write('#file onset offset on# c\\nf0 0 1 a b\\n')
try:
    ABXpy.verify.check('data.item', 'data.features')
except AssertionError:
    pass
else:
    raise Exception('accepted')
''')

seed('c20-dots', 'C20', {'ABXpy/misc/any2h5features.py': [(
    "        internal_files.append(os.path.splitext(f)[0])\n",
    "        internal_files.append(os.path.basename(f).split('.')[0])\n")]},
    'a feature file whose name has several dots',
    'the name of the item in the features file is truncated (and may be '
    'that of another file)', '''
import h5features
from ABXpy.misc.any2h5features import convert
os.mkdir('npz')
for n in ['a.1', 'b.2']:
    np.savez('npz/%s.npz' % n, features=np.ones((3, 2)), time=np.arange(3.))
convert('npz', 'out.features')
times, feats = h5features.read('out.features', '/features/')[:2]
assert sorted(times) == ['a.1', 'b.2'], sorted(times)
''')

seed('c20-batch', 'C20', {'ABXpy/misc/any2h5features.py': [(
    "    if features:\n        h5features.write(",
    "    if i < batch_size:\n        h5features.write(")]},
    'a number of files which is a multiple of the size of the batches',
    'the last batch is not written', '''
import h5features
from ABXpy.misc.any2h5features import any_to_h5features
os.mkdir('npz')
names = ['f%d.npz' % i for i in range(4)]
for n in names:
    np.savez('npz/' + n, features=np.ones((3, 2)), time=np.arange(3.))
any_to_h5features('npz', names, 'out.features', '/features/', batch_size=2)
times, feats = h5features.read('out.features', '/features/')[:2]
assert sorted(times) == ['f0', 'f1', 'f2', 'f3'], sorted(times)
''')

seed('c21-type-limit', 'C21', {'ABXpy/misc/type_fitting.py': [(
    "    elif n < 2 ** (16 - m):\n", "    elif n <= 2 ** (16 - m):\n")]},
    'a largest value of exactly 65536 (or 32768 with signed integers)',
    'the integer type is too small for the value', '''
from ABXpy.misc.type_fitting import fit_integer_type
assert fit_integer_type(65536, is_signed=False) == np.uint32
assert fit_integer_type(65535, is_signed=False) == np.uint16
assert fit_integer_type(32768) == np.int32
''')

seed('c21-key-order', 'C21', {'ABXpy/h5tools/h5io.py': [(
    "                [data[key] for key in self.fused_members[fused_dset]], axis=1))  # need type conversion sometimes here?\n",
    "                [data[key] for key in sorted(self.fused_members[fused_dset])], axis=1))  # need type conversion sometimes here?\n")]},
    'fused columns which are not declared in alphabetical order and have '
    'different numbers of levels',
    'the keys are computed with the weights of other columns', '''
from ABXpy.h5tools.h5io import H5IO
with H5IO('f.h5', {'b': 'b', 'a': 'a'}, {'b': ['x', 'y'],
          'a': ['u', 'v', 'w']}, {'fu': ['b', 'a']}) as h:
    h.write({'b': ['x', 'y', 'y'], 'a': ['w', 'u', 'v']})
with h5py.File('f.h5', 'r') as f:
    keys = f['fu'][:, 0].tolist()
    w = f['fused/fu/key_weights'][...].tolist()
assert w == [1, 2] and [(k % 2, k // 2) for k in keys] == [
    (0, 2), (1, 0), (1, 1)], (keys, w)
''')

seed('c22-across-order', 'C22', {T: [(
    "            B = np.array(\n"
    "                list(set(self.across_blocks[by].groups[across])"
    ".difference(A)),\n",
    "            # (the items of a block follow each other)\n"
    "            block = self.across_blocks[by].groups[across]\n"
    "            same = set(A if len(A) < 3 else\n"
    "                       range(A[0], A[-1] + 1))\n"
    "            B = np.array(\n"
    "                list(set(block).difference(same)),\n")]},
    'three items or more with the same labels, and rows which are not grouped '
    'by label',
    'items B between three items with the ON label of A are forgotten', '''
cols = ['on', 'ac']
rows = [(o, a) for a in 'st' for o in 'aabab']
task(rows, cols, 'on', 'ac')
same(triplets(), brute(rows, cols, 'on', ['ac']), 'triplets')
''')

seed('c23-group', 'C23', {'ABXpy/distance.py': [(
    "        distance=args.distance, njobs=args.njobs, group=args.group)\n",
    "        distance=args.distance, njobs=args.njobs)\n")]},
    'the option --group of the distance command, with several groups in the '
    'features file',
    'the default group is read', '''
import h5features, subprocess
task([(o,) for o in 'aab'], ['on'], 'on')
rng = np.random.RandomState(0)
for g in ['features', 'other']:
    h5features.write('data.features', g, ['f0'], [np.arange(9.)],
                     [rng.rand(9, 2)])
import ABXpy.distance
ABXpy.distance.run('data.features', 'data.abx', 'lib.distance', 1,
                   group='other')
subprocess.check_call(
    [sys.executable, '-W', 'ignore', REPO + '/ABXpy/distance.py',
     'data.features', 'data.abx', 'cmd.distance', '-n', '1', '-g', 'other'],
    stdout=subprocess.DEVNULL)
with h5py.File('lib.distance', 'r') as a, h5py.File('cmd.distance', 'r') as b:
    assert (a['distances/data'][...] == b['distances/data'][...]).all()
''')

seed('c23-default-output', 'C23', {'ABXpy/score.py': [(
    "        (basename_task, _) = os.path.splitext(task_file)\n",
    "        basename_task = task_file.split('.')[0]\n")]},
    'no output given to the score command and a path with other dots than '
    'that of the extension',
    'the scores are not written at the documented place', '''
import ABXpy.score
task([(o,) for o in 'aab'], ['on'], 'on', out='my.data.abx')
with h5py.File('my.data.abx', 'r') as f:
    n = f['unique_pairs/data'].shape[0]
with h5py.File('dis.distance', 'w') as f:
    f.create_dataset('distances/data', data=np.ones((n, 1)))
ABXpy.score.score('my.data.abx', 'dis.distance')
assert os.path.exists('my.data_dis.score'), os.listdir('.')
''')


seed('c24-threshold-kept', 'C24', {T: [(
    "        self.threshold = threshold if threshold is not None else False\n",
    "        if threshold is not None or not hasattr(self, 'threshold'):\n"
    "            self.threshold = threshold or False\n")]},
    'two generations by the same Task object, the first one with a threshold',
    'the second one is sampled too, although no threshold is given', '''
from ABXpy.task import Task
rows = [(o, a) for o in 'ab' for a in 'st'] * 2
t = Task(items(rows, ['on', 'ac']), 'on', 'ac')
t.generate_triplets('one.abx', threshold=1, seed=0)
t.generate_triplets('two.abx')
same(triplets('two.abx'), brute(rows, ['on', 'ac'], 'on', ['ac']), 'triplets')
''')

seed('c24-stats-updated', 'C24', {T: [(
    "            fh.file['triplets/data'].resize(aux[-1], axis=0)\n",
    "            fh.file['triplets/data'].resize(aux[-1], axis=0)\n"
    "            self.stats['nb_triplets'] = int(aux[-1])\n")]},
    'a generation with a threshold, then another operation of the same object',
    'the task announces the number of triplets of the last generation', '''
from ABXpy.task import Task
rows = [(o, a) for o in 'ab' for a in 'st'] * 2
t = Task(items(rows, ['on', 'ac']), 'on', 'ac')
n = t.stats['nb_triplets']
t.generate_triplets('one.abx', threshold=1, seed=0)
assert t.stats['nb_triplets'] == n == len(
    brute(rows, ['on', 'ac'], 'on', ['ac'])), t.stats
''')

seed('c25-sort-file', 'C25', {'ABXpy/h5tools/h5_handler.py': [(
    "        self.tmpdir = tempfile.mkdtemp(dir=tmpdir)\n"
    "        self.tmpfile = os.path.join(self.tmpdir, 'tmp.h5')\n",
    "        self.tmpdir = os.path.join(\n"
    "            tmpdir or tempfile.gettempdir(), 'abx_sort')\n"
    "        if not os.path.exists(self.tmpdir):\n"
    "            os.mkdir(self.tmpdir)\n"
    "        self.tmpfile = os.path.join(self.tmpdir, 'tmp.h5')\n")]},
    'two tasks generated at the same time with the same temporary folder',
    'they sort in the same temporary file: one of them fails', '''
import subprocess
import ABXpy.h5tools.h5_handler as h
rows = [(o,) for o in 'aabb']
items(rows, ['on'], 'other.item')
os.mkdir('tmp')
code = """
import sys, warnings
warnings.simplefilter('ignore')
from ABXpy.task import Task
Task('other.item', 'on').generate_triplets('other.abx', tmpdir='tmp')
"""
extract = h.H5Handler.extract_chunk


def slow(self, *args, **kw):
    # another run during the sort
    h.H5Handler.extract_chunk = extract
    subprocess.check_call([sys.executable, '-c', code],
                          stderr=subprocess.DEVNULL)
    return extract(self, *args, **kw)


h.H5Handler.extract_chunk = slow
task(rows, ['on'], 'on', tmpdir='tmp')
want = brute(rows, ['on'], 'on')
same(triplets(), want, 'triplets')
same(triplets('other.abx'), want, 'triplets')
assert os.listdir('tmp') == []
''')

seed('c25-score-mode', 'C25', {'ABXpy/score.py': [(
    "    with h5py.File(task_file, 'r') as t:\n"
    "        bys = t['bys'][...]\n",
    "    with h5py.File(task_file, 'r+') as t:\n"
    "        bys = t['bys'][...]\n")]},
    'scores computed while another process reads the same task file',
    'the task file is opened for writing: HDF5 refuses', '''
import subprocess
rows = [(o,) for o in 'aabb']
task(rows, ['on'], 'on')
n = len(pairs())
with h5py.File('data.distance', 'w') as f:
    f.create_dataset('distances/data', data=np.arange(float(n))[:, None])
code = """
import ABXpy.score
ABXpy.score.score('data.abx', 'data.distance', 'data.score')
"""
with h5py.File('data.abx', 'r') as f:
    subprocess.check_call([sys.executable, '-c', code],
                          stderr=subprocess.DEVNULL)
''')

seed('c26-clear', 'C26', {'ABXpy/misc/tinytree.py': [(
    "        n = self.children[:]\n        for i in n:\n"
    "            i.remove()\n        return n\n",
    "        n = []\n        for i in self.children:\n"
    "            i.remove()\n            n.append(i)\n        return n\n")]},
    'clearing a node which has two children or more',
    'one child out of two is kept (the list is modified while it is read)',
    '''
from ABXpy.misc.tinytree import Tree
top, kids = Tree(), [Tree() for i in range(3)]
top.addChildrenFromList(kids)
assert top.clear() == kids
assert top.children == [] and [k.parent for k in kids] == [None] * 3
''')

seed('c26-walk', 'C26', {'ABXpy/misc/tinytree.py': [(
    "        yield self\n        # Take copy to make this robust under "
    "modification\n        for i in self.children[:]:\n"
    "            for j in i.preOrder():\n",
    "        yield self\n        for i in iter(self.children):\n"
    "            for j in i.preOrder():\n")]},
    'nodes removed or replaced while the tree is visited in pre-order',
    'the node after a removed one is not visited', '''
from ABXpy.misc.tinytree import Tree
top, kids = Tree(), [Tree() for i in range(4)]
top.addChildrenFromList([kids[0], [kids[1], kids[2]], kids[3]])
seen = []
for node in top.preOrder():
    seen.append(node)
    if node is kids[1]:
        node.remove()
assert seen == [top] + kids
''')

seed('c27-extra-column', 'C27', {'ABXpy/misc/items.py': [(
    "    csv2 = csv2.reindex(sorted(csv2.columns), axis=1)\n",
    "    csv2 = csv2.reindex(sorted(csv1.columns), axis=1)\n")]},
    'a second table which has a column more than the first one',
    'the additional column is ignored: the tables are said equal', '''
from ABXpy.misc import items
for name, text in (('a', 'x\\ty\\n1\\t2\\n'), ('b', 'y\\tx\\n2\\t1\\n'),
                   ('c', 'x\\ty\\tz\\n1\\t2\\t3\\n')):
    with open(name + '.csv', 'w') as f:
        f.write(text)
assert items.csv_cmp('a.csv', 'b.csv')
assert not items.csv_cmp('a.csv', 'c.csv')
assert not items.csv_cmp('c.csv', 'a.csv')
''')

seed('c27-repeats', 'C27', {'ABXpy/misc/items.py': [(
    "        else:\n            i -= 1\n            j -= 4\n"
    "            return 'c%s_v%s' % (j, i // (base ** j) % base)\n",
    "        else:\n            i = (i - 1) // (repeats + 1)\n"
    "            j -= 4\n            k = i * (repeats + 1)\n"
    "            return 'c%s_v%s' % (j, k // (base ** j) % base)\n")]},
    'designs with repeats',
    'with repeats, some combinations of labels are missing and other ones '
    'are repeated more', '''
from collections import Counter
from ABXpy.misc import items
from ABXpy.database import database
for base, n, rep in ((2, 2, 0), (3, 3, 1), (3, 2, 2), (2, 3, 5)):
    items.generate_named_testitems(base, n, rep, 'data.item')
    db, _ = database.load('data.item')
    rows = db[['c%d' % j for j in range(n)]].values.tolist()
    count = Counter(tuple(r) for r in rows)
    assert len(count) == base ** n, count
    assert set(count.values()) == {rep + 1}, count
''')

seed('c24-across-list', 'C24', {T: [(
    "            self.across = ['#across']\n",
    "            self.across += ['#across']\n")]},
    'an empty list given as ACROSS attribute, then used for another task',
    'the list of the caller is modified: the second task cannot be made', '''
from ABXpy.task import Task
rows = [(o, a) for o in 'ab' for a in 'st']
across = []
path = items(rows, ['on', 'ac'])
Task(path, 'on', across).generate_triplets('one.abx')
assert across == [], across
Task(path, 'ac', across).generate_triplets('two.abx')
same(triplets('two.abx'), brute(rows, ['on', 'ac'], 'ac'), 'triplets')
''')

seed('c24-column-levels', 'C24', {'ABXpy/dbfun/dbfun_column.py': [(
    "            index = list(set(db[column]))\n"
    "            index.sort()\n"
    "            self.index = index\n",
    "            # the levels do not change\n"
    "            key = (column, len(db), db[column].iloc[0])\n"
    "            if key not in DBfun_Column.levels:\n"
    "                DBfun_Column.levels[key] = sorted(set(db[column]))\n"
    "            self.index = DBfun_Column.levels[key]\n"), (
    "class DBfun_Column(dbfun.DBfun):\n",
    "class DBfun_Column(dbfun.DBfun):\n    levels = {}\n\n")]},
    'two tasks in the same process, on item files of the same length with a '
    'column of the same name, the same first label and other labels',
    'the regressors of the second task use the labels of the first one', '''
from ABXpy.task import Task
one = [(o, a) for o in 'ab' for a in 'stu']
two = [(o, a) for o in 'ab' for a in 'suv']
for n, rows in enumerate((one, two)):
    Task(items(rows, ['on', 'ac']), 'on', 'ac').generate_triplets(
        '%d.abx' % n)
    same(triplets('%d.abx' % n),
         brute(rows, ['on', 'ac'], 'on', ['ac']), 'triplets')
''')

seed('c24-script-kept', 'C24', {'ABXpy/dbfun/dbfun_compute.py': [(
    "            with open(definition) as script_file:\n"
    "                self.script = script_file.read()\n",
    "            # read each script once\n"
    "            if definition not in DBfun_Compute.scripts:\n"
    "                with open(definition) as script_file:\n"
    "                    DBfun_Compute.scripts[definition] = (\n"
    "                        script_file.read())\n"
    "            self.script = DBfun_Compute.scripts[definition]\n"), (
    "class DBfun_Compute(dbfun.DBfun):\n",
    "class DBfun_Compute(dbfun.DBfun):\n    scripts = {}\n\n")]},
    'a filter defined by a script file which is edited between two tasks of '
    'the same process',
    'the second task applies the previous filter', '''
from ABXpy.task import Task
rows = [(o, c) for o in 'ab' for c in (0, 1, 2)]
path = items(rows, ['on', 'c'])
for k in (0, 1):
    with open('keep.py', 'w') as f:
        f.write('[v != %d for v in c_A]' % k)
    Task(path, 'on', filters=['keep.py']).generate_triplets('%d.abx' % k)
    same(triplets('%d.abx' % k), brute(
        rows, ['on', 'c'], 'on', keep=lambda a, b, x: a[1] != k), 'triplets')
''')

seed('c20-extension', 'C20', {'ABXpy/misc/any2h5features.py': [(
    "    files = os.listdir(folder)\n",
    "    files = [f for f in os.listdir(folder) if f.endswith('.npz')]\n")]},
    'a folder of files which are not numpy ones, with a function to load them',
    'the files are ignored and nothing is written', '''
import h5features
from ABXpy.misc.any2h5features import convert
os.mkdir('txt')
for n in 'ab':
    with open('txt/%s.txt' % n, 'w') as f:
        f.write('1 2\\n3 4\\n')


def load(path):
    data = np.loadtxt(path)
    return {'time': np.arange(len(data)) * .01, 'features': data}


convert('txt', 'out.features', load=load)
times = h5features.read('out.features', 'features')[0]
assert sorted(times) == ['a', 'b'], sorted(times)
''')

seed('c02-abx-filters', 'C02', {T: [(
    "                        self.filters.A or self.filters.B\n"
    "                        or self.filters.X or self.filters.ABX)\n",
    "                        self.filters.A or self.filters.B\n"
    "                        or self.filters.X)\n")]},
    'a filter which compares several items only',
    'the number of triplets is announced as exact but ignores the filter', '''
rows = [(o, a, c) for o in 'ab' for a in 'st' for c in (0, 1)]
t = task(rows, ['on', 'ac', 'c'], 'on', 'ac',
         filters=['[v == w for v, w in zip(c_A, c_X)]'])
n = len(triplets())
assert t.stats['nb_triplets'] == n, (t.stats['nb_triplets'], n)
''')

seed('c02-two-across', 'C02', {T: [(
    "                    if need_approx and not isinstance(across, tuple):\n",
    "                    if need_approx and (\n"
    "                            len(self.across) == 1 or\n"
    "                            stats['nb_across_levels'] < 4):\n")]},
    'two ACROSS columns, and less than 4 combinations of their labels',
    'the items X which share one of the two ACROSS labels of A are counted',
    '''
rows = [('a', 's', 'u'), ('b', 's', 'u'), ('a', 's', 'v'), ('a', 't', 'v')]
t = task(rows, ['on', 'p', 'q'], 'on', ['p', 'q'])
n = len(triplets())
assert t.stats['nb_triplets'] == n == 1, (t.stats['nb_triplets'], n)
''')
