#!/usr/bin/env python3
"""Edits of /repo which keep its behaviour, on which no check may complain.

    tools/refactors.py WORK [check ...]

copies /repo to WORK, applies all of them there and runs the checks (all of
them by default) on the result. For development: no check uses this.
"""
import os
import shutil
import subprocess
import sys

EDITS = []


def edit(path, *pairs):
    EDITS.append((path, pairs))


edit('ABXpy/score.py',
     ("""                    pairs_AX = triplets[:, 0] + base * triplets[:, 2]
""", """                    first, second, probe = triplets.T
                    pairs_AX = probe * base + first
"""),
     ("""                    pairs_BX = triplets[:, 1] + base * triplets[:, 2]
""", """                    pairs_BX = probe * base + second
"""),
     ("""                    scores = (np.int8(dis_AX < dis_BX) -
                              np.int8(dis_AX > dis_BX))
""", """                    closer_A = dis_AX < dis_BX
                    closer_B = dis_BX < dis_AX
                    scores = closer_A.astype('i1') - closer_B.astype('i1')
"""),
     ("""                    s['scores'][idx_start:idx_end] = np.reshape(scores, (-1, 1))
""", """                    s['scores'][idx_start:idx_end] = scores[:, np.newaxis]
"""))

edit('ABXpy/analyze.py',
     ("""    means = np.empty((len(counts)),)
    i = 0
    for a, c in enumerate(counts):
        means[a] = np.mean(scores[i:i+c])
        i += c
    means = (means + 1) / 2
""", """    sums = np.add.reduceat(
        np.ravel(scores).astype(np.int64), unique_idx[:-1])
    means = 0.5 + sums / (2. * counts)
"""),
     ("""    scorefid = h5py.File(scorefile, 'r')
    taskfid = h5py.File(taskfile, 'r')
    bys = taskfid['bys'][...]
    for by_idx, by in enumerate(bys):
""", """    with h5py.File(scorefile, 'r') as scorefid, \\
            h5py.File(taskfile, 'r') as taskfid:
        _collapse(scorefid, taskfid, fid)


def _collapse(scorefid, taskfid, fid):
    bys = taskfid['bys'][...]
    for by_idx in range(len(bys)):
        by = bys[by_idx]
"""),
     ("""    scorefid.close()
    taskfid.close()
    del taskfid
    # wf_tmp.close()
""", """    # wf_tmp.close()
"""),
     ("""        permut = np.argsort(new_index)
""", """        permut = np.argsort(new_index, kind='mergesort')
"""),
     ("""    with open(result_file, 'w+') as fid:
        taskfid = h5py.File(task_file, 'r')
        aux = taskfid['regressors']
""", """    taskfid = h5py.File(task_file, 'r')
    with open(result_file, 'w') as fid:
        aux = taskfid['regressors']
"""))

edit('ABXpy/distances/distances.py',
     ("""    cpu_loads = np.zeros(n_cpu, dtype=np.int64)
    for i in order:
        idlest_cpu = np.argmin(cpu_loads)
        cpu[i] = idlest_cpu
        cpu_loads[idlest_cpu] = cpu_loads[idlest_cpu] + n_dist[i]
""", """    heap = [(0, c) for c in range(n_cpu)]
    for i in order:
        load, idlest_cpu = heapq.heappop(heap)
        cpu[i] = idlest_cpu
        heapq.heappush(heap, (load + n_dist[i], idlest_cpu))
"""),
     ("""import h5py
import numpy as np
""", """import contextlib
import heapq
import h5py
import numpy as np
"""),
     ("""        sta = 0
        sto = 0
        while n_pairs > 0:
            if n_pairs > max_block_size:
                amount = max_block_size
            else:
                amount = n_pairs
            n_pairs = n_pairs - amount
            sto = sto + amount
            by.append(dset)
            start.append(sta)
            stop.append(sto)
            n_dist.append(amount)
            sta = sta + amount
""", """        for sta in range(0, int(n_pairs), int(max(max_block_size, 1))):
            sto = min(sta + max_block_size, n_pairs)
            by.append(dset)
            start.append(sta)
            stop.append(sto)
            n_dist.append(sto - sta)
"""),
     ("""        if synchronize:
            distance_file_lock.acquire()
        try:
            store = pandas.HDFStore(pair_file, 'r')
            by_db = store['feat_dbs/' + by_name(by)]
            store.close()
            # load pairs to be computed
            # indexed relatively to the above dataframe
            with h5py.File(pair_file, 'r') as fh:
                attrs = fh['unique_pairs'].attrs[by]
                pair_list = fh['unique_pairs/data'][
                    attrs[1]+start:attrs[1]+stop, 0]
                base = attrs[0]
        finally:
            if synchronize:
                distance_file_lock.release()
""", """        with _locked(distance_file_lock):
            # load pairs to be computed
            # indexed relatively to the above dataframe
            with h5py.File(pair_file, 'r') as fh:
                attrs = fh['unique_pairs'].attrs[by]
                base = attrs[0]
                pair_list = fh['unique_pairs/data'][
                    attrs[1]+start:attrs[1]+stop, 0]
            with pandas.HDFStore(pair_file, 'r') as store:
                by_db = store.get('/feat_dbs/' + by_name(by))
"""),
     ("""        A = np.mod(pair_list, base)
        B = pair_list // base
""", """        B, A = np.divmod(pair_list, base)
"""),
     ("""        if synchronize:
            distance_file_lock.acquire()
        try:
            with h5py.File(distance_file, 'a') as fh:
                fh['distances/data'][attrs[1]+start:attrs[1]+stop, :] = dis
        finally:
            if synchronize:
                distance_file_lock.release()
""", """        with _locked(distance_file_lock):
            with h5py.File(distance_file, 'r+') as fh:
                fh['distances']['data'][
                    attrs[1]+start:attrs[1]+stop, 0] = dis[:, 0]
"""),
     ("""def run_distance_job(""", """@contextlib.contextmanager
def _locked(lock):
    if lock is None:
        yield
        return
    lock.acquire()
    try:
        yield
    finally:
        lock.release()


def run_distance_job("""),
     ("""    if distance_file_lock is None:
        synchronize = False
    else:
        synchronize = True
""", ""),
     ("""            pool = multiprocessing.Pool(n_cpu)
            args = [(job, distance_file, distance, feature_files, feature_groups,
                     splitted_features, i, normalized, distance_file_lock)
                    for i, job in enumerate(jobs)]
            pool.map(worker, args)
        finally:
            pool.close()
            pool.join()
""", """            args = [(job, distance_file, distance, feature_files, feature_groups,
                     splitted_features, i, normalized, distance_file_lock)
                    for i, job in enumerate(jobs)]
            pool = multiprocessing.Pool(processes=len(jobs))
            pool.starmap(run_distance_job, args)
        finally:
            pool.close()
            pool.join()
"""),
     ("""            t = np.where(np.logical_and(
                self.times[f] >= on,
                self.times[f] <= off))[0]
""", """            times = self.times[f]
            t = np.flatnonzero((on <= times) & (times <= off))
"""))

edit('ABXpy/sampling/sampler.py',
     ("""        expected_k = n * self.K / np.float(max(self.N, 1))
        if expected_k > 10 ** 5:
""", """        limit = 10 ** 5
        expected_k = n * self.K / np.float(max(self.N, 1))
        if expected_k > limit:
"""),
     ("""            i = 0
            while n > 0:
                amount = min(chunk_size, n)
                sample.append(self.simple_sample(amount) + i * chunk_size)
                n = n - amount
                i += 1
""", """            for first in range(0, n, chunk_size):
                amount = min(chunk_size, n - first)
                sample.append(first + self.simple_sample(amount))
"""),
     ("""            U = np.random.rand()
            V = np.random.rand()
""", """            U, V = np.random.random_sample(), np.random.random_sample()
"""),
     ("""            if k < 0 or k >= upper_bound:
                continue
            else:
                p_k = math.lgamma(k + 1) + math.lgamma(K_eff - k + 1) + \\
                    math.lgamma(n_eff - k + 1) + \\
                    math.lgamma(N - K_eff - n_eff + k + 1)
                d = p_mode - p_k
""", """            if 0 <= k < upper_bound:
                p_k = _log_weight(N, K_eff, n_eff, k)
                d = p_mode - p_k
"""),
     ("""        p_mode = (math.lgamma(mode + 1) + math.lgamma(K_eff - mode + 1) +
                  math.lgamma(n_eff - mode + 1) +
                  math.lgamma(N - K_eff - n_eff + mode + 1))
""", """        p_mode = _log_weight(N, K_eff, n_eff, mode)
"""),
     ("""def hypergeometric_sample(""", """def _log_weight(N, K, n, k):
    return sum(math.lgamma(v + 1) for v in (k, K - k, n - k, N - K - n + k))


def hypergeometric_sample("""),
     ("""    sample = np.zeros(shape=n, dtype=dtype)
    while m < n:
        u = np.random.rand()
        if (N - t) * u < n - m:
            sample[m] = t
            m = m + 1
        t = t + 1
    return sample
""", """    sample = np.empty(shape=n, dtype=dtype)
    for t in range(int(N)):
        if m == n:
            break
        if np.random.random_sample() * (N - t) < n - m:
            sample[m] = t
            m += 1
    return sample
"""),
     ("""    remaining = n
    sample = np.array([], dtype=dtype)
    while remaining > 0:
        new_sample = np.random.randint(0, int(N), int(remaining)).astype(dtype)
        # keeping only unique element:
        sample = np.union1d(sample, np.unique(new_sample))
        remaining = n - sample.shape[0]
    return sample
""", """    sample = np.empty(0, dtype=dtype)
    while len(sample) < n:
        new_sample = np.random.randint(int(N), size=int(n) - len(sample))
        # keeping only unique element:
        sample = np.unique(
            np.concatenate([sample, new_sample.astype(dtype)]))
    return sample
"""))

edit('ABXpy/task.py',
     ("""            iX = np.mod(indices, len(X))
            iB = np.mod(np.floor_divide(indices, len(X)), len(B))
            iA = np.floor_divide(indices, len(B) * len(X))
            triplets = np.column_stack((A[iA], B[iB], X[iX]))
""", """            iA, iB, iX = np.unravel_index(
                indices.astype(np.int64), (len(A), len(B), len(X)))
            triplets = np.stack((A[iA], B[iB], X[iX]), axis=1)
"""),
     ("""            B = np.array(
                list(set(self.by_dbs[by].index).difference(on_set)),
                dtype=self.types[by])
        else:
            # remove B with the same 'on' than A
            B = np.array(
                list(set(self.across_blocks[by].groups[across]).difference(A)),
                dtype=self.types[by])
""", """            candidates, excluded = self.by_dbs[by].index, on_set
        else:
            # remove B with the same 'on' than A
            candidates, excluded = self.across_blocks[by].groups[across], A
        B = np.array(sorted(set(candidates).difference(excluded)),
                     dtype=self.types[by])
"""),
     ("""            X = np.array(list(antiacross_set & on_set), dtype=self.types[by])
        else:
            X = np.array(list(on_set.difference(A)), dtype=self.types[by])
""", """            X = on_set & antiacross_set
        else:
            X = on_set.difference(A)
        X = np.array(sorted(X), dtype=self.types[by])
"""),
     ("""        for names, regs in zip(self.regressors.A_names,
                               self.regressors.A_regressors):
            for name, reg in zip(names, regs):
                regressors[name] = reg[iA]
                if self.filters.ABX:
                    regressors[name] = regressors[name][ABX_filter_ind]
                regressors[name] = regressors[name][thr_sort_permut]

        for names, regs in zip(self.regressors.B_names,
                               self.regressors.B_regressors):
            for name, reg in zip(names, regs):
                regressors[name] = reg[iB]
                if self.filters.ABX:
                    regressors[name] = regressors[name][ABX_filter_ind]
                regressors[name] = regressors[name][thr_sort_permut]

        for names, regs in zip(self.regressors.X_names,
                               self.regressors.X_regressors):
            for name, reg in zip(names, regs):
                regressors[name] = reg[iX]
                if self.filters.ABX:
                    regressors[name] = regressors[name][ABX_filter_ind]
                regressors[name] = regressors[name][thr_sort_permut]
""", """        r = self.regressors
        for ind, all_names, all_regs in (
                (iA, r.A_names, r.A_regressors),
                (iB, r.B_names, r.B_regressors),
                (iX, r.X_names, r.X_regressors)):
            if self.filters.ABX:
                ind = ind[ABX_filter_ind]
            ind = ind[thr_sort_permut]
            for names, regs in zip(all_names, all_regs):
                for name, reg in zip(names, regs):
                    regressors[name] = reg[ind]
"""),
     ("""                            n = triplets.shape[0]
                            ind = np.arange(n)
                            i1 = 2 * ind
                            i2 = 2 * ind + 1

                            pairs = np.empty(
                                shape=(2 * n, 1),
                                dtype=pair_key_type)
""", """                            n = triplets.shape[0]
                            pairs = np.empty(
                                shape=(2 * n, 1),
                                dtype=pair_key_type)
"""),
     ("""                            pairs[i1, 0] = triplets""",
      """                            pairs[0::2, 0] = triplets"""),
     ("""                            pairs[i2, 0] = triplets""",
      """                            pairs[1::2, 0] = triplets"""),
     ("""    new_permut = []
    i = 0
    for c in counts:
        if threshold and c > threshold:
            sampled_idx = sampler.sample_without_replacement(threshold, c)
            sampled_idx += i
            new_permut.append(permut[sampled_idx])
        else:
            new_permut.append(permut[i:i+c])
        i += c
    return np.concatenate(new_permut), unique_idx
""", """    new_permut = []
    for i, c in zip(unique_idx, counts):
        group = permut[i:i + c]
        if threshold and c > threshold:
            group = group[sampler.sample_without_replacement(threshold, c)]
        new_permut.append(group)
    return np.concatenate(new_permut), unique_idx
"""),
     ("""        self.stats['nb_blocks'] = sum(
            [bystats['nb_on_across_levels']
             for bystats in self.by_stats.values()])
""", """        self.stats['nb_blocks'] = 0
        for bystats in self.by_stats.values():
            self.stats['nb_blocks'] += bystats['nb_on_across_levels']
"""),
     ("""                        b = True
                        for i, col in enumerate(self.across):
                            b = b * (by_frame[col] != across_key[i])
""", """                        b = np.ones(len(by_frame), dtype=bool)
                        for col, value in zip(self.across, across_key):
                            b &= (by_frame[col] != value).values
"""))

edit('ABXpy/h5tools/h52np.py',
     ("""            if amount_in_buffer > needed:  # enough data in buffer
                next_buf_ix = self.buf_ix + needed
                amount_found = amount
            else:
                # not enough data in buffer (or just enough)
                next_buf_ix = self.buf_len
                amount_found = amount_found + amount_in_buffer
""", """            taken = min(needed, amount_in_buffer)
            next_buf_ix = self.buf_ix + taken
            amount_found += taken
"""),
     ("""        return bisect.bisect_right(self.buf[self.buf_ix:, :], x)
""", """        return int(np.searchsorted(
            self.buf[self.buf_ix:, 0], x, side='right'))
"""),
     ("""    # read and consume, refill automatically if the buffer becomes empty, if
    # there is not enough data left, just send less than what was asked
    def read(self, amount=None):
        return super(H5dataset2NPbuffer, self).read(amount)

""", ""))

edit('ABXpy/h5tools/np2h5.py',
     ("""            # fill buffer
            buffer_space = self.buf_len - self.buf_ix
            self.buf[self.buf_ix:] = data[:buffer_space, :]
            # dump buffer to file
            ix_start = self.dataset_ix
            ix_end = self.dataset_ix + self.buf_len
            self.dataset[ix_start:ix_end, :] = self.buf
            self.dataset_ix = ix_end
            # reset variables for next iteration
            self.buf_ix = 0
            data = data[buffer_space:, :]
            target_ix = target_ix - self.buf_len
""", """            # fill buffer
            buffer_space = self.buf_len - self.buf_ix
            head, data = data[:buffer_space, :], data[buffer_space:, :]
            self.buf[self.buf_ix:] = head
            self._dump(self.buf_len)
            target_ix -= self.buf_len
"""),
     ("""    def flush(self):
        assert self.parent.file_open
        if self.buf_ix > 0:
            ix_start = self.dataset_ix
            ix_end = self.dataset_ix + self.buf_ix
            if not(self.fixed_size) and ix_end > self.n_rows:
                self.dataset.resize((ix_end, self.n_columns))
            self.dataset[ix_start:ix_end, :] = self.buf[:self.buf_ix]
            self.dataset_ix = ix_end
            self.buf_ix = 0
""", """    def _dump(self, n):
        ix_end = self.dataset_ix + n
        self.dataset[self.dataset_ix:ix_end, :] = self.buf[:n]
        self.dataset_ix = ix_end
        self.buf_ix = 0

    def flush(self):
        assert self.parent.file_open
        if self.buf_ix > 0:
            ix_end = self.dataset_ix + self.buf_ix
            if not(self.fixed_size) and ix_end > self.n_rows:
                self.dataset.resize((ix_end, self.n_columns))
            self._dump(self.buf_ix)
"""))

edit('ABXpy/h5tools/h5_handler.py',
     ("""                    while row <= self.n_row - buf_rows:
                        self.extract_chunk(row, row + buf_rows, n_chunks)
                        n_chunks = n_chunks + 1
                        row = row + buf_rows

                    if row < self.n_row:
                        self.extract_chunk(row, self.n_row, n_chunks)
                        n_chunks = n_chunks + 1
""", """                    for row in range(0, self.n_row, buf_rows):
                        self.extract_chunk(
                            row, min(row + buf_rows, self.n_row), n_chunks)
                        n_chunks += 1
"""),
     ("""        order = np.argsort(key)

""", """        order = np.argsort(key, kind='stable')

"""))

edit('ABXpy/database/database.py',
     ("""    l = []
    for i, c in enumerate(columns):
        if c[0] == "#":
            l.append(i)
            columns[i] = c[1:]
    db.columns = pandas.Index(columns)
""", """    l = [i for i, c in enumerate(columns) if c.startswith('#')]
    db.columns = pandas.Index(
        [c[1:] if i in l else c for i, c in enumerate(columns)])
"""),
     ("""    nanrows = numpy.any(pandas.isnull(db), 1)
    if any(nanrows):
        dropped = db[nanrows]
        dropped.to_csv(basename + '-removed' + ext)
        db = db[~ nanrows]
    feat_db = feat_db[~ nanrows]
""", """    complete = ~numpy.any(pandas.isnull(db), axis=1)
    if not complete.all():
        db[~complete].to_csv(basename + '-removed' + ext)
    db, feat_db = db[complete], feat_db[complete]
"""))

edit('ABXpy/misc/any2h5features.py',
     ("""    features = []
    times = []
    internal_files = []
    i = 0
    for f in files:
        if i == batch_size:
            h5features.write(h5_filename, h5_groupname, internal_files, times,
                             features)
            features = []
            times = []
            internal_files = []
            i = 0
        i = i+1
        data = load(os.path.join(path, f))
        features.append(data['features'])
        times.append(data['time'])
        internal_files.append(os.path.splitext(f)[0])
    if features:
        h5features.write(h5_filename, h5_groupname, internal_files, times,
                         features)
""", """    files = list(files)
    for first in range(0, len(files), batch_size):
        batch = files[first:first + batch_size]
        data = [load(os.path.join(path, f)) for f in batch]
        h5features.write(
            h5_filename, h5_groupname,
            [os.path.splitext(f)[0] for f in batch],
            [d['time'] for d in data], [d['features'] for d in data])
"""))

edit('ABXpy/verify.py',
     ("""        for line in f:
            if not line.strip():
                continue
            source = str.split(line)[0]
            assert source in files, ("The file {} cannot "
                                     "be found in the feature file"
                                     .format(source))
""", """        sources = [line.split()[0] for line in f if line.split()]
    for source in sources:
        if source not in files:
            raise AssertionError("The file {} cannot be found in the "
                                 "feature file".format(source))
"""))

edit('ABXpy/distance.py',
     ("""def default_distance(x, y, normalized):
    \"\"\" Dynamic time warping cosine distance

    The "feature" dimension is along the columns and the "time" dimension
    along the lines of arrays x and y
    \"\"\"
    if x.shape[0] > 0 and y.shape[0] > 0:
        # x and y are not empty
        d = dtw.dtw(x, y, cosine.cosine_distance,
                    normalized=normalized)
    elif x.shape[0] == y.shape[0]:
        # both x and y are empty
        d = 0
    else:
        # x or y is empty
        d = np.inf
    return d
""", """def _warped(x, y, metric, normalized):
    if len(x) == 0 or len(y) == 0:
        return 0 if len(x) == len(y) else np.inf
    return dtw.dtw(x, y, metric, normalized=normalized)


def default_distance(x, y, normalized):
    \"\"\" Dynamic time warping cosine distance

    The "feature" dimension is along the columns and the "time" dimension
    along the lines of arrays x and y
    \"\"\"
    return _warped(x, y, cosine.cosine_distance, normalized)
"""))

edit('ABXpy/distances/metrics/cosine.py',
     ("""    x2 = np.sqrt(np.sum(x ** 2, axis=1))
    y2 = np.sqrt(np.sum(y ** 2, axis=1))
""", """    x2, y2 = [np.sqrt(np.einsum('ij,ij->i', v, v)) for v in (x, y)]
"""),
     ("""    for i in np.where(ix)[0]:
        d[i, iy] = 0.
""", """    d[np.ix_(ix, iy)] = 0.
"""))

edit('ABXpy/distances/metrics/utw.py',
     ("""    if x.shape[0] > y.shape[0]:
        z = x, y
        y, x = z
    n1 = x.shape[0]
    n2 = y.shape[0]
""", """    x, y = (y, x) if len(x) > len(y) else (x, y)
    n1, n2 = len(x), len(y)
"""))

edit('ABXpy/distances/metrics/kullback_leibler.py',
     ("""    xx = np.tile(x, (y.shape[0], 1, 1)).transpose((1, 0, 2))
    yy = np.tile(y, (x.shape[0], 1, 1))
    m = (xx + yy) / 2
""", """    xx, yy = np.broadcast_arrays(x[:, None, :], y[None, :, :])
    m = 0.5 * (xx + yy)
"""),
     ("""    xx = np.tile(x, (y.shape[0], 1, 1)).transpose((1, 0, 2))
    yy = np.tile(y, (x.shape[0], 1, 1))
    xx_yy = xx - yy
    res = np.sqrt(np.sum(xx_yy ** 2, axis=-1))
    return np.float64((1. / np.sqrt(2)) * res).reshape(res.shape)
""", """    xx_yy = x[:, None, :] - y[None, :, :]
    res = np.sqrt(np.sum(xx_yy * xx_yy, axis=-1) / 2.)
    return np.float64(res).reshape(res.shape)
"""))

edit('ABXpy/misc/tinytree.py',
     ("""        n = self.children[:]
        for i in n:
            i.remove()
        return n
""", """        removed = []
        while self.children:
            first = self.children[0]
            first.remove()
            removed.append(first)
        return removed
"""),
     ("""        for i in self.pathToRoot():
            pass
        return i
""", """        node = self
        while node.parent is not None:
            node = node.parent
        return node
"""),
     ("""        lst = [id(i) for i in self.parent.children]
        return lst.index(id(self))
""", """        for position, child in enumerate(self.parent.children):
            if child is self:
                return position
        raise ValueError('not in its parent')
"""),
     ("""        return len(list(self.preOrder()))
""", """        return 1 + sum(child.count() for child in self.children)
"""),
     ("""        l = list(self.pathToRoot())
        for i in reversed(l):
            yield i
""", """        if self.parent is not None:
            for node in self.parent.pathFromRoot():
                yield node
        yield self
"""))

edit('ABXpy/misc/items.py',
     ("""    res = [[fun(i, j) for j in range(dim_j)]
           for i in range(dim_i)]
    np.savetxt(name, res, delimiter=' ', fmt='%s')


def generate_named_testitems(""", """    with open(name, 'w') as out:
        for i in range(dim_i):
            out.write(' '.join(str(fun(i, j)) for j in range(dim_j)))
            out.write('\\n')


def generate_named_testitems("""),
     ("""    features = []
    times = []
    files = []
    for i in range(n_files):
        n_frames = np.random.randint(max_frames) + 1
        features.append(np.random.randn(n_frames, n_feat))
        times.append(np.linspace(0, 1, n_frames))
        files.append('s%d' % i)
""", """    files = ['s%d' % i for i in range(n_files)]
    lengths = 1 + np.random.randint(max_frames, size=n_files)
    features = [np.random.randn(length, n_feat) for length in lengths]
    times = [np.linspace(0, 1, length) for length in lengths]
"""))

edit('ABXpy/sideop/filter_manager.py',
     ("""    keep = True
    for result in generator:
        if not(result):
            keep = False
            break
    return keep
""", """    return all(bool(result) for result in generator)
"""),
     ("""        still_up = np.where(result)[0]
        kept = kept[still_up]
        for var in context:
            # keep testing only the case that are still possibly True
            context[var] = [context[var][e] for e in still_up]
            # FIXME wouldn't using only numpy arrays be more performant ?
""", """        still_up = [i for i, r in enumerate(result) if r]
        kept = kept[still_up]
        for var, values in list(context.items()):
            context[var] = [values[e] for e in still_up]
"""))

edit('ABXpy/sideop/side_operations_manager.py',
     ("""        for i, cols in enumerate(self.extended_cols_by_column):
            if column in cols:
                suffix = self.extensions[i]
                radical = column[:len(column) - len(self.extensions[i])]
                break
        return radical, suffix
""", """        for suffix, cols in zip(self.extensions,
                                self.extended_cols_by_column):
            if column in cols:
                return column[:len(column) - len(suffix)], suffix
        raise ValueError(column)
"""),
     ("""        for radical, extension in field[stage]:
            # FIXME might be faster to index once for all the columns?
            context[radical + extension] = list(db[radical][indices])
        return context
""", """        selected = {}
        for radical, extension in field[stage]:
            if radical not in selected:
                selected[radical] = db[radical].loc[indices]
            context[radical + extension] = list(selected[radical])
        return context
"""))

edit('ABXpy/sideop/regressor_manager.py',
     ("""        regressors = regressors + default_regressors
""", """        regressors = list(regressors)
        regressors.extend(default_regressors)
"""))

edit('ABXpy/dbfun/dbfun_column.py',
     ("""            index = list(set(db[column]))
            index.sort()
            self.index = index
""", """            self.index = sorted(set(db[column]))
"""),
     ("""            return [np.array([self.index.index(e)
                    for e in context[self.input_names[0]]])]
""", """            rank = dict((e, i) for i, e in enumerate(self.index))
            return [np.array([rank[e]
                              for e in context[self.input_names[0]]])]
"""))

edit('ABXpy/misc/type_fitting.py',
     ("""    if n < 2 ** (8 - m):
        return types[0]
    elif n < 2 ** (16 - m):
        return types[1]
    elif n < 2 ** (32 - m):
        return types[2]
    elif n < 2 ** (64 - m):
        return types[3]
    else:
        raise ValueError(
            'Values are too big to be represented by 64 bits integers!')
""", """    for bits, t in zip((8, 16, 32, 64), types):
        if n >> (bits - m) <= 0:
            return t
    raise ValueError(
        'Values are too big to be represented by 64 bits integers!')
"""))

edit('ABXpy/distances/example_distances.py',
     ("""    if x.shape[0] > 0 and y.shape[0] > 0:
        # x and y are not empty
        d = dtw.dtw(x, y, cosine.cosine_distance, normalized=normalized)
    elif x.shape[0] == y.shape[0]:
        # both x and y are empty
        d = 0
    else:
        # x or y is empty
        d = np.inf
    return d
""", """    if not len(x) or not len(y):
        return 0 if len(x) == len(y) else float('inf')
    return dtw.dtw(x, y, cosine.cosine_distance, normalized=normalized)
"""))

edit('ABXpy/h5tools/h5io.py',
     ("""        data = dict([(dset, [self.indexes[self.indexed_datasets_indexes[self.indexed_datasets.index(dset)]].index(
            e) for e in d]) if dset in self.indexed_datasets else (dset, d) for dset, d in iteritems(data)])
        return data
""", """        index_of = dict(zip(self.indexed_datasets,
                            self.indexed_datasets_indexes
                            if self.indexed_datasets else []))
        out = {}
        for dset, d in iteritems(data):
            if dset in index_of:
                levels = self.indexes[index_of[dset]]
                d = [levels.index(e) for e in d]
            out[dset] = d
        return out
"""),
     ("""        keys = np.sum(
            self.key_weights[dset] * np.array(values, dtype=d_type), axis=1)
        keys = np.reshape(keys, (keys.shape[0], 1))
        return keys
""", """        values = np.array(values, dtype=d_type)
        keys = np.zeros((len(values), 1), dtype=np.uint64)
        for column, weight in enumerate(self.key_weights[dset]):
            keys[:, 0] += np.uint64(weight) * np.uint64(values[:, column])
        return keys
"""))


def main():
    work = sys.argv[1]
    names = sys.argv[2:] or ['C%02d' % i for i in range(1, 28)]
    if not os.path.exists(work):
        shutil.copytree('/repo', work, symlinks=True)
    for path, pairs in EDITS:
        with open(os.path.join('/repo', path)) as f:
            s = f.read()
        for old, new in pairs:
            if s.count(old) != 1:
                sys.exit('%s: %d of %r' % (path, s.count(old), old))
            s = s.replace(old, new)
        with open(os.path.join(work, path), 'w') as f:
            f.write(s)
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    r = subprocess.call(
        ['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider',
         '--no-cov'],
        cwd=work, env=dict(os.environ, PYTHONPATH=work,
                           PATH='/opt/venv/bin:' + os.environ['PATH']))
    if r:
        sys.exit('tests: %d' % r)
    for c in names:
        r = subprocess.run(
            ['/opt/venv/bin/python', os.path.join(here, 'check.py'), c],
            env=dict(os.environ, ABX_VERIF_REPO=work),
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        print(c, r.returncode,
              r.stdout.decode()[-1500:] if r.returncode else '', flush=True)


main()
