From e392ca54c8989df447be865feea410269d3756a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:07 +0000
Subject: [PATCH 01/60] fix: reorder A regressors like the triplets when there
 is no ABX filter

---
 ABXpy/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index 2760f7a..d8ee81c 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -1139,7 +1139,7 @@ class Task(object):
                 regressors[name] = reg[iA]
                 if self.filters.ABX:
                     regressors[name] = regressors[name][ABX_filter_ind]
-                    regressors[name] = regressors[name][thr_sort_permut]
+                regressors[name] = regressors[name][thr_sort_permut]
 
         for names, regs in zip(self.regressors.B_names,
                                self.regressors.B_regressors):
-- 
2.43.0


From 850761543e8f383a5eb375a289942e13a530180a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:07 +0000
Subject: [PATCH 02/60] fix: do not sample triplet positions in the regressor
 index type

The type fits the number of regressor combinations, not the number of
triplets: positions above its range wrapped around.
---
 ABXpy/task.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index d8ee81c..f6bcaa4 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -1195,8 +1195,7 @@ def sort_and_threshold(permut, new_index, ind_type,
     i = 0
     for c in counts:
         if threshold and c > threshold:
-            sampled_idx = sampler.sample_without_replacement(
-                threshold, c, dtype=ind_type)
+            sampled_idx = sampler.sample_without_replacement(threshold, c)
             sampled_idx += i
             new_permut.append(permut[sampled_idx])
         else:
-- 
2.43.0


From ed7136e3024a377f96a703e5b52035d031e8943a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:07 +0000
Subject: [PATCH 03/60] fix: store the triplets in a type large enough for the
 item indices

---
 ABXpy/task.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index f6bcaa4..f6ecc10 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -741,7 +741,10 @@ class Task(object):
                 dataset='data',
                 n_rows=self.n_triplets,
                 n_columns=3,
-                item_type=fit_integer_type(self.total_n_triplets),
+                item_type=fit_integer_type(max(
+                    [self.total_n_triplets] +
+                    [np.max(db.index.values)
+                     for db in itervalues(self.by_dbs)])),
                 fixed_size=False)
 
             out_block_index = fh.add_dataset(
-- 
2.43.0


From 5fb5cf9521e9bc302fe2ca4a34e43bb21fc826d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:07 +0000
Subject: [PATCH 04/60] fix: look up block values by label, generic filters
 leave gaps in the index

---
 ABXpy/task.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index f6ecc10..dbe5218 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -412,7 +412,7 @@ class Task(object):
                     display.display()
 
                 block = self.on_across_blocks[by].groups[block_key]
-                on_across_by_values = dict(db.iloc[block[0]])
+                on_across_by_values = dict(db.loc[block[0]])
 
                 # retrieve the on and across keys (as they are stored
                 # in the panda object)
@@ -821,7 +821,7 @@ class Task(object):
 
             # allow to get on, across, by values as well as values of
             # other variables that are determined by these
-            on_across_by_values = dict(db.iloc[block[0]])
+            on_across_by_values = dict(db.loc[block[0]])
             if self.filters.on_across_by_filter(on_across_by_values):
                 # instantiate on_across_by regressors here
                 self.regressors.set_on_across_by_regressors(
-- 
2.43.0


From 9f8c447871af570ae04165b7837f9b438136a82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:07 +0000
Subject: [PATCH 05/60] fix: compute_nb_levels used the removed DataFrame.ix
 accessor

---
 ABXpy/task.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index dbe5218..1388c57 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -1020,7 +1020,7 @@ class Task(object):
             for block_key, n_block in (
                     iteritems(self.by_stats[by]['on_across_levels'])):
                 block = self.on_across_blocks[by].groups[block_key]
-                on_across_by_values = dict(db.ix[block[0]])
+                on_across_by_values = dict(db.loc[block[0]])
                 on, across = on_across_from_key(block_key)
 
                 if self.filters.on_across_by_filter(on_across_by_values):
@@ -1058,8 +1058,8 @@ class Task(object):
                         else:
                             grouping = self.on + self.across
 
-                        n_level_B = len(db.iloc[B].groupby(grouping).groups)
-                        n_level_X = len(db.iloc[X].groupby(grouping).groups)
+                        n_level_B = len(db.loc[B].groupby(grouping).groups)
+                        n_level_X = len(db.loc[X].groupby(grouping).groups)
                         n = n + n_level_B * n_level_X
 
             self.by_stats[by]['nb_levels'] = n
-- 
2.43.0


From ca1a62307ecfe53a3a26e78b68ed87e8913ff5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:07 +0000
Subject: [PATCH 06/60] fix: ignore the by blocks emptied by a generic filter

---
 ABXpy/task.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index 1388c57..82b9e5b 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -315,6 +315,8 @@ class Task(object):
 
                 # apply generic filters
                 by_frame = self.filters.generic_filter(by_values, by_frame)
+                if by_frame.empty:
+                    continue
 
                 self.by_dbs[by_key] = by_frame
                 self.feat_dbs[by_key] = by_feat_db
-- 
2.43.0


From 03f2f933b9b7530889c78e0cfd79c14af0bfc267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:07 +0000
Subject: [PATCH 07/60] fix: a column used as a filter was evaluated as a list
 of one column

---
 ABXpy/dbfun/dbfun_column.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/dbfun/dbfun_column.py b/ABXpy/dbfun/dbfun_column.py
index 078b6e3..98da15a 100644
--- a/ABXpy/dbfun/dbfun_column.py
+++ b/ABXpy/dbfun/dbfun_column.py
@@ -36,4 +36,4 @@ class DBfun_Column(dbfun.DBfun):
             return [np.array([self.index.index(e)
                     for e in context[self.input_names[0]]])]
         else:
-            return [context[self.input_names[0]]]
+            return context[self.input_names[0]]
-- 
2.43.0


From e3c63b09f9bf02130d6ff95474bed93ccb83afdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:07 +0000
Subject: [PATCH 08/60] fix: loading an auxiliary file failed on a missing
 argument

---
 ABXpy/database/database.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/database/database.py b/ABXpy/database/database.py
index d18e232..584f629 100644
--- a/ABXpy/database/database.py
+++ b/ABXpy/database/database.py
@@ -87,7 +87,7 @@ def load_aux_dbs(basename, db, cols, mainfile):
                         auxfile, auxdb.columns[0], col))
                 # call get_aux_dbs on child columns
                 auxdb, auxforest = load_aux_dbs(
-                    basename, auxdb, auxdb.columns[1:])
+                    basename, auxdb, auxdb.columns[1:], mainfile)
                 # add to forest
                 forest[i].addChildrenFromList(auxforest)
                 # merging the databases
-- 
2.43.0


From ff4a8713206721864483999195c730d5b971b7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:07 +0000
Subject: [PATCH 09/60] fix: keep features aligned with items when incomplete
 rows are dropped

---
 ABXpy/database/database.py | 2 +-
 ABXpy/task.py              | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ABXpy/database/database.py b/ABXpy/database/database.py
index 584f629..6b94778 100644
--- a/ABXpy/database/database.py
+++ b/ABXpy/database/database.py
@@ -11,7 +11,7 @@ import ABXpy.misc.tinytree as tinytree
 def read_table(filename):
     db = pandas.read_csv(filename, sep='[ \t]+', engine='python')
     # removes row with all null values (None or NaN...)
-    db = db.dropna(how='all')
+    db = db.dropna(how='all').reset_index(drop=True)
     return db
 
 
diff --git a/ABXpy/task.py b/ABXpy/task.py
index 82b9e5b..2be59ee 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -302,7 +302,7 @@ class Task(object):
             # apply 'by' filters
             if self.filters.by_filter(by_values):
                 # get analogous feat_db
-                by_feat_db = feat_db.iloc[by_frame.index]
+                by_feat_db = feat_db.loc[by_frame.index]
 
                 # drop indexes
                 by_frame = by_frame.reset_index(drop=True)
-- 
2.43.0


From d0543e2b3149117afb6acddf2c9d7478f77b86b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:07 +0000
Subject: [PATCH 10/60] fix: distance job boundaries must be integers

---
 ABXpy/distances/distances.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/distances/distances.py b/ABXpy/distances/distances.py
index ea3ae86..45a1f51 100644
--- a/ABXpy/distances/distances.py
+++ b/ABXpy/distances/distances.py
@@ -82,7 +82,7 @@ def create_distance_jobs(pair_file, distance_file, n_cpu, buffer_max_size=100):
     max_block_size = min(
         np.int64(np.ceil(total_n_pairs / np.float(n_cpu))),
         # buffer_max_size * 1000000 / np.dtype(by_n_pairs).itemsize)
-        buffer_max_size * 1000000 / 8)
+        int(buffer_max_size * 1000000 // 8))
     by = []
     start = []
     stop = []
-- 
2.43.0


From bf1ceb9a10e90f320e26340573c28c5ed75b38b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:30 +0000
Subject: [PATCH 11/60] fix: mark the distance file as done with several cpus
 too

---
 ABXpy/distances/distances.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ABXpy/distances/distances.py b/ABXpy/distances/distances.py
index 45a1f51..79c2c29 100644
--- a/ABXpy/distances/distances.py
+++ b/ABXpy/distances/distances.py
@@ -324,8 +324,9 @@ def compute_distances(feature_file, feature_group, pair_file, distance_file,
         run_distance_job(
             jobs[0], distance_file, distance,
             feature_files, feature_groups, splitted_features, 1, normalized)
-        with h5py.File(distance_file, 'a') as fh:
-            fh.attrs.modify('done', True)
+
+    with h5py.File(distance_file, 'a') as fh:
+        fh.attrs.modify('done', True)
 
 
 # hack, external function for visibility reasons
-- 
2.43.0


From 8b289d7b93f547ea0c0e429760803bb6507a9ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:30 +0000
Subject: [PATCH 12/60] fix: do not reset the done flag of a file which already
 has distances

---
 ABXpy/distances/distances.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ABXpy/distances/distances.py b/ABXpy/distances/distances.py
index 79c2c29..2730f7d 100644
--- a/ABXpy/distances/distances.py
+++ b/ABXpy/distances/distances.py
@@ -61,8 +61,10 @@ def create_distance_jobs(pair_file, distance_file, n_cpu, buffer_max_size=100):
             total_n_pairs = fh['unique_pairs/data'].shape[0]
     # initializing output datasets
     with h5py.File(distance_file, 'a') as fh:
-        fh.attrs.create('done', False)
+        # fails if the file already contains distances, which must then
+        # be left untouched
         g = fh.create_group('distances')
+        fh.attrs.create('done', False)
         g.create_dataset('data', shape=(total_n_pairs, 1), dtype=np.float)
     """
     #### Load balancing ####
-- 
2.43.0


From 04f5bc3f5ca0f7ed9c7ef8763041961cae3d5874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:30 +0000
Subject: [PATCH 13/60] fix: release the distance file lock when a job fails

---
 ABXpy/distances/distances.py | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/ABXpy/distances/distances.py b/ABXpy/distances/distances.py
index 2730f7d..027f65c 100644
--- a/ABXpy/distances/distances.py
+++ b/ABXpy/distances/distances.py
@@ -203,17 +203,20 @@ def run_distance_job(job_description, distance_file, distance,
         # load pandas dataframe containing info for loading the features
         if synchronize:
             distance_file_lock.acquire()
-        store = pandas.HDFStore(pair_file)
-        by_db = store['feat_dbs/' + by]
-        store.close()
-        # load pairs to be computed
-        # indexed relatively to the above dataframe
-        with h5py.File(pair_file, 'r') as fh:
-            attrs = fh['unique_pairs'].attrs[by]
-            pair_list = fh['unique_pairs/data'][attrs[1]+start:attrs[1]+stop, 0]
-            base = attrs[0]
-        if synchronize:
-            distance_file_lock.release()
+        try:
+            store = pandas.HDFStore(pair_file)
+            by_db = store['feat_dbs/' + by]
+            store.close()
+            # load pairs to be computed
+            # indexed relatively to the above dataframe
+            with h5py.File(pair_file, 'r') as fh:
+                attrs = fh['unique_pairs'].attrs[by]
+                pair_list = fh['unique_pairs/data'][
+                    attrs[1]+start:attrs[1]+stop, 0]
+                base = attrs[0]
+        finally:
+            if synchronize:
+                distance_file_lock.release()
 
         A = np.mod(pair_list, base)
         B = pair_list // base
@@ -271,10 +274,12 @@ def run_distance_job(job_description, distance_file, distance,
                 raise
         if synchronize:
             distance_file_lock.acquire()
-        with h5py.File(distance_file, 'a') as fh:
-            fh['distances/data'][attrs[1]+start:attrs[1]+stop, :] = dis
-        if synchronize:
-            distance_file_lock.release()
+        try:
+            with h5py.File(distance_file, 'a') as fh:
+                fh['distances/data'][attrs[1]+start:attrs[1]+stop, :] = dis
+        finally:
+            if synchronize:
+                distance_file_lock.release()
 
 
 # mem in megabytes
-- 
2.43.0


From 59383f702b3dd6d83d90d186d87884de4120b247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:30 +0000
Subject: [PATCH 14/60] fix: frame metrics must not modify the features they
 are given

---
 ABXpy/distances/metrics/cosine.py           |  4 ++--
 ABXpy/distances/metrics/kullback_leibler.py | 16 ++++++++--------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/ABXpy/distances/metrics/cosine.py b/ABXpy/distances/metrics/cosine.py
index e6191bd..91329f9 100644
--- a/ABXpy/distances/metrics/cosine.py
+++ b/ABXpy/distances/metrics/cosine.py
@@ -36,6 +36,6 @@ def cosine_distance(x, y):
 
 
 def normalize_cosine_distance(x, y):
-    x /= x.sum(1).reshape(x.shape[0], 1)
-    y /= y.sum(1).reshape(y.shape[0], 1)
+    x = x / x.sum(1).reshape(x.shape[0], 1)
+    y = y / y.sum(1).reshape(y.shape[0], 1)
     return cosine_distance(x, y)
diff --git a/ABXpy/distances/metrics/kullback_leibler.py b/ABXpy/distances/metrics/kullback_leibler.py
index cea21c1..d9a41b0 100644
--- a/ABXpy/distances/metrics/kullback_leibler.py
+++ b/ABXpy/distances/metrics/kullback_leibler.py
@@ -38,14 +38,14 @@ def kl_divergence(x, y, thresholded=True, symmetrized=True, normalize=True):
     if thresholded:
         normalize = True
     if normalize:
-        x /= x.sum(1).reshape(x.shape[0], 1)
-        y /= y.sum(1).reshape(y.shape[0], 1)
+        x = x / x.sum(1).reshape(x.shape[0], 1)
+        y = y / y.sum(1).reshape(y.shape[0], 1)
     if thresholded:
         eps = np.finfo(x.dtype).eps
         x = x + eps
         y = y + eps
-        x /= x.sum(1).reshape(x.shape[0], 1)
-        y /= y.sum(1).reshape(y.shape[0], 1)
+        x = x / x.sum(1).reshape(x.shape[0], 1)
+        y = y / y.sum(1).reshape(y.shape[0], 1)
     res = __kl_divergence(x, y)
 
     if symmetrized:
@@ -67,8 +67,8 @@ def js_divergence(x, y, normalize=True):
     assert (np.all(x.sum(1) != 0.) and np.all(y.sum(1) != 0.))
 
     if normalize:
-        x /= x.sum(1).reshape(x.shape[0], 1)
-        y /= y.sum(1).reshape(y.shape[0], 1)
+        x = x / x.sum(1).reshape(x.shape[0], 1)
+        y = y / y.sum(1).reshape(y.shape[0], 1)
     xx = np.tile(x, (y.shape[0], 1, 1)).transpose((1, 0, 2))
     yy = np.tile(y, (x.shape[0], 1, 1))
     m = (xx + yy) / 2
@@ -99,8 +99,8 @@ def hellinger_distance(x, y):
     assert (x.dtype == np.float64 and y.dtype == np.float64) or (
         x.dtype == np.float32 and y.dtype == np.float32)
     assert (np.all(x.sum(1) != 0.) and np.all(y.sum(1) != 0.))
-    x /= x.sum(1).reshape(x.shape[0], 1)
-    y /= y.sum(1).reshape(y.shape[0], 1)
+    x = x / x.sum(1).reshape(x.shape[0], 1)
+    y = y / y.sum(1).reshape(y.shape[0], 1)
     x = np.sqrt(x)
     y = np.sqrt(y)
     # x (120, 40), y (100, 40), H(x,y) (120, 100)
-- 
2.43.0


From d003723eebbc74765ef4682060e0cd9d8d00771e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:30 +0000
Subject: [PATCH 15/60] fix: rounding errors in the coordinates of uniform time
 warping

---
 ABXpy/distances/metrics/utw.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/distances/metrics/utw.py b/ABXpy/distances/metrics/utw.py
index 4cdbe1f..ddc5d5e 100644
--- a/ABXpy/distances/metrics/utw.py
+++ b/ABXpy/distances/metrics/utw.py
@@ -38,7 +38,7 @@ def utw(x, y, div):
 def distance_coordinates(n1, n2):
     assert(n1 <= n2)
     l1 = np.arange(n2)
-    l2 = n1/np.float(n2)*(np.arange(n2)+0.5)
+    l2 = n1 * (np.arange(n2) + 0.5) / n2
     l3 = np.floor(l2).astype(np.int)
     integers = np.where(l2 == l3)[0]
     non_integers = np.where(l2 != l3)[0]
-- 
2.43.0


From 81abbca2858d96133cf92e2f40e1b764743072c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:30 +0000
Subject: [PATCH 16/60] fix: verify could not read the h5features file

---
 ABXpy/verify.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ABXpy/verify.py b/ABXpy/verify.py
index fbaf428..bfbb340 100644
--- a/ABXpy/verify.py
+++ b/ABXpy/verify.py
@@ -42,10 +42,17 @@ def check(item_file, features_file, verbose=0):
         assert cols[3][0] == '#', 'The fourth column must start with #'
         if verbose:
             print("Opening features file")
-        h5f = h5py.File(features_file)
-        files = h5f['features']['files'][:]
+        with h5py.File(features_file, 'r') as h5f:
+            group = h5f['features']
+            # 'files' in the old versions of h5features
+            files = group['items' if 'items' in group else 'files'][...]
+        files = set(
+            name.decode('utf8') if isinstance(name, bytes) else name
+            for name in files)
         for line in f:
-            source = str.split(line, ' ')[0]
+            if not line.strip():
+                continue
+            source = str.split(line)[0]
             assert source in files, ("The file {} cannot "
                                      "be found in the feature file"
                                      .format(source))
-- 
2.43.0


From be22347eb36fc24f5ca0618f7d8d23104e1a658b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:19 +0000
Subject: [PATCH 17/60] fix: give the example distances the normalized argument
 of the dtw

---
 ABXpy/distances/example_distances.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ABXpy/distances/example_distances.py b/ABXpy/distances/example_distances.py
index 3c39923..6139b03 100644
--- a/ABXpy/distances/example_distances.py
+++ b/ABXpy/distances/example_distances.py
@@ -4,7 +4,7 @@ import ABXpy.distances.metrics.kullback_leibler as kullback_leibler
 import numpy as np
 
 
-def dtw_cosine(x, y):
+def dtw_cosine(x, y, normalized=True):
     """Dynamic time warping cosine distance
 
     The "feature" dimension is along the columns and the "time"
@@ -13,7 +13,7 @@ def dtw_cosine(x, y):
     """
     if x.shape[0] > 0 and y.shape[0] > 0:
         # x and y are not empty
-        d = dtw.dtw(x, y, cosine.cosine_distance)
+        d = dtw.dtw(x, y, cosine.cosine_distance, normalized=normalized)
     elif x.shape[0] == y.shape[0]:
         # both x and y are empty
         d = 0
@@ -23,10 +23,11 @@ def dtw_cosine(x, y):
     return d
 
 
-def dtw_kl_divergence(x, y):
+def dtw_kl_divergence(x, y, normalized=True):
     """Kullback-Leibler divergence"""
     if x.shape[0] > 0 and y.shape[0] > 0:
-        d = dtw.dtw(x, y, kullback_leibler.kl_divergence)
+        d = dtw.dtw(
+            x, y, kullback_leibler.kl_divergence, normalized=normalized)
     elif x.shape[0] == y.shape[0]:
         d = 0
     else:
-- 
2.43.0


From 4c31a9a61761c3769ce64ec4d3a98e84cc0d680d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:19 +0000
Subject: [PATCH 18/60] fix: the optional score file argument can be omitted

---
 ABXpy/score.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ABXpy/score.py b/ABXpy/score.py
index a228e4f..cf6d783 100755
--- a/ABXpy/score.py
+++ b/ABXpy/score.py
@@ -63,7 +63,8 @@ def score(task_file, distance_file, score_file=None, score_group='scores'):
     """
     if score_file is None:
         (basename_task, _) = os.path.splitext(task_file)
-        (basename_dist, _) = os.path.splitext(distance_file)
+        (basename_dist, _) = os.path.splitext(
+            os.path.basename(distance_file))
         score_file = basename_task + '_' + basename_dist + '.score'
     # file verification:
     assert os.path.exists(task_file), 'Cannot find task file ' + task_file
@@ -137,7 +138,7 @@ def main():
         file, where the results of the computation will be put')
     args = parser.parse_args()
 
-    if os.path.exists(args.score):
+    if args.score and os.path.exists(args.score):
         print("Warning: overwriting score file {}".format(args.score))
         os.remove(args.score)
     score(args.task, args.distance, args.score)
-- 
2.43.0


From caf709288007e925fc57b3f650fe38c36b9c8419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:19 +0000
Subject: [PATCH 19/60] fix: decode the collapsed labels with integer
 arithmetic

---
 ABXpy/analyze.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ABXpy/analyze.py b/ABXpy/analyze.py
index 569325c..e8299b6 100644
--- a/ABXpy/analyze.py
+++ b/ABXpy/analyze.py
@@ -40,12 +40,13 @@ def npdecode(keys, max_ind):
     """Vectorized implementation of the decoding of the labels:
     i = (a1*n2 + a2)*n3 + a3 ...
     """
-    res = np.empty((len(keys), len(max_ind)))
-    aux = keys
+    # floating point numbers cannot represent all the 64 bits keys
+    res = np.empty((len(keys), len(max_ind)), dtype=np.uint64)
+    aux = np.asarray(keys, dtype=np.uint64)
     k = len(max_ind)
     for i in range(k - 1):
         res[:, k - 1 - i] = np.mod(aux, max_ind[k - 1 - i])
-        aux = np.divide(aux - res[:, k - 1 - i], max_ind[k - 1 - i])
+        aux = np.floor_divide(aux, max_ind[k - 1 - i])
     res[:, 0] = aux
     return res
 
-- 
2.43.0


From bfaf0efa2583d821efed3d273e2030e876958410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:19 +0000
Subject: [PATCH 20/60] fix: read the header of the results from an existing by
 block

---
 ABXpy/analyze.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ABXpy/analyze.py b/ABXpy/analyze.py
index e8299b6..8beed69 100644
--- a/ABXpy/analyze.py
+++ b/ABXpy/analyze.py
@@ -156,7 +156,8 @@ def analyze(task_file, score_file, result_file):
     with open(result_file, 'w+') as fid:
         taskfid = h5py.File(task_file, 'r')
         aux = taskfid['regressors']
-        tfrk = aux[list(aux)[0]]
+        # (a by label with a '/' makes nested groups)
+        tfrk = aux[taskfid['bys'][0]]
         regs = tfrk['indexed_datasets']
         string = u''
         for reg in regs:
-- 
2.43.0


From c29b18fc910988127ec828a1b1f42c3af64f92e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:19 +0000
Subject: [PATCH 21/60] fix: group triplets by regressors with integer
 arithmetic

---
 ABXpy/task.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index 2be59ee..ba638f0 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -604,7 +604,9 @@ class Task(object):
 
                     new_index = regs[:, 0].astype(reg_ind_type)
                     for i in range(1, len(n_regs)):
-                        new_index = regs[:, i] + n_regs[i] * new_index
+                        new_index = (
+                            regs[:, i].astype(reg_ind_type) +
+                            reg_ind_type(n_regs[i]) * new_index)
 
                     permut = np.argsort(new_index)
 
-- 
2.43.0


From bb67a27977932d44ae3ae3768325d7cbf927ea17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:19 +0000
Subject: [PATCH 22/60] fix: number of levels with several across or without
 all the by blocks

---
 ABXpy/task.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index ba638f0..a96021d 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -1052,8 +1052,11 @@ class Task(object):
                             list(set(B).difference(A)), dtype=self.types[by])
 
                     # remove X with the same 'across' than A
-                    X = np.array(
-                        list(set(X).difference(A)), dtype=self.types[by])
+                    if type(across) is tuple:
+                        X = set(X) & set(self.antiacross_blocks[by][across])
+                    else:
+                        X = set(X).difference(A)
+                    X = np.array(list(X), dtype=self.types[by])
 
                     if B.size > 0 and X.size > 0:
                         # case were there was no across specified is different
@@ -1069,7 +1072,7 @@ class Task(object):
             self.by_stats[by]['nb_levels'] = n
 
         self.stats['nb_levels'] = sum(
-            stats['nb_levels'] for stats in self.by_stats.values())
+            stats.get('nb_levels', 0) for stats in self.by_stats.values())
 
     def print_stats(self, filename=None, summarized=True):
         if filename is None:
-- 
2.43.0


From 7d10a8c8dfc2238c2945618905477dcedd4bbadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:19 +0000
Subject: [PATCH 23/60] fix: raw and fused datasets of h5io could not be
 created

---
 ABXpy/h5tools/h5io.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ABXpy/h5tools/h5io.py b/ABXpy/h5tools/h5io.py
index 8f54dc3..2204de5 100644
--- a/ABXpy/h5tools/h5io.py
+++ b/ABXpy/h5tools/h5io.py
@@ -81,7 +81,7 @@ class H5IO(object):
                 raw_datasets = list(set(datasets).difference(indexed_datasets))
                 if raw_datasets:
                     g.create_dataset(
-                        'raw_datasets', data=raw_datasets, dtype=str_dtype)
+                        'raw_datasets', data=get_array(raw_datasets), dtype=str_dtype)
                 # indexed datasets
                 if indexed_datasets:
                     g.create_dataset(
@@ -100,12 +100,12 @@ class H5IO(object):
                 # fused datasets
                 if fused:
                     g.create_dataset(
-                        'fused_datasets', data=list(fused), dtype=str_dtype)
+                        'fused_datasets', data=get_array(list(fused)), dtype=str_dtype)
                     h = g.create_group('fused')
                     for name, fused_dsets in iteritems(fused):
                         i = h.create_group(name)
                         i.create_dataset(
-                            'datasets', data=fused_dsets, dtype=str_dtype)
+                            'datasets', data=get_array(fused_dsets), dtype=str_dtype)
                         nb_levels = [len(indexes[indexed_datasets_indexes[
                                          indexed_datasets.index(dset)]]) for dset in fused_dsets]
                         i.create_dataset(
@@ -154,7 +154,7 @@ class H5IO(object):
                         g['fused'][fused_dataset]['datasets'][...])
                     if fused_dataset + '/key_weights' in g['fused']:
                         self.key_weights[fused_dataset] = g['fused'][
-                            fused_dataset]['key_weigths'][...]
+                            fused_dataset]['key_weights'][...]
                     else:
                         self.nb_levels[fused_dataset] = g['fused'][
                             fused_dataset]['nb_levels'][...]
@@ -190,7 +190,7 @@ class H5IO(object):
         # if necessary, instantiate datasets
         if self.is_empty:
             if iterate:
-                sample_data = data.next()
+                sample_data = next(data)
             else:
                 sample_data = data
             self.__initialize_datasets__(sample_data)
-- 
2.43.0


From 9b0c244d1e030fe05cf21615a3ea26771d1b616a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:19 +0000
Subject: [PATCH 24/60] fix: write the raw datasets of h5io in its own group

---
 ABXpy/h5tools/h5io.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ABXpy/h5tools/h5io.py b/ABXpy/h5tools/h5io.py
index 2204de5..ca546dd 100644
--- a/ABXpy/h5tools/h5io.py
+++ b/ABXpy/h5tools/h5io.py
@@ -250,8 +250,7 @@ class H5IO(object):
         # init raw datasets
         for dset in self.raw_datasets:
             (group, dataset) = os.path.split(dset)
-            if not(group):
-                group = '/'
+            group = os.path.join(self.group, group)
             self.out[dset] = self.np2h5.add_dataset(group, dataset, n_columns=dims[dset], item_type=dtypes[
                                                     dset], fixed_size=False)  # FIXME at some point should become super.add_dataset(...)
         # init not fused indexed datasets, in this implementation they are all
-- 
2.43.0


From e5c95f53c870c7b0465f422693284d38f93b858a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:58 +0000
Subject: [PATCH 25/60] fix: the incremental sampler could not be iterated in
 python 3

---
 ABXpy/sampling/sampler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ABXpy/sampling/sampler.py b/ABXpy/sampling/sampler.py
index 69df970..9008764 100644
--- a/ABXpy/sampling/sampler.py
+++ b/ABXpy/sampling/sampler.py
@@ -56,6 +56,8 @@ class IncrementalSampler(object):
             raise StopIteration
         return self.sample(self.step)
 
+    __next__ = next
+
     def sample(self, n, dtype=np.int64):
         """Fast implementation of the sampling function
 
-- 
2.43.0


From 72d1b4abc9c88968caaa07623f87e69c0920d350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:58 +0000
Subject: [PATCH 26/60] fix: incremental sampling of empty samples and empty
 chunks

---
 ABXpy/sampling/sampler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ABXpy/sampling/sampler.py b/ABXpy/sampling/sampler.py
index 9008764..0e1b7f5 100644
--- a/ABXpy/sampling/sampler.py
+++ b/ABXpy/sampling/sampler.py
@@ -42,7 +42,7 @@ class IncrementalSampler(object):
         # step used when iterating over the sampler
         if step is None:
             # 10**4 samples by iteration on average
-            self.step = 10 ** 4 * N // K
+            self.step = 10 ** 4 * N // max(K, 1)
         else:
             self.step = step
 
@@ -85,7 +85,7 @@ class IncrementalSampler(object):
             n = self.N
 
         # expected number of sampled items
-        expected_k = n * self.K / np.float(self.N)
+        expected_k = n * self.K / np.float(max(self.N, 1))
         if expected_k > 10 ** 5:
             sample = []
             chunk_size = int(np.floor(10 ** 5 * self.N / np.float(self.K)))
@@ -141,7 +141,7 @@ def hypergeometric_sample(N, K, n):
     """
     # handling edge cases
     if N == 0 or N == 1:
-        k = K
+        k = min(n, K)
     else:
         # using symmetries to speed up computations
         # if the probability of failure is smaller than the probability of
-- 
2.43.0


From ad3670c6777d2ade3ba419ef49462f8fb2ba62aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:20 +0000
Subject: [PATCH 27/60] fix: labels which are not in ASCII could not be written
 in the task file

---
 ABXpy/h5tools/h5io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ABXpy/h5tools/h5io.py b/ABXpy/h5tools/h5io.py
index ca546dd..b71429a 100644
--- a/ABXpy/h5tools/h5io.py
+++ b/ABXpy/h5tools/h5io.py
@@ -359,7 +359,8 @@ def get_dtype(data):
 
 def get_array(data):
     if isinstance(data[0], str):
-        return np.array(data, dtype='S')
+        # objects and not bytes: labels are not always in ASCII
+        return np.array(data, dtype=object)
     return data
 
 
-- 
2.43.0


From 9497306e4a8f3470ef82be1c92c8138fdff9a874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:10 +0000
Subject: [PATCH 28/60] fix: generic filters can also involve the by columns

---
 ABXpy/sideop/filter_manager.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ABXpy/sideop/filter_manager.py b/ABXpy/sideop/filter_manager.py
index 8151402..6e29863 100644
--- a/ABXpy/sideop/filter_manager.py
+++ b/ABXpy/sideop/filter_manager.py
@@ -46,6 +46,7 @@ class FilterManager(side_operations_manager.SideOperationsManager):
             db_variables['generic'] = set(elements)
             self.generic.append(db_fun)
             self.generic_context['generic'].update(db_variables['generic'])
+            self.by_context['generic'].update(db_variables['by'])
             elements = {}
         return elements, db_variables
 
-- 
2.43.0


From e5d16186f14b09b945b90871a28055c5dae75c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:10 +0000
Subject: [PATCH 29/60] fix: the order of the across regressors depended on
 string hashing

---
 ABXpy/sideop/regressor_manager.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ABXpy/sideop/regressor_manager.py b/ABXpy/sideop/regressor_manager.py
index 98aa6a5..0ed0e99 100644
--- a/ABXpy/sideop/regressor_manager.py
+++ b/ABXpy/sideop/regressor_manager.py
@@ -21,7 +21,8 @@ class RegressorManager(side_operations_manager.SideOperationsManager):
         default_regressors = [on[0] + '_1', on[0] + '_2']
         # check if no across were specified
         if not(self.across_cols == set(["#across"])):
-            for col in self.across_cols:
+            # (sorted: the order of a set of strings is not reproducible)
+            for col in sorted(self.across_cols):
                 default_regressors.append(col + '_1')
                 default_regressors.append(col + '_2')
         # FIXME add default regressors only if they are not already specified ?
-- 
2.43.0


From 3eab8c9ded80f2c805dfd45b886fc16a3c068b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:09 +0000
Subject: [PATCH 30/60] fix: group triplets by regressors when the number of
 combinations exceeds 63 bits

---
 ABXpy/task.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index a96021d..98d8668 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -592,21 +592,28 @@ class Task(object):
                 regs = np.array(Breg + Xreg).T
                 if len(regs) != 0:
                     n_regs = np.max(regs, 0) + 1
+                    # (python integers: the product must not overflow)
+                    n_keys = 1
+                    for n_reg in n_regs:
+                        n_keys *= int(n_reg)
 
                     # FIXME how do we know that all regressors are in
                     # integer format here ? This is only guaranteed
                     # for indexed regressors...
-                    assert np.prod(n_regs) < 18446744073709551615, \
-                        "type not big enough"
-
-                    reg_ind_type = fit_integer_type(
-                        np.prod(n_regs), is_signed=False)
-
-                    new_index = regs[:, 0].astype(reg_ind_type)
-                    for i in range(1, len(n_regs)):
-                        new_index = (
-                            regs[:, i].astype(reg_ind_type) +
-                            reg_ind_type(n_regs[i]) * new_index)
+                    if n_keys < 18446744073709551615:
+                        reg_ind_type = fit_integer_type(
+                            n_keys, is_signed=False)
+
+                        new_index = regs[:, 0].astype(reg_ind_type)
+                        for i in range(1, len(n_regs)):
+                            new_index = (
+                                regs[:, i].astype(reg_ind_type) +
+                                reg_ind_type(n_regs[i]) * new_index)
+                    else:
+                        # no type is big enough, number the combinations
+                        new_index = np.unique(
+                            regs, axis=0, return_inverse=True)[1]
+                        reg_ind_type = new_index.dtype.type
 
                     permut = np.argsort(new_index)
 
-- 
2.43.0


From 4bff434349bb7a6b19234705d8bd6c9d1e5334bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:09 +0000
Subject: [PATCH 31/60] fix: detect regressor combinations which do not fit in
 64 bits in the analysis

---
 ABXpy/analyze.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ABXpy/analyze.py b/ABXpy/analyze.py
index 8beed69..fee7e29 100644
--- a/ABXpy/analyze.py
+++ b/ABXpy/analyze.py
@@ -83,9 +83,12 @@ def collapse(scorefile, taskfile, fid):
         tmp = np.ascontiguousarray(indices).view(
             np.dtype((np.void, indices.dtype.itemsize * indices.shape[1])))
         n_indices = np.max(indices, 0) + 1
-        assert np.prod(n_indices) < 18446744073709551615, "type not big enough"
-        ind_type = fit_integer_type(np.prod(n_indices),
-                                    is_signed=False)
+        # (python integers: the product must not overflow)
+        n_keys = 1
+        for n in n_indices:
+            n_keys *= int(n)
+        assert n_keys < 18446744073709551615, "type not big enough"
+        ind_type = fit_integer_type(n_keys, is_signed=False)
         # encoding the indices of a triplet to a unique index
         new_index = indices[:, 0].astype(ind_type)
         for i in range(1, len(n_indices)):
-- 
2.43.0


From f71b4725f4f3284d5df0842ce7b395d2121e9770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:19 +0000
Subject: [PATCH 32/60] fix: Jensen-Shannon divergence of frames with zeros or
 of single frames

---
 ABXpy/distances/metrics/kullback_leibler.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/ABXpy/distances/metrics/kullback_leibler.py b/ABXpy/distances/metrics/kullback_leibler.py
index d9a41b0..91195b9 100644
--- a/ABXpy/distances/metrics/kullback_leibler.py
+++ b/ABXpy/distances/metrics/kullback_leibler.py
@@ -72,16 +72,19 @@ def js_divergence(x, y, normalize=True):
     xx = np.tile(x, (y.shape[0], 1, 1)).transpose((1, 0, 2))
     yy = np.tile(y, (x.shape[0], 1, 1))
     m = (xx + yy) / 2
-    x_m = np.sum(xx * np.log(m), axis=2)
-    y_m = np.sum(yy * np.log(m), axis=2)
+    # 0 * log(0) counts as 0
+    log_m = np.log(np.where(m > 0, m, 1))
+    log_x = np.log(np.where(x > 0, x, 1))
+    log_y = np.log(np.where(y > 0, y, 1))
+    x_m = np.sum(xx * log_m, axis=2)
+    y_m = np.sum(yy * log_m, axis=2)
     x_x = np.tile(
-        np.sum(x * np.log(x), axis=1).reshape(x.shape[0], 1), (1, y.shape[0]))
+        np.sum(x * log_x, axis=1).reshape(x.shape[0], 1), (1, y.shape[0]))
     y_y = np.tile(np.sum(
-        y * np.log(y), axis=1).reshape(y.shape[0], 1),
+        y * log_y, axis=1).reshape(y.shape[0], 1),
                   (1, x.shape[0])).transpose()
     res = 0.5 * (x_x - x_m) + 0.5 * (y_y - y_m)
-    return np.float64(res)
-    # division by zero
+    return np.float64(res).reshape(res.shape)
 
 
 def sqrt_js_divergence(x, y):
-- 
2.43.0


From 7e753d8f6f04eed41da432bb052ad5af9c6d89f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:19 +0000
Subject: [PATCH 33/60] fix: square root of a negative Jensen-Shannon
 divergence

---
 ABXpy/distances/metrics/kullback_leibler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ABXpy/distances/metrics/kullback_leibler.py b/ABXpy/distances/metrics/kullback_leibler.py
index 91195b9..76361dc 100644
--- a/ABXpy/distances/metrics/kullback_leibler.py
+++ b/ABXpy/distances/metrics/kullback_leibler.py
@@ -88,7 +88,8 @@ def js_divergence(x, y, normalize=True):
 
 
 def sqrt_js_divergence(x, y):
-    return np.sqrt(js_divergence(x, y))
+    # rounding errors make it slightly negative for close frames
+    return np.sqrt(np.maximum(js_divergence(x, y), 0))
 
 
 def hellinger_distance(x, y):
-- 
2.43.0


From 0504a1a49698ed4faea6b43e4d0bb13c3262649a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:19 +0000
Subject: [PATCH 34/60] fix: Hellinger distance of single frames was not a
 matrix

---
 ABXpy/distances/metrics/kullback_leibler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/distances/metrics/kullback_leibler.py b/ABXpy/distances/metrics/kullback_leibler.py
index 76361dc..b7950f1 100644
--- a/ABXpy/distances/metrics/kullback_leibler.py
+++ b/ABXpy/distances/metrics/kullback_leibler.py
@@ -112,7 +112,7 @@ def hellinger_distance(x, y):
     yy = np.tile(y, (x.shape[0], 1, 1))
     xx_yy = xx - yy
     res = np.sqrt(np.sum(xx_yy ** 2, axis=-1))
-    return np.float64((1. / np.sqrt(2)) * res)
+    return np.float64((1. / np.sqrt(2)) * res).reshape(res.shape)
 
 
 def is_distance(x, y):
-- 
2.43.0


From 5e4feb591576a590cdd78cbaf59566b78ad81331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:35 +0000
Subject: [PATCH 35/60] fix: different frames with the same hash were equal for
 the edit distance

---
 ABXpy/distance.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ABXpy/distance.py b/ABXpy/distance.py
index cdb5a0e..9aaf901 100644
--- a/ABXpy/distance.py
+++ b/ABXpy/distance.py
@@ -59,9 +59,16 @@ def edit_distance(x, y):
         except TypeError:
             return a
 
+    # editdistance compares the hashes of the frames, and different frames
+    # may have the same one (e.g. -1 and -2): give it a number by frame
+    codes = {}
+
+    def encode(a):
+        return [codes.setdefault(frame, len(codes)) for frame in totuple(a)]
+
     if x.shape[0] > 0 and y.shape[0] > 0:
         # x and y are not empty
-        d = editdistance.eval(totuple(x), totuple(y))
+        d = editdistance.eval(encode(x), encode(y))
     elif x.shape[0] == y.shape[0]:
         # both x and y are empty
         d = 0
-- 
2.43.0


From 9a069c4ffc9ba4adfbffb3cbf0e9f683d1874aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:25 +0000
Subject: [PATCH 36/60] fix: datasets of h5io which share an index could not be
 written

---
 ABXpy/h5tools/h5io.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ABXpy/h5tools/h5io.py b/ABXpy/h5tools/h5io.py
index b71429a..15c113d 100644
--- a/ABXpy/h5tools/h5io.py
+++ b/ABXpy/h5tools/h5io.py
@@ -257,7 +257,10 @@ class H5IO(object):
         # encoded in the same matrix
         if self.non_fused_datasets:
             indexed_dims = [dims[dset] for dset in self.non_fused_datasets]
-            indexed_levels = [len(self.indexes[dset])
+            # several datasets can share an index
+            index_names = dict(
+                zip(self.indexed_datasets, self.indexed_datasets_indexes))
+            indexed_levels = [len(self.indexes[index_names[dset]])
                               for dset in self.non_fused_datasets]
             dim = sum(indexed_dims)
             # smallest unsigned integer dtype compatible with all
-- 
2.43.0


From 9c3a8f0907ff47317730c13c1215d8bd12a2e43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:26 +0000
Subject: [PATCH 37/60] fix: detect the keys of fused datasets which do not fit
 in 64 bits

---
 ABXpy/h5tools/h5io.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ABXpy/h5tools/h5io.py b/ABXpy/h5tools/h5io.py
index 15c113d..3fcdecf 100644
--- a/ABXpy/h5tools/h5io.py
+++ b/ABXpy/h5tools/h5io.py
@@ -1,6 +1,8 @@
 import os
 from six import iteritems
 import collections
+import functools
+import operator
 
 import h5py
 import numpy as np
@@ -280,8 +282,10 @@ class H5IO(object):
         for fused_dset in self.fused_datasets:
             fused_dims = np.array(
                 [dims[dset] for dset in self.fused_members[fused_dset]], dtype=np.uint64)
-            max_key = np.prod(
-                self.nb_levels[fused_dset] ** fused_dims) - np.uint64(1)
+            # python integers do not overflow
+            max_key = -1 + functools.reduce(
+                operator.mul, [int(n) ** int(d) for n, d in zip(
+                    self.nb_levels[fused_dset], fused_dims)])
             if max_key >= 2 ** 64:
                 raise ValueError('fused dataset %s in file %s cannot be created because 64 bits keys are not sufficient to cover all possible combinations of the fused datasets' % (
                     fused_dset, self.filename))
-- 
2.43.0


From ce96f6f813143a52ecdbd2456d88ac5fbb17808f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:36 +0000
Subject: [PATCH 38/60] fix: integer type needed for numpy integers close to
 the limits

---
 ABXpy/misc/type_fitting.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ABXpy/misc/type_fitting.py b/ABXpy/misc/type_fitting.py
index 44d50c5..46e6cbe 100644
--- a/ABXpy/misc/type_fitting.py
+++ b/ABXpy/misc/type_fitting.py
@@ -3,6 +3,8 @@ import numpy as np
 
 def fit_integer_type(n, is_signed=True):
     """Returns the minimal space needed to store integers of maximal value n"""
+    # numpy integers are compared to large python integers as floats
+    n = int(n)
 
     if is_signed:
         m = 1
-- 
2.43.0


From 660be9f3e3c024f45752735ebf434342d9d3f81a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:22 +0000
Subject: [PATCH 39/60] fix: remove the temporary folder of a sort when its
 file cannot be created

---
 ABXpy/h5tools/h5_handler.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ABXpy/h5tools/h5_handler.py b/ABXpy/h5tools/h5_handler.py
index cd51fc0..f52dc66 100644
--- a/ABXpy/h5tools/h5_handler.py
+++ b/ABXpy/h5tools/h5_handler.py
@@ -246,7 +246,12 @@ class H5TMP(object):
         self.tmpfile = os.path.join(self.tmpdir, 'tmp.h5')
 
     def __enter__(self):
-        self.tmp = h5py.File(self.tmpfile, 'a')
+        try:
+            self.tmp = h5py.File(self.tmpfile, 'a')
+        except Exception:
+            # __exit__ is not called in this case
+            os.rmdir(self.tmpdir)
+            raise
         return self.tmp
 
     def __exit__(self, eType, eValue, eTrace):
-- 
2.43.0


From 601f297408694ef88f565de85544700cb878a50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:09 +0000
Subject: [PATCH 40/60] fix: keep the existing distances when the normalization
 is not specified

---
 ABXpy/distance.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ABXpy/distance.py b/ABXpy/distance.py
index 9aaf901..f10889d 100644
--- a/ABXpy/distance.py
+++ b/ABXpy/distance.py
@@ -141,14 +141,14 @@ def main():
 
     args = parser.parse_args()
 
-    if os.path.exists(args.output):
-        warnings.warn("Overwriting distance file " + args.output, UserWarning)
-        os.remove(args.output)
-
     # if dtw distance selected, fore use of normalization parameter :
     if (args.distance is None and args.normalization is None):
         sys.exit("ERROR : DTW normalization parameter not specified !")
 
+    if os.path.exists(args.output):
+        warnings.warn("Overwriting distance file " + args.output, UserWarning)
+        os.remove(args.output)
+
     run(args.features, args.task, args.output, normalized=args.normalization,
         distance=args.distance, njobs=args.njobs, group=args.group)
 
-- 
2.43.0


From a584ecb08bfc95b1144f86e5fa25c791a2626c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:09 +0000
Subject: [PATCH 41/60] fix: keep the existing task file when only the
 statistics are asked for

---
 ABXpy/task.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index 98d8668..bacc1c6 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -1360,7 +1360,8 @@ def main():
     # checks on the output file
     # if args.stats_only:
     #     assert args.output, "The output file was not provided"
-    if args.output and os.path.exists(args.output):
+    if (args.output and os.path.exists(args.output) and
+            not args.stats_only):
         warnings.warn("Overwriting task file " + args.output, UserWarning)
         os.remove(args.output)
 
-- 
2.43.0


From 0fac163206b1593283ddfa791eb2966145dd540b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:43 +0000
Subject: [PATCH 42/60] fix: keep the existing scores when the task or the
 distances are missing

---
 ABXpy/score.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ABXpy/score.py b/ABXpy/score.py
index cf6d783..27826ca 100755
--- a/ABXpy/score.py
+++ b/ABXpy/score.py
@@ -138,7 +138,9 @@ def main():
         file, where the results of the computation will be put')
     args = parser.parse_args()
 
-    if args.score and os.path.exists(args.score):
+    # (the score function refuses missing inputs)
+    if (args.score and os.path.exists(args.score) and
+            os.path.exists(args.task) and os.path.exists(args.distance)):
         print("Warning: overwriting score file {}".format(args.score))
         os.remove(args.score)
     score(args.task, args.distance, args.score)
-- 
2.43.0


From 80a2ced70a48472c3da8a63297a2f7fcf56c673f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:25 +0000
Subject: [PATCH 43/60] fix: the temporary file of the pairs was never closed

---
 ABXpy/task.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index bacc1c6..b524b10 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -871,7 +871,8 @@ class Task(object):
         n_pairs_dict = {}
         max_ind_dict = {}
         try:
-            _, output_tmp = tempfile.mkstemp(dir=tmpdir)
+            fd, output_tmp = tempfile.mkstemp(dir=tmpdir)
+            os.close(fd)
             for n_by, (by, db) in enumerate(iteritems(self.by_dbs)):
                 if self.verbose > 0:
                     print("Writing AX/BX pairs to task file...")
-- 
2.43.0


From 5a9abb3c9aa93497b1121b980da8a8c1a7c5ada0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:20 +0000
Subject: [PATCH 44/60] fix: functions of a script see its imports and
 variables

---
 ABXpy/dbfun/dbfun_compute.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ABXpy/dbfun/dbfun_compute.py b/ABXpy/dbfun/dbfun_compute.py
index cebe546..2f60bcf 100644
--- a/ABXpy/dbfun/dbfun_compute.py
+++ b/ABXpy/dbfun/dbfun_compute.py
@@ -174,8 +174,9 @@ class DBfun_Compute(dbfun.DBfun):
     # context is a dictionary with just the right name/content associations
     def evaluate(self, context):
         # set up context
-        ns_local = context
-        ns_global = {}
+        # (a single namespace: functions and generators of the script only see
+        # the global one)
+        ns_local = ns_global = dict(context)
         # exec imports in that context
         exec(self.import_bytecode, ns_global, ns_local)
         # evaluate the calls to aux functions
-- 
2.43.0


From 5c2b99f19876cad8ecd21f1cdb2ab451e8f18dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:59 +0000
Subject: [PATCH 45/60] fix: filter scripts with a with statement on python 3

---
 ABXpy/dbfun/dbfun_compute.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ABXpy/dbfun/dbfun_compute.py b/ABXpy/dbfun/dbfun_compute.py
index 2f60bcf..b62a00c 100644
--- a/ABXpy/dbfun/dbfun_compute.py
+++ b/ABXpy/dbfun/dbfun_compute.py
@@ -132,7 +132,9 @@ class DBfun_Compute(dbfun.DBfun):
         withs = [stat for stat in tree.body if isinstance(stat, ast.With)]
         kept = []
         for i, w in enumerate(withs):
-            if isinstance(w.context_expr, ast.Str):
+            # in python 3 a with statement has a list of items
+            context_expr = getattr(w, 'items', [w])[0].context_expr
+            if isinstance(context_expr, ast.Str):
                 kept.append((i, w))
         if len(kept) > 1:
             raise ValueError(
-- 
2.43.0


From 4e3f4b0bdf2ece2718b6eab77ea0bdca69a18b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:30 +0000
Subject: [PATCH 46/60] fix: threshold with negative or non integer regressors

---
 ABXpy/task.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index b524b10..51b5068 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -597,10 +597,11 @@ class Task(object):
                     for n_reg in n_regs:
                         n_keys *= int(n_reg)
 
-                    # FIXME how do we know that all regressors are in
-                    # integer format here ? This is only guaranteed
-                    # for indexed regressors...
-                    if n_keys < 18446744073709551615:
+                    # (only indexed regressors are guaranteed to be
+                    # positive integers)
+                    if (n_keys < 18446744073709551615 and
+                            np.issubdtype(regs.dtype, np.integer) and
+                            np.min(regs) >= 0):
                         reg_ind_type = fit_integer_type(
                             n_keys, is_signed=False)
 
-- 
2.43.0


From 6c90f7b10f7575b2aafa7c0c3da0c38d738fcb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:47 +0000
Subject: [PATCH 47/60] fix: regressors computed by a script when a block is
 empty

---
 ABXpy/task.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index 51b5068..7bd6544 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -846,7 +846,9 @@ class Task(object):
                         by, on, across, block, on_across_by_values))
 
                 out.write(triplets)
-                out_regs.write(regressors, indexed=True)
+                # (the regressors of an empty block do not tell their types)
+                if triplets.shape[0] > 0:
+                    out_regs.write(regressors, indexed=True)
                 out_block_index.write(on_across_block_index)
                 self.current_index += triplets.shape[0]
 
-- 
2.43.0


From 6a44792ebef9869a77996e75d9ce98f5aebe0479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:20 +0000
Subject: [PATCH 48/60] fix: name the missing temporary folder in the error

---
 ABXpy/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index 7bd6544..16cf8b9 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -873,8 +873,8 @@ class Task(object):
         # list all pairs
         n_pairs_dict = {}
         max_ind_dict = {}
+        fd, output_tmp = tempfile.mkstemp(dir=tmpdir)
         try:
-            fd, output_tmp = tempfile.mkstemp(dir=tmpdir)
             os.close(fd)
             for n_by, (by, db) in enumerate(iteritems(self.by_dbs)):
                 if self.verbose > 0:
-- 
2.43.0


From 2fc39b5623f07da8dca87321adfb3276a452c4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:20 +0000
Subject: [PATCH 49/60] fix: generating a task does not remove its empty by
 levels

---
 ABXpy/task.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index 16cf8b9..bf749e2 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -796,14 +796,11 @@ class Task(object):
                         by_block_indices.append(self.current_index)
                         bys.append(by)
 
-            # saving by index, deleting empty by blocks:
+            # saving by index, ignoring empty by blocks:
             aux = np.array(
                 by_block_indices,
                 dtype=fit_integer_type(by_block_indices[-1]))
             by_block_indices = np.hstack((aux[:-1, None], aux[1:, None]))
-            for by in empty_by_blocks:
-                del self.by_dbs[by]
-
             fh.file.create_dataset(
                 'bys', (aux.shape[0] - 1,),
                 dtype=h5py.special_dtype(vlen=str))
@@ -818,7 +815,8 @@ class Task(object):
 
         with warnings.catch_warnings():
             warnings.simplefilter('ignore', tables.NaturalNameWarning)
-            self._generate_pairs(output, tmpdir=tmpdir)
+            self._generate_pairs(
+                output, tmpdir=tmpdir, empty_by_blocks=empty_by_blocks)
 
     def _compute_triplets(self, by, out, out_block_index,
                           out_regs, db, fh, by_values, display=None):
@@ -862,7 +860,7 @@ class Task(object):
 
     # FIXME clean this function (maybe do a few well-separated sub-functions
     # for getting the pairs and unique them)
-    def _generate_pairs(self, output=None, tmpdir=None):
+    def _generate_pairs(self, output=None, tmpdir=None, empty_by_blocks=()):
         """Generate the pairs associated to the triplet list"""
 
         # FIXME change this to a random file name to avoid overwriting problems
@@ -870,13 +868,16 @@ class Task(object):
         if output is None:
             (basename, _) = os.path.splitext(self.database)
             output = basename + '.abx'
+        # (the task itself keeps its empty by blocks)
+        by_dbs = {by: db for by, db in iteritems(self.by_dbs)
+                  if by not in empty_by_blocks}
         # list all pairs
         n_pairs_dict = {}
         max_ind_dict = {}
         fd, output_tmp = tempfile.mkstemp(dir=tmpdir)
         try:
             os.close(fd)
-            for n_by, (by, db) in enumerate(iteritems(self.by_dbs)):
+            for n_by, (by, db) in enumerate(iteritems(by_dbs)):
                 if self.verbose > 0:
                     print("Writing AX/BX pairs to task file...")
                 with h5py.File(output, 'a') as fh:
@@ -982,7 +983,7 @@ class Task(object):
                 out_unique_pairs = f_out.add_dataset(
                     'unique_pairs', 'data', n_rows=n_rows, n_columns=1,
                     item_type=np.int64, fixed_size=False)
-                for n_by, (by, db) in enumerate(iteritems(self.by_dbs)):
+                for n_by, (by, db) in enumerate(iteritems(by_dbs)):
                     triplets_attrs = f_out.file['/triplets']['by_index'][n_by]
                     if triplets_attrs[0] == triplets_attrs[1]:
                         # subdataset is empty
-- 
2.43.0


From e8400e1eb862f41a2bd2d6ae5620a3fa90729a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:20 +0000
Subject: [PATCH 50/60] fix: no task file without triplets after approximate
 statistics

---
 ABXpy/task.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ABXpy/task.py b/ABXpy/task.py
index bf749e2..5d459d5 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -810,6 +810,13 @@ class Task(object):
                 'by_index', data=by_block_indices)
             fh.file['triplets/data'].resize(aux[-1], axis=0)
 
+        # the announced number of triplets may have been approximate
+        if self.current_index == 0:
+            os.remove(output)
+            warnings.warn('There are no possible ABX triplets'
+                          ' in the specified task', UserWarning)
+            return
+
         if self.verbose:
             print('done.')
 
-- 
2.43.0


From a3fec75b777c8713131c479c9d5fa036426c34df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:43 +0000
Subject: [PATCH 51/60] fix: open the inputs of distances, score and analyze
 for reading only

---
 ABXpy/analyze.py             | 2 +-
 ABXpy/distances/distances.py | 2 +-
 ABXpy/score.py               | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ABXpy/analyze.py b/ABXpy/analyze.py
index fee7e29..ccd995e 100644
--- a/ABXpy/analyze.py
+++ b/ABXpy/analyze.py
@@ -65,7 +65,7 @@ def collapse(scorefile, taskfile, fid):
 
     """
     # We make the assumption that everything fits in memory...
-    scorefid = h5py.File(scorefile, 'r+')
+    scorefid = h5py.File(scorefile, 'r')
     taskfid = h5py.File(taskfile, 'r')
     bys = taskfid['bys'][...]
     for by_idx, by in enumerate(bys):
diff --git a/ABXpy/distances/distances.py b/ABXpy/distances/distances.py
index 027f65c..977659a 100644
--- a/ABXpy/distances/distances.py
+++ b/ABXpy/distances/distances.py
@@ -204,7 +204,7 @@ def run_distance_job(job_description, distance_file, distance,
         if synchronize:
             distance_file_lock.acquire()
         try:
-            store = pandas.HDFStore(pair_file)
+            store = pandas.HDFStore(pair_file, 'r')
             by_db = store['feat_dbs/' + by]
             store.close()
             # load pairs to be computed
diff --git a/ABXpy/score.py b/ABXpy/score.py
index 27826ca..f73f550 100755
--- a/ABXpy/score.py
+++ b/ABXpy/score.py
@@ -96,7 +96,7 @@ def score(task_file, distance_file, score_file=None, score_group='scores'):
                 base = pair_attrs[0]
                 pair_key_type = type_fitting.fit_integer_type((base) ** 2 - 1,
                                                               is_signed=False)
-            with h52np.H52NP(task_file) as t:
+            with h5py.File(task_file, 'r') as f, h52np.H52NP(f) as t:
                 inp = t.add_subdataset('triplets', 'data', indexes=trip_attrs)
                 idx_start = trip_attrs[0]
                 for triplets in inp:
-- 
2.43.0


From 2dbd023d78871d9cb4cd88e8ac0c8cf4ee6c14ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:02 +0000
Subject: [PATCH 52/60] fix: csv_cmp compares the contents of the two files

list.sort() returns None, so that csv_cmp returned True for any two files.
---
 ABXpy/misc/items.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ABXpy/misc/items.py b/ABXpy/misc/items.py
index abf3f56..f8f2cba 100644
--- a/ABXpy/misc/items.py
+++ b/ABXpy/misc/items.py
@@ -102,7 +102,8 @@ def h5cmp(f1, f2):
 def csv_cmp(f1, f2, sep='\t'):
     """Returns True if the 2 CSV files are equals
 
-    The comparison is not sensitive to the columns order.
+    The comparison is not sensitive to the order of the columns nor
+    to the order of the rows.
 
     """
     csv1 = pandas.read_csv(f1, sep=sep)
@@ -111,4 +112,5 @@ def csv_cmp(f1, f2, sep='\t'):
     csv2 = pandas.read_csv(f2, sep=sep)
     csv2 = csv2.reindex(sorted(csv2.columns), axis=1)
 
-    return csv1.to_csv().split('\n').sort() == csv2.to_csv().split('\n').sort()
+    return (sorted(csv1.to_csv(index=False).split('\n')) ==
+            sorted(csv2.to_csv(index=False).split('\n')))
-- 
2.43.0


From cc774df8beaff1541e718c8648b3dd6c3dbe76f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:01 +0000
Subject: [PATCH 53/60] fix: cmp compares the contents of the files

---
 ABXpy/misc/items.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ABXpy/misc/items.py b/ABXpy/misc/items.py
index f8f2cba..7aebc14 100644
--- a/ABXpy/misc/items.py
+++ b/ABXpy/misc/items.py
@@ -85,7 +85,10 @@ def generate_db_and_feat(base, n, repeats=0, name_db='data.item', n_feat=2,
 
 
 def cmp(f1, f2):
-    return filecmp.cmp(f1, f2, shallow=True)
+    # (neither size and time of modification, nor the cache of filecmp,
+    # tell whether the contents are the same)
+    filecmp.clear_cache()
+    return filecmp.cmp(f1, f2, shallow=False)
 
 
 def h5cmp(f1, f2):
-- 
2.43.0


From bff8e75b985355669ad55160400cbb4edc7aa88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:58 +0000
Subject: [PATCH 54/60] fix: the names of the files of the items are not
 numbers

---
 ABXpy/database/database.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ABXpy/database/database.py b/ABXpy/database/database.py
index 6b94778..c42571b 100644
--- a/ABXpy/database/database.py
+++ b/ABXpy/database/database.py
@@ -9,7 +9,9 @@ import ABXpy.misc.tinytree as tinytree
 # custom read_table that ignore empty entries at the end of a file (they
 # can result from trailing white spaces at the end for example)
 def read_table(filename):
-    db = pandas.read_csv(filename, sep='[ \t]+', engine='python')
+    # (the names of the files are never numbers: '01' is not '1')
+    db = pandas.read_csv(filename, sep='[ \t]+', engine='python',
+                         dtype={'#file': str})
     # removes row with all null values (None or NaN...)
     db = db.dropna(how='all').reset_index(drop=True)
     return db
-- 
2.43.0


From 6bf8b386a28e254af38fa2d43502fe6b94ab1ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:17 +0000
Subject: [PATCH 55/60] fix: refuse auxiliary files with several rows for the
 same label

---
 ABXpy/database/database.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ABXpy/database/database.py b/ABXpy/database/database.py
index c42571b..4e329db 100644
--- a/ABXpy/database/database.py
+++ b/ABXpy/database/database.py
@@ -92,8 +92,11 @@ def load_aux_dbs(basename, db, cols, mainfile):
                     basename, auxdb, auxdb.columns[1:], mainfile)
                 # add to forest
                 forest[i].addChildrenFromList(auxforest)
-                # merging the databases
-                db = pandas.merge(db, auxdb, on=col, how='left')
+                # merging the databases (several rows for the same label would
+                # duplicate the items, which must stay aligned with features)
+                auxdb = auxdb.dropna(subset=[col]).drop_duplicates()
+                db = pandas.merge(db, auxdb, on=col, how='left',
+                                  validate='many_to_one')
         # verbose print("  Read auxiliary File '"+auxfile+"'. Defined
         # conditions: "+str(newcol[1:len(newcol)])+" on key '"+newcol[0]+"'")
         except IOError:
-- 
2.43.0


From efe11f1d75e1697f71066b4e05435bb79bfe3d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:02 +0000
Subject: [PATCH 56/60] fix: join auxiliary files when only one side has number
 labels

---
 ABXpy/database/database.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ABXpy/database/database.py b/ABXpy/database/database.py
index 4e329db..2c5be11 100644
--- a/ABXpy/database/database.py
+++ b/ABXpy/database/database.py
@@ -8,10 +8,10 @@ import ABXpy.misc.tinytree as tinytree
 
 # custom read_table that ignore empty entries at the end of a file (they
 # can result from trailing white spaces at the end for example)
-def read_table(filename):
+def read_table(filename, text='#file'):
     # (the names of the files are never numbers: '01' is not '1')
     db = pandas.read_csv(filename, sep='[ \t]+', engine='python',
-                         dtype={'#file': str})
+                         dtype={text: str})
     # removes row with all null values (None or NaN...)
     db = db.dropna(how='all').reset_index(drop=True)
     return db
@@ -83,6 +83,12 @@ def load_aux_dbs(basename, db, cols, mainfile):
             auxfile = basename + '.' + col
             if not(auxfile == mainfile):
                 auxdb = read_table(auxfile)
+                # the labels may all be numbers in one of the files only
+                if db[col].dtype == object:
+                    auxdb = read_table(auxfile, text=col)
+                elif (db[col].dtype != bool and col in auxdb and
+                        auxdb[col].dtype == object):
+                    auxdb[col] = pandas.to_numeric(auxdb[col], errors='coerce')
                 assert col == auxdb.columns[0], (
                     'First column name in file %s'
                     ' is %s. It should be %s instead.' % (
-- 
2.43.0


From 619c69f7b5d1e2432605acdd652f9f54ae065888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:02 +0000
Subject: [PATCH 57/60] fix: tell which auxiliary file has several rows for the
 same label

---
 ABXpy/database/database.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ABXpy/database/database.py b/ABXpy/database/database.py
index 2c5be11..92a111a 100644
--- a/ABXpy/database/database.py
+++ b/ABXpy/database/database.py
@@ -98,11 +98,13 @@ def load_aux_dbs(basename, db, cols, mainfile):
                     basename, auxdb, auxdb.columns[1:], mainfile)
                 # add to forest
                 forest[i].addChildrenFromList(auxforest)
-                # merging the databases (several rows for the same label would
-                # duplicate the items, which must stay aligned with features)
+                # several rows for the same label would duplicate the items,
+                # which must stay aligned with the features
                 auxdb = auxdb.dropna(subset=[col]).drop_duplicates()
-                db = pandas.merge(db, auxdb, on=col, how='left',
-                                  validate='many_to_one')
+                assert auxdb[col].is_unique, (
+                    'File %s has several rows for the same label' % auxfile)
+                # merging the databases
+                db = pandas.merge(db, auxdb, on=col, how='left')
         # verbose print("  Read auxiliary File '"+auxfile+"'. Defined
         # conditions: "+str(newcol[1:len(newcol)])+" on key '"+newcol[0]+"'")
         except IOError:
-- 
2.43.0


From 58fa95af4b89c47131a085f743e7098b9ca873c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:51 +0000
Subject: [PATCH 58/60] fix: the path of a distance module can contain dots

run took what precedes the first dot of -d as the module and what
follows as the function: './mod.fun' or 'v1.0/mod.fun' were refused or
led to another module.
---
 ABXpy/distance.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ABXpy/distance.py b/ABXpy/distance.py
index f10889d..4d3bd16 100644
--- a/ABXpy/distance.py
+++ b/ABXpy/distance.py
@@ -86,9 +86,8 @@ def run(features, task, output, normalized,
         elif distance=="dtw_kl":
             distancefun = dtw_kl_distance
         else:
-            distancepair = distance.split('.')
-            distancemodule = distancepair[0]
-            distancefunction = distancepair[1]
+            # the path of the module can contain dots as well
+            distancemodule, distancefunction = distance.rsplit('.', 1)
             path, mod = os.path.split(distancemodule)
             sys.path.insert(0, path)
             distancefun = getattr(__import__(mod), distancefunction)
-- 
2.43.0


From 4c8a0d022ed9d25e00f6c8cccd3b03ff52981cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:21 +0000
Subject: [PATCH 59/60] fix: by labels with a special meaning as names of HDF5
 objects

The label of a by block was used as the name of its HDF5 objects: with
labels such as '.', '/', '/a', 'a' and 'a/b', 'a' and 'a/', or '_i_x' no
task could be made, or the results of a block could not be read.
---
 ABXpy/analyze.py             |  6 +++---
 ABXpy/distances/distances.py |  4 +++-
 ABXpy/h5tools/names.py       | 16 ++++++++++++++++
 ABXpy/task.py                | 21 +++++++++++----------
 4 files changed, 33 insertions(+), 14 deletions(-)
 create mode 100644 ABXpy/h5tools/names.py

diff --git a/ABXpy/analyze.py b/ABXpy/analyze.py
index ccd995e..c536a58 100644
--- a/ABXpy/analyze.py
+++ b/ABXpy/analyze.py
@@ -33,6 +33,7 @@ import os.path as path
 import os
 import warnings
 
+from ABXpy.h5tools.names import by_name
 from ABXpy.misc.type_fitting import fit_integer_type
 
 
@@ -72,7 +73,7 @@ def collapse(scorefile, taskfile, fid):
         # print 'collapsing {0}/{1}'.format(by_idx + 1, len(bys))
         trip_attrs = taskfid['triplets']['by_index'][by_idx]
 
-        tfrk = taskfid['regressors'][by]
+        tfrk = taskfid['regressors'][by_name(by)]
 
         tmp = tfrk[u'indexed_data']
         indices = np.array(tmp)
@@ -159,8 +160,7 @@ def analyze(task_file, score_file, result_file):
     with open(result_file, 'w+') as fid:
         taskfid = h5py.File(task_file, 'r')
         aux = taskfid['regressors']
-        # (a by label with a '/' makes nested groups)
-        tfrk = aux[taskfid['bys'][0]]
+        tfrk = aux[by_name(taskfid['bys'][0])]
         regs = tfrk['indexed_datasets']
         string = u''
         for reg in regs:
diff --git a/ABXpy/distances/distances.py b/ABXpy/distances/distances.py
index 977659a..7983806 100644
--- a/ABXpy/distances/distances.py
+++ b/ABXpy/distances/distances.py
@@ -7,6 +7,8 @@ import sys
 import warnings
 import h5features
 
+from ABXpy.h5tools.names import by_name
+
 # FIXME Enforce single process usage when using python compiled with OMP
 # enabled
 
@@ -205,7 +207,7 @@ def run_distance_job(job_description, distance_file, distance,
             distance_file_lock.acquire()
         try:
             store = pandas.HDFStore(pair_file, 'r')
-            by_db = store['feat_dbs/' + by]
+            by_db = store['feat_dbs/' + by_name(by)]
             store.close()
             # load pairs to be computed
             # indexed relatively to the above dataframe
diff --git a/ABXpy/h5tools/names.py b/ABXpy/h5tools/names.py
new file mode 100644
index 0000000..bb19276
--- /dev/null
+++ b/ABXpy/h5tools/names.py
@@ -0,0 +1,16 @@
+"""Names of the HDF5 groups and datasets of the BY labels"""
+
+
+def by_name(by):
+    """Return the name of the HDF5 objects of a BY label
+
+    It is the label itself, but for what has a special meaning in the
+    names of HDF5 objects: '/' separates the groups, '.' is the current
+    group and pytables reserves some of the names starting with '_'.
+    Different labels have different names.
+
+    """
+    name = str(by).replace('%', '%25').replace('/', '%2F')
+    if name == '.' or name.startswith('_'):
+        name = '%{:02X}'.format(ord(name[0])) + name[1:]
+    return name
diff --git a/ABXpy/task.py b/ABXpy/task.py
index 5d459d5..28619f8 100755
--- a/ABXpy/task.py
+++ b/ABXpy/task.py
@@ -83,6 +83,7 @@ import ABXpy.sampling.sampler as sampler
 import ABXpy.sideop.filter_manager as filter_manager
 import ABXpy.sideop.regressor_manager as regressor_manager
 import ABXpy.misc.progress_display as progress_display
+from ABXpy.h5tools.names import by_name
 from ABXpy.misc.type_fitting import fit_integer_type
 
 # FIXME many of the fixmes should be presented as feature requests in
@@ -784,7 +785,7 @@ class Task(object):
                         filename=output,
                         datasets=datasets,
                         indexes=indexes,
-                        group='/regressors/{}/'.format(str(by))) as out_regs:
+                        group='/regressors/{}/'.format(by_name(by))) as out_regs:
                     self._compute_triplets(
                         by, out, out_block_index, out_regs, db, fh,
                         by_values, display=display)
@@ -898,7 +899,7 @@ class Task(object):
                         inp = f_in.add_subdataset('triplets', 'data',
                                                   indexes=triplets_attrs)
                         out = f_out.add_dataset(
-                            'pairs', str(by), n_columns=1,
+                            'pairs', by_name(by), n_columns=1,
                             item_type=pair_key_type, fixed_size=False)
                         for data in inp:
                             triplets = pair_key_type(data)
@@ -934,7 +935,7 @@ class Task(object):
                     # counting unique
                     with np2h5.NP2H5(output_tmp) as f_out:
                         with h52np.H52NP(output_tmp) as f_in:
-                            inp = f_in.add_dataset('pairs', str(by))
+                            inp = f_in.add_dataset('pairs', by_name(by))
                             n_pairs = 0
                             last = -1
                             for pairs in inp:
@@ -951,9 +952,9 @@ class Task(object):
                     # sorting + unique ?
                     with np2h5.NP2H5(output_tmp) as f_out:
                         with h52np.H52NP(output_tmp) as f_in:
-                            inp = f_in.add_dataset('pairs', str(by))
+                            inp = f_in.add_dataset('pairs', by_name(by))
                             out = f_out.add_dataset(
-                                'unique_pairs', str(by),
+                                'unique_pairs', by_name(by),
                                 n_rows=n_pairs,
                                 n_columns=1,
                                 item_type=pair_key_type,
@@ -977,7 +978,7 @@ class Task(object):
                         # use append to make use of table format,
                         # which is better at handling strings without
                         # much space (fixed-size format)
-                        store.append('/feat_dbs/' + str(by), self.feat_dbs[by],
+                        store.append('/feat_dbs/' + by_name(by), self.feat_dbs[by],
                                      expectedrows=len(self.feat_dbs[by]))
                         store.close()
                         # FIXME generate inverse mapping to triplets
@@ -997,7 +998,7 @@ class Task(object):
                         continue
 
                     with h52np.H52NP(output_tmp) as f_in:
-                        inp = f_in.add_dataset('unique_pairs', str(by))
+                        inp = f_in.add_dataset('unique_pairs', by_name(by))
                         for pairs in inp:
                             out_unique_pairs.write(pairs)
 
@@ -1247,8 +1248,8 @@ def sort_pairs(abx_file, by, memory=1000, tmpdir=None):
     """
     # estimate of the amount of data to be sorted
     with h5py.File(abx_file, 'a') as fh:
-        n = fh['/pairs/' + str(by)].shape[0]
-        i = fh['/pairs/' + str(by)].dtype.itemsize
+        n = fh['/pairs/' + by_name(by)].shape[0]
+        i = fh['/pairs/' + by_name(by)].dtype.itemsize
 
     # harmonize units in Ko
     memory = 1000 * memory
@@ -1275,7 +1276,7 @@ def sort_pairs(abx_file, by, memory=1000, tmpdir=None):
         buffer_size = 0.75 * memory
 
     # finally sort the pairs in place
-    handler = h5_handler.H5Handler(abx_file, '/pairs/', str(by))
+    handler = h5_handler.H5Handler(abx_file, '/pairs/', by_name(by))
     handler.sort(buffer_size=buffer_size, tmpdir=tmpdir)
 
 
-- 
2.43.0


From 72bf7a4e2508ffa1efadf7f1ba267e7a581da29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:21 +0000
Subject: [PATCH 60/60] fix: refuse raw data which the type of its dataset
 cannot store

A raw dataset of H5IO gets the type of the first data written to it, and
what followed was truncated silently: a script regressor giving integers
then floating point numbers lost the fractional parts.
---
 ABXpy/h5tools/h5io.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ABXpy/h5tools/h5io.py b/ABXpy/h5tools/h5io.py
index 3fcdecf..1eaa403 100644
--- a/ABXpy/h5tools/h5io.py
+++ b/ABXpy/h5tools/h5io.py
@@ -309,8 +309,16 @@ class H5IO(object):
         data = self.__convert_input_data__(data)
         # write raw data
         for dset in self.raw_datasets:
-            # need type conversion sometimes here? (np.array(data[dset]))
-            self.out[dset].write(data[dset])
+            # the type of a raw dataset is that of the first data written,
+            # which does not always fit what comes next
+            raw = data[dset]
+            stored = raw.astype(self.out[dset].type)
+            changed = (stored != raw) | (stored.astype(raw.dtype) != raw)
+            if np.any(changed & ((raw == raw) | (stored == stored))):
+                raise ValueError(
+                    'Dataset %s of type %s cannot store data of type %s without loss' % (
+                        dset, stored.dtype, raw.dtype))
+            self.out[dset].write(raw)
         # write indexed data
         if self.non_fused_datasets:
             # FIXME check that values are in correct range of index ?
-- 
2.43.0

