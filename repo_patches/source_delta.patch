From cb2a36e4748c87006813f53ed0c0e29eae0ebd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:25 +0000
Subject: [PATCH 01/29] fix: let the splitters work with current scikit-learn

The private helper _validate_shuffle_split_init was removed in scikit-learn
0.21+, and KFold takes keyword-only arguments and rejects a random_state
without shuffling, so the module could not be imported or used.
---
 kamrecsys/model_selection/split.py | 39 ++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/kamrecsys/model_selection/split.py b/kamrecsys/model_selection/split.py
index f9e311c..c84318f 100644
--- a/kamrecsys/model_selection/split.py
+++ b/kamrecsys/model_selection/split.py
@@ -24,7 +24,6 @@ import numpy as np
 from sklearn.utils import indexable, check_random_state
 from sklearn.model_selection import (
     BaseCrossValidator, PredefinedSplit, train_test_split, KFold)
-from sklearn.model_selection._split import _validate_shuffle_split_init
 
 # =============================================================================
 # Metadata variables
@@ -49,6 +48,40 @@ __all__ = []
 # =============================================================================
 
 
+def _validate_shuffle_split_init(test_size, train_size):
+    """
+    Validation of the sizes of splits when a splitter is initialized
+
+    Parameters
+    ----------
+    test_size : float, int, or None
+        See the specification of :class:`sklearn.model_selection.ShuffleSplit`
+    train_size : float, int, or None
+        See the specification of :class:`sklearn.model_selection.ShuffleSplit`
+
+    Raises
+    ------
+    ValueError
+        if the specification of sizes is illegal
+    """
+
+    for name, size in (('test_size', test_size), ('train_size', train_size)):
+        kind = np.asarray(size).dtype.kind
+        if size is not None and (
+                kind not in 'fiu' or (kind == 'f' and size >= 1.0)):
+            raise ValueError("Invalid value for {0:s}: {1!r}".format(
+                name, size))
+
+    if test_size is None and train_size is None:
+        raise ValueError("test_size and train_size can not both be None")
+    if (np.asarray(test_size).dtype.kind == 'f' and
+            np.asarray(train_size).dtype.kind == 'f' and
+            test_size + train_size > 1.0):
+        raise ValueError(
+            "The sum of test_size and train_size = {0:f}, should be smaller"
+            " than 1.0.".format(test_size + train_size))
+
+
 # =============================================================================
 # Classes
 # =============================================================================
@@ -272,7 +305,9 @@ class KFoldWithinGroups(BaseCrossValidator):
         iters = np.empty(group_indices.shape[0], dtype=object)
 
         # generate iterators
-        cv = KFold(self.n_splits, self.shuffle, rng)
+        cv = KFold(
+            n_splits=self.n_splits, shuffle=self.shuffle,
+            random_state=rng if self.shuffle else None)
         for i, g in enumerate(group_indices):
             group_member = indices[groups == g]
             iters[i] = cv.split(group_member)
-- 
2.43.0


From 95783c8b8e8cc843fdebd4ba9ed18f576576d51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:25 +0000
Subject: [PATCH 02/29] fix: read experiment results with Python >= 3.9
 (json.load has no encoding)

---
 scripts/exp_recsys_fold_merge.py | 4 ++--
 scripts/stats_recsys.py          | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/exp_recsys_fold_merge.py b/scripts/exp_recsys_fold_merge.py
index 9af0720..a580a72 100644
--- a/scripts/exp_recsys_fold_merge.py
+++ b/scripts/exp_recsys_fold_merge.py
@@ -90,7 +90,7 @@ def first_fold(fp):
     """
 
     # load json file of the target fold
-    cv_info = json.load(fp, encoding='utf-8')
+    cv_info = json.load(fp)
 
     # add container of merged information
     cv_info['condition']['merged'] = True
@@ -121,7 +121,7 @@ def rest_fold(fp, cv_info):
     """
 
     # load json file of the target fold
-    info = json.load(fp, encoding='utf-8')
+    info = json.load(fp)
 
     # get fold number
     fold = next(iter(info['training']['results']))
diff --git a/scripts/stats_recsys.py b/scripts/stats_recsys.py
index d588a1e..8e2eb31 100644
--- a/scripts/stats_recsys.py
+++ b/scripts/stats_recsys.py
@@ -102,7 +102,7 @@ def do_task(opt):
     np.seterr(all='ignore')
 
     # load data
-    info = json.load(opt.infile, encoding='utf-8')
+    info = json.load(opt.infile)
 
     # merge multi-fold data
     if isinstance(info['prediction']['event'], dict):
-- 
2.43.0


From 3e9e4f5ccf1d95587066b563332a58b660d08be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:25 +0000
Subject: [PATCH 03/29] fix: record the real end time of a test phase

---
 scripts/exp_recsys_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/exp_recsys_util.py b/scripts/exp_recsys_util.py
index 101a426..ae79374 100644
--- a/scripts/exp_recsys_util.py
+++ b/scripts/exp_recsys_util.py
@@ -134,7 +134,7 @@ def testing(rec, ev):
     # set end and elapsed time
     end_time = datetime.datetime.now()
     end_utime = os.times()[0]
-    res_info['end_time'] = start_time.isoformat()
+    res_info['end_time'] = end_time.isoformat()
     res_info['elapsed_time'] = end_time - start_time
     res_info['elapsed_utime'] = end_utime - start_utime
     logger.info("test_end_time = " + res_info['end_time'])
-- 
2.43.0


From 7dc544f14d9576f03549e6050fe5d5ec0806f45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:25 +0000
Subject: [PATCH 04/29] fix: report the real test file of a hold-out test

---
 scripts/exp_recsys_util.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/scripts/exp_recsys_util.py b/scripts/exp_recsys_util.py
index ae79374..3cf12d1 100644
--- a/scripts/exp_recsys_util.py
+++ b/scripts/exp_recsys_util.py
@@ -175,7 +175,6 @@ def holdout_test(info, load_data):
     info['training']['n_items'] = (
         train_data.n_objects[train_data.event_otypes[1]])
 
-    info['test']['file'] = info['training']['file']
     info['test']['n_events'] = test_data.n_events
     info['test']['n_users'] = (
         test_data.n_objects[test_data.event_otypes[0]])
-- 
2.43.0


From bc4fd8d04f915c4c61722cc5bf0138d85deed39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:55 +0000
Subject: [PATCH 05/29] fix: do not overwrite object tables shared with trained
 models

set_event() rewrote n_objects, eid and iid in place, so resetting the events
of a container broke the models that had been trained from it, and it kept
object features whose rows belonged to the previous set of objects.
---
 kamrecsys/data/event.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/kamrecsys/data/event.py b/kamrecsys/data/event.py
index 677dcfa..4a4cd77 100644
--- a/kamrecsys/data/event.py
+++ b/kamrecsys/data/event.py
@@ -205,6 +205,12 @@ class EventData(BaseData, EventUtilMixin):
         event_feature : optional, array_like, shape=(n_events, variable)
             feature of events
         """
+        # object info must be newly allocated, because the old one may be shared
+        # with recommenders trained by using this container
+        self.n_objects = np.zeros(self.n_otypes, dtype=int)
+        self.eid = np.tile(None, self.n_otypes)
+        self.iid = np.tile(None, self.n_otypes)
+        self.feature = np.tile(None, self.n_otypes)
         for otype in xrange(self.n_otypes):
             self.n_objects[otype], self.eid[otype], self.iid[otype] = (
                 self._gen_id(event[:, self.event_otypes == otype]))
-- 
2.43.0


From 803b7b6beaaa54d0213db385fb24094d80fd5cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:57 +0000
Subject: [PATCH 06/29] fix: do not modify the optimizer options passed by a
 caller

Recommenders sharing an options dictionary overwrote each other's maxiter.
---
 kamrecsys/item_finder/matrix_factorization.py     | 4 ++--
 kamrecsys/score_predictor/matrix_factorization.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/kamrecsys/item_finder/matrix_factorization.py b/kamrecsys/item_finder/matrix_factorization.py
index f1e2d48..1ada1c0 100644
--- a/kamrecsys/item_finder/matrix_factorization.py
+++ b/kamrecsys/item_finder/matrix_factorization.py
@@ -127,7 +127,7 @@ class LogisticPMF(BaseExplicitItemFinder):
 
         # optimizer parameter
         self.optimizer_kwargs = optimizer_kwargs
-        self.optimizer_kwargs['options'] = (
+        self.optimizer_kwargs['options'] = dict(
             self.optimizer_kwargs.get('options', {}))
         self.optimizer_kwargs['options']['disp'] = (
             self.optimizer_kwargs['options'].get('disp', False))
@@ -502,7 +502,7 @@ class ImplicitLogisticPMF(BaseImplicitItemFinder):
 
         # optimizer parameter
         self.optimizer_kwargs = optimizer_kwargs
-        self.optimizer_kwargs['options'] = (
+        self.optimizer_kwargs['options'] = dict(
             self.optimizer_kwargs.get('options', {}))
         self.optimizer_kwargs['options']['disp'] = (
             self.optimizer_kwargs['options'].get('disp', False))
diff --git a/kamrecsys/score_predictor/matrix_factorization.py b/kamrecsys/score_predictor/matrix_factorization.py
index 782474a..13d0d64 100644
--- a/kamrecsys/score_predictor/matrix_factorization.py
+++ b/kamrecsys/score_predictor/matrix_factorization.py
@@ -116,7 +116,7 @@ class PMF(BaseScorePredictor):
 
         # optimizer parameter
         self.optimizer_kwargs = optimizer_kwargs
-        self.optimizer_kwargs['options'] = (
+        self.optimizer_kwargs['options'] = dict(
             self.optimizer_kwargs.get('options', {}))
         self.optimizer_kwargs['options']['disp'] = (
             self.optimizer_kwargs['options'].get('disp', False))
-- 
2.43.0


From fd1eeb82add75d5e4aa8a200784365a7bba25f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:35:59 +0000
Subject: [PATCH 07/29] fix: select the used elements of events after
 converting ids in predict()

Columns were selected before the conversion to internal ids, so a model
fitted with event_index other than (0, 1) looked ids up in the tables of wrong
object types, or rejected events.  The default missing values of a recommender
were also wrong, since its n_objects is already arranged by event_index.
---
 kamrecsys/base/base.py  | 5 +++--
 kamrecsys/data/event.py | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/kamrecsys/base/base.py b/kamrecsys/base/base.py
index 239450f..82f2e03 100644
--- a/kamrecsys/base/base.py
+++ b/kamrecsys/base/base.py
@@ -248,9 +248,10 @@ class BaseEventRecommender(
             predicted scores for given inputs
         """
 
-        eev = check_array(np.atleast_2d(eev), dtype=int)[:, self.event_index]
+        eev = check_array(np.atleast_2d(eev), dtype=int)
+        ev = self.to_iid_event(eev)[:, self.event_index]
 
-        return np.squeeze(self.raw_predict(self.to_iid_event(eev)))
+        return np.squeeze(self.raw_predict(ev))
 
 
 # =============================================================================
diff --git a/kamrecsys/data/event.py b/kamrecsys/data/event.py
index 4a4cd77..1cee000 100644
--- a/kamrecsys/data/event.py
+++ b/kamrecsys/data/event.py
@@ -100,7 +100,8 @@ class EventUtilMixin(with_metaclass(ABCMeta, object)):
             Shape of an input array is illegal
         """
         if missing_values is None:
-            missing_values = self.n_objects[self.event_otypes]
+            missing_values = np.array(
+                [len(self.iid[otype]) for otype in self.event_otypes])
         if ev.ndim == 1 and ev.shape[0] == self.s_event:
             new_ev = np.array(
                 [self.iid[self.event_otypes[e]].get(ev[e], missing_values[e])
-- 
2.43.0


From b5dde70a99a8c31d070034337edef35f0c8e7e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:36:32 +0000
Subject: [PATCH 08/29] fix: accept external ids other than integers in
 predict()

predict() forced events to be integers, though containers (for example, the
PCI sample) and models can be built from strings.
---
 kamrecsys/base/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kamrecsys/base/base.py b/kamrecsys/base/base.py
index 82f2e03..919bc27 100644
--- a/kamrecsys/base/base.py
+++ b/kamrecsys/base/base.py
@@ -248,7 +248,10 @@ class BaseEventRecommender(
             predicted scores for given inputs
         """
 
-        eev = check_array(np.atleast_2d(eev), dtype=int)
+        # external ids other than integers are used as they are
+        integer_id = np.issubdtype(self.eid[0].dtype, np.integer)
+        eev = check_array(
+            np.atleast_2d(eev), dtype=int if integer_id else None)
         ev = self.to_iid_event(eev)[:, self.event_index]
 
         return np.squeeze(self.raw_predict(ev))
-- 
2.43.0


From 16b58c062be6d8f8e00335ad7cdbf056c129cf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:39 +0000
Subject: [PATCH 09/29] fix: do not apply event_index twice in
 get_event_array()

fit() has already arranged the events and n_objects by event_index, so an
implicit model fitted with event_index other than (0, 1) was trained on wrong
columns or failed.
---
 kamrecsys/item_finder/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kamrecsys/item_finder/base.py b/kamrecsys/item_finder/base.py
index d9c712b..f859332 100644
--- a/kamrecsys/item_finder/base.py
+++ b/kamrecsys/item_finder/base.py
@@ -165,11 +165,11 @@ class BaseImplicitItemFinder(with_metaclass(ABCMeta, BaseEventRecommender)):
             raise TypeError("illegal type of sparse matrices")
 
         # get number of objects
-        n_objects = self.n_objects[self.event_otypes[self.event_index]]
+        n_objects = self.n_objects
 
         # get event data
-        users = self.event[:, self.event_index[0]]
-        items = self.event[:, self.event_index[1]]
+        users = self.event[:, 0]
+        items = self.event[:, 1]
         scores = np.ones_like(users, dtype=int)
 
         # generate array
-- 
2.43.0


From 94127f37647251d28c31777849ed8f1096ff25fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:41 +0000
Subject: [PATCH 10/29] fix: take 1 for repeated events in the matrix of
 implicit feedback

As documented, an element of the matrix is 1 if an item is consumed.  Counts
of repeated events broke the cross-entropy loss of the implicit model.
---
 kamrecsys/item_finder/base.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kamrecsys/item_finder/base.py b/kamrecsys/item_finder/base.py
index f859332..dbf9b7c 100644
--- a/kamrecsys/item_finder/base.py
+++ b/kamrecsys/item_finder/base.py
@@ -174,13 +174,14 @@ class BaseImplicitItemFinder(with_metaclass(ABCMeta, BaseEventRecommender)):
 
         # generate array
         ev = sparse.coo_matrix((scores, (users, items)), shape=n_objects)
+        ev = ev.tocsr()
+        # repeated events are consumed only once
+        ev.data[:] = 1
         if sparse_type == 'csc':
             ev = ev.tocsc()
-        elif sparse_type == 'csr':
-            ev = ev.tocsr()
         elif sparse_type == 'lil':
             ev = ev.tolil()
-        else:
+        elif sparse_type == 'array':
             ev = ev.toarray()
 
         return ev, n_objects
-- 
2.43.0


From eda7ba8f76fada705eb6717c1870d4feb3226493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:14 +0000
Subject: [PATCH 11/29] fix: report convergence of pLSA at the last permitted
 iteration

A model that converged exactly at the last iteration was reported as a failure,
and without iterations the final loss was infinite after one iteration.
---
 kamrecsys/score_predictor/topic_model.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/kamrecsys/score_predictor/topic_model.py b/kamrecsys/score_predictor/topic_model.py
index 08307b7..6b4ad2a 100644
--- a/kamrecsys/score_predictor/topic_model.py
+++ b/kamrecsys/score_predictor/topic_model.py
@@ -260,8 +260,9 @@ class MultinomialPLSA(BaseScorePredictor):
         tol = self.optimizer_kwargs['tol']
 
         # main loop
-        iter_no = 0
-        cur_loss = np.inf
+        n_iterations = 0
+        converged = False
+        cur_loss = pre_loss
         for iter_no in xrange(maxiter):
 
             # E-Step
@@ -279,27 +280,29 @@ class MultinomialPLSA(BaseScorePredictor):
 
             # check loss
             cur_loss = self.loss(ev, sc)
-            logger.info("iter {:d}: {:.15g}".format(iter_no + 1, cur_loss))
+            n_iterations = iter_no + 1
+            logger.info("iter {:d}: {:.15g}".format(n_iterations, cur_loss))
             precision = np.abs((cur_loss - pre_loss) / cur_loss)
             if precision < tol:
                 logger.info(
                     "Reached to specified tolerance:"
                     " {:.15g}".format(precision))
+                converged = True
                 break
             pre_loss = cur_loss
 
-        if iter_no >= maxiter - 1:
+        if not converged:
             self.fit_results_['status'] = 2
             logger.warning(
                 "Exceeded the maximum number of iterations: {:d}".format(
                     maxiter))
 
         logger.info("final: {:.15g}".format(cur_loss))
-        logger.info("nos of iterations: {:d}".format(iter_no + 1))
+        logger.info("nos of iterations: {:d}".format(n_iterations))
 
         # store fitting results
         self.fit_results_['final_loss'] = cur_loss
-        self.fit_results_['n_iterations'] = iter_no + 1
+        self.fit_results_['n_iterations'] = n_iterations
         self.fit_results_['n_users'] = n_objects[0]
         self.fit_results_['n_items'] = n_objects[1]
         self.fit_results_['n_events'] = self.n_events
-- 
2.43.0


From 772a437a14d00aa075a766ab8930bfb0d136ccac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:16 +0000
Subject: [PATCH 12/29] fix: load files of a single record

np.genfromtxt() returns a zero-dimensional array for a single line.
---
 kamrecsys/datasets/base.py      |  6 ++++--
 kamrecsys/datasets/movielens.py | 16 ++++++++++------
 kamrecsys/datasets/others.py    |  3 ++-
 kamrecsys/datasets/sushi3.py    |  8 +++++---
 4 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/kamrecsys/datasets/base.py b/kamrecsys/datasets/base.py
index 656e128..68fdc1a 100644
--- a/kamrecsys/datasets/base.py
+++ b/kamrecsys/datasets/base.py
@@ -89,7 +89,8 @@ def load_event(infile, n_otypes=2, event_otypes=None, event_dtype=None):
     else:
         dtype = np.dtype([('event', int, s_events),
                           ('event_feature', event_dtype)])
-    x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype)
+    x = np.atleast_1d(
+        np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype))
 
     data = EventData(n_otypes=n_otypes, event_otypes=event_otypes)
     if event_dtype is None:
@@ -141,7 +142,8 @@ def load_event_with_score(
     else:
         dtype = np.dtype([('event', int, s_events), ('score', float),
                           ('event_feature', event_dtype)])
-    x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype)
+    x = np.atleast_1d(
+        np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype))
 
     data = EventWithScoreData(n_otypes=n_otypes, event_otypes=event_otypes)
     if event_dtype is None:
diff --git a/kamrecsys/datasets/movielens.py b/kamrecsys/datasets/movielens.py
index 96725de..75acf27 100644
--- a/kamrecsys/datasets/movielens.py
+++ b/kamrecsys/datasets/movielens.py
@@ -163,7 +163,8 @@ def load_movielens100k(infile=None, event_dtype=event_dtype_timestamp):
     fdtype = np.dtype([('age', int), ('gender', int),
                        ('occupation', int), ('zip', 'U5')])
     dtype = np.dtype([('eid', int), ('feature', fdtype)])
-    x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype)
+    x = np.atleast_1d(
+        np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype))
     data.set_feature(0, x['eid'], x['feature'])
 
     # load item's feature file
@@ -175,8 +176,9 @@ def load_movielens100k(infile=None, event_dtype=event_dtype_timestamp):
                        ('genre', 'i1', 18),
                        ('imdb', 'U134')])
     dtype = np.dtype([('eid', int), ('feature', fdtype)])
-    x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype,
-                      converters={1: np.char.decode})
+    x = np.atleast_1d(
+        np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype,
+                      converters={1: np.char.decode}))
     data.set_feature(1, x['eid'], x['feature'])
 
     return data
@@ -293,7 +295,8 @@ def load_movielens1m(infile=None, event_dtype=event_dtype_timestamp):
     fdtype = np.dtype([('gender', int), ('age', int),
                        ('occupation', int), ('zip', 'U5')])
     dtype = np.dtype([('eid', int), ('feature', fdtype)])
-    x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype)
+    x = np.atleast_1d(
+        np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype))
     data.set_feature(0, x['eid'], x['feature'])
 
     # load item's feature file
@@ -302,8 +305,9 @@ def load_movielens1m(infile=None, event_dtype=event_dtype_timestamp):
                        ('year', int),
                        ('genre', 'i1', 18)])
     dtype = np.dtype([('eid', int), ('feature', fdtype)])
-    x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype,
-                      converters={1: np.char.decode})
+    x = np.atleast_1d(
+        np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype,
+                      converters={1: np.char.decode}))
     data.set_feature(1, x['eid'], x['feature'])
 
     return data
diff --git a/kamrecsys/datasets/others.py b/kamrecsys/datasets/others.py
index 3c13766..68fe61f 100644
--- a/kamrecsys/datasets/others.py
+++ b/kamrecsys/datasets/others.py
@@ -78,7 +78,8 @@ def load_pci_sample(infile=None):
     if infile is None:
         infile = os.path.join(SAMPLE_PATH, 'pci.event')
     dtype = np.dtype([('event', 'U18', 2), ('score', float)])
-    x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype)
+    x = np.atleast_1d(
+        np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype))
     data = EventWithScoreData(n_otypes=2, event_otypes=np.array([0, 1]))
     data.set_event(x['event'], x['score'], score_domain=(1.0, 5.0, 0.5))
     del x
diff --git a/kamrecsys/datasets/sushi3.py b/kamrecsys/datasets/sushi3.py
index 8bb0d9a..693a4a6 100644
--- a/kamrecsys/datasets/sushi3.py
+++ b/kamrecsys/datasets/sushi3.py
@@ -189,7 +189,8 @@ def load_sushi3b_score(infile=None, event_dtype=None):
         ('current_ew', int),
         ('moved', int)])
     dtype = np.dtype([('eid', int), ('feature', fdtype)])
-    x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype)
+    x = np.atleast_1d(
+        np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype))
     data.set_feature(0, x['eid'], x['feature'])
 
     # load item's feature file
@@ -204,8 +205,9 @@ def load_sushi3b_score(infile=None, event_dtype=None):
         ('price', float),
         ('supply', float)])
     dtype = np.dtype([('eid', int), ('feature', fdtype)])
-    x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype,
-                      converters={1: np.char.decode})
+    x = np.atleast_1d(
+        np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype,
+                      converters={1: np.char.decode}))
     data.set_feature(1, x['eid'], x['feature'])
 
     return data
-- 
2.43.0


From 8133965f8f0e1353695f0e70820b321b8601d71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:06 +0000
Subject: [PATCH 13/29] fix: count score levels without being affected by
 rounding errors

For a domain such as (0, 0.3, 0.1), n_score_levels was one too small, so that
score levels were wrong and pLSA could not be trained.
---
 kamrecsys/data/event_with_score.py | 4 +++-
 kamrecsys/metrics/base.py          | 6 ++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/kamrecsys/data/event_with_score.py b/kamrecsys/data/event_with_score.py
index f1340a0..1f5639e 100644
--- a/kamrecsys/data/event_with_score.py
+++ b/kamrecsys/data/event_with_score.py
@@ -154,8 +154,10 @@ class EventWithScoreData(EventData, ScoreUtilMixin):
                 np.max(self.score),
                 np.min(np.diff(np.unique(self.score)))]
         self.score_domain = np.asanyarray(score_domain)
+        # a small value is added, because strides like 0.1 have rounding errors
         self.n_score_levels = (
-            int((score_domain[1] - score_domain[0]) / score_domain[2]) + 1)
+            int((score_domain[1] - score_domain[0]) / score_domain[2] + 1e-6)
+            + 1)
 
     def digitize_score(self, score=None):
         """
diff --git a/kamrecsys/metrics/base.py b/kamrecsys/metrics/base.py
index 295e58a..05a6931 100644
--- a/kamrecsys/metrics/base.py
+++ b/kamrecsys/metrics/base.py
@@ -57,8 +57,10 @@ def generate_score_bins(score_domain):
         bins of histogram. boundaries of bins are placed at the center of
         adjacent scores.
     """
-    bins = np.arange(score_domain[0], score_domain[1], score_domain[2],
-                     dtype=float)
+    # the upper limit is slightly lowered so as not to be included by rounding
+    bins = np.arange(
+        score_domain[0], score_domain[1] - 1e-6 * score_domain[2],
+        score_domain[2], dtype=float)
     bins = np.hstack([-np.inf, bins + score_domain[2] / 2, np.inf])
 
     return bins
-- 
2.43.0


From fe11d2ff647f48cc59992d8d3e9f08ac12bb8549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:09 +0000
Subject: [PATCH 14/29] fix: copy a score domain array given to a container

Updating the array of a caller changed the domain of a container and of
models trained from it.
---
 kamrecsys/data/event_with_score.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kamrecsys/data/event_with_score.py b/kamrecsys/data/event_with_score.py
index 1f5639e..2796353 100644
--- a/kamrecsys/data/event_with_score.py
+++ b/kamrecsys/data/event_with_score.py
@@ -153,7 +153,7 @@ class EventWithScoreData(EventData, ScoreUtilMixin):
                 np.min(self.score),
                 np.max(self.score),
                 np.min(np.diff(np.unique(self.score)))]
-        self.score_domain = np.asanyarray(score_domain)
+        self.score_domain = np.array(score_domain)
         # a small value is added, because strides like 0.1 have rounding errors
         self.n_score_levels = (
             int((score_domain[1] - score_domain[0]) / score_domain[2] + 1e-6)
-- 
2.43.0


From 1383ae38a426e7913cfcd74b70272111536d9e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:11 +0000
Subject: [PATCH 15/29] fix: output a list of predictions for a single test
 event

The results of a fold with only one test event held a bare number, and
their statistics could not be calculated.
---
 scripts/exp_recsys_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/exp_recsys_util.py b/scripts/exp_recsys_util.py
index 3cf12d1..61d71b8 100644
--- a/scripts/exp_recsys_util.py
+++ b/scripts/exp_recsys_util.py
@@ -129,7 +129,7 @@ def testing(rec, ev):
     logger.info("test_start_time = " + res_info['start_time'])
 
     # prediction
-    esc = rec.predict(ev)
+    esc = np.atleast_1d(rec.predict(ev))
 
     # set end and elapsed time
     end_time = datetime.datetime.now()
-- 
2.43.0


From 8a9b14b70d7c65e98a00744ed91539f8c2579f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:39 +0000
Subject: [PATCH 16/29] fix: reject negative internal ids in to_eid()

Negative ids were interpreted as positions from the end of the table, though
ids out of range should raise ValueError.
---
 kamrecsys/data/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kamrecsys/data/base.py b/kamrecsys/data/base.py
index 85be1d9..a816fbd 100644
--- a/kamrecsys/data/base.py
+++ b/kamrecsys/data/base.py
@@ -89,6 +89,8 @@ class ObjectUtilMixin(object):
         ValueError
             an internal id is out of range
         """
+        if iid < 0:
+            raise ValueError("Illegal internal id")
         try:
             return self.eid[otype][iid]
         except IndexError:
-- 
2.43.0


From 4c6f10c11a418c35c073da2c81ffe4b7eba248e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:36 +0000
Subject: [PATCH 17/29] fix: copy event_index given to fit()

A trained model shared the array with a caller, and predict() followed later
updates of it.
---
 kamrecsys/base/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kamrecsys/base/base.py b/kamrecsys/base/base.py
index 919bc27..4438ac0 100644
--- a/kamrecsys/base/base.py
+++ b/kamrecsys/base/base.py
@@ -209,7 +209,7 @@ class BaseEventRecommender(
         if event_index is None:
             self.event_index = np.arange(self.s_event, dtype=int)
         else:
-            self.event_index = np.asanyarray(event_index, dtype=int)
+            self.event_index = np.array(event_index, dtype=int)
 
         # select information about events used for training
         self.event = self.event.take(self.event_index, axis=1)
-- 
2.43.0


From 57705814c3973b06a20c0e17e457be634b7875b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:50 +0000
Subject: [PATCH 18/29] fix: list each score level once regardless of rounding
 errors

For a domain such as (1, 1.3, 0.1), the maximum score appeared twice.
---
 kamrecsys/metrics/real.py            | 5 +++--
 kamrecsys/metrics/score_predictor.py | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/kamrecsys/metrics/real.py b/kamrecsys/metrics/real.py
index cf53762..604b88d 100644
--- a/kamrecsys/metrics/real.py
+++ b/kamrecsys/metrics/real.py
@@ -161,8 +161,9 @@ def score_histogram(x, score_domain=(1, 5, 1)):
         scores = (bins[1:] + bins[:-1]) / 2
     else:
         scores = np.hstack(
-            [np.arange(score_domain[0], score_domain[1], score_domain[2],
-                       dtype=float),
+            [np.arange(score_domain[0],
+                       score_domain[1] - 1e-6 * score_domain[2],
+                       score_domain[2], dtype=float),
              score_domain[1]])
 
     # return statistics
diff --git a/kamrecsys/metrics/score_predictor.py b/kamrecsys/metrics/score_predictor.py
index 9a85d51..2e9f158 100644
--- a/kamrecsys/metrics/score_predictor.py
+++ b/kamrecsys/metrics/score_predictor.py
@@ -142,8 +142,8 @@ def score_predictor_statistics(y_true, y_pred, score_domain=(1, 5, 1)):
 
     # a list of possible score levels
     stats['score levels'] = np.hstack([
-        np.arange(score_domain[0], score_domain[1], score_domain[2],
-                  dtype=float), score_domain[1]])
+        np.arange(score_domain[0], score_domain[1] - 1e-6 * score_domain[2],
+                  score_domain[2], dtype=float), score_domain[1]])
 
     # mean absolute error
     mean, stdev = mean_absolute_error(y_true, y_pred)
-- 
2.43.0


From b7472397b5ae6f1ad199587a7a63ab1dd1148268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:41 +0000
Subject: [PATCH 19/29] fix: train factor models on events of a single user or
 item

---
 kamrecsys/item_finder/matrix_factorization.py     | 8 ++++----
 kamrecsys/score_predictor/matrix_factorization.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/kamrecsys/item_finder/matrix_factorization.py b/kamrecsys/item_finder/matrix_factorization.py
index 1ada1c0..1bdd510 100644
--- a/kamrecsys/item_finder/matrix_factorization.py
+++ b/kamrecsys/item_finder/matrix_factorization.py
@@ -172,8 +172,8 @@ class LogisticPMF(BaseExplicitItemFinder):
         # define dtype for parameters
         self._dt = np.dtype([
             ('mu', float, (1,)),
-            ('bu', float, n_users),
-            ('bi', float, n_items),
+            ('bu', float, (n_users,)),
+            ('bi', float, (n_items,)),
             ('p', float, (n_users, k)),
             ('q', float, (n_items, k))
         ])
@@ -545,8 +545,8 @@ class ImplicitLogisticPMF(BaseImplicitItemFinder):
         # define dtype for parameters
         self._dt = np.dtype([
             ('mu', float, (1,)),
-            ('bu', float, n_users),
-            ('bi', float, n_items),
+            ('bu', float, (n_users,)),
+            ('bi', float, (n_items,)),
             ('p', float, (n_users, k)),
             ('q', float, (n_items, k))
         ])
diff --git a/kamrecsys/score_predictor/matrix_factorization.py b/kamrecsys/score_predictor/matrix_factorization.py
index 13d0d64..b6a6d22 100644
--- a/kamrecsys/score_predictor/matrix_factorization.py
+++ b/kamrecsys/score_predictor/matrix_factorization.py
@@ -161,8 +161,8 @@ class PMF(BaseScorePredictor):
         # define dtype for parameters
         self._dt = np.dtype([
             ('mu', float, (1,)),
-            ('bu', float, n_users),
-            ('bi', float, n_items),
+            ('bu', float, (n_users,)),
+            ('bi', float, (n_items,)),
             ('p', float, (n_users, k)),
             ('q', float, (n_items, k))
         ])
-- 
2.43.0


From a91dfba8c12ad3c59c5ddd97f98d8c2bfdb952b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:50 +0000
Subject: [PATCH 20/29] fix: accept optimizers that do not report numbers of
 iterations or gradient calls

---
 kamrecsys/item_finder/matrix_factorization.py     | 8 ++++----
 kamrecsys/score_predictor/matrix_factorization.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/kamrecsys/item_finder/matrix_factorization.py b/kamrecsys/item_finder/matrix_factorization.py
index 1bdd510..db948ca 100644
--- a/kamrecsys/item_finder/matrix_factorization.py
+++ b/kamrecsys/item_finder/matrix_factorization.py
@@ -381,9 +381,9 @@ class LogisticPMF(BaseExplicitItemFinder):
         self.fit_results_['status'] = res.status
         self.fit_results_['message'] = res.message
         self.fit_results_['final_loss'] = res.fun
-        self.fit_results_['n_iterations'] = res.nit
+        self.fit_results_['n_iterations'] = res.get('nit')
         self.fit_results_['func_calls'] = res.nfev
-        self.fit_results_['grad_calls'] = res.njev
+        self.fit_results_['grad_calls'] = res.get('njev')
         self.fit_results_['optimizer_method'] = optimizer_method
         self.fit_results_['optimizer_kwargs'] = optimizer_kwargs
 
@@ -737,9 +737,9 @@ class ImplicitLogisticPMF(BaseImplicitItemFinder):
         self.fit_results_['status'] = res.status
         self.fit_results_['message'] = res.message
         self.fit_results_['final_loss'] = res.fun
-        self.fit_results_['n_iterations'] = res.nit
+        self.fit_results_['n_iterations'] = res.get('nit')
         self.fit_results_['func_calls'] = res.nfev
-        self.fit_results_['grad_calls'] = res.njev
+        self.fit_results_['grad_calls'] = res.get('njev')
         self.fit_results_['optimizer_method'] = optimizer_method
         self.fit_results_['optimizer_kwargs'] = optimizer_kwargs
 
diff --git a/kamrecsys/score_predictor/matrix_factorization.py b/kamrecsys/score_predictor/matrix_factorization.py
index b6a6d22..f91c81e 100644
--- a/kamrecsys/score_predictor/matrix_factorization.py
+++ b/kamrecsys/score_predictor/matrix_factorization.py
@@ -373,9 +373,9 @@ class PMF(BaseScorePredictor):
         self.fit_results_['status'] = res.status
         self.fit_results_['message'] = res.message
         self.fit_results_['final_loss'] = res.fun
-        self.fit_results_['n_iterations'] = res.nit
+        self.fit_results_['n_iterations'] = res.get('nit')
         self.fit_results_['func_calls'] = res.nfev
-        self.fit_results_['grad_calls'] = res.njev
+        self.fit_results_['grad_calls'] = res.get('njev')
         self.fit_results_['optimizer_method'] = optimizer_method
         self.fit_results_['optimizer_kwargs'] = optimizer_kwargs
 
-- 
2.43.0


From 64d8eab3c979b210585b231a8880ddaf46126246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:04 +0000
Subject: [PATCH 21/29] fix: load events of a single element

---
 kamrecsys/datasets/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kamrecsys/datasets/base.py b/kamrecsys/datasets/base.py
index 68fdc1a..7c85002 100644
--- a/kamrecsys/datasets/base.py
+++ b/kamrecsys/datasets/base.py
@@ -85,9 +85,9 @@ def load_event(infile, n_otypes=2, event_otypes=None, event_dtype=None):
 
     s_events = n_otypes if event_otypes is None else len(event_otypes)
     if event_dtype is None:
-        dtype = np.dtype([('event', int, s_events)])
+        dtype = np.dtype([('event', int, (s_events,))])
     else:
-        dtype = np.dtype([('event', int, s_events),
+        dtype = np.dtype([('event', int, (s_events,)),
                           ('event_feature', event_dtype)])
     x = np.atleast_1d(
         np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype))
@@ -138,9 +138,9 @@ def load_event_with_score(
 
     s_events = n_otypes if event_otypes is None else len(event_otypes)
     if event_dtype is None:
-        dtype = np.dtype([('event', int, s_events), ('score', float)])
+        dtype = np.dtype([('event', int, (s_events,)), ('score', float)])
     else:
-        dtype = np.dtype([('event', int, s_events), ('score', float),
+        dtype = np.dtype([('event', int, (s_events,)), ('score', float),
                           ('event_feature', event_dtype)])
     x = np.atleast_1d(
         np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype))
-- 
2.43.0


From f2166cfa8c0d85c6ca961dff41e977aaa1a87c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:32:42 +0000
Subject: [PATCH 22/29] fix: load names of items including non-ASCII characters

---
 kamrecsys/datasets/movielens.py | 4 ++--
 kamrecsys/datasets/sushi3.py    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/kamrecsys/datasets/movielens.py b/kamrecsys/datasets/movielens.py
index 75acf27..b73d013 100644
--- a/kamrecsys/datasets/movielens.py
+++ b/kamrecsys/datasets/movielens.py
@@ -178,7 +178,7 @@ def load_movielens100k(infile=None, event_dtype=event_dtype_timestamp):
     dtype = np.dtype([('eid', int), ('feature', fdtype)])
     x = np.atleast_1d(
         np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype,
-                      converters={1: np.char.decode}))
+                      encoding='utf-8'))
     data.set_feature(1, x['eid'], x['feature'])
 
     return data
@@ -307,7 +307,7 @@ def load_movielens1m(infile=None, event_dtype=event_dtype_timestamp):
     dtype = np.dtype([('eid', int), ('feature', fdtype)])
     x = np.atleast_1d(
         np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype,
-                      converters={1: np.char.decode}))
+                      encoding='utf-8'))
     data.set_feature(1, x['eid'], x['feature'])
 
     return data
diff --git a/kamrecsys/datasets/sushi3.py b/kamrecsys/datasets/sushi3.py
index 693a4a6..a5d62ed 100644
--- a/kamrecsys/datasets/sushi3.py
+++ b/kamrecsys/datasets/sushi3.py
@@ -207,7 +207,7 @@ def load_sushi3b_score(infile=None, event_dtype=None):
     dtype = np.dtype([('eid', int), ('feature', fdtype)])
     x = np.atleast_1d(
         np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype,
-                      converters={1: np.char.decode}))
+                      encoding='utf-8'))
     data.set_feature(1, x['eid'], x['feature'])
 
     return data
-- 
2.43.0


From 80e1688ea8936458acc1cfecaefc9ae5725c1693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:59 +0000
Subject: [PATCH 23/29] fix: split array-likes other than numpy arrays

---
 kamrecsys/model_selection/split.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/kamrecsys/model_selection/split.py b/kamrecsys/model_selection/split.py
index c84318f..68e69c6 100644
--- a/kamrecsys/model_selection/split.py
+++ b/kamrecsys/model_selection/split.py
@@ -22,6 +22,7 @@ import logging
 
 import numpy as np
 from sklearn.utils import indexable, check_random_state
+from sklearn.utils.validation import _num_samples
 from sklearn.model_selection import (
     BaseCrossValidator, PredefinedSplit, train_test_split, KFold)
 
@@ -161,11 +162,12 @@ class ShuffleSplitWithinGroups(BaseCrossValidator):
 
     def _iter_test_masks(self, X, y=None, groups=None):
         # yields mask array for test splits
-        n_samples = X.shape[0]
+        n_samples = _num_samples(X)
 
         # if groups is not specified, an entire data is specified as one group
         if groups is None:
             groups = np.zeros(n_samples, dtype=int)
+        groups = np.asarray(groups)
 
         # constants
         indices = np.arange(n_samples, dtype=int)
@@ -279,7 +281,7 @@ class KFoldWithinGroups(BaseCrossValidator):
         X, y, groups = indexable(X, y, groups)
 
         # get the number of samples
-        n_samples = X.shape[0]
+        n_samples = _num_samples(X)
         if self.n_splits > n_samples:
             raise ValueError(
                 ("Cannot have number of splits n_splits={0} greater"
@@ -291,11 +293,12 @@ class KFoldWithinGroups(BaseCrossValidator):
 
     def _iter_test_masks(self, X, y=None, groups=None):
         # yields mask array for test splits
-        n_samples = X.shape[0]
+        n_samples = _num_samples(X)
 
         # if groups is not specified, an entire data is specified as one group
         if groups is None:
             groups = np.zeros(n_samples, dtype=int)
+        groups = np.asarray(groups)
 
         # constants
         indices = np.arange(n_samples)
@@ -397,7 +400,7 @@ class InterlacedKFold(BaseCrossValidator):
             The testing set indices for that split.
         """
         X, y, groups = indexable(X, y, groups)
-        n_samples = X.shape[0]
+        n_samples = _num_samples(X)
         if self.n_splits > n_samples:
             raise ValueError(
                 ("Cannot have number of splits n_splits={0} greater"
-- 
2.43.0


From d7cd0cfca40943889d3fe924dc30e3991cf21975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:59:13 +0000
Subject: [PATCH 24/29] fix: pair true and predicted scores of folds by fold in
 statistics

---
 scripts/stats_recsys.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scripts/stats_recsys.py b/scripts/stats_recsys.py
index 8e2eb31..e385963 100644
--- a/scripts/stats_recsys.py
+++ b/scripts/stats_recsys.py
@@ -106,8 +106,11 @@ def do_task(opt):
 
     # merge multi-fold data
     if isinstance(info['prediction']['event'], dict):
-        y_true = np.concatenate(list(info['prediction']['true'].values()))
-        y_pred = np.concatenate(list(info['prediction']['predicted'].values()))
+        folds = list(info['prediction']['true'])
+        y_true = np.concatenate(
+            [info['prediction']['true'][f] for f in folds])
+        y_pred = np.concatenate(
+            [info['prediction']['predicted'][f] for f in folds])
     else:
         y_true = info['prediction']['true']
         y_pred = info['prediction']['predicted']
-- 
2.43.0


From fccdde384de937122dd3820e8e89559562644389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:48:38 +0000
Subject: [PATCH 25/29] fix: accept a single substitute for unknown ids in
 to_iid_event()

---
 kamrecsys/data/event.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kamrecsys/data/event.py b/kamrecsys/data/event.py
index 1cee000..d3b892c 100644
--- a/kamrecsys/data/event.py
+++ b/kamrecsys/data/event.py
@@ -102,6 +102,8 @@ class EventUtilMixin(with_metaclass(ABCMeta, object)):
         if missing_values is None:
             missing_values = np.array(
                 [len(self.iid[otype]) for otype in self.event_otypes])
+        elif np.ndim(missing_values) == 0:
+            missing_values = np.repeat(missing_values, self.s_event)
         if ev.ndim == 1 and ev.shape[0] == self.s_event:
             new_ev = np.array(
                 [self.iid[self.event_otypes[e]].get(ev[e], missing_values[e])
-- 
2.43.0


From 4bb22d4059baa37a5029a104536a542015e03e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:49:24 +0000
Subject: [PATCH 26/29] fix: accept lists of events, ids and features as
 documented

---
 kamrecsys/data/base.py  | 2 +-
 kamrecsys/data/event.py | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/kamrecsys/data/base.py b/kamrecsys/data/base.py
index a816fbd..139cd33 100644
--- a/kamrecsys/data/base.py
+++ b/kamrecsys/data/base.py
@@ -246,7 +246,7 @@ class BaseData(with_metaclass(ABCMeta, ObjectUtilMixin, object)):
         for i, j in enumerate(eid):
             if j in iid:
                 index[iid[j]] = i
-        self.feature[otype] = feature[index].copy()
+        self.feature[otype] = np.asarray(feature)[index].copy()
 
 
 # =============================================================================
diff --git a/kamrecsys/data/event.py b/kamrecsys/data/event.py
index d3b892c..b8ac5f8 100644
--- a/kamrecsys/data/event.py
+++ b/kamrecsys/data/event.py
@@ -62,6 +62,7 @@ class EventUtilMixin(with_metaclass(ABCMeta, object)):
         new_data : array_like
             array whose elements are represented by external ids
         """
+        data = np.asarray(data)
         if data.ndim == 1 and data.shape[0] == self.s_event:
             new_data = np.array(
                 [self.eid[self.event_otypes[e]][data[e]]
@@ -99,6 +100,7 @@ class EventUtilMixin(with_metaclass(ABCMeta, object)):
         TypeError
             Shape of an input array is illegal
         """
+        ev = np.asarray(ev)
         if missing_values is None:
             missing_values = np.array(
                 [len(self.iid[otype]) for otype in self.event_otypes])
@@ -210,6 +212,7 @@ class EventData(BaseData, EventUtilMixin):
         """
         # object info must be newly allocated, because the old one may be shared
         # with recommenders trained by using this container
+        event = np.asarray(event)
         self.n_objects = np.zeros(self.n_otypes, dtype=int)
         self.eid = np.tile(None, self.n_otypes)
         self.iid = np.tile(None, self.n_otypes)
-- 
2.43.0


From 126d4e66b0da5c753e0a57a32cef723516531e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:01:30 +0000
Subject: [PATCH 27/29] fix: binarize scores at the center of the domain into 0
 despite rounding errors

---
 kamrecsys/data/event_with_score.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kamrecsys/data/event_with_score.py b/kamrecsys/data/event_with_score.py
index 2796353..449bfee 100644
--- a/kamrecsys/data/event_with_score.py
+++ b/kamrecsys/data/event_with_score.py
@@ -202,6 +202,8 @@ class EventWithScoreData(EventData, ScoreUtilMixin):
             score_thresh = (
                 (self.score_domain[1] - self.score_domain[0]) / 2 +
                 self.score_domain[0])
+            # scores at the center may deviate from it by rounding errors
+            score_thresh += 1e-6 * self.score_domain[2]
 
         self.score = np.where(self.score <= score_thresh, 0, 1)
         self.score_domain = np.array([0, 1, 1])
-- 
2.43.0


From 50076965f892e70028a79bad9d03f07fc2873c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:58 +0000
Subject: [PATCH 28/29] fix: leave containers as they were when set_event()
 refuses data

An error in set_event(), for example scores of a single value without a
score domain, left new events together with old scores, or no ids at all.
---
 kamrecsys/data/event.py            | 31 +++++++++++++++++-------------
 kamrecsys/data/event_with_score.py | 21 ++++++++++++--------
 2 files changed, 31 insertions(+), 21 deletions(-)

diff --git a/kamrecsys/data/event.py b/kamrecsys/data/event.py
index b8ac5f8..ed3518b 100644
--- a/kamrecsys/data/event.py
+++ b/kamrecsys/data/event.py
@@ -211,26 +211,31 @@ class EventData(BaseData, EventUtilMixin):
             feature of events
         """
         # object info must be newly allocated, because the old one may be shared
-        # with recommenders trained by using this container
+        # with recommenders trained by using this container.  it replaces the
+        # old one after all is prepared, so that refused data change nothing
         event = np.asarray(event)
-        self.n_objects = np.zeros(self.n_otypes, dtype=int)
-        self.eid = np.tile(None, self.n_otypes)
-        self.iid = np.tile(None, self.n_otypes)
-        self.feature = np.tile(None, self.n_otypes)
+        n_objects = np.zeros(self.n_otypes, dtype=int)
+        eid = np.tile(None, self.n_otypes)
+        iid = np.tile(None, self.n_otypes)
         for otype in xrange(self.n_otypes):
-            self.n_objects[otype], self.eid[otype], self.iid[otype] = (
+            n_objects[otype], eid[otype], iid[otype] = (
                 self._gen_id(event[:, self.event_otypes == otype]))
 
-        self.event = np.empty_like(event, dtype=int)
+        iid_event = np.empty_like(event, dtype=int)
         for e in xrange(self.s_event):
-            iid = self.iid[self.event_otypes[e]]
-            self.event[:, e] = [iid[i] for i in event[:, e]]
+            iid_event[:, e] = [
+                iid[self.event_otypes[e]][i] for i in event[:, e]]
 
-        self.n_events = self.event.shape[0]
         if event_feature is not None:
-            self.event_feature = np.asarray(event_feature).copy()
-        else:
-            self.event_feature = None
+            event_feature = np.asarray(event_feature).copy()
+
+        self.n_objects = n_objects
+        self.eid = eid
+        self.iid = iid
+        self.feature = np.tile(None, self.n_otypes)
+        self.event = iid_event
+        self.n_events = self.event.shape[0]
+        self.event_feature = event_feature
 
     def filter_event(self, filter_cond):
         """
diff --git a/kamrecsys/data/event_with_score.py b/kamrecsys/data/event_with_score.py
index 449bfee..1c35f7a 100644
--- a/kamrecsys/data/event_with_score.py
+++ b/kamrecsys/data/event_with_score.py
@@ -145,19 +145,24 @@ class EventWithScoreData(EventData, ScoreUtilMixin):
             feature of events
         """
 
-        super(EventWithScoreData, self).set_event(event, event_feature)
-
-        self.score = np.array(score)
+        score = np.array(score)
         if score_domain is None:
             score_domain = [
-                np.min(self.score),
-                np.max(self.score),
-                np.min(np.diff(np.unique(self.score)))]
-        self.score_domain = np.array(score_domain)
+                np.min(score),
+                np.max(score),
+                np.min(np.diff(np.unique(score)))]
         # a small value is added, because strides like 0.1 have rounding errors
-        self.n_score_levels = (
+        n_score_levels = (
             int((score_domain[1] - score_domain[0]) / score_domain[2] + 1e-6)
             + 1)
+        score_domain = np.array(score_domain)
+
+        # refused scores leave the events in the container as they were
+        super(EventWithScoreData, self).set_event(event, event_feature)
+
+        self.score = score
+        self.score_domain = score_domain
+        self.n_score_levels = n_score_levels
 
     def digitize_score(self, score=None):
         """
-- 
2.43.0


From d12ee3791346695b20049e15cda6902ca8975a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:19 +0000
Subject: [PATCH 29/29] fix: forget the learned parameters before training on
 other data

A training that was interrupted or refused after the ids of the new data
were taken over left the parameters learned from the previous data, and
predictions silently combined the two.
---
 kamrecsys/item_finder/matrix_factorization.py     | 6 ++++++
 kamrecsys/score_predictor/matrix_factorization.py | 3 +++
 kamrecsys/score_predictor/topic_model.py          | 3 +++
 3 files changed, 12 insertions(+)

diff --git a/kamrecsys/item_finder/matrix_factorization.py b/kamrecsys/item_finder/matrix_factorization.py
index db948ca..46fac16 100644
--- a/kamrecsys/item_finder/matrix_factorization.py
+++ b/kamrecsys/item_finder/matrix_factorization.py
@@ -331,6 +331,9 @@ class LogisticPMF(BaseExplicitItemFinder):
             (default=(0, 1))
         """
 
+        # parameters learned from the previous data do not fit to new ids
+        self.mu_ = self.bu_ = self.bi_ = self.p_ = self.q_ = None
+
         # call super class
         super(LogisticPMF, self).fit(data, event_index)
 
@@ -688,6 +691,9 @@ class ImplicitLogisticPMF(BaseImplicitItemFinder):
             (default=(0, 1))
         """
 
+        # parameters learned from the previous data do not fit to new ids
+        self.mu_ = self.bu_ = self.bi_ = self.p_ = self.q_ = None
+
         # call super class
         super(ImplicitLogisticPMF, self).fit(data, event_index)
 
diff --git a/kamrecsys/score_predictor/matrix_factorization.py b/kamrecsys/score_predictor/matrix_factorization.py
index f91c81e..979b577 100644
--- a/kamrecsys/score_predictor/matrix_factorization.py
+++ b/kamrecsys/score_predictor/matrix_factorization.py
@@ -323,6 +323,9 @@ class PMF(BaseScorePredictor):
             (default=(0, 1))
         """
 
+        # parameters learned from the previous data do not fit to new ids
+        self.mu_ = self.bu_ = self.bi_ = self.p_ = self.q_ = None
+
         # call super class
         super(PMF, self).fit(data, event_index)
 
diff --git a/kamrecsys/score_predictor/topic_model.py b/kamrecsys/score_predictor/topic_model.py
index 6b4ad2a..9081f96 100644
--- a/kamrecsys/score_predictor/topic_model.py
+++ b/kamrecsys/score_predictor/topic_model.py
@@ -236,6 +236,9 @@ class MultinomialPLSA(BaseScorePredictor):
         * output intermediate results, if the logging level is lower than INFO
         """
 
+        # parameters learned from the previous data do not fit to new ids
+        self.pZ_ = self.pXgZ_ = self.pYgZ_ = self.pRgZ_ = None
+
         # initialization #####
         super(MultinomialPLSA, self).fit(data, event_index)
 
-- 
2.43.0

