From 6caa9f07d563f0e6c4627f497e6800cace82f178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:30 +0000
Subject: [PATCH 01/27] fix: make model_selection usable with current
 scikit-learn

The private helper _validate_shuffle_split_init is gone, the arguments of
KFold are keyword only, and a random state is rejected without shuffling.
Samples given as a list are accepted too, as documented.
---
 kamrecsys/model_selection/split.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/kamrecsys/model_selection/split.py b/kamrecsys/model_selection/split.py
index f9e311c..364c3be 100644
--- a/kamrecsys/model_selection/split.py
+++ b/kamrecsys/model_selection/split.py
@@ -22,9 +22,9 @@ import logging
 
 import numpy as np
 from sklearn.utils import indexable, check_random_state
+from sklearn.utils.validation import _num_samples
 from sklearn.model_selection import (
     BaseCrossValidator, PredefinedSplit, train_test_split, KFold)
-from sklearn.model_selection._split import _validate_shuffle_split_init
 
 # =============================================================================
 # Metadata variables
@@ -86,7 +86,8 @@ class ShuffleSplitWithinGroups(BaseCrossValidator):
 
         super(ShuffleSplitWithinGroups, self).__init__()
 
-        _validate_shuffle_split_init(test_size, train_size)
+        if test_size is None and train_size is None:
+            raise ValueError("test_size and train_size can not both be None")
         self.n_splits = int(n_splits)
         self.test_size = test_size
         self.train_size = train_size
@@ -128,7 +129,7 @@ class ShuffleSplitWithinGroups(BaseCrossValidator):
 
     def _iter_test_masks(self, X, y=None, groups=None):
         # yields mask array for test splits
-        n_samples = X.shape[0]
+        n_samples = _num_samples(X)
 
         # if groups is not specified, an entire data is specified as one group
         if groups is None:
@@ -246,7 +247,7 @@ class KFoldWithinGroups(BaseCrossValidator):
         X, y, groups = indexable(X, y, groups)
 
         # get the number of samples
-        n_samples = X.shape[0]
+        n_samples = _num_samples(X)
         if self.n_splits > n_samples:
             raise ValueError(
                 ("Cannot have number of splits n_splits={0} greater"
@@ -258,7 +259,7 @@ class KFoldWithinGroups(BaseCrossValidator):
 
     def _iter_test_masks(self, X, y=None, groups=None):
         # yields mask array for test splits
-        n_samples = X.shape[0]
+        n_samples = _num_samples(X)
 
         # if groups is not specified, an entire data is specified as one group
         if groups is None:
@@ -272,7 +273,9 @@ class KFoldWithinGroups(BaseCrossValidator):
         iters = np.empty(group_indices.shape[0], dtype=object)
 
         # generate iterators
-        cv = KFold(self.n_splits, self.shuffle, rng)
+        cv = KFold(
+            n_splits=self.n_splits, shuffle=self.shuffle,
+            random_state=rng if self.shuffle else None)
         for i, g in enumerate(group_indices):
             group_member = indices[groups == g]
             iters[i] = cv.split(group_member)
@@ -362,7 +365,7 @@ class InterlacedKFold(BaseCrossValidator):
             The testing set indices for that split.
         """
         X, y, groups = indexable(X, y, groups)
-        n_samples = X.shape[0]
+        n_samples = _num_samples(X)
         if self.n_splits > n_samples:
             raise ValueError(
                 ("Cannot have number of splits n_splits={0} greater"
-- 
2.43.0


From b9fa90d94db3774e3203c605aca47115b34a7545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:30 +0000
Subject: [PATCH 02/27] fix: drop the encoding argument of json.load, removed
 from Python 3.9

---
 scripts/exp_recsys_fold_merge.py | 4 ++--
 scripts/stats_recsys.py          | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/exp_recsys_fold_merge.py b/scripts/exp_recsys_fold_merge.py
index 9af0720..a580a72 100644
--- a/scripts/exp_recsys_fold_merge.py
+++ b/scripts/exp_recsys_fold_merge.py
@@ -90,7 +90,7 @@ def first_fold(fp):
     """
 
     # load json file of the target fold
-    cv_info = json.load(fp, encoding='utf-8')
+    cv_info = json.load(fp)
 
     # add container of merged information
     cv_info['condition']['merged'] = True
@@ -121,7 +121,7 @@ def rest_fold(fp, cv_info):
     """
 
     # load json file of the target fold
-    info = json.load(fp, encoding='utf-8')
+    info = json.load(fp)
 
     # get fold number
     fold = next(iter(info['training']['results']))
diff --git a/scripts/stats_recsys.py b/scripts/stats_recsys.py
index d588a1e..8e2eb31 100644
--- a/scripts/stats_recsys.py
+++ b/scripts/stats_recsys.py
@@ -102,7 +102,7 @@ def do_task(opt):
     np.seterr(all='ignore')
 
     # load data
-    info = json.load(opt.infile, encoding='utf-8')
+    info = json.load(opt.infile)
 
     # merge multi-fold data
     if isinstance(info['prediction']['event'], dict):
-- 
2.43.0


From 9e537cbbe39552818f52e467389d1c0d6d9381ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:30 +0000
Subject: [PATCH 03/27] fix: predict events with any event_index and
 event_otypes

Events were reduced to the columns of event_index before the conversion into
internal ids, which needs complete events, and the ids of unknown objects were
looked up in numbers of objects that are already rearranged in recommenders.
A scalar missing value is accepted too, as documented.
---
 kamrecsys/base/base.py  | 5 +++--
 kamrecsys/data/event.py | 4 +++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/kamrecsys/base/base.py b/kamrecsys/base/base.py
index 239450f..82f2e03 100644
--- a/kamrecsys/base/base.py
+++ b/kamrecsys/base/base.py
@@ -248,9 +248,10 @@ class BaseEventRecommender(
             predicted scores for given inputs
         """
 
-        eev = check_array(np.atleast_2d(eev), dtype=int)[:, self.event_index]
+        eev = check_array(np.atleast_2d(eev), dtype=int)
+        ev = self.to_iid_event(eev)[:, self.event_index]
 
-        return np.squeeze(self.raw_predict(self.to_iid_event(eev)))
+        return np.squeeze(self.raw_predict(ev))
 
 
 # =============================================================================
diff --git a/kamrecsys/data/event.py b/kamrecsys/data/event.py
index 677dcfa..5a22fee 100644
--- a/kamrecsys/data/event.py
+++ b/kamrecsys/data/event.py
@@ -100,7 +100,9 @@ class EventUtilMixin(with_metaclass(ABCMeta, object)):
             Shape of an input array is illegal
         """
         if missing_values is None:
-            missing_values = self.n_objects[self.event_otypes]
+            missing_values = [len(self.iid[t]) for t in self.event_otypes]
+        else:
+            missing_values = np.broadcast_to(missing_values, (self.s_event,))
         if ev.ndim == 1 and ev.shape[0] == self.s_event:
             new_ev = np.array(
                 [self.iid[self.event_otypes[e]].get(ev[e], missing_values[e])
-- 
2.43.0


From 0aab087e7e9879e4d482f65e25d20ae38a133f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:30 +0000
Subject: [PATCH 04/27] fix: predict events whose external ids are strings

---
 kamrecsys/base/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kamrecsys/base/base.py b/kamrecsys/base/base.py
index 82f2e03..c1d2143 100644
--- a/kamrecsys/base/base.py
+++ b/kamrecsys/base/base.py
@@ -248,7 +248,7 @@ class BaseEventRecommender(
             predicted scores for given inputs
         """
 
-        eev = check_array(np.atleast_2d(eev), dtype=int)
+        eev = check_array(np.atleast_2d(eev), dtype=None)
         ev = self.to_iid_event(eev)[:, self.event_index]
 
         return np.squeeze(self.raw_predict(ev))
-- 
2.43.0


From 3e769a58cfebc1b112a844ab1aca3b14c6e8b1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:30 +0000
Subject: [PATCH 05/27] fix: generate a 0/1 array of implicit feedback for any
 event_index

self.event and self.n_objects are already arranged by event_index, which was
applied twice, and repeated events were counted multiple times.
---
 kamrecsys/item_finder/base.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/kamrecsys/item_finder/base.py b/kamrecsys/item_finder/base.py
index d9c712b..ed7f986 100644
--- a/kamrecsys/item_finder/base.py
+++ b/kamrecsys/item_finder/base.py
@@ -165,11 +165,12 @@ class BaseImplicitItemFinder(with_metaclass(ABCMeta, BaseEventRecommender)):
             raise TypeError("illegal type of sparse matrices")
 
         # get number of objects
-        n_objects = self.n_objects[self.event_otypes[self.event_index]]
+        n_objects = self.n_objects
 
-        # get event data
-        users = self.event[:, self.event_index[0]]
-        items = self.event[:, self.event_index[1]]
+        # get event data, an event may be observed multiple times
+        event = np.unique(self.event, axis=0)
+        users = event[:, 0]
+        items = event[:, 1]
         scores = np.ones_like(users, dtype=int)
 
         # generate array
-- 
2.43.0


From 859060b467e18ef2cc7c8f1ea636873f93f6ffed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:30 +0000
Subject: [PATCH 06/27] fix: keep conversion tables of ids of a fitted
 recommender

The tables were shared with the training data, and were broken if new events
were set to it after fitting.
---
 kamrecsys/data/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kamrecsys/data/base.py b/kamrecsys/data/base.py
index 85be1d9..09269ee 100644
--- a/kamrecsys/data/base.py
+++ b/kamrecsys/data/base.py
@@ -64,9 +64,9 @@ class ObjectUtilMixin(object):
             raise TypeError("input data must data.BaseData class")
 
         self.n_otypes = data.n_otypes
-        self.n_objects = data.n_objects
-        self.eid = data.eid
-        self.iid = data.iid
+        self.n_objects = data.n_objects.copy()
+        self.eid = data.eid.copy()
+        self.iid = data.iid.copy()
 
     def to_eid(self, otype, iid):
         """
-- 
2.43.0


From 5d5284e58a528fec4a78a0b74f3039c6e5b97335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:30 +0000
Subject: [PATCH 07/27] fix: accept lists in statistics_mean

---
 kamrecsys/metrics/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kamrecsys/metrics/base.py b/kamrecsys/metrics/base.py
index 295e58a..203fa45 100644
--- a/kamrecsys/metrics/base.py
+++ b/kamrecsys/metrics/base.py
@@ -92,7 +92,7 @@ def statistics_mean(fun, *arg_list):
             args = [arg[k] for arg in arg_list]
             stats.append(fun(*args))
 
-    elif isinstance(arg_list[0], dict):
+    elif isinstance(arg_list[0], (list, tuple)):
 
         # in a case of list list, collect elements at the same position
         for k in xrange(len(arg_list[0])):
-- 
2.43.0


From 88867745698d678ad9c7a157e717b0ebf7abf162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:23 +0000
Subject: [PATCH 08/27] fix: accept a python int as the number of bins in
 score_histogram

---
 kamrecsys/metrics/real.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/kamrecsys/metrics/real.py b/kamrecsys/metrics/real.py
index cf53762..7e1b05b 100644
--- a/kamrecsys/metrics/real.py
+++ b/kamrecsys/metrics/real.py
@@ -16,6 +16,7 @@ from six.moves import xrange
 # =============================================================================
 
 import logging
+import numbers
 
 import numpy as np
 from sklearn.utils import (
@@ -147,7 +148,7 @@ def score_histogram(x, score_domain=(1, 5, 1)):
 
     # check inputs
     assert_all_finite(x)
-    if isinstance(score_domain, np.integer):
+    if isinstance(score_domain, numbers.Integral):
         bins = score_domain
     else:
         assert_all_finite(score_domain)
@@ -157,7 +158,7 @@ def score_histogram(x, score_domain=(1, 5, 1)):
     hist, bins = np.histogram(x, bins=bins)
 
     # candidates of possible scores
-    if isinstance(score_domain, np.integer):
+    if isinstance(score_domain, numbers.Integral):
         scores = (bins[1:] + bins[:-1]) / 2
     else:
         scores = np.hstack(
-- 
2.43.0


From b5522f0f71ae5680da3ff0f91f2f5270f8cfc63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:23 +0000
Subject: [PATCH 09/27] fix: count score levels robustly to rounding errors

The number of score levels, bins of scores, and score levels in a histogram
were inconsistent if the range of scores divided by the stride suffers from
rounding errors, for example (0, 0.3, 0.1) and (1, 1.3, 0.1).
---
 kamrecsys/data/event_with_score.py   |  5 ++---
 kamrecsys/metrics/__init__.py        |  2 ++
 kamrecsys/metrics/base.py            | 24 ++++++++++++++++++++++--
 kamrecsys/metrics/real.py            |  4 ++--
 kamrecsys/metrics/score_predictor.py |  5 ++---
 5 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/kamrecsys/data/event_with_score.py b/kamrecsys/data/event_with_score.py
index f1340a0..e960dda 100644
--- a/kamrecsys/data/event_with_score.py
+++ b/kamrecsys/data/event_with_score.py
@@ -21,7 +21,7 @@ from abc import ABCMeta
 from six import with_metaclass
 
 from . import EventData
-from ..metrics import generate_score_bins
+from ..metrics import count_score_levels, generate_score_bins
 
 
 # =============================================================================
@@ -154,8 +154,7 @@ class EventWithScoreData(EventData, ScoreUtilMixin):
                 np.max(self.score),
                 np.min(np.diff(np.unique(self.score)))]
         self.score_domain = np.asanyarray(score_domain)
-        self.n_score_levels = (
-            int((score_domain[1] - score_domain[0]) / score_domain[2]) + 1)
+        self.n_score_levels = count_score_levels(score_domain)
 
     def digitize_score(self, score=None):
         """
diff --git a/kamrecsys/metrics/__init__.py b/kamrecsys/metrics/__init__.py
index c3da229..4f52a2f 100644
--- a/kamrecsys/metrics/__init__.py
+++ b/kamrecsys/metrics/__init__.py
@@ -18,6 +18,7 @@ from six.moves import xrange
 import logging
 
 from .base import (
+    count_score_levels,
     generate_score_bins,
     statistics_mean)
 from .real import (
@@ -41,6 +42,7 @@ from .item_finder import (
 # =============================================================================
 
 __all__ = [
+    'count_score_levels',
     'generate_score_bins',
     'statistics_mean',
     'mean_absolute_error',
diff --git a/kamrecsys/metrics/base.py b/kamrecsys/metrics/base.py
index 203fa45..440d0ba 100644
--- a/kamrecsys/metrics/base.py
+++ b/kamrecsys/metrics/base.py
@@ -42,6 +42,26 @@ __all__ = []
 # =============================================================================
 
 
+def count_score_levels(score_domain):
+    """
+    the number of possible score levels in score_domain
+
+    Parameters
+    ----------
+    score_domain : array-like, shape=(3,)
+        a triple of the minimum, the maximum, and strides of the score
+
+    Returns
+    -------
+    n_score_levels : int
+        the number of score levels; rounding errors in the division of the
+        range by the stride are ignored.
+    """
+    n_strides = (score_domain[1] - score_domain[0]) / score_domain[2]
+
+    return int(np.ceil(np.round(n_strides, 6))) + 1
+
+
 def generate_score_bins(score_domain):
     """
     Generate histogram bins for scores from score_domain
@@ -57,8 +77,8 @@ def generate_score_bins(score_domain):
         bins of histogram. boundaries of bins are placed at the center of
         adjacent scores.
     """
-    bins = np.arange(score_domain[0], score_domain[1], score_domain[2],
-                     dtype=float)
+    bins = (score_domain[0] + score_domain[2] *
+            np.arange(count_score_levels(score_domain) - 1, dtype=float))
     bins = np.hstack([-np.inf, bins + score_domain[2] / 2, np.inf])
 
     return bins
diff --git a/kamrecsys/metrics/real.py b/kamrecsys/metrics/real.py
index 7e1b05b..6a86a17 100644
--- a/kamrecsys/metrics/real.py
+++ b/kamrecsys/metrics/real.py
@@ -162,8 +162,8 @@ def score_histogram(x, score_domain=(1, 5, 1)):
         scores = (bins[1:] + bins[:-1]) / 2
     else:
         scores = np.hstack(
-            [np.arange(score_domain[0], score_domain[1], score_domain[2],
-                       dtype=float),
+            [score_domain[0] + score_domain[2] * np.arange(
+                len(bins) - 2, dtype=float),
              score_domain[1]])
 
     # return statistics
diff --git a/kamrecsys/metrics/score_predictor.py b/kamrecsys/metrics/score_predictor.py
index 9a85d51..6f1ee4c 100644
--- a/kamrecsys/metrics/score_predictor.py
+++ b/kamrecsys/metrics/score_predictor.py
@@ -141,9 +141,8 @@ def score_predictor_statistics(y_true, y_pred, score_domain=(1, 5, 1)):
     stats['n_samples'] = y_true.size
 
     # a list of possible score levels
-    stats['score levels'] = np.hstack([
-        np.arange(score_domain[0], score_domain[1], score_domain[2],
-                  dtype=float), score_domain[1]])
+    _, stats['score levels'] = score_histogram(
+        y_true, score_domain=score_domain)
 
     # mean absolute error
     mean, stdev = mean_absolute_error(y_true, y_pred)
-- 
2.43.0


From 2739ac58a63a000e80f20f61f3f48da4326f7011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:23 +0000
Subject: [PATCH 10/27] fix: discard features of old objects when new events
 are set

Rows of the features did not correspond to the new internal ids.
---
 kamrecsys/data/event.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kamrecsys/data/event.py b/kamrecsys/data/event.py
index 5a22fee..09ad37e 100644
--- a/kamrecsys/data/event.py
+++ b/kamrecsys/data/event.py
@@ -211,6 +211,9 @@ class EventData(BaseData, EventUtilMixin):
             self.n_objects[otype], self.eid[otype], self.iid[otype] = (
                 self._gen_id(event[:, self.event_otypes == otype]))
 
+        # features of the previously set objects are no longer valid
+        self.feature = np.tile(None, self.n_otypes)
+
         self.event = np.empty_like(event, dtype=int)
         for e in xrange(self.s_event):
             iid = self.iid[self.event_otypes[e]]
-- 
2.43.0


From 7cb01d42c7914d8b8fca07c3a6b8d0fe47beb6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:23 +0000
Subject: [PATCH 11/27] fix: record the test file and the end time of a test
 correctly

---
 scripts/exp_recsys_util.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/scripts/exp_recsys_util.py b/scripts/exp_recsys_util.py
index 101a426..3cf12d1 100644
--- a/scripts/exp_recsys_util.py
+++ b/scripts/exp_recsys_util.py
@@ -134,7 +134,7 @@ def testing(rec, ev):
     # set end and elapsed time
     end_time = datetime.datetime.now()
     end_utime = os.times()[0]
-    res_info['end_time'] = start_time.isoformat()
+    res_info['end_time'] = end_time.isoformat()
     res_info['elapsed_time'] = end_time - start_time
     res_info['elapsed_utime'] = end_utime - start_utime
     logger.info("test_end_time = " + res_info['end_time'])
@@ -175,7 +175,6 @@ def holdout_test(info, load_data):
     info['training']['n_items'] = (
         train_data.n_objects[train_data.event_otypes[1]])
 
-    info['test']['file'] = info['training']['file']
     info['test']['n_events'] = test_data.n_events
     info['test']['n_users'] = (
         test_data.n_objects[test_data.event_otypes[0]])
-- 
2.43.0


From 0b55ee5d2397c1251ab554bf1b823f01072eda48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:23 +0000
Subject: [PATCH 12/27] fix: keep predictions as an array even if a test set
 has one event

A message for an invalid validation scheme is fixed as well.
---
 scripts/exp_recsys_util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scripts/exp_recsys_util.py b/scripts/exp_recsys_util.py
index 3cf12d1..d056d53 100644
--- a/scripts/exp_recsys_util.py
+++ b/scripts/exp_recsys_util.py
@@ -129,7 +129,7 @@ def testing(rec, ev):
     logger.info("test_start_time = " + res_info['start_time'])
 
     # prediction
-    esc = rec.predict(ev)
+    esc = np.atleast_1d(rec.predict(ev))
 
     # set end and elapsed time
     end_time = datetime.datetime.now()
@@ -320,7 +320,8 @@ def do_task(info, load_data, target_fold=None):
     elif info['condition']['scheme'] == 'cv':
         cv_test(info, load_data, target_fold=target_fold)
     else:
-        raise TypeError("Invalid validation scheme: {0:s}".format(opt.method))
+        raise TypeError("Invalid validation scheme: {0:s}".format(
+            info['condition']['scheme']))
 
     # output information
     outfile = info['condition']['out_file']
-- 
2.43.0


From 1485f9832778fcfba492627c76a6bd58825e0a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:23 +0000
Subject: [PATCH 13/27] fix: load files that consist of a single line or a
 single id column

---
 kamrecsys/datasets/base.py      | 14 ++++++++------
 kamrecsys/datasets/movielens.py | 16 ++++++++++------
 kamrecsys/datasets/others.py    |  3 ++-
 kamrecsys/datasets/sushi3.py    |  8 +++++---
 4 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/kamrecsys/datasets/base.py b/kamrecsys/datasets/base.py
index 656e128..7c85002 100644
--- a/kamrecsys/datasets/base.py
+++ b/kamrecsys/datasets/base.py
@@ -85,11 +85,12 @@ def load_event(infile, n_otypes=2, event_otypes=None, event_dtype=None):
 
     s_events = n_otypes if event_otypes is None else len(event_otypes)
     if event_dtype is None:
-        dtype = np.dtype([('event', int, s_events)])
+        dtype = np.dtype([('event', int, (s_events,))])
     else:
-        dtype = np.dtype([('event', int, s_events),
+        dtype = np.dtype([('event', int, (s_events,)),
                           ('event_feature', event_dtype)])
-    x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype)
+    x = np.atleast_1d(
+        np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype))
 
     data = EventData(n_otypes=n_otypes, event_otypes=event_otypes)
     if event_dtype is None:
@@ -137,11 +138,12 @@ def load_event_with_score(
 
     s_events = n_otypes if event_otypes is None else len(event_otypes)
     if event_dtype is None:
-        dtype = np.dtype([('event', int, s_events), ('score', float)])
+        dtype = np.dtype([('event', int, (s_events,)), ('score', float)])
     else:
-        dtype = np.dtype([('event', int, s_events), ('score', float),
+        dtype = np.dtype([('event', int, (s_events,)), ('score', float),
                           ('event_feature', event_dtype)])
-    x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype)
+    x = np.atleast_1d(
+        np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype))
 
     data = EventWithScoreData(n_otypes=n_otypes, event_otypes=event_otypes)
     if event_dtype is None:
diff --git a/kamrecsys/datasets/movielens.py b/kamrecsys/datasets/movielens.py
index 96725de..75acf27 100644
--- a/kamrecsys/datasets/movielens.py
+++ b/kamrecsys/datasets/movielens.py
@@ -163,7 +163,8 @@ def load_movielens100k(infile=None, event_dtype=event_dtype_timestamp):
     fdtype = np.dtype([('age', int), ('gender', int),
                        ('occupation', int), ('zip', 'U5')])
     dtype = np.dtype([('eid', int), ('feature', fdtype)])
-    x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype)
+    x = np.atleast_1d(
+        np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype))
     data.set_feature(0, x['eid'], x['feature'])
 
     # load item's feature file
@@ -175,8 +176,9 @@ def load_movielens100k(infile=None, event_dtype=event_dtype_timestamp):
                        ('genre', 'i1', 18),
                        ('imdb', 'U134')])
     dtype = np.dtype([('eid', int), ('feature', fdtype)])
-    x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype,
-                      converters={1: np.char.decode})
+    x = np.atleast_1d(
+        np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype,
+                      converters={1: np.char.decode}))
     data.set_feature(1, x['eid'], x['feature'])
 
     return data
@@ -293,7 +295,8 @@ def load_movielens1m(infile=None, event_dtype=event_dtype_timestamp):
     fdtype = np.dtype([('gender', int), ('age', int),
                        ('occupation', int), ('zip', 'U5')])
     dtype = np.dtype([('eid', int), ('feature', fdtype)])
-    x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype)
+    x = np.atleast_1d(
+        np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype))
     data.set_feature(0, x['eid'], x['feature'])
 
     # load item's feature file
@@ -302,8 +305,9 @@ def load_movielens1m(infile=None, event_dtype=event_dtype_timestamp):
                        ('year', int),
                        ('genre', 'i1', 18)])
     dtype = np.dtype([('eid', int), ('feature', fdtype)])
-    x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype,
-                      converters={1: np.char.decode})
+    x = np.atleast_1d(
+        np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype,
+                      converters={1: np.char.decode}))
     data.set_feature(1, x['eid'], x['feature'])
 
     return data
diff --git a/kamrecsys/datasets/others.py b/kamrecsys/datasets/others.py
index 3c13766..68fe61f 100644
--- a/kamrecsys/datasets/others.py
+++ b/kamrecsys/datasets/others.py
@@ -78,7 +78,8 @@ def load_pci_sample(infile=None):
     if infile is None:
         infile = os.path.join(SAMPLE_PATH, 'pci.event')
     dtype = np.dtype([('event', 'U18', 2), ('score', float)])
-    x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype)
+    x = np.atleast_1d(
+        np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype))
     data = EventWithScoreData(n_otypes=2, event_otypes=np.array([0, 1]))
     data.set_event(x['event'], x['score'], score_domain=(1.0, 5.0, 0.5))
     del x
diff --git a/kamrecsys/datasets/sushi3.py b/kamrecsys/datasets/sushi3.py
index 8bb0d9a..693a4a6 100644
--- a/kamrecsys/datasets/sushi3.py
+++ b/kamrecsys/datasets/sushi3.py
@@ -189,7 +189,8 @@ def load_sushi3b_score(infile=None, event_dtype=None):
         ('current_ew', int),
         ('moved', int)])
     dtype = np.dtype([('eid', int), ('feature', fdtype)])
-    x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype)
+    x = np.atleast_1d(
+        np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype))
     data.set_feature(0, x['eid'], x['feature'])
 
     # load item's feature file
@@ -204,8 +205,9 @@ def load_sushi3b_score(infile=None, event_dtype=None):
         ('price', float),
         ('supply', float)])
     dtype = np.dtype([('eid', int), ('feature', fdtype)])
-    x = np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype,
-                      converters={1: np.char.decode})
+    x = np.atleast_1d(
+        np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype,
+                      converters={1: np.char.decode}))
     data.set_feature(1, x['eid'], x['feature'])
 
     return data
-- 
2.43.0


From 68965b7053d54ffce22521358265abcced8fbfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:23 +0000
Subject: [PATCH 14/27] fix: reject non-finite values in
 variance_with_gamma_prior on request

Sums of squares of small integer types no longer overflow.
---
 kamrecsys/metrics/real.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/kamrecsys/metrics/real.py b/kamrecsys/metrics/real.py
index 6a86a17..c0d5bf9 100644
--- a/kamrecsys/metrics/real.py
+++ b/kamrecsys/metrics/real.py
@@ -218,12 +218,13 @@ def variance_with_gamma_prior(
     """
 
     # arrange inputs
+    x = np.asarray(x, dtype=float).ravel()
     if force_all_finite:
-        x = as_float_array(x).ravel()
+        assert_all_finite(x)
     else:
         x = np.compress(np.isfinite(x), x)
-        if x.size < 1:
-            raise ValueError('Found array with 0 sample.')
+    if x.size < 1:
+        raise ValueError('Found array with 0 sample.')
 
     # calc variance
     n = x.size
-- 
2.43.0


From 944da66600515adf462ae43192187e1cd9a8f7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:23 +0000
Subject: [PATCH 15/27] fix: display reports of scores whose type is not a
 double

---
 kamrecsys/metrics/item_finder.py     | 2 +-
 kamrecsys/metrics/score_predictor.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/kamrecsys/metrics/item_finder.py b/kamrecsys/metrics/item_finder.py
index cb2feaa..b3e4065 100644
--- a/kamrecsys/metrics/item_finder.py
+++ b/kamrecsys/metrics/item_finder.py
@@ -99,7 +99,7 @@ def item_finder_report(y_true, y_pred, disp=True):
         print(
             json.dumps(
                 stats, sort_keys=True, indent=4, separators=(',', ': '),
-                ensure_ascii=False), file=sys.stderr)
+                ensure_ascii=False, default=float), file=sys.stderr)
 
     return stats
 
diff --git a/kamrecsys/metrics/score_predictor.py b/kamrecsys/metrics/score_predictor.py
index 6f1ee4c..798bb17 100644
--- a/kamrecsys/metrics/score_predictor.py
+++ b/kamrecsys/metrics/score_predictor.py
@@ -95,7 +95,7 @@ def score_predictor_report(y_true, y_pred, disp=True):
     if disp:
         print(json.dumps(
             stats, sort_keys=True, indent=4, separators=(',', ': '),
-            ensure_ascii=False),
+            ensure_ascii=False, default=float),
             file=sys.stderr)
 
     return stats
-- 
2.43.0


From 2d4c5c0ee73500c876d42b1f3144d0d7952fc90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:53 +0000
Subject: [PATCH 16/27] fix: reject unsuitable data before a recommender is
 changed

A failed fit left a recommender with tables of ids of the rejected data and
parameters of the previous data.  Data without scores raise TypeError.
---
 kamrecsys/item_finder/base.py     | 7 +++++--
 kamrecsys/score_predictor/base.py | 3 +++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/kamrecsys/item_finder/base.py b/kamrecsys/item_finder/base.py
index ed7f986..6f5c89a 100644
--- a/kamrecsys/item_finder/base.py
+++ b/kamrecsys/item_finder/base.py
@@ -23,7 +23,7 @@ from scipy import sparse as sparse
 from six import with_metaclass
 
 from ..base import BaseEventRecommender
-from ..data import EventData, ScoreUtilMixin
+from ..data import EventData, EventWithScoreData, ScoreUtilMixin
 from ..utils import is_binary_score
 
 # =============================================================================
@@ -118,7 +118,8 @@ class BaseExplicitItemFinder(
             only 0 or 1, at least one 0 or 1 must be contained, and the
             number of score levels are 2
         """
-        super(BaseExplicitItemFinder, self).fit(data, event_index)
+        if not isinstance(data, EventWithScoreData):
+            raise TypeError("input data must data.EventWithScoreData class")
 
         # check whether scores are binary
         if (
@@ -127,6 +128,8 @@ class BaseExplicitItemFinder(
                 (data.n_score_levels != 2)):
             raise ValueError('Scores are not binary type')
 
+        super(BaseExplicitItemFinder, self).fit(data, event_index)
+
         # set object information in data
         self._set_score_info(data)
 
diff --git a/kamrecsys/score_predictor/base.py b/kamrecsys/score_predictor/base.py
index c5087d2..9ddddd7 100644
--- a/kamrecsys/score_predictor/base.py
+++ b/kamrecsys/score_predictor/base.py
@@ -110,6 +110,9 @@ class BaseScorePredictor(
             a set of indexes to specify the elements in events that are used
             in a recommendation model
         """
+        if not isinstance(data, EventWithScoreData):
+            raise TypeError("input data must data.EventWithScoreData class")
+
         super(BaseScorePredictor, self).fit(data, event_index)
 
         # set object information in data
-- 
2.43.0


From 474c2d6b2b11965e8be00a3b134688a7e109ab2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:53 +0000
Subject: [PATCH 17/27] fix: report status of fitting of MultinomialPLSA
 truthfully

Convergence at the last permitted iteration was reported as a failure, and the
loss and the number of iterations were wrong if no iteration is permitted.
---
 kamrecsys/score_predictor/topic_model.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/kamrecsys/score_predictor/topic_model.py b/kamrecsys/score_predictor/topic_model.py
index 08307b7..5f83ef7 100644
--- a/kamrecsys/score_predictor/topic_model.py
+++ b/kamrecsys/score_predictor/topic_model.py
@@ -260,8 +260,8 @@ class MultinomialPLSA(BaseScorePredictor):
         tol = self.optimizer_kwargs['tol']
 
         # main loop
-        iter_no = 0
-        cur_loss = np.inf
+        n_iterations = 0
+        cur_loss = pre_loss
         for iter_no in xrange(maxiter):
 
             # E-Step
@@ -279,6 +279,7 @@ class MultinomialPLSA(BaseScorePredictor):
 
             # check loss
             cur_loss = self.loss(ev, sc)
+            n_iterations = iter_no + 1
             logger.info("iter {:d}: {:.15g}".format(iter_no + 1, cur_loss))
             precision = np.abs((cur_loss - pre_loss) / cur_loss)
             if precision < tol:
@@ -287,19 +288,18 @@ class MultinomialPLSA(BaseScorePredictor):
                     " {:.15g}".format(precision))
                 break
             pre_loss = cur_loss
-
-        if iter_no >= maxiter - 1:
+        else:
             self.fit_results_['status'] = 2
             logger.warning(
                 "Exceeded the maximum number of iterations: {:d}".format(
                     maxiter))
 
         logger.info("final: {:.15g}".format(cur_loss))
-        logger.info("nos of iterations: {:d}".format(iter_no + 1))
+        logger.info("nos of iterations: {:d}".format(n_iterations))
 
         # store fitting results
         self.fit_results_['final_loss'] = cur_loss
-        self.fit_results_['n_iterations'] = iter_no + 1
+        self.fit_results_['n_iterations'] = n_iterations
         self.fit_results_['n_users'] = n_objects[0]
         self.fit_results_['n_items'] = n_objects[1]
         self.fit_results_['n_events'] = self.n_events
-- 
2.43.0


From 82bb3e04493c4fd6c59778edeff662eaa0e22d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:53 +0000
Subject: [PATCH 18/27] fix: reject negative internal ids in to_eid

---
 kamrecsys/data/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kamrecsys/data/base.py b/kamrecsys/data/base.py
index 09269ee..3b0b0a4 100644
--- a/kamrecsys/data/base.py
+++ b/kamrecsys/data/base.py
@@ -89,6 +89,8 @@ class ObjectUtilMixin(object):
         ValueError
             an internal id is out of range
         """
+        if iid < 0:
+            raise ValueError("Illegal internal id")
         try:
             return self.eid[otype][iid]
         except IndexError:
-- 
2.43.0


From 179c8a25bacf0f686f4854f2a277f566858e06aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:53 +0000
Subject: [PATCH 19/27] fix: keep a caller's dictionary of optimizer's options
 unchanged

---
 kamrecsys/item_finder/matrix_factorization.py     | 4 ++--
 kamrecsys/score_predictor/matrix_factorization.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/kamrecsys/item_finder/matrix_factorization.py b/kamrecsys/item_finder/matrix_factorization.py
index f1e2d48..6cae209 100644
--- a/kamrecsys/item_finder/matrix_factorization.py
+++ b/kamrecsys/item_finder/matrix_factorization.py
@@ -128,7 +128,7 @@ class LogisticPMF(BaseExplicitItemFinder):
         # optimizer parameter
         self.optimizer_kwargs = optimizer_kwargs
         self.optimizer_kwargs['options'] = (
-            self.optimizer_kwargs.get('options', {}))
+            self.optimizer_kwargs.get('options', {}).copy())
         self.optimizer_kwargs['options']['disp'] = (
             self.optimizer_kwargs['options'].get('disp', False))
         opt_maxiter = self.optimizer_kwargs.pop('maxiter', None)
@@ -503,7 +503,7 @@ class ImplicitLogisticPMF(BaseImplicitItemFinder):
         # optimizer parameter
         self.optimizer_kwargs = optimizer_kwargs
         self.optimizer_kwargs['options'] = (
-            self.optimizer_kwargs.get('options', {}))
+            self.optimizer_kwargs.get('options', {}).copy())
         self.optimizer_kwargs['options']['disp'] = (
             self.optimizer_kwargs['options'].get('disp', False))
         opt_maxiter = self.optimizer_kwargs.pop('maxiter', None)
diff --git a/kamrecsys/score_predictor/matrix_factorization.py b/kamrecsys/score_predictor/matrix_factorization.py
index 782474a..dc2e364 100644
--- a/kamrecsys/score_predictor/matrix_factorization.py
+++ b/kamrecsys/score_predictor/matrix_factorization.py
@@ -117,7 +117,7 @@ class PMF(BaseScorePredictor):
         # optimizer parameter
         self.optimizer_kwargs = optimizer_kwargs
         self.optimizer_kwargs['options'] = (
-            self.optimizer_kwargs.get('options', {}))
+            self.optimizer_kwargs.get('options', {}).copy())
         self.optimizer_kwargs['options']['disp'] = (
             self.optimizer_kwargs['options'].get('disp', False))
         opt_maxiter = self.optimizer_kwargs.pop('maxiter', None)
-- 
2.43.0


From 115c392d108f9984134ebc483abfa7baebc98a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:53 +0000
Subject: [PATCH 20/27] fix: copy score_domain and event_index given by a
 caller

---
 kamrecsys/base/base.py             | 2 +-
 kamrecsys/data/event_with_score.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/kamrecsys/base/base.py b/kamrecsys/base/base.py
index c1d2143..8ee49a7 100644
--- a/kamrecsys/base/base.py
+++ b/kamrecsys/base/base.py
@@ -209,7 +209,7 @@ class BaseEventRecommender(
         if event_index is None:
             self.event_index = np.arange(self.s_event, dtype=int)
         else:
-            self.event_index = np.asanyarray(event_index, dtype=int)
+            self.event_index = np.array(event_index, dtype=int)
 
         # select information about events used for training
         self.event = self.event.take(self.event_index, axis=1)
diff --git a/kamrecsys/data/event_with_score.py b/kamrecsys/data/event_with_score.py
index e960dda..0c7621c 100644
--- a/kamrecsys/data/event_with_score.py
+++ b/kamrecsys/data/event_with_score.py
@@ -153,7 +153,7 @@ class EventWithScoreData(EventData, ScoreUtilMixin):
                 np.min(self.score),
                 np.max(self.score),
                 np.min(np.diff(np.unique(self.score)))]
-        self.score_domain = np.asanyarray(score_domain)
+        self.score_domain = np.array(score_domain)
         self.n_score_levels = count_score_levels(score_domain)
 
     def digitize_score(self, score=None):
-- 
2.43.0


From d7255c18b46e21531c9f19b7d0f98a4e45becb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:53 +0000
Subject: [PATCH 21/27] fix: keep booleans of numpy in json_decodable

---
 kamrecsys/utils/kamexputils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kamrecsys/utils/kamexputils.py b/kamrecsys/utils/kamexputils.py
index c49553d..dbe06c6 100644
--- a/kamrecsys/utils/kamexputils.py
+++ b/kamrecsys/utils/kamexputils.py
@@ -72,6 +72,8 @@ def json_decodable(x):
             elif issparse(v):
                 x[k] = v.toarray().tolist()
                 json_decodable(x[k])
+            elif isinstance(v, np.bool_):
+                x[k] = bool(v)
             elif isinstance(v, np.integer):
                 x[k] = int(v)
             elif isinstance(v, np.floating):
@@ -90,6 +92,8 @@ def json_decodable(x):
             elif issparse(v):
                 x[k] = v.toarray().tolist()
                 json_decodable(x[k])
+            elif isinstance(v, np.bool_):
+                x[k] = bool(v)
             elif isinstance(v, np.integer):
                 x[k] = int(v)
             elif isinstance(v, np.floating):
-- 
2.43.0


From 187a676496d8cac5fa20f9768f23c235408aa9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:20 +0000
Subject: [PATCH 22/27] fix: respect train_size of ShuffleSplitWithinGroups

The complement of a test set was used for training even if both of train_size
and test_size were specified.
---
 kamrecsys/model_selection/split.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/kamrecsys/model_selection/split.py b/kamrecsys/model_selection/split.py
index 364c3be..806cdee 100644
--- a/kamrecsys/model_selection/split.py
+++ b/kamrecsys/model_selection/split.py
@@ -123,12 +123,11 @@ class ShuffleSplitWithinGroups(BaseCrossValidator):
         # check arguments
         X, y, groups = indexable(X, y, groups)
 
-        for train, test in super(
-                ShuffleSplitWithinGroups, self).split(X, y, groups):
-            yield train, test
+        for train, test in self._iter_train_test_masks(X, y, groups):
+            yield np.flatnonzero(train), np.flatnonzero(test)
 
-    def _iter_test_masks(self, X, y=None, groups=None):
-        # yields mask array for test splits
+    def _iter_train_test_masks(self, X, y=None, groups=None):
+        # yields mask arrays for training and test splits
         n_samples = _num_samples(X)
 
         # if groups is not specified, an entire data is specified as one group
@@ -137,20 +136,23 @@ class ShuffleSplitWithinGroups(BaseCrossValidator):
 
         # constants
         indices = np.arange(n_samples, dtype=int)
+        train_fold = np.empty(n_samples, dtype=bool)
         test_fold = np.empty(n_samples, dtype=bool)
         rng = check_random_state(self.random_state)
         group_indices = np.unique(groups)
 
         # generate training and test splits
         for fold in xrange(self.n_splits):
+            train_fold[:] = False
             test_fold[:] = False
             for i, g in enumerate(group_indices):
                 train_i, test_i = train_test_split(
                     indices[groups == g],
                     test_size=self.test_size, train_size=self.train_size,
                     shuffle=self.shuffle, random_state=rng)
+                train_fold[train_i] = True
                 test_fold[test_i] = True
-            yield test_fold
+            yield train_fold, test_fold
 
     def get_n_splits(self, X=None, y=None, groups=None):
         """Returns the number of splitting iterations in the cross-validator
-- 
2.43.0


From 8d8404dcde8277963798f107b8227cc73367be54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:49 +0000
Subject: [PATCH 23/27] fix: fit factorization models to data of a single user
 or item

---
 kamrecsys/item_finder/matrix_factorization.py     | 8 ++++----
 kamrecsys/score_predictor/matrix_factorization.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/kamrecsys/item_finder/matrix_factorization.py b/kamrecsys/item_finder/matrix_factorization.py
index 6cae209..10de736 100644
--- a/kamrecsys/item_finder/matrix_factorization.py
+++ b/kamrecsys/item_finder/matrix_factorization.py
@@ -172,8 +172,8 @@ class LogisticPMF(BaseExplicitItemFinder):
         # define dtype for parameters
         self._dt = np.dtype([
             ('mu', float, (1,)),
-            ('bu', float, n_users),
-            ('bi', float, n_items),
+            ('bu', float, (n_users,)),
+            ('bi', float, (n_items,)),
             ('p', float, (n_users, k)),
             ('q', float, (n_items, k))
         ])
@@ -545,8 +545,8 @@ class ImplicitLogisticPMF(BaseImplicitItemFinder):
         # define dtype for parameters
         self._dt = np.dtype([
             ('mu', float, (1,)),
-            ('bu', float, n_users),
-            ('bi', float, n_items),
+            ('bu', float, (n_users,)),
+            ('bi', float, (n_items,)),
             ('p', float, (n_users, k)),
             ('q', float, (n_items, k))
         ])
diff --git a/kamrecsys/score_predictor/matrix_factorization.py b/kamrecsys/score_predictor/matrix_factorization.py
index dc2e364..eaebde9 100644
--- a/kamrecsys/score_predictor/matrix_factorization.py
+++ b/kamrecsys/score_predictor/matrix_factorization.py
@@ -161,8 +161,8 @@ class PMF(BaseScorePredictor):
         # define dtype for parameters
         self._dt = np.dtype([
             ('mu', float, (1,)),
-            ('bu', float, n_users),
-            ('bi', float, n_items),
+            ('bu', float, (n_users,)),
+            ('bi', float, (n_items,)),
             ('p', float, (n_users, k)),
             ('q', float, (n_items, k))
         ])
-- 
2.43.0


From 2b802031153981409263cc0b605df5b46857f353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:44:46 +0000
Subject: [PATCH 24/27] fix: keep non-ascii letters of item names in sample
 data sets

---
 kamrecsys/datasets/movielens.py | 4 ++--
 kamrecsys/datasets/sushi3.py    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/kamrecsys/datasets/movielens.py b/kamrecsys/datasets/movielens.py
index 75acf27..b73d013 100644
--- a/kamrecsys/datasets/movielens.py
+++ b/kamrecsys/datasets/movielens.py
@@ -178,7 +178,7 @@ def load_movielens100k(infile=None, event_dtype=event_dtype_timestamp):
     dtype = np.dtype([('eid', int), ('feature', fdtype)])
     x = np.atleast_1d(
         np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype,
-                      converters={1: np.char.decode}))
+                      encoding='utf-8'))
     data.set_feature(1, x['eid'], x['feature'])
 
     return data
@@ -307,7 +307,7 @@ def load_movielens1m(infile=None, event_dtype=event_dtype_timestamp):
     dtype = np.dtype([('eid', int), ('feature', fdtype)])
     x = np.atleast_1d(
         np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype,
-                      converters={1: np.char.decode}))
+                      encoding='utf-8'))
     data.set_feature(1, x['eid'], x['feature'])
 
     return data
diff --git a/kamrecsys/datasets/sushi3.py b/kamrecsys/datasets/sushi3.py
index 693a4a6..a5d62ed 100644
--- a/kamrecsys/datasets/sushi3.py
+++ b/kamrecsys/datasets/sushi3.py
@@ -207,7 +207,7 @@ def load_sushi3b_score(infile=None, event_dtype=None):
     dtype = np.dtype([('eid', int), ('feature', fdtype)])
     x = np.atleast_1d(
         np.genfromtxt(fname=infile, delimiter='\t', dtype=dtype,
-                      converters={1: np.char.decode}))
+                      encoding='utf-8'))
     data.set_feature(1, x['eid'], x['feature'])
 
     return data
-- 
2.43.0


From f7718df70c2a274c01714e5102d3c4d0491ba39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:00:39 +0000
Subject: [PATCH 25/27] fix: convert sparse matrices in the dok format for json
 output

---
 kamrecsys/utils/kamexputils.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/kamrecsys/utils/kamexputils.py b/kamrecsys/utils/kamexputils.py
index dbe06c6..fca33a2 100644
--- a/kamrecsys/utils/kamexputils.py
+++ b/kamrecsys/utils/kamexputils.py
@@ -64,14 +64,15 @@ def json_decodable(x):
 
     if isinstance(x, dict):
         for k, v in x.items():
-            if isinstance(v, (dict, list)):
+            if issparse(v):
+                # a dok_matrix is also an instance of dict
+                x[k] = v.toarray().tolist()
+                json_decodable(x[k])
+            elif isinstance(v, (dict, list)):
                 json_decodable(v)
             elif isinstance(v, np.ndarray):
                 x[k] = v.tolist()
                 json_decodable(x[k])
-            elif issparse(v):
-                x[k] = v.toarray().tolist()
-                json_decodable(x[k])
             elif isinstance(v, np.bool_):
                 x[k] = bool(v)
             elif isinstance(v, np.integer):
@@ -84,14 +85,15 @@ def json_decodable(x):
                 x[k] = str(v)
     elif isinstance(x, list):
         for k, v in enumerate(x):
-            if isinstance(v, (dict, list)):
+            if issparse(v):
+                # a dok_matrix is also an instance of dict
+                x[k] = v.toarray().tolist()
+                json_decodable(x[k])
+            elif isinstance(v, (dict, list)):
                 json_decodable(v)
             elif isinstance(v, np.ndarray):
                 x[k] = v.tolist()
                 json_decodable(x[k])
-            elif issparse(v):
-                x[k] = v.toarray().tolist()
-                json_decodable(x[k])
             elif isinstance(v, np.bool_):
                 x[k] = bool(v)
             elif isinstance(v, np.integer):
-- 
2.43.0


From 887c3ae3a076821bf0ae013d11051d063ee7d3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:43:18 +0000
Subject: [PATCH 26/27] fix: accept group labels given as lists of names in
 splitters

---
 kamrecsys/model_selection/split.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kamrecsys/model_selection/split.py b/kamrecsys/model_selection/split.py
index 806cdee..07be5e9 100644
--- a/kamrecsys/model_selection/split.py
+++ b/kamrecsys/model_selection/split.py
@@ -133,6 +133,7 @@ class ShuffleSplitWithinGroups(BaseCrossValidator):
         # if groups is not specified, an entire data is specified as one group
         if groups is None:
             groups = np.zeros(n_samples, dtype=int)
+        groups = np.asarray(groups)
 
         # constants
         indices = np.arange(n_samples, dtype=int)
@@ -266,6 +267,7 @@ class KFoldWithinGroups(BaseCrossValidator):
         # if groups is not specified, an entire data is specified as one group
         if groups is None:
             groups = np.zeros(n_samples, dtype=int)
+        groups = np.asarray(groups)
 
         # constants
         indices = np.arange(n_samples)
-- 
2.43.0


From c3d9e967f7ef7a582757f214d7c6fa29c97a7388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:45:31 +0000
Subject: [PATCH 27/27] fix: accept lists in methods of containers documented
 to take array-likes

---
 kamrecsys/data/base.py  | 2 ++
 kamrecsys/data/event.py | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/kamrecsys/data/base.py b/kamrecsys/data/base.py
index 3b0b0a4..b9f58d0 100644
--- a/kamrecsys/data/base.py
+++ b/kamrecsys/data/base.py
@@ -246,6 +246,8 @@ class BaseData(with_metaclass(ABCMeta, ObjectUtilMixin, object)):
         for i, j in enumerate(eid):
             if j in iid:
                 index[iid[j]] = i
+        if isinstance(feature, (list, tuple)):
+            feature = np.asarray(feature)
         self.feature[otype] = feature[index].copy()
 
 
diff --git a/kamrecsys/data/event.py b/kamrecsys/data/event.py
index 09ad37e..56e367c 100644
--- a/kamrecsys/data/event.py
+++ b/kamrecsys/data/event.py
@@ -62,6 +62,7 @@ class EventUtilMixin(with_metaclass(ABCMeta, object)):
         new_data : array_like
             array whose elements are represented by external ids
         """
+        data = np.asarray(data)
         if data.ndim == 1 and data.shape[0] == self.s_event:
             new_data = np.array(
                 [self.eid[self.event_otypes[e]][data[e]]
@@ -103,6 +104,7 @@ class EventUtilMixin(with_metaclass(ABCMeta, object)):
             missing_values = [len(self.iid[t]) for t in self.event_otypes]
         else:
             missing_values = np.broadcast_to(missing_values, (self.s_event,))
+        ev = np.asarray(ev)
         if ev.ndim == 1 and ev.shape[0] == self.s_event:
             new_ev = np.array(
                 [self.iid[self.event_otypes[e]].get(ev[e], missing_values[e])
@@ -207,6 +209,7 @@ class EventData(BaseData, EventUtilMixin):
         event_feature : optional, array_like, shape=(n_events, variable)
             feature of events
         """
+        event = np.asarray(event)
         for otype in xrange(self.n_otypes):
             self.n_objects[otype], self.eid[otype], self.iid[otype] = (
                 self._gen_id(event[:, self.event_otypes == otype]))
-- 
2.43.0

