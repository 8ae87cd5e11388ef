From c7ea7038740a4047e44b41cc2c354db9d97b5b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:31 +0000
Subject: [PATCH 01/85] fix: cross-validation folds partition the corpus when
 its size is not a multiple of the fold count

---
 sidetopics/model/common.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 3ec49ee..da3ee81 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -4,7 +4,6 @@ import numpy as np
 import numpy.random as rd
 import scipy.sparse as ssp
 import pickle as pkl
-from math import ceil
 import logging
 
 from gensim.corpora.dictionary import Dictionary
@@ -391,14 +390,11 @@ class DataSet:
         assert num_folds > 1, "The number of folds should be greater than one"
 
         doc_count = self.doc_count
-        query_size  = ceil(doc_count / num_folds)  # a single fold
-        train_size = doc_count - query_size
+        start = (doc_count * test_fold_id) // num_folds  # fold sizes differ by at most one
+        end   = (doc_count * (test_fold_id + 1)) // num_folds
 
-        start = query_size * test_fold_id
-        end   = start + query_size
-
-        query_range = np.arange(start, end) % doc_count
-        train_range = np.arange(end, end + train_size) % doc_count
+        query_range = np.arange(start, end)
+        train_range = np.arange(end, start + doc_count) % doc_count
 
         return train_range, query_range
 
-- 
2.43.0


From 57cc2400c86a79f4c0d1753e8a885588fd640c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:09 +0000
Subject: [PATCH 02/85] fix: documents' categories and the word list may be
 absent or plain lists when rows or words are selected

---
 sidetopics/model/common.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index da3ee81..5f4396b 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -165,7 +165,7 @@ class DataSet:
         retain_word_ids = np.where(docs_per_word_count >= min_doc_count_incl)[0]
 
         pruned_words = ssp.csr_matrix(self.words[:, retain_word_ids])
-        pruned_dict = self._word_dict[list(retain_word_ids)]
+        pruned_dict = _select(self._word_dict, retain_word_ids)
 
         return DataSet(
             pruned_words,
@@ -300,7 +300,7 @@ class DataSet:
         Maybe this should update the order property as well...
         """
         self._words = self._words[order, :]
-        self._doc_categories = self._doc_categories[list(order)]
+        self._doc_categories = _select(self._doc_categories, order)
         self._feats = None if self._feats is None else self._feats[order, :]
         self._links = _reorder_link_matrix(self._links, order)
 
@@ -416,7 +416,7 @@ class DataSet:
             None if self._feats is None else self._feats[train_range],
             None if self._links is None else self._links[train_range],
             word_dict=None if self._word_dict is None else self._word_dict,
-            doc_categories=None if self._doc_categories is None else self._doc_categories[list(train_range)],
+            doc_categories=_select(self._doc_categories, train_range),
             order=self._order[train_range],
             debug=debug
         )
@@ -425,7 +425,7 @@ class DataSet:
             None if self._feats is None else self._feats[query_range],
             None if self._links is None else self._links[query_range],
             word_dict=None if self._word_dict is None else self._word_dict,
-            doc_categories=None if self._doc_categories is None else self._doc_categories[list(query_range)],
+            doc_categories=_select(self._doc_categories, query_range),
             order=self._order[query_range],
             debug=debug
         )
@@ -594,6 +594,17 @@ def dropcols_coo(M, idx_to_drop):
     return C.tocsr()
 
 
+def _select(items, indices):
+    """
+    Returns the items (an array, a list, or None) at the given indices.
+    """
+    if items is None:
+        return None
+    if isinstance(items, np.ndarray):
+        return items[list(indices)]
+    return [items[i] for i in indices]
+
+
 def _split(X, rng):
     """
     Given a  matrix, splits it into two matrices such that their sum is equal to the
-- 
2.43.0


From e7794a6d030707cb0cefa176fb1323795d605bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:09 +0000
Subject: [PATCH 03/85] fix: np.bool no longer exists in numpy

---
 sidetopics/model/common.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 5f4396b..933f60e 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -338,7 +338,7 @@ class DataSet:
         """
         rng = rd.RandomState(seed)
 
-        tmp = self._words.astype(np.bool).astype(np.int32)
+        tmp = self._words.astype(bool).astype(np.int32)
 
         unique_word_counts = np.squeeze(np.asarray(tmp.sum(axis=1)))
         if unique_word_counts.min() < min_unique_word_count:
@@ -475,8 +475,8 @@ class DataSet:
         words_query = ssp.csr_matrix((evl, self._words.indices, self._words.indptr), shape=self._words.shape)
 
         if min_unique_word_count > 0:
-            t_lens = np.squeeze(np.asarray(words_train.astype(np.bool).sum(axis=1)))
-            q_lens = np.squeeze(np.asarray(words_query.astype(np.bool).sum(axis=1)))
+            t_lens = np.squeeze(np.asarray(words_train.astype(bool).sum(axis=1)))
+            q_lens = np.squeeze(np.asarray(words_query.astype(bool).sum(axis=1)))
             t_good = np.where(t_lens >= min_unique_word_count)[0]
             q_good = np.where(q_lens >= min_unique_word_count)[0]
 
-- 
2.43.0


From 59fdd80262e0090cc63404943387235416cfd629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:09 +0000
Subject: [PATCH 04/85] fix: random link splits use a whole split point,
 symmetric ones keep the diagonal's counts

---
 sidetopics/model/common.py | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 933f60e..d50bb54 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -621,7 +621,7 @@ def _split(X, rng):
 
     ind = np.arange(nnz)
     rng.shuffle (ind)
-    split_point = nnz / 2
+    split_point = nnz // 2
 
     left_ind  = np.sort(ind[:split_point])
     right_ind = np.sort(ind[split_point:])
@@ -637,20 +637,11 @@ def _symm_csr(dat, row, col, shape):
     where the coorindates are for the upper triangle only. These are then copied
     to create the lower-triangle. The returned matrix is in CSR format.
     """
-    count = len(dat)
+    off = row != col  # the diagonal must not be counted twice
 
-    nu_dat = np.ndarray(shape=(count*2,), dtype=dat.dtype)
-    nu_row = np.ndarray(shape=(count*2,),  dtype=row.dtype)
-    nu_col = np.ndarray(shape=(count*2,),  dtype=col.dtype)
-
-    nu_dat[:count] = dat
-    nu_dat[count:] = dat
-
-    nu_row[:count] = row
-    nu_row[count:] = col
-
-    nu_col[:count] = col
-    nu_col[count:] = row
+    nu_dat = np.concatenate((dat, dat[off]))
+    nu_row = np.concatenate((row, col[off]))
+    nu_col = np.concatenate((col, row[off]))
 
     return ssp.coo_matrix((nu_dat, (nu_row, nu_col)), shape=shape).tocsr()
 
@@ -672,7 +663,7 @@ def _split_symm(X, rng):
 
     ind = np.array([i for i in range(nnz) if row[i] >= col[i]], dtype=np.int32)
     rng.shuffle(ind)
-    split_point = len(ind) / 2
+    split_point = len(ind) // 2
 
     left_ind  = np.sort(ind[:split_point])
     right_ind = np.sort(ind[split_point:])
-- 
2.43.0


From 1e02f797ea6604d27580ab71a56bda8ba2fc713c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:09 +0000
Subject: [PATCH 05/85] fix: folded link split keeps the links of documents
 with few links in one part only

---
 sidetopics/model/common.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index d50bb54..077a6dc 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -708,9 +708,7 @@ def _folded_split(X, fold_id, fold_count, min_link_count):
             Ldat += vals
             Lptr.append(Lptr[-1] + len(cols))
 
-            Rind += cols
-            Rdat += vals
-            Rptr.append(Rptr[-1] + len(cols))
+            Rptr.append(Rptr[-1])
         else:
             query_size   = col_count // fold_count
             query_start  = start + query_size * fold_id
-- 
2.43.0


From c9495d069db70895f72d37c8c4ae60bf103ec688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:09 +0000
Subject: [PATCH 06/85] fix: deep copies of data sets

---
 sidetopics/model/common.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 077a6dc..b56f76c 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -143,12 +143,12 @@ class DataSet:
     def copy(self, deep=False):
         if deep:
             return DataSet(
-                self._words.copy(deep=True),
-                self._feats.copy(deep=True) if self._feats is not None else None,
-                self._links.copy(deep=True) if self._links is not None else None,
+                self._words.copy(),
+                self._feats.copy() if self._feats is not None else None,
+                self._links.copy() if self._links is not None else None,
                 list(self._word_dict) if self._word_dict is not None else None,
                 list(self._doc_categories) if self._doc_categories is not None else None,
-                self._order.copy(deep=True) if self._order is not None else None
+                self._order.copy() if self._order is not None else None
             )
         else:
             return DataSet(
-- 
2.43.0


From 6594df83c737f9fe78a4f64ee04a19975e50640b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:09 +0000
Subject: [PATCH 07/85] fix: document completion never moves more words than a
 document has, and can drop short documents

---
 sidetopics/model/common.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index b56f76c..c2c0691 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -465,7 +465,7 @@ class DataSet:
         dat    = self._words.data
         jitter = rng.normal(scale=est_prop * 0.666, size=len(dat))
         evl    = dat + jitter
-        est    = np.around(evl * est_prop)
+        est    = np.clip(np.around(evl * est_prop), 0, dat)
         evl    = dat - est
 
         est = est.astype(self._words.dtype)
@@ -474,6 +474,7 @@ class DataSet:
         words_train = ssp.csr_matrix((est, self._words.indices, self._words.indptr), shape=self._words.shape)
         words_query = ssp.csr_matrix((evl, self._words.indices, self._words.indptr), shape=self._words.shape)
 
+        doc_categories = self._doc_categories
         if min_unique_word_count > 0:
             t_lens = np.squeeze(np.asarray(words_train.astype(bool).sum(axis=1)))
             q_lens = np.squeeze(np.asarray(words_query.astype(bool).sum(axis=1)))
@@ -484,15 +485,16 @@ class DataSet:
             if len(tq_good) != words_train.shape[0]:
                 words_train = words_train[tq_good,:]
                 words_query = words_query[tq_good,:]
-                print ("Removed %d documents with fewer than %d words. %d documents remain" % (len(self) - len(tq_good)), min_unique_word_count, len(tq_good))
-                
+                doc_categories = _select(doc_categories, tq_good)
+                print ("Removed %d documents with fewer than %d words. %d documents remain" % (len(self) - len(tq_good), min_unique_word_count, len(tq_good)))
+
                 # FIXME Need to handle links and feats as well...
                 if (self._feats is not None) or (self._links is not None):
                     raise ValueError ("Not implemented for features and/or links")
 
         return \
-            DataSet(words_train, self._feats, self._links, self._word_dict, self._doc_categories, debug=debug), \
-            DataSet(words_query, self._feats, self._links, self._word_dict, self._doc_categories, debug=debug)
+            DataSet(words_train, self._feats, self._links, self._word_dict, doc_categories, debug=debug), \
+            DataSet(words_query, self._feats, self._links, self._word_dict, doc_categories, debug=debug)
 
 
     def link_prediction_split(self, symmetric=True, seed=0xC0FFEE):
-- 
2.43.0


From e176216a1fe9498315c85872dd579d00b63b480e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:32 +0000
Subject: [PATCH 08/85] fix: splitting on a feature works for any feature
 dtype, for negative features, without links and with categories

---
 sidetopics/model/common.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index c2c0691..60615c8 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -555,27 +555,27 @@ class DataSet:
         data
         """
         def two_dim_reorder(matrix, row_order, col_order):
-            return (matrix[row_order,:])[:,col_order]
+            return None if matrix is None else (matrix[row_order,:])[:,col_order]
 
         Epsilon = 1E-30
         assert self._feats is not None, "Need features to make this split"
         assert len(features) > 0, "Need at least two features for this to work"
 
-        mask      = np.squeeze(np.array(np.abs(self._feats[:,features].sum(axis=1))))
+        mask      = np.squeeze(np.array(np.abs(self._feats[:,features]).sum(axis=1)))
         trainDocs = np.where(mask < Epsilon)[0]
-        queryDocs = np.where(np.ndarray(buffer=self._feats[:,features[0]].todense(), shape=(self._feats.shape[0],)) > Epsilon)[0]
+        queryDocs = np.where(np.asarray(self._feats[:,features[0]].todense()).reshape(-1) > Epsilon)[0]
 
         return DataSet(words=self._words[trainDocs,:],
                        feats=self._feats[trainDocs,:],
                        links=two_dim_reorder(self._links, trainDocs, trainDocs),
                        word_dict=self._word_dict,
-                       doc_categories=self._doc_categories,
+                       doc_categories=_select(self._doc_categories, trainDocs),
                        order=self._order[trainDocs]), \
                DataSet(words=self._words[queryDocs,:],
                        feats=self._feats[queryDocs,:],
                        links=two_dim_reorder(self._links, queryDocs, trainDocs),
                        word_dict=self._word_dict,
-                       doc_categories=self._doc_categories,
+                       doc_categories=_select(self._doc_categories, queryDocs),
                        order=self._order[queryDocs]), \
                trainDocs
 
-- 
2.43.0


From b431cb402ce77e89ba80a729472c5b9d865e556e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:16 +0000
Subject: [PATCH 09/85] fix: limiting a data set to its first documents limits
 its matrices too

---
 sidetopics/model/common.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index 60615c8..c8a3d79 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -60,6 +60,12 @@ class DataSet:
                 else order[:limit]
             num_docs = limit
 
+            first = np.arange(limit)
+            self._words = words[first, :]
+            self._feats = None if feats is None else feats[first, :]
+            self._links = _reorder_link_matrix(links, first)
+            self._doc_categories = _select(doc_categories, first)
+
         if order is not None:
             self._order = order
         else:
-- 
2.43.0


From d7a7520a297f5ea5e6ce7759f9cb2bfdd2d0a228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:03 +0000
Subject: [PATCH 10/85] fix: pruning a rectangular link matrix never mistakes
 it for a square one

---
 sidetopics/model/common.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index c8a3d79..b6a2f18 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -297,18 +297,19 @@ class DataSet:
         return False
 
 
-    def _reorder (self, order):
+    def _reorder (self, order, square_links=None):
         """
         Reorders the rows of all matrices according to the given order, which may
         be smaller than the total of rows. Additionally, if links is square, its
-        columns are also re-ordered.
+        columns are also re-ordered. Whether links is square can be given, for links
+        that have lost some of their rows already.
 
         Maybe this should update the order property as well...
         """
         self._words = self._words[order, :]
         self._doc_categories = _select(self._doc_categories, order)
         self._feats = None if self._feats is None else self._feats[order, :]
-        self._links = _reorder_link_matrix(self._links, order)
+        self._links = _reorder_link_matrix(self._links, order, square_links)
 
 
     def convert_to_undirected_graph(self):
@@ -358,8 +359,10 @@ class DataSet:
                 print("Overwriting old _order member")
             self._order = np.linspace(0, doc_count - 1, doc_count).astype(np.int32)
 
+        square_links = self.has_links() and self._links.shape[0] == self._links.shape[1]
+
         rng.shuffle(self._order)
-        self._reorder(self._order)
+        self._reorder(self._order, square_links)
 
         if min_link_count == 0 or not self.has_links():
             return self._order
@@ -370,7 +373,7 @@ class DataSet:
         sufficient_docs = np.where(link_counts >= min_link_count)[0]
         while len(sufficient_docs) < self._links.shape[0]:
             trimmed = True
-            self._reorder(sufficient_docs)
+            self._reorder(sufficient_docs, square_links)
             self._order = self._order[sufficient_docs]
             link_counts = np.squeeze(np.array(self._links.sum(axis=1)))
             sufficient_docs = np.where(link_counts >= min_link_count)[0]
@@ -747,16 +750,19 @@ def _folded_split(X, fold_id, fold_count, min_link_count):
     return L, R, docSubset
 
 
-def _reorder_link_matrix(matrix, order):
+def _reorder_link_matrix(matrix, order, square=None):
     """
     Returns a matrix containing only the given rows (in order).
     If the original matrix is square, the resulting matrix will
      also only have the columns specific by order
     :param matrix: the matrix to reorder
     :param order: the ordering to apply to rows (and maybe columns)
+    :param square: whether to treat the matrix as square, by default if it is
     :return:the re-ordered matrix
     """
+    if square is None and matrix is not None:
+        square = matrix.shape[0] == matrix.shape[1]
     return None if matrix is None \
             else ((matrix[order, :])[:, order] \
-                if matrix.shape[0] == matrix.shape[1] \
+                if square \
                 else matrix[order, :])
-- 
2.43.0


From 822b13128d82dbae5901a15fa52876c18b43fd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:07 +0000
Subject: [PATCH 11/85] fix: token lists and streams of a corpus of one
 document

---
 sidetopics/model/dmr_fast.pyx       | 2 +-
 sidetopics/model/lda_cvb.py         | 2 +-
 sidetopics/model/lda_cvb0.py        | 2 +-
 sidetopics/model/lda_gibbs_fast.pyx | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sidetopics/model/dmr_fast.pyx b/sidetopics/model/dmr_fast.pyx
index 276c3f3..7c5252e 100644
--- a/sidetopics/model/dmr_fast.pyx
+++ b/sidetopics/model/dmr_fast.pyx
@@ -366,7 +366,7 @@ def flatten (sparseMat):
     (D,T)   = sparseMat.shape
     if T > 65536:
         raise ValueError("Too many words for unit16 storage")
-    docLens = np.squeeze(np.asarray(sparseMat.sum(axis=1)))
+    docLens = np.ravel(sparseMat.sum(axis=1))
     out     = np.ndarray(shape=(docLens.sum(),), dtype=np.uint16)
 
     flatten_native (sparseMat.indices, sparseMat.data, sparseMat.indptr, out)
diff --git a/sidetopics/model/lda_cvb.py b/sidetopics/model/lda_cvb.py
index 7479cf7..9d9c51c 100644
--- a/sidetopics/model/lda_cvb.py
+++ b/sidetopics/model/lda_cvb.py
@@ -177,7 +177,7 @@ def wordDists(model):
 
 
 def toWordList (w_csr):
-    docLens = np.squeeze(np.asarray(w_csr.sum(axis=1))).astype(np.int32)
+    docLens = np.ravel(w_csr.sum(axis=1)).astype(np.int32)
 
     if w_csr.dtype == np.int32:
         return compiled.toWordList_i32 (w_csr.indptr, w_csr.indices, w_csr.data, docLens), docLens
diff --git a/sidetopics/model/lda_cvb0.py b/sidetopics/model/lda_cvb0.py
index 0316bfb..17b5cf4 100644
--- a/sidetopics/model/lda_cvb0.py
+++ b/sidetopics/model/lda_cvb0.py
@@ -162,7 +162,7 @@ def newQueryState(data, modelState, debug=False):
 
 
 def toWordList (w_csr):
-    docLens = np.squeeze(np.asarray(w_csr.sum(axis=1))).astype(np.int32)
+    docLens = np.ravel(w_csr.sum(axis=1)).astype(np.int32)
 
     if w_csr.dtype == np.int32:
         return compiled.toWordList_i32 (w_csr.indptr, w_csr.indices, w_csr.data, docLens), docLens
diff --git a/sidetopics/model/lda_gibbs_fast.pyx b/sidetopics/model/lda_gibbs_fast.pyx
index c3c5674..50df444 100644
--- a/sidetopics/model/lda_gibbs_fast.pyx
+++ b/sidetopics/model/lda_gibbs_fast.pyx
@@ -307,7 +307,7 @@ def flatten (sparseMat):
     (D,T)   = sparseMat.shape
     if T > 65536:
         raise ValueError("Too many words for unit16 storage")
-    docLens = np.squeeze(np.asarray(sparseMat.sum(axis=1)))
+    docLens = np.ravel(sparseMat.sum(axis=1))
     out     = np.ndarray(shape=(docLens.sum(),), dtype=np.uint16)
     
     flatten_native (sparseMat.indices, sparseMat.data, sparseMat.indptr, out)
-- 
2.43.0


From dfd62d7d9f4cec1f5730651fce57e080340c2755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:32 +0000
Subject: [PATCH 12/85] fix: the single precision sweep updates variances with
 z(1-z)

---
 sidetopics/model/lda_cvb_fast.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/lda_cvb_fast.pyx b/sidetopics/model/lda_cvb_fast.pyx
index 4a5965a..6b47293 100644
--- a/sidetopics/model/lda_cvb_fast.pyx
+++ b/sidetopics/model/lda_cvb_fast.pyx
@@ -501,7 +501,7 @@ def iterate_f32(int iterations, int D_query, int D_train, int K, int T, \
                             q_n_kt[k,t] += diff
                             q_n_k[k]    += diff
 
-                            diff         = mems[k] - (z_dnk[d,n,k] * (1 - z_dnk[d,n,k]))
+                            diff         = (mems[k] * (1 - mems[k])) - (z_dnk[d,n,k] * (1 - z_dnk[d,n,k]))
                             q_v_dk[d,k] += diff
                             q_v_kt[k,t] += diff
                             q_v_k[k]    += diff
-- 
2.43.0


From 036fa5f472504dabbb545a94ba333636d5bda1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:32 +0000
Subject: [PATCH 13/85] fix: resuming training updates the variance totals, not
 the count totals

---
 sidetopics/model/lda_cvb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/lda_cvb.py b/sidetopics/model/lda_cvb.py
index 9d9c51c..8821a42 100644
--- a/sidetopics/model/lda_cvb.py
+++ b/sidetopics/model/lda_cvb.py
@@ -319,7 +319,7 @@ def train (data, modelState, queryState, trainPlan, query=False):
                                  # sum of old and new, and can just be copied across
             m_v_dk = np.vstack((m_v_dk, q_v_dk))
             m_v_kt[:,:] = q_v_kt
-            m_n_k[:]    = q_v_k
+            m_v_k[:]    = q_v_k
         else:                  # Create from scratch
             m_n_dk = q_n_dk.copy()
             m_n_kt = q_n_kt.copy()
-- 
2.43.0


From a2ae13ba3186444f6d865c119e9dc6bc49e44924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:32 +0000
Subject: [PATCH 14/85] fix: copying a second-order model copies its variances

---
 sidetopics/model/lda_cvb.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sidetopics/model/lda_cvb.py b/sidetopics/model/lda_cvb.py
index 8821a42..a22e220 100644
--- a/sidetopics/model/lda_cvb.py
+++ b/sidetopics/model/lda_cvb.py
@@ -76,9 +76,9 @@ def newModelFromExisting(model):
         None if model.n_dk is None else model.n_dk.copy(), \
         None if model.n_kt is None else model.n_kt.copy(), \
         None if model.n_k  is None else model.n_k.copy(),  \
-        None if model.v_dk is None else model.n_dk.copy(), \
-        None if model.v_kt is None else model.n_kt.copy(), \
-        None if model.v_k  is None else model.n_k.copy(),  \
+        None if model.v_dk is None else model.v_dk.copy(), \
+        None if model.v_kt is None else model.v_kt.copy(), \
+        None if model.v_k  is None else model.v_k.copy(),  \
         model.dtype,       \
         model.name)
 
-- 
2.43.0


From d5a5986778787a184a241cbb7cda3c8b6a77d28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:57 +0000
Subject: [PATCH 15/85] fix: the Gibbs samplers always draw a topic in range,
 whatever rand() returns

---
 sidetopics/model/dmr_fast.pyx       | 8 ++++----
 sidetopics/model/lda_gibbs_fast.pyx | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/sidetopics/model/dmr_fast.pyx b/sidetopics/model/dmr_fast.pyx
index 7c5252e..9bc59c7 100644
--- a/sidetopics/model/dmr_fast.pyx
+++ b/sidetopics/model/dmr_fast.pyx
@@ -254,11 +254,11 @@ def sample ( \
                         distNorm += dist[j]
 
                     # Choose a new topic for the current word
-                    k = -1
-                    draw = (<double> rand()) / RAND_MAX * distNorm #gsl_rng_uniform (global_rng) * distNorm
-                    while draw > 0:
-                        k = (k + 1) % K # shouldn't need mod, but to be safe...
+                    k = 0
+                    draw = rand() / (RAND_MAX + 1.0) * distNorm #gsl_rng_uniform (global_rng) * distNorm
+                    while k < K - 1 and draw >= dist[k]:
                         draw -= dist[k]
+                        k += 1
 
                     z_list[n] = k
 
diff --git a/sidetopics/model/lda_gibbs_fast.pyx b/sidetopics/model/lda_gibbs_fast.pyx
index 50df444..82d8c68 100644
--- a/sidetopics/model/lda_gibbs_fast.pyx
+++ b/sidetopics/model/lda_gibbs_fast.pyx
@@ -243,11 +243,11 @@ def sample ( \
                         distNorm += dist[j]
 
                     # Choose a new topic for the current word
-                    k = -1
-                    draw = (<double> rand()) / RAND_MAX * distNorm #gsl_rng_uniform (global_rng) * distNorm
-                    while draw > 0:
-                        k = (k + 1) % K # shouldn't need mod, but to be safe...
+                    k = 0
+                    draw = rand() / (RAND_MAX + 1.0) * distNorm #gsl_rng_uniform (global_rng) * distNorm
+                    while k < K - 1 and draw >= dist[k]:
                         draw -= dist[k]
+                        k += 1
                         
                     z_list[n] = k
                     
-- 
2.43.0


From ea377ec821e84d35fa1db276d54bd183d2cad343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:57 +0000
Subject: [PATCH 16/85] fix: initialise the denominator of the Polya estimate

---
 sidetopics/model/dmr_fast.pyx       | 1 +
 sidetopics/model/lda_gibbs_fast.pyx | 1 +
 2 files changed, 2 insertions(+)

diff --git a/sidetopics/model/dmr_fast.pyx b/sidetopics/model/dmr_fast.pyx
index 9bc59c7..58f3c10 100644
--- a/sidetopics/model/dmr_fast.pyx
+++ b/sidetopics/model/dmr_fast.pyx
@@ -119,6 +119,7 @@ cdef double[:] inferPolyaHyperSingle(int[:,:] counts, int[:] countsSum, double[:
 
     new    = np.zeros((K,), dtype=np.float64)
     oldSum = np.sum(old)
+    denom  = 0.0
 
     with nogil:
         for d in range(D):
diff --git a/sidetopics/model/lda_gibbs_fast.pyx b/sidetopics/model/lda_gibbs_fast.pyx
index 82d8c68..190c382 100644
--- a/sidetopics/model/lda_gibbs_fast.pyx
+++ b/sidetopics/model/lda_gibbs_fast.pyx
@@ -106,6 +106,7 @@ cdef double[:] inferPolyaHyperSingle(int[:,:] counts, int[:] countsSum, double[:
     
     new    = np.zeros((K,), dtype=np.float64)
     oldSum = np.sum(old)
+    denom  = 0.0
     
     with nogil:
         for d in range(D):
-- 
2.43.0


From 7e98176fdb5d0436b3af33327784fd48b3b72084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:57 +0000
Subject: [PATCH 17/85] fix: querying a Gibbs model returns it unchanged

---
 sidetopics/model/lda_gibbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/lda_gibbs.py b/sidetopics/model/lda_gibbs.py
index 980f956..e9c5c4d 100644
--- a/sidetopics/model/lda_gibbs.py
+++ b/sidetopics/model/lda_gibbs.py
@@ -253,7 +253,7 @@ def query (data, model, query, plan):
             topicPrior, adjustedVocabPrior, True, debug)
 
     return \
-        ModelState (K, T, topicPrior, vocabPrior, topicSum, vocabSum, numSamples, model.processed, dtype, name), \
+        model, \
         QueryState (w_list, z_list, docLens, topicSum, numSamples, True)
 
 
-- 
2.43.0


From b66b6e04d7029667ce2255595725a78c0c09ac25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:57 +0000
Subject: [PATCH 18/85] fix: querying a DMR model stays within its sample
 buffer and returns the model unchanged

---
 sidetopics/model/dmr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/dmr.py b/sidetopics/model/dmr.py
index 6fa3761..8c41fbf 100644
--- a/sidetopics/model/dmr.py
+++ b/sidetopics/model/dmr.py
@@ -345,12 +345,12 @@ def query (data, model, query, plan):
             vocabPrior, True, debug)
     
     # True samples
-    sample_count = compiled.sample (iterations, thin, w_list, z_list, docLens, \
+    sample_count = compiled.sample (iterations - burnIn, thin, w_list, z_list, docLens, \
             alphas, ndk, nkv, nk, n_dk_samples, topicSum, vocabSum, \
             vocabPrior, True, debug)
     
     return \
-        ModelState (K, T, weights, topicPrior, vocabPrior, n_dk_samples, topicSum, vocabSum, sample_count, dtype, name), \
+        model, \
         QueryState (w_list, z_list, docLens, topicSum, sample_count)
 
 
-- 
2.43.0


From 88311e48941a33902d7e772a752781a6d09b7f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:28 +0000
Subject: [PATCH 19/85] fix: the DMR sampler uses the exponential prior its
 weights are fitted for

---
 sidetopics/model/dmr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sidetopics/model/dmr.py b/sidetopics/model/dmr.py
index 8c41fbf..44dd227 100644
--- a/sidetopics/model/dmr.py
+++ b/sidetopics/model/dmr.py
@@ -196,7 +196,7 @@ def train (data, model, query, plan):
     compiled.sumSuffStats(w_list, z_list, docLens, ndk, nkv, nk)
     
     # Burn in
-    alphas = X.dot(weights.T)
+    alphas = np.exp(X.dot(weights.T))
     if debug: print ("Burning")
     compiled.sample (burnIn, burnIn + 1, w_list, z_list, docLens, \
             alphas, ndk, nkv, nk, n_dk_samples, topicSum, vocabSum, \
@@ -206,7 +206,7 @@ def train (data, model, query, plan):
     if debug: print ("Training")
     sample_count = 0
     for _ in range(0, iterations - burnIn, weightUpdateInterval):
-        alphas[:,:] = X.dot(weights.T)
+        alphas[:,:] = np.exp(X.dot(weights.T))
         sample_count += compiled.sample (weightUpdateInterval, thin, w_list, z_list, docLens, \
                 alphas, ndk, nkv, nk, n_dk_samples, topicSum, vocabSum, \
                 vocabPrior, False, debug)
@@ -339,7 +339,7 @@ def query (data, model, query, plan):
     compiled.sumSuffStats(w_list, z_list, docLens, ndk, nkv, nk)
     
     # Burn in
-    alphas = X.dot(weights.T)
+    alphas = np.exp(X.dot(weights.T))
     compiled.sample (burnIn, burnIn + 1, w_list, z_list, docLens, \
             alphas, ndk, nkv, nk, n_dk_samples, topicSum, vocabSum, \
             vocabPrior, True, debug)
-- 
2.43.0


From 7c17fa52923ffad4d402f1532efd04b202d9f0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:28 +0000
Subject: [PATCH 20/85] fix: DMR training keeps every sample it takes and runs
 the planned number of sweeps

---
 sidetopics/model/dmr.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sidetopics/model/dmr.py b/sidetopics/model/dmr.py
index 44dd227..ef0c024 100644
--- a/sidetopics/model/dmr.py
+++ b/sidetopics/model/dmr.py
@@ -205,10 +205,11 @@ def train (data, model, query, plan):
     # True samples
     if debug: print ("Training")
     sample_count = 0
-    for _ in range(0, iterations - burnIn, weightUpdateInterval):
+    for itr in range(0, iterations - burnIn, weightUpdateInterval):
+        segment = min(weightUpdateInterval, iterations - burnIn - itr)
         alphas[:,:] = np.exp(X.dot(weights.T))
-        sample_count += compiled.sample (weightUpdateInterval, thin, w_list, z_list, docLens, \
-                alphas, ndk, nkv, nk, n_dk_samples, topicSum, vocabSum, \
+        sample_count += compiled.sample (segment, thin, w_list, z_list, docLens, \
+                alphas, ndk, nkv, nk, n_dk_samples[:,:,sample_count:], topicSum, vocabSum, \
                 vocabPrior, False, debug)
 
         if debug: # Print out the perplexity so far
@@ -218,7 +219,8 @@ def train (data, model, query, plan):
             perp = perplexity_from_like(likely, data)
             print ("Sample-Count = %3d  Perplexity = %7.2f" % (sample_count, perp))
 
-        updateWeights(n_dk_samples, sample_count, X, weights, debug)
+        if sample_count > 0:
+            updateWeights(n_dk_samples, sample_count, X, weights, debug)
     
 #     compiled.freeGlobalRng()
     
-- 
2.43.0


From a1b98cd4ddbf017f7daac84be43cb6c7670cfc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:38 +0000
Subject: [PATCH 21/85] fix: copying a model copies its priors and covariances
 too

---
 sidetopics/model/dmr.py           | 5 +++--
 sidetopics/model/lda_cvb.py       | 5 +++--
 sidetopics/model/lda_cvb0.py      | 5 +++--
 sidetopics/model/lda_gibbs.py     | 5 +++--
 sidetopics/model/lda_svb.py       | 5 +++--
 sidetopics/model/lda_vb.py        | 5 +++--
 sidetopics/model/lda_vb_python.py | 5 +++--
 sidetopics/model/mom_em.py        | 5 +++--
 sidetopics/model/mom_gibbs.py     | 5 +++--
 sidetopics/model/mtm.py           | 7 ++++---
 sidetopics/model/rtm.py           | 5 +++--
 11 files changed, 34 insertions(+), 23 deletions(-)

diff --git a/sidetopics/model/dmr.py b/sidetopics/model/dmr.py
index ef0c024..715a73f 100644
--- a/sidetopics/model/dmr.py
+++ b/sidetopics/model/dmr.py
@@ -9,6 +9,7 @@ Created on 17 Jan 2014
 @author: bryanfeeney
 '''
 
+from copy import deepcopy
 import os # Configuration for PyxImport later on. Requires GCC
 # os.environ['CC']  = os.environ['HOME'] + "/bin/cc"
 
@@ -116,8 +117,8 @@ def newModelFromExisting(model):
         model.K, \
         model.T, \
         model.weights.copy(), \
-        None if model.topicPrior is None else model.topicPrior.copy(), \
-        model.vocabPrior, \
+        deepcopy(model.topicPrior), \
+        deepcopy(model.vocabPrior), \
         None if model.n_dk_samples is None else model.n_dk_samples.copy(), \
         None if model.topicSum is None else model.topicSum.copy(), \
         None if model.vocabSum is None else model.vocabSum.copy(), \
diff --git a/sidetopics/model/lda_cvb.py b/sidetopics/model/lda_cvb.py
index a22e220..31c1e43 100644
--- a/sidetopics/model/lda_cvb.py
+++ b/sidetopics/model/lda_cvb.py
@@ -9,6 +9,7 @@ Created on 17 Jan 2014
 @author: bryanfeeney
 '''
 
+from copy import deepcopy
 import os # Configuration for PyxImport later on. Requires GCC
 import sys
 # os.environ['CC']  = os.environ['HOME'] + "/bin/cc"
@@ -71,8 +72,8 @@ def newModelFromExisting(model):
     '''
     return ModelState(\
         model.K, \
-        None if model.topicPrior is None else model.topicPrior.copy(), \
-        model.vocabPrior, \
+        deepcopy(model.topicPrior), \
+        deepcopy(model.vocabPrior), \
         None if model.n_dk is None else model.n_dk.copy(), \
         None if model.n_kt is None else model.n_kt.copy(), \
         None if model.n_k  is None else model.n_k.copy(),  \
diff --git a/sidetopics/model/lda_cvb0.py b/sidetopics/model/lda_cvb0.py
index 17b5cf4..d077178 100644
--- a/sidetopics/model/lda_cvb0.py
+++ b/sidetopics/model/lda_cvb0.py
@@ -9,6 +9,7 @@ Created on 17 Jan 2014
 @author: bryanfeeney
 '''
 
+from copy import deepcopy
 import os # Configuration for PyxImport later on. Requires GCC
 import sys
 #os.environ['CC'] = os.environ['HOME'] + "/bin/cc"
@@ -73,8 +74,8 @@ def newModelFromExisting(model):
     '''
     return ModelState(\
         model.K, \
-        None if model.topicPrior is None else model.topicPrior.copy(), \
-        model.vocabPrior, \
+        deepcopy(model.topicPrior), \
+        deepcopy(model.vocabPrior), \
         None if model.n_dk is None else model.n_dk.copy(), \
         None if model.n_kt is None else model.n_kt.copy(), \
         None if model.n_k  is None else model.n_k.copy(),  \
diff --git a/sidetopics/model/lda_gibbs.py b/sidetopics/model/lda_gibbs.py
index e9c5c4d..0ae6aa4 100644
--- a/sidetopics/model/lda_gibbs.py
+++ b/sidetopics/model/lda_gibbs.py
@@ -9,6 +9,7 @@ Created on 17 Jan 2014
 @author: bryanfeeney
 '''
 
+from copy import deepcopy
 import os # Configuration for PyxImport later on. Requires GCC
 # os.environ['CC']  = os.environ['HOME'] + "/bin/cc"
 
@@ -111,8 +112,8 @@ def newModelFromExisting(model):
     return ModelState(\
         model.K, \
         model.T, \
-        None if model.topicPrior is None else model.topicPrior.copy(), \
-        model.vocabPrior, \
+        deepcopy(model.topicPrior), \
+        deepcopy(model.vocabPrior), \
         None if model.topicSum is None else model.topicSum.copy(), \
         None if model.vocabSum is None else model.vocabSum.copy(), \
         model.numSamples, \
diff --git a/sidetopics/model/lda_svb.py b/sidetopics/model/lda_svb.py
index 9fb64b3..9a77603 100644
--- a/sidetopics/model/lda_svb.py
+++ b/sidetopics/model/lda_svb.py
@@ -9,6 +9,7 @@ Created on 17 Jan 2014
 @author: bryanfeeney
 '''
 
+from copy import deepcopy
 import os # Configuration for PyxImport later on. Requires GCC
 # os.environ['CC']  = os.environ['HOME'] + "/bin/cc"
 
@@ -73,8 +74,8 @@ def newModelFromExisting(model):
     '''
     return ModelState(\
         model.K, \
-        model.topicPrior.copy(), \
-        model.vocabPrior, \
+        deepcopy(model.topicPrior), \
+        deepcopy(model.vocabPrior), \
         None if model.wordDists is None else model.wordDists.copy(), \
         model.dtype,       \
         model.name)
diff --git a/sidetopics/model/lda_vb.py b/sidetopics/model/lda_vb.py
index b87e766..cc5866d 100644
--- a/sidetopics/model/lda_vb.py
+++ b/sidetopics/model/lda_vb.py
@@ -9,6 +9,7 @@ Created on 17 Jan 2014
 @author: bryanfeeney
 '''
 
+from copy import deepcopy
 import os # Configuration for PyxImport later on. Requires GCC
 # os.environ['CC']  = os.environ['HOME'] + "/bin/cc"
 
@@ -73,8 +74,8 @@ def newModelFromExisting(model):
     '''
     return ModelState(\
         model.K, \
-        model.topicPrior.copy(), \
-        model.vocabPrior, \
+        deepcopy(model.topicPrior), \
+        deepcopy(model.vocabPrior), \
         None if model.wordDists is None else model.wordDists.copy(), \
         model.dtype,       \
         model.name)
diff --git a/sidetopics/model/lda_vb_python.py b/sidetopics/model/lda_vb_python.py
index c6a0a10..a20ebba 100644
--- a/sidetopics/model/lda_vb_python.py
+++ b/sidetopics/model/lda_vb_python.py
@@ -3,6 +3,7 @@ Created on 15 Apr 2015
 
 @author: bryanfeeney
 '''
+from copy import deepcopy
 import sys
 import numpy as np
 import numpy.random as rd
@@ -56,8 +57,8 @@ def newModelFromExisting(model):
     '''
     return ModelState(\
         model.K, \
-        model.topicPrior.copy(), \
-        model.vocabPrior, \
+        deepcopy(model.topicPrior), \
+        deepcopy(model.vocabPrior), \
         None if model.wordDists is None else model.wordDists.copy(),
         model.processed, \
         model.dtype, \
diff --git a/sidetopics/model/mom_em.py b/sidetopics/model/mom_em.py
index b08f882..b83ce81 100644
--- a/sidetopics/model/mom_em.py
+++ b/sidetopics/model/mom_em.py
@@ -3,6 +3,7 @@ Mixture of Multinomials implement using a MAP EM algorithm.
 
 @author: bryanfeeney
 '''
+from copy import deepcopy
 from numbers import Number
 
 import numpy as np
@@ -52,8 +53,8 @@ def newModelFromExisting(model):
     '''
     return ModelState( \
         model.K, \
-        model.topicPrior, \
-        model.vocabPrior, \
+        deepcopy(model.topicPrior), \
+        deepcopy(model.vocabPrior), \
         None if model.wordDistParam is None else model.wordDistParam.copy(),
         None if model.corpusTopicDistParam is None else model.corpusTopicDistParam.copy(),
         model.processed, \
diff --git a/sidetopics/model/mom_gibbs.py b/sidetopics/model/mom_gibbs.py
index 917be31..a08daa9 100644
--- a/sidetopics/model/mom_gibbs.py
+++ b/sidetopics/model/mom_gibbs.py
@@ -3,6 +3,7 @@ Mixture of Multinomials implement using a MAP EM algorithm.
 
 @author: bryanfeeney
 '''
+from copy import deepcopy
 import numpy as np
 import numpy.random as rd
 import scipy.special as fns
@@ -45,8 +46,8 @@ def newModelFromExisting(model):
     '''
     return ModelState( \
         model.K, \
-        model.topicPrior, \
-        model.vocabPrior, \
+        deepcopy(model.topicPrior), \
+        deepcopy(model.vocabPrior), \
         None if model.wordDists is None else model.wordDists.copy(),
         model.processed, \
         model.dtype, \
diff --git a/sidetopics/model/mtm.py b/sidetopics/model/mtm.py
index 7c094e8..4068649 100644
--- a/sidetopics/model/mtm.py
+++ b/sidetopics/model/mtm.py
@@ -3,6 +3,7 @@ Created on 15 Apr 2015
 
 @author: bryanfeeney
 '''
+from copy import deepcopy
 import sys
 import numpy as np
 import numpy.random as rd
@@ -46,10 +47,10 @@ def newModelFromExisting(model):
     return ModelState(
         model.K,
         model.Q,
-        model.topicPrior.copy(),
-        model.vocabPrior,
+        deepcopy(model.topicPrior),
+        deepcopy(model.vocabPrior),
         None if model.wordDists is None else model.wordDists.copy(),
-        None if model.topicCov is None else model.topicCov,
+        None if model.topicCov is None else model.topicCov.copy(),
         model.dtype,
         model.name)
 
diff --git a/sidetopics/model/rtm.py b/sidetopics/model/rtm.py
index 07dd63f..cb1ad4f 100644
--- a/sidetopics/model/rtm.py
+++ b/sidetopics/model/rtm.py
@@ -3,6 +3,7 @@ Created on 15 Apr 2015
 
 @author: bryanfeeney
 '''
+from copy import deepcopy
 import sys
 import numpy as np
 import numpy.random as rd
@@ -44,8 +45,8 @@ def newModelFromExisting(model):
     '''
     return ModelState(\
         model.K, \
-        model.topicPrior.copy(), \
-        model.vocabPrior, \
+        deepcopy(model.topicPrior), \
+        deepcopy(model.vocabPrior), \
         None if model.wordDists is None else model.wordDists.copy(), \
         None if model.weights is None else model.weights.copy(), \
         model.pseudoNegCount, \
-- 
2.43.0


From cc4d1e54c65a1db27706f3d5a0b56ededcfd0532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:38 +0000
Subject: [PATCH 22/85] fix: querying the variational topic model leaves its
 word distributions alone

---
 sidetopics/model/lda_vb_python.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sidetopics/model/lda_vb_python.py b/sidetopics/model/lda_vb_python.py
index a20ebba..c7a6377 100644
--- a/sidetopics/model/lda_vb_python.py
+++ b/sidetopics/model/lda_vb_python.py
@@ -408,6 +408,9 @@ def train(data, model, query, plan, updateVocab=True):
             wordIdx, z = _update_topics_at_d(d, data, docLens, topicMeans, topicPrior, diWordDists, diWordDistSums)
             grad[:, wordIdx] += W[d, :].data[np.newaxis, :] * z
 
+        if not updateVocab:
+            continue
+
         if rateAlgor == RateAlgorBatch:
             wordDists[:, :] = grad[:, :]
         else:
-- 
2.43.0


From 4d4c7a7fa89bb8d72c6c95913559256f5d13aae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:38 +0000
Subject: [PATCH 23/85] fix: the adaptive schedule restores the per-token means
 after taking the bound

---
 sidetopics/model/lda_vb_python.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/lda_vb_python.py b/sidetopics/model/lda_vb_python.py
index c7a6377..243848f 100644
--- a/sidetopics/model/lda_vb_python.py
+++ b/sidetopics/model/lda_vb_python.py
@@ -437,7 +437,7 @@ def train(data, model, query, plan, updateVocab=True):
                 a, b  = plan.rate_a, plan.rate_b
                 p    *= exp(a * (b * -log_likely - p))
                 stepSize[:] = p
-                topicMeans = _convertMeansToDirichletParam(docLens, topicMeans, topicPrior)
+                topicMeans = _convertDirichletParamToMeans(docLens, topicMeans, topicPrior)
             else:
                 raise ValueError("No code to support the '" + str(plan.rate_algor) + "' learning rate adaptation algorithm")
 
-- 
2.43.0


From fbbfba4ac347dcbf44f616a40d7f7d4b7caf7197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:38 +0000
Subject: [PATCH 24/85] fix: a stochastic step leaves the estimate it steps
 towards unscaled

---
 sidetopics/model/lda_vb_python.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/sidetopics/model/lda_vb_python.py b/sidetopics/model/lda_vb_python.py
index 243848f..dd95a4e 100644
--- a/sidetopics/model/lda_vb_python.py
+++ b/sidetopics/model/lda_vb_python.py
@@ -462,13 +462,11 @@ def train(data, model, query, plan, updateVocab=True):
 
 def update_inplace_s(stepSizeScalar, old, change):
     old    *= (1 - stepSizeScalar)
-    change *= stepSizeScalar
-    old    += change
+    old    += change * stepSizeScalar
 
 def update_inplace_v(stepSizeVector, old, change):
     old    *= (np.ones((stepSizeVector.shape[0],)) - stepSizeVector)[:, np.newaxis]
-    change *= stepSizeVector[:, np.newaxis]
-    old    += change
+    old    += change * stepSizeVector[:, np.newaxis]
 
 ##@nb.jit
 def _old_train(data, model, query, plan, updateVocab=True):
-- 
2.43.0


From 4625d35afb2fb4dd9c53a0a40854d24ef6d2bff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:38 +0000
Subject: [PATCH 25/85] fix: a mini-batch plan keeps the rate schedule that was
 asked for

---
 sidetopics/model/lda_vb_python.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/lda_vb_python.py b/sidetopics/model/lda_vb_python.py
index dd95a4e..4f64e8e 100644
--- a/sidetopics/model/lda_vb_python.py
+++ b/sidetopics/model/lda_vb_python.py
@@ -155,7 +155,7 @@ def newTrainPlan(iterations=100, epsilon=2, logFrequency=10, fastButInaccurate=F
     the last value of the bound and the current, and if it's less than the given angle,
     then stop.
     '''
-    if batchSize > 0:
+    if batchSize > 0 and rate_algor == RateAlgorBatch:
         rate_algor = DefaultNonBatchRateAlgor
 
     return TrainPlan(iterations, epsilon, logFrequency, fastButInaccurate, debug, batchSize, rate_delay,
-- 
2.43.0


From a6d7406447d2bad0dda4b78a2d08d6643ea54ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:38 +0000
Subject: [PATCH 26/85] fix: the variational topic model trains with a vector
 vocabulary prior

---
 sidetopics/model/lda_vb_python.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/lda_vb_python.py b/sidetopics/model/lda_vb_python.py
index 4f64e8e..9b83618 100644
--- a/sidetopics/model/lda_vb_python.py
+++ b/sidetopics/model/lda_vb_python.py
@@ -400,7 +400,7 @@ def train(data, model, query, plan, updateVocab=True):
     # Start traininng
     d = -1
     for b in range(batchCount * iterations):
-        grad.fill(vocabPrior)
+        grad[:, :] = vocabPrior
         # firstD = d
         for s in range(batchSize):
             d = d + 1 if (d + 1) < D else 0
-- 
2.43.0


From 98176dedf43feeab7a0773b4bff7274bbd4aef51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:15 +0000
Subject: [PATCH 27/85] fix: the document lengths of a one-document corpus stay
 a vector

---
 sidetopics/model/common.py                     | 12 ++++++------
 sidetopics/model/ctm.py                        |  2 +-
 sidetopics/model/ctm_bohning.py                |  2 +-
 sidetopics/model/ctm_bohning_fast.py           |  2 +-
 sidetopics/model/ctm_grad_arb.py               |  2 +-
 sidetopics/model/lda_vb_python.py              |  2 +-
 sidetopics/model/mom_em.py                     |  4 ++--
 sidetopics/model/mom_gibbs.py                  |  2 +-
 sidetopics/model/mtm.py                        |  2 +-
 sidetopics/model/mtm2.py                       |  4 ++--
 sidetopics/model/mtm3.py                       | 12 ++++++------
 sidetopics/model/rtm.py                        |  2 +-
 sidetopics/model/sim_based_rec.py              |  2 +-
 sidetopics/model/stm_uv_vec_y_bohning.py       |  2 +-
 sidetopics/model/stm_uv_vecy_bohning.py        |  2 +-
 sidetopics/model/stm_yv_bohning.py             |  2 +-
 sidetopics/model/stm_yv_bohning_fake_online.py |  2 +-
 17 files changed, 29 insertions(+), 29 deletions(-)

diff --git a/sidetopics/model/common.py b/sidetopics/model/common.py
index b6a2f18..54acc8d 100644
--- a/sidetopics/model/common.py
+++ b/sidetopics/model/common.py
@@ -218,7 +218,7 @@ class DataSet:
 
     @property
     def doc_lens(self):
-        return np.squeeze(np.array(self.words.sum(axis=1)))
+        return np.asarray(self.words.sum(axis=1)).reshape(-1)
 
     @property
     def order(self):
@@ -347,7 +347,7 @@ class DataSet:
 
         tmp = self._words.astype(bool).astype(np.int32)
 
-        unique_word_counts = np.squeeze(np.asarray(tmp.sum(axis=1)))
+        unique_word_counts = np.asarray(tmp.sum(axis=1)).reshape(-1)
         if unique_word_counts.min() < min_unique_word_count:
             good_rows = (np.where(unique_word_counts >= min_unique_word_count))[0]
             self._order = good_rows
@@ -369,13 +369,13 @@ class DataSet:
 
         trimmed = False
         original_num_docs = self.doc_count
-        link_counts = np.squeeze(np.array(self._links.sum(axis=1)))
+        link_counts = np.asarray(self._links.sum(axis=1)).reshape(-1)
         sufficient_docs = np.where(link_counts >= min_link_count)[0]
         while len(sufficient_docs) < self._links.shape[0]:
             trimmed = True
             self._reorder(sufficient_docs, square_links)
             self._order = self._order[sufficient_docs]
-            link_counts = np.squeeze(np.array(self._links.sum(axis=1)))
+            link_counts = np.asarray(self._links.sum(axis=1)).reshape(-1)
             sufficient_docs = np.where(link_counts >= min_link_count)[0]
 
         if trimmed:
@@ -485,8 +485,8 @@ class DataSet:
 
         doc_categories = self._doc_categories
         if min_unique_word_count > 0:
-            t_lens = np.squeeze(np.asarray(words_train.astype(bool).sum(axis=1)))
-            q_lens = np.squeeze(np.asarray(words_query.astype(bool).sum(axis=1)))
+            t_lens = np.asarray(words_train.astype(bool).sum(axis=1)).reshape(-1)
+            q_lens = np.asarray(words_query.astype(bool).sum(axis=1)).reshape(-1)
             t_good = np.where(t_lens >= min_unique_word_count)[0]
             q_good = np.where(q_lens >= min_unique_word_count)[0]
 
diff --git a/sidetopics/model/ctm.py b/sidetopics/model/ctm.py
index 1f2ade9..0bf3992 100644
--- a/sidetopics/model/ctm.py
+++ b/sidetopics/model/ctm.py
@@ -131,7 +131,7 @@ def newQueryState(data, modelState):
     W   = data.words
     D,T = W.shape
     assert T == vocab.shape[1], "The number of terms in the document-term matrix (" + str(T) + ") differs from that in the model-states vocabulary parameter " + str(vocab.shape[1])
-    docLens = np.squeeze(np.asarray(W.sum(axis=1)))
+    docLens = np.asarray(W.sum(axis=1)).reshape(-1)
     
     base     = normalizerows_ip(rd.random((D,K*2)).astype(dtype))
     means    = base[:,:K]
diff --git a/sidetopics/model/ctm_bohning.py b/sidetopics/model/ctm_bohning.py
index 6159fb8..bd0118c 100644
--- a/sidetopics/model/ctm_bohning.py
+++ b/sidetopics/model/ctm_bohning.py
@@ -152,7 +152,7 @@ def newQueryState(data, modelState):
     
     D,T = data.words.shape
     assert T == vocab.shape[1], "The number of terms in the document-term matrix (" + str(T) + ") differs from that in the model-states vocabulary parameter " + str(vocab.shape[1])
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).reshape(-1)
 
     base     = normalizerows_ip(rd.random((D,K*2)).astype(dtype))
     means    = base[:,:K]
diff --git a/sidetopics/model/ctm_bohning_fast.py b/sidetopics/model/ctm_bohning_fast.py
index dc1645e..dbb36be 100644
--- a/sidetopics/model/ctm_bohning_fast.py
+++ b/sidetopics/model/ctm_bohning_fast.py
@@ -152,7 +152,7 @@ def newQueryState(data, modelState):
     
     D,T = data.words.shape
     assert T == vocab.shape[1], "The number of terms in the document-term matrix (" + str(T) + ") differs from that in the model-states vocabulary parameter " + str(vocab.shape[1])
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).reshape(-1)
 
     base     = normalizerows_ip(rd.random((D,K*2)).astype(dtype))
     means    = base[:,:K]
diff --git a/sidetopics/model/ctm_grad_arb.py b/sidetopics/model/ctm_grad_arb.py
index 6159fb8..bd0118c 100644
--- a/sidetopics/model/ctm_grad_arb.py
+++ b/sidetopics/model/ctm_grad_arb.py
@@ -152,7 +152,7 @@ def newQueryState(data, modelState):
     
     D,T = data.words.shape
     assert T == vocab.shape[1], "The number of terms in the document-term matrix (" + str(T) + ") differs from that in the model-states vocabulary parameter " + str(vocab.shape[1])
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).reshape(-1)
 
     base     = normalizerows_ip(rd.random((D,K*2)).astype(dtype))
     means    = base[:,:K]
diff --git a/sidetopics/model/lda_vb_python.py b/sidetopics/model/lda_vb_python.py
index 9b83618..f4cc7c0 100644
--- a/sidetopics/model/lda_vb_python.py
+++ b/sidetopics/model/lda_vb_python.py
@@ -123,7 +123,7 @@ def newQueryState(data, modelState, debug=False):
     Return:
     A QueryState object
     '''
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).reshape(-1)
 
     # Initialise the per-token assignments at random according to the dirichlet hyper
     # This is super-slow
diff --git a/sidetopics/model/mom_em.py b/sidetopics/model/mom_em.py
index b83ce81..8f26393 100644
--- a/sidetopics/model/mom_em.py
+++ b/sidetopics/model/mom_em.py
@@ -128,7 +128,7 @@ def newQueryState(data, modelState, debug):
     if debug:
         print("Ignoring setting of debug to True")
 
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).reshape(-1)
 
     # Initialise the per-token assignments at random according to the dirichlet hyper
     # This is super-slow
@@ -344,7 +344,7 @@ def log_likelihood_expected(data: DataSet, model: ModelState, query: QueryState)
     #     lls += np.log(corpusTopicDist(model))[np.newaxis, :]
 
     # p(X = x|z=k, beta)
-    doc_lens = np.squeeze(np.array(data.words.sum(axis=1)))
+    doc_lens = np.asarray(data.words.sum(axis=1)).reshape(-1)
 
     beta = wordDistsDirichletParam(model)  # K x T
     beta_sum = beta.sum(axis=1)  # K x 1
diff --git a/sidetopics/model/mom_gibbs.py b/sidetopics/model/mom_gibbs.py
index a08daa9..3ca2a80 100644
--- a/sidetopics/model/mom_gibbs.py
+++ b/sidetopics/model/mom_gibbs.py
@@ -114,7 +114,7 @@ def newQueryState(data, modelState, debug):
     '''
     if debug:
         print("Ignoring setting of debug to True")
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).reshape(-1)
 
     # Initialise the per-token assignments at random according to the dirichlet hyper
     # This is super-slow
diff --git a/sidetopics/model/mtm.py b/sidetopics/model/mtm.py
index 4068649..0b84c0d 100644
--- a/sidetopics/model/mtm.py
+++ b/sidetopics/model/mtm.py
@@ -106,7 +106,7 @@ def newQueryState(data, model):
     :return: a new QueryState object
     '''
     D, Q, K = data.doc_count, model.Q, model.K
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).reshape(-1)
 
     # Use one large matrix, partitioned into submatrices, to try to make this
     # a little more cache friendly.
diff --git a/sidetopics/model/mtm2.py b/sidetopics/model/mtm2.py
index e21b653..99e007c 100644
--- a/sidetopics/model/mtm2.py
+++ b/sidetopics/model/mtm2.py
@@ -154,7 +154,7 @@ def newQueryState(data, modelState):
     
     D,T = data.words.shape
     assert T == vocab.shape[1], "The number of terms in the document-term matrix (" + str(T) + ") differs from that in the model-states vocabulary parameter " + str(vocab.shape[1])
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).reshape(-1)
     
     means = normalizerows_ip(rd.random((D,K)).astype(dtype))
     varcs = np.ones((D,K), dtype=dtype)
@@ -191,7 +191,7 @@ def train (data, modelState, queryState, trainPlan):
     '''
     W, L, LT, X = data.words, data.links, ssp.csr_matrix(data.links.T), data.feats
     D,_ = W.shape
-    out_links = np.squeeze(np.asarray(data.links.sum(axis=1)))
+    out_links = np.asarray(data.links.sum(axis=1)).reshape(-1)
 
     # Unpack the the structs, for ease of access and efficiency
     iterations, epsilon, logFrequency, diagonalPriorCov, debug = trainPlan.iterations, trainPlan.epsilon, trainPlan.logFrequency, trainPlan.fastButInaccurate, trainPlan.debug
diff --git a/sidetopics/model/mtm3.py b/sidetopics/model/mtm3.py
index 7f36378..a7ba314 100644
--- a/sidetopics/model/mtm3.py
+++ b/sidetopics/model/mtm3.py
@@ -186,7 +186,7 @@ def _newQueryStateFromCtm(data, model):
 
     D,T = data.words.shape
     assert T == vocab.shape[1], "The number of terms in the document-term matrix (" + str(T) + ") differs from that in the model-states vocabulary parameter " + str(vocab.shape[1])
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).reshape(-1)
 
     outMeans = ctm_query.means
     outVarcs = np.ones((D,K), dtype=dtype)
@@ -216,7 +216,7 @@ def _newQueryStateFromLda(data, model, ldaQueryState):
 
     D,T = data.words.shape
     assert T == vocab.shape[1], "The number of terms in the document-term matrix (" + str(T) + ") differs from that in the model-states vocabulary parameter " + str(vocab.shape[1])
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).reshape(-1)
 
     outMeans = np.log(lda_topics(ldaQueryState))
     m = outMeans.mean()
@@ -258,7 +258,7 @@ def newQueryState(data, modelState, withLdaTopics=None):
     
     D,T = data.words.shape
     assert T == vocab.shape[1], "The number of terms in the document-term matrix (" + str(T) + ") differs from that in the model-states vocabulary parameter " + str(vocab.shape[1])
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).reshape(-1)
     
     outMeans = normalizerows_ip(rd.random((D,K)).astype(dtype))
     outVarcs = np.ones((D,K), dtype=dtype)
@@ -300,7 +300,7 @@ def train (data, modelState, queryState, trainPlan):
     '''
     W, L, LT, X = data.words, data.links, ssp.csr_matrix(data.links.T), data.feats
     D,_ = W.shape
-    out_links = np.squeeze(np.asarray(data.links.sum(axis=1)))
+    out_links = np.asarray(data.links.sum(axis=1)).reshape(-1)
 
     # Unpack the the structs, for ease of access and efficiency
     iterations, epsilon, logFrequency, diagonalPriorCov, debug = trainPlan.iterations, trainPlan.epsilon, trainPlan.logFrequency, trainPlan.fastButInaccurate, trainPlan.debug
@@ -508,7 +508,7 @@ def query(data, modelState, queryState, queryPlan):
     '''
     W, L, LT, X = data.words, data.links, ssp.csr_matrix(data.links.T), data.feats
     D,_ = W.shape
-    out_links = np.squeeze(np.asarray(data.links.sum(axis=1)))
+    out_links = np.asarray(data.links.sum(axis=1)).reshape(-1)
 
     # Book-keeping for logs
     boundIters, boundValues, likelyValues = [], [], []
@@ -653,7 +653,7 @@ def var_bound(data, modelState, queryState):
     top_sums  += expMeansOut * (L_weights.dot(expMeansIn) / lse_at_k[np.newaxis, :])
 
     # E[p(Z,Y)]
-    linkLens = np.squeeze(np.array(L.sum(axis=1)))
+    linkLens = np.asarray(L.sum(axis=1)).reshape(-1)
     bound += np.sum(outMeans * top_sums)
     bound -= np.sum((docLens + linkLens) * np.log(np.sum(expMeansOut, axis=1)))
 
diff --git a/sidetopics/model/rtm.py b/sidetopics/model/rtm.py
index cb1ad4f..1c2b820 100644
--- a/sidetopics/model/rtm.py
+++ b/sidetopics/model/rtm.py
@@ -119,7 +119,7 @@ def newQueryState(data, modelState):
     Return:
     A QueryState object
     '''
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).reshape(-1)
 
     # Initialise the per-token assignments at random according to the dirichlet hyper
     # This is super-slow
diff --git a/sidetopics/model/sim_based_rec.py b/sidetopics/model/sim_based_rec.py
index 5c73813..c5b51e1 100644
--- a/sidetopics/model/sim_based_rec.py
+++ b/sidetopics/model/sim_based_rec.py
@@ -175,7 +175,7 @@ def train (data, model, query, trainPlan, isQuery=False):
     # Step 1: Learn the topics using vanilla LDA
     if method == TF_IDF:
         # First do TF
-        docLens = np.squeeze(np.array(data.words.sum(axis=1)))
+        docLens = np.asarray(data.words.sum(axis=1)).reshape(-1)
         reps = data.words.copy()
         #reps /= docLens[:, np.newaxis] replaced with line below to retain sparsity
         reps = ssp.diags(np.reciprocal(docLens), 0).dot(reps)
diff --git a/sidetopics/model/stm_uv_vec_y_bohning.py b/sidetopics/model/stm_uv_vec_y_bohning.py
index c8404b4..9a6c509 100644
--- a/sidetopics/model/stm_uv_vec_y_bohning.py
+++ b/sidetopics/model/stm_uv_vec_y_bohning.py
@@ -178,7 +178,7 @@ def newQueryState(data, modelState):
     
     D,T = data.words.shape
     assert T == vocab.shape[1], "The number of terms in the document-term matrix (" + str(T) + ") differs from that in the model-states vocabulary parameter " + str(vocab.shape[1])
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).reshape(-1)
 
     means = normalizerows_ip(rd.random((D,K)).astype(dtype))
     
diff --git a/sidetopics/model/stm_uv_vecy_bohning.py b/sidetopics/model/stm_uv_vecy_bohning.py
index f9024d6..87a9f77 100644
--- a/sidetopics/model/stm_uv_vecy_bohning.py
+++ b/sidetopics/model/stm_uv_vecy_bohning.py
@@ -135,7 +135,7 @@ def newQueryState(data, model):
     
     D,T = data.words.shape
     assert T == vocab.shape[1], "The number of terms in the document-term matrix (" + str(T) + ") differs from that in the model-states vocabulary parameter " + str(vocab.shape[1])
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).reshape(-1)
 
     base     = rd.random((D,K*2)).astype(dtype)
     means    = base[:,:K]
diff --git a/sidetopics/model/stm_yv_bohning.py b/sidetopics/model/stm_yv_bohning.py
index 9d2eb83..b7325cc 100644
--- a/sidetopics/model/stm_yv_bohning.py
+++ b/sidetopics/model/stm_yv_bohning.py
@@ -136,7 +136,7 @@ def newQueryState(data, model):
     
     D,T = data.words.shape
     assert T == vocab.shape[1], "The number of terms in the document-term matrix (" + str(T) + ") differs from that in the model-states vocabulary parameter " + str(vocab.shape[1])
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).reshape(-1)
 
     base     = rd.random((D,K*2)).astype(dtype)
     means    = base[:,:K]
diff --git a/sidetopics/model/stm_yv_bohning_fake_online.py b/sidetopics/model/stm_yv_bohning_fake_online.py
index 44abd57..a52bdc8 100644
--- a/sidetopics/model/stm_yv_bohning_fake_online.py
+++ b/sidetopics/model/stm_yv_bohning_fake_online.py
@@ -138,7 +138,7 @@ def newQueryState(data, model):
     
     D,T = data.words.shape
     assert T == vocab.shape[1], "The number of terms in the document-term matrix (" + str(T) + ") differs from that in the model-states vocabulary parameter " + str(vocab.shape[1])
-    docLens = np.squeeze(np.asarray(data.words.sum(axis=1)))
+    docLens = np.asarray(data.words.sum(axis=1)).reshape(-1)
 
     base     = rd.random((D,K*2)).astype(dtype)
     means    = base[:,:K]
-- 
2.43.0


From 955e8c6cbf6959a8170fc58bf6c3e604019ad8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:03 +0000
Subject: [PATCH 28/85] fix: correlated topic models report each document's
 topics as a row-wise softmax

---
 sidetopics/model/ctm_bohning.py          | 4 ++--
 sidetopics/model/ctm_bohning_fast.py     | 4 ++--
 sidetopics/model/ctm_grad_arb.py         | 4 ++--
 sidetopics/model/mtm2.py                 | 4 ++--
 sidetopics/model/mtm3.py                 | 4 ++--
 sidetopics/model/stm_uv_vec_y_bohning.py | 4 ++--
 6 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/sidetopics/model/ctm_bohning.py b/sidetopics/model/ctm_bohning.py
index bd0118c..17d78cd 100644
--- a/sidetopics/model/ctm_bohning.py
+++ b/sidetopics/model/ctm_bohning.py
@@ -81,8 +81,8 @@ def wordDists(model):
     return model.vocab
 
 def topicDists(query):
-    result  = np.exp(query.topicMean - query.topicMean.sum(axis=1))
-    result /= result.sum(axis=1)
+    result  = np.exp(query.topicMean - query.topicMean.max(axis=1)[:, np.newaxis])
+    result /= result.sum(axis=1)[:, np.newaxis]
     return result
 
 def newModelFromExisting(model):
diff --git a/sidetopics/model/ctm_bohning_fast.py b/sidetopics/model/ctm_bohning_fast.py
index dbb36be..859287f 100644
--- a/sidetopics/model/ctm_bohning_fast.py
+++ b/sidetopics/model/ctm_bohning_fast.py
@@ -81,8 +81,8 @@ def wordDists(model):
     return model.vocab
 
 def topicDists(query):
-    result  = np.exp(query.topicMean - query.topicMean.sum(axis=1))
-    result /= result.sum(axis=1)
+    result  = np.exp(query.topicMean - query.topicMean.max(axis=1)[:, np.newaxis])
+    result /= result.sum(axis=1)[:, np.newaxis]
     return result
 
 def newModelFromExisting(model):
diff --git a/sidetopics/model/ctm_grad_arb.py b/sidetopics/model/ctm_grad_arb.py
index bd0118c..17d78cd 100644
--- a/sidetopics/model/ctm_grad_arb.py
+++ b/sidetopics/model/ctm_grad_arb.py
@@ -81,8 +81,8 @@ def wordDists(model):
     return model.vocab
 
 def topicDists(query):
-    result  = np.exp(query.topicMean - query.topicMean.sum(axis=1))
-    result /= result.sum(axis=1)
+    result  = np.exp(query.topicMean - query.topicMean.max(axis=1)[:, np.newaxis])
+    result /= result.sum(axis=1)[:, np.newaxis]
     return result
 
 def newModelFromExisting(model):
diff --git a/sidetopics/model/mtm2.py b/sidetopics/model/mtm2.py
index 99e007c..6821d6b 100644
--- a/sidetopics/model/mtm2.py
+++ b/sidetopics/model/mtm2.py
@@ -82,8 +82,8 @@ def is_undirected_link_predictor():
     return False
 
 def topicDists(query):
-    result  = np.exp(query.topicMean - query.topicMean.sum(axis=1))
-    result /= result.sum(axis=1)
+    result  = np.exp(query.topicMean - query.topicMean.max(axis=1)[:, np.newaxis])
+    result /= result.sum(axis=1)[:, np.newaxis]
     return result
 
 def newModelFromExisting(model):
diff --git a/sidetopics/model/mtm3.py b/sidetopics/model/mtm3.py
index a7ba314..cde56ed 100644
--- a/sidetopics/model/mtm3.py
+++ b/sidetopics/model/mtm3.py
@@ -95,8 +95,8 @@ def is_undirected_link_predictor():
     return False
 
 def topicDists(queryState):
-    result  = np.exp(queryState.topicMean - queryState.topicMean.sum(axis=1))
-    result /= result.sum(axis=1)
+    result  = np.exp(queryState.topicMean - queryState.topicMean.max(axis=1)[:, np.newaxis])
+    result /= result.sum(axis=1)[:, np.newaxis]
     return result
 
 def newModelFromExisting(model, withLdaModel=None):
diff --git a/sidetopics/model/stm_uv_vec_y_bohning.py b/sidetopics/model/stm_uv_vec_y_bohning.py
index 9a6c509..a295f11 100644
--- a/sidetopics/model/stm_uv_vec_y_bohning.py
+++ b/sidetopics/model/stm_uv_vec_y_bohning.py
@@ -91,8 +91,8 @@ def wordDists(model):
     return model.vocab
 
 def topicDists(query):
-    result  = np.exp(query.topicMean - query.topicMean.sum(axis=1))
-    result /= result.sum(axis=1)
+    result  = np.exp(query.topicMean - query.topicMean.max(axis=1)[:, np.newaxis])
+    result /= result.sum(axis=1)[:, np.newaxis]
     return result
 
 def newModelFromExisting(model):
-- 
2.43.0


From f875522791d4faed141097115c4a053db1e0f1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:03 +0000
Subject: [PATCH 29/85] fix: collapsed variational training runs the planned
 number of sweeps when it logs less often than that

---
 sidetopics/model/lda_cvb.py  | 2 +-
 sidetopics/model/lda_cvb0.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/lda_cvb.py b/sidetopics/model/lda_cvb.py
index 31c1e43..c590905 100644
--- a/sidetopics/model/lda_cvb.py
+++ b/sidetopics/model/lda_cvb.py
@@ -240,7 +240,7 @@ def train (data, modelState, queryState, trainPlan, query=False):
         raise ValueError ("Input document-term matrix contains at least one document with no words")
 
     # Book-keeping for logs
-    logPoints    = 1 if logFrequency == 0 else iterations // logFrequency
+    logPoints    = 1 if logFrequency == 0 else max(1, iterations // logFrequency)
     boundIters   = []
     boundValues  = []
     likelyValues = []
diff --git a/sidetopics/model/lda_cvb0.py b/sidetopics/model/lda_cvb0.py
index d077178..5a946df 100644
--- a/sidetopics/model/lda_cvb0.py
+++ b/sidetopics/model/lda_cvb0.py
@@ -229,7 +229,7 @@ def train (data, modelState, queryState, trainPlan, query=False):
         raise ValueError ("Input document-term matrix contains at least one document with no words")
 
     # Book-keeping for logs
-    logPoints    = 1 if logFrequency == 0 else iterations // logFrequency
+    logPoints    = 1 if logFrequency == 0 else max(1, iterations // logFrequency)
     boundIters   = []
     boundValues  = []
     likelyValues = []
-- 
2.43.0


From 7afd1f05a3bf7722c00ebeb09ade2ca1a72bbc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:03 +0000
Subject: [PATCH 30/85] fix: collapsed variational training and querying return
 the model with its own topic prior

---
 sidetopics/model/lda_cvb.py  | 4 ++--
 sidetopics/model/lda_cvb0.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sidetopics/model/lda_cvb.py b/sidetopics/model/lda_cvb.py
index c590905..9637822 100644
--- a/sidetopics/model/lda_cvb.py
+++ b/sidetopics/model/lda_cvb.py
@@ -228,7 +228,7 @@ def train (data, modelState, queryState, trainPlan, query=False):
         modelState.K, modelState.topicPrior, modelState.vocabPrior, \
         modelState.n_dk, modelState.n_kt, modelState.n_k, \
         modelState.v_dk, modelState.v_kt, modelState.v_k
-    topicPrior = topicPrior_.mean()
+    topicPrior = np.mean(topicPrior_)
 
     D_train = 0 if m_n_dk is None else m_n_dk.shape[0]
     D_query = q_n_dk.shape[0]
@@ -330,7 +330,7 @@ def train (data, modelState, queryState, trainPlan, query=False):
             m_v_kt = q_v_kt.copy()
             m_v_k  = q_v_k.copy()
 
-    return ModelState(K, topicPrior, vocabPrior, m_n_dk, m_n_kt, m_n_k, m_v_dk, m_v_kt, m_v_k, modelState.dtype, modelState.name), \
+    return ModelState(K, topicPrior_, vocabPrior, m_n_dk, m_n_kt, m_n_k, m_v_dk, m_v_kt, m_v_k, modelState.dtype, modelState.name), \
            QueryState(W_list, docLens, q_n_dk, q_n_kt, q_n_k, q_v_dk, q_v_kt, q_v_k, z_dnk), \
            (np.array(boundIters), np.array(boundValues), np.array(likelyValues))
 
diff --git a/sidetopics/model/lda_cvb0.py b/sidetopics/model/lda_cvb0.py
index 5a946df..8130a5b 100644
--- a/sidetopics/model/lda_cvb0.py
+++ b/sidetopics/model/lda_cvb0.py
@@ -217,7 +217,7 @@ def train (data, modelState, queryState, trainPlan, query=False):
         queryState.W_list, queryState.docLens, queryState.n_dk, queryState.n_kt, queryState.n_k, queryState.z_dnk
     K, topicPrior_, vocabPrior, m_n_dk, m_n_kt, m_n_k = \
         modelState.K, modelState.topicPrior, modelState.vocabPrior, modelState.n_dk, modelState.n_kt, modelState.n_k
-    topicPrior = topicPrior_.mean()
+    topicPrior = np.mean(topicPrior_)
 
     D_train = 0 if m_n_dk is None else m_n_dk.shape[0]
     D_query = q_n_dk.shape[0]
@@ -303,7 +303,7 @@ def train (data, modelState, queryState, trainPlan, query=False):
             m_n_kt = q_n_kt.copy()
             m_n_k  = q_n_k.copy()
 
-    return ModelState(K, topicPrior, vocabPrior, m_n_dk, m_n_kt, m_n_k, modelState.dtype, modelState.name), \
+    return ModelState(K, topicPrior_, vocabPrior, m_n_dk, m_n_kt, m_n_k, modelState.dtype, modelState.name), \
            QueryState(W_list, docLens, q_n_dk, q_n_kt, q_n_k, z_dnk), \
            (boundIters, boundValues, likelyValues)
 
-- 
2.43.0


From 44bc15458dc310efd221f22e5aab26b315f1f174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:16 +0000
Subject: [PATCH 31/85] fix: a short Gibbs plan takes at least one sample

---
 sidetopics/model/lda_gibbs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sidetopics/model/lda_gibbs.py b/sidetopics/model/lda_gibbs.py
index 0ae6aa4..f2f0522 100644
--- a/sidetopics/model/lda_gibbs.py
+++ b/sidetopics/model/lda_gibbs.py
@@ -172,6 +172,7 @@ def newTrainPlan(iterations, burnIn = -1, thin = -1, logFrequency = 100, fastBut
         thin = 5 if iterations <= 100 \
             else 10 if iterations <= 1000 \
             else 50
+        thin = max(1, min(thin, iterations)) # always take at least one sample
 
     return TrainPlan(iterations + burnIn, burnIn, thin, logFrequency, debug)
 
-- 
2.43.0


From 5ec7415e4f69cfb21ff84a3b8855a17d9a497910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:16 +0000
Subject: [PATCH 32/85] fix: the mixture model's bound is the expected joint
 plus the entropy, and a query may run no sweeps

---
 sidetopics/model/mom_em.py | 25 +++++--------------------
 1 file changed, 5 insertions(+), 20 deletions(-)

diff --git a/sidetopics/model/mom_em.py b/sidetopics/model/mom_em.py
index 8f26393..4fcf4df 100644
--- a/sidetopics/model/mom_em.py
+++ b/sidetopics/model/mom_em.py
@@ -299,6 +299,7 @@ def query(data: DataSet, model: ModelState, queryState: QueryState, plan: TrainP
 
     topicDist = topicDists(queryState)
     oldTopicDist = np.ndarray(topicDist.shape, dtype=topicDist.dtype)
+    itr = -1
     for itr in range(plan.iterations):
         oldTopicDist[:, :] = topicDist
         topicDist = (data.words @ lnWordDist.T) + lnCorpusTopicDist[np.newaxis, :]
@@ -393,33 +394,17 @@ def var_bound(data, model, query, topicDistOverride=None):
     '''
     Determines the variational bounds.
     '''
-    bound = 0
-
-    # Unpack the the structs, for ease of access and efficiency
-    docLens, topicMeans = \
-        query.docLens, query.topicDists
-    K, topicPrior, vocabPrior, wordDists, corpusTopicDist, dtype = \
-        model.K, model.topicPrior, model.vocabPrior, model.wordDists, model.corpusTopicDist, model.dtype
-
     tops = topicDistOverride \
         if topicDistOverride is not None \
         else topicDists(query)
 
-    # Initialize z matrix if necessary
-    W = data.words
-    D, T = W.shape
-
-    wordLikely = sparseScalarProductOfSafeLnDot(data.words, tops, wordDists(model)).sum()
-    topicLikely = topicMeans.dot(fns.digamma(corpusTopicDist) - fns.digamma(corpusTopicDist.sum()))
-
-
     # Expected joint
-    like = W.dot(safe_log(wordDists).T) # D*K
-    like += corpusTopicDist[np.newaxis,:]
-    like *= safe_log(topicMeans)
+    like = data.words @ safe_log(wordDists(model)).T # D*K
+    like += safe_log(corpusTopicDist(model))[np.newaxis, :]
+    like *= tops
 
     # Entropy
-    ent = (-topicMeans * safe_log(topicMeans)).sum()
+    ent = (-tops * safe_log(tops)).sum()
 
     return like.sum() + ent
 
-- 
2.43.0


From 90de19e99a0cb477b37212a978380c8697dccaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:57 +0000
Subject: [PATCH 33/85] fix: short plans for the mixture sampler have a
 thinning interval of at least one

---
 sidetopics/model/mom_gibbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/mom_gibbs.py b/sidetopics/model/mom_gibbs.py
index 3ca2a80..1618cd2 100644
--- a/sidetopics/model/mom_gibbs.py
+++ b/sidetopics/model/mom_gibbs.py
@@ -141,7 +141,7 @@ def newTrainPlan(iterations=100, epsilon=2, logFrequency=10, fastButInaccurate=F
     if burnIn is None:
         burnIn = iterations // 4
     if thinning is None:
-        thinning = min(1, iterations // 10)
+        thinning = max(1, iterations // 10)
 
     return TrainPlan(iterations, epsilon, logFrequency, fastButInaccurate, debug, burnIn, thinning)
 
-- 
2.43.0


From 72866f5f2e0687df7c91b66794354d0304583cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:57 +0000
Subject: [PATCH 34/85] fix: the mixture sampler allocates its own output and
 logs its likelihood

---
 sidetopics/model/mom_gibbs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/mom_gibbs.py b/sidetopics/model/mom_gibbs.py
index 1618cd2..0039a80 100644
--- a/sidetopics/model/mom_gibbs.py
+++ b/sidetopics/model/mom_gibbs.py
@@ -210,7 +210,7 @@ def sample_dirichlet(W, beta, memberships, out=None):
 
     prior = np.ndarray((T,), dtype=np.float64)
     if out is None:
-        out = np.ndarray((K, T), dtpe=np.float64)
+        out = np.ndarray((K, T), dtype=np.float64)
 
     for k in range(K):
         prior[:] = W.T.dot(memberships[:, k])
@@ -283,7 +283,7 @@ def train(data, model, query, plan, updateVocab=True):
 
             iters.append(itr)
             bnds.append(var_bound(data, m, q))
-            likes.append(log_likelihood(data, m, q))
+            likes.append(log_likelihood_point(data, m, q))
 
             perp = perplexity_from_like(likes[-1], W.sum())
             print("Iteration %d : Train Perp = %4.0f  Bound = %.3f" % (itr, perp, bnds[-1]))
-- 
2.43.0


From c24b4dd60364d67b5fc6afc30fa16a124d165713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:57 +0000
Subject: [PATCH 35/85] fix: querying the mixture sampler always returns
 distributions

---
 sidetopics/model/mom_gibbs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sidetopics/model/mom_gibbs.py b/sidetopics/model/mom_gibbs.py
index 0039a80..6c08ce0 100644
--- a/sidetopics/model/mom_gibbs.py
+++ b/sidetopics/model/mom_gibbs.py
@@ -331,6 +331,10 @@ def query(data, model, queryState, queryPlan):
             sample_accum += topicDists
             sample_count += 1
 
+    if sample_count == 0: # too few iterations to get past the burn in
+        sample_accum += topicDists
+        sample_count  = 1
+
     sample_accum /= sample_count
     return model, QueryState(queryState.docLens, sample_accum, True)
 
-- 
2.43.0


From 6a7c99c07382752c3b53ce151d19740480fde48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:57 +0000
Subject: [PATCH 36/85] fix: the mixture sampler weighs clusters by the
 smoothed counts of the other documents

---
 sidetopics/model/mom_gibbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/mom_gibbs.py b/sidetopics/model/mom_gibbs.py
index 6c08ce0..283b007 100644
--- a/sidetopics/model/mom_gibbs.py
+++ b/sidetopics/model/mom_gibbs.py
@@ -184,7 +184,7 @@ def log_likelihood_point(data, model, query, topicDistOverride=None):
 def sample_memberships(W, alpha, wordDists, memberships):
     _, K = memberships.shape
 
-    priorNum = memberships.sum(axis=0) + alpha - 1
+    priorNum = memberships.sum(axis=0) + alpha
     prior = priorNum.copy()
     sample_dists = W.dot(safe_log(wordDists).T)  # d x k
 
-- 
2.43.0


From 3c58080d5d6ae1c7e17e25180868ed1632532fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:57 +0000
Subject: [PATCH 37/85] fix: the mixture sampler starts from distributions over
 clusters

---
 sidetopics/model/mom_gibbs.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/sidetopics/model/mom_gibbs.py b/sidetopics/model/mom_gibbs.py
index 283b007..77beb04 100644
--- a/sidetopics/model/mom_gibbs.py
+++ b/sidetopics/model/mom_gibbs.py
@@ -122,8 +122,6 @@ def newQueryState(data, modelState, debug):
     dist /= dist.sum()
 
     topicDists = rd.dirichlet(dist, size=data.doc_count).astype(modelState.dtype)
-    topicDists *= docLens[:, np.newaxis]
-    topicDists += modelState.topicPrior[np.newaxis, :]
 
     return QueryState(docLens, topicDists, False)
 
-- 
2.43.0


From 7eaf261cc26490bfb390cea774bb41fc376b6588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:05 +0000
Subject: [PATCH 38/85] fix: correlated topic models report topics from the
 documents' means

---
 sidetopics/model/ctm_bohning.py          | 2 +-
 sidetopics/model/ctm_bohning_fast.py     | 2 +-
 sidetopics/model/ctm_grad_arb.py         | 2 +-
 sidetopics/model/mtm2.py                 | 2 +-
 sidetopics/model/mtm3.py                 | 2 +-
 sidetopics/model/stm_uv_vec_y_bohning.py | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/sidetopics/model/ctm_bohning.py b/sidetopics/model/ctm_bohning.py
index 17d78cd..d477141 100644
--- a/sidetopics/model/ctm_bohning.py
+++ b/sidetopics/model/ctm_bohning.py
@@ -81,7 +81,7 @@ def wordDists(model):
     return model.vocab
 
 def topicDists(query):
-    result  = np.exp(query.topicMean - query.topicMean.max(axis=1)[:, np.newaxis])
+    result  = np.exp(query.means - query.means.max(axis=1)[:, np.newaxis])
     result /= result.sum(axis=1)[:, np.newaxis]
     return result
 
diff --git a/sidetopics/model/ctm_bohning_fast.py b/sidetopics/model/ctm_bohning_fast.py
index 859287f..1bad03f 100644
--- a/sidetopics/model/ctm_bohning_fast.py
+++ b/sidetopics/model/ctm_bohning_fast.py
@@ -81,7 +81,7 @@ def wordDists(model):
     return model.vocab
 
 def topicDists(query):
-    result  = np.exp(query.topicMean - query.topicMean.max(axis=1)[:, np.newaxis])
+    result  = np.exp(query.means - query.means.max(axis=1)[:, np.newaxis])
     result /= result.sum(axis=1)[:, np.newaxis]
     return result
 
diff --git a/sidetopics/model/ctm_grad_arb.py b/sidetopics/model/ctm_grad_arb.py
index 17d78cd..d477141 100644
--- a/sidetopics/model/ctm_grad_arb.py
+++ b/sidetopics/model/ctm_grad_arb.py
@@ -81,7 +81,7 @@ def wordDists(model):
     return model.vocab
 
 def topicDists(query):
-    result  = np.exp(query.topicMean - query.topicMean.max(axis=1)[:, np.newaxis])
+    result  = np.exp(query.means - query.means.max(axis=1)[:, np.newaxis])
     result /= result.sum(axis=1)[:, np.newaxis]
     return result
 
diff --git a/sidetopics/model/mtm2.py b/sidetopics/model/mtm2.py
index 6821d6b..130ad17 100644
--- a/sidetopics/model/mtm2.py
+++ b/sidetopics/model/mtm2.py
@@ -82,7 +82,7 @@ def is_undirected_link_predictor():
     return False
 
 def topicDists(query):
-    result  = np.exp(query.topicMean - query.topicMean.max(axis=1)[:, np.newaxis])
+    result  = np.exp(query.means - query.means.max(axis=1)[:, np.newaxis])
     result /= result.sum(axis=1)[:, np.newaxis]
     return result
 
diff --git a/sidetopics/model/mtm3.py b/sidetopics/model/mtm3.py
index cde56ed..084fa6c 100644
--- a/sidetopics/model/mtm3.py
+++ b/sidetopics/model/mtm3.py
@@ -95,7 +95,7 @@ def is_undirected_link_predictor():
     return False
 
 def topicDists(queryState):
-    result  = np.exp(queryState.topicMean - queryState.topicMean.max(axis=1)[:, np.newaxis])
+    result  = np.exp(queryState.outMeans - queryState.outMeans.max(axis=1)[:, np.newaxis])
     result /= result.sum(axis=1)[:, np.newaxis]
     return result
 
diff --git a/sidetopics/model/stm_uv_vec_y_bohning.py b/sidetopics/model/stm_uv_vec_y_bohning.py
index a295f11..a779985 100644
--- a/sidetopics/model/stm_uv_vec_y_bohning.py
+++ b/sidetopics/model/stm_uv_vec_y_bohning.py
@@ -91,7 +91,7 @@ def wordDists(model):
     return model.vocab
 
 def topicDists(query):
-    result  = np.exp(query.topicMean - query.topicMean.max(axis=1)[:, np.newaxis])
+    result  = np.exp(query.means - query.means.max(axis=1)[:, np.newaxis])
     result /= result.sum(axis=1)[:, np.newaxis]
     return result
 
-- 
2.43.0


From 82e64d16343403ff8704edf3b4cf017fb3bc18e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:05 +0000
Subject: [PATCH 39/85] fix: asking the variational models for their
 distributions leaves the parameters alone

---
 sidetopics/model/lda_svb.py | 6 +++---
 sidetopics/model/lda_vb.py  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/sidetopics/model/lda_svb.py b/sidetopics/model/lda_svb.py
index 9a77603..c02df27 100644
--- a/sidetopics/model/lda_svb.py
+++ b/sidetopics/model/lda_svb.py
@@ -357,7 +357,7 @@ def wordDists (modelState):
     '''
     The K x T matrix of  word distributions inferred for the K topics
     '''
-    result = modelState.wordDists
+    result = modelState.wordDists.copy()
     norm   = np.sum(modelState.wordDists, axis=1)
     result /= norm[:,np.newaxis]
 
@@ -368,7 +368,7 @@ def topicDists (queryState):
     The D x K matrix of topics distributions inferred for the K topics
     across all D documents
     '''
-    result = queryState.topicDists
+    result = queryState.topicDists.copy()
     norm   = np.sum(queryState.topicDists, axis=1)
     result /= norm[:,np.newaxis]
 
@@ -467,7 +467,7 @@ def vocab(modelState):
     Return the vocabulary inferred by this model as a KxT matrix of T
     terms for each of the K topics
     '''
-    return modelState.wordDists
+    return wordDists(modelState)
 
 
 
diff --git a/sidetopics/model/lda_vb.py b/sidetopics/model/lda_vb.py
index cc5866d..6d66a5c 100644
--- a/sidetopics/model/lda_vb.py
+++ b/sidetopics/model/lda_vb.py
@@ -347,7 +347,7 @@ def wordDists (modelState):
     '''
     The K x T matrix of  word distributions inferred for the K topics
     '''
-    result = modelState.wordDists
+    result = modelState.wordDists.copy()
     norm   = np.sum(modelState.wordDists, axis=1)
     result /= norm[:,np.newaxis]
 
@@ -358,7 +358,7 @@ def topicDists (queryState):
     The D x K matrix of topics distributions inferred for the K topics
     across all D documents
     '''
-    result = queryState.topicDists
+    result = queryState.topicDists.copy()
     norm   = np.sum(queryState.topicDists, axis=1)
     result /= norm[:,np.newaxis]
 
@@ -457,7 +457,7 @@ def vocab(modelState):
     Return the vocabulary inferred by this model as a KxT matrix of T
     terms for each of the K topics
     '''
-    return modelState.wordDists
+    return wordDists(modelState)
 
 
 
-- 
2.43.0


From f5ff56c416724fb6a5900a40a28f5089a4ec895c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:20 +0000
Subject: [PATCH 40/85] fix: relational topic model queries pass the link
 weights

---
 sidetopics/model/rtm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/rtm.py b/sidetopics/model/rtm.py
index 1c2b820..dbaef14 100644
--- a/sidetopics/model/rtm.py
+++ b/sidetopics/model/rtm.py
@@ -469,7 +469,7 @@ def train(data, model, query, plan, updateVocab=True):
                 if debug: print("Topic Prior is now " + str(topicPrior))
         else:
             for d in range(D):
-                _ = _update_topics_at_d(d, W, docLens, topicMeans, topicPrior, diWordDists, diWordDistSums)
+                _ = _update_topics_at_d(d, data, weights, docLens, topicMeans, topicPrior, diWordDists, diWordDistSums)
 
     topicMeans = _convertMeansToDirichletParam(docLens, topicMeans, topicPrior)
 
-- 
2.43.0


From 7c44fc15562c9b8d907c429c2b6db4f2ccff26d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:23 +0000
Subject: [PATCH 41/85] fix: adaptive learning rate averages gradients with the
 inverse of its window

---
 sidetopics/model/lda_vb_python.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/lda_vb_python.py b/sidetopics/model/lda_vb_python.py
index f4cc7c0..06be342 100644
--- a/sidetopics/model/lda_vb_python.py
+++ b/sidetopics/model/lda_vb_python.py
@@ -424,7 +424,7 @@ def train(data, model, query, plan, updateVocab=True):
                     gtg[k] = np.dot(grad[k,:], grad[k,:])
                 update_inplace_s(gradStep, old=exp_gtg, change=gtg)
                 stepSize /= exp_gtg
-                gradStep  = gradStep * (1 - stepSize) + 1
+                gradStep /= (1 - stepSize) + gradStep # a moving-average weight, i.e. the inverse of the window's size
             elif rateAlgor == RateAlgorAmaria:
                 topicMeans = _convertMeansToDirichletParam(docLens, topicMeans, topicPrior)
                 # doc_indices = np.linspace(firstD, firstD + batchSize -1, batchSize) % D
-- 
2.43.0


From d4c25417b617e11e16f8ee7fb251611ae37a8ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:30 +0000
Subject: [PATCH 42/85] fix: precision and recall at m look at the first m
 links, not m + 1

---
 sidetopics/model/evals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/evals.py b/sidetopics/model/evals.py
index 73a866c..38860dc 100644
--- a/sidetopics/model/evals.py
+++ b/sidetopics/model/evals.py
@@ -149,7 +149,7 @@ def mean_prec_rec_at(expected_links, estim_link_probs, at=None, groups=None):
         for i in range(len(ms)):
             m = ms[i]
             # Calculate the precision at m
-            recv_set = set(recv_indices[:(m+1)])
+            recv_set = set(recv_indices[:m])
             if len (recv_set) == 0:
                 print ("Ruh-ro")
                 continue
-- 
2.43.0


From 9ab4e8676eca4597982d084c99cdf8492beb72af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:30 +0000
Subject: [PATCH 43/85] fix: precision and recall no longer need every document
 to be in some group

---
 sidetopics/model/evals.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/sidetopics/model/evals.py b/sidetopics/model/evals.py
index 38860dc..7521cb1 100644
--- a/sidetopics/model/evals.py
+++ b/sidetopics/model/evals.py
@@ -106,12 +106,10 @@ def mean_prec_rec_at(expected_links, estim_link_probs, at=None, groups=None):
     docCounts
     '''
     def find_group (outLinkCount, rangeTuples):
-        i = 0
-        while rangeTuples[i][0] == AllGroups[0] \
-            or outLinkCount < rangeTuples[i][0] \
-            or outLinkCount > rangeTuples[i][1]:
-            i += 1
-        return rangeTuples[i]
+        for group in rangeTuples:
+            if group != AllGroups and group[0] <= outLinkCount <= group[1]:
+                return group
+        return None # only counts towards the overall group
 
     if at is None:
         at = [100]
@@ -120,8 +118,7 @@ def mean_prec_rec_at(expected_links, estim_link_probs, at=None, groups=None):
     else:
         ms = at
 
-    if groups is None:
-        groups = [ AllGroups ]
+    groups = [] if groups is None else list(groups)
     if not AllGroups in groups:
         groups.append(AllGroups)
 
@@ -157,13 +154,15 @@ def mean_prec_rec_at(expected_links, estim_link_probs, at=None, groups=None):
             prec_at_m = len(recv_set.intersection(expt_set)) / m
             rec_at_m  = len(recv_set.intersection(expt_set)) / len(expt_set)
 
-            precs_at_m[g][i] += prec_at_m
-            recs_at_m[g][i]  += rec_at_m
+            if g is not None:
+                precs_at_m[g][i] += prec_at_m
+                recs_at_m[g][i]  += rec_at_m
 
             precs_at_m[AllGroups][i] += prec_at_m
             recs_at_m[AllGroups][i]  += rec_at_m
 
-        docCounts[g] += 1
+        if g is not None:
+            docCounts[g] += 1
         docCounts[AllGroups] += 1
 
     # Return the mean of average-precisions
-- 
2.43.0


From 3cc6d12b32493cf1414a48f4c93e2a7611541e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:30 +0000
Subject: [PATCH 44/85] fix: mean average precision penalises absent links and
 skips documents with none expected

---
 sidetopics/model/evals.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sidetopics/model/evals.py b/sidetopics/model/evals.py
index 7521cb1..1c3a345 100644
--- a/sidetopics/model/evals.py
+++ b/sidetopics/model/evals.py
@@ -74,7 +74,7 @@ def mean_reciprocal_rank(expected_links, estim_link_probs):
 
     if len(docs_lacking_links) > 0:
         print (str(len(docs_lacking_links)) + " of the " + str(D) + " documents had no links to check, including documents " + ", ".join(str(d) for d in docs_lacking_links[:10]))
-    return rank_sum / rank_count
+    return rank_sum / max(1, rank_count)
 
 #@nb.autojit Does not support cellvars
 def mean_prec_rec_at(expected_links, estim_link_probs, at=None, groups=None):
@@ -232,8 +232,9 @@ def mean_average_prec(expected_links, estim_link_probs):
                 print ("Warning: no indices returned for document " + str(d))
             while m < M and recv_indices[m] != e:
                 m += 1
-            if m == (M - 1) and recv_indices[m] != e:
+            if m == M:
                 print ("WARNING: Could not find link ID " + str(e) + " in the received indices")
+                continue # links which were never returned have zero precision
 
             # Calculate the precision at m
             recv_set = set(recv_indices[:(m+1)])
@@ -252,7 +253,7 @@ def mean_average_prec(expected_links, estim_link_probs):
     # Return the mean of average-precisions
     if len(docs_lacking_links) > 0:
         print (str(len(docs_lacking_links)) + " of the " + str(D) + " documents had no links to check, including documents " + ", ".join(str(d) for d in docs_lacking_links[:10]))
-    return sum_ap / D
+    return sum_ap / max(1, D - len(docs_lacking_links))
 
 
 
-- 
2.43.0


From b5b949885a720f836518223f72c52b54acb8031b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:03 +0000
Subject: [PATCH 45/85] fix: row ranges of the sparse kernels read the rows
 asked for and write into the given output

---
 sidetopics/util/se_fast.pyx           | 24 ++++++++++++++++++++----
 sidetopics/util/sparse_elementwise.py | 14 ++++++++------
 2 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/sidetopics/util/se_fast.pyx b/sidetopics/util/se_fast.pyx
index 0b6d7b7..81a3877 100644
--- a/sidetopics/util/se_fast.pyx
+++ b/sidetopics/util/se_fast.pyx
@@ -275,6 +275,7 @@ def sparseScalarQuotientOfDot_f8(double[:] A_data, int[:] A_indices, int[:] A_pt
         int elemCount =0
         int e = 0
         int i = 0
+        int o = 0
 
     with nogil:
         while A_row < end:
@@ -283,10 +284,13 @@ def sparseScalarQuotientOfDot_f8(double[:] A_data, int[:] A_indices, int[:] A_pt
             if A_row >= start:
                 while e < elemCount:
                     col = A_indices[i]
-                    out_data[i] = A_data[i] / dotProduct_f8(B_row,col,B,C)
+                    out_data[o] = A_data[i] / dotProduct_f8(B_row,col,B,C)
                     i += 1
+                    o += 1
                     e += 1
                 B_row += 1
+            else:
+                i += elemCount
             A_row += 1
     
     return out_data
@@ -322,6 +326,7 @@ def sparseScalarQuotientOfDot_f4(float[:] A_data, int[:] A_indices, int[:] A_ptr
         int elemCount =0
         int e = 0
         int i = 0
+        int o = 0
 
     with nogil:
         while A_row < end:
@@ -330,10 +335,13 @@ def sparseScalarQuotientOfDot_f4(float[:] A_data, int[:] A_indices, int[:] A_ptr
             if A_row >= start:
                 while e < elemCount:
                     col = A_indices[i]
-                    out_data[i] = A_data[i] / dotProduct_f4(B_row,col,B,C)
+                    out_data[o] = A_data[i] / dotProduct_f4(B_row,col,B,C)
                     i += 1
+                    o += 1
                     e += 1
                 B_row += 1
+            else:
+                i += elemCount
             A_row += 1
     
     return out_data
@@ -510,6 +518,7 @@ def sparseScalarProductOfSafeLnDot_f8(double[:] A_data, int[:] A_indices, int[:]
         int elemCount =0
         int e = 0
         int i = 0
+        int o = 0
         double dotProd = 0.0
         double logOfMin = log (DBL_MIN)
     
@@ -521,10 +530,13 @@ def sparseScalarProductOfSafeLnDot_f8(double[:] A_data, int[:] A_indices, int[:]
                 while e < elemCount:
                     col         = A_indices[i]
                     dotProd     = dotProduct_f8(B_row,col,B,C)
-                    out_data[i] = A_data[i] * (log(dotProd) if dotProd > DBL_MIN else logOfMin)
+                    out_data[o] = A_data[i] * (log(dotProd) if dotProd > DBL_MIN else logOfMin)
                     i += 1
+                    o += 1
                     e += 1
                 B_row += 1
+            else:
+                i += elemCount
             A_row += 1
     
     return out_data
@@ -585,6 +597,7 @@ def sparseScalarProductOfSafeLnDot_f4(float[:] A_data, int[:] A_indices, int[:]
         int elemCount =0
         int e = 0
         int i = 0
+        int o = 0
         float dotProd = 0.0
         float logOfMin = log (FLT_MIN)
 
@@ -596,10 +609,13 @@ def sparseScalarProductOfSafeLnDot_f4(float[:] A_data, int[:] A_indices, int[:]
                 while e < elemCount:
                     col         = A_indices[i]
                     dotProd     = dotProduct_f4(B_row,col,B,C)
-                    out_data[i] = A_data[i] * (log(dotProd) if dotProd > FLT_MIN else logOfMin)
+                    out_data[o] = A_data[i] * (log(dotProd) if dotProd > FLT_MIN else logOfMin)
                     i += 1
+                    o += 1
                     e += 1
                 B_row += 1
+            else:
+                i += elemCount
             A_row += 1
     
     return out_data
diff --git a/sidetopics/util/sparse_elementwise.py b/sidetopics/util/sparse_elementwise.py
index dde26ab..e77d188 100644
--- a/sidetopics/util/sparse_elementwise.py
+++ b/sidetopics/util/sparse_elementwise.py
@@ -154,11 +154,13 @@ def sparseScalarQuotientOfDot (A, B, C, out=None, start=None, end=None):
         end = A.shape[0]
     if out is None:
         out = A[start:end,:].copy()
+    # the part of the output that corresponds to the given rows
+    out_data = out.data[A.indptr[start]:A.indptr[end]] if out.shape[0] == A.shape[0] else out.data
         
     if A.dtype == np.float64:
-        compiled.sparseScalarQuotientOfDot_f8(A.data, A.indices, A.indptr, B, C, out.data, start, end)
+        compiled.sparseScalarQuotientOfDot_f8(A.data, A.indices, A.indptr, B, C, out_data, start, end)
     elif A.dtype == np.float32:
-        compiled.sparseScalarQuotientOfDot_f4(A.data, A.indices, A.indptr, B, C, out.data, start, end)
+        compiled.sparseScalarQuotientOfDot_f4(A.data, A.indices, A.indptr, B, C, out_data, start, end)
     else:
         raise ValueError ("No native Cython implementation for dtype " + str(A.dtype))
         _sparseScalarQuotientOfDot_py(A,B,C, out)
@@ -276,21 +278,21 @@ def sparseScalarProductOfSafeLnDot (A, B, C, out=None, start=None, end=None):
         end = A.shape[0]
     if out is None:
         out = A[start:end,:].copy()
+    # the part of the output that corresponds to the given rows
+    out_data = out.data[A.indptr[start]:A.indptr[end]] if out.shape[0] == A.shape[0] else out.data
 
     if (start, end) == (0, A.shape[0]) and A.dtype == np.float64:
-        # out = A.copy()
         # oldWay = np.sum(compiled.sparseScalarProductOfSafeLnDot_f8_full(
         #      A.data, A.indices, A.indptr, B, C, out.data))
-        out = A.copy()
         newWay = np.sum(compiled.sparseScalarProductOfSafeLnDot_f8(
              A.data, A.indices, A.indptr, B, C, out.data, 0, A.shape[0]))
 
         # print ("The old way was " + str(oldWay) + " and the new way was " + str(newWay))
         # raise ValueError("Mixed types")
     elif A.dtype == np.float64:
-        compiled.sparseScalarProductOfSafeLnDot_f8(A.data, A.indices, A.indptr, B, C, out.data, start, end)
+        compiled.sparseScalarProductOfSafeLnDot_f8(A.data, A.indices, A.indptr, B, C, out_data, start, end)
     elif A.dtype == np.float32:
-        compiled.sparseScalarProductOfSafeLnDot_f4(A.data, A.indices, A.indptr, B, C, out.data, start, end)
+        compiled.sparseScalarProductOfSafeLnDot_f4(A.data, A.indices, A.indptr, B, C, out_data, start, end)
     else:
         _sparseScalarProductOfSafeLnDot_py(A,B,C, out)
     return out
-- 
2.43.0


From f8bcc5deb7d9679b97710d473ce923601ae60ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:03 +0000
Subject: [PATCH 46/85] fix: numpy fallback of entropyOfDot uses the topic's
 word probability

---
 sidetopics/util/sparse_elementwise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/util/sparse_elementwise.py b/sidetopics/util/sparse_elementwise.py
index e77d188..4faf108 100644
--- a/sidetopics/util/sparse_elementwise.py
+++ b/sidetopics/util/sparse_elementwise.py
@@ -121,7 +121,7 @@ def entropyOfDot_py (topics, vocab):
         
         for k in range(K):
             for t in range(T):
-                result -= (topics[d,k] / denom) * vocab[k,t] * log ((topics[d,k] / denom) * vocab[d,k])
+                result -= (topics[d,k] / denom) * vocab[k,t] * log ((topics[d,k] / denom) * vocab[k,t])
     
     return result
 
-- 
2.43.0


From 1465cad94129aa7b94977bb786375b57c568367d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:03 +0000
Subject: [PATCH 47/85] fix: impossible words contribute nothing to
 entropyOfDot

---
 sidetopics/util/se_fast.pyx           | 6 ++++--
 sidetopics/util/sparse_elementwise.py | 4 +++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/sidetopics/util/se_fast.pyx b/sidetopics/util/se_fast.pyx
index 81a3877..6dbfe37 100644
--- a/sidetopics/util/se_fast.pyx
+++ b/sidetopics/util/se_fast.pyx
@@ -184,7 +184,8 @@ def entropyOfDot_f8 (double[:,:] topics, double[:,:] vocab):
                 t = 0
                 while t < T:
                     z_dtk   = (topics[d,k] / denom) * vocab[k,t]
-                    result -= z_dtk * log (z_dtk)
+                    if z_dtk > 0: # as z ln z -> 0
+                        result -= z_dtk * log (z_dtk)
                     t += 1
                 k += 1
             d += 1
@@ -236,7 +237,8 @@ def entropyOfDot_f4 (float[:,:] topics, float[:,:] vocab):
                 t = 0
                 while t < T:
                     z_dtk   = (topics[d,k] / denom) * vocab[k,t]
-                    result -= z_dtk * log (z_dtk)
+                    if z_dtk > 0: # as z ln z -> 0
+                        result -= z_dtk * log (z_dtk)
                     t += 1
                 k += 1
             d += 1
diff --git a/sidetopics/util/sparse_elementwise.py b/sidetopics/util/sparse_elementwise.py
index 4faf108..b547d68 100644
--- a/sidetopics/util/sparse_elementwise.py
+++ b/sidetopics/util/sparse_elementwise.py
@@ -121,7 +121,9 @@ def entropyOfDot_py (topics, vocab):
         
         for k in range(K):
             for t in range(T):
-                result -= (topics[d,k] / denom) * vocab[k,t] * log ((topics[d,k] / denom) * vocab[k,t])
+                z_dtk = (topics[d,k] / denom) * vocab[k,t]
+                if z_dtk > 0: # as z ln z -> 0
+                    result -= z_dtk * log (z_dtk)
     
     return result
 
-- 
2.43.0


From 317f5a2489af0eaeec286b88b58ff46870b81ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:03 +0000
Subject: [PATCH 48/85] fix: selfSoftDot of the sparse utilities uses the
 compiled code that exists

---
 sidetopics/util/sparse_elementwise.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/sidetopics/util/sparse_elementwise.py b/sidetopics/util/sparse_elementwise.py
index b547d68..67437e1 100644
--- a/sidetopics/util/sparse_elementwise.py
+++ b/sidetopics/util/sparse_elementwise.py
@@ -11,6 +11,7 @@ import sidetopics.util.se_fast as compiled
 from math import log
 import sys
 from sidetopics.util.overflow_safe import safe_log
+import sidetopics.util.sigmoid_utils as sigmoid_utils
 from sidetopics.util.sigmoid_utils import rowwise_softmax
 
 WarnIfSlow=True
@@ -59,15 +60,7 @@ def selfSoftDot(matrix):
     and double-precision numbers, uses fast-ish numpy code as a
     fallback, but at the cost of creating a copy of of the matrix.
     '''
-    assert not np.isfortran(matrix), "Matrix is not stored in row-major form"
-    if matrix.dtype == np.float64:
-        return compiled.selfSoftDot_f8(matrix)
-    elif matrix.dtype == np.float32:
-        return compiled.selfSoftDot_f4(matrix)
-    
-    if WarnIfSlow:
-        sys.stderr.write("WARNING: Slow code path triggered (selfSoftDot)")
-    return np.sum(matrix * rowwise_softmax(matrix))
+    return sigmoid_utils.selfSoftDot(matrix)
 
 def entropyOfDot (topics, vocab):
     '''
-- 
2.43.0


From be7408763798e40b7eac27983f81342d4d53e7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:40 +0000
Subject: [PATCH 49/85] fix: scaledSelfSoftDot weights the rows by the given
 scale

---
 sidetopics/util/sig_fast.pyx     | 8 ++++----
 sidetopics/util/sigmoid_utils.py | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/sidetopics/util/sig_fast.pyx b/sidetopics/util/sig_fast.pyx
index ef49f44..cd7b1cd 100644
--- a/sidetopics/util/sig_fast.pyx
+++ b/sidetopics/util/sig_fast.pyx
@@ -113,7 +113,7 @@ def selfSoftDot_f8_i8(double[:,:] mat, long[:] scale):
                 expSum += exp(mat[row,col] - max)
         
             for col in range(cols):
-                total += exp(mat[row,col] - max) * mat[row,col] / expSum
+                total += scale[row] * exp(mat[row,col] - max) * mat[row,col] / expSum
     
     return total
 
@@ -148,7 +148,7 @@ def selfSoftDot_f4_i8(float[:,:] mat, long[:] scale):
                 expSum += exp(mat[row,col] - max)
         
             for col in range(cols):
-                total += exp(mat[row,col] - max) * mat[row,col] / expSum
+                total += scale[row] * exp(mat[row,col] - max) * mat[row,col] / expSum
     
     return total
 
@@ -184,7 +184,7 @@ def selfSoftDot_f8_f8(double[:,:] mat, double[:] scale):
                 expSum += exp(mat[row,col] - max)
         
             for col in range(cols):
-                total += exp(mat[row,col] - max) * mat[row,col] / expSum
+                total += scale[row] * exp(mat[row,col] - max) * mat[row,col] / expSum
     
     return total
 
@@ -219,7 +219,7 @@ def selfSoftDot_f4_f4(float[:,:] mat, float[:] scale):
                 expSum += exp(mat[row,col] - max)
         
             for col in range(cols):
-                total += exp(mat[row,col] - max) * mat[row,col] / expSum
+                total += scale[row] * exp(mat[row,col] - max) * mat[row,col] / expSum
     
     return total
 
diff --git a/sidetopics/util/sigmoid_utils.py b/sidetopics/util/sigmoid_utils.py
index 54a7113..b07ff0c 100644
--- a/sidetopics/util/sigmoid_utils.py
+++ b/sidetopics/util/sigmoid_utils.py
@@ -102,5 +102,5 @@ def scaledSelfSoftDot(matrix, scale):
     
     if WarnIfSlow:
         sys.stderr.write("WARNING: Slow code path triggered (scaledSelfSoftDot)")
-    return np.sum(matrix * rowwise_softmax(matrix))
+    return np.sum(scale[:, np.newaxis] * matrix * rowwise_softmax(matrix))
 
-- 
2.43.0


From d568c5f0385821c172423cfc4807790c3e595f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:09 +0000
Subject: [PATCH 50/85] fix: csr_indices gives coordinates numpy can index with

---
 sidetopics/util/sparse_elementwise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/util/sparse_elementwise.py b/sidetopics/util/sparse_elementwise.py
index 67437e1..d331cdc 100644
--- a/sidetopics/util/sparse_elementwise.py
+++ b/sidetopics/util/sparse_elementwise.py
@@ -387,4 +387,4 @@ def csr_indices(ptr, ind):
             rows[totalElemCount : totalElemCount + elemCount] = [r] * elemCount
         totalElemCount += elemCount
 
-    return [rows, ind.tolist()]
+    return rows, ind.tolist()
-- 
2.43.0


From 75ae0dddabb89a54a33461c72bcbe4d3d14d4e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:00 +0000
Subject: [PATCH 51/85] fix: softmax of whole-number matrices

---
 sidetopics/util/sigmoid_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sidetopics/util/sigmoid_utils.py b/sidetopics/util/sigmoid_utils.py
index b07ff0c..2c6028c 100644
--- a/sidetopics/util/sigmoid_utils.py
+++ b/sidetopics/util/sigmoid_utils.py
@@ -18,7 +18,8 @@ def rowwise_softmax (matrix, out=None):
     scaling to ensure that we never overflow.
     '''
     if out is None:
-        out = np.ndarray(shape=matrix.shape, dtype=matrix.dtype)
+        # probabilities are fractions, even where the matrix holds whole numbers
+        out = np.ndarray(shape=matrix.shape, dtype=matrix.dtype if matrix.dtype.kind == 'f' else np.float64)
     
     row_maxes = matrix.max(axis=1) # Underflow makes sense i.e. Pr(K=k) = 0. Overflow doesn't, i.e Pr(K=k) = \infty
     np.exp(matrix - row_maxes[:, np.newaxis], out=out)
@@ -32,7 +33,8 @@ def colwise_softmax (matrix, out=None):
     scaling to ensure that we never overflow.
     '''
     if out is None:
-        out = np.ndarray(shape=matrix.shape, dtype=matrix.dtype)
+        # probabilities are fractions, even where the matrix holds whole numbers
+        out = np.ndarray(shape=matrix.shape, dtype=matrix.dtype if matrix.dtype.kind == 'f' else np.float64)
 
     col_maxes = matrix.max(axis=0) # Underflow makes sense i.e. Pr(K=k) = 0. Overflow doesn't, i.e Pr(K=k) = \infty
     np.exp(matrix - col_maxes[np.newaxis, :], out=out)
-- 
2.43.0


From 5540da6b14b7a1b210d331ae07b6e73db200ace9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:00 +0000
Subject: [PATCH 52/85] fix: safe_log_one_plus uses its approximation only for
 small magnitudes

---
 sidetopics/util/overflow_safe.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sidetopics/util/overflow_safe.py b/sidetopics/util/overflow_safe.py
index dde5ad5..43fa874 100644
--- a/sidetopics/util/overflow_safe.py
+++ b/sidetopics/util/overflow_safe.py
@@ -140,7 +140,9 @@ def safe_log_one_plus(x):
     '''
     
     out = np.ndarray(x.shape)
-    out[x > 0.375] = np.log(1. + x[x > 0.375])
+    large = np.abs(x) > 0.375
+    small = np.logical_not(large)
+    out[large] = np.log(1. + x[large])
 
     # For smaller arguments we use a rational approximation
     # to the function log(1+x) to avoid the loss of precision
@@ -154,13 +156,13 @@ def safe_log_one_plus(x):
     q2 =   0.747811014037616e+00;
     q3 =  -0.845104217945565e-01;
 
-    buf = x[x <= 0.375]
+    buf = x[small]
     
     t = buf /(buf + 2.0);
     t2 = t*t;
     w = (((p3*t2 + p2)*t2 + p1)*t2 + 1.0)/(((q3*t2 + q2)*t2 + q1)*t2 + 1.0);
     
-    out[x <= 0.375] = 2.0*t*w
+    out[small] = 2.0*t*w
     
     return out
 
-- 
2.43.0


From d3363dcf967b78c1de5ac03cab0b2838217fb33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:00 +0000
Subject: [PATCH 53/85] fix: safe_log of whole numbers is not truncated

---
 sidetopics/util/overflow_safe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/util/overflow_safe.py b/sidetopics/util/overflow_safe.py
index 43fa874..1f2fc13 100644
--- a/sidetopics/util/overflow_safe.py
+++ b/sidetopics/util/overflow_safe.py
@@ -194,7 +194,7 @@ def safe_log (x, out = None):
     ln_0 = np.log(almostZero)
     
     if out is None:
-        out = np.ndarray(x.shape, dtype=x.dtype)
+        out = np.ndarray(x.shape, dtype=x.dtype if x.dtype.kind == 'f' else np.float64)
     
     if out is not x:
         out.fill (ln_0)
-- 
2.43.0


From 1d8089e77aa25c6117d89a5d4d20001e0286ed52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:00 +0000
Subject: [PATCH 54/85] fix: safe_log_det of a singular matrix is the log of
 the smallest number, as documented

---
 sidetopics/util/overflow_safe.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sidetopics/util/overflow_safe.py b/sidetopics/util/overflow_safe.py
index 1f2fc13..f61f668 100644
--- a/sidetopics/util/overflow_safe.py
+++ b/sidetopics/util/overflow_safe.py
@@ -56,6 +56,9 @@ def safe_log_det(X):
 
     _, d = np.linalg.slogdet (X)
     
+    if d == -np.inf:
+        d = np.log(np.finfo(d.dtype).tiny)
+
     return d
 
 # TODO This works, but how and why does it work?
-- 
2.43.0


From 2294a4d12daa66f87548ab5be34e8737fdcaffa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:39 +0000
Subject: [PATCH 55/85] fix: vec-transpose of matrices other than floats:
 whole-number shapes and indices

---
 sidetopics/util/vectrans.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sidetopics/util/vectrans.py b/sidetopics/util/vectrans.py
index ce1b3b0..f5ccaf1 100644
--- a/sidetopics/util/vectrans.py
+++ b/sidetopics/util/vectrans.py
@@ -86,7 +86,7 @@ def _vec_transpose_csr_jit(data, indices, indptr, shape, p):
     rows = np.ndarray((length,), dtype=np.int32)
     cols = np.ndarray((length,), dtype=np.int32)
     
-    newRows, newCols = shape[1] * p, shape[0] / p
+    newRows, newCols = shape[1] * p, shape[0] // p
     oldRow, oldCol = 0, 0
     
     dataPtr = 0
@@ -97,7 +97,7 @@ def _vec_transpose_csr_jit(data, indices, indptr, shape, p):
         oldCol = indices[dataPtr]
         
         rows[dataPtr] = oldCol * p + oldRow % p
-        cols[dataPtr] = floor(oldRow / p)
+        cols[dataPtr] = oldRow // p
         
         dataPtr += 1
     
@@ -118,18 +118,18 @@ def vec_transpose(A, p):
         return np.array (compiled.vec_transpose_f8r (A, p))
     elif A.dtype == np.float32:
         return np.array(compiled.vec_transpose_f4r (A, p))
-    elif A.order == 'F':
+    elif np.isfortran(A):
         raise ValueError ("Not implemented for Fortran order matrices")
     
     # Fall back to pure Python 
     (oldRows, oldCols) = A.shape
-    newRows, newCols = oldCols * p, oldRows / p
+    newRows, newCols = oldCols * p, oldRows // p
     out = np.ndarray((newRows, newCols), dtype=A.dtype)
     
     for oldRow in range(oldRows):
         for oldCol in range(oldCols):
             newRow = oldCol * p + oldRow % p
-            newCol = oldRow / p
+            newCol = oldRow // p
             out[newRow, newCol] = A[oldRow, oldCol]
         
     return out
-- 
2.43.0


From 5167dddfc2e99ccbc0bfca162dd56d61b529b8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:41 +0000
Subject: [PATCH 56/85] fix: lda_vb trains for fewer iterations than the log
 frequency

---
 sidetopics/model/lda_vb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/lda_vb.py b/sidetopics/model/lda_vb.py
index 6d66a5c..a5467f1 100644
--- a/sidetopics/model/lda_vb.py
+++ b/sidetopics/model/lda_vb.py
@@ -186,7 +186,7 @@ def train (data, modelState, queryState, trainPlan):
         raise ValueError ("Input document-term matrix contains at least one document with no words")
 
     # Book-keeping for logs
-    logPoints    = 1 if logFrequency == 0 else iterations // logFrequency
+    logPoints    = 1 if logFrequency == 0 else max(1, iterations // logFrequency)
     boundIters   = np.zeros(shape=(logPoints,))
     boundValues  = np.zeros(shape=(logPoints,))
     likelyValues = np.zeros(shape=(logPoints,))
-- 
2.43.0


From 7dd95ea0e1e524d4cdf00514a652d0550185a979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:41 +0000
Subject: [PATCH 57/85] fix: rtm trains without logging

---
 sidetopics/model/rtm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/rtm.py b/sidetopics/model/rtm.py
index dbaef14..81b26ad 100644
--- a/sidetopics/model/rtm.py
+++ b/sidetopics/model/rtm.py
@@ -452,7 +452,7 @@ def train(data, model, query, plan, updateVocab=True):
             _infer_weights(data, weights, topicMeans, topicPrior, negCount, reg)
 
             # Log bound and the determine if we can stop early
-            if itr % logFrequency == 0:
+            if logFrequency > 0 and itr % logFrequency == 0:
                 iters.append(itr)
                 bnds.append(_var_bound_internal(data, model, query))
                 likes.append(_log_likelihood_internal(data, model, query))
-- 
2.43.0


From ea5bb69b44833575bea376213aa1ee29a844543d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:41 +0000
Subject: [PATCH 58/85] fix: rtm's convergence test looks at the latest bound

---
 sidetopics/model/rtm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/rtm.py b/sidetopics/model/rtm.py
index 81b26ad..970b3fd 100644
--- a/sidetopics/model/rtm.py
+++ b/sidetopics/model/rtm.py
@@ -458,7 +458,7 @@ def train(data, model, query, plan, updateVocab=True):
                 likes.append(_log_likelihood_internal(data, model, query))
 
                 if debug: print("%.3f < %.3f" % (bnds[-1], likes[-1]))
-                if converged(iters, bnds, len(bnds) - 1, minIters=5):
+                if converged(iters, bnds, len(bnds), minIters=5):
                     break
 
             # Update hyperparameters (do this after bound, to make sure bound
-- 
2.43.0


From 5b3e24a13e71c2a78cd09aafa7fca1dfa99de5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:46 +0000
Subject: [PATCH 59/85] fix: TF-IDF representations of integer word counts and
 of the current numpy

---
 sidetopics/model/sim_based_rec.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sidetopics/model/sim_based_rec.py b/sidetopics/model/sim_based_rec.py
index c5b51e1..e183ab1 100644
--- a/sidetopics/model/sim_based_rec.py
+++ b/sidetopics/model/sim_based_rec.py
@@ -178,10 +178,10 @@ def train (data, model, query, trainPlan, isQuery=False):
         docLens = np.asarray(data.words.sum(axis=1)).reshape(-1)
         reps = data.words.copy()
         #reps /= docLens[:, np.newaxis] replaced with line below to retain sparsity
-        reps = ssp.diags(np.reciprocal(docLens), 0).dot(reps)
+        reps = ssp.diags(np.reciprocal(docLens.astype(dtype)), 0).dot(reps)
 
-        occ  = data.words.astype(np.bool).astype(dtype)
-        docCount = np.squeeze(np.array(occ.sum(axis=0)))
+        occ  = data.words.astype(bool).astype(dtype)
+        docCount = np.array(occ.sum(axis=0)).reshape(-1)
         docCount += 1
         idf = np.log(D / docCount)
 
-- 
2.43.0


From f314ffbf4371022fa797a82c444a84e8c16b7756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:46 +0000
Subject: [PATCH 60/85] fix: cosine similarities of a single document

---
 sidetopics/model/sim_based_rec.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/sim_based_rec.py b/sidetopics/model/sim_based_rec.py
index e183ab1..6d45f4d 100644
--- a/sidetopics/model/sim_based_rec.py
+++ b/sidetopics/model/sim_based_rec.py
@@ -373,7 +373,7 @@ def link_probs_tfidf(model, train_tops, query_tops, min_link_probs, docSubset=No
     for src in docSubset:
         outRow += 1
 
-        probs = np.squeeze(np.asarray(dst_reps.dot(src_reps[src,:].T).todense()))
+        probs = np.asarray(dst_reps.dot(src_reps[src,:].T).todense()).reshape(-1)
         probs /= dst_norms
         probs /= src_norms[src]
 
@@ -397,7 +397,7 @@ def csr_row_norms(X):
 
     X2 = ssp.csr_matrix((norm_dat, X.indices, X.indptr), shape=X.shape)
 
-    norms = np.squeeze(np.array(X2.sum(axis=1)))
+    norms = np.array(X2.sum(axis=1)).reshape(-1)
     norms **= 0.5
 
     return norms
-- 
2.43.0


From c61a4cf3e812655cb06d7c8b8a359c17a0a48947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:46 +0000
Subject: [PATCH 61/85] fix: documents without weighted words have a similarity
 of zero

---
 sidetopics/model/sim_based_rec.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sidetopics/model/sim_based_rec.py b/sidetopics/model/sim_based_rec.py
index 6d45f4d..135f811 100644
--- a/sidetopics/model/sim_based_rec.py
+++ b/sidetopics/model/sim_based_rec.py
@@ -399,6 +399,7 @@ def csr_row_norms(X):
 
     norms = np.array(X2.sum(axis=1)).reshape(-1)
     norms **= 0.5
+    norms[norms == 0] = 1 # a document without weighted words resembles no other
 
     return norms
 
-- 
2.43.0


From f83aa1c65848b929e52c55bfc1e4e214363e95b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:26 +0000
Subject: [PATCH 62/85] fix: link predictors allow for rounding when
 thresholding at the minimum of the expected links

---
 sidetopics/model/lro_vb.py        |  3 ++-
 sidetopics/model/mtm2.py          |  4 ++--
 sidetopics/model/mtm3.py          |  4 ++--
 sidetopics/model/rtm.py           |  4 ++--
 sidetopics/model/sim_based_rec.py |  5 +++--
 sidetopics/util/misc.py           | 10 ++++++++++
 6 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/sidetopics/model/lro_vb.py b/sidetopics/model/lro_vb.py
index 4f360dc..bc59e3d 100644
--- a/sidetopics/model/lro_vb.py
+++ b/sidetopics/model/lro_vb.py
@@ -21,6 +21,7 @@ import time
 # MODEL_NAME="lro/gibbs"
 
 import sidetopics.model.lda_vb_python as lda
+from sidetopics.util.misc import at_least
 MODEL_NAME="lro/vb"
 
 # ==============================================================
@@ -348,7 +349,7 @@ def link_probs(model, train_tops, query_tops, min_link_probs, docSubset=None):
     for src in docSubset:
         outRow    += 1
         probs      = scale * dst_offs.dot(src_tops[src,:])
-        relevant   = np.where(probs >= min_link_probs[outRow] - 1E-9)[0]
+        relevant   = at_least(probs, min_link_probs[outRow], model.dtype, slack=1E-9)
 
         rows.extend([outRow] * len(relevant))
         cols.extend(relevant)
diff --git a/sidetopics/model/mtm2.py b/sidetopics/model/mtm2.py
index 130ad17..942ef7e 100644
--- a/sidetopics/model/mtm2.py
+++ b/sidetopics/model/mtm2.py
@@ -25,7 +25,7 @@ from sidetopics.util.sigmoid_utils import rowwise_softmax, scaledSelfSoftDot, \
     colwise_softmax
 from sidetopics.util.sparse_elementwise import sparseScalarQuotientOfDot, \
     sparseScalarQuotientOfNormedDot, sparseScalarProductOfSafeLnDot
-from sidetopics.util.misc import printStderr, static_var
+from sidetopics.util.misc import at_least, printStderr, static_var
 from sidetopics.util.overflow_safe import safe_log_det, safe_log
 from sidetopics.model.evals import perplexity_from_like
 
@@ -577,7 +577,7 @@ def link_probs(model, topics, min_link_probs):
 
         topDistAtD = softmax(topics.means[d, :])
         probs      = linkDist.dot(topDistAtD)
-        relevant   = np.where(probs >= min_link_probs[d] - 1E-9)[0]
+        relevant   = at_least(probs, min_link_probs[d], model.dtype, slack=1E-9)
 
         rows.extend([d] * len(relevant))
         cols.extend(relevant)
diff --git a/sidetopics/model/mtm3.py b/sidetopics/model/mtm3.py
index 084fa6c..5d129af 100644
--- a/sidetopics/model/mtm3.py
+++ b/sidetopics/model/mtm3.py
@@ -25,7 +25,7 @@ from sidetopics.util.sigmoid_utils import rowwise_softmax, scaledSelfSoftDot, \
 from sidetopics.util.sparse_elementwise import sparseScalarQuotientOfDot, \
     sparseScalarQuotientOfNormedDot, sparseScalarProductOfSafeLnDot, \
     sparseScalarProductOfDot
-from sidetopics.util.misc import printStderr, static_var
+from sidetopics.util.misc import at_least, printStderr, static_var
 from sidetopics.util.overflow_safe import safe_log_det, safe_log
 from sidetopics.model.evals import perplexity_from_like
 
@@ -763,7 +763,7 @@ def link_probs(model, train_tops, query_tops, min_link_probs, docSubset=None):
 
         srcTopDist = softmax(query_tops.outMeans[src, :])
         probs      = dstTopDists.dot(srcTopDist)
-        relevant   = np.where(probs >= min_link_probs[outRow] - 1E-9)[0]
+        relevant   = at_least(probs, min_link_probs[outRow], model.dtype, slack=1E-9)
 
         rows.extend([outRow] * len(relevant))
         cols.extend(relevant)
diff --git a/sidetopics/model/rtm.py b/sidetopics/model/rtm.py
index 970b3fd..21849ce 100644
--- a/sidetopics/model/rtm.py
+++ b/sidetopics/model/rtm.py
@@ -15,7 +15,7 @@ import scipy.special as fns
 
 from sidetopics.util.sparse_elementwise import sparseScalarProductOfSafeLnDot
 from sidetopics.util.overflow_safe import safe_log
-from sidetopics.util.misc import constantArray, converged
+from sidetopics.util.misc import at_least, constantArray, converged
 
 from collections import namedtuple
 
@@ -884,7 +884,7 @@ def link_probs(model, topics, min_link_probs):
     for d in range(D):
         probs = (topicMeans[d] * topicMeans).dot(weights)
         probs = _probit_inplace(probs)
-        relevant = np.where(probs >= min_link_probs[d])[0]
+        relevant = at_least(probs, min_link_probs[d], model.dtype)
 
         rows.extend([d] * len(relevant))
         cols.extend(relevant)
diff --git a/sidetopics/model/sim_based_rec.py b/sidetopics/model/sim_based_rec.py
index 135f811..6797b8f 100644
--- a/sidetopics/model/sim_based_rec.py
+++ b/sidetopics/model/sim_based_rec.py
@@ -15,6 +15,7 @@ import scipy.sparse as ssp
 
 
 import sidetopics.model.lda_vb_python as lda
+from sidetopics.util.misc import at_least
 LDA="lda/vb"
 
 # import model.gibbs as lda
@@ -377,7 +378,7 @@ def link_probs_tfidf(model, train_tops, query_tops, min_link_probs, docSubset=No
         probs /= dst_norms
         probs /= src_norms[src]
 
-        relevant = np.where(probs >= min_link_probs[outRow] - 1E-9)[0]
+        relevant = at_least(probs, min_link_probs[outRow], model.dtype, slack=1E-9)
 
         rows.extend([outRow] * len(relevant))
         cols.extend(relevant)
@@ -434,7 +435,7 @@ def link_probs_lda(model, train_tops, query_tops, min_link_probs, docSubset=None
         probs[probs < 1E-30] = 1E-30
         probs = SQRT_TWO / probs
 
-        relevant = np.where(probs >= min_link_probs[outRow] - 1E-9)[0]
+        relevant = at_least(probs, min_link_probs[outRow], model.dtype, slack=1E-9)
 
         rows.extend([outRow] * len(relevant))
         cols.extend(relevant)
diff --git a/sidetopics/util/misc.py b/sidetopics/util/misc.py
index fecf6ad..b06f96f 100644
--- a/sidetopics/util/misc.py
+++ b/sidetopics/util/misc.py
@@ -71,6 +71,16 @@ def clamp (array1, array2, array3, length):
     return outputs[0], outputs[1], outputs[2]
 
 
+def at_least (values, minimum, dtype, slack=0.):
+    '''
+    The indices of the values that are no less than the given minimum. The minimum
+    is usually one of those same values, but worked out separately and stored with
+    the given dtype, so this allows for the rounding error.
+    '''
+    tolerance = 1E-9 if dtype == np.float64 and values.dtype == np.float64 else 1E-5
+    return np.where(values >= minimum - tolerance * abs(minimum) - slack)[0]
+
+
 def to_dense_array(X):
     if ssp.issparse(X):
         X = X.todense()
-- 
2.43.0


From c7f2af32eb6b7a8d66b03f771ce24d56020015aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:41 +0000
Subject: [PATCH 63/85] fix: every group contributes in each round of
 select_group_contribs, even after another is exhausted

---
 sidetopics/run/selectusers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/run/selectusers.py b/sidetopics/run/selectusers.py
index f80b502..4f9f8e5 100644
--- a/sidetopics/run/selectusers.py
+++ b/sidetopics/run/selectusers.py
@@ -81,7 +81,7 @@ def select_group_contribs(user_counts, target):
     total_assigned = 0
     while total_assigned < target:
         group_target = 1 + (target - total_assigned) // len(candidates)
-        for group in candidates:
+        for group in list(candidates): # as exhausted groups are removed along the way
             if group_counts[group] < group_target:
                 group_contribs[group] += group_counts[group]
                 total_assigned        += group_counts[group]
-- 
2.43.0


From b2efa93d66733b73dfe77322d850f2c6aaa69bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:41 +0000
Subject: [PATCH 64/85] fix: select_group_contribs ends once every group is
 exhausted

---
 sidetopics/run/selectusers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/run/selectusers.py b/sidetopics/run/selectusers.py
index 4f9f8e5..a09b91d 100644
--- a/sidetopics/run/selectusers.py
+++ b/sidetopics/run/selectusers.py
@@ -79,7 +79,7 @@ def select_group_contribs(user_counts, target):
     candidates = [g for g in group_counts.keys()]
     group_contribs = {g:0 for g in candidates}
     total_assigned = 0
-    while total_assigned < target:
+    while total_assigned < target and len(candidates) > 0:
         group_target = 1 + (target - total_assigned) // len(candidates)
         for group in list(candidates): # as exhausted groups are removed along the way
             if group_counts[group] < group_target:
-- 
2.43.0


From cf32a7e8c182491ef6a731a703aa35a0f50fbd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:41 +0000
Subject: [PATCH 65/85] fix: rolling up groups without documents gives zero and
 not a division by zero

---
 sidetopics/run/reshape_results.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sidetopics/run/reshape_results.py b/sidetopics/run/reshape_results.py
index 3af598e..c1b770c 100644
--- a/sidetopics/run/reshape_results.py
+++ b/sidetopics/run/reshape_results.py
@@ -155,8 +155,9 @@ def roll_up_and_average(dic, dst, srcs):
         dic[dst][DocCount] += dic[src][DocCount]
         for m in Ms:
             dic[dst][m] += dic[src][m] * dic[src][DocCount]
-    for m in Ms:
-        dic[dst][m] = dic[dst][m] / dic[dst][DocCount]
+    if dic[dst][DocCount] > 0:
+        for m in Ms:
+            dic[dst][m] = dic[dst][m] / dic[dst][DocCount]
 
 
 def read_mrr(line, file):
-- 
2.43.0


From 3e5df7a29f229495dc00393398a6af53415c696b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:24 +0000
Subject: [PATCH 66/85] fix: quotes in the names of algorithms are escaped once
 only

---
 sidetopics/run/reshape_results.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sidetopics/run/reshape_results.py b/sidetopics/run/reshape_results.py
index c1b770c..680f7fc 100644
--- a/sidetopics/run/reshape_results.py
+++ b/sidetopics/run/reshape_results.py
@@ -238,7 +238,8 @@ def write_all_results(path, results_dict):
     def quoteText(value):
         # Use Pascal / Excel style quote escaping
         value = value.replace(TextLeftQuote,  TextQuoteEscape + TextLeftQuote)
-        value = value.replace(TextRightQuote, TextQuoteEscape + TextRightQuote)
+        if TextRightQuote != TextLeftQuote:
+            value = value.replace(TextRightQuote, TextQuoteEscape + TextRightQuote)
         value = TextLeftQuote + value + TextRightQuote
         return value
 
-- 
2.43.0


From d004ffd0d3c4eae3659b905126db64fe32146ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:47 +0000
Subject: [PATCH 67/85] fix: the mixture point score takes the log of the sum
 over components

---
 sidetopics/model/sklearn/lda_cvb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index 3a7cc7a..6bb1bb3 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -557,7 +557,7 @@ class TopicModel(BaseEstimator, TransformerMixin):
 
             # sum to get overall likelihood across all topics, adding back in the factor we used
             # to control overflow.
-            result = adj_per_doc_likes.sum(axis=1)
+            result = np.log(adj_per_doc_likes.sum(axis=1))
             result += max_log_like
 
             return result
-- 
2.43.0


From 5447e7eecb09065d35d54a8bf369c8f60660b03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:47 +0000
Subject: [PATCH 68/85] fix: the mixture point score accepts a single row of
 weightings

---
 sidetopics/model/sklearn/lda_cvb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index 6bb1bb3..828b85a 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -544,9 +544,9 @@ class TopicModel(BaseEstimator, TransformerMixin):
 
             # Get the log-likelihoods for each component
             per_doc_log_likes = (X.words @ lnComps.T)
-            if lnWeights.ndim == 1 or ((lnWeights.shape[0] == 1) and (X.words.shape[0] > 1)):
+            if lnWeights.ndim == 1:
                 per_doc_log_likes += lnWeights[np.newaxis, :]
-            else:
+            else: # either a row per document, or a single row for the corpus
                 per_doc_log_likes += lnWeights
 
             # substract off a factor to avoid overflow/ underflow, then exponentiate to get likelioods
-- 
2.43.0


From b65b5222125f1e4429ae711e8930e2d8ffc0a303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:47 +0000
Subject: [PATCH 69/85] fix: TopicModel.copy copies the parameters and model of
 the original

---
 sidetopics/model/sklearn/lda_cvb.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index 828b85a..1df240a 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -230,10 +230,11 @@ class TopicModel(BaseEstimator, TransformerMixin):
         Slightly shallow copy, last query state is not amended
         :return:
         """
-        result = TopicModel()
-        result.set_params(**result.get_params())
-        result._model_state = _lda_cvb0.newModelFromExisting(self._model_state)
+        result = TopicModel(**self.get_params())
+        if self._model_state is not None:
+            result._model_state = TopicModelType[self.kind].value.newModelFromExisting(self._model_state)
         result._last_query_state = self._last_query_state
+        result._last_X = self._last_X
         return result
     
     
-- 
2.43.0


From eb512ad611340686c4dd49c7e10be1a65df5b4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:47 +0000
Subject: [PATCH 70/85] fix: TopicModel.fit_transform accepts bare matrices

---
 sidetopics/model/sklearn/lda_cvb.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index 1df240a..58d80a7 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -240,6 +240,9 @@ class TopicModel(BaseEstimator, TransformerMixin):
     
 
     def fit_transform(self,  X: Union[np.ndarray, DataSet], y: np.ndarray = None, **kwargs) -> np.ndarray:
+        if type(X) is not DataSet: # once only, as transform() resumes with the data fit() was given
+            X = DataSet(words=X)
+
         return self.fit(
             X, y,
             persist_query_state=True,
-- 
2.43.0


From 235d4c57514dd2001a36d30b6c463c871f268a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:47 +0000
Subject: [PATCH 71/85] fix: expected scores infer the query state when none is
 given

---
 sidetopics/model/sklearn/lda_cvb.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index 58d80a7..60215bb 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -453,7 +453,10 @@ class TopicModel(BaseEstimator, TransformerMixin):
         if (y is not None) and (y_query_state is not None):
             raise ValueError("Cannot specify both y and y_query_state at the same time")
         elif (y is None) and (y_query_state is None):
-            if not method.is_doc_completion():
+            if not method.is_point_estimate():
+                logging.warning("No distribution (y_query_state), querying for it instead")
+                query_state = self.find_query_state_via_transform(X, {}, persist_query_state=False)
+            elif not method.is_doc_completion():
                 logging.warning("No representation (y), or distribution (y_query_state), querying for y instead")
                 y = self.transform(X)
             else:
-- 
2.43.0


From 226af13d8a1d3a9a75d01edf9f5144af9dc62212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:47 +0000
Subject: [PATCH 72/85] fix: TopicModel passes the burn-in and thinning to the
 mixture's Gibbs sampler

---
 sidetopics/model/sklearn/lda_cvb.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index 60215bb..13e0f72 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -331,6 +331,18 @@ class TopicModel(BaseEstimator, TransformerMixin):
                 fastButInaccurate=self.use_approximations,
                 debug=self.debug
             )
+        elif module is _mom_gibbs:
+            burn_in = kwargs.get('burn_in') or self.burn_in
+            thin = kwargs.get('thin') or self.thin
+            return module.newTrainPlan(
+                iterations=iters,
+                epsilon=self.perp_tolerance,
+                burnIn=None if burn_in < 0 else burn_in,
+                thinning=None if thin < 0 else thin,
+                logFrequency=self.log_frequency,
+                fastButInaccurate=self.use_approximations,
+                debug=self.debug
+            )
         else:
             return module.newTrainPlan(
                 iterations=iters,
-- 
2.43.0


From fa91cb10a93603a048672515e8cb68565ab342c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:47 +0000
Subject: [PATCH 73/85] fix: lda_gibbs.seed_rng uses the given seed

---
 sidetopics/model/lda_gibbs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/lda_gibbs.py b/sidetopics/model/lda_gibbs.py
index f2f0522..920cb48 100644
--- a/sidetopics/model/lda_gibbs.py
+++ b/sidetopics/model/lda_gibbs.py
@@ -178,8 +178,8 @@ def newTrainPlan(iterations, burnIn = -1, thin = -1, logFrequency = 100, fastBut
 
 
 def seed_rng(seed):
-    rd.seed(0xC0FFEE)
-    compiled.initGlobalRng(0xC0FFEE)
+    rd.seed(seed)
+    compiled.initGlobalRng(seed)
 
 
 def train (_, model, query, plan):
-- 
2.43.0


From 42c8a26d98defd4c9a11ba19271882e2bf9ba4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:47 +0000
Subject: [PATCH 74/85] fix: lda_gibbs offers perplexity_from_like like the
 other models

---
 sidetopics/model/lda_gibbs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sidetopics/model/lda_gibbs.py b/sidetopics/model/lda_gibbs.py
index 920cb48..93c3770 100644
--- a/sidetopics/model/lda_gibbs.py
+++ b/sidetopics/model/lda_gibbs.py
@@ -24,6 +24,7 @@ import numpy.random as rd
 
 import sidetopics.model.lda_gibbs_fast as compiled
 
+from sidetopics.model.evals import perplexity_from_like
 from sidetopics.util.misc import constantArray
 from sidetopics.util.sparse_elementwise import sparseScalarProductOfSafeLnDot
 import sidetopics.model.lda_vb_python as lda_vb
-- 
2.43.0


From 510ed56916499c5e8ee461ed95aec08e91684fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:19 +0000
Subject: [PATCH 75/85] fix: mom_em.log_likelihood_expected handles sparse
 words and given topic distributions

---
 sidetopics/model/mom_em.py | 36 ++++++++++++------------------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/sidetopics/model/mom_em.py b/sidetopics/model/mom_em.py
index 4fcf4df..5da204b 100644
--- a/sidetopics/model/mom_em.py
+++ b/sidetopics/model/mom_em.py
@@ -8,6 +8,7 @@ from numbers import Number
 
 import numpy as np
 import numpy.random as rd
+import scipy.sparse as ssp
 import scipy.special as fns
 from typing import Sized, Tuple
 import logging
@@ -319,30 +320,16 @@ def query(data: DataSet, model: ModelState, queryState: QueryState, plan: TrainP
 def log_likelihood_expected(data: DataSet, model: ModelState, query: QueryState) -> float:
     lls = np.zeros(shape=(len(data), model.K), dtype=model.dtype)
 
-    # p(z=k | alpha)
+    # p(z=k | alpha) for a single draw is alpha_k / sum_j alpha_j
     if query is None:  # use prior, the standard likelihood formula
         logging.info("Returning likelihood based on prior over topic assignments")
-        alpha = np.ndarray(shape=(len(data), model.K), dtype=model.dtype)
-        alpha[:, :] = corpusTopicDistDirichletParam(model)[np.newaxis, :]
-        alpha_sum = np.ndarray(shape=(len(data),), dtype=model.dtype)
-        alpha_sum[:] = corpusTopicDistDirichletParam(model).sum()
+        alpha = corpusTopicDistDirichletParam(model)[np.newaxis, :]
     else:  # Use a different distribution, e.g. the posterior from a doc-completion split
         logging.info("Returning likelihood based on given (e.g. posterior) assignments")
-        alpha = corpusTopicDistDirichletParam(model)  # DxK
-        alpha_sum = alpha.sum(axis=1)                 # Dx1
+        alpha = topicDists(query)
 
-    lls = np.zeros(shape=(len(data), model.K), dtype=model.dtype)
-    lls += fns.loggamma(alpha_sum)[:, np.newaxis]
-    lls -= fns.loggamma(alpha_sum + 1)[:, np.newaxis]
-    # FIXME this memory explosion needs to be contained
-    lls += np.sum(fns.loggamma(np.eye(model.K)[np.newaxis, :, :] + alpha[:, :, np.newaxis]), axis=1)
-    lls -= np.sum(fns.loggamma(alpha), axis=1)[:, np.newaxis]
-
-    # # Try at this point using the point estimate of the prior and see what happens to isolate.
-    # if query is not None:
-    #     lls += np.log(query.topicDists)
-    # else:
-    #     lls += np.log(corpusTopicDist(model))[np.newaxis, :]
+    lls += safe_log(alpha)
+    lls -= np.log(alpha.sum(axis=1))[:, np.newaxis]
 
     # p(X = x|z=k, beta)
     doc_lens = np.asarray(data.words.sum(axis=1)).reshape(-1)
@@ -352,11 +339,12 @@ def log_likelihood_expected(data: DataSet, model: ModelState, query: QueryState)
 
     lls += fns.loggamma(beta_sum)[np.newaxis, :]
     lls -= fns.loggamma(doc_lens[:, np.newaxis] + beta_sum[np.newaxis, :])
-    for k in range(model.K):
-        lls[:, k] += np.squeeze(np.array(
-            fns.loggamma(data.words + (beta[k, :])[np.newaxis, :]).sum(axis=1)
-        ))
-    lls -= np.sum(fns.loggamma(beta), axis=1)[np.newaxis, :]
+    words = ssp.csr_matrix(data.words)
+    for k in range(model.K): # words which don't occur cancel out
+        beta_k = beta[k, words.indices]
+        word_lls = ssp.csr_matrix((fns.loggamma(words.data + beta_k) - fns.loggamma(beta_k),
+                                   words.indices, words.indptr), shape=words.shape)
+        lls[:, k] += np.asarray(word_lls.sum(axis=1)).reshape(-1)
 
     max_lls = lls.max(axis=1)
     lls -= max_lls[:, np.newaxis]
-- 
2.43.0


From 944717a00320293b4c1df4c4d695d440912d97ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:12 +0000
Subject: [PATCH 76/85] fix: wrapped scikit-learn and gensim models score
 integer word counts

---
 sidetopics/model/sklearn/lda_cvb.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/sidetopics/model/sklearn/lda_cvb.py b/sidetopics/model/sklearn/lda_cvb.py
index 13e0f72..f189114 100644
--- a/sidetopics/model/sklearn/lda_cvb.py
+++ b/sidetopics/model/sklearn/lda_cvb.py
@@ -759,7 +759,15 @@ class WrappedSckitLda(LatentDirichletAllocation):
             raise ValueError("No such thing as a query-state for Wrapped LDA")
 
         component_dists = self.components_ / self.components_.sum(axis=1)[:, np.newaxis]
-        log_probs = sparseScalarProductOfSafeLnDot(X.words, y, component_dists).sum(axis=1)
+        words = X.words
+        if words.dtype.kind != 'f': # probabilities aren't whole numbers
+            words = words.astype(np.float64)
+        if y.dtype != words.dtype:
+            y =  y.astype(words.dtype)
+        if component_dists.dtype != words.dtype:
+            component_dists =  component_dists.astype(words.dtype)
+
+        log_probs = sparseScalarProductOfSafeLnDot(words, y, component_dists).sum(axis=1)
         log_probs = np.squeeze(np.array(log_probs))
         log_prob  = log_probs.sum()
 
@@ -923,12 +931,15 @@ class WrappedScikitHdp(HdpTransformer):
             raise ValueError("No such thing as a query-state for Wrapped LDA")
 
         component_dists = self.components_ / self.components_.sum(axis=1)[:, np.newaxis]
-        if y.dtype != X.words.dtype:
-            y =  y.astype(X.words.dtype)
-        if component_dists.dtype != X.words.dtype:
-            component_dists =  component_dists.astype(X.words.dtype)
-
-        log_probs = sparseScalarProductOfSafeLnDot(X.words, y, component_dists).sum(axis=1)
+        words = X.words
+        if words.dtype.kind != 'f': # probabilities aren't whole numbers
+            words = words.astype(np.float64)
+        if y.dtype != words.dtype:
+            y =  y.astype(words.dtype)
+        if component_dists.dtype != words.dtype:
+            component_dists =  component_dists.astype(words.dtype)
+
+        log_probs = sparseScalarProductOfSafeLnDot(words, y, component_dists).sum(axis=1)
         log_probs = np.squeeze(np.array(log_probs))
         log_prob  = log_probs.sum()
 
-- 
2.43.0


From bcf5cf13070f02aef7cfc0d5cc94942b749a9b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:04 +0000
Subject: [PATCH 77/85] fix: the evaluation driver imports the models from the
 sidetopics package

---
 sidetopics/run/__main__.py | 58 +++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 29 deletions(-)

diff --git a/sidetopics/run/__main__.py b/sidetopics/run/__main__.py
index f260cb8..b7b67c4 100644
--- a/sidetopics/run/__main__.py
+++ b/sidetopics/run/__main__.py
@@ -48,15 +48,15 @@ StmYvBohningFakeOnline = "stm_yv_bohning_fake_online"
 
 ModelNames = ', '.join([CtmBouchard, CtmBohning, StmYvBouchard, StmYvBohning, StmYvBohningFakeOnline, StmUyvBohning, LdaCvb, LdaCvbZero, LdaVb, LdaSvb, LdaGibbs, Rtm, Mtm, Lro, Dmr, MomEm, MomGibbs])
 
-from model.lda_vb_python import pruneQueryState as pruneLdaVbQueryState
-from model.lda_vb_python import MODEL_NAME as LDA_VB_MODEL_NAME
-from model.lda_gibbs import pruneQueryState as pruneLdaGibbsQueryState
-from model.lda_gibbs import MODEL_NAME as LDA_GIBBS_MODEL_NAME
-
-from model.mtm3 import MODEL_NAME as MTM_2_MODEL_NAME
-from model.lro_vb import MODEL_NAME as LRO_MODEL_NAME
-from model.sim_based_rec import MODEL_NAME_PREFIX as SIM_MODEL_NAME_PREFIX
-from model.sim_based_rec import LDA as SIM_MODEL_NAME_SUFFIX
+from sidetopics.model.lda_vb_python import pruneQueryState as pruneLdaVbQueryState
+from sidetopics.model.lda_vb_python import MODEL_NAME as LDA_VB_MODEL_NAME
+from sidetopics.model.lda_gibbs import pruneQueryState as pruneLdaGibbsQueryState
+from sidetopics.model.lda_gibbs import MODEL_NAME as LDA_GIBBS_MODEL_NAME
+
+from sidetopics.model.mtm3 import MODEL_NAME as MTM_2_MODEL_NAME
+from sidetopics.model.lro_vb import MODEL_NAME as LRO_MODEL_NAME
+from sidetopics.model.sim_based_rec import MODEL_NAME_PREFIX as SIM_MODEL_NAME_PREFIX
+from sidetopics.model.sim_based_rec import LDA as SIM_MODEL_NAME_SUFFIX
 LDA_SIM_MODEL_NAME = SIM_MODEL_NAME_PREFIX + SIM_MODEL_NAME_SUFFIX
 
 DefaultPriorCov = 0.001
@@ -182,64 +182,64 @@ def run(args):
 
     print ("Building template model... ", end="")
     if args.model == CtmBouchard:
-        import model.ctm as mdl
+        import sidetopics.model.ctm as mdl
         templateModel = mdl.newModelAtRandom(data, K, args.vocabPrior, dtype=output_dtype)
     elif args.model == CtmBohning:
-        import model.ctm_bohning as mdl
+        import sidetopics.model.ctm_bohning as mdl
         templateModel = mdl.newModelAtRandom(data, K, args.vocabPrior, dtype=output_dtype)
     elif args.model == StmYvBouchard:
-        import model.stm_yv as mdl
+        import sidetopics.model.stm_yv as mdl
         templateModel = mdl.newModelAtRandom(data, P, K, fv, lfv, args.vocabPrior, dtype=output_dtype)
     elif args.model == StmYvBohning:
-        import model.stm_yv_bohning as mdl
+        import sidetopics.model.stm_yv_bohning as mdl
         templateModel = mdl.newModelAtRandom(data, P, K, fv, lfv, args.vocabPrior, dtype=output_dtype)
     elif args.model == StmYvBohningFakeOnline:
-        import model.stm_yv_bohning_fake_online as mdl
+        import sidetopics.model.stm_yv_bohning_fake_online as mdl
         templateModel = mdl.newModelAtRandom(data, P, K, fv, lfv, args.vocabPrior, dtype=output_dtype)
     elif args.model == MomEm:
-        import model.mom_em as mdl
+        import sidetopics.model.mom_em as mdl
         templateModel = mdl.newModelAtRandom(data, K, dtype=output_dtype)
     elif args.model == MomGibbs:
-        import model.mom_gibbs as mdl
+        import sidetopics.model.mom_gibbs as mdl
         templateModel = mdl.newModelAtRandom(data, K, dtype=output_dtype)
     elif args.model == StmUyvBohning:
-        import model.stm_uv_vec_y_bohning as mdl
+        import sidetopics.model.stm_uv_vec_y_bohning as mdl
         templateModel = mdl.newModelAtRandom(data, K=K, Q=Q, P=P,  tv=tv, ltv=ltv, fv=fv, lfv=lfv, vocabPrior=args.vocabPrior, dtype=output_dtype)
     elif args.model == LdaCvb:
-        import model.lda_cvb as mdl
+        import sidetopics.model.lda_cvb as mdl
         templateModel = mdl.newModelAtRandom(data, K, dtype=output_dtype)
     elif args.model == LdaCvbZero:
-        import model.lda_cvb0 as mdl
+        import sidetopics.model.lda_cvb0 as mdl
         templateModel = mdl.newModelAtRandom(data, K, dtype=output_dtype)
     elif args.model == LdaVb:
-        import model.lda_vb_python as mdl
+        import sidetopics.model.lda_vb_python as mdl
         templateModel = mdl.newModelAtRandom(data, K, args.vocabPrior, dtype=output_dtype)
     elif args.model == LdaSvb:
-        import model.lda_vb_python as mdl
+        import sidetopics.model.lda_vb_python as mdl
         templateModel = mdl.newModelAtRandom(data, K, args.vocabPrior, dtype=output_dtype)
     elif args.model == LdaGibbs:
-        import model.lda_gibbs as mdl
+        import sidetopics.model.lda_gibbs as mdl
         templateModel = mdl.newModelAtRandom(data, K, dtype=output_dtype)
     elif args.model == Rtm:
-        import model.rtm as mdl
+        import sidetopics.model.rtm as mdl
         templateModel = mdl.newModelAtRandom(data, K, dtype=output_dtype)
     elif args.model == Mtm:
-        import model.mtm2 as mdl
+        import sidetopics.model.mtm2 as mdl
         templateModel = mdl.newModelAtRandom(data, K, dtype=output_dtype)
     elif args.model == Mtm2:
-        import model.mtm3 as mdl
+        import sidetopics.model.mtm3 as mdl
         templateModel = mdl.newModelAtRandom(data, K, dtype=output_dtype)
     elif args.model == Dmr:
-        import model.dmr as mdl
+        import sidetopics.model.dmr as mdl
         templateModel = mdl.newModelAtRandom(data, K, dtype=output_dtype)
     elif args.model == Lro:
-        import model.lro_vb as mdl
+        import sidetopics.model.lro_vb as mdl
         templateModel = mdl.newModelAtRandom(data, K, dtype=output_dtype)
     elif args.model == SimLda:
-        import model.sim_based_rec as mdl
+        import sidetopics.model.sim_based_rec as mdl
         templateModel = mdl.newModelAtRandom(data, K, method=mdl.LDA, dtype=output_dtype)
     elif args.model == SimTfIdf:
-        import model.sim_based_rec as mdl
+        import sidetopics.model.sim_based_rec as mdl
         templateModel = mdl.newModelAtRandom(data, K, method=mdl.TF_IDF, dtype=output_dtype)
     else:
         raise ValueError ("Unknown model identifier " + args.model)
-- 
2.43.0


From 5a39977ea8bb56df1bb3cdf38322523ec6bb6a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:04 +0000
Subject: [PATCH 78/85] fix: evaluation averages can be combined when a group
 has no documents

---
 sidetopics/run/__main__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sidetopics/run/__main__.py b/sidetopics/run/__main__.py
index b7b67c4..e7e604e 100644
--- a/sidetopics/run/__main__.py
+++ b/sidetopics/run/__main__.py
@@ -1187,7 +1187,8 @@ def combine_map (old_avgs, old_counts, new_avgs, new_counts):
                { g:cnt for g,cnt in new_counts.items() }
 
     upd_counts = { g:old_count + new_counts[g] for g,old_count in old_counts.items() }
-    upd_avgs   = { g:[(o * old_counts[g] + n * new_counts[g]) / upd_counts[g] \
+    # groups that have had no documents so far have no average to update
+    upd_avgs   = { g:[(o * old_counts[g] + n * new_counts[g]) / (upd_counts[g] or 1) \
                       for o,n in zip(lst,new_avgs[g])] \
                    for g,lst in old_avgs.items() }
 
-- 
2.43.0


From 63cb2a729ea31511df4a2963b2eff083b3f3f3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:05 +0000
Subject: [PATCH 79/85] fix: soft_split_on_indices can move all the values of
 the given columns

---
 sidetopics/run/__main__.py | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/sidetopics/run/__main__.py b/sidetopics/run/__main__.py
index e7e604e..bd93b15 100644
--- a/sidetopics/run/__main__.py
+++ b/sidetopics/run/__main__.py
@@ -689,19 +689,7 @@ def csr_clip(matrix, min_value, max_value):
 
 
 
-def soft_split_on_indices(csr_mat, columns_set):
-    """
-    Takes a single matrix and splits it into two, a left and right, the left being a copy, the
-    right being all zeros. Values in the left belonging to columns in the columns_set are transferred
-    over to the right-hand matrix, in part by zeroing them in the left matrix.
-    :param csr_mat: the matrix to split
-    :param columns_set: the set of columns whose values are to be moved over
-    :return: the left and right matrices
-    """
-    return soft_split_on_indices(csr_mat, columns_set, rng=None, removal_prob=1.0)
-
-
-def soft_split_on_indices(csr_mat, columns_set, rng, removal_prob=0.5):
+def soft_split_on_indices(csr_mat, columns_set, rng=None, removal_prob=None):
     """
     Takes a single matrix and splits it into two. Non-zero values, in columns in the columns_set
     have their values transferred over to a separate matrix, probabilistically, according
@@ -709,13 +697,16 @@ def soft_split_on_indices(csr_mat, columns_set, rng, removal_prob=0.5):
     :param csr_mat: the matrix to split into to
     :param columns_set: the set of columns whose values will be probabilistically transferred over
     :param rng: a random number generator. If removal_prob == 1 then this can be set to None
-    :param removal_prob: the probability of moving a value out into a separate matrix
+    :param removal_prob: the probability of moving a value out into a separate matrix, by default 0.5, or 1
+    if there is no random number generator, in which case all the values in the given columns are moved.
     :return: two CSR matrices, the first having all its values, minus those in the indices set which
      have been transferred, and a second having the values which have been transferred out.
     """
 
     if type(columns_set) is not set:
         columns_set = set(columns_set)
+    if removal_prob is None:
+        removal_prob = 1.0 if rng is None else 0.5
 
     if removal_prob >= 0.99999999: # basically removal_prob == 1
         di = [((0, i), (d, i)) \
-- 
2.43.0


From 2043ac09227f131b0ba9a6cf9207acb4efb92cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:05 +0000
Subject: [PATCH 80/85] fix: subsetLda returns a pair when there is no LDA
 model

---
 sidetopics/run/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sidetopics/run/__main__.py b/sidetopics/run/__main__.py
index bd93b15..68f2d72 100644
--- a/sidetopics/run/__main__.py
+++ b/sidetopics/run/__main__.py
@@ -1154,7 +1154,7 @@ def subsetLda(ldaModel, ldaTopics, doc_indices):
     :return:
     '''
     if ldaModel is None:
-        return None
+        return None, None
     else:
         if ldaModel.name == LDA_GIBBS_MODEL_NAME:
             return ldaModel, pruneLdaGibbsQueryState(ldaTopics, doc_indices)
-- 
2.43.0


From 82f08c738c57566c334d2c9e765a5a750258eb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:05 +0000
Subject: [PATCH 81/85] fix: hashtag precision and recall count documents, not
 occurrences

---
 sidetopics/run/__main__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sidetopics/run/__main__.py b/sidetopics/run/__main__.py
index 68f2d72..40253e1 100644
--- a/sidetopics/run/__main__.py
+++ b/sidetopics/run/__main__.py
@@ -517,6 +517,7 @@ def cross_val_and_eval_hashtag_prec_at_m(data, hashtag_indices, hashtag_train_pr
 
             query_data_train_words, query_data_check_words = \
                 soft_split_on_indices(query_data.words, hashtag_indices, rd.RandomState(0xC0FFEE), hashtag_train_prop)
+            query_data_check_words = csr_clip(query_data_check_words, 0, 1) # documents are counted, not occurrences
             query_data = query_data.copy_with_changes(words=query_data_train_words)
 
             # Train the model
-- 
2.43.0


From 36468e45516e8ae84a830cd3a419aaa1d8bc1913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:28 +0000
Subject: [PATCH 82/85] fix: the hashtag evaluation deletes the hashtags of the
 held-out set

---
 sidetopics/run/__main__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sidetopics/run/__main__.py b/sidetopics/run/__main__.py
index 40253e1..ddcb890 100644
--- a/sidetopics/run/__main__.py
+++ b/sidetopics/run/__main__.py
@@ -488,6 +488,8 @@ def cross_val_and_eval_hashtag_prec_at_m(data, hashtag_indices, hashtag_train_pr
 
 
     :param data: the DataSet object with the data
+    :param hashtag_train_prop: the proportion of the hashtags in the held-out set that
+    is retained
     :param mdl:  the module with the train etc. functin
     :param sample_model: a preconfigured model which is cloned at the start of each
             cross-validation run
@@ -516,7 +518,7 @@ def cross_val_and_eval_hashtag_prec_at_m(data, hashtag_indices, hashtag_train_pr
             train_data, query_data = data.cross_valid_split(fold, num_folds)
 
             query_data_train_words, query_data_check_words = \
-                soft_split_on_indices(query_data.words, hashtag_indices, rd.RandomState(0xC0FFEE), hashtag_train_prop)
+                soft_split_on_indices(query_data.words, hashtag_indices, rd.RandomState(0xC0FFEE), 1.0 - hashtag_train_prop)
             query_data_check_words = csr_clip(query_data_check_words, 0, 1) # documents are counted, not occurrences
             query_data = query_data.copy_with_changes(words=query_data_train_words)
 
-- 
2.43.0


From 0e7dd4117ff520f3b1e89c9e95256629ed6169b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:48 +0000
Subject: [PATCH 83/85] fix: querying a correlated topic model returns the
 inferred means and variances

---
 sidetopics/model/ctm_bohning.py  | 2 +-
 sidetopics/model/ctm_grad_arb.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sidetopics/model/ctm_bohning.py b/sidetopics/model/ctm_bohning.py
index d477141..ff53cc8 100644
--- a/sidetopics/model/ctm_bohning.py
+++ b/sidetopics/model/ctm_bohning.py
@@ -363,7 +363,7 @@ def query(data, modelState, queryState, queryPlan):
             break
         lastPerp = perp
 
-    return modelState, queryState
+    return modelState, QueryState(means, expMeans, varcs, n)
 
 
 def log_likelihood (data, modelState, queryState):
diff --git a/sidetopics/model/ctm_grad_arb.py b/sidetopics/model/ctm_grad_arb.py
index d477141..ff53cc8 100644
--- a/sidetopics/model/ctm_grad_arb.py
+++ b/sidetopics/model/ctm_grad_arb.py
@@ -363,7 +363,7 @@ def query(data, modelState, queryState, queryPlan):
             break
         lastPerp = perp
 
-    return modelState, queryState
+    return modelState, QueryState(means, expMeans, varcs, n)
 
 
 def log_likelihood (data, modelState, queryState):
-- 
2.43.0


From 6b5877eb4e60df9d8e457b89b6e729c6328ba94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:55 +0000
Subject: [PATCH 84/85] fix: training a correlated topic model keeps the topic
 covariance it estimates

---
 sidetopics/model/ctm_bohning.py  | 6 +-----
 sidetopics/model/ctm_grad_arb.py | 6 +-----
 2 files changed, 2 insertions(+), 10 deletions(-)

diff --git a/sidetopics/model/ctm_bohning.py b/sidetopics/model/ctm_bohning.py
index ff53cc8..f191cca 100644
--- a/sidetopics/model/ctm_bohning.py
+++ b/sidetopics/model/ctm_bohning.py
@@ -240,10 +240,6 @@ def train (data, modelState, queryState, trainPlan):
         else:
             isigT = la.inv(sigT)
 
-        # FIXME Undo debug
-        sigT  = np.eye(K)
-        isigT = la.inv(sigT)
-        
         debugFn (itr, sigT, "sigT", W, K, topicMean, sigT, vocab, vocabPrior, dtype, means, varcs, A, docLens)
 #        print("                sigT.det = " + str(la.det(sigT)))
         
@@ -267,7 +263,7 @@ def train (data, modelState, queryState, trainPlan):
         # parameters also that handle the log-sum-exp approximation.
         
         # Update the Variances: var_d = (2 N_d * A + isigT)^{-1}
-        varcs = np.reciprocal(docLens[:,np.newaxis] * (K-1.)/K + np.diagonal(sigT))
+        varcs = np.reciprocal(docLens[:,np.newaxis] * (K-1.)/K + np.diagonal(isigT))
         debugFn (itr, varcs, "varcs", W, K, topicMean, sigT, vocab, vocabPrior, dtype, means, varcs, A, docLens)
         
         # Update the Means
diff --git a/sidetopics/model/ctm_grad_arb.py b/sidetopics/model/ctm_grad_arb.py
index ff53cc8..f191cca 100644
--- a/sidetopics/model/ctm_grad_arb.py
+++ b/sidetopics/model/ctm_grad_arb.py
@@ -240,10 +240,6 @@ def train (data, modelState, queryState, trainPlan):
         else:
             isigT = la.inv(sigT)
 
-        # FIXME Undo debug
-        sigT  = np.eye(K)
-        isigT = la.inv(sigT)
-        
         debugFn (itr, sigT, "sigT", W, K, topicMean, sigT, vocab, vocabPrior, dtype, means, varcs, A, docLens)
 #        print("                sigT.det = " + str(la.det(sigT)))
         
@@ -267,7 +263,7 @@ def train (data, modelState, queryState, trainPlan):
         # parameters also that handle the log-sum-exp approximation.
         
         # Update the Variances: var_d = (2 N_d * A + isigT)^{-1}
-        varcs = np.reciprocal(docLens[:,np.newaxis] * (K-1.)/K + np.diagonal(sigT))
+        varcs = np.reciprocal(docLens[:,np.newaxis] * (K-1.)/K + np.diagonal(isigT))
         debugFn (itr, varcs, "varcs", W, K, topicMean, sigT, vocab, vocabPrior, dtype, means, varcs, A, docLens)
         
         # Update the Means
-- 
2.43.0


From ab3e99a169648b0bfee271eb27053b5bf33b307a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:24 +0000
Subject: [PATCH 85/85] fix: exponentiated means stay aligned with their
 documents when training sorts them by length

---
 sidetopics/model/stm_uv_vecy_bohning.py | 1 +
 sidetopics/model/stm_yv_bohning.py      | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/sidetopics/model/stm_uv_vecy_bohning.py b/sidetopics/model/stm_uv_vecy_bohning.py
index 87a9f77..b0ff27b 100644
--- a/sidetopics/model/stm_uv_vecy_bohning.py
+++ b/sidetopics/model/stm_uv_vecy_bohning.py
@@ -348,6 +348,7 @@ def train (data, modelState, queryState, trainPlan):
         
     revert_sort = np.argsort(sortIdx, kind=STABLE_SORT_ALG)
     means       = means[revert_sort,:]
+    expMeans    = expMeans[revert_sort,:]
     varcs       = varcs[revert_sort,:]
     docLens     = docLens[revert_sort]
     
diff --git a/sidetopics/model/stm_yv_bohning.py b/sidetopics/model/stm_yv_bohning.py
index b7325cc..0e060dd 100644
--- a/sidetopics/model/stm_yv_bohning.py
+++ b/sidetopics/model/stm_yv_bohning.py
@@ -203,7 +203,7 @@ def train (data, modelState, queryState, trainPlan):
     sortIdx = np.argsort(docLens, kind=STABLE_SORT_ALG) # sort needs to be stable in order to be reversible
     W = W[sortIdx,:] # deep sorted copy
     X = X[sortIdx,:]
-    means, varcs = means[sortIdx,:], varcs[sortIdx,:]
+    means, expMeans, varcs = means[sortIdx,:], expMeans[sortIdx,:], varcs[sortIdx,:]
 
     docLens = originalDocLens[sortIdx]
     
@@ -336,6 +336,7 @@ def train (data, modelState, queryState, trainPlan):
         
     revert_sort = np.argsort(sortIdx, kind=STABLE_SORT_ALG)
     means       = means[revert_sort,:]
+    expMeans    = expMeans[revert_sort,:]
     varcs       = varcs[revert_sort,:]
     docLens     = docLens[revert_sort]
     
-- 
2.43.0

