From f059b49e459944b48561c7241145a8c90598d651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:32:09 +0000
Subject: [PATCH 01/37] fix: use the builtin int in initializers, np.int was
 removed from numpy

---
 t3f/initializers.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/t3f/initializers.py b/t3f/initializers.py
index 4d7cb71..0a84c82 100644
--- a/t3f/initializers.py
+++ b/t3f/initializers.py
@@ -84,7 +84,7 @@ def tensor_ones(shape, dtype=tf.float32, name='t3f_tensor_ones'):
   shape = np.array(shape)
   _validate_input_parameters(is_tensor=True, shape=shape)
   num_dims = shape.size
-  tt_rank = np.ones(num_dims + 1, dtype=np.int)
+  tt_rank = np.ones(num_dims + 1, dtype=int)
 
   with tf.name_scope(name):
     tt_cores = num_dims * [None]
@@ -110,7 +110,7 @@ def tensor_zeros(shape, dtype=tf.float32, name='t3f_tensor_zeros'):
   shape = np.array(shape)
   _validate_input_parameters(is_tensor=True, shape=shape)
   num_dims = shape.size
-  tt_rank = np.ones(num_dims + 1, dtype=np.int)
+  tt_rank = np.ones(num_dims + 1, dtype=int)
   tt_cores = num_dims * [None]
   with tf.name_scope(name):
     for i in range(num_dims):
@@ -138,7 +138,7 @@ def eye(shape, dtype=tf.float32, name='t3f_eye'):
   _validate_input_parameters(is_tensor=True, shape=shape)
 
   num_dims = shape.size
-  tt_ranks = np.ones(num_dims + 1, dtype=np.int)
+  tt_ranks = np.ones(num_dims + 1, dtype=int)
 
   with tf.name_scope(name):
     tt_cores = num_dims * [None]
@@ -182,7 +182,7 @@ def matrix_ones(shape, dtype=tf.float32, name='t3f_matrix_ones'):
   _validate_input_parameters(is_tensor=False, shape=shape)
 
   num_dims = shape[0].size
-  tt_rank = np.ones(shape[0].size + 1, dtype=np.int)
+  tt_rank = np.ones(shape[0].size + 1, dtype=int)
 
   with tf.name_scope(name):
     tt_cores = [None] * num_dims
@@ -224,7 +224,7 @@ def matrix_zeros(shape, dtype=tf.float32, name='t3f_matrix_zeros'):
 
   _validate_input_parameters(is_tensor=False, shape=shape)
   num_dims = shape[0].size
-  tt_rank = np.ones(shape[0].size + 1, dtype=np.int)
+  tt_rank = np.ones(shape[0].size + 1, dtype=int)
 
   with tf.name_scope(name):
     tt_cores = [None] * num_dims
@@ -261,7 +261,7 @@ def tensor_with_random_cores(shape, tt_rank=2, mean=0., stddev=1.,
   _validate_input_parameters(is_tensor=True, shape=shape, tt_rank=tt_rank)
   num_dims = shape.size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.insert(tt_rank, 0, 1)
     tt_rank = np.append(tt_rank, 1)
 
@@ -304,7 +304,7 @@ def tensor_batch_with_random_cores(shape, tt_rank=2, batch_size=1,
                              batch_size=batch_size)
   num_dims = shape.size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.insert(tt_rank, 0, 1)
     tt_rank = np.append(tt_rank, 1)
   tt_rank = tt_rank.astype(int)
@@ -359,7 +359,7 @@ def matrix_with_random_cores(shape, tt_rank=2, mean=0., stddev=1.,
 
   num_dims = shape[0].size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.concatenate([[1], tt_rank, [1]])
 
   tt_rank = tt_rank.astype(int)
@@ -417,7 +417,7 @@ def matrix_batch_with_random_cores(shape, tt_rank=2, batch_size=1,
                              batch_size=batch_size)
   num_dims = shape[0].size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.concatenate([[1], tt_rank, [1]])
   shape = shape.astype(int)
   tt_rank = tt_rank.astype(int)
@@ -522,7 +522,7 @@ def random_tensor(shape, tt_rank=2, mean=0., stddev=1., dtype=tf.float32,
 
   num_dims = shape.size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.insert(tt_rank, 0, 1)
     tt_rank = np.append(tt_rank, 1)
 
@@ -580,7 +580,7 @@ def random_tensor_batch(shape, tt_rank=2, batch_size=1, mean=0., stddev=1.,
                              batch_size=batch_size)
   num_dims = shape.size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.insert(tt_rank, 0, 1)
     tt_rank = np.append(tt_rank, 1)
   tt_rank = tt_rank.astype(int)
@@ -647,7 +647,7 @@ def random_matrix(shape, tt_rank=2, mean=0., stddev=1.,
 
   num_dims = shape[0].size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.concatenate([[1], tt_rank, [1]])
 
   tt_rank = tt_rank.astype(int)
@@ -718,7 +718,7 @@ def random_matrix_batch(shape, tt_rank=2, batch_size=1, mean=0., stddev=1.,
                              batch_size=batch_size)
   num_dims = shape[0].size
   if tt_rank.size == 1:
-    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=np.int)
+    tt_rank = tt_rank * np.ones(num_dims - 1, dtype=int)
     tt_rank = np.concatenate([[1], tt_rank, [1]])
 
   shape = shape.astype(int)
-- 
2.43.0


From de00487427972c6bae828f367e412b257eb68aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:36:04 +0000
Subject: [PATCH 02/37] fix: handle shapes of TT objects with a single core

clean_raw_shape squeezed the shape array, so a 1-dimensional TT-tensor could
not be built from an explicit shape and a 1-core TT-matrix was silently
treated as a 2-dimensional TT-tensor.
---
 t3f/shapes.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/t3f/shapes.py b/t3f/shapes.py
index de13d94..ec99153 100644
--- a/t3f/shapes.py
+++ b/t3f/shapes.py
@@ -220,7 +220,6 @@ def clean_raw_shape(shape, name='t3f_clean_raw_shape'):
     else:
       np_shape = np.array(shape)
       # Make sure that the shape is 2-d array both for tensors and TT-matrices.
-      np_shape = np.squeeze(np_shape)
       if len(np_shape.shape) == 1:
         # A tensor.
         np_shape = [np_shape]
-- 
2.43.0


From 9aa1e0a3a63d501a0e3990afc79f77e530499c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:36:04 +0000
Subject: [PATCH 03/37] fix: support adding a TensorTrain and a
 TensorTrainBatch in any order

Adding a batch to a TensorTrain, or a TensorTrain to a batch of size 1, raised
'batch size is not available for a TensorTrain object'.
---
 t3f/ops.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index 86be42e..ae56bf5 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -579,14 +579,14 @@ def _add_batch_tensor_cores(tt_a, tt_b):
   shape = shapes.lazy_raw_shape(tt_a)
   a_ranks = shapes.lazy_tt_ranks(tt_a)
   b_ranks = shapes.lazy_tt_ranks(tt_b)
-  if isinstance(tt_a, TensorTrainBatch) and tt_a.batch_size == 1:
+  tt_a = shapes.expand_batch_dim(tt_a)
+  tt_b = shapes.expand_batch_dim(tt_b)
+  if tt_a.batch_size == 1:
     # We add 1 element batch tt_a to a batch_size element batch tt_b to get
     # the answer TensorTrainBatch of batch_size == tt_b.batch_size.
     batch_size = shapes.lazy_batch_size(tt_b)
   else:
     batch_size = shapes.lazy_batch_size(tt_a)
-  tt_a = shapes.expand_batch_dim(tt_a)
-  tt_b = shapes.expand_batch_dim(tt_b)
   tt_cores = []
   for core_idx in range(ndims):
     a_core = tt_a.tt_cores[core_idx]
@@ -651,14 +651,14 @@ def _add_batch_matrix_cores(tt_a, tt_b):
   shape = shapes.lazy_raw_shape(tt_a)
   a_ranks = shapes.lazy_tt_ranks(tt_a)
   b_ranks = shapes.lazy_tt_ranks(tt_b)
-  if isinstance(tt_a, TensorTrainBatch) and tt_a.batch_size == 1:
+  tt_a = shapes.expand_batch_dim(tt_a)
+  tt_b = shapes.expand_batch_dim(tt_b)
+  if tt_a.batch_size == 1:
     # We add 1 element batch tt_a to a batch_size element batch tt_b to get
     # the answer TensorTrainBatch of batch_size == tt_b.batch_size.
     batch_size = shapes.lazy_batch_size(tt_b)
   else:
     batch_size = shapes.lazy_batch_size(tt_a)
-  tt_a = shapes.expand_batch_dim(tt_a)
-  tt_b = shapes.expand_batch_dim(tt_b)
   tt_cores = []
   for core_idx in range(ndims):
     a_core = tt_a.tt_cores[core_idx]
-- 
2.43.0


From 2872bff264f091db17c240635e1b8609c0a5335f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:36:04 +0000
Subject: [PATCH 04/37] fix: allow adding TT objects that have a single core

The cores were concatenated along a boundary TT-rank, which must stay 1.
---
 t3f/approximate.py |  4 +++-
 t3f/ops.py         | 16 ++++++++++++----
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/t3f/approximate.py b/t3f/approximate.py
index cafbee0..e7f86d2 100644
--- a/t3f/approximate.py
+++ b/t3f/approximate.py
@@ -160,7 +160,9 @@ def reduce_sum_batch(tt_batch, max_tt_rank, coef=None,
           b_core_shape = np.delete(b_core_shape, 1)
           b_core = tf.reshape(b_core, b_core_shape)
 
-        if core_idx == 0:
+        if ndims == 1:
+          curr_sum_core = a_core + b_core
+        elif core_idx == 0:
           curr_sum_core = tf.concat((a_core, b_core), axis=right_tt_rank_dim)
         elif core_idx == ndims - 1:
           curr_sum_core = tf.concat((a_core, b_core), axis=left_tt_rank_dim)
diff --git a/t3f/ops.py b/t3f/ops.py
index ae56bf5..e014219 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -553,7 +553,9 @@ def _add_tensor_cores(tt_a, tt_b):
   for core_idx in range(ndims):
     a_core = tt_a.tt_cores[core_idx]
     b_core = tt_b.tt_cores[core_idx]
-    if core_idx == 0:
+    if ndims == 1:
+      curr_core = a_core + b_core
+    elif core_idx == 0:
       curr_core = tf.concat((a_core, b_core), axis=2)
     elif core_idx == ndims - 1:
       curr_core = tf.concat((a_core, b_core), axis=0)
@@ -595,7 +597,9 @@ def _add_batch_tensor_cores(tt_a, tt_b):
     b_core = tt_b.tt_cores[core_idx]
     if tt_b.batch_size == 1:
       b_core = tf.tile(b_core, (batch_size, 1, 1, 1))
-    if core_idx == 0:
+    if ndims == 1:
+      curr_core = a_core + b_core
+    elif core_idx == 0:
       curr_core = tf.concat((a_core, b_core), axis=3)
     elif core_idx == ndims - 1:
       curr_core = tf.concat((a_core, b_core), axis=1)
@@ -625,7 +629,9 @@ def _add_matrix_cores(tt_a, tt_b):
   for core_idx in range(ndims):
     a_core = tt_a.tt_cores[core_idx]
     b_core = tt_b.tt_cores[core_idx]
-    if core_idx == 0:
+    if ndims == 1:
+      curr_core = a_core + b_core
+    elif core_idx == 0:
       curr_core = tf.concat((a_core, b_core), axis=3)
     elif core_idx == ndims - 1:
       curr_core = tf.concat((a_core, b_core), axis=0)
@@ -667,7 +673,9 @@ def _add_batch_matrix_cores(tt_a, tt_b):
     b_core = tt_b.tt_cores[core_idx]
     if tt_b.batch_size == 1:
       b_core = tf.tile(b_core, (batch_size, 1, 1, 1, 1))
-    if core_idx == 0:
+    if ndims == 1:
+      curr_core = a_core + b_core
+    elif core_idx == 0:
       curr_core = tf.concat((a_core, b_core), axis=4)
     elif core_idx == ndims - 1:
       curr_core = tf.concat((a_core, b_core), axis=1)
-- 
2.43.0


From 9acf72849e4964094afa519deb556ffcb2d1dff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:36:04 +0000
Subject: [PATCH 05/37] fix: batch handling in bilinear forms

Whether the right vector is a batch was decided by looking at the left one, and
the form with two matrices used the same einsum letter for the batch and for a
matrix dimension.
---
 t3f/ops.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index e014219..48f948c 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -1091,7 +1091,7 @@ def bilinear_form(A, b, c, name='t3f_bilinear_form'):
     raise ValueError('The arguments should be a TT-matrix.')
 
   b_is_batch = isinstance(b, TensorTrainBatch)
-  c_is_batch = isinstance(b, TensorTrainBatch)
+  c_is_batch = isinstance(c, TensorTrainBatch)
   b_bs_str = 'p' if b_is_batch else ''
   c_bs_str = 'p' if c_is_batch else ''
   out_bs_str = 'p' if b_is_batch or c_is_batch else ''
@@ -1156,10 +1156,11 @@ def bilinear_form_two_mat(x, A, B, y, name='t3f_bilinear_xaby'):
       raise ValueError('The arguments should be a TT-matrix.')
 
   x_is_batch = isinstance(x, TensorTrainBatch)
-  y_is_batch = isinstance(x, TensorTrainBatch)
-  x_bs_str = 'p' if x_is_batch else ''
-  y_bs_str = 'p' if y_is_batch else ''
-  out_bs_str = 'p' if x_is_batch or y_is_batch else ''
+  y_is_batch = isinstance(y, TensorTrainBatch)
+  # 'p' enumerates a matrix dimension below, use another letter for the batch.
+  x_bs_str = 'q' if x_is_batch else ''
+  y_bs_str = 'q' if y_is_batch else ''
+  out_bs_str = 'q' if x_is_batch or y_is_batch else ''
   all_cores = x.tt_cores + A.tt_cores + B.tt_cores + y.tt_cores
   with tf.name_scope(name):
     ndims = A.ndims()
-- 
2.43.0


From 8cf373bac9422fca5606867220217d533860d070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:36:04 +0000
Subject: [PATCH 06/37] fix: let project_matmul project a single TensorTrain

The batch size was requested before the argument was converted to a batch.
---
 t3f/riemannian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t3f/riemannian.py b/t3f/riemannian.py
index 649d353..fd9a9c2 100644
--- a/t3f/riemannian.py
+++ b/t3f/riemannian.py
@@ -423,7 +423,6 @@ def project_matmul(what, where, matrix):
   ndims = where.ndims()
   dtype = where.dtype
   raw_shape = shapes.lazy_raw_shape(where)
-  batch_size = shapes.lazy_batch_size(what)
   right_tangent_tt_ranks = shapes.lazy_tt_ranks(right_tangent_space_tens)
   left_tangent_tt_ranks = shapes.lazy_tt_ranks(left_tangent_space_tens)
 
@@ -436,6 +435,7 @@ def project_matmul(what, where, matrix):
 
   # Always work with batch of TT objects for simplicity.
   what = shapes.expand_batch_dim(what)
+  batch_size = shapes.lazy_batch_size(what)
 
   # Prepare rhs vectors.
   # rhs[core_idx] is of size
-- 
2.43.0


From 737275da54b104ddf5a2c7c76bb6b99c0add5194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:36:04 +0000
Subject: [PATCH 07/37] fix: accept a single column of weights in project_sum

Weights of shape N x 1 were meant to give a single TensorTrain but crashed.
---
 t3f/riemannian.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/t3f/riemannian.py b/t3f/riemannian.py
index fd9a9c2..bb14faf 100644
--- a/t3f/riemannian.py
+++ b/t3f/riemannian.py
@@ -80,6 +80,8 @@ def project_sum(what, where, weights=None):
   if weights is not None:
     weights_shape = weights.get_shape()
     output_is_batch = len(weights_shape) > 1 and weights_shape[1] > 1
+    if len(weights_shape) > 1 and not output_is_batch:
+      weights = tf.squeeze(weights, axis=1)
   else:
     output_is_batch = False
   output_batch_str = 'o' if output_is_batch else ''
-- 
2.43.0


From 6073f6f180ed0bb09d8ef9596f160e5d77d9e255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:36:04 +0000
Subject: [PATCH 08/37] fix: support unrestricted TT-ranks in round and to_tt_*

max_tt_rank=np.inf, which the documentation suggests, and the default
max_tt_rank=None of round failed when converted to an integer.
---
 t3f/decompositions.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/t3f/decompositions.py b/t3f/decompositions.py
index 4d6b026..b7b2f24 100644
--- a/t3f/decompositions.py
+++ b/t3f/decompositions.py
@@ -143,7 +143,7 @@ def to_tt_tensor(tens, max_tt_rank=10, epsilon=None,
     dynamic_shape = tf.shape(tens)
     # Raises ValueError if ndims is not defined.
     d = static_shape.__len__()
-    max_tt_rank = np.array(max_tt_rank).astype(np.int32)
+    max_tt_rank = _max_tt_rank_to_int(max_tt_rank)
     if np.any(max_tt_rank < 1):
       raise ValueError('Maximum TT-rank should be greater or equal to 1.')
     if epsilon is not None and epsilon < 0:
@@ -194,6 +194,16 @@ def to_tt_tensor(tens, max_tt_rank=10, epsilon=None,
     return TensorTrain(tt_cores, static_shape, ranks)
 
 
+def _max_tt_rank_to_int(max_tt_rank):
+  """Converts `max_tt_rank` into an np.array of int32.
+
+  None and np.inf mean that the TT-rank is not restricted.
+  """
+  if max_tt_rank is None:
+    max_tt_rank = np.inf
+  return np.minimum(max_tt_rank, np.iinfo(np.int32).max).astype(np.int32)
+
+
 # TODO: rename round so not to shadow python.round?
 def round(tt, max_tt_rank=None, epsilon=None, name='t3f_round'):
   """TT-rounding procedure, returns a TT object with smaller TT-ranks.
@@ -247,7 +257,7 @@ def _round_tt(tt, max_tt_rank, epsilon):
   See t3f.round for details.
   """
   ndims = tt.ndims()
-  max_tt_rank = np.array(max_tt_rank).astype(np.int32)
+  max_tt_rank = _max_tt_rank_to_int(max_tt_rank)
   if np.any(max_tt_rank < 1):
     raise ValueError('Maximum TT-rank should be greater or equal to 1.')
   if epsilon is not None and epsilon < 0:
@@ -322,7 +332,7 @@ def _round_batch_tt(tt, max_tt_rank, epsilon):
   See t3f.round for details.
   """
   ndims = tt.ndims()
-  max_tt_rank = np.array(max_tt_rank).astype(np.int32)
+  max_tt_rank = _max_tt_rank_to_int(max_tt_rank)
   if max_tt_rank < 1:
     raise ValueError('Maximum TT-rank should be greater or equal to 1.')
   if epsilon is not None and epsilon < 0:
-- 
2.43.0


From 75fb023aefad225aa5790a37efe978f184e3c60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:36:04 +0000
Subject: [PATCH 09/37] fix: support a list of maximal TT-ranks when rounding a
 batch

---
 t3f/decompositions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t3f/decompositions.py b/t3f/decompositions.py
index b7b2f24..97dbe9b 100644
--- a/t3f/decompositions.py
+++ b/t3f/decompositions.py
@@ -333,7 +333,7 @@ def _round_batch_tt(tt, max_tt_rank, epsilon):
   """
   ndims = tt.ndims()
   max_tt_rank = _max_tt_rank_to_int(max_tt_rank)
-  if max_tt_rank < 1:
+  if np.any(max_tt_rank < 1):
     raise ValueError('Maximum TT-rank should be greater or equal to 1.')
   if epsilon is not None and epsilon < 0:
     raise ValueError('Epsilon should be non-negative.')
-- 
2.43.0


From f3e44f47dce609e70c15dc37cf0624c9b097c86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:36:04 +0000
Subject: [PATCH 10/37] fix: support indices with more than two dimensions in
 gather_nd

---
 t3f/ops.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index 48f948c..99f37ca 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -1266,7 +1266,9 @@ def gather_nd(tt, indices, name='t3f_gather_nd'):
         raise ValueError('The last dimension of indices (%d) should have '
                          'the same size as the number of dimensions in the tt '
                          'object (%d).' % (indices.get_shape()[-1], tt.ndims()))
-    tt_elements = tf.ones(tf.shape(indices)[:-1], dtype=tt.dtype)
+    res_shape = tf.shape(indices)[:-1]
+    indices = tf.reshape(indices, (-1, indices.get_shape()[-1]))
+    tt_elements = tf.ones(res_shape, dtype=tt.dtype)
     tt_elements = tf.reshape(tt_elements, (-1, 1, 1))
     for core_idx in range(tt.ndims()):
       curr_core = tt.tt_cores[core_idx]
@@ -1278,7 +1280,7 @@ def gather_nd(tt, indices, name='t3f_gather_nd'):
         curr_core = tf.transpose(curr_core, (1, 0, 2))
         core_slices = tf.gather(curr_core, indices[:, core_idx])
       tt_elements = tf.matmul(tt_elements, core_slices)
-    tt_elements = tf.reshape(tt_elements, tf.shape(indices)[:-1])
+    tt_elements = tf.reshape(tt_elements, res_shape)
     return tt_elements
 
 
-- 
2.43.0


From b4a5e56830d39a566e3112d2f5cc412da19cc50b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:36:04 +0000
Subject: [PATCH 11/37] fix: raise ValueError when matmul gets a dense matrix
 of a wrong size

Formatting the message raised TypeError instead.
---
 t3f/ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index 99f37ca..ac6049f 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -203,7 +203,7 @@ def tt_dense_matmul(tt_matrix_a, matrix_b):
   b_rows = matrix_b.get_shape().as_list()[0]
   if a_columns is not None and b_rows is not None:
     if a_columns != b_rows:
-      raise ValueError('Arguments shapes should align got %d and %d instead.' %
+      raise ValueError('Arguments shapes should align got %s and %s instead.' %
                        (tt_matrix_a.get_shape(), matrix_b.get_shape()))
 
   a_shape = shapes.lazy_shape(tt_matrix_a)
-- 
2.43.0


From c425c3ac4845ef92c2b39bcca027fbcb60f68601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:38:20 +0000
Subject: [PATCH 12/37] fix: keep the batch dimension of batches of size 1

matmul returned a TensorTrain for a TensorTrainBatch with one element, and
flat_inner, bilinear_form, pairwise_flat_inner, and gram_matrix squeezed a
batch dimension that happened to equal 1 out of the result.
---
 t3f/batch_ops.py |  2 +-
 t3f/ops.py       | 17 ++++++++++++-----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/t3f/batch_ops.py b/t3f/batch_ops.py
index f062e0e..a452426 100644
--- a/t3f/batch_ops.py
+++ b/t3f/batch_ops.py
@@ -232,4 +232,4 @@ def pairwise_flat_inner(tt_1, tt_2, matrix=None,
 
     # Squeeze to make the result of size batch_size x batch_size instead of
     # batch_size x batch_size x 1 x 1.
-    return tf.squeeze(res)
+    return tf.squeeze(res, [-1, -2] if matrix is None else [-1, -2, -3])
diff --git a/t3f/ops.py b/t3f/ops.py
index ac6049f..0a5c9f3 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -137,6 +137,8 @@ def tt_tt_matmul(tt_matrix_a, tt_matrix_b):
     raise ValueError('Arguments should have the same number of dimensions, '
                      'got %d and %d instead.' % (ndims, tt_matrix_b.ndims()))
 
+  is_any_batch = (isinstance(tt_matrix_a, TensorTrainBatch) or
+                  isinstance(tt_matrix_b, TensorTrainBatch))
   # Convert BatchSize 1 batch into TT object to simplify broadcasting.
   tt_matrix_a = shapes.squeeze_batch_dim(tt_matrix_a)
   tt_matrix_b = shapes.squeeze_batch_dim(tt_matrix_b)
@@ -181,8 +183,9 @@ def tt_tt_matmul(tt_matrix_a, tt_matrix_b):
   out_ranks = [a_r * b_r for a_r, b_r in zip(static_a_ranks, static_b_ranks)]
   if is_res_batch:
     return TensorTrainBatch(result_cores, res_shape, out_ranks, batch_size)
-  else:
-    return TensorTrain(result_cores, res_shape, out_ranks)
+  res = TensorTrain(result_cores, res_shape, out_ranks)
+  # A batch of size 1 is still a batch.
+  return shapes.expand_batch_dim(res) if is_any_batch else res
 
 
 def tt_dense_matmul(tt_matrix_a, matrix_b):
@@ -368,6 +371,8 @@ def tt_tt_flat_inner(tt_a, tt_b):
                      'got %d and %d instead.' % (ndims, tt_b.ndims()))
 
   axes_str = 'ij' if are_both_matrices else 'i'
+  is_any_batch = (isinstance(tt_a, TensorTrainBatch) or
+                  isinstance(tt_b, TensorTrainBatch))
   # Convert BatchSize 1 batch into TT object to simplify broadcasting.
   tt_a = shapes.squeeze_batch_dim(tt_a)
   tt_b = shapes.squeeze_batch_dim(tt_b)
@@ -397,7 +402,9 @@ def tt_tt_flat_inner(tt_a, tt_b):
     # if both arguments are TT-tensors, then it is
     # res = tf.einsum('ac,aib,cid->bd', res, a_core, b_core)
     res = tf.einsum(einsum_str, res, a_core, b_core)
-  return tf.squeeze(res)
+  res = tf.squeeze(res, [-1, -2])
+  # A batch of size 1 is still a batch.
+  return tf.reshape(res, [-1]) if is_any_batch else res
 
 
 def tt_dense_flat_inner(tt_a, dense_b):
@@ -1123,7 +1130,7 @@ def bilinear_form(A, b, c, name='t3f_bilinear_form'):
     # instead of
     #   batch_size x 1 x 1
     # in the batch case.
-    return tf.squeeze(res)
+    return tf.squeeze(res, [-1, -2, -3])
 
 
 def bilinear_form_two_mat(x, A, B, y, name='t3f_bilinear_xaby'):
@@ -1193,7 +1200,7 @@ def bilinear_form_two_mat(x, A, B, y, name='t3f_bilinear_xaby'):
     # instead of
     #   batch_size x 1 x 1
     # in the batch case.
-    return tf.squeeze(res)
+    return tf.squeeze(res, [-1, -2, -3, -4])
 
 
 def cast(tt, dtype, name='t3f_cast'):
-- 
2.43.0


From 1ac433101070ded22e99cd7e40baa4d9e6ddd428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:38:20 +0000
Subject: [PATCH 13/37] fix: do not round a number to float32 when multiplying
 a float64 TT by it

---
 t3f/ops.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index 0a5c9f3..d9cb196 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -798,8 +798,11 @@ def multiply(tt_left, right, name='t3f_multiply'):
       # and raise to the power 1/ndims. First TT-core is multiplied by the sign
       # of right.
       tt_cores = list(tt_left.tt_cores)
-      fact = tf.pow(tf.cast(tf.abs(right), tt_left.dtype), 1.0 / ndims)
-      sign = tf.cast(tf.sign(right), tt_left.dtype)
+      # Without the hint a python number would be rounded to float32.
+      right = tf.convert_to_tensor(right, dtype_hint=tt_left.dtype)
+      right = tf.cast(right, tt_left.dtype)
+      fact = tf.pow(tf.abs(right), 1.0 / ndims)
+      sign = tf.sign(right)
       for i in range(len(tt_cores)):
         tt_cores[i] = fact * tt_cores[i]
 
-- 
2.43.0


From 722aca13d49b8ea37d676eba23d87593651ecbb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:38:20 +0000
Subject: [PATCH 14/37] fix: make regularizers work with TensorFlow 2

They rely on tf.name_scope with a default name and on tf.logging, both of which
exist only in the v1 API.
---
 t3f/regularizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t3f/regularizers.py b/t3f/regularizers.py
index 6bfd87c..67e9e9f 100644
--- a/t3f/regularizers.py
+++ b/t3f/regularizers.py
@@ -1,6 +1,6 @@
 import numbers
 
-import tensorflow as tf
+import tensorflow.compat.v1 as tf
 
 from t3f import ops
 
-- 
2.43.0


From 5ce8ea056e6da55e6c4d29b6099dd698392d5819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:38:20 +0000
Subject: [PATCH 15/37] fix: support regularizer argument of get_variable in
 the eager mode

Tensor.name is not defined for eager tensors.
---
 t3f/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t3f/variables.py b/t3f/variables.py
index 061a568..6cff4d7 100644
--- a/t3f/variables.py
+++ b/t3f/variables.py
@@ -108,7 +108,7 @@ def get_variable(name,
         loss = regularizer(v)
       if loss is not None:
         tf.logging.vlog(1, "Applied regularizer to %s and added the result %s "
-                        "to REGULARIZATION_LOSSES.", v.name, loss.name)
+                        "to REGULARIZATION_LOSSES.", v.name, loss)
         tf.add_to_collection(tf.GraphKeys.REGULARIZATION_LOSSES, loss)
     return v
 
-- 
2.43.0


From 56fc9000021979d7ef3208202a66cd2eb2cac8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:38:20 +0000
Subject: [PATCH 16/37] fix: support batches of unknown size in Kronecker
 functions

The sizes of the cores are known even if the batch size is not. Also, the
fallback used ops.raw_shape, which does not exist.
---
 t3f/kronecker.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/t3f/kronecker.py b/t3f/kronecker.py
index e1f4e2d..3f95a74 100644
--- a/t3f/kronecker.py
+++ b/t3f/kronecker.py
@@ -2,7 +2,7 @@ import tensorflow as tf
 
 from t3f.tensor_train import TensorTrain
 from t3f.tensor_train_batch import TensorTrainBatch
-from t3f import ops
+from t3f import shapes
 
 
 def determinant(kron_a, name='t3f_kronecker_determinant'):
@@ -28,13 +28,13 @@ def determinant(kron_a, name='t3f_kronecker_determinant'):
     raise ValueError('The argument should be a Kronecker product (tt-ranks '
                      'should be 1)')
 
-  shapes_defined = kron_a.get_shape().is_fully_defined()
+  shapes_defined = all(s.is_fully_defined() for s in kron_a.get_raw_shape())
   if shapes_defined:
     i_shapes = kron_a.get_raw_shape()[0].as_list()
     j_shapes = kron_a.get_raw_shape()[1].as_list()
   else:
-    i_shapes = ops.raw_shape(kron_a)[0].as_list()
-    j_shapes = ops.raw_shape(kron_a)[1].as_list()
+    i_shapes = shapes.raw_shape(kron_a)[0]
+    j_shapes = shapes.raw_shape(kron_a)[1]
 
   if shapes_defined:
     if i_shapes != j_shapes:
@@ -81,13 +81,13 @@ def slog_determinant(kron_a, name='t3f_kronecker_slog_determinant'):
     raise ValueError('The argument should be a Kronecker product ' 
                      '(tt-ranks should be 1)')
  
-  shapes_defined = kron_a.get_shape().is_fully_defined()
+  shapes_defined = all(s.is_fully_defined() for s in kron_a.get_raw_shape())
   if shapes_defined:
     i_shapes = kron_a.get_raw_shape()[0].as_list()
     j_shapes = kron_a.get_raw_shape()[1].as_list()
   else:
-    i_shapes = ops.raw_shape(kron_a)[0].as_list()
-    j_shapes = ops.raw_shape(kron_a)[1].as_list()
+    i_shapes = shapes.raw_shape(kron_a)[0]
+    j_shapes = shapes.raw_shape(kron_a)[1]
 
   if shapes_defined:
     if i_shapes != j_shapes:
@@ -137,13 +137,13 @@ def inv(kron_a, name='t3f_kronecker_inv'):
     raise ValueError('The argument should be a Kronecker product ' 
                      '(tt-ranks should be 1)')
     
-  shapes_defined = kron_a.get_shape().is_fully_defined()
+  shapes_defined = all(s.is_fully_defined() for s in kron_a.get_raw_shape())
   if shapes_defined:
     i_shapes = kron_a.get_raw_shape()[0]
     j_shapes = kron_a.get_raw_shape()[1]
   else:
-    i_shapes = ops.raw_shape(kron_a)[0]
-    j_shapes = ops.raw_shape(kron_a)[1]
+    i_shapes = shapes.raw_shape(kron_a)[0]
+    j_shapes = shapes.raw_shape(kron_a)[1]
 
   if shapes_defined:
     if i_shapes != j_shapes:
@@ -195,13 +195,13 @@ def cholesky(kron_a, name='t3f_kronecker_cholesky'):
     raise ValueError('The argument should be a Kronecker product ' 
                      '(tt-ranks should be 1)')
     
-  shapes_defined = kron_a.get_shape().is_fully_defined()
+  shapes_defined = all(s.is_fully_defined() for s in kron_a.get_raw_shape())
   if shapes_defined:
     i_shapes = kron_a.get_raw_shape()[0]
     j_shapes = kron_a.get_raw_shape()[1]
   else:
-    i_shapes = ops.raw_shape(kron_a)[0]
-    j_shapes = ops.raw_shape(kron_a)[1]
+    i_shapes = shapes.raw_shape(kron_a)[0]
+    j_shapes = shapes.raw_shape(kron_a)[1]
 
   if shapes_defined:
     if i_shapes != j_shapes:
-- 
2.43.0


From 04fc954682ceacc7020bfe6d9aa37738d97f7e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:39:23 +0000
Subject: [PATCH 17/37] fix: do not reject functions equal to zero in the
 Riemannian autodiff check

The relative difference of two zeros is NaN.
---
 t3f/autodiff.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/t3f/autodiff.py b/t3f/autodiff.py
index 4e2ee30..295b893 100644
--- a/t3f/autodiff.py
+++ b/t3f/autodiff.py
@@ -58,12 +58,13 @@ def _is_invariant_to_input_transforms(f_value_1, f_value_2,
         'makes things a bit slower. It is advisable to keep runtime_check=True '
         'untill actuall production usage, since runtime check does help to '
         'catch bugs.')
-  rel_diff = tf.abs((f_value_1 - f_value_2) / f_value_1)
+  # Don't divide by the function value, it can be zero.
+  abs_diff = tf.abs(f_value_1 - f_value_2)
   err_msg = "The function passed to Riemannian autodiff returns different " \
             "values for two different versions of the same tensor. " \
             "The function values are"
-  assert_op = tf.Assert(rel_diff < 1e-5, [err_msg, f_value_1, f_value_2],
-                        name=name)
+  assert_op = tf.Assert(abs_diff <= 1e-5 * tf.abs(f_value_1),
+                        [err_msg, f_value_1, f_value_2], name=name)
   return assert_op
 
 
-- 
2.43.0


From a6458b8d5fee6c9fd6f6ade81d2cc5d7c3a91ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:39:23 +0000
Subject: [PATCH 18/37] fix: determinants of Kronecker products with more than
 2^31 rows

The size of the matrix was computed in int32, so the powers of the
determinants of the cores silently overflowed. The sign is now computed from
the parity of the power, which floating point can not always represent.
---
 t3f/kronecker.py | 39 ++++++++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 9 deletions(-)

diff --git a/t3f/kronecker.py b/t3f/kronecker.py
index 3f95a74..3eaf708 100644
--- a/t3f/kronecker.py
+++ b/t3f/kronecker.py
@@ -33,8 +33,8 @@ def determinant(kron_a, name='t3f_kronecker_determinant'):
     i_shapes = kron_a.get_raw_shape()[0].as_list()
     j_shapes = kron_a.get_raw_shape()[1].as_list()
   else:
-    i_shapes = shapes.raw_shape(kron_a)[0]
-    j_shapes = shapes.raw_shape(kron_a)[1]
+    i_shapes = tf.unstack(shapes.raw_shape(kron_a)[0])
+    j_shapes = tf.unstack(shapes.raw_shape(kron_a)[1])
 
   if shapes_defined:
     if i_shapes != j_shapes:
@@ -43,7 +43,6 @@ def determinant(kron_a, name='t3f_kronecker_determinant'):
       
   is_batch = isinstance(kron_a, TensorTrainBatch)
   with tf.name_scope(name):
-    pows = tf.cast(tf.reduce_prod(i_shapes), kron_a.dtype)
     cores = kron_a.tt_cores
     det = 1
     for core_idx in range(kron_a.ndims()):
@@ -52,7 +51,7 @@ def determinant(kron_a, name='t3f_kronecker_determinant'):
         core_det = tf.linalg.det(core[:, 0, :, :, 0])
       else:
         core_det = tf.linalg.det(core[0, :, :, 0])
-      core_pow = pows / i_shapes[core_idx]
+      core_pow, _ = _core_pow(i_shapes, core_idx, kron_a.dtype)
 
       det *= tf.pow(core_det, core_pow)
     return det
@@ -86,8 +85,8 @@ def slog_determinant(kron_a, name='t3f_kronecker_slog_determinant'):
     i_shapes = kron_a.get_raw_shape()[0].as_list()
     j_shapes = kron_a.get_raw_shape()[1].as_list()
   else:
-    i_shapes = shapes.raw_shape(kron_a)[0]
-    j_shapes = shapes.raw_shape(kron_a)[1]
+    i_shapes = tf.unstack(shapes.raw_shape(kron_a)[0])
+    j_shapes = tf.unstack(shapes.raw_shape(kron_a)[1])
 
   if shapes_defined:
     if i_shapes != j_shapes:
@@ -96,7 +95,6 @@ def slog_determinant(kron_a, name='t3f_kronecker_slog_determinant'):
 
   is_batch = isinstance(kron_a, TensorTrainBatch)
   with tf.name_scope(name):
-    pows = tf.cast(tf.reduce_prod(i_shapes), kron_a.dtype)
     logdet = 0.
     det_sign = 1.
 
@@ -108,9 +106,9 @@ def slog_determinant(kron_a, name='t3f_kronecker_slog_determinant'):
         core_det = tf.linalg.det(core[0, :, :, 0])
       core_abs_det = tf.abs(core_det)
       core_det_sign = tf.sign(core_det)
-      core_pow = pows / i_shapes[core_idx]
+      core_pow, parity = _core_pow(i_shapes, core_idx, kron_a.dtype)
       logdet += tf.math.log(core_abs_det) * core_pow
-      det_sign *= core_det_sign**(core_pow)
+      det_sign *= core_det_sign**(2 - parity)
     return det_sign, logdet
 
 
@@ -229,6 +227,29 @@ def cholesky(kron_a, name='t3f_kronecker_cholesky'):
       return TensorTrain(cho_cores, res_shape, res_ranks)
 
 
+def _core_pow(sizes, core_idx, dtype):
+  """The power in which det of the core enters det of a Kronecker product.
+
+  The power is the product of the sizes of the other cores. It can be too large
+  to represent its parity in floating point, so the parity is returned as well.
+
+  Args:
+    sizes: a list of python integers or of tf.Tensors, sizes of the cores.
+    core_idx: a number, index of the core.
+    dtype: type of the returned power.
+
+  Returns:
+    The power and the remainder of its division by 2.
+  """
+  power = 1
+  for i, size in enumerate(sizes):
+    if i != core_idx:
+      power *= size
+  if isinstance(power, tf.Tensor):
+    return tf.cast(power, dtype), tf.cast(power % 2, dtype)
+  return tf.constant(float(power), dtype), power % 2
+
+
 def _is_kron(tt_a):
   """Returns True if the argument is a Kronecker product matrix.
 
-- 
2.43.0


From fd73be2d6b1750348e04627ed29177eeaa3e0faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:40:01 +0000
Subject: [PATCH 19/37] fix: Riemannian functions at points with redundant
 TT-ranks

If TT-ranks of the point are larger than the modes to the right allow, left and
right orthogonalizations had different TT-ranks. The halves of the cores of the
projection then had different sizes, so pairwise_flat_inner_projected,
add_n_projected, and tangent_space_to_deltas mixed them up and gradients failed.
---
 t3f/autodiff.py   |  7 ++-----
 t3f/riemannian.py | 39 ++++++++++++++++++++++++++-------------
 2 files changed, 28 insertions(+), 18 deletions(-)

diff --git a/t3f/autodiff.py b/t3f/autodiff.py
index 295b893..22172f3 100644
--- a/t3f/autodiff.py
+++ b/t3f/autodiff.py
@@ -1,7 +1,6 @@
 import tensorflow as tf
 
 from t3f import shapes
-from t3f import decompositions
 from t3f import riemannian
 from t3f import utils
 
@@ -105,8 +104,7 @@ def gradients(func, x, name='t3f_gradients', runtime_check=True):
       t3f.hessian_vector_product
   """
   with tf.name_scope(name):
-    left = decompositions.orthogonalize_tt_cores(x)
-    right = decompositions.orthogonalize_tt_cores(left, left_to_right=False)
+    left, right = riemannian._orthogonalize(x)
     deltas = [right.tt_cores[0]]
     deltas += [tf.zeros_like(cc) for cc in right.tt_cores[1:]]
 
@@ -170,8 +168,7 @@ def hessian_vector_product(func, x, vector, name='t3f_hessian_vector_product',
     """
   all_cores = list(x.tt_cores) + list(vector.tt_cores)
   with tf.name_scope(name):
-    left = decompositions.orthogonalize_tt_cores(x)
-    right = decompositions.orthogonalize_tt_cores(left, left_to_right=False)
+    left, right = riemannian._orthogonalize(x)
     deltas = [right.tt_cores[0]]
     deltas += [tf.zeros_like(cc) for cc in right.tt_cores[1:]]
 
diff --git a/t3f/riemannian.py b/t3f/riemannian.py
index bb14faf..5b09144 100644
--- a/t3f/riemannian.py
+++ b/t3f/riemannian.py
@@ -6,6 +6,26 @@ from t3f import shapes
 from t3f import decompositions
 
 
+def _orthogonalize(tt):
+  """Returns left and right orthogonalized versions of `tt` of equal TT-ranks.
+
+  Orthogonalization from left to right can not decrease the TT-ranks that are
+  too large because of the modes to the right of them. The functions that work
+  with the tangent space rely on the TT-ranks being the same on both sides.
+
+  Args:
+    tt: `TensorTrain` object
+
+  Returns:
+    a tuple of two `TensorTrain` objects
+  """
+  left = decompositions.orthogonalize_tt_cores(tt)
+  right = decompositions.orthogonalize_tt_cores(left, left_to_right=False)
+  if left.get_tt_ranks().as_list() != right.get_tt_ranks().as_list():
+    left = decompositions.orthogonalize_tt_cores(right)
+  return left, right
+
+
 def project_sum(what, where, weights=None):
   """Project sum of `what` TTs on the tangent space of `where` TT.
 
@@ -61,10 +81,7 @@ def project_sum(what, where, weights=None):
                      (where.dtype,
                       what.dtype))
 
-  left_tangent_space_tens = decompositions.orthogonalize_tt_cores(
-    where)
-  right_tangent_space_tens = decompositions.orthogonalize_tt_cores(
-    left_tangent_space_tens, left_to_right=False)
+  left_tangent_space_tens, right_tangent_space_tens = _orthogonalize(where)
 
   ndims = where.ndims()
   dtype = where.dtype
@@ -245,10 +262,7 @@ def project(what, where):
                      (where.dtype,
                       what.dtype))
 
-  left_tangent_space_tens = decompositions.orthogonalize_tt_cores(
-    where)
-  right_tangent_space_tens = decompositions.orthogonalize_tt_cores(
-    left_tangent_space_tens, left_to_right=False)
+  left_tangent_space_tens, right_tangent_space_tens = _orthogonalize(where)
 
   ndims = where.ndims()
   dtype = where.dtype
@@ -417,10 +431,7 @@ def project_matmul(what, where, matrix):
                      (where.dtype,
                       what.dtype))
 
-  left_tangent_space_tens = decompositions.orthogonalize_tt_cores(
-    where)
-  right_tangent_space_tens = decompositions.orthogonalize_tt_cores(
-    left_tangent_space_tens, left_to_right=False)
+  left_tangent_space_tens, right_tangent_space_tens = _orthogonalize(where)
 
   ndims = where.ndims()
   dtype = where.dtype
@@ -835,12 +846,14 @@ def deltas_to_tangent_space(deltas, tt, left=None, right=None,
   if right is not None:
     input_tensors += list(right.tt_cores)
   with tf.name_scope(name):
+    if left is None and right is None:
+      left, right = _orthogonalize(tt)
     if left is None:
       left = decompositions.orthogonalize_tt_cores(tt)
     if right is None:
       right = decompositions.orthogonalize_tt_cores(left, left_to_right=False)
     left_tangent_tt_ranks = shapes.lazy_tt_ranks(left)
-    right_tangent_tt_ranks = shapes.lazy_tt_ranks(left)
+    right_tangent_tt_ranks = shapes.lazy_tt_ranks(right)
     raw_shape = shapes.lazy_raw_shape(left)
     right_rank_dim = left.right_tt_rank_dim
     left_rank_dim = left.left_tt_rank_dim
-- 
2.43.0


From b6c57992eb70814e6220364f9d40312724c42cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:40:23 +0000
Subject: [PATCH 20/37] fix: reject inconsistent TT-cores in constructors

TT-cores of different batch sizes and a shape with more dimensions than there
are TT-cores were accepted, although the constructors promise a ValueError.
---
 t3f/tensor_train.py       | 3 +++
 t3f/tensor_train_batch.py | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/t3f/tensor_train.py b/t3f/tensor_train.py
index 7980700..6bce95d 100644
--- a/t3f/tensor_train.py
+++ b/t3f/tensor_train.py
@@ -161,6 +161,9 @@ def _are_tt_cores_valid(tt_cores, shape, tt_ranks):
     if tt_cores[core_idx].dtype != tt_cores[0].dtype:
       return False
   try:
+    if shape is not None and any(len(s) != num_dims for s in shape):
+      # The number of the TT-cores is not aligned with the given shape.
+      return False
     for core_idx in range(num_dims):
       curr_core_shape = tt_cores[core_idx].get_shape()
       if len(curr_core_shape) != len(tt_cores[0].get_shape()):
diff --git a/t3f/tensor_train_batch.py b/t3f/tensor_train_batch.py
index 976582a..bfa277b 100644
--- a/t3f/tensor_train_batch.py
+++ b/t3f/tensor_train_batch.py
@@ -294,6 +294,12 @@ def _are_batch_tt_cores_valid(tt_cores, shape, tt_ranks, batch_size):
     if tt_cores[core_idx].dtype != tt_cores[0].dtype:
       return False
   try:
+    if shape is not None and any(len(s) != num_dims for s in shape):
+      # The number of the TT-cores is not aligned with the given shape.
+      return False
+    if batch_size is None:
+      # All the TT-cores should have the same batch size.
+      batch_size = tt_cores[0].shape.as_list()[0]
     for core_idx in range(num_dims):
       curr_core_shape = tt_cores[core_idx].shape.as_list()
       if len(curr_core_shape) != len(tt_cores[0].get_shape()):
-- 
2.43.0


From 35871e80d5211a4e449ff57e85094ae91ee26108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:41:19 +0000
Subject: [PATCH 21/37] fix: register variables of KerasDense with Keras

Keras 3 tracks only the weights created with add_weight, so the layer reported
no trainable variables and model.fit silently left it unchanged.
---
 t3f/nn.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/t3f/nn.py b/t3f/nn.py
index fa45eaf..ee8edac 100644
--- a/t3f/nn.py
+++ b/t3f/nn.py
@@ -44,6 +44,7 @@ class KerasDense(Layer):
     self.kernel_initializer = kernel_initializer
     self.bias_initializer = bias_initializer
     name = 'tt_dense_{}'.format(self.counter)
+    super(KerasDense, self).__init__(name=name, **kwargs)
 
     if self.kernel_initializer == 'glorot':
       initializer = t3f.glorot_initializer(self.tt_shape,
@@ -58,12 +59,24 @@ class KerasDense(Layer):
       raise ValueError('Unknown kernel_initializer "%s", only "glorot",'
                        '"he", and "lecun"  are supported'
                        % self.kernel_initializer)
-    self.matrix = t3f.get_variable('matrix', initializer=initializer)
+    tt_cores = [self._add_variable('matrix_core_%d' % i, core)
+                for i, core in enumerate(initializer.tt_cores)]
+    self.matrix = t3f.TensorTrain(tt_cores, initializer.get_raw_shape(),
+                                  initializer.get_tt_ranks(),
+                                  convert_to_tensors=False)
     self._tt_cores = self.matrix.tt_cores
     self.b = None
     if self.use_bias:
-      self.b = tf.Variable(self.bias_initializer * tf.ones((self.output_dim,)))
-    super(KerasDense, self).__init__(name=name, **kwargs)
+      bias = self.bias_initializer * tf.ones((self.output_dim,))
+      self.b = self._add_variable('bias', bias)
+
+  def _add_variable(self, name, initial_value):
+    """Creates a tf.Variable that Keras knows about and hence trains."""
+    weight = self.add_weight(name=name, shape=initial_value.shape,
+                             dtype=initial_value.dtype.name, trainable=True,
+                             initializer=lambda *args, **kwargs: initial_value)
+    # Keras 3 wraps tf.Variable into its own class.
+    return weight if isinstance(weight, tf.Variable) else weight.value
 
   def call(self, x):
     res = t3f.matmul(x, self.matrix)
-- 
2.43.0


From 9e71af34fdfc7332401a8c7be8ef44373f80671d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:57:23 +0000
Subject: [PATCH 22/37] fix: drop the batch dimension when project_matmul
 projects a single TensorTrain

The projected cores kept the batch dimension of the converted argument, so
concatenating them with the tangent space cores failed.
---
 t3f/riemannian.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/t3f/riemannian.py b/t3f/riemannian.py
index 5b09144..94cc495 100644
--- a/t3f/riemannian.py
+++ b/t3f/riemannian.py
@@ -506,6 +506,7 @@ def project_matmul(what, where, matrix):
       extended_right_tang_core = tf.tile(extended_right_tang_core,
                                          [output_batch_size, 1, 1, 1, 1])
     else:
+      proj_core = tf.squeeze(proj_core, axis=0)
       extended_left_tang_core = left_tang_core
       extended_right_tang_core = right_tang_core
 
-- 
2.43.0


From dfd76a7d16e583f6f32a5c899248dd01dbba3a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:16:29 +0000
Subject: [PATCH 23/37] fix: variance of initializers for matrices with more
 than 2^63 rows

---
 t3f/initializers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/t3f/initializers.py b/t3f/initializers.py
index 0a84c82..e86c29a 100644
--- a/t3f/initializers.py
+++ b/t3f/initializers.py
@@ -772,8 +772,8 @@ def glorot_initializer(shape, tt_rank=2, dtype=tf.float32,
   shape = np.array(shape)
   tt_rank = np.array(tt_rank)
   _validate_input_parameters(is_tensor=False, shape=shape, tt_rank=tt_rank)
-  n_in = np.prod(shape[0])
-  n_out = np.prod(shape[1])
+  n_in = np.prod(shape[0], dtype=float)
+  n_out = np.prod(shape[1], dtype=float)
   lamb = 2.0 / (n_in + n_out)
 
   with tf.name_scope(name):
@@ -814,7 +814,7 @@ def he_initializer(shape, tt_rank=2, dtype=tf.float32,
   shape = np.array(shape)
   tt_rank = np.array(tt_rank)
   _validate_input_parameters(is_tensor=False, shape=shape, tt_rank=tt_rank)
-  n_in = np.prod(shape[0])
+  n_in = np.prod(shape[0], dtype=float)
   lamb = 2.0 / n_in
 
   with tf.name_scope(name):
@@ -855,7 +855,7 @@ def lecun_initializer(shape, tt_rank=2, dtype=tf.float32,
   shape = np.array(shape)
   tt_rank = np.array(tt_rank)
   _validate_input_parameters(is_tensor=False, shape=shape, tt_rank=tt_rank)
-  n_in = np.prod(shape[0])
+  n_in = np.prod(shape[0], dtype=float)
   lamb = 1.0 / n_in
   with tf.name_scope(name):
     return random_matrix(shape, tt_rank=tt_rank, stddev=np.sqrt(lamb),
-- 
2.43.0


From e481168a4d082d983939a6f5006d2a00e4b0a48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:27:15 +0000
Subject: [PATCH 24/37] fix: reject TT-cores with a wrong number of axes in
 constructors

---
 t3f/tensor_train.py       | 3 +++
 t3f/tensor_train_batch.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/t3f/tensor_train.py b/t3f/tensor_train.py
index 6bce95d..7e16521 100644
--- a/t3f/tensor_train.py
+++ b/t3f/tensor_train.py
@@ -164,6 +164,9 @@ def _are_tt_cores_valid(tt_cores, shape, tt_ranks):
     if shape is not None and any(len(s) != num_dims for s in shape):
       # The number of the TT-cores is not aligned with the given shape.
       return False
+    if len(tt_cores[0].get_shape()) not in (3, 4):
+      # The TT-cores are neither those of a TT-tensor nor of a TT-matrix.
+      return False
     for core_idx in range(num_dims):
       curr_core_shape = tt_cores[core_idx].get_shape()
       if len(curr_core_shape) != len(tt_cores[0].get_shape()):
diff --git a/t3f/tensor_train_batch.py b/t3f/tensor_train_batch.py
index bfa277b..1b0e18f 100644
--- a/t3f/tensor_train_batch.py
+++ b/t3f/tensor_train_batch.py
@@ -297,6 +297,9 @@ def _are_batch_tt_cores_valid(tt_cores, shape, tt_ranks, batch_size):
     if shape is not None and any(len(s) != num_dims for s in shape):
       # The number of the TT-cores is not aligned with the given shape.
       return False
+    if len(tt_cores[0].get_shape()) not in (4, 5):
+      # The TT-cores are neither those of TT-tensors nor of TT-matrices.
+      return False
     if batch_size is None:
       # All the TT-cores should have the same batch size.
       batch_size = tt_cores[0].shape.as_list()[0]
-- 
2.43.0


From 6b5c8e27feb0bdf337749d5edfc153dd499f75c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:27:21 +0000
Subject: [PATCH 25/37] fix: batch_size of a TensorTrainBatch is None when it
 is not known statically

---
 t3f/tensor_train_batch.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/t3f/tensor_train_batch.py b/t3f/tensor_train_batch.py
index 1b0e18f..88f3c35 100644
--- a/t3f/tensor_train_batch.py
+++ b/t3f/tensor_train_batch.py
@@ -47,6 +47,10 @@ class TensorTrainBatch(TensorTrainBase):
           name = "core%d" % i
           tt_cores[i] = tf.convert_to_tensor(tt_cores[i], name=name)
 
+    if tf.is_tensor(batch_size):
+      # The batch size that is not known statically.
+      batch_size = tf.get_static_value(batch_size)
+
     if not _are_batch_tt_cores_valid(tt_cores, shape, tt_ranks, batch_size):
       raise ValueError('The tt_cores provided to TensorTrainBatch constructor '
                        'are not valid, have different dtypes, or are '
-- 
2.43.0


From f41f62ebcba13174746bc603ddf9224442898ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:28:25 +0000
Subject: [PATCH 26/37] fix: reject a tensor shape for TT-matrix cores and vice
 versa in constructors

---
 t3f/tensor_train.py       | 3 +++
 t3f/tensor_train_batch.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/t3f/tensor_train.py b/t3f/tensor_train.py
index 7e16521..b68fa74 100644
--- a/t3f/tensor_train.py
+++ b/t3f/tensor_train.py
@@ -164,6 +164,9 @@ def _are_tt_cores_valid(tt_cores, shape, tt_ranks):
     if shape is not None and any(len(s) != num_dims for s in shape):
       # The number of the TT-cores is not aligned with the given shape.
       return False
+    if shape is not None and len(tt_cores[0].get_shape()) != len(shape) + 2:
+      # TT-cores of a TT-matrix and the shape of a TT-tensor or vice versa.
+      return False
     if len(tt_cores[0].get_shape()) not in (3, 4):
       # The TT-cores are neither those of a TT-tensor nor of a TT-matrix.
       return False
diff --git a/t3f/tensor_train_batch.py b/t3f/tensor_train_batch.py
index 88f3c35..bbfee97 100644
--- a/t3f/tensor_train_batch.py
+++ b/t3f/tensor_train_batch.py
@@ -301,6 +301,9 @@ def _are_batch_tt_cores_valid(tt_cores, shape, tt_ranks, batch_size):
     if shape is not None and any(len(s) != num_dims for s in shape):
       # The number of the TT-cores is not aligned with the given shape.
       return False
+    if shape is not None and len(tt_cores[0].get_shape()) != len(shape) + 3:
+      # TT-cores of a TT-matrix and the shape of a TT-tensor or vice versa.
+      return False
     if len(tt_cores[0].get_shape()) not in (4, 5):
       # The TT-cores are neither those of TT-tensors nor of TT-matrices.
       return False
-- 
2.43.0


From 18872b79b0028f17894523647243ead3435e1ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:28:41 +0000
Subject: [PATCH 27/37] fix: let project and project_matmul project batches of
 unknown size

---
 t3f/riemannian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/t3f/riemannian.py b/t3f/riemannian.py
index 94cc495..5f9aca8 100644
--- a/t3f/riemannian.py
+++ b/t3f/riemannian.py
@@ -276,7 +276,7 @@ def project(what, where):
   left_rank_dim = what.left_tt_rank_dim
   output_is_batch = isinstance(what, TensorTrainBatch)
   if output_is_batch:
-    output_batch_size = what.batch_size
+    output_batch_size = shapes.lazy_batch_size(what)
 
   # Always work with batch of TT objects for simplicity.
   what = shapes.expand_batch_dim(what)
@@ -444,7 +444,7 @@ def project_matmul(what, where, matrix):
   left_rank_dim = what.left_tt_rank_dim
   output_is_batch = isinstance(what, TensorTrainBatch)
   if output_is_batch:
-    output_batch_size = what.batch_size
+    output_batch_size = shapes.lazy_batch_size(what)
 
   # Always work with batch of TT objects for simplicity.
   what = shapes.expand_batch_dim(what)
-- 
2.43.0


From 57765c9a825b154e3ebda1279c0dc5e636c8923e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:30:31 +0000
Subject: [PATCH 28/37] fix: use the static raw shape of batches of unknown
 size

---
 t3f/shapes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/t3f/shapes.py b/t3f/shapes.py
index ec99153..ead0e26 100644
--- a/t3f/shapes.py
+++ b/t3f/shapes.py
@@ -169,10 +169,10 @@ def lazy_raw_shape(tt, name='t3f_lazy_raw_shape'):
   Returns:
     A 2-D numpy array or `tf.Tensor` of size 1 x ndims() or 2 x ndims()
   """
-  # If get_shape is fully defined, it guaranties that all elements of raw shape
-  # are defined.
+  # The raw shape can be defined even if get_shape is not (for a batch of
+  # unknown size).
   with tf.name_scope(name):
-    if tt.get_shape().is_fully_defined():
+    if all(s.is_fully_defined() for s in tt.get_raw_shape()):
       return np.array([s.as_list() for s in tt.get_raw_shape()])
     else:
       return raw_shape(tt)
-- 
2.43.0


From 426750a5465b359625f531cdf1de4b64dd512d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:32:48 +0000
Subject: [PATCH 29/37] fix: renormalize batches of unknown size

---
 t3f/ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index d9cb196..7066385 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -1329,7 +1329,7 @@ def renormalize_tt_cores(tt, epsilon=1e-8, name='t3f_renormalize_tt_cores'):
 
         return TensorTrain(new_cores)
       else:
-        sz = (tt.batch_size,) + (len(tt.tt_cores[0].shape) - 1) * (1,)
+        sz = (shapes.lazy_batch_size(tt),) + (len(tt.tt_cores[0].shape) - 1) * (1,)
         running_core_log_norms = tf.zeros(sz, dtype=tt.dtype)
         ax = np.arange(len(tt.tt_cores[0].shape))[1:]
         fact_list = []
-- 
2.43.0


From dd8bde3754bff4767c43b089d188bf7c0b86e5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:47:09 +0000
Subject: [PATCH 30/37] fix: reject different numbers of dimensions in bilinear
 forms

---
 t3f/ops.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/t3f/ops.py b/t3f/ops.py
index 7066385..03e1f0d 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -1099,6 +1099,9 @@ def bilinear_form(A, b, c, name='t3f_bilinear_form'):
     raise ValueError('The arguments should be a TT-matrix.')
   if not isinstance(c, TensorTrainBase) or not c.is_tt_matrix():
     raise ValueError('The arguments should be a TT-matrix.')
+  if b.ndims() != A.ndims() or c.ndims() != A.ndims():
+    raise ValueError('The arguments should have the same number of dimensions, '
+                     'got %d, %d and %d' % (A.ndims(), b.ndims(), c.ndims()))
 
   b_is_batch = isinstance(b, TensorTrainBatch)
   c_is_batch = isinstance(c, TensorTrainBatch)
@@ -1164,6 +1167,8 @@ def bilinear_form_two_mat(x, A, B, y, name='t3f_bilinear_xaby'):
   for vec in [x, y]:
     if not isinstance(vec, TensorTrainBase) or not vec.is_tt_matrix():
       raise ValueError('The arguments should be a TT-matrix.')
+  if any(tt.ndims() != A.ndims() for tt in [B, x, y]):
+    raise ValueError('The arguments should have the same number of dimensions.')
 
   x_is_batch = isinstance(x, TensorTrainBatch)
   y_is_batch = isinstance(y, TensorTrainBatch)
-- 
2.43.0


From b38f5b1bf4bdfc771b1478e4ab02fbe332b390b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:47:14 +0000
Subject: [PATCH 31/37] fix: reject a sparse tensor of another shape in
 flat_inner

---
 t3f/ops.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/t3f/ops.py b/t3f/ops.py
index 03e1f0d..bdbe627 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -436,6 +436,10 @@ def tt_sparse_flat_inner(tt_a, sparse_b):
     a number
     sum of products of all the elements of tt_a and sparse_b
   """
+  if not tt_a.get_shape().is_compatible_with(sparse_b.get_shape()):
+    raise ValueError('The arguments should have the same shape, got %s and %s' %
+                     (tt_a.get_shape(), sparse_b.get_shape()))
+
   if sparse_b.indices.get_shape().is_fully_defined():
     num_elements = sparse_b.indices.get_shape()[0]
   else:
-- 
2.43.0


From e0da95e9fdcaf1fa9beaa13aa6769390e818d536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 18:47:19 +0000
Subject: [PATCH 32/37] fix: reject a shape that does not factorize the matrix
 in to_tt_matrix

---
 t3f/decompositions.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/t3f/decompositions.py b/t3f/decompositions.py
index 97dbe9b..ba7600c 100644
--- a/t3f/decompositions.py
+++ b/t3f/decompositions.py
@@ -55,7 +55,8 @@ def to_tt_matrix(mat, shape, max_tt_rank=10, epsilon=None,
   Raises:
     ValueError if max_tt_rank is less than 0, if max_tt_rank is not a number and
       not a vector of length d + 1 where d is the number of dimensions (rank) of
-      the input tensor, if epsilon is less than 0.
+      the input tensor, if epsilon is less than 0, if the shape of the matrix is
+      not consistent with `shape`.
   """
   with tf.name_scope(name):
     mat = tf.convert_to_tensor(mat)
@@ -69,6 +70,11 @@ def to_tt_matrix(mat, shape, max_tt_rank=10, epsilon=None,
       shape[1] = np.ones(len(shape[0])).astype(int)
 
     shape = np.array(shape)
+    # A vector can be given in any orientation.
+    if mat.shape.rank == 2 and 1 not in mat.shape.as_list():
+      if not mat.shape.is_compatible_with(np.prod(shape, axis=1)):
+        raise ValueError('The matrix of shape %s cannot be represented by '
+                         'the tensor shape %s' % (mat.shape, shape.tolist()))
     tens = tf.reshape(mat, shape.flatten())
     d = len(shape[0])
     # transpose_idx = 0, d, 1, d+1 ...
-- 
2.43.0


From 4be962bd02e2253e1cd52236341414658055c0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:04:24 +0000
Subject: [PATCH 33/37] fix: shape of a batch of matrices with more than 2^63
 rows

Gluing the batch size to the shape went through a numpy array. Sizes
between 2^63 and 2^64 turned it into a float array, and get_shape failed
with a TypeError.
---
 t3f/tensor_train_batch.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/t3f/tensor_train_batch.py b/t3f/tensor_train_batch.py
index bbfee97..654634c 100644
--- a/t3f/tensor_train_batch.py
+++ b/t3f/tensor_train_batch.py
@@ -1,4 +1,3 @@
-import numpy as np
 import tensorflow as tf
 
 from t3f.tensor_train_base import TensorTrainBase
@@ -78,7 +77,7 @@ class TensorTrainBatch(TensorTrainBase):
       A `TensorShape` object.
     """
     shape = TensorTrainBase.get_shape(self)
-    return tf.TensorShape(np.hstack((self.batch_size, shape)))
+    return tf.TensorShape([self.batch_size]).concatenate(shape)
 
   @property
   def tt_cores(self):
-- 
2.43.0


From c6e07e0b976fb8353b0b4043ccd9b5f230680580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:46:08 +0000
Subject: [PATCH 34/37] fix: accept TT-cores with sizes unknown when tracing

Unknown sizes are None in TensorFlow 2, and comparing None with a number
counted as a mismatch. Rounding, orthogonalizing or projecting an object
with unknown TT-ranks in a compiled function failed with "The tt_cores
provided to TensorTrain constructor are not valid".
---
 t3f/shapes.py             | 13 +++++++++++++
 t3f/tensor_train.py       | 11 ++++++-----
 t3f/tensor_train_batch.py | 12 ++++++------
 3 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/t3f/shapes.py b/t3f/shapes.py
index ead0e26..3ca6e1c 100644
--- a/t3f/shapes.py
+++ b/t3f/shapes.py
@@ -199,6 +199,19 @@ def lazy_batch_size(tt, name='t3f_lazy_batch_size'):
       return batch_size(tt)
 
 
+def differ(dim_a, dim_b):
+  """Returns True if both sizes are known and they are different.
+
+  Args:
+    dim_a: a number or None if the size is unknown on the compilation stage.
+    dim_b: a number or None if the size is unknown on the compilation stage.
+
+  Returns:
+    bool
+  """
+  return dim_a is not None and dim_b is not None and dim_a != dim_b
+
+
 def clean_raw_shape(shape, name='t3f_clean_raw_shape'):
   """Returns a tuple of TensorShapes for any valid shape representation.
 
diff --git a/t3f/tensor_train.py b/t3f/tensor_train.py
index b68fa74..1ee60f5 100644
--- a/t3f/tensor_train.py
+++ b/t3f/tensor_train.py
@@ -177,22 +177,23 @@ def _are_tt_cores_valid(tt_cores, shape, tt_ranks):
         return False
       if shape is not None:
         for i in range(len(shape)):
-          if curr_core_shape[i + 1] != shape[i][core_idx]:
+          if shapes.differ(curr_core_shape[i + 1], shape[i][core_idx]):
             # The TT-cores are not aligned with the given shape.
             return False
       if core_idx >= 1:
         prev_core_shape = tt_cores[core_idx - 1].get_shape()
-        if curr_core_shape[0] != prev_core_shape[-1]:
+        if shapes.differ(curr_core_shape[0], prev_core_shape[-1]):
           # TT-ranks are inconsistent.
           return False
       if tt_ranks is not None:
-        if curr_core_shape[0] != tt_ranks[core_idx]:
+        if shapes.differ(curr_core_shape[0], tt_ranks[core_idx]):
           # The TT-ranks are not aligned with the TT-cores shape.
           return False
-        if curr_core_shape[-1] != tt_ranks[core_idx + 1]:
+        if shapes.differ(curr_core_shape[-1], tt_ranks[core_idx + 1]):
           # The TT-ranks are not aligned with the TT-cores shape.
           return False
-    if tt_cores[0].get_shape()[0] != 1 or tt_cores[-1].get_shape()[-1] != 1:
+    if (shapes.differ(tt_cores[0].get_shape()[0], 1) or
+        shapes.differ(tt_cores[-1].get_shape()[-1], 1)):
       # The first or the last rank is not 1.
       return False
   except ValueError:
diff --git a/t3f/tensor_train_batch.py b/t3f/tensor_train_batch.py
index 654634c..0a193bf 100644
--- a/t3f/tensor_train_batch.py
+++ b/t3f/tensor_train_batch.py
@@ -320,23 +320,23 @@ def _are_batch_tt_cores_valid(tt_cores, shape, tt_ranks, batch_size):
           return False
       if shape is not None:
         for i in range(len(shape)):
-          dim_a, dim_b = curr_core_shape[i + 2], shape[i][core_idx]
-          if dim_a is not None and dim_b is not None and dim_a != dim_b:
+          if shapes.differ(curr_core_shape[i + 2], shape[i][core_idx]):
             # The TT-cores are not aligned with the given shape.
             return False
       if core_idx >= 1:
         prev_core_shape = tt_cores[core_idx - 1].get_shape()
-        if curr_core_shape[1] != prev_core_shape[-1]:
+        if shapes.differ(curr_core_shape[1], prev_core_shape[-1]):
           # TT-ranks are inconsistent.
           return False
       if tt_ranks is not None:
-        if curr_core_shape[1] != tt_ranks[core_idx]:
+        if shapes.differ(curr_core_shape[1], tt_ranks[core_idx]):
           # The TT-ranks are not aligned with the TT-cores shape.
           return False
-        if curr_core_shape[-1] != tt_ranks[core_idx + 1]:
+        if shapes.differ(curr_core_shape[-1], tt_ranks[core_idx + 1]):
           # The TT-ranks are not aligned with the TT-cores shape.
           return False
-    if tt_cores[0].get_shape()[1] != 1 or tt_cores[-1].get_shape()[-1] != 1:
+    if (shapes.differ(tt_cores[0].get_shape()[1], 1) or
+        shapes.differ(tt_cores[-1].get_shape()[-1], 1)):
       # The first or the last rank is not 1.
       return False
   except ValueError:
-- 
2.43.0


From 75361525e2e653446209ab3b37ca92108be0e2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:46:08 +0000
Subject: [PATCH 35/37] fix: sums and products of objects with TT-ranks unknown
 when tracing

Adding or multiplying unknown (None) TT-ranks raised a TypeError.
---
 t3f/ops.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index bdbe627..3e9a60a 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -180,7 +180,9 @@ def tt_tt_matmul(tt_matrix_a, tt_matrix_b):
   res_shape = (tt_matrix_a.get_raw_shape()[0], tt_matrix_b.get_raw_shape()[1])
   static_a_ranks = tt_matrix_a.get_tt_ranks()
   static_b_ranks = tt_matrix_b.get_tt_ranks()
-  out_ranks = [a_r * b_r for a_r, b_r in zip(static_a_ranks, static_b_ranks)]
+  out_ranks = None
+  if static_a_ranks.is_fully_defined() and static_b_ranks.is_fully_defined():
+    out_ranks = [a_r * b_r for a_r, b_r in zip(static_a_ranks, static_b_ranks)]
   if is_res_batch:
     return TensorTrainBatch(result_cores, res_shape, out_ranks, batch_size)
   res = TensorTrain(result_cores, res_shape, out_ranks)
@@ -752,12 +754,14 @@ def add(tt_a, tt_b, name='t3f_add'):
       else:
         tt_cores = _add_tensor_cores(tt_a, tt_b)
 
-    out_ranks = [1]
+    out_ranks = None
     static_a_ranks = tt_a.get_tt_ranks()
     static_b_ranks = tt_b.get_tt_ranks()
-    for core_idx in range(1, ndims):
-      out_ranks.append(static_a_ranks[core_idx] + static_b_ranks[core_idx])
-    out_ranks.append(1)
+    if static_a_ranks.is_fully_defined() and static_b_ranks.is_fully_defined():
+      out_ranks = [1]
+      for core_idx in range(1, ndims):
+        out_ranks.append(static_a_ranks[core_idx] + static_b_ranks[core_idx])
+      out_ranks.append(1)
     if is_batch_case:
       return TensorTrainBatch(tt_cores, tt_a.get_raw_shape(), out_ranks,
                               batch_size)
@@ -932,8 +936,11 @@ def multiply(tt_left, right, name='t3f_multiply'):
 
         tt_cores.append(curr_core)
 
-      combined_ranks = zip(tt_left.get_tt_ranks(), right.get_tt_ranks())
-      out_ranks = [a * b for a, b in combined_ranks]
+      out_ranks = None
+      if (tt_left.get_tt_ranks().is_fully_defined() and
+          right.get_tt_ranks().is_fully_defined()):
+        combined_ranks = zip(tt_left.get_tt_ranks(), right.get_tt_ranks())
+        out_ranks = [a * b for a, b in combined_ranks]
 
   if not is_batch_case:
     return TensorTrain(tt_cores, tt_left.get_raw_shape(), out_ranks)
-- 
2.43.0


From 96a94344bb81dfed74b9c8e963ef997bf54a1d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:46:08 +0000
Subject: [PATCH 36/37] fix: get_shape of a TT-matrix with sizes unknown when
 tracing

The product of unknown (None) sizes raised a TypeError.
---
 t3f/tensor_train_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/t3f/tensor_train_base.py b/t3f/tensor_train_base.py
index f4c25b7..0bcb56e 100644
--- a/t3f/tensor_train_base.py
+++ b/t3f/tensor_train_base.py
@@ -32,8 +32,8 @@ class TensorTrainBase(object):
     raw_shape = self.get_raw_shape()
     if self.is_tt_matrix():
       # Use python prod instead of np.prod to avoid overflows.
-      prod_f = lambda arr: reduce(lambda x, y: x*y, arr)
-      # TODO: as list is not available if shape is partly known.
+      prod_f = lambda arr: (None if None in arr else
+                            reduce(lambda x, y: x*y, arr))
       m = prod_f(raw_shape[0].as_list())
       n = prod_f(raw_shape[1].as_list())
       return tf.TensorShape((m, n))
-- 
2.43.0


From 70af65213815bb5c8071484baf89e310edb8b645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:55:08 +0000
Subject: [PATCH 37/37] fix: gradient of multiplication by a number equal to
 zero

Multiplying by a number takes its root, so the derivative by a number equal
to zero was nan, or zero for a single TT-core. Scale only the first TT-core in
this case.
---
 t3f/ops.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/t3f/ops.py b/t3f/ops.py
index 3e9a60a..260ba56 100644
--- a/t3f/ops.py
+++ b/t3f/ops.py
@@ -809,8 +809,12 @@ def multiply(tt_left, right, name='t3f_multiply'):
       # Without the hint a python number would be rounded to float32.
       right = tf.convert_to_tensor(right, dtype_hint=tt_left.dtype)
       right = tf.cast(right, tt_left.dtype)
-      fact = tf.pow(tf.abs(right), 1.0 / ndims)
-      sign = tf.sign(right)
+      # The power is not differentiable at zero, in this case only the first
+      # TT-core is multiplied by right.
+      is_zero = tf.equal(right, 0)
+      fact = tf.pow(tf.where(is_zero, tf.ones_like(right), tf.abs(right)),
+                    1.0 / ndims)
+      sign = tf.where(is_zero, right, tf.sign(right))
       for i in range(len(tt_cores)):
         tt_cores[i] = fact * tt_cores[i]
 
-- 
2.43.0

