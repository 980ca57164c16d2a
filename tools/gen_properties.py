"""Writes /verif/properties.jsonl (kept as code so the text is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
         "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "A TT object denotes exactly the tensor its cores multiply out to",
 "Converting a TT-tensor, TT-matrix or batch to dense form yields at every multi-index the product of the corresponding core slices. For TT-matrices the row (column) number enumerates the row (column) multi-index in row-major order, and for batches element i uses only the i-th slices. This holds whether cores were given as arrays, tensors or variables, with or without an explicit shape, ranks or batch size.",
 ["inputs", "configurations"],
 "all TT-tensors/TT-matrices/batches with 1..12 cores, mode sizes 1..64 (rectangular matrices included), heterogeneous TT-ranks, batch sizes 1..9, float32/float64, magnitudes 1e-30..1e30, zero cores; functions: TensorTrain(), TensorTrainBatch(), full, expand_batch_dim, squeeze_batch_dim, op()/eval-style access to cores, left/right rank dims",
 "tests compare full() with one hand-written einsum for two fixed 3-core shapes with equal modes; index order mistakes that only show for rectangular modes, more cores, single cores or batches are not reached",
 ["t3f/ops.py", "t3f/tensor_train.py", "t3f/tensor_train_batch.py", "t3f/shapes.py"],
 [("full: sequential core contraction and transpose of interleaved modes", "t3f/ops.py:full,_full_tt,_full_tt_batch"),
  ("shape/rank inference", "t3f/tensor_train.py:_infer_raw_shape,_infer_tt_ranks")],
 ["return value of full", "cores of constructed objects"])

prop("C02", "Sums, differences, products and scalings act element-wise",
 "Adding, subtracting, negating, multiplying two TT objects, or scaling one by a number gives a TT object whose dense value is the same element-wise operation on the dense values of the arguments, up to rounding of the dtype. A single TT or a one-element batch is broadcast over a batch on either side; the result is a batch exactly when an argument is. Operators and named functions agree, and the order and sign of the arguments matter exactly as in ordinary arithmetic.",
 ["inputs", "configurations"],
 "all pairs of equally shaped TT-tensors/TT-matrices/batches (1..10 cores, arbitrary different TT-ranks, same object on both sides), every broadcasting combination, scalars that are python int/float, numpy scalars, tf constants or variables, positive, negative, zero, tiny or huge; functions add, multiply and operators +, -, *, unary -",
 "tests use fixed shapes of 2-3 cores, equal ranks and a few broadcasting pairs; scalars are one or two positive constants; interaction of batch position x matrix x core count x sign is not covered",
 ["t3f/ops.py", "t3f/tensor_train_base.py"],
 [("block-diagonal concatenation of cores", "t3f/ops.py:_add_tensor_cores and its three siblings"),
  ("Kronecker product of ranks, root-splitting of scalars", "t3f/ops.py:multiply"),
  ("operator overloads", "t3f/tensor_train_base.py:__add__,__sub__,__neg__,__mul__")],
 ["cores and dense value of the returned object"])

prop("C03", "Matrix products and transposes agree with dense linear algebra",
 "The product of two TT-matrices, of a TT-matrix and a dense matrix, or of a dense matrix and a TT-matrix equals the product of their dense forms, and the transpose of a TT-matrix is the dense transpose, up to rounding. Products involving a batch are taken per element with broadcasting of single matrices and one-element batches, and return a batch; products of TT with dense return a dense tensor.",
 ["inputs", "configurations"],
 "all conforming TT-matrices (1..6 cores, rectangular and size-1 modes, arbitrary ranks), TT-vectors (N x 1 and 1 x N), dense operands with any number of columns/rows including 1, every batch/broadcast combination; functions matmul, transpose, chained products",
 "tests use square-ish or fixed shapes and never rectangular modes that differ per core on both sides",
 ["t3f/ops.py"],
 [("core-wise einsum", "t3f/ops.py:tt_tt_matmul"), ("right-to-left sweep with reshapes", "t3f/ops.py:tt_dense_matmul,dense_tt_matmul"),
  ("swap of mode axes", "t3f/ops.py:transpose")],
 ["returned TT object or dense tensor"])

prop("C04", "Inner products, norms and bilinear forms equal their dense values",
 "The flat inner product (with another TT or with a sparse tensor), squared and plain Frobenius norm in both implementations, bilinear forms with one or two matrices, pairwise inner products and Gram matrices (with or without a matrix in the middle) equal the values computed from dense forms, up to rounding. For batches the result has one entry per element (or per pair), never fewer axes, also when a batch has one element.",
 ["inputs", "configurations"],
 "all TT-tensors/TT-matrices/batches with 1..8 cores and different ranks on both sides, vectors N x 1 and M x 1 for the forms, sparse tensors with 0..many entries, batch sizes 1..6 on either side, both values of the differentiable flag, several epsilons; functions flat_inner, frobenius_norm_squared, frobenius_norm, bilinear_form, quadratic_form, ops.bilinear_form_two_mat, pairwise_flat_inner, gram_matrix",
 "tests cover fixed small shapes, equal batch sizes > 1 and one epsilon",
 ["t3f/ops.py", "t3f/batch_ops.py"],
 [("left-to-right contraction", "t3f/ops.py:tt_tt_flat_inner,tt_sparse_flat_inner,bilinear_form,bilinear_form_two_mat"),
  ("orthogonalize and take the norm of the last core", "t3f/ops.py:frobenius_norm_squared"),
  ("pairwise contraction", "t3f/batch_ops.py:pairwise_flat_inner")],
 ["returned tensors"])

prop("C05", "Batched operations equal the same operation on every element",
 "For every operation that accepts batches, element i of the result equals the result of the operation on the i-th elements of its arguments, with single TTs and one-element batches reused for every i, and the result keeps a batch axis of the right length even when it is one. Concatenating batches keeps all elements in order, weighting a batch multiplies element i by weight i only, and selecting elements returns exactly those.",
 ["inputs", "configurations"],
 "batches of 1..9 very different elements (different magnitudes, zero elements) of TT-tensors or TT-matrices; functions add, -, multiply (TT and scalar), matmul, transpose, full, cast, flat_inner, norms, bilinear_form, round, orthogonalize_tt_cores, renormalize_tt_cores, project, project_matmul, kronecker functions, gram_matrix, concat_along_batch_dim, multiply_along_batch_dim, reduce_sum_batch weights, batch indexing",
 "tests compare batches with elements drawn from one distribution, batch sizes 3 or so, and one operation at a time; leaking one element into another, or treating size 1 specially, passes",
 ["t3f/ops.py", "t3f/batch_ops.py", "t3f/tensor_train_batch.py", "t3f/decompositions.py", "t3f/riemannian.py", "t3f/kronecker.py"],
 [("batch letter in einsum strings, expand/squeeze of the batch dim", "t3f/ops.py, t3f/shapes.py:expand_batch_dim,squeeze_batch_dim"),
  ("concatenation along axis 0 / weights on the first core", "t3f/batch_ops.py")],
 ["per-element cores of returned batches"])

prop("C06", "Indexing and gathering return exactly the requested entries",
 "Indexing a TT with integers, slices (with steps, negative bounds, empty stops) or scalar tensors yields the TT of the corresponding dense sub-tensor, dropping exactly the axes indexed by a number; on batches the first index selects elements. Gathering a list of multi-indices yields exactly the addressed entries in order, with the leading shape of the index array, repeated indices included.",
 ["inputs", "configurations"],
 "TT-tensors and batches with 1..8 cores, any mix of ints/slices/tensor indices with at least one surviving axis, batch index as int, slice or full index tuple; index arrays of 2..4 dimensions as numpy, lists or tensors of int32/int64 for gather_nd, with leading batch column for batches",
 "tests try a handful of fixed slices on a 3-core tensor",
 ["t3f/tensor_train.py", "t3f/tensor_train_batch.py", "t3f/ops.py"],
 [("collapse of integer-indexed cores into neighbours", "t3f/tensor_train.py:__getitem__, t3f/tensor_train_batch.py:_full_getitem,_batch_dim_getitem"),
  ("per-core gather and product", "t3f/ops.py:gather_nd")],
 ["returned TT objects and tensors"])

prop("C07", "Dense-to-TT conversion is accurate and respects the rank bound",
 "Converting a dense tensor or matrix to TT form returns an object of the requested shape whose TT-ranks never exceed the given bound (a number or one bound per boundary) nor the largest ranks any tensor of that shape can have. Its distance to the input is at most the root of the sum of squares of the best low-rank errors of the unfoldings, hence zero (up to rounding) when the bound is not restrictive. Requested target shapes of matrices may be arbitrary factorizations of rows and columns.",
 ["inputs", "configurations"],
 "dense tensors (1..7 axes, sizes 1..40) and matrices with any factorized shape; exactly low-rank, decaying-spectrum, random, zero, constant and rank-one inputs, float32/float64, numpy or tensor input; max_tt_rank int, list, array, None/inf; functions to_tt_tensor, to_tt_matrix",
 "tests check exact recovery for two fixed shapes and never the quasi-optimality of a truncated conversion",
 ["t3f/decompositions.py"],
 [("TT-SVD sweep", "t3f/decompositions.py:to_tt_tensor,to_tt_matrix")],
 ["shape, ranks and dense value of the result"])

prop("C08", "Rounding is quasi-optimal, respects rank bounds, keeps exact input exact",
 "Rounding a TT object returns an object of the same kind and shape whose TT-ranks do not exceed the bound, nor the input ranks, nor the largest ranks possible for the shape. Its distance to the input is at most the root of the sum of squares of the best low-rank errors of the unfoldings, so a tensor that can be represented within the bound (e.g. a sum with itself, an over-parametrised or zero tensor) is reproduced up to rounding. Batches are rounded per element.",
 ["inputs", "configurations"],
 "TT-tensors/TT-matrices/batches with 1..8 cores, ranks larger than needed, rank-deficient, zero, badly scaled cores; max_tt_rank as int, list, array, inf or omitted, epsilon given or not; function round",
 "tests round one fixed shape to two ranks and compare with full-rank or a loose tolerance",
 ["t3f/decompositions.py"],
 [("orthogonalize left-to-right, truncate right-to-left by SVD", "t3f/decompositions.py:_round_tt,_round_batch_tt")],
 ["shape, ranks and dense value of the result"])

prop("C09", "Orthogonalization keeps the tensor and makes cores orthogonal",
 "Orthogonalizing the cores returns a TT object representing the same tensor, whose cores, except the last (left-to-right) or the first (right-to-left), have orthonormal columns (rows) after flattening. TT-ranks never grow and do not exceed what the modes on the orthogonal side allow. For batches every element is orthogonalized.",
 ["inputs", "configurations"],
 "TT-tensors and TT-matrices with 1..10 cores incl. over-parametrised, rank-deficient and zero ones and badly scaled cores, both directions; batches left-to-right (the only supported direction); function orthogonalize_tt_cores",
 "tests check one fixed tensor and one matrix shape with generic random cores",
 ["t3f/decompositions.py"],
 [("QR sweep", "t3f/decompositions.py:_orthogonalize_tt_cores_left_to_right,_orthogonalize_tt_cores_right_to_left,_orthogonalize_batch_tt_cores_left_to_right")],
 ["cores of the result"])

prop("C10", "Renormalizing cores keeps the tensor and equalizes core norms",
 "Renormalization returns a TT object (or batch) with the same shape, ranks and dense value, in which all cores of an element have the same Frobenius norm. It works without overflow or underflow for cores of wildly different scale as long as the overall norm product is representable.",
 ["inputs", "configurations"],
 "TT-tensors/TT-matrices/batches with 1..12 cores whose individual norms range over many orders of magnitude; zero cores excluded from the equal-norm clause (their value must stay zero, documented stabiliser epsilon taken into account); function renormalize_tt_cores and method usage on results of products",
 "tests check one well-scaled tensor and batch",
 ["t3f/ops.py"],
 [("geometric mean of core norms in log scale", "t3f/ops.py:renormalize_tt_cores")],
 ["cores of the result"])

prop("C11", "Approximate sums are the true sums when ranks suffice, close otherwise",
 "Summing two or more TTs, or a (weighted, possibly multi-output) batch, with rounding to a given rank returns an object of the right kind whose TT-ranks never exceed the bound, and equals the exact weighted sum up to rounding whenever all intermediate sums are representable within the bound. Each output of a multi-output reduction uses its own column of weights.",
 ["inputs", "configurations"],
 "lists of 1..9 TT-tensors/TT-matrices and batches of 1..9 elements (odd and even counts), weights absent, 1-D, 2-D with 1..4 outputs, lists/numpy/tensors, negative and zero weights; ranks as int or list; functions approximate.add_n, approximate.reduce_sum_batch",
 "tests use power-of-two-ish counts and one weight vector; odd leftovers, weights columns and order are not separated",
 ["t3f/approximate.py"],
 [("binary-tree summation with rounding", "t3f/approximate.py:add_n,reduce_sum_batch")],
 ["ranks and dense value of the result"])

prop("C12", "Projection is the orthogonal projector onto the TT tangent space",
 "Projecting a TT (or every element of a batch) onto the tangent space at a point equals applying the orthogonal projector of that tangent space to its dense value, so it is linear, idempotent, leaves the point itself unchanged and never increases the norm. Projecting a (weighted) sum or a matrix-by-vector product equals projecting the explicitly computed sum or product. Result TT-ranks are at most twice the ranks of the point.",
 ["inputs", "configurations"],
 "points that are TT-tensors, TT-matrices or TT-vectors with 2..6 cores, incl. TT-ranks exceeding what modes allow; projected objects of any ranks, single or batch of 1..5; weights 1-D or N x K; functions project, project_sum, project_matmul",
 "tests compare against full-rank or idempotence on one shape; orthogonality of the projector for different modes/ranks per core is not checked",
 ["t3f/riemannian.py"],
 [("left/right orthogonal frames and lhs/rhs contractions", "t3f/riemannian.py:project,project_sum,project_matmul")],
 ["dense value and ranks of the returned object"])

prop("C13", "Arithmetic on projected tensors agrees with ordinary arithmetic",
 "For objects projected on the same tangent space, weighted sums and pairwise inner products computed by the fast tangent-space routines equal the sums and inner products of the dense values, and adding keeps the object usable as a projected one. Splitting a projected tensor into its tangent-space components and reassembling gives back the same tensor, and inner products of components equal inner products of tensors. Mixing objects projected on different points is refused.",
 ["inputs", "histories"],
 "projections (single and batch of 1..5) of arbitrary TTs on points with 2..6 cores (tensor/matrix), results of repeated add_n_projected/project chains, coefficients lists/arrays/tensors of numbers or per-batch weights; functions add_n_projected, pairwise_flat_inner_projected, tangent_space_to_deltas, riemannian.deltas_to_tangent_space",
 "tests use one point and one coefficient vector and cannot see component mix-ups at other ranks",
 ["t3f/riemannian.py"],
 [("half-splitting of tangent cores", "t3f/riemannian.py:add_n_projected,pairwise_flat_inner_projected,tangent_space_to_deltas,deltas_to_tangent_space")],
 ["returned tensors/TT objects"],
 state=[("projection_on", "the point an object was projected on; decides whether fast routines may be used", "t3f/riemannian.py")])

prop("C14", "Riemannian gradients and Hessian products match projected derivatives",
 "For a scalar function built from TT operations, the automatic Riemannian gradient at x equals the Euclidean gradient of the same function of the dense tensor projected on the tangent space at x, and the Hessian-by-vector product equals projecting the Hessian applied to the projected vector. Functions whose value depends on the particular cores rather than on the tensor are refused by the runtime check, and functions of the tensor are not.",
 ["inputs", "programs"],
 "linear, quadratic, cubic and entry-wise (gather, norm, bilinear form, product) functions with random coefficients at points with 2..5 cores (tensor and matrix), vectors of other ranks, runtime_check on and off, eager and inside tf.function; function values not vanishing; functions gradients, hessian_vector_product",
 "tests use 2-3 functions at one point and compare with t3f's own projection",
 ["t3f/autodiff.py", "t3f/riemannian.py"],
 [("differentiation w.r.t. tangent-space deltas and gauge projection", "t3f/autodiff.py:gradients,hessian_vector_product,_enforce_gauge_conditions"),
  ("runtime invariance check", "t3f/autodiff.py:_is_invariant_to_input_transforms")],
 ["dense value of the returned object", "raised assertion"])

prop("C15", "Initializers give the promised shape, ranks, values and statistics",
 "Every initializer returns an object with exactly the requested shape, batch size, dtype and TT-ranks (a number meaning that rank at all inner boundaries). Ones, zeros and identity (also the -like variants) have exactly those dense values; random tensors/matrices have the requested mean and standard deviation of entries, core-wise ones the requested mean and deviation of core entries, and the neural-network initializers the entry variance of their dense namesakes. Different calls give different draws, the same global seed the same draws.",
 ["inputs", "configurations"],
 "shapes with 1..8 dimensions as lists/tuples/arrays, rectangular matrix shapes incl. one side omitted, ranks as number/list/array, dtypes, means and deviations; functions tensor/matrix_with_random_cores, random_tensor, random_matrix and their _batch variants, tensor_ones/zeros, matrix_ones/zeros, eye, ones_like, zeros_like, glorot/he/lecun_initializer",
 "tests check shapes of fixed calls and one or two statistics with loose tolerance; rank lists, omitted sides and batch variants of statistics are not covered",
 ["t3f/initializers.py"],
 [("scaling core deviation from target deviation and ranks", "t3f/initializers.py:random_tensor,random_matrix,..."),
  ("validation", "t3f/initializers.py:_validate_input_parameters")],
 ["metadata, cores and entry statistics of the returned object"])

prop("C16", "Kronecker determinant, log-determinant, inverse, Cholesky are exact",
 "For a TT-matrix that is a Kronecker product of square factors (or a batch of them), the determinant, sign and log-determinant, inverse and Cholesky factor equal those of the dense matrix, up to conditioning-scaled rounding, the Cholesky factor being lower triangular. The sign and log-determinant stay right for matrices far too large to materialise. TT-matrices that are not such products are refused.",
 ["inputs", "configurations"],
 "products of 1..6 well-conditioned factors of sizes 1..6 with positive/negative determinants, singular factors, 20..60 small factors for the log-determinant, batches of 1..5, batches of unknown size inside tf.function; functions kronecker.determinant, slog_determinant, inv, cholesky",
 "tests use two or three factors of equal size class and positive sizes; parity of exponents with unequal sizes and huge products is not covered",
 ["t3f/kronecker.py"],
 [("power of core determinants by the size of the rest", "t3f/kronecker.py:determinant,slog_determinant"), ("core-wise inverse/Cholesky", "t3f/kronecker.py:inv,cholesky")],
 ["returned numbers and TT objects"])

prop("C17", "TT variables behave as one mutable tensor",
 "A TT variable starts with the value of its initializer, after each assignment holds exactly the assigned value everywhere it is used, and no sequence of assignments, optimizer steps or reads changes any other variable, the initializer or the assigned object. Sharing by name under variable-scope reuse in graph mode returns the existing variable, and asking for a missing or duplicate one is refused. Regularizers passed at creation are recorded exactly once with the right value.",
 ["histories", "configurations"],
 "random histories of create/assign/optimizer-step/read over several live variables (tensor, matrix, batch; float32/float64; trainable or not) in eager mode, tf.function and v1 graph mode with sessions and nested scopes; functions get_variable, assign",
 "tests do one assignment of one variable and a fixed reuse scenario",
 ["t3f/variables.py", "t3f/tensor_train_base.py"],
 [("one tf variable per core, registry collection", "t3f/variables.py:get_variable"), ("core-wise assign", "t3f/variables.py:assign")],
 ["values read through full after each step", "variable collections"],
 state=[("TensorTrainVariables", "collection of created TT variables by name", "t3f/variables.py")])

prop("C18", "The TT dense layer is an ordinary trainable dense layer",
 "The layer computes activation(x W + b), where W is the dense form of its TT-matrix and b its bias (or absent), for any number of rows. All cores and the bias are trainable weights of the layer: they are reported, counted, receive the gradients of the equivalent dense layer, are updated by fitting, and survive saving/restoring weights. Different layers are independent, initial values follow the requested kernel initializer and bias value.",
 ["inputs", "histories", "configurations"],
 "input/output factorizations of 1..4 dims, ranks as number or list, activations, with/without bias, kernel initializers glorot/he/lecun, bias value; stand-alone, in Sequential/functional models, in tf.function, after fit with several optimizers; class nn.KerasDense",
 "the test only compares the forward pass of one configuration (and passes although Keras did not train the layer at all)",
 ["t3f/nn.py"],
 [("matmul by TT-matrix, bias, activation", "t3f/nn.py:KerasDense.call"), ("registration of cores and bias", "t3f/nn.py:KerasDense.__init__")],
 ["layer outputs, weights lists, weights after training"])

prop("C19", "Reported shapes, ranks, dtype and batch size always match the cores",
 "Every TT object, constructed or returned by any operation, reports a shape, raw shape, TT-ranks, number of dimensions, batch size, dtype and tensor/matrix kind that agree with its actual cores: neighbouring ranks match, boundary ranks are one, all cores share dtype and batch size, and static and dynamic shape queries agree. Constructing an object from cores that violate this, or that contradict an explicitly given shape, ranks or batch size, is refused.",
 ["inputs", "programs"],
 "objects returned by every public operation on random inputs (tensor/matrix/batch, 1..6 cores, eager and traced), and constructor calls with one defect injected (bad boundary rank, mismatched neighbours, dtype mix, wrong shape/rank/batch arguments, wrong number of axes)",
 "tests check metadata only of a few constructors; operations pass rank/shape metadata by hand and stale metadata is invisible to value tests",
 ["t3f/tensor_train_base.py", "t3f/tensor_train.py", "t3f/tensor_train_batch.py", "t3f/shapes.py", "t3f/ops.py"],
 [("constructor validation", "t3f/tensor_train.py:_are_tt_cores_valid, t3f/tensor_train_batch.py:_are_batch_tt_cores_valid"),
  ("static metadata passed to constructors by each operation", "t3f/ops.py and others"), ("shape queries", "t3f/shapes.py")],
 ["every constructed TT object (constructor wrapper)", "public metadata accessors"])

prop("C20", "Traced functions give the same results as eager calls",
 "Calling an operation inside a compiled function or in a graph run by a session, with static shapes or with a batch of size unknown at tracing time where batches are supported, returns the same values as calling it eagerly on the same inputs, and a compiled function called again with other values or another batch size uses the new values. Values are equal up to rounding and objects keep their kind.",
 ["inputs", "configurations", "programs"],
 "all public operations x tensor/matrix/batch inputs traced by tf.function with static shapes or built from placeholders in a v1 graph, and batch-capable ones with batch dimension None called with two different batch sizes",
 "the suite's graph-mode variants are skipped under TF2, so nothing is traced",
 ["t3f/ops.py", "t3f/shapes.py", "t3f/batch_ops.py", "t3f/riemannian.py", "t3f/decompositions.py"],
 [("lazy shape helpers choosing static or dynamic shapes", "t3f/shapes.py:lazy_*"), ("dynamic batch handling", "t3f/ops.py:multiply and others")],
 ["results of traced calls"])

prop("C21", "Operations have no side effects and are deterministic",
 "No operation changes its arguments (TT objects, their cores and metadata, arrays, lists, variables), global random or library state, or previously returned results. Repeating a call on the same inputs gives bit-identical results, whatever other operations ran in between and whether calls run sequentially or from several threads at once.",
 ["histories", "schedules", "programs"],
 "random call histories over all public operations with shared arguments incl. variables and caller-owned lists/arrays, replayed in another order and concurrently from 4 threads; random initializers excluded from repetition but included in isolation",
 "tests build fresh inputs for each call and never look at them afterwards",
 ["t3f/ops.py", "t3f/decompositions.py", "t3f/riemannian.py", "t3f/approximate.py", "t3f/batch_ops.py", "t3f/initializers.py"],
 [("copying core lists before editing", "t3f/ops.py:multiply,renormalize_tt_cores, t3f/decompositions.py"), ("no module-level caches", "t3f/*")],
 ["fingerprints of arguments before/after every call", "bitwise results of repeated calls"])

prop("C22", "Differentiating through operations gives the true gradients",
 "The gradient, by TensorFlow's automatic differentiation, of any scalar computed from TT operations that are documented as differentiable equals the derivative of the corresponding function of the dense values with respect to every core entry (and to dense operands and scalars). No core silently gets a missing or zero gradient.",
 ["inputs", "programs"],
 "random linear/quadratic functionals of full, add, -, multiply, scaling, matmul (TT and dense), transpose, flat_inner, norms with differentiable=True, bilinear forms, gram matrices, gather_nd, slicing, concat/weighting along batch, cast, renormalize; tensor/matrix/batch",
 "no test differentiates through operations with respect to cores",
 ["t3f/ops.py", "t3f/batch_ops.py", "t3f/tensor_train.py"],
 [("operations composed only of differentiable tf ops", "t3f/ops.py")],
 ["gradients returned by tf.GradientTape"])

prop("C23", "The floating-point type of the data is preserved and fully used",
 "Operations on float64 (float32) objects return float64 (float32) objects with errors at the level of that type's rounding, also when combined with python numbers, numpy scalars or default arguments. Casting changes only the dtype, rounding each core entry as the target type does. Mixing objects of different types is refused rather than silently converted.",
 ["inputs", "configurations"],
 "all public operations on float64 and float32 inputs, values that need the full mantissa, scalars given as python/numpy/tf numbers, casts float64->float32->float64; initializers with explicit dtype",
 "test tolerances (1e-5 and above even for float64) accept computation in float32 inside a float64 pipeline",
 ["t3f/ops.py", "t3f/decompositions.py", "t3f/riemannian.py", "t3f/initializers.py", "t3f/utils.py"],
 [("dtype taken from arguments everywhere", "t3f/*.py"), ("cast", "t3f/ops.py:cast")],
 ["dtype and error of results"])

prop("C24", "Regularizers compute the stated penalties",
 "The L2 regularizer returns scale times the squared Frobenius norm of the tensor, the core-wise regularizer returns scale times the sum of the given penalty over all cores, for tensors, matrices and variables, differentiably for the core-wise one. A zero scale disables them, and negative or integer scales are refused.",
 ["inputs", "configurations"],
 "scales in (0, 10], numpy/python floats and tensors, TT-tensors/TT-matrices with 1..6 cores, several core penalties, use through get_variable; functions l2_regularizer, cores_regularizer",
 "the existing tests exercise l2/core regularizers on one matrix, partly skipped under TF2",
 ["t3f/regularizers.py", "t3f/variables.py"],
 [("closures over scale", "t3f/regularizers.py")],
 ["returned penalty", "regularization-loss collection"])

prop("C25", "Malformed input is refused, never answered with a wrong value",
 "Calling an operation with incompatible arguments - different mode sizes or numbers of cores, a tensor where a matrix is needed, batches that cannot be broadcast, out-of-range or wrongly sized indices, invalid ranks or shapes, mismatched dtypes, non-Kronecker matrices, unknown options - raises an exception instead of returning a value. The same call with the defect removed succeeds.",
 ["inputs"],
 "pairs of a valid call and the same call with one injected defect for every public operation with documented argument requirements",
 "a few assertRaises exist for constructors and shapes; most argument checks have none",
 ["t3f/ops.py", "t3f/batch_ops.py", "t3f/riemannian.py", "t3f/decompositions.py", "t3f/initializers.py", "t3f/approximate.py", "t3f/kronecker.py", "t3f/nn.py"],
 [("explicit argument checks", "t3f/ops.py:add,multiply,tt_tt_matmul,...; t3f/initializers.py:_validate_input_parameters; t3f/riemannian.py")],
 ["exception or value of each call"])

prop("C26", "Shape queries and small utilities report the truth",
 "Shape, raw shape, TT-rank and batch-size queries, static or dynamic, agree with the dense array, adding and removing a batch axis are inverse and keep the value, the broadcasting test is true exactly for broadcastable batch sizes, cleaning a shape accepts every documented form, and the multi-index of a flat index is that of row-major order. Exactly the objects made of variables report to be variables.",
 ["inputs", "configurations"],
 "objects of all kinds with 1..8 cores (eager and traced with unknown batch size), shapes up to products beyond 2^31 where 64-bit indices are used; functions shape, raw_shape, tt_ranks, batch_size, lazy_*, is_variable, expand_batch_dim, squeeze_batch_dim, is_batch_broadcasting_possible, clean_raw_shape, utils.unravel_index, utils.in_eager_mode, utils.replace_tf_svd_with_np_svd",
 "tests cover unravel_index on one shape and shapes of one tensor",
 ["t3f/shapes.py", "t3f/utils.py"],
 [("static-or-dynamic helpers", "t3f/shapes.py"), ("unravel_index", "t3f/utils.py:unravel_index")],
 ["returned values"])

prop("C27", "Operations work on tensors far too large to materialise",
 "Operations other than conversion to dense form work, with right results and with intermediate tensors of size polynomial in the number of cores, mode sizes and ranks, on TT objects whose dense form has up to 10^60 entries. In particular nothing overflows integer index arithmetic or allocates memory proportional to the dense size.",
 ["inputs"],
 "20..120 cores of sizes 2..10, ranks 1..6, tensors, matrices and batches; functions add, multiply, scale, flat_inner, norms, matmul (TT), transpose, bilinear forms, gram_matrix, gather_nd, slicing, round, orthogonalize, renormalize, project, gradients, approximate sums, initializers, kronecker functions, str()",
 "every test uses tensors of at most a few thousand entries, for which a dense detour is invisible",
 ["t3f/ops.py", "t3f/decompositions.py", "t3f/riemannian.py", "t3f/shapes.py"],
 [("core-by-core algorithms", "t3f/*.py")],
 ["size of every tensor produced while an operation runs (op callback)", "values compared at random entries / by rank-one probes"])

prop("C28", "Arbitrary compositions of operations agree with dense computation",
 "Any finite program over the public operations, feeding results of operations into further operations, computes what the same program computes on dense arrays, within rounding (and within the guaranteed error for rounding with a rank bound, here only non-restrictive bounds). Intermediate results stay valid inputs for every later operation.",
 ["programs", "histories"],
 "random straight-line programs of 4..14 steps over a pool of TT-tensors, TT-matrices and batches with operations add, -, scale, multiply, matmul, transpose, slicing, gather, round, orthogonalize, renormalize, cast, concat, batch select, expand/squeeze, project, inner products, variables",
 "tests apply operations to freshly generated objects only, so wrong metadata or hidden state left in a result is never consumed",
 ["t3f/ops.py", "t3f/tensor_train_base.py", "t3f/tensor_train.py", "t3f/tensor_train_batch.py", "t3f/decompositions.py", "t3f/batch_ops.py", "t3f/riemannian.py", "t3f/shapes.py"],
 [("metadata and cores carried by results", "t3f/tensor_train*.py")],
 ["dense value of every intermediate result"])

prop("C29", "Sizes unknown when a function is compiled do not change results",
 "Inside a compiled function whose arguments have TT-ranks or mode sizes unknown at tracing time, every operation either is refused while tracing or returns, for all actual sizes, the values it returns eagerly, and the same compiled function works for arguments of different sizes. The operations which do not need these sizes in advance (arithmetic, products, inner products, norms, rounding, orthogonalization, decomposition of dense tensors, indexing, projections) are never refused, and the size queries report true sizes.",
 ["inputs", "configurations", "programs"],
 "all public operations x tensors/matrices/batches traced with all, some or no TT-ranks, mode sizes and batch sizes unknown, called again with other sizes; chains of 2..4 operations; decomposition of dense tensors of partly unknown shape; static and dynamic size queries",
 "the suite runs eagerly, where every size is known; its graph-mode variants are skipped under TF2",
 ["t3f/shapes.py", "t3f/decompositions.py", "t3f/ops.py", "t3f/tensor_train.py", "t3f/tensor_train_batch.py", "t3f/tensor_train_base.py"],
 [("static-or-dynamic sizes", "t3f/shapes.py:lazy_*"), ("dynamic ranks in decompositions", "t3f/decompositions.py"), ("validation of cores with unknown sizes", "t3f/tensor_train.py:_are_tt_cores_valid")],
 ["results of traced calls", "reported sizes"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
