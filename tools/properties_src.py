"""Source of properties.jsonl (python3 tools/properties_src.py > properties.jsonl)."""
import json

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=[('kernelmethods/' + f) for f in files],
                     state=[dict(name=n, meaning=m, where='kernelmethods/' + w)
                            for n, m, w in state],
                     mechanism=[dict(name=n, where='kernelmethods/' + w)
                                for n, w in mech],
                     observe_at=list(observe), hook_needed=None)))


prop('C01', 'Numeric kernel functions compute their documented formula',
     'For any two real vectors of equal length, every numeric kernel (linear, polynomial, '
     'Gaussian, Laplacian, chi-squared, sigmoid, Hadamard) returns a real scalar equal, up to '
     'rounding, to its documented formula for the parameters given at construction, and the '
     'same value when the two vectors are swapped. This holds whatever container (list, tuple, '
     '1D array, column array), integer or floating point type, or memory layout the vectors '
     'come in, and with input checks skipped for float arrays; features where both chi-squared '
     'or Hadamard terms are 0/0 contribute nothing.',
     ['inputs', 'configurations'],
     'all pairs of equal-length finite real vectors (non-negative for chi-squared), all numeric '
     'dtypes and containers, all valid parameter values',
     'Tests only check that a number comes back and that k(x,y)==k(y,x) for three random '
     'uniform vectors per kernel; no test compares a value with the formula, and none uses '
     'integers, lists, zeros or negative values.',
     ['numeric_kernels.py', 'utils.py'],
     [('__call__ of each kernel class', 'numeric_kernels.py'),
      ('check_input_arrays / ensure_ndarray_1D', 'utils.py'),
      ('_ensure_min_eps clamps of sigma and gamma', 'utils.py')],
     observe=['return value of kernel(x, y)'])

prop('C02', 'Kernel functions reject malformed input instead of returning a number',
     'A kernel function given vectors of different lengths, multi-dimensional arrays, or data of '
     'the wrong kind (not convertible to numbers for numeric kernels, non-string for categorical kernels, '
     'negative values for the chi-squared kernel) raises an exception, in either argument '
     'position, and never returns a value. A Hadamard kernel can not be built with a zero '
     'exponent, and a custom kernel or kernel matrix can not be built from something that is not '
     'a callable of at least two arguments or not a kernel function.',
     ['inputs'],
     'all malformed pairs: every length mismatch, extra dimension, non-numeric dtype, position '
     'of a negative value, invalid constructor argument',
     'Tests try one mismatch and a couple of fixed invalid values; a check dropped for one '
     'argument position, one kernel or one dtype is not sampled.',
     ['numeric_kernels.py', 'categorical.py', 'utils.py', 'base.py'],
     [('check_input_arrays, ensure_ndarray_*', 'utils.py'),
      ('Chi2Kernel negative value check', 'numeric_kernels.py'),
      ('_check_categorical_arrays', 'categorical.py'),
      ('check_callable, KernelMatrix constructor type checks', 'utils.py')],
     observe=['exceptions raised'])

prop('C03', 'Any selection of a kernel matrix equals the kernel on the selected rows',
     'Indexing a kernel matrix attached to a sample X (or to two samples X and Y) with a pair of '
     'integers, slices or collections of integers returns a dense matrix whose rows and columns '
     'are the distinct selected samples in ascending order, each entry being the (unnormalized) '
     'kernel function evaluated on row i of X and row j of X (or Y). A single integer selects the '
     'element at that position in row-major order. This holds for every kernel, sample size and '
     'selection, including the whole matrix, and regardless of whether normalization is on.',
     ['inputs', 'configurations'],
     'all kernels, all one- and two-sample attachments (square, wide and tall), all valid index '
     'expressions',
     'Tests check the shape of one random sub-block, and five elements of a 40x45 two-sample '
     'matrix; the values of one-sample selections, negative/strided slices, unordered or repeated '
     'indices and linear indices are never compared.',
     ['base.py'],
     [('KernelMatrix.__getitem__, _get_indices_in_sample, _compute_for_index_combinations',
       'base.py'),
      ('KernelMatrix._eval_kernel (upper-triangle cache)', 'base.py')],
     [('_KM', 'cache of evaluated kernel values', 'base.py')],
     ['KernelMatrix[...]'])

prop('C04', 'Every view of a kernel matrix is right whatever was accessed before',
     'After any history of attaching to one or two samples, re-attaching, indexing and reading '
     'attributes, each view of a kernel matrix reflects the current sample(s) only: the full '
     'matrix is a dense array equal to the Gram matrix (cosine-normalized if normalization is '
     'on), the sparse view is the upper triangle of the matrix when normalization is off, and '
     'the diagonal, the normalized and the centered matrix, the Frobenius norm, size, length, shape and number '
     'of samples match the same Gram matrix. Centered and diagonal views are refused for two '
     'samples, and centering and the norm always refer to the unnormalized matrix.',
     ['histories', 'inputs', 'configurations'],
     'all sequences of attach_to / [] / full / full_sparse / diagonal / normed_km / normalize / '
     'centered / center / frob_norm / size queries',
     'Each test makes one access on a fresh object; order-dependent corruption (for example the '
     'sparse view requested before the full one) is outside what they reach.',
     ['base.py', 'operations.py'],
     [('KernelMatrix._reset on attach_to', 'base.py'),
      ('KernelMatrix._populate_fully and the populated/filled/normed/centered flags', 'base.py')],
     [('_full_km, _normed_km, _centered, _frob_norm', 'derived values cached per attachment',
       'base.py')],
     ['KernelMatrix.full, full_sparse, diagonal(), normed_km, centered, frob_norm, size, shape'])

prop('C05', 'Kernel values are computed lazily and at most once per attachment',
     'Between two attachments, a kernel matrix evaluates the kernel function at most once for '
     'each pair of samples (each unordered pair when attached to a single sample), however many '
     'times and in whatever forms its content is accessed. Accessing a part of the matrix, or its '
     'diagonal, evaluates only the pairs it consists of, and attaching, printing or querying '
     'sizes and attributes evaluates nothing; normalizing a two-sample matrix may additionally '
     'evaluate each sample with itself once.',
     ['histories'],
     'all sequences of accesses on one- and two-sample matrices',
     'One test counts evaluations after a single full access on a fresh one-sample matrix; '
     'sequences mixing partial and full access, or two samples, are not counted.',
     ['base.py'],
     [('KernelMatrix._eval_kernel cache', 'base.py'),
      ('comment in _reset: number of kernel evals never above n(n+1)/2', 'base.py')],
     [('_KM', 'cache keyed by (i, j) with i<=j for one sample', 'base.py')],
     ['calls received by the user-supplied kernel function'])

prop('C06', 'A failed operation on a kernel matrix never leads to wrong values later',
     'If the kernel function raises during any access, or attaching is rejected because of an '
     'invalid sample, or normalization is impossible, the operation raises and the kernel matrix '
     'stays usable: every later access either raises or returns the correct values for the '
     'sample(s) of the last successful attachment, and succeeds once the cause is gone. Rejected '
     'attachments change nothing.',
     ['fault_sequences', 'histories'],
     'all access sequences with kernel failures injected at any evaluation, and with rejected '
     'attachments or normalizations in between',
     'No test makes a kernel fail or continues using a matrix after an error.',
     ['base.py'],
     [('_populate_fully error handling', 'base.py'),
      ('attach_to validating before assigning', 'base.py'),
      ('normalize setting its flag last', 'base.py')],
     [('_full_km, _populated_fully', 'partially filled state after an exception', 'base.py')],
     ['values and exceptions of later accesses'])

prop('C07', 'Invalid indices into a kernel matrix are always refused',
     'Indexing a kernel matrix (computed or constant, one or two samples) with an out-of-range or '
     'negative integer, an empty selection, strings, non-integer indices (for computed '
     'matrices), or anything other than one integer or exactly two index expressions raises an exception - an access error from '
     'this library for out-of-range, empty, string and wrong-arity indices - and never returns '
     'data. Bounds are those of the respective dimension when attached to two samples, and the '
     'matrix remains correct afterwards.',
     ['inputs'],
     'all invalid index expressions in either dimension, for every matrix shape',
     'Tests use a square matrix and a few fixed bad indices; a check against the wrong dimension '
     'of a rectangular matrix is invisible to them.',
     ['base.py'],
     [('KernelMatrix.__getitem__ / _get_indices_in_sample', 'base.py'),
      ('ConstantKernelMatrix.__getitem__ / _get_indices_in_sample', 'base.py')],
     observe=['exceptions of KM[...]'])

prop('C08', 'Cosine normalization is exact, idempotent and scale-free',
     'Cosine normalization of a square kernel matrix divides each entry by the square root of the '
     'product of the two diagonal entries: the result has a unit diagonal, is unchanged by '
     'normalizing again or by rescaling the input with positive per-sample factors, and for a '
     'PSD matrix has entries within [-1, 1]. The two-sample form divides K(x,y) by '
     'sqrt(k(x,x) k(y,y)), so that it agrees with the corresponding block of the normalized '
     'matrix of the pooled sample, also through a normalized kernel matrix attached to two '
     'samples. A (near) zero diagonal is refused with a normalization error, a non-square or '
     'mismatched input with ValueError, and an unknown method with NotImplementedError.',
     ['inputs'],
     'all square matrices with positive diagonal, all rectangular blocks with positive '
     'diagonals, all kernels and samples',
     'Tests check the unit diagonal of one matrix and that errors are raised for a few fixed '
     'inputs; no off-diagonal or two-sample value is compared.',
     ['operations.py', 'base.py'],
     [('normalize_km, normalize_km_2sample', 'operations.py'),
      ('KernelMatrix.normalize', 'base.py')],
     observe=['normalize_km, normalize_km_2sample, KernelMatrix.full / normed_km'])

prop('C09', 'Centering a kernel matrix equals centering in feature space',
     'Centering a square kernel matrix K yields (I-J)K(I-J), J having all entries 1/n: all row '
     'and column sums vanish, centering again changes nothing, adding a constant (or any '
     'row-constant plus column-constant matrix) to K does not matter, it is linear in K, '
     'preserves symmetry and positive semi-definiteness, and for the linear kernel equals the '
     'kernel of the mean-centered sample. Non-square input or a non-array is refused with '
     'ValueError.',
     ['inputs'],
     'all square real matrices, in floating point or integers, of any size',
     'Tests check only the shape of one centered matrix.',
     ['operations.py', 'base.py'],
     [('center_km', 'operations.py'), ('KernelMatrix.center / centered', 'base.py')],
     observe=['center_km, KernelMatrix.centered'])

prop('C10', 'Frobenius products and centered alignment obey their definitions',
     'The Frobenius product is the sum of element-wise products and the norm is the square root '
     'of the product with itself. Centered alignment is the Frobenius product of the two centered '
     'matrices divided by their norms (or of the given matrices, if declared centered already): '
     'symmetric, 1 for a matrix with itself, within [-1, 1], and unaffected by positive rescaling '
     'or by adding constants. When a centered norm is (near) zero it raises ValueError, or '
     'returns exactly the requested value with a warning; matrices of different shapes are '
     'refused with ValueError.',
     ['inputs'],
     'all pairs of equally sized real matrices, including non-symmetric, integer and degenerate '
     'ones',
     'Tests compare one 2x2 product and otherwise only run alignment_centered without looking at '
     'its value.',
     ['operations.py'],
     [('frobenius_product, frobenius_norm, alignment_centered', 'operations.py')],
     observe=['return values and exceptions'])

prop('C11', 'Positive semi-definiteness verdicts are correct',
     'The PSD test accepts a symmetric matrix exactly when its smallest eigenvalue is not below '
     'minus the tolerance, and answers False for non-square, non-symmetric or non-finite '
     'matrices; input that is not an array raises TypeError. Gram matrices of the linear, '
     'polynomial (non-negative gamma and intercept), Gaussian, Laplacian, chi-squared and '
     'match-count kernels pass it for every sample, normalized or not.',
     ['inputs'],
     'all matrices with a known spectrum (away from the threshold), all samples and valid kernel '
     'parameters',
     'Tests use four fixed matrices and one random uniform sample per kernel; tolerance handling '
     'and indefinite matrices with a single small negative eigenvalue are barely touched.',
     ['operations.py', 'base.py', 'numeric_kernels.py', 'categorical.py'],
     [('is_positive_semidefinite', 'operations.py'), ('BaseKernelFunction.is_psd', 'base.py')],
     observe=['is_PSD(matrix), kernel.is_psd()'])

prop('C12', 'A kernel set behaves as an ordered list of size-compatible kernel matrices',
     'Through any sequence of append, extend, take, indexing, iteration and attaching, a kernel '
     'set holds exactly the matrices added, in order and by identity; its size, length and number '
     'of samples agree with them, and selections return the chosen matrices or kernel functions '
     'in the order and multiplicity requested. Anything with a different number of samples, an '
     'invalid matrix, or an out-of-range or non-integer index is refused with the set left '
     'unchanged. Attaching the set attaches every member to that sample, and a sample of another '
     'size is refused once the size is known.',
     ['histories', 'inputs'],
     'all operation sequences on kernel sets of computed (one-/two-sample) and precomputed '
     'matrices',
     'Tests perform one operation each on a fixed set of three kernels and never compare '
     'contents.',
     ['base.py'],
     [('KernelSet.append / extend / take / __getitem__ / __iter__ / _check_indices / attach_to',
       'base.py')],
     [('_km_set, _num_samples, _is_init', 'members and required size', 'base.py')],
     ['KernelSet public API'])

prop('C13', 'User-defined attributes belong to one matrix and one attachment',
     'An attribute set on a kernel matrix is returned with its latest value until the matrix is '
     'attached again, which discards all attributes; unset names give the requested default, and '
     'no attribute leaks to another matrix. For a kernel set, a scalar, string or single-element '
     'collection is assigned to every member and a collection of matching length is assigned '
     'element by element (any other length is refused with ValueError); reading returns one value '
     'per member in order, and attaching with an attribute sets it on every member.',
     ['histories'],
     'all interleavings of set_attr, get_attr, attributes, attach_to on matrices and sets',
     'Tests set two attributes once; clearing on re-attachment, isolation and defaults across '
     'histories are not covered.',
     ['base.py'],
     [('KernelMatrix.set_attr / get_attr / attributes / _reset', 'base.py'),
      ('KernelSet.set_attr / get_attr / attach_to', 'base.py')],
     [('_attr', 'attribute dict of a matrix', 'base.py')],
     ['get_attr, attributes'])

prop('C14', 'Composite kernels and linear combinations equal the element-wise formulas',
     'Fitting a sum, product, average or weighted-average kernel on a set of two or more kernel '
     'matrices, or computing a linear combination, gives exactly the element-wise (weighted) sum, '
     'product or mean of the members\' full matrices, pairing the k-th weight with the k-th '
     'member and using weights as given unless normalization of weights is requested. The '
     'members are left unchanged, results are independent of what was accessed before and of '
     'repeated fitting, the result is refused before fitting, a fit that fails never leaves a '
     'partial result behind, and a wrong number of weights, a '
     'zero sum of weights to be normalized, or a set that is too small is refused.',
     ['inputs', 'histories'],
     'all kernel sets (computed, precomputed, mixed, normalized or not), all weights, all prior '
     'access histories; two-sample sets for linear combinations',
     'Tests only check that the result attributes exist, and the linear combination only for '
     'all-zero weights.',
     ['base.py', 'operations.py'],
     [('SumKernel / ProductKernel / AverageKernel / WeightedAverageKernel.fit', 'base.py'),
      ('linear_combination', 'operations.py')],
     observe=['composite_KM, full, linear_combination()'])

prop('C15', 'A kernel bucket contains exactly the requested kernels, in order',
     'A kernel bucket starts with the linear kernel followed by one kernel matrix per requested '
     'value of the polynomial degree, Gaussian sigma, Laplacian gamma, sigmoid gamma and sigmoid '
     'offset, in that order, each carrying that parameter value and the requested normalization '
     'setting, and other parameters at their defaults. Adding parametrized kernels appends one '
     'matrix per usable value in order, skipping unusable values with a warning, and rejects '
     'non-kernels and empty or non-iterable values without changing the bucket. The named '
     'strategies build the documented parameter grids, an unknown strategy is refused, and an '
     'existing bucket is returned as is.',
     ['inputs', 'configurations', 'histories'],
     'all combinations of parameter lists, flags and strategies, and sequences of additions',
     'Tests only check that constructors run and that invalid arguments raise; the contents of a '
     'bucket are never inspected.',
     ['sampling.py', 'config.py'],
     [('KernelBucket.__init__ / add_parametrized_kernels, make_kernel_bucket', 'sampling.py'),
      ('default_* and light_* parameter ranges', 'config.py')],
     observe=['iteration over the bucket, kernel parameters, full matrices'])

prop('C16', 'Ranking scores are faithful and the optimal kernel has the best score',
     'Ranking returns one score per kernel matrix, in order: for alignment, the centered '
     'alignment with the outer product of the targets (0 when undefined because of a zero norm); '
     'for cross-validation, the best CV performance over the penalty grid of a precomputed-kernel '
     'SVM classifier or regressor, min-max scaled to 0-100 (all 0 when equal). The optimal kernel '
     'is one attached to the given sample with the maximal defined score - never one whose score '
     'is undefined because its matrix is not finite, which also does not disturb the scores of '
     'others. Parameters of the method (number of folds, estimator, value for a zero norm) are '
     'honoured; unknown methods and inputs that are not kernel buckets are refused.',
     ['inputs', 'configurations'],
     'all buckets, samples, targets (binary, multi-class, real), both methods, numbers of folds',
     'The only test ranks with constant targets and checks the number of dimensions of the '
     'result; cross-validation ranking and the selection are never compared with anything.',
     ['ranking.py', 'utils.py', 'operations.py'],
     [('rank_kernels, alignment_ranking, CV_ranking, find_optimal_kernel, get_estimator',
       'ranking.py'), ('min_max_scale', 'utils.py')],
     observe=['scores, selected kernel matrix'])

prop('C17', 'Kernel similarity measures obey their definitions',
     'The ideal kernel of targets y has entries y_i*y_j. The correlation of two kernel matrices '
     'is the Pearson correlation of all their entries: symmetric, within [-1, 1], 1 with itself '
     'and invariant to positive affine changes. The pairwise similarity of a collection is a '
     'symmetric matrix whose (i,j) entry is the correlation or the centered alignment of matrices '
     'i and j as they appear in the set (0 alignment for a degenerate one), including a unit '
     'diagonal for non-degenerate matrices.',
     ['inputs'],
     'all targets (any numeric type), all pairs of matrices, all kernel sets, both metrics',
     'Tests check shapes and one bound only.',
     ['sampling.py', 'operations.py'],
     [('ideal_kernel, correlation_km, pairwise_similarity', 'sampling.py')],
     observe=['return values'])

prop('C18', 'Kernel machines predict as an SVM trained on the given kernel',
     'A fitted kernel machine (classifier or regressor), for any kernel function and normalization '
     'setting, predicts what the corresponding support vector machine with a precomputed kernel '
     'predicts when trained on the Gram matrix of the training data (with the given sample '
     'weights) and applied to the kernel between test and training data. Each prediction depends '
     'only on its own row - not on the other rows, their order or earlier predictions - has the '
     'type of the training targets (floating point for regressors), and classifiers predict one of the training labels (numeric '
     'or string), exposed as classes.',
     ['inputs', 'configurations'],
     'all training sets, targets, kernels, weights, normalization settings and test batches',
     'Tests only check the shape of predictions.',
     ['algorithms.py', 'base.py', 'ranking.py'],
     [('BaseKernelMachine.fit / predict', 'algorithms.py'),
      ('attach_to(test, train) giving K(test, train)', 'base.py'),
      ('get_estimator', 'ranking.py')],
     observe=['predict(), classes_, score()'])

prop('C19', 'Optimal-kernel estimators train on the best kernel and predict with it',
     'Fitting an optimal-kernel classifier or regressor selects from its bucket (given or named '
     'strategy) a kernel with the maximal score on the training data for the chosen method, and '
     'its predictions are those of an SVM with the given penalty (and epsilon for regression) '
     'trained on that kernel\'s matrix of the training data, with the given sample weights, and '
     'applied to the kernel between test and training data. Each prediction depends only on its '
     'own row, is a training label for the classifier, and the bucket supplied by the user is not '
     'altered; invalid buckets are refused with ValueError.',
     ['inputs', 'configurations', 'histories'],
     'all training sets, targets, buckets, ranking methods, penalties and test batches',
     'Tests fit on a bucket with only the linear kernel and check the shape of predictions; '
     'selection, training kernel and method are not observed.',
     ['algorithms.py', 'ranking.py', 'sampling.py'],
     [('BaseOptimalKernelMachine.fit / predict', 'algorithms.py'),
      ('find_optimal_kernel', 'ranking.py')],
     observe=['opt_kernel_, predict()'])

prop('C20', 'Estimators follow the scikit-learn life cycle',
     'For every estimator, parameters given at construction or set later are returned unchanged '
     'by get_params, survive cloning, and take effect at the next fit; fit returns the estimator, '
     'and predicting before fitting raises NotFittedError. After any sequence of parameter '
     'changes, fits and predictions, a newly fitted estimator predicts as a fresh one built with '
     'the same parameters and data - nothing from earlier fits or predictions remains - and works '
     'in cross-validation and grid search like its manual equivalent; classifiers and regressors '
     'are recognized as such.',
     ['histories', 'configurations'],
     'all sequences of construct / set_params / fit / predict / clone, all parameter values',
     'Tests call fit and predict once per estimator; set_params is called once without looking at '
     'its effect.',
     ['algorithms.py'],
     [('get_params / set_params / __init__ of each estimator', 'algorithms.py'),
      ('fit rebuilding all state', 'algorithms.py')],
     [('_km, _estimator, _train_X, opt_kernel_', 'state kept from the last fit',
       'algorithms.py')],
     ['get_params, predict, clone, cross_val_score'])

prop('C21', 'Precomputed and constant kernel matrices represent exactly the given values',
     'A precomputed kernel matrix accepts exactly the real, symmetric, square 2D inputs (arrays or '
     'nested lists) and refuses all others with ValueError; its full matrix, diagonal, size, '
     'number of samples and every numpy-style selection equal those of the given matrix, invalid '
     'selections raising an access error. A constant kernel matrix of n samples behaves as an '
     'n-by-n matrix filled with its value and type: full matrix, diagonal, shape, size and every '
     'selection of distinct in-range indices have the right shape and value.',
     ['inputs'],
     'all matrices (valid or not), all selections, all constants, sizes and types',
     'Tests use one random matrix and a handful of invalid ones.',
     ['base.py', 'utils.py'],
     [('KernelMatrixPrecomputed', 'base.py'), ('ConstantKernelMatrix', 'base.py'),
      ('not_symmetric', 'utils.py')],
     observe=['full, diag, size, num_samples, [...]'])

prop('C22', 'Every object has a printable form that identifies its configuration',
     'str(), repr() and format() of any kernel function, kernel matrix, set, bucket or composite '
     'kernel return the same non-empty string in every state (before and after attaching or '
     'fitting) and never raise. The text of a kernel shows its name and the values of its '
     'documented parameters; that of a kernel matrix includes its name, its kernel and, once '
     'attached, the normalization setting, sample name(s) and sample shape(s); that of a set '
     'includes its name, size and each member; and that of a composite its name and members.',
     ['inputs', 'histories', 'configurations'],
     'all kernels with all parameter values, all containers in all states',
     'No test looks at a representation.',
     ['base.py', 'numeric_kernels.py', 'categorical.py'],
     [('__str__ / __format__ / __repr__ of each class', 'base.py')],
     observe=['str(obj), repr(obj), format(obj)'])

prop('C23', 'Categorical and custom kernels are first-class kernels',
     'The match-count kernel returns the number of positions at which two equal-length sequences '
     'of strings agree (divided by their length for the percentage form), for lists and string '
     'arrays of any width. A kernel made from any Python callable of two vectors passes it the '
     'rows and bound parameters unchanged and returns its result, and both work throughout: in '
     'kernel matrices (one and two samples, normalized or not), kernel sets attached to such '
     'samples, and composites, giving the values of the underlying function.',
     ['inputs', 'configurations'],
     'all categorical samples, all symmetric callables with all bound parameters',
     'Tests check symmetry and PSD-ness of match counts on random strings that practically never '
     'match, and a single callable without parameters.',
     ['categorical.py', 'base.py'],
     [('MatchCountKernel.__call__', 'categorical.py'),
      ('KernelFromCallable', 'base.py'), ('KernelSet.attach_to', 'base.py')],
     observe=['kernel(x, y), KernelMatrix views'])

prop('C24', 'Non-finite kernel values are reported by a warning, not a crash or silence',
     'When a kernel matrix contains NaN or infinite values, computing the whole matrix, or '
     'normalizing it, for the first time emits this library\'s warning and still returns the matrix with all entries as given by the '
     'kernel (or its normalization); when all values are finite no such warning is emitted. The '
     'helper detecting non-finite values is right for dense and sparse matrices.',
     ['inputs'],
     'all kernels, samples and positions of non-finite values, including custom callables',
     'The corresponding test is empty (pass).',
     ['base.py', 'utils.py', 'operations.py'],
     [('contains_nan_inf and the warnings in _populate_fully / normalize', 'base.py'),
      ('normalize_km', 'operations.py')],
     observe=['warnings, returned matrix'])

prop('C25', 'Inputs are never modified and instances share no state',
     'No kernel evaluation, kernel matrix access, kernel operation, composite, ranking or '
     'estimator call modifies the arrays, lists, weights, targets, kernel matrices or buckets '
     'passed in by the user (except attaching a set, or ranking a bucket on a sample, which '
     'attaches it). Separately created kernel matrices, sets, buckets and estimators are fully '
     'independent, even when they share a kernel function or a sample: operating on one never '
     'changes what another returns.',
     ['histories', 'inputs'],
     'all operations on all input layouts (incl. read-only and non-contiguous arrays), all '
     'interleavings of operations on several instances',
     'Tests never look at inputs after a call nor use two instances side by side.',
     ['base.py', 'operations.py', 'sampling.py', 'ranking.py', 'algorithms.py',
      'numeric_kernels.py'],
     [('out-of-place arithmetic throughout', 'operations.py'),
      ('per-instance caches created in the constructors', 'base.py'),
      ('deepcopy of the bucket in fit', 'algorithms.py')],
     observe=['inputs before/after, views of other instances'])

prop('C26', 'Estimators refuse unusable data and never predict from a failed fit',
     'Fitting any estimator on unusable input (X and y of different lengths, X not a non-empty 2D '
     'array of finite real numbers, undefined targets, a single class for classifiers, sample '
     'weights of the wrong length, an unknown learner, method or bucket, or a kernel function '
     'that raises) raises an exception, and so does predicting on unusable input (another number '
     'of features, not a non-empty 2D array of finite real numbers, or a raising kernel). A failed '
     'prediction does not affect later ones. After a failed fit, predicting either raises or gives '
     'the predictions of the last successful fit; before any successful fit it raises '
     'NotFittedError.',
     ['fault_sequences', 'histories', 'inputs'],
     'all histories of fits and predictions on valid data with unusable inputs and kernel failures '
     'at any point in between',
     'No test calls fit or predict again after a failure, and invalid data are only tried through '
     'a few of scikit-learn\'s own checks.',
     ['algorithms.py', 'base.py'],
     [('BaseKernelMachine.fit / predict', 'algorithms.py'),
      ('BaseOptimalKernelMachine.fit / predict', 'algorithms.py'),
      ('KernelMatrix.attach_to comparing the numbers of features', 'base.py')],
     [('_km, opt_kernel_', 'present only after a successful fit', 'algorithms.py'),
      ('_train_X, _estimator', 'training data and learner of the last fit', 'algorithms.py')],
     ['exceptions and predictions after failures'])

prop('C27', 'Deep copies and pickles are equivalent to and independent of the original',
     'Any kernel function, kernel matrix (computed, precomputed or constant), kernel set, bucket, '
     'fitted composite kernel or estimator, in any state, can be deep-copied, and pickled if its '
     'kernel functions can be. The duplicate prints the same and gives the same values, attributes '
     'and predictions as the original, and afterwards the two are independent: accessing, '
     'attaching, extending or fitting one never changes what the other returns.',
     ['histories', 'configurations'],
     'all objects and states, all histories before and after duplication on either side',
     'No test copies or pickles anything, although fitting with a bucket, cloning and parallel '
     'cross-validation rely on it.',
     ['base.py', 'sampling.py', 'algorithms.py', 'numeric_kernels.py', 'categorical.py'],
     [('instance attributes of all classes (no custom copy protocol)', 'base.py'),
      ('deepcopy of the bucket in fit', 'algorithms.py')],
     observe=['views, text and predictions of both objects'])

prop('C28', 'Input conversion and validation helpers keep values and judge exactly',
     'The conversion helpers turn any list, tuple or array with the required number of dimensions '
     '(trailing singleton dimensions are ignored) into an array of that dimensionality with the '
     'same values and of the requested type, and raise ValueError for any other number of '
     'dimensions, another number of columns than expected, or values that can not be converted; a '
     'pair of vectors is returned in floating point when numeric, and refused when lengths differ. '
     'Min-max scaling maps the smallest value to 0 and the largest to 1 linearly, keeps undefined '
     'values undefined, and maps equal values to 0. The checks for callables, non-string iterables '
     'of a minimum length, and names of kernel matrix operations accept exactly what they describe.',
     ['inputs'],
     'all containers, numeric types, shapes and arguments of the helpers',
     'Tests call three of them with a few fixed arguments and check exceptions only.',
     ['utils.py'],
     [('ensure_ndarray_1D / 2D / size, check_input_arrays, min_max_scale, check_callable, '
       'is_iterable_but_not_str, check_operation_kernel_matrix', 'utils.py')],
     observe=['return values and exceptions'])

prop('C29', 'Optional arguments and named choices mean what is documented',
     'Every optional argument of the public classes and functions may be omitted, given by keyword '
     'or by position in the documented order, to the same effect, an omitted one having its '
     'documented default: the parameters of kernels, normalization (on for kernel matrices and '
     'buckets, off for kernel machines), names, the parameter grids of buckets, tolerance, ranking '
     'method (alignment for ranking, cross-validation with 3 folds for selection), penalty and '
     'others of estimators. Named choices (strategy, ranking and normalization method, learner) '
     'are recognized in any letter case.',
     ['inputs'],
     'all combinations of omitted, positional and keyword arguments of every public callable',
     'Tests call each function with one or two fixed argument lists, mostly by keyword, and do not '
     'compare the outcomes.',
     ['base.py', 'numeric_kernels.py', 'categorical.py', 'sampling.py', 'ranking.py',
      'algorithms.py', 'operations.py'],
     [('constructors and functions with optional arguments', 'base.py'),
      ('KernelBucket, make_kernel_bucket', 'sampling.py'),
      ('find_optimal_kernel, rank_kernels, CV_ranking, get_estimator', 'ranking.py'),
      ('estimator constructors', 'algorithms.py')],
     observe=['values, descriptions, parameters and predictions of the resulting objects'])

prop('C30', 'Results depend on the arguments alone and process-wide state is left alone',
     'Kernel values, matrices and their views, operations, composites, similarities, scores, '
     'buckets, text and predictions are determined by the arguments: they do not depend on what '
     'else was computed before or is being computed on other objects in other threads, on the '
     'state of numpy\'s random generator, hash randomization, working directory, environment, '
     'print options, or whether floating-point warnings are shown. No call changes numpy\'s '
     'error handling or print options, scikit-learn\'s configuration, warning filters, logging, '
     'environment, working directory or other settings of the process, leaves files behind, or '
     'sets a random generator (fitting, cross-validation and PSD checks may draw from numpy\'s).',
     ['schedules', 'histories', 'configurations'],
     'all computations in all orders, in concurrent threads and separate processes, under all '
     'ambient settings',
     'Tests run every computation once, in one thread of one process under default settings, and '
     'never look at process-wide state.',
     ['base.py', 'operations.py', 'sampling.py', 'ranking.py', 'algorithms.py',
      'numeric_kernels.py', 'categorical.py'],
     [('no module-level mutable state; instance caches only', 'base.py'),
      ('get_estimator, CV_ranking', 'ranking.py'),
      ('make_kernel_bucket, pairwise_similarity', 'sampling.py')],
     observe=['values computed again elsewhere; settings of the process before and after calls'])

prop('C31', 'Results follow the data when samples, features, members or names are rearranged',
     'Presenting the same data another way changes results only correspondingly. Reordering, '
     'repeating or leaving out samples gives the correspondingly indexed kernel matrix, '
     'normalized or not, of one or two samples (and swapping the two transposes it), diagonal and '
     'selections; reordering all of them also the centered matrix, and leaves the Frobenius norm, '
     'PSD verdicts, alignment scores and pairwise similarities unchanged. Kernels of numbers do '
     'not depend on the order of the features or on features which are all zero; Gaussian, '
     'Laplacian and chi2 not on features constant across samples; Gaussian and Laplacian not on '
     'shifts; negating, rescaling or duplicating all features acts as the formulas say. Match '
     'counts do not depend on the names of the categories. Reordering the members of a set '
     'reorders scores and similarities and leaves sums, products, averages and combinations '
     'unchanged. Predictions do not depend on the order of the training samples nor on which '
     'other rows are predicted together, and follow targets that are shifted or classes that are '
     'renamed keeping their order (labels where the decision is clear).',
     ['inputs'],
     'all kernels, samples, kernel sets and estimators, and all their rearrangements; values '
     'within forward error bounds',
     'A unit test fixes one arrangement of one sample; these are relations between the results '
     'for pairs of arrangements, over all data.',
     ['numeric_kernels.py', 'categorical.py', 'base.py', 'operations.py', 'sampling.py',
      'ranking.py', 'algorithms.py'],
     [('KernelMatrix._populate_fully, _eval_kernel, diagonal', 'base.py'),
      ('kernel functions\' __call__', 'numeric_kernels.py'),
      ('MatchCountKernel.__call__', 'categorical.py'),
      ('CompositeKernel.fit', 'base.py'), ('pairwise_similarity', 'sampling.py'),
      ('alignment_ranking', 'ranking.py'), ('KernelMachine.predict', 'algorithms.py')],
     observe=['matrices, scores and predictions for two arrangements of the same data'])

if __name__ == '__main__':
    for p in P:
        assert len(p['title']) <= 80, p['title']
        print(json.dumps(p))
