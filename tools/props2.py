# further properties (exec'd by props.py)
prop("C15", "First-order solvers reach the constrained or regularised optimum",
     "The accelerated composite solver (l1-, ordered-l1-regularised and l1-constrained least squares, user-supplied smooth and proximal pairs) and the spectral projected gradient solver return a feasible point whose objective equals the optimum within tolerance, from any start, compiled or not. Reported images, gradients, values and call counts describe the returned point, budgets are respected and iterates stay feasible.",
     ["inputs", "configurations", "histories"], "all convex problems in these classes, starts, step options and budgets",
     "Tests solve one fixed instance per driver.",
     [S + "fom/fom.py", S + "fom/focs_at.py", S + "fom/l1rls.py", S + "fom/lasso.py", S + "fom/owl1rls.py", S + "fom/scd.py", S + "fom/util.py", S + "opt/spg.py"],
     [("Auslender-Teboulle iteration and backtracking", S + "fom/focs_at.py"), ("non-monotone line search", S + "opt/spg.py")],
     "Runtime monitor: optimality-gap oracle against an independent solver, feasibility of every iterate, bookkeeping recomputed from the returned point",
     "two known findings (smoothed conic dual drivers)")
prop("C16", "The l1 solvers (L1-LS, YALL1, FOCUSS) solve the problem they document",
     "The interior-point solver returns a point whose l1-regularised least-squares objective is within the requested relative gap of the optimum, from any start, for any operator. YALL1, on operators with orthonormal rows, returns the (weighted, non-negative, real or complex) minimiser of basis pursuit and its l2-penalised and l2-constrained variants, and treats scaled data, given starts and zero data consistently. FOCUSS follows the documented reweighted least-squares recursion, with and without noise.",
     ["inputs", "configurations", "histories"], "all operators (orthonormal rows for YALL1), data, weights, starts and tolerances",
     "Tests solve one fixed instance per solver with one option set.",
     [S + "cvx/l1ls.py", S + "cvx/adm/yall1.py", S + "cvx/focuss.py"],
     [("truncated Newton interior point", S + "cvx/l1ls.py"), ("ADMM for basis pursuit variants", S + "cvx/adm/yall1.py")],
     "Runtime monitor: optimality-gap oracle against an independent solver, KKT, scaling relations and reference recursion over many instances driven through one compiled solver")
prop("C17", "SPGL1 reaches the basis-pursuit optimum and reports it faithfully",
     "For LASSO the returned point lies in the l1 ball and its objective is within the requested tolerance of the optimum; for basis-pursuit denoising the residual norm meets the requested level and the l1 norm is minimal within tolerance; sigma zero gives basis pursuit. This holds for real and complex data and for starts and user options. Reported residual, gradient, norms, counts of operator applications and status describe the returned point and run, and traces are delivered in order.",
     ["inputs", "configurations", "histories"], "all operators, data (real and complex), tau, sigma, starts and options",
     "Tests solve one or two fixed instances and look at the error of the solution only.",
     [S + "cvx/spgl1.py"],
     [("spectral projected gradient with root finding on the Pareto curve", S + "cvx/spgl1.py")],
     "Runtime monitor: duality-gap oracle against an independent solver, ball and residual constraints, operator-application counting hook, trace order")
prop("C18", "Block sparse Bayesian learning follows its published recursion",
     "The EM and bound-optimisation learners (with and without pruning) hold, after t iterations, the posterior block means, variances, noise level and prior covariance of the published recursion for every noise rule and with or without intra-block correlation. With fixed noise and no correlation each step does not lower the evidence of the hyper-parameters. Pruned blocks vanish from the solution, residuals are faithful, options are honoured, and clean block-sparse signals with comparable blocks are recovered.",
     ["inputs", "configurations", "histories"], "all matrices, block sizes, noise rules, thresholds and budgets away from numerical singularity",
     "Tests recover one fixed signal.",
     [S + "block/bsbl.py", S + "block/util.py"],
     [("EM and bound-optimisation updates", S + "block/bsbl.py")],
     "Runtime monitor: the state after t iterations against an independently written recursion, monotone-evidence checker, recovery oracle")
prop("C19", "k-means is Lloyd's algorithm with restarts",
     "From k distinct data points, every iteration assigns each point to its nearest centroid and moves each centroid to the mean of its points; the run stops exactly when the mean distance improves by no more than the threshold or the budget is spent, and the state after t iterations is Lloyd's. With several restarts the run of least distortion is returned, reproducible from the reported key; separated groups are found; rigid motions and scalings carry the result along. Empty clusters never produce non-finite values.",
     ["inputs", "configurations", "histories"], "all point clouds, numbers of clusters, keys, thresholds and budgets",
     "Tests cluster one easy cloud and look at the labels.",
     [S + "cluster/kmeans.py"], [("Lloyd iteration and restart selection", S + "cluster/kmeans.py")],
     "Runtime monitor: trace specification (state after t steps for t = 0, 1, 2, ...) against Lloyd's algorithm, stopping-time checker, replay by reported key")
prop("C20", "Spectral clustering and clustering error are exact",
     "On graphs whose components are disconnected or weakly joined every spectral method (unnormalised, random walk, fast symmetric, sparse; with given or estimated number of clusters) returns the components, and reports the documented Laplacian or normalised weights, its spectrum and connectivity. The clustering error is the fewest mismatches over all one-to-one matchings of predicted to true labels, whatever the label names and numbers of labels, and label/size/index bookkeeping is consistent.",
     ["inputs", "configurations"], "all label vectors; all graphs with clearly separated components, under vertex order and weight scaling",
     "Tests use two clusters of equal size with perfect labels.",
     [S + "cluster/spectral.py", S + "cluster/util.py"],
     [("Laplacian kernels", S + "cluster/spectral.py"), ("Hungarian matching of labels", S + "cluster/util.py")],
     "Runtime monitor: brute-force matching oracle, planted components, Laplacian and spectrum recomputed by numpy")
prop("C21", "Sparse subspace clustering represents points by other points",
     "SSC-OMP represents every point as the orthogonal-matching-pursuit combination of at most K other points, plain and batched alike for any batch size; residuals are exact and orthogonal to the chosen points, and no point ever represents itself, even with duplicates. Dense, sparse and BCOO forms of a representation and the affinity agree. Angles, inside/outside nearest neighbours, sorted neighbours and preservation statistics equal their definitions; orthogonal subspaces are separated without error.",
     ["inputs", "configurations"], "all point sets (unnormalised, parallel, antipodal, duplicate), sparsity levels and batch sizes",
     "Tests run one random data set and check shapes.",
     [S + "cluster/ssc/omp.py", S + "cluster/ssc/util.py"],
     [("batched OMP over other columns", S + "cluster/ssc/omp.py"), ("preservation statistics and angles", S + "cluster/ssc/util.py")],
     "Runtime monitor: differential oracle (column-wise OMP), defining equations of residuals, statistics and angles, planted subspaces")
prop("C22", "1-bit compressive sensing follows its published recursions",
     "Binary iterative hard thresholding holds after t iterations the K-sparse iterate of the documented recursion, stops exactly when all bits agree or the budget is spent, and reports residual and mismatch count of the returned point; it commutes with column permutation and sign flip and recovers direction from many bits. The renormalised fixed-point iteration stays on the unit sphere, descends the one-sided penalty and follows its recursion with growing penalty weight. Measurements are the signs, blind to scale.",
     ["inputs", "configurations", "histories"], "all sensing matrices, bit vectors (clean or flipped), step sizes and budgets",
     "Tests run one instance; the fixed-point test asserts nothing.",
     [S + "cs/cs1bit/biht.py", S + "cs/cs1bit/rfp.py", S + "cs/cs1bit/util.py"],
     [("binary IHT", S + "cs/cs1bit/biht.py"), ("renormalised fixed point iteration", S + "cs/cs1bit/rfp.py")],
     "Runtime monitor: state after t iterations against an independently written recursion, consistency and descent checkers")
prop("C23", "Generators deliver the documented random objects",
     "Synthetic sparse, block-sparse, subspace and orthogonal data and random sensing matrices have the documented shape, exact sparsity, sorted distinct in-range supports, values (range, sign, unit norm), orthonormality, principal angles and column structure for every size and key; points on different subspaces are drawn independently; all are deterministic in the key, and over many keys supports, signs, moments and intra-block correlations follow the documented distribution.",
     ["inputs", "configurations"], "all sizes, sparsity levels, angles, options and keys",
     "Tests check shapes for one key.",
     [S + "data/synthetic/random.py", S + "data/synthetic/subspaces.py", S + "dict/simple.py"],
     [("sparse vectors and blocks", S + "data/synthetic/random.py"), ("subspaces at an angle", S + "data/synthetic/subspaces.py"), ("random matrices", S + "dict/simple.py")],
     "Runtime monitor: structural invariants of every draw plus statistical monitors over hundreds of keys")
prop("C24", "Dictionaries and their metrics equal their definitions",
     "Gram and frame matrices, coherence (with index), Babel function, mutual coherence, frame bounds and matching-atom ratios of any real or complex dictionary equal their definitions. Hadamard, cosine, Fourier, wavelet and concatenated bases are the documented orthonormal matrices. The Grassmannian construction follows its alternating projection, returns nearly unit-norm spanning atoms, respects the Welch bound and typically lowers coherence.",
     ["inputs", "configurations"], "all real and complex dictionaries with unit atoms (any matrix for Gram, frame and bounds), all sizes, wavelets and levels",
     "Tests check one or two real dictionaries.",
     [S + "dict/props.py", S + "dict/comparison.py", S + "dict/grass.py", S + "dict/simple.py"],
     [("metrics", S + "dict/props.py"), ("alternating projection", S + "dict/grass.py")],
     "Runtime monitor: definitions evaluated by numpy (Babel also by enumeration of subsets), one-step reference of the projection, statistical monitor of the gain")
prop("C25", "Test problems and recovery statistics are consistent",
     "Every problem of the suite, for any size, sparsity and key, satisfies b = A x, A = Phi Psi and b = Phi y, has the documented number and kind of non-zeros, reconstructs y from x and is deterministic in its key. The recovery performance of an estimate (given as vector or as any solver's solution) equals its definition: errors, norms, SNRs, supports, overlap, success; the printed analysis reports the same. Recovery trials test each solver on the same distinct dictionaries and signals and tabulate successes, iterations and times of exactly those runs. Gaussian kernels, Ricker wavelets and phase-transition grids equal their formulas.",
     ["inputs", "configurations", "histories"], "all problems of the suite (except the one needing downloads), sizes and keys; all estimates; all trial counts",
     "Tests generate each problem once at its default size; the evaluation tools have one fixed instance.",
     [S + "problems/problems.py", S + "problems/prob001.py", S + "problems/prob002.py", S + "problems/prob003.py", S + "problems/prob004.py", S + "problems/prob005.py", S + "problems/prob006.py", S + "problems/prob007.py", S + "problems/prob008.py", S + "problems/prob009.py", S + "problems/prob010.py", S + "problems/prob011.py", S + "problems/prob401.py", S + "problems/spec.py", S + "tools/performance.py", S + "tools/trials_at_fixed_m_n.py", S + "vision/kernels.py", S + "geo/wavelets.py", S + "pursuit/phasetransition.py"],
     [("performance measures", S + "tools/performance.py"), ("trial loop", S + "tools/trials_at_fixed_m_n.py"), ("problem generators", S + "problems/problems.py")],
     "Runtime monitor: defining equations of every generated problem, all measures recomputed by numpy, recording solver stubs with a known success pattern, captured reports",
     "the source separation problem needs a download and is not run")
prop("C26", "Trackers observe the real run; solvers are pure and transformable",
     "A tracker is called once per iteration, in order, with a state of the problem at its own scale (residual = data - model), is told exactly at the end that no more follows, and its last state is the returned solution; observing changes nothing. The progress tracker records and prints exactly what it was shown. Repeated calls give bitwise equal results whatever ran before, inputs and global configuration stay untouched, and results under jit and vmap equal single plain calls for solvers, operators, projections, proximal maps and metrics.",
     ["histories", "inputs", "configurations"], "all solvers with a tracker; all calls and call orders; all batches",
     "Tests call each solver once, never with a recording tracker, and never compare call orders or batches.",
     [S + "tracker.py", S + "pursuit/mp.py", S + "pursuit/sp.py", S + "pursuit/cosamp.py", S + "cvx/spgl1.py", S + "types.py"],
     [("tracker callbacks in loop conditions", S + "pursuit/sp.py"), ("progress tracker", S + "tracker.py"), ("compiled entry points", S + "pursuit/cosamp.py")],
     "Runtime monitor: online event log of every tracker callback checked against a trace specification, repeat/interleave/batch metamorphic monitors, global-state snapshots")
prop("C27", "Solvers touch operators only lawfully and account for every touch",
     "Whatever the problem (noiseless, noisy, tiny, huge, zero data, real or complex, warm or cold start, any iteration budget), every solver that takes a linear operator applies its forward and adjoint maps only to finite arrays of the operator's own model and data shape, in full precision, and never sends complex values into a real problem; the numbers of forward and adjoint applications it reports (n_times, n_trans) are exactly the numbers it made; conjugate-gradient solvers stay within one application per iteration plus the first residual.",
     ["inputs", "histories", "configurations"], "all operators, data, starting points and budgets accepted by the solvers",
     "Tests compare final solutions only; none observes what crosses the operator boundary or recounts the reported applications.",
     [S + "cvx/l1ls.py", S + "cvx/spgl1.py", S + "cvx/adm/yall1.py", S + "sls/lsqr.py", S + "sls/ista.py", S + "pursuit/htp.py", S + "pursuit/iht.py", S + "pursuit/cosamp.py", S + "pursuit/sp.py", S + "pursuit/omp.py", S + "pursuit/mp.py", S + "opt/pcg.py", S + "lop/normest.py", S + "fom/focs_at.py"],
     [("counters of forward and adjoint products", S + "cvx/l1ls.py"), ("counters and restarts", S + "cvx/adm/yall1.py"), ("line-search products", S + "cvx/spgl1.py"), ("bidiagonalisation products", S + "sls/lsqr.py")],
     "Runtime monitor: an operator-boundary sanitizer. The operator handed to each solver carries a callback that sees every concrete array crossing it at run time (inside compiled loops too), checks it on the spot, and counts; the counts are then compared with the reported ones")
prop("C28", "What results say about themselves is true",
     "The printed summary of every solution and state (pursuits, LSQR, FOCUSS, BSBL, YALL1, L1-LS, SPGL1, first-order methods, SPG, clustering errors, subspace-preservation statistics), the printed analyses of SPGL1 LASSO and BPIC runs, and the derived attributes (support, values on it, length) can be produced for every result, real or complex, and every number and claim in them equals the quantity named, recomputed from the problem, to the printed precision.",
     ["inputs", "configurations"], "all results of all solvers, real and complex",
     "Tests never look at what is printed; a wrong norm or support in a report misleads the user although the solution is right.",
     [S + "types.py", S + "pursuit/defs.py", S + "pursuit/mp.py", S + "cvx/focuss.py", S + "cvx/spgl1.py", S + "sls/lsqr.py", S + "block/bsbl.py", S + "fom/defs.py", S + "opt/spg.py", S + "cluster/util.py", S + "cluster/ssc/util.py"],
     [("solution summary", S + "types.py"), ("pursuit summary", S + "pursuit/defs.py"), ("SPGL1 analyses", S + "cvx/spgl1.py"), ("FOCUSS support", S + "cvx/focuss.py")],
     "Runtime monitor: the reports emitted by real runs are captured, parsed into (label, number, printed precision) and each statement is compared with the quantity recomputed from the problem by numpy")
