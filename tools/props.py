"""Single source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/cr/sparse/_src/"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, technique, note=""):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(
        p=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
               anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])),
        technique=technique, note=note))


LOP = [S + "lop/" + f for f in ("basic.py", "calculus.py", "conv.py", "dot.py", "dwt.py", "fft.py", "filters.py", "identity.py",
                                "impl.py", "lop.py", "onb.py", "random.py", "reshape.py", "special_matrices.py", "tv.py",
                                "block_diag.py", "windowed_op.py")]
PUR = [S + "pursuit/" + f for f in ("mp.py", "omp.py", "cosamp.py", "sp.py", "iht.py", "htp.py", "defs.py")]

prop("C01", "Every linear operator's adjoint is the adjoint of its forward map",
     "For every linear operator the library can build, the inner product of a forward image with y equals the inner product of x with the adjoint image of y, in the complex inner product wherever complex vectors are accepted, and also when the operator is applied along an axis of a matrix. The library's own adjoint self-tests accept true adjoint pairs and reject wrong ones.",
     ["inputs", "configurations"], "all operator factories, their parameters (sizes, axes, strides, filters, wavelets, index sets), real and complex vectors, single vectors and batches",
     "The tests run each factory at one or two fixed sizes with one random vector, mostly real; a wrong boundary coefficient, conjugate or axis survives them.",
     LOP, [("times/trans pair stored in each operator", S + "lop/impl.py"), ("factories pairing forward and adjoint", S + "lop/basic.py"),
           ("adjoint self tests", S + "lop/props.py")],
     "Runtime monitor: dot-product (adjointness) oracle on recorded forward/adjoint calls of the real operators under randomized configurations",
     "about 60 operator families, random shapes/axes/boundary modes, complex data, whole adjoint matrices compared with conjugate transposes")
prop("C02", "Every operator applies the linear map its documentation describes",
     "The forward and adjoint action of each operator equals multiplication by the dense matrix its documentation defines (differences, convolutions, transforms, restrictions, padding, reordering, block and special matrices), and every way of asking for that matrix or for single rows and columns gives the same numbers. Operators are linear: images of combinations are combinations of images, for vectors and for matrices of vectors along either axis.",
     ["inputs", "configurations"], "all operator factories and parameters, all input vectors, both axes",
     "Tests compare a few operators with hand-written vectors at one size.",
     LOP, [("operator factories", S + "lop/basic.py"), ("apply along axis", S + "lop/util.py")],
     "Runtime monitor: differential oracle, each observed application is compared with an independently built dense reference matrix",
     "independent numpy models of every documented factory")
prop("C03", "Operator algebra is matrix algebra",
     "Sums, differences, scalings, negations, compositions, powers, transposes, adjoints, Gram and frame operators, column selections, Kronecker, block-diagonal and stacked combinations act exactly as the same expression over matrices, to any nesting depth. Shapes and real/complex flags of the result are those of the resulting matrix, and compiling an operator does not change it.",
     ["programs", "inputs"], "all expression trees over operators of compatible shapes",
     "Tests exercise individual combinators on one pair of small matrices; interactions (scaled adjoint of a composition, power of a complex sum) are unexplored.",
     [S + "lop/lop.py", S + "lop/impl.py", S + "lop/block_diag.py", S + "lop/util.py"],
     [("operator combinators", S + "lop/lop.py"), ("Operator class overloads", S + "lop/impl.py")],
     "Runtime monitor: random expression-tree workloads, every node's observed action checked against the shadow matrix expression",
     "expression depth up to 4 quick / 6 thorough")
prop("C04", "Orthonormal transforms preserve energy and reconstruct exactly",
     "The transforms offered as orthonormal (Fourier, cosine, Walsh-Hadamard, Dirac, their unions' blocks, periodized orthogonal wavelets in 1-D and 2-D) preserve norms and inner products and are inverted by their adjoint. Padding, truncation and multi-level wavelet variants reconstruct their input exactly where documented.",
     ["inputs", "configurations"], "all lengths, levels, wavelets and axes the transforms accept, all real/complex inputs",
     "Tests round-trip one length per transform.",
     [S + "lop/onb.py", S + "lop/dwt.py", S + "lop/fft.py", S + "dict/simple.py"], [("orthonormal operators", S + "lop/onb.py"), ("wavelet operators", S + "lop/dwt.py")],
     "Runtime monitor: isometry/perfect-reconstruction invariants evaluated on every observed transform call", "real, complex, batched inputs")
prop("C05", "Spectral estimates converge to the true spectrum",
     "Norm estimates, dominant eigenpairs, frame bounds and truncated singular value decompositions agree with the exact spectrum of the operator to the requested accuracy; returned vectors are normalised, orthogonal and satisfy the defining equations; Lanczos bidiagonalisation keeps A V = U B with orthonormal bases after any number of steps, and its error bounds and converged count are right. Estimates of zero or rank-deficient operators are finite and right.",
     ["inputs", "configurations"], "all real and complex operators and matrices with a usable spectral gap, all ranks requested",
     "Tests compare one matrix per routine at loose tolerances.",
     [S + "lop/normest.py", S + "lop/props.py", S + "sls/power.py", S + "sls/svdpack/lansvd.py", S + "sls/svdpack/lanbpro.py", "src/cr/sparse/sls/svd.py"],
     [("power iterations", S + "sls/power.py"), ("norm estimation", S + "lop/normest.py")],
     "Runtime monitor: defining-equation residuals and dense SVD/eigen oracle on observed results", "bounded by spectral gap guards")
prop("C06", "A pursuit's reported solution is consistent with its problem",
     "Whatever a greedy pursuit returns, its support has distinct in-range indices of the promised size, its coefficients belong to those indices, its residual is the signal minus the synthesis from them, and the reported residual energy is that residual's energy. This holds for every dictionary form, real or complex, and for zero signals.",
     ["inputs", "configurations"], "all dictionaries, signals, sparsity levels, solver forms and budgets",
     "Tests only look at exact recovery of easy signals, where inconsistent fields go unnoticed.",
     PUR, [("recovery solution assembly", S + "pursuit/defs.py"), ("solver state updates", S + "pursuit/cosamp.py")],
     "Runtime monitor: state-consistency assertions on every returned solver state", "7 solvers, matrix/operator/compiled forms")
prop("C07", "Each pursuit performs its published algorithm and recovers sparse signals",
     "After t iterations each solver (MP, OMP, CoSaMP, subspace pursuit, IHT/HTP and their normalized versions) holds exactly the iterate its published algorithm defines: greedy selections, least squares on the support, orthogonal residuals, thresholded gradient steps. Signals sparse enough for the theory are recovered exactly.",
     ["inputs", "histories"], "all problems without ties in the greedy selection, all iteration counts",
     "Tests check only final recovery of a handful of random problems, which many wrong variants also reach.",
     PUR, [("iteration bodies", S + "pursuit/omp.py"), ("hard thresholding", S + "pursuit/util.py")],
     "Runtime monitor: trace specification, iterates observed at every budget are compared online with a reference model of the algorithm",
     "ties skipped as ambiguous")
prop("C08", "Pursuit results do not depend on the calling form and respect symmetries",
     "Matrix, operator, compiled and batched calls of the same pursuit return the same solution. Permuting or negating atoms, scaling the signal, or rotating dictionary and signal together changes the solution only by the corresponding permutation, sign or scale.",
     ["inputs", "configurations"], "all problems without ties, all forms, all permutations, signs, scales and orthogonal transforms",
     "Tests call one form per test on fixed data.",
     PUR, [("matrix and operator solve entry points", S + "pursuit/cosamp.py")],
     "Runtime monitor: metamorphic/differential oracle over paired executions", "paired executions of the real code")
prop("C09", "Pursuits stop exactly when their stopping rule fires and count honestly",
     "A pursuit never exceeds its iteration budget, stops as soon as the residual falls below the requested fraction of the signal norm, does not stop earlier (except on a settled support where documented), and reports the number of iterations it performed. Once stopped, a larger budget changes nothing.",
     ["inputs", "histories"], "all problems, budgets and tolerances", "Tests never vary the budget or look at the iteration count.",
     PUR, [("loop conditions", S + "pursuit/iht.py")],
     "Runtime monitor: offline checker over the history of states observed for increasing budgets", "residuals on the threshold are skipped")
prop("C10", "LSQR, CG and PCG solve their system and report truthfully",
     "LSQR converges to the (damped, warm-started) least-squares solution and CG/PCG to the solution of the positive definite system, each iterate being optimal over its Krylov space. Reported residuals, norms, iteration and operator-application counts are the true ones, budgets are exact, and the requested tolerance is met when the solver stops before its budget.",
     ["inputs", "histories"], "all full-rank systems (real, complex, over- and under-determined, N-D operators), preconditioners, starts, budgets, tolerances",
     "Tests solve one 2x2 system and three consistent least-squares problems.",
     [S + "sls/lsqr.py", S + "opt/cg.py", S + "opt/pcg.py"], [("bidiagonalization recurrences", S + "sls/lsqr.py"), ("conjugate directions", S + "opt/cg.py")],
     "Runtime monitor: Krylov-optimality trace oracle plus defining-equation residuals", "condition numbers up to 30")
prop("C11", "ISTA and FISTA follow their iteration and reach the regularised optimum",
     "Each iterate equals the published (accelerated) proximal-gradient iterate for the given threshold rule, sparsifying basis, step and start, including iteration-dependent thresholds, complex and multi-dimensional data. With soft thresholding the limit satisfies the optimality conditions, the objective obeys the theoretical rate, and the solver stops exactly when a tolerance or the budget is met.",
     ["inputs", "histories"], "all operators, bases, thresholds, steps below the Lipschitz bound, budgets and tolerances",
     "Tests solve one problem per algorithm and check the solution loosely.",
     [S + "sls/ista.py", S + "sls/fista.py", S + "sls/defs.py"], [("iteration body and stopping rule", S + "sls/fista.py")],
     "Runtime monitor: trace specification against a reference iteration; KKT and rate monitors", "steps up to 1/L")
prop("C12", "Projections return the nearest point of their set",
     "Every projector returns a point of its set, at least as close to the input as any other point of the set; members are fixed, projections are idempotent and non-expansive. Results do not depend on being compiled or batched.",
     ["inputs", "configurations"], "all sets (points, affine spaces, boxes, l1/l2 balls, second-order cone), parameters and points, including ties, boundaries, zero and extreme scales",
     "Tests use two or three hand-picked points per set.",
     [S + "opt/projections.py", S + "opt/projectors/basic.py", S + "opt/projectors/lpballs.py"], [("projector closures", S + "opt/projectors/lpballs.py")],
     "Runtime monitor: variational-inequality and independent closed-form oracle on every observed projection", "float64 and float32")
prop("C13", "Proximal operators and thresholds return the minimiser that defines them",
     "Each proximal operator returns the unique minimiser of its function plus the scaled squared distance, with the function value at that point, and is firmly non-expansive; the ordered weighted l1 operator always terminates. Hard, soft and half thresholding, also by percentile, apply their published rule to every entry, real or complex, without producing NaN.",
     ["inputs", "configurations"], "all functions, weights, steps, vectors (ties, zeros, wide dynamic range)",
     "Tests evaluate a few vectors; ordered weighted l1 has no test.",
     [S + "opt/proximal_ops/lpnorms.py", S + "opt/proximal_ops/prox_sorted_l1.py", S + "opt/proximal_ops/prox.py", S + "opt/proximal_ops/basic.py", S + "opt/shrinkage.py", S + "geo/thresholding.py", S + "sls/defs.py"],
     [("proximal closures", S + "opt/proximal_ops/lpnorms.py"), ("pooling of sorted magnitudes", S + "opt/proximal_ops/prox_sorted_l1.py")],
     "Runtime monitor: minimiser/firm-nonexpansiveness assertions and independent reference on each observed call; termination watchdog", "float64 and float32")
prop("C14", "Function objects evaluate their function, gradient and domain correctly",
     "Smooth function objects return the stated value, its true gradient and the same pair in joint evaluation, also after translation; indicator functions are zero exactly on their set and infinite elsewhere. Moreau envelopes equal the infimum they are defined by, with the matching gradient.",
     ["inputs", "configurations"], "all function objects, parameters and points",
     "Tests evaluate a handful of points per function and do not differentiate numerically.",
     [S + "opt/smooth/quad.py", S + "opt/smooth/huber.py", S + "opt/smooth/logdet.py", S + "opt/smooth/entropy.py", S + "opt/smooth/linear.py", S + "opt/smooth/smooth.py",
      S + "opt/indicators/basic.py", S + "opt/indicators/lpballs.py", S + "opt/prox_to_smooth.py"],
     [("function builders", S + "opt/smooth/smooth.py"), ("indicator closures", S + "opt/indicators/basic.py")],
     "Runtime monitor: independent value model, high-order numerical differentiation and infimum sampling on every observed evaluation", "points off the domain boundary")

EXTRA = os.path.join(V, "tools", "props2.py")
if os.path.exists(EXTRA):
    exec(open(EXTRA).read())


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for e in P:
            f.write(json.dumps(e["p"]) + "\n")
    man = dict(version=1, setup_cmd="bash setup.sh", checks=[dict(
        property=e["p"]["id"], quick_cmd=f"bash run.sh {e['p']['id']} --tier quick",
        thorough_cmd=f"bash run.sh {e['p']['id']} --tier thorough",
        technique=e["technique"], level="exploration", level_note=e["note"],
        evidence_file=f"evidence/{e['p']['id']}.json") for e in P], not_applicable=[],
        notes="Checks import /repo/src directly (VERIF_REPO overrides) in fresh worker processes; no instrumentation hooks in /repo are needed.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
