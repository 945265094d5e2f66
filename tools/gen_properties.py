#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source for ids, titles, statements, anchors)."""
import json, os

P = []

def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })

DS = "copt/datasets.py"
RD = "copt/randomized.py"
FW = "copt/frank_wolfe.py"
PG = "copt/proximal_gradient.py"
SP = "copt/splitting.py"
UT = "copt/utils.py"
LO = "copt/loss.py"
PE = "copt/penalty.py"
CO = "copt/constraint.py"
TV = "copt/tv_prox.py"

# ----------------------------------------------------------------- datasets
p("C01", "Interrupted archive downloads never poison the dataset cache",
  "For every archive-based dataset loader (madelon, rcv1, gisette with subset train/test/full; covtype, news20) and whatever crashes, "
  "interrupts, network failures and disk errors hit earlier calls on the same data directory, a call that returns gives exactly the "
  "published matrix and labels of the requested subset, never truncated, mixed or stale data. The first call made after the faults have "
  "stopped succeeds, without anyone having to clean the data directory by hand.",
  ["crash_points", "fault_sequences", "histories", "configurations"],
  "every loader x subset, every finite history of loads interrupted at any file or network operation (process kill, power loss, Ctrl-C, "
  "full disk, I/O error, connection refused/reset/truncated), followed by a healthy call",
  "no test downloads anything: the loaders that download have no tests at all, and the guarantee ranges over every crash point and fault history",
  [DS], [("presence test for the files the subset needs, download, member-by-member extraction", DS + ":_load_dataset")],
  [("<data_dir>/<name>/*.npy", "the on-disk cache: its mere presence means 'do not download'", DS + ":_load_dataset")],
  ["return value / exception of the loader", "files in the data directory"])

p("C02", "Checksum-guarded loaders only return verified data of their own dataset",
  "When md5 checking is on in every call, the loaders that publish a checksum (url, kdd10, kdd12, criteo) never return data that came from a download whose "
  "checksum does not match, and always return the dataset they are named after: a corrupted download is discarded and fetched again from "
  "the same address. Whatever corruption, truncation, crashes or disk errors hit earlier calls, the first call made after the faults have "
  "stopped returns exactly the published samples and labels.",
  ["crash_points", "fault_sequences", "histories"],
  "all four loaders, every finite history of corrupted/truncated/refused downloads and crashes at any file operation",
  "no test reaches these loaders; the mismatch branch only runs when a transfer is corrupted",
  [DS], [("md5 verification, discard and re-download", DS + ":load_url, load_kdd10, load_kdd12, load_criteo")],
  [("<data_dir>/*.bz2, *.tar.gz, *.npy", "downloaded raw file and converted arrays", DS)],
  ["return value / exception of the loader", "requests seen by the network"])

p("C03", "A complete cache is served offline, unchanged, for every subset",
  "Once a dataset has been loaded successfully, later loads of it (any subset that is cached, in any order, from any process) return identical "
  "data without any network access and without modifying, adding or removing any file of the cache. The full subset is always the train rows "
  "followed by the test rows, with labels in the same order, and an unknown subset is rejected with ValueError.",
  ["histories", "configurations", "fault_sequences"],
  "every loader, every sequence of subsets, with the network down and the disk read-only or failing reads after the first success",
  "tests have no network and hence no dataset; the property is about histories of calls",
  [DS], [("presence test before download; vstack/concatenate for subset full", DS + ":_load_dataset")],
  [], ["return values, network requests and file writes of later calls"])

p("C04", "Concurrent dataset loads do not disturb each other",
  "When several processes, or threads of one process, load the same dataset (or different ones) at the same time into the same, initially empty or partly filled, data directory, every one of "
  "them returns exactly the published data, under every interleaving of their file and network operations. If some of them are killed at any "
  "point, the survivors still return the right data and the cache they leave behind serves later loads.",
  ["schedules", "crash_points", "configurations"],
  "2-3 loaders (same or different subsets, of one or two datasets, archive and checksum loaders), every interleaving at file/network-operation granularity, kills of a strict subset",
  "needs a particular interleaving of two processes between the presence test, directory creation, extraction and reading",
  [DS], [("directory creation, publication of extracted files", DS)],
  [], ["return value of each loader"])

# ----------------------------------------------------------------- randomized
p("C05", "SAGA and SVRG follow their published update for every sampling order",
  "For every order in which samples are drawn, every block structure of the penalty and every sparsity pattern of the data, the iterates of "
  "minimize_saga and minimize_svrg (as reported to the callback after each pass and as returned) equal, up to rounding, those of the "
  "sparse proximal SAGA/SVRG recursion: gradient estimate with the sample's memory or snapshot and the exact current average gradient, block-reweighted "
  "bias and L2 term on the extended support only, proximal step with the same reweighting, memory updated after the step. Every derivative is "
  "evaluated at the inner product of that sample's row with the current (or snapshot) iterate.",
  ["schedules", "inputs", "configurations"],
  "all visiting orders produced by the sampler (identity, reversed, repeated, adversarial, uniformly random), sparse and dense data, L1 / group / no penalty, "
  "any alpha; step by step",
  "tests look only at the limit point, for one seed and feature-wise blocks in SVRG; wrong intermediate updates that still contract pass them",
  [RD, PE], [("_saga_epoch, _svrg_epoch, diagonal reweighting, _support_matrix", RD), ("prox_factory", PE)],
  [("memory of sample gradients and its average", "must satisfy average = mean of memory times rows at all times", RD + ":minimize_saga")],
  ["arguments of f_deriv", "x at the callback", "result x"])

p("C06", "VRTOS follows its published update for every sampling order",
  "For every order in which samples are drawn, every pair of block structures and every sparsity pattern (including features no sample uses), "
  "the iterates of minimize_vrtos equal, up to rounding, those of the variance-reduced three-operator-splitting recursion with the two proximal terms on their "
  "own extended supports and block-reweighted averaging. Between two callbacks every sample is visited exactly once.",
  ["schedules", "inputs", "configurations"],
  "all visiting orders, pairs of penalties among none / L1 / group / the two fused-lasso halves, sparse data with empty rows and columns",
  "tests look only at the limit point for one seed and data without empty columns",
  [RD, PE], [("_factory_sparse_vrtos", RD), ("prox_factory, prox_1_factory, prox_2_factory", PE)],
  [("Y, z, memory of sample gradients", "splitting state", RD + ":minimize_vrtos")],
  ["arguments of f_deriv", "x/z at the callback", "result x"])

p("C07", "Stochastic Frank-Wolfe keeps exact gradient estimates for any batches",
  "For every sequence of sampled batches, every direction minimize_sfw asks of the linear oracle is exactly (up to rounding) the negative of the "
  "variant's gradient estimate for the history of batches so far: SAG the sum over samples of the last derivative seen for that sample divided by n, SAGA that average "
  "corrected to be unbiased for the current batch, LF the derivatives at the averaged predictions, MHK the momentum-averaged derivatives. Every batch consists of "
  "distinct samples, every derivative is evaluated at the current iterate (LF: at the averaged prediction) of exactly the samples of the batch, and the iterate moves by exactly the step size times the oracle's direction.",
  ["schedules", "inputs", "configurations"],
  "all batch sequences, batch sizes 1..n, all four variants, vanilla and pairwise oracles, sublinear, DR and user-supplied steps",
  "the tests of SFW assert nothing about the result, they only run it",
  [RD, UT], [("dual variables and aggregate gradient", RD + ":minimize_sfw"), ("fast_csr_mv, fast_csr_vm, sample_batches", UT)],
  [("dual_var, grad_agg, agg", "grad_agg must equal A^T dual_var after every step", RD + ":minimize_sfw")],
  ["arguments of f_deriv and of lmo", "x at the callback"])

p("C08", "Stochastic Frank-Wolfe iterates never leave the constraint set",
  "Every iterate of minimize_sfw shown to the callback or returned is finite and lies in the constraint set whenever the starting point does, for every variant, batch size, "
  "sampled batch sequence and step rule (sublinear, DR, or user steps within the admissible range), because it is a convex combination of the previous iterate and vertices. "
  "With the pairwise oracle the active-set weights stay non-negative, sum to one and reproduce the iterate, or the call fails with ValueError because the step was too large.",
  ["schedules", "configurations", "inputs"],
  "all batch sequences x variants x oracles (L1 ball, simplex, trace ball) x step rules x starting points (vertices, interior, boundary)",
  "the SFW tests assert nothing about feasibility, never use the DR step or the pairwise oracle",
  [RD, FW, CO], [("step_size_sfw, step_size_DR, update_active_set", RD + ", " + FW), ("lmo, lmo_pairwise", CO)],
  [("active set", "vertex weights", RD + ":minimize_sfw")],
  ["x and active set at the callback", "result x"])

p("C09", "Seeded runs are exactly reproducible",
  "Given the same arguments and the same state of NumPy's global random generator, every solver returns bit-identical results and makes bit-identical oracle calls, whatever ran before in the "
  "process, whatever the clock, the hash seed or the thread it runs in. The only source of randomness is NumPy's global generator; the solvers that are not stochastic "
  "neither read nor advance it, except that the trace-ball linear oracle may use it to start its iterative SVD without affecting results beyond rounding.",
  ["schedules", "configurations", "histories"],
  "all solvers, losses, penalties and constraints; every history of earlier calls in the process, hash seed, clock and entropy-source behaviour",
  "one test process with one seed cannot distinguish reproducible from lucky; hidden entropy only shows across runs",
  [RD, FW, PG, SP, UT, CO], [("np.random.shuffle / permutation / randint / choice as only sources of randomness", RD + ", " + UT), ("linear oracle of the trace ball", CO + ":TraceBall.lmo")],
  [], ["result x", "sequence of oracle arguments", "state of NumPy's global generator"])

# ----------------------------------------------------------------- deterministic solvers under faults
p("C10", "Frank-Wolfe iterates stay feasible and the active set describes them",
  "Every iterate of minimize_frank_wolfe shown to the callback or returned lies in the constraint set whenever the starting point does, for every step strategy and any user-supplied step policy within the admissible "
  "range offered to it. In the pairwise variant the active set is at every callback and at return a convex combination of vertices (positive weights summing to one, no vertex of zero weight kept) that reproduces the iterate; "
  "a step beyond the admissible range is rejected with ValueError.",
  ["histories", "configurations", "inputs", "fault_sequences"],
  "every step policy (DR, backtracking, sublinear, adversarial callable incl. exact drop steps), constraint, start, and interruption point",
  "tests check only closeness to stationarity at the end and never look at the active set or at intermediate iterates",
  [FW, CO], [("update_active_set, max_step_size", FW), ("lmo, lmo_pairwise", CO)],
  [("active set", "vertex -> weight", FW + ":minimize_frank_wolfe")], ["x, active set at the callback", "result"])

p("C11", "Frank-Wolfe closes its gap within the guaranteed number of iterations",
  "From any feasible starting state, including the iterate left by an interrupted run, minimize_frank_wolfe with the DR, backtracking or sublinear step on a smooth convex objective brings the objective to within the "
  "classical 2 L diam^2/(k+2) bound (with a constant slack) of the optimum after k uninterrupted iterations, and never stops making progress before its gap is below tol. "
  "This includes the pairwise variant, which must not stall after a vertex has been dropped and converges to the optimum within a bounded number of iterations; the reported certificate equals the true (variant) gap at the point where the linear oracle was last asked.",
  ["histories", "crash_points", "configurations", "inputs"],
  "every chain of interruptions and restarts, start point, constraint radius, step strategy, vanilla and pairwise",
  "tests accept gradient maps of 0.2-0.4 after a fixed number of iterations, which a stalled run satisfies",
  [FW, CO], [("backtracking_step_size, certificate, stopping rule, update_active_set", FW)],
  [], ["result x and certificate", "x at the callback"])

p("C12", "Line searches survive transient oracle failures and only accept valid descent",
  "When the user's function returns NaN or plus infinity (or absurdly large values) at some trial points of a line search, the proximal-gradient and three-operator-splitting solvers never move to such a point while "
  "backtracking budget is left: every accepted iterate has a finite objective value and (non-accelerated proximal gradient, Frank-Wolfe backtracking) the composite objective does not increase beyond rounding. "
  "Once the failures stop, the non-accelerated methods still reach their tolerance on strongly convex problems within a bounded number of iterations.",
  ["fault_sequences", "inputs", "configurations"],
  "every pattern of transient NaN/inf/huge answers at trial evaluations, every loss/penalty, every starting scale of the step",
  "the tests' functions never fail; NaN makes comparisons go the other way only in the fault path",
  [PG, SP, FW], [("sufficient-decrease test and backtracking loop", PG + ", " + SP + ":minimize_three_split, " + FW + ":backtracking_step_size")],
  [], ["x at the callback", "result"])

p("C13", "Returning False from the callback stops the solver at once",
  "For proximal gradient (plain and accelerated), Frank-Wolfe, three-operator splitting and primal-dual, whatever iteration the callback first returns False at, the solver makes no further call to the objective, prox or linear oracle and returns a result whose x is the "
  "iterate the callback saw, with success not claimed. Any other return value, including None and 0, does not stop it and does not change the run. The callback is called at every iteration: one more iteration of budget is one more call.",
  ["crash_points", "schedules", "configurations"],
  "every solver, every iteration index as cancellation point, every falsy non-False return value",
  "tests cancel only at the first callback and look only at nit",
  [PG, FW, SP], [("callback(locals()) is False -> break", PG + ", " + FW + ", " + SP)],
  [], ["calls made after the callback", "result"])

p("C14", "Failures of user code pass through cleanly and leave no residue",
  "An exception raised by user code (objective, derivative, prox, linear oracle or callback) at any call propagates unchanged out of every solver, and so does a KeyboardInterrupt that arrives between any two lines of the library. Neither on that path nor on normal return is anything the caller passed in "
  "(starting point, data matrix, labels, penalty, loss and constraint objects) modified, process-wide settings (floating-point error handling, warning filters) are left as they were, and repeating the call afterwards with the same objects gives exactly the result of a first call. "
  "The same holds for direct calls of the methods of losses, penalties and constraint sets: they modify neither their arguments nor what an earlier call returned, and their result depends on the arguments alone, whatever was called before.",
  ["crash_points", "fault_sequences", "histories"],
  "every solver, every call index of every user-supplied function as failure point, any exception type incl. KeyboardInterrupt",
  "tests never raise from user code and never re-use the arguments to compare",
  [RD, FW, PG, SP, LO, PE, CO], [("copies of x0; solver state held in locals only", "all minimize_* functions")],
  [], ["exception identity", "argument arrays before/after", "second result"])

p("C15", "Concurrent solver calls sharing objects do not interfere",
  "Several solver calls running in different threads, or nested inside a callback, that share the same data arrays and the same loss, penalty and constraint objects each produce exactly the result they produce alone, "
  "under every interleaving of their execution.",
  ["schedules", "configurations"],
  "2-4 concurrent calls of any mix of solvers, preemption between any two source lines",
  "tests are single-threaded; shared mutable state only matters under interleaving",
  [RD, FW, PG, SP, LO, PE, CO, TV, UT], [("loss/penalty/constraint objects are read-only during solves; no module-level state", "copt/*")],
  [], ["result x of each call vs. the same call alone"])

p("C16", "Solvers reach the optimum despite interruptions, restarts and any sampling",
  "For strongly convex problems with admissible step sizes, proximal gradient (plain, accelerated), three-operator splitting, primal-dual, SAGA, SVRG and VRTOS reach a point that satisfies the optimality conditions of the composite problem "
  "they document, from any starting state, including the last iterate of an interrupted run and integer-valued starting points, within a bounded number of iterations once interruptions stop, and for every sampling order.",
  ["crash_points", "histories", "schedules", "inputs"],
  "every chain of kills/cancellations at any callback followed by an uninterrupted run; every sampling order; losses x penalties x solvers",
  "tests run once from zero on one fixed data set",
  [RD, PG, SP, LO, PE, TV, CO], [("all iterations and step-size rules", RD + ", " + PG + ", " + SP)],
  [], ["result x, checked against independent optimality conditions"])

p("C17", "Success and certificates are honest under faults",
  "A solver that reports success returns a finite x that satisfies its documented stopping criterion: proximal gradient and three-operator splitting an optimality residual consistent with tol, primal-dual a small final change, SAGA, SVRG and stochastic Frank-Wolfe a last pass or step "
  "that moved x by less than tol, the first one that did. Success is never reported for a run that was cancelled, ran out of iterations without meeting tol, or received non-finite oracle answers that reached its iterate; a run that ends without success and was not cancelled has used its whole budget.",
  ["fault_sequences", "crash_points", "configurations"],
  "every solver, tolerance, budget, cancellation point and pattern of NaN/inf oracle answers",
  "tests only look at success on converged runs",
  [PG, SP, RD], [("certificate < tol tests", PG + ", " + SP + ", " + RD)],
  [], ["success, certificate, nit, x of the result"])

p("C18", "Every solver call ends after a bounded amount of work",
  "For any behaviour of the user's functions, including permanently NaN, infinite, inconsistent or adversarial answers, every solver stops after at most its max_iter iterations, each making a bounded number of oracle calls and of internal steps; "
  "no answer makes a solver loop for ever.",
  ["fault_sequences", "inputs", "configurations"],
  "every solver, every sequence of oracle answers (finite, NaN, inf, huge, zero, sign-flipped), every budget",
  "tests use well-behaved objectives; unbounded loops need answers that never satisfy the line search",
  [PG, SP, FW, RD, TV, UT], [("max_iter, max_iter_backtracking, max_iter_ls, init_lipschitz bound", PG + ", " + SP + ", " + FW + ", " + UT)],
  [], ["number of oracle calls and of loop iterations per solver call"])

p("C19", "Parallel loops give the same result in every execution order",
  "The loops the library marks as parallel for the optional JIT (derivatives of the logistic loss over samples, sampling of mini-batches) yield the same derivative values, and valid batches of distinct in-range samples in every slot, "
  "whatever order their iterations run in and however the iterations interleave on shared arrays.",
  ["schedules", "inputs"],
  "every assignment of iterations to workers, every interleaving of their bodies at statement granularity, any length",
  "the tests run the sequential fallback; the order of a parallel loop never varies there",
  [LO, UT], [("prange loops", LO + ":LogLoss.partial_deriv, " + UT + ":sample_batches")],
  [], ["returned arrays"])

p("C20", "Trace records every run faithfully",
  "A Trace callback passed to any solver stores, for every freq-th call and only for those, one entry in each of its lists; with a function it stores its value at the iterate of that moment, without one a snapshot that later iterations do not change. "
  "Recorded times are the seconds elapsed since the Trace was created: non-negative and never decreasing, whatever happens to the system clock, also when the run is cancelled or fails midway.",
  ["schedules", "fault_sequences", "crash_points", "configurations"],
  "every solver, freq, clock behaviour (jumps forward and back, frozen), cancellation and failure point",
  "tests pass Trace but never read it, and never move the clock",
  [UT], [("Trace.__call__", UT)], [("trace_x, trace_fx, trace_time, trace_step_size", "recorded lists", UT + ":Trace")],
  ["lists of the Trace object"])

p("C25", "All documented ways of passing the gradient agree",
  "For proximal gradient (plain, accelerated) and Frank-Wolfe, passing the gradient as a callable or together with the value (jac=True) gives bit for bit the same run, also when the objective answers NaN or infinity in part of the space, the run is "
  "cancelled, extra args are given, or another solve is nested in its callback. Not passing it at all (jac=False or '2-point') works with a function that only returns its value, and gives the same run up to the finite-difference error for the given eps.",
  ["fault_sequences", "histories", "inputs", "configurations"],
  "every objective, start, step rule, eps, args, region of non-finite answers, cancellation and nesting point",
  "tests only use jac=True or the default, which is the same, and never compare two ways",
  [UT, PG, FW], [("build_func_grad", UT + ":build_func_grad")],
  [], ["iterates shown to the callback", "points of evaluation", "result"])

p("C27", "Budgets, restarts and observation do not change the iterates",
  "For every solver a run with a smaller max_iter or a looser tol is the beginning of the longer run: it shows the callback the same iterates (same samples drawn), with a smaller max_iter it makes the same calls of the user's functions, and it returns the iterate "
  "the longer run has at that moment, also when the user's functions answer NaN or infinity at some points. The solvers without memory (proximal gradient with a user step that depends on the current state, vanilla Frank-Wolfe with the DR or such a user step, "
  "SVRG between passes), interrupted by an exception, a cancellation or their budget and started again from the last iterate the callback saw, go on with exactly the iterates of an uninterrupted run. "
  "Watching a run (callback or none, Trace, verbose, trace_certificate) changes neither its calls nor its result.",
  ["crash_points", "fault_sequences", "histories", "configurations"],
  "every solver, budget, tolerance, sampling order, interruption point, number of restarts",
  "tests run each solver with one budget and never compare two runs",
  [PG, SP, FW, RD, UT], [("main loops of all solvers; state between iterations", PG + ", " + SP + ", " + FW + ", " + RD)],
  [], ["iterates shown to the callback", "calls of the user's functions", "result"])

# ----------------------------------------------------------------- listed, not claimed (pure functions)
p("C21", "Proximal operators are exact",
  "For every input and positive step size, prox of each penalty (L1, group L1, fused lasso, trace norm, 2-D total variation to its tolerance) returns the minimiser of the penalty plus the scaled squared distance, and evaluating the penalty gives its documented value.",
  ["inputs"], "all vectors, step sizes, groups, shapes", "a sample of random vectors cannot cover all tie and boundary configurations",
  [PE, TV], [("prox methods", PE + ", " + TV)])
p("C22", "Projections and linear oracles are optimal for their constraint set",
  "For every input, projection onto each ball or simplex returns the closest feasible point, and each linear oracle returns the direction to a vertex that maximises the inner product, with a representation that identifies the vertex.",
  ["inputs"], "all vectors, radii, shapes", "tests check a few random vectors",
  [CO], [("prox, lmo", CO)])
p("C23", "Loss values, gradients, curvature and Lipschitz constants agree",
  "For every data set and point, the gradient of each loss is the derivative of its value, Hessian products are the derivative of the gradient, partial derivatives assemble to the gradient, and lipschitz bounds the change of the gradient, for dense and sparse data alike.",
  ["inputs"], "all A, b, alpha, x", "tests check one random point with alpha = 0",
  [LO], [("f_grad, hessian_mv, partial_deriv, lipschitz", LO)])
p("C24", "Sparse row products equal the dense products",
  "For every CSR matrix, vector and index set, the fast row-subset products equal the corresponding dense products.",
  ["inputs"], "all matrices, vectors and index sets", "tests use one random matrix", [UT], [("fast_csr_mv, fast_csr_vm, safe_sparse_add", UT)])
p("C26", "The PyTorch bridge returns the value and gradient of the wrapped function",
  "For every differentiable scalar function and shape, the wrapped function returns its value and flattened gradient at the given point.",
  ["inputs"], "all functions and shapes", "no test imports it", ["copt/utils_pytorch.py"], [("make_func_and_grad", "copt/utils_pytorch.py")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
print(len(P), "properties")
