#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it to regenerate the file)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

p("C01", "Sub-sampled DCT transforms are the documented linear maps",
  "For every signal shape and every set of distinct in-range sample positions (in any order), the 1-D and 2-D DCT transform sets compute, to rounding error: Mx the orthonormal inverse DCT, Mty the forward DCT, Rx the sampling x[pix_idx], Rty the zero-filled scatter, Ax = R M x, Aty = M'R'y, AtAx = A'A x, and W = identity. "
  "The reported sizes are n = number of samples, m = p = q = number of signal elements, and norm_W = 1. "
  "No operator changes its input vector, reads uninitialised output contents, or writes outside the documented output length.",
  ["inputs", "configurations"], "all shapes (odd, even, prime, 1xN, Nx1), all sample sets and orders, all input vectors, all thread counts",
  "The DCT unit tests need scipy-generated data and do not run here; the remaining tests use one size and sorted index sets, so boundary scaling, other shapes, unsorted indices and input preservation are never exercised.",
  ["src/dct1.c", "src/dct2.c", "src/dct_transforms.c"],
  [("DC scaling by sqrt(2) / first row and column scaling around the FFTW REDFT01/REDFT10 plans", "src/dct1.c dct_EMx/dct_MtEty, src/dct2.c dct2_EMx/dct2_MtEty"),
   ("gather/scatter through pix_mask_idx", "src/dct1.c dct_Ex/dct_Ety, src/dct2.c dct2_Ex/dct2_Ety")],
  [("Ety_sparse", "persistent zero-filled scatter buffer; off-sample entries must stay zero", "src/dct1.c, src/dct2.c")],
  ["return of each l1c_AxFuns operator"])

p("C02", "DCT+TV dictionary transforms: W = [M, av*Dv, ah*Dh] in both modes",
  "For every shape, weights alpha_v >= 0 and alpha_h >= 0, DCT mode and sample set, the combined DCT/total-variation transforms apply the dictionary W = [M, alpha_v*Dv, alpha_h*Dh] (a block is present exactly when its weight is positive, vertical before horizontal) and W' as its exact adjoint; in analysis mode A = R, M = I, and in synthesis mode A = R W, Mx applies W, and Wz/Wtx are the identity on the first rows*cols coefficients. "
  "AtAx is available and equals A'A in both modes, the reported n, m, p, q match these operators, and norm_W is an upper bound on the dictionary norm in analysis mode and 1 in synthesis mode. "
  "No operator changes its input or writes outside the documented output length.",
  ["inputs", "configurations"], "all shapes >= 3x3 (any shape when both weights are zero), all (alpha_v, alpha_h, dct mode, bp mode), all sample sets, all inputs",
  "Only a few fixed shapes and weight pairs are tested, most of that suite needs scipy data that is not available, and adjointness, AtAx and the zero-weight corner cases are not asserted.",
  ["src/dct_tv_transforms.c", "src/TV.c", "src/dct1.c", "src/dct2.c"],
  [("block offsets _inc_TVV/_inc_TVH and job mask", "src/dct_tv_transforms.c l1c_setup_dctTV_transforms"),
   ("Wv / Wtx / Av / Aty compositions", "src/dct_tv_transforms.c")], (), ["return of each l1c_AxFuns operator"])

p("C03", "Matrix transforms apply the caller's matrix exactly as stored",
  "For every n-by-m row-major matrix A (n smaller, equal to or larger than m), Ax, Aty and AtAx (and Rx, Rty) equal A x, A' y and A'A x, while Mx, Mty, Wz and Wtx are the identity on m elements and n, m, p, q are reported as n, m, m, m. "
  "Results do not depend on the previous contents of the output vector, and the matrix and the inputs are left unchanged. "
  "Non-positive dimensions are refused with the invalid-argument status.",
  ["inputs", "configurations"], "all matrices, all n x m including tall and 1 x 1, all input vectors",
  "The unit test uses one random matrix shape.",
  ["src/matrix_transforms.c"], [("cblas_dgemv row-major NoTrans/Trans with lda = m", "src/matrix_transforms.c Ax/Aty/AtAx")], (), ["return of each operator"])

p("C04", "TV difference operators match their matrices at every pixel",
  "For every image of at least 2 rows and 2 columns and every weight alpha, the horizontal and vertical difference operators equal the forward difference with a zero last column/row times alpha, their transposes are the exact adjoints, and the composed operators equal D'D (scaled by alpha squared). "
  "Every output element is written, nothing outside the n*m outputs is written, the input is unchanged, and the result does not depend on the number of threads.",
  ["inputs", "schedules", "configurations"], "all n >= 2, m >= 2, all alpha (including 0 and negative), all images, all OpenMP thread counts",
  "Tests check three fixed shapes against stored data for one thread configuration.",
  ["src/TV.c"], [("row-wise stencil with boundary cases", "src/TV.c ddiff_z/ddiffT_z/ddiff2_z"), ("row-adjacent stencil with boundary masks", "src/TV.c l1c_Dy/l1c_DyT/l1c_DyTDy")], (), ["return of l1c_Dx..l1c_DyTDy"])

p("C05", "Transform results depend only on set-up arguments and the input",
  "Within any history of set-up, operator calls and destroy, over any families, sizes, sample sets and modes (at most one live DCT-based set and one live matrix set at a time), each operator call returns what a freshly set-up transform with the same arguments would return for that input. "
  "Earlier calls, previous (re-)set-ups, refused set-ups and other families never influence it. "
  "After destroy, everything the set-up acquired has been released exactly once.",
  ["histories", "configurations"], "all sequences of setup/operator/destroy calls over dct1, dct2, dct+TV and matrix families",
  "Each unit test performs one set-up followed by one or two calls and a destroy, always in the same order.",
  ["src/dct1.c", "src/dct2.c", "src/dct_tv_transforms.c", "src/matrix_transforms.c"],
  [("scatter buffer only ever written on sample positions", "src/dct1.c dct_MtEty, src/dct2.c dct2_MtEty"), ("static state overwritten by every setup", "src/dct*_setup")],
  [("file-scope transform state", "plans, work buffers, sample indices of the live set", "src/dct1.c, src/dct2.c, src/dct_tv_transforms.c, src/matrix_transforms.c")], ["each operator return", "destroy return"])

p("C06", "Transform set-up accepts exactly the valid arguments",
  "The high-level DCT and DCT+TV set-ups refuse, with the invalid-argument status, non-positive sizes or sample counts, any sample index below 0 or not below the number of signal elements, image sizes whose number of pixels exceeds INT_MAX, negative TV weights, and positive TV weights on images with fewer than 3 rows or columns; every other argument combination (distinct sample indices, sizes that memory can hold) succeeds. "
  "A 1-D transform is used exactly when one image dimension is 1 or 1-D mode is requested, and the 2-D transform otherwise. "
  "A refused set-up acquires nothing, leaves the caller's arguments alone, and a later valid set-up works normally.",
  ["inputs", "histories"], "all (n, mrow, mcol, mode, weights, index vectors)",
  "Unit tests try a handful of invalid arguments and never the boundary index or the last position of the index vector.",
  ["src/dct_transforms.c", "src/dct_tv_transforms.c", "src/matrix_transforms.c"],
  [("size and index checks", "src/dct_transforms.c check_pix_idx, l1c_setup_dct_transforms; src/dct_tv_transforms.c")], (), ["return of the set-up functions"])

p("C07", "Conjugate gradient returns the best iterate and the true residual",
  "For every symmetric positive definite operator, right-hand side and starting point, the conjugate-gradient solver visits the classical CG iterates from the given start, stops at the first iterate whose relative residual is below tol or after max_iter iterations, and returns the visited point (start included) with the smallest relative residual. "
  "The reported residual is the residual ||b - A x||/||b|| of the returned point and the reported iteration count is the number of iterations performed; the right-hand side is unchanged. "
  "With max_iter at least the dimension and a well-conditioned system the returned point solves it to the requested tolerance.",
  ["inputs", "configurations"], "all SPD systems, starting points, tolerances, iteration limits and verbosity levels",
  "Unit tests run two stored systems from a zero start and only look at the final solution.",
  ["src/cgsolve.c"], [("warm-started residual, best-iterate bookkeeping and stop test", "src/cgsolve.c l1c_cgsolve")],
  [("bestx/best_rel_res", "smallest residual seen and its point", "src/cgsolve.c")], ["return of l1c_cgsolve"])

p("C08", "Preconditioned CG returns the best iterate and the true residual",
  "For every symmetric positive definite operator, positive diagonal preconditioner, right-hand side and starting point, the preconditioned solver visits the preconditioned CG iterates, stops at the first iterate whose relative residual is below tol or after max_iter iterations, and returns the visited point (start included) with the smallest relative residual ||b - A x||/||b||. "
  "The reported residual is the unpreconditioned relative residual of the returned point, independent of any scaling of the preconditioner, and the iteration count is the number performed. "
  "With a preconditioner of ones it behaves exactly as the plain solver.",
  ["inputs", "configurations"], "all SPD systems, diagonal preconditioners (including badly scaled), starts, tolerances and limits",
  "Unit tests use a single system with a benign preconditioner and a zero start.",
  ["src/cgsolve.c"], [("z = M^-1 r, delta = r'z recurrences; residual from r'r", "src/cgsolve.c l1c_cgsolve_diag_precond")], (), ["return of l1c_cgsolve_diag_precond"])

p("C09", "Backtracking line search accepts the first sufficient-decrease step",
  "The line searches try steps s, beta*s, beta^2*s, ... (at most 32) and accept the first whose objective value f is a number with f <= f0 + alpha*step*slope, where f0 is the value passed in. "
  "On success the point(s) become x + step*dx (and u + step*du), the stored objective value is the one at the new point, and step, trial count and status 0 are reported; on failure status 1 is reported and the point(s) are unchanged, as is the stored objective value unless the objective function itself overwrites it. "
  "Directions are never modified.",
  ["inputs", "configurations"], "all objectives (including ones that return NaN or infinity), directions, slopes, parameters and dimensions",
  "Tests use one smooth objective where the first or second step succeeds; NaN trials, exact ties, exhaustion and the stored objective value are not covered.",
  ["src/linesearch.c"], [("trial loop with NaN rejection", "src/linesearch.c l1c_linesearch, l1c_linesearch_xu")], (), ["objective callback arguments", "return of the line search"])

p("C10", "l1qc solvers return a feasible, near-optimal point and truthful status",
  "From a feasible start, the quadratically constrained l1 solver returns status 0 and a point with ||A x - b|| <= epsilon whose l1 norm exceeds the optimum by no more than the log-barrier tolerance warrants; the reported l1 value is the l1 norm of the returned coefficients and the total Newton count lies between lbiter and lbiter*newton_max_iter. "
  "An infeasible start is reported as such and leaves the point unchanged. "
  "The DCT driver returns the inverse DCT of the optimal coefficients, propagates every failure as a non-zero status, and never modifies the measurements or the sample indices.",
  ["inputs", "configurations"], "all problems with a strictly feasible start and all option combinations (mu, tolerances, iteration limits, CG warm-start modes, verbosity, DCT modes)",
  "The end-to-end tests solve one stored image problem; feasibility, optimality gap, infeasible starts and option combinations are not asserted.",
  ["src/l1qc_newton.c", "src/l1qc_dct.c"], [("feasibility test before iterating", "src/l1qc_newton.c _l1c_l1qc_check_feasible_start"), ("max-step rule and NaN-rejecting line search keep iterates strictly feasible", "src/l1qc_newton.c _l1c_l1qc_find_max_step"), ("tau schedule", "src/l1qc_newton.c l1c_l1qc_newton")], (), ["return of l1c_l1qc_newton and l1qc_dct"])

p("C11", "Log-barrier Newton path: exact barrier, gradient, Hessian and step rules",
  "At every strictly feasible (x, u) the barrier value, residual, gradient, reduced Hessian product and Newton direction used by the l1qc solver equal those of f(x,u) = sum(u) - (1/tau)*(sum log(u-x) + sum log(u+x) + log((epsilon^2-||Ax-b||^2)/2)), and the value is not a number outside the domain. "
  "The initial step is 0.99 times the smaller of 1 and the largest step that keeps all constraints satisfied; u starts at 0.95|x| + 0.1 max|x|, tau at max((2m+1)/||x||_1, 1), and, unless the caller fixes it, lbiter is the smallest count with (2m+1)/(tau*mu^lbiter) <= lbtol. "
  "With exact inner solves, running k Newton steps of any barrier stage yields the point given by these rules and the sufficient-decrease line search; a line search that fails (no trial point can be accepted) or a Newton system that CG leaves unsolved (relative residual above one half) ends its stage at the point reached so far, and tau still grows by mu for the next stage. With truncated inner solves the CG iteration starts from zero (warm_start_cg 0), the previous direction (1) or the previous direction times the accepted step (2), and the returned point follows from that. None of this depends on the number of threads beyond rounding.",
  ["inputs", "histories"], "all strictly feasible points, directions, operators, tau and epsilon; all iteration budgets",
  "Only the initialisation test runs in this environment; the others need stored scipy data and check one point each.",
  ["src/l1qc_newton.c", "src/linesearch.c", "src/cgsolve.c"], [("block elimination of u and CG on H11", "src/l1qc_newton.c _l1c_l1qc_hess_grad, _l1c_l1qc_H11pfun, _l1c_l1qc_descent_dir"), ("quadratic root and ratio tests", "src/l1qc_newton.c _l1c_l1qc_find_max_step")],
  [("l1c_l1qcProb", "barrier state: residual, constraint values, gradient, direction, tau", "include/l1qc_newton.h")], ["return of the _l1c_l1qc_* steps", "x after each iteration budget"])

p("C12", "NESTA follows the published continuation and accelerated projection scheme",
  "For every row-orthonormal measurement operator and dictionary, the NESTA solver performs n_continue stages whose smoothing and tolerance decrease geometrically from 0.9*||W'A'b||_inf and 0.1 to the requested final mu and tol, each stage running the accelerated iteration (weights (k+1)/2 and 2/(k+3), both updates projected onto ||Ax-b|| <= sigma) from the previous stage's point until the relative change of f_mu against the mean of the last 10 values falls below the stage tolerance or, at the latest, after 10000 iterations. "
  "The returned point satisfies ||Ax-b|| <= sigma up to rounding and has a near-minimal ||W'x||_1. "
  "Measurements are unchanged, and mismatched dimensions or missing operators are reported by a non-zero status with the output untouched.",
  ["inputs", "configurations", "histories"], "all row-orthonormal operators, dictionaries (analysis and synthesis), measurements, sigma, mu, tol, n_continue",
  "The tests call isolated pieces with one stored data set; no test runs the whole iteration against an independent model.",
  ["src/nesta.c"], [("continuation loop and accelerated inner iteration", "src/nesta.c l1c_nesta"), ("continuation factors", "src/nesta.c l1c_nesta_setup")],
  [("xk, yk, zk, gradf_sum, mu_j, tol_j, value window", "algorithm state", "include/nesta.h")], ["return of l1c_nesta"])

p("C13", "NESTA building blocks: projection, smoothed objective, value window",
  "For every row-orthonormal operator the projection step returns the minimiser of (L/2mu)||x - xx||^2 + <g,x> over ||Ax-b|| <= sigma; the evaluation step returns the Huber-smoothed value of ||W'x||_1 and its gradient; and problem set-up yields x0 = A'b, mu0 = 0.9*||W'A'b||_inf, tol0 = 0.1 and factors that reach the final mu and tol in exactly n_continue multiplications. "
  "The value window always reports the mean of the last min(k,10) values pushed, for every push history. "
  "Set-up refuses a transform set that lacks a required operator.",
  ["inputs", "histories"], "all points, gradients, operators and dictionaries; all push sequences",
  "Each piece is tested on one stored example (projection with both outcomes never compared with the optimality conditions) and the window on one 11-step sequence.",
  ["src/nesta.c"], [("closed-form projection with multiplier lambda", "src/nesta.c l1c_nesta_project"), ("u = W'x / max(mu,|W'x|)", "src/nesta.c l1c_nesta_feval"), ("circular buffer", "src/nesta.c _l1c_push_fmeans_fifo")],
  [("fmean_fifo", "last 10 functional values", "include/nesta.h")], ["return of the pieces"])

p("C14", "Bregman TV denoising performs the split-Bregman iteration and stops on time",
  "For every image with at least 3 rows and 3 columns, noise weight mu, tolerance and iteration limits, the anisotropic TV denoiser returns the iterate of the split-Bregman scheme (lambda = 2 mu, start u = f, max_jac_iter row-major Gauss-Seidel sweeps per iteration, soft threshold 1/lambda, additive Bregman update) after the first iteration whose relative change drops below tol, or after max_iter iterations. "
  "At convergence the result minimises |Dx u|_1 + |Dy u|_1 + (mu/2)||u-f||^2. "
  "The input image is unchanged.",
  ["inputs", "histories", "configurations"], "all images and shapes, mu > 0, tol, max_iter (including 0) and max_jac_iter",
  "Component tests use one stored shape each and no test checks the assembled iteration, the stop rule or non-square images.",
  ["src/bregman.c", "src/TV.c"], [("rhs assembly, in-place sweep with boundary diagonals, shrink, Bregman update", "src/bregman.c")],
  [("u, d_x, d_y, b_x, b_y", "split-Bregman state", "src/bregman.c l1c_breg_anistropic_TV")], ["return of l1c_breg_anistropic_TV", "breg_get_functions table"])

p("C15", "Vector kernels are exact element maps and reductions for every length",
  "For every length (including 0 where meaningful, and every remainder modulo the vector width), every vector kernel computes its documented element-wise map or reduction to rounding error, touches exactly the N elements it owns, and leaves its read-only operands unchanged. "
  "Log-sums propagate NaN for negative arguments and minus infinity for zeros wherever they occur in the vector. "
  "Results do not depend on the number of threads beyond rounding.",
  ["inputs", "schedules", "configurations"], "all lengths, values (including NaN, infinities and zeros; arguments of the logarithms in the normal range), scalars and thread counts",
  "Tests use one or two lengths with benign values and the default thread count.",
  ["src/l1c_math.c", "src/vcl/vcl_math.cpp"], [("main vector loop plus scalar remainder", "src/vcl/vcl_math.cpp"), ("omp parallel for with reductions", "src/l1c_math.c")], (), ["return of each kernel"])

p("C16", "Allocation helpers return aligned, usable, zeroed and independent memory",
  "Every successful 1-D or 2-D allocation returns memory aligned to DALIGN bytes (each row of a 2-D block too) whose full requested length can be written without disturbing any other live block; the calloc forms return all zeros even when memory is recycled. "
  "Freeing releases exactly what was allocated, accepts NULL, and a failed 2-D allocation returns NULL and releases every row already obtained.",
  ["inputs", "histories", "fault_sequences"], "all sizes, all interleavings of allocation and release, all allocation failures",
  "Tests allocate a few blocks once each and never recycle dirty memory, check every row or fail an inner allocation.",
  ["src/l1c_memory.c"], [("posix_memalign with DALIGN", "src/l1c_memory.c l1c_malloc_double"), ("roll-back loop", "src/l1c_memory.c l1c_malloc_double_2D")], (), ["return of the allocation functions"])

p("C17", "Every failing resource request yields an error status, no leak and no crash",
  "If any single or repeated memory allocation or FFTW plan creation fails anywhere inside a public set-up or solver call, the call returns a non-zero status from the documented error codes, does not crash, releases everything it acquired exactly once, leaves the caller's inputs unchanged, and leaves the library able to serve the next call correctly.",
  ["fault_sequences", "histories"], "every index of a failing request (and every suffix of failing requests) in every public entry point, each followed by a successful call",
  "No test injects allocation or planning failures.",
  ["src/dct1.c", "src/dct2.c", "src/dct_tv_transforms.c", "src/matrix_transforms.c", "src/l1qc_newton.c", "src/l1qc_dct.c", "src/nesta.c", "src/bregman.c", "src/l1c_memory.c"],
  [("goto-exit clean-up paths", "every *_setup, l1c_l1qc_newton, l1qc_dct, _l1c_NestaProb_new, l1c_breg_anistropic_TV")],
  [("outstanding resources", "heap blocks and FFTW plans owned by the library", "harness allocation table")], ["every allocation, free, plan creation and destruction", "call return"])

p("C18", "Library calls conserve resources over every call history",
  "A solver call acquires and releases its memory and plans completely: when it returns, success or error, the library owns nothing it did not own before the call, no block is freed twice, and a matching set-up/destroy pair is resource-neutral. "
  "This holds after any sequence of successful and refused calls.",
  ["histories", "inputs"], "all sequences of public calls, with valid and invalid arguments",
  "Tests never look at outstanding memory, and error returns are only checked for their status.",
  ["src/nesta.c", "src/l1qc_dct.c", "src/l1qc_newton.c", "src/bregman.c", "src/dct_tv_transforms.c"],
  [("paired allocation and clean-up", "all public entry points")], [("outstanding resources", "heap blocks and FFTW plans owned by the library", "harness allocation table")], ["call return"])

p("C19", "Python binding is a faithful, leak-free view of the C solvers",
  "For every accepted argument list the Python functions return an array of the image's shape equal to what the corresponding C call returns for the same data and options (any array layout, order or convertible dtype), map every keyword to its option, and never modify their arguments. "
  "Wrong types, wrong dimensions, inconsistent lengths, invalid modes or indices and solver failures raise a Python exception of the function's own (never the interpreter's SystemError for a failure without one) instead of returning data. "
  "Repeated calls neither leak references or memory nor keep transforms alive.",
  ["inputs", "histories", "configurations"], "all argument lists and array layouts, all keyword options, repeated calls",
  "The Python tests call each function once or twice on one stored problem.",
  ["interfaces/python/l1cPy.c"], [("argument parsing and NPY_ARRAY_IN_ARRAY conversion", "interfaces/python/l1cPy.c"), ("copy-out and reference bookkeeping", "interfaces/python/l1cPy.c PyArray_SimpleDoubleCopy")], (), ["Python call return", "reference counts"])

p("C20", "Octave/Matlab binding is a faithful view of the C solvers",
  "The mex functions return matrices of the documented shape holding what the C solver computes for the same data and options: l1qc_dct (an mrow*mcol column) and nesta_dctTV (an mrow-by-mcol image, read in memory order) for the same mrow, mcol, b and the 1-based sample positions minus one; breg_anistropic_TV turns an m-by-n image into the denoised m-by-n image, non-square ones included. Every option field reaches its C option, and l1qc_dct_opts/nesta_opts supply the defaults written in them. "
  "Missing or mistyped fields and arguments, sparse, complex or non-vector data, inconsistent sizes and out-of-range positions raise an error; a failing solver or allocation raises an error or shows in the returned status, never as a silently wrong result. "
  "The caller's variables are unchanged, and no call leaves memory or transforms behind or writes outside its buffers.",
  ["inputs", "configurations", "fault_sequences"], "all image shapes, sample sets, option structs, argument errors and allocation failures",
  "The mex tests use square images and one stored problem.",
  ["interfaces/mex/l1qc_dct_mex.c", "interfaces/mex/nesta_dctTV_mex.c", "interfaces/mex/breg_anistropic_TV_mex.c", "interfaces/mex/l1c_mex_utils.c"],
  [("argument checks and index shift", "interfaces/mex/*_mex.c, l1c_mex_utils.c")], (), ["mex call return"])

p("C21", "All solver output goes through the replaceable sink and obeys verbosity",
  "Replacing the print function returns the previous one and redirects every later progress or diagnostic message of the solvers to the new sink until it is replaced again. "
  "With verbosity 0 a successful solver call prints no progress report: nothing at all, apart from the warnings about a failed line search, an unsolved Newton system or a complex step bound, which go to the sink; successful calls never write directly to standard output or standard error. With verbosity v > 0 the CG solvers report exactly the iterations divisible by v, nesta announces every continuation step and reports the inner iterations divisible by v, and the l1qc solver reports once per log-barrier iteration, adding a line per Newton iteration from v = 2 on and CG reports as asked for by cg_verbose. "
  "The chosen verbosity or sink never changes a numerical result.",
  ["histories", "configurations", "inputs"], "all sequences of sink replacement and solver calls, all verbosity settings",
  "One test replaces the sink once and prints one message.",
  ["src/l1c_logging.c", "src/cgsolve.c", "src/nesta.c", "src/l1qc_newton.c", "src/l1qc_dct.c", "src/linesearch.c"],
  [("function pointer l1c_printf", "src/l1c_logging.c"), ("modulo reporting", "src/cgsolve.c cg_report")], [("l1c_printf", "current sink", "src/l1c_logging.c")], ["sink callback", "standard output"])

p("C22", "JSON loader returns exactly the file's values or an error",
  "For every regular file, loading succeeds when it can be read and holds a valid JSON document, and fails when no JSON value can be parsed from it; then each extractor returns 0 with exactly the stored number or numeric array (all lengths, order preserved; integer extractors: integral values in the range of int) when the named field, whose name is matched exactly, exists with the right type. "
  "A missing or unreadable file or directory, an empty or malformed document, a missing field, a wrong type or an array with non-numeric elements yields a non-zero status, never a crash or stale success, and array extractors then report length 0. "
  "Nothing is leaked: after the caller releases what it was given, no memory or file handle remains.",
  ["inputs", "fault_sequences"], "all files and field names, all array lengths, allocation failures",
  "The loader is only used to read well-formed test data.",
  ["src/json_utils.c"], [("read whole file, parse, type checks", "src/json_utils.c")], (), ["return of the loader functions"])

p("C23", "Solvers use the caller's operators only as documented",
  "While a solver runs it calls the operators it was handed (the transform set of l1qc and NESTA, the matrix product of the CG solvers, the objective of the line searches) only between its entry and its return and from the calling thread, each time with an input vector of the operator's full input length that holds initialised values, an output vector of its full output length that does not overlap the input, and, for CG and line search, the caller's dimension and data pointer. "
  "It never calls the set's destroy function and changes neither the caller's operator set nor its read-only vectors. The same holds for calls that end early: operator sets NESTA must refuse, infeasible starts, failed allocations; these report a nonzero status.",
  ["inputs", "histories"], "all solvers, sizes (n, m, p different), operators and numbers of callbacks",
  "The tests use the library's own transforms, which do not look at what they are given.",
  ["src/l1qc_newton.c", "src/nesta.c", "src/cgsolve.c", "src/linesearch.c"],
  [("calls through l1c_AxFuns, AX_func and the objective pointer", "src/l1qc_newton.c, src/nesta.c, src/cgsolve.c, src/linesearch.c")],
  [("stack of active calls", "which call's operators may be called on a thread", "spec/TraceCalls.tla")], ["entry of every caller-supplied function"])

p("C24", "Solver calls are reentrant: nested or concurrent calls stay independent",
  "Solver calls that overlap in time, because one is made inside an operator or objective callback of another or because several threads run them at once, each return what they return on their own (same status, same result to rounding). "
  "This covers both CG solvers, both line searches, l1qc and NESTA with caller-supplied operators, TV denoising and, at most one at a time, the DCT front end, in any mixture and any interleaving at callback boundaries; the library's own transform sets stay limited to one live set per family.",
  ["schedules", "histories"], "all interleavings and nestings of up to three calls at callback boundaries, all solver mixtures",
  "The tests run one solver at a time; shared scratch memory gives right answers then.",
  ["src/l1qc_newton.c", "src/nesta.c", "src/cgsolve.c", "src/linesearch.c", "src/bregman.c"],
  [("work memory allocated per call, no file-scope solver state", "src/l1qc_newton.c _l1c_l1qcProb_new, src/nesta.c _l1c_NestaProb_new, src/bregman.c l1c_breg_anistropic_TV")],
  [("mem", "work memory of each active call", "spec/Calls.tla")], ["return of each solver call"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
