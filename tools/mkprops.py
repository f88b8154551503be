#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the file stays consistent)."""
import json, os
P=[]
def p(id,title,st,over,text,why,files,mech):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech])))
T="Tests solve a few fixed examples and random QPs through one Octave entry point; they sample neither "
p("C01","A successful solve returns a KKT point of the QP it was given",
 "Whenever an initial solve or a hotstart of any problem class reports success, the returned primal vector satisfies all bounds and constraints of the QP passed in that call, and together with the returned multipliers satisfies stationarity, complementarity and the documented multiplier signs (>=0 at lower, <=0 at upper limits), to solver accuracy. This holds for every well-posed convex QP or LP, every matrix representation and every entry point, at the first and at every later call; solver accuracy is absolute 1e-5 for data of order one and relative to the size of the solution for distant ones.",
 ["inputs","histories","configurations"],"all convex QPs x problem classes x matrix representations x call sequences",
 T+"the space of active-set change sequences nor of representations and call histories, and several assert only that the call succeeded.",
 ["src/QProblemB.cpp","src/QProblem.cpp","src/SQProblem.cpp","src/Flipper.cpp"],
 [("homotopy loop and step to the new data","QProblemB::solveQP, QProblem::solveQP, performStep"),("working set exchange and factorisation updates","addBound/removeBound/addConstraint/removeConstraint"),("auxiliary QP","setupAuxiliaryQPsolution/gradient/bounds")])
p("C02","A hotstart gives the same answer as a cold start, whatever the history",
 "The solution obtained for a QP by hotstarting depends only on that QP: after any sequence of earlier solves on the same object, including ones stopped by the iteration limit, by infeasibility or by unboundedness, a hotstart that succeeds returns the same primal solution (when unique), optimal value and optimality certificate as a fresh object solving it from scratch. A well-posed feasible QP that a fresh object solves is also solved by hotstart from any successfully solved QP (degenerate problems only with ramping enabled, which is the documented means against them).",
 ["histories","inputs"],"all finite sequences of QPs with common dimensions, and all preceding outcomes",
 T+"sequences longer than a handful or sequences that pass through failed solves.",
 ["src/QProblemB.cpp","src/QProblem.cpp"],
 [("data shift and homotopy from the last iterate","determineDataShift, solveQP"),("ramping, far bounds and drift correction of retained state","performRamping, updateFarBounds, performDriftCorrection"),("restoring of flipped bounds","Flipper")])
p("C03","Infeasibility is reported exactly for infeasible QPs",
 "If no point satisfies the given bounds and constraints, no solve of that QP reports success: it ends with an infeasibility return code and the object reports itself infeasible. If a point satisfying them exists (with or without strict interior), the solve never ends with an infeasibility verdict, and the object does not report itself infeasible after solving it, even when an earlier QP on the same object was infeasible.",
 ["inputs","histories"],"all bound/constraint systems, cold starts and hotstarts, before and after infeasible ones",
 "One test drives one object to infeasibility once; crossing limits, linearly dependent constraints, and recovery afterwards are not covered.",
 ["src/QProblemB.cpp","src/QProblem.cpp"],
 [("consistency test of limits at hotstart","areBoundsConsistent / hotstart"),("linear independence exchange and infeasibility detection","addBound_ensureLI, addConstraint_ensureLI"),("flag","setInfeasibilityFlag")])
p("C04","Unboundedness is reported exactly for unbounded QPs",
 "If a feasible convex QP or LP with moderately scaled data has no finite infimum, no solve of it reports success: it ends with an unboundedness return code and the object reports itself unbounded. A QP whose finite optimum is attained on a bounded set never ends with an unboundedness verdict, even when an earlier QP on the same object was unbounded or the solution is far from the origin.",
 ["inputs","histories"],"all convex QPs/LPs incl. singular Hessians and missing bounds, any preceding history",
 "A single van-Barel example is the only unbounded test.",
 ["src/QProblemB.cpp","src/QProblem.cpp"],
 [("far bounds","updateFarBounds, solveQP"),("curvature test on removal","ensureNonzeroCurvature"),("flag","unbounded")])
p("C05","Lifecycle states gate operations and results",
 "A problem object is always in a state of the documented lifecycle: uninitialised after construction and reset, solved after a successful solve, and usable for hotstarts only when it holds a solved or interrupted QP. Hotstarting an uninitialised object fails with the dedicated code and changes nothing; the primal solution is handed out only while the object holds one and otherwise the dedicated failure is returned; status queries (initialised, solved, infeasible, unbounded) agree with the outcome of the last operation.",
 ["histories"],"all finite interleavings of construct, init, hotstart, reset, copy, assign, query and failing calls",
 "Tests follow one straight-line life per object.",
 ["src/QProblemB.cpp","src/QProblem.cpp","src/SQProblem.cpp","include/qpOASES/Types.hpp"],
 [("status variable transitions","solveInitialQP, hotstart, solveQP, reset"),("gated accessors","getPrimalSolution, getObjVal")])
p("C06","Iteration and time budgets are obeyed; an interrupted solve can be resumed",
 "A solve never performs more working set changes than allowed and reports the number it performed (k changes need a budget of at least k+1, limits that cross need none); when the budget runs out it says so with the dedicated code, and an unconstrained-budget continuation of the same QP reaches the same optimum as an uninterrupted solve, for every budget including zero. A CPU time budget that is already exhausted allows at most one more iteration before the solve ends with that code and leaves the object resumable; a generous one changes nothing.",
 ["histories","inputs"],"every budget value at every call of every sequence",
 "Tests always give ample budgets.",
 ["src/QProblemB.cpp","src/QProblem.cpp"],
 [("iteration loop and its limit","solveQP"),("nWSR accounting across init and hotstart/regularisation steps","solveInitialQP, hotstart, solveRegularisedQP")])
p("C07","The reported working set is consistent with the solution",
 "After every successful solve the reported working set partitions variables into free and fixed and constraints into active and inactive, its counts agree with each other and with the per-index states, active members are exactly at the limit they claim, inactive ones carry a zero multiplier, multipliers of active members have the sign of their side, and the active gradients are linearly independent. Equalities are reported as such.",
 ["inputs","histories"],"all QPs and solve sequences, including degenerate and linearly dependent active sets",
 "Tests check working sets of one or two examples.",
 ["src/Bounds.cpp","src/Constraints.cpp","src/QProblem.cpp","src/QProblemB.cpp"],
 [("working set reporting","getWorkingSet*, getNFR/getNFX/getNAC/getNZ"),("LI maintenance","addConstraint_checkLI, addBound_checkLI")])
p("C08","Index lists behave as ordered sets without duplicates",
 "An index list always holds pairwise different numbers in insertion order: appending, removing, swapping, searching, copying and enumerating give exactly the results of a finite sequence with a sorted view, and misuse (full list, foreign or negative number, position out of range) is rejected or ignored without reading or writing outside the list.",
 ["histories","inputs"],"all operation sequences on lists of any capacity",
 "One test does a fixed script of operations.",
 ["src/Indexlist.cpp","include/qpOASES/Indexlist.hpp"],
 [("sorted index maintenance","findInsert, addNumber, removeNumber, swapNumbers")])
p("C09","Bound and constraint bookkeeping stays a partition under every operation",
 "Through every sequence of set-up, move, flip, swap, shift, rotate, type and status changes and copying, each bound (constraint) is in exactly one of the free/fixed (inactive/active) sets, consistent with its recorded state, and the counts of equalities, implicitly unbounded, bounded and free members match the recorded types. Invalid operations return an error; adding a member twice is outside the contract.",
 ["histories"],"all operation sequences on bound/constraint sets of any size",
 "Tests exercise these objects only as a by-product of solving.",
 ["src/Bounds.cpp","src/Constraints.cpp","src/SubjectTo.cpp"],
 [("index set moves","moveFixedToFree, moveFreeToFixed, flipFixed, moveActiveToInactive, flip"),("shift/rotate","shift, rotate")])
p("C10","Copies are equivalent and independent",
 "A copy-constructed or assigned problem object is indistinguishable from its source in every query and in the result of every later operation, and operations on or destruction of either never affect the other. The same holds for copies of options, bounds, constraints, index lists and owned matrices.",
 ["histories","configurations"],"copy or assign at any point of any history, of any class, onto fresh or used objects, then any continuation on both",
 "No test continues on both sides of a copy.",
 ["src/QProblemB.cpp","src/QProblem.cpp","src/SQProblem.cpp","src/Flipper.cpp","src/Bounds.cpp","src/Constraints.cpp"],
 [("copy/clear pairs","copy(), clear(), operator="),("matrix duplication","duplicate, duplicateSym")])
p("C11","The caller's data is never modified or freed; vectors need not outlive the call",
 "No call writes to or frees the arrays, matrices, files or guessed-set objects passed as inputs, nothing but the matrices is referenced after the call returns, so callers may overwrite or free the vectors immediately, and the memory a problem object obtains for itself is released with it.",
 ["inputs","histories"],"all calls, all option settings (regularisation included), all sequences",
 "Tests keep their inputs alive and never compare them afterwards.",
 ["src/QProblemB.cpp","src/QProblem.cpp","src/SQProblem.cpp","src/Matrices.cpp"],
 [("storage of vectors","setG, setLB, setUB, setLBA, setUBA"),("regularisation of the Hessian","regulariseHessian, addToDiag")])
p("C12","Every matrix class computes exactly the operations of the matrix it stores",
 "For every dense or sparse, symmetric or general, row- or column-oriented matrix object and every operation of the interface (products and transposed products with all scalar factors and several right-hand sides, full or restricted to ordered index lists, compressed or not, row and column extraction, diagonal, norms, bilinear form, submatrix extraction, duplication), the result equals that of the mathematical matrix, except where the class documents an operation as not implemented or as needing preparation; no operation reads or writes outside its operands.",
 ["inputs","configurations"],"all matrices, index lists, scalars, leading dimensions and numbers of right-hand sides",
 "Three tests compare a few operations for one random or fixed matrix with xN=1 and alpha=1 mostly.",
 ["src/Matrices.cpp","src/BLASReplacement.cpp","include/qpOASES/Matrices.hpp"],
 [("special-cased scalar branches","times/transTimes"),("sorted traversal of index lists","getRow, getCol, getSparseSubmatrix, bilinear")])
p("C13","Option sets: presets, consistency repair and copies",
 "The default, reliable and fast/MPC presets yield their documented settings from any prior state, repairing an option set changes exactly the settings that are outside their valid range, makes the set valid and says whether anything was adjusted, and copying an option set or handing it to a problem object and reading it back reproduces every setting.",
 ["inputs","histories"],"all combinations of option values and all orders of preset/repair/copy operations",
 "Tests only ever use presets.",
 ["src/Options.cpp","include/qpOASES/Options.hpp"],
 [("range repair","ensureConsistency"),("copy","Options::copy"),("presets","setToDefault/Reliable/MPC/Fast")])
p("C14","Invalid input is rejected without damage",
 "Null or missing mandatory data, contradictory guesses, a hotstart without the matrices it requires, wrong indices and unreadable files are rejected with an error return (guesses of wrong size may be ignored instead; NaN is not considered), without crashing, without leaking or corrupting memory, and leave an object that can still be reset or initialised and then solves correctly.",
 ["inputs","histories","fault_sequences"],"every documented argument precondition violated, in every lifecycle state",
 "Tests pass only valid arguments.",
 ["src/QProblemB.cpp","src/QProblem.cpp","src/SQProblem.cpp","src/Utils.cpp"],
 [("argument checks","init, hotstart overloads"),("file loading","readFromFile, loadQPvectorsFromFile, setupQPdataFromFile")])
p("C15","File-based, C and benchmark interfaces give the results of the C++ interface",
 "Solving a QP from data files, through the C interface or through the benchmark-sequence functions returns the same outcome, solution, multipliers, objective value and iteration count as the corresponding in-memory C++ calls with the same options, and data written to a file (text or MAT) reads back as the same data.",
 ["inputs","histories"],"all QPs and sequences through each interface",
 "Three fixed examples cover the C interface; file entry points are barely used.",
 ["interfaces/c/qpOASES_wrapper.cpp","src/Utils.cpp","src/OQPinterface.cpp","src/QProblem.cpp"],
 [("wrapper object management and option transfer","qpOASES_wrapper.cpp"),("matrix/vector file I/O","readFromFile, writeIntoFile"),("sequence runner","solveOqpBenchmark, runOqpBenchmark")])
p("C16","Initial guesses never change the answer",
 "Supplying any guess of the primal solution, the multipliers, the working set, right or wrong, consistent or not, or (where permitted) the correct Cholesky factor of the Hessian, changes at most the number of iterations: a convex QP that is solvable from scratch yields a certified optimum with the same value, and guesses that may not be combined are rejected with the dedicated code (singular Hessians require regularisation to be enabled).",
 ["inputs","configurations"],"all guesses of every kind and combination, at init and at hotstart",
 "One test uses one guessed working set.",
 ["src/QProblemB.cpp","src/QProblem.cpp"],
 [("auxiliary working set from guesses","obtainAuxiliaryWorkingSet, setupAuxiliaryWorkingSet"),("auxiliary solution","setupAuxiliaryQPsolution")])
p("C17","Options and output settings change the path, never the answer",
 "For a well-posed convex QP sequence, every documented preset and every setting of the strategy switches (ramping, far bounds, flipping bounds, regularisation, full independence tests, curvature tests, drift correction, refactorisation, equality treatment, initial bound status, print level) leads to the same verdict and, on success, to the same solution and optimal value; singular Hessians need the switches documented for them (regularisation, or flipping with far bounds).",
 ["configurations","inputs"],"all combinations of the strategy switches x QP sequences",
 "Tests fix one preset per example.",
 ["src/Options.cpp","src/QProblemB.cpp","src/QProblem.cpp"],
 [("strategy branches","solveQP, setupSubjectToType, performRamping, performDriftCorrection")])
p("C18","The reported objective value is that of the reported solution",
 "After a successful solve, the reported objective equals the objective function of the given QP evaluated at the returned solution (regularisation excluded), equals the value reported when asking explicitly for that point, and equals the optimal value; while no point is held the documented infinite value is reported.",
 ["inputs","histories","configurations"],"all Hessian kinds, regularisation on or off, all solve histories",
 "Few tests compare objective values, none with regularisation or implicit Hessians.",
 ["src/QProblemB.cpp"],[("objective evaluation","getObjVal"),("regularisation correction","usingRegularisation, regVal")])
p("C19","Messages are filtered by visibility and never alter results",
 "The message handler prints a message if and only if output of its class (error, warning, info) and of its origin is enabled, always returns the code it was given, counts errors as documented, and reproduces its default visibility settings when reset; print levels only switch these and never change what a solve computes.",
 ["histories","configurations"],"all sequences of visibility changes and messages",
 "No test inspects message visibility.",
 ["src/MessageHandling.cpp","include/qpOASES/MessageHandling.hpp","src/QProblemB.cpp"],
 [("visibility checks","throwMessage, throwError/Warning/Info"),("print level mapping","setPrintLevel")])
p("C20","Solution analysis and equality-constrained re-solves are exact",
 "For a solved problem, the reported KKT violation (overall and split into stationarity, feasibility, complementarity) is that of the stored point for the stored QP, solving with the current working set for new data returns the exact solution of the equality constrained QP without altering the object, and the propagated covariance equals the one of the linear map from data to solution on the current working set.",
 ["inputs","histories"],"all solved problems, all right-hand sides (any number of them)",
 "Only fixed examples print these quantities.",
 ["src/SolutionAnalysis.cpp","src/Utils.cpp","src/QProblem.cpp"],
 [("KKT residuals","getKktViolation"),("EQP solve","solveCurrentEQP, determineStepDirection"),("covariance","getVarianceCovariance")])
p("C21","The Schur-complement variant solves the same QPs",
 "With an exact sparse linear solver behind it, the Schur-complement problem class gives for every sequence of strictly convex QPs (matrices changing or not) the same verdicts and certified optimal solutions as the dense class, for every limit on the number of accumulated updates, its working set reports are consistent in the same sense, and checking the curvature at a solution confirms strict convexity and changes neither the object nor later results.",
 ["inputs","histories","configurations"],"all sequences of strictly convex QPs and all update limits",
 "In this build configuration the Schur tests solve nothing, as no sparse solver is linked.",
 ["src/SQProblemSchur.cpp","include/qpOASES/SQProblemSchur.hpp"],
 [("Schur complement updates","addToSchurComplement, deleteFromSchurComplement, updateSchurQR"),("inertia correction, refactorisation","correctInertia, resetSchurComplement")])
p("C22","Hotstarts with new matrices solve the new QP",
 "Hotstarting with a new Hessian and constraint matrix (dense, sparse, with or without other Hessian type, from arrays, objects or files) solves the QP with the new matrices and forgets the old ones, later vector-only hotstarts refer to the new matrices, and a rejected matrix update leaves an object that can be initialised again.",
 ["histories","inputs"],"all alternations of matrix and vector hotstarts over arbitrary convex matrices",
 "One small example alternates matrices twice.",
 ["src/SQProblem.cpp","src/QProblem.cpp"],
 [("re-setup of the auxiliary QP for new matrices","setupNewAuxiliaryQP"),("refactorisation","setupTQfactorisation, computeProjectedCholesky")])
p("C23","Special Hessians are treated as what they are",
 "Declaring or detecting the Hessian as zero, identity, diagonal, semidefinite or positive definite never changes which QP is solved: an LP given by a null or zero Hessian, an identity Hessian given implicitly or explicitly and a singular Hessian with regularisation are solved to their exact optimal value, and the regularisation leaves no trace in solution, objective or later solves.",
 ["inputs","configurations","histories"],"all Hessian kinds x declarations x regularisation settings x sequences",
 "A single LP example and a single identity-Hessian example.",
 ["src/QProblemB.cpp","src/QProblem.cpp","include/qpOASES/Types.hpp"],
 [("Hessian classification","determineHessianType, setHessianType"),("regularised sequence","regulariseHessian, solveRegularisedQP"),("identity/zero branches","throughout solveQP, setupCholeskyDecomposition")])
p("C24","User-supplied constraint products are equivalent to the matrix product",
 "When the caller installs a routine that evaluates constraint rows at a point, solves use it as a drop-in for the corresponding matrix product: outcome, solution and multipliers are those without it, removing or resetting it restores the plain behaviour, and copies of the object keep using it.",
 ["histories","configurations"],"all QP sequences, with the routine installed or removed at any point",
 "Two tests that need data files not shipped cover it.",
 ["src/QProblem.cpp","include/qpOASES/ConstraintProduct.hpp"],
 [("constraint product call sites","performStep, setConstraintProduct, areBoundsConsistent")])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,'properties.jsonl'),'w') as f:
    for q in P:
        assert len(q['title'])<=80,q['title']
        f.write(json.dumps(q)+"\n")
print(len(P))
