# Property texts.  P(id, title, statement, over, quantifier text, why tests can't, files, [(mechanism, where)])
PROPS = []; NA = []
def P(id, title, st, over, qt, why, files, mech): PROPS.append(dict(id=id, title=title, statement=st, over=over.split(), qt=qt, why=why, files=files.split(), mech=mech))
A = "src/Algorithm/"; I = "src/Interfaces/"; L = "src/LinAlg/"; C = "src/Common/"; S = "src/Algorithm/LinearSolvers/"; T = "src/LinAlg/TMatrices/"
P("C01", "The solver sees exactly the user's problem",
  "Whatever bounds, constraint sides, sparsity (C or Fortran numbering, repeated entries) and fixed-variable treatment a user's problem has, the problem handed to the algorithm has the same free variables, the same finite bounds attached to the same variables, equality constraints shifted by their right-hand side, inequality constraints with their sides, and at every point the same objective, gradient, constraints, Jacobian and Lagrangian Hessian as the user's functions. Fixed variables are removed, turned into constraints or kept as selected, and contradictory bounds are rejected.",
  "inputs configurations", "all bound values and patterns, all coefficient values, all evaluation points, fixed-variable treatments; small dimensions",
  "tests solve a handful of fixed problems to optimality; wrong mapping of an unusual bound/fixed/duplicate combination is not exercised", I + "IpTNLPAdapter.cpp " + A + "IpOrigIpoptNLP.cpp",
  [("problem translation", "TNLPAdapter::GetSpaces, GetBoundsInformation, Eval_*"), ("position maps", "ExpansionMatrix, GenTMatrix, SymTMatrix")])
P("C02", "The user receives the solution in their own terms",
  "When a solve ends, the user's final callback is given, for every original variable and constraint in the original order, the primal value, bound multipliers with the documented sign, constraint values including the right-hand side and constraint multipliers that correspond to the internal solution, with fixed variables at their fixed value and with multipliers that make the Lagrangian stationary in them. This holds for every kind of problem structure, fixed-variable treatment and for every ending with a solution (also iteration and time limits).",
  "inputs configurations", "all internal solution vectors, bound patterns, fixed-variable treatments, end statuses", "tests compare optimal values of fixed examples, not the mapping for arbitrary internal vectors or non-success endings",
  I + "IpTNLPAdapter.cpp " + A + "IpOrigIpoptNLP.cpp", [("back-mapping", "TNLPAdapter::FinalizeSolution, ResortX, ResortG, ResortBounds, ResortBoundMultipliers")])
P("C03", "Failing evaluations are contained",
  "If a user function reports failure or returns a non-finite value at any point of a run, the solve still returns with one delivery of finite values and a matching status, never with an escaping exception: failure at the starting point is reported as an invalid number, a failing trial point is skipped by shortening the step, and success is only reported for a point that satisfies the optimality conditions. No value of a failed evaluation is used later: a request for a function value either fails or returns the value at the requested point.",
  "fault_sequences histories", "position, kind and persistence of the failing evaluation; histories of evaluation requests", "tests have no failing user functions except none at all in most paths; positions of faults cannot be enumerated by hand",
  " ".join([I + "IpTNLPAdapter.cpp", A + "IpOrigIpoptNLP.cpp", A + "IpBacktrackingLineSearch.cpp", A + "IpFilterLSAcceptor.cpp", A + "IpIpoptAlg.cpp", I + "IpIpoptApplication.cpp"]),
  [("evaluation guard", "OrigIpoptNLP::f, grad_f, c, d, jac_c, jac_d, h"), ("trial point rejection", "BacktrackingLineSearch::DoBacktrackingLineSearch"), ("tag invalidation", "TNLPAdapter::internal_eval_g"), ("status mapping", "IpoptApplication::call_optimize")])
P("C04", "Limits and stop requests end a run cleanly",
  "A stop request from the user's iteration callback, reaching the iteration limit, or passing the CPU or wall clock limit ends the run at the next check with exactly the corresponding status, at whatever iteration and in whatever phase it happens, and no run stops with such a status otherwise. The solution is still delivered exactly once, with finite values belonging to the reported point; iteration numbers start at zero and advance by one and the statistics count all iterations.",
  "schedules histories", "iteration of the stop request, value of the limit, clock reading at which the limit passes; ten problems, complete runs", "tests run to convergence and never stop a run in the middle",
  " ".join(A + f for f in "IpIpoptAlg.cpp IpOptErrorConvCheck.cpp IpRestoMinC_1Nrm.cpp IpRestoConvCheck.cpp IpIpoptData.cpp".split()) + " " + I + "IpIpoptApplication.cpp", [("termination test", "OptimalityErrorConvergenceCheck::CheckConvergence"), ("status hand-over", "IpoptAlgorithm::Optimize, IpoptApplication::call_optimize"), ("iteration count", "MinC_1NrmRestorationPhase")])
P("C05", "Termination tests mean what is documented",
  "Convergence is declared exactly when the scaled optimality error and the unscaled dual infeasibility, constraint violation and complementarity are within their tolerances; acceptable termination only after the configured number of consecutive acceptable iterates with small objective change; divergence and the iteration limit exactly when their thresholds are exceeded; the user's callback sees the measures of the current iterate. A problem whose variables are all fixed is reported solved or infeasible according to its constraint violation.",
  "inputs histories", "arbitrary iterates (all measures), tolerances, scaling incl. negative objective factor; histories of up to three checks", "tests reach termination only through ordinary convergence; boundary cases of each tolerance, acceptable counters and scaling are not exercised",
  A + "IpOptErrorConvCheck.cpp " + A + "IpIpoptCalculatedQuantities.cpp " + I + "IpIpoptApplication.cpp", [("convergence test", "OptimalityErrorConvergenceCheck::CheckConvergence, CurrentIsAcceptable"), ("all-fixed problems", "IpoptApplication::call_optimize")])
P("C06", "Options return what was set, within registered limits",
  "An option value is accepted exactly if the option is registered with that type and the value is valid for it, and reading the option afterwards returns exactly the accepted value, or the registered default if none is set; overwrite permission, set-if-unset, unset, copying of option lists and prefixes follow their documentation for every history of operations. All defaults of the options the solver registers are valid.",
  "inputs histories", "all numeric, integer and short string values; histories of 3-4 operations; all registered options", "tests set a few options to ordinary values and never check the value that comes back",
  C + "IpOptionsList.cpp " + C + "IpRegOptions.cpp", [("validation", "RegisteredOption::IsValid*Setting"), ("storage", "OptionsList::Set*Value, Get*Value, find_tag, will_allow_clobber")])
P("C07", "An options file means exactly what it says or is rejected",
  "Reading an options file sets exactly the pairs of option name and value that are written in it, in order: names and values are separated by white space, quotation marks protect blanks, everything from a hash sign to the end of the line is ignored, and numbers (also with a Fortran exponent) keep their exact value. A file with an unfinished quotation, a name without a value, an unknown name, or a value that is not a number of the required kind or range is rejected, never read as something else.",
  "inputs", "all texts of a few characters over an alphabet of letters, digits, blanks, quotation marks and comment signs, all integer values", "tests read one well-formed options file",
  C + "IpOptionsList.cpp " + I + "IpIpoptApplication.cpp", [("tokenizing", "OptionsList::readnexttoken"), ("value conversion", "OptionsList::ReadFromStream")])
P("C08", "Shared objects live exactly as long as they are referenced",
  "An object managed by counted pointers exists as long as at least one pointer refers to it and is destroyed exactly once, at the moment the last one is released, whatever sequence of assignments, copies, self-assignments, conversions, containers and nested ownership led there. A pointer always refers to the object last assigned to it, and comparing pointers compares identities.",
  "histories", "all short sequences of pointer operations over several pointers and objects that own each other", "lifetime errors depend on unusual orders of assignment; tests run without memory checking",
  C + "IpSmartPtr.hpp " + C + "IpReferenced.hpp", [("reference counting", "SmartPtr::SetFromRawPtr_, ReleasePointer_, ReferencedObject")])
P("C09", "Cached results are returned only for unchanged dependencies",
  "A cached result is found exactly if it was stored for the same objects in the same state and the same scalar arguments and has not been pushed out by newer results; after any of its dependencies changed or was destroyed it is never returned again. This holds for every history of storing, looking up, changing, destroying, invalidating, clearing and for every cache size.",
  "histories", "all short operation histories, cache sizes, arbitrary scalar dependencies", "stale hits appear only after particular histories of changes and destroyed objects; tests have no access to caches",
  C + "IpCachedResults.hpp " + C + "IpTaggedObject.cpp " + C + "IpTaggedObject.hpp " + C + "IpObserver.cpp " + C + "IpObserver.hpp", [("cache", "CachedResults, DependentResult"), ("change notification", "Observer, Subject, TaggedObject")])
P("C10", "Dense vector algebra computes what it says",
  "Every operation on dense vectors (copies, linear combinations, element-wise operations, norms, dot products, extrema, step fractions, quotients, sums of logarithms, moving values between positions) gives the mathematical result for all operand values, no matter whether the operands are stored element by element or as one repeated value, whether operands alias, and regardless of cached results of earlier operations.",
  "inputs histories", "all values, both representations of every operand, operand aliasing; short sequences with caching", "unit tests do not exist for vectors; example runs use few representation combinations",
  L + "IpDenseVector.cpp " + L + "IpVector.hpp " + L + "IpBlas.cpp", [("representation cases", "DenseVector::*Impl"), ("result caching", "Vector (tags and cached norms)")])
P("C12", "Matrices of every kind act as the matrix they represent",
  "For every kind of matrix (triplet, dense, diagonal, identity, zero, expansion, transposed, scaled, sums, blocks, collections of vectors, low-rank updates), products with a vector and with the transpose, sums with given factors, largest absolute entries per row and column, and the combined products with quotients used in the step computation all equal those of the explicit matrix, for all values, positions and factors and every vector representation. A matrix is called valid exactly if all its entries are finite.",
  "inputs", "all entries, positions, factors, absent blocks and vector representations; small dimensions", "the example problems use few matrix kinds and never the unusual factors, absent blocks or representations",
  " ".join(L + f for f in "IpMatrix.cpp IpCompoundMatrix.cpp IpCompoundSymMatrix.cpp IpExpansionMatrix.cpp IpSumSymMatrix.cpp IpScaledMatrix.cpp IpLowRankUpdateSymMatrix.cpp IpDenseGenMatrix.cpp".split()) + " " + T + "IpGenTMatrix.cpp " + T + "IpSymTMatrix.cpp", [("products", "*Matrix::MultVectorImpl, TransMultVectorImpl"), ("combined products", "AddMSinvZImpl, SinvBlrmZMTdBrImpl")])
P("C13", "Triplet and compressed-row forms represent the same matrix or vector",
  "For every supported matrix or vector, the number of entries, the positions (with any row and column offsets) and the values produced in triplet form describe exactly that matrix or vector, and unsupported kinds are refused. The conversion to compressed rows, in each storage layout, sums repeated entries, keeps rows without entries, and yields the same matrix also when reused for other values.",
  "inputs", "all values, positions, repeated and missing entries, offsets and storage layouts; small dimensions", "tests use one linear solver and a few matrices; a misplaced entry in an unusual block or layout stays unseen",
  T + "IpTripletHelper.cpp " + "src/Algorithm/LinearSolvers/IpTripletToCSRConverter.cpp", [("triplets", "TripletHelper::FillRowCol, FillValues"), ("compressed rows", "TripletToCSRConverter::InitializeConverter, ConvertValues")])
P("C15", "Symmetric linear systems are solved for the right matrix and scaling",
  "Whatever linear solver, storage layout and scaling are configured, the solver is always given the current matrix scaled by the current factors, is told whether the matrix is new exactly when it changed or scaling was switched on, and solutions are scaled back consistently. Its answers (singular, wrong inertia, again, failed) are passed on and stale factors, factors of a failed call or old scaling are never used for a later request.",
  "histories", "sequences of requests, all matrix values, right-hand sides, scaling factors and all answers of the linear solver", "tests never see failures of the linear solver nor scaling switched on in between",
  "src/Algorithm/LinearSolvers/IpTSymLinearSolver.cpp src/Algorithm/LinearSolvers/IpSlackBasedTSymScalingMethod.cpp", [("requests", "TSymLinearSolver::MultiSolve, IncreaseQuality"), ("scaling", "SlackBasedTSymScalingMethod")])
P("C16", "Every answer of the MUMPS library leads to the documented outcome",
  "For any sequence of requests, the values, pivot tolerance and memory setting in force are those handed to the factorization library, which is only asked to solve with valid factors of the current matrix. Every answer (singular, wrong inertia, more memory needed, failure) leads to the documented outcome: memory is really increased up to a limit, success is never reported without a valid solution, and the reported inertia and dependent rows are those found.",
  "fault_sequences", "sequences of requests with arbitrary answers of the library in every phase", "the library practically never fails or runs out of memory in tests",
  "src/Algorithm/LinearSolvers/IpMumpsSolverInterface.cpp src/Common/IpUtils.hpp", [("phases", "MumpsSolverInterface::MultiSolve, SymbolicFactorization, Factorization, Solve"), ("memory", "ComputeMemIncrease"), ("dependent rows", "MumpsSolverInterface::DetermineDependentRows")])
P("C19", "The inertia correction follows its documented rule and never gets stuck",
  "For every sequence of reports about the factorized system (new, singular, wrong inertia), option values and barrier parameters, the regularization of the Hessian and constraint blocks follows the documented rule: first value, growth and decrease factors, limits, regularization of dependent constraints, and conclusions about structural degeneracy. Within one system every further attempt uses a different regularization until the limit is exceeded, and giving up does not affect later systems.",
  "histories configurations", "sequences of reports; all option values and barrier parameters", "tests see few singular systems; the states reached only after giving up or after repeated singularity are not visited",
  A + "IpPDPerturbationHandler.cpp", [("corrections", "PDPerturbationHandler::ConsiderNewSystem, PerturbForSingularity, PerturbForWrongInertia")])
P("C21", "Trial points are accepted exactly by the filter line search rules",
  "A trial point is accepted exactly if its constraint violation is below the limit, it satisfies the Armijo condition when the switching condition holds and otherwise the sufficient reduction conditions, does not increase the objective too fast, and is acceptable to every filter entry; the filter grows exactly after steps that fail switching or Armijo and is reset at most the allowed number of times. Second-order corrections use the documented right-hand side, are limited in number, survive failing evaluations, and leave the step untouched if not accepted.",
  "inputs histories", "all merit values, slopes, step sizes, tolerances, filter contents; sequences of line searches, corrections, evaluation failures", "tests only see whether the run converges; a wrong acceptance rule mostly still converges on easy problems",
  A + "IpFilterLSAcceptor.cpp " + A + "IpFilter.cpp " + A + "IpFilter.hpp", [("acceptance", "FilterLSAcceptor::CheckAcceptabilityOfTrialPoint"), ("filter", "Filter::Acceptable, AddEntry"), ("correction", "FilterLSAcceptor::TrySecondOrderCorrection")])
P("C23", "Calculated quantities match their definitions",
  "Every quantity the algorithm derives from an iterate (slacks, complementarities, barrier objective and its gradient, Lagrangian gradients, infeasibility and error measures, constraint violation, average complementarity, step-to-boundary fractions, primal-dual system terms, Jacobian and Hessian products, unscaled values) equals its mathematical definition, for the current and the trial iterate, also after parts of the iterate or the barrier parameter have changed.",
  "inputs histories", "arbitrary iterates, steps and barrier parameters; problems with all bound kinds; sequences of changes of iterate parts", "tests only see final values; a stale cached quantity or a wrong term changes the path of a run but rarely its end",
  A + "IpIpoptCalculatedQuantities.cpp " + C + "IpCachedResults.hpp", [("definitions", "IpoptCalculatedQuantities::curr_*, trial_*"), ("caching", "CachedResults with dependencies")])
P("C25", "Scaling and bound relaxation are exact and undone",
  "With user-supplied or gradient-based scaling, every function, derivative, bound, starting point and starting multiplier the algorithm sees is the user's value transformed by the scaling factors, gradient-based factors follow the documented formula, and bounds are relaxed by the documented amount only. Handing back the starting point and multipliers reproduces the user's values exactly.",
  "inputs configurations", "all scaling factors, all coefficients, points and multipliers, relaxation settings, fixed-variable treatments", "tests never enable scaling with multipliers and never look at scaled quantities",
  " ".join(A + f for f in "IpNLPScaling.cpp IpUserScaling.cpp IpGradientScaling.cpp IpOrigIpoptNLP.cpp".split()), [("scaling", "StandardScalingBase, UserScaling, GradientScaling"), ("relaxation", "OrigIpoptNLP::relax_bounds")])
def N(id, title, st, over, qt, why, files, mech, reason): P(id, title, st, over, qt, why, files, mech); NA.append((id, reason))
P("C24", "The barrier parameter follows the selected update strategy",
  "With the monotone strategy the barrier parameter is kept until the current barrier problem is solved to the required accuracy and is then reduced by exactly the documented formula, never below its target, and the line search starts afresh exactly when it changes; with the adaptive strategy the method switches between free and fixed mode exactly as the selected globalization prescribes, and the oracle's value is clipped to the permitted interval. The fraction-to-the-boundary parameter follows the documented formula, a tiny step with no possible reduction is reported, and the LOQO and probing rules return their documented values.",
  "histories inputs", "histories of iterates, tiny and skipped steps, answers of the oracles; parameters and targets", "tests see one sequence of barrier parameters per problem and compare only the final objective value",
  " ".join(A + f for f in "IpMonotoneMuUpdate.cpp IpAdaptiveMuUpdate.cpp IpLoqoMuOracle.cpp IpProbingMuOracle.cpp".split()), [("monotone update", "MonotoneMuUpdate::UpdateBarrierParameter, CalcNewMuAndTau"), ("adaptive update", "AdaptiveMuUpdate::UpdateBarrierParameter, CheckSufficientProgress, NewFixedMu"), ("oracles", "LoqoMuOracle::CalculateMu, ProbingMuOracle::CalculateMu")])
P("C26", "Every run starts from a strictly interior, documented starting point",
  "The starting point is the user's point moved inside the bounds by exactly the documented distance, slacks start from the constraint values moved likewise, and bound multipliers start positive from the selected rule; constraint multipliers start from the least-square estimate, which minimizes the dual infeasibility, unless it fails or is too large. A warm start uses the user's multipliers limited and made positive as documented, and reaches the target complementarity if one is requested.",
  "inputs configurations", "all starting points, bounds and multipliers, selected option values, failing estimates", "tests start far inside their bounds with default settings and never look at the first iterate",
  " ".join(A + f for f in "IpDefaultIterateInitializer.cpp IpWarmStartIterateInitializer.cpp IpLeastSquareMults.cpp".split()), [("starting point", "DefaultIterateInitializer::push_variables, SetInitialIterates, least_square_mults"), ("warm start", "WarmStartIterateInitializer::SetInitialIterates, process_target_mu")])
P("C17", "Reduced linear systems represent exactly the system asked for",
  "Solving the symmetric augmented system gives the solution of exactly the matrix blocks, diagonals, regularizations and right-hand side passed in - with any block absent, after any part changed, and after a failed attempt - and an unchanged matrix is recognized as such so that its factorization can be reused. The systems of the restoration phase and those with limited-memory Hessians are reduced to smaller ones whose solutions solve the original system, with the inertia translated accordingly.",
  "inputs histories fault_sequences", "matrix entries, right-hand sides, sequences of changes and failures of the inner solver", "tests cannot observe the linear systems: a stale block or a lost diagonal term only slows convergence",
  " ".join(A + f for f in "IpStdAugSystemSolver.cpp IpAugRestoSystemSolver.cpp IpLowRankAugSystemSolver.cpp IpLowRankSSAugSystemSolver.cpp IpGenAugSystemSolver.cpp".split()), [("augmented system", "StdAugSystemSolver::MultiSolve, AugmentedSystemRequiresChange, CreateAugmentedSystem"), ("restoration reduction", "AugRestoSystemSolver::Solve, Neg_Omega_c_plus_D_c, Neg_Omega_d_plus_D_d"), ("low-rank Hessian", "LowRankAugSystemSolver::Solve, UpdateFactorization, LowRankSSAugSystemSolver::UpdateExtendedData")])
P("C18", "Every search direction solves the perturbed Newton system",
  "The search direction is the solution of the linearized perturbed optimality conditions at the current iterate, in all parts, for the perturbation that is recorded; the reduction to the smaller symmetric system and the recovery of the bound multiplier steps are exact, and factorizations are reused exactly while the matrix is unchanged. A solution is used only if the linear solver reported success with the right inertia (or positive curvature where that test is selected), is refined within the configured limits until its residual is small, and all other outcomes lead to the documented remedy or to a reported failure.",
  "inputs histories fault_sequences", "right-hand sides, iterates and linear solver answers; sequences of solver reports and residual sizes", "tests observe directions only through the convergence of well-behaved problems, where a wrong remedy or a stale factorization is corrected by later iterations",
  " ".join(A + f for f in "IpPDFullSpaceSolver.cpp IpPDSearchDirCalc.cpp".split()), [("solution of the full system", "PDFullSpaceSolver::Solve, SolveOnce, ComputeResiduals, ComputeResidualRatio"), ("right-hand side", "PDSearchDirCalculator::ComputeSearchDirection")])
P("C30", "The restoration phase reduces the violation and reports its outcome truly",
  "The restoration problem is exactly the penalized, proximity-weighted relaxation of the original constraints at the current reference point, in values, derivatives and bounds, and it is started on its central path with residuals closed by positive elastic variables. It is left exactly when the point sufficiently reduces the original violation and is acceptable to the original method, and otherwise ends with the documented outcome; the final point and multipliers of every ending are handed back to the original problem.",
  "inputs histories fault_sequences", "points, directions and multipliers; sequences of restoration iterations; every ending of the restoration run", "tests rarely enter the restoration phase and never look at its functions, start values or failure endings",
  " ".join(A + f for f in "IpRestoIpoptNLP.cpp IpRestoIterateInitializer.cpp IpRestoConvCheck.cpp IpRestoFilterConvCheck.cpp IpRestoMinC_1Nrm.cpp".split()), [("restoration problem", "RestoIpoptNLP::f, grad_f, c, d, jac_c, jac_d, h, InitializeStructures"), ("start", "RestoIterateInitializer::SetInitialIterates"), ("end", "RestoConvergenceCheck::CheckConvergence, MinC_1NrmRestorationPhase::PerformRestoration")])
P("C32", "The C interface passes problem, callbacks and results through unchanged",
  "A problem is created from C exactly when its description is valid; during a run every callback of the user gets exactly the point, multipliers, new-point flags, user data and structure the solver uses, in the selected index style, and its values, or its report of failure, reach the solver unchanged. Starting point, multipliers, user scaling, the final status, point, multipliers, constraint values and objective, and the current iterate inside the intermediate callback are those of the solver, missing optional arrays are tolerated, and a callback's wish to stop ends the run with the corresponding status.",
  "inputs histories configurations", "bounds, points, multipliers, callback values and failures; combinations of missing arrays", "the one C test compares a final objective of a well-behaved problem",
  I + "IpStdCInterface.cpp " + I + "IpStdInterfaceTNLP.cpp", [("C functions", "CreateIpoptProblem, IpoptSolve, SetIpoptProblemScaling, GetIpoptCurrentIterate, GetIpoptCurrentViolations"), ("adapter", "StdInterfaceTNLP::*")])
P("C34", "Problem reductions present exactly the reduced problem",
  "When constraints, bounds or variables are taken out of a user's problem by the problem reducer, the remaining problem has exactly the kept bounds, constraints, derivatives, scaling, linearity information and starting values in the user's index style, failures of the user's functions are passed on, and the final solution is handed back for the original constraints with zero multipliers for removed ones. When simple bounds are turned into inequality constraints, the result has the values, derivatives, sides, scaling, starting point and multipliers of the original problem, the final bound multipliers are returned with their documented sign, and problems this cannot represent are refused.",
  "inputs configurations fault_sequences", "all coefficient, bound and multiplier values, subsets of removed items, index styles, failing callbacks", "no test reduces a problem; one wrong index affects only particular subsets or index styles",
  I + "IpTNLPReducer.cpp " + A + "IpNLPBoundsRemover.cpp", [("reduction", "TNLPReducer::get_nlp_info, get_bounds_info, eval_*, finalize_solution"), ("bounds as constraints", "NLPBoundsRemover::GetSpaces, GetBoundsInformation, GetStartingPoint, Eval_*, FinalizeSolution")])
P("C38", "A solve does not depend on what was solved before",
  "Solving a problem with an application that has solved something before - another problem, the same problem, or the same problem with other data, whether that ended by itself, by a stop request, by the iteration limit or by failing evaluations - takes the same iterations and delivers the same status, point and multipliers as with a new application. This holds for a new solve, for solving the same problem object again and, as far as a structure had been set up, for a declared unchanged structure, where changed coefficients, bounds, fixed values and starting values take effect; solving again without a previous solve or with a different problem is refused.",
  "histories inputs", "how and when the first solve ends, ways of the second solve; all coefficients, bounds and points of both problems in the translation part", "the tests solve every problem once with a new application",
  I + "IpIpoptApplication.cpp " + I + "IpTNLPAdapter.cpp " + A + "IpOrigIpoptNLP.cpp " + A + "IpIpoptAlg.cpp " + A + "IpIpoptData.cpp " + A + "IpStdAugSystemSolver.cpp", [("repeated solves", "IpoptApplication::OptimizeTNLP, ReOptimizeTNLP, call_optimize"), ("reset", "*::InitializeImpl, OrigIpoptNLP::InitializeStructures, IpoptData::InitializeDataStructures"), ("changed data", "TNLPAdapter::GetBoundsInformation, GetStartingPoint")])
P("C43", "The line search tries, accepts and abandons steps as documented",
  "From every iterate the line search tries the corrector, then steps from the fraction-to-the-boundary length downwards by the reduction factor, with a second-order correction only at the first one, treats points that cannot be evaluated as rejected, and takes exactly the first accepted point; bound multipliers move by their own fraction to the boundary, constraint multipliers by the selected rule, and the reported step sizes, kind and number of trial steps are those taken. When no step is accepted it goes on with the soft and then the full restoration phase, which is prepared before it starts, or ends with the last acceptable iterate or a definite failure; the watchdog returns exactly to the iterate it started from and is dropped when the barrier parameter changes. Tiny steps are taken untested only at nearly feasible iterates and repeated ones are reported, and the options to start with, expect or skip restoration, to accept steps untested and to move slacks act as documented.",
  "histories inputs fault_sequences", "all answers of the acceptance rule, the corrections and the restoration phase over histories of searches, all step directions, all regions of failing evaluation", "a solve visits very few combinations of watchdog, soft restoration, evaluation failure and tiny steps, and a wrong step still converges on small problems",
  A + "IpBacktrackingLineSearch.cpp " + A + "IpIpoptData.cpp " + A + "IpIpoptCalculatedQuantities.cpp", [("search", "BacktrackingLineSearch::FindAcceptableTrialPoint, DoBacktrackingLineSearch"), ("multipliers", "BacktrackingLineSearch::PerformDualStep"), ("watchdog", "BacktrackingLineSearch::StartWatchDog, StopWatchDog"), ("soft restoration", "BacktrackingLineSearch::TrySoftRestoStep"), ("slack moves", "BacktrackingLineSearch::PerformMagicStep")])
