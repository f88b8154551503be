------------------------------ MODULE MsgTable ------------------------------
(* The published messages of the return codes, in the order of their numbers; "h" marks a message that is hidden by default *)
EXTENDS Sequences
MsgTable == <<
  <<"SUCCESSFUL_RETURN", "Successful return", TRUE>>,
  <<"RET_DIV_BY_ZERO", "Division by zero", TRUE>>,
  <<"RET_INDEX_OUT_OF_BOUNDS", "Index out of bounds", TRUE>>,
  <<"RET_INVALID_ARGUMENTS", "At least one of the arguments is invalid", TRUE>>,
  <<"RET_ERROR_UNDEFINED", "Error number undefined", TRUE>>,
  <<"RET_WARNING_UNDEFINED", "Warning number undefined", TRUE>>,
  <<"RET_INFO_UNDEFINED", "Info number undefined", TRUE>>,
  <<"RET_EWI_UNDEFINED", "Error/warning/info number undefined", TRUE>>,
  <<"RET_AVAILABLE_WITH_LINUX_ONLY", "This function is available under Linux only", FALSE>>,
  <<"RET_UNKNOWN_BUG", "The error occurred is not yet known", TRUE>>,
  <<"RET_PRINTLEVEL_CHANGED", "Print level changed", TRUE>>,
  <<"RET_NOT_YET_IMPLEMENTED", "Requested function is not yet implemented.", TRUE>>,
  <<"RET_INDEXLIST_MUST_BE_REORDERD", "Index list has to be reordered", TRUE>>,
  <<"RET_INDEXLIST_EXCEEDS_MAX_LENGTH", "Index list exceeds its maximal physical length", TRUE>>,
  <<"RET_INDEXLIST_CORRUPTED", "Index list corrupted", TRUE>>,
  <<"RET_INDEXLIST_OUTOFBOUNDS", "Physical index is out of bounds", TRUE>>,
  <<"RET_INDEXLIST_ADD_FAILED", "Adding indices from another index set failed", TRUE>>,
  <<"RET_INDEXLIST_INTERSECT_FAILED", "Intersection with another index set failed", TRUE>>,
  <<"RET_INDEX_ALREADY_OF_DESIRED_STATUS", "Index is already of desired status", TRUE>>,
  <<"RET_ADDINDEX_FAILED", "Adding index to index set failed", TRUE>>,
  <<"RET_REMOVEINDEX_FAILED", "Removing index from index set failed", TRUE>>,
  <<"RET_SWAPINDEX_FAILED", "Cannot swap between different indexsets", TRUE>>,
  <<"RET_NOTHING_TO_DO", "Nothing to do", TRUE>>,
  <<"RET_SETUP_BOUND_FAILED", "Setting up bound index failed", TRUE>>,
  <<"RET_SETUP_CONSTRAINT_FAILED", "Setting up constraint index failed", TRUE>>,
  <<"RET_MOVING_BOUND_FAILED", "Moving bound between index sets failed", TRUE>>,
  <<"RET_MOVING_CONSTRAINT_FAILED", "Moving constraint between index sets failed", TRUE>>,
  <<"RET_SHIFTING_FAILED", "Shifting of bounds/constraints failed", TRUE>>,
  <<"RET_ROTATING_FAILED", "Rotating of bounds/constraints failed", TRUE>>,
  <<"RET_QPOBJECT_NOT_SETUP", "The QP object has not been setup correctly, use another constructor", TRUE>>,
  <<"RET_QP_ALREADY_INITIALISED", "QProblem has already been initialised", TRUE>>,
  <<"RET_NO_INIT_WITH_STANDARD_SOLVER", "Initialisation via extern QP solver is not yet implemented", TRUE>>,
  <<"RET_RESET_FAILED", "Reset failed", TRUE>>,
  <<"RET_INIT_FAILED", "Initialisation failed", TRUE>>,
  <<"RET_INIT_FAILED_TQ", "Initialisation failed due to TQ factorisation", TRUE>>,
  <<"RET_INIT_FAILED_CHOLESKY", "Initialisation failed due to Cholesky decomposition", TRUE>>,
  <<"RET_INIT_FAILED_HOTSTART", "Initialisation failed! QP could not be solved!", TRUE>>,
  <<"RET_INIT_FAILED_INFEASIBILITY", "Initial QP could not be solved due to infeasibility!", TRUE>>,
  <<"RET_INIT_FAILED_UNBOUNDEDNESS", "Initial QP could not be solved due to unboundedness!", TRUE>>,
  <<"RET_INIT_FAILED_REGULARISATION", "Initialisation failed as Hessian matrix could not be regularised", TRUE>>,
  <<"RET_INIT_SUCCESSFUL", "Initialisation done", TRUE>>,
  <<"RET_OBTAINING_WORKINGSET_FAILED", "Failed to obtain working set for auxiliary QP", TRUE>>,
  <<"RET_SETUP_WORKINGSET_FAILED", "Failed to setup working set for auxiliary QP", TRUE>>,
  <<"RET_SETUP_AUXILIARYQP_FAILED", "Failed to setup auxiliary QP for initialised homotopy", TRUE>>,
  <<"RET_NO_CHOLESKY_WITH_INITIAL_GUESS", "Externally computed Cholesky factor cannot be combined with an initial guess", TRUE>>,
  <<"RET_NO_EXTERN_SOLVER", "No extern QP solver available", TRUE>>,
  <<"RET_QP_UNBOUNDED", "QP is unbounded", TRUE>>,
  <<"RET_QP_INFEASIBLE", "QP is infeasible", TRUE>>,
  <<"RET_QP_NOT_SOLVED", "Problems occurred while solving QP with standard solver", TRUE>>,
  <<"RET_QP_SOLVED", "QP successfully solved", TRUE>>,
  <<"RET_UNABLE_TO_SOLVE_QP", "Problems occurred while solving QP", TRUE>>,
  <<"RET_INITIALISATION_STARTED", "Starting problem initialisation...", TRUE>>,
  <<"RET_HOTSTART_FAILED", "Unable to perform homotopy due to internal error", TRUE>>,
  <<"RET_HOTSTART_FAILED_TO_INIT", "Unable to initialise problem", TRUE>>,
  <<"RET_HOTSTART_FAILED_AS_QP_NOT_INITIALISED", "Unable to perform homotopy as previous QP is not solved", TRUE>>,
  <<"RET_ITERATION_STARTED", "Iteration", TRUE>>,
  <<"RET_SHIFT_DETERMINATION_FAILED", "Determination of shift of the QP data failed", TRUE>>,
  <<"RET_STEPDIRECTION_DETERMINATION_FAILED", "Determination of step direction failed", TRUE>>,
  <<"RET_STEPLENGTH_DETERMINATION_FAILED", "Determination of step direction failed", TRUE>>,
  <<"RET_OPTIMAL_SOLUTION_FOUND", "Optimal solution of neighbouring QP found", TRUE>>,
  <<"RET_HOMOTOPY_STEP_FAILED", "Unable to perform homotopy step", TRUE>>,
  <<"RET_HOTSTART_STOPPED_INFEASIBILITY", "Premature homotopy termination because QP is infeasible", TRUE>>,
  <<"RET_HOTSTART_STOPPED_UNBOUNDEDNESS", "Premature homotopy termination because QP is unbounded", TRUE>>,
  <<"RET_WORKINGSET_UPDATE_FAILED", "Unable to update working sets according to initial guesses", TRUE>>,
  <<"RET_MAX_NWSR_REACHED", "Maximum number of working set recalculations performed", TRUE>>,
  <<"RET_CONSTRAINTS_NOT_SPECIFIED", "Problem does comprise constraints! You have to specify new constraints' bounds", TRUE>>,
  <<"RET_INVALID_FACTORISATION_FLAG", "Invalid factorisation flag", TRUE>>,
  <<"RET_UNABLE_TO_SAVE_QPDATA", "Unable to save QP data", TRUE>>,
  <<"RET_STEPDIRECTION_FAILED_TQ", "Abnormal termination due to TQ factorisation", TRUE>>,
  <<"RET_STEPDIRECTION_FAILED_CHOLESKY", "Abnormal termination due to Cholesky factorisation", TRUE>>,
  <<"RET_CYCLING_DETECTED", "Cycling detected", TRUE>>,
  <<"RET_CYCLING_NOT_RESOLVED", "Cycling cannot be resolved, QP is probably infeasible", TRUE>>,
  <<"RET_CYCLING_RESOLVED", "Cycling probably resolved", TRUE>>,
  <<"RET_STEPSIZE", "", TRUE>>,
  <<"RET_STEPSIZE_NONPOSITIVE", "", TRUE>>,
  <<"RET_SETUPSUBJECTTOTYPE_FAILED", "Setup of SubjectToTypes failed", TRUE>>,
  <<"RET_ADDCONSTRAINT_FAILED", "Addition of constraint to working set failed", TRUE>>,
  <<"RET_ADDCONSTRAINT_FAILED_INFEASIBILITY", "Addition of constraint to working set failed", TRUE>>,
  <<"RET_ADDBOUND_FAILED", "Addition of bound to working set failed", TRUE>>,
  <<"RET_ADDBOUND_FAILED_INFEASIBILITY", "Addition of bound to working set failed", TRUE>>,
  <<"RET_REMOVECONSTRAINT_FAILED", "Removal of constraint from working set failed", TRUE>>,
  <<"RET_REMOVEBOUND_FAILED", "Removal of bound from working set failed", TRUE>>,
  <<"RET_REMOVE_FROM_ACTIVESET", "Removing from active set:", TRUE>>,
  <<"RET_ADD_TO_ACTIVESET", "Adding to active set:", TRUE>>,
  <<"RET_REMOVE_FROM_ACTIVESET_FAILED", "Removing from active set failed", TRUE>>,
  <<"RET_ADD_TO_ACTIVESET_FAILED", "Adding to active set failed", TRUE>>,
  <<"RET_CONSTRAINT_ALREADY_ACTIVE", "Constraint is already active", TRUE>>,
  <<"RET_ALL_CONSTRAINTS_ACTIVE", "All constraints are active, no further constraint can be added", TRUE>>,
  <<"RET_LINEARLY_DEPENDENT", "New bound/constraint is linearly dependent", TRUE>>,
  <<"RET_LINEARLY_INDEPENDENT", "New bound/constraint is linearly independent", TRUE>>,
  <<"RET_LI_RESOLVED", "Linear independence of active constraint matrix successfully resolved", TRUE>>,
  <<"RET_ENSURELI_FAILED", "Failed to ensure linear independence of active constraint matrix", TRUE>>,
  <<"RET_ENSURELI_FAILED_TQ", "Abnormal termination due to TQ factorisation", TRUE>>,
  <<"RET_ENSURELI_FAILED_NOINDEX", "QP is infeasible", TRUE>>,
  <<"RET_ENSURELI_FAILED_CYCLING", "QP is infeasible", TRUE>>,
  <<"RET_BOUND_ALREADY_ACTIVE", "Bound is already active", TRUE>>,
  <<"RET_ALL_BOUNDS_ACTIVE", "All bounds are active, no further bound can be added", TRUE>>,
  <<"RET_CONSTRAINT_NOT_ACTIVE", "Constraint is not active", TRUE>>,
  <<"RET_BOUND_NOT_ACTIVE", "Bound is not active", TRUE>>,
  <<"RET_HESSIAN_NOT_SPD", "Projected Hessian matrix not positive definite", TRUE>>,
  <<"RET_HESSIAN_INDEFINITE", "Hessian matrix is indefinite", TRUE>>,
  <<"RET_MATRIX_SHIFT_FAILED", "Unable to update matrices or to transform vectors", TRUE>>,
  <<"RET_MATRIX_FACTORISATION_FAILED", "Unable to calculate new matrix factorisations", TRUE>>,
  <<"RET_PRINT_ITERATION_FAILED", "Unable to print information on current iteration", TRUE>>,
  <<"RET_NO_GLOBAL_MESSAGE_OUTPUTFILE", "No global message output file initialised", TRUE>>,
  <<"RET_DISABLECONSTRAINTS_FAILED", "Unable to disable constraints", TRUE>>,
  <<"RET_ENABLECONSTRAINTS_FAILED", "Unable to enable constraints", TRUE>>,
  <<"RET_ALREADY_ENABLED", "Bound or constraint is already enabled", TRUE>>,
  <<"RET_ALREADY_DISABLED", "Bound or constraint is already disabled", TRUE>>,
  <<"RET_NO_HESSIAN_SPECIFIED", "No Hessian matrix has been specified", TRUE>>,
  <<"RET_USING_REGULARISATION", "Using regularisation as Hessian matrix is not positive definite", TRUE>>,
  <<"RET_EPS_MUST_BE_POSITVE", "Eps for regularisation must be sufficiently positive", TRUE>>,
  <<"RET_REGSTEPS_MUST_BE_POSITVE", "Maximum number of regularisation steps must be non-negative", TRUE>>,
  <<"RET_HESSIAN_ALREADY_REGULARISED", "Hessian has been already regularised", TRUE>>,
  <<"RET_CANNOT_REGULARISE_IDENTITY", "Identity Hessian matrix cannot be regularised", TRUE>>,
  <<"RET_CANNOT_REGULARISE_SPARSE", "Sparse matrix cannot be regularised as diagonal entry is missing", TRUE>>,
  <<"RET_NO_REGSTEP_NWSR", "No additional regularisation step could be performed due to limits", TRUE>>,
  <<"RET_FEWER_REGSTEPS_NWSR", "Fewer additional regularisation steps have been performed due to limits", TRUE>>,
  <<"RET_CHOLESKY_OF_ZERO_HESSIAN", "Cholesky decomposition of (unregularised) zero Hessian matrix", TRUE>>,
  <<"RET_ZERO_HESSIAN_ASSUMED", "Zero Hessian matrix assumed as null pointer passed without specifying hessianType", TRUE>>,
  <<"RET_CONSTRAINTS_ARE_NOT_SCALED", "(should not be thrown, no longer in use)", TRUE>>,
  <<"RET_INITIAL_BOUNDS_STATUS_NYI", "(should not be thrown, no longer in use)", TRUE>>,
  <<"RET_ERROR_IN_CONSTRAINTPRODUCT", "Error in user-defined constraint product function", TRUE>>,
  <<"RET_FIX_BOUNDS_FOR_LP", "All initial bounds must be fixed when solving an (unregularised) LP", TRUE>>,
  <<"RET_USE_REGULARISATION_FOR_LP", "Set options.enableRegularisation=BT_TRUE for solving LPs", TRUE>>,
  <<"RET_UPDATEMATRICES_FAILED", "Unable to update QP matrices", TRUE>>,
  <<"RET_UPDATEMATRICES_FAILED_AS_QP_NOT_SOLVED", "Unable to update matrices as previous QP is not solved", TRUE>>,
  <<"RET_UNABLE_TO_OPEN_FILE", "Unable to open file", TRUE>>,
  <<"RET_UNABLE_TO_WRITE_FILE", "Unable to write into file", TRUE>>,
  <<"RET_UNABLE_TO_READ_FILE", "Unable to read from file", TRUE>>,
  <<"RET_FILEDATA_INCONSISTENT", "File contains inconsistent data", TRUE>>,
  <<"RET_OPTIONS_ADJUSTED", "Options needed to be adjusted for consistency reasons", TRUE>>,
  <<"RET_UNABLE_TO_ANALYSE_QPROBLEM", "Unable to analyse (S)QProblem(B) object", TRUE>>,
  <<"RET_NWSR_SET_TO_ONE", "Maximum number of working set changes was set to 1", TRUE>>,
  <<"RET_UNABLE_TO_READ_BENCHMARK", "Unable to read benchmark data", TRUE>>,
  <<"RET_BENCHMARK_ABORTED", "Benchmark aborted", TRUE>>,
  <<"RET_INITIAL_QP_SOLVED", "Initial QP solved", TRUE>>,
  <<"RET_QP_SOLUTION_STARTED", "Solving QP no.", TRUE>>,
  <<"RET_BENCHMARK_SUCCESSFUL", "Benchmark terminated successfully", TRUE>>,
  <<"RET_NO_DIAGONAL_AVAILABLE", "Sparse matrix does not have entries on full diagonal", TRUE>>,
  <<"RET_DIAGONAL_NOT_INITIALISED", "Diagonal data of sparse matrix has not been initialised", TRUE>>,
  <<"RET_ENSURELI_DROPPED", "Linear independence resolved by dropping blocking constraint", TRUE>>,
  <<"RET_KKT_MATRIX_SINGULAR", "KKT matrix is singular", TRUE>>,
  <<"RET_QR_FACTORISATION_FAILED", "QR factorization of Schur complement failed", TRUE>>,
  <<"RET_INERTIA_CORRECTION_FAILED", "Inertia correction of KKT matrix failed", TRUE>>,
  <<"RET_NO_SPARSE_SOLVER", "No Sparse Solver installed", TRUE>>,
  <<"RET_SIMPLE_STATUS_P1", "QP problem could not be solved within given number of iterations", TRUE>>,
  <<"RET_SIMPLE_STATUS_P0", "QP problem solved", TRUE>>,
  <<"RET_SIMPLE_STATUS_M1", "QP problem could not be solved due to an internal error", TRUE>>,
  <<"RET_SIMPLE_STATUS_M2", "QP problem is infeasible (and thus could not be solved)", TRUE>>,
  <<"RET_SIMPLE_STATUS_M3", "QP problem is unbounded (and thus could not be solved)", TRUE>>
>>
=============================================================================
