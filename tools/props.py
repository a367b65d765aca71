QP = ["src/solvers/qp_base.hpp", "src/solvers/admm.hpp", "src/solvers/box_admm.hpp"]

prop("P01", "The splitting QP solvers report 'solved' only when the criteria are met",
     "When a built-in splitting QP solver reports that a problem is solved, the iterate it returns satisfies the configured stopping criteria: the primal residual is at most eps_abs + eps_rel * (largest of the norms of A x, of the constraint copies and of x) and the dual residual H x + h + A' y_A + y_box is at most eps_abs + eps_rel * (largest of the norms of H x, A' y_A, h and y_box), and the constraint copies used in the residual lie within their bounds. A run that stops without meeting them reports that the iteration limit was reached. The status and residuals in the solver's statistics are those of the returned iterate.",
     ["inputs", "configurations", "histories"], "All problem data, bounds, starting points, tolerances, iteration limits and check intervals; dense and sparse storage; both the general and the box-separating solver; any earlier use of the solver object.",
     "The tests solve a handful of well-conditioned problems with default settings and look at the answer; whether the status is honest on every exit of the iteration depends on residuals no sample can enumerate.",
     QP, [("termination test and residual computation", "src/solvers/admm.hpp, src/solvers/box_admm.hpp: termination check, residual update"), ("iteration loop exits", "src/solvers/admm.hpp, src/solvers/box_admm.hpp: solve")],
     note="For arbitrary data (unknown reals) at an arbitrary iteration, every exit of the iteration loop is shown to imply the criteria for the returned iterate; instances with 2 variables and 3 constraints, dense/sparse x triangular/full storage. Exact real arithmetic.",
     observe=["return value of solve", "info()"])

prop("P02", "Every linear system the QP solvers solve is the KKT system of the problem",
     "In every iteration of the splitting QP solvers the factorised matrix is the KKT matrix of the problem passed to the current solve call with the penalties of the current step size: Hessian plus proximal weight (plus the box penalties in the box-separating solver), constraint Jacobian and its transpose, and minus the inverse penalties. This holds whatever the dense or sparse storage (compressed or with spare room, with or without stored diagonal, triangular or full), after step-size adaptation, on repeated solves, and when the sparsity pattern of an earlier solve is reused.",
     ["inputs", "configurations", "histories"], "All problem data; all combinations of dense/sparse storage, compression state, sparsity pattern class, triangular or full factorisation; first, repeated and pattern-reusing solves; every step-size adaptation.",
     "The tests exercise one or two patterns; a mis-placed or stale entry still often converges to the right answer or only shows for a particular pattern or call history.",
     QP, [("KKT assembly", "src/solvers/admm.hpp, src/solvers/box_admm.hpp: construct_kkt_matrix and its sparse variants"), ("KKT refresh after a step-size change", "same files: update of the penalty rows and refactorisation")],
     note="The matrix behind each linear solve is compared entry by entry with the KKT matrix written from the definition, for unknown data; 8 solver instantiations x up to 3 sparsity patterns x compressed/uncompressed x first/repeated/reused.")

prop("P03", "The QP iteration performs exactly the splitting method's update",
     "One iteration of the splitting QP solvers computes the over-relaxed primal update, the projection of the constraint copies (and of the separate box copies) onto their bounds, and the multiplier update as the method prescribes, from the previous iterate and the solution of the KKT system with the method's right-hand side. The relaxation, proximal and penalty parameters enter exactly where the method says, for every admissible relaxation factor.",
     ["inputs", "configurations"], "All iterates, data, penalties and relaxation factors (including those different from one); all storage variants.",
     "The default relaxation factor and mild problems hide wrong relaxation or a use of the already overwritten iterate; only the fixpoint, not the path, is tested.",
     QP, [("iteration body", "src/solvers/admm.hpp, src/solvers/box_admm.hpp: solve, compute_kkt_rhs")],
     note="The loop body is analysed at an arbitrary iteration and each new iterate component is compared with the method's formula as an algebraic expression in the old iterate and the linear-system solution.")

prop("P04", "A QP solve depends only on its arguments and settings, and leaves them unchanged",
     "The result of a QP solve (solution, multipliers, status, iteration count) is a function of the problem data, the starting point and the settings: nothing left over from earlier solve calls of the same object influences it. A solve with a starting point begins from exactly that point, one without begins from zero. The caller's data and settings are not modified.",
     ["histories", "inputs"], "Every earlier sequence of solve calls on the object (warm or cold, other data and settings, same dimensions), all data, both storages and every sparsity pattern class.",
     "Tests reuse a solver object at most a few times with similar data; leaked state only shows in particular histories.",
     QP, [("per-solve initialisation", "src/solvers/admm.hpp, src/solvers/box_admm.hpp: solve"), ("pattern reuse and storage allocation", "src/solvers/admm.hpp, src/solvers/box_admm.hpp: KKT allocation and update")],
     note="The object state after any history is over-approximated by a fixpoint over both solve overloads; a dependence analysis then shows that no location read by the result still depends on it. The diagnostic count of step-size updates and the (deliberate) pattern-reuse switch are outside the property.")

prop("P05", "Constraint classes and penalties follow the bounds and the current step size",
     "Each constraint and each variable bound gets the penalty of its class under the current bounds: the minimal penalty when both sides are absent, the step size scaled up by the equality factor when the two sides coincide, the step size itself otherwise. The class is decided anew in every solve, and an adapted step size always stays within the documented limits.",
     ["inputs", "histories"], "All bound values (finite, infinite, coinciding, one-sided), all step sizes and all earlier solves.",
     "Tests use a few fixed kinds of bounds; misclassification normally only slows convergence.",
     QP, [("bound classification", "src/solvers/qp_base.hpp: constraint parsing"), ("penalty update", "src/solvers/admm.hpp, src/solvers/box_admm.hpp: step size vector and adaptation")],
     note="Penalties are read off the factorised system at loop entry and compared with the case analysis over the bounds; the step-size expression at the loop's back edge is shown to be clamped.")

prop("P09", "Preconditioning yields an equivalent QP and is undone exactly",
     "Whatever scaling the equilibrating preconditioner computes, reuses or refines, it consists of positive factors D, E and c, and the data it returns are exactly c D H D, c D h, E A D, the constraint bounds times E and the variable bounds divided by D, for dense and sparse storage alike. Unscaling with the same factors restores the problem, and the mapping of primal and dual vectors turns a solution of the scaled problem into one of the original and back. The identity preconditioner changes nothing.",
     ["inputs", "histories", "configurations"], "All problem data including zero rows, columns and costs; every earlier use of the preconditioner; dense, compressed and uncompressed sparse storage with full and partial patterns.",
     "Tests compare a solve with and without scaling on one or two problems; a factor applied once too often or a multiplier scaled the wrong way only shifts the answer for particular data.",
     ["src/solvers/qp_preconditioners.hpp"], [("equilibration", "src/solvers/qp_preconditioners.hpp: compute, update"), ("application", "src/solvers/qp_preconditioners.hpp: scale, unscale, unscale_hessian")],
     note="The equilibration loop is analysed at an arbitrary iteration with the scaled problem as inductive invariant; the column norms of the sparse version are arbitrary numbers, so the result does not rest on them. Positivity is derived case by case from the guards. Exact real arithmetic; 2 variables, 3 constraints.")

prop("P10", "NLP values, gradients, Jacobians and Hessians are exact derivatives",
     "Every evaluation method of the general NLP interface returns exactly the user's cost and constraint functions, their exact first derivatives and, where a Hessian is requested, the exact second derivatives of the cost or of the Lagrangian with the given multipliers (the cost part scaled by the given factor where one is taken). The order of constraints and multipliers is equalities, inequalities, then variable bounds. The outputs depend neither on their previous contents nor on earlier evaluations.",
     ["programs", "inputs", "histories"], "Arbitrary smooth user cost, equality and inequality functions with parameters; every point, parameter, multiplier and scaling; problems with and without each kind of constraint and without cost; every earlier sequence of evaluations.",
     "Tests evaluate a few functions at a few points; missing cross terms, stale accumulators or swapped multiplier segments vanish for such samples.",
     ["src/solvers/nlproblem.hpp"], [("cost, constraint and Lagrangian evaluation", "src/solvers/nlproblem.hpp: cost*, equalities*, inequalities*, constraints*, lagrangian*")],
     note="Forward automatic differentiation is modelled by its defining algebra; every output entry is compared with the formal derivative of the user function symbols. Five problem shapes (up to 3 variables, 2 inequalities, 2 equalities); the iterated code is loop-uniform in the dimensions.")

SQP = ["src/solvers/sqp_base.hpp"]
prop("P06", "The SQP solver reports 'solved' only for a converged, feasible iterate",
     "The SQP solver reports that a problem is solved only if, in the iteration it returns, the scaled primal and dual steps are within the primal and dual tolerances and the largest violation of equalities, inequalities and variable bounds, evaluated at the current iterate and the problem's current bounds and parameters, is within the primal tolerance. Otherwise it performs no more than the configured number of iterations and reports that the limit was reached. The step norms, violation and iteration count it exposes are those of the last iteration.",
     ["inputs", "configurations", "histories"], "All problems (arbitrary cost and constraint functions), starting points, bounds, tolerances, iteration limits, QP answers and step lengths; dense and sparse; any earlier use of the solver.",
     "Tests look at the answer of a few convergent problems; a status that is wrong on an infeasible stall, at the iteration limit or on a later call shows only for particular problems.",
     SQP, [("termination test", "src/solvers/sqp_base.hpp: solve, termination criteria, max_constraints_violation")],
     note="User problem, QP solver and preconditioner are arbitrary functions; each exit of the iteration loop is analysed separately for an arbitrary iteration and compared with the criteria. Instances with 2 variables, up to 2+1 constraints, dense and sparse. The violation is evaluated where the iteration was linearised, as documented in the code.")

prop("P07", "Each SQP iteration solves the right subproblem and applies its solution",
     "In every iteration the SQP solver passes the QP solver the (regularised) Lagrangian Hessian or its quasi-Newton update, the cost gradient, the constraint Jacobian, the constraint residual bounds and the variable bounds of the current iterate and parameters, after preconditioning and with the preconditioning undone on data and solution. The iterate moves by the step length times the QP's primal solution and the multipliers move by the same fraction towards the QP's dual solution; the Hessian update receives the latest step and the matching change of the Lagrangian gradient. A solve starts from the supplied guess and nothing else from earlier solves influences it.",
     ["inputs", "histories", "programs"], "All problems, iterates, multipliers, bounds, step lengths, QP answers and preconditioners; first and later iterations; every earlier sequence of solves on the same object; dense and sparse.",
     "A swapped sign, stale vector or missing unscaling typically only costs convergence speed on the tested problems, and history effects need particular sequences of solves.",
     SQP, [("subproblem construction", "src/solvers/sqp_base.hpp: linearisation, solve_qp"), ("iterate update", "src/solvers/sqp_base.hpp: solve")],
     note="All collaborators are uninterpreted, so the comparison holds for every problem, QP solver and preconditioner. Instances with 2 variables, up to 2+1 constraints, dense and sparse, with and without user guess.")

prop("P08", "The line search accepts only steps that sufficiently decrease the merit function",
     "The SQP solver's default step size selection tries step lengths 1, tau, tau^2, ... and accepts one only if the merit function (cost plus the largest multiplier magnitude times the l1 constraint violation) at the trial point is below its value at the current point by at least the configured fraction of the predicted decrease. It gives up only after the configured number of trials. Both violation measures cover every equality, inequality and variable bound on both sides.",
     ["inputs", "configurations"], "All cost and constraint functions, points, directions, multipliers, bounds and line search settings.",
     "Tests mostly accept the full step; a wrong merit term or missing bound only matters far from the solution or for particular constraints.",
     SQP, [("step size selection", "src/solvers/sqp_base.hpp: step_size_selection_impl"), ("violation measures", "src/solvers/sqp_base.hpp: constraints_violation, max_constraints_violation")],
     note="The backtracking loop is analysed at an arbitrary trial from an arbitrary solver state with uninterpreted problem functions; each exit's path condition must imply the decrease condition or exhaustion.")

OCPF = ["src/control/continuous_ocp.hpp"]
prop("P11", "Dense optimal control transcription: exact collocation and derivatives",
     "The dense transcribed problem's equality constraints are, at every node, the differentiation matrix of the node's segment applied to the states minus the dynamics at that node scaled to the segment length; its inequality constraints are the path constraints at every node; its cost is the quadrature of the running cost over all segments plus the end cost at the final time, for the current time window, variables in the order states, controls, parameters. Every gradient, Jacobian and Hessian it returns (of cost, constraints or Lagrangian, with the cost scaling factor where one is taken) is the exact derivative of these functions with respect to all states, controls and parameters. Results do not depend on previous contents of the outputs or on earlier evaluations.",
     ["programs", "inputs", "histories", "configurations"], "Arbitrary smooth dynamics, running and end costs and path constraints, with and without parameters and path constraints; every variable, multiplier, scaling, time window, node set and quadrature; every earlier sequence of evaluations.",
     "Tests compare a few small problems at one point; an off-by-one block, a derivative missing at shared segment nodes or for more controls than states, or a stale accumulator only shows for particular dimensions or functions.",
     OCPF, [("transcription", "src/control/continuous_ocp.hpp: cost, equalities, inequalities, constraints"), ("derivatives", "src/control/continuous_ocp.hpp: *_linearised, cost_gradient*, lagrangian_gradient*")],
     note="User functions, differentiation matrix, weights and node times are unknowns; each output entry is compared with the formal derivative. Five shapes with distinct dimensions (orders 2-3, 1-3 segments, up to 3 parameters, 2 path constraints); the loops are executed for these shapes.")

prop("P12", "Sparse optimal control transcription agrees with the exact derivatives",
     "The sparse evaluation methods of the transcribed problem return the same mathematically exact values, gradients, Jacobians and Hessians as the dense ones, both when they fill an empty matrix and when they refresh a matrix filled by an earlier evaluation at another point, multiplier or time window. Re-evaluation keeps the sparsity pattern and storage layout, so that solvers may rely on it; no access leaves the matrices' storage.",
     ["programs", "inputs", "histories", "configurations"], "Arbitrary smooth user functions with and without parameters and path constraints; every variable, multiplier, scaling, time window and node set; first evaluation and every re-evaluation, on fresh and used problem objects.",
     "The sparse code writes values straight into compressed storage by computed offsets; a wrong offset for some dimensions or for re-evaluation is invisible for the dimensions tests use.",
     OCPF, [("first fill", "src/control/continuous_ocp.hpp: sparse *_linearised, cost_gradient_hessian, lagrangian_gradient_hessian"), ("refresh of filled matrices", "same file: the corresponding *_update methods")],
     note="Index arrays are concrete, values symbolic. Six shapes (orders 2-3, 1-3 segments, up to 3 parameters, 2 path constraints), even orders also with the structurally zero middle differentiation coefficient.")

prop("P13", "Every differentiated operation has the exact value and derivatives",
     "Every arithmetic operation and mathematical function of the differentiation scalar returns the value of that operation on plain numbers and the derivatives given by the rules of calculus, wherever the operation is differentiable; this also holds when the scalar is nested to obtain second derivatives and when one operand is a constant. A scalar made from a constant has zero derivatives and one made as a variable has a unit derivative, comparisons compare the values, and no operation changes its operands.",
     ["inputs", "configurations"], "All values and derivatives of the operands; first and second order, 3 derivatives; the operations + - * / and their assigning forms with one or two active operands, comparisons, abs, abs2, sqrt, sin, cos, tan, asin, acos, exp, log, sinh, cosh, tanh, floor, min, max, pow, atan2.",
     "Every sensitivity the solver uses is made of these rules; the tests differentiate a handful of functions at one point each and never nest most of them.",
     ["src/autodiff/AutoDiffScalar.h"], [("operations", "src/autodiff/AutoDiffScalar.h: AutoDiffScalar operators and global functions")],
     note="Ties of min and max and the kink of abs may go either way. pow of a nested scalar does not compile in the library and is not covered.")

prop("P14", "The MPC wrapper reads and writes exactly the slots its interface names",
     "Each setter of the MPC wrapper (initial, final and trajectory bounds on states, controls, parameters and constraints, static parameters, guesses) changes exactly the solver entries of the quantity it names and nothing else, where the state at the start of the horizon is the last state block and lower and upper bounds are not exchanged. The solution accessors return the states, controls, parameters and multipliers of the solver's solution, the k-th point counted from the start of the horizon, and evaluation at a time returns the interpolating polynomial of the segment that contains that time, clipped to the horizon, for any horizon limits. Settings, statistics and the problem it exposes are the solver's own.",
     ["inputs", "configurations", "histories"], "All values passed, all previous contents of the solver, all horizon limits and times, with one or several segments and distinct numbers of states, controls and parameters.",
     "Tests use one problem on a horizon from 0 to 2 and look at a few points; an exchanged bound or an offset that is off for other dimensions or horizons stays invisible.",
     ["src/control/mpc_wrapper.hpp", "src/polynomials/splines.hpp"], [("setters and accessors", "src/control/mpc_wrapper.hpp"), ("interpolation", "src/polynomials/splines.hpp: LagrangeSpline")],
     note="Complete before/after comparison of the wrapper object for unknown contents; three shapes (orders 2-3, 1-3 segments). Interpolation is compared as a rational function of time, nodes and values, segment by segment.")

prop("P15", "Collocation node times and the time window stay consistent",
     "After construction and after every change of the time window the transcribed problem's node times are the images of the collocation nodes in their segments of the window, ordered from the end of the window to its start, with shared nodes at segment boundaries appearing once. Changing the window changes the two limits and the node times and nothing else.",
     ["inputs", "configurations", "histories"], "All time limits, all node sets that include both end points, one or several segments, any earlier window.",
     "Tests use one or two windows and autonomous dynamics, for which node times do not matter.",
     ["src/control/continuous_ocp.hpp"], [("construction and set_time_limits", "src/control/continuous_ocp.hpp: ContinuousOCP(), set_time_limits")],
     note="Nodes and limits are unknowns; four shapes (orders 2-4, 1-3 segments).")

prop("P16", "The quasi-Newton updates follow the damped BFGS and safeguarded SR1 formulas",
     "The BFGS update replaces the Hessian approximation B by the damped formula with damping threshold 0.2 and factor 0.8, keeps it symmetric and leaves it unchanged when the curvature is not positive beyond rounding. The SR1 update adds the rank-one correction only when the denominator exceeds 1e-6 times the product of the norms, and otherwise leaves the approximation unchanged, so that no update divides by zero. The sparse variant of the optimal control problem applies the same damped BFGS formula to exactly the stored entries and keeps the pattern.",
     ["inputs"], "All symmetric matrices with positive curvature along the step, all steps and gradient changes, all sizes the instances stand for.",
     "The damped and skipped branches are entered only for particular curvature; tests take the plain branch.",
     ["src/solvers/bfgs.hpp", "src/solvers/sr1.hpp", "src/control/continuous_ocp.hpp"], [("updates", "src/solvers/bfgs.hpp, src/solvers/sr1.hpp"), ("sparse block update", "src/control/continuous_ocp.hpp: hessian_update_impl")],
     note="The update functions are compared with the published formulas as algebraic expressions with case analysis over the safeguards, in one and two dimensions.")

POL = ["src/polynomials/ebyshev.hpp", "src/polynomials/legendre.hpp", "src/polynomials/polynomial_math.hpp"]
prop("P17", "The line-search filter keeps exactly the undominated pairs it has room for",
     "A pair of cost and violation is dominated if some stored pair is no larger in both, and acceptable if no stored pair, improved in both components by beta times its violation, is; asking changes nothing. Adding a pair puts it in the filter, removes every stored pair it dominates, keeps all others except the oldest one when there would be more than the configured number, and never loses any other pair. Clearing empties the filter and removing one removes the oldest.",
     ["inputs", "histories"], "All real costs, violations and margins; filters with 0 to 3 stored pairs and room for 1 to 3 in every order relative to the new pair.",
     "The filter is used by one test on one trajectory; ties, a full filter and pairs that dominate several others never occur there.",
     ["src/solvers/line_search.hpp"], [("filter", "src/solvers/line_search.hpp: LSFilter, dominated_by")],
     note="Acceptance and domination are compared as conditions on unknown reals; additions are decided per order type of the stored pairs relative to the new one (interval abstraction, 921 types).")

prop("P18", "New solvers are unconstrained, at zero, with admissible settings",
     "A newly constructed SQP solver, of every problem shape and matrix format, has infinite bounds on all variables and inequality constraints, zero primal iterate, multipliers and parameters, and no iteration callback; a newly constructed QP solver reports an uninitialised status. The default settings of the SQP solver, of the QP solvers and those the SQP solver selects for its QP solver lie in the ranges documented next to them. Validating SQP settings succeeds exactly when every setting lies in its documented range.",
     ["configurations", "inputs"], "Every SQP problem shape (with and without equality and inequality constraints, dense and sparse, default and derived classes), every QP solver class; all values of the settings.",
     "Tests set the bounds and settings they need; a bound that starts finite, an inadmissible default or one missing clause of the validator is only met by the user who relies on it.",
     ["src/solvers/sqp_base.hpp", "src/solvers/qp_base.hpp"], [("construction", "src/solvers/sqp_base.hpp: SQPBase::SQPBase"), ("settings", "src/solvers/sqp_base.hpp: sqp_settings_t; src/solvers/qp_base.hpp: qp_solver_settings_t, qp_solver_info_t")])

COL = ["src/control/ode_collocation.hpp", "src/control/sparse_ode_collocation.hpp", "src/control/cost_collocation.hpp", "src/control/constraints_collocation.hpp"]
prop("P19", "Stand-alone collocation of dynamics, costs and constraints is exact",
     "For any time interval, the dense and the sparse collocation classes return as residual, at every node, the segment's differentiation matrix applied to the states minus half the segment length times the dynamics; the cost class returns the weighted sum of the Lagrange term over all segments scaled by half the segment length plus the Mayer term at node 0; the constraint class returns the function's value at every node in order. Jacobians, gradient and Hessian are the exact derivatives in the states and controls (columns of the parameters, which are held fixed, are zero). This holds for new and used objects, however constructed, whatever the output storage held before, and for the sparse Jacobian also when a matrix filled at another point and interval is refreshed, which keeps its sparsity pattern.",
     ["inputs", "configurations", "histories"], "All dynamics, costs, constraints, points, intervals, differentiation matrices (also with an exactly zero diagonal entry) and symmetric quadrature weights; five combinations of order 2-3, 1-3 segments, 1-2 states, 1-3 controls, 0-2 parameters.",
     "Tests print values for one model and compare few of them; layouts with more controls than states, the refresh of a sparse Jacobian and re-use of an object are not checked.",
     COL, [("dynamics", "src/control/ode_collocation.hpp, src/control/sparse_ode_collocation.hpp: operator(), linearized"), ("cost", "src/control/cost_collocation.hpp: operator(), value_gradient, value_gradient_hessian"), ("constraints", "src/control/constraints_collocation.hpp: generic_function")],
     note="Basis, dynamics, costs and constraints are uninterpreted functions; automatic differentiation is interpreted symbolically and compared with the derivative of the stated formula.")

prop("P20", "Chebyshev collocation: nodes, differentiation and quadrature are exact",
     "For every order from 2 to 9 the Chebyshev scheme's nodes are cos(k pi/N) from 1 down to -1, its differentiation matrix maps the node values of every polynomial of degree at most N to the node values of the derivative, its Clenshaw-Curtis weights integrate every such polynomial exactly over any interval, and its density-weighted quadrature weights and normalisation factors are those of the Gauss-Lobatto rule (pi/N, halved at both ends; 1/pi for the first and last polynomial, 2/pi otherwise). Evaluating the basis polynomial of degree n gives T_n on [-1, 1]. The composite (multi-segment) scheme and the object's accessors hand out the same quantities.",
     ["inputs", "configurations"], "Every order from 2 to 9, every polynomial of the exact degree, every integration interval and every evaluation point in [-1, 1]; exact arithmetic.",
     "Tests integrate or differentiate one or two functions at one order; even and odd orders use different formulas and an error in one coefficient is absorbed by loose tolerances.",
     ["src/polynomials/ebyshev.hpp", "src/polynomials/splines.hpp"], [("generators", "src/polynomials/ebyshev.hpp: compute_nodes, compute_diff_matrix, compute_int_weights, compute_quad_weights, compute_norm_factors"), ("integration and evaluation", "src/polynomials/ebyshev.hpp: integrate, eval, weight")],
     note="Constant folding with pi exact and cosines to 420 bits; the identities are decided for all monomials of the exactness degree (hence all polynomials, by linearity) with a tolerance of 2^-200; interval, integrand coefficients and evaluation point are unknowns.")

prop("P21", "Legendre collocation: basis, nodes, differentiation and quadrature are exact",
     "For every order from 2 to 8 the Legendre scheme's basis coefficients are those of the Legendre polynomials, its nodes are -1, the extrema of the highest polynomial in ascending order and 1, its differentiation matrix differentiates every polynomial of degree at most N exactly at the nodes, its quadrature integrates every polynomial of degree at most 2N-1 exactly over any interval, and its normalisation factors are (2k+1)/2 and N/2 for the last one. Evaluating the basis polynomial of degree n gives the Legendre polynomial of that degree. The composite (multi-segment) scheme and the object's accessors hand out the same quantities.",
     ["inputs", "configurations"], "Every order from 2 to 8, every polynomial of the exact degree, every integration interval and evaluation point; exact arithmetic.",
     "Tests integrate and project single functions; the differentiation matrix is used by none of them.",
     ["src/polynomials/legendre.hpp", "src/polynomials/polynomial_math.hpp", "src/polynomials/splines.hpp"], [("generators", "src/polynomials/legendre.hpp: compute_basis, compute_nodes, compute_diff_matrix, compute_quad_weights, compute_norm_factors"), ("integration and evaluation", "src/polynomials/legendre.hpp: integrate, eval")],
     note="Constant folding; the root finder is modelled as returning all (real, simple) roots, isolated by the derivative's roots, to 420 bits. Decided for all monomials up to the exactness degree with a tolerance of 2^-200.")

prop("P22", "Projection onto a polynomial basis reproduces polynomials",
     "Projecting a polynomial of degree at most the basis order, on the standard interval or on any given one, yields exactly its coefficients in the Chebyshev or Legendre basis of that interval, and evaluating the projection at a point of the interval returns the polynomial's value there. Projecting again onto another interval replaces the previous projection completely.",
     ["inputs", "configurations", "histories"], "Every polynomial of degree at most N (orders 2 to 9 for Chebyshev, 2 to 8 for Legendre), every interval of positive length, every evaluation point inside it, any earlier projection.",
     "Tests print projections of one smooth function without comparing coefficients; an error in the highest coefficient or in the interval map is below their resolution.",
     ["src/polynomials/projection.hpp", "src/polynomials/ebyshev.hpp", "src/polynomials/legendre.hpp"], [("projection and evaluation", "src/polynomials/projection.hpp: project, eval"), ("weights and factors", "src/polynomials/ebyshev.hpp, src/polynomials/legendre.hpp")],
     note="The projected function is an unknown combination of the basis polynomials on an unknown interval (midpoint and half-length symbols).")

prop("P23", "The equidistant cubic spline evaluates the right segment, with derivatives",
     "For every argument the equidistant cubic spline returns the cubic polynomial (in the argument itself) of the segment the argument lies in, where segment k covers [k L, (k+1) L), arguments below the first segment use the first polynomial and arguments beyond the last segment use the last one. For automatically differentiated arguments, nested once or twice, the result carries the exact first and second derivatives of that polynomial. The coefficients and the segment length can be replaced through the accessors and take effect at once.",
     ["inputs", "configurations"], "Every argument in the segments two below the first to four beyond the last, all coefficients, all positive segment lengths, splines with 1, 2, 3 and 5 segments, all seed derivatives.",
     "Tests evaluate at a few points inside one spline; clipping, segment boundaries and second derivatives show only at particular arguments.",
     ["src/polynomials/splines.hpp"], [("evaluation", "src/polynomials/splines.hpp: EquidistantCubicSpline::eval, floor_")],
     note="The argument is (k + t) L with t unknown in [0, 1): each segment is decided for all its points by interval analysis of the index and value numbering of the polynomial.")

prop("P24", "Lagrange interpolation matches the values at the nodes",
     "The Lagrange basis computed from distinct nodes consists of the polynomials that are 1 at their own node and 0 at every other node. Evaluating an interpolant with given values and basis coefficients returns, in each component, the value-weighted sum of the basis polynomials at the argument, so that the interpolant passes through the given values.",
     ["inputs", "configurations"], "All distinct nodes, values, basis coefficients and arguments; 2 to 5 nodes and 1 to 3 components.",
     "Tests interpolate one function on one node set.",
     ["src/polynomials/splines.hpp"], [("basis and evaluation", "src/polynomials/splines.hpp: LagrangeSpline")],
     note="Nodes, values and argument are unknowns; the identities are rational-function identities decided by normal forms.")

prop("P25", "Polynomial products and derivatives are exact coefficient by coefficient",
     "The product of two polynomials given by coefficient vectors of equal size has, up to that size, the coefficients of the mathematical product (higher orders are cut off), for every pattern of zero and non-zero coefficients including the zero polynomial. The derivative has the coefficients (k+1) p_{k+1} and a zero last coefficient.",
     ["inputs", "configurations"], "All coefficient vectors whose entries are zero or at least rounding precision in magnitude, of 1 to 4 and 6 coefficients, with all zero patterns up to 4 coefficients and all sign combinations up to 3.",
     "The library itself only multiplies by x, the one case in which overwriting instead of accumulating goes unnoticed.",
     ["src/polynomials/polynomial_math.hpp"], [("product and derivative", "src/polynomials/polynomial_math.hpp: poly_mul, poly_diff")],
     note="Coefficients are unknowns with a sign and a magnitude range of 2^-20 to 2^20; zero patterns are enumerated.")

# ---- properties the technique cannot decide ----
prop("P26", "Reported work is the work done",
     "When a QP solve returns, the reported number of iterations is the number of iterations performed in that call, which never exceeds the configured limit, and the reported number of penalty updates has grown by the number of factorisations of that call. When an SQP solve returns, the reported number of iterations is the number of QP subproblems solved in that call, at least one and otherwise at most the limit, and the reported total of QP iterations is the sum of the iterations the QP solver reported in that call. Earlier solves do not show in the iteration counts.",
     ["inputs", "histories", "configurations"], "Both QP solvers, dense and sparse, every exit, all data, settings, warm and cold starts and earlier solves; the SQP solver with arbitrary collaborators, every exit, with and without a guess.",
     "Tests compare the counts with each other or with the limit, never with the work; an exhausted limit and a second solve on the same object are not checked.",
     ["src/solvers/admm.hpp", "src/solvers/box_admm.hpp", "src/solvers/sqp_base.hpp"], [("QP counts", "src/solvers/admm.hpp, src/solvers/box_admm.hpp: solve_impl, rho_vec_update"), ("SQP counts", "src/solvers/sqp_base.hpp: solve, solve_qp")],
     note="Counters kept by the analysis advance where linear systems are solved and factorised and where QPs are solved; relations between integer variables that hold at loop entry and are preserved by every iteration tie them to the program's counters.")

EXT = ["src/solvers/ipopt_interface.hpp", "src/solvers/osqp_interface.hpp", "src/solvers/qpmad_interface.hpp"]
prop("P27", "External solver adapters pass on the posed problem and the solver's answer",
     "The adapters to external solvers hand over exactly the problem the user posed and report exactly what the solver answered. The Ipopt adapter announces the problem's sizes, bounds and starting point, and returns at every point the cost, its gradient, the constraints, their Jacobian and the lower triangle of the Hessian of the Lagrangian with the given factor and multipliers, in the order of the announced pattern; the solver object passes a guess on and returns the final point, multipliers, status, iterations, infeasibilities and cost. The OSQP and qpmad adapters hand over Hessian, gradient, constraints, variable bounds, guess and settings of the current call, and return solution, status and (OSQP) multipliers, iterations and residuals. No access leaves the arrays an external solver passes.",
     ["inputs", "histories", "configurations"], "Arbitrary smooth problems, dense and sparse, with and without equality, inequality constraints and parameters; every point, multiplier, factor, earlier callback, setting, solver status; compressed and uncompressed sparse matrices; first set-up and update of an OSQP problem.",
     "The adapters are built only where the external solvers are installed, so their tests usually do not run at all; a Jacobian that is never copied or a read past the multipliers shows only at run time.",
     EXT, [("Ipopt callbacks and results", EXT[0] + ": IpoptAdapter, IpoptInterface"), ("OSQP", EXT[1] + ": solve_impl, construct_A, set_osqp_settings"), ("qpmad", EXT[2] + ": solve_impl")],
     note="The external libraries are not installed here; the adapters are analysed against stand-ins with the same interface that only store what they are given. How the libraries behave (for example a second set-up without clearing the first) is not part of the claim.")

prop("P40", "The splitting QP solvers converge on convex, feasible problems",
     "For every convex QP with a solution the built-in splitting solvers reach their stopping criteria, given enough iterations, for every admissible relaxation and step size.",
     ["inputs"], "All convex feasible QPs.",
     "Convergence is a statement about unbounded iteration on all problems.",
     QP, [("iteration", "src/solvers/admm.hpp, src/solvers/box_admm.hpp: solve")])
na("P40", "Convergence needs a contraction argument over unbounded iterations of runtime quantities (operator theory of the splitting method); no sound static bound is in reach. What the source can decide - that each iteration is the method's (P02, P03, P05) and that 'solved' is honest (P01) - is claimed instead.")

prop("P41", "The SQP method converges to a stationary point near a regular solution",
     "From a starting point close enough to a solution satisfying the usual regularity conditions the SQP solver reaches its tolerances.",
     ["inputs"], "All regular nonlinear programs and starting points near a solution.",
     "Local convergence quantifies over all problems and unbounded iterations.",
     ["src/solvers/sqp_base.hpp"], [("iteration", "src/solvers/sqp_base.hpp: solve")])
na("P41", "Local convergence depends on curvature, regularity and the (uninterpreted) QP solver's accuracy; not a property a sound static argument over this source can bound. Honest status (P06), right subproblems (P07) and sufficient decrease (P08) are claimed instead.")

prop("P42", "Computed solutions are accurate to the working precision",
     "Solutions, derivatives and collocation quantities differ from their exact values by no more than a modest multiple of the working precision.",
     ["inputs", "configurations"], "All inputs in float and double.",
     "Rounding error depends on conditioning and on all inputs.",
     ["src/solvers/admm.hpp", "src/control/continuous_ocp.hpp", "src/polynomials/legendre.hpp"], [("floating-point evaluation", "all numeric code")])
na("P42", "The analysis is in exact real arithmetic; bounding rounding through factorisations and root finders of unknown conditioning is out of reach of a sound static argument for all inputs.")
