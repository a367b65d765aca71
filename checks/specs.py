TRUST = [
    "clang 18 parsing and template instantiation of the driver translation units",
    "the analyser's abstract semantics of Eigen and of the C++ standard library (engine/eigenmodel.py, engine/stdmodel.py)",
    "scalars are treated as exact real numbers: floating-point rounding, overflow and NaN are outside the property",
]
GVN = "abstract interpretation of the instantiated syntax trees in a value-numbering domain (algebraic normal forms over unknown inputs, joins at merges, arbitrary-iteration abstraction of loops)"


def meta(level="other", explanation="", assumptions=(), trusted=()):
    return {"level": level, "explanation": explanation, "assumptions": list(assumptions), "trusted": TRUST + list(trusted)}


SPECS = {
    "P01": ("c_qp", "status", meta(explanation=GVN + ": for each exit edge of the iteration loop (trace partitioning), path condition and returned cells are compared with the residual criteria written from the definition")),
    "P02": ("c_qp", "system", meta(explanation=GVN + ": the value number of every factorised matrix reaching a linear solve is compared with the KKT matrix of the problem")),
    "P03": ("c_qp", "iteration", meta(explanation=GVN + ": the transfer function of one loop iteration is compared with the splitting method's update, on both back and exit edges")),
    "P04": ("c_qp", "history", meta(explanation=GVN + ": fixpoint over all earlier calls, then a dependence analysis of results, loop-entry state, inputs and settings")),
    "P05": ("c_qp", "penalties", meta(explanation=GVN + ": the penalty terms of the factorised system at loop entry are compared with the classification of the bounds; clamping of the adapted step size is read off the value number")),
    "P06": ("c_sqp", "status", meta(explanation=GVN + ": for each exit of the SQP loop (trace partitioning) the path condition and the returned cells are compared with the convergence criteria; user problem, QP solver and preconditioner are uninterpreted")),
    "P07": ("c_sqp", "wiring", meta(explanation=GVN + ": one arbitrary SQP iteration (and the first one, from any earlier history) with uninterpreted problem functions, QP solver, preconditioner and Hessian update; every argument handed over is compared with the definition")),
    "P08": ("c_sqp", "linesearch", meta(explanation=GVN + ": the step size selection is interpreted from an arbitrary solver state; each loop exit is shown to imply sufficient decrease of the merit function or exhaustion of the trials")),
    "P09": ("c_prec", "ruiz", meta(explanation=GVN + ": inductive invariant of the equilibration loop, sign analysis of the scaling factors, comparison of scale/unscale with their definitions, and a query over the instantiated product types for a product Eigen evaluates wrongly")),
    "P10": ("c_nlp", "run", meta(explanation=GVN + ": each evaluation method of the NLP base class is interpreted once for arbitrary user functions, point, parameters and multipliers, from an object state that covers every earlier sequence of calls; outputs are compared with formal derivatives")),
    "P11": ("c_ocp", "run", meta(explanation=GVN + ": every evaluation method of the dense transcribed problem is interpreted for arbitrary user functions, differentiation matrix, weights, node times and time window, from an object state covering every earlier sequence of evaluations; each output entry is compared with the discretised model or its formal derivative")),
    "P12": ("c_ocp", "run_sparse", meta(explanation=GVN + ": the sparse evaluation methods are interpreted on empty matrices and on matrices filled by an arbitrary earlier evaluation, with compressed-column storage modelled concretely (index arrays) and values symbolically; entries, pattern and storage layout are compared with the discretised model's formal derivatives")),
    "P13": ("c_ad", "run", meta(explanation=GVN + ": the value and each derivative of every operation of the AD scalar, expanded down to plain scalars, are compared with the rules of calculus up to the identities of exp, sin and cos")),
    "P14": ("c_mpc", "wrapper", meta(explanation=GVN + ": each setter of the wrapper is interpreted on a solver whose every slot is an unknown, and the complete before/after difference of the object is compared with the slots it stands for; getters and time interpolation are compared with the slots and the interpolation polynomial of the segment containing the time")),
    "P15": ("c_mpc", "times", meta(explanation=GVN + ": construction and re-setting of the time window are interpreted for unknown collocation nodes and limits; each node time is compared with the affine image of its collocation node in its segment")),
    "P16": ("c_qn", "updates", meta(explanation=GVN + ": the quasi-Newton update functions are interpreted for unknown matrices and vectors and compared with the published formulas, case by case over their safeguards")),
    "P17": ("c_filter", "run", meta(explanation=GVN + " with intervals for the order of the stored pairs: the answers and the stored list after each operation are compared with the definition of the filter")),
    "P18": ("c_defaults", "run", meta(explanation=GVN + " with constant propagation: the state after construction is compared with the documented defaults and ranges; the settings validator is compared with the conjunction of the documented ranges for unknown settings")),
    "P19": ("c_col", "run", meta(explanation=GVN + " with symbolic automatic differentiation: residuals, costs, gradients, Hessians and Jacobians of the stand-alone collocation classes are compared with the formulas and their derivatives")),
    "P20": ("c_poly", "cheb", meta(explanation=GVN + ", with constant folding of pi, cosines and roots: the scheme's generators are interpreted for each order and the defining identities are compared for every monomial")),
    "P21": ("c_poly", "leg", meta(explanation=GVN + ", with constant folding of roots: the scheme's generators are interpreted for each order and the defining identities are compared for every monomial", trusted=["Eigen's polynomial root finder returns all roots"])),
    "P22": ("c_poly", "projection", meta(explanation=GVN + ": projection of an unknown combination of basis polynomials on an unknown interval; coefficients and value are compared with that combination")),
    "P23": ("c_poly", "cubic", meta(explanation=GVN + " with intervals for the segment index: the value and the derivatives are compared with the segment's polynomial for every argument of the segment")),
    "P24": ("c_poly", "lagrange", meta(explanation=GVN + ": basis and interpolant are compared with the interpolation conditions as rational functions of unknown nodes")),
    "P25": ("c_poly", "coefficients", meta(explanation=GVN + " with intervals for the coefficient magnitudes: product and derivative are compared with the convolution and the derivative, per zero pattern")),
    "P26": ("c_info", "run", meta(explanation=GVN + " with relational loop invariants between integer counters: the reported counts are compared with counters of the solved and factorised systems at every exit")),
    "P27": ("c_ext", "run", meta(explanation=GVN + ": what the adapters hand over is compared with the posed problem and what they report with the answer, for arbitrary contents",
                                  trusted=["the stand-ins for the external libraries (drivers/stubs) declare the same interface as the libraries"])),
}
