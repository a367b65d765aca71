"""New solvers: bounds, iterates, parameters and settings right after construction; the settings validator."""
from framework import *
import c_qp
import c_sqp

INF = var("INFINITY")

# documented ranges (comments in qp_base.hpp and sqp_base.hpp): name, lower bound, strict, upper bound (strict), integer
QP = [("eps_rel", 0, True, None), ("eps_abs", 0, True, None), ("max_iter", 0, True, None), ("rho", 0, True, None), ("sigma", 0, True, None),
      ("alpha", 0, True, 2), ("check_termination", 0, False, None), ("adaptive_rho_tolerance", 1, True, None), ("adaptive_rho_interval", 0, True, None)]
SQP = [("tau", 0, True, 1), ("eta", 0, True, 1), ("rho", 0, True, 1), ("eps_prim", 0, True, None), ("eps_dual", 0, True, None),
       ("max_iter", 0, True, None), ("line_search_max_iter", 0, True, None)]


def ranges(ctx, it, st, table, key):
    for name, lo, strict, hi in table:
        if name not in st.fields:
            raise AnalysisError("setting %s not found" % name)
        v = P(it.load(st.fields[name]))
        low, high = cmp0("<" if strict else "<=", P(lo) - v), cmp0("<", v - hi) if hi is not None else ONE
        ctx.check("%s/%s" % (key, name), all(c == ONE or decide.entails(ONE, c) for c in (low, high)),
                  "the default value of %s is %s, documented range: %s %s%s" % (name, show(v), lo, "<" if strict else "<=", " .. < %s" % hi if hi is not None else ""), "settings of " + key)
    ctx.count("settings tables")


def run(ctx):
    prog, ss = c_sqp.prog_of(ctx)
    for name, (rec, nx, ne, ni, sparse) in ss.items():
        it = machine(prog)
        o = construct(it, rec, "S")
        where = rec["full"][:80]
        get = lambda n: it.call_method(o, n, [], pick=lambda m: "body" in m)
        m = ne + ni
        want = [("lower bound on the variables", "lower_bound_x", [-INF] * nx), ("upper bound on the variables", "upper_bound_x", [INF] * nx),
                ("primal iterate", "primal_solution", [ZERO] * nx), ("multipliers", "dual_solution", [ZERO] * (nx + m)), ("parameters", "parameters", [ZERO])]
        if ni:
            want += [("lower bound on the inequality constraints", "lower_bound_g", [-INF] * ni), ("upper bound on the inequality constraints", "upper_bound_g", [INF] * ni)]
        for what, acc, exp in want:
            ctx.equal("initial/%s/%s" % (what, name), c_sqp.fl(it, get(acc)), exp, where)
        ranges(ctx, it, it.load(get("settings")), SQP, "sqp-defaults/" + name)
        ranges(ctx, it, it.load(get("qp_settings")), QP, "qp-defaults-of-sqp/" + name)
        st = it.load(get("settings"))
        cb = it.load(st.fields["iteration_callback"])
        ctx.check("no-callback/" + name, cb is None or cb == 0 or (isinstance(cb, Poly) and cb == ZERO) or (isinstance(cb, Ptr) and cb.kind == "null"), lambda: "a new solver calls back %r" % (cb,), where)
        ctx.no_events(it, "well-formed/" + name)
        ctx.cover(it, "sqp.cpp")
        ctx.count("new SQP solvers")
        # the validator, for all settings
        it = machine(prog)
        o = construct(it, rec, "S")
        st = it.load(it.call_method(o, "settings", [], pick=lambda m: "body" in m))
        symbolise(it, st, "st", skip=("iteration_callback",))
        exp = ONE
        for n, lo, strict, hi in SQP:
            v = P(it.load(st.fields[n]))
            exp = exp * cmp0("<", P(lo) - v)
            if hi is not None:
                exp = exp * cmp0("<", v - hi)
        got = P(it.load(it.call_method(st, "validate", [], pick=lambda m: "body" in m)))
        ctx.equal("validator/" + name, got, exp, where)
        ctx.no_events(it, "validator-well-formed/" + name)
        ctx.cover(it, "sqp.cpp")
    ctx.require("new SQP solvers", ctx.minimum.get("new SQP solvers", 0), 8)
    # ---- QP solvers
    prog, vs = c_qp.variants_of(ctx)
    for v in vs:
        nm = c_qp.vname(v)
        it = machine(prog)
        o = construct(it, v[3], "S")
        get = lambda n: it.call_method(o, n, [], pick=lambda m: "body" in m)
        ranges(ctx, it, it.load(get("settings")), QP, "qp-defaults/" + nm)
        info = it.load(get("info"))
        ctx.equal("not-solved-yet/" + nm, P(it.load(info.fields["status"])), P(3), "a new " + nm)
        ctx.no_events(it, "well-formed/" + nm)
        ctx.cover(it, "qp.cpp")
        ctx.count("new QP solvers")
    ctx.require("new QP solvers", ctx.minimum.get("new QP solvers", 0), 8)
    ctx.require("settings tables", ctx.minimum.get("settings tables", 0), 24)
