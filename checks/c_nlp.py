"""NLP interface: values, gradients, Jacobians and Hessians are exact derivatives of the user's functions."""
from framework import *

PROBLEMS = {"NlpFull": (3, 1, 2, 1), "NlpEq": (2, 2, 0, 1), "NlpIneq": (2, 0, 1, 2), "NlpFree": (2, 0, 0, 1), "NlpOne": (2, 1, 1, 1), "NlpNoCost": (2, 1, 0, 1)}


def model(name, dims, hascost=True):
    nx, ne, ni, npar = dims
    xs = ["x[%d]" % i for i in range(nx)]
    args = [var(n) for n in xs] + [var("p[%d]" % i) for i in range(npar)]
    f = fn("f", *args) if hascost else ZERO
    c = [fn("c%d" % i, *args) for i in range(ne)]
    g = [fn("g%d" % i, *args) for i in range(ni)]
    return xs, f, c, g


def grad(e, xs):
    return [diff(e, x) for x in xs]


def run(ctx):
    prog = ir.dump("nlp.cpp")
    for name, dims in PROBLEMS.items():
        nx, ne, ni, npar = dims
        nc = ne + ni
        rec = record(prog, name)
        it = machine(prog)
        if name != "NlpNoCost":
            it.overrides[(name, "cost_impl")] = user_function("f", None)
        it.overrides[(name, "equality_constraints_impl")] = user_function("c", ne)
        it.overrides[(name, "inequality_constraints_impl")] = user_function("g", ni)
        o = construct(it, rec, "P")
        xs, f, c, g = model(name, dims, name != "NlpNoCost")
        lamv = [var("lam[%d]" % i) for i in range(nc + nx)]
        L = f
        for i, ci in enumerate(c + g):
            L = L + lamv[i] * ci
        for i in range(nx):
            L = L + lamv[nc + i] * var(xs[i])

        def calls(xn, pn, ln, sn):
            """every public evaluation, with argument names; returns {call: (thunk, outputs)}"""
            x, p, lam = TempLV(V(xn, nx)), TempLV(V(pn, npar)), TempLV(V(ln, nc + nx))
            d = {}

            def add(label, meth, outs, extra=(), pre=(), inp=None):
                vals = [TempLV(var("pre:s")) if q == () else out(*q) for q in outs]
                a = list(inp if inp is not None else [x, p]) + list(pre) + vals + list(extra)
                d[label] = (lambda: it.call_method(o, meth, a, nparams=len(a)), vals)
            sc = var(sn)
            add("cost", "cost", [()])
            add("cost_gradient", "cost_gradient", [(), (nx,)])
            add("cost_gradient_hessian", "cost_gradient_hessian", [(), (nx,), (nx, nx)])
            add("equalities", "equalities", [(ne,)])
            add("inequalities", "inequalities", [(ni,)])
            add("constraints", "constraints", [(nc,)])
            add("equalities_linearised", "equalities_linearised", [(ne,), (ne, nx)])
            add("inequalities_linearised", "inequalities_linearised", [(ni,), (ni, nx)])
            add("constraints_linearised", "constraints_linearised", [(nc,), (nc, nx)])
            add("lagrangian", "lagrangian", [()], pre=[lam])
            add("lagrangian_gradient(5)", "lagrangian_gradient", [(), (nx,)], pre=[lam])
            add("lagrangian_gradient(8)", "lagrangian_gradient", [(), (nx,), (nx,), (nc,), (nc, nx)], pre=[lam])
            add("lagrangian_gradient_hessian(9)", "lagrangian_gradient_hessian", [(), (nx,), (nx, nx), (nx,), (nc,), (nc, nx)], pre=[lam])
            add("lagrangian_gradient_hessian(10)", "lagrangian_gradient_hessian", [(), (nx,), (nx, nx), (nx,), (nc,), (nc, nx)], pre=[lam], extra=[sc])
            return d
        hist = calls("xh", "ph", "lh", "sh")
        arbitrary_history(it, o, [t for t, _ in hist.values()])
        gf = grad(f, xs)
        Hf = [[diff(a, x) for a in gf] for x in xs]       # column-major list of columns
        J = [[diff(e, x) for e in c + g] for x in xs]
        gL = grad(L, xs)

        def HL(s):
            M = s * f
            for i, ci in enumerate(c + g):
                M = M + lamv[i] * ci
            gm = grad(M, xs)
            return [[diff(a, x) for a in gm] for x in xs]
        sc = var("s")
        want = {
            "cost": [f],
            "cost_gradient": [f, gf],
            "cost_gradient_hessian": [f, gf, Hf],
            "equalities": [c],
            "inequalities": [g],
            "constraints": [c + g],
            "equalities_linearised": [c, [[col[i] for i in range(ne)] for col in J]],
            "inequalities_linearised": [g, [[col[ne + i] for i in range(ni)] for col in J]],
            "constraints_linearised": [c + g, J],
            "lagrangian": [L],
            "lagrangian_gradient(5)": [None, gL],
            "lagrangian_gradient(8)": [None, gL, gf, c + g, J],
            "lagrangian_gradient_hessian(9)": [None, gL, HL(ONE), gf, c + g, J],
            "lagrangian_gradient_hessian(10)": [None, gL, HL(sc), gf, c + g, J],
        }
        role = {"cost": ["value"], "cost_gradient": ["value", "gradient"], "cost_gradient_hessian": ["value", "gradient", "hessian"],
                "equalities": ["value"], "inequalities": ["value"], "constraints": ["value"], "equalities_linearised": ["value", "jacobian"],
                "inequalities_linearised": ["value", "jacobian"], "constraints_linearised": ["value", "jacobian"], "lagrangian": ["value"],
                "lagrangian_gradient(5)": ["", "gradient"]}
        lg = ["", "gradient", "cost gradient", "constraints", "jacobian"]
        lh = ["", "gradient", "hessian", "cost gradient", "constraints", "jacobian"]
        base = dict(it.S.heap)
        rec0 = dict(it.S.heap)
        for label, (thunk, vals) in calls("x", "p", "lam", "s").items():
            it.S.heap.update({c.oid: rec0[c.oid] for _, c in cells_of(o) if c.oid in rec0})
            thunk()
            roles = role.get(label) or (lg if "(8)" in label else lh)
            for k, w in enumerate(want[label]):
                if w is None:
                    continue
                got = it.load(vals[k])
                key = "%s/%s/%s" % (label, name, roles[k])
                if ctx.equal(key, got, w, "nlproblem.hpp %s of a problem with %d variables, %d+%d constraints" % (label, nx, ne, ni)):
                    pass
                ctx.nodep("initialised/%s/%s/%s" % (label, name, roles[k]), got, uninit_or(["hist", "pre:", "xh", "ph", "lh", "sh"]), "stale or uninitialised storage")
        ctx.no_events(it, "in-range/%s" % name)
        ctx.cover(it, "nlp.cpp")
    ctx.require("evaluation methods of the NLP interface", 14, 14)
