"""Adapters to external solvers (Ipopt, OSQP, qpmad): what they hand over is the caller's problem, what they report is the solver's answer.
The external libraries are stand-ins (drivers/stubs) that only store what they are given; the adapters' own code is analysed."""
from framework import *
import c_ocp
import c_nlp
from c_ocp import Ocp

NLPS = {"NlpFull": (3, 1, 2, 1), "NlpEq": (2, 2, 0, 1), "NlpIneq": (2, 0, 1, 2)}
OCPS = ("OcpSD", "OcpSF", "OcpDE")
WH = "ipopt_interface.hpp IpoptAdapter"


class Posed:
    """the problem as the user posed it: the machine, the adapter object and the mathematical model"""

    def __init__(self, prog, name):
        self.name = name
        if name in NLPS:
            nx, ne, ni, npar = NLPS[name]
            self.it = it = machine(prog)
            it.overrides[(name, "cost_impl")] = user_function("f", None)
            it.overrides[(name, "equality_constraints_impl")] = user_function("c", ne)
            it.overrides[(name, "inequality_constraints_impl")] = user_function("g", ni)
            self.N, self.ne, self.ni, self.nd = nx, ne, ni, npar
            self.sparse = False
            xs, f, c, g = c_nlp.model(name, NLPS[name])
            self.xs, self.cost, self.g = xs, f, c + g
        else:
            P_ = Ocp(prog, name)
            self.it = it = P_.it
            self.N, self.ne, self.ni, self.nd, self.sparse = P_.N, P_.ne, P_.ni, P_.nd, P_.sparse
            f, c, g = P_.model("x", "p")
            self.xs, self.cost, self.g = P_.names("x"), f, c + g
        self.nc = self.ne + self.ni
        self.rec = record(prog, "IpoptAdapter", lambda r: r["full"].rstrip("> ").endswith("<" + name))
        self.a = construct(it, self.rec, "A")
        if name not in NLPS:
            for k, v in (("t_start", var("t0")), ("t_stop", var("tf")), ("time_nodes", V("tau", P_.nodes))):
                it.store(P_.field(k, self.a), v)

    def set(self, **kw):
        for k, v in kw.items():
            self.it.store(self.a.fields[k], v)

    def call(self, fname, args):
        fs = [f for f in self.it.prog.functions.values() if f["name"] == fname and "body" in f and self.it.prog.deref(f["params"][0]["t"]).get("r") == self.rec["id"]]
        if len(fs) != 1:
            raise AnalysisError("driver function %s for %s: %d found" % (fname, self.name, len(fs)))
        r = self.it.call(fs[0], None, [self.a] + list(args))
        r = self.it.load(r) if isinstance(r, LV) else r
        return r

    def fresh(self, tag, n):
        return out(n, 1, "pre:" + tag)


def num(x):
    x = P(x)
    return int(x.const()) if x.is_const() else None


def ipopt(ctx, name):
    prog = ir.dump("ext.cpp")
    q = Posed(prog, name)
    it, N, nc, ne, ni = q.it, q.N, q.nc, q.ne, q.ni
    stale = uninit_or(["pre:", "hist", "xh", "lh", "sh", "ph"])
    q.set(m_p=V("ph", q.nd), m_x=V("xh", N), m_lam=V("lh", nc + N))
    ok = lambda key, r: ctx.check("accepted/%s/%s" % (key, name), r is True or num(r if not isinstance(r, bool) else int(r)) == 1, "the callback reports a failure", WH)
    # sizes
    cells = [TempLV(var("pre:%s" % k)) for k in "nmjhs"]
    ok("sizes", q.call("ip_info", cells))
    n, m, nj, nh, style = [num(it.load(c)) for c in cells]
    ctx.check("sizes/%s" % name, (n, m) == (N, nc), "announces %s variables and %s constraints, the problem has %d and %d" % (n, m, N, nc), WH + "::get_nlp_info")
    ctx.check("index style/%s" % name, style == 0, "announces indices that do not start at zero", WH + "::get_nlp_info")
    if nj is None or nh is None:
        raise AnalysisError("the announced numbers of entries are not constants")

    def jac(tag):
        x, v = TempLV(V(tag, N)), q.fresh("jv", nj)
        r = q.call("ip_jac", [n, m, nj, x, v])
        return r, v

    def hes(tag, ln, sn):
        v = q.fresh("hv", nh)
        r = q.call("ip_hes", [n, m, nh, TempLV(V(tag, N)), var(sn), TempLV(V(ln, nc)), v])
        return r, v

    def val(tag):
        f, g, c = TempLV(var("pre:f")), q.fresh("gf", N), q.fresh("c", nc)
        rs = [q.call("ip_f", [n, TempLV(V(tag, N)), f]), q.call("ip_grad", [n, TempLV(V(tag, N)), g]), q.call("ip_g", [n, m, TempLV(V(tag, N)), c])]
        return rs, f, g, c

    def pattern(fn_, nz):
        r, c = q.fresh("ir", nz), q.fresh("ic", nz)
        ret = q.call(fn_, [n, m, nz, r, c])
        return ret, [num(z) for z in it.load(r).d], [num(z) for z in it.load(c).d]
    # patterns are asked for once, before any value
    r, jr, jc = pattern("ip_jac_pattern", nj)
    ok("Jacobian pattern", r)
    r, hr, hc = pattern("ip_hes_pattern", nh)
    ok("Hessian pattern", r)
    for lab, rr, cc, rows, lower in (("Jacobian", jr, jc, nc, False), ("Hessian", hr, hc, N, True)):
        good = all(i is not None and j is not None and 0 <= i < rows and 0 <= j < N and (not lower or i >= j) for i, j in zip(rr, cc))
        ctx.check("%s pattern in range/%s" % (lab, name), good, "positions outside the matrix%s: %s" % (" or its lower triangle" if lower else "", list(zip(rr, cc))[:8]), WH)
        if not good:
            return
    first = [("first", False), ("after other points", True)]
    for lab, hist in first:
        if hist:
            arbitrary_history(it, q.a, [lambda: jac("xh"), lambda: hes("xh", "lh", "sh"), lambda: val("xh")])
        q.set(m_p=V("p", q.nd))
        rs, f, g, c = val("x")
        for k, r in zip(("cost", "gradient", "constraints"), rs):
            ok(k, r)
        ctx.equal("cost/%s/%s" % (name, lab), it.load(f), q.cost, WH + "::eval_f")
        ctx.equal("gradient/%s/%s" % (name, lab), it.load(g), [diff(q.cost, x) for x in q.xs], WH + "::eval_grad_f")
        ctx.equal("constraints/%s/%s" % (name, lab), it.load(c), q.g, WH + "::eval_g")
        r, v = jac("x")
        ok("Jacobian", r)
        J = [[ZERO] * N for _ in range(nc)]
        for i, j, z in zip(jr, jc, it.load(v).d):
            J[i][j] = J[i][j] + P(z)
        ctx.equal("Jacobian/%s/%s" % (name, lab), [J[i][j] for j in range(N) for i in range(nc)], [diff(q.g[i], q.xs[j]) for j in range(N) for i in range(nc)], WH + "::eval_jac_g")
        r, v2 = hes("x", "lam", "s")
        ok("Hessian", r)
        L = var("s") * q.cost
        for i in range(nc):
            L = L + var("lam[%d]" % i) * q.g[i]
        gL = [diff(L, x) for x in q.xs]
        H = {}
        for i, j, z in zip(hr, hc, it.load(v2).d):
            H[i, j] = H.get((i, j), ZERO) + P(z)
        low = [(i, j) for j in range(N) for i in range(j, N)]
        ctx.equal("Hessian/%s/%s" % (name, lab), [H.get(p, ZERO) for p in low], [diff(gL[j], q.xs[i]) for i, j in low], WH + "::eval_h")
        ctx.nodep("nothing stale/%s/%s" % (name, lab), [it.load(z) for z in (f, g, c, v, v2)], stale, "stale or unset storage", WH)
    # bounds and starting point
    q.set(m_lbx=V("lx", N), m_ubx=V("ux", N), m_lbg=V("lg", ni), m_ubg=V("ug", ni), m_x=V("x0", N), m_lam=V("l0", nc + N))
    bs = [q.fresh("b%d" % k, s) for k, s in enumerate((N, N, nc, nc))]
    ok("bounds", q.call("ip_bounds", [n, m] + bs))
    want = [list(V("lx", N).d), list(V("ux", N).d), [ZERO] * ne + list(V("lg", ni).d), [ZERO] * ne + list(V("ug", ni).d)]
    for lab, b, w in zip(("lower bounds on variables", "upper bounds on variables", "lower bounds on constraints", "upper bounds on constraints"), bs, want):
        ctx.equal("%s/%s" % (lab, name), it.load(b), w, WH + "::get_bounds_info")
    l0 = [var("l0[%d]" % i) for i in range(nc + N)]
    for ix in (True, False):
        ss = [q.fresh("s%d" % k, s) for k, s in enumerate((N, N, N, nc))]
        pre = [list(it.load(z).d) for z in ss]
        ok("starting point", q.call("ip_start", [n, m, ix, ix, ix] + ss))
        want = [list(V("x0", N).d), [ite(cmp0("<", z), -z, ZERO) for z in l0[nc:]], [ite(cmp0("<", z), ZERO, z) for z in l0[nc:]], l0[:nc]]
        for lab, b, w, o in zip(("point", "lower multipliers", "upper multipliers", "constraint multipliers"), ss, want, pre):
            ctx.equal("starting %s/%s/%s" % (lab, name, "asked for" if ix else "not asked for"), it.load(b), w if ix else o, WH + "::get_starting_point")
    # the answer
    q.call("ip_final", [n, m, TempLV(V("xs", N)), TempLV(V("zl", N)), TempLV(V("zu", N)), TempLV(V("gs", nc)), TempLV(V("ls", nc)), var("fs")])
    ctx.equal("final point/%s" % name, it.load(q.a.fields["m_x"]), list(V("xs", N).d), WH + "::finalize_solution")
    ctx.equal("final multipliers/%s" % name, it.load(q.a.fields["m_lam"]), list(V("ls", nc).d) + [var("zu[%d]" % i) - var("zl[%d]" % i) for i in range(N)], WH + "::finalize_solution")
    ctx.no_events(it, "in-range/Ipopt %s" % name)
    ctx.cover(it, "ext.cpp")
    ctx.count("adapter instances")


def interface(ctx, name):
    """the solver object around the adapter: the guess reaches Ipopt, its answer and statistics reach the user"""
    prog = ir.dump("ext.cpp")
    q = Posed(prog, name)
    it, N, nc = q.it, q.N, q.nc
    wh = "ipopt_interface.hpp IpoptInterface::solve"
    seen = {}

    def optimize(it_, f, this, args):
        seen["x"], seen["l"] = it.load(q.a.fields["m_x"]), it.load(q.a.fields["m_lam"])
        seen["same"] = it.load(args[0].fields["p"]) if isinstance(args[0], StructObj) else None
        q.call("ip_final", [N, nc, TempLV(V("xs", N)), TempLV(V("zl", N)), TempLV(V("zu", N)), TempLV(V("gs", nc)), TempLV(V("ls", nc)), var("fs")])
        return var("status", isint=True)

    def infeasibilities(it_, f, this, args):
        for z, k in zip(args, ("dual", "viol", "bviol", "compl", "kkt")):
            it.store(z, var("r:" + k))
    rec = record(prog, "IpoptInterface", lambda r: r["full"].rstrip("> ").endswith("<" + name))
    o = it.new_struct(rec, "S")
    app, st = it.new_struct(record(prog, "Ipopt::IpoptApplication"), "app"), it.new_struct(record(prog, "Ipopt::SolveStatistics"), "stat")
    it.overrides[("IpoptApplication", "OptimizeTNLP")] = optimize
    it.overrides[("SolveStatistics", "IterationCount")] = lambda *a: var("r:iter", isint=True)
    it.overrides[("SolveStatistics", "FinalObjective")] = lambda *a: var("r:f")
    it.overrides[("SolveStatistics", "Infeasibilities")] = infeasibilities
    sp = record(prog, "Ipopt::SmartPtr", lambda r: "SolveStatistics" in r["full"])
    stp = it.new_struct(sp, "statp")
    it.store(stp.fields["p"], Ptr("obj", st))
    it.overrides[("IpoptApplication", "Statistics")] = lambda *a: stp
    it.store(o.fields["m_app"].fields["p"], Ptr("obj", app))
    it.store(o.fields["m_problem"].fields["p"], Ptr("obj", q.a))
    for guess in (False, True):
        k = "%s/%s" % (name, "guess" if guess else "no guess")
        q.set(m_x=V("x0", N), m_lam=V("l0", nc + N))
        it.call_method(o, "solve", [TempLV(V("xg", N)), TempLV(V("lg", nc + N))] if guess else [], nparams=2 if guess else 0)
        ctx.equal("starting point reaches the solver/" + k, list(seen["x"].d) + list(seen["l"].d), list(V("xg" if guess else "x0", N).d) + list(V("lg" if guess else "l0", nc + N).d), wh)
        ctx.check("problem reaches the solver/" + k, isinstance(seen["same"], Ptr) and seen["same"].m is q.a, "another problem is solved", wh)
        ctx.equal("solution/" + k, it.load(it.call_method(o, "primal_solution", [], nparams=0)), list(V("xs", N).d), wh)
        ctx.equal("multipliers/" + k, it.load(it.call_method(o, "dual_solution", [], nparams=0)), list(V("ls", nc).d) + [var("zu[%d]" % i) - var("zl[%d]" % i) for i in range(N)], wh)
        inf = o.fields["m_info"].fields
        ctx.equal("reported status/" + k, P(it.load(inf["status"])), var("status", isint=True), wh)
        ctx.equal("reported iterations/" + k, P(it.load(inf["iter"])), var("r:iter", isint=True), wh)
        for m, w in (("dual_norm", "r:dual"), ("constr_violation", "r:viol"), ("cost", "r:f")):
            r = it.call_method(o, m, [], nparams=0)
            ctx.equal("reported %s/%s" % (m, k), P(it.load(r) if isinstance(r, LV) else r), var(w), wh)
    r = it.call_method(o, "get_problem", [], nparams=0, pick=lambda f: not f.get("const"))
    ctx.check("problem access/" + name, r is q.a.fields["problem"], "get_problem() is not the problem that is solved", "ipopt_interface.hpp IpoptInterface::get_problem")
    ctx.no_events(it, "in-range/IpoptInterface " + name)
    ctx.cover(it, "ext.cpp")
    ctx.count("adapter instances")


SETTINGS = {"rho": "rho", "alpha": "alpha", "sigma": "sigma", "verbosity": "verbose", "warm_start": "warm_start", "adaptive_rho": "adaptive_rho", "max_iter": "max_iter",
            "check_termination": "check_termination", "eps_abs": "eps_abs", "eps_rel": "eps_rel", "adaptive_rho_interval": "adaptive_rho_interval",
            "adaptive_rho_tolerance": "adaptive_rho_tolerance", "delta": "delta", "polish": "polish", "scaling": "scaling", "time_limit": "time_limit",
            "polish_refine_iter": "polish_refine_iter", "linear_solver": "osqp_linear_solver", "scaled_termination": "scaled_termination",
            "adaptive_rho_fraction": "adaptive_rho_fraction", "eps_prim_inf": "eps_prim_inf", "eps_dual_inf": "eps_dual_inf"}
#           external code -> reported status (SOLVED 0, MAX_ITER_EXCEEDED 1, UNSOLVED 2, INFEASIBLE 4)
OSQP_STATUS = {1: 0, 2: 0, -3: 4, -4: 4, -2: 1, -10: 2, 3: 2, 4: 2, -5: 2, -6: 2, -7: 2}


def sparse_in(name, r, c, pat, compressed):
    return TempLV(SPM(name, r, c, pat, compressed))


def osqp(ctx, item):
    n, m, guess, warm, compressed = item
    prog = ir.dump("ext.cpp")
    it = machine(prog)
    rec = record(prog, "polympc::OSQP", lambda r: r["args"][:2] == [n, m])
    o = construct(it, rec, "S")
    tag = "OSQP %d variables, %d constraints%s%s%s" % (n, m, ", guess" if guess else "", ", update" if warm else "", "" if compressed else ", uncompressed")
    wh = "osqp_interface.hpp OSQP::solve_impl"
    sv = o.fields["osqp_solver"]
    st = o.fields["m_settings"]
    pat = {(i, j) for i in range(m) for j in range(n) if (i + j) % 3 != 2}
    hp = {(i, j) for i in range(n) for j in range(n) if abs(i - j) < 2}

    def problem(s):
        a = [sparse_in(s + "H", n, n, hp, compressed), TempLV(V(s + "h", n)), sparse_in(s + "A", m, n, pat, compressed), TempLV(V(s + "l", m)), TempLV(V(s + "u", m)), TempLV(V(s + "xl", n)), TempLV(V(s + "xu", n))]
        return a + ([TempLV(V(s + "x0", n)), TempLV(V(s + "y0", n + m))] if guess else [])

    def answer(s, code):
        info = sv.fields["info_"]
        for k in ("iter", "obj_val", "pri_res", "dua_res", "rho_updates", "rho_estimate"):
            it.store(info.fields[k], it.default_content(info.fields[k].tid, s + k, symb))
        it.store(info.fields["status_val"], const(code))
        it.store(sv.fields["x"], V(s + "xs", n))
        it.store(sv.fields["y"], V(s + "ys", n + m))

    def options(s, w, reuse):
        for k, c in st.fields.items():
            it.store(c, w if k == "warm_start" else reuse if k == "reuse_pattern" else it.default_content(c.tid, s + k, symb))
    it.store(sv.fields["ws"].fields["info"], Ptr("obj", sv.fields["info_"]))
    solve = lambda a: it.call_method(o, "solve_impl", a, nparams=len(a))
    codes = OSQP_STATUS if n == 3 and not warm else {1: 0}
    options("o0:", False, False)
    answer("r0:", 1)
    solve(problem("q0:"))
    for code, st_want in codes.items():
        s = "q:"
        options("o:", warm, warm)
        answer("r:", code)
        r = solve(problem(s))
        k = "%s/%s" % (tag, code)
        solved, used = sv.fields["solved"], sv.fields["used"]
        dense = lambda f: [P(z) for z in flat(it, solved.fields[f])]
        A = {p: var("q:A[%d,%d]" % p) for p in pat}
        ctx.equal("Hessian handed over/" + k, dense("H"), [var("q:H[%d,%d]" % (i, j)) if (i, j) in hp else ZERO for j in range(n) for i in range(n)], wh)
        ctx.equal("gradient handed over/" + k, dense("g"), list(V("q:h", n).d), wh)
        ctx.equal("constraints handed over/" + k, dense("A"), [A.get((i, j), ZERO) if i < m else (ONE if i - m == j else ZERO) for j in range(n) for i in range(n + m)], wh)
        ctx.equal("lower bounds handed over/" + k, dense("lb"), list(V("q:l", m).d) + list(V("q:xl", n).d), wh)
        ctx.equal("upper bounds handed over/" + k, dense("ub"), list(V("q:u", m).d) + list(V("q:xu", n).d), wh)
        if guess:
            ctx.equal("guess handed over/" + k, [P(z) for f in ("x0", "y0") for z in flat(it, sv.fields[f])] + [P(it.load(sv.fields["guessed_at_solve"]))], list(V("q:x0", n).d) + list(V("q:y0", n + m).d) + [ONE], wh)
        for a, b in SETTINGS.items():
            ctx.equal("setting %s/%s" % (a, k), P(it.load(used.fields[a])), P(it.load(st.fields[b])), "osqp_interface.hpp OSQP::set_osqp_settings")
        ctx.equal("solution/" + k, [P(z) for f in ("m_x", "m_y") for z in flat(it, o.fields[f])], list(V("r:xs", n).d) + list(V("r:ys", n + m).d), wh)
        inf = o.fields["m_info"].fields
        for a, b in (("iter", "iter"), ("rho_updates", "rho_updates"), ("rho_estimate", "rho_estimate"), ("res_prim", "pri_res"), ("res_dual", "dua_res")):
            ctx.equal("reported %s/%s" % (a, k), P(it.load(inf[a])), P(it.load(sv.fields["info_"].fields[b])), wh)
        r = it.load(r) if isinstance(r, LV) else r
        ctx.equal("status/" + k, [P(r), P(it.load(inf["status"]))], [const(st_want)] * 2, wh)
    ctx.no_events(it, "in-range/" + tag)
    ctx.cover(it, "ext.cpp")
    ctx.count("adapter instances")


def qpmad(ctx, item):
    n, m, guess = item
    prog = ir.dump("ext.cpp")
    it = machine(prog)
    rec = record(prog, "polympc::QPMAD", lambda r: r["args"][:2] == [n, m])
    o = construct(it, rec, "S")
    tag = "qpmad %d variables, %d constraints%s" % (n, m, ", guess" if guess else "")
    wh = "qpmad_interface.hpp QPMAD::solve_impl"
    sv, st = o.fields["qpmad_solver"], o.fields["m_settings"]
    for k, c in st.fields.items():
        it.store(c, it.default_content(c.tid, "o:" + k, symb))
    for code, want in ((0, 0), (2, 1), (1, 2)):
        k = "%s/%d" % (tag, code)
        it.store(o.fields["m_x"], V("old", n))
        it.store(o.fields["m_info"].fields["status"], var("oldstatus", isint=True))
        it.store(sv.fields["x"], V("r:x", n))
        it.store(sv.fields["status"], const(code))
        a = [TempLV(V("H", n, n)), TempLV(V("h", n)), TempLV(V("A", m, n)), TempLV(V("l", m)), TempLV(V("u", m)), TempLV(V("xl", n)), TempLV(V("xu", n))]
        r = it.call_method(o, "solve_impl", a + ([TempLV(V("x0", n)), TempLV(V("y0", n + m))] if guess else []), nparams=9 if guess else 7)
        for f, w in (("H", V("H", n, n)), ("h", V("h", n)), ("A", V("A", m, n)), ("Alb", V("l", m)), ("Aub", V("u", m)), ("lb", V("xl", n)), ("ub", V("xu", n))) + ((("x0", V("x0", n)),) if guess else ()):
            ctx.equal("%s handed over/%s" % (f, k), [P(z) for z in flat(it, sv.fields[f])], [P(z) for z in w.d], wh)
        u = sv.fields["used"].fields
        for a_, b in (("max_iter_", "max_iter"), ("tolerance_", "eps_abs"), ("hessian_type_", "hessian_type")):
            ctx.equal("setting %s/%s" % (b, k), P(it.load(u[a_])), P(it.load(st.fields[b])), "qpmad_interface.hpp QPMAD::set_qpmad_settings")
        ctx.equal("solution/" + k, it.load(o.fields["m_x"]), list(V("r:x", n).d), wh)
        r = it.load(r) if isinstance(r, LV) else r
        ctx.equal("status/" + k, [P(r), P(it.load(o.fields["m_info"].fields["status"]))], [const(want)] * 2, wh)
    ctx.no_events(it, "in-range/" + tag)
    ctx.cover(it, "ext.cpp")
    ctx.count("adapter instances")


def one(ctx, item):
    {"ipopt": ipopt, "interface": interface, "osqp": osqp, "qpmad": qpmad}[item[0]](ctx, item[1])


def run(ctx):
    items = [("ipopt", n) for n in list(NLPS) + list(OCPS)]
    items += [("interface", n) for n in ("NlpFull", "OcpSF")]
    items += [("osqp", (n, m, g, w, c)) for n, m in ((3, 2), (2, 0)) for g in (False, True) for w in (False, True) for c in (True, False)]
    items += [("qpmad", (n, m, g)) for n, m in ((3, 2), (2, 0)) for g in (False, True)]
    ctx.pmap(one, items)
    ctx.require("adapter instances", ctx.minimum.get("adapter instances", 0), len(items))
