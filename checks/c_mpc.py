"""MPC wrapper: every setter writes exactly its slots, every getter reads exactly its slots; time grids."""
from framework import *
from fractions import Fraction

#          order, segments, nx, nu, np, nd, ng
TIMES = {"TimeA": (2, 3, 2, 1, 2, 1, 1), "TimeB": (3, 1, 1, 2, 1, 2, 2), "TimeC": (2, 2, 3, 2, 2, 1, 3), "TimeD": (4, 2, 1, 1, 1, 1, 1)}
MPCS = {"MpcA": "TimeA", "MpcB": "TimeB", "MpcC": "TimeC"}


def base(name):
    prog = ir.dump("mpc.cpp")
    it = machine(prog)
    order, segs, nx, nu, npar, nd, ng = TIMES[name]
    m = order + 1
    node = [ONE] + [var("node[%d]" % i) for i in range(1, order)] + [-ONE]
    it.overrides[("Chebyshev", "compute_diff_matrix")] = lambda it, f, this, a: V("D", m, m)
    it.overrides[("Chebyshev", "compute_nodes")] = lambda it, f, this, a: MatV(m, 1, node)
    it.overrides[("Chebyshev", "compute_int_weights")] = lambda it, f, this, a: V("w", m)
    for nm, k in (("dynamics_impl", nx), ("lagrange_term_impl", None), ("mayer_term_impl", None), ("inequality_constraints_impl", ng)):
        it.overrides[(name, nm)] = user_function({"dynamics_impl": "f", "lagrange_term_impl": "l", "mayer_term_impl": "M", "inequality_constraints_impl": "g"}[nm], k)
    return prog, it, node


def field(o, k):
    for n, c in o.fields.items():
        if n == k:
            return c
    for c in o.fields.values():
        if isinstance(c, StructObj):
            r = field(c, k)
            if r is not None:
                return r
    return None


def grid(name, node, t0, tf):
    """times of the nodes in the order of the variables (from the end of the horizon to its start)"""
    order, segs = TIMES[name][:2]
    L = (tf - t0) * const(Fraction(1, segs))
    tau = []
    for s in range(segs):
        for k in range(order + (1 if s == segs - 1 else 0)):
            mid = tf - L * const(s) - L * const(Fraction(1, 2))
            tau.append(mid + L * const(Fraction(1, 2)) * node[k])
    return tau


def times(ctx):
    names = [n for n in TIMES if any(r["name"] == n and "fields" in r for r in ir.dump("mpc.cpp").records.values())]
    ctx.require("time grids", len(names), 4)
    for name in names:
        prog, it, node = base(name)
        o = construct(it, record(prog, name), "P")
        T = field(o, "time_nodes")
        t0, tf = field(o, "t_start"), field(o, "t_stop")
        where = "continuous_ocp.hpp, %d segments of order %d" % (TIMES[name][1], TIMES[name][0])
        ctx.equal("constructed/%s/node times" % name, it.load(T), grid(name, node, P(it.load(t0)), P(it.load(tf))), where + ", constructor")
        for _, c in cells_of(o):
            pass
        it.store(t0, var("old0"))
        it.store(tf, var("old1"))
        it.store(T, V("oldtau", it.load(T).r))
        before = {p: it.load(c) for p, c in cells_of(o)}
        it.call_method(o, "set_time_limits", [TempLV(var("t0")), TempLV(var("tf"))])
        ctx.equal("window/%s/start" % name, it.load(t0), var("t0"), where)
        ctx.equal("window/%s/end" % name, it.load(tf), var("tf"), where)
        ctx.equal("window/%s/node times" % name, it.load(T), grid(name, node, var("t0"), var("tf")), where + ", set_time_limits")
        rest = [p for p, c in cells_of(o) if p.split(".")[-1] not in ("time_nodes", "t_start", "t_stop") and not _same(it, before[p], it.load(c))]
        ctx.check("window/%s/nothing else changes" % name, not rest, "set_time_limits also changes %s" % ", ".join(rest[:4]), where)
        ctx.no_events(it, "in-range/%s" % name)
        ctx.cover(it, "mpc.cpp")


def _same(it, a, b):
    if a is b or type(a) is type(b) and not isinstance(a, (MatV, SpV)) and a == b:
        return True
    try:
        x, y = flat(it, TempLV(a)), flat(it, TempLV(b))
    except Exception:
        return a == b
    return len(x) == len(y) and all(p == q or isinstance(p, Poly) and isinstance(q, Poly) and is_zero(p - q) for p, q in zip(x, y))


def basis_value(nodes, j, t):
    r, d = ONE, ONE
    for i, n in enumerate(nodes):
        if i != j:
            r, d = r * (t - n), d * (nodes[j] - n)
    return r * inv(d)


class Mpc:
    def __init__(self, name):
        self.ocp = MPCS[name]
        self.prog, self.it, self.node = base(self.ocp)
        it = self.it
        self.order, self.segs, self.nx, self.nu, self.np, self.nd, self.ng = TIMES[self.ocp]
        self.nodes = self.order * self.segs + 1
        self.vx, self.vu = self.nx * self.nodes, self.nu * self.nodes
        self.N = self.vx + self.vu + self.np
        self.ne, self.ni = self.vx, self.ng * self.nodes
        spec = {"MpcA": 0, "MpcB": 1, "MpcC": 2}
        recs = [r for r in self.prog.records.values() if r["name"] == "MPC" and "fields" in r and ("MPC<%s," % self.ocp in r["full"] or "MPC<class %s," % self.ocp in r["full"])]
        if len(recs) != 1:
            raise AnalysisError("%s: %d instantiations: %s" % (name, len(recs), [r["full"][:80] for r in self.prog.records.values() if r["name"] == "MPC"]))
        self.rec = recs[0]
        self.o = construct(it, self.rec, "M")
        s = it.load(field(self.o, "m_solver")) if isinstance(field(self.o, "m_solver"), Cell) else field(self.o, "m_solver")
        self.s = s
        get = lambda n: it.call_method(s, n, [], pick=lambda m: "body" in m)
        self.c = {"x": get("primal_solution"), "lam": get("dual_solution"), "p": get("parameters"), "lbx": get("lower_bound_x"),
                  "ubx": get("upper_bound_x"), "lbg": get("lower_bound_g"), "ubg": get("upper_bound_g")}
        self.size = {"x": self.N, "lam": self.ne + self.ni + self.N, "p": self.nd, "lbx": self.N, "ubx": self.N, "lbg": self.ni, "ubg": self.ni}
        for k, c in self.c.items():
            it.store(c, V(k, self.size[k]))
        self.snap()

    def snap(self):
        self.before = {p: self.it.load(c) for p, c in cells_of(self.o)}
        self.all = dict(self.it.S.heap)

    def slots(self, what):
        """(vector, first, count) of a quantity, node 0 being the start of the horizon"""
        nx, nu, nn = self.nx, self.nu, self.nodes
        return {"initial": (self.vx - nx, nx), "final": (0, nx), "not initial": (0, self.vx - nx), "states": (0, self.vx), "controls": (self.vx, self.vu),
                "parameters": (self.vx + self.vu, self.np)}[what]


def setters(M):
    """method, argument sizes, effect: list of (vector, slot or None for all, argument index)"""
    nx, nu = M.nx, M.nu
    lb, ub = "lbx", "ubx"
    S = lambda w, *v: [(q, w, k) for q, k in v]
    return [
        ("initial_conditions", [nx], S("initial", (lb, 0), (ub, 0))),
        ("initial_conditions", [nx, nx], S("initial", (lb, 0), (ub, 1))),
        ("x_lower_bound", [nx], S("not initial", (lb, 0))), ("x_upper_bound", [nx], S("not initial", (ub, 0))),
        ("state_bounds", [nx, nx], S("not initial", (lb, 0), (ub, 1))),
        ("state_trajectory_bounds", [M.vx, M.vx], S("states", (lb, 0), (ub, 1))),
        ("x_final_lower_bound", [nx], S("final", (lb, 0))), ("x_final_upper_bound", [nx], S("final", (ub, 0))),
        ("final_state_bounds", [nx, nx], S("final", (lb, 0), (ub, 1))),
        ("u_lower_bound", [nu], S("controls", (lb, 0))), ("u_upper_bound", [nu], S("controls", (ub, 0))),
        ("control_trajecotry_bounds", [M.vu, M.vu], S("controls", (lb, 0), (ub, 1))),
        ("control_bounds", [nu, nu], S("controls", (lb, 0), (ub, 1))),
        ("constraints_trajectory_bounds", [M.ni, M.ni], S(None, ("lbg", 0), ("ubg", 1))),
        ("constraints_bounds", [M.ng, M.ng], S(None, ("lbg", 0), ("ubg", 1))),
        ("parameters_bounds", [M.np, M.np], S("parameters", (lb, 0), (ub, 1))),
        ("set_static_parameters", [M.nd], S(None, ("p", 0))),
        ("x_guess", [M.vx], S("states", ("x", 0))), ("u_guess", [M.vu], S("controls", ("x", 0))), ("p_guess", [M.np], S("parameters", ("x", 0))),
        ("lam_guess", [M.size["lam"]], S(None, ("lam", 0))),
    ]


def wrapper(ctx):
    ir.dump("mpc.cpp")
    ctx.pmap(wrapper_one, list(MPCS))
    ctx.require("wrapper instantiations", len(MPCS), 3)


def wrapper_one(ctx, name):
    M = Mpc(name)
    it = M.it
    shape = "%d states, %d controls, %d segments of order %d" % (M.nx, M.nu, M.segs, M.order)
    for meth, sizes, effect in setters(M):
        it.S.heap.update(M.all)
        args = [V("arg%d" % k, n) for k, n in enumerate(sizes)]
        locs = [TempLV(a) for a in args]
        it.call_method(M.o, meth, locs, nparams=len(locs))
        key = "%s(%d)/%s" % (meth, len(sizes), name)
        want = {q: [var("%s[%d]" % (q, i)) for i in range(n)] for q, n in M.size.items()}
        for q, slot, k in effect:
            first, count = M.slots(slot) if slot else (0, M.size[q])
            for i in range(count):
                want[q][first + i] = args[k].d[i % sizes[k]]
        for q in M.size:
            ctx.equal("set/%s/%s" % (key, q), it.load(M.c[q]), want[q], "mpc_wrapper.hpp %s, %s" % (meth, shape))
        touched = {M.c[q].oid for q in M.size if hasattr(M.c[q], "oid")}
        rest = [p for p, c in cells_of(M.o) if c.oid not in touched and not _same(it, M.before[p], it.load(c))]
        ctx.check("set/%s/nothing else" % key, not rest, "%s also changes %s" % (meth, ", ".join(rest[:4])), "mpc_wrapper.hpp " + meth)
        for k, l in enumerate(locs):
            ctx.equal("set/%s/argument %d unmodified" % (key, k), it.load(l), args[k])
    # getters
    it.S.heap.update(M.all)
    x = [var("x[%d]" % i) for i in range(M.N)]
    xs = [x[M.vx - (k + 1) * M.nx:M.vx - k * M.nx] for k in range(M.nodes)]
    us = [x[M.vx + M.vu - (k + 1) * M.nu:M.vx + M.vu - k * M.nu] for k in range(M.nodes)]
    g = lambda n, *a, **kw: it.call_method(M.o, n, list(a), **kw)
    W = "mpc_wrapper.hpp, " + shape
    ctx.equal("get/solution_x/%s" % name, g("solution_x"), x[:M.vx], W)
    ctx.equal("get/solution_u/%s" % name, g("solution_u"), x[M.vx:M.vx + M.vu], W)
    ctx.equal("get/solution_p/%s" % name, g("solution_p"), x[M.vx + M.vu:], W)
    ctx.equal("get/solution_dual/%s" % name, g("solution_dual"), [var("lam[%d]" % i) for i in range(M.size["lam"])], W)
    ctx.equal("get/solution_x_reshaped/%s" % name, g("solution_x_reshaped"), sum(xs, []), W)
    ctx.equal("get/solution_u_reshaped/%s" % name, g("solution_u_reshaped"), sum(us, []), W)
    isint = lambda m: "body" in m and "int" in ptype(M.prog, m)
    isreal = lambda m: "body" in m and "int" not in ptype(M.prog, m)
    for k in range(M.nodes):
        ctx.equal("get/solution_x_at(%d)/%s" % (k, name), g("solution_x_at", TempLV(k), pick=isint), xs[k], W)
        ctx.equal("get/solution_u_at(%d)/%s" % (k, name), g("solution_u_at", TempLV(k), pick=isint), us[k], W)
    # interpolation in time: every time window, set through the wrapper or as constructed
    for window in ("constructed", "set"):
        it.S.heap.update(M.all)
        if window == "set":
            it.call_method(M.o, "set_time_limits", [TempLV(var("t0")), TempLV(var("tf"))])
            t0, tf = var("t0"), var("tf")
        else:
            t0, tf = P(it.load(field(M.s, "t_start"))), P(it.load(field(M.s, "t_stop")))
        tau = grid(M.ocp, M.node, t0, tf)[::-1]
        L = (tf - t0) * const(Fraction(1, M.segs))
        t = var("t")
        for label, meth, vals in (("state", "solution_x_at", xs), ("control", "solution_u_at", us)):
            got = g(meth, TempLV(t), pick=isreal)
            want = None
            for s in reversed(range(M.segs)):
                nd = tau[s * M.order:(s + 1) * M.order + 1]
                vs = vals[s * M.order:(s + 1) * M.order + 1]
                e = [sum((basis_value(nd, j, t) * vs[j][i] for j in range(M.order + 1)), ZERO) for i in range(len(vs[0]))]
                if want is None:
                    want = e
                else:
                    c = cmp0("<", (t - t0) * inv(L) - const(s + 1))
                    want = [ite(c, a, b) for a, b in zip(e, want)]
            ctx.equal("interpolation/%s/%s window/%s" % (label, window, name), got, want, W + ", %s(t)" % meth)
        ctx.equal("grid/%s window/%s" % (window, name), it.load(field(M.o, "time_grid")), tau, W)
    # settings, statistics and problem are those of the solver
    it.S.heap.update(M.all)
    for meth, path in (("settings", "m_settings"), ("info", "m_info"), ("ocp", "problem"), ("solver", None)):
        for const_ in (False, True):
            r = it.call_method(M.o, meth, [], pick=lambda m: "body" in m and bool(m.get("const")) == const_)
            target = M.s if path is None else field(M.s, path)
            r = it.load(r) if not isinstance(r, StructObj) else r
            ctx.check("access/%s/%s" % (meth + (" const" if const_ else ""), name), r is target, "%s does not refer to the solver's own object" % meth, "mpc_wrapper.hpp " + meth)
    for k, q in (("primal_norm", "m_primal_norm"), ("dual_norm", "m_dual_norm"), ("constr_violation", "m_max_violation"), ("cost", "m_cost")):
        it.store(field(M.s, q), var("stat:" + q))
        ctx.equal("access/%s/%s" % (k, name), it.call_method(M.o, k, []), var("stat:" + q), "mpc_wrapper.hpp " + k)
    ctx.no_events(it, "in-range/%s" % name)
    ctx.cover(it, "mpc.cpp")


def ptype(prog, m):
    t = prog.deref(m["params"][0]["t"])
    return str(t.get("k", t))
