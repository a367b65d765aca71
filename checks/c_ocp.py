"""Optimal control transcription: every quantity the transcribed problem reports is the stated function of the user's model, and every
derivative is the exact derivative of the corresponding value, in the dense and the sparse representation."""
from framework import *
from fractions import Fraction

#            order, segments, nx, nu, np, nd, ng, sparse
PROBLEMS = {"OcpDA": (2, 2, 2, 1, 3, 1, 2, False), "OcpSA": (2, 2, 2, 1, 3, 1, 2, True),
            "OcpDB": (3, 2, 1, 2, 1, 2, 1, False), "OcpSB": (3, 2, 1, 2, 1, 2, 1, True),
            "OcpDC": (2, 3, 1, 1, 0, 0, 0, False), "OcpSC": (2, 3, 1, 1, 0, 0, 0, True),
            "OcpDD": (3, 1, 2, 1, 1, 1, 1, False), "OcpSD": (3, 1, 2, 1, 1, 1, 1, True),
            "OcpDG": (2, 2, 1, 2, 1, 0, 3, False), "OcpSG": (2, 2, 1, 2, 1, 0, 3, True),
            "OcpSE": (2, 1, 2, 1, 1, 0, 0, True), "OcpSF": (2, 2, 1, 1, 0, 0, 0, True), "OcpDE": (2, 1, 1, 1, 1, 0, 0, False)}


class Ocp:
    """one analysed problem: construction in an arbitrary state and the mathematical model it must agree with"""

    def __init__(self, prog, name, mid_zero=False):
        self.name = name
        self.order, self.segs, self.nx, self.nu, self.np, self.nd, self.ng, self.sparse = PROBLEMS[name]
        self.nodes = self.order * self.segs + 1
        self.N = (self.nx + self.nu) * self.nodes + self.np
        self.ne, self.ni = self.nx * self.nodes, self.ng * self.nodes
        self.nc = self.ne + self.ni
        self.vx = self.nx * self.nodes
        it = self.it = machine(prog)
        m = self.order + 1
        # differentiation matrix: arbitrary, up to the flip antisymmetry every symmetric node set gives
        D = {}
        for i in range(m):
            for j in range(m):
                if i < self.order:
                    D[i, j] = var("D[%d,%d]" % (i, j))
        for j in range(m):
            D[self.order, j] = -D[0, self.order - j]
        if mid_zero and self.order % 2 == 0:
            D[self.order // 2, self.order // 2] = ZERO
        self.D = D
        it.overrides[("Chebyshev", "compute_diff_matrix")] = lambda it, f, this, a: MatV(m, m, [D[i, j] for j in range(m) for i in range(m)])
        it.overrides[("Chebyshev", "compute_nodes")] = lambda it, f, this, a: V("node", m)
        it.overrides[("Chebyshev", "compute_int_weights")] = lambda it, f, this, a: V("w", m)
        self.ctor_store = None
        it.overrides[(name, "dynamics_impl")] = user_function("f", self.nx)
        it.overrides[(name, "lagrange_term_impl")] = user_function("l", None)
        it.overrides[(name, "mayer_term_impl")] = user_function("M", None)
        it.overrides[(name, "inequality_constraints_impl")] = user_function("g", self.ng)
        self.rec = record(prog, name)
        self.o = construct(it, self.rec, "P")
        self.built = {c.oid: it.load(c) for _, c in cells_of(self.o)}
        # arbitrary time window: members the evaluations read, unrelated to each other
        for k, v in (("t_start", var("t0")), ("t_stop", var("tf")), ("time_nodes", V("tau", self.nodes))):
            it.store(self.field(k), v)

    def field(self, k, o=None):
        o = o or self.o
        if k in o.fields:
            return o.fields[k]
        for c in o.fields.values():
            if isinstance(c, StructObj):
                r = self.field(k, c)
                if r is not None:
                    return r
        return None

    # ------------------------------------------------------------ the mathematical model
    def names(self, xn):
        return ["%s[%d]" % (xn, i) for i in range(self.N)]

    def model(self, xn, pn):
        nx, nu, npar, nn = self.nx, self.nu, self.np, self.nodes
        z = [var(n) for n in self.names(xn)]
        x = [z[k * nx:(k + 1) * nx] for k in range(nn)]
        u = [z[self.vx + k * nu:self.vx + (k + 1) * nu] for k in range(nn)]
        p = z[self.N - npar:] if npar else []
        d = [var("%s[%d]" % (pn, i)) for i in range(self.nd)]
        tau = [var("tau[%d]" % k) for k in range(nn)]
        ts = (var("tf") - var("t0")) * const(Fraction(1, 2 * self.segs))
        args = [x[k] + u[k] + p + d + [tau[k]] for k in range(nn)]
        c = []
        for k in range(nn):
            seg = min(k // self.order, self.segs - 1)
            row = k - seg * self.order
            for i in range(nx):
                e = ZERO
                for j in range(self.order + 1):
                    e = e + self.D[row, j] * x[seg * self.order + j][i]
                c.append(e - ts * fn("f%d" % i, *args[k]))
        g = [fn("g%d" % i, *args[k]) for k in range(nn) for i in range(self.ng)]
        cost = fn("M", *args[0])
        for s in range(self.segs):
            for k in range(self.order + 1):
                cost = cost + ts * var("w[%d]" % k) * fn("l", *args[k + s * self.order])
        return cost, c, g

    # ------------------------------------------------------------ every public evaluation
    def mats(self, tag):
        if self.sparse:
            return {"H": TempLV(SpV.empty(self.N, self.N)), "J": TempLV(SpV.empty(self.nc, self.N)), "Jc": TempLV(SpV.empty(self.ne, self.N)), "Jg": TempLV(SpV.empty(self.ni, self.N))}
        return {"H": out(self.N, self.N), "J": out(self.nc, self.N) if self.nc else out(0, self.N), "Jc": out(self.ne, self.N), "Jg": TempLV(MatV(self.ni, self.N, [var("pre:g%d" % i) for i in range(self.ni * self.N)]))}

    def calls(self, xn, pn, ln, sn, mats):
        N, ne, ni, nc = self.N, self.ne, self.ni, self.nc
        x, p, lam = TempLV(V(xn, N)), TempLV(V(pn, self.nd)), TempLV(V(ln, nc + N))
        d = {}

        def add(label, meth, outs, extra=(), pre=(), key=None):
            vals = [TempLV(var("pre:s")) if q == () else (mats[q] if isinstance(q, str) else out(*q)) for q in outs]
            a = [x, p] + list(pre) + vals + list(extra)

            def thunk():
                for q, v in zip(outs, vals):
                    if q == ():
                        self.it.store(v, var("pre:s"))
                    elif not isinstance(q, str):
                        self.it.store(v, self.it.load(out(*q)))
                self.it.call_method(self.o, meth, a, nparams=len(a))
            d[label] = (thunk, vals)
        sc = var(sn)
        add("cost", "cost", [()])
        add("cost_gradient", "cost_gradient", [(), (N,)])
        add("cost_gradient_hessian", "cost_gradient_hessian", [(), (N,), "H"])
        add("equalities", "equalities", [(ne,)])
        add("inequalities", "inequalities", [(ni,)])
        add("constraints", "constraints", [(nc,)])
        add("equalities_linearised", "equalities_linearised", [(ne,), "Jc"])
        add("inequalities_linearised", "inequalities_linearised", [(ni,), "Jg"])
        add("constraints_linearised", "constraints_linearised", [(nc,), "J"])
        add("lagrangian", "lagrangian", [()], pre=[lam])
        add("lagrangian(5)", "lagrangian", [(), (nc,)], pre=[lam])
        add("lagrangian_gradient(short)", "lagrangian_gradient", [(), (N,)], pre=[lam])
        if not self.sparse:
            add("lagrangian_gradient_hessian(short)", "lagrangian_gradient_hessian", [(), (N,), "H"], pre=[lam])
        add("lagrangian_gradient", "lagrangian_gradient", [(), (N,), (N,), (nc,), "J"], pre=[lam])
        add("lagrangian_gradient_hessian", "lagrangian_gradient_hessian", [(), (N,), "H", (N,), (nc,), "J"], pre=[lam])
        add("lagrangian_gradient_hessian(scaled)", "lagrangian_gradient_hessian", [(), (N,), "H", (N,), (nc,), "J"], pre=[lam], extra=[sc])
        return d

    def wanted(self, xn, pn, ln, sn):
        cost, c, g = self.model(xn, pn)
        xs = self.names(xn)
        lam = [var("%s[%d]" % (ln, i)) for i in range(self.nc + self.N)]
        cg = c + g
        L = cost
        for i, ci in enumerate(cg):
            L = L + lam[i] * ci
        for i in range(self.N):
            L = L + lam[self.nc + i] * var(xs[i])
        grad = lambda e: [diff(e, x) for x in xs]
        jac = lambda es: [[diff(e, x) for e in es] for x in xs]
        gf, J, gL = grad(cost), jac(cg), grad(L)

        def hess(e):
            gr = grad(e)
            return [[diff(a, x) for a in gr] for x in xs]

        def HL(s):
            return hess(s * cost + (L - cost))
        Hf = hess(cost)
        H1 = HL(ONE)
        Hs = HL(var(sn))
        cut = lambda a, b: [col[a:b] for col in J]
        want = {
            "cost": [cost], "cost_gradient": [cost, gf], "cost_gradient_hessian": [cost, gf, Hf],
            "equalities": [c], "inequalities": [g], "constraints": [cg],
            "equalities_linearised": [c, cut(0, self.ne)], "inequalities_linearised": [g, cut(self.ne, self.nc)], "constraints_linearised": [cg, J],
            "lagrangian": [L], "lagrangian(5)": [L, cg],
            "lagrangian_gradient(short)": [None, gL], "lagrangian_gradient_hessian(short)": [None, gL, H1],
            "lagrangian_gradient": [None, gL, gf, cg, J],
            "lagrangian_gradient_hessian": [None, gL, H1, gf, cg, J],
            "lagrangian_gradient_hessian(scaled)": [None, gL, Hs, gf, cg, J],
        }
        return want


ROLE = {"cost": ["value"], "cost_gradient": ["value", "gradient"], "cost_gradient_hessian": ["value", "gradient", "hessian"],
        "equalities": ["value"], "inequalities": ["value"], "constraints": ["value"], "equalities_linearised": ["value", "jacobian"],
        "inequalities_linearised": ["value", "jacobian"], "constraints_linearised": ["value", "jacobian"], "lagrangian": ["value"], "lagrangian(5)": ["value", "constraints"],
        "lagrangian_gradient(short)": ["", "gradient"], "lagrangian_gradient_hessian(short)": ["", "gradient", "hessian"],
        "lagrangian_gradient": ["", "gradient", "cost gradient", "constraints", "jacobian"],
        "lagrangian_gradient_hessian": ["", "gradient", "hessian", "cost gradient", "constraints", "jacobian"],
        "lagrangian_gradient_hessian(scaled)": ["", "gradient", "hessian", "cost gradient", "constraints", "jacobian"]}


def compare(ctx, P_, label, vals, want, stale, suffix=""):
    it = P_.it
    for k, w in enumerate(want[label]):
        if w is None:
            continue
        got = it.load(vals[k])
        key = "%s/%s/%s" % (label, P_.name, ROLE[label][k])
        ctx.equal(key, got, w, "continuous_ocp.hpp %s%s, %d states, %d controls, %d parameters, %d constraints per node, %d segments of order %d" % (label, suffix, P_.nx, P_.nu, P_.np, P_.ng, P_.segs, P_.order))
        ctx.nodep("initialised/%s/%s/%s" % (label, P_.name, ROLE[label][k]), got, uninit_or(stale), "stale or uninitialised storage")


def dense_one(ctx, a):
    prog = ir.dump("ocp.cpp")
    P_ = Ocp(prog, a)
    it = P_.it
    hist = P_.calls("xh", "ph", "lh", "sh", P_.mats("hist"))
    arbitrary_history(it, P_.o, [t for t, _ in hist.values()])
    want = P_.wanted("x", "p", "lam", "s")
    rec0 = dict(it.S.heap)
    for label, (thunk, vals) in P_.calls("x", "p", "lam", "s", P_.mats("pre")).items():
        it.S.heap.update({c.oid: rec0[c.oid] for _, c in cells_of(P_.o) if c.oid in rec0})
        thunk()
        compare(ctx, P_, label, vals, want, ["hist", "pre:", "xh", "ph", "lh", "sh"])
    ctx.no_events(it, "in-range/%s" % a)
    ctx.cover(it, "ocp.cpp")


def sparse_one(ctx, a):
    """first evaluation into empty matrices, then evaluations that refresh matrices filled before"""
    name, mid_zero = a
    prog = ir.dump("ocp.cpp")
    P_ = Ocp(prog, name, mid_zero)
    it = P_.it
    want = P_.wanted("x", "p", "lam", "s")
    SPARSE_ = [l for l in ROLE if set(ROLE[l]) & {"jacobian", "hessian"} and l in P_.calls("x", "p", "lam", "s", P_.mats("q"))]
    fresh = {c.oid: it.load(c) for _, c in cells_of(P_.o)}

    def reset(h):
        it.S.heap.update(h)
        for r in range(len(it.S.rels)):
            it.S.rels[r] = ONE
    # state of the object after an arbitrary sequence of evaluations
    hist = P_.calls("xh", "ph", "lh", "sh", P_.mats("q"))
    for t, _ in hist.values():
        t()
    arbitrary_history(it, P_.o, [t for t, _ in hist.values()])
    used = {c.oid: it.load(c) for _, c in cells_of(P_.o)}
    stale = ["hist", "pre:", "xh", "ph", "lh", "sh"]
    for label in P_.calls("x", "p", "lam", "s", P_.mats("q")):
        for first in ("fresh object", "used object"):
            reset(fresh if first == "fresh object" else used)
            m = P_.mats("q")
            thunk, vals = P_.calls("x", "p", "lam", "s", m)[label]
            thunk()
            compare(ctx, P_, label, vals, want, stale, " into empty matrices, %s" % first)
            if label not in SPARSE_:
                continue
            shape = {q: it.load(v).pattern() for q, v in m.items()}
            # refresh: matrices hold earlier values
            reset(used)
            thunk1, _ = P_.calls("xh", "ph", "lh", "sh", m)[label]
            thunk1()
            ok = all(it.load(v).pattern() == shape[q] for q, v in m.items())
            ctx.check("stable pattern/%s/%s" % (label, name), ok, "re-evaluation changes the sparsity pattern or the storage layout of the matrices", "continuous_ocp.hpp %s" % label)
            for q, v in m.items():
                cur = it.load(v)
                # whatever depends on the point, the multipliers or the time window is unknown now
                it.store(v, cur.map(lambda z: z if all(n.startswith("D[") for n in support(P(z))) else var("pre:z")))
            reset(used)
            thunk()
            compare(ctx, P_, label, vals, want, stale, " into matrices filled before")
    ctx.no_events(it, "in-range/%s" % name)
    ctx.cover(it, "ocp.cpp")


def run(ctx):
    ir.dump("ocp.cpp")
    items = [n for n, q in PROBLEMS.items() if not q[-1]]
    ctx.pmap(dense_one, items)
    ctx.require("problem shapes", len(items), 5)
    ctx.require("obligations", len(ctx.oblig) if hasattr(ctx.oblig, "__len__") else ctx.oblig, 300)


def run_sparse(ctx):
    ir.dump("ocp.cpp")
    items = [(n, z) for n, q in PROBLEMS.items() if q[-1] for z in ((False, True) if q[0] % 2 == 0 else (False,))]
    ctx.pmap(sparse_one, items)
    ctx.require("problem shapes", len(items), 6)
    ctx.require("obligations", len(ctx.oblig) if hasattr(ctx.oblig, "__len__") else ctx.oblig, 300)


def block_update(ctx, name):
    """sparse quasi-Newton update: the damped BFGS formula on the stored entries, nothing else touched"""
    prog = ir.dump("ocp.cpp")
    P_ = Ocp(prog, name)
    it, N = P_.it, P_.N
    m = P_.mats("q")
    thunk, _ = P_.calls("x", "p", "lam", "s", m)["cost_gradient_hessian"]
    thunk()
    H0 = it.load(m["H"])
    pos = [(i, j) for j in range(N) for i, _, _ in H0.entries(j)]
    H0 = SpV(H0.r, H0.c, H0.outer, H0.nnz, H0.inner, [None if z is None else var("H[%d]" % k) for k, z in enumerate(H0.vals)])
    it.store(m["H"], H0)
    sv, yv = TempLV(V("s", N)), TempLV(V("y", N))
    # the product H s is an unknown vector v: the claim holds for whatever it is
    plain = it.eg.matmul

    def product(a, b):
        if isinstance(a, SpV) and isinstance(b, MatV) and a == H0 and list(b.d) == [var("s[%d]" % i) for i in range(N)]:
            return V("v", N)
        return plain(a, b)
    it.eg.matmul = product
    it.call_method(P_.o, "hessian_update_impl", [m["H"], sv, yv], nparams=3)
    H1 = it.load(m["H"])
    ctx.check("pattern kept/%s" % name, H1.pattern() == H0.pattern(), "the update changes the sparsity pattern")
    Hd = H0.dense()
    s, y = [var("s[%d]" % i) for i in range(N)], [var("y[%d]" % i) for i in range(N)]
    v = [var("v[%d]" % i) for i in range(N)]
    sBs = sum((s[i] * v[i] for i in range(N)), ZERO)
    sy = sum((s[i] * y[i] for i in range(N)), ZERO)
    damp = cmp0("<", sy - sBs * const(Fraction(1, 5)))
    th = const(Fraction(4, 5)) * sBs * inv(sBs - sy)
    rd = [th * y[i] + (ONE - th) * v[i] for i in range(N)]
    srd = sum((s[i] * rd[i] for i in range(N)), ZERO)
    skip = cmp0("<", maxv(sy, sBs * const(Fraction(1, 5))) - var("DBL_epsilon"))
    where = "continuous_ocp.hpp hessian_update_impl (sparse)"
    H1d = H1.dense()
    for i, j in pos:
        old = P(Hd.at(i, j))
        full = ite(skip, old, old - v[i] * v[j] * inv(sBs) + ite(damp, rd[i] * rd[j] * inv(srd), y[i] * y[j] * inv(sy)))
        ctx.equal("formula/sparse %s/%d,%d" % (name, i, j), H1d.at(i, j), full, where)
    ctx.no_events(it, "well-formed/sparse %s" % name)
    ctx.cover(it, "ocp.cpp")


def updates(ctx):
    for n in ("OcpSE", "OcpSF"):
        block_update(ctx, n)
