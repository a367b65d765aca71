"""SQP framework: status honesty, QP subproblem wiring, step and multiplier update, globalisation.

The problem, the QP solver and the preconditioner are uninterpreted (driver classes implementing the
documented interfaces); what is analysed is the framework that connects them."""
from framework import *

INFV = var("inf")


def solvers(prog):
    out = {}
    for r in prog.records.values():
        if r["name"] in ("SqpDefault", "SqpCustom") and "fields" in r:
            p = prog.records[prog.deref(r["args"][0]["t"])["r"]] if isinstance(r["args"][0], dict) else None
            if p is None:
                raise AnalysisError("problem type of %s not found" % r["full"])
            nx, ne, ni, fmt = p["args"]
            out["%s %d/%d/%d %s" % (r["name"][3:].lower(), nx, ne, ni, "sparse" if fmt == 1 else "dense")] = (r, nx, ne, ni, fmt == 1)
    return out


def prog_of(ctx):
    prog = ir.dump("sqp.cpp")
    ss = solvers(prog)
    ctx.require("SQP instantiations", len(ss), 8)
    return prog, ss


def fvec(name, n, args):
    return [fn("%s%d" % (name, i), *args) for i in range(n)]


def fmat(name, r, c, args):
    return MatV(r, c, [fn("%s%d%d" % (name, i, j), *args) for j in range(c) for i in range(r)])


def like(M, sparse):
    if not sparse:
        return M
    return SpV.from_cols(M.r, M.c, [[(i, M.at(i, j)) for i in range(M.r)] for j in range(M.c)])


def fl(it, x):
    return [P(q) if isinstance(q, (int, Poly)) else q for q in flat(it, x)]


class Sqp:
    """one analysed solve() of an SQP solver"""

    def __init__(self, ctx, prog, name, spec, pick=None, history=False, guess=True, pick_fn=None, prec=True, ghost=False):
        self.name = name
        self.rec, self.nx, self.ne, self.ni, self.sparse = spec
        self.m = self.ne + self.ni
        self.custom = name.startswith("custom")
        it = self.it = machine(prog)
        self.ctx = ctx
        self.log = []
        self.linfo = None
        self.pick = pick
        self.exits = []
        self.nalpha = self.nqp = 0
        self.history = False
        self.nsolves = self.nqpiter = None
        self.install()
        o = self.o = construct(it, self.rec, "S")
        get = lambda n: it.call_method(o, n, [], pick=lambda m: "body" in m and not m.get("const"))
        getc = lambda n: it.call_method(o, n, [], pick=lambda m: "body" in m)
        self.x, self.lam = getc("primal_solution"), getc("dual_solution")
        self.p = getc("parameters")
        self.lbx, self.ubx, self.lbg, self.ubg = getc("lower_bound_x"), getc("upper_bound_x"), getc("lower_bound_g"), getc("upper_bound_g")
        self.st = it.load(getc("settings"))
        self.info = it.load(getc("info"))
        nx, m, ni = self.nx, self.m, self.ni

        def inputs(tag):
            it.store(self.p, V(tag + "p", 1))
            it.store(self.lbx, V(tag + "lbx", nx))
            it.store(self.ubx, V(tag + "ubx", nx))
            if ni:
                it.store(self.lbg, V(tag + "lbg", ni))
                it.store(self.ubg, V(tag + "ubg", ni))
            symbolise(it, self.st, tag + "st", skip=("iteration_callback",))
        if history:
            self.history = True
            inputs("hist:")

            def go(n):
                def f():
                    if n == 0:
                        it.store(self.x, V("hist:x0", nx))
                        it.store(self.lam, V("hist:l0", nx + m))
                        it.call_method(o, "solve", [])
                    else:
                        it.call_method(o, "solve", [TempLV(V("hist:xg", nx)), TempLV(V("hist:lg", nx + m))])
                return f
            arbitrary_history(it, o, [go(0), go(2)])
            self.history = False
        inputs("")
        it.S.rels = [ONE]
        it.events = []
        it.hooks["loop"] = self.on_loop
        it.hooks["loop_exit"] = self.on_exit
        it.hooks["call_exit"] = self.on_call_exit
        self.nearly = 0
        x0, l0 = V("x0", nx), V("l0", nx + m)
        self.log = []
        if ghost:
            # work counters of the analysis, advanced where a QP is solved
            self.nsolves, self.nqpiter = TempLV(ZERO), TempLV(ZERO)
            it.store(self.nsolves, ZERO)
            it.store(self.nqpiter, ZERO)
        if guess:
            it.call_method(o, "solve", [TempLV(x0), TempLV(l0)])
        else:
            it.store(self.x, x0)
            it.store(self.lam, l0)
            it.call_method(o, "solve", [])
        if self.linfo is None:
            raise AnalysisError("no SQP iteration loop found")
        self.final = it.S
        ctx.cover(it, "sqp.cpp")

    # ---------------------------------------------------------------- uninterpreted parts
    def install(self):
        it = self.it
        nx, ne, ni, m = self.nx, self.ne, self.ni, self.m

        def args_of(*a):
            return [q for x in a for q in fl(it, x)]

        def cost(I, f, this, a):
            I.store(a[2], fn("f", *args_of(a[0], a[1])))

        def eqs(I, f, this, a):
            I.store(a[2], MatV(ne, 1, fvec("c", ne, args_of(a[0], a[1]))))

        def ineqs(I, f, this, a):
            I.store(a[2], MatV(ni, 1, fvec("g", ni, args_of(a[0], a[1]))))

        def cons(I, f, this, a):
            q = args_of(a[0], a[1])
            I.store(a[2], MatV(m, 1, fvec("c", ne, q) + fvec("g", ni, q)))

        def lgrad(I, f, this, a, hes=False):
            xp, xpl = args_of(a[0], a[1]), args_of(a[0], a[1], a[2])
            k = 5
            I.store(a[3], fn("lag", *xpl))
            I.store(a[4], MatV(nx, 1, fvec("lg", nx, xpl)))
            if hes:
                I.store(a[5], like(fmat("LH", nx, nx, xpl), self.sparse))
                k = 6
            I.store(a[k], MatV(nx, 1, fvec("cg", nx, xp)))
            I.store(a[k + 1], MatV(m, 1, fvec("c", ne, xp) + fvec("g", ni, xp)))
            I.store(a[k + 2], like(fmat("J", m, nx, xp), self.sparse))
            self.note("linearise", {"x": xp[:nx], "p": xp[nx:], "lam": xpl[nx + 1:]})
        ov = it.overrides
        P_ = "OpaqueNlp"
        ov[P_, "cost"], ov[P_, "equalities"], ov[P_, "inequalities"], ov[P_, "constraints"] = cost, eqs, ineqs, cons
        ov[P_, "lagrangian_gradient"] = lgrad
        ov[P_, "lagrangian_gradient_hessian"] = lambda I, f, this, a: lgrad(I, f, this, a, True)

        def qp(I, f, this, a):
            self.nqp += 1
            self.note("qp", {"args": [fl(I, q) for q in a], "vals": [I.load(q) for q in a]})
            I.store(this.fields["m_x"], MatV(nx, 1, [I.fresh("qpx%d" % i) for i in range(nx)]))
            I.store(this.fields["m_y"], MatV(nx + m, 1, [I.fresh("qpy%d" % i) for i in range(nx + m)]))
            inf = I.load(this.fields["m_info"])
            n = I.fresh("qpiter", isint=True)
            I.store(inf.fields["iter"], n)
            if self.nsolves is not None:
                I.store(self.nsolves, P(I.load(self.nsolves)) + ONE)
                I.store(self.nqpiter, P(I.load(self.nqpiter)) + n)
            self.note("qpsol", {"x": fl(I, this.fields["m_x"]), "y": fl(I, this.fields["m_y"])})
            return I.fresh("qpstatus", isint=True)
        ov["OpaqueQP", "solve"] = qp

        def compute(I, f, this, a):
            pre = [I.load(q) for q in a]
            post = []
            for k, v in enumerate(pre):
                post.append(self.scaled(v, k))
            self.note("compute", {"args": [fl(I, q) for q in a], "vals": pre, "scaled": [[P(x) for x in flat(I, v)] for v in post]})
            for q, v in zip(a, post):
                I.store(q, v)

        def unscale(I, f, this, a):
            if len(a) == 2:
                xs, ys = fl(I, a[0]), fl(I, a[1])
                self.note("unscale-solution", {"x": xs, "y": ys})
                I.store(a[0], MatV(nx, 1, [x * var("Dx%d" % i) for i, x in enumerate(xs)]))
                I.store(a[1], MatV(nx + m, 1, [y * var("Ey%d" % i) for i, y in enumerate(ys)]))
                return
            for k, q in enumerate(a):
                I.store(q, self.unscaled(I.load(q), k))
            self.note("unscale-problem", {"args": [fl(I, q) for q in a]})
        ov["OpaquePrec", "compute"] = compute
        ov["OpaquePrec", "unscale"] = unscale

        def alpha(I, f, this, a):
            al = absv(I.fresh("alpha"))
            self.note("step", {"p": fl(I, a[0]), "alpha": al, "heap": dict(I.S.heap)})
            return al
        ov["SqpCustom", "step_size_selection_impl"] = alpha

        def upd(I, f, this, a):
            H, s, y = I.load(a[0]), fl(I, a[1]), fl(I, a[2])
            Hd = H.dense() if isinstance(H, SpV) else H
            args = [P(q) for q in Hd.d] + s + y
            self.note("hessian-update", {"H": [P(q) for q in Hd.d], "s": s, "y": y})
            I.store(a[0], like(fmat("U", nx, nx, args), self.sparse))
        ov["SqpCustom", "hessian_update_impl"] = upd

        def reg(I, f, this, a):
            H = I.load(a[0])
            Hd = H.dense() if isinstance(H, SpV) else H
            I.store(a[0], like(MatV(nx, nx, [P(q) + (var("reg%d" % k) if k % (nx + 1) == 0 else ZERO) for k, q in enumerate(Hd.d)]), self.sparse))
            self.note("regularise", {"H": [P(q) for q in Hd.d]})
        ov["SqpCustom", "hessian_regularisation_dense_impl"] = reg
        ov["SqpCustom", "hessian_regularisation_sparse_impl"] = reg
        it.hooks["indirect"] = lambda I, e, fe, a: None

    def scaled(self, v, k):
        names = ["sH", "sh", "sA", "sal", "sau", "slx", "sux"]

        def sc(i, x):
            return P(x) * var("%s%d" % (names[k], i))
        return self._map(v, sc)

    def unscaled(self, v, k):
        names = ["sH", "sh", "sA", "sal", "sau", "slx", "sux"]

        def sc(i, x):
            return P(x) * inv(var("%s%d" % (names[k], i)))
        return self._map(v, sc)

    def _map(self, v, sc):
        if isinstance(v, SpV):
            d = v.dense()
            return SpV(v.r, v.c, v.outer, v.nnz, v.inner, [None if x is None else sc(i, x) for i, x in enumerate(v.vals)])
        if isinstance(v, MatV):
            return MatV(v.r, v.c, [sc(i, x) for i, x in enumerate(v.d)], v.arr)
        raise AnalysisError("preconditioner applied to something that is not a matrix")

    def note(self, kind, d):
        d["pc"] = self.it.pc()
        d["loc"] = self.it.loc() if callable(self.it.loc) else self.it.loc
        self.log.append((kind, d))

    # ---------------------------------------------------------------- hooks
    def on_loop(self, I, phase, info, modified):
        if info["fn"] != "solve":
            return
        if phase == "head":
            if self.linfo is None:
                self.first = list(self.log)
            self.linfo = info
            self.frame = I.frames[-1]
            self.log = []
            self.modified = modified
        else:
            self.body = list(self.log)
            self.head = info["head"]
            self.names = I.celltab()

    def on_exit(self, I, info, outs):
        if info["fn"] != "solve":
            return None
        self.exits = outs
        if self.pick is None or self.pick[0] != "loop":
            return None
        self.target = outs[self.pick[1]]
        return [self.target[1]]

    def on_call_exit(self, I, fr):
        """trace partitioning over the ways out of the function that holds the iteration loop"""
        if self.linfo is None or fr is not self.frame:
            return
        inloop = [st for k, st in self.exits if k == "return"]
        early = [r for r in fr.returns if not any(r[0] is q for q in inloop) and r is not fr.returns[-1]]
        self.nearly = len(early)
        if self.pick is None:
            return
        if self.pick[0] == "early":
            fr.returns[:] = [early[self.pick[1]]]
        elif self.target[0] == "return":
            fr.returns[:] = [r for r in fr.returns if r[0] is self.target[1]]
        else:
            fr.returns[:] = [fr.returns[-1]]

    # ---------------------------------------------------------------- reference
    def viol_max(self, x, p):
        a = x + p
        c = [absv(q) for q in fvec("c", self.ne, a)]
        g = fvec("g", self.ni, a)
        c += [var("lbg[%d]" % i) - g[i] for i in range(self.ni)] + [g[i] - var("ubg[%d]" % i) for i in range(self.ni)]
        c += [var("lbx[%d]" % i) - x[i] for i in range(self.nx)] + [x[i] - var("ubx[%d]" % i) for i in range(self.nx)]
        return maxv(ZERO, *c)

    def viol_l1(self, x, p):
        a = x + p
        e = sum((absv(q) for q in fvec("c", self.ne, a)), ZERO)
        g = fvec("g", self.ni, a)
        for i in range(self.ni):
            e = e + maxv(ZERO, var("lbg[%d]" % i) - g[i]) + maxv(ZERO, g[i] - var("ubg[%d]" % i))
        for i in range(self.nx):
            e = e + maxv(ZERO, var("lbx[%d]" % i) - x[i]) + maxv(ZERO, x[i] - var("ubx[%d]" % i))
        return e

    def hv(self, heap, cell):
        return [P(q) for q in heap[cell.oid].d]

    def only(self, log, kind, n=1):
        e = [d for k, d in log if k == kind]
        if len(e) != n:
            self.ctx.check("collaborators/%s/%s" % (kind, self.name), False, "%d '%s' calls in one iteration, expected %d" % (len(e), kind, n), self.linfo["loc"])
            raise Deviation()
        return e if n != 1 else e[0]


class Deviation(Exception):
    """the violation has been recorded; what depends on the missing call is not checked"""


NAMES = ["hessian", "cost gradient", "constraint jacobian", "constraint lower bound", "constraint upper bound", "variable lower bound", "variable upper bound"]


def expected_data(S, x, p, H):
    a = x + p
    cg = fvec("cg", S.nx, a)
    J = list(fmat("J", S.m, S.nx, a).d)
    c, g = fvec("c", S.ne, a), fvec("g", S.ni, a)
    al = [-q for q in c] + [var("lbg[%d]" % i) - g[i] for i in range(S.ni)]
    au = [-q for q in c] + [var("ubg[%d]" % i) - g[i] for i in range(S.ni)]
    lx = [var("lbx[%d]" % i) - x[i] for i in range(S.nx)]
    ux = [var("ubx[%d]" % i) - x[i] for i in range(S.nx)]
    return [H, cg, J, al, au, lx, ux]


# ------------------------------------------------------------------ P07
def wiring(ctx):
    prog, ss = prog_of(ctx)
    for name, spec in ss.items():
        if not name.startswith("custom"):
            continue
        for guess in (True, False):
            S = Sqp(ctx, prog, name, spec, guess=guess, history=True)
            nx, m = S.nx, S.m
            tag = "%s%s" % (name, "" if guess else "/no guess")
            P0 = [var("p[0]")]
            entry, back = S.linfo["entry"].heap, S.linfo["back"]
            if back is None:
                raise AnalysisError("the SQP loop never repeats")
            back = back.heap
            head = S.head.heap
            x0, l0 = [var("x0[%d]" % i) for i in range(nx)], [var("l0[%d]" % i) for i in range(nx + m)]
            for ph, log, X, L, after in (("first", S.first, x0, l0, entry), ("later", S.body, S.hv(head, S.x), S.hv(head, S.lam), back)):
                try:
                    key = "%s/%s iteration" % (tag, ph)
                    comp, qp, sol = S.only(log, "compute"), S.only(log, "qp"), S.only(log, "qpsol")
                    us, up, stp = S.only(log, "unscale-solution"), S.only(log, "unscale-problem"), S.only(log, "step")
                    if ph == "first":
                        H = [fn("LH%d%d" % (i, j), *(X + P0 + L)) + (var("reg%d" % (i + j * nx)) if i == j else ZERO) for j in range(nx) for i in range(nx)]
                        Hfirst = H
                    else:
                        hu = S.only(log, "hessian-update")
                        H = list(fmat("U", nx, nx, hu["H"] + hu["s"] + hu["y"]).d)
                        # the Hessian that is updated is the one used in the previous iteration
                        cand = [oid for oid in S.modified if isinstance(head.get(oid), (MatV, SpV)) and content(head[oid]) == hu["H"]]
                        ok = [oid for oid in cand if content(entry[oid]) == Hfirst and content(back[oid]) == H]
                        ctx.check("hessian-update/previous Hessian/%s" % key, bool(ok), lambda: "the update starts from %s, which is not the Hessian of the previous iteration" % show(hu["H"][0]), hu["loc"])
                        # step = difference of consecutive iterates
                        xe = S.hv(entry, S.x)
                        d0, d1 = [a - b for a, b in zip(xe, x0)], [a - b for a, b in zip(S.hv(back, S.x), X)]
                        cand = [oid for oid in S.modified if isinstance(head.get(oid), MatV) and content(head[oid]) == hu["s"]]
                        ctx.check("hessian-update/step/%s" % key, any(content(entry[q]) == d0 and content(back[q]) == d1 for q in cand), lambda: "the step passed to the Hessian update is not the difference of the two latest iterates: %s" % show(hu["s"][0]), hu["loc"])
                        # gradient change
                        lgn = fvec("lg", nx, X + P0 + L)
                        G = [a - b for a, b in zip(lgn, hu["y"])]
                        cand = [oid for oid in S.modified if isinstance(head.get(oid), MatV) and content(head[oid]) == G]
                        lg0 = fvec("lg", nx, x0 + P0 + l0)
                        ctx.check("hessian-update/gradient change/%s" % key, any(content(entry[q]) == lg0 and content(back[q]) == lgn for q in cand),
                                  lambda: "the gradient change passed to the Hessian update is not the difference of the Lagrangian gradients of the two latest iterates: %s" % show(hu["y"][0]), hu["loc"])
                    want = expected_data(S, X, P0, H)
                    for k in range(7):
                        ctx.equal("subproblem/%s/%s" % (NAMES[k], key), comp["args"][k], want[k], comp["loc"])
                        ctx.equal("preconditioned/%s/%s" % (NAMES[k], key), qp["args"][k], comp["scaled"][k], qp["loc"])
                        ctx.equal("restored/%s/%s" % (NAMES[k], key), up["args"][k], comp["args"][k], up["loc"])
                    for k in range(len(qp["args"]) - 7):
                        pass
                    ctx.equal("solution-read/primal/%s" % key, us["x"], sol["x"], us["loc"])
                    ctx.equal("solution-read/dual/%s" % key, us["y"], sol["y"], us["loc"])
                    pk = [sol["x"][i] * var("Dx%d" % i) for i in range(nx)]
                    yk = [sol["y"][i] * var("Ey%d" % i) for i in range(nx + m)]
                    ctx.equal("direction/%s" % key, stp["p"], pk, stp["loc"])
                    ctx.equal("base-point/%s" % key, S.hv(stp["heap"], S.x), X, stp["loc"])
                    al = stp["alpha"]
                    ctx.equal("primal-update/%s" % key, S.hv(after, S.x), [X[i] + al * pk[i] for i in range(nx)], S.linfo["loc"])
                    ctx.equal("multiplier-update/%s" % key, S.hv(after, S.lam), [L[i] + al * (yk[i] - L[i]) for i in range(nx + m)], S.linfo["loc"])
                except Deviation:
                    pass
            ctx.no_events(S.it, "well-formed/%s" % tag)
            ctx.count("SQP contexts")
    ctx.require("SQP contexts", ctx.minimum.get("SQP contexts", 0), 8)


def content(v):
    if isinstance(v, SpV):
        v = v.dense()
    return [P(q) if isinstance(q, (int, Poly)) else q for q in v.d]


# ------------------------------------------------------------------ P06
def status(ctx):
    prog, ss = prog_of(ctx)
    for name, spec in ss.items():
        if not name.startswith("custom"):
            continue
        probe = Sqp(ctx, prog, name, spec, history=True)
        ctx.check("bounded/" + name, counted(probe.linfo, probe.modified, var("st.max_iter", isint=True)), "the number of iterations is not limited by the setting", probe.linfo["loc"])
        parts = [("early", j) for j in range(probe.nearly)] + [("loop", k) for k in range(len(probe.exits))]
        for part in parts:
            S = Sqp(ctx, prog, name, spec, history=True, pick=part)
            report(ctx, S, "%s/%s exit %d" % ((name,) + part), part, probe)
    ctx.require("SQP exits", ctx.minimum.get("SQP exits", 0), 8)
    ctx.require("exits that may report success", ctx.minimum.get("exits that may report success", 0), 4)


def report(ctx, S, key, part, probe):
    it = S.it
    h = S.final.heap
    pc = it.pc()
    st = P(it.load(it.load(S.info.fields["status"]).fields["value"]))
    where = S.linfo["loc"]
    x = S.hv(h, S.x)
    P0 = [var("p[0]")]
    ctx.count("SQP exits")
    solved = cmp0("==", st)
    get = lambda n: P(it.load(it.call_method(S.o, n, [], pick=lambda m: "body" in m)))
    iters = P(it.load(S.info.fields["iter"]))
    if implies(pc * solved, ZERO):
        ctx.implied("limit/status/" + key, pc, cmp0("==", st - 1), where, "a run that ends without meeting the criteria reports %s" % show(st))
        ctx.implied("limit/iterations/" + key, pc, cmp0(">=", iters - var("st.max_iter", isint=True)), where, "the iteration limit is reported after %s iterations" % show(iters))
        return
    ctx.count("exits that may report success")
    log = S.first if part[0] == "early" else S.body
    if part[0] == "loop" and not any(k == "step" for k, _ in log):
        if not any(k == "step" for k, _ in probe.body):
            ctx.check("takes-steps/" + key, False, "success is reported by an iteration without a step", where)
            return
        raise AnalysisError("no step in the iteration that ends the SQP")
    stp, us = S.only(log, "step"), S.only(log, "unscale-solution")
    nx, m = S.nx, S.m
    al, pk = stp["alpha"], stp["p"]
    L = S.hv(stp["heap"], S.lam)
    yk = [us["y"][i] * var("Ey%d" % i) for i in range(nx + m)]
    X = S.hv(stp["heap"], S.x)
    prim = al * ninf(pk)
    dual = al * ninf([a - b for a, b in zip(yk, L)])
    viol = S.viol_max(x, P0)
    on = pc * solved
    ctx.equal("returned-point/" + key, x, [a + al * b for a, b in zip(X, pk)], where)
    fact = cmp0("<=", prim - var("st.eps_prim"))
    ctx.implied("solved-implies-small-primal-step/" + key, on, fact, where)
    ctx.implied("solved-implies-small-dual-step/" + key, on, cmp0("<=", dual - var("st.eps_dual")), where)
    ctx.implied("solved-implies-feasible/" + key, on, cmp0("<=", viol - var("st.eps_prim")), where)
    ctx.equal("reported/primal norm/" + key, get("primal_norm"), prim, where)
    ctx.equal("reported/dual norm/" + key, get("dual_norm"), dual, where)
    ctx.equal("reported/violation/" + key, get("constr_violation"), viol, where)
    ctx.implied("status-value/" + key, pc, lor(solved, cmp0("==", st - 1)), where)
    if part[0] == "early":
        ctx.equal("reported/iterations/" + key, iters, ONE, where)


def ninf(v):
    return maxv(*[absv(x) for x in v])


# ------------------------------------------------------------------ P08
class Search:
    """the default step size selection, called on an arbitrary solver state"""

    def __init__(self, ctx, prog, name, spec, pick=None, fields=None):
        S = self.S = Sqp.__new__(Sqp)
        S.name, S.ctx = name, ctx
        S.rec, S.nx, S.ne, S.ni, S.sparse = spec
        S.m = S.ne + S.ni
        S.log, S.linfo, S.history = [], None, False
        S.nqp = S.nalpha = 0
        it = S.it = self.it = machine(prog)
        S.install()
        o = S.o = construct(it, S.rec, "S")
        for path, c in cells_of(o):
            if it.hooks is not None and "iteration_callback" in path:
                continue
            try:
                it.store(c, it.default_content(c.tid, "any:" + path, symb))
            except Exception:
                pass
        getc = lambda n: it.call_method(o, n, [], pick=lambda m: "body" in m)
        nx, m = S.nx, S.m
        it.store(getc("parameters"), V("p", 1))
        it.store(getc("primal_solution"), V("x", nx))
        it.store(getc("dual_solution"), V("lam", nx + m))
        for n in ("lower_bound_x", "upper_bound_x"):
            it.store(getc(n), V(n[0] + "bx", nx))
        if S.ni:
            for n in ("lower_bound_g", "upper_bound_g"):
                it.store(getc(n), V(n[0] + "bg", S.ni))
        symbolise(it, it.load(getc("settings")), "st", skip=("iteration_callback",))
        if fields:
            for k, v in fields.items():
                it.store(o.fields[k], v)
        self.pick = pick
        self.linfo = None
        it.hooks["loop"] = self.on_loop
        it.hooks["loop_exit"] = self.on_exit
        it.hooks["call_exit"] = self.on_call
        self.d = [var("d[%d]" % i) for i in range(nx)]
        self.ret = it.num(it.call_method(o, "step_size_selection", [TempLV(MatV(nx, 1, self.d))], pick=lambda m: "body" in m and not m.get("const")))
        ctx.cover(it, "sqp.cpp")

    def on_loop(self, I, phase, info, modified):
        self.linfo, self.modified = info, modified
        if self.frame is None:
            self.frame = I.frames[-1]
        if phase == "done":
            self.names = I.celltab()
    frame = None
    exits = ()
    target = None

    def on_exit(self, I, info, outs):
        self.exits = outs
        if self.pick is None:
            return None
        self.target = outs[self.pick]
        return [self.target[1]]

    def on_call(self, I, fr):
        if fr is not self.frame or self.target is None:
            return
        if self.target[0] == "return":
            fr.returns[:] = [r for r in fr.returns if r[0] is self.target[1]]
        else:
            fr.returns[:] = [fr.returns[-1]]


def linesearch(ctx):
    prog, ss = prog_of(ctx)
    for name, spec in ss.items():
        if not name.startswith("default"):
            continue
        probe = Search(ctx, prog, name, spec)
        if probe.linfo is None:
            raise AnalysisError("no backtracking loop found in the step size selection")
        kinds = set()
        violation(ctx, Search(ctx, prog, name, spec).S, name)
        for k in range(len(probe.exits)):
            R = Search(ctx, prog, name, spec, pick=k)
            kinds.add(examine(ctx, prog, R, "%s/exit %d" % (name, k)))
        ctx.check("some-exit-accepts/" + name, "accept" in kinds, "no exit of the line search tests the trial point")
    # what the line search relies on when it is called from solve()
    for name, spec in ss.items():
        if not name.startswith("custom"):
            continue
        S = Sqp(ctx, prog, name, spec, history=True)
        paths = {c.oid: p for p, c in cells_of(S.o)}
        nx, m = S.nx, S.m
        for ph, log in (("first", S.first), ("later", S.body)):
            stp, us = S.only(log, "step"), S.only(log, "unscale-solution")
            X = S.hv(stp["heap"], S.x)
            yk = [us["y"][i] * var("Ey%d" % i) for i in range(nx + m)]
            cg = fvec("cg", nx, X + [var("p[0]")])
            for oid, pth in paths.items():
                if pth in ctx.used.get("mult", ()):
                    ctx.equal("merit-inputs/multipliers/%s/%s iteration" % (name, ph), content(stp["heap"][oid]), yk, stp["loc"])
                    ctx.count("merit inputs checked")
                if pth in ctx.used.get("grad", ()):
                    ctx.equal("merit-inputs/cost gradient/%s/%s iteration" % (name, ph), content(stp["heap"][oid]), cg, stp["loc"])
                    ctx.count("merit inputs checked")
    ctx.require("line search exits", ctx.minimum.get("line search exits", 0), 8)
    ctx.require("merit inputs checked", ctx.minimum.get("merit inputs checked", 0), 16)


def examine(ctx, prog, R, key):
    S, it = R.S, R.it
    pc = it.pc()
    nx, m = S.nx, S.m
    where = R.linfo["loc"]
    ctx.count("line search exits")
    if not hasattr(ctx, "used"):
        ctx.used = {"mult": set(), "grad": set()}
    head, entry = R.linfo["head"].heap, R.linfo["entry"].heap
    back = R.linfo["back"]
    al = P(R.ret)
    cell = [oid for oid in R.modified if isinstance(head.get(oid), Poly) and head[oid] == al]
    if back is None:
        raise AnalysisError("the backtracking loop never repeats")
    ctx.check("backtracking/" + key, any(P(entry[c]) == ONE and P(back.heap[c]) == var("st.tau") * al for c in cell),
              lambda: "the returned step size %s is not one of 1, tau, tau^2, ..." % show(al), where)
    ctx.check("bounded/" + key, counted(R.linfo, R.modified, var("st.line_search_max_iter", isint=True)), "the number of trials is not limited by the setting", where)
    x = [var("x[%d]" % i) for i in range(nx)]
    P0 = [var("p[0]")]
    t = [a + al * b for a, b in zip(x, R.d)]
    f0, f1 = fn("f", *(x + P0)), fn("f", *(t + P0))
    # paths that leave because the number of trials is used up
    cost = P(it.load(it.call_method(S.o, "cost", [], pick=lambda q: "body" in q)))
    v0, v1 = S.viol_l1(x, P0), S.viol_l1(t, P0)
    fields = {p: c for p, c in cells_of(S.o)}
    duals = [p for p, c in fields.items() if isinstance(it.load(c), MatV) and len(it.load(c).d) == nx + m and p.startswith("m_") or p == "lam"]
    prims = [p for p, c in fields.items() if isinstance(it.load(c), MatV) and len(it.load(c).d) == nx]
    used = set()
    for q in pc.m:
        pass
    names = depnames(pc)
    if not any(n.startswith("x[") for n in names):
        ctx.check("exhausted/" + key, implies(pc, lnot(cmp0("<", headcounter(R) - var("st.line_search_max_iter", isint=True)))) if headcounter(R) is not None else False,
                  "the search gives up before the limit of trials: %s" % pstr(pc, 300), where)
        return "exhaust"
    for D in duals:
        mult = [P(w) for w in it.load(fields[D]).d]
        if not all(any(n in names for n in depnames(w)) for w in mult):
            continue
        mu = ninf(mult)
        for G in prims:
            g = [P(w) for w in it.load(fields[G]).d]
            if not all(any(n in names for n in depnames(w)) for w in g):
                continue
            slope = sum((a * b for a, b in zip(g, R.d)), ZERO)
            for e in (getattr(ctx, 'eps', ZERO), ZERO):
                fact = cmp0("<=", f1 + mu * (v1 + e) - (f0 + mu * (v0 + e)) - al * var("st.eta") * (slope - mu * (v0 + e)))
                if implies(pc, fact):
                    ctx.used["mult"].add(D)
                    ctx.used["grad"].add(G)
                    ctx.check("sufficient-decrease/" + key, True)
                    ctx.equal("reported-cost/" + key, cost, f1, where)
                    return "accept"
    ctx.check("sufficient-decrease/" + key, False, lambda: "a step is accepted under\n      %s\n    which is not the sufficient decrease of the merit function (cost + multiplier norm * violation) along the step" % pstr(pc, 1500), where)
    return "accept"


def headcounter(R):
    head, back = R.linfo["head"].heap, R.linfo["back"].heap
    c = [P(head[o]) for o in R.modified if isinstance(head.get(o), Poly) and isinstance(back.get(o), (int, Poly)) and P(back[o]) == P(head[o]) + 1]
    return c[0] if len(c) == 1 else None


def counted(info, modified, bound=None):
    """the loop repeats only while an integer that grows by a constant stays below a loop-invariant bound"""
    head, back = info["head"].heap, info["back"]
    if back is None:
        return True
    pc = ONE
    for r in back.rels:
        pc = pc * r
    for o in modified:
        h, b = head.get(o), back.heap.get(o)
        if not isinstance(h, Poly) or not isinstance(b, (int, Poly)):
            continue
        d = P(b) - h
        if not (d.is_const() and d.const() >= 1 and d.const().denominator == 1):
            continue
        if bound is not None and any(implies(pc, cmp0("<=", h + k - bound)) for k in (1, 0, 2)):
            return True
    return False


def violation(ctx, S, name):
    """the two violation measures the solver exposes"""
    it = S.it
    it.hooks.pop("loop_exit", None)
    it.hooks.pop("call_exit", None)
    it.S.rels = [ONE]
    nx = S.nx
    w = [var("w[%d]" % i) for i in range(nx)]
    for meth, ref in (("constraints_violation", S.viol_l1(w, [var("p[0]")])), ("max_constraints_violation", S.viol_max(w, [var("p[0]")]))):
        r = P(it.num(it.call_method(S.o, meth, [TempLV(MatV(nx, 1, w))], pick=lambda m: "body" in m)))
        off = r - ref
        if meth == "constraints_violation" and off.is_const():
            ctx.eps = off
        ctx.check("violation-measure/%s/%s" % (meth, name), off.is_const() and 0 <= off.const() < Fraction(1, 10 ** 12), lambda: "%s is %s, expected %s" % (meth, show(r), show(ref)), "sqp_base.hpp " + meth)
