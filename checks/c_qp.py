"""The two built-in QP solvers (splitting method with and without separate box block): status
honesty, KKT systems, iteration equations, penalties, history independence.

The iteration loop is analysed at an arbitrary iteration: every location the loop changes holds
an unknown value, except that locations which at loop entry are functions of the step-size
setting are assumed to be the same functions of one unknown current step size (this invariant is
itself an obligation, checked at loop entry and at the back edge)."""
from framework import *

N, M = 2, 3
INF = const(10 ** 10)
RMIN, REQ = const(Fraction(1, 10 ** 6)), const(1000)
EQTOL = const(Fraction(1, 10 ** 4))


def variants(prog):
    out = []
    for r in prog.records.values():
        if r["name"] in ("ADMM", "boxADMM") and "fields" in r:
            a = [x if not isinstance(x, dict) else None for x in r["args"]]
            sparse = a[3] == 1
            full = a[-1] == 3
            out.append((r["name"], sparse, full, r))
    out.sort(key=lambda t: (t[0], t[1], t[2]))
    return out


def vname(v):
    return "%s/%s%s" % (v[0], "sparse" if v[1] else "dense", "-full" if v[2] else "")


# sparsity patterns used for the sparse solvers
FULLH = {(i, j) for i in range(N) for j in range(N)}
FULLA = {(i, j) for i in range(M) for j in range(N)}
PATTERNS = {
    "all": (FULLH, FULLA),
    "diagonal H, partial A": ({(0, 0), (1, 1)}, {(0, 0), (1, 1), (2, 0)}),
    "H without diagonal": ({(0, 0)}, {(1, 0), (0, 1), (2, 1)}),
}


class Problem:
    """symbolic problem data (tag distinguishes successive solves)"""

    def __init__(self, sparse, tag="", pat="all", compressed=False, slack=1):
        hp, apat = PATTERNS[pat]
        self.sparse = sparse
        if sparse:
            self.H = SPM(tag + "H", N, N, hp, compressed, slack)
            self.A = SPM(tag + "A", M, N, apat, compressed, slack)
            self.Hd, self.Ad = self.H.dense(), self.A.dense()
        else:
            self.H = self.Hd = V(tag + "H", N, N)
            self.A = self.Ad = V(tag + "A", M, N)
        self.h, self.l, self.u = V(tag + "h", N), V(tag + "l", M), V(tag + "u", M)
        self.xl, self.xu = V(tag + "xl", N), V(tag + "xu", N)
        self.x0, self.y0 = V(tag + "x0", N), V(tag + "y0", N + M)

    def args(self, warm=True):
        a = [self.H, self.h, self.A, self.l, self.u, self.xl, self.xu] + ([self.x0, self.y0] if warm else [])
        return [TempLV(x) for x in a]


def mv(Mx, x):
    return [sum((Mx.at(i, j) * x[j] for j in range(Mx.c)), ZERO) for i in range(Mx.r)]


def mtv(Mx, y):
    return [sum((Mx.at(i, j) * y[i] for i in range(Mx.r)), ZERO) for j in range(Mx.c)]


def ninf(v):
    return maxv(*[absv(x) for x in v])


def penalty(lo, hi, rho):
    """penalty of one constraint for step size rho"""
    loose = land(cmp0("<", lo + INF), cmp0(">", hi - INF))
    eqc = cmp0("<", hi - lo - EQTOL)
    return ite(loose, RMIN, ite(eqc, REQ * rho, rho))


def at_most(e, hi, lo):
    """e <= hi, given lo <= hi"""
    return _at_most(e, hi, lo) or decide.nonneg(P(hi) - P(e), facts=(P(hi) - P(lo),))


def at_least(e, lo, hi):
    return _at_least(e, lo, hi) or decide.nonneg(P(e) - P(lo), facts=(P(hi) - P(lo),))


def _at_most(e, hi, lo):
    """from its shape"""
    if e == hi or e == lo:
        return True
    a = single(e)
    if a is not None and a.kind == "min":
        return any(_at_most(x, hi, lo) for x in a.args[0])
    if a is not None and a.kind == "max":
        return all(_at_most(x, hi, lo) for x in a.args[0])
    return _cases(e, lambda q: _at_most(q, hi, lo))


def _at_least(e, lo, hi):
    if e == hi or e == lo:
        return True
    a = single(e)
    if a is not None and a.kind == "max":
        return any(_at_least(x, lo, hi) for x in a.args[0])
    if a is not None and a.kind == "min":
        return all(_at_least(x, lo, hi) for x in a.args[0])
    return _cases(e, lambda q: _at_least(q, lo, hi))


def _cases(e, f):
    inds = indicators(e)
    if not inds or len(inds) > 6:
        return False
    i = min(inds)
    a, b = cofactor(e, i)
    return f(a) and f(b)


def single(e):
    if len(e.m) == 1:
        (mono, c), = e.m.items()
        if c == 1 and len(mono) == 1 and mono[0][1] == 1:
            return ATOMS[mono[0][0]]
    return None


class Run:
    """one analysed solve() call"""

    def __init__(self, ctx, prog, v, warm=True, pat="all", compressed=False, history=False, reuse=False, pick=None, hpat=None, ghost=None):
        self.v = v
        self.remake = (lambda: Run(ctx, prog, v, pat=pat, compressed=compressed)) if history or reuse else None
        box = self.box = v[0] == "boxADMM"
        sparse = v[1]
        self.nz = M if box else N + M
        it = self.it = machine(prog)
        o = self.o = construct(it, v[3], "S")
        st = self.settings = it.load(it.call_method(o, "settings", []))
        symbolise(it, st, "st")
        if reuse is not None and sparse:
            it.store(st.fields["reuse_pattern"], False)
        if history or reuse:
            hp = Problem(sparse, "hist:", hpat or pat, compressed)
            # earlier solves ran with their own settings
            keep = {c.oid: it.load(c) for _, c in cells_of(st)}
            symbolise(it, st, "hist:st", skip=("reuse_pattern",) if sparse else ())
            arbitrary_history(it, o, [lambda: it.call_method(o, "solve", hp.args(True)), lambda: it.call_method(o, "solve", hp.args(False))])
            for _, c in cells_of(st):
                it.store(c, keep[c.oid])
            if sparse:
                it.store(st.fields["reuse_pattern"], bool(reuse))
        it.S.rels = [ONE]
        self.p = Problem(sparse, "", pat, compressed)
        self.solves = []
        self.linfo = None
        self.exits = []
        self.pick = pick
        self.rhok = None
        self.prim = it.call_method(o, "primal_solution", [], pick=lambda m: "body" in m)
        self.dual = it.call_method(o, "dual_solution", [], pick=lambda m: "body" in m)
        it.hooks["loop"] = self.on_loop
        it.hooks["lsolve"] = self.on_solve
        it.hooks["loop_exit"] = self.on_exit
        self.nsolves = self.nfactors = None
        if ghost:
            # work counters of the analysis, advanced where linear systems are solved and factorised
            info = it.load(it.call_method(o, "info", [], pick=lambda m: "body" in m))
            self.nsolves, self.nfactors = TempLV(ZERO), TempLV(ZERO)
            it.store(self.nsolves, ZERO)
            it.store(info.fields["rho_updates"], var("earlier.updates", isint=True))
            it.store(self.nfactors, var("earlier.updates", isint=True) if ghost == "total" else ZERO)
            it.hooks["factor"] = self.on_factor
        self.args = self.p.args(warm)
        self.status = it.call_method(o, "solve", self.args)
        self.final = it.S
        if self.linfo is None:
            raise AnalysisError("no iteration loop found in the solver")
        ctx.cover(it, "qp.cpp")

    # -------- hooks
    def on_solve(self, I, sv, rhs, res):
        self.solves.append((sv, I.eg.dense(rhs), res, dict(I.S.heap), I.pc()))
        if self.nsolves is not None:
            I.store(self.nsolves, P(I.load(self.nsolves)) + ONE)

    def on_factor(self, I, obj, K, key):
        I.store(self.nfactors, P(I.load(self.nfactors)) + ONE)

    def on_loop(self, I, phase, info, modified):
        if phase == "head":
            self.linfo = info
            self.solves = []
            entry = info["entry"]
            scal = [oid for oid in modified if isinstance(entry.heap[oid], Poly) and entry.heap[oid] == var("st.rho")]
            if scal:
                self.rhocell = scal[0]
                self.rhok = var("rho_k")
            if self.rhok is not None:
                self.templ = {}
                for oid in list(modified):
                    e = entry.heap[oid]
                    t = sub_content(e, {"st.rho": self.rhok})
                    if t is not None and t is not e and not I._same(t, e):
                        if isinstance(t, (MatV, SpV)):
                            t = I._blend(t, e, modified[oid])    # elements the template says nothing about stay unknown
                        modified[oid] = t
                        self.templ[oid] = e
                        I.S.heap[oid] = t
            self.modified = modified
        elif phase == "done":
            self.names = I.celltab()
            self.heads = info["head"]

    def on_exit(self, I, info, outs):
        self.exits = outs
        if self.pick is None:
            return None
        return [outs[self.pick][1]]

    # -------- access
    def entry(self, cell):
        return self.linfo["entry"].heap[cell.oid]

    def vec(self, heap, oid):
        return list(heap[oid].d)

    def roles(self, like=None):
        """which loop-carried vectors are the constraint copy z and the box copy q.  A cold start
        has zeros everywhere; there the locations found in a warm-started run are taken (like)"""
        if like is not None:
            loc = {}
            for oid in self.modified:
                loc.setdefault(self.names.get(oid), []).append(oid)
            got = [loc.get(like.names.get(w), []) if w is not None else [None] for w in (like.z, like.q)]
            if any(len(g) != 1 for g in got):
                raise AnalysisError("constraint copies of the splitting method not found in the cold-started run")
            self.z, self.q = got[0][0], got[1][0]
            return
        e = self.linfo["entry"].heap
        x0 = list(self.p.x0.d) if len(self.args) > 7 else [ZERO] * N
        Ax = mv(self.p.Ad, x0)
        z = [oid for oid in self.modified if isinstance(e[oid], MatV) and [P(q) for q in e[oid].d] == Ax + ([] if self.box else x0)]
        q = [oid for oid in self.modified if isinstance(e[oid], MatV) and [P(w) for w in e[oid].d] == x0 and oid != self.prim.oid]
        if (len(z) != 1 or (self.box and len(q) != 1)) and self.remake:
            # the copies do not start where a warm start puts them: find them in a first solve
            first = self.remake()
            first.roles()
            return self.roles(like=first)
        if len(z) != 1 or (self.box and len(q) != 1):
            raise AnalysisError("constraint copies of the splitting method not recognised at the loop entry")
        self.z, self.q = z[0], q[0] if self.box else None

    def state(self, heap):
        x, y = self.vec(heap, self.prim.oid), self.vec(heap, self.dual.oid)
        z = self.vec(heap, self.z)
        if self.box:
            return x, y, z, self.vec(heap, self.q)
        return x, y, z[:M], z[M:]


def sub_content(e, sub):
    if isinstance(e, Poly):
        return subst(e, sub)
    if isinstance(e, MatV):
        return MatV(e.r, e.c, [subst(P(x), sub) if isinstance(x, Poly) else x for x in e.d], e.arr)
    if isinstance(e, SpV):
        return SpV(e.r, e.c, e.outer, e.nnz, e.inner, [None if x is None else subst(P(x), sub) for x in e.vals])
    if isinstance(e, SolverV) and e.key is not None:
        return SolverV(e.kind, KeyRef.get([subst(P(x), sub) for x in e.key.data], e.key.name), e.n, e.uplo, e.pattern)
    return None


def residuals(run, x, y, z, q):
    p = run.p
    Ax, Hx, Aty = mv(p.Ad, x), mv(p.Hd, x), mtv(p.Ad, y[:M])
    r1, r2 = ninf([a - b for a, b in zip(Ax, z)]), ninf([a - b for a, b in zip(x, q)])
    prim = r1 + r2 if run.box else maxv(r1, r2)
    sc = maxv(ninf(Ax), ninf(z), ninf(x)) if run.box else maxv(ninf(Ax), ninf(z + q), ninf(x))
    dual = ninf([Hx[i] + p.h.d[i] + Aty[i] + y[M + i] for i in range(N)])
    dsc = maxv(ninf(Hx), ninf(Aty), ninf(list(p.h.d)), ninf(y[M:]))
    ea, er = var("st.eps_abs"), var("st.eps_rel")
    return prim, ea + er * sc, dual, ea + er * dsc


def kkt(run, rho):
    """expected system matrix for step size rho"""
    p = run.p
    pa = [penalty(p.l.d[i], p.u.d[i], rho) for i in range(M)]
    pb = [penalty(p.xl.d[i], p.xu.d[i], rho) for i in range(N)]
    n = N + M if run.box else 2 * N + M
    K = [[ZERO] * n for _ in range(n)]
    for i in range(N):
        for j in range(N):
            K[i][j] = P(p.Hd.at(i, j))
        K[i][i] = K[i][i] + var("st.sigma") + (pb[i] if run.box else ZERO)
    for i in range(M):
        for j in range(N):
            K[N + i][j] = K[j][N + i] = P(p.Ad.at(i, j))
        K[N + i][N + i] = -inv(pa[i])
    if not run.box:
        for i in range(N):
            K[N + M + i][i] = K[i][N + M + i] = ONE
            K[N + M + i][N + M + i] = -inv(pb[i])
    return K, pa, pb


STATUS = {"SOLVED": 0, "MAX_ITER_EXCEEDED": 1}


def variants_of(ctx):
    prog = ir.dump("qp.cpp")
    vs = variants(prog)
    ctx.require("solver instantiations", len(vs), 8)
    return prog, vs


def where(run):
    return run.linfo["loc"]


# ------------------------------------------------------------------ P01
def status(ctx):
    prog, vs = variants_of(ctx)

    def one(ctx, v):
        nm = vname(v)
        probe = Run(ctx, prog, v, history=not v[1])
        for k in range(len(probe.exits)):
            run = Run(ctx, prog, v, history=not v[1], pick=k)
            run.roles()
            kind, _ = run.exits[k]
            it = run.it
            st = P(run.status)
            pc = it.pc()
            h = run.final.heap
            x, y, z, q = run.state(h)
            prim, ep, dual, ed = residuals(run, x, y, z, q)
            solved = cmp0("==", st)
            ctx.count('loop exits analysed')
            info = it.load(it.call_method(run.o, "info", [], pick=lambda m: "body" in m))
            ctx.equal("status-agrees/%s/exit %d" % (nm, k), P(it.load(info.fields["status"])), st, where(run))
            if implies(pc * solved, ZERO):
                ctx.check("not-solved/%s/exit %d (%s)" % (nm, k, kind), True)
                ctx.implied("limit/%s/exit %d (%s)" % (nm, k, kind), pc, cmp0("==", st - 1), where(run), "a run that ends without meeting the criteria reports %s" % show(st))
                continue
            ctx.implied("solved-implies-primal/%s/exit %d (%s)" % (nm, k, kind), pc * solved, cmp0("<=", prim - ep), where(run),
                        lambda: "the solved status does not imply primal residual <= tolerance; it is reported under\n      %s\n    needed\n      %s" % (show(pc), show(cmp0("<=", prim - ep))))
            ctx.implied("solved-implies-dual/%s/exit %d (%s)" % (nm, k, kind), pc * solved, cmp0("<=", dual - ed), where(run),
                        lambda: "the solved status does not imply dual residual <= tolerance; it is reported under\n      %s\n    needed\n      %s" % (show(pc), show(cmp0("<=", dual - ed))))
            ctx.equal("reported-residual/primal/%s/exit %d" % (nm, k), it.load(info.fields["res_prim"]), prim, where(run))
            ctx.equal("reported-residual/dual/%s/exit %d" % (nm, k), it.load(info.fields["res_dual"]), dual, where(run))
            for i in range(M):
                ctx.check("copy-in-bounds/%s/exit %d/constraint %d" % (nm, k, i), at_most(z[i], run.p.u.d[i], run.p.l.d[i]) and at_least(z[i], run.p.l.d[i], run.p.u.d[i]),
                          "the constraint value used in the residual is not clamped to its bounds: %s" % show(z[i]), where(run))
            for i in range(N):
                ctx.check("copy-in-bounds/%s/exit %d/box %d" % (nm, k, i), at_most(q[i], run.p.xu.d[i], run.p.xl.d[i]) and at_least(q[i], run.p.xl.d[i], run.p.xu.d[i]),
                          "the variable copy used in the residual is not clamped to its bounds: %s" % show(q[i]), where(run))
    ctx.pmap(one, vs)
    ctx.require("loop exits analysed", ctx.minimum.get("loop exits analysed", 0), 16)


# ------------------------------------------------------------------ P02
def invariant(ctx, run, nm):
    """the current step size determines every penalty-dependent location, at the back edge too"""
    I = run.it
    back = run.linfo["back"]
    if back is None:
        raise AnalysisError("the iteration loop has no back edge")
    R = P(back.heap[run.rhocell])
    tab = {c.oid: p for p, c in cells_of(run.o)}
    for oid, e in run.templ.items():
        want = sub_content(e, {"st.rho": R})
        got = back.heap[oid]
        if isinstance(want, SolverV):
            ok = isinstance(got, SolverV) and got.key is not None and len(got.key.data) == len(want.key.data)
            ctx.check("step-size-consistency/%s/%s" % (nm, tab.get(oid, "local")), ok and all(eq(a, b) for a, b in zip(got.key.data, want.key.data)),
                      "after an iteration the factorisation is not that of the system for the current step size", where(run))
        else:
            ctx.equal("step-size-consistency/%s/%s" % (nm, tab.get(oid, "local")), got, want, where(run))


def modes(v):
    """(label, kwargs) of the calling contexts analysed for one solver"""
    out = [("first", {}), ("after other solves", {"history": True}), ("cold start", {"warm": False})]
    if v[1]:
        out = [("first, pattern %s, %s" % (p, "compressed" if c else "uncompressed"), {"pat": p, "compressed": c}) for p in PATTERNS for c in (False, True)]
        out += [("after other solves, pattern %s" % p, {"pat": p, "history": True}) for p in PATTERNS]
        out += [("same pattern reused, %s, %s" % (p, "compressed" if c else "uncompressed"), {"pat": p, "compressed": c, "reuse": True}) for p in PATTERNS for c in (False, True)]
    return out


def system(ctx):
    prog, vs = variants_of(ctx)

    def one(ctx, item):
        v, lab, kw = item
        run = Run(ctx, prog, v, **kw)
        nm = "%s/%s" % (vname(v), lab)
        ctx.no_events(run.it, "well-formed/%s" % nm)
        if run.rhok is None:
            raise AnalysisError("current step size not recognised")
        K, pa, pb = kkt(run, run.rhok)
        ctx.check("one-system/%s" % nm, len(run.solves) >= 1, "no linear system is solved in an iteration", where(run))
        for sv, rhs, res, heap, pc in run.solves:
            ctx.count("linear solves matched")
            n = len(K)
            if sv.key is None:
                ctx.check("system/%s" % nm, False, "the linear system is solved before any factorisation", where(run))
                continue
            if sv.key.name.startswith("sym"):
                want = [K[i][j] for j in range(n) for i in range(j, n)]
            else:
                want = [K[i][j] for j in range(n) for i in range(n)]
            ctx.equal("system/%s" % nm, list(sv.key.data), want, where(run))
        invariant(ctx, run, nm)
    ctx.pmap(one, [(v, lab, kw) for v in vs for lab, kw in modes(v)])
    ctx.require("linear solves matched", ctx.minimum.get("linear solves matched", 0), 60)


# ------------------------------------------------------------------ P03
def iteration(ctx):
    prog, vs = variants_of(ctx)
    n = 0
    for v in vs:
        nm = vname(v)
        run = Run(ctx, prog, v, history=not v[1])
        run.roles()
        K, pa, pb = kkt(run, run.rhok)
        head = run.heads.heap
        back = run.linfo["back"].heap
        x, y, z, q = run.state(head)
        p = run.p
        al = var("st.alpha")
        sg = var("st.sigma")
        if len(run.solves) != 1:
            raise AnalysisError("%d linear solves per iteration" % len(run.solves))
        sv, rhs, res, _, _ = run.solves[0]
        ia, ib = [inv(t) for t in pa], [inv(t) for t in pb]
        if run.box:
            want = [sg * x[i] - p.h.d[i] + pb[i] * q[i] - y[M + i] for i in range(N)] + [z[i] - ia[i] * y[i] for i in range(M)]
        else:
            want = [sg * x[i] - p.h.d[i] for i in range(N)] + [z[i] - ia[i] * y[i] for i in range(M)] + [q[i] - ib[i] * y[M + i] for i in range(N)]
        ctx.equal("right-hand-side/%s" % nm, list(rhs.d), want, where(run))
        s = list(res.d)
        xt, nu = s[:N], s[N:]
        xn = [al * xt[i] + (ONE - al) * x[i] for i in range(N)]

        def blk(zp, yp, nup, rho, irho, lo, hi):
            zt = [zp[i] + irho[i] * (nup[i] - yp[i]) for i in range(len(zp))]
            zr = [al * zt[i] + (ONE - al) * zp[i] for i in range(len(zp))]
            zn = [minv(maxv(zr[i] + irho[i] * yp[i], lo[i]), hi[i]) for i in range(len(zp))]
            yn = [yp[i] + rho[i] * (zr[i] - zn[i]) for i in range(len(zp))]
            return zn, yn
        zn, yn = blk(z, y[:M], nu[:M], pa, ia, p.l.d, p.u.d)
        if run.box:
            qn = [minv(maxv(xn[i] + ib[i] * y[M + i], p.xl.d[i]), p.xu.d[i]) for i in range(N)]
            yb = [y[M + i] + pb[i] * (xn[i] - qn[i]) for i in range(N)]
        else:
            qn, yb = blk(q, y[M:], nu[M:], pb, ib, p.xl.d, p.xu.d)
        outs = [("next", back)] + [("exit %d" % k, e.heap) for k, (kind, e) in enumerate(run.exits) if kind in ("break", "return")]
        for lab, heap in outs:
            n += 1
            gx, gy, gz, gq = run.state(heap)
            ctx.equal("primal-update/%s/%s" % (nm, lab), gx, xn, where(run))
            ctx.equal("projection/%s/%s" % (nm, lab), gz, zn, where(run))
            ctx.equal("box-projection/%s/%s" % (nm, lab), gq, qn, where(run))
            ctx.equal("multiplier-update/%s/%s" % (nm, lab), gy[:M], yn, where(run))
            ctx.equal("box-multiplier-update/%s/%s" % (nm, lab), gy[M:], yb, where(run))
    ctx.require("iteration edges compared", n, 16)


# ------------------------------------------------------------------ P04
def history(ctx):
    prog, vs = variants_of(ctx)

    def one(ctx, item):
        v, lab, kw = item
        nm = vname(v)
        for warm in (True, False):
            run = Run(ctx, prog, v, history=True, warm=warm, **kw)
            run.roles(like=None if warm else wrun)
            wrun = run if warm else None
            tag = nm + lab + ("/warm" if warm else "/cold")
            it = run.it
            ctx.count('solve contexts')
            x0 = list(run.p.x0.d) if warm else [ZERO] * N
            y0 = list(run.p.y0.d) if warm else [ZERO] * (N + M)
            ctx.equal("start-primal/%s" % tag, run.vec(run.linfo["entry"].heap, run.prim.oid), x0, where(run))
            ctx.equal("start-dual/%s" % tag, run.vec(run.linfo["entry"].heap, run.dual.oid), y0, where(run))
            hist = uninit_or(["hist"])
            ctx.nodep("fresh-result/%s/status" % tag, P(run.status), hist, "the state left by earlier calls")
            for what, cell in (("primal", run.prim), ("dual", run.dual)):
                ctx.nodep("fresh-result/%s/%s" % (tag, what), run.final.heap[cell.oid], hist, "the state left by earlier calls")
            info = it.load(it.call_method(run.o, "info", [], pick=lambda m: "body" in m))
            ctx.nodep("fresh-result/%s/iterations" % tag, it.load(info.fields["iter"]), hist, "the state left by earlier calls")
            # whatever the iteration loop starts from is fresh, too
            back, entry = run.linfo["back"].heap, run.linfo["entry"].heap
            tab = {c.oid: p for p, c in cells_of(run.o)}
            # a value that is read before it is written in an iteration must not come from an earlier call
            stale = [oid for oid in run.modified if hasdep(entry.get(oid), hist)]
            reads = set()
            for oid in stale:
                nm2 = leafnames(run.heads.heap.get(oid))
                if any(leafdeps(back.get(o)) & nm2 for o in back if o in (run.prim.oid, run.dual.oid, run.z)):
                    reads.add(tab.get(oid, "local"))
            ctx.check("fresh-start/%s" % tag, not reads, "the iteration reads %s, which an earlier call left behind" % ", ".join(sorted(reads)), where(run))
            for k, a in enumerate(run.args):
                orig = run.p.args(warm)[k].v0
                ctx.check("inputs-unmodified/%s/argument %d" % (tag, k), it.load(a) == orig or repr(it.load(a)) == repr(orig), "an input of solve() is modified", where(run))
            for p, c in cells_of(run.settings):
                if p == "reuse_pattern":
                    continue
                ctx.equal("settings-unmodified/%s/%s" % (tag, p), it.load(c), symb("st." + p, it.prog.deref(c.tid)), where(run))
    items = []
    for v in vs:
        items += [(v,) + m for m in ([("", {})] if not v[1] else [("/" + p, {"pat": p}) for p in PATTERNS])]
    ctx.pmap(one, items)
    ctx.require("solve contexts", ctx.minimum.get("solve contexts", 0), 24)



def hasdep(v, pred):
    if v is None or isinstance(v, (Conflict, UninitV, str)):
        return isinstance(v, UninitV)
    for x in content_scalars(v):
        if any(pred(n) for n in depnames(x)):
            return True
    return False


def content_scalars(v):
    if isinstance(v, (Poly, int)):
        return [v]
    if isinstance(v, MatV):
        return [x for x in v.d if isinstance(x, (Poly, int))]
    if isinstance(v, SpV):
        return [x for x in v.vals if x is not None]
    if isinstance(v, SolverV) and v.key is not None:
        return list(v.key.data)
    return []


def leafnames(v):
    return {n for x in content_scalars(v) for n in depnames(x) if "~" in n}


def leafdeps(v):
    return {n for x in content_scalars(v) for n in depnames(x)}


# ------------------------------------------------------------------ P05
def penalties(ctx):
    prog, vs = variants_of(ctx)
    n = 0
    for v in vs:
        nm = vname(v)
        run = Run(ctx, prog, v, history=True)
        K, pa, pb = kkt(run, var("st.rho"))
        # the penalties in force at the first iteration, read off the factorised system
        entry = run.linfo["entry"].heap
        sols = [c for c in entry.values() if isinstance(c, SolverV)]
        if len(sols) != 1 or sols[0].key is None:
            raise AnalysisError("factorised system not found at the loop entry")
        key = sols[0].key
        n0 = len(K)
        if key.name.startswith("sym"):
            idx = {}
            k = 0
            for j in range(n0):
                for i in range(j, n0):
                    idx[i, j] = k
                    k += 1
        else:
            idx = {(i, j): j * n0 + i for j in range(n0) for i in range(n0)}
        for i in range(M):
            n += 1
            ctx.equal("constraint-penalty/%s/%d" % (nm, i), key.data[idx[N + i, N + i]], -inv(pa[i]), where(run))
        for i in range(N):
            n += 1
            if run.box:
                ctx.equal("box-penalty/%s/%d" % (nm, i), key.data[idx[i, i]] - P(run.p.Hd.at(i, i)) - var("st.sigma"), pb[i], where(run))
            else:
                ctx.equal("box-penalty/%s/%d" % (nm, i), key.data[idx[N + M + i, N + M + i]], -inv(pb[i]), where(run))
        # adaptation keeps the step size within its limits
        back = run.linfo["back"]
        R = P(back.heap[run.rhocell])
        d = R - run.rhok
        inds = indicators(R)
        upd = new_value(R, run.rhok)
        hi = const(10 ** 6)
        ok = upd is not None and at_most(upd, hi, RMIN) and at_least(upd, RMIN, hi)
        if not ok:
            old = (run.rhok - RMIN, hi - run.rhok)   # an unadapted step size keeps its value
            ok = decide.nonneg(R - RMIN, facts=old) and decide.nonneg(hi - R, facts=old)
        ctx.check("step-size-limits/%s" % nm, ok,
                  "an adapted step size is not limited to [1e-6, 1e6]: %s" % (show(upd) if upd is not None else show(R)), where(run))
    ctx.require("constraint penalties", n, 40)


def new_value(R, old):
    """R = old + c*(new-old): the new value"""
    inds = sorted(indicators(R))
    if not inds:
        return R
    # all-cases walk: collect the distinct non-old leaf values
    vals = set()

    def walk(p, d=0):
        ii = indicators(p)
        if not ii or d > 10:
            vals.add(p)
            return
        a, b = cofactor(p, min(ii))
        walk(a, d + 1)
        walk(b, d + 1)
    walk(R)
    vals.discard(old)
    if len(vals) != 1:
        return None
    return next(iter(vals))
