"""Stand-alone collocation classes: values are the stated functions of the user's model, derivatives are exact, and the sparse linearisation
agrees with the dense one, when matrices are filled for the first time and when they are refreshed.  Basis, dynamics, costs and constraints
are uninterpreted."""
from framework import *
from fractions import Fraction


def problems(prog):
    out = {}
    for r in prog.records.values():
        if not r["name"].endswith("_collocation") or "fields" not in r:
            continue
        ints = [a for a in r["args"] if not isinstance(a, dict)]
        recs = [prog.records[prog.deref(a["t"])["r"]] for a in r["args"] if isinstance(a, dict)]
        dims = next((tuple(q["args"]) for q in recs if len(q["args"]) == 3), tuple(ints[:3]))
        order = next(q["args"][0] for q in recs if q["name"] == "OpaqueBasis")
        key = (order, ints[-1]) + tuple(int(d) for d in dims)
        kind = r["name"].split("::")[-1]
        out.setdefault(key, {})[kind] = r
    return out


class Col:
    def __init__(self, prog, key, mid_zero=False):
        self.order, self.segs, self.nx, self.nu, self.np = key
        self.nodes = self.order * self.segs + 1
        self.vx, self.vu = self.nodes * self.nx, self.nodes * self.nu
        self.N = self.vx + self.vu + self.np
        it = self.it = machine(prog)
        m = self.order + 1
        self.D = {(i, j): var("D[%d,%d]" % (i, j)) for i in range(m) for j in range(m)}
        if mid_zero:
            self.D[self.order // 2, self.order // 2] = ZERO
        # quadrature weights of a symmetric rule
        self.w = [var("w[%d]" % min(k, self.order - k)) for k in range(m)]
        it.overrides[("OpaqueBasis", "D")] = lambda it, f, this, a: MatV(m, m, [self.D[i, j] for j in range(m) for i in range(m)])
        it.overrides[("OpaqueBasis", "CCQWeights")] = lambda it, f, this, a: MatV(m, 1, list(self.w))
        it.overrides[("OpaqueDynamics", "operator()")] = user_function("f", self.nx)
        # the cost terms depend on the coefficient their object carries
        term = lambda n: lambda it, f, this, a: user_function(n, None)(it, f, this, [this.fields["coefficient"]] + a)
        it.overrides[("OpaqueLagrange", "operator()")] = term("l")
        it.overrides[("OpaqueMayer", "operator()")] = term("M")
        it.overrides[("OpaqueFunction", "operator()")] = lambda it, f, this, a: user_function("q", it.load(a[3]).r)(it, f, this, a)

    def point(self, tag):
        z = [var("%s[%d]" % (tag, i)) for i in range(self.N)]
        x = [z[k * self.nx:(k + 1) * self.nx] for k in range(self.nodes)]
        u = [z[self.vx + k * self.nu:self.vx + (k + 1) * self.nu] for k in range(self.nodes)]
        return z, x, u, z[self.N - self.np:] if self.np else []

    def ts(self, t0, tf):
        return (tf - t0) * const(Fraction(1, 2 * self.segs))

    def residual(self, tag, t0, tf):
        z, x, u, p = self.point(tag)
        ts = self.ts(t0, tf)
        c = []
        for k in range(self.nodes):
            seg = min(k // self.order, self.segs - 1)
            row = k - seg * self.order
            for i in range(self.nx):
                e = -ts * fn("f%d" % i, *(x[k] + u[k] + p))
                for j in range(self.order + 1):
                    e = e + self.D[row, j] * x[seg * self.order + j][i]
                c.append(e)
        return c

    def cost(self, tag, t0, tf, cl=ZERO, cm=ZERO):
        z, x, u, p = self.point(tag)
        e = fn("M", cm, *x[0])
        for s in range(self.segs):
            for k in range(self.order + 1):
                n = s * self.order + k
                e = e + self.ts(t0, tf) * self.w[k] * fn("l", cl, *(x[n] + u[n] + p))
        return e

    def wrt(self, tag):
        """differentiation variables: states and controls; parameters are held fixed"""
        return [("%s[%d]" % (tag, i) if i < self.vx + self.vu else None) for i in range(self.N)]


def d(e, name):
    return diff(e, name) if name is not None else ZERO


TIMES = [("default interval", None, const(-1), ONE), ("any interval", True, var("t0"), var("tf"))]


def describe(C, what):
    return "%s, %d states, %d controls, %d parameters, %d segments of order %d" % (what, C.nx, C.nu, C.np, C.segs, C.order)


def targs(t):
    return [TempLV(t[2]), TempLV(t[3])]


WRAP = {"operator()": {"ode": "ode_default", "cost": "cost_default"}, "linearized": {"ode": "lin_default"},
        "value_gradient": {"cost": "grad_default"}, "value_gradient_hessian": {"cost": "hess_default"}}


def ev(it, o, rec, meth, args, t):
    """evaluate on interval t; through the driver's one-line wrapper when the interval is left out"""
    if t[1] is not None:
        return it.call_method(o, meth, args + targs(t), nparams=len(args) + 2)
    w = WRAP[meth]["cost" if rec["name"].endswith("cost_collocation") else "ode"]
    f = [f for f in it.prog.functions.values() if f["name"] == w and "body" in f and it.prog.deref(f["params"][0]["t"]).get("r") == rec["id"]]
    if len(f) != 1:
        raise AnalysisError("%d instantiations of %s" % (len(f), w))
    return it.call(f[0], None, [o] + args)


def one(ctx, job):
    prog = ir.dump("col.cpp")
    key, kind, mid = job
    rec = problems(prog)[key][kind]
    C = Col(prog, key, mid)
    it = C.it
    o = construct(it, rec, "C")
    nm = "%d/%d %d,%d,%d%s" % (key + (" zero diagonal" if mid else "",))
    x = TempLV(V("x", C.N))
    stale = uninit_or(["hist", "pre:", "h["])
    wh = describe(C, kind)
    if kind == "ode_collocation":
        hist = lambda: it.call_method(o, "linearized", [TempLV(V("h", C.N)), TempLV(V("hist:A", C.vx, C.N)), out(C.vx), TempLV(var("hist:t0")), TempLV(var("hist:tf"))])
        for used in (False, True):
            if used:
                arbitrary_history(it, o, [hist])
            sfx = "/used object" if used else "/new object"
            for t in TIMES:
                c = C.residual("x", t[2], t[3])
                b = out(C.vx)
                ev(it, o, rec, "operator()", [x, b], t)
                ctx.equal("dynamics residual/%s/%s%s" % (nm, t[0], sfx), it.load(b), c, wh)
                ctx.nodep("initialised/residual/%s/%s%s" % (nm, t[0], sfx), it.load(b), stale, "stale storage", wh)
                b, A = out(C.vx), TempLV(V("pre:A", C.vx, C.N))
                ev(it, o, rec, "linearized", [x, A, b], t)
                ctx.equal("dynamics residual, linearised/%s/%s%s" % (nm, t[0], sfx), it.load(b), c, wh)
                ctx.equal("dynamics Jacobian/%s/%s%s" % (nm, t[0], sfx), it.load(A), [d(e, v) for v in C.wrt("x") for e in c], wh)
                ctx.nodep("initialised/Jacobian/%s/%s%s" % (nm, t[0], sfx), it.load(A), stale, "stale storage", wh)
    elif kind == "sparse_ode_collocation":
        t = TIMES[1]
        c = C.residual("x", t[2], t[3])
        J = [d(e, v) for v in C.wrt("x") for e in c]
        b = out(C.vx)
        ev(it, o, rec, "operator()", [x, b], t)
        ctx.equal("sparse dynamics residual/%s" % nm, it.load(b), c, wh)
        lin = lambda xx, A, b, tt: it.call_method(o, "linearized", [xx, A, b] + tt, nparams=5)
        A, b = TempLV(SpV.empty(C.vx, C.N)), out(C.vx)
        lin(x, A, b, targs(t))
        ctx.equal("sparse residual, first linearisation/%s" % nm, it.load(b), c, wh)
        ctx.equal("sparse Jacobian, first linearisation/%s" % nm, it.load(A).dense(), J, wh)
        pat = it.load(A).pattern()
        # refresh: the matrix was filled at another point and for another interval
        A, b = TempLV(SpV.empty(C.vx, C.N)), out(C.vx)
        lin(TempLV(V("h", C.N)), A, b, [TempLV(var("hist:t0")), TempLV(var("hist:tf"))])
        for rnd in (1, 2):
            cur = it.load(A)
            it.store(A, cur.map(lambda z: z if all(n.startswith("D[") for n in support(P(z))) else var("pre:z")))
            b = out(C.vx)
            lin(x, A, b, targs(t))
            ctx.equal("sparse residual, refreshed/%s/%d" % (nm, rnd), it.load(b), c, wh)
            ctx.equal("sparse Jacobian, refreshed/%s/%d" % (nm, rnd), it.load(A).dense(), J, wh)
            ctx.check("sparsity pattern kept/%s/%d" % (nm, rnd), it.load(A).pattern() == pat, "refreshing changes the sparsity pattern or the storage layout", wh)
            ctx.nodep("initialised/sparse Jacobian/%s/%d" % (nm, rnd), it.load(A).dense(), stale, "stale storage", wh)
    elif kind == "cost_collocation":
        H0 = lambda tag: TempLV(V(tag, C.N, C.N))
        hist = [lambda: it.call_method(o, "value_gradient", [TempLV(V("h", C.N)), TempLV(var("pre:c")), out(C.N), TempLV(var("hist:t0")), TempLV(var("hist:tf"))]),
                lambda: it.call_method(o, "value_gradient_hessian", [TempLV(V("h", C.N)), TempLV(var("pre:c")), out(C.N), H0("hist:H"), TempLV(var("hist:t0")), TempLV(var("hist:tf"))])]
        terms = []
        for n in ("OpaqueLagrange", "OpaqueMayer"):
            q = it.new_struct(next(prog.records[prog.deref(a["t"])["r"]] for a in rec["args"] if isinstance(a, dict) and prog.records[prog.deref(a["t"])["r"]]["name"] == n), n)
            it.store(q.fields["coefficient"], var("c" + n))
            terms.append(q)
        for how in ("new object", "used object", "new object with given terms"):
            cs = (ZERO, ZERO)
            if how == "used object":
                arbitrary_history(it, o, hist)
                it.store(o.fields["m_Lagrange"].fields["coefficient"], ZERO)
                it.store(o.fields["m_Mayer"].fields["coefficient"], ZERO)
            elif how != "new object":
                o = construct(it, rec, "C2", terms)
                cs = (var("cOpaqueLagrange"), var("cOpaqueMayer"))
            sfx = "/" + how
            for t in TIMES:
                e = C.cost("x", t[2], t[3], *cs)
                g = [d(e, v) for v in C.wrt("x")]
                H = [d(q, v) for v in C.wrt("x") for q in g]
                v = TempLV(var("pre:c"))
                ev(it, o, rec, "operator()", [x, v], t)
                ctx.equal("cost/%s/%s%s" % (nm, t[0], sfx), it.load(v), e, wh)
                v, gr = TempLV(var("pre:c")), out(C.N)
                ev(it, o, rec, "value_gradient", [x, v, gr], t)
                ctx.equal("cost, with gradient/%s/%s%s" % (nm, t[0], sfx), it.load(v), e, wh)
                ctx.equal("cost gradient/%s/%s%s" % (nm, t[0], sfx), it.load(gr), g, wh)
                v, gr, h = TempLV(var("pre:c")), out(C.N), H0("pre:H")
                ev(it, o, rec, "value_gradient_hessian", [x, v, gr, h], t)
                ctx.equal("cost, with Hessian/%s/%s%s" % (nm, t[0], sfx), it.load(v), e, wh)
                ctx.equal("cost gradient, with Hessian/%s/%s%s" % (nm, t[0], sfx), it.load(gr), g, wh)
                ctx.equal("cost Hessian/%s/%s%s" % (nm, t[0], sfx), it.load(h), H, wh)
                ctx.nodep("initialised/cost/%s/%s%s" % (nm, t[0], sfx), [it.load(v), it.load(gr), it.load(h)], stale, "stale storage", wh)
    else:
        z, xs, us, p = C.point("x")
        for ny in (1, 3):
            want = [fn("q%d" % i, *(xs[k] + us[k] + p)) for k in range(C.nodes) for i in range(ny)]
            fo = it.new_struct(record(prog, "OpaqueFunction", lambda r: r["args"] == [ny]), "F")
            y = out(C.nodes * ny)
            sel = lambda n: lambda m: "body" in m and len(m["params"]) == n and m["targs"][-1] == ny if "targs" in m else "body" in m
            for nargs in (3, 2):
                m = [q for q in (prog.functions[i] for i in rec["methods"] if i in prog.functions) if q["name"] == "generic_function" and "body" in q and len(q["params"]) == nargs]
                m = [q for q in m if any(ny_of(prog, q, prm) == ny for prm in q["params"])]
                if len(m) != 1:
                    raise AnalysisError("generic_function with %d arguments: %d instantiations for %d components" % (nargs, len(m), ny))
                r = it.call(m[0], o, [fo, x, y][:nargs])
                ctx.equal("function at the nodes/%s/%d components/%s" % (nm, ny, "in place" if nargs == 3 else "returned"), it.load(y if nargs == 3 else r), want, wh)
    ctx.no_events(it, "in-range/%s/%s" % (kind, nm))
    ctx.cover(it, "col.cpp")
    ctx.count("collocation instances")


def ny_of(prog, f, prm):
    t = prog.deref(prm["t"])
    r = prog.records.get(t.get("r")) if isinstance(t, dict) else None
    return r["args"][0] if r and r["name"] == "OpaqueFunction" else None


def run(ctx):
    prog = ir.dump("col.cpp")
    ps = problems(prog)
    items = []
    for key, kinds in sorted(ps.items()):
        if len(kinds) != 4:
            raise AnalysisError("problem %s lacks a collocation class: %s" % (key, sorted(kinds)))
        for kind in sorted(kinds):
            items.append((key, kind, False))
            if kind == "sparse_ode_collocation" and key[0] % 2 == 0:
                items.append((key, kind, True))
    ctx.pmap(one, items)
    ctx.require("collocation instances", ctx.minimum.get("collocation instances", 0), 23)
