"""Polynomial bases, projections, splines and coefficient arithmetic."""
from framework import *
from fractions import Fraction
import math
import numeric as N

PIP = N.PI


def pmachine(prog):
    it = machine(prog)
    it.numeric = N
    return it


def nums(it, x):
    return [P(v) for v in flat(it, x)]


def same(ctx, key, got, want, where=""):
    """equal up to the folding accuracy, entry by entry"""
    got, want = list(got), list(want)
    if len(got) != len(want):
        return ctx.check(key, False, "has %d entries, expected %d" % (len(got), len(want)), where)
    bad = [k for k in range(len(got)) if not (N.near(got[k], want[k]) or decide.equal(got[k], want[k]))]
    return ctx.check(key, not bad, lambda: "entry %d is\n      %s\n    expected\n      %s" % (bad[0], brief(got[bad[0]]), brief(want[bad[0]])), where)


def brief(p):
    p = P(p)
    return pstr(Poly({k: (v if N.small(v) else Fraction(repr(float(v)))) for k, v in p.m.items()}), 400)


def static(it, rec, name):
    """value of a static member function without parameters"""
    fs = [it.prog.functions[m] for m in rec["methods"] if it.prog.functions.get(m, {}).get("name") == name and not it.prog.functions[m]["params"]]
    if len(fs) != 1:
        raise AnalysisError("%s: %d functions named %s" % (rec["full"], len(fs), name))
    return it.load(it.call(fs[0], None, []))


def bases(prog, name):
    out = {}
    for r in prog.records.values():
        if r["name"].split("::")[-1] == name and "fields" in r and "args" in r and isinstance(r["args"][0], int):
            out[r["args"][0]] = r
    return out


def legendre(n):
    """coefficients of the Legendre polynomials 0..n"""
    L = [[Fraction(1)], [Fraction(0), Fraction(1)]]
    for k in range(1, n):
        a = [Fraction(0)] + [Fraction(2 * k + 1, k + 1) * c for c in L[k]]
        b = [Fraction(k, k + 1) * c for c in L[k - 1]] + [Fraction(0)] * 2
        L.append([x - y for x, y in zip(a, b)])
    return L[:n + 1]


def pev(c, x):
    r = ZERO
    for a in reversed(c):
        r = N.tidy(r * x + P(a))
    return r


def moment(k):
    return const(Fraction(2, k + 1)) if k % 2 == 0 else ZERO


# ---------------------------------------------------------------- collocation schemes
def scheme(ctx, prog, rec, n, kind):
    tag = "%s%d" % (kind, n)
    it = pmachine(prog)
    o = construct(it, rec, "b")
    get = lambda m: nums(it, it.call_method(o, m, []))
    x, D, w, nf = get("CPoints"), get("D"), get("QWeights"), get("NFactors")
    m = n + 1
    # static generators agree with what the object hands out
    same(ctx, "members/%s nodes" % tag, nums(it, static(it, rec, "compute_nodes")), x)
    same(ctx, "members/%s differentiation matrix" % tag, nums(it, static(it, rec, "compute_diff_matrix")), D)
    same(ctx, "members/%s normalisation factors" % tag, nums(it, static(it, rec, "compute_norm_factors")), nf)
    same(ctx, "members/%s quadrature weights" % tag, nums(it, static(it, rec, "compute_quad_weights")), w)
    iw = nums(it, static(it, rec, "compute_int_weights"))
    if kind == "Chebyshev":
        same(ctx, "members/%s integration weights" % tag, iw, get("CCQWeights"))
        same(ctx, "nodes/%s" % tag, x, [const(N.cospi(Fraction(k, n))) for k in range(m)])
        exact = n
        same(ctx, "weights/%s" % tag, w, [PIP * const(Fraction(1, n if 0 < k < n else 2 * n)) for k in range(m)])
        same(ctx, "factors/%s" % tag, [f * PIP for f in nf], [const(1 if k in (0, n) else 2) for k in range(m)])
    else:
        L = legendre(n)
        dL = [k * L[n][k] for k in range(1, n + 1)]
        inner = N.roots(dL)
        same(ctx, "nodes/%s" % tag, x, [const(-1)] + [const(r) for r in inner] + [ONE])
        exact = 2 * n - 1
        same(ctx, "members/%s integration weights" % tag, iw, w)
        same(ctx, "factors/%s" % tag, nf, [const(Fraction(2 * k + 1, 2)) if k < n else const(Fraction(n, 2)) for k in range(m)])
        B = nums(it, static(it, rec, "compute_basis"))
        same(ctx, "basis/%s" % tag, B, [const(L[j][i]) if i < len(L[j]) else ZERO for j in range(m) for i in range(m)])
    # the differentiation matrix differentiates every polynomial of the scheme's degree at the nodes
    pw = [[ONE] for _ in range(m)]
    for i in range(m):
        for k in range(max(n, exact)):
            pw[i].append(N.tidy(pw[i][-1] * x[i]))
    for k in range(m):
        got = [N.tidy(sum((D[i + j * m] * pw[j][k] for j in range(m)), ZERO)) for i in range(m)]
        same(ctx, "differentiation/%s degree %d" % (tag, k), got, [const(k) * pw[i][k - 1] if k else ZERO for i in range(m)])
    # the integration weights integrate every polynomial up to the exactness degree
    for k in range(exact + 1):
        same(ctx, "integration/%s degree %d" % (tag, k), [sum((iw[i] * pw[i][k] for i in range(m)), ZERO)], [moment(k)])
    # evaluation of the basis polynomials inside the interval
    X = var("x")
    for k in range(m):
        got = it.call_method(o, "eval", [TempLV(X), TempLV(k)], nparams=2)
        want = N.cheb(k, X) if kind == "Chebyshev" else pev([const(c) for c in legendre(max(n, 1))[k]], X)
        same(ctx, "evaluation/%s degree %d" % (tag, k), nums(it, got), [want])
    if kind == "Chebyshev":
        same(ctx, "evaluation/%s highest" % tag, nums(it, it.call_method(o, "eval", [TempLV(X)], nparams=1)), [N.cheb(n, X)])
    got = it.call_method(o, "weight", [TempLV(X)], nparams=1)
    same(ctx, "density/%s" % tag, nums(it, got), [ONE / sqrt(ONE - X * X) if kind == "Chebyshev" else ONE])
    # the composite scheme forwards to the scheme of its segments
    for r in prog.records.values():
        if r["name"] == "polympc::Spline" and "fields" in r and prog.rec_of(r["args"][0]["t"])["id"] == rec["id"]:
            for fnm, want in (("compute_nodes", x), ("compute_diff_matrix", D), ("compute_norm_factors", nf), ("compute_quad_weights", w), ("compute_int_weights", iw)):
                same(ctx, "composite/%s %s" % (tag, fnm), nums(it, static(it, r, fnm)), want)
            ctx.count("composite schemes")
    # integration over an arbitrary interval [d-s, d+s]
    d, s = var("d"), var("s")
    deg = exact
    c = [var("c[%d]" % k) for k in range(deg + 1)]
    it.overrides[("Fun", "operator()")] = lambda it, f, this, a: pev(c, P(it.num(it.load(a[0]))))
    got = nums(it, it.call_method(o, "integrate", [TempLV(d - s), TempLV(d + s)], nparams=2))[0]
    want = ZERO
    for k in range(deg + 1):
        want = want + c[k] * const(Fraction(1, k + 1)) * (power(d + s, k + 1) - power(d - s, k + 1))
    same(ctx, "interval/%s" % tag, [N.tidy(got)], [want])
    ctx.no_events(it, "access/%s" % tag)
    ctx.cover(it, "%s<%d>" % (kind, n))
    ctx.count("collocation schemes")


def cheb(ctx):
    prog = ir.dump("poly.cpp")
    b = bases(prog, "Chebyshev")
    ctx.pmap(lambda c, n: scheme(c, prog, b[n], n, "Chebyshev"), sorted(b))
    ctx.require("collocation schemes", ctx.minimum.get("collocation schemes", 0), 8)
    ctx.require("composite schemes", ctx.minimum.get("composite schemes", 0), 2)


def leg(ctx):
    prog = ir.dump("poly.cpp")
    b = bases(prog, "Legendre")
    ctx.pmap(lambda c, n: scheme(c, prog, b[n], n, "Legendre"), sorted(b))
    ctx.require("collocation schemes", ctx.minimum.get("collocation schemes", 0), 7)
    ctx.require("composite schemes", ctx.minimum.get("composite schemes", 0), 1)


# ---------------------------------------------------------------- projections
def projection_of(ctx, prog, rec, kind, n):
    tag = "%s%d" % (kind, n)
    d, s = var("d"), var("s")
    m = n + 1
    cheb_ = kind == "Chebyshev"
    L = legendre(max(n, 1))
    base = lambda k, X: N.cheb(k, X) if cheb_ else pev([const(c) for c in L[k]], X)
    c = [var("c[%d]" % k) for k in range(m)]
    # an arbitrary polynomial of the basis' degree, written in the basis on the interval
    for how in ("default interval", "given interval", "projected again"):
        it = pmachine(prog)
        lo, hi = (-ONE, ONE) if how == "default interval" else (d - s, d + s)
        mid, half = (ZERO, ONE) if how == "default interval" else (d, s)

        def f(it, g, this, a):
            X = N.tidy((P(it.num(it.load(a[0]))) - mid) / half)
            return N.tidy(sum((c[k] * base(k, X) for k in range(m)), ZERO))
        it.overrides[("Fun", "operator()")] = f
        fun = it.new_struct(record(prog, "Fun"), "f")
        ctors = [g for g in (it.prog.functions.get(q) for q in rec["methods"]) if g and g.get("ctor") and not g.get("copyctor") and len(g["params"]) == 3]
        if len(ctors) != 1:
            raise AnalysisError("%d constructors of %s" % (len(ctors), rec["full"]))
        o = it.new_struct(rec, "p")
        args = [fun, TempLV(lo), TempLV(hi)]
        if how == "projected again":
            args = [fun, TempLV(var("a0")), TempLV(var("b0"))]
            it.overrides[("Fun", "operator()")] = lambda it, g, this, a: var("other")
        it.construct_into(o, ctors[0], args, None)
        if how == "projected again":
            it.overrides[("Fun", "operator()")] = f
            it.call_method(o, "project", [fun, TempLV(lo), TempLV(hi)], nparams=3)
        same(ctx, "coefficients/%s %s" % (tag, how), nums(it, o.fields["coeff"]), c)
        X = var("x")
        got = nums(it, it.call_method(o, "eval", [TempLV(X)], nparams=1))
        want = N.tidy(sum((c[k] * base(k, (X - mid) / half) for k in range(m)), ZERO))
        same(ctx, "value/%s %s" % (tag, how), got, [want])
        ctx.no_events(it, "access/%s %s" % (tag, how))
        ctx.cover(it, "Projection<%s<%d>>" % (kind, n))
        ctx.count("projections")


def projection(ctx):
    prog = ir.dump("poly.cpp")
    out = {}
    for r in prog.records.values():
        if r["name"].split("::")[-1] == "Projection" and "fields" in r:
            b = prog.rec_of(r["args"][0]["t"])
            out[b["name"].split("::")[-1], b["args"][0]] = r
    ctx.pmap(lambda c, k: projection_of(c, prog, out[k], *k), sorted(out))
    ctx.require("projections", ctx.minimum.get("projections", 0), 36)


# ---------------------------------------------------------------- coefficient arithmetic
def coefficients(ctx):
    prog = ir.dump("poly.cpp")
    fs = {}
    for g in prog.functions.values():
        if g["name"] == "use_coef":
            r = prog.rec_of(g["params"][0]["t"])
            fs[r["args"][1]] = g
    ctx.require("coefficient vector sizes", len(fs), 5)
    ctx.pmap(lambda c, n: coef(c, prog, n), sorted(fs))
    ctx.require("products", ctx.minimum.get("products", 0), 100)
    ctx.require("derivatives", ctx.minimum.get("derivatives", 0), 5)


def coef(ctx, prog, n):
    use = [g for g in prog.functions.values() if g["name"] == "use_coef" and prog.rec_of(g["params"][0]["t"])["args"][1] == n][0]

    def target(name):
        """the instantiation of the library function called by the driver"""
        out = [f for f in prog.functions.values() if f["name"] == name and n in _sizes(prog, f)]
        if len(out) != 1:
            raise AnalysisError("%d instantiations of %s for size %d" % (len(out), name, n))
        return out[0]
    mul, der = target("poly_mul"), target("poly_diff")
    it = pmachine(prog)
    a = V("a", n)
    it.overrides = {}
    same(ctx, "derivative/size %d" % n, nums(it, it.call(der, None, [TempLV(a)])), [const(k + 1) * a.d[k + 1] if k + 1 < n else ZERO for k in range(n)])
    ctx.count("derivatives")
    ctx.no_events(it, "access/derivative size %d" % n)
    ctx.cover(it, "poly_diff<%d>" % n)
    pats = [tuple((k >> i) & 1 for i in range(n)) for k in range(2 ** n)]
    if n > 4:
        pats = [tuple(1 if i in (j, k) or i < j else 0 for i in range(n)) for j in range(n) for k in (j, n - 1)] + [tuple(0 for _ in range(n))]
        pats = sorted(set(pats))
    for sg in ((1, 1), (1, -1), (-1, 1), (-1, -1)) if n <= 3 else ((1, -1),):
        for pa in pats:
            for pb in pats:
                it = pmachine(prog)
                it.ranges = {}
                va, vb = [], []
                for k in range(n):
                    for nm, pt, lst, s in (("a", pa, va, sg[0]), ("b", pb, vb, sg[1])):
                        it.ranges["%s[%d]" % (nm, k)] = (Fraction(1, 2 ** 20), Fraction(2 ** 20)) if s > 0 else (Fraction(-2 ** 20), Fraction(-1, 2 ** 20))
                        lst.append(var("%s[%d]" % (nm, k)) if pt[k] else ZERO)
                got = nums(it, it.call(mul, None, [TempLV(MatV(n, 1, va)), TempLV(MatV(n, 1, vb))]))
                want = [sum((va[i] * vb[k - i] for i in range(k + 1)), ZERO) for k in range(n)]
                key = "%s*%s size %d signs %+d%+d" % ("".join(map(str, pa)), "".join(map(str, pb)), n, *sg)
                same(ctx, "product/" + key, got, want)
                ctx.no_events(it, "access/" + key)
                ctx.count("products")
                ctx.cover(it, "poly_mul<%d>" % n)


def _sizes(prog, f):
    """compile-time sizes of the plain vectors a function template was instantiated with; () for expressions"""
    out = []
    for p in f["params"]:
        r = prog.rec_of(p["t"])
        r = prog.rec_of(r["args"][0]["t"]) if r is not None and r.get("args") and isinstance(r["args"][0], dict) else None
        if r is None or r["name"] != "Eigen::Matrix":
            return ()
        out.append(r["args"][1])
    return out


# ---------------------------------------------------------------- splines
SPL = ((1, 1), (2, 1), (3, 2), (5, 4))        # number of segments, highest segment probed beyond the last


def cubic(ctx):
    """the value for EVERY argument of a segment: x = (k + t) * length with 0 <= t < 1, unknown length and coefficients"""
    prog = ir.dump("poly.cpp")
    rec = record(prog, "polympc::EquidistantCubicSpline")
    n = 0
    for segs, beyond in SPL:
        for k in range(-2, segs + beyond + 1):
            for kind in ("value", "first derivative", "second derivative"):
                it = pmachine(prog)
                it.ranges = {"t": (Fraction(0), 1 - Fraction(1, 2 ** 60))}
                C, Ln, t = V("c", 4, segs), var("len"), var("t")
                if segs == 1:
                    C = MatV(4, 1, [var("c[%d,0]" % i) for i in range(4)])
                o = construct(it, rec, "s", [TempLV(C), TempLV(Ln)])
                X = (const(k) + t) * Ln
                c = [var("c[%d,%d]" % (i, min(max(k, 0), segs - 1))) for i in range(4)]
                p0 = c[0] + X * (c[1] + X * (c[2] + X * c[3]))
                p1 = c[1] + X * (const(2) * c[2] + const(3) * X * c[3])
                p2 = const(2) * c[2] + const(6) * X * c[3]
                d = [var("d[%d]" % i) for i in range(2)]
                if kind == "value":
                    arg, want = X, p0
                    pick = lambda f: prog.rec_of(f["params"][0]["t"]) is None
                elif kind == "first derivative":
                    arg, want = ADVal(X, d), ADVal(p0, [p1 * q for q in d])
                    pick = lambda f: _addepth(prog, f["params"][0]["t"]) == 1
                else:
                    # x depends on two unknowns; x + sum d_i e_i + second-order terms h
                    h = [[var("h[%d,%d]" % (min(i, j), max(i, j))) for j in range(2)] for i in range(2)]
                    arg = ADVal(ADVal(X, d), [ADVal(d[i], h[i]) for i in range(2)])
                    want = ADVal(ADVal(p0, [p1 * q for q in d]), [ADVal(p1 * d[i], [p2 * d[i] * d[j] + p1 * h[i][j] for j in range(2)]) for i in range(2)])
                    pick = lambda f: _addepth(prog, f["params"][0]["t"]) == 2
                got = it.load(it.call_method(o, "eval", [TempLV(arg)], nparams=1, pick=pick))
                key = "%s/%d segments, argument in segment %d" % (kind, segs, k)
                a, b = _leaves(got), _leaves(want)
                same(ctx, key, a, b)
                ctx.no_events(it, "access/%s %d segments, argument in segment %d" % (kind, segs, k))
                ctx.cover(it, "EquidistantCubicSpline<double>")
                n += 1
    # accessors hand out the stored coefficients and length, and writing through them takes effect
    it = pmachine(prog)
    it.ranges = {"t": (Fraction(0), 1 - Fraction(1, 2 ** 60))}
    o = construct(it, rec, "s", [TempLV(V("c", 4, 2)), TempLV(var("len"))])
    same(ctx, "accessors/coefficients", nums(it, it.call_method(o, "coefficients", [])), V("c", 4, 2).d)
    same(ctx, "accessors/length", nums(it, it.call_method(o, "segment_length", [])), [var("len")])
    nonconst = lambda f: not f.get("const")
    it.store(it.call_method(o, "coefficients", [], pick=nonconst), V("e", 4, 3))
    it.store(it.call_method(o, "segment_length", [], pick=nonconst), var("l2"))
    X = (const(2) + var("t")) * var("l2")
    e = [var("e[%d,2]" % i) for i in range(4)]
    got = it.call_method(o, "eval", [TempLV(X)], nparams=1, pick=lambda f: prog.rec_of(f["params"][0]["t"]) is None)
    same(ctx, "accessors/value after replacing the coefficients", nums(it, got), [e[0] + X * (e[1] + X * (e[2] + X * e[3]))])
    ctx.cover(it, "EquidistantCubicSpline<double>")
    ctx.count("spline evaluations", n)
    ctx.require("spline evaluations", n, 60)


def _leaves(v):
    return [y for x in [v] for y in (_leaves(x.v) + [z for q in x.d for z in _leaves(q)] if isinstance(x, ADVal) else [P(x)])]


def _addepth(prog, t):
    r, n = prog.rec_of(t), 0
    while r is not None and "AutoDiffScalar" in r["name"]:
        n += 1
        r = prog.rec_of(prog.rec_of(r["args"][0]["t"])["args"][0]["t"])
    return n


def lagrange(ctx):
    prog = ir.dump("poly.cpp")
    sizes = {}
    for g in prog.functions.values():
        if g["name"] == "use_lagrange":
            r = prog.rec_of(g["params"][3]["t"])
            sizes[r["args"][2]] = r["args"][1]
    ctx.pmap(lambda c, n: lagrange_n(c, prog, n, sizes[n]), sorted(sizes))
    ctx.require("interpolants", ctx.minimum.get("interpolants", 0), 4)


def lagrange_n(ctx, prog, n, R):
    def target(name, want):
        out = [f for f in prog.functions.values() if f["name"] == name and "LagrangeSpline" in f["q"] and want(f)]
        if len(out) != 1:
            raise AnalysisError("%d instantiations of %s for %d nodes" % (len(out), name, n))
        return out[0]
    it = pmachine(prog)
    nodes = V("n", n)
    basis = TempLV(MatV(n, n, [var("pre[%d]" % k) for k in range(n * n)]))
    it.call(target("compute_lagrange_basis", lambda f: _sizes(prog, f)[:1] == [n]), None, [TempLV(nodes), basis])
    B = it.load(basis)
    ctx.check("shape/%d nodes" % n, (B.r, B.c) == (n, n), "basis is %dx%d" % (B.r, B.c))
    for i in range(n):
        for j in range(n):
            val = ZERO
            for k in reversed(range(n)):
                val = val * nodes.d[j] + P(B.at(i, k))
            ctx.check("cardinal/%d nodes, polynomial %d at node %d" % (n, i, j), decide.equal(val, ONE if i == j else ZERO), lambda: "value is %s" % brief(val))
    ctx.no_events(it, "access/basis %d nodes" % n)
    ctx.cover(it, "compute_lagrange_basis<%d>" % n)
    it = pmachine(prog)
    Y, B, X = V("y", R, n), V("b", n, n), var("x")
    if R == 1:
        Y = MatV(1, n, [var("y[0,%d]" % k) for k in range(n)])
    got = it.call(target("eval", lambda f: _bsize(prog, f) == n), None, [TempLV(X), TempLV(Y), TempLV(B)])
    want = [sum((Y.at(r, k) * sum((B.at(k, q) * power(X, q) for q in range(n)), ZERO) for k in range(n)), ZERO) for r in range(R)]
    same(ctx, "interpolant/%d nodes, %d components" % (n, R), nums(it, got), want)
    ctx.no_events(it, "access/interpolant %d nodes" % n)
    ctx.cover(it, "LagrangeSpline::eval<%d>" % n)
    ctx.count("interpolants")


def _bsize(prog, f):
    r = prog.rec_of(f["params"][2]["t"])
    return prog.rec_of(r["args"][0]["t"])["args"][1]
