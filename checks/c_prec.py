"""Preconditioners: the scaled problem is equivalent to the original one and unscaling undoes the scaling."""
import re
from framework import *

N, M = 2, 3
PAT = {"full": None, "partial": {(0, 0), (1, 1)}}
PATA = {"full": None, "partial": {(0, 0), (2, 1), (1, 0)}}


class Data:
    def __init__(self, sparse, pat="full", compressed=True, tag=""):
        self.sparse = sparse
        H, A = V("H", N, N), V("A", M, N)
        if sparse:
            H, A = SPM("H", N, N, PAT[pat], compressed, 1), SPM("A", M, N, PATA[pat], compressed, 1)
        self.v = [H, V("h", N), A, V("Al", M), V("Au", M), V("l", N), V("u", N)]
        self.a = [TempLV(x) for x in self.v]
        self.names = ["H", "h", "A", "lower constraint bounds", "upper constraint bounds", "lower variable bounds", "upper variable bounds"]

    def scaled(self, D, E, c, inverse=False):
        f = (lambda x: inv(x)) if inverse else (lambda x: x)
        d, e, s = [f(P(x)) for x in D], [f(P(x)) for x in E], f(P(c))
        dd = lambda m: (m.dense() if isinstance(m, SpV) else m)
        H, h, A, Al, Au, l, u = [dd(x) for x in self.v]
        return [MatV(N, N, [s * d[i] * P(H.at(i, j)) * d[j] for j in range(N) for i in range(N)]),
                MatV(N, 1, [s * d[i] * P(h.d[i]) for i in range(N)]),
                MatV(M, N, [e[i] * P(A.at(i, j)) * d[j] for j in range(N) for i in range(M)]),
                MatV(M, 1, [e[i] * P(Al.d[i]) for i in range(M)]),
                MatV(M, 1, [e[i] * P(Au.d[i]) for i in range(M)]),
                MatV(N, 1, [inv(d[i]) * P(l.d[i]) for i in range(N)]),
                MatV(N, 1, [inv(d[i]) * P(u.d[i]) for i in range(N)])]

    def template(self, k, D, E, c, v):
        """scaled value of argument k in the storage of v"""
        w = self.scaled(D, E, c)[k]
        if not isinstance(v, SpV):
            return w
        vals = list(v.vals)
        for i, j, pos in entries(v):
            vals[pos] = w.at(i, j)
        return SpV(v.r, v.c, v.outer, v.nnz, v.inner, vals)


def entries(m):
    out = []
    for j in range(m.c):
        n = m.outer[j + 1] - m.outer[j] if m.nnz is None else m.nnz[j]
        for p in range(m.outer[j], m.outer[j] + n):
            out.append((m.inner[p], j, p))
    return out


def positive(e, facts=()):
    """e > 0 follows (for every value of the indicators) from positive factors"""
    return decide.positive(P(e))


def ruiz(ctx):
    prog = ir.dump("prec.cpp")
    for sparse in (False, True):
        rec = record(prog, "polympc::RuizEquilibration", lambda r: r["args"][3] == (1 if sparse else 0) and r["args"][1] == N and r["args"][2] == M)
        for pat in (("full", "partial") if sparse else ("full",)):
            for comp in ((True, False) if sparse else (True,)):
                one(ctx, prog, rec, sparse, pat, comp)
    identity(ctx, prog)
    one_row(ctx, prog)
    ctx.require("preconditioner storage variants", 5, 5)


def start(prog, rec, sparse):
    it = machine(prog)
    cnt = [0]

    def maxx(it, f, this, args):
        cnt[0] += 1
        return it.fresh("column_norm")
    it.overrides[(rec["name"].split("::")[-1], "maxxCoeff")] = maxx
    return it, construct(it, rec, "R")


def scaling(it, o):
    return it.load(o.fields["D"]), it.load(o.fields["E"]), it.load(it.call_method(o, "c", [], pick=lambda m: "body" in m))


def one(ctx, prog, rec, sparse, pat, comp):
    kind = "%s%s" % ("sparse %s %s" % (pat, "compressed" if comp else "uncompressed") if sparse else "dense", "")
    for meth in ("compute", "update"):
        loop_of(ctx, prog, rec, sparse, pat, comp, kind, meth)
    # ---- apply and undo a given scaling
    for meth in ("scale", "unscale"):
        it, o = start(prog, rec, sparse)
        symbolise(it, o, "R")
        D, E, c = scaling(it, o)
        p = Data(sparse, pat, comp)
        it.call_method(o, meth, p.a)
        for k, w in enumerate(p.scaled(D.d, E.d, c, meth == "unscale")):
            ctx.equal("%s-problem/%s/%s" % (meth, kind, p.names[k]), it.load(p.a[k]), w, "qp_preconditioners.hpp %s" % meth)
        for a, b, n in zip(scaling(it, o), (D, E, c), ("D", "E", "c")):
            ctx.equal("scaling-unmodified/%s/%s/%s" % (kind, meth, n), a, b)
        # solution vectors
        x, y = TempLV(V("x", N)), TempLV(V("y", N + M))
        it.call_method(o, meth, [x, y])
        f = (lambda q: q) if meth == "unscale" else inv
        ctx.equal("%s-solution/%s/primal" % (meth, kind), it.load(x), [f(P(D.d[i])) * var("x[%d]" % i) for i in range(N)], "qp_preconditioners.hpp %s(x, y)" % meth)
        ci = inv(P(c)) if meth == "unscale" else P(c)
        ctx.equal("%s-solution/%s/constraint multipliers" % (meth, kind), list(it.load(y).d)[:M], [ci * f(P(E.d[i])) * var("y[%d]" % i) for i in range(M)], "qp_preconditioners.hpp %s(x, y)" % meth)
        ctx.equal("%s-solution/%s/bound multipliers" % (meth, kind), list(it.load(y).d)[M:], [ci * inv(f(P(D.d[i]))) * var("y[%d]" % (M + i)) for i in range(N)], "qp_preconditioners.hpp %s(x, y)" % meth)
        ctx.no_events(it, "well-formed/%s/%s" % (kind, meth))
        ctx.cover(it, "prec.cpp")
    it, o = start(prog, rec, sparse)
    symbolise(it, o, "R")
    D, E, c = scaling(it, o)
    p = Data(sparse, pat, comp)
    it.call_method(o, "unscale_hessian", p.a[:1])
    ctx.equal("unscale-problem/%s/hessian only" % kind, it.load(p.a[0]), p.scaled(D.d, E.d, c, True)[0], "qp_preconditioners.hpp unscale_hessian")

def loop_of(ctx, prog, rec, sparse, pat, comp, kind, meth):
    """the equilibration loop, after any use of the object: an arbitrary iteration keeps the data equal to the scaled original"""
    it, o = start(prog, rec, sparse)
    symbolise(it, o, "R")
    D0, E0 = o.fields["D"], o.fields["E"]
    cc = it.call_method(o, "c", [], pick=lambda m: "body" in m)
    p = Data(sparse, pat, comp)
    d, e, c = V("d", N), V("e", M), var("c_k")
    info = {}

    def on_loop(I, phase, li, modified):
        if phase == "head":
            if D0.oid not in modified:
                return
            info["l"] = li
            info["n"] = info.get("n", 0) + 1
            for oid, t in [(D0.oid, d), (E0.oid, e), (cc.oid, c)] + [(p.a[k].oid, p.template(k, d.d, e.d, c, li["entry"].heap[p.a[k].oid])) for k in range(3)]:
                modified[oid] = t
                I.S.heap[oid] = t
    it.hooks["loop"] = on_loop
    it.peel = True
    pos = ["d[", "e[", "c_k"]
    for x in scaling(it, o):
        pos += [leaf for q in (x.d if isinstance(x, MatV) else [x]) for leaf in support_names(P(q))]
    it.call_method(o, meth, p.a)
    it.hooks.pop("loop")
    kind = "%s/%s" % (meth, kind)
    where = "qp_preconditioners.hpp %s" % kind
    if "l" not in info:
        raise AnalysisError("equilibration loop not found")
    en, back = info["l"]["entry"], info["l"]["back"]
    get = lambda S, x: S.heap[x.oid]
    for nm, S in (("entry", en), ("iteration", back)):
        De, Ee, ce = get(S, D0), get(S, E0), get(S, cc)
        w = p.scaled(De.d, Ee.d, ce)
        for k in range(3):
            ctx.equal("equivalent/%s/%s/%s" % (kind, nm, p.names[k]), get(S, p.a[k]), w[k], info["l"]["loc"])
        for x, nn in ((De.d, "D"), (Ee.d, "E"), ([ce], "c")):
            for i, q in enumerate(x):
                ctx.check("positive/%s/%s/%s%d" % (kind, nm, nn, i), decide.positive(P(q), pos=pos), lambda: "the scaling factor %s need not be positive and finite" % show(P(q)), info["l"]["loc"])
    Df, Ef, cf = scaling(it, o)
    for k, w in enumerate(p.scaled(Df.d, Ef.d, cf)):
        ctx.equal("equivalent/%s/result/%s" % (kind, p.names[k]), it.load(p.a[k]), w, where)
    ctx.cover(it, "prec.cpp")


def identity(ctx, prog):
    rec = record(prog, "polympc::IdentityPreconditioner")
    for meth in ("compute", "scale", "unscale", "update"):
        it = machine(prog)
        o = construct(it, rec, "I")
        p = Data(False)
        it.call_method(o, meth, p.a)
        for k in range(7):
            ctx.equal("identity/%s/%s" % (meth, p.names[k]), it.load(p.a[k]), p.v[k])
        if meth in ("scale", "unscale"):
            x, y = TempLV(V("x", N)), TempLV(V("y", N + M))
            it.call_method(o, meth, [x, y])
            ctx.equal("identity/%s/primal" % meth, it.load(x), V("x", N))
            ctx.equal("identity/%s/dual" % meth, it.load(y), V("y", N + M))
        ctx.cover(it, "prec.cpp")


def one_row(ctx, prog):
    """Eigen evaluates diagonal * (one-row sparse matrix) as a row vector; multiplying that product by
    another diagonal drops every column but the first.  No such product type may be instantiated."""
    import json
    n, bad = 0, []
    dim = re.compile(r"Eigen::Matrix<double, (\d+), 1")
    for rid, r in prog.records.items():
        t = r["full"]
        if not (t.startswith("Eigen::Product<") and "Eigen::SparseMatrix" in t and "DiagonalWrapper" in t):
            continue
        n += 1
        if t.startswith("Eigen::Product<Eigen::Product<Eigen::DiagonalWrapper<"):
            ds = [int(x) for x in dim.findall(t.split("SparseMatrix")[0])], [int(x) for x in dim.findall(t.split("SparseMatrix", 1)[1])]
            if ds[0] and ds[1] and ds[0][0] == 1 and ds[1][0] != 1:
                bad.append((rid, t))
    ctx.require("diagonal times sparse product types", n, 4)
    users = []
    for rid, t in bad:
        tids = [i for i, t in enumerate(prog.types) if t and t.get("r") == rid]
        users += [f["q"] + " at " + f["loc"] for f in prog.functions.values() if f.get("mine") and "body" in f and any(('"t": %d,' % t) in json.dumps(f["body"]) or ('"t": %d}' % t) in json.dumps(f["body"]) for t in tids)]
    ctx.check("one-row-product/sparse", not bad, lambda: "a product diagonal * one-row sparse matrix is multiplied by another diagonal: %s (%s)" % ("; ".join(t[:160] for _, t in bad), "; ".join(sorted(set(users))[:4])), "qp_preconditioners.hpp")
