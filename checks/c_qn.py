"""Quasi-Newton Hessian updates: damped BFGS and safeguarded SR1."""
from framework import *


def fns(prog, name):
    fs = [f for f in prog.functions.values() if f["name"] == name and "body" in f]
    if not fs:
        raise AnalysisError("%s not found" % name)
    return fs


def dims(it, prog, f):
    return None


def updates(ctx):
    prog = ir.dump("sqp.cpp")
    drv = [f for f in prog.functions.values() if f["name"] == "use_updates"][0]
    n = 0
    for name, ref in (("BFGS_update", bfgs), ("SR1_update", sr1)):
        for f in fns(prog, name):
            for k in (1, 2):
                it = machine(prog)
                B0, s, y = V("B", k, k) if k > 1 else MatV(1, 1, [var("B")]), V("s", k), V("y", k)
                sym = {"B[1,0]": var("B[0,1]")}
                B0 = MatV(k, k, [subst(x, sym) for x in B0.d])
                B = TempLV(B0)
                if not fits(prog, f, k):
                    continue
                n += 1
                sl, yl = TempLV(s), TempLV(y)
                it.call(f, None, [B, sl, yl])
                ctx.cover(it, "sqp.cpp")
                ref(ctx, "%s/%d variables" % (name, k), it.load(B), B0, list(s.d), list(y.d), k, f["loc"])
                ctx.equal("inputs-unmodified/%s/%d/step" % (name, k), it.load(sl), s)
                ctx.equal("inputs-unmodified/%s/%d/gradient" % (name, k), it.load(yl), y)
                ctx.no_events(it, "well-formed/%s/%d" % (name, k))
    ctx.require("update instantiations", n, 4)
    import c_ocp
    c_ocp.updates(ctx)


def fits(prog, f, k):
    """the instantiation is for k x k matrices"""
    import json
    t = prog.deref(f["params"][0]["t"])
    txt = prog.records[t["r"]]["full"] if "r" in t else str(t)
    return "double, %d, %d" % (k, k) in txt


def bfgs(ctx, key, B, B0, s, y, n, where):
    Bs = [sum((P(B0.at(i, j)) * s[j] for j in range(n)), ZERO) for i in range(n)]
    sBs = sum((s[i] * Bs[i] for i in range(n)), ZERO)
    sy = sum((s[i] * y[i] for i in range(n)), ZERO)
    damp = cmp0("<", sy - sBs * const(Fraction(1, 5)))
    th = const(Fraction(4, 5)) * sBs * inv(sBs - sy)
    rd = [th * y[i] + (ONE - th) * Bs[i] for i in range(n)]
    srd = th * sy + (ONE - th) * sBs

    def upd(r, sr):
        skip = cmp0("<", sr - EPSC)
        return [ite(skip, P(B0.at(i, j)), P(B0.at(i, j)) - Bs[i] * Bs[j] * inv(sBs) + r[i] * r[j] * inv(sr)) for j in range(n) for i in range(n)]
    want = [ite(damp, x, z) for x, z in zip(upd(rd, srd), upd(y, sy))]
    for k in range(n * n):
        ctx.equal("formula/%s/%d" % (key, k), B.d[k], want[k], where)
    for i in range(n):
        for j in range(i):
            ctx.equal("symmetric/%s/%d,%d" % (key, i, j), B.at(i, j), B.at(j, i), where)


EPSC = var("DBL_epsilon")


def sr1(ctx, key, B, B0, s, y, n, where):
    v = [y[i] - sum((P(B0.at(i, j)) * s[j] for j in range(n)), ZERO) for i in range(n)]
    vs = sum((v[i] * s[i] for i in range(n)), ZERO)
    nv, ns = sqrt(sum((a * a for a in v), ZERO)), sqrt(sum((a * a for a in s), ZERO))
    d = absv(vs) - const(Fraction(1, 10 ** 6)) * ns * nv
    apply_ = cmp0(">", d)
    weak = cmp0(">=", d)
    want = [ite(apply_, P(B0.at(i, j)) + v[i] * v[j] * inv(vs), P(B0.at(i, j))) for j in range(n) for i in range(n)]
    ww = [ite(weak, P(B0.at(i, j)) + v[i] * v[j] * inv(vs), P(B0.at(i, j))) for j in range(n) for i in range(n)]
    for k in range(n * n):
        if P(B.d[k]) == ww[k]:
            ctx.check("safeguard/%s/%d" % (key, k), False, "the update is applied when v's = 0 = |s||v| (for instance when the Hessian is already exact), and divides by zero", where)
        else:
            ctx.equal("formula/%s/%d" % (key, k), B.d[k], want[k], where)
