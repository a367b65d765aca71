"""The work a solver reports is the work it has done: iterations, penalty updates, iterations of the inner solver.  Counters kept by the
analysis advance where linear systems are solved and factorised and where QPs are solved; they are related to the program's counters at an
arbitrary iteration (relations between integer variables that every iteration preserves)."""
from framework import *
import c_qp
import c_sqp


def qp(ctx, job):
    prog, vs = c_qp.variants_of(ctx)
    v = [v for v in vs if c_qp.vname(v) == job][0]
    kw = dict(history=True, ghost="total") if not v[1] else dict(reuse=True, ghost="total")
    limit = var("st.max_iter", isint=True)
    probe = c_qp.Run(ctx, prog, v, **kw)
    for warm in (True, False):
        for k in range(len(probe.exits)):
            R = c_qp.Run(ctx, prog, v, warm=warm, pick=k, **kw)
            it = R.it
            info = it.load(it.call_method(R.o, "info", [], pick=lambda m: "body" in m))
            nm = "%s/%s start, exit %d (%s)" % (job, "warm" if warm else "cold", k, R.exits[k][0])
            pc = it.pc()
            done = P(it.load(R.nsolves))
            ctx.count("exits of QP solvers")
            judge(ctx, "iterations/" + nm, pc, P(it.load(info.fields["iter"])), done, c_qp.where(R))
            # counted over the life of the solver, or from the beginning of the call
            got, want = P(it.load(info.fields["rho_updates"])), P(it.load(R.nfactors))
            if not same(pc, got, want):
                Q = c_qp.Run(ctx, prog, v, warm=warm, pick=k, **dict(kw, ghost="call"))
                qinfo = Q.it.load(Q.it.call_method(Q.o, "info", [], pick=lambda m: "body" in m))
                if same(Q.it.pc(), P(Q.it.load(qinfo.fields["rho_updates"])), P(Q.it.load(Q.nfactors))):
                    got = want
            judge(ctx, "penalty updates/" + nm, pc, got, want, c_qp.where(R))
            bounded(ctx, "iteration limit/" + nm, pc, R.linfo, R.modified, R.nsolves, done, limit, c_qp.where(R), it)


def sqp(ctx, job):
    prog, ss = c_sqp.prog_of(ctx)
    spec = ss[job]
    limit = var("st.max_iter", isint=True)
    for guess in (True, False):
        probe = c_sqp.Sqp(ctx, prog, job, spec, history=True, guess=guess, ghost=True)
        for part in [("early", j) for j in range(probe.nearly)] + [("loop", k) for k in range(len(probe.exits))]:
            S = c_sqp.Sqp(ctx, prog, job, spec, history=True, guess=guess, pick=part, ghost=True)
            it = S.it
            nm = "%s/%s guess, %s exit %d" % ((job, "with" if guess else "without") + part)
            pc = it.pc()
            done = P(it.load(S.nsolves))
            ctx.count("exits of SQP solvers")
            where = S.linfo["loc"]
            judge(ctx, "SQP iterations/" + nm, pc, P(it.load(S.info.fields["iter"])), done, where)
            judge(ctx, "QP iterations in total/" + nm, pc, P(it.load(S.info.fields["qp_solver_iter"])), P(it.load(S.nqpiter)), where)
            if part[0] == "early":
                ctx.equal("SQP iteration limit/" + nm, done, ONE, where)
            else:
                bounded(ctx, "SQP iteration limit/" + nm, pc, S.linfo, S.modified, S.nsolves, done, limit, where, it)


def same(pc, got, want):
    return got == want or implies(pc, cmp0("==", got - want)) or (implies(pc, cmp0("<=", got - want)) and implies(pc, cmp0("<=", want - got)))


def judge(ctx, key, pc, got, want, where):
    ctx.check(key, same(pc, got, want), lambda: "reported: %s\n    done: %s" % (show(got), show(want)), where)


def bounded(ctx, key, pc, info, modified, ghost, done, limit, where, it):
    """an iteration begins only while fewer than the limit have been done"""
    back = info["back"]
    if back is None:
        ctx.check(key, True)
        return
    h = P(info["head"].heap[ghost.oid])
    facts = ONE
    for r in back.rels:
        facts = facts * r
    ctx.check(key, implies(facts, cmp0("<=", h + 1 - limit)), lambda: "an iteration repeats after %s iterations under %s" % (show(h), show(facts)), where)


def run(ctx):
    prog, vs = c_qp.variants_of(ctx)
    jobs = [("qp", c_qp.vname(v)) for v in vs]
    prog, ss = c_sqp.prog_of(ctx)
    jobs += [("sqp", n) for n in ss if n.startswith("custom")]
    ctx.pmap(lambda c, j: (qp if j[0] == "qp" else sqp)(c, j[1]), jobs)
    ctx.require("exits of QP solvers", ctx.minimum.get("exits of QP solvers", 0), 32)
    ctx.require("exits of SQP solvers", ctx.minimum.get("exits of SQP solvers", 0), 12)
