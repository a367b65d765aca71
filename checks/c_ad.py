"""Automatic differentiation scalar: values and derivatives follow the rules of calculus, for every operation and nested once."""
from framework import *
from fractions import Fraction
import terms as T

H = const(Fraction(1, 2))


class Alg:
    """arithmetic of the scalars below the analysed level"""

    def __init__(self, it):
        self.it = it
        self.eg = it.eg

    def op(self, o, a, b):
        return self.eg.sarith(o, a, b)

    def f(self, name, *a):
        return self.eg.mathfn(name, list(a))


def rules(A):
    """operation -> (value, partial derivative by the first, by the second AD operand) as functions of the operands; None: no operand"""
    o, f = A.op, A.f
    one, two = ONE, const(2)
    neg = lambda x: o("-", ZERO, x)
    sq = lambda x: o("*", x, x)
    r = {}

    def two_(names, v, da, db):
        for n in names:
            r[n] = (v, da, db)
    # both operands differentiated
    two_(("add", "iadd"), lambda a, b: o("+", a, b), lambda a, b: one, lambda a, b: one)
    two_(("sub", "isub"), lambda a, b: o("-", a, b), lambda a, b: one, lambda a, b: neg(one))
    two_(("mul", "imul"), lambda a, b: o("*", a, b), lambda a, b: b, lambda a, b: a)
    two_(("div", "idiv"), lambda a, b: o("/", a, b), lambda a, b: o("/", one, b), lambda a, b: neg(o("/", a, sq(b))))
    # one operand constant
    two_(("addc", "cadd", "iaddc"), lambda a, s: o("+", a, s), lambda a, s: one, None)
    two_(("subc", "isubc"), lambda a, s: o("-", a, s), lambda a, s: one, None)
    two_(("csub",), lambda a, s: o("-", s, a), lambda a, s: neg(one), None)
    two_(("mulc", "cmul", "imulc"), lambda a, s: o("*", a, s), lambda a, s: s, None)
    two_(("divc", "idivc"), lambda a, s: o("/", a, s), lambda a, s: o("/", one, s), None)
    two_(("cdiv",), lambda a, s: o("/", s, a), lambda a, s: neg(o("/", s, sq(a))), None)
    # functions of one operand
    two_(("neg",), lambda a: neg(a), lambda a: neg(one), None)
    two_(("abs2_",), lambda a: sq(a), lambda a: o("*", two, a), None)
    two_(("sqrt_",), lambda a: f("sqrt", a), lambda a: o("/", H, f("sqrt", a)), None)
    two_(("cos_",), lambda a: f("cos", a), lambda a: neg(f("sin", a)), None)
    two_(("sin_",), lambda a: f("sin", a), lambda a: f("cos", a), None)
    two_(("tan_",), lambda a: f("tan", a), lambda a: o("/", one, sq(f("cos", a))), None)
    two_(("asin_",), lambda a: f("asin", a), lambda a: o("/", one, f("sqrt", o("-", one, sq(a)))), None)
    two_(("acos_",), lambda a: f("acos", a), lambda a: neg(o("/", one, f("sqrt", o("-", one, sq(a))))), None)
    two_(("exp_",), lambda a: f("exp", a), lambda a: f("exp", a), None)
    two_(("log_",), lambda a: f("log", a), lambda a: o("/", one, a), None)
    two_(("tanh_",), lambda a: f("tanh", a), lambda a: o("/", one, sq(f("cosh", a))), None)
    two_(("sinh_",), lambda a: f("sinh", a), lambda a: f("cosh", a), None)
    two_(("cosh_",), lambda a: f("cosh", a), lambda a: f("sinh", a), None)
    two_(("conj_", "real_", "copy", "assign"), lambda a: a, lambda a: one, None)
    two_(("pow_",), lambda a, s: f("pow", a, s), lambda a, s: o("*", s, f("pow", a, o("-", s, one))), None)
    two_(("pow2_",), lambda a: sq(a), lambda a: o("*", two, a), None)
    two_(("atan2_",), lambda a, b: f("atan2", a, b), lambda a, b: o("/", b, o("+", sq(a), sq(b))), lambda a, b: neg(o("/", a, o("+", sq(a), sq(b)))))
    q = lambda a, b: o("/", o("*", o("+", a, b), o("-", a, b)), o("*", const(3), b))
    two_(("mix_",), lambda a, b: o("+", q(a, b), a), lambda a, b: o("+", o("/", o("*", two, a), o("*", const(3), b)), one),
         lambda a, b: neg(o("/", o("+", sq(b), sq(a)), o("*", const(3), sq(b)))))
    return r


NODIFF = {"add", "iadd", "sub", "isub", "mul", "imul", "div", "idiv", "atan2_", "mix_"}
UNARY = {"neg", "fabs_", "abs2_", "sqrt_", "cos_", "sin_", "tan_", "asin_", "acos_", "exp_", "log_", "tanh_", "sinh_", "cosh_", "conj_", "real_", "pow2_", "copy", "assign"}
COMPARE = {"lt": "<", "le": "<=", "gt": ">", "ge": ">=", "eq": "==", "ne": "!="}


def groups(prog):
    """(class, its static functions) for every operation table of the driver"""
    out = []
    for r in prog.records.values():
        if r["name"].split("::")[-1] in ("Ops", "Ops1", "OpsD") and r["name"].startswith("ad::"):
            fs = {prog.functions[m]["name"]: prog.functions[m] for m in r["methods"] if m in prog.functions and not prog.functions[m].get("ctor") and prog.functions[m].get("static")}
            if fs:
                out.append((r, fs))
    return out


def level(prog, r):
    """1: derivatives of plain numbers; 2: nested"""
    a = prog.rec_of(r["args"][0]["t"])
    s = prog.rec_of(prog.rec_of(a["args"][0]["t"])["args"][0]["t"])
    return (1 if s is None else 2), a, (s if s is not None else None)


def inner(name, lev, n=3):
    return var(name) if lev == 1 else ADVal(var(name), [var("%s'%d" % (name, i)) for i in range(n)])


def leaves(v):
    if isinstance(v, ADVal):
        return leaves(v.v) + [y for x in v.d for y in leaves(x)]
    return [v if isinstance(v, bool) else P(v)]


def run(ctx):
    prog = ir.dump("ad.cpp")
    gs = groups(prog)
    ctx.require("operation tables", len(gs), 7)
    jobs = [(gi, n) for gi, (r, fs) in enumerate(gs) for n in sorted(fs)]
    for gi, n in jobs:
        r, fs = gs[gi]
        one(ctx, prog, r, fs[n], n)
    ctx.require("operations", ctx.minimum.get("operations", 0), 280)


def one(ctx, prog, r, f, name):
    lev, arec, srec = level(prog, r)
    n = int(prog.rec_of(arec["args"][0]["t"])["args"][1])
    plain = r["name"].endswith("OpsD")          # the second operand is a plain number although the level below is differentiated
    it = machine(prog, ad_primitive="inner" if lev == 2 else False)
    A = Alg(it)
    tag = "%s (%s of %d%s)" % (name, "nested" if lev == 2 else "simple", n, ", plain operand" if plain else "")

    def active(nm):
        o = it.new_struct(arec, nm)
        it.store(o.fields["m_value"], inner(nm, lev, n))
        it.store(o.fields["m_derivatives"], MatV(n, 1, [inner("d%s[%d]" % (nm, i), lev, n) for i in range(n)]))
        return o
    av, bv = inner("a", lev, n), inner("b", lev, n)
    da, db = ([inner("d%s[%d]" % (x, i), lev, n) for i in range(n)] for x in "ab")
    sv = var("s") if plain else inner("s", lev, n)
    args, ops = [], []
    for k, p in enumerate(f["params"]):
        pr = prog.rec_of(p["t"])
        if pr is arec:
            args.append(active("ab"[k]))
            ops.append("ab"[k])
        elif pr is not None and pr["name"] == "Eigen::Matrix":
            args.append(TempLV(MatV(n, 1, list(db))))
            ops.append("d")
        else:
            args.append(TempLV(sv))
            ops.append("s")
    rs = it.call(f, None, args)

    def result():
        o = rs
        if isinstance(o, TempLV) and isinstance(o.v0, StructObj):
            o = o.v0
        if not isinstance(o, StructObj):
            v = it.load(o)
            o = v if isinstance(v, StructObj) else None
        if o is None:
            raise AnalysisError("%s does not return an AD scalar: %r" % (tag, rs))
        d = it.load(o.fields["m_derivatives"])
        return it.load(o.fields["m_value"]), list(it.eg.dense(d).d)

    def deep(key, got, want):
        g, w = leaves(got), leaves(want)
        ctx.check(key, len(g) == len(w) and all(_same(x, y) for x, y in zip(g, w)), lambda: "is\n      %s\n    expected\n      %s" % (show(got), show(want)))

    def want_ad(v, ds):
        gv, gd = result()
        deep("value/" + tag, _fit(gv, lev, n), _fit(v, lev, n))
        ctx.check("dimension/" + tag, len(gd) == n, "%d derivatives, expected %d" % (len(gd), n))
        for i in range(min(n, len(gd))):
            deep("derivative/%s %d" % (tag, i), _fit(gd[i], lev, n), _fit(ds[i], lev, n))

    def want_any(alts):
        gv, gd = result()
        fit = lambda v: leaves(_fit(v, lev, n))
        same = lambda g, w: len(fit(g)) == len(fit(w)) and all(_same(p, q) for p, q in zip(fit(g), fit(w)))
        ctx.check("value/" + tag, any(same(gv, v) for v, _ in alts), lambda: "is\n      %s\n    expected\n      %s" % (show(gv), show(alts[0][0])))
        ctx.check("dimension/" + tag, len(gd) == n, "%d derivatives, expected %d" % (len(gd), n))
        ok = any(all(same(g, w) for g, w in zip(gd, ds)) for _, ds in alts)
        bad = next((i for i in range(min(n, len(gd))) if not any(same(gd[i], ds[i]) for _, ds in alts)), 0)
        ctx.check("derivative/%s %d" % (tag, bad), ok, lambda: "is\n      %s\n    expected\n      %s" % (show(gd[bad]), show(alts[0][1][bad])))
    R = rules(A)
    x = {"a": av, "b": bv, "s": sv}
    zero = ZERO
    base = name.rstrip("_")
    if name in R:
        v, fa, fb = R[name]
        vals = [x[q] for q in ops]
        ds = []
        for i in range(n):
            t = A.op("*", fa(*vals), da[i])
            if fb is not None:
                t = A.op("+", t, A.op("*", fb(*vals), db[i]))
            ds.append(t)
        want_ad(v(*vals), ds)
    elif name == "fabs_":
        # at zero the function has no derivative: either one-sided value, or zero, will do
        p = P(_plain(av))
        signs = [ite(cmp0("<", p), -ONE, ONE), ite(cmp0("<=", p), -ONE, ONE), ite(cmp0("<", p), -ONE, ite(cmp0("==", p), ZERO, ONE))]
        want_any([(A.f("abs", av), [A.op("*", sg, d) for d in da]) for sg in signs])
    elif base in ("min", "max", "minc", "maxc", "cmin", "cmax"):
        other, od = (bv, db) if ops == ["a", "b"] else (sv, [zero] * n)
        # where the operands are equal either may be chosen
        d = P(_plain(av)) - P(_plain(other))
        alts = []
        for op in ("<", "<=") if "min" in base else (">", ">="):
            c = cmp0(op, d)
            sel = lambda u, w: _merge(c, _fit(u, lev, n), _fit(w, lev, n))
            alts.append((sel(av, other), [sel(u, w) for u, w in zip(da, od)]))
        want_any(alts)
    elif base.rstrip("c") in COMPARE and base[0] != "c" or base[0] == "c" and base[1:] in COMPARE:
        sw = base[0] == "c"
        op = COMPARE[base[1:] if sw else base if base in COMPARE else base[:-1]]
        l, q = _plain(av), _plain(bv if "b" in ops else sv)
        if sw:
            l, q = q, l
        got = it.load(rs)
        c = cmp0(op, P(l) - P(q))
        ctx.check("comparison/" + tag, decide.equal(P(got), c), lambda: "is %s, expected %s" % (show(got), show(c)))
    elif name == "seed":
        want_ad(sv, [ONE if i == n // 2 else zero for i in range(n)])
    elif name == "fromc":
        want_ad(sv, [zero] * n)
    elif name == "both":
        want_ad(sv, db)
    elif name == "put":
        want_ad(sv, db)
    elif name == "value":
        deep("value/" + tag, it.load(rs), av)
    elif name == "derivatives":
        for i, (g, w) in enumerate(zip(it.eg.dense(it.load(rs)).d, da)):
            deep("derivative/%s %d" % (tag, i), _fit(g, lev, n), w)
    elif name == "floor_":
        gv, gd = result()
        deep("value/" + tag, _plain(gv), _plain(A.f("floor", av)))
        for i in range(min(n, len(gd))):
            deep("derivative/%s %d" % (tag, i), _fit(gd[i], lev, n), _fit(ZERO, lev, n))
        ctx.check("dimension/" + tag, len(gd) == n, "%d derivatives, expected %d" % (len(gd), n))
    else:
        raise AnalysisError("no rule for operation " + name)
    # the operands are inputs only
    for k, q in enumerate(ops):
        if q in "ab":
            ctx.check("operands/%s %s" % (tag, q), _keeps(it, args[k], x[q], da if q == "a" else db), "the operation changes its operand")
    ctx.no_events(it, "access/" + tag)
    ctx.count("operations")
    ctx.cover(it, "%s<level %d>" % (r["name"], lev))


def _keeps(it, o, v, d):
    return all(_same(x, y) for x, y in zip(leaves(it.load(o.fields["m_value"])), leaves(v))) and \
        all(_same(x, y) for p, q in zip(it.load(o.fields["m_derivatives"]).d, d) for x, y in zip(leaves(p), leaves(q)))


def _merge(c, u, w):
    if isinstance(u, ADVal) or isinstance(w, ADVal):
        return ADVal(_merge(c, u.v, w.v), [_merge(c, p, q) for p, q in zip(u.d, w.d)])
    return ite(c, P(u), P(w))


def _same(x, y):
    return x is y or decide.equal(P(x), P(y)) or decide.equal(_identities(P(x) - P(y)), ZERO)


def _fns(p, acc, seen):
    """function atoms of a term, at any depth"""
    if isinstance(p, Poly):
        for mono in p.m:
            for i, _ in mono:
                if i not in seen:
                    seen.add(i)
                    for x in T.ATOMS[i].args:
                        _fns(x, acc, seen)
                    if T.ATOMS[i].kind == "fn":
                        acc.append(i)
    elif isinstance(p, tuple):
        for x in p:
            _fns(x, acc, seen)


def _identities(d):
    """the terms with every function written through exp, sin, cos and one power, and sin^2 eliminated"""
    one = ONE
    for _ in range(3):
        acc, memo = [], {}
        _fns(d, acc, set())
        for i in acc:
            a = T.ATOMS[i]
            if a.args[2:] and a.args[2]:
                continue
            name, args = a.args[0], a.args[1]
            x = args[0]
            sign, y = one, x
            k, q = T.normlead(x)
            if k < 0:
                sign, y = -one, -x
            e, ie = fn("exp", y), T.inv(fn("exp", y))
            if name == "tan":
                memo[i] = fn("sin", x) * T.inv(fn("cos", x))
            elif name == "sinh":
                memo[i] = sign * H * (e - ie)
            elif name == "cosh":
                memo[i] = H * (e + ie)
            elif name == "tanh":
                memo[i] = sign * (e - ie) * T.inv(e + ie)
            elif name == "exp" and sign != one:
                memo[i] = ie
            elif name in ("sin", "cos") and sign != one:
                memo[i] = (sign if name == "sin" else one) * fn(name, y)
            elif name == "pow" and args[1].m.get((), 0) != 0 and not args[1].is_const():
                c = args[1].m[()]
                if c.denominator == 1 and abs(c) <= 8:
                    memo[i] = fn("pow", x, args[1] - const(c)) * T.power(x, int(c))
        if not memo:
            break
        d = T.subst(d, {n: var(n) for n in T.support(d)}, memo)
    acc = []
    _fns(d, acc, set())
    for i in acc:
        a = T.ATOMS[i]
        if a.args[0] == "sin" and not (a.args[2:] and a.args[2]):
            c2 = one - T.power(fn("cos", a.args[1][0]), 2)
            low = min([dict(m).get(i, 0) for m in d.m] + [0])
            cos = fn("cos", a.args[1][0])
            ci = next(iter(cos.m))[0][0]
            lowc = min([dict(m).get(ci, 0) for m in d.m] + [0])
            d = d * T.power(ap(a), -low) * T.power(cos, -lowc)
            r = ZERO
            for m, c in d.m.items():
                t = const(c)
                for j, e in m:
                    t = t * (T.power(c2, e // 2) * T.power(ap(a), e % 2) if j == i and e >= 2 else T.power(ap(T.ATOMS[j]), e))
                r = r + t
            d = r
    return d


def _plain(v):
    while isinstance(v, ADVal):
        v = v.v
    return v


def _fit(v, lev, n):
    """a constant below the analysed level has zero derivatives"""
    if lev == 2 and not isinstance(v, ADVal):
        return ADVal(P(v), [ZERO] * n)
    if isinstance(v, ADVal) and not v.d:
        return ADVal(v.v, [ZERO] * n)
    return v
