"""The line-search filter: acceptance, domination and bookkeeping of the stored pairs."""
import itertools
from framework import *


def machine2(prog, ranges=None):
    it = machine(prog)
    it.ranges = ranges
    return it


def fresh(prog, rec, pairs, depth, ranges=None):
    it = machine2(prog, ranges)
    f = construct(it, rec, "filter")
    it.store(f.fields["m_filter"], ListV([ListV(p) for p in pairs]))
    if depth is not None:
        it.store(f.fields["max_depth"], depth)
    it.store(f.fields["beta"], var("beta"))
    return it, f


def pairs_of(it, f):
    return [tuple(P(x) for x in p.d) for p in it.load(f.fields["m_filter"]).d]


def val(r, it):
    r = it.load(r) if isinstance(r, LV) else r
    return P(r) if not isinstance(r, bool) else (ONE if r else ZERO)


def run(ctx):
    prog = ir.dump("sqp.cpp")
    rec = record(prog, "LSFilter")
    c, v, beta = var("c"), var("v"), var("beta")
    for n in ("m_filter", "max_depth", "beta"):
        if n not in [x["n"] for x in rec["fields"]]:
            raise AnalysisError("LSFilter has no member " + n)
    # a new filter is empty and accepts everything
    it = machine2(prog)
    f = construct(it, rec, "filter")
    ctx.check("initial/empty", pairs_of(it, f) == [], "a new filter holds %r" % (pairs_of(it, f),))
    depth = it.load(f.fields["max_depth"])
    ctx.check("initial/depth", isinstance(depth, int) and depth >= 1, "a new filter has room for %r pairs" % (depth,))
    ctx.cover(it, "LSFilter")
    # questions, for any stored pairs
    for k in range(4):
        ps = [(var("f%d" % i), var("h%d" % i)) for i in range(k)]
        for name, hit in (("is_dominated", lambda p, q: land(cmp0("<=", p - c), cmp0("<=", q - v))),
                          ("is_acceptable", lambda p, q: land(cmp0("<=", p - beta * q - c), cmp0("<=", q - beta * q - v)))):
            it, f = fresh(prog, rec, ps, None)
            r = it.call_method(f, name, [TempLV(c), TempLV(v)])
            some = ZERO
            for p, q in ps:
                some = lor(some, hit(p, q))
            want = some if name == "is_dominated" else ONE - some
            ctx.check("%s/%d pairs" % (name, k), decide.equal(val(r, it), want), lambda: "is %s, expected %s" % (show(val(r, it)), show(want)))
            ctx.check("unchanged/%s %d pairs" % (name, k), pairs_of(it, f) == [tuple(map(P, p)) for p in ps], "asking changes the filter")
            ctx.no_events(it, "access/%s %d pairs" % (name, k))
            ctx.cover(it, "LSFilter")
            ctx.count("questions")
    # additions: every order of the stored pairs relative to the new one
    rng = {"c": (0, 1), "v": (0, 1)}
    coord = {"<": lambda n: (-30, -20), "=": None, ">": lambda n: (20, 30)}
    for depth in (1, 2, 3):
        for k in range(depth + 1):
            for rel in itertools.product(itertools.product("<=>", repeat=2), repeat=k):
                ranges = dict(rng)
                ps = []
                for i, (a, b) in enumerate(rel):
                    pr = []
                    for nm, base, r in (("f%d" % i, c, a), ("h%d" % i, v, b)):
                        if r == "=":
                            pr.append(base)
                        else:
                            ranges[nm] = coord[r](nm)
                            pr.append(var(nm))
                    ps.append(tuple(pr))
                it, f = fresh(prog, rec, ps, depth, ranges)
                it.call_method(f, "add", [TempLV(c), TempLV(v)])
                kept = [p for p, (a, b) in zip(ps, rel) if a == "<" or b == "<"]
                if len(kept) >= depth:
                    kept = kept[:depth - 1]
                got = pairs_of(it, f)
                key = "room for %d, stored relative to the new pair: %s" % (depth, " ".join("(%s,%s)" % r for r in rel) or "nothing")
                ctx.check("add/" + key, got == [(P(c), P(v))] + [tuple(map(P, p)) for p in kept],
                          lambda: "holds %s, expected the new pair followed by %s" % (", ".join("(%s, %s)" % (show(p), show(q)) for p, q in got), ", ".join("(%s, %s)" % (show(p), show(q)) for p, q in kept) or "nothing"))
                ctx.check("add/%s/settings" % key, it.load(f.fields["max_depth"]) == depth and it.load(f.fields["beta"]) == beta, "adding changes the filter's settings")
                ctx.no_events(it, "access/add " + key)
                ctx.cover(it, "LSFilter")
                ctx.count("additions")
    for k in (1, 2, 3):
        ps = [(var("f%d" % i), var("h%d" % i)) for i in range(k)]
        it, f = fresh(prog, rec, ps, None)
        it.call_method(f, "remove_one", [])
        ctx.check("remove_one/%d" % k, pairs_of(it, f) == [tuple(map(P, p)) for p in ps[:-1]], "does not remove exactly the oldest pair")
        it, f = fresh(prog, rec, ps, None)
        it.call_method(f, "clear", [])
        ctx.check("clear/%d" % k, pairs_of(it, f) == [], "does not empty the filter")
        ctx.cover(it, "LSFilter")
    ctx.require("questions", ctx.minimum.get("questions", 0), 8)
    ctx.require("additions", ctx.minimum.get("additions", 0), 900)
