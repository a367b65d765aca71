"""Shared helpers for the property specifications."""
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "engine"))
import ir
from terms import *
import decide
from values import *
from interp import Interp, Frame


def V(name, r, c=1, arr=False):
    """fresh symbolic dense r x c matrix with entries name[i] / name[i,j]"""
    if c == 1:
        return MatV(r, 1, [var("%s[%d]" % (name, i)) for i in range(r)], arr)
    return MatV(r, c, [var("%s[%d,%d]" % (name, i, j)) for j in range(c) for i in range(r)], arr)


def SPM(name, r, c, pat=None, compressed=True, slack=0):
    """symbolic sparse matrix; pat: set of (i,j) (default all)"""
    if pat is None:
        pat = {(i, j) for i in range(r) for j in range(c)}
    m = SpV.from_cols(r, c, [[(i, var("%s[%d,%d]" % (name, i, j))) for i in range(r) if (i, j) in pat] for j in range(c)])
    return m if compressed else m.reserve([slack] * c)


def symb(name, t):
    return var(name, isint=t["k"] in ("int", "enum"), ind=t["k"] == "bool")


def machine(prog, **kw):
    it = Interp(prog, **kw)
    it.frames.append(Frame({"name": "driver", "params": [], "id": -1, "q": "driver"}, None, 0))
    return it


def symbolise(it, obj, name, only=None, skip=()):
    """give every scalar/matrix field of obj an unknown value (named name.field)"""
    for k, c in obj.fields.items():
        if (only is not None and k not in only) or k in skip:
            continue
        if isinstance(c, Cell):
            it.store(c, it.default_content(c.tid, name + "." + k, symb))
        elif isinstance(c, StructObj):
            symbolise(it, c, name + "." + k)


def record(prog, name, pred=None):
    rs = [r for r in prog.records.values() if r["name"] == name and "fields" in r and (pred is None or pred(r))]
    if len(rs) != 1:
        raise AnalysisError("expected one instantiation of %s, found %d: %s" % (name, len(rs), [r["full"][:120] for r in rs]))
    return rs[0]


class AnalysisError(Exception):
    pass


def construct(it, rec, name, args=()):
    o = it.new_struct(rec, name)
    ct = [it.prog.functions[m] for m in rec["methods"] if it.prog.functions.get(m, {}).get("ctor") and not it.prog.functions[m].get("copyctor") and len(it.prog.functions[m]["params"]) == len(args)]
    if not ct:
        if args:
            raise AnalysisError("no constructor of %s with %d parameters" % (rec["full"], len(args)))
        it.default_init_struct(o)
        return o
    it.construct_into(o, ct[0], list(args), None)
    return o


def flat(it, x):
    """scalars of a dense/sparse/scalar value in column-major order"""
    v = it.load(x)
    if isinstance(v, SpV):
        v = v.dense()
    if isinstance(v, MatV):
        return list(v.d)
    return [v]


def user_function(name, outsize):
    """model of a user-supplied function f(x, p, out): arbitrary smooth function of (x, p)"""
    def model(it, f, this, args):
        xs = []
        for a in args[:-1]:
            xs += flat(it, a)
        out = args[-1]
        n = outsize if outsize is not None else 1
        vals = [it.eg.ad_apply("%s%d" % (name, i) if outsize is not None else name, xs) for i in range(n)]
        if outsize is None:
            it.store(out, vals[0])
        else:
            it.store(out, MatV(n, 1, vals))
        return None
    return model


# ---------------------------------------------------------------- arbitrary history
def cells_of(obj, prefix=""):
    """all storage cells of an object, (path, cell)"""
    out = []
    seen = set()

    def walk(o, p):
        if isinstance(o, list):
            for i, x in enumerate(o):
                walk(x, "%s[%d]" % (p, i))
        elif isinstance(o, StructObj):
            if o.uid in seen:
                return
            seen.add(o.uid)
            for k, c in o.fields.items():
                walk(c, p + "." + k if p else k)
        elif isinstance(o, Cell):
            out.append((p, o))
    walk(obj, prefix)
    return out


def _blend(old, new, name, mk):
    """content with every leaf where old and new differ replaced by an unknown; None if shapes differ"""
    if old is new:
        return old, False
    if isinstance(old, (bool, int, Poly)) and isinstance(new, (bool, int, Poly)):
        if P(old) == P(new):
            return old, False
        isb = isinstance(old, bool) or isinstance(new, bool)
        return mk(name, ind=isb, isint=not isb and isinstance(old, int) and isinstance(new, int)), True
    if isinstance(old, ADVal) and isinstance(new, ADVal) and len(old.d) == len(new.d):
        v, c = _blend(old.v, new.v, name + ".v", mk)
        ds = [_blend(a, b, "%s.d%d" % (name, i), mk) for i, (a, b) in enumerate(zip(old.d, new.d))]
        return ADVal(v, [d[0] for d in ds]), c or any(d[1] for d in ds)
    if isinstance(old, MatV) and isinstance(new, MatV) and (old.r, old.c) == (new.r, new.c):
        ds = [_blend(a, b, "%s[%d]" % (name, i), mk) for i, (a, b) in enumerate(zip(old.d, new.d))]
        return MatV(old.r, old.c, [d[0] for d in ds], old.arr), any(d[1] for d in ds)
    if isinstance(old, ListV) and isinstance(new, ListV) and len(old.d) == len(new.d):
        ds = [_blend(a, b, "%s[%d]" % (name, i), mk) for i, (a, b) in enumerate(zip(old.d, new.d))]
        return ListV([d[0] for d in ds]), any(d[1] for d in ds)
    if isinstance(old, SpV) and isinstance(new, SpV) and old.pattern() == new.pattern():
        ds = [_blend(a, b, "%s{%d}" % (name, i), mk) if a is not None and b is not None else (b, a is not b) for i, (a, b) in enumerate(zip(old.vals, new.vals))]
        return SpV(old.r, old.c, old.outer, old.nnz, old.inner, [d[0] for d in ds]), any(d[1] for d in ds)
    if isinstance(old, SolverV) and isinstance(new, SolverV):
        if old == new:
            return old, False
        return SolverV(new.kind, KeyRef.get((mk(name + ".key"),), "any"), new.n, new.uplo, new.pattern), True
    try:
        if old == new:
            return old, False
    except Exception:
        pass
    return new, True


def arbitrary_history(it, obj, runs, tag="hist", limit=8):
    """puts obj into a state that covers every sequence of the given operations on it: fixpoint of
    'run any operation, forget (replace by an unknown) whatever it changed'.  Shape changes (an empty
    sparse matrix being filled, a flag being set) are joined with the latest shape; callers that
    care analyse the first call separately."""
    n = [0]
    it.coarse, keep = 12, it.coarse

    def mk(name, **kw):
        n[0] += 1
        return var("%s:%s" % (tag, name), **kw)
    rounds = 0
    while True:
        rounds += 1
        if rounds > limit:
            raise AnalysisError("object state does not stabilise over repeated calls")
        changed = False
        before = {c.oid: it.load(c) for _, c in cells_of(obj)}
        for run in runs:
            run()
            it.S.rels = [ONE] * len(it.S.rels)     # forgetting path facts over-approximates
            for path, c in cells_of(obj):
                new = it.load(c)
                old = before.get(c.oid)
                if old is None:
                    before[c.oid] = new
                    continue
                b, ch = _blend(old, new, path, mk)
                if ch:
                    stable = _same_content(b, old)
                    if not stable:
                        changed = True
                it.S.heap[c.oid] = b
                before[c.oid] = b
        if not changed:
            it.coarse = keep
            return rounds


def _same_content(a, b):
    try:
        return a == b or repr(a) == repr(b)
    except Exception:
        return False


def uninit_or(pref):
    """predicate on dependency names: uninitialised storage or names with one of the prefixes"""
    pref = tuple(pref)
    return lambda n: n.startswith("uninit:") or n.startswith(pref) or n.startswith("oob")


def out(n, c=1, tag="pre", shape=None):
    """an output argument holding arbitrary previous contents"""
    return TempLV(V(tag + ":", n, c) if c > 1 else MatV(n, 1, [var("%s:[%d]" % (tag, i)) for i in range(n)]))
