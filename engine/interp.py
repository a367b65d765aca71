"""Abstract interpreter over the instantiated syntax trees.

Domain: value numbering (terms.py).  All control-flow merges are joins of the branch states
(gated by the branch condition); loops whose trip count is not a compile-time constant of the
analysed instantiation are replaced by an arbitrary iteration (every location they modify gets a
fresh unknown value, optionally constrained by a declared-and-checked loop invariant).
No concrete input is ever chosen, and no paths are enumerated or handed to a solver.
"""
import sys
from terms import *
from values import *
import ir

sys.setrecursionlimit(20000)

MAXUNROLL = 5000


class State:
    __slots__ = ("heap", "rels", "dead")

    def __init__(self, heap, rels):
        self.heap = heap
        self.rels = rels

    def fork(self):
        return State(dict(self.heap), list(self.rels))


class Frame:
    def __init__(self, f, this, depth):
        self.f = f
        self.this = this
        self.env = {}
        self.returns = []
        self.loops = []   # stack of (breaks list, continues list)
        self.depth = depth
        self.first_oid, self.first_temp = 0, 1


class AbortPath(Exception):
    """the path ends in a noreturn call"""


class Interp:
    def __init__(self, prog, ad_primitive=True):
        self.prog = prog
        self.S = State({}, [ONE])
        self.frames = []
        self.noid = 1
        self.nfresh = 0
        self.coarse = None         # size above which stored values and conditions are forgotten
        self._wide = {}
        self.ad_primitive = ad_primitive
        self.ranges = None         # name of an unknown -> (lowest, highest) value it is assumed to have
        self.numeric = None        # module numeric: folding of irrational constants
        self.overrides = {}        # (record simple name or None, function name) -> python model
        self.opaque_log = []
        self.hooks = {}            # 'loop', 'call', 'store', 'return'
        self.events = []           # (kind, loc, text)
        self.globals = {}
        self.visited = {}          # function id -> number of analysed contexts
        self.loops_seen = {}       # loc -> 'unrolled'|'havoc'
        self.nstmts = 0
        self.stmt_locs = set()
        self.assumed = []
        self.calls_seen = set()
        self.uninit_reads = []
        import eigenmodel
        self.eg = eigenmodel.EigenModel(self)
        import stdmodel
        self.std = stdmodel.StdModel(self)

    # ------------------------------------------------------------------ misc
    peel = False

    def fresh(self, name, **kw):
        self.nfresh += 1
        return var("%s~%d" % (name, self.nfresh), **kw)

    def loc(self):
        return self.curloc if hasattr(self, "curloc") else "?"

    def event(self, kind, text):
        e = (kind, self.loc(), text)
        if e not in self.events:
            self.events.append(e)

    def unsupported(self, msg):
        stack = " <- ".join(fr.f["name"] for fr in reversed(self.frames[-6:]))
        raise Unsupported("%s at %s [%s]" % (msg, self.loc(), stack))

    def pc(self):
        r = ONE
        for x in self.S.rels:
            r = r * x
        return r

    # ------------------------------------------------------------------ storage
    def new_cell(self, name, tid, content):
        oid = self.noid
        self.noid += 1
        self.S.heap[oid] = content
        return Cell(oid, name, tid)

    def scalar_uninit(self, name, t):
        k = t["k"]
        return ap(atom("uninit", name, isint=(k in ("int", "enum", "bool")), ind=(k == "bool")))

    def default_content(self, tid, name, sym=None):
        """content of a default-initialised object of a non-repository class or scalar.
        sym: function (name, typeinfo) -> scalar; default uninitialised"""
        sym = sym or self.scalar_uninit
        t = self.prog.deref(tid)
        k = t["k"]
        if k in ("int", "float", "bool", "enum"):
            return sym(name, t)
        if k == "ptr":
            return UninitV()
        if k == "arr":
            return self._array_content(t["to"], t["n"], name, sym)
        if k == "rec":
            r = self.prog.records[t["r"]]
            n = r["name"]
            if n == "std::array":
                return self._array_content(r["args"][0]["t"], r["args"][1], name, sym)
            c = self.eg.default_content(r, name, sym)
            if c is not None:
                return c
            return self.std.default_content(r, name)
        return UninitV()

    def _array_content(self, et, n, name, sym):
        e = self.prog.deref(et)
        if e["k"] in ("int", "float", "bool", "enum"):
            return MatV(n, 1, [sym("%s[%d]" % (name, i), e) for i in range(n)])
        if e["k"] == "rec":
            return ListV([self.default_content(et, "%s[%d]" % (name, i), sym) for i in range(n)])
        return UninitV()

    def is_struct(self, tid):
        t = self.prog.deref(tid)
        if t["k"] != "rec":
            return False
        r = self.prog.records[t["r"]]
        if not r.get("mine"):
            return False
        if self.prim_ad(r):
            return False
        if self.eg.is_primitive(r):
            return False
        return True

    def prim_ad(self, r):
        """instantiations of the AD scalar whose arithmetic is taken for granted: all of them, none, or the innermost level"""
        if r["name"] != "Eigen::AutoDiffScalar" or self.ad_primitive is False:
            return False
        if self.ad_primitive is True:
            return True
        for fl in r.get("fields", ()):
            if fl["n"] == "m_value":
                return self.kindt(fl["t"]) == "float"
        return False

    def prim_call(self, f):
        rs = [self.prog.records[f["rec"]]] if "rec" in f else []
        rs += [r for r in (self.prog.rec_of(p["t"]) for p in f["params"]) if r is not None]
        rs += [r for r in [self.prog.rec_of(f["ret"]) if f.get("ret") is not None else None] if r is not None]
        rs = [r for r in rs if r["name"].split("::")[-1] in ("AutoDiffScalar", "auto_diff_special_op")]
        return bool(rs) and all(self.prim_ad(r) for r in rs)

    def new_object(self, tid, name, sym=None):
        """allocates storage for a variable of the given type (no constructor is run)"""
        t = self.prog.deref(tid)
        if self.is_struct(tid):
            return self.new_struct(self.prog.records[t["r"]], name, sym)
        return self.new_cell(name, tid, self.default_content(tid, name, sym))

    def new_struct(self, rec, name, sym=None):
        o = StructObj(rec, name)
        o.uid = self.noid
        self.noid += 1
        for r in self.prog.bases_closure(rec):
            for f in r.get("fields", []):
                if f["n"] in o.fields:
                    continue
                t = self.prog.types[f["t"]]
                if t["k"] == "ref":
                    o.fields[f["n"]] = None
                elif self.prog.deref(f["t"])["k"] == "arr" and self.is_struct(self.prog.deref(f["t"])["to"]):
                    o.fields[f["n"]] = [self.new_object(self.prog.deref(f["t"])["to"], "%s.%s[%d]" % (name, f["n"], i), sym) for i in range(self.prog.deref(f["t"])["n"])]
                else:
                    o.fields[f["n"]] = self.new_object(f["t"], name + "." + f["n"], sym)
        return o

    # ------------------------------------------------------------------ load / store
    def load(self, x):
        """lvalue -> value (identity on values)"""
        S = self.S
        if isinstance(x, Cell):
            try:
                v = S.heap[x.oid]
            except KeyError:
                self.unsupported("dangling reference to %s" % x.name)
            if isinstance(v, Conflict):
                self.unsupported("value of %s differs in shape on merging paths" % x.name)
            return v
        if isinstance(x, ElemLV):
            m = self.load(x.m)
            if not isinstance(m, (MatV, ListV)):
                self.unsupported("element of %r" % (m,))
            if not (0 <= x.k < len(m.d)):
                self.event("oob", "element %d of %d" % (x.k, len(m.d)))
                return self.fresh("oob")
            return m.d[x.k]
        if isinstance(x, ViewLV):
            m = self.load(x.m)
            if isinstance(m, SpV):
                m = m.dense()
            d = m.d
            return MatV(x.r, x.c, tuple(d[k] for k in x.idx), x.arr)
        if isinstance(x, DerivLV):
            v = self.load(x.s)
            v = self.to_ad(v)
            return MatV(len(v.d), 1, v.d)
        if isinstance(x, ADValueLV):
            return self.to_ad(self.load(x.s)).v
        if isinstance(x, TempLV):
            return self.S.heap.get(x.oid, x.v0)
        if isinstance(x, SpCoeffLV):
            return self.load(x.m).get(x.i, x.j)
        if isinstance(x, SpPosLV):
            m = self.load(x.m)
            arr = {"val": m.vals, "inner": m.inner, "outer": m.outer, "nnz": m.nnz}[x.what]
            if arr is None:
                self.event("nullptr", "innerNonZeroPtr() of a compressed matrix is dereferenced")
                raise AbortPath()
            if not (0 <= x.p < len(arr)):
                self.event("oob", "sparse %s array index %r of %d" % (x.what, x.p, len(arr)))
                if x.what != "val":
                    raise AbortPath(self.events[-1])      # positions computed from a value read out of bounds
                return self.fresh("oob")
            v = arr[x.p]
            if v is None:
                v = ap(atom("uninit", "unused sparse slot"))
            return v
        if isinstance(x, SpDiagLV):
            m = self.load(x.m)
            idx = x.idx if x.idx is not None else range(min(m.r, m.c))
            return MatV(len(idx), 1, [m.get(i, i) for i in idx])
        return x

    def to_ad(self, v):
        if isinstance(v, ADVal):
            return v
        return ADVal(v, ())

    def store(self, x, v):
        S = self.S
        if isinstance(x, Cell):
            h = self.hooks.get("store")
            if h:
                h(x, v)
            S.heap[x.oid] = v if self.coarse is None else self.widen(v)
            return
        if isinstance(x, ElemLV):
            m = self.load(x.m)
            if not (0 <= x.k < len(m.d)):
                self.event("oob", "write of element %d of %d" % (x.k, len(m.d)))
                return
            d = m.d[:x.k] + (v,) + m.d[x.k + 1:]
            self.store(x.m, ListV(d) if isinstance(m, ListV) else MatV(m.r, m.c, d, m.arr))
            return
        if isinstance(x, ViewLV):
            v = self.eg.dense(v)
            if len(v.d) != len(x.idx):
                self.event("dim", "assigning %dx%d to %dx%d" % (v.r, v.c, x.r, x.c))
                return
            if (v.r, v.c) != (x.r, x.c):
                if not (v.r == x.c and v.c == x.r and 1 in (v.r, v.c)):
                    self.event("dim", "assigning %dx%d to %dx%d" % (v.r, v.c, x.r, x.c))
                    return
            m = self.load(x.m)
            if isinstance(m, SpV):
                self.unsupported("store to view of sparse")
            d = list(m.d)
            for k, e in zip(x.idx, v.d):
                d[k] = e
            self.store(x.m, MatV(m.r, m.c, d, m.arr))
            return
        if isinstance(x, DerivLV):
            a = self.to_ad(self.load(x.s))
            v = self.eg.dense(v)
            self.store(x.s, ADVal(a.v, v.d))
            return
        if isinstance(x, ADValueLV):
            a = self.to_ad(self.load(x.s))
            self.store(x.s, ADVal(v, a.d))
            return
        if isinstance(x, TempLV):
            TempLV.init[x.oid] = x.v0
            S.heap[x.oid] = v if self.coarse is None else self.widen(v)
            return
        if isinstance(x, SpCoeffLV):
            m = self.load(x.m)
            p = m.find(x.i, x.j)
            if p is None:
                m, p = m.insert(x.i, x.j)
            self.store(x.m, m.setval(p, v))
            return
        if isinstance(x, SpPosLV):
            m = self.load(x.m)
            if x.what == "val":
                if not (0 <= x.p < len(m.vals)):
                    self.event("oob", "write to sparse value array index %r of %d" % (x.p, len(m.vals)))
                    return
                self.store(x.m, m.setval(x.p, v))
                return
            self.unsupported("write to sparse index array " + x.what)
        if isinstance(x, SpDiagLV):
            m = self.load(x.m)
            idx = x.idx if x.idx is not None else range(min(m.r, m.c))
            v = self.eg.dense(v)
            for k, i in enumerate(idx):
                p = m.find(i, i)
                if p is None:
                    self.event("oob", "diagonal entry (%d,%d) of sparse matrix does not exist" % (i, i))
                    continue
                m = m.setval(p, v.d[k])
            self.store(x.m, m)
            return
        self.unsupported("store to %r" % (x,))

    def widen(self, v):
        """over-approximation: an unknown instead of an expression larger than self.coarse"""
        if isinstance(v, Poly):
            if len(v.m) <= self.coarse:
                return v
            w = self._wide.get(v)
            if w is None:
                w = self._wide[v] = self.fresh("hist:wide", isint=isintpoly(v), ind=self._isindicator(v))
            return w
        if isinstance(v, MatV):
            return MatV(v.r, v.c, [self.widen(x) for x in v.d], v.arr)
        if isinstance(v, ADVal):
            return ADVal(self.widen(v.v), [self.widen(x) for x in v.d])
        if isinstance(v, SpV):
            return SpV(v.r, v.c, v.outer, v.nnz, v.inner, [self.widen(x) for x in v.vals])
        return v

    def set_field(self, obj, name, v):
        self.store(obj.fields[name], v)

    def get_field(self, obj, name):
        return self.load(obj.fields[name])

    # ------------------------------------------------------------------ scalars
    def num(self, x):
        x = self.load(x)
        if isinstance(x, MatV) and x.r == 1 and x.c == 1:
            return x.d[0]
        if isinstance(x, (int, Poly, ADVal)):
            return x
        if isinstance(x, SpV) and x.r == 1 and x.c == 1:
            return x.get(0, 0)
        self.unsupported("number expected, got %r" % (type(x).__name__,))

    def intval(self, x):
        """concrete integer"""
        x = self.num(x)
        if isinstance(x, bool):
            return int(x)
        if isinstance(x, int):
            return x
        if isinstance(x, Poly) and x.is_const() and x.const().denominator == 1:
            return int(x.const())
        self.unsupported("compile-time integer expected, got %s" % pstr(x))

    def truth(self, x):
        """value -> True/False/Poly indicator"""
        x = self.load(x)
        if isinstance(x, InnerIter):
            return x.p < x.end
        if isinstance(x, Ptr):
            return True
        if x is None:
            return False
        if isinstance(x, MatV):
            x = self.num(x)
        if isinstance(x, ADVal):
            x = x.v
        if isinstance(x, (bool, int)):
            return bool(x)
        if isinstance(x, Poly):
            if x.is_const():
                return x.const() != 0
            if self._isindicator(x):
                return x
            return cmp0("!=", x)
        self.unsupported("condition on %r" % (x,))

    def _isindicator(self, p):
        for mono, c in p.m.items():
            for i, e in mono:
                if not ATOMS[i].ind:
                    return False
        # value range must be {0,1}
        return (p * p - p).m == {}

    def decide(self, c):
        """True/False if the condition is known on the current path, else the indicator"""
        if isinstance(c, bool):
            return c
        if self.coarse is not None:
            c = self.widen(c)
        for r in reversed(self.S.rels):
            x = r * c
            if not x.m:
                return False
            if x == r:
                return True
        pc = self.pc()
        x = pc * c
        if not x.m:
            return False
        if x == pc:
            return True
        return c

    def assume(self, c):
        self.S.rels[-1] = self.S.rels[-1] * P(c)

    # ------------------------------------------------------------------ merging
    def merge_val(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
            if a == b:
                return a
            return ite(c, P(a), P(b))
        if isinstance(a, (Poly, int)) and isinstance(b, (Poly, int)):
            if a == b:
                return a
            return ite(c, P(a), P(b))
        if isinstance(a, ADVal) or isinstance(b, ADVal):
            if isinstance(a, (Poly, int)):
                a = ADVal(a, ())
            if isinstance(b, (Poly, int)):
                b = ADVal(b, ())
            if isinstance(a, ADVal) and isinstance(b, ADVal):
                n = max(len(a.d), len(b.d))
                ad = a.d + (ZERO,) * (n - len(a.d))
                bd = b.d + (ZERO,) * (n - len(b.d))
                return ADVal(self.merge_val(c, a.v, b.v), [self.merge_val(c, x, y) for x, y in zip(ad, bd)])
            return Conflict(a, b)
        if type(a) is type(b) or isinstance(a, MatV) and isinstance(b, MatV):
            if isinstance(a, MatV):
                if (a.r, a.c) != (b.r, b.c):
                    return Conflict(a, b)
                return MatV(a.r, a.c, [self.merge_val(c, x, y) for x, y in zip(a.d, b.d)], a.arr)
            if isinstance(a, SpV):
                if a.pattern() != b.pattern():
                    return Conflict(a, b)
                return SpV(a.r, a.c, a.outer, a.nnz, a.inner, [None if (x is None and y is None) else self.merge_val(c, ap(atom("uninit", "unused")) if x is None else x, ap(atom("uninit", "unused")) if y is None else y) for x, y in zip(a.vals, b.vals)])
            if isinstance(a, ListV) and len(a.d) == len(b.d):
                return ListV([self.merge_val(c, x, y) for x, y in zip(a.d, b.d)])
            if isinstance(a, SolverV) and a.kind == b.kind and a.n == b.n and a.key is not None and b.key is not None:
                if a == b:
                    return a
                return self.eg.merge_solver(c, a, b)
            if a == b:
                return a
        return Conflict(a, b)

    def merge2(self, c, s1, s2, rels):
        """state = c ? s1 : s2"""
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        h1, h2 = s1.heap, s2.heap
        h = {}
        for k, v in h1.items():
            w = h2.get(k, None)
            if w is None and k < 0:
                w = TempLV.init[k]
            if w is None or v is w:
                h[k] = v
            else:
                h[k] = self.merge_val(c, v, w)
        for k, w in h2.items():
            if k not in h1:
                h[k] = w if k >= 0 else self.merge_val(c, TempLV.init[k], w)
        return State(h, rels)

    def merge_list(self, states):
        """states: list of (State, value|None) with disjoint innermost path conditions"""
        if not states:
            return None, None
        s, v = states[-1]
        rel = s.rels[-1]
        cur = s
        for t, w in reversed(states[:-1]):
            c = t.rels[-1]
            nrel = rel + c
            rels = list(t.rels[:-1]) + [nrel]
            if v is not None or w is not None:
                # values may be references
                v = self.merge_ref(c, w, v, t, cur)
            cur = self.merge2(c, t, cur, rels)
            rel = nrel
        return cur, v

    def merge_ref(self, c, a, b, sa, sb):
        if a is b:
            return a
        if isinstance(a, (LV,)) or isinstance(b, (LV,)):
            if samelv(a, b):
                return a
            save = self.S
            self.S = sa
            va = self.load(a)
            self.S = sb
            vb = self.load(b)
            self.S = save
            return self.merge_val(c, va, vb)
        if isinstance(a, StructObj) and isinstance(b, StructObj):
            o = StructObj(a.rec, a.name)
            o.uid = self.noid
            self.noid += 1
            for n in a.fields:
                if isinstance(a.fields[n], Cell):
                    v = self.merge_val(c, sa.heap[a.fields[n].oid], sb.heap[b.fields[n].oid])
                    oid = self.noid
                    self.noid += 1
                    sa.heap[oid] = v
                    sb.heap[oid] = v
                    o.fields[n] = Cell(oid, a.fields[n].name, a.fields[n].tid)
                else:
                    o.fields[n] = self.merge_ref(c, a.fields[n], b.fields[n], sa, sb)
            return o
        return self.merge_val(c, a, b)

    # ------------------------------------------------------------------ functions
    def call_method(self, obj, name, args, nparams=None, pick=None):
        ms = self.prog.methods(obj.rec, name, nparams if nparams is not None else len(args))
        if pick:
            ms = [m for m in ms if pick(m)]
        if not ms:
            raise Unsupported("no method %s/%d in %s" % (name, len(args), obj.rec["name"]))
        return self.call(ms[0], obj, args)

    def call(self, f, this, args):
        """args: lvalues or values. returns lvalue/value"""
        q = f["q"]
        key = (self._recname(f), f["name"])
        self.calls_seen.add(f["id"])
        ov = self.overrides.get(key) or self.overrides.get((None, q))
        if ov:
            return ov(self, f, this, args)
        if "body" not in f:
            return self.call_nobody(f, this, args)
        return self.call_body(f, this, args)

    def _recname(self, f):
        if "rec" not in f:
            return None
        return self.prog.records[f["rec"]]["name"].split("::")[-1]

    def call_nobody(self, f, this, args):
        if f.get("defaulted") or (f.get("ctor") and (f.get("copyctor") or f.get("defctor"))):
            if f.get("ctor"):
                if f.get("copyctor") and args:
                    self.copy_struct(this, args[0])
                else:
                    self.default_init_struct(this)
                return this
            if f.get("assignop"):
                self.copy_struct(this, args[0])
                return this
            if f.get("dtor"):
                return None
        if f.get("dtor"):
            return None
        self.unsupported("call of function without body: %s" % f["q"])

    def copy_struct(self, dst, src):
        if isinstance(src, LV) and not isinstance(src, StructObj):
            src = self.load(src)
        if not isinstance(src, StructObj):
            self.unsupported("struct copy from %r" % (src,))
        for n, d in dst.fields.items():
            s = src.fields.get(n)
            if s is None:
                continue
            if isinstance(d, StructObj):
                self.copy_struct(d, s)
            elif isinstance(d, list):
                for x, y in zip(d, s):
                    self.copy_struct(x, y) if isinstance(x, StructObj) else self.store(x, self.load(y))
            elif d is None:
                dst.fields[n] = s
            else:
                self.store(d, self.load(s))

    def call_body(self, f, this, args):
        if len(self.frames) > 60:
            self.unsupported("recursion too deep")
        for fr0 in self.frames:
            pass
        self.visited[f["id"]] = self.visited.get(f["id"], 0) + 1
        fr = Frame(f, this, len(self.frames))
        fr.first_oid, fr.first_temp = self.noid, TempLV.count + 1
        fr.caps = None
        for p, a in zip(f["params"], args):
            self.bind(fr, p["id"], p["t"], p["n"], a)
        self.frames.append(fr)
        saveloc = getattr(self, "curloc", "?")
        self.S.rels = list(self.S.rels) + [ONE]
        try:
            h = self.hooks.get("enter")
            if h:
                h(self, f, this, fr)
            if "inits" in f:
                self.run_ctor_inits(f, this)
            self.exec(f["body"])
            if self.S is not None:
                fr.returns.append((self.S, None))
            h = self.hooks.get("call_exit")
            if h:
                h(self, fr)
            if not fr.returns:
                raise AbortPath(self.events[-1] if self.events else None)
            S, v = self.merge_list(fr.returns) if len(fr.returns) > 1 else fr.returns[0]
            inner = S.rels[-1]
            rels = list(S.rels[:-1])
            if inner != ONE:
                rels[-1] = rels[-1] * inner
            self.S = State(S.heap, rels)
            if f.get("ctor"):
                v = this
            h = self.hooks.get("leave")
            if h:
                v2 = h(self, f, this, fr, v)
                if v2 is not None:
                    v = v2
            # by-value returns are loaded already in exec_return
            self.gc(fr, v)
            return v
        finally:
            self.frames.pop()
            self.curloc = saveloc

    def gc(self, fr, v):
        if isinstance(v, (StructObj, LV, Ptr, Closure, VWise, CommaInit)) or fr.f.get("ctor"):
            return
        first = fr.first_oid
        heap = self.S.heap
        for k in [k for k in heap if k >= first or k <= -fr.first_temp]:
            if k in self.pinned:
                continue
            del heap[k]

    pinned = set()

    def bind(self, fr, vid, tid, name, a):
        """bind parameter / variable of type tid to argument a"""
        t = self.prog.types[tid]
        if t["k"] == "ref":
            if isinstance(a, (LV, StructObj)):
                fr.env[vid] = a
            else:
                fr.env[vid] = TempLV(a)
            return
        if t["k"] == "rec" and self.eg.is_refclass(self.prog.records[t["r"]]):
            # Eigen::Ref / Map / Block ...: alias
            if isinstance(a, LV):
                fr.env[vid] = a
            else:
                fr.env[vid] = TempLV(a)
            return
        if t["k"] == "rec" and self.is_struct(tid):
            if isinstance(a, (Closure, FnRef)):
                fr.env[vid] = TempLV(a)
                return
            o = self.new_struct(self.prog.records[t["r"]], name)
            self.copy_struct(o, a)
            fr.env[vid] = o
            return
        v = self.load(a)
        if isinstance(v, StructObj):
            fr.env[vid] = v
            return
        v = self.convert(v, tid)
        fr.env[vid] = self.new_cell(name, tid, v)

    def convert(self, v, tid):
        """implicit conversion of a loaded value to the (non-reference) type tid"""
        t = self.prog.deref(tid)
        k = t["k"]
        if k in ("float",):
            if isinstance(v, ADVal):
                return v
            if isinstance(v, (int, bool)):
                return const(v)
            if isinstance(v, MatV) and len(v.d) == 1:
                return P(v.d[0]) if not isinstance(v.d[0], ADVal) else v.d[0]
            return v
        if k in ("int", "enum"):
            if isinstance(v, Poly) and v.is_const():
                c = v.const()
                return int(c) if c >= 0 else -int(-c)
            if isinstance(v, MatV) and len(v.d) == 1:
                return self.convert(v.d[0], tid)
            if isinstance(v, Poly) and not isintpoly(v):
                return self.trunc(v)
            return v
        if k == "bool":
            if isinstance(v, (int, Poly)):
                c = self.truth(v)
                return c
            return v
        if k == "rec":
            r = self.prog.records[t["r"]]
            return self.eg.convert(v, r)
        return v

    def trunc(self, v):
        r = shannon(lambda q: const(int(q.const()) if q.const() >= 0 else -int(-q.const())) if q.is_const() else (q if isintpoly(q) else fn("trunc", q, isint=True)), v)
        return r if r is not None else fn("trunc", v, isint=True)

    def run_ctor_inits(self, f, this):
        written = set()
        rec = self.prog.records[f["rec"]]
        for i in f["inits"]:
            if "f" in i:
                written.add(i["f"])
                self.init_field(this, i["f"], i["e"])
            elif "b" in i:
                e = i["e"]
                if e["k"] == "ctor":
                    g = self.prog.functions[e["f"]]
                    self.construct_into(this, g, [self.ev(a) for a in e["args"]], e)
                elif e["k"] == "inhctor":
                    pass
            elif "d" in i:
                e = i["e"]
                g = self.prog.functions[e["f"]]
                self.construct_into(this, g, [self.ev(a) for a in e["args"]], e)
                return

    def construct_into(self, obj, g, args, e):
        """run constructor g on struct object obj"""
        key = (self._recname(g), g["name"])
        ov = self.overrides.get(key)
        if ov:
            ov(self, g, obj, args)
            return obj
        if "body" in g:
            self.call_body(g, obj, args)
        elif g.get("copyctor") and args:
            self.copy_struct(obj, args[0])
        else:
            self.default_init_struct(obj, self.prog.records[g["rec"]])
        return obj

    def default_init_struct(self, obj, rec=None):
        for r in self.prog.bases_closure(rec or obj.rec)[::-1]:
            for f in r.get("fields", []):
                if "init" in f:
                    self.init_field(obj, f["n"], f["init"])
                elif isinstance(obj.fields.get(f["n"]), StructObj):
                    so = obj.fields[f["n"]]
                    ctors = [self.prog.functions[m] for m in so.rec.get("methods", []) if self.prog.functions.get(m, {}).get("defctor")]
                    if ctors and "body" in ctors[0]:
                        self.construct_into(so, ctors[0], [], None)
                    else:
                        self.default_init_struct(so)

    def init_field(self, obj, name, e):
        slot = obj.fields.get(name)
        fr = None
        # field initialisers are evaluated with `this` = obj
        class _F:
            pass
        need = not self.frames or self.frames[-1].this is not obj
        if need:
            f = Frame({"name": "<init>", "params": [], "id": -1}, obj, len(self.frames))
            f.env = self.frames[-1].env if self.frames else {}
            self.frames.append(f)
        try:
            if slot is None:
                obj.fields[name] = self.ev(e)
                return
            if isinstance(slot, StructObj):
                if e["k"] == "ctor":
                    g = self.prog.functions[e["f"]]
                    self.construct_into(slot, g, [self.ev(a) for a in e["args"]], e)
                    return
                v = self.ev(e)
                self.copy_struct(slot, v)
                return
            if isinstance(slot, list):
                return
            if e["k"] == "ctor" and not e["args"] and not e.get("zero"):
                self.store(slot, self.default_content(slot.tid, slot.name))
                return
            v = self.rv(e)
            if isinstance(v, UninitV):
                return
            self.init_store(slot, v)
        finally:
            if need:
                self.frames.pop()

    def init_store(self, cell, v):
        v = self.convert(v, cell.tid)
        self.store(cell, self.eg.assign_value(cell, v, self.load(cell)))

    # ------------------------------------------------------------------ statements
    def exec(self, s):
        if s is None or self.S is None:
            return
        self.nstmts += 1
        k = s["k"]
        if s.get("loc"):
            self.curloc = s["loc"]
            self.stmt_locs.add(s["loc"])
        getattr(self, "x_" + k)(s)

    def x_blk(self, s):
        for x in s["a"]:
            if self.S is None:
                return
            self.exec(x)

    def x_e(self, s):
        try:
            self.ev(s["e"])
        except AbortPath:
            self.S = None

    def x_unk(self, s):
        self.unsupported("statement " + s["cls"])

    def x_decl(self, s):
        for v in s["a"]:
            self.declare(v)

    def declare(self, v):
        fr = self.frames[-1]
        self.curloc = v["loc"]
        t = self.prog.types[v["t"]]
        if v.get("static"):
            key = ("static", v["id"])
            if key in self.globals:
                fr.env[v["id"]] = self.globals[key]
                return
        if "init" not in v:
            fr.env[v["id"]] = self.new_object(v["t"], v["n"])
            return
        e = v["init"]
        if t["k"] == "ref" or (t["k"] == "rec" and self.eg.is_refclass(self.prog.records[t["r"]])):
            a = self.ev(e)
            self.bind(fr, v["id"], v["t"], v["n"], a)
        elif self.is_struct(v["t"]):
            o = self.ev(e)
            if isinstance(o, (Closure, FnRef)):
                fr.env[v["id"]] = TempLV(o)
            elif e["k"] in ("ctor", "call", "ilist") and isinstance(o, StructObj) and not e.get("lv"):
                o.name = v["n"]
                fr.env[v["id"]] = o
            else:
                n = self.new_object(v["t"], v["n"])
                self.copy_struct(n, o)
                fr.env[v["id"]] = n
        else:
            if e["k"] == "ctor" and not e["args"] and not e.get("zero"):
                fr.env[v["id"]] = self.new_object(v["t"], v["n"])
            else:
                a = self.rv(e)
                cell = self.new_object(v["t"], v["n"])
                if isinstance(a, StructObj):
                    fr.env[v["id"]] = a
                else:
                    if not isinstance(a, UninitV):
                        self.init_store(cell, a)
                    fr.env[v["id"]] = cell
        if v.get("static"):
            self.globals[("static", v["id"])] = fr.env[v["id"]]

    def x_if(self, s):
        if "init" in s:
            self.exec(s["init"])
        if "cv" in s:
            self.exec(s["cv"])
        try:
            c = self.truth(self.ev(s["c"]))
        except AbortPath:
            self.S = None
            return
        self.branch(c, lambda: self.exec(s["a"]), lambda: self.exec(s["b"]))

    def branch(self, c, fa, fb):
        c = self.decide(c)
        if c is True:
            fa()
            return
        if c is False:
            fb()
            return
        s0 = self.S
        rels0 = list(s0.rels)
        s2 = s0.fork()
        # then
        self.S = s0
        self.assume(c)
        fa()
        r1 = self.S
        self.S = s2
        self.assume(ONE - c)
        fb()
        r2 = self.S
        if r1 is None or r2 is None:
            self.S = r1 or r2
            return
        rels = rels0[:-1] + [r1.rels[-1] + r2.rels[-1]]
        self.S = self.merge2(c, r1, r2, rels)

    def branch_val(self, c, fa, fb):
        """conditional expression / short-circuit: returns merged value"""
        c = self.decide(c)
        if c is True:
            return fa()
        if c is False:
            return fb()
        s0 = self.S
        rels0 = list(s0.rels)
        s2 = s0.fork()
        self.assume(c)
        r1 = r2 = None
        try:
            v1 = fa()
            r1 = self.S
        except AbortPath:
            pass
        self.S = s2
        self.assume(ONE - c)
        try:
            v2 = fb()
            r2 = self.S
        except AbortPath:
            pass
        if r1 is None and r2 is None:
            raise AbortPath()
        if r1 is None:
            self.S = r2
            return v2
        if r2 is None:
            self.S = r1
            return v1
        if isinstance(v1, (LV, StructObj)) or isinstance(v2, (LV, StructObj)):
            v = self.merge_ref(c, v1, v2, r1, r2)
        elif v1 is None and v2 is None:
            v = None
        else:
            v = self.merge_val(c, v1, v2)
        rels = rels0[:-1] + [r1.rels[-1] + r2.rels[-1]]
        self.S = self.merge2(c, r1, r2, rels)
        return v

    def x_ret(self, s):
        fr = self.frames[-1]
        v = None
        if "e" in s:
            try:
                v = self.ev(s["e"])
            except AbortPath:
                self.S = None
                return
            rt = self.prog.types[fr.f["ret"]] if fr.f.get("ret") else {"k": "void"}
            if rt["k"] == "void":
                v = None
            elif rt["k"] == "ref":
                pass
            elif rt["k"] == "rec" and self.eg.is_refclass(self.prog.records[rt["r"]]):
                pass
            else:
                v = self.load(v)
                if isinstance(v, StructObj):
                    if not any(v is x for x in [fr.this]) and v.uid >= fr.first_oid:
                        pass
                    else:
                        o = self.new_struct(v.rec, v.name)
                        self.copy_struct(o, v)
                        v = o
                else:
                    v = self.convert(v, fr.f["ret"])
        h = self.hooks.get("return")
        if h:
            h(self, fr, v, s)
        fr.returns.append((self.S, v))
        self.S = None

    def x_break(self, s):
        self.frames[-1].loops[-1][0].append(self.S)
        self.S = None

    def x_continue(self, s):
        self.frames[-1].loops[-1][1].append(self.S)
        self.S = None

    def x_switch(self, s):
        v = self.rv(s["c"])
        fr = self.frames[-1]
        items = s["a"]
        # group: entry points
        labels = []  # (index, value or None)
        for i, it in enumerate(items):
            if it["k"] == "case":
                labels.append((i, self.num(self.rv(it["v"]))))
            elif it["k"] == "default":
                labels.append((i, None))
        breaks = []
        outer = fr.loops[-1] if fr.loops else ([], [])
        fr.loops.append((breaks, outer[1]))
        base = self.S
        pend = []
        notany = ONE
        conds = []
        for i, lv in labels:
            if lv is None:
                continue
            c = self._eqcond(v, lv)
            conds.append((i, c))
            if c is True:
                notany = ZERO
            elif c is not False:
                notany = notany * (ONE - c)
        dflt = [i for i, lv in labels if lv is None]
        entries = {}
        for i, c in conds:
            entries.setdefault(i, c)
        if dflt:
            entries[dflt[0]] = notany
            rest = None
        else:
            rest = notany
        cur = None
        for i, it in enumerate(items):
            if it["k"] in ("case", "default"):
                c = entries.get(i, False)
                if isinstance(c, Poly) and c.is_const():
                    c = bool(c.const())
                self.S = base
                c = self.decide(c) if not isinstance(c, bool) else c
                if c is False:
                    continue
                ns = base.fork()
                if c is not True:
                    ns.rels[-1] = ns.rels[-1] * c
                if cur is None:
                    cur = ns
                else:
                    cur, _ = self.merge_list([(cur, None), (ns, None)])
                continue
            if cur is None:
                continue
            self.S = cur
            self.exec(it)
            cur = self.S
        outs = list(breaks)
        if cur is not None:
            outs.append(cur)
        if rest is not None and rest.m:
            ns = base.fork()
            self.S = base
            d = self.decide(rest)
            if d is not False:
                if d is not True:
                    ns.rels[-1] = ns.rels[-1] * rest
                outs.append(ns)
        fr.loops.pop()
        if not outs:
            self.S = None
            return
        self.S, _ = self.merge_list([(o, None) for o in outs])

    def _eqcond(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        c = cmp0("==", P(a) - P(b))
        if c.is_const():
            return bool(c.const())
        return c

    # loops ---------------------------------------------------------------
    def x_for(self, s):
        if s.get("init"):
            self.exec(s["init"])
        self.loop(s, lambda: True if not s.get("c") else self.truth(self.ev(s["c"])), s["body"],
                  (lambda: self.ev(s["inc"])) if s.get("inc") else None)

    def x_while(self, s):
        self.loop(s, lambda: self.truth(self.ev(s["c"])), s["body"], None)

    def x_do(self, s):
        self.loop(s, lambda: self.truth(self.ev(s["c"])), s["body"], None, dofirst=True)

    def x_range(self, s):
        r = self.ev(s["r"])
        v = self.load(r)
        if isinstance(v, (MatV, ListV)):
            fr = self.frames[-1]
            breaks, conts = [], []
            fr.loops.append((breaks, conts))
            for k in range(len(v.d)):
                if self.S is None:
                    break
                e = ElemLV(r if isinstance(r, LV) else TempLV(v), k)
                self.bind(fr, s["v"]["id"], s["v"]["t"], s["v"]["n"], e)
                self.exec(s["body"])
                self._join_conts(conts)
            fr.loops.pop()
            outs = list(breaks) + ([self.S] if self.S is not None else [])
            if not outs:
                self.S = None
                return
            self.S, _ = self.merge_list([(o, None) for o in outs])
            return
        h = self.hooks.get("range")
        if h:
            elem = h(self, s, v)
            if elem is not None:
                self.generic_range(s, elem)
                return
        self.unsupported("range-for over %r" % (v,))

    def generic_range(self, s, elemf):
        fr = self.frames[-1]
        more = self.fresh("more_elements", ind=True)

        def cond():
            return more

        def body():
            fr.env[s["v"]["id"]] = elemf()
            self.exec(s["body"])
        self.havoc_loop(s, cond, body, None, False)

    def _join_conts(self, conts):
        outs = list(conts) + ([self.S] if self.S is not None else [])
        del conts[:]
        if not outs:
            self.S = None
        elif len(outs) == 1:
            self.S = outs[0]
        else:
            self.S, _ = self.merge_list([(o, None) for o in outs])

    def loop(self, s, cond, bodystmt, inc, dofirst=False):
        fr = self.frames[-1]
        body = lambda: self.exec(bodystmt)
        saved = self.S.fork()
        breaks, conts = [], []
        fr.loops.append((breaks, conts))
        nret = len(fr.returns)
        n = 0
        symbolic = False
        try:
            while self.S is not None:
                if not (dofirst and n == 0):
                    self.curloc = s["loc"]
                    c = self.decide(cond())
                    if c is False:
                        break
                    if c is not True:
                        symbolic = True
                        break
                n += 1
                if n > MAXUNROLL or (len(breaks) > 40):
                    symbolic = True
                    break
                body()
                self._join_conts(conts)
                if self.S is not None and inc:
                    inc()
        finally:
            fr.loops.pop()
        if symbolic and self.peel and not dofirst and 1 <= n <= 2:
            # the first iterations are certain: analyse them as they are, the rest as an arbitrary iteration
            self.loops_seen[s["loc"]] = "first iteration, then arbitrary iteration"
            self.havoc_loop(s, cond, body, inc, dofirst)
            outs = breaks + ([self.S] if self.S is not None else [])
            if not outs:
                self.S = None
            elif len(outs) == 1:
                self.S = outs[0]
            else:
                self.S, _ = self.merge_list([(o, None) for o in outs])
            return
        if symbolic:
            del fr.returns[nret:]
            self.S = saved
            self.loops_seen[s["loc"]] = "arbitrary-iteration"
            self.havoc_loop(s, cond, body, inc, dofirst)
            return
        self.loops_seen.setdefault(s["loc"], "constant-trip-count")
        outs = breaks + ([self.S] if self.S is not None else [])
        if not outs:
            self.S = None
        elif len(outs) == 1:
            self.S = outs[0]
        else:
            self.S, _ = self.merge_list([(o, None) for o in outs])

    def havoc_content(self, base, old, new, tag):
        """fresh unknowns where old and new differ"""
        if isinstance(old, (Poly, int)) and isinstance(new, (Poly, int)):
            isint = (isinstance(old, int) or isintpoly(P(old))) and isintpoly(P(new))
            ind = isinstance(old, bool) or isinstance(old, Poly) and self._isindicator(old)
            ind = ind and (isinstance(new, bool) or isinstance(new, Poly) and self._isindicator(new))
            return self.fresh(tag, isint=isint and not ind, ind=ind)
        if isinstance(old, MatV) and isinstance(new, MatV) and (old.r, old.c) == (new.r, new.c):
            return MatV(old.r, old.c, [a if self._same(a, b) else self.havoc_content(base, a, b, "%s[%d]" % (tag, i)) for i, (a, b) in enumerate(zip(old.d, new.d))], old.arr)
        if isinstance(old, SpV) and isinstance(new, SpV) and old.pattern() == new.pattern():
            return SpV(old.r, old.c, old.outer, old.nnz, old.inner, [a if self._same(a, b) else self.havoc_content(base, ZERO if a is None else a, ZERO if b is None else b, "%s[%d]" % (tag, i)) for i, (a, b) in enumerate(zip(old.vals, new.vals))])
        if isinstance(old, ADVal) or isinstance(new, ADVal):
            old, new = self.to_ad(old), self.to_ad(new)
            n = max(len(old.d), len(new.d))
            return ADVal(self.havoc_content(base, old.v, new.v, tag + ".v"), [self.fresh(tag + ".d") for _ in range(n)])
        if isinstance(old, SolverV) and isinstance(new, SolverV):
            n = max(old.n, new.n)
            return SolverV(new.kind, KeyRef.get([self.fresh(tag + ".fact")], tag), n, new.uplo, new.pattern)
        if isinstance(old, OpaqueV):
            self.nfresh += 1
            return OpaqueV("%s~%d" % (tag, self.nfresh))
        if isinstance(old, ListV) and isinstance(new, ListV) and len(old.d) == len(new.d):
            return ListV([a if self._same(a, b) else self.havoc_content(base, a, b, tag) for a, b in zip(old.d, new.d)])
        return Conflict(old, new)

    def _same(self, a, b):
        if a is b:
            return True
        if type(a) is not type(b) and not (isinstance(a, (int, Poly)) and isinstance(b, (int, Poly))):
            return False
        return a == b

    def havoc_loop(self, s, cond, body, inc, dofirst):
        fr = self.frames[-1]
        entry = self.S
        first_temp = TempLV.count + 1
        nret = len(fr.returns)
        tab = self.celltab()
        modified = {}   # oid -> content at head (havoced)
        tmpl = self.hooks.get("loop")
        linfo = {"loc": s["loc"], "fn": fr.f["name"], "q": fr.f.get("q", ""), "entry": entry, "stmt": s}
        tied = {}       # oid -> (oid of the counter it moves with, constant distance)
        untied = set()
        for it in range(24):
            head = entry.fork()
            for oid, v in modified.items():
                head.heap[oid] = v
            for oid, (u, dist) in tied.items():
                modified[oid] = head.heap[oid] = P(modified[u]) + dist
            if tmpl:
                self.S = head
                tmpl(self, "head", linfo, modified)
            headsnap = head.fork()
            linfo["head"] = headsnap
            breaks, conts = [], []
            fr.loops.append((breaks, conts))
            del fr.returns[nret:]
            self.S = head
            exits = []
            if not dofirst:
                c = self.decide(cond())
                if c is False:
                    ex = self.S
                    self.S = None
                    exits.append(("cond", ex))
                elif c is not True:
                    ex = self.S.fork()
                    ex.rels[-1] = ex.rels[-1] * (ONE - c)
                    exits.append(("cond", ex))
                    self.assume(c)
            if self.S is not None:
                body()
            self._join_conts(conts)
            if self.S is not None and inc:
                inc()
            if dofirst and self.S is not None:
                c = self.decide(cond())
                if c is False:
                    exits.append(("cond", self.S))
                    self.S = None
                elif c is not True:
                    ex = self.S.fork()
                    ex.rels[-1] = ex.rels[-1] * (ONE - c)
                    exits.append(("cond", ex))
                    self.assume(c)
            back = self.S
            fr.loops.pop()
            changed = False
            if back is not None:
                for oid, v in back.heap.items():
                    if oid not in entry.heap:
                        if oid >= 0 or oid <= -first_temp:
                            continue
                        entry.heap[oid] = TempLV.init[oid]
                        headsnap.heap.setdefault(oid, TempLV.init[oid])
                    w = headsnap.heap.get(oid)
                    if v is w or self._same(v, w):
                        continue
                    if oid in tied:
                        u, dist = tied[oid]
                        if P(v) == P(back.heap[u]) + dist:
                            continue
                        del tied[oid]
                        untied.add(oid)
                        modified[oid] = self.fresh(tab.get(oid, "cell%d" % oid), isint=True)
                        changed = True
                        continue
                    if oid in modified and self._covered(modified[oid], entry.heap[oid], v):
                        continue
                    name = tab.get(oid, "cell%d" % oid)
                    nv = self.havoc_content(None, entry.heap[oid], self._blend(modified.get(oid), entry.heap[oid], v), "%s@%s" % (name, s["loc"].split(":")[-1]))
                    modified[oid] = nv
                    changed = True
            linfo["back"] = back
            if not changed and back is not None:
                changed = self._tie_counters(entry, back, modified, tied, untied)
            if not changed:
                break
        else:
            self.unsupported("loop does not stabilise")
        if tmpl:
            tmpl(self, "done", linfo, modified)
        linfo["breaks"] = breaks
        linfo["exits"] = exits
        sel = self.hooks.get("loop_exit")
        if sel:
            kinds = [("break", b) for b in breaks] + [("cond", e) for _, e in exits]
            rets = fr.returns[nret:]
            keep = sel(self, linfo, kinds + [("return", r[0]) for r in rets])
            if keep is not None:
                ks = [k for k in kinds if any(k[1] is x for x in keep)]
                fr.returns[nret:] = [r for r in rets if any(r[0] is x for x in keep)]
                breaks = [x for k, x in ks if k == "break"]
                exits = [("cond", x) for k, x in ks if k == "cond"]
        outs = [b for b in breaks] + [e for _, e in exits]
        if not outs:
            self.S = None
            return
        if len(outs) == 1:
            self.S = outs[0]
        else:
            self.S, _ = self.merge_list([(o, None) for o in outs])

    def _tie_counters(self, entry, back, modified, tied, untied):
        """integer variables that keep a constant distance from one another over every iteration"""
        ints = []
        for oid, v in sorted(modified.items()):
            if oid in tied or oid in untied or not isinstance(v, Poly) or len(v.m) != 1:
                continue
            (mono, c), = v.m.items()
            if c == 1 and len(mono) == 1 and mono[0][1] == 1 and ATOMS[mono[0][0]].kind == "v" and ATOMS[mono[0][0]].isint and isinstance(entry.heap.get(oid), (int, Poly)) and isinstance(back.heap.get(oid), (int, Poly)):
                ints.append((oid, mono[0][0]))
        if len(ints) > 8:
            return False
        got = False
        for k, (oid, a) in enumerate(ints):
            for u, b in ints[:k]:
                if u in tied:
                    continue
                dist = P(entry.heap[oid]) - P(entry.heap[u])
                if not dist.is_const():
                    continue
                sub = {ATOMS[a].args[0]: P(modified[u]) + dist}
                if subst(P(back.heap[oid]) - P(back.heap[u]), sub) == dist:
                    tied[oid] = (u, dist)
                    got = True
                    break
        return got

    def _blend(self, cur, entry, new):
        """which elements differ from the entry content in either the current head or the new back-edge value"""
        if cur is None:
            return new
        if isinstance(entry, MatV) and isinstance(new, MatV) and isinstance(cur, MatV) and len(cur.d) == len(new.d):
            return MatV(new.r, new.c, [n if self._same(e, h) else h for n, h, e in zip(new.d, cur.d, entry.d)])
        if isinstance(entry, SpV) and isinstance(new, SpV) and isinstance(cur, SpV) and entry.pattern() == new.pattern() == cur.pattern():
            return SpV(new.r, new.c, new.outer, new.nnz, new.inner, [n if self._same(e, h) else h for n, h, e in zip(new.vals, cur.vals, entry.vals)])
        if isinstance(entry, ListV) and isinstance(new, ListV) and isinstance(cur, ListV) and len(cur.d) == len(new.d):
            return ListV([self._blend(h, e, n) for n, h, e in zip(new.d, cur.d, entry.d)])
        return new

    def _covered(self, head, entry, back):
        """every element changed on the back edge is already unknown at the head"""
        if isinstance(head, MatV) and isinstance(entry, MatV) and isinstance(back, MatV) and len(head.d) == len(entry.d) == len(back.d):
            return all(self._same(h, b) or not self._same(h, e) for h, e, b in zip(head.d, entry.d, back.d))
        if isinstance(head, SpV) and isinstance(back, SpV):
            return head.pattern() == back.pattern() and all(self._same(h, b) or not self._same(h, e) for h, e, b in zip(head.vals, entry.vals, back.vals))
        if isinstance(head, ListV):
            return len(head.d) == len(back.d) and all(self._covered(h, e, b) or self._same(h, b) for h, e, b in zip(head.d, entry.d, back.d))
        if isinstance(head, Poly) and isinstance(back, (int, Poly)) and not isinstance(back, bool):
            # an unknown of a narrow type covers only values of that type
            if self._isindicator(head) and not self._isindicator(P(back)) or isintpoly(head) and not isintpoly(P(back)):
                return False
        return not self._same(head, entry)

    def celltab(self):
        """oid -> readable name for all cells reachable from frames"""
        tab = {}

        def walk(x, depth=0):
            if isinstance(x, Cell):
                tab[x.oid] = x.name
            elif isinstance(x, StructObj) and depth < 6:
                for f in x.fields.values():
                    walk(f, depth + 1)
            elif isinstance(x, list):
                for y in x:
                    walk(y, depth + 1)
        for fr in self.frames:
            walk(fr.this)
            for v in list(fr.env.values()):
                walk(v)
        for v in self.globals.values():
            walk(v)
        return tab

    # ------------------------------------------------------------------ expressions
    def rv(self, e):
        return self.load(self.ev(e))

    def ev(self, e):
        k = e["k"]
        return getattr(self, "e_" + k)(e)

    def e_int(self, e):
        v = e["v"]
        return int(v)

    def e_float(self, e):
        f = float(e["v"])
        if f in (float("inf"), float("-inf")) or f != f:
            p = var("INFINITY")
            return -p if f < 0 else p
        if self.numeric is not None:
            return self.numeric.literal(f)
        return const(Fraction(repr(f)))

    def e_null(self, e):
        return None

    def e_str(self, e):
        return OpaqueV(("str", e.get("v", "")))

    def e_this(self, e):
        this = self.frames[-1].this
        return Ptr("obj", this)

    def e_fref(self, e):
        return FnRef(self.prog.functions[e["f"]])

    def e_unk(self, e):
        self.unsupported("expression " + e["cls"])

    def e_var(self, e):
        fr = self.frames[-1]
        x = fr.env.get(e["id"])
        if x is not None:
            return x
        if e.get("g"):
            return self.global_var(e)
        self.unsupported("unbound variable %s" % e["n"])

    def global_var(self, e):
        g = self.globals.get(e["id"])
        if g is None:
            info = self.prog.globals.get(e["id"])
            if info is None:
                self.unsupported("global %s" % e["n"])
            if not info.get("mine"):
                x = self.std.global_var(info)
                self.globals[e["id"]] = x
                return x
            g = self.new_object(info["t"], info["n"])
            self.globals[e["id"]] = g
            if "init" in info and not isinstance(g, StructObj):
                self.init_store(g, self.rv(info["init"]))
            elif "init" in info and isinstance(g, StructObj):
                o = self.ev(info["init"])
                self.copy_struct(g, o)
            self.pinned.add(g.oid) if isinstance(g, Cell) else None
        elif isinstance(g, Cell) and g.oid not in self.S.heap:
            info = self.prog.globals.get(e["id"])
            c = self.default_content(info["t"], info["n"])
            self.S.heap[g.oid] = c
            if "init" in info:
                self.init_store(g, self.rv(info["init"]))
        return g

    def objof(self, e):
        """evaluates the base of a member access; resolves pointers"""
        b = self.ev(e["b"] if "b" in e else e["obj"])
        return self.deref_obj(b)

    def deref_obj(self, b):
        if isinstance(b, Ptr) and b.kind == "obj":
            return b.m
        if isinstance(b, (StructObj,)):
            return b
        if isinstance(b, LV):
            if isinstance(b, TempLV) and isinstance(b.v0, StructObj):
                return b.v0
            v = None
            if isinstance(b, Cell):
                t = self.prog.deref(b.tid)
                if t["k"] == "ptr":
                    v = self.load(b)
                    if isinstance(v, Ptr):
                        return self.deref_obj(v)
                if t["k"] == "rec":
                    x = self.S.heap.get(b.oid)
                    if isinstance(x, StructObj):
                        return x
        return b

    def e_mem(self, e):
        b = self.objof(e)
        if isinstance(b, Ptr) and b.kind == "elem":
            b = self.deref_obj(self.ptr_deref(b, 0))
        if isinstance(b, StructObj):
            if e["n"] not in b.fields:
                self.unsupported("field %s of %s" % (e["n"], b.rec["name"]))
            f = b.fields[e["n"]]
            if f is None:
                self.unsupported("reference field %s not bound" % e["n"])
            return f
        if e.get("b", {}).get("k") == "this" and isinstance(self.frames[-1].this, Closure):
            pass
        r = self.std.member(b, e)
        if r is not None:
            return r
        self.unsupported("member %s of %r" % (e["n"], b))

    def e_mref(self, e):
        return FnRef(self.prog.functions[e["f"]], self.objof(e))

    def e_un(self, e):
        op = e["op"]
        if op == "&":
            x = self.ev(e["e"])
            return Ptr("obj", x) if not isinstance(x, ElemLV) else Ptr("elem", x.m, x.k)
        if op == "*":
            x = self.ev(e["e"])
            x = self.load(x) if isinstance(x, LV) and not isinstance(x, StructObj) else x
            return self.ptr_deref(x, 0)
        if op in ("++", "--", "++post", "--post"):
            lv = self.ev(e["e"])
            v = self.load(lv)
            d = 1 if op[0] == "+" else -1
            if isinstance(v, Ptr):
                nv = Ptr(v.kind, v.m, v.off + d)
            elif isinstance(v, InnerIter):
                nv = InnerIter(v.m, v.j, v.p + d, v.end)
            else:
                nv = v + d if isinstance(v, int) else self.num(v) + d
            self.store(lv, nv)
            return v if op.endswith("post") else lv
        v = self.rv(e["e"])
        if op == "-":
            return self.eg.neg(v)
        if op == "+":
            return v
        if op == "!":
            c = self.truth(v)
            return (not c) if isinstance(c, bool) else ONE - c
        if op == "~" and isinstance(v, int):
            return ~v
        if op == "__extension__":
            return v
        self.unsupported("unary " + op)

    def ptr_deref(self, p, i):
        if isinstance(p, ListV):
            return p.d[i]
        if p is None:
            self.event("nullptr", "a null pointer is dereferenced")
            raise AbortPath(self.events[-1])
        if not isinstance(p, Ptr):
            self.unsupported("dereference of %r" % (p,))
        o = p.off + i
        if p.kind == "obj":
            if o != 0:
                self.unsupported("pointer arithmetic on object pointer")
            return p.m
        if p.kind == "elem":
            m = self.load(p.m)
            n = len(m.d)
            if not (0 <= o < n):
                self.event("oob", "pointer access at offset %d of %d" % (o, n))
            return ElemLV(p.m, o)
        return SpPosLV(p.m, p.kind, o)

    def e_idx(self, e):
        b = self.ev(e["b"])
        i = self.intval(self.ev(e["i"]))
        if isinstance(b, list):
            return b[i]
        if isinstance(b, LV):
            v = self.load(b)
            if isinstance(v, Ptr):
                return self.ptr_deref(v, i)
            return ElemLV(b, i)
        if isinstance(b, Ptr):
            return self.ptr_deref(b, i)
        self.unsupported("subscript of %r" % (b,))

    def kindt(self, t):
        return self.prog.deref(t)["k"]

    def arith(self, op, a, b, tid):
        k = self.kindt(tid) if tid else "float"
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptr_arith(op, a, b)
        a, b = self.num(a), self.num(b)
        if isinstance(a, ADVal) or isinstance(b, ADVal):
            return self.eg.sarith(op, a, b)
        if k in ("int", "enum", "bool"):
            if isinstance(a, int) and isinstance(b, int):
                if op == "+": return a + b
                if op == "-": return a - b
                if op == "*": return a * b
                if op in ("/", "%"):
                    if b == 0:
                        self.event("div0", "integer division by zero")
                        raise AbortPath()
                    q = abs(a) // abs(b)
                    if (a < 0) != (b < 0):
                        q = -q
                    return q if op == "/" else a - q * b
                if op == "<<": return a << b
                if op == ">>": return a >> b
                if op == "&": return a & b
                if op == "|": return a | b
                if op == "^": return a ^ b
            if op == "/":
                return fn("idiv", P(a), P(b), isint=True)
            if op == "%":
                return fn("imod", P(a), P(b), isint=True)
            if op in ("&", "|", "^"):
                ta, tb = P(self.truth(a)), P(self.truth(b))
                return ta * tb if op == "&" else (ta + tb - ta * tb if op == "|" else ta + tb - 2 * ta * tb)
        return self.eg.sarith(op, a, b)

    def ptr_arith(self, op, a, b):
        if op == "+":
            if isinstance(b, Ptr):
                a, b = b, a
            return Ptr(a.kind, a.m, a.off + self.intval(b))
        if op == "-":
            if isinstance(b, Ptr):
                return a.off - b.off
            return Ptr(a.kind, a.m, a.off - self.intval(b))
        self.unsupported("pointer " + op)

    def e_bin(self, e):
        op = e["op"]
        if op == "&&" or op == "||":
            a = self.truth(self.ev(e["l"]))
            a = self.decide(a)
            if a is False:
                return False if op == "&&" else self.truth(self.ev(e["r"]))
            if a is True:
                return True if op == "||" else self.truth(self.ev(e["r"]))
            # right operand is evaluated only on one side
            s0rels = list(self.S.rels)
            s2 = self.S.fork()
            self.assume(a if op == "&&" else ONE - a)
            try:
                b = self.truth(self.ev(e["r"]))
            except AbortPath:
                self.S = s2
                self.S.rels[-1] = self.S.rels[-1] * ((ONE - a) if op == "&&" else a)
                return op == "||"
            r1 = self.S
            s2.rels[-1] = s2.rels[-1] * ((ONE - a) if op == "&&" else a)
            self.S = self.merge2(a if op == "&&" else ONE - a, r1, s2, s0rels)
            b = P(b)
            r = a * b if op == "&&" else a + b - a * b
            if r.is_const():
                return bool(r.const())
            return r
        if op == ",":
            self.ev(e["l"])
            return self.ev(e["r"])
        self.curloc = e.get("loc") or self.loc()
        a = self.rv(e["l"])
        b = self.rv(e["r"])
        if op in ("<", "<=", ">", ">=", "==", "!="):
            return self.compare(op, a, b)
        return self.arith(op, a, b, e["t"])

    def compare(self, op, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr) or a is None or b is None:
            if op in ("==", "!="):
                if a is None or b is None:
                    r = a is None and b is None
                else:
                    r = a == b
                return r if op == "==" else not r
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                return {"<": a.off < b.off, "<=": a.off <= b.off, ">": a.off > b.off, ">=": a.off >= b.off}[op]
        a, b = self.num(a), self.num(b)
        if isinstance(a, ADVal):
            a = self._adval(a)
        if isinstance(b, ADVal):
            b = self._adval(b)
        if isinstance(a, int) and isinstance(b, int):
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
        c = cmp0(op, P(a) - P(b))
        if c.is_const():
            return bool(c.const())
        if self.ranges is not None:
            r = self._byrange(op, P(a) - P(b))
            if r is not None:
                return r
        return c

    def _byrange(self, op, d):
        import decide
        lo, hi = decide.interval(d, self.ranges)
        s = 1 if lo > 0 else -1 if hi < 0 else None
        if s is None:
            return {"<": False if lo >= 0 else None, ">=": True if lo >= 0 else None, ">": False if hi <= 0 else None, "<=": True if hi <= 0 else None}.get(op)
        return {"<": s < 0, "<=": s < 0, ">": s > 0, ">=": s > 0, "==": False, "!=": True}[op]

    def _adval(self, a):
        while isinstance(a, ADVal):
            a = a.v
        return a

    def e_asg(self, e):
        r = self.ev(e["r"])
        l = self.ev(e["l"])
        self.curloc = e.get("loc") or self.loc()
        if isinstance(l, StructObj):
            self.copy_struct(l, r)
            return l
        v = self.load(r)
        if isinstance(l, LV) and not isinstance(v, ADVal):
            old = self.load(l)
            if isinstance(old, ADVal):
                v = self.eg.ad_keep(old, v)
        if isinstance(l, Cell):
            v = self.convert(v, l.tid)
        else:
            v = self.convert(v, e["t"])
        self.store(l, v)
        return l

    def e_casg(self, e):
        b = self.rv(e["r"])
        l = self.ev(e["l"])
        self.curloc = e.get("loc") or self.loc()
        a = self.load(l)
        v = self.arith(e["op"], a, b, e["ct"])
        v = self.convert(v, e["t"])
        self.store(l, v)
        return l

    def e_cond(self, e):
        c = self.truth(self.ev(e["c"]))
        return self.branch_val(c, lambda: self.ev(e["a"]), lambda: self.ev(e["b"]))

    def e_cast(self, e):
        ck = e["ck"]
        if ck in ("ToVoid",):
            self.ev(e["e"])
            return None
        if ck in ("BaseToDerived", "Dependent", "BitCast", "UncheckedDerivedToBase", "DerivedToBase"):
            return self.ev(e["e"])
        x = self.ev(e["e"])
        if ck in ("PointerToBoolean",):
            return self.truth(self.load(x) if isinstance(x, LV) else x)
        if ck in ("NullToPointer",):
            return None
        v = self.load(x)
        if ck in ("IntegralToFloating", "FloatingToIntegral", "FloatingCast", "IntegralCast", "IntegralToBoolean", "FloatingToBoolean", "BooleanToSignedIntegral"):
            if isinstance(v, ADVal):
                return v
            return self.convert(self.num(v), e["t"])
        return x

    def e_zeroinit(self, e):
        t = self.prog.deref(e["t"])
        return self.zero_of(e["t"])

    def zero_of(self, tid):
        t = self.prog.deref(tid)
        k = t["k"]
        if k == "float":
            return ZERO
        if k in ("int", "enum"):
            return 0
        if k == "bool":
            return False
        if k == "ptr":
            return None
        if self.is_struct(tid):
            return self.new_object(tid, "zero", lambda n, t: ZERO if t["k"] == "float" else (False if t["k"] == "bool" else 0))
        return self.default_content(tid, "zero", lambda n, t: ZERO if t["k"] == "float" else 0)

    def e_ilist(self, e):
        t = self.prog.deref(e["t"])
        vals = [self.ev(x) for x in e["a"]]
        if t["k"] in ("float", "int", "bool", "enum", "ptr"):
            return vals[0] if vals else self.zero_of(e["t"])
        if t["k"] == "arr":
            vs = [self.load(v) for v in vals]
            et = t["to"]
            while len(vs) < t["n"]:
                vs.append(self.zero_of(et))
            if all(isinstance(v, (int, Poly)) for v in vs):
                return MatV(len(vs), 1, [self.convert(v, et) for v in vs])
            return ListV(vs)
        if t["k"] == "rec":
            r = self.prog.records[t["r"]]
            if r["name"] == "std::array":
                v = self.load(vals[0]) if vals else None
                if isinstance(v, (MatV, ListV)):
                    n = r["args"][1]
                    return v
            if self.is_struct(e["t"]):
                o = self.new_struct(r, "agg")
                fs = r.get("fields", [])
                for f, v in zip(fs, vals):
                    slot = o.fields[f["n"]]
                    if slot is None:
                        o.fields[f["n"]] = v
                    elif isinstance(slot, StructObj):
                        self.copy_struct(slot, v)
                    else:
                        self.init_store(slot, self.load(v))
                return o
            return self.std.init_list(r, vals, e)
        self.unsupported("initialiser list")

    def e_stdilist(self, e):
        return self.ev(e["e"])

    def e_lambda(self, e):
        caps = {}
        this = None
        for c in e["caps"]:
            if c.get("this"):
                this = self.frames[-1].this
            elif c.get("ref"):
                caps[c["id"]] = self.frames[-1].env.get(c["id"])
            else:
                x = self.frames[-1].env.get(c["id"])
                if isinstance(x, StructObj):
                    caps[c["id"]] = x
                else:
                    caps[c["id"]] = TempLV(self.load(x))
        return Closure(self.prog.functions[e["f"]], caps, this)

    def call_closure(self, cl, args):
        f = cl.f
        if isinstance(cl, FnRef):
            return self.call(f, cl.this, args)
        # lambda body: captured variables are referenced by their original ids
        fr = Frame(f, cl.this, len(self.frames))
        fr.first_oid, fr.first_temp = self.noid, TempLV.count + 1
        fr.env.update(cl.caps)
        for p, a in zip(f["params"], args):
            self.bind(fr, p["id"], p["t"], p["n"], a)
        self.visited[f["id"]] = self.visited.get(f["id"], 0) + 1
        self.frames.append(fr)
        self.S.rels = list(self.S.rels) + [ONE]
        try:
            self.exec(f["body"])
            if self.S is not None:
                fr.returns.append((self.S, None))
            if not fr.returns:
                raise AbortPath(self.events[-1] if self.events else None)
            S, v = self.merge_list(fr.returns) if len(fr.returns) > 1 else fr.returns[0]
            inner = S.rels[-1]
            rels = list(S.rels[:-1])
            if inner != ONE:
                rels[-1] = rels[-1] * inner
            self.S = State(S.heap, rels)
            return v
        finally:
            self.frames.pop()

    def e_new(self, e):
        if e.get("init") and e["init"]["k"] == "ctor":
            return Ptr("obj", self.ev(e["init"]))
        return Ptr("obj", self.new_object(e["at"], "new"))

    def e_delete(self, e):
        self.ev(e["e"])
        return None

    def e_throw(self, e):
        raise AbortPath()

    def e_inhctor(self, e):
        return None

    def e_ctor(self, e):
        g = self.prog.functions[e["f"]]
        self.curloc = e.get("loc") or self.loc()
        t = self.prog.deref(e["t"])
        if t["k"] == "arr":
            return self.default_content(e["t"], "tmp")
        if self.is_struct(e["t"]):
            rec = self.prog.records[t["r"]]
            args = [self.ev(a) for a in e["args"]]
            if rec.get("lambda") and args:
                return args[0]
            if len(args) == 1 and isinstance(args[0], TempLV) and isinstance(args[0].v0, (Closure, FnRef)):
                return args[0].v0
            o = self.new_struct(rec, "tmp")
            self.construct_into(o, g, args, e)
            return o
        args = [self.ev(a) for a in e["args"]]
        rec = self.prog.records[self.prog.deref(e["t"])["r"]]
        r = self.eg.construct(rec, args, e, g)
        if r is not NotImplemented:
            return r
        r = self.std.construct(rec, args, e, g)
        if r is not NotImplemented:
            return r
        self.unsupported("constructor of %s" % rec["full"])

    def e_call(self, e):
        loc = e.get("loc")
        if "f" not in e:
            fe = self.ev(e["fe"])
            args = [self.ev(a) for a in e["args"]]
            fe = self.load(fe)
            if isinstance(fe, (Closure, FnRef)):
                return self.call_closure(fe, args)
            if isinstance(fe, Ptr) and isinstance(fe.m, (Closure, FnRef)):
                return self.call_closure(fe.m, args)
            if "obj" in e:
                pass
            h = self.hooks.get("indirect")
            if h:
                return h(self, e, fe, args)
            self.unsupported("indirect call through %r" % (fe,))
        f = self.prog.functions[e["f"]]
        obj = None
        if "obj" in e:
            obj = self.deref_obj(self.ev(e["obj"]))
        args = [self.ev(a) for a in e["args"]]
        if loc:
            self.curloc = loc
        v = obj
        if isinstance(obj, LV) and not isinstance(obj, StructObj):
            c = self.S.heap.get(obj.oid) if isinstance(obj, Cell) else (self.load(obj) if isinstance(obj, TempLV) else None)
            if isinstance(c, (Closure, FnRef)):
                return self.call_closure(c, args)
        if isinstance(obj, (Closure, FnRef)):
            return self.call_closure(obj, args)
        h = self.hooks.get("call")
        if h:
            r = h(self, f, obj, args, e)
            if r is not NotImplemented:
                return r
        mine = f.get("mine")
        if mine and self.ad_primitive and "AutoDiffScalar" in f.get("loc", "") and (self.ad_primitive is True or self.prim_call(f)):
            mine = False
        if mine:
            if isinstance(obj, StructObj) or "rec" not in f or f.get("static"):
                return self.call(f, obj, args)
            if isinstance(obj, TempLV) and isinstance(obj.v0, StructObj):
                return self.call(f, obj.v0, args)
            if f.get("body") is not None:
                return self.call(f, obj, args)
        r = self.eg.call(f, obj, args, e)
        if r is not NotImplemented:
            return r
        r = self.std.call(f, obj, args, e)
        if r is not NotImplemented:
            return r
        if isinstance(obj, StructObj):
            return self.call(f, obj, args)
        if f.get("mine") and "rec" not in f and f.get("body") is not None:
            return self.call(f, None, args)     # a helper next to the primitive operations
        if f["name"] == "operator()" and isinstance(self.load(obj) if isinstance(obj, LV) else obj, (Closure, FnRef)):
            return self.call_closure(self.load(obj), args)
        self.unsupported("call of %s on %s" % (f["q"], type(self.load(obj) if isinstance(obj, LV) else obj).__name__))
