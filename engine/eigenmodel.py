"""Abstract semantics of the Eigen operations the repository uses (element-wise value numbering)."""
from terms import *
from fractions import Fraction
from values import *

FACTORISATIONS = {"LDLT": "chol", "LLT": "chol", "SimplicialLDLT": "chol", "SimplicialLLT": "chol", "ConjugateGradient": "chol",
                  "PartialPivLU": "lu", "FullPivLU": "lu", "HouseholderQR": "lu", "ColPivHouseholderQR": "lu", "SparseLU": "lu", "SparseQR": "lu",
                  "FullPivHouseholderQR": "lu", "CompleteOrthogonalDecomposition": "lu", "LeastSquaresConjugateGradient": "lu", "BiCGSTAB": "lu", "MINRES": "chol"}
REFCLASSES = {"Eigen::Ref", "Eigen::Map", "Eigen::Block", "Eigen::VectorBlock", "Eigen::Transpose", "Eigen::Diagonal", "Eigen::NoAlias",
              "Eigen::ArrayWrapper", "Eigen::MatrixWrapper", "Eigen::Reverse", "Eigen::TriangularView", "Eigen::SelfAdjointView", "Eigen::RefBase", "Eigen::MapBase"}
OPENDS = ("Eigen::MatrixBase", "Eigen::DenseBase", "Eigen::PlainObjectBase", "Eigen::EigenBase", "Eigen::ArrayBase", "Eigen::SparseMatrixBase")


class EigenModel:
    def __init__(self, I):
        self.I = I

    # ------------------------------------------------------------------ types
    def is_primitive(self, r):
        return r["name"].startswith("Eigen::") and not r.get("mine")

    def is_refclass(self, r):
        return r["name"] in REFCLASSES

    def is_adrec(self, r):
        return r["name"] == "Eigen::AutoDiffScalar"

    def matdims(self, r):
        """(rows, cols) of Eigen::Matrix/Array record, -1 dynamic"""
        a = r["args"]
        return a[1], a[2]

    def default_scalar(self, tid, name, sym):
        t = self.I.prog.deref(tid)
        if t["k"] == "rec":
            r = self.I.prog.records[t["r"]]
            if self.is_adrec(r):
                return self.ad_default(r, name, sym)
        return sym(name, t)

    def ad_default(self, r, name, sym):
        dt = self.I.prog.rec_of(r["args"][0]["t"])
        n = self.matdims(dt)[0]
        et = dt["args"][0]["t"]
        inner = self.I.prog.deref(et)
        if n < 0:
            n = 0
        return ADVal(self.default_scalar(et, name + ".v", sym), [self.default_scalar(et, "%s.d%d" % (name, i), sym) for i in range(n)])

    def default_content(self, r, name, sym):
        n = r["name"]
        if n in ("Eigen::Matrix", "Eigen::Array"):
            R, C = self.matdims(r)
            arr = n == "Eigen::Array"
            if R < 0:
                R = 0
                if C < 0:
                    C = 0
            if C < 0:
                C = 0
            if R == 0 or C == 0:
                return MatV(R, C, (), arr)
            et = r["args"][0]["t"]
            return MatV(R, C, [self.default_scalar(et, "%s[%d%s]" % (name, i, ",%d" % j if C > 1 else ""), sym) for j in range(C) for i in range(R)], arr)
        if n in ("Eigen::SparseMatrix",):
            return SpV.empty(0, 0)
        if self.is_adrec(r) and self.I.prim_ad(r):
            return self.ad_default(r, name, sym)
        short = n.split("::")[-1]
        if n.startswith("Eigen::") and short in FACTORISATIONS:
            uplo = 1
            for a in r.get("args", [])[1:]:
                if isinstance(a, int):
                    uplo = a
            return SolverV(short, None, 0, uplo)
        if short == "DiagonalMatrix" and n.startswith("Eigen::") and isinstance(r["args"][1], int) and r["args"][1] >= 0:
            return DiagV([self.default_scalar(r["args"][0]["t"], "%s[%d]" % (name, i), sym) for i in range(r["args"][1])])
        if n.startswith("Eigen::") and not r.get("mine"):
            return OpaqueV(n)
        return None

    def convert(self, v, r):
        n = r["name"]
        if n in ("Eigen::Matrix", "Eigen::Array", "Eigen::SparseMatrix"):
            if isinstance(v, CommaInit):
                v = self.I.load(v.m)
            if n == "Eigen::SparseMatrix":
                if isinstance(v, MatV):
                    return self.sparse_view(v)
                return v
            if isinstance(v, (Poly, int)) and not isinstance(v, bool):
                v = MatV(1, 1, [v])
            v = self.dense(v)
            R, C = self.matdims(r)
            et = self.I.prog.deref(r["args"][0]["t"])
            if et["k"] == "float":
                v = MatV(v.r, v.c, [const(x) if isinstance(x, (int, bool)) else x for x in v.d], n == "Eigen::Array")
            elif et["k"] == "int":
                v = MatV(v.r, v.c, [self.I.convert(x, r["args"][0]["t"]) for x in v.d], n == "Eigen::Array")
            elif et["k"] == "rec":
                ar = self.I.prog.records[et["r"]]
                if self.is_adrec(ar):
                    v = MatV(v.r, v.c, [self.ad_from(x, ar) for x in v.d])
            # vector orientation
            if (R, C) != (v.r, v.c):
                if C == 1 and v.r == 1 and v.c != 1 and R in (-1, v.c):
                    v = MatV(v.c, 1, v.d, v.arr)
                elif R == 1 and v.c == 1 and v.r != 1 and C in (-1, v.r):
                    v = MatV(1, v.r, v.d, v.arr)
                elif R not in (-1, v.r) or C not in (-1, v.c):
                    self.I.event("dim", "%dx%d value converted to Matrix<%d,%d>" % (v.r, v.c, R, C))
            return v
        if self.is_adrec(r):
            return self.ad_from(v, r)
        return v

    def ad_from(self, v, r):
        dt = self.I.prog.rec_of(r["args"][0]["t"])
        n = self.matdims(dt)[0]
        it = dt["args"][0]["t"]
        ir = self.I.prog.rec_of(it)
        if isinstance(v, MatV) and len(v.d) == 1:
            v = v.d[0]
        depth_r = 1 + (1 if ir and self.is_adrec(ir) else 0)
        if self.ad_depth(v) < depth_r:
            inner = self.ad_from(v, ir) if depth_r == 2 else (const(v) if isinstance(v, int) else v)
            z = self.ad_zero(ir) if depth_r == 2 else ZERO
            return ADVal(inner, [z] * max(n, 0))
        # normalise an empty derivative vector
        if isinstance(v, ADVal) and len(v.d) == 0 and n > 0:
            z = self.ad_zero(ir) if depth_r == 2 else ZERO
            return ADVal(v.v, [z] * n)
        return v

    def ad_depth(self, v):
        d = 0
        while isinstance(v, ADVal):
            d += 1
            v = v.v
        return d

    def ad_zero(self, r):
        dt = self.I.prog.rec_of(r["args"][0]["t"])
        return ADVal(ZERO, [ZERO] * max(self.matdims(dt)[0], 0))

    def assign_value(self, cell, v, old):
        """assignment of v to a cell of Matrix type: checks fixed dimensions"""
        if isinstance(v, DiagV):
            return self.dense(v)
        return v

    # ------------------------------------------------------------------ scalar arithmetic incl. AD
    def sarith(self, op, a, b):
        if isinstance(a, ADVal) or isinstance(b, ADVal):
            return self.ad_arith(op, a, b)
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if isinstance(a, int) and isinstance(b, int) and op in "+-*":
            return a + b if op == "+" else a - b if op == "-" else a * b
        a, b = P(a), P(b)
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        if op == "*":
            return a * b
        if op == "/":
            return a * inv(b)
        self.I.unsupported("scalar op " + op)

    def _lift(self, x, like):
        """scalar x as AD with the shape of `like`"""
        if isinstance(x, ADVal):
            if len(x.d) == len(like.d):
                return x
            if len(x.d) == 0:
                return ADVal(x.v, [self._zero_like(like.v)] * len(like.d))
            return x
        return ADVal(x, [self._zero_like(like.v)] * len(like.d))

    def _zero_like(self, v):
        if isinstance(v, ADVal):
            return ADVal(self._zero_like(v.v), [self._zero_like(v.v)] * len(v.d))
        return ZERO

    def ad_arith(self, op, a, b):
        da, db = self.ad_depth(a), self.ad_depth(b)
        if da >= db:
            a2, b2 = a, (b if db == da else b)
            if db < da:
                b2 = self._lift(b, a)
        if db > da:
            a2, b2 = self._lift(a, b), b
        a2 = self._lift(a2, b2) if len(a2.d) < len(b2.d) else a2
        b2 = self._lift(b2, a2) if len(b2.d) < len(a2.d) else b2
        s = self.sarith
        if op == "+":
            return ADVal(s("+", a2.v, b2.v), [s("+", x, y) for x, y in zip(a2.d, b2.d)])
        if op == "-":
            return ADVal(s("-", a2.v, b2.v), [s("-", x, y) for x, y in zip(a2.d, b2.d)])
        if op == "*":
            return ADVal(s("*", a2.v, b2.v), [s("+", s("*", x, b2.v), s("*", a2.v, y)) for x, y in zip(a2.d, b2.d)])
        if op == "/":
            return ADVal(s("/", a2.v, b2.v), [s("/", s("-", s("*", x, b2.v), s("*", a2.v, y)), s("*", b2.v, b2.v)) for x, y in zip(a2.d, b2.d)])
        self.I.unsupported("AD op " + op)

    def ad_apply(self, name, args, deriv=()):
        """value of the uninterpreted smooth function `name` (partial derivatives `deriv` taken) at args"""
        dep = max([self.ad_depth(a) for a in args] or [0])
        if dep == 0:
            return fn(name, *[P(a) for a in args], deriv=tuple(sorted(deriv)))
        like = next(a for a in args if self.ad_depth(a) == dep)
        args = [self._liftdeep(a, like) for a in args]
        vals = [a.v for a in args]
        v = self.ad_apply(name, vals, deriv)
        n = len(like.d)
        part = {}
        d = []
        for k in range(n):
            s = self._zero_like(like.v)
            for j, a in enumerate(args):
                if self.is_zero(a.d[k]):
                    continue
                if j not in part:
                    part[j] = self.ad_apply(name, vals, tuple(deriv) + (j,))
                s = self.sarith("+", s, self.sarith("*", part[j], a.d[k]))
            d.append(s)
        return ADVal(v, d)

    def ad_keep(self, old, w):
        """old = w for the repository's AD scalar: assigning a value of the underlying scalar type
        replaces the value and leaves the derivatives alone (AutoDiffScalar::operator=(const Scalar&));
        the rule itself is checked against AutoDiffScalar.h by the AD property."""
        if not isinstance(old, ADVal):
            return w
        do, dw = self.ad_depth(old), self.ad_depth(w)
        if dw >= do:
            if not w.d and old.d:
                return ADVal(w.v, [self._zero_like(old.v)] * len(old.d))
            return w
        w = const(w) if isinstance(w, (int, bool)) else w
        if dw == do - 1:
            if isinstance(w, ADVal) and not w.d:
                w = self._liftdeep(w.v, old.v)
            return ADVal(w, old.d)
        return ADVal(self._liftdeep(w, old.v), old.d)

    def _liftdeep(self, x, like):
        if not isinstance(like, ADVal):
            return x
        dx, dl = self.ad_depth(x), self.ad_depth(like)
        if dx == dl:
            if len(x.d) == 0:
                return ADVal(x.v, [self._zero_like(like.v)] * len(like.d))
            return x
        return ADVal(self._liftdeep(x, like.v), [self._zero_like(like.v)] * len(like.d))

    def is_zero(self, x):
        if isinstance(x, ADVal):
            return self.is_zero(x.v) and all(self.is_zero(y) for y in x.d)
        return P(x) == ZERO

    def neg(self, v):
        if isinstance(v, int):
            return -v
        if isinstance(v, Poly):
            return -v
        if isinstance(v, ADVal):
            return ADVal(self.neg(v.v), [self.neg(x) for x in v.d])
        if isinstance(v, (MatV, SpV)):
            return v.map(self.neg)
        if isinstance(v, DiagV):
            return DiagV([self.neg(x) for x in v.d])
        self.I.unsupported("negation of %r" % (v,))

    # ------------------------------------------------------------------ helpers
    def dense(self, v):
        v = self.I.load(v) if isinstance(v, LV) else v
        if isinstance(v, MatV):
            return v
        if isinstance(v, SpV):
            return v.dense()
        if isinstance(v, DiagV):
            n = len(v.d)
            return MatV(n, n, [v.d[i] if i == j else ZERO for j in range(n) for i in range(n)])
        if isinstance(v, CommaInit):
            return self.dense(v.m)
        if isinstance(v, (Poly, int, ADVal)):
            return MatV(1, 1, [v])
        if isinstance(v, TriV):
            return v.m
        self.I.unsupported("dense matrix expected, got %r" % (v,))

    def sparse_view(self, v):
        cols = [[(i, v.at(i, j)) for i in range(v.r) if not (isinstance(v.at(i, j), (int, Poly)) and P(v.at(i, j)).m == {})] for j in range(v.c)]
        return SpV.from_cols(v.r, v.c, cols)

    def sum(self, xs):
        r = ZERO
        for x in xs:
            r = self.sarith("+", r, x) if not (isinstance(r, Poly) and not r.m) else x
        return r

    def matmul(self, a, b):
        if isinstance(a, DiagV) and isinstance(b, DiagV):
            return DiagV([self.sarith("*", x, y) for x, y in zip(a.d, b.d)])
        if isinstance(a, DiagV):
            if isinstance(b, SpV):
                if len(a.d) != b.r:
                    self.I.event("dim", "diagonal(%d) * %dx%d" % (len(a.d), b.r, b.c))
                    raise_dim(self.I)
                cols = [[(i, self.sarith("*", a.d[i], v)) for i, v in col] for col in b.cols()]
                return SpV.from_cols(b.r, b.c, cols)
            b = self.dense(b)
            if len(a.d) != b.r:
                self.I.event("dim", "diagonal(%d) * %dx%d" % (len(a.d), b.r, b.c))
                raise_dim(self.I)
            return MatV(b.r, b.c, [self.sarith("*", a.d[i], b.at(i, j)) for j in range(b.c) for i in range(b.r)])
        if isinstance(b, DiagV):
            if isinstance(a, SpV):
                if len(b.d) != a.c:
                    self.I.event("dim", "%dx%d * diagonal(%d)" % (a.r, a.c, len(b.d)))
                    raise_dim(self.I)
                cols = [[(i, self.sarith("*", v, b.d[j])) for i, v in col] for j, col in enumerate(a.cols())]
                return SpV.from_cols(a.r, a.c, cols)
            a = self.dense(a)
            if len(b.d) != a.c:
                self.I.event("dim", "%dx%d * diagonal(%d)" % (a.r, a.c, len(b.d)))
                raise_dim(self.I)
            return MatV(a.r, a.c, [self.sarith("*", a.at(i, j), b.d[j]) for j in range(a.c) for i in range(a.r)])
        if isinstance(a, SpV) and isinstance(b, SpV):
            if a.c != b.r:
                self.I.event("dim", "product %dx%d * %dx%d" % (a.r, a.c, b.r, b.c))
                raise_dim(self.I)
            cols = []
            for j in range(b.c):
                acc = {}
                for k, bv in b.cols()[j]:
                    for i, av in a.cols()[k]:
                        t = self.sarith("*", av, bv)
                        acc[i] = self.sarith("+", acc[i], t) if i in acc else t
                cols.append(sorted(acc.items()))
            return SpV.from_cols(a.r, b.c, cols)
        if isinstance(a, TriV):
            a = a.m
        if isinstance(b, TriV):
            b = b.m
        a, b = self.dense(a), self.dense(b)
        if a.c != b.r:
            self.I.event("dim", "product %dx%d * %dx%d" % (a.r, a.c, b.r, b.c))
            raise_dim(self.I)
        d = []
        for j in range(b.c):
            for i in range(a.r):
                s = ZERO
                for k in range(a.c):
                    x, y = a.d[k * a.r + i], b.d[j * b.r + k]
                    if isinstance(x, Poly) and not x.m or isinstance(y, Poly) and not y.m:
                        continue
                    t = self.sarith("*", x, y)
                    s = t if (isinstance(s, Poly) and not s.m) else self.sarith("+", s, t)
                d.append(s)
        return MatV(a.r, b.c, d)

    def ew(self, op, a, b):
        """element-wise binary op on matrices"""
        if isinstance(a, SpV) and isinstance(b, SpV):
            if (a.r, a.c) != (b.r, b.c):
                self.I.event("dim", "%dx%d %s %dx%d" % (a.r, a.c, op, b.r, b.c))
                raise_dim(self.I)
            cols = []
            for ca, cb in zip(a.cols(), b.cols()):
                da, db = dict(ca), dict(cb)
                ks = sorted(set(da) | set(db)) if op != "*" else sorted(set(da) & set(db))
                cols.append([(k, self.sarith(op, da.get(k, ZERO), db.get(k, ZERO))) for k in ks])
            return SpV.from_cols(a.r, a.c, cols)
        a, b = self.dense(a), self.dense(b)
        if (a.r, a.c) != (b.r, b.c):
            if a.r == b.c and a.c == b.r and 1 in (a.r, a.c) and a.arr == b.arr and False:
                pass
            self.I.event("dim", "%dx%d %s %dx%d" % (a.r, a.c, op, b.r, b.c))
            raise_dim(self.I)
        return MatV(a.r, a.c, [self.sarith(op, x, y) for x, y in zip(a.d, b.d)], a.arr)

    def ismat(self, v):
        return isinstance(v, (MatV, SpV, DiagV, TriV))

    def binop(self, op, a, b):
        I = self.I
        if isinstance(a, SpWinLV):
            a = self.sp_window(a.m, I.load(a.m), a.i0, a.j0, a.r, a.c).v
        if isinstance(b, SpWinLV):
            b = self.sp_window(b.m, I.load(b.m), b.i0, b.j0, b.r, b.c).v
        ma, mb = self.ismat(a), self.ismat(b)
        if not ma and not mb:
            if isinstance(a, CommaInit) or isinstance(b, CommaInit):
                I.unsupported("comma")
            return self.sarith(op, I.num(a), I.num(b))
        if op in ("+", "-"):
            if ma and mb:
                if isinstance(a, DiagV) and isinstance(b, DiagV):
                    return DiagV([self.sarith(op, x, y) for x, y in zip(a.d, b.d)])
                return self.ew(op, a, b)
            # array + scalar
            if ma:
                s = I.num(b)
                return self.dense(a).map(lambda x: self.sarith(op, x, s))
            s = I.num(a)
            return self.dense(b).map(lambda x: self.sarith(op, s, x))
        if op == "*":
            if ma and mb:
                aa = getattr(a, "arr", False) or getattr(b, "arr", False)
                if aa:
                    return self.ew("*", a, b)
                return self.matmul(a, b)
            m, s = (a, I.num(b)) if ma else (b, I.num(a))
            if isinstance(m, DiagV):
                return DiagV([self.sarith("*", x, s) for x in m.d])
            return m.map(lambda x: self.sarith("*", x, s)) if not isinstance(m, TriV) else m.m.map(lambda x: self.sarith("*", x, s))
        if op == "/":
            if ma and mb:
                return self.ew("/", a, b)
            if ma:
                s = I.num(b)
                if isinstance(a, DiagV):
                    return DiagV([self.sarith("/", x, s) for x in a.d])
                return a.map(lambda x: self.sarith("/", x, s))
            s = I.num(a)
            return self.dense(b).map(lambda x: self.sarith("/", s, x))
        I.unsupported("matrix op " + op)

    # ------------------------------------------------------------------ factorisations
    def factor_key(self, sv, K):
        if isinstance(K, SpV):
            K = K.dense()
        n = K.r
        if FACTORISATIONS.get(sv.kind) == "chol" and sv.uplo != 3:
            u = sv.uplo
            if u == 2:
                K = K.T()
            data = []
            for j in range(n):
                for i in range(j, n):
                    data.append(K.at(i, j))
            return KeyRef.get([P(x) if not isinstance(x, ADVal) else x.v for x in data], "sym%d" % n), n
        return KeyRef.get([P(x) for x in K.d], "gen%d" % n), n

    def solve(self, sv, b):
        b = self.dense(b)
        if sv.key is None:
            self.I.event("typestate", "solve() before the matrix was factorised")
            key = KeyRef.get([self.I.fresh("nofactor")], "none")
        else:
            key = sv.key
        sym = FACTORISATIONS.get(sv.kind) == "chol" and sv.uplo != 3
        n = sv.n or b.r
        if sv.key is not None and b.r != n:
            self.I.event("dim", "solve: %d rows, factorised %d" % (b.r, n))
            raise_dim(self.I)
        d = []
        for j in range(b.c):
            for i in range(n):
                s = ZERO
                for k in range(b.r):
                    x = b.at(k, j)
                    if isinstance(x, Poly) and not x.m:
                        continue
                    ii, kk = (min(i, k), max(i, k)) if sym else (i, k)
                    s = self.sarith("+", s, self.sarith("*", ap(atom("kinv", key, ii, kk)), x))
                d.append(s)
        return MatV(n, b.c, d)

    def merge_solver(self, c, a, b):
        # the factorised matrix is the merge of the two factorised matrices
        if len(a.key.data) == len(b.key.data) and a.key.name == b.key.name:
            data = [self.I.merge_val(c, x, y) for x, y in zip(a.key.data, b.key.data)]
            pat = a.pattern if a.pattern == b.pattern else None
            return SolverV(a.kind, KeyRef.get(data, a.key.name), a.n, a.uplo, pat)
        return Conflict(a, b)

    # ------------------------------------------------------------------ constructors
    def construct(self, rec, args, e, g):
        I = self.I
        n = rec["name"]
        if n in ("Eigen::Matrix", "Eigen::Array"):
            R, C = self.matdims(rec)
            if not args:
                return self.default_content(rec, "tmp", I.scalar_uninit)
            if len(args) == 1:
                v = I.load(args[0])
                if isinstance(v, (MatV, SpV, DiagV, CommaInit, TriV)):
                    if C == 1 and isinstance(v, MatV) and v.c != 1 and v.r == 1 or R == 1 and isinstance(v, MatV) and v.r != 1 and v.c == 1:
                        pass
                    return self.convert(v, rec)
                if isinstance(v, ListV):
                    return self._from_rows(v, rec)
                if isinstance(v, Ptr):
                    nn = (R if R > 0 else 1) * (C if C > 0 else 1)
                    return self.convert(MatV(R, C, [I.load(I.ptr_deref(v, k)) for k in range(nn)]), rec)
                if C == 1 and R == -1 or R == 1 and C == -1:
                    k = I.intval(v)
                    return self._uninit(k if R == -1 else 1, k if C == -1 else 1, rec)
                if (R, C) == (1, 1):
                    return MatV(1, 1, [I.num(v)])
                if I.kindt(self._ptype(g, 0)) == "int" and R > 0:
                    return self._uninit(R, C, rec)
                I.unsupported("Matrix(%r)" % (v,))
            vals = [I.load(a) for a in args]
            if len(args) == 2 and (R == -1 or C == -1) and all(isinstance(v, int) for v in vals):
                return self._uninit(I.intval(vals[0]), I.intval(vals[1]), rec)
            if R > 0 and C > 0 and len(args) == R * C and (R == 1 or C == 1):
                if len(args) == 2 and R == 1 and C == 1:
                    pass
                return self.convert(MatV(R, C, vals), rec)
            if len(args) == 2 and all(isinstance(v, int) for v in vals):
                return self._uninit(vals[0], vals[1], rec)
            I.unsupported("Matrix constructor with %d args" % len(args))
        if n in ("Eigen::SparseMatrix",):
            if not args:
                return SpV.empty(0, 0)
            if len(args) == 2:
                return SpV.empty(I.intval(args[0]), I.intval(args[1]))
            v = I.load(args[0])
            if isinstance(v, MatV):
                return self.sparse_view(v)
            if isinstance(v, KronV):
                return v.m
            return v
        if n == "Eigen::KroneckerProductSparse" or n == "Eigen::KroneckerProduct":
            a, b = I.load(args[0]), I.load(args[1])
            return self.kron(a, b)
        if n in REFCLASSES:
            if n == "Eigen::Map":
                return self.make_map(rec, args)
            if len(args) > 1 and n in ("Eigen::VectorBlock", "Eigen::Block"):
                return self.make_block(n, rec, args)
            if len(args) > 1 and n != "Eigen::Ref":
                I.unsupported("constructor of %s with %d arguments" % (n, len(args)))
            if isinstance(args[0], LV):
                return args[0]
            v = I.load(args[0])
            if isinstance(v, CommaInit):
                v = I.load(v.m)
            return TempLV(v)
        if self.is_adrec(rec) and I.prim_ad(rec):
            return self.ad_construct(rec, args, g)
        short = n.split("::")[-1]
        if n.startswith("Eigen::") and short in FACTORISATIONS:
            c = self.default_content(rec, "tmp", I.scalar_uninit)
            if args:
                K = I.load(args[0])
                if isinstance(K, (MatV, SpV)):
                    key, nn = self.factor_key(c, K)
                    return SolverV(c.kind, key, nn, c.uplo)
            return c
        if short == "InnerIterator" and n.startswith("Eigen::"):
            m = args[0]
            j = I.intval(args[1])
            v = I.load(m)
            if isinstance(v, MatV):
                v = self.sparse_view_full(v)
                m = TempLV(v)
            if not isinstance(m, LV):
                m = TempLV(v)
            if not (0 <= j < v.c):
                I.event("oob", "InnerIterator over column %d of %d" % (j, v.c))
                raise AbortP()
            return InnerIter(m, j, v.outer[j], v.end(j))
        if short == "Triplet" and n.startswith("Eigen::"):
            return ListV([I.load(a) for a in args])
        if short == "IOFormat":
            return OpaqueV("fmt")
        if short == "DiagonalMatrix":
            return DiagV(self.dense(args[0]).d) if args else self.default_content(rec, "tmp", I.scalar_uninit)
        if n.startswith("Eigen::") and not rec.get("mine"):
            if len(args) == 1:
                return args[0]
            return OpaqueV(n)
        return NotImplemented

    def sparse_view_full(self, v):
        return SpV.from_cols(v.r, v.c, [[(i, v.at(i, j)) for i in range(v.r)] for j in range(v.c)])

    def _from_rows(self, v, rec):
        vals = v.d
        if all(not isinstance(x, (ListV, MatV)) for x in vals):
            R, C = self.matdims(rec)
            return self.convert(MatV(len(vals), 1, vals), rec)
        rows = [x.d for x in vals]
        return self.convert(MatV(len(rows), len(rows[0]), [rows[i][j] for j in range(len(rows[0])) for i in range(len(rows))]), rec)

    def _ptype(self, g, i):
        try:
            return g["params"][i]["t"]
        except (IndexError, KeyError):
            return 0

    def _uninit(self, r, c, rec):
        I = self.I
        return MatV(r, c, [ap(atom("uninit", "new %dx%d matrix at %s [%d]" % (r, c, I.loc(), k))) for k in range(r * c)])

    def ad_construct(self, rec, args, g):
        I = self.I
        dt = I.prog.rec_of(rec["args"][0]["t"])
        n = self.matdims(dt)[0]
        if not args:
            return self.ad_default(rec, "tmp", I.scalar_uninit)
        vals = [I.load(a) for a in args]
        if len(vals) == 2 and (vals[1] is None or vals[1] == 0 and isinstance(vals[1], int)):
            vals = vals[:1]           # a defaulted null pointer that only selects the overload
        et = dt["args"][0]["t"]
        ir = I.prog.rec_of(et)
        z = self.ad_zero(ir) if ir and self.is_adrec(ir) else ZERO
        one = ADVal(ONE, z.d) if isinstance(z, ADVal) else ONE
        if len(vals) == 1:
            return self.ad_from(vals[0], rec)
        if len(vals) == 2:
            v = vals[0]
            d = self.dense(vals[1])
            return ADVal(const(v) if isinstance(v, int) else v, d.d)
        if len(vals) == 3:
            v, nb, k = vals
            nb, k = I.intval(nb), I.intval(k)
            m = n if n > 0 else nb
            if not (0 <= k < m):
                I.event("oob", "derivative index %d of %d" % (k, m))
                raise AbortP()
            vv = v
            if ir and self.is_adrec(ir):
                vv = self.ad_from(v, ir)
            return ADVal(const(vv) if isinstance(vv, int) else vv, [one if i == k else z for i in range(m)])
        I.unsupported("AutoDiffScalar constructor")

    def kron(self, a, b):
        A = self.sparse_view_full(a) if isinstance(a, MatV) else a
        B = self.sparse_view_full(b) if isinstance(b, MatV) else b
        cols = []
        ca, cb = A.cols(), B.cols()
        for ja in range(A.c):
            for jb in range(B.c):
                cols.append([(ia * B.r + ib, self.sarith("*", va, vb)) for ia, va in ca[ja] for ib, vb in cb[jb]])
        # filled by insertion into exactly reserved columns: uncompressed
        m = SpV.from_cols(A.r * B.r, A.c * B.c, cols)
        return SpV(m.r, m.c, m.outer, [len(c) for c in cols], m.inner, m.vals)

    def make_block(self, n, rec, args):
        I = self.I
        ix = [I.intval(a) for a in args[1:]]
        ta = [a for a in rec.get("args", [])[1:] if isinstance(a, int) and not isinstance(a, bool)]
        v = I.load(args[0])
        if n == "Eigen::VectorBlock":
            k = ix[1] if len(ix) > 1 else ta[0]
            i0, j0, r, c = (ix[0], 0, k, 1) if self.shape(v)[1] == 1 else (0, ix[0], 1, k)
        elif len(ix) == 1:
            R, C = self.shape(v)
            i0, j0, r, c = (ix[0], 0, 1, C) if ta[0] == 1 and ta[1] != 1 else (0, ix[0], R, 1)
        else:
            i0, j0 = ix[:2]
            r, c = ix[2:4] if len(ix) == 4 else ta[:2]
        return self.window(args[0], v, i0, j0, r, c)

    def make_map(self, rec, args):
        I = self.I
        mr = I.prog.rec_of(rec["args"][0]["t"])
        R, C = self.matdims(mr)
        p = I.load(args[0])
        if len(args) > 1 and isinstance(I.load(args[-1]), OpaqueV):
            args = args[:-1]        # stride object
        if len(args) == 2:
            k = I.intval(args[1])
            if R == -1:
                R = k
            elif C == -1:
                C = k
        elif len(args) == 3 and not isinstance(I.load(args[2]), OpaqueV):
            R, C = I.intval(args[1]), I.intval(args[2])
        if isinstance(p, Ptr) and p.kind == "elem":
            base = I.load(p.m)
            idx = range(p.off, p.off + R * C)
            if p.off < 0 or p.off + R * C > len(base.d):
                I.event("oob", "Map of %d elements at offset %d of %d" % (R * C, p.off, len(base.d)))
                raise AbortP()
            # row-major maps
            opts = mr["args"][3] if len(mr["args"]) > 3 else 0
            if isinstance(opts, int) and opts & 1:
                idx = [p.off + i * C + j for j in range(C) for i in range(R)]
            return ViewLV(p.m, R, C, idx)
        if isinstance(p, Ptr) and p.kind in ("val", "inner", "outer", "nnz"):
            m = I.load(p.m)
            arr = {"val": m.vals, "inner": m.inner, "outer": m.outer, "nnz": m.nnz}[p.kind]
            if p.off + R * C > len(arr):
                I.event("oob", "Map of %d elements at offset %d of %d" % (R * C, p.off, len(arr)))
                raise AbortP()
            if p.kind == "val":
                return SpValsLV(p.m, R, C, tuple(range(p.off, p.off + R * C)))
            return TempLV(MatV(R, C, arr[p.off:p.off + R * C]))
        I.unsupported("Map over %r" % (p,))

    # ------------------------------------------------------------------ calls
    def call(self, f, obj, args, e):
        I = self.I
        q, name = f["q"], f["name"]
        rec = I.prog.records[f["rec"]] if "rec" in f else None
        if not (q.startswith("Eigen::") or (rec and rec["name"].startswith("Eigen::"))):
            if "opcall" in e and not f.get("mine") and obj is None:
                vals = [I.load(a) for a in args]
                if any(self.ismat(v) or isinstance(v, ADVal) for v in vals):
                    pass
                else:
                    return NotImplemented
            else:
                return NotImplemented
        if obj is None:
            return self.free(f, args, e)
        # static member functions are called with obj None
        return self.method(f, obj, args, e)

    def targs(self, f):
        return [a for a in f.get("targs", []) if isinstance(a, int)]

    # free functions and static members --------------------------------------------------
    def free(self, f, args, e):
        I = self.I
        name = f["name"]
        rec = I.prog.records[f["rec"]] if "rec" in f else None
        if "opcall" in e:
            op = e["opcall"]
            vals = [I.load(a) for a in args]
            if op in ("+", "-", "*", "/") and len(vals) == 2:
                return self.binop(op, vals[0], vals[1])
            if op == "-" and len(vals) == 1:
                return self.neg(vals[0])
            if op in ("<", "<=", ">", ">=", "==", "!="):
                if self.ismat(vals[0]) or self.ismat(vals[1]):
                    return self.mcompare(op, vals[0], vals[1])
                return I.compare(op, vals[0], vals[1])
            if op == "<<":
                return args[0]
        if rec is not None:   # static members such as Zero(), Constant()
            return self.static(f, rec, args, e)
        if name in ("sqrt", "abs", "fabs", "abs2", "sin", "cos", "tan", "exp", "log", "asin", "acos", "atan", "tanh", "sinh", "cosh", "pow", "atan2", "isnan", "isinf", "isfinite", "real", "imag", "conj", "max", "min"):
            vals = [I.load(a) for a in args]
            return self.mathfn(name, vals)
        if name in ("kroneckerProduct",):
            a, b = I.load(args[0]), I.load(args[1])
            r = self.kron(a, b)
            return r if isinstance(a, SpV) or isinstance(b, SpV) else r.dense()
        if name == "poly_eval" and len(args) == 2:
            c, x = self.dense(I.load(args[0])), I.num(args[1])
            r = ZERO
            for a in reversed(c.d):
                r = self.sarith("+", self.sarith("*", r, x), a)
            return r
        if name == "roots_to_monicPolynomial":
            rv = self.dense(I.load(args[0]))
            c = [ONE]
            for q in rv.d:
                c = [(c[k - 1] if k else ZERO) - (P(q) * c[k] if k < len(c) else ZERO) for k in range(len(c) + 1)]
            tgt = self.dense(I.load(args[1]))
            if len(tgt.d) != len(c):
                I.event("oob", "polynomial with %d coefficients for %d roots" % (len(tgt.d), len(rv.d)))
                raise AbortP()
            I.store(args[1], MatV(len(c), 1, c) if tgt.c == 1 else MatV(1, len(c), c))
            return None
        if name in ("ignore_unused_variable",):
            return None
        if name == "make_coherent":
            return None
        return NotImplemented

    def static(self, f, rec, args, e):
        I = self.I
        name = f["name"]
        if rec is not None and rec["name"].endswith("NumTraits") and not args:
            k = {"dummy_precision": Fraction(1, 10**12), "epsilon": Fraction(1, 2**52)}.get(name)
            if k is not None:
                return const(k)
        # dims from the plain type: find them through the return type's nested plain object
        R, C, et = self.static_dims(f, rec, e)
        ints = []
        if name in ("Zero", "Ones", "Identity", "Random"):
            ints = [I.intval(a) for a in args]
            R, C = self._dimsfrom(R, C, ints)
            zero, one = (0, 1) if et == "int" else (ZERO, ONE)
            if name == "Zero":
                return MatV(R, C, [zero] * (R * C))
            if name == "Ones":
                return MatV(R, C, [one] * (R * C))
            if name == "Identity":
                return MatV(R, C, [one if i == j else zero for j in range(C) for i in range(R)])
            return MatV(R, C, [I.fresh("random") for _ in range(R * C)])
        if name == "Constant":
            v = I.num(args[-1])
            if et == "float":
                v = P(v) if not isinstance(v, ADVal) else v
            elif et == "int" and isinstance(v, Poly):
                v = I.convert(v, rec["args"][0]["t"]) if "args" in rec else v
            ints = [I.intval(a) for a in args[:-1]]
            R, C = self._dimsfrom(R, C, ints)
            return MatV(R, C, [v] * (R * C))
        if name == "LinSpaced":
            vals = [I.load(a) for a in args]
            if len(vals) == 3:
                n = I.intval(vals[0])
                lo, hi = I.num(vals[1]), I.num(vals[2])
            else:
                n = max(R, C)
                lo, hi = I.num(vals[0]), I.num(vals[1])
            lo, hi = P(lo), P(hi)
            d = [lo + (hi - lo) * const(Fraction(k, n - 1)) if n > 1 else hi for k in range(n)]
            return MatV(n, 1, d) if C == 1 else MatV(1, n, d)
        if name in ("Unit", "UnitX", "UnitY", "UnitZ"):
            k = {"UnitX": 0, "UnitY": 1, "UnitZ": 2}.get(name)
            ints = [I.intval(a) for a in args]
            if k is None:
                if len(ints) == 2:
                    n, k = ints
                else:
                    n, k = max(R, C), ints[0]
            else:
                n = max(R, C)
            return MatV(n, 1, [ONE if i == k else ZERO for i in range(n)])
        if name in ("epsilon", "dummy_precision", "highest", "lowest"):
            return var("EPS_" + name)
        I.unsupported("Eigen static %s" % f["q"])

    def static_dims(self, f, rec, e):
        """dimensions of Derived in DenseBase<Derived>::Zero etc."""
        I = self.I
        r = rec
        for _ in range(4):
            if r["name"] in ("Eigen::Matrix", "Eigen::Array"):
                break
            a = r.get("args", [])
            if a and isinstance(a[0], dict):
                r2 = I.prog.rec_of(a[0]["t"])
                if r2 is None:
                    break
                r = r2
            else:
                break
        if r["name"] in ("Eigen::Matrix", "Eigen::Array"):
            R, C = self.matdims(r)
            et = I.kindt(r["args"][0]["t"])
            return R, C, et
        I.unsupported("static dims of %s" % rec["full"])

    def _dimsfrom(self, R, C, ints):
        if len(ints) == 2:
            return ints[0], ints[1]
        if len(ints) == 1:
            if C == 1:
                return ints[0], 1
            if R == 1:
                return 1, ints[0]
        return R, C

    def mcompare(self, op, a, b):
        I = self.I
        if self.ismat(a) and self.ismat(b):
            a, b = self.dense(a), self.dense(b)
            if op in ("==", "!=") and not a.arr:
                r = True
                for x, y in zip(a.d, b.d):
                    r = self._and(r, I.compare("==", x, y))
                return r if op == "==" else (not r if isinstance(r, bool) else ONE - r)
            return MatV(a.r, a.c, [I.compare(op, x, y) for x, y in zip(a.d, b.d)], True)
        if self.ismat(a):
            a = self.dense(a)
            return a.map(lambda x: I.compare(op, x, b))
        b = self.dense(b)
        return b.map(lambda x: I.compare(op, a, x))

    def _and(self, a, b):
        if isinstance(a, bool):
            return b if a else False
        if isinstance(b, bool):
            return a if b else False
        return a * b

    def _or(self, a, b):
        if isinstance(a, bool):
            return True if a else b
        if isinstance(b, bool):
            return True if b else a
        return a + b - a * b

    def mathfn(self, name, vals):
        I = self.I
        if len(vals) == 1:
            v = vals[0]
            if isinstance(v, (MatV, SpV)):
                return v.map(lambda x: self.mathfn(name, [x]))
            if isinstance(v, ADVal):
                return self.ad_math(name, v)
            v = I.num(v)
            if name in ("abs", "fabs"):
                if isinstance(v, int):
                    return abs(v)
                return absv(v)
            if I.numeric is not None and name in ("cos", "acos", "sqrt", "sin", "asin"):
                r = self.folded(name, P(v))
                if r is not None:
                    return r
            if name == "sqrt":
                return sqrt(v)
            if name == "abs2":
                return P(v) * P(v)
            if name in ("real", "conj"):
                return v
            if name in ("isnan", "isinf", "isfinite"):
                return ap(atom("b", name, P(v), ind=True))
            if name in ("floor", "ceil", "round", "trunc", "lround", "rint"):
                p = P(v)
                if p.is_const():
                    import math
                    c = p.const()
                    return const({"floor": math.floor, "ceil": math.ceil, "round": lambda x: math.floor(x + Fraction(1, 2)) if x >= 0 else -math.floor(-x + Fraction(1, 2)), "lround": lambda x: math.floor(x + Fraction(1, 2)), "rint": round, "trunc": int}[name](c))
                if isintpoly(p):
                    return p
                if I.ranges is not None and name == "floor":
                    import decide, math
                    lo, hi = decide.interval(p, I.ranges)
                    if lo not in (float("inf"), float("-inf")) and hi not in (float("inf"), float("-inf")) and math.floor(lo) == math.floor(hi):
                        return const(math.floor(lo))
                return fn(name, p, isint=True)
            return self.unary(name, v)
        a, b = vals
        if name in ("max", "fmax"):
            return self.mx(a, b)
        if name in ("min", "fmin"):
            return self.mn(a, b)
        if name == "pow":
            a, b = (self.dense(q) if self.ismat(q) else q for q in (a, b))
            if isinstance(a, MatV) and isinstance(b, MatV):
                return MatV(a.r, a.c, [self.mathfn("pow", [x, y]) for x, y in zip(a.d, b.d)], a.arr)
            if isinstance(a, MatV):
                return a.map(lambda x: self.mathfn("pow", [x, b]))
            if isinstance(b, MatV):
                return b.map(lambda x: self.mathfn("pow", [a, x]))
            if isinstance(a, ADVal) or isinstance(b, ADVal):
                return self.ad_pow(a, b)
            bp = P(I.num(b))
            if bp.is_const() and bp.const().denominator == 1 and abs(bp.const()) <= 12:
                return power(P(I.num(a)), int(bp.const()))
            if bp.is_const() and bp.const() == Fraction(1, 2):
                return sqrt(P(I.num(a)))
            return fn("pow", P(I.num(a)), bp)
        if name in ("fmod", "atan2", "hypot"):
            return self.ad_apply(name, [I.num(a), I.num(b)])
        I.unsupported("math function " + name)

    def folded(self, name, p):
        N = self.I.numeric
        if name == "sin":
            return N.cos(N.PI * const(Fraction(1, 2)) - p)
        if name == "asin":
            r = N.acos(p)
            return None if r is None else N.PI * const(Fraction(1, 2)) - r
        return getattr(N, name)(p)

    def unary(self, name, v):
        p = P(v)
        if name in ("sin", "tan", "sinh", "tanh", "asin", "atan") and not p.m:
            return ZERO
        if name in ("cos", "exp", "cosh") and not p.m:
            return ONE
        if name == "log" and p == ONE:
            return ZERO
        return fn(name, p)

    def ad_math(self, name, v):
        s = self.sarith
        x = v.v
        m = lambda n: self.mathfn(n, [x])
        if name in ("sin",):
            d = m("cos")
        elif name == "cos":
            d = self.neg(m("sin"))
        elif name == "exp":
            d = m("exp")
        elif name == "sqrt":
            d = s("/", const(Fraction(1, 2)), m("sqrt"))
        elif name == "log":
            d = s("/", ONE, x)
        elif name == "tan":
            c = m("cos")
            d = s("/", ONE, s("*", c, c))
        elif name == "tanh":
            c = m("tanh")
            d = s("-", ONE, s("*", c, c))
        elif name == "sinh":
            d = m("cosh")
        elif name == "cosh":
            d = m("sinh")
        elif name == "abs2":
            d = s("*", const(2), x)
        elif name in ("real", "conj"):
            return v
        elif name in ("asin", "acos"):
            d = s("/", ONE if name == "asin" else -ONE, self.mathfn("sqrt", [s("-", ONE, s("*", x, x))]))
        elif name == "atan":
            d = s("/", ONE, s("+", ONE, s("*", x, x)))
        elif name in ("floor", "ceil", "round", "trunc", "rint"):
            return ADVal(m(name), [self._zero_like(x) for _ in v.d])
        elif name in ("abs", "fabs"):
            xs = I_deep(x)
            sg = ite(cmp0(">=", P(xs)), ONE, -ONE)
            return ADVal(self.mathfn("abs", [x]), [s("*", sg, y) for y in v.d])
        else:
            return self.ad_apply(name, [v])
        return ADVal(m(name), [s("*", d, y) for y in v.d])

    def ad_pow(self, a, b):
        return self.ad_apply("pow", [a, b])

    def mx(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return max(a, b)
        if isinstance(a, ADVal) or isinstance(b, ADVal):
            c = self.I.compare(">", a, b)
            return self.I.merge_val(P(c), a, b) if not isinstance(c, bool) else (a if c else b)
        return maxv(P(self.I.num(a)), P(self.I.num(b)))

    def mn(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return min(a, b)
        if isinstance(a, ADVal) or isinstance(b, ADVal):
            c = self.I.compare("<", a, b)
            return self.I.merge_val(P(c), a, b) if not isinstance(c, bool) else (a if c else b)
        return minv(P(self.I.num(a)), P(self.I.num(b)))

    def poly_solver(self, f, obj, v, args):
        """Eigen::PolynomialSolver: compute() takes the coefficients, roots() are all the roots (the real ones are modelled)"""
        I, name = self.I, f["name"]
        if name == "compute" and I.numeric is not None:
            c = self.dense(I.load(args[0]))
            if all(P(x).is_const() for x in c.d):
                r = I.numeric.roots([P(x).const() for x in c.d])
                if r is None and c.d and not P(c.d[-1]).m:
                    I.event("polynomial", "the polynomial handed to the root finder has leading coefficient zero")
                if r is not None:
                    I.store(obj, ListV([const(x) for x in reversed(r)]))
                    return None
        if name == "roots" and isinstance(v, ListV):
            return MatV(len(v.d), 1, list(v.d))
        I.unsupported("Eigen::PolynomialSolver::%s on a polynomial whose roots are not known to be real and simple" % name)

    # methods --------------------------------------------------------------------------
    def method(self, f, obj, args, e):
        I = self.I
        name = f["name"]
        if isinstance(obj, VWise):
            return self.vwise(f, obj, args)
        if isinstance(obj, CommaInit):
            return self.comma(f, obj, args)
        h = getattr(self, "m_" + name, None) if not name.startswith("operator") else None
        v = I.load(obj)
        if isinstance(v, VWise):
            return self.vwise(f, v, args)
        if isinstance(v, CommaInit):
            return self.comma(f, v, args)
        if isinstance(v, SolverV):
            return self.solver_method(f, obj, v, args)
        if isinstance(v, InnerIter):
            return self.iter_method(f, obj, v, args)
        if isinstance(v, (ADVal,)) or (isinstance(v, (Poly, int)) and "AutoDiffScalar" in f["q"]):
            return self.ad_method(f, obj, v, args)
        if isinstance(v, TriV):
            return self.tri_method(f, obj, v, args)
        if "PolynomialSolver" in f["q"]:
            return self.poly_solver(f, obj, v, args)
        if name.startswith("operator"):
            return self.opmethod(f, obj, v, args, e)
        if isinstance(v, ListV) and "Triplet" in f["q"]:
            return v.d[{"row": 0, "col": 1, "value": 2}[name]]
        if h is not None:
            return h(f, obj, v, args)
        h = self.generic(name, f, obj, v, args)
        if h is not NotImplemented:
            return h
        I.unsupported("Eigen method %s on %s" % (f["q"], type(v).__name__))

    def lv(self, obj, v):
        return obj if isinstance(obj, LV) else TempLV(v)

    def shape(self, v):
        if isinstance(v, DiagV):
            return len(v.d), len(v.d)
        return v.r, v.c

    def positions(self, args):
        """unknown indices that are sums of conditions"""
        vals = [self.I.num(a) if isinstance(self.I.load(a), (int, Poly)) else None for a in args]
        if all(x is None or isinstance(x, (int, bool)) or x.is_const() for x in vals):
            return None
        if any(isinstance(x, Poly) and not all(ATOMS[i].ind for mono in x.m for i, _ in mono) for x in vals):
            return None
        return [const(x) if isinstance(x, (int, bool)) else x for x in vals]

    def select(self, pos, fetch, args):
        """element or block at unknown indices: one fetch per case of the conditions they consist of"""
        from terms import cofactor
        inds = set()
        for p in pos:
            if p is not None:
                inds |= indicators(p)
        if not inds:
            return fetch([a if p is None else int(p.const()) for a, p in zip(args, pos)])
        if len(inds) > 10:
            self.I.unsupported("index with %d conditions" % len(inds))
        i = min(inds)
        one = self.select([p if p is None else cofactor(p, i)[0] for p in pos], fetch, args)
        nil = self.select([p if p is None else cofactor(p, i)[1] for p in pos], fetch, args)
        c = Poly({((i, 1),): Fraction(1)})
        if isinstance(one, MatV):
            return MatV(one.r, one.c, [ite(c, x, y) for x, y in zip(one.d, nil.d)], one.arr)
        return ite(c, one, nil)

    def window(self, obj, v, i0, j0, r, c):
        """sub-block view"""
        I = self.I
        R, C = v.r, v.c
        if i0 < 0 or j0 < 0 or r < 0 or c < 0 or i0 + r > R or j0 + c > C:
            I.event("oob", "block (%d,%d)+%dx%d of %dx%d" % (i0, j0, r, c, R, C))
            raise AbortP()
        if isinstance(v, SpV):
            return self.sp_window(obj, v, i0, j0, r, c)
        idx = [(j0 + j) * R + (i0 + i) for j in range(c) for i in range(r)]
        return ViewLV(self.lv(obj, v), r, c, idx, getattr(v, "arr", False)).flat() if False else self.mkview(self.lv(obj, v), r, c, idx, getattr(v, "arr", False))

    def mkview(self, base, r, c, idx, arr=False):
        # collapse nested views
        while isinstance(base, ViewLV):
            idx = [base.idx[k] for k in idx]
            base = base.m
        if isinstance(base, SpDiagLV):
            old = base.idx
            if old is None:
                m = self.I.load(base.m)
                old = list(range(min(m.r, m.c)))
            return SpDiagLV(base.m, [old[k] for k in idx])
        if isinstance(base, SpValsLV):
            return SpValsLV(base.m, r, c, tuple(base.idx[k] for k in idx))
        return ViewLV(base, r, c, idx, arr)

    def sp_window(self, obj, v, i0, j0, r, c):
        cols = [[(i - i0, x) for i, x in v.cols()[j] if i0 <= i < i0 + r] for j in range(j0, j0 + c)]
        return SpWinLV(self.lv(obj, v), i0, j0, r, c, SpV.from_cols(r, c, cols))

    def generic(self, name, f, obj, v, args):
        I = self.I
        ta = self.targs(f)
        if isinstance(v, DiagV):
            if name == "diagonal":
                return MatV(len(v.d), 1, v.d)
            if name == "inverse":
                return DiagV([self.sarith("/", ONE, x) for x in v.d])
            if name in ("toDenseMatrix", "derived"):
                return v if name == "derived" else self.dense(v)
            if name in ("rows", "cols"):
                return len(v.d)
            if name in ("setIdentity", "setZero"):
                I.store(obj, DiagV([ONE if name == "setIdentity" else ZERO for _ in v.d]))
                return obj
        if isinstance(v, OpaqueV):
            return OpaqueV(name)
        if isinstance(v, SpWinLV) and name in ("nonZeros", "rows", "cols", "size", "sum", "coeff", "squaredNorm", "norm", "dot", "outerSize", "innerSize", "transpose", "cwiseAbs", "cwiseAbs2", "cwiseProduct", "cwiseInverse", "cwiseSqrt", "eval", "toDense", "derived"):
            cur = I.load(v.m)
            v = self.sp_window(v.m, cur, v.i0, v.j0, v.r, v.c).v
            obj = TempLV(v)
        if not isinstance(v, (MatV, SpV)):
            return NotImplemented
        ints = lambda: [I.intval(a) for a in args]
        R, C = v.r, v.c
        if name in ("block", "segment", "head", "tail", "col", "row", "middleCols", "middleRows", "leftCols", "rightCols", "topRows", "bottomRows", "coeff"):
            pos = self.positions(args)
            if pos is not None:
                return self.select(pos, lambda a: I.load(self.generic(name, f, obj, v, a)), args)
        # ---- shape
        if name == "rows": return R
        if name == "cols": return C
        if name == "size": return R * C
        if name in ("outerSize",): return C
        if name in ("innerSize",): return R
        if name == "nonZeros":
            if isinstance(v, SpV):
                return sum(v.end(j) - v.outer[j] for j in range(v.c))
            return R * C
        if name in ("innerStride",): return 1
        if name in ("outerStride",): return R
        # ---- no-ops
        if name in ("noalias", "derived", "const_cast_derived", "const_derived", "nestedExpression", "selfadjointView_", "conjugate", "real", "eval", "finished", "lazyAssign", "mutable_"):
            if name in ("eval", "real", "conjugate"):
                return v
            return obj
        if name == "array":
            if isinstance(v, SpV):
                return NotImplemented
            return self.setarr(obj, v, True)
        if name == "matrix":
            return self.setarr(obj, v, False)
        if name in ("transpose", "adjoint"):
            if isinstance(v, SpV):
                return v.T()
            idx = [j * R + i for i in range(R) for j in range(C)]
            return self.mkview(self.lv(obj, v), C, R, idx, v.arr)
        # ---- windows
        if name == "block":
            a = ints()
            if len(ta) >= 2:
                r, c = ta[0], ta[1]
                if len(a) == 4:
                    r, c = a[2], a[3]
                return self.window(obj, v, a[0], a[1], r, c)
            return self.window(obj, v, a[0], a[1], a[2], a[3])
        if name in ("segment", "head", "tail"):
            a = ints()
            n = R * C
            if name == "segment":
                s = a[0]
                k = a[1] if len(a) > 1 else ta[0]
            else:
                k = a[0] if a else ta[0]
                s = 0 if name == "head" else n - k
            if s < 0 or k < 0 or s + k > n:
                I.event("oob", "%s of %d elements at %d in vector of %d" % (name, k, s, n))
                raise AbortP()
            if isinstance(v, SpV):
                return NotImplemented
            col = C == 1
            return self.mkview(self.lv(obj, v), k if col else 1, 1 if col else k, range(s, s + k), v.arr)
        if name in ("topLeftCorner", "topRightCorner", "bottomLeftCorner", "bottomRightCorner"):
            a = ints()
            r, c = (a if len(a) == 2 else ta[:2])
            i0 = 0 if name.startswith("top") else R - r
            j0 = 0 if "Left" in name else C - c
            return self.window(obj, v, i0, j0, r, c)
        if name in ("topRows", "bottomRows", "middleRows", "leftCols", "rightCols", "middleCols"):
            a = ints()
            if name.startswith("middle"):
                s = a[0]
                k = a[1] if len(a) > 1 else ta[0]
            else:
                k = a[0] if a else ta[0]
                s = 0
            if name == "topRows": return self.window(obj, v, 0, 0, k, C)
            if name == "bottomRows": return self.window(obj, v, R - k, 0, k, C)
            if name == "middleRows": return self.window(obj, v, s, 0, k, C)
            if name == "leftCols": return self.window(obj, v, 0, 0, R, k)
            if name == "rightCols": return self.window(obj, v, 0, C - k, R, k)
            if name == "middleCols": return self.window(obj, v, 0, s, R, k)
        if name == "col":
            return self.window(obj, v, 0, ints()[0], R, 1)
        if name == "row":
            return self.window(obj, v, ints()[0], 0, 1, C)
        if name == "innerVector":
            return self.window(obj, v, 0, ints()[0], R, 1)
        if name == "diagonal":
            if isinstance(v, SpV):
                return SpDiagLV(self.lv(obj, v))
            k = min(R, C)
            return self.mkview(self.lv(obj, v), k, 1, [i * R + i for i in range(k)], v.arr)
        if name == "reverse":
            return self.mkview(self.lv(obj, v), R, C, list(range(R * C))[::-1], v.arr)
        if name == "replicate":
            a = ints() if args else ta[:2]
            rr, cc = (a if len(a) == 2 else ((a[0], 1) if C == 1 else (1, a[0])))
            return MatV(R * rr, C * cc, [v.at(i % R, j % C) for j in range(C * cc) for i in range(R * rr)])
        if name in ("reshaped",):
            a = ints()
            if not a:
                a = [R * C, 1]
            return self.mkview(self.lv(obj, v), a[0], a[1], range(R * C))
        if name in ("triangularView", "selfadjointView"):
            return TriV(name, ta[0] if ta else 0, v, self.lv(obj, v))
        if name == "asDiagonal":
            return DiagV(self.dense(v).d)
        if name in ("colwise", "rowwise"):
            return VWise(self.lv(obj, v), name)
        if name == "data":
            if isinstance(v, MatV):
                if isinstance(obj, ViewLV):
                    # the address of the first coefficient: the next ones follow in the storage, not in the view
                    ix = obj.idx
                    return Ptr("elem", obj.m, ix[0] if ix else 0)
                return Ptr("elem", self.lv(obj, v), 0)
        # ---- sparse storage
        if isinstance(v, SpV):
            r = self.sparse_method(name, f, obj, v, args)
            if r is not NotImplemented:
                return r
        # ---- coefficient access
        if name in ("coeff", "coeffRef"):
            return self.coeff(obj, v, ints())
        if name in ("x", "y", "z", "w"):
            return self.coeff(obj, v, ["xyzw".index(name)])
        # ---- mutation
        if name in ("setZero", "setOnes", "setIdentity", "setConstant", "fill"):
            a = [I.load(x) for x in args]
            if isinstance(v, SpV):
                return NotImplemented
            if name in ("setConstant", "fill"):
                s = I.num(a[-1])
                a = a[:-1]
                s = P(s) if isinstance(s, int) and v.d and not isinstance(v.d[0], int) else s
            if len(a) == 2:
                R, C = I.intval(a[0]), I.intval(a[1])
            elif len(a) == 1:
                R, C = (I.intval(a[0]), 1) if C <= 1 else (1, I.intval(a[0]))
            zero = 0 if v.d and isinstance(v.d[0], int) else ZERO
            if v.d and isinstance(v.d[0], ADVal):
                zero = self._zero_like(v.d[0])
            if name == "setZero":
                d = [zero] * (R * C)
            elif name == "setOnes":
                d = [ONE] * (R * C)
            elif name == "setIdentity":
                d = [ONE if i == j else ZERO for j in range(C) for i in range(R)]
            else:
                d = [s] * (R * C)
            I.store(obj, MatV(R, C, d, v.arr))
            return obj
        if name == "setRandom":
            I.store(obj, v.map(lambda x: I.fresh("random")))
            return obj
        if name in ("resize", "conservativeResize"):
            a = ints()
            if len(a) == 1:
                a = [a[0], 1] if C == 1 or R == 0 else [1, a[0]]
            if isinstance(obj, Cell):
                t = I.prog.rec_of(obj.tid)
                if t and "args" in t and t["name"] == "Eigen::Matrix":
                    fr, fc = self.matdims(t)
                    if fc == -1 and len(args) == 1:
                        pass
            if (a[0], a[1]) == (R, C):
                return None
            if name == "resize":
                nv = self._uninit(a[0], a[1], None)
            else:
                nv = MatV(a[0], a[1], [v.at(i, j) if i < R and j < C else ap(atom("uninit", "conservativeResize")) for j in range(a[1]) for i in range(a[0])])
            I.store(obj, nv)
            return None
        if name in ("transposeInPlace", "adjointInPlace"):
            I.store(obj, v.T())
            return None
        if name == "reverseInPlace":
            I.store(obj, MatV(R, C, v.d[::-1], v.arr))
            return None
        if name == "swap":
            o = args[0]
            w = I.load(o)
            I.store(obj, w)
            I.store(o, v)
            return None
        if name in ("normalize",):
            n = self.mathfn("sqrt", [self.sum([self.sarith("*", x, x) for x in v.d])])
            I.store(obj, v.map(lambda x: self.sarith("/", x, n)))
            return None
        # ---- elementwise
        if isinstance(v, SpV) and name in ("cwiseAbs", "cwiseSqrt", "cwiseAbs2"):
            return v.map(lambda x: self.mathfn(name[5:].lower(), [x]))
        if name in ("cwiseAbs", "abs"): return v.map(lambda x: self.mathfn("abs", [x]))
        if name in ("cwiseSqrt", "sqrt"): return v.map(lambda x: self.mathfn("sqrt", [x]))
        if name in ("cwiseInverse", "inverse") and (name != "inverse" or v.arr): return v.map(lambda x: self.sarith("/", ONE, x))
        if name in ("cwiseAbs2", "abs2", "square"): return v.map(lambda x: self.sarith("*", x, x))
        if name == "cube": return v.map(lambda x: self.sarith("*", self.sarith("*", x, x), x))
        if name in ("sin", "cos", "tan", "exp", "log", "floor", "ceil", "round", "tanh", "isNaN", "isFinite", "isInf") and not args:
            return v.map(lambda x: self.mathfn(name.lower(), [x]))
        if name == "pow": 
            b = I.num(args[0])
            return v.map(lambda x: self.mathfn("pow", [x, b]))
        if name in ("cwiseMax", "cwiseMin", "max", "min") and args:
            w = I.load(args[0])
            g = self.mx if "ax" in name else self.mn
            if isinstance(w, MatV):
                if (w.r, w.c) != (R, C):
                    I.event("dim", "%s: %dx%d with %dx%d" % (name, R, C, w.r, w.c))
                    raise AbortP()
                return MatV(R, C, [g(x, y) for x, y in zip(v.d, w.d)], v.arr)
            s = I.num(w)
            return v.map(lambda x: g(x, s))
        if name == "cwiseProduct":
            return self.ew("*", v, I.load(args[0]))
        if name == "cwiseQuotient":
            return self.ew("/", v, I.load(args[0]))
        if name in ("cwiseEqual", "cwiseNotEqual"):
            return self.mcompare("==" if name == "cwiseEqual" else "!=", MatV(v.r, v.c, v.d, True), I.load(args[0]) if not isinstance(I.load(args[0]), MatV) else MatV(v.r, v.c, self.dense(args[0]).d, True))
        if name == "unaryExpr":
            fo = I.load(args[0])
            return v.map(lambda x: I.load(self.callfn(fo, [x])))
        if name == "binaryExpr":
            fo = I.load(args[1])
            w = self.dense(args[0])
            return MatV(R, C, [I.load(self.callfn(fo, [x, y])) for x, y in zip(v.d, w.d)], v.arr)
        if name == "select":
            a, b = I.load(args[0]), I.load(args[1])
            ga = (lambda k: a.d[k]) if isinstance(a, MatV) else (lambda k: I.num(a))
            gb = (lambda k: b.d[k]) if isinstance(b, MatV) else (lambda k: I.num(b))
            d = []
            for k, c in enumerate(v.d):
                c = I.truth(c)
                d.append((ga(k) if c else gb(k)) if isinstance(c, bool) else I.merge_val(c, ga(k), gb(k)))
            return MatV(R, C, d, v.arr)
        if name == "cast":
            if f.get("targs") and isinstance(f["targs"][0], dict):
                tid = f["targs"][0]["t"]
                return v.map(lambda x: I.convert(x, tid))
            return v
        if name == "sparseView":
            return self.sparse_view(v)
        # ---- reductions
        vv = v.vals if isinstance(v, SpV) else v.d
        if isinstance(v, SpV):
            vv = [x for j in range(v.c) for _, x in v.cols()[j]]
        if name == "lpNorm":
            p = ta[0]
            if p == -1:
                return self.norminf(vv)
            if p == 1:
                return self.sum([self.mathfn("abs", [x]) for x in vv])
            if p == 2:
                return self.mathfn("sqrt", [self.sum([self.sarith("*", x, x) for x in vv])])
        if name in ("norm", "stableNorm"):
            return self.mathfn("sqrt", [self.sum([self.sarith("*", x, x) for x in vv])])
        if name == "squaredNorm":
            return self.sum([self.sarith("*", x, x) for x in vv])
        if name == "sum":
            if vv and all(isinstance(x, int) for x in vv):
                return sum(vv)
            return self.sum(vv)
        if name == "mean":
            return self.sarith("/", self.sum(vv), const(len(vv)))
        if name == "prod":
            r = ONE
            for x in vv:
                r = self.sarith("*", r, x)
            return r
        if name == "trace":
            return self.sum([v.at(i, i) if isinstance(v, MatV) else v.get(i, i) for i in range(min(R, C))])
        if name == "dot":
            w = self.dense(args[0])
            if len(w.d) != len(vv):
                I.event("dim", "dot of %d and %d" % (len(vv), len(w.d)))
                raise AbortP()
            return self.sum([self.sarith("*", x, y) for x, y in zip(vv, w.d)])
        if name in ("maxCoeff", "minCoeff"):
            if args:
                return self.argext(name, v, args)
            if not vv:
                I.event("oob", "%s of an empty matrix" % name)
                raise AbortP()
            g = self.mx if name == "maxCoeff" else self.mn
            if any(isinstance(x, ADVal) for x in vv):
                I.unsupported("maxCoeff of AD")
            if all(isinstance(x, int) for x in vv):
                return max(vv) if name == "maxCoeff" else min(vv)
            return (maxv if name == "maxCoeff" else minv)(*[P(x) for x in vv])
        if name in ("any", "all"):
            r = name == "all"
            for x in vv:
                x = I.truth(x)
                r = self._and(r, x) if name == "all" else self._or(r, x)
            return r
        if name == "count":
            return self.sum([P(I.truth(x)) for x in vv])
        if name in ("hasNaN", "allFinite", "isApprox", "isZero", "isMuchSmallerThan", "isOnes", "isIdentity", "isConstant"):
            return ap(atom("b", name, tuple(P(x) if not isinstance(x, ADVal) else x.v for x in vv), tuple(P(x) for x in (self.dense(args[0]).d if args and isinstance(I.load(args[0]), MatV) else ())), ind=True))
        # ---- decompositions
        if name in ("ldlt", "llt", "lu", "partialPivLu", "fullPivLu", "householderQr", "colPivHouseholderQr", "completeOrthogonalDecomposition", "fullPivHouseholderQr"):
            kind = {"ldlt": "LDLT", "llt": "LLT"}.get(name, "PartialPivLU")
            sv = SolverV(kind, None, 0, 1)
            key, n = self.factor_key(sv, v)
            return SolverV(kind, key, n, 1)
        if name == "inverse":
            sv = SolverV("PartialPivLU", None, 0, 1)
            key, n = self.factor_key(sv, v)
            return self.solve(SolverV("PartialPivLU", key, n, 1), MatV(n, n, [ONE if i == j else ZERO for j in range(n) for i in range(n)]))
        if name in ("eigenvalues",):
            return MatV(R, 1, [fn("eigenvalue%d" % k, *[P(x) for x in v.d]) for k in range(R)])
        if name == "determinant":
            return fn("det", *[P(x) for x in v.d])
        if name == "format":
            return OpaqueV("format")
        if name in ("begin", "end"):
            return Ptr("elem", self.lv(obj, v), 0 if name == "begin" else R * C)
        if name == "RowsAtCompileTime":
            return R
        if name in ("forceAlignedAccess",):
            return obj
        return NotImplemented

    def setarr(self, obj, v, flag):
        if isinstance(obj, LV):
            if v.arr == flag:
                return obj
            return ViewLV(obj, v.r, v.c, range(v.r * v.c), flag) if not isinstance(obj, ViewLV) else ViewLV(obj.m, obj.r, obj.c, obj.idx, flag)
        return MatV(v.r, v.c, v.d, flag)

    def callfn(self, fo, args):
        I = self.I
        if isinstance(fo, (Closure, FnRef)):
            return I.call_closure(fo, args)
        if isinstance(fo, StructObj):
            return I.call_method(fo, "operator()", args)
        if isinstance(fo, OpaqueV) and isinstance(fo.what, tuple) and fo.what[0] == "functor":
            op = fo.what[1]
            return self.sarith(op, I.num(args[0]), I.num(args[1]))
        if isinstance(fo, Ptr):
            return self.callfn(fo.m, args)
        I.unsupported("call of functor %r" % (fo,))

    def norminf(self, vv):
        if not vv:
            return ZERO
        xs = [self.mathfn("abs", [x]) for x in vv]
        return maxv(*[P(x) for x in xs]) if len(xs) > 1 else P(xs[0])

    def argext(self, name, v, args):
        """maxCoeff(&i): extreme and symbolic position"""
        I = self.I
        xs = [P(x) for x in v.d]
        m = (maxv if name == "maxCoeff" else minv)(*xs)
        for k, a in enumerate(args):
            p = I.load(a)
            I.store(p.m if isinstance(p, Ptr) else a, fn("arg%s%d" % (name, k), *xs, isint=True))
        return m

    def coeff(self, obj, v, ix):
        I = self.I
        if isinstance(v, SpV):
            return SpCoeffLV(self.lv(obj, v), ix[0], ix[1])
        if len(ix) == 2:
            i, j = ix
            if not (0 <= i < v.r and 0 <= j < v.c):
                I.event("oob", "element (%d,%d) of %dx%d" % (i, j, v.r, v.c))
                raise AbortP()
            k = j * v.r + i
        else:
            k = ix[0]
            if not (0 <= k < v.r * v.c):
                I.event("oob", "element %d of %d" % (k, v.r * v.c))
                raise AbortP()
        b = self.lv(obj, v)
        if isinstance(b, ViewLV):
            return ElemLV(b.m, b.idx[k])
        if isinstance(b, SpDiagLV):
            idx = b.idx if b.idx is not None else range(v.r)
            return SpCoeffLV(b.m, idx[k], idx[k])
        if isinstance(b, SpValsLV):
            return SpPosLV(b.m, "val", b.idx[k])
        return ElemLV(b, k)

    # sparse ---------------------------------------------------------------------------
    def sparse_method(self, name, f, obj, v, args):
        I = self.I
        ints = lambda: [I.intval(a) for a in args]
        m = self.lv(obj, v)
        if name == "coeffRef":
            i, j = ints()
            self.chk(v, i, j)
            p = v.find(i, j)
            if p is None:
                nv, p = v.insert(i, j)
                I.store(m, nv)
            return SpCoeffLV(m, i, j)
        if name == "insert":
            i, j = ints()
            self.chk(v, i, j)
            if v.find(i, j) is not None:
                I.event("sparse", "insert() of an existing entry (%d,%d)" % (i, j))
                nv, p = v, v.find(i, j)
            else:
                nv, p = v.insert(i, j)
            I.store(m, nv)
            return SpCoeffLV(m, i, j)
        if name == "coeff":
            i, j = ints()
            self.chk(v, i, j)
            return v.get(i, j)
        if name == "valuePtr": return Ptr("val", m, 0)
        if name == "innerIndexPtr": return Ptr("inner", m, 0)
        if name == "outerIndexPtr": return Ptr("outer", m, 0)
        if name == "innerNonZeroPtr":
            if v.nnz is None:
                return None
            return Ptr("nnz", m, 0)
        if name == "reserve":
            a = I.load(args[0])
            if isinstance(a, MatV):
                I.store(m, v.reserve([I.intval(x) for x in a.d]))
            return None
        if name == "makeCompressed":
            I.store(m, v.compressed())
            return None
        if name == "uncompress":
            I.store(m, v.uncompress())
            return None
        if name == "isCompressed":
            return v.nnz is None
        if name in ("resize", "conservativeResize"):
            r, c = ints()
            I.store(m, SpV.empty(r, c) if name == "resize" else SpV.from_cols(r, c, [[(i, x) for i, x in (v.cols()[j] if j < v.c else []) if i < r] for j in range(c)]))
            return None
        if name == "setZero":
            I.store(m, SpV.empty(v.r, v.c))
            return None
        if name == "setIdentity":
            I.store(m, SpV.from_cols(v.r, v.c, [[(j, ONE)] if j < v.r else [] for j in range(v.c)]))
            return None
        if name in ("pruned", "prune"):
            # entries that are identically zero go; the others are taken to be larger than the threshold
            w = SpV.from_cols(v.r, v.c, [[(i, x) for i, x in col if not (isinstance(x, (int, Poly)) and P(x).m == {})] for col in v.cols()])
            if name == "pruned":
                return w
            I.store(m, w)
            return None
        if name == "toDense":
            return v.dense()
        if name == "setFromTriplets":
            b, e = I.load(args[0]), I.load(args[1])
            lst = I.load(b.m)
            acc = {}
            for t in lst.d[b.off:e.off]:
                i, j, x = I.intval(t.d[0]), I.intval(t.d[1]), t.d[2]
                self.chk(v, i, j)
                acc[(j, i)] = self.sarith("+", acc[(j, i)], x) if (j, i) in acc else x
            cols = [[] for _ in range(v.c)]
            for (j, i), x in sorted(acc.items()):
                cols[j].append((i, x))
            I.store(m, SpV.from_cols(v.r, v.c, cols))
            return None
        if name == "coeffs":
            return MatV(len(v.vals), 1, v.vals, True)
        return NotImplemented

    def chk(self, v, i, j):
        if not (0 <= i < v.r and 0 <= j < v.c):
            self.I.event("oob", "sparse element (%d,%d) of %dx%d" % (i, j, v.r, v.c))
            raise AbortP()

    def iter_method(self, f, obj, v, args):
        I = self.I
        name = f["name"]
        m = I.load(v.m)
        if name == "operator bool":
            return v.p < v.end
        if name in ("operator++",):
            I.store(obj, InnerIter(v.m, v.j, v.p + 1, v.end))
            return obj
        if name == "value":
            return m.vals[v.p]
        if name == "valueRef":
            return SpPosLV(v.m, "val", v.p)
        if name in ("row", "index"):
            return m.inner[v.p]
        if name in ("col", "outer"):
            return v.j
        I.unsupported("InnerIterator::" + name)

    # vectorwise ------------------------------------------------------------------------
    def vwise(self, f, obj, args):
        I = self.I
        v = self.dense(obj.m)
        name = f["name"]
        if obj.axis == "colwise":
            parts = [[v.at(i, j) for i in range(v.r)] for j in range(v.c)]
        else:
            parts = [[v.at(i, j) for j in range(v.c)] for i in range(v.r)]

        def red(g):
            d = [g(p) for p in parts]
            return MatV(1, v.c, d, v.arr) if obj.axis == "colwise" else MatV(v.r, 1, d, v.arr)
        if name == "lpNorm":
            p = self.targs(f)[0]
            if p == -1:
                return red(self.norminf)
            if p == 1:
                return red(lambda x: self.sum([self.mathfn("abs", [y]) for y in x]))
        if name == "sum":
            return red(self.sum)
        if name == "norm":
            return red(lambda x: self.mathfn("sqrt", [self.sum([self.sarith("*", y, y) for y in x])]))
        if name == "squaredNorm":
            return red(lambda x: self.sum([self.sarith("*", y, y) for y in x]))
        if name == "maxCoeff":
            return red(lambda x: maxv(*[P(y) for y in x]))
        if name == "minCoeff":
            return red(lambda x: minv(*[P(y) for y in x]))
        if name == "mean":
            return red(lambda x: self.sarith("/", self.sum(x), const(len(x))))
        if name == "reverse":
            if obj.axis == "colwise":
                return MatV(v.r, v.c, [v.at(v.r - 1 - i, j) for j in range(v.c) for i in range(v.r)], v.arr)
            return MatV(v.r, v.c, [v.at(i, v.c - 1 - j) for j in range(v.c) for i in range(v.r)], v.arr)
        if name == "reverseInPlace":
            if obj.axis == "colwise":
                nv = MatV(v.r, v.c, [v.at(v.r - 1 - i, j) for j in range(v.c) for i in range(v.r)], v.arr)
            else:
                nv = MatV(v.r, v.c, [v.at(i, v.c - 1 - j) for j in range(v.c) for i in range(v.r)], v.arr)
            I.store(obj.m, nv)
            return None
        if name == "replicate":
            return NotImplemented
        if name in ("operator+", "operator-", "operator*", "operator/", "operator+=", "operator-=", "operator*=", "operator/="):
            w = self.dense(args[0])
            op = name[8]
            if obj.axis == "colwise":
                nv = MatV(v.r, v.c, [self.sarith(op, v.at(i, j), w.d[i]) for j in range(v.c) for i in range(v.r)], v.arr)
            else:
                nv = MatV(v.r, v.c, [self.sarith(op, v.at(i, j), w.d[j]) for j in range(v.c) for i in range(v.r)], v.arr)
            if name.endswith("="):
                I.store(obj.m, nv)
                return obj.m
            return nv
        I.unsupported("vectorwise " + name)

    # comma initialiser -------------------------------------------------------------------
    def comma(self, f, obj, args):
        I = self.I
        name = f["name"]
        if name == "finished":
            return obj.m
        if name == "operator,":
            self.comma_put(obj, I.load(args[0]))
            return obj
        I.unsupported("CommaInitializer::" + name)

    def comma_put(self, ci, x):
        I = self.I
        tgt = I.load(ci.m)
        v = x if isinstance(x, MatV) else MatV(1, 1, [x])
        if v.r == 0 or v.c == 0:
            return
        if ci.col >= tgt.c:
            ci.row += ci.blockrows
            ci.col = 0
            ci.blockrows = v.r
        if ci.blockrows == 0:
            ci.blockrows = v.r
        if ci.row + v.r > tgt.r or ci.col + v.c > tgt.c:
            I.event("oob", "comma initialiser overflow")
            raise AbortP()
        d = list(tgt.d)
        for j in range(v.c):
            for i in range(v.r):
                s = v.at(i, j)
                d[(ci.col + j) * tgt.r + ci.row + i] = const(s) if isinstance(s, int) and tgt.d and isinstance(tgt.d[0], Poly) and not isintpoly(tgt.d[0]) else s
        I.store(ci.m, MatV(tgt.r, tgt.c, d, tgt.arr))
        ci.col += v.c

    # solvers ---------------------------------------------------------------------------------
    def solver_method(self, f, obj, v, args):
        I = self.I
        name = f["name"]
        if name in ("compute", "factorize", "analyzePattern"):
            K = I.load(args[0])
            pat = K.pattern() if isinstance(K, SpV) else None
            if name == "analyzePattern":
                nv = SolverV(v.kind, None, K.r, v.uplo, self._patkey(K))
                I.store(obj, nv)
                return obj
            if name == "factorize" and v.kind.startswith("Sim"):
                if v.pattern is None:
                    I.event("typestate", "factorize() without analyzePattern()")
                elif v.pattern != self._patkey(K):
                    I.event("typestate", "factorize() of a matrix whose pattern differs from the analysed one")
            key, n = self.factor_key(v, K)
            h = I.hooks.get("factor")
            if h:
                h(I, obj, K, key)
            I.store(obj, SolverV(v.kind, key, n, v.uplo, self._patkey(K) if name == "compute" else v.pattern))
            return obj
        if name in ("solve", "solveWithGuess"):
            b = I.load(args[0])
            r = self.solve(v, b)
            h = I.hooks.get("lsolve")
            if h:
                h(I, v, b, r)
            return r
        if name == "info":
            key = v.key
            return ap(atom("fn", "factor_info", (var("fi#%d" % key.id) if key else var("fi#none"),), (), isint=True))
        if name in ("isPositive", "isNegative", "isInvertible"):
            return ap(atom("b", name, v.key.id if v.key else -1, ind=True))
        if name in ("setMaxIterations", "setTolerance", "preconditioner", "setShift"):
            return obj
        if name in ("operator=",):
            I.store(obj, I.load(args[0]))
            return obj
        if name in ("matrixLDLT", "matrixL", "vectorD", "matrixU"):
            return MatV(v.n, 1, [I.fresh(name) for _ in range(v.n)])
        if name in ("singularValues", "eigenvalues"):
            return MatV(v.n, 1, [I.fresh(name) for _ in range(v.n)])
        I.unsupported("solver method " + name)

    def _patkey(self, K):
        if isinstance(K, SpV):
            return tuple(tuple(i for i, _ in c) for c in K.cols())
        return ("dense", K.r)

    def tri_method(self, f, obj, v, args):
        I = self.I
        name = f["name"]
        if name in ("toDenseMatrix", "operator MatrixType"):
            return v.m
        if name == "operator*":
            return self.matmul(v.dense(), I.load(args[0]))
        if name in ("solve",):
            sv = SolverV("LDLT" if v.kind == "selfadjointView" else "PartialPivLU", None, 0, 1)
            m = v.dense()
            key, n = self.factor_key(sv, m)
            return self.solve(SolverV(sv.kind, key, n, 1), I.load(args[0]))
        if name == "rankUpdate":
            w = self.dense(args[0])
            al = I.num(args[1]) if len(args) > 1 else ONE
            m = v.m
            base = I.load(v.lv)
            d = list(base.d)
            if w.c == 1 and (len(args) < 2 or not isinstance(I.load(args[1]), MatV)):
                for j in range(base.c):
                    for i in range(base.r):
                        if (v.mode & 1 and i >= j) or (v.mode & 2 and i <= j):
                            d[j * base.r + i] = self.sarith("+", d[j * base.r + i], self.sarith("*", al, self.sarith("*", w.d[i], w.d[j])))
                I.store(v.lv, MatV(base.r, base.c, d))
                return obj
        if name in ("operator=",):
            w = self.dense(args[0])
            base = I.load(v.lv)
            d = list(base.d)
            for j in range(base.c):
                for i in range(base.r):
                    if (v.mode & 1 and i >= j) or (v.mode & 2 and i <= j):
                        d[j * base.r + i] = w.at(i, j)
            I.store(v.lv, MatV(base.r, base.c, d))
            return obj
        return self.generic(name, f, TempLV(v.dense()), v.dense(), args)

    # AD scalars ------------------------------------------------------------------------------
    def ad_method(self, f, obj, v, args):
        I = self.I
        name = f["name"]
        if name == "value":
            return ADValueLV(obj) if isinstance(obj, LV) else I.to_ad(v).v
        if name == "derivatives":
            return DerivLV(obj) if isinstance(obj, LV) else MatV(len(v.d), 1, v.d)
        if name == "operator=":
            w = I.load(args[0])
            if isinstance(w, MatV) and len(w.d) == 1:
                w = w.d[0]
            I.store(obj, self.ad_keep(v, w))
            return obj
        if name in ("operator+=", "operator-=", "operator*=", "operator/="):
            w = self.sarith(name[8], v, I.num(args[0]))
            I.store(obj, w)
            return obj
        if name in ("operator+", "operator-", "operator*", "operator/") and args:
            return self.sarith(name[8], v, I.num(args[0]))
        if name == "operator-":
            return self.neg(v)
        if name in ("operator<", "operator<=", "operator>", "operator>=", "operator==", "operator!="):
            return I.compare(name[8:], v, I.load(args[0]))
        I.unsupported("AutoDiffScalar::" + name)

    # operators on matrices -------------------------------------------------------------------
    def opmethod(self, f, obj, v, args, e):
        I = self.I
        op = f["name"][8:]
        if op in ("()", "[]"):
            if isinstance(v, OpaqueV) and isinstance(v.what, tuple) and v.what[0] == "functor":
                return self.callfn(v, [I.load(a) for a in args])
            return self.coeff(obj, v, [I.intval(a) for a in args])
        if op == "=":
            w = I.load(args[0])
            if isinstance(w, CommaInit):
                w = I.load(w.m)
            self.assign(obj, v, w)
            return obj
        if op in ("+=", "-=", "*=", "/="):
            w = I.load(args[0])
            if isinstance(w, KronV):
                w = w.m
            if isinstance(v, SpWinLV):
                v = self.sp_window(v.m, I.load(v.m), v.i0, v.j0, v.r, v.c).v
            r = self.binop(op[0], v, w)
            if isinstance(v, MatV) and not isinstance(r, MatV):
                r = self.dense(r)
            self.assign(obj, v, r)
            return obj
        if op == "<<":
            ci = CommaInit(obj)
            self.comma_put(ci, I.load(args[0]))
            return ci
        if op == "-" and not args:
            return self.neg(v)
        if op in ("+", "-", "*", "/") and args:
            return self.binop(op, v, I.load(args[0]))
        if op in ("<", "<=", ">", ">=", "==", "!="):
            w = I.load(args[0])
            return self.mcompare(op, v, w)
        if op in ("&&", "||"):
            w = self.dense(args[0])
            g = self._and if op == "&&" else self._or
            return MatV(v.r, v.c, [g(I.truth(a), I.truth(b)) for a, b in zip(v.d, w.d)], True)
        if op == "!":
            return v.map(lambda x: (not I.truth(x)) if isinstance(I.truth(x), bool) else ONE - I.truth(x))
        if op.startswith(" "):
            # conversion operator
            if isinstance(v, MatV) and len(v.d) == 1:
                return v.d[0]
            return obj
        I.unsupported("operator%s on %s" % (op, type(v).__name__))

    def assign(self, obj, v, w):
        I = self.I
        if isinstance(obj, SpWinLV):
            return self.assign_spwin(obj, w)
        if isinstance(v, SpV):
            if isinstance(obj, Cell):
                if isinstance(w, MatV):
                    I.event("dim", "dense assigned to sparse")
                I.store(obj, w.compressed() if isinstance(w, SpV) and False else w)
                return
            I.store(obj, w)
            return
        if isinstance(w, KronV):
            w = w.m
        if isinstance(obj, SpDiagLV) or isinstance(obj, SpValsLV):
            if isinstance(obj, SpValsLV):
                w = self.dense(w)
                m = I.load(obj.m)
                vals = list(m.vals)
                if len(w.d) != len(obj.idx):
                    I.event("dim", "assigning %d values to %d" % (len(w.d), len(obj.idx)))
                    raise AbortP()
                for k, x in zip(obj.idx, w.d):
                    vals[k] = x
                I.store(obj.m, SpV(m.r, m.c, m.outer, m.nnz, m.inner, vals))
                return
            w = self.dense(w)
            n = len(I.load(obj).d)
            if len(w.d) != n:
                I.event("dim", "assigning %d values to %d diagonal entries" % (len(w.d), n))
                raise AbortP()
            I.store(obj, w)
            return
        if isinstance(w, SolverV):
            I.store(obj, w)
            return
        w = self.dense(w)
        if isinstance(obj, Cell):
            t = I.prog.rec_of(obj.tid)
            if t and t["name"] in ("Eigen::Matrix", "Eigen::Array"):
                if isinstance(v, MatV) and v.d and isinstance(v.d[0], ADVal) and len(v.d) == len(w.d):
                    w = MatV(w.r, w.c, [self.ad_keep(o, x) for o, x in zip(v.d, w.d)], w.arr)
                I.store(obj, self.convert(w, t))
                return
            I.store(obj, w)
            return
        if isinstance(obj, ElemLV):
            I.store(obj, w)
            return
        # element types: keep AD depth / floats
        if v.d and isinstance(v.d[0], ADVal) and len(v.d) == len(w.d):
            w = MatV(w.r, w.c, [self.ad_keep(o, x) for o, x in zip(v.d, w.d)], w.arr)
        elif v.d and isinstance(v.d[0], Poly):
            w = w.map(lambda x: const(x) if isinstance(x, (int, bool)) and not self._intcell(obj) else x)
        if (w.r, w.c) != (v.r, v.c):
            if w.r == v.c and w.c == v.r and 1 in (w.r, w.c):
                w = MatV(v.r, v.c, w.d, w.arr)
            else:
                I.event("dim", "assigning %dx%d to %dx%d" % (w.r, w.c, v.r, v.c))
                raise AbortP()
        I.store(obj, w)

    def _intcell(self, obj):
        while isinstance(obj, ViewLV):
            obj = obj.m
        if isinstance(obj, Cell):
            t = self.I.prog.rec_of(obj.tid)
            if t and t["name"] in ("Eigen::Matrix", "Eigen::Array"):
                return self.I.kindt(t["args"][0]["t"]) == "int"
        return False

    def assign_spwin(self, obj, w):
        I = self.I
        m = I.load(obj.m)
        if isinstance(w, MatV):
            w = self.sparse_view(w)
        cols = m.cols()
        out = []
        for j in range(m.c):
            if obj.j0 <= j < obj.j0 + obj.c:
                keep = [(i, x) for i, x in cols[j] if not (obj.i0 <= i < obj.i0 + obj.r)]
                keep += [(i + obj.i0, x) for i, x in w.cols()[j - obj.j0]]
                out.append(sorted(keep, key=lambda t: t[0]))
            else:
                out.append(cols[j])
        if (w.r, w.c) != (obj.r, obj.c):
            I.event("dim", "assigning %dx%d to sparse block %dx%d" % (w.r, w.c, obj.r, obj.c))
            raise AbortP()
        if m.nnz is not None and obj.i0 == 0 and obj.r == m.r:
            # Eigen keeps an uncompressed matrix uncompressed when a panel of whole columns is assigned
            wc = w.cols()
            start, end = m.outer[obj.j0], m.outer[obj.j0 + obj.c]
            inner, vals = [i for col in wc for i, _ in col], [x for col in wc for _, x in col]
            grow = max(0, len(inner) - (end - start))
            pad = (end - start) - len(inner)
            if pad > 0:
                inner += [-1] * pad
                vals += [None] * pad
            outer, nnz = list(m.outer), list(m.nnz)
            p = start
            for k in range(obj.c):
                nnz[obj.j0 + k] = len(wc[k])
                outer[obj.j0 + k] = p
                p += len(wc[k])
            for k in range(obj.j0 + obj.c, m.c + 1):
                outer[k] += grow
            I.store(obj.m, SpV(m.r, m.c, outer, nnz, m.inner[:start] + tuple(inner) + m.inner[end:], m.vals[:start] + tuple(vals) + m.vals[end:]))
            return
        I.store(obj.m, SpV.from_cols(m.r, m.c, out))


class TriV:
    """triangular / self-adjoint view"""
    def __init__(self, kind, mode, m, lv):
        self.kind, self.mode, self.m0, self.lv = kind, mode, m, lv

    __slots__ = ("kind", "mode", "m0", "lv")

    @property
    def m(self):
        return self.dense()

    def dense(self):
        m = self.m0.dense() if isinstance(self.m0, SpV) else self.m0
        lower = bool(self.mode & 1)
        if self.kind == "selfadjointView":
            return MatV(m.r, m.c, [m.at(max(i, j), min(i, j)) if lower else m.at(min(i, j), max(i, j)) for j in range(m.c) for i in range(m.r)])
        unit = bool(self.mode & 4)
        strict = bool(self.mode & 8)
        d = []
        for j in range(m.c):
            for i in range(m.r):
                if i == j:
                    d.append(ONE if unit else ZERO if strict else m.at(i, j))
                elif (i > j) == lower:
                    d.append(m.at(i, j))
                else:
                    d.append(ZERO)
        return MatV(m.r, m.c, d)


class SpWinLV(LV):
    """block of a sparse matrix"""
    __slots__ = ("m", "i0", "j0", "r", "c", "v")

    def __init__(self, m, i0, j0, r, c, v):
        self.m, self.i0, self.j0, self.r, self.c, self.v = m, i0, j0, r, c, v


class SpValsLV(LV):
    """Map over the value array of a sparse matrix"""
    __slots__ = ("m", "r", "c", "idx")
    arr = False

    def __init__(self, m, r, c, idx):
        self.m, self.r, self.c, self.idx = m, r, c, idx


class KronV:
    pass


def AbortP():
    import interp
    return interp.AbortPath()


def raise_dim(I):
    raise AbortP()


def I_deep(x):
    while isinstance(x, ADVal):
        x = x.v
    return x
