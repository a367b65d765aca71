"""Abstract values and lvalues."""
from terms import *


class Unsupported(Exception):
    """the analysed program uses something the abstract semantics does not model"""


class OutOfRange(Exception):
    pass


class ADVal:
    """value + vector of partial derivatives (the repository's automatic differentiation scalar)"""
    __slots__ = ("v", "d")

    def __init__(self, v, d):
        self.v = v
        self.d = tuple(d)

    def __eq__(self, o):
        return self is o or (isinstance(o, ADVal) and self.v == o.v and self.d == o.d)

    def __hash__(self):
        return hash((self.v, self.d))

    def __repr__(self):
        return "AD(%r;%s)" % (self.v, ",".join(map(repr, self.d)))


class MatV:
    """immutable dense matrix value, column major"""
    __slots__ = ("r", "c", "d", "arr")

    def __init__(self, r, c, d, arr=False):
        self.r = r
        self.c = c
        self.d = d if isinstance(d, tuple) else tuple(d)
        self.arr = arr
        if len(self.d) != r * c:
            raise Unsupported("matrix %dx%d with %d elements" % (r, c, len(self.d)))

    def at(self, i, j):
        return self.d[j * self.r + i]

    def __eq__(self, o):
        return self is o or (isinstance(o, MatV) and self.r == o.r and self.c == o.c and self.d == o.d)

    __hash__ = None

    def T(self):
        return MatV(self.c, self.r, tuple(self.d[j * self.r + i] for i in range(self.r) for j in range(self.c)), self.arr)

    def map(self, f):
        return MatV(self.r, self.c, tuple(f(x) for x in self.d), self.arr)

    def __repr__(self):
        return "Mat%dx%d[%s]" % (self.r, self.c, "; ".join(", ".join(pstr(self.at(i, j), 80) for j in range(self.c)) for i in range(self.r)))


class DiagV:
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = tuple(d)


class SpV:
    """immutable compressed/uncompressed column sparse matrix value"""
    __slots__ = ("r", "c", "outer", "nnz", "inner", "vals")

    def __init__(self, r, c, outer, nnz, inner, vals):
        self.r, self.c, self.outer, self.nnz, self.inner, self.vals = r, c, tuple(outer), (None if nnz is None else tuple(nnz)), tuple(inner), tuple(vals)

    @staticmethod
    def empty(r, c):
        return SpV(r, c, (0,) * (c + 1), None, (), ())

    @staticmethod
    def from_cols(r, c, cols):
        """cols: list of lists of (row, value) in increasing row order -> compressed"""
        outer, inner, vals = [0], [], []
        for col in cols:
            for i, v in col:
                inner.append(i)
                vals.append(v)
            outer.append(len(inner))
        return SpV(r, c, outer, None, inner, vals)

    def end(self, j):
        return self.outer[j + 1] if self.nnz is None else self.outer[j] + self.nnz[j]

    def entries(self, j):
        return [(self.inner[p], self.vals[p], p) for p in range(self.outer[j], self.end(j))]

    def cols(self):
        return [[(i, v) for i, v, _ in self.entries(j)] for j in range(self.c)]

    def pattern(self):
        return (self.r, self.c, self.outer, self.nnz, self.inner)

    def find(self, i, j):
        for p in range(self.outer[j], self.end(j)):
            if self.inner[p] == i:
                return p
        return None

    def get(self, i, j):
        p = self.find(i, j)
        return ZERO if p is None else self.vals[p]

    def setval(self, p, v):
        return SpV(self.r, self.c, self.outer, self.nnz, self.inner, self.vals[:p] + (v,) + self.vals[p + 1:])

    def insert(self, i, j, v=ZERO):
        """returns (new, position); inserts a new entry keeping columns sorted"""
        s = self
        if s.nnz is None:
            # Eigen switches to uncompressed mode, reserving 2 per column
            s = s.reserve([2] * s.c)
        start, n = s.outer[j], s.nnz[j]
        pos = start
        while pos < start + n and s.inner[pos] < i:
            pos += 1
        cap = s.outer[j + 1] - start
        inner, vals, outer = list(s.inner), list(s.vals), list(s.outer)
        if n < cap:
            for q in range(start + n, pos, -1):
                inner[q] = inner[q - 1]
                vals[q] = vals[q - 1]
            inner[pos] = i
            vals[pos] = v
        else:
            inner.insert(pos, i)
            vals.insert(pos, v)
            for q in range(j + 1, s.c + 1):
                outer[q] += 1
        nn = list(s.nnz)
        nn[j] += 1
        return SpV(s.r, s.c, outer, nn, inner, vals), pos

    def reserve(self, sizes):
        cols = self.cols()
        outer, inner, vals = [0], [], []
        for j in range(self.c):
            free = (self.outer[j + 1] - self.outer[j]) - len(cols[j])
            extra = max(int(sizes[j]), free if self.nnz is not None else 0)
            for i, v in cols[j]:
                inner.append(i)
                vals.append(v)
            inner += [-1] * extra
            vals += [None] * extra
            outer.append(len(inner))
        return SpV(self.r, self.c, outer, [len(x) for x in cols], inner, vals)

    def compressed(self):
        if self.nnz is None:
            return self
        return SpV.from_cols(self.r, self.c, self.cols())

    def uncompress(self):
        if self.nnz is not None:
            return self
        return SpV(self.r, self.c, self.outer, [self.outer[j + 1] - self.outer[j] for j in range(self.c)], self.inner, self.vals)

    def T(self):
        cols = [[] for _ in range(self.r)]
        for j in range(self.c):
            for i, v, _ in self.entries(j):
                cols[i].append((j, v))
        return SpV.from_cols(self.c, self.r, cols)

    def dense(self):
        d = [ZERO] * (self.r * self.c)
        for j in range(self.c):
            for i, v, _ in self.entries(j):
                d[j * self.r + i] = v
        return MatV(self.r, self.c, d)

    def map(self, f):
        return SpV(self.r, self.c, self.outer, self.nnz, self.inner, [None if v is None else f(v) for v in self.vals])

    def __eq__(self, o):
        return self is o or (isinstance(o, SpV) and self.pattern() == o.pattern() and self.vals == o.vals)

    __hash__ = None

    def __repr__(self):
        return "Sp%dx%d{%s}" % (self.r, self.c, "; ".join("(%d,%d)=%s" % (i, j, pstr(v, 80)) for j in range(self.c) for i, v in self.cols()[j]))


class SolverV:
    """a matrix decomposition object"""
    __slots__ = ("kind", "key", "n", "uplo", "pattern")

    def __init__(self, kind, key=None, n=0, uplo=1, pattern=None):
        self.kind, self.key, self.n, self.uplo, self.pattern = kind, key, n, uplo, pattern

    def __eq__(self, o):
        return isinstance(o, SolverV) and (self.kind, self.key, self.pattern) == (o.kind, o.key, o.pattern)

    __hash__ = None

    def __repr__(self):
        return "Solver(%s,%r)" % (self.kind, self.key)


class OpaqueV:
    __slots__ = ("what",)

    def __init__(self, what):
        self.what = what

    def __eq__(self, o):
        return isinstance(o, OpaqueV) and o.what == self.what

    __hash__ = None

    def __repr__(self):
        return "Opaque(%s)" % (self.what,)


class Conflict:
    """value whose shapes differ on merging paths"""
    __slots__ = ("a", "b")

    def __init__(self, a, b):
        self.a, self.b = a, b


class UninitV:
    """an uninitialised object that is not a number"""

    def __eq__(self, o):
        return isinstance(o, UninitV)

    __hash__ = None


class ListV:
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = tuple(d)

    def __eq__(self, o):
        return isinstance(o, ListV) and self.d == o.d

    __hash__ = None


# ------------------------------------------------------------------------------- lvalues
class LV:
    arr = False


class Cell(LV):
    """a storage cell: content lives in the state's heap"""
    __slots__ = ("oid", "name", "tid")

    def __init__(self, oid, name, tid):
        self.oid, self.name, self.tid = oid, name, tid

    def load(self, S):
        return S.heap[self.oid]

    def __repr__(self):
        return "&" + self.name


class StructObj:
    """an object of a repository class: named sub-objects"""
    __slots__ = ("rec", "fields", "name", "uid")

    def __init__(self, rec, name):
        self.rec, self.name = rec, name
        self.fields = {}

    def __repr__(self):
        return "obj:" + self.name


class ElemLV(LV):
    """element k (flat) of a matrix lvalue"""
    __slots__ = ("m", "k")

    def __init__(self, m, k):
        self.m, self.k = m, k


class ViewLV(LV):
    """rows x cols window given by flat indices into a parent matrix lvalue (whose shape is fixed)"""
    __slots__ = ("m", "r", "c", "idx", "arr")

    def __init__(self, m, r, c, idx, arr=False):
        self.m, self.r, self.c, self.idx, self.arr = m, r, c, tuple(idx), arr
        assert len(self.idx) == r * c


class DerivLV(LV):
    """the derivative vector of an AD scalar lvalue"""
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s


class ADValueLV(LV):
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s


class SpCoeffLV(LV):
    __slots__ = ("m", "i", "j")

    def __init__(self, m, i, j):
        self.m, self.i, self.j = m, i, j


class SpPosLV(LV):
    """position p of the value/inner/outer/nnz array of a sparse matrix"""
    __slots__ = ("m", "what", "p")

    def __init__(self, m, what, p):
        self.m, self.what, self.p = m, what, p


class SpDiagLV(LV):
    __slots__ = ("m", "idx", "arr")

    def __init__(self, m, idx=None):
        self.m = m
        self.idx = idx


class TempLV(LV):
    """an rvalue used where an lvalue is needed (reference to a temporary); once written to, its
    content lives in the state's heap (negative keys), so that branches keep separate versions"""
    __slots__ = ("v0", "oid")
    init = {}
    count = 0

    def __init__(self, v):
        self.v0 = v
        TempLV.count += 1
        self.oid = -TempLV.count


class Ptr:
    __slots__ = ("kind", "m", "off")

    def __init__(self, kind, m, off=0):
        self.kind, self.m, self.off = kind, m, off

    def __eq__(self, o):
        return isinstance(o, Ptr) and self.kind == o.kind and self.off == o.off and (self.m is o.m or samelv(self.m, o.m))

    __hash__ = None

    def __repr__(self):
        return "Ptr(%s,%r,%r)" % (self.kind, self.m, self.off)


def samelv(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, Cell):
        return a.oid == b.oid
    if isinstance(a, ViewLV):
        return a.idx == b.idx and a.r == b.r and samelv(a.m, b.m)
    return a is b


class Closure:
    __slots__ = ("f", "caps", "this")

    def __init__(self, f, caps, this):
        self.f, self.caps, self.this = f, caps, this

    def __eq__(self, o):
        return self is o

    __hash__ = None


class CommaInit:
    __slots__ = ("m", "pos", "row", "blockrows", "col")

    def __init__(self, m):
        self.m = m
        self.row = self.col = self.blockrows = 0


class InnerIter:
    """SparseMatrix::InnerIterator (mutable engine object; only used in statically bounded loops)"""
    __slots__ = ("m", "j", "p", "end")

    def __init__(self, m, j, p, end):
        self.m, self.j, self.p, self.end = m, j, p, end

    def __eq__(self, o):
        return isinstance(o, InnerIter) and (self.j, self.p, self.end) == (o.j, o.p, o.end)

    __hash__ = None


class VWise:
    """colwise()/rowwise() proxy"""
    __slots__ = ("m", "axis")

    def __init__(self, m, axis):
        self.m, self.axis = m, axis


class FnRef:
    __slots__ = ("f", "this")

    def __init__(self, f, this=None):
        self.f, self.this = f, this


class StreamV:
    pass
