"""Value-numbering domain: canonical algebraic normal forms.

A number is a `Poly`: a finite sum of rational coefficients times monomials over interned atoms
(Laurent monomials: exponents may be negative).  Truth values are polynomials over *indicator*
atoms ([p<=0], [p<0], [p==0], named booleans) with [c]*[c] = [c]; not c = 1-c, a and b = a*b.
A control-flow merge under condition c of values a,b is b + c*(a-b).  Two expressions built by
different but equivalent code therefore get the same normal form.
"""
from fractions import Fraction

F0, F1 = Fraction(0), Fraction(1)


class Atom:
    __slots__ = ("id", "kind", "args", "ind", "isint", "deps", "_str")

    def __repr__(self):
        return astr(self)


ATOMS = []
_ATAB = {}


def atom(kind, *args, ind=False, isint=False):
    key = (kind,) + args
    a = _ATAB.get(key)
    if a is None:
        a = Atom()
        a.id = len(ATOMS)
        a.kind = kind
        a.args = args
        a.ind = ind
        a.isint = isint
        a.deps = None
        a._str = None
        ATOMS.append(a)
        _ATAB[key] = a
    return a


class Poly:
    __slots__ = ("m", "_h")

    def __init__(self, m):
        self.m = m
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.m.items()))
        return self._h

    def __eq__(self, o):
        if self is o:
            return True
        if isinstance(o, (int, Fraction)):
            o = const(o)
        return isinstance(o, Poly) and self.m == o.m

    def __add__(self, o):
        o = P(o)
        if not o.m:
            return self
        if not self.m:
            return o
        a, b = (self.m, o.m)
        if len(a) < len(b):
            a, b = b, a
        r = dict(a)
        for k, v in b.items():
            x = r.get(k)
            if x is None:
                r[k] = v
            else:
                x += v
                if x:
                    r[k] = x
                else:
                    del r[k]
        return Poly(r)

    __radd__ = __add__

    def __neg__(self):
        return Poly({k: -v for k, v in self.m.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) + (-self)

    def __mul__(self, o):
        o = P(o)
        return _mul(self, o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * inv(P(o))

    def __rtruediv__(self, o):
        return P(o) * inv(self)

    def is_const(self):
        return not self.m or (len(self.m) == 1 and () in self.m)

    def const(self):
        return self.m.get((), F0)

    def __repr__(self):
        return pstr(self)


def const(c):
    if isinstance(c, float):
        c = Fraction(repr(c))
    c = Fraction(c)
    return Poly({(): c}) if c else ZERO


ZERO = Poly({})
ONE = Poly({(): F1})


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, (bool, int, Fraction, float)):
        return const(x) if x else ZERO
    raise TypeError("not a scalar: %r" % (x,))


def var(name, isint=False, ind=False):
    return Poly({((atom("v", name, ind=ind, isint=isint).id, 1),): F1})


def ap(a):
    return Poly({((a.id, 1),): F1})


_special = {}  # id -> True if needs exponent reduction (ind, sqrt, abs)


def _is_special(i):
    a = ATOMS[i]
    return a.ind or a.kind in ("sqrt", "abs", "inv")


def _mulmono(a, b):
    """returns (monomial, needs_reduction)"""
    if not a:
        return b, False
    if not b:
        return a, False
    r = []
    i = j = 0
    na, nb = len(a), len(b)
    red = False
    while i < na and j < nb:
        x, y = a[i], b[j]
        if x[0] < y[0]:
            r.append(x)
            i += 1
        elif y[0] < x[0]:
            r.append(y)
            j += 1
        else:
            e = x[1] + y[1]
            at = ATOMS[x[0]]
            if at.ind:
                r.append((x[0], 1))
            elif e:
                r.append((x[0], e))
                if (at.kind in ("sqrt", "abs") and (e >= 2 or e <= -2)) or (at.kind == "inv" and e < 0):
                    red = True
            i += 1
            j += 1
    r.extend(a[i:])
    r.extend(b[j:])
    return tuple(r), red


def _reduce(mono, c):
    """expand powers of sqrt/abs atoms"""
    res = Poly({(): c})
    rest = []
    for i, e in mono:
        a = ATOMS[i]
        if a.kind == "sqrt" and (e >= 2 or e <= -2):
            s = 1 if e > 0 else -1
            q, r = divmod(abs(e), 2)
            res = _mul(res, power(a.args[0], s * q))
            if r:
                rest.append((i, s))
        elif a.kind == "abs" and (e >= 2 or e <= -2):
            s = 1 if e > 0 else -1
            q, r = divmod(abs(e), 2)
            res = _mul(res, power(a.args[0], s * 2 * q))
            if r:
                rest.append((i, s))
        elif a.kind == "inv" and e < 0:
            res = _mul(res, power(a.args[0], -e))
        else:
            rest.append((i, e))
    return _mul(res, Poly({tuple(rest): F1}))


def _mul(a, b):
    if not a.m or not b.m:
        return ZERO
    if a.is_const():
        c = a.m[()]
        if c == 1:
            return b
        return Poly({k: v * c for k, v in b.m.items()})
    if b.is_const():
        c = b.m[()]
        if c == 1:
            return a
        return Poly({k: v * c for k, v in a.m.items()})
    r = {}
    extra = None
    for k1, v1 in a.m.items():
        for k2, v2 in b.m.items():
            k, red = _mulmono(k1, k2)
            if red:
                q = _reduce(k, v1 * v2)
                extra = q if extra is None else extra + q
                continue
            x = r.get(k)
            if x is None:
                r[k] = v1 * v2
            else:
                x += v1 * v2
                if x:
                    r[k] = x
                else:
                    del r[k]
    p = Poly(r)
    if extra is not None:
        p = p + extra
    return p


def power(p, n):
    if n == 0:
        return ONE
    if n < 0:
        return power(inv(p), -n)
    r = p
    for _ in range(n - 1):
        r = _mul(r, p)
    return r


def indicators(p):
    s = set()
    for mono in p.m:
        for i, _ in mono:
            if ATOMS[i].ind:
                s.add(i)
    return s


def cofactor(p, i):
    """p = p1*[i] + p0*(1-[i]);  returns (p1, p0)"""
    r0, r1 = {}, {}
    for mono, c in p.m.items():
        has = False
        for k, _ in mono:
            if k == i:
                has = True
                break
        if has:
            mm = tuple(x for x in mono if x[0] != i)
            r1[mm] = r1.get(mm, F0) + c
        else:
            r0[mono] = c
    p0 = Poly(r0)
    p1 = p0 + Poly({k: v for k, v in r1.items() if v})
    return p1, p0


MAXSHANNON = 7


def shannon(fn, *ps):
    """apply fn pointwise over the cases of the indicator atoms of ps"""
    inds = set()
    for p in ps:
        inds |= indicators(p)
    if not inds:
        return fn(*ps)
    if len(inds) > MAXSHANNON:
        return None
    i = min(inds)
    c1, c0 = [], []
    for p in ps:
        a, b = cofactor(p, i)
        c1.append(a)
        c0.append(b)
    r1 = shannon(fn, *c1)
    r0 = shannon(fn, *c0)
    if r1 is None or r0 is None:
        return None
    ind = Poly({((i, 1),): F1})
    return r0 + ind * (r1 - r0)


def _lead(p):
    return max(p.m.items(), key=lambda kv: _monokey(kv[0]))


def _monokey(mono):
    return (len(mono),) + mono


def normlead(p):
    """p = c*q with leading coefficient of q = 1"""
    k, c = _lead(p)
    if c == 1:
        return F1, p
    return c, Poly({kk: v / c for kk, v in p.m.items()})


def _content_mono(p):
    """common Laurent monomial factor"""
    it = iter(p.m)
    first = dict(next(it))
    common = dict(first)
    for mono in it:
        d = dict(mono)
        for i in list(common):
            e = d.get(i, 0)
            c = common[i]
            if c > 0 and e > 0:
                common[i] = min(c, e)
            elif c < 0 and e < 0:
                common[i] = max(c, e)
            else:
                del common[i]
        if not common:
            return ()
    # also negative exponents that occur in only some terms
    return tuple(sorted(common.items()))


def inv(p):
    p = P(p)
    if not p.m:
        return ap(atom("div0"))
    if len(p.m) == 1:
        (mono, c), = p.m.items()
        if not any(ATOMS[i].ind for i, _ in mono):
            r = Poly({tuple((i, -e) for i, e in mono): 1 / c})
            if any(ATOMS[i].kind in ("inv",) for i, e in mono):
                r = _reduce(tuple((i, -e) for i, e in mono), 1 / c)
            return r
    if indicators(p):
        r = shannon(inv, p)
        if r is not None:
            return r
    # clear negative exponents / common factors
    neg = {}
    for mono in p.m:
        for i, e in mono:
            if e < 0:
                neg[i] = min(neg.get(i, 0), e)
    if neg:
        m = Poly({tuple(sorted((i, -e) for i, e in neg.items())): F1})
        return m * inv(p * m)
    cm = _content_mono(p)
    cm = tuple(x for x in cm if not ATOMS[x[0]].ind)
    if cm:
        im = Poly({tuple((i, -e) for i, e in cm): F1})
        q = p * im
        return im * inv(q)
    c, q = normlead(p)
    return Poly({((atom("inv", q).id, 1),): 1 / c})


def fn(name, *args, deriv=(), isint=False):
    return ap(atom("fn", name, tuple(args), tuple(deriv), isint=isint))


def sqrt(p):
    p = P(p)
    if p.is_const():
        c = p.const()
        if c >= 0:
            import math
            n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return const(Fraction(n, d))
    if indicators(p):
        r = shannon(sqrt, p)
        if r is not None:
            return r
    return ap(atom("sqrt", p))


def absv(p):
    p = P(p)
    if p.is_const():
        return const(abs(p.const()))
    if indicators(p):
        r = shannon(absv, p)
        if r is not None:
            return r
    if nonneg(p):
        return p
    if len(p.m) == 1:
        (mono, c), = p.m.items()
        if len(mono) == 1 and mono[0][1] == 1 and ATOMS[mono[0][0]].kind in ("min", "max") and ZERO in ATOMS[mono[0][0]].args[0]:
            # a clipped quantity has a known sign
            return (maxv(*[-x for x in ATOMS[mono[0][0]].args[0]]) if ATOMS[mono[0][0]].kind == "min" else Poly({mono: F1})) * abs(c)
    cm = _content_mono(p)
    cm = tuple(x for x in cm if not ATOMS[x[0]].ind)
    if cm:
        q = p * Poly({tuple((i, -e) for i, e in cm): F1})
        if not any(i == j for mono in q.m for i, _ in mono for j, _ in cm if len(q.m) == 1):
            out = absv(q)
            for i, e in cm:
                base = Poly({((i, 1),): F1})
                if e % 2 == 0 or ATOMS[i].kind == "inv" and nonneg(ATOMS[i].args[0]) or nonneg(base):
                    f = power(base, abs(e))
                elif ATOMS[i].kind == "inv":
                    f = power(inv(absv(ATOMS[i].args[0])), abs(e))
                else:
                    f = power(Poly({((atom("abs", base).id, 1),): F1}), abs(e))
                out = out * (f if e > 0 else inv(f))
            return out
    c, q = normlead(p)
    return Poly({((atom("abs", q).id, 1),): abs(c)})


def nonneg(p):
    """syntactically non-negative"""
    for mono, c in p.m.items():
        if c < 0:
            return False
        for i, e in mono:
            a = ATOMS[i]
            if a.kind in ("abs", "sqrt") or a.ind or e % 2 == 0:
                continue
            if a.kind == "max" and any(nonneg(x) for x in a.args[0]):
                continue
            return False
    return True


def _mm(kind, ps):
    flat = set()
    for p in ps:
        p = P(p)
        if len(p.m) == 1:
            (mono, c), = p.m.items()
            if c == 1 and len(mono) == 1 and mono[0][1] == 1 and ATOMS[mono[0][0]].kind == kind:
                flat |= set(ATOMS[mono[0][0]].args[0])
                continue
        flat.add(p)
    consts = [p.const() for p in flat if p.is_const()]
    if len(consts) > 1:
        flat = {p for p in flat if not p.is_const()}
        flat.add(const(max(consts) if kind == "max" else min(consts)))
    if kind == "max" and ZERO in flat and any(nonneg(p) for p in flat if p.m):
        flat.discard(ZERO)
    if len(flat) == 1:
        return next(iter(flat))
    # pull out a common summand
    few = min(flat, key=lambda p: len(p.m))
    com = {m: c for m, c in few.m.items() if all(p.m.get(m) == c for p in flat)}
    if com:
        com = Poly(com)
        return com + _mm(kind, [p - com for p in flat])
    # pull out a common non-negative factor
    rest = [p for p in flat if p.m]
    cm = None
    for p in rest:
        k = dict(_content_mono(p))
        k = {i: e for i, e in k.items() if ATOMS[i].kind in ("abs", "sqrt") and e > 0}
        cm = k if cm is None else {i: min(e, k[i]) for i, e in cm.items() if i in k}
        if not cm:
            break
    if cm:
        m = tuple(sorted(cm.items()))
        im = Poly({tuple((i, -e) for i, e in m): F1})
        return Poly({m: F1}) * _mm(kind, [p * im for p in flat])
    return ap(atom(kind, tuple(sorted(flat, key=polykey)), isint=all(isintpoly(p) for p in flat)))


def polykey(p):
    return tuple(sorted(((k, v) for k, v in p.m.items()), key=lambda kv: (len(kv[0]), kv[0])))


def maxv(*ps):
    return clipped(_mmgen("max", ps))


def minv(*ps):
    return clipped(_mmgen("min", ps))


def bounds(p):
    """interval of an integer polynomial (None: unbounded)"""
    lo = hi = F0 = Fraction(0)
    for mono, c in p.m.items():
        if not mono:
            a = b = Fraction(1)
        elif all(ATOMS[i].ind for i, _ in mono):
            a, b = Fraction(0), Fraction(1)
        elif len(mono) == 1 and mono[0][1] == 1 and ATOMS[mono[0][0]].kind in ("max", "min"):
            at = ATOMS[mono[0][0]]
            bs = [bounds(x) for x in at.args[0]]
            ls, hs = [x[0] for x in bs], [x[1] for x in bs]
            if at.kind == "max":
                ls = [x for x in ls if x is not None]
                a, b = (max(ls) if ls else None), (None if None in hs else max(hs))
            else:
                hs = [x for x in hs if x is not None]
                a, b = (None if None in ls else min(ls)), (min(hs) if hs else None)
        else:
            a = b = None
        if c < 0:
            a, b = b, a
        lo = None if lo is None or a is None else lo + c * a
        hi = None if hi is None or b is None else hi + c * b
    return lo, hi


def atmost(p, k):
    """indicator of p <= k for an integer polynomial p and an integer k, down to comparisons of reals"""
    if p.is_const():
        return ONE if p.const() <= k else ZERO
    c0 = p.m.get((), Fraction(0))
    rest = [(m, c) for m, c in p.m.items() if m]
    if len(rest) == 1 and len(rest[0][0]) == 1 and rest[0][0][0][1] == 1 and rest[0][1] in (1, -1) and c0.denominator == 1:
        a, c, m = ATOMS[rest[0][0][0][0]], rest[0][1], int(k - c0)
        if c == -1:
            # -a + c0 <= k  <=>  a >= c0 - k  <=>  not (a <= c0 - k - 1)
            return ONE - atmost(Poly({rest[0][0]: F1}), int(c0 - k - 1))
        if a.kind == "max":
            r = ONE
            for x in a.args[0]:
                r = r * atmost(x, m)
            return r
        if a.kind == "min":
            r = ONE
            for x in a.args[0]:
                r = r * (ONE - atmost(x, m))
            return ONE - r
        if a.kind == "fn" and a.args[0] in ("floor", "trunc", "ceil"):
            z = a.args[1][0]
            if a.args[0] == "floor" or a.args[0] == "trunc" and m >= 0:
                return cmp0("<", z - const(m + 1))
            return cmp0("<=", z - const(m))
    return cmp0("<=", p - const(k))


def clipped(p):
    """a rounded number clipped to a small range is written as a sum of comparisons"""
    if p.is_const() or not any(ATOMS[i].kind in ("max", "min") for mono in p.m for i, _ in mono) or not isintpoly(p):
        return p
    if not _rounded(p):
        return p
    lo, hi = bounds(p)
    if lo is None or hi is None or hi - lo > 8:
        return p
    r = const(lo)
    for k in range(int(lo) + 1, int(hi) + 1):
        r = r + (ONE - atmost(p, k - 1))
    return r


def _rounded(p):
    for mono in p.m:
        for i, _ in mono:
            a = ATOMS[i]
            if a.kind == "fn" and a.args[0] in ("floor", "trunc", "ceil"):
                return True
            if a.kind in ("max", "min") and any(_rounded(x) for x in a.args[0]):
                return True
    return False


def _mmgen(kind, ps):
    ps = [P(p) for p in ps]
    if any(indicators(p) for p in ps):
        r = shannon(lambda *q: _mm(kind, q), *ps)
        if r is not None:
            return r
    return _mm(kind, ps)


# ---------------------------------------------------------------- truth values
def isintpoly(p):
    for mono, c in p.m.items():
        if c.denominator != 1:
            return False
        for i, e in mono:
            if e < 0 or not (ATOMS[i].isint or ATOMS[i].ind):
                return False
    return True


def cmp0(op, p):
    """indicator poly of p op 0, op in <=,<,==,!=,>=,>"""
    p = P(p)
    if op == ">=":
        return cmp0("<=", -p)
    if op == ">":
        return cmp0("<", -p)
    if op == "!=":
        return ONE - cmp0("==", p)
    if p.is_const():
        c = p.const()
        return ONE if (c <= 0 if op == "<=" else c < 0 if op == "<" else c == 0) else ZERO
    if indicators(p):
        r = shannon(lambda q: cmp0(op, q), p)
        if r is not None:
            return r
        return ap(atom("cmp", op, p, ind=True))
    if op == "==":
        if any(ATOMS[i].kind == "inv" for mono in p.m for i, _ in mono):
            pass
        c, q = normlead(p)
        return ap(atom("cmp", "==", q, ind=True))
    isint = isintpoly(p)
    if isint and op == "<":
        return cmp0("<=", p + ONE)
    c, q = normlead(p)
    if isint:
        from math import gcd
        # keep integer form: sign-normalise only
        if c > 0:
            return ap(atom("cmp", "<=", p, ind=True))
        # p<=0  <=> not (p>=1) <=> not (-p+1<=0)
        return ONE - ap(atom("cmp", "<=", ONE - p, ind=True))
    if c > 0:
        return ap(atom("cmp", op, q, ind=True))
    # p<=0 <=> q>=0 <=> not(q<0)
    return ONE - ap(atom("cmp", "<" if op == "<=" else "<=", q, ind=True))


def land(a, b):
    return P(a) * P(b)


def lor(a, b):
    a, b = P(a), P(b)
    return a + b - a * b


def lnot(a):
    return ONE - P(a)


def _mmleaf(c, a, b):
    """c ? a : b as min(a, b) or max(a, b), when c is a comparison of a with b"""
    if len(c.m) > 2:
        return None
    inds = indicators(c)
    if len(inds) != 1:
        return None
    at = ATOMS[next(iter(inds))]
    if at.kind != "cmp" or at.args[0] not in ("<=", "<"):
        return None
    q = at.args[1]
    pos = len(c.m) == 1  # c = [q<=0], else 1-[q<=0]
    d = a - b
    if not d.m:
        return None
    k, dn = normlead(d)
    if isintpoly(q) and isintpoly(d):
        for e in (q, q - ONE):      # an integer below zero is at most -1
            if e.m and normlead(e)[1] == dn:
                q = e
                break
    kq, q = normlead(q)
    if dn != q:
        return None
    k = k * kq
    # c pos: when a-b (sign k) <= 0 choose a
    if pos == (k > 0):
        return minv(a, b)
    return maxv(a, b)


def _mmselect(c, a, b, depth=0):
    r = _mmleaf(c, a, b)
    if r is not None:
        return r
    inds = indicators(a) | indicators(b)
    if not inds or len(inds) + depth > 4:
        return None
    ci = indicators(c)
    inds = [i for i in inds if i in ci]
    if not inds:
        return None
    i = max(inds)
    ch, cl = cofactor(c, i)
    ah, al = cofactor(a, i)
    bh, bl = cofactor(b, i)
    def side(c, a, b):
        if c == ONE or a == b:
            return a
        if c == ZERO:
            return b
        return _mmselect(c, a, b, depth + 1)
    h = side(P(ch), P(ah), P(bh))
    if h is None:
        return None
    l = side(P(cl), P(al), P(bl))
    if l is None:
        return None
    x = ap(ATOMS[i])
    return l + P(x) * (h - l)


def ite(c, a, b):
    if c is True or c == 1:
        return a
    if c is False or c == 0:
        return b
    if a is b or a == b:
        return a
    a, b = P(a), P(b)
    r = _mmselect(c, a, b)
    if r is not None:
        return r
    return b + c * (a - b)


def implies(pc, fact):
    return (P(pc) * (ONE - P(fact))).m == {}


def eq(a, b):
    return is_zero(P(a) - P(b))


_PR = (1 << 61) - 1
_RES = ({}, {})


def _residue(p, k):
    """value of p modulo a prime under a fixed pseudo-random assignment (the k-th) that respects the
    relations of the ring: inverses, square roots, absolute values, truth values; None: no value"""
    t = 0
    memo = _RES[k]
    for mono, c in p.m.items():
        x = c.numerator * pow(c.denominator, -1, _PR) % _PR
        for i, e in mono:
            r = memo.get(i)
            if r is None:
                a = ATOMS[i]
                h = ((i + 1) * 0x9E3779B97F4A7C15 + 0x632BE59BD9B4E019) ** 3 % _PR
                if a.ind:
                    r = (h >> 20) & 1 if k else 1 - ((h >> 20) & 1)
                elif a.kind in ("inv", "sqrt", "abs"):
                    r = _residue(a.args[0], k)
                    if r is None:
                        return None
                    if a.kind == "inv":
                        if not r:
                            return None
                        r = pow(r, -1, _PR)
                    elif a.kind == "abs":
                        r = -r % _PR
                    else:
                        q = pow(r, (_PR + 1) // 4, _PR)
                        if q * q % _PR != r:
                            return None
                        r = q
                else:
                    r = h
                memo[i] = r
            if e < 0 and not r:
                return None
            x = x * pow(r, e, _PR) % _PR
        t = (t + x) % _PR
    return t


def is_zero(d):
    if d.m and (_residue(d, 0) or _residue(d, 1)):
        return False  # an identity would vanish modulo the prime as well
    n = 0
    while d.m:
        q = None
        for mono in d.m:
            for i, e in mono:
                if ATOMS[i].kind == "inv":
                    q = i
                    break
            if q is not None:
                break
        if q is None:
            # clear sqrt/abs relations not attempted
            return False
        emax = 0
        for mono in d.m:
            for i, e in mono:
                if i == q:
                    emax = max(emax, e)
        den = ATOMS[q].args[0]
        r = ZERO
        pw = [ONE]
        for _ in range(emax):
            pw.append(pw[-1] * den)
        for mono, c in d.m.items():
            e0 = 0
            rest = []
            for i, e in mono:
                if i == q:
                    e0 = e
                else:
                    rest.append((i, e))
            r = r + Poly({tuple(rest): c}) * pw[emax - e0]
        d = r
        n += 1
        if n > 12:
            return False
    return True


# ---------------------------------------------------------------- support / substitution / differentiation
def support(p, acc=None, seen=None):
    """all leaf atoms ('v') in p (transitively)"""
    if acc is None:
        acc = set()
    if seen is None:
        seen = set()
    for i in _atoms_of(p):
        _asup(i, acc, seen)
    return acc


def _atoms_of(p):
    for mono in p.m:
        for i, _ in mono:
            yield i


def _asup(i, acc, seen):
    if i in seen:
        return
    seen.add(i)
    a = ATOMS[i]
    if a.deps is None:
        s = set()
        if a.kind == "v":
            s.add(a.args[0])
        elif a.kind == "uninit":
            s.add("uninit:%s" % (a.args[0],))
        elif a.kind == "div0":
            s.add("div0")
        else:
            for x in a.args:
                _argsup(x, s)
        a.deps = frozenset(s)
    acc |= a.deps


def _argsup(x, s):
    if isinstance(x, Poly):
        support(x, s, set())
    elif isinstance(x, tuple):
        for y in x:
            _argsup(y, s)
    elif isinstance(x, KeyRef):
        for y in x.data:
            if isinstance(y, Poly):
                support(y, s, set())


class KeyRef:
    """interned reference to a tuple of polys (e.g. the matrix that was factorised)"""
    _tab = {}
    __slots__ = ("id", "data", "name")

    @staticmethod
    def get(data, name="K"):
        k = (name, tuple(data))
        r = KeyRef._tab.get(k)
        if r is None:
            r = KeyRef()
            r.id = len(KeyRef._tab)
            r.data = tuple(data)
            r.name = name
            KeyRef._tab[k] = r
        return r

    def __repr__(self):
        return "%s#%d" % (self.name, self.id)


def subst(p, sub, memo=None):
    """replaces 'v' atoms by name: sub is a dict name -> Poly"""
    if memo is None:
        memo = {}
    if isinstance(p, (bool, int)):
        return p
    if not (support(p) & sub.keys()):
        return p
    r = ZERO
    for mono, c in p.m.items():
        t = const(c)
        for i, e in mono:
            a = _subst_atom(i, sub, memo)
            t = t * (power(a, e) if e != 1 else a)
        r = r + t
    return r


def _subst_atom(i, sub, memo):
    r = memo.get(i)
    if r is not None:
        return r
    a = ATOMS[i]
    acc = set()
    _asup(i, acc, set())
    k = a.kind
    if not (acc & sub.keys()):
        r = ap(a)
    elif k == "v":
        r = P(sub[a.args[0]])
    elif k == "inv":
        r = inv(subst(a.args[0], sub, memo))
    elif k == "sqrt":
        r = sqrt(subst(a.args[0], sub, memo))
    elif k == "abs":
        r = absv(subst(a.args[0], sub, memo))
    elif k == "max":
        r = maxv(*[subst(x, sub, memo) for x in a.args[0]])
    elif k == "min":
        r = minv(*[subst(x, sub, memo) for x in a.args[0]])
    elif k == "cmp":
        r = cmp0(a.args[0], subst(a.args[1], sub, memo))
    else:
        r = ap(atom(k, *[_subst_arg(x, sub, memo) for x in a.args], ind=a.ind, isint=a.isint))
    memo[i] = r
    return r


def _subst_arg(x, sub, memo):
    if isinstance(x, Poly):
        return subst(x, sub, memo)
    if isinstance(x, tuple):
        return tuple(_subst_arg(y, sub, memo) for y in x)
    if isinstance(x, KeyRef):
        return KeyRef.get([_subst_arg(y, sub, memo) for y in x.data], x.name)
    return x


def diff(p, x):
    """formal derivative of p with respect to the 'v' atom named x"""
    r = ZERO
    for mono, c in p.m.items():
        for n, (i, e) in enumerate(mono):
            da = adiff(i, x)
            if not da.m:
                continue
            rest = mono[:n] + ((i, e - 1),) * (1 if e != 1 else 0) + mono[n + 1:]
            rest = tuple(rest)
            r = r + Poly({rest: c * e}) * da
    return r


_dc = {}


def adiff(i, x):
    k = (i, x)
    r = _dc.get(k)
    if r is not None:
        return r
    a = ATOMS[i]
    acc = set()
    _asup(i, acc, set())
    if x not in acc:
        r = ZERO
    elif a.kind == "v":
        r = ONE
    elif a.kind == "inv":
        r = -ap(a) * ap(a) * diff(a.args[0], x)
    elif a.kind == "sqrt":
        r = const(Fraction(1, 2)) * Poly({((a.id, -1),): F1}) * diff(a.args[0], x)
    elif a.kind == "fn":
        r = ZERO
        name, args, dv = a.args
        for j, g in enumerate(args):
            if isinstance(g, Poly):
                dg = diff(g, x)
                if dg.m:
                    r = r + fn(name, *args, deriv=tuple(sorted(dv + (j,)))) * dg
    else:
        raise NotImplementedError("derivative of " + a.kind)
    _dc[k] = r
    return r


# ---------------------------------------------------------------- printing
def astr(a):
    if a._str is None:
        k = a.kind
        if k == "v":
            s = a.args[0]
        elif k == "cmp":
            s = "[%s %s 0]" % (pstr(a.args[1]), a.args[0])
        elif k == "fn":
            d = "".join(",%s" % x for x in a.args[2])
            s = "%s%s(%s)" % (a.args[0], ("_d" + d[1:]) if d else "", ", ".join(pstr(x) if isinstance(x, Poly) else str(x) for x in a.args[1]))
        elif k in ("max", "min"):
            s = "%s(%s)" % (k, ", ".join(pstr(x) for x in a.args[0]))
        elif k == "kinv":
            s = "%r^-1[%s,%s]" % (a.args[0], a.args[1], a.args[2])
        else:
            s = "%s(%s)" % (k, ", ".join(pstr(x) if isinstance(x, Poly) else str(x) for x in a.args))
        a._str = s
    return a._str


def pstr(p, lim=400):
    if isinstance(p, (int, bool)):
        return str(p)
    if not isinstance(p, Poly):
        return repr(p)
    if not p.m:
        return "0"
    parts = []
    n = 0
    for mono, c in sorted(p.m.items(), key=lambda kv: (len(kv[0]), kv[0])):
        s = "*".join(astr(ATOMS[i]) + ("^%d" % e if e != 1 else "") for i, e in mono)
        if not s:
            s = fstr(c)
        elif c == -1:
            s = "-" + s
        elif c != 1:
            s = fstr(c) + "*" + s
        parts.append(s)
        n += len(s)
        if n > lim:
            parts.append("...")
            break
    return " + ".join(parts).replace("+ -", "- ")


def fstr(c):
    return str(c) if c.denominator < 10000 else repr(float(c))
