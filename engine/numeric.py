"""Constant folding of irrational constants, for the polynomial bases.

pi is an exact symbol (a literal that is the nearest double to a small multiple of pi is that multiple); cosines, square roots and
polynomial roots of constants are folded to rationals accurate to more than 2^-PREC, so that an identity between folded constants is
decided up to TOL = 2^-200, far below anything a formula that is not the intended one could produce by coincidence.
"""
from fractions import Fraction
from terms import *
import terms as T

PREC = 420
TOL = Fraction(1, 2 ** 200)
PI = var("pi")
PIID = next(iter(PI.m))[0][0]


def rnd(x, bits=PREC):
    """nearest multiple of 2^-bits"""
    x = Fraction(x)
    if x.denominator <= 2 ** bits and x.denominator & (x.denominator - 1) == 0:
        return x
    n = (x.numerator << (bits + 1)) // x.denominator
    return Fraction((n + 1) >> 1, 2 ** bits)


def small(x):
    return x.denominator.bit_length() <= 64 and abs(x.numerator).bit_length() <= 64


def _pi(bits):
    # Machin: pi = 16 atan(1/5) - 4 atan(1/239)
    one = 1 << (bits + 20)

    def atan_inv(n):
        t = one // n
        s, k, sg = t, 1, -1
        while t:
            t //= n * n
            k += 2
            s += sg * (t // k)
            sg = -sg
        return s
    v = 16 * atan_inv(5) - 4 * atan_inv(239)
    return Fraction(v >> 20, 1 << bits)


PIV = _pi(PREC + 30)


def literal(f):
    """value of a floating literal"""
    v = Fraction(repr(f))
    if len(repr(f).replace(".", "").replace("-", "").lstrip("0")) >= 15:
        for q in (1, 2, 4, Fraction(1, 2), Fraction(1, 4), Fraction(1, 3), Fraction(2, 3), Fraction(1, 6)):
            for s in (1, -1):
                if f == float(PIV * q) * s:
                    return const(q * s) * PI
    return const(v)


def _cosv(x):
    """cosine of a rational, by Taylor expansion"""
    x = rnd(x, PREC + 40)
    k = 0
    while abs(x) > Fraction(1, 8):
        x /= 2
        k += 1
    x = rnd(x, PREC + 60)
    x2 = rnd(x * x, PREC + 60)
    t, s, n = Fraction(1), Fraction(1), 0
    while t and abs(t) > Fraction(1, 2 ** (PREC + 50)):
        n += 2
        t = rnd(-t * x2 / (n * (n - 1)), PREC + 60)
        s += t
    for _ in range(k):
        s = rnd(2 * s * s - 1, PREC + 60)
    return rnd(s)


_COS = {}


def cospi(q):
    """cos(q*pi), q rational"""
    q = Fraction(q) % 2
    if q > 1:
        q = 2 - q
    sg = 1
    if q > Fraction(1, 2):
        q, sg = 1 - q, -1
    ex = {Fraction(0): Fraction(1), Fraction(1, 2): Fraction(0), Fraction(1, 3): Fraction(1, 2)}
    if q in ex:
        return sg * ex[q]
    if q not in _COS:
        _COS[q] = _cosv(PIV * q)
    return sg * _COS[q]


def multiple_of_pi(p):
    """q if p = q*pi"""
    if not p.m:
        return Fraction(0)
    if len(p.m) == 1:
        (mono, c), = p.m.items()
        if mono == ((PIID, 1),):
            return c
    return None


def cheb(n, x):
    a, b = ONE, x
    if n == 0:
        return a
    for _ in range(n - 1):
        a, b = b, tidy(const(2) * x * b - a)
    return b


def tidy(p):
    """round the long coefficients"""
    return Poly({k: w for k, w in ((k, v if small(v) else rnd(v)) for k, v in p.m.items()) if w})


def cos(p):
    q = multiple_of_pi(p)
    if q is not None:
        return const(cospi(q))
    if len(p.m) == 1:
        (mono, c), = p.m.items()
        if len(mono) == 1 and mono[0][1] == 1 and ATOMS[mono[0][0]].kind == "fn" and ATOMS[mono[0][0]].args[0] == "acos" and c.denominator == 1:
            return cheb(abs(int(c)), ATOMS[mono[0][0]].args[1][0])
    if p.is_const():
        return const(_cosv(p.const()))
    return None


def acos(p):
    if p.is_const():
        q = {1: 0, -1: 1, 0: Fraction(1, 2), Fraction(1, 2): Fraction(1, 3), Fraction(-1, 2): Fraction(2, 3)}.get(p.const())
        if q is not None:
            return const(q) * PI
    return None


def sqrt(p):
    if p.is_const() and p.const() >= 0:
        import math
        c = p.const()
        r = T.sqrt(p)
        if r.is_const():
            return r
        return const(Fraction(math.isqrt((c.numerator << (2 * PREC)) // c.denominator), 2 ** PREC))
    return None


def roots(c):
    """the real roots of sum c[i] x^i (rational c), ascending, when there are as many simple real ones as the degree; else None"""
    c = [Fraction(x) for x in c]
    while c and c[-1] == 0:
        return None                       # the leading coefficient must not vanish
    n = len(c) - 1
    if n < 1:
        return []
    if n == 1:
        return [rnd(-c[0] / c[1])]
    d = roots([k * c[k] for k in range(1, n + 1)])
    if d is None:
        return None

    def ev(x):
        r = Fraction(0)
        for a in reversed(c):
            r = r * x + a
            if not small(r):
                r = rnd(r, PREC + 60)
        return r
    B = 1 + max(abs(a / c[-1]) for a in c[:-1])
    pts = [-B] + d + [B]
    out = []
    for lo, hi in zip(pts, pts[1:]):
        fl, fh = ev(lo), ev(hi)
        if fl == 0 or fh == 0 or (fl > 0) == (fh > 0):
            if fl == 0 or fh == 0 or abs(fl) < TOL or abs(fh) < TOL:
                return None
            return None
        if ev(Fraction(0)) == 0 and lo < 0 < hi:
            out.append(Fraction(0))
            continue
        out.append(_refine(ev, [k * c[k] for k in range(1, n + 1)], lo, hi, fl > 0))
    return out


def _refine(ev, dc, lo, hi, up):
    for _ in range(40):
        m = rnd((lo + hi) / 2, PREC + 20)
        v = ev(m)
        if v == 0:
            return m
        if (v > 0) == up:
            lo = m
        else:
            hi = m
    x = (lo + hi) / 2
    for _ in range(8):
        d = Fraction(0)
        for a in reversed(dc):
            d = rnd(d * x + a, PREC + 60)
        x = rnd(x - ev(x) / d, PREC + 60)
    return rnd(x)


def near(a, b):
    """equality up to TOL in every coefficient"""
    d = P(a) - P(b)
    return all(abs(v) <= TOL for v in d.m.values())
