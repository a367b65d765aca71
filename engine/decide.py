"""Equality of expressions by case analysis.

The term representation is canonical for polynomial arithmetic and for the boolean structure of
top-level conditions.  Two expressions written differently can still escape it: a condition inside a
denominator, a condition `s == 1` whose two branches agree only because s is 1, conditions whose
arguments are equal only after clearing denominators.  `equal` splits on conditions (innermost
first), substitutes what each case says, and compares case by case.  It answers True only when every
case is an identity."""
from terms import *
import terms as T

BUDGET = 160


def _replace(p, memo):
    if not isinstance(p, Poly):
        return p
    hit = False
    for mono in p.m:
        for i, _ in mono:
            if _ratom(i, memo) is not None:
                hit = True
    if not hit:
        return p
    r = ZERO
    for mono, c in p.m.items():
        t = const(c)
        for i, e in mono:
            a = _ratom(i, memo)
            if a is None:
                t = t * Poly({((i, e),): T.F1})
            else:
                t = t * (power(a, e) if e != 1 else a)
        r = r + t
    return r


def _changed(x, y):
    return x is not y and x != y


def _rarg(x, memo):
    if isinstance(x, Poly):
        return _replace(x, memo)
    if isinstance(x, tuple):
        y = tuple(_rarg(z, memo) for z in x)
        return x if all(a is b for a, b in zip(x, y)) else y
    if isinstance(x, KeyRef):
        y = [_rarg(z, memo) for z in x.data]
        if all(a is b for a, b in zip(x.data, y)):
            return x
        return KeyRef.get(y, x.name)
    return x


def _ratom(i, memo):
    """replacement of atom i (a Poly), or None when it is unaffected"""
    if i in memo:
        return memo[i]
    a = ATOMS[i]
    memo[i] = None
    args = [_rarg(x, memo) for x in a.args]
    if all(x is y for x, y in zip(a.args, args)):
        return None
    k = a.kind
    if k == "inv":
        r = inv(args[0])
    elif k == "sqrt":
        r = sqrt(args[0])
    elif k == "abs":
        r = absv(args[0])
    elif k == "max":
        r = maxv(*args[0])
    elif k == "min":
        r = minv(*args[0])
    elif k == "cmp":
        r = cmp0(args[0], args[1])
    else:
        r = ap(atom(k, *args, ind=a.ind, isint=a.isint))
    memo[i] = r
    return r


def _nested(p, acc, seen):
    """all indicator atoms anywhere in p"""
    if isinstance(p, Poly):
        for mono in p.m:
            for i, _ in mono:
                if i in seen:
                    continue
                seen.add(i)
                a = ATOMS[i]
                if a.ind:
                    acc.append(i)
                for x in a.args:
                    _nested(x, acc, seen)
    elif isinstance(p, tuple):
        for x in p:
            _nested(x, acc, seen)
    elif isinstance(p, KeyRef):
        for x in p.data:
            _nested(x, acc, seen)


def _has_ind(x):
    acc = []
    _nested(x, acc, set())
    return bool(acc)


def _solve_for(q):
    """q == 0 with q = c*x + rest, x a plain variable not in rest: (atom id, replacement)"""
    for mono, c in q.m.items():
        if len(mono) == 1 and mono[0][1] == 1 and ATOMS[mono[0][0]].kind == "v":
            i = mono[0][0]
            rest = Poly({m: k for m, k in q.m.items() if m != mono})
            if ATOMS[i].args[0] not in support(rest):
                return i, rest * const(-1 / c)
    return None


def _split(p, i, val, same):
    memo = {j: (ONE if val == v else ZERO) for j, v in same}
    memo[i] = ONE if val else ZERO
    r = _replace(p, memo)
    a = ATOMS[i]
    if val and a.kind == "cmp" and a.args[0] == "==":
        s = _solve_for(a.args[1])
        if s:
            r = _replace(r, {s[0]: s[1]})
    return r


def equal(a, b):
    d = P(a) - P(b)
    if is_zero(d):
        return True
    n = [0]
    return _zero(d, n)


def _minmax(p, acc, seen):
    if isinstance(p, Poly):
        for mono in p.m:
            for i, _ in mono:
                if i in seen:
                    continue
                seen.add(i)
                for x in ATOMS[i].args:
                    _minmax(x, acc, seen)
                if ATOMS[i].kind in ("max", "min"):
                    acc.append(i)
    elif isinstance(p, (tuple, KeyRef)):
        for x in (p if isinstance(p, tuple) else p.data):
            _minmax(x, acc, seen)


def _unmax(d):
    """max and min of two values written with a condition, one d already uses when there is one"""
    for _ in range(4):
        acc = []
        _minmax(d, acc, set())
        acc = [i for i in acc if len(ATOMS[i].args[0]) == 2]
        if not acc:
            break
        a, b = ATOMS[acc[0]].args[0]
        conds = []
        _nested(d, conds, set())
        less = None
        for j in conds:
            c = ATOMS[j]
            if c.kind == "cmp" and c.args[0] in ("<", "<="):
                ka, qa = T.normlead(c.args[1])
                if not (a - b).m:
                    continue
                kb, qb = T.normlead(a - b)
                if qa == qb:
                    less = P(ap(atom("cmp", *c.args, ind=True)))
                    if (ka > 0) != (kb > 0):
                        less = ONE - less
                    break
        if less is None:
            less = cmp0("<", a - b)
        r = b + less * (a - b) if ATOMS[acc[0]].kind == "min" else a + less * (b - a)
        d = _replace(d, {acc[0]: r})
    return d


def _unround(d):
    """comparisons of rounded numbers as comparisons of the numbers themselves"""
    acc = []
    _nested(d, acc, set())
    rep = {}
    for i in acc:
        a = ATOMS[i]
        if a.kind == "cmp" and a.args[0] == "<=" and T._rounded(a.args[1]) and T.isintpoly(a.args[1]):
            r = T.atmost(a.args[1], 0)
            if r != P(ap(a)):
                rep[i] = r
    return _replace(d, rep) if rep else d


def _implied(A, val, B):
    """truth value of comparison B when comparison A has the given one and the arguments differ by a constant; None: open"""
    if B.kind != "cmp" or B.args[0] not in ("<", "<=") or A.args[0] not in ("<", "<="):
        return None
    for s in (1, -1):
        e = B.args[1] - A.args[1] * const(s)
        if not e.is_const():
            continue
        e = e.const()
        # A: a <(=) 0; B: s*a + e <(=) 0
        if s == 1:
            if val and (e < 0 or e == 0 and (A.args[0] == B.args[0] or A.args[0] == "<")):
                return True
            if not val and (e > 0 or e == 0 and (A.args[0] == B.args[0] or A.args[0] == "<=")):
                return False
        else:
            # a <= 0 gives -a + e >= e; a > 0 gives -a + e < e
            if val and (e > 0 or e == 0 and (A.args[0] == "<" or B.args[0] == "<")):
                return False
            if not val and (e < 0 or e == 0 and (A.args[0] == "<=" or B.args[0] == "<=")):
                return True
    return None


def _zero(d, n, facts=()):
    n[0] += 1
    if n[0] == 1 and not is_zero(d):
        d = _unmax(_unround(d))
    if n[0] > BUDGET:
        return False
    if is_zero(d):
        return True
    acc = []
    _nested(d, acc, set())
    if not acc:
        # a difference that remains does not matter when the conditions leading here exclude each other
        return len(facts) > 1 and (_combination(-EPS, facts, ("0+",)) or _combination(const(-1), facts, ("0+",)))
    # innermost condition: its own argument holds no condition
    inner = [i for i in acc if not any(_has_ind(x) for x in ATOMS[i].args)]
    if not inner:
        return False
    i = min(inner)
    A = ATOMS[i]
    same = []
    if A.kind == "cmp":
        for j in inner:
            B = ATOMS[j]
            if j != i and B.kind == "cmp" and B.args[0] == A.args[0]:
                if is_zero(A.args[1] - B.args[1]):
                    same.append((j, True))
    def more(val):
        r = []
        if A.kind == "cmp" and A.args[0] in ("<", "<="):
            known = {j for j, _ in same}
            for j in inner:
                if j != i and j not in known:
                    v = _implied(A, val, ATOMS[j])
                    if v is not None:
                        r.append((j, v == val))
        return r
    return all(_zero(_split(d, i, v, same + more(v)), n, facts + tuple(_signed(i, v))) for v in (True, False))


# ---------------------------------------------------------------- signs
def _atom_pos(i, pos, facts):
    """the atom is positive"""
    a = ATOMS[i]
    if a.kind == "v":
        return any(str(a.args[0]).startswith(q) for q in pos) or a.args[0] == "DBL_epsilon"
    if a.kind in ("inv", "sqrt", "abs"):
        return _pos(a.args[0], pos, facts)
    if a.kind == "max":
        return any(_pos(x, pos, facts) for x in a.args[0]) or any(_max_fact(a, f, pos) for f in facts)
    if a.kind == "min":
        return all(_pos(x, pos, facts) for x in a.args[0])
    return False


def _nonneg(i, pos):
    a = ATOMS[i]
    if a.kind in ("abs", "sqrt") or a.ind:
        return True
    if a.kind in ("inv",):
        return all(c > 0 and all(e % 2 == 0 or _nonneg(j, pos) for j, e in m) for m, c in a.args[0].m.items())
    if a.kind == "max":
        return any(all(c > 0 and all(e % 2 == 0 or _nonneg(j, pos) for j, e in m) for m, c in x.m.items()) for x in a.args[0])
    return _atom_pos(i, pos, ())


def _max_fact(a, f, pos):
    """the fact f >= 0 reads t >= something positive, t = (nonnegative factors) * max(S) with S among the arguments of a"""
    ts = [(m, c) for m, c in f.m.items() if c > 0]
    if len(ts) != 1 or len(f.m) < 2 or not _pos(Poly({m: -c for m, c in f.m.items() if c < 0}), pos, ()):
        return False
    mono = ts[0][0]
    for k, (i, e) in enumerate(mono):
        b = ATOMS[i]
        if e == 1 and b.kind == "max" and all(_nonneg(j, pos) or ej % 2 == 0 for j, ej in mono[:k] + mono[k + 1:]):
            if all(any(is_zero(x - y) for y in a.args[0]) for x in b.args[0]):
                return True
    return False


def _pos(p, pos, facts):
    """sum of positive terms, or at least a positive quantity by one of the facts (each >= 0)"""
    ok = p.m and all(c > 0 and all(_atom_pos(i, pos, facts) for i, _ in mono) for mono, c in p.m.items())
    if ok:
        return True
    for f in facts:
        r = p - f
        if r.m and not any(q == r for q in facts) and all(c > 0 and all(ATOMS[i].kind == "v" and _atom_pos(i, pos, ()) for i, _ in mono) for mono, c in r.m.items()):
            return True
    return False


def _consequences(i, val):
    """quantities known to be >= 0 when comparison atom i has the given truth value"""
    a = ATOMS[i]
    if a.kind != "cmp":
        return []
    op, q = a.args
    if op in ("<", "<="):
        q = q if not val else -q
    elif op in (">", ">="):
        q = q if val else -q
    else:
        return []
    out = [q]
    # lower bounds spread over the arguments of min, upper bounds over those of max
    for mono, c in q.m.items():
        if len(mono) == 1 and mono[0][1] == 1:
            b = ATOMS[mono[0][0]]
            if b.kind == "min" and c > 0 or b.kind == "max" and c < 0:
                rest = Poly({m: k for m, k in q.m.items() if m != mono})
                out += [rest + x * const(c) for x in b.args[0]]
    return out


def positive(p, pos=(), facts=(), n=None):
    """p > 0 for every truth value of the conditions in it (False when not established); pos:
    prefixes of variables known to be positive"""
    n = n if n is not None else [0]
    n[0] += 1
    if n[0] > BUDGET:
        return False
    acc = []
    _nested(p, acc, set())
    if not acc:
        return _pos(P(p), tuple(pos), tuple(facts))
    inner = [i for i in acc if not any(_has_ind(x) for x in ATOMS[i].args)]
    if not inner:
        return False
    i = min(inner)
    return all(positive(_split(p, i, v, []), pos, tuple(facts) + tuple(_consequences(i, v)), n) for v in (True, False))


# ---------------------------------------------------------------- inequalities
EPS = var("0+")     # an arbitrarily small positive quantity: f > 0 is kept as f - EPS >= 0


def _simplex_feasible(rows, rhs):
    """is there x >= 0 with rows x = rhs?  exact phase-one simplex (Bland's rule)"""
    F = T.Fraction
    m = len(rows)
    n = len(rows[0]) if m else 0
    A = []
    for r, b in zip(rows, rhs):
        if b < 0:
            A.append([-x for x in r] + [-b])
        else:
            A.append(list(r) + [b])
    for i in range(m):
        A[i] = A[i][:n] + [F(1) if k == i else F(0) for k in range(m)] + [A[i][n]]
    basis = [n + i for i in range(m)]
    w = n + m
    z = [sum(A[i][j] for i in range(m)) for j in range(w + 1)]
    for j in range(n, w):
        z[j] = F(0)
    for _ in range(400):
        if z[w] == 0:
            return True
        col = next((j for j in range(n) if z[j] > 0), None)
        if col is None:
            return z[w] == 0
        row, best = None, None
        for i in range(m):
            if A[i][col] > 0:
                q = A[i][w] / A[i][col]
                if best is None or q < best or q == best and basis[i] < basis[row]:
                    row, best = i, q
        if row is None:
            return False
        p = A[row][col]
        A[row] = [x / p for x in A[row]]
        for i in range(m):
            if i != row and A[i][col] != 0:
                f = A[i][col]
                A[i] = [x - f * y for x, y in zip(A[i], A[row])]
        f = z[col]
        z = [x - f * y for x, y in zip(z, A[row])]
        basis[row] = col
    return False


def _combination(p, facts, pos):
    """p = (nonnegative combination of the facts and of monomials that cannot be negative)"""
    monos = set(p.m)
    facts = [f for f in facts if f.m]
    for f in facts:
        monos |= set(f.m)
    monos = sorted(monos)
    cols = [[f.m.get(mo, T.F0) for mo in monos] for f in facts]
    for mo in monos:
        if not mo or all(e % 2 == 0 or _nonneg(i, pos) for i, e in mo):
            cols.append([T.F1 if x == mo else T.F0 for x in monos])
    if not cols:
        return not p.m
    return _simplex_feasible([[c[k] for c in cols] for k in range(len(monos))], [p.m.get(mo, T.F0) for mo in monos])


def _inner_minmax(*ps):
    acc = []
    seen = set()
    for p in ps:
        _minmax(p, acc, seen)
    for i in acc:
        sub = []
        _minmax(ATOMS[i].args, sub, set())
        if not sub and not any(_has_ind(x) for x in ATOMS[i].args):
            return i
    return None


def _signed(i, v):
    f = _consequences(i, v)
    return [x - EPS for x in f] if f and (ATOMS[i].args[0] == "<") == v else f


def _outer(p, facts, pos, n):
    """p >= 0 from the facts, splitting on p's own conditions, widest first; everything inside them stays opaque"""
    n[0] += 1
    if not p.m:
        return True
    if n[0] > 60 or len(p.m) > 120:
        return False
    if any(p == f for f in facts) or _combination(p, facts, pos) or facts and (_combination(-EPS, facts, pos) or _combination(const(-1), facts, pos)):
        return True
    every = sorted(indicators(p))
    inds = [i for i in every if ATOMS[i].kind == "cmp" and ATOMS[i].args[0] in ("<", "<=")]
    if every:
        plain = [i for i in every if i not in inds]
        i = plain[0] if plain else max(inds, key=lambda j: (len(ATOMS[j].args[1].m), j))
        for v in (True, False):
            m = {i: ONE if v else ZERO}
            for j in inds:
                if j != i and not plain:
                    w = _implied(ATOMS[i], v, ATOMS[j])
                    if w is not None:
                        m[j] = ONE if w else ZERO
            if not _outer(_replace(p, m), [_replace(f, m) for f in facts] + _signed(i, v), pos, n):
                return False
        return True
    for q in [p] + list(facts):
        for mono in q.m:
            for i, e in mono:
                a = ATOMS[i]
                if a.kind in ("max", "min") and len(a.args[0]) <= 4:
                    xs = a.args[0]
                    return all(_outer(_replace(p, {i: x}), [_replace(f, {i: x}) for f in facts]
                                      + [(x - y) if a.kind == "max" else (y - x) for j, y in enumerate(xs) if j != k], pos, n) for k, x in enumerate(xs))
    return False


def nonneg(p, pc=ONE, pos=(), facts=()):
    """p >= 0 whenever the condition pc holds and all facts are >= 0 (False when not established)"""
    p, pc = P(p), P(pc)
    if not pc.m or not p.m:
        return True
    known = list(facts)
    m = {}
    for i in indicators(pc):
        a, b = cofactor(pc, i)
        # cofactor gives (value when true, value when false)
        if not P(a).m:
            known += _signed(i, False)
            m[i] = ZERO
        elif not P(b).m:
            known += _signed(i, True)
            m[i] = ONE
    if m:
        p1, known = _replace(p, m), [_replace(f, m) for f in known]
    else:
        p1 = p
    if _outer(p1, known, tuple(pos) + ("0+",), [0]):
        return True
    return _inner(p, pc, pos, facts)


def _inner(p, pc=ONE, pos=(), facts=(), n=None, strict=()):
    n = n if n is not None else [0]
    n[0] += 1
    if not pc.m or not p.m:
        return True
    if n[0] > 2 * BUDGET:
        return False
    acc = []
    seen = set()
    _nested(p, acc, seen)
    _nested(pc, acc, seen)
    inner = [i for i in acc if not any(_has_ind(x) for x in ATOMS[i].args)]
    mm = _inner_minmax(p, *[ATOMS[i].args for i in inner])
    if mm is None and inner:
        i = min(inner)
        A = ATOMS[i]
        for v in (True, False):
            same = []
            if A.kind == "cmp" and A.args[0] in ("<", "<="):
                for j in inner:
                    if j != i:
                        w = _implied(A, v, ATOMS[j])
                        if w is not None:
                            same.append((j, w == v))
            f = tuple(facts) + tuple(_signed(i, v))
            if not _inner(_split(p, i, v, same), _split(pc, i, v, same), pos, f, n, strict):
                return False
        return True
    fm = _inner_minmax(*facts)
    i = mm if mm is not None else fm
    if i is not None and n[0] < BUDGET:
        a = ATOMS[i]
        xs = a.args[0]
        for k, x in enumerate(xs):
            f = [_replace(q, {i: x}) for q in facts]
            f += [(x - y) if a.kind == "max" else (y - x) for j, y in enumerate(xs) if j != k]
            if not _inner(_replace(p, {i: x}), _replace(pc, {i: x}), pos, tuple(f), n, strict):
                return False
        return True
    pos = tuple(pos) + ("0+",)
    return _combination(p, facts, pos) or _combination(-EPS, facts, pos) or _combination(const(-1), facts, pos)


def entails(pc, fact):
    """the condition pc implies the condition fact"""
    d = P(pc) * (ONE - P(fact))
    if is_zero(d) or equal(d, ZERO):
        return True
    # case by case: wherever pc can hold, fact does
    return nonneg(P(fact) - ONE, pc)


# ---------------------------------------------------------------- intervals
_INF = float("inf")


def interval(p, ranges):
    """bounds of p when the named variables lie in the given ranges; (-inf, inf) when unknown"""
    lo, hi = T.F0, T.F0
    for mono, c in P(p).m.items():
        a, b = c, c
        for i, e in mono:
            x = _atomrange(i, ranges)
            if e < 0:
                if x[0] <= 0 <= x[1]:
                    return (-_INF, _INF)
                x = (_rdiv(x[1]), _rdiv(x[0]))
                e = -e
            if e % 2 == 0 and x[0] < 0:
                x = (T.F0 if x[1] >= 0 else -x[1], max(-x[0], x[1]))
            for _ in range(e):
                q = [_imul(u, v) for u in (a, b) for v in x]
                a, b = min(q), max(q)
        lo, hi = lo + a, hi + b
    return lo, hi


def _rdiv(x):
    return T.F0 if x in (_INF, -_INF) else 1 / T.Fraction(x)


def _imul(u, v):
    return T.F0 if u == 0 or v == 0 else u * v


def _atomrange(i, ranges):
    a = ATOMS[i]
    if a.ind:
        return (T.F0, T.F1)
    if a.kind == "v" and a.args[0] in ranges:
        return ranges[a.args[0]]
    if a.kind == "abs":
        lo, hi = interval(a.args[0], ranges)
        return (lo, hi) if lo >= 0 else (-hi, -lo) if hi <= 0 else (T.F0, max(-lo, hi))
    if a.kind == "sqrt":
        return (T.F0, _INF)
    return (-_INF, _INF)
