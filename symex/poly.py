"""Multivariate polynomials with rational coefficients over integer symbols.

Represented as plain dicts {monomial: coefficient}, a monomial being a sorted
tuple of variable indices (with repetition); the zero polynomial is {}.
"""
from fractions import Fraction
from math import gcd

ONE = ()


def const(c):
    return {ONE: c} if c else {}


def var(i):
    return {(i,): 1}


def is_const(p):
    return not p or (len(p) == 1 and ONE in p)


def const_value(p):
    return p.get(ONE, 0)


def norm_c(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


def add(p, q):
    if not p:
        return q
    if not q:
        return p
    r = dict(p)
    for m, c in q.items():
        s = r.get(m)
        if s is None:
            r[m] = c
        else:
            s = s + c
            if s:
                r[m] = norm_c(s)
            else:
                del r[m]
    return r


def neg(p):
    return {m: -c for m, c in p.items()}


def sub(p, q):
    if not q:
        return p
    r = dict(p)
    for m, c in q.items():
        s = r.get(m)
        if s is None:
            r[m] = -c
        else:
            s = s - c
            if s:
                r[m] = norm_c(s)
            else:
                del r[m]
    return r


def scale(p, k):
    if not k:
        return {}
    if k == 1:
        return p
    return {m: norm_c(c * k) for m, c in p.items()}


def mul(p, q):
    if not p or not q:
        return {}
    if len(q) == 1 and ONE in q:
        return scale(p, q[ONE])
    if len(p) == 1 and ONE in p:
        return scale(q, p[ONE])
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = m1 + m2 if not m1 or not m2 else tuple(sorted(m1 + m2))
            s = r.get(m, 0) + c1 * c2
            if s:
                r[m] = norm_c(s)
            else:
                r.pop(m, None)
    return r


def degree(p):
    return max((len(m) for m in p), default=0)


def evaluate(p, values):
    t = 0
    for m, c in p.items():
        for i in m:
            c = c * values[i]
        t += c
    return t


def lead(p):
    return max(p, key=lambda m: (len(m), m))


def canon(p):
    """Return (key, sign, factor) where p = sign*factor*poly(key), factor > 0,
    key has coprime integer coefficients and a positive leading one."""
    items = sorted(p.items(), key=lambda it: (len(it[0]), it[0]))
    den = 1
    for _, c in items:
        if type(c) is Fraction:
            den = den * c.denominator // gcd(den, c.denominator)
    g = 0
    ints = []
    for m, c in items:
        c = int(c * den)
        ints.append((m, c))
        g = gcd(g, c)
    s = 1 if ints[-1][1] > 0 else -1
    if g != 1 or s < 0:
        k = g * s
        ints = [(m, c // k) for m, c in ints]
    return tuple(ints), s, Fraction(g, den)


def divide_exact(p, q):
    """p / q when q divides p exactly, otherwise None."""
    lq = lead(q)
    cq = q[lq]
    r = dict(p)
    out = {}
    steps = 0
    while r:
        steps += 1
        if steps > 200:
            return None
        lp = lead(r)
        # lp must be a multiple of lq
        rest = list(lp)
        for i in lq:
            try:
                rest.remove(i)
            except ValueError:
                return None
        m = tuple(rest)
        c = norm_c(Fraction(r[lp]) / cq)
        out[m] = c
        r = sub(r, mul(q, {m: c}))
    return out


_FACTORS = {}


def remember_product(p, q):
    """Note that the product of p and q is what it is."""
    dp, dq = degree(p), degree(q)
    if dp < 1 or dq < 1:
        return
    r = mul(p, q)
    key = canon(r)[0]
    if key not in _FACTORS:
        f = factors(canon(p)[0]) + factors(canon(q)[0])
        _FACTORS[key] = f


def factors(key):
    """Irreducible (canonical) factors of a canonical polynomial."""
    p = dict(key)
    if degree(p) <= 1:
        return (key,)
    f = _FACTORS.get(key)
    if f is None:
        f = _FACTORS[key] = _factor(key)
    return f


_PRIME = (1 << 61) - 1


def _rank_above_two(key):
    """The quadratic form of a polynomial of degree two has rank > 2 (then
    it has no factors)."""
    ids = sorted({i for m, _ in key for i in m})
    at = {i: k + 1 for k, i in enumerate(ids)}
    n = len(ids) + 1
    rows = [[0] * n for _ in range(n)]
    for m, c in key:
        a, b = ([0, 0] + [at[i] for i in m])[-2:]
        c = int(c)
        rows[a][b] = (rows[a][b] + c) % _PRIME
        rows[b][a] = (rows[b][a] + c) % _PRIME
    rank = 0
    for col in range(n):
        k = next((i for i in range(rank, n) if rows[i][col]), None)
        if k is None:
            continue
        rank += 1
        if rank > 2:
            return True
        rows[rank - 1], rows[k] = rows[k], rows[rank - 1]
        top = rows[rank - 1]
        inv = pow(top[col], _PRIME - 2, _PRIME)
        for i in range(rank, n):
            f = rows[i][col] * inv % _PRIME
            if f:
                row = rows[i]
                rows[i] = [(v - f * t) % _PRIME for v, t in zip(row, top)]
    return False


def _factor(key):
    if len(key[-1][0]) == 2:
        if len(key) > 3 and _rank_above_two(key):
            return (key,)
    elif len(key) > 120:
        return (key,)
    import sympy
    ids = sorted({i for m, _ in key for i in m})
    syms = {i: sympy.Symbol('v%d' % i) for i in ids}
    back = {s: i for i, s in syms.items()}
    e = sympy.Add(*[sympy.Mul(c, *[syms[i] for i in m]) for m, c in key])
    _, fl = sympy.factor_list(e)
    out = []
    for f, k in fl:
        pf = sympy.Poly(f, *[syms[i] for i in ids])
        d = {}
        for exps, c in pf.terms():
            m = []
            for i, n in zip(ids, exps):
                m.extend([i] * n)
            d[tuple(m)] = int(c)
        if is_const(d):
            continue
        out.extend([canon(d)[0]] * k)
    return tuple(out)
