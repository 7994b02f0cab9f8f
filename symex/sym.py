"""Symbolic numbers for concolic execution of the real Python sources.

A ``Sym`` carries the real value the program computes on the current witness
(``v``: int or float) and, next to it, the exact rational function of the
symbolic integers which the program text denotes (``n / d``).  Control flow
follows the real values; every decision is recorded as an exact atom, so a
path is the set of *all* inputs satisfying the recorded atoms.  Whenever the
real (floating point) decision differs from the exact one, the path is marked
as diverged and is excluded from symbolic claims.
"""
import math as _math
import struct as _struct
from fractions import Fraction

from . import poly as P

NEG, ZERO, POS = 1, 2, 4
ANY = 7
LT, LE, EQ, NE, GE, GT = 1, 3, 2, 5, 6, 4


class PathAborted(Exception):
    """An assumption of the harness does not hold on this witness."""


class PathBudget(BaseException):
    """Too many steps in a single path."""


class Ctx:
    def __init__(self, values, bounds):
        self.values = list(values)      # exact value of each symbol
        self.bounds = list(bounds)      # max absolute value of each symbol
        self.known = {}
        self.trail = []
        self.diverged = []
        self.floor_vars = {}
        self.concretized = 0
        self.ulp_assumed = 0
        self.must = set()
        self.pending = {}
        self.steps = 0
        self.max_steps = 2000000

    # -- symbols -----------------------------------------------------------
    def new_var(self, value, bound):
        self.values.append(value)
        self.bounds.append(bound)
        return len(self.values) - 1

    def max_abs(self, p):
        t = 0
        for m, c in p.items():
            c = abs(c)
            for i in m:
                c *= self.bounds[i]
            t += c
        return t

    # -- decisions ---------------------------------------------------------
    def sign_in(self, p, mask, real=None):
        """Decide (and record) whether sign(p) is in mask."""
        self.steps += 1
        if self.steps > self.max_steps:
            raise PathBudget('steps')
        if not p:
            return bool(mask & ZERO)
        if len(p) == 1 and P.ONE in p:
            return bool(mask & (POS if p[P.ONE] > 0 else NEG))
        key, s, _ = P.canon(p)
        if s < 0:
            mask = (mask & ZERO) | ((mask & NEG) << 2) | ((mask & POS) >> 2)
        return self.key_sign_in(key, mask)

    def key_sign_in(self, key, mask):
        known = self.known.get(key, ANY)
        if not known & ~mask:
            return True
        if not known & mask:
            return False
        if len(key[-1][0]) > 1:
            fs = P.factors(key)
            if len(fs) > 1:
                sign = 1
                for f in fs:
                    sign *= self.key_sign(f)
                    if not sign:
                        break
                sm = POS if sign > 0 else NEG if sign < 0 else ZERO
                self.known[key] = sm
                return bool(sm & mask)
        e = P.evaluate(dict(key), self.values)
        sm = POS if e > 0 else NEG if e < 0 else ZERO
        res = bool(sm & mask)
        new = known & (mask if res else ~mask)
        self.known[key] = new
        self.trail.append(('s', key, new, known))
        return res

    def key_sign(self, key):
        """Exact sign of a canonical polynomial, fully decided."""
        if self.key_sign_in(key, POS):
            return 1
        return 0 if self.key_sign_in(key, ZERO) else -1

    def flush(self):
        """Record sign bits which were looked at but not only for biasing."""
        while self.pending:
            _, b = self.pending.popitem()
            b.negative()

    def floor_var(self, n, d):
        """Symbol for floor(n/d), d None or a polynomial of known sign."""
        if d is not None:
            if not self.sign_in(d, POS):
                n, d = P.neg(n), P.neg(d)
        key = (tuple(sorted(n.items())),
               None if d is None else tuple(sorted(d.items())))
        i = self.floor_vars.get(key)
        if i is None:
            x = Fraction(P.evaluate(n, self.values))
            if d is not None:
                x /= P.evaluate(d, self.values)
            b = self.max_abs(n) + 1
            i = self.new_var(_math.floor(x), b)
            self.floor_vars[key] = i
            # v*d <= n < v*d + d
            dd = P.const(1) if d is None else d
            r = P.sub(n, P.mul(P.var(i), dd))
            self.trail.append(('d', i, P.canon(r) if r else None,
                               P.canon(P.sub(dd, r))))
        return i


class _State:
    ctx = None


STATE = _State()


def to_frac(x):
    t = type(x)
    if t is int or t is bool:
        return int(x)
    if t is float:
        f = Fraction(x)
        return f.numerator if f.denominator == 1 else f
    if isinstance(x, int):
        return int(x)
    if isinstance(x, Fraction):
        return P.norm_c(x)
    if isinstance(x, float):
        return P.norm_c(Fraction(float(x)))
    return None


def is_special(x):
    return isinstance(x, float) and (_math.isinf(x) or _math.isnan(x))


def cancel(n, d):
    """Normalise the fraction n/d."""
    if P.is_const(d):
        return P.scale(n, Fraction(1) / Fraction(P.const_value(d))), None
    if not n:
        return n, None
    if P.is_const(n):
        return n, d
    q = P.divide_exact(n, d) if P.degree(n) >= P.degree(d) else None
    if q is not None:
        return q, None
    if P.degree(d) == 1:
        return n, d
    key, s, k = P.canon(d)
    left = []
    changed = False
    for f in P.factors(key):
        q = P.divide_exact(n, dict(f))
        if q is None:
            left.append(f)
        else:
            n = q
            changed = True
    if not changed:
        return n, d
    nd = P.const(1)
    for f in left:
        nd = P.mul(nd, dict(f))
    k = k * s
    n = P.scale(n, Fraction(1) / k)
    if P.is_const(nd):
        return P.scale(n, Fraction(1) / Fraction(P.const_value(nd))), None
    return n, nd


class Sym:
    __slots__ = 'n', 'd', 'v'

    def __init__(self, n, d, v):
        self.n = n
        self.d = d
        self.v = v

    def __repr__(self):
        return 'Sym(%r)' % (self.v,)

    # -- helpers -----------------------------------------------------------
    @property
    def exact(self):
        c = STATE.ctx.values
        x = Fraction(P.evaluate(self.n, c))
        if self.d is not None:
            x /= P.evaluate(self.d, c)
        return x

    def is_integer_valued(self):
        return self.d is None and all(type(c) is int for c in self.n.values())

    def concretize(self):
        ctx = STATE.ctx
        if not P.is_const(self.n) or self.d is not None:
            ctx.concretized += 1
            d = P.const(1) if self.d is None else self.d
            ctx.sign_in(P.sub(self.n, P.scale(d, P.norm_c(self.exact))), EQ)
        return self.v

    # -- arithmetic --------------------------------------------------------
    def __neg__(self):
        return Sym(P.neg(self.n), self.d, -self.v)

    def __pos__(self):
        return self

    def __abs__(self):
        if sign_of(self) < 0:
            return Sym(P.neg(self.n), self.d, abs(self.v))
        return Sym(self.n, self.d, abs(self.v))

    def _arith(self, other, kind, swap):
        if isinstance(other, Sym):
            on, od, ov = other.n, other.d, other.v
        else:
            if is_special(other):
                return _real(kind, other, self.v) if swap else _real(
                        kind, self.v, other)
            f = to_frac(other)
            if f is None:
                return NotImplemented
            on, od, ov = P.const(f), None, other
        if swap:
            an, ad, av, bn, bd, bv = on, od, ov, self.n, self.d, self.v
        else:
            an, ad, av, bn, bd, bv = self.n, self.d, self.v, on, od, ov
        if kind == '*':
            v = av * bv
            n = P.mul(an, bn)
            if ad is None and bd is None:
                P.remember_product(an, bn)
                return Sym(n, None, v)
            d = bd if ad is None else ad if bd is None else P.mul(ad, bd)
            n, d = cancel(n, d)
            return Sym(n, d, v)
        v = av + bv if kind == '+' else av - bv
        op = P.add if kind == '+' else P.sub
        if ad is None and bd is None:
            return Sym(op(an, bn), None, v)
        if ad is not None and bd is not None and ad == bd:
            n, d = cancel(op(an, bn), ad)
            return Sym(n, d, v)
        if bd is None:
            n, d = op(an, P.mul(bn, ad)), ad
        elif ad is None:
            n, d = op(P.mul(an, bd), bn), bd
        else:
            n, d = op(P.mul(an, bd), P.mul(bn, ad)), P.mul(ad, bd)
        n, d = cancel(n, d)
        return Sym(n, d, v)

    def __add__(self, other):
        return self._arith(other, '+', False)

    def __radd__(self, other):
        return self._arith(other, '+', True)

    def __sub__(self, other):
        return self._arith(other, '-', False)

    def __rsub__(self, other):
        return self._arith(other, '-', True)

    def __mul__(self, other):
        return self._arith(other, '*', False)

    def __rmul__(self, other):
        return self._arith(other, '*', True)

    def __truediv__(self, other):
        if is_special(other):
            return self.v / other
        other = lift(other)
        if other is None:
            return NotImplemented
        return divide(self, other)

    def __rtruediv__(self, other):
        if is_special(other):
            return other / self.v
        other = lift(other)
        if other is None:
            return NotImplemented
        return divide(other, self)

    def __floordiv__(self, other):
        q = self.__truediv__(other)
        return q if q is NotImplemented else floor_of(
                q, self.v // (other.v if isinstance(other, Sym) else other))

    def __rfloordiv__(self, other):
        return lift(other).__floordiv__(self)

    def __mod__(self, other):
        q = self.__floordiv__(other)
        if q is NotImplemented:
            return q
        r = self - q * other
        return Sym(r.n, r.d, self.v % (other.v if isinstance(other, Sym)
                                       else other))

    def __divmod__(self, other):
        return self // other, self % other

    def __pow__(self, k, mod=None):
        if type(k) is int and 0 <= k <= 4 and mod is None:
            r = 1
            for _ in range(k):
                r = r * self
            return r
        return self.concretize() ** (k.concretize() if isinstance(k, Sym)
                                     else k)

    def __rpow__(self, b):
        return b ** self.concretize()

    # -- rounding ----------------------------------------------------------
    def __floor__(self):
        return floor_of(self, _math.floor(self.v))

    def __ceil__(self):
        r = floor_of(-self, -_math.ceil(self.v))
        return -r

    def __trunc__(self):
        return trunc_of(self)

    def __round__(self, ndigits=None):
        if ndigits is not None and ndigits != 0:
            return round(self.concretize(), ndigits)
        real = round(self.v) if ndigits is None else round(self.v, 0)
        f = floor_of(self, _math.floor(self.v))
        t = self - f - Fraction(1, 2)
        s = sign_of(t)
        if s > 0 or s == 0 and (f % 2 == 1):
            f = f + 1
        return Sym(f.n, f.d, real)

    def is_integer(self):
        f = floor_of(self, _math.floor(self.v))
        return self == f

    # -- comparisons -------------------------------------------------------
    def __bool__(self):
        return compare(self, ZERO_SYM, NE, bool(self.v))

    def __eq__(self, other):
        if other is self:
            return True
        return self._cmp(other, EQ)

    def __ne__(self, other):
        if other is self:
            return False
        return self._cmp(other, NE)

    def __lt__(self, other):
        return self._cmp(other, LT)

    def __le__(self, other):
        return self._cmp(other, LE)

    def __gt__(self, other):
        return self._cmp(other, GT)

    def __ge__(self, other):
        return self._cmp(other, GE)

    def _cmp(self, other, mask):
        if isinstance(other, Sym):
            return compare(self, other, mask,
                           _REAL_CMP[mask](self.v, other.v))
        if is_special(other):
            return _REAL_CMP[mask](self.v, other)
        o = lift(other)
        if o is None:
            return NotImplemented
        return compare(self, o, mask, _REAL_CMP[mask](self.v, other))

    def __hash__(self):
        return 0

    # -- conversions outside the proxies' reach ----------------------------
    def __float__(self):
        return float(self.concretize())

    def __int__(self):
        return int(self.concretize())

    def __index__(self):
        return self.concretize().__index__()

    def __and__(self, other):
        return self.concretize() & other

    def __rand__(self, other):
        return other & self.concretize()

    def __or__(self, other):
        return self.concretize() | other

    def __ror__(self, other):
        return other | self.concretize()

    def __invert__(self):
        return ~self.concretize()

    def __lshift__(self, k):
        if type(k) is int:
            return self * (1 << k)
        return self.concretize() << k

    def __rshift__(self, k):
        if type(k) is int:
            return self // (1 << k)
        return self.concretize() >> k

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


_REAL_CMP = {LT: lambda a, b: a < b, LE: lambda a, b: a <= b,
             EQ: lambda a, b: a == b, NE: lambda a, b: a != b,
             GE: lambda a, b: a >= b, GT: lambda a, b: a > b}


def _real(kind, a, b):
    return a * b if kind == '*' else a + b if kind == '+' else a - b


ZERO_SYM = Sym({}, None, 0)


def lift(x):
    if isinstance(x, Sym):
        return x
    f = to_frac(x)
    return None if f is None else Sym(P.const(f), None, x)


def compare(a, b, mask, real):
    ctx = STATE.ctx
    ad, bd = a.d, b.d
    if ad is None and bd is None:
        p = P.sub(a.n, b.n)
    else:
        if ad is not None and bd is not None and ad == bd:
            p, d = P.sub(a.n, b.n), ad
        elif bd is None:
            p, d = P.sub(a.n, P.mul(b.n, ad)), ad
        elif ad is None:
            p, d = P.sub(P.mul(a.n, bd), b.n), bd
        else:
            p, d = P.sub(P.mul(a.n, bd), P.mul(b.n, ad)), P.mul(ad, bd)
        if mask not in (EQ, NE) and not ctx.sign_in(d, POS):
            p = P.neg(p)
    res = ctx.sign_in(p, mask)
    if res is not real and res != real:
        if len(ctx.diverged) < 5:
            ctx.diverged.append('%r %r %r' % (a.v, mask, b.v))
        else:
            ctx.diverged.append('')
        return bool(real)
    return res


def sign_of(a):
    if compare(a, ZERO_SYM, GT, a.v > 0):
        return 1
    return 0 if compare(a, ZERO_SYM, EQ, a.v == 0) else -1


def divide(a, b):
    if compare(b, ZERO_SYM, EQ, b.v == 0):
        return a.v / b.v            # the real ZeroDivisionError
    if b.v == 0:
        return a.v / b.v
    v = a.v / b.v
    if not a.n:
        return Sym({}, None, v)
    if a.d is None:
        n = a.n
        d = b.n
        if b.d is not None:
            n = P.mul(n, b.d)
    else:
        n = a.n
        d = P.mul(a.d, b.n)
        if b.d is not None:
            n = P.mul(n, b.d)
    n, d = cancel(n, d)
    return Sym(n, d, v)


def _check_real(sym_value, real):
    if sym_value != real:
        STATE.ctx.diverged.append('rounding %r' % (real,))


def floor_of(a, real):
    """floor(a) as a Sym; real is what the program obtained."""
    ctx = STATE.ctx
    if a.is_integer_valued():
        r = Sym(a.n, None, real)
    elif a.d is None:
        den = 1
        for c in a.n.values():
            if type(c) is Fraction:
                den = den * c.denominator // _math.gcd(den, c.denominator)
        i = ctx.floor_var(P.scale(a.n, den), P.const(den))
        r = Sym(P.var(i), None, real)
    else:
        i = ctx.floor_var(a.n, a.d)
        r = Sym(P.var(i), None, real)
    _check_real(P.evaluate(r.n, ctx.values), real)
    return r


def trunc_of(a):
    if a.is_integer_valued():
        return Sym(a.n, None, int(a.v))
    if sign_of(a) >= 0:
        return floor_of(a, int(a.v))
    return -floor_of(-a, -int(a.v))


def round_mode(a, mode, real):
    """Round to an integer with a rounding mode named as in ``decimal``."""
    if a.is_integer_valued():
        _check_real(a.exact, real)
        return Sym(a.n, None, real)
    fl = int(_math.floor(a.exact))
    if mode == 'ROUND_FLOOR':
        r = floor_of(a, fl)
    elif mode == 'ROUND_CEILING':
        r = -floor_of(-a, -int(_math.ceil(a.exact)))
    elif mode == 'ROUND_DOWN':
        r = (floor_of(a, fl) if sign_of(a) >= 0
             else -floor_of(-a, int(_math.floor(-a.exact))))
    elif mode == 'ROUND_UP':
        r = (-floor_of(-a, int(_math.floor(-a.exact))) if sign_of(a) >= 0
             else floor_of(a, fl))
    else:
        half = Fraction(1, 2)
        neg = sign_of(a) < 0
        b = -a if neg else a
        if mode == 'ROUND_HALF_UP':
            c = b + half
            r = floor_of(c, int(_math.floor(c.exact)))
        elif mode == 'ROUND_HALF_DOWN':
            c = half - b
            r = -floor_of(c, int(_math.floor(c.exact)))
        else:       # ROUND_HALF_EVEN
            f = floor_of(b, int(_math.floor(b.exact)))
            t = b - f - half
            s = sign_of(t)
            r = f + 1 if s > 0 or s == 0 and f % 2 == 1 else f
        if neg:
            r = -r
    r = Sym(r.n, r.d, real)
    _check_real(r.exact, real)
    return r


# -- bit patterns of doubles -------------------------------------------------
def _bits(v):
    return _struct.unpack('>Q', _struct.pack('>d', float(v)))[0]


class SymBytes:
    def __init__(self, order, sym):
        self.order = order
        self.sym = sym

    def real(self):
        return _struct.pack(self.order + 'd', self.sym.concretize())

    def __len__(self):
        return 8

    def __getitem__(self, i):
        return self.real()[i]

    def __iter__(self):
        return iter(self.real())


class Bits:
    """The 64 bits of a double, or its two's complement / biased forms."""

    def __init__(self, sym, form, origin=None):
        self.sym = sym
        self.form = form
        self.origin = self if origin is None else origin

    def real(self):
        b = _bits(self.sym.v)
        if self.form == 'raw':
            return b
        if self.form == 'not':
            return ~b
        if self.form == 'neg':
            return ~b + 1
        # monotone
        return (~b + 1) & (2 ** 64 - 1) if b >> 63 else b | 1 << 63

    def negative(self):
        """Sign bit, recorded on the path."""
        if self.sym.v == 0:
            compare(self.sym, ZERO_SYM, EQ, True)
            return bool(_bits(self.sym.v) >> 63)
        return compare(self.sym, ZERO_SYM, LT, self.sym.v < 0)

    def peek_negative(self):
        """Sign bit; only recorded if the result is not a biased form, which
        is the same monotone function of the value for both signs."""
        STATE.ctx.pending[id(self.origin)] = self.origin
        return bool(_bits(self.sym.v) >> 63)

    def mono(self):
        STATE.ctx.pending.pop(id(self.origin), None)
        return Bits(self.sym, 'mono', self.origin)

    def materialize(self):
        """Exact integer value, fixing sign and binade on this path."""
        a = self.sym
        real = self.real()
        if a.v == 0 or Fraction(a.v) != a.exact:
            a.concretize()
            return real
        neg = self.negative()
        b = -a if neg else a
        e = _math.frexp(abs(a.v))[1] - 1
        lo = Fraction(2) ** e
        if not (b >= lo and b < lo * 2):
            a.concretize()
            return real
        mant = (b / lo - 1) * (1 << 52)
        m = mant + ((e + 1023) << 52)
        if self.form == 'raw':
            r = m + (1 << 63) if neg else m
        elif self.form == 'not':
            r = -(m + (1 << 63) if neg else m) - 1
        elif self.form == 'neg':
            r = -(m + (1 << 63) if neg else m)
        else:
            r = (1 << 63) - m if neg else m + (1 << 63)
        if r.exact != real:
            a.concretize()
            return real
        return Sym(r.n, r.d, real)

    def __and__(self, other):
        if self.form == 'raw' and other == 1 << 63:
            return 1 << 63 if self.peek_negative() else 0
        if other == (1 << 64) - 1:
            return wrap_u64(self)
        return int(self.materialize()) & int(other)

    __rand__ = __and__

    def __or__(self, other):
        if (self.form == 'raw' and other == 1 << 63
                and not self.peek_negative()):
            return self.mono()
        return int(self.materialize()) | int(other)

    __ror__ = __or__

    def __rshift__(self, k):
        if self.form == 'raw' and k == 63:
            return 1 if self.peek_negative() else 0
        return int(self.materialize()) >> k

    def __invert__(self):
        if self.form == 'raw':
            return Bits(self.sym, 'not', self.origin)
        return ~int(self.materialize())

    def __add__(self, other):
        if self.form == 'not' and other == 1:
            return Bits(self.sym, 'neg', self.origin)
        return self.materialize() + other

    __radd__ = __add__

    def __neg__(self):
        if self.form == 'raw':
            return Bits(self.sym, 'neg', self.origin)
        return -self.materialize()

    def __sub__(self, other):
        if isinstance(other, Bits):
            if self.form == other.form == 'mono':
                return UlpDiff(self, other)
            return self.materialize() - other.materialize()
        if self.form == 'mono':
            o = _unbias(other)
            if o is not None:
                return UlpDiff(self, o)
        return self.materialize() - other

    def __rsub__(self, other):
        if (self.form == 'raw' and other == 1 << 64
                and self.peek_negative()):
            return self.mono()
        if self.form == 'mono':
            o = _unbias(other)
            if o is not None:
                return UlpDiff(o, self)
        return other - self.materialize()

    def _c(self, other, mask):
        if isinstance(other, Bits) and self.form == other.form == 'mono':
            return compare(self.sym, other.sym, mask,
                           _REAL_CMP[mask](self.real(), other.real()))
        if self.form == 'mono':
            o = _unbias(other)
            if o is not None:
                return self._c(o, mask)
        o = other.materialize() if isinstance(other, Bits) else other
        return _REAL_CMP[mask](self.materialize(), o)

    def __eq__(self, o):
        return self._c(o, EQ)

    def __ne__(self, o):
        return self._c(o, NE)

    def __lt__(self, o):
        return self._c(o, LT)

    def __le__(self, o):
        return self._c(o, LE)

    def __gt__(self, o):
        return self._c(o, GT)

    def __ge__(self, o):
        return self._c(o, GE)

    def __hash__(self):
        return 0

    def __bool__(self):
        return bool(self.materialize())

    def __int__(self):
        return int(self.materialize())

    __index__ = __int__


def wrap_u64(x):
    if isinstance(x, Bits):
        if x.form in ('raw', 'mono'):
            return x
        if x.form == 'neg':
            # -raw mod 2**64: the biased form of a negative double
            if x.peek_negative():
                return x.mono()
        return int(x.materialize()) & (2 ** 64 - 1)
    return None


def _unbias(b):
    """Constant double whose biased form is b, as Bits."""
    if type(b) is not int or not 0 < b < 1 << 64:
        return None
    raw = b ^ (1 << 63) if b >> 63 else (1 << 64) - b
    v = _struct.unpack('>d', _struct.pack('>Q', raw))[0]
    if is_special(v):
        return None
    return Bits(lift(v), 'mono')


class UlpDiff:
    def __init__(self, a, b, absolute=False):
        self.a = a
        self.b = b
        self.absolute = absolute

    def real(self):
        r = self.a.real() - self.b.real()
        return abs(r) if self.absolute else r

    def __abs__(self):
        return UlpDiff(self.a, self.b, True)

    def __neg__(self):
        return UlpDiff(self.b, self.a)

    def materialize(self):
        r = self.a.materialize() - self.b.materialize()
        return abs(r) if self.absolute else r

    def _c(self, other, mask):
        if isinstance(other, (UlpDiff, Bits)):
            other = other.materialize()
            return _REAL_CMP[mask](self.materialize(), other)
        real = _REAL_CMP[mask](self.real(), other)
        x, y = self.a.sym, self.b.sym
        if type(other) is not int:
            return _REAL_CMP[mask](self.materialize(), other)
        ctx = STATE.ctx
        if compare(x, y, EQ, x.v == y.v):
            res = _REAL_CMP[mask](0, other)
        elif self.absolute and 0 <= other <= 1 << 20:
            if x.d is None and not y.n or y.d is None and not x.n:
                pass    # a non-zero multiple of 1/D against zero
            elif x.d is None and y.d is None:
                gap = _granularity(P.sub(x.n, y.n))
                top = max(min(ctx.max_abs(x.n), ctx.max_abs(y.n)) + 1, 1)
                if Fraction(top) / 2 ** 51 * (other + 1) >= gap:
                    return _REAL_CMP[mask](self.materialize(), other)
            else:
                ctx.ulp_assumed += 1
            res = mask in (NE, GE, GT)       # distance exceeds ``other``
        else:
            return _REAL_CMP[mask](self.materialize(), other)
        if res != real:
            ctx.diverged.append('ulps %r %r' % (x.v, y.v))
            return real
        return res

    def __eq__(self, o):
        return self._c(o, EQ)

    def __ne__(self, o):
        return self._c(o, NE)

    def __lt__(self, o):
        return self._c(o, LT)

    def __le__(self, o):
        return self._c(o, LE)

    def __gt__(self, o):
        return self._c(o, GT)

    def __ge__(self, o):
        return self._c(o, GE)

    def __hash__(self):
        return 0

    def __bool__(self):
        return self._c(0, NE)

    def __int__(self):
        return int(self.materialize())

    __index__ = __int__


def _granularity(p):
    den = 1
    for c in p.values():
        if type(c) is Fraction:
            den = den * c.denominator // _math.gcd(den, c.denominator)
    return Fraction(1, den)
