"""Load /repo/wagyu twice: as it is, and under proxies for symbolic runs.

The symbolic copy is compiled from the current sources on every run; its
builtins and the numeric standard modules it imports are replaced by shims
which understand ``Sym`` values and fall back to the real thing otherwise.
"""
import builtins as _b
import ctypes as _ctypes
import decimal as _decimal
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import math as _math
import os
import struct as _struct
import sys
import types

from . import sym as S

REPO = os.environ.get('WAGYU_REPO', '/repo')
for _p in ('/opt/venv/lib/python3.12/site-packages',):
    if _p not in sys.path and os.path.isdir(_p):
        sys.path.append(_p)
sys.dont_write_bytecode = True


def _has_sym(args):
    return any(isinstance(a, (S.Sym, S.Bits, S.UlpDiff, S.SymBytes,
                              SymDecimal)) for a in args)


def _conc(a):
    if isinstance(a, S.Sym):
        return a.concretize()
    if isinstance(a, (S.Bits, S.UlpDiff)):
        return int(a)
    if isinstance(a, S.SymBytes):
        return a.real()
    if isinstance(a, SymDecimal):
        return _decimal.Decimal(a.sym.concretize())
    return a


def _wrap_module(module, overrides):
    m = types.ModuleType(module.__name__)
    for k, v in vars(module).items():
        if k in overrides:
            continue
        if callable(v) and not isinstance(v, type):
            def f(*args, _v=v, **kw):
                if _has_sym(args):
                    args = [_conc(a) for a in args]
                return _v(*args, **kw)
            f.__name__ = k
            setattr(m, k, f)
        else:
            setattr(m, k, v)
    for k, v in overrides.items():
        setattr(m, k, v)
    return m


# -- math ---------------------------------------------------------------------
def _finite(name, result):
    real = getattr(_math, name)

    def f(x):
        if isinstance(x, S.Sym):
            return result
        return real(x)
    return f


def _to_float(x):
    if isinstance(x, S.Sym):
        return S.Sym(x.n, x.d, float(x.v))
    return float(x)


def _fabs(x):
    return _to_float(abs(x)) if isinstance(x, S.Sym) else _math.fabs(x)


def _dunder(name):
    real = getattr(_math, name)

    def f(x):
        if isinstance(x, S.Sym):
            return getattr(x, '__%s__' % name)()
        return real(x)
    return f


def _isclose(a, b, *, rel_tol=1e-9, abs_tol=0.0):
    if not _has_sym((a, b)):
        return _math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    if a == b:
        return True
    if S.is_special(a) or S.is_special(b):
        return False
    d = abs(a - b)
    return d <= abs(rel_tol * b) or d <= abs(rel_tol * a) or d <= abs_tol


def _copysign(x, y):
    if not _has_sym((x, y)):
        return _math.copysign(x, y)
    a = _to_float(abs(x))
    if isinstance(y, S.Sym):
        return -a if y < 0 else a
    return -a if _math.copysign(1, y) < 0 else a


MATH = _wrap_module(_math, {
    'isinf': _finite('isinf', False), 'isnan': _finite('isnan', False),
    'isfinite': _finite('isfinite', True), 'fabs': _fabs,
    'floor': _dunder('floor'), 'ceil': _dunder('ceil'),
    'trunc': _dunder('trunc'), 'isclose': _isclose, 'copysign': _copysign,
})


# -- struct / ctypes ------------------------------------------------------------
def _pack(fmt, *args):
    if len(args) == 1 and isinstance(args[0], S.Sym):
        f = fmt if isinstance(fmt, str) else fmt.decode()
        if f in ('!d', '>d', '<d', 'd', '=d', '@d'):
            order = '>' if f[0] in '!>' else '<'
            return S.SymBytes(order, _to_float(args[0]))
    return _struct.pack(fmt, *[_conc(a) for a in args])


def _unpack(fmt, data):
    if isinstance(data, S.SymBytes):
        f = fmt if isinstance(fmt, str) else fmt.decode()
        order = '>' if f[0] in '!>' else '<'
        if order == data.order and f.lstrip('!><=@') == 'Q':
            return S.Bits(data.sym, 'raw'),
        if order == data.order and f.lstrip('!><=@') == 'd':
            return data.sym,
        data = data.real()
    return _struct.unpack(fmt, data)


STRUCT = _wrap_module(_struct, {'pack': _pack, 'unpack': _unpack})


class _CInt:
    def __init__(self, real, value):
        self.value = value


def _c_int(name):
    real = getattr(_ctypes, name)

    def f(x=0):
        if isinstance(x, (S.Bits, S.UlpDiff)):
            w = S.wrap_u64(x) if isinstance(x, S.Bits) and real in (
                _ctypes.c_uint64, _ctypes.c_ulonglong) else None
            if w is not None:
                return _CInt(real, w)
            return real(int(x))
        if isinstance(x, S.Sym):
            size = _ctypes.sizeof(real) * 8
            signed = real(-1).value < 0
            lo, hi = ((-(1 << (size - 1)), (1 << (size - 1)) - 1) if signed
                      else (0, (1 << size) - 1))
            if x >= lo and x <= hi:
                return _CInt(real, x)
            y = (x - lo) % (1 << size) + lo
            return _CInt(real, y)
        return real(x)
    f.__name__ = name
    return f


CTYPES = _wrap_module(_ctypes, {
    n: _c_int(n) for n in ('c_int8', 'c_int16', 'c_int32', 'c_int64',
                           'c_uint8', 'c_uint16', 'c_uint32', 'c_uint64',
                           'c_int', 'c_uint', 'c_long', 'c_ulong',
                           'c_longlong', 'c_ulonglong')})


# -- decimal ----------------------------------------------------------------------
class SymDecimal:
    def __init__(self, sym):
        self.sym = sym

    def quantize(self, exp, rounding=None, context=None):
        e = exp if isinstance(exp, int) else _decimal.Decimal(exp)
        unit = (isinstance(e, int)
                or e.as_tuple().exponent == 0)
        if not unit:
            return _decimal.Decimal(self.sym.concretize()).quantize(
                    exp, rounding)
        return self.to_integral_value(rounding)

    def to_integral_value(self, rounding=None, context=None):
        mode = rounding or _decimal.getcontext().rounding
        real = int(_decimal.Decimal(self.sym.v).to_integral_value(mode))
        if mode == 'ROUND_05UP':
            return _decimal.Decimal(self.sym.concretize()).to_integral_value(
                    mode)
        return SymDecimal(S.round_mode(self.sym, mode, real))

    to_integral = to_integral_value
    to_integral_exact = to_integral_value

    def __int__(self):
        return int(self.sym)

    def __float__(self):
        return float(self.sym)

    def __add__(self, other):
        return SymDecimal(self.sym + _dec(other))

    def __sub__(self, other):
        return SymDecimal(self.sym - _dec(other))

    def __neg__(self):
        return SymDecimal(-self.sym)

    def __lt__(self, o):
        return self.sym < _dec(o)

    def __le__(self, o):
        return self.sym <= _dec(o)

    def __gt__(self, o):
        return self.sym > _dec(o)

    def __ge__(self, o):
        return self.sym >= _dec(o)

    def __eq__(self, o):
        return self.sym == _dec(o)


def _dec(o):
    from fractions import Fraction
    if isinstance(o, SymDecimal):
        return o.sym
    if isinstance(o, _decimal.Decimal):
        return Fraction(o)
    return o


class _DecimalMeta(type):
    def __call__(cls, value='0', context=None):
        if isinstance(value, S.Sym):
            return SymDecimal(value)
        if isinstance(value, SymDecimal):
            return value
        return _decimal.Decimal(value, context)

    def __instancecheck__(cls, x):
        return isinstance(x, (_decimal.Decimal, SymDecimal))


class DecimalShim(metaclass=_DecimalMeta):
    pass


DECIMAL = _wrap_module(_decimal, {'Decimal': DecimalShim})


# -- builtins -----------------------------------------------------------------------
class _FloatMeta(type):
    def __call__(cls, x=0.0):
        if isinstance(x, S.Sym):
            return _to_float(x)
        if isinstance(x, SymDecimal):
            return _to_float(x.sym)
        return float(x)

    def __instancecheck__(cls, x):
        return isinstance(x, float) or (isinstance(x, S.Sym)
                                        and isinstance(x.v, float))

    def __subclasscheck__(cls, c):
        return issubclass(c, float)


class FloatShim(float, metaclass=_FloatMeta):
    pass


class _IntMeta(type):
    def __call__(cls, x=0, *args):
        if isinstance(x, S.Sym):
            return S.trunc_of(x)
        if isinstance(x, SymDecimal):
            return S.trunc_of(x.sym)
        if isinstance(x, (S.Bits, S.UlpDiff)):
            return x
        return int(x, *args) if args else int(x)

    def __instancecheck__(cls, x):
        return isinstance(x, int) or (isinstance(x, S.Sym)
                                      and isinstance(x.v, int))

    def __subclasscheck__(cls, c):
        return issubclass(c, int)


class IntShim(int, metaclass=_IntMeta):
    pass


FloatShim.__name__ = FloatShim.__qualname__ = 'float'
IntShim.__name__ = IntShim.__qualname__ = 'int'
for _n in ('from_bytes',):
    pass

SHIMS = {'math': MATH, 'struct': STRUCT, 'ctypes': CTYPES,
         'decimal': DECIMAL}


class SymPackage:
    """One symbolic copy of the package, named ``name``."""

    def __init__(self, name='symwagyu', repo=None):
        self.name = name
        self.root = os.path.join(repo or REPO, 'wagyu')
        bi = dict(vars(_b))
        bi['float'] = FloatShim
        bi['int'] = IntShim
        bi['__import__'] = self._import
        self.builtins = bi
        finder = _Finder(self)
        sys.meta_path.insert(0, finder)
        self.package = importlib.import_module(name)

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0:
            if name in SHIMS:
                return SHIMS[name]
            if name == 'wagyu' or name.startswith('wagyu.'):
                name = self.name + name[len('wagyu'):]
        return _b.__import__(name, globals, locals, fromlist, level)

    def __getattr__(self, item):
        return importlib.import_module(self.name + '.' + item)


class _Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def __init__(self, owner):
        self.owner = owner

    def find_spec(self, fullname, path=None, target=None):
        n = self.owner.name
        if fullname != n and not fullname.startswith(n + '.'):
            return None
        rel = fullname[len(n) + 1:].replace('.', '/')
        base = os.path.join(self.owner.root, rel) if rel else self.owner.root
        if os.path.isdir(base):
            spec = importlib.machinery.ModuleSpec(
                    fullname, self, origin=os.path.join(base, '__init__.py'),
                    is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        if os.path.exists(base + '.py'):
            return importlib.machinery.ModuleSpec(fullname, self,
                                                  origin=base + '.py')
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        path = module.__spec__.origin
        module.__file__ = path
        with open(path, 'rb') as f:
            code = compile(f.read(), path, 'exec', dont_inherit=True)
        module.__dict__['__builtins__'] = self.owner.builtins
        exec(code, module.__dict__)


def load_real(repo=None):
    """The unmodified package, imported normally."""
    root = repo or REPO
    if root not in sys.path:
        sys.path.insert(0, root)
    import wagyu.wagyu
    return sys.modules['wagyu']
