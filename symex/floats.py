"""Bit-precise treatment of the floating point helpers.

The C++ ones are translated to z3 from the LLVM IR of the headers, the Python
ones are executed from their source over z3 terms, forking at every decision.
Doubles are symbolic 64-bit patterns, so a verdict covers all of them.
"""
import ctypes as _ctypes
import decimal as _decimal
import math as _math
import os
import re
import shutil
import struct as _struct
import subprocess
import tempfile
import time
import types

import z3

from . import explore as X
from . import native as N
from . import pool

F64 = z3.Float64()
RNE, RNA = z3.RNE(), z3.RNA()
RTN, RTP, RTZ = z3.RTN(), z3.RTP(), z3.RTZ()
LIMIT = 2.0 ** 51


class NotEncoded(Exception):
    pass


# -- values -----------------------------------------------------------------------
class D:
    """A double: an FP term and, where known, its bits."""
    __slots__ = 'fp', '_bits'

    def __init__(self, fp=None, bits=None):
        self.fp = z3.fpBVToFP(bits, F64) if fp is None else fp
        self._bits = bits

    @property
    def bits(self):
        if self._bits is None:
            self._bits = z3.fpToIEEEBV(self.fp)
        return self._bits


def number(x):
    return D(z3.FPVal(x, F64), z3.BitVecVal(
            _struct.unpack('!Q', _struct.pack('!d', x))[0], 64))


def magnitude(b):
    return b & z3.BitVecVal(2 ** 63 - 1, 64)


def to_integral(mode, d):
    return D(z3.fpRoundToIntegral(mode, d.fp))


# -- LLVM IR ------------------------------------------------------------------------
class Module:
    def __init__(self, text):
        self.functions = {}
        for m in re.finditer(r'^define ([^\n]*?)@([\w.$"]+)\((.*?)\)[^\n]*\{\n'
                             r'(.*?)^\}', text, re.S | re.M):
            name = m.group(2)
            args = [a.split()[-1] for a in split(m.group(3)) if a.strip()]
            types_ = [a.split()[0] for a in split(m.group(3)) if a.strip()]
            self.functions[name] = (args, types_, self.blocks(m.group(4),
                                                              len(args)))

    @staticmethod
    def blocks(body, n_args):
        label = str(n_args)
        out = {label: []}
        order = [label]
        for line in body.split('\n'):
            line = line.split(' ;')[0].split(', !')[0].rstrip()
            m = re.match(r'^([\w.]+):', line)
            if m:
                label = m.group(1)
                out[label] = []
                order.append(label)
                continue
            if line.strip():
                out[label].append(line.strip())
        if not out[order[0]] and len(order) > 1:
            del out[order[0]]
            order = order[1:]
        return order, out

    def call(self, name, args, depth=0):
        """Result term of a function, by merging the paths of its graph."""
        if depth > 12:
            raise NotEncoded('recursion in the IR')
        params, types_, (order, blocks) = self.functions[name]
        env = dict(zip(params, args))
        conds = {order[0]: [(None, z3.BoolVal(True))]}
        rets = []
        done = set()
        pending = [order[0]]
        preds = self.predecessors(order, blocks)
        # process in a topological order
        indeg = {b: len(preds[b]) for b in order}
        ready = [order[0]]
        while ready:
            b = ready.pop()
            done.add(b)
            incoming = conds.get(b, [])
            here = (z3.Or([c for _, c in incoming]) if incoming
                    else z3.BoolVal(False))
            for line in blocks[b]:
                r = self.step(line, env, incoming, b, here, conds, rets,
                              depth)
                for t in r or ():
                    indeg[t] -= 1
                    if not indeg[t]:
                        ready.append(t)
        if len(done) < len([b for b in order if b == order[0] or preds[b]]):
            raise NotEncoded('loop in the IR of %s' % name)
        if not rets:
            raise NotEncoded('no return in the IR of %s' % name)
        value = rets[-1][1]
        for c, v in rets[:-1]:
            value = choose(c, v, value)
        return value

    @staticmethod
    def predecessors(order, blocks):
        preds = {b: set() for b in order}
        for b in order:
            for line in blocks[b]:
                if line.startswith(('br ', 'switch ')):
                    for t in re.findall(r'label %([\w.]+)', line):
                        preds[t].add(b)
        return preds

    def step(self, line, env, incoming, block, here, conds, rets, depth):
        m = re.match(r'^(%[\w.]+) = (.*)$', line)
        if m:
            env[m.group(1)] = self.value(m.group(2), env, incoming, depth)
            return None
        if line.startswith('ret '):
            t, v = line[4:].split(None, 1)
            rets.append((here, operand(t, v, env)))
            return None
        if line.startswith('br label'):
            t = line.split('%')[1]
            conds.setdefault(t, []).append((block, here))
            return [t]
        if line.startswith('br i1'):
            m = re.match(r'br i1 (\S+), label %([\w.]+), label %([\w.]+)',
                         line)
            c = operand('i1', m.group(1), env)
            out = []
            for t, g in ((m.group(2), c), (m.group(3), z3.Not(c))):
                conds.setdefault(t, []).append((block, z3.And(here, g)))
                if t not in out:
                    out.append(t)
            return out
        if line.startswith(('call void @llvm.lifetime',
                            'call void @llvm.dbg', 'tail call void @llvm.')):
            return None
        raise NotEncoded(line)

    def value(self, text, env, incoming, depth):
        text = re.sub(r'\b(nuw|nsw|exact|fast|nnan|ninf|nsz|arcp|contract|'
                      r'afn|reassoc|disjoint|nneg|noundef|zeroext|signext)\b '
                      r'?', '', text)
        w = text.split()
        op = w[0]
        if op in ('tail', 'notail', 'musttail'):
            text = text.split(None, 1)[1]
            w = text.split()
            op = w[0]
        if op == 'call':
            m = re.match(r'call (\S+) @([\w.$"]+)\((.*)\)', text)
            if not m:
                raise NotEncoded(text)
            args = [operand(a.split()[0], a.split()[-1], env)
                    for a in split(m.group(3)) if a.strip()]
            return self.called(m.group(1), m.group(2), args, depth)
        if op == 'phi':
            m = re.match(r'phi (\S+) (.*)$', text)
            vals = [(operand(m.group(1), v, env), b) for v, b in re.findall(
                    r'\[ (\S+), %([\w.]+) \]', m.group(2))]
            by = {}
            for b, c in incoming:
                by.setdefault(b, []).append(c)
            value = vals[-1][0]
            for v, b in vals[:-1]:
                if b in by:
                    value = choose(z3.Or(by[b]), v, value)
            return value
        if op == 'select':
            a, b, c = [p.strip() for p in split(text[7:])]
            return choose(operand(*a.split(), env), operand(*b.split(), env),
                          operand(*c.split(), env))
        if op in ('icmp', 'fcmp'):
            m = re.match(r'[if]cmp (\w+) (\S+) (\S+), (\S+)', text)
            a = operand(m.group(2), m.group(3), env)
            b = operand(m.group(2), m.group(4), env)
            return (compare_int if op == 'icmp' else compare_fp)(
                    m.group(1), a, b)
        if op in ('bitcast', 'zext', 'sext', 'trunc', 'sitofp', 'uitofp',
                  'fptosi', 'fptoui', 'freeze'):
            if op == 'freeze':
                return operand(w[1], w[2], env)
            m = re.match(r'\w+ (\S+) (\S+) to (\S+)', text)
            return convert(op, m.group(1), operand(m.group(1), m.group(2),
                                                   env), m.group(3))
        if op == 'fneg':
            return negate(operand(w[1], w[2], env))
        m = re.match(r'(\w+) (\S+) (\S+), (\S+)$', text)
        if not m:
            raise NotEncoded(text)
        a = operand(m.group(2), m.group(3), env)
        b = operand(m.group(2), m.group(4), env)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv'):
            f = dict(fadd=z3.fpAdd, fsub=z3.fpSub, fmul=z3.fpMul,
                     fdiv=z3.fpDiv)[op]
            return D(f(RNE, a.fp, b.fp))
        if m.group(2) == 'i1':
            if op == 'and':
                return z3.And(a, b)
            if op == 'or':
                return z3.Or(a, b)
            if op == 'xor':
                return z3.Xor(a, b)
        else:
            table = dict(add=lambda: a + b, sub=lambda: a - b,
                         mul=lambda: a * b, xor=lambda: a ^ b,
                         shl=lambda: a << b, lshr=lambda: z3.LShR(a, b),
                         ashr=lambda: a >> b)
            table['and'] = lambda: a & b
            table['or'] = lambda: a | b
            if op in table:
                return table[op]()
        raise NotEncoded(text)

    def called(self, type_, name, args, depth):
        if name in self.functions:
            return self.call(name, args, depth + 1)
        if name in ('llvm.fabs.f64', 'fabs'):
            return D(z3.fpAbs(args[0].fp), magnitude(args[0].bits)
                     if args[0]._bits is not None else None)
        modes = {'floor': RTN, 'ceil': RTP, 'trunc': RTZ, 'round': RNA,
                 'rint': RNE, 'nearbyint': RNE, 'roundeven': RNE}
        for k, mode in modes.items():
            if name in (k, 'llvm.%s.f64' % k):
                return to_integral(mode, args[0])
        for k, mode in (('llround', RNA), ('lround', RNA), ('llrint', RNE),
                        ('lrint', RNE)):
            if name in (k, 'llvm.%s.i64.f64' % k):
                return z3.fpToSBV(mode, args[0].fp, z3.BitVecSort(64))
        if name.startswith(('llvm.smax', 'llvm.smin', 'llvm.umax',
                            'llvm.umin', 'llvm.abs')):
            a = args[0]
            if 'abs' in name:
                return z3.If(a < 0, -a, a)
            b = args[1]
            c = {'smax': a > b, 'smin': a < b, 'umax': z3.UGT(a, b),
                 'umin': z3.ULT(a, b)}[name[5:9]]
            return z3.If(c, a, b)
        if name.startswith('llvm.usub.sat'):
            return z3.If(z3.UGT(args[0], args[1]), args[0] - args[1],
                         z3.BitVecVal(0, args[0].size()))
        if name in ('llvm.minnum.f64', 'fmin', 'llvm.maxnum.f64', 'fmax'):
            f = z3.fpMin if 'min' in name else z3.fpMax
            return D(f(args[0].fp, args[1].fp))
        raise NotEncoded('call of ' + name)


def split(text):
    out, depth, cur = [], 0, ''
    for ch in text:
        if ch in '([{':
            depth += 1
        if ch in ')]}':
            depth -= 1
        if ch == ',' and not depth:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    return out + [cur]


def operand(type_, text, env):
    if text.startswith('%'):
        return env[text]
    if type_ == 'double':
        if text.startswith('0x'):
            return number(_struct.unpack('!d', bytes.fromhex(
                    text[2:].zfill(16)))[0])
        if text in ('undef', 'poison'):
            return number(0.)
        return number(float(text))
    if type_ == 'i1':
        return z3.BoolVal(text in ('true', '1', '-1'))
    if re.match(r'i\d+$', type_):
        return z3.BitVecVal(0 if text in ('undef', 'poison') else
                            int(text), int(type_[1:]))
    raise NotEncoded('%s %s' % (type_, text))


def choose(c, a, b):
    if isinstance(a, D):
        bits = (z3.If(c, a._bits, b._bits)
                if a._bits is not None and b._bits is not None else None)
        return D(z3.If(c, a.fp, b.fp), bits)
    return z3.If(c, a, b)


def negate(a):
    return D(z3.fpNeg(a.fp), a._bits ^ z3.BitVecVal(2 ** 63, 64)
             if a._bits is not None else None)


def compare_int(p, a, b):
    if z3.is_bool(a):
        return {'eq': lambda: a == b, 'ne': lambda: z3.Xor(a, b)}[p]()
    return {'eq': lambda: a == b, 'ne': lambda: a != b,
            'slt': lambda: a < b, 'sle': lambda: a <= b,
            'sgt': lambda: a > b, 'sge': lambda: a >= b,
            'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b),
            'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b)}[p]()


def compare_fp(p, a, b):
    a, b = a.fp, b.fp
    nan = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
    base = {'eq': z3.fpEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ, 'lt': z3.fpLT,
            'le': z3.fpLEQ}
    if p == 'ord':
        return z3.Not(nan)
    if p == 'uno':
        return nan
    if p[1:] == 'ne':
        r = z3.And(z3.Not(nan), z3.Not(z3.fpEQ(a, b)))
    else:
        r = base[p[1:]](a, b)
    return r if p[0] == 'o' else z3.Or(nan, r)


def convert(op, source, v, target):
    if op == 'bitcast':
        if source == 'double' and target == 'i64':
            return v.bits
        if source == 'i64' and target == 'double':
            return D(bits=v)
        raise NotEncoded(op)
    if op in ('sitofp', 'uitofp'):
        f = z3.fpSignedToFP if op == 'sitofp' else z3.fpUnsignedToFP
        if z3.is_bool(v):
            v = z3.If(v, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
        return D(f(RNE, v, F64))
    if op in ('fptosi', 'fptoui'):
        n = int(target[1:])
        f = z3.fpToSBV if op == 'fptosi' else z3.fpToUBV
        return f(RTZ, v.fp, z3.BitVecSort(n))
    n = int(target[1:])
    if z3.is_bool(v):
        one = 1 if op == 'zext' else -1
        return z3.If(v, z3.BitVecVal(one, n), z3.BitVecVal(0, n))
    if op == 'zext':
        return z3.ZeroExt(n - v.size(), v)
    if op == 'sext':
        return z3.SignExt(n - v.size(), v)
    r = z3.Extract(n - 1, 0, v)
    return r == 1 if n == 1 else r


# -- Python ---------------------------------------------------------------------------
class Fork:
    """Decisions of one execution; the first ones are given."""

    def __init__(self, given, solver):
        self.given = given
        self.solver = solver
        self.taken = []
        self.open = []

    def decide(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        i = len(self.taken)
        if i < len(self.given):
            r = self.given[i]
        else:
            r = True
            self.open.append(i)
        self.taken.append((cond, r))
        return r


FORK = None


class B:
    """A truth value."""
    __slots__ = 't',

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return FORK.decide(self.t)

    def __and__(self, o):
        return B(z3.And(self.t, truth(o)))

    def __or__(self, o):
        return B(z3.Or(self.t, truth(o)))

    def __eq__(self, o):
        return B(self.t == truth(o))

    def __hash__(self):
        return id(self)


def truth(o):
    return o.t if isinstance(o, B) else z3.BoolVal(bool(o))


def as_double(o):
    if isinstance(o, Float):
        return o.d
    if isinstance(o, bool) or not isinstance(o, (int, float)):
        raise NotEncoded('number %r' % (o,))
    return number(float(o))


class Float:
    """A double as Python sees it; integral marks an int (below 2**53 the two
    compute alike)."""
    __slots__ = 'd', 'integral'

    def __init__(self, d, integral=False):
        self.d = d
        self.integral = integral

    def _bin(self, o, f, swap=False):
        try:
            a, b = self.d, as_double(o)
        except NotEncoded:
            return NotImplemented
        if swap:
            a, b = b, a
        return Float(D(f(RNE, a.fp, b.fp)))

    def __add__(self, o):
        return self._bin(o, z3.fpAdd)

    def __radd__(self, o):
        return self._bin(o, z3.fpAdd, True)

    def __sub__(self, o):
        return self._bin(o, z3.fpSub)

    def __rsub__(self, o):
        return self._bin(o, z3.fpSub, True)

    def __mul__(self, o):
        return self._bin(o, z3.fpMul)

    def __rmul__(self, o):
        return self._bin(o, z3.fpMul, True)

    def __truediv__(self, o):
        return self._bin(o, z3.fpDiv)

    def __rtruediv__(self, o):
        return self._bin(o, z3.fpDiv, True)

    def __neg__(self):
        return Float(negate(self.d), self.integral)

    def __pos__(self):
        return self

    def __abs__(self):
        return Float(D(z3.fpAbs(self.d.fp)), self.integral)

    def _cmp(self, o, f):
        try:
            return B(f(self.d.fp, as_double(o).fp))
        except NotEncoded:
            return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, z3.fpLT)

    def __le__(self, o):
        return self._cmp(o, z3.fpLEQ)

    def __gt__(self, o):
        return self._cmp(o, z3.fpGT)

    def __ge__(self, o):
        return self._cmp(o, z3.fpGEQ)

    def __eq__(self, o):
        return self._cmp(o, z3.fpEQ)

    def __ne__(self, o):
        r = self._cmp(o, z3.fpEQ)
        return r if r is NotImplemented else B(z3.Not(r.t))

    def __hash__(self):
        return id(self)

    def __bool__(self):
        return FORK.decide(z3.Not(z3.fpIsZero(self.d.fp)))

    def __floor__(self):
        return Float(to_integral(RTN, self.d), True)

    def __ceil__(self):
        return Float(to_integral(RTP, self.d), True)

    def __trunc__(self):
        return Float(to_integral(RTZ, self.d), True)

    def __round__(self, n=None):
        if n:
            raise NotEncoded('round')
        return Float(to_integral(RNE, self.d), n is None)

    def __floordiv__(self, o):
        if o == 1:
            return self.__floor__()
        return NotImplemented

    def __mod__(self, o):
        if o == 1:
            f = to_integral(RTN, self.d)
            return Float(D(z3.fpSub(RNE, self.d.fp, f.fp)))
        return NotImplemented

    def is_integer(self):
        return B(z3.fpEQ(self.d.fp, to_integral(RTN, self.d).fp))


WIDTH = 72


class Integer:
    """A Python int below 2**70 in magnitude."""
    __slots__ = 't',

    def __init__(self, t):
        self.t = t

    @staticmethod
    def term(o):
        if isinstance(o, Integer):
            return o.t
        if isinstance(o, bool) or not isinstance(o, int) or abs(
                o) >= 2 ** 70:
            raise NotEncoded('int %r' % (o,))
        return z3.BitVecVal(o, WIDTH)

    def _bin(self, o, f):
        return Integer(f(self.t, Integer.term(o)))

    def __and__(self, o):
        return self._bin(o, lambda a, b: a & b)
    __rand__ = __and__

    def __or__(self, o):
        return self._bin(o, lambda a, b: a | b)
    __ror__ = __or__

    def __xor__(self, o):
        return self._bin(o, lambda a, b: a ^ b)
    __rxor__ = __xor__

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __rshift__(self, o):
        return self._bin(o, lambda a, b: a >> b)

    def __mod__(self, o):
        if isinstance(o, int) and o > 0 and not o & (o - 1):
            return self._bin(o - 1, lambda a, b: a & b)
        raise NotEncoded('remainder')

    def __invert__(self):
        return Integer(~self.t)

    def __neg__(self):
        return Integer(-self.t)

    def __abs__(self):
        return Integer(z3.If(self.t < 0, -self.t, self.t))

    def __lt__(self, o):
        return B(self.t < Integer.term(o))

    def __le__(self, o):
        return B(self.t <= Integer.term(o))

    def __gt__(self, o):
        return B(self.t > Integer.term(o))

    def __ge__(self, o):
        return B(self.t >= Integer.term(o))

    def __eq__(self, o):
        return B(self.t == Integer.term(o))

    def __ne__(self, o):
        return B(self.t != Integer.term(o))

    def __hash__(self):
        return id(self)

    def __bool__(self):
        return FORK.decide(self.t != 0)


class Packed:
    def __init__(self, order, d):
        self.order, self.d = order, d


def pack(fmt, *args):
    if len(args) == 1 and isinstance(args[0], Float):
        if fmt.lstrip('!><=@') != 'd':
            raise NotEncoded('pack ' + fmt)
        return Packed('>' if fmt[0] in '!>' else '<', args[0].d)
    if any(isinstance(a, Integer) for a in args):
        if fmt.lstrip('!><=@') not in 'Qq':
            raise NotEncoded('pack ' + fmt)
        return Packed('>' if fmt[0] in '!>' else '<', D(
                bits=z3.Extract(63, 0, args[0].t)))
    return _struct.pack(fmt, *args)


def unpack(fmt, data):
    if isinstance(data, Packed):
        order = '>' if fmt[0] in '!>' else '<'
        kind = fmt.lstrip('!><=@')
        if order != data.order or kind not in ('Q', 'q', 'd'):
            raise NotEncoded('unpack ' + fmt)
        if kind == 'd':
            return Float(data.d),
        f = z3.ZeroExt if kind == 'Q' else z3.SignExt
        return Integer(f(WIDTH - 64, data.d.bits)),
    return _struct.unpack(fmt, data)


def c_int(real):
    size = _ctypes.sizeof(real) * 8
    signed = real(-1).value < 0

    class C:
        def __init__(self, v=0):
            if isinstance(v, Integer):
                low = z3.Extract(size - 1, 0, v.t)
                f = z3.SignExt if signed else z3.ZeroExt
                v = Integer(f(WIDTH - size, low))
            else:
                v = real(v).value
            self.value = v
    return C


def shim(module, names):
    m = types.ModuleType(module.__name__)
    vars(m).update(vars(module))
    vars(m).update(names)
    return m


def dispatch(real, method):
    def f(x):
        return getattr(x, method)() if isinstance(x, Float) else real(x)
    return f


class Dec:
    def __init__(self, d):
        self.d = d

    def quantize(self, exp, rounding=None, context=None):
        e = exp if isinstance(exp, int) else _decimal.Decimal(exp)
        if not (isinstance(e, int) or e.as_tuple().exponent == 0):
            raise NotEncoded('quantize')
        return self.to_integral_value(rounding)

    def to_integral_value(self, rounding=None, context=None):
        mode = {'ROUND_HALF_UP': RNA, 'ROUND_HALF_EVEN': RNE,
                'ROUND_FLOOR': RTN, 'ROUND_CEILING': RTP,
                'ROUND_DOWN': RTZ}.get(
                    rounding or _decimal.getcontext().rounding)
        d = self.d
        if rounding == 'ROUND_HALF_DOWN':
            near = to_integral(RNA, d)
            low = to_integral(RTZ, d)
            half = z3.fpEQ(z3.fpAbs(z3.fpSub(RNE, d.fp, low.fp)),
                           z3.FPVal(.5, F64))
            return Dec(D(z3.If(half, low.fp, near.fp)))
        if rounding == 'ROUND_UP':
            up, down = to_integral(RTP, d), to_integral(RTN, d)
            return Dec(D(z3.If(z3.fpGT(d.fp, z3.FPVal(0., F64)), up.fp,
                               down.fp)))
        if mode is None:
            raise NotEncoded('rounding %s' % rounding)
        return Dec(to_integral(mode, d))
    to_integral = to_integral_exact = to_integral_value

    def __int__(self):
        raise NotEncoded('int of a decimal')


class DecimalMeta(type):
    def __call__(cls, value='0', context=None):
        if isinstance(value, Float):
            return Dec(value.d)
        return _decimal.Decimal(value, context)

    def __instancecheck__(cls, x):
        return isinstance(x, (Dec, _decimal.Decimal))


class DecimalShim(metaclass=DecimalMeta):
    pass


class IntMeta(type):
    def __call__(cls, x=0, *args):
        if isinstance(x, Dec):
            return Float(to_integral(RTZ, x.d), True)
        if isinstance(x, Float):
            return x.__trunc__()
        if isinstance(x, Integer):
            return x
        return int(x, *args)

    def __instancecheck__(cls, x):
        return (isinstance(x, (int, Integer))
                or isinstance(x, Float) and x.integral)


class IntShim(int, metaclass=IntMeta):
    pass


class FloatMeta(type):
    def __call__(cls, x=0.):
        if isinstance(x, Dec):
            return Float(x.d)
        if isinstance(x, Float):
            return Float(x.d)
        return float(x)

    def __instancecheck__(cls, x):
        return (isinstance(x, float)
                or isinstance(x, Float) and not x.integral)


class FloatShim(float, metaclass=FloatMeta):
    pass


def python_module():
    """The helpers of the port, over symbolic doubles."""
    import builtins
    path = os.path.join(N.repo(), 'wagyu', 'utils.py')
    shims = {
        'struct': shim(_struct, dict(pack=pack, unpack=unpack)),
        'ctypes': shim(_ctypes, {
            n: c_int(getattr(_ctypes, n)) for n in (
                'c_int64', 'c_uint64', 'c_longlong', 'c_ulonglong',
                'c_int32', 'c_uint32')}),
        'math': shim(_math, dict(
            floor=dispatch(_math.floor, '__floor__'),
            ceil=dispatch(_math.ceil, '__ceil__'),
            trunc=dispatch(_math.trunc, '__trunc__'),
            fabs=dispatch(_math.fabs, '__abs__'),
            isnan=lambda x: B(z3.fpIsNaN(x.d.fp)) if isinstance(x, Float)
            else _math.isnan(x),
            isinf=lambda x: B(z3.fpIsInf(x.d.fp)) if isinstance(x, Float)
            else _math.isinf(x),
            isfinite=lambda x: B(z3.Not(z3.Or(
                z3.fpIsInf(x.d.fp), z3.fpIsNaN(x.d.fp))))
            if isinstance(x, Float) else _math.isfinite(x))),
        'decimal': shim(_decimal, dict(Decimal=DecimalShim)),
    }
    hints = types.ModuleType('hints')

    def imports(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0 and name in shims:
            return shims[name]
        if level:
            class Any:
                def __getattr__(self, item):
                    return object
            return Any()
        return builtins.__import__(name, globals, locals, fromlist, level)
    names = dict(vars(builtins))
    names.update(int=IntShim, float=FloatShim, __import__=imports)
    with open(path) as f:
        source = f.read()
    module = {'__builtins__': names, '__name__': 'wagyu.utils'}
    exec(compile(source, path, 'exec', dont_inherit=True), module)
    return module


def python_paths(f, args, assume, stats, limit=400):
    """[(path condition, result)] of a function, over all its paths."""
    global FORK
    work = [[]]
    out = []
    while work:
        given = work.pop()
        FORK = Fork(given, None)
        try:
            r = f(*args)
        finally:
            fork, FORK = FORK, None
        cond = [c if b else z3.Not(c) for c, b in fork.taken]
        for i in fork.open:
            pre = cond[:i] + [z3.Not(fork.taken[i][0])]
            s = z3.Solver()
            s.set('timeout', 5000)
            s.add(*assume, *pre)
            t = time.time()
            res = s.check()
            note(stats, res, t)
            if res != z3.unsat:
                work.append([b for _, b in fork.taken[:i]] + [False])
        out.append((z3.And(cond) if cond else z3.BoolVal(True), r))
        stats.add('paths')
        if len(out) > limit:
            raise NotEncoded('too many paths')
    return out


def note(stats, res, t):
    stats.add('queries')
    stats.add('solver_s', time.time() - t)
    stats.add('sat' if res == z3.sat else 'unsat' if res == z3.unsat
              else 'unknown')


# -- what must hold ----------------------------------------------------------------
def place(bits):
    """Number of the double in the order of the reals, zeros being one."""
    b = z3.ZeroExt(2, bits)
    m = b & z3.BitVecVal(2 ** 63 - 1, 66)
    return z3.If(z3.Extract(63, 63, bits) == 1, -m, m)


def close(x, y, ulps=4):
    d = place(x.bits) - place(y.bits)
    return z3.And(d <= ulps, d >= -ulps)


def spec_round(x, up):
    """Nearest integer; halves (within 4 ulps) upwards or downwards."""
    f = to_integral(RTN, x)
    h = D(z3.fpAdd(RNE, f.fp, z3.FPVal(.5, F64)))
    c = z3.fpAdd(RNE, f.fp, z3.FPVal(1., F64))
    ceil = to_integral(RTP, x)
    tie = close(x, h)
    return z3.If(tie, ceil.fp if up else f.fp,
                 z3.If(z3.fpGT(x.fp, h.fp), c, f.fp))


def spec_half_away(x):
    f = to_integral(RTN, x).fp
    half = z3.fpAdd(RNE, f, z3.FPVal(.5, F64))          # exact
    up = z3.fpAdd(RNE, f, z3.FPVal(1., F64))
    positive = z3.fpGT(x.fp, z3.FPVal(0., F64))
    return z3.If(z3.Or(z3.fpGT(x.fp, half),
                       z3.And(z3.fpEQ(x.fp, half), positive)), up, f)


COMPARISONS = {
    'equality': ('k_equal', 'are_floats_almost_equal', 2, close),
    'zero': ('k_zero', 'is_float_almost_zero', 1,
             lambda x: close(x, number(0.))),
    'greater or equal': (
        'k_greater_equal', 'are_floats_greater_than_or_equal', 2,
        lambda x, y: z3.Or(z3.fpGT(x.fp, y.fp), close(x, y))),
    'greater': ('k_greater', 'are_floats_greater_than', 2,
                lambda x, y: z3.And(z3.fpGT(x.fp, y.fp),
                                    z3.Not(close(x, y)))),
    'less': ('k_less', 'are_floats_less_than', 2,
             lambda x, y: z3.And(z3.fpLT(x.fp, y.fp), z3.Not(close(x, y)))),
}
ROUNDINGS = {
    'downwards': ('k_min', 'round_towards_min', lambda x: spec_round(
        x, False)),
    'upwards': ('k_max', 'round_towards_max', lambda x: spec_round(x, True)),
    'away from zero': ('k_round', 'round_half_up', spec_half_away),
}

_DIR = None
_FILES = {}


def build():
    """{'ll': text or BuildError, 'so': path or BuildError}"""
    global _DIR
    if _FILES:
        return _FILES
    _DIR = tempfile.mkdtemp(prefix='wagyu-kernels-')
    src = os.path.join(N.NATIVE, 'kernels.cpp')
    base = ['clang++', '-O1', '-w', '-std=c++17', '-fno-vectorize',
            '-fno-slp-vectorize', '-ffp-contract=off',
            '-I' + os.path.join(N.repo(), 'include'), src]
    for kind, flags in (('ll', ['-S', '-emit-llvm']),
                        ('so', ['-fPIC', '-shared'])):
        target = os.path.join(_DIR, 'kernels.' + kind)
        p = subprocess.run(base + flags + ['-o', target],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode:
            _FILES[kind] = N.BuildError(p.stdout.decode(errors='replace'))
        elif kind == 'll':
            with open(target) as f:
                _FILES[kind] = f.read()
        else:
            _FILES[kind] = target
    return _FILES


def cleanup():
    global _DIR
    if _DIR:
        shutil.rmtree(_DIR, ignore_errors=True)
        _DIR = None
        _FILES.clear()


def concrete(impl, name, values, truth_value):
    """Value of the unmodified helper, in a child."""
    kernel, function = name

    def call():
        if impl == 'port':
            from . import engine as E
            E.real()
            import wagyu.utils as u
            return getattr(u, function)(*values)
        lib = _ctypes.CDLL(_FILES['so'])
        f = getattr(lib, kernel)
        f.argtypes = [_ctypes.c_double] * len(values)
        f.restype = _ctypes.c_bool if truth_value else _ctypes.c_double
        return f(*values)
    return pool.isolated(call, (), 10)


def double_of(model, bits):
    n = model.eval(bits, True).as_long()
    return _struct.unpack('!d', _struct.pack('!Q', n))[0]


def near_half(v):
    f = _math.floor(v)
    return ulps(v, f + .5) <= 4


def ulps(x, y):
    def order(v):
        n, = _struct.unpack('!q', _struct.pack('!d', v))
        return n if n >= 0 else -(n & (2 ** 63 - 1))
    return abs(order(x) - order(y))


def expected(what, values):
    """The statement on concrete doubles."""
    if what in COMPARISONS:
        x, y = (tuple(values) + (0.,))[:2]
        eq = ulps(x, y) <= 4
        return {'equality': eq, 'zero': eq, 'greater or equal': x > y or eq,
                'greater': x > y and not eq, 'less': x < y and not eq}[what]
    v, = values
    from fractions import Fraction
    f = _math.floor(v)
    rest = Fraction(v) - f
    if what == 'away from zero':
        return f + (rest > Fraction(1, 2) or rest == Fraction(1, 2)
                    and v > 0)
    if near_half(v):
        return f if what == 'downwards' else _math.ceil(v)
    return f + (rest > Fraction(1, 2))


def run(job, deadline, seed):
    what, impl = job['what'], job['impl']
    st = X.Stats(jobs=1, paths=0, runs=0, queries=0, verdicts=0,
                 verdict_unsat=0)
    comparison = what in COMPARISONS
    if comparison:
        kernel, function, n, spec = COMPARISONS[what]
    else:
        kernel, function, spec = ROUNDINGS[what]
        n = 1
    bits = [z3.BitVec('x%d' % i, 64) for i in range(n)]
    args = [D(bits=b) for b in bits]
    assume = [z3.Not(z3.fpIsNaN(a.fp)) for a in args]
    if not comparison:
        # magnitudes from 2**lo to 2**hi; with a known exponent the solver
        # is fast
        lo, hi = job['exponents']
        e = z3.Extract(62, 52, bits[0])
        if lo is not None:
            assume.append(z3.UGE(e, lo + 1023) if hi != lo + 1
                          else e == lo + 1023)
        assume.append(z3.ULT(e, hi + 1023))
    want = spec(*args)
    try:
        if impl == 'native':
            text = build()['ll']
            if isinstance(text, N.BuildError):
                raise NotEncoded(str(text)[-300:])
            outcomes = [(z3.BoolVal(True), Module(text).call(kernel, args))]
            st.add('paths')
        else:
            f = python_module()[function]
            outcomes = python_paths(f, [Float(a) for a in args], assume, st)
    except (NotEncoded, KeyError, TypeError, AttributeError) as e:
        st.add('not_encoded')
        return st, [], dict(case='%s %s' % (what, impl),
                            not_encoded='%s: %s' % (type(e).__name__, e))
    found = []
    sample = dict(case='%s (%s)' % (what, function if impl == 'port'
                                    else kernel), paths=len(outcomes))
    for cond, r in outcomes:
        if comparison:
            got = truth(r) if impl == 'port' else r
            wrong = z3.Xor(got, want)
        else:
            try:
                got = as_double(r).fp if impl == 'port' else r.fp
            except NotEncoded:
                st.add('not_encoded')
                continue
            wrong = z3.Not(z3.fpEQ(got, want))
        s = z3.Solver()
        s.set('timeout', int(1000 * max(5, min(job['seconds'],
                                                deadline - time.time()))))
        s.set('random_seed', seed)
        s.add(*assume, cond, wrong)
        t = time.time()
        res = s.check()
        note(st, res, t)
        st.add('verdicts')
        if res == z3.unsat:
            st.add('verdict_unsat')
            continue
        if res != z3.sat:
            st.add('verdict_unknown')
            continue
        values = [double_of(s.model(), b) for b in bits]
        st.add('candidates')
        st.add('runs')
        k, v = concrete(impl, (kernel, function), values, comparison)
        should = expected(what, values)
        if k != 'ok' or (bool(v) != should if comparison else v != should):
            found.append(dict(
                    case='%s %s' % (what, impl), implementation=impl,
                    values=[x.hex() for x in values], rings=None, ops=None,
                    why='%s of %s gives %s instead of %s' % (
                        function if impl == 'port' else kernel, values,
                        v if k == 'ok' else k, should)))
            break
        st.add('not_reproduced')
    st['complete_jobs'] = int(not st.get('verdict_unknown'))
    return st, found, sample


def jobs(seed, tier):
    """All doubles for the comparisons, |x| < 2**51 for the roundings."""
    out = []
    for what in COMPARISONS:
        for impl in ('native', 'port'):
            out.append(dict(name='%s %s' % (what, impl), what=what,
                            impl=impl, seconds=60))
    pieces = [(None, -3)] + [(e, e + 1) for e in range(-3, 51)]
    for piece in pieces:
        for what in ROUNDINGS:
            for impl in ('native', 'port'):
                out.append(dict(name='%s %s %s' % (what, impl, piece),
                                what=what, impl=impl, seconds=60,
                                exponents=piece))
    return out
