"""The C++ headers, compiled from the working tree on every run.

``Native('trace')`` runs the real code on a tracing number type and replays
the trace on ``Sym`` values, so that its decisions land on the current path
like those of the Python port; ``Native('plain')`` is the same code on double.
"""
import ctypes
import math
import os
import shutil
import struct
import subprocess
import tempfile

from . import poly as P
from . import sym as S

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NATIVE = os.path.join(HERE, 'native')
(INPUT, CONST, ADD, SUB, MUL, DIV, NEG, FLOOR, CEIL, TRUNC, ROUND, ABS,
 RINT) = range(13)
ALMOST = 8
_CMP = {1: S.LT, 2: S.EQ, 4: S.GT, 5: S.NE, 3: S.LE, 6: S.GE}
# csym::Cmp LT=1 EQ=2 LE=3 GT=4 NE=5 GE=6, the masks of sym.py


class NativeError(Exception):
    pass


class BuildError(Exception):
    pass


def repo():
    return os.environ.get('WAGYU_REPO', '/repo')


_BUILT = {}
FLAGS = []            # '-DCLIP': with the clipping by boxes


def compile_harness(directory):
    """Compile both variants into directory; {variant: path or error}."""
    procs = {}
    for name, flags in (('trace', ['-DTRACE']), ('plain', [])):
        target = os.path.join(directory, name + '.so')
        cmd = ['clang++' if shutil.which('clang++') else 'g++', '-O1', *flags, *FLAGS,
               '-w', '-std=c++14', '-fPIC', '-shared',
               '-I' + os.path.join(repo(), 'include'), '-I' + NATIVE,
               os.path.join(NATIVE, 'harness.cpp'), '-o', target]
        procs[name] = target, subprocess.Popen(
                cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    out = {}
    for name, (target, proc) in procs.items():
        text = proc.communicate()[0].decode(errors='replace')
        out[name] = target if proc.returncode == 0 else BuildError(
                text[-2000:])
    return out


_I = ctypes.POINTER(ctypes.c_int)
_D = ctypes.POINTER(ctypes.c_double)


class Native:
    def __init__(self, path, trace):
        self.lib = lib = ctypes.CDLL(path)
        self.trace = trace
        lib.error_message.restype = ctypes.c_char_p
        lib.get_out_values.restype = ctypes.c_void_p
        lib.get_out_nodes.restype = ctypes.c_void_p
        lib.get_sizes.restype = ctypes.c_void_p
        if trace:
            lib.get_nodes.restype = ctypes.c_void_p
            lib.get_log.restype = ctypes.c_void_p

    # -- raw results ---------------------------------------------------------
    def _ints(self, ptr, n):
        return (list(struct.unpack('%di' % n, ctypes.string_at(ptr, 4 * n)))
                if n else [])

    def _doubles(self, ptr, n):
        return (list(struct.unpack('%dd' % n, ctypes.string_at(ptr, 8 * n)))
                if n else [])

    def raw_out(self):
        lib = self.lib
        n = lib.n_out()
        return (self._doubles(lib.get_out_values(), n),
                self._ints(lib.get_out_nodes(), n),
                self._ints(lib.get_sizes(), lib.n_sizes()))

    def call(self, name, inputs, *args):
        """Call an entry point; inputs are the symbols of its INPUT nodes, in
        the order the harness creates them.  Returns (values, sizes)."""
        rc = getattr(self.lib, name)(*args)
        values, nodes, sizes = self.raw_out()
        if self.trace:
            conv = Replay(self, inputs)
            conv.decisions()
            values = [conv.out(v, k) for v, k in zip(values, nodes)]
        if rc == 2:
            raise S.PathBudget('native steps')
        if rc:
            raise NativeError(self.lib.error_message().decode())
        return values, sizes

    def run_ops(self, rings, ops, reverse=False, closed=True):
        """(flags of added rings, [multipolygon per op])"""
        sizes = (ctypes.c_int * max(len(rings), 1))(
                *[len(r) for r, _ in rings])
        kinds = (ctypes.c_int * max(len(rings), 1))(*[k for _, k in rings])
        flat = [c for r, _ in rings for p in r for c in p]
        coords = (ctypes.c_double * max(len(flat), 1))(
                *[float(c.v if isinstance(c, S.Sym) else c) for c in flat])
        o = [x for op in ops for x in op]
        values, sz = self.call(
                'run_ops', flat, len(rings), sizes, kinds, coords,
                int(closed), int(reverse), len(ops),
                (ctypes.c_int * max(len(o), 1))(*o))
        flags = [bool(f) for f in sz[:len(rings)]]
        return flags, self.multipolygons(values, sz[len(rings):], len(ops))

    def run_clip(self, rings, fill, closed=True):
        """The rings but the last clipped by the box which the last one is,
        through both functions."""
        frame = rings[-1][0]
        rings = rings[:-1]
        sizes = (ctypes.c_int * len(rings))(*[len(r) for r, _ in rings])
        kinds = (ctypes.c_int * len(rings))(*[0 for _ in rings])
        box = []
        for pick in (0, 1):
            for c in (0, 1):
                a, b = frame[0][c], frame[2][c]
                box.append((a if a <= b else b) if not pick
                           else (b if a <= b else a))
        flat = [c for r, _ in rings for p in r for c in p]

        def raw(cs):
            return (ctypes.c_double * max(len(cs), 1))(
                *[float(c.v if isinstance(c, S.Sym) else c) for c in cs])
        values, sz = self.call('run_clip', flat + box, len(rings), sizes,
                               kinds, raw(flat), raw(box), int(closed),
                               int(fill))
        return [], self.multipolygons(values, sz, 2)

    def run_interrupted(self, rings, op, closed=True):
        """The result of an operation on an object interrupted before; the
        last two rings are points: (check at which, kind), (operation before,
        its fills)."""
        (((at, kind),), _), (((first, fills),), _) = rings[-2:]
        rings = rings[:-2]

        def number(v):
            return int(v.v if isinstance(v, S.Sym) else v)
        n = max(len(rings), 1)
        flat = [c for r, _ in rings for p in r for c in p]
        coords = (ctypes.c_double * max(len(flat), 1))(
                *[float(c.v if isinstance(c, S.Sym) else c) for c in flat])
        first, fills = number(first), number(fills)
        values, sz = self.call(
                'run_interrupted', flat + [at], len(rings),
                (ctypes.c_int * n)(*[len(r) for r, _ in rings]),
                (ctypes.c_int * n)(*[k for _, k in rings]), coords,
                int(closed), ctypes.c_double(number(at)), number(kind),
                (ctypes.c_int * 3)(first, fills // 4, fills % 4),
                (ctypes.c_int * 3)(*op))
        return [], self.multipolygons(values, sz, 1)

    @staticmethod
    def multipolygons(values, sizes, n):
        it, vals = iter(sizes), iter(values)
        out = []
        for _ in range(n):
            mp = []
            for _ in range(next(it)):
                polygon = []
                for _ in range(next(it)):
                    polygon.append([(next(vals), next(vals))
                                    for _ in range(next(it))])
                mp.append(polygon)
            out.append(mp)
        return out


class Replay:
    def __init__(self, native, inputs):
        lib = native.lib
        n = lib.n_nodes()
        self.nodes = list(struct.iter_unpack(
                'iiiid', ctypes.string_at(lib.get_nodes(), 24 * n)))
        m = lib.n_log()
        self.log = list(struct.iter_unpack(
                'iiii', ctypes.string_at(lib.get_log(), 16 * m)))
        self.syms = [None] * n
        it = iter(inputs)
        for i, node in enumerate(self.nodes):
            if node[0] == INPUT:
                x = next(it)
                self.syms[i] = (S.Sym(x.n, x.d, node[4])
                                if isinstance(x, S.Sym) else node[4])
        self.binary = {}

    def sym(self, i):
        s = self.syms[i]
        if s is None:
            # operands always come first; avoid deep recursion
            stack = [i]
            while stack:
                j = stack[-1]
                if self.syms[j] is not None:
                    stack.pop()
                    continue
                op, a, b, _, v = self.nodes[j]
                todo = [k for k in (a, b) if k >= 0 and self.syms[k] is None]
                if todo:
                    stack.extend(todo)
                    continue
                self.syms[j] = self.compute(op, a, b, v)
                stack.pop()
            s = self.syms[i]
        return s

    def compute(self, op, a, b, v):
        if op == CONST or not math.isfinite(v):
            return v
        x = self.syms[a]
        y = self.syms[b] if b >= 0 else None
        if not isinstance(x, S.Sym) and not isinstance(y, S.Sym):
            return v
        for z in (x, y):
            if isinstance(z, float) and not math.isfinite(z):
                return v
        if op == ADD:
            r = x + y
        elif op == SUB:
            r = x - y
        elif op == MUL:
            r = x * y
        elif op == DIV:
            r = x / y
        elif op == NEG:
            r = -x
        elif op == FLOOR:
            r = S.floor_of(x, v)
        elif op == CEIL:
            r = -S.floor_of(-x, -v)
        elif op == TRUNC:
            r = S.trunc_of(x)
        elif op == ABS:
            r = abs(x)
        elif op == ROUND:
            r = S.round_mode(x, 'ROUND_HALF_UP', v)
        else:
            r = S.round_mode(x, 'ROUND_HALF_EVEN', v)
        if not isinstance(r, S.Sym):
            return v
        return S.Sym(r.n, r.d, v)

    def out(self, v, k):
        return v if k < 0 else self.sym(k)

    def decisions(self):
        seen = set()
        nodes = self.nodes
        for op, a, b, res in self.log:
            ka = nodes[a][4] if nodes[a][0] == CONST else (a,)
            kb = nodes[b][4] if nodes[b][0] == CONST else (b,)
            k = op, ka, kb
            if k in seen:
                continue
            seen.add(k)
            x, y = self.sym(a), self.sym(b)
            if not isinstance(x, S.Sym):
                if not isinstance(y, S.Sym):
                    continue
                x = S.lift(x)
            y = S.lift(y)
            if x is None or y is None:
                continue
            if op == ALMOST:
                r = S.UlpDiff(S.Bits(x, 'mono'), S.Bits(y, 'mono'),
                              True) <= 4
                if r != bool(res):
                    S.STATE.ctx.diverged.append('almost %r %r' % (x.v, y.v))
            else:
                S.compare(x, y, _CMP[op], bool(res))


_DIR = None


def builds(directory=None):
    """Compile once per process tree; {variant: path or BuildError}."""
    global _DIR
    if not _BUILT:
        _DIR = directory or tempfile.mkdtemp(prefix='wagyu-native-')
        _BUILT.update(compile_harness(_DIR))
    return _BUILT


def cleanup():
    global _DIR
    if _DIR:
        shutil.rmtree(_DIR, ignore_errors=True)
        _DIR = None
        _BUILT.clear()


_LOADED = {}


def get(variant):
    if variant not in _LOADED:
        path = builds()[variant]
        if isinstance(path, BuildError):
            raise path
        _LOADED[variant] = Native(path, variant == 'trace')
    return _LOADED[variant]
