"""The binding (src/main.cpp and the headers), compiled from the working tree.

``module('trace')`` is built on the tracing number type: proxies go in, proxies
come out, and the decisions taken by the C++ code land on the current path.
``module('plain')`` is the same code on double (only used in children).
"""
import ctypes
import glob
import importlib.machinery
import importlib.util
import os
import shutil
import struct
import subprocess
import sysconfig
import tempfile

from . import native as N
from . import sym as S

_BUILT = {}
_DIR = None


def includes():
    out = ['-I' + sysconfig.get_paths()['include'],
           '-I/usr/include/python3.12']
    for p in glob.glob('/opt/venv/lib/python3*/site-packages/pybind11/'
                       'include'):
        out.append('-I' + p)
    return out


def compile_binding(directory):
    main = os.path.join(N.repo(), 'src', 'main.cpp')
    base = ['clang++' if shutil.which('clang++') else 'g++', '-O0', '-w',
            '-std=c++17', '-fPIC', '-shared', '-DVERSION_INFO=0',
            *includes(), '-I' + os.path.join(N.repo(), 'include'),
            '-I' + N.NATIVE]
    procs = {}
    for variant in ('trace', 'plain'):
        d = os.path.join(directory, variant)
        os.makedirs(d, exist_ok=True)
        target = os.path.join(d, '_wagyu.so')
        cmd = base + ['-DPYBIND11_BUILD_ABI="_%s"' % variant]
        if variant == 'trace':
            cmd += ['-DTRACE', '-DMAIN_CPP="%s"' % main,
                    os.path.join(N.NATIVE, 'binding.cpp')]
        else:
            cmd += [main]
        procs[variant] = target, subprocess.Popen(
                cmd + ['-o', target], stdout=subprocess.PIPE,
                stderr=subprocess.STDOUT)
    for variant, (target, proc) in procs.items():
        text = proc.communicate()[0].decode(errors='replace')
        _BUILT[variant] = (target if proc.returncode == 0
                           else N.BuildError(text[-2000:]))


def builds():
    global _DIR
    if not _BUILT:
        _DIR = tempfile.mkdtemp(prefix='wagyu-binding-')
        compile_binding(_DIR)
    return _BUILT


def cleanup():
    global _DIR
    if _DIR:
        shutil.rmtree(_DIR, ignore_errors=True)
        _DIR = None
        _BUILT.clear()


def available(variant):
    return not isinstance(builds()[variant], N.BuildError)


class Tracer(N.Replay):
    """The trace so far, as proxies; grows while the run goes on."""

    def __init__(self, lib):
        self.lib = lib
        self.reset()

    def reset(self):
        self.lib.csym_reset()
        self.nodes = []
        self.log = []
        self.syms = []
        self.n_inputs = 0

    def sync(self):
        lib = self.lib
        n, k = lib.csym_n_nodes(), len(self.nodes)
        if n > k:
            data = ctypes.string_at(lib.csym_nodes() + 24 * k, 24 * (n - k))
            new = list(struct.iter_unpack('iiiid', data))
            for i, node in enumerate(new, k):
                s = None
                if node[0] == N.INPUT:
                    x = lib.csym_input(self.n_inputs)
                    self.n_inputs += 1
                    s = S.Sym(x.n, x.d, node[4])
                self.syms.append(s)
            self.nodes.extend(new)

    def from_node(self, i):
        if i >= len(self.nodes):
            self.sync()
        return self.sym(i)

    def finish(self):
        """Record the decisions taken so far on the current path."""
        self.sync()
        m, k = self.lib.csym_n_log(), len(self.log)
        if m > k:
            data = ctypes.string_at(self.lib.csym_log() + 16 * k,
                                    16 * (m - k))
            old = self.log
            self.log = list(struct.iter_unpack('iiii', data))
            self.decisions()
            self.log = old + self.log


_MODULES = {}
TRACER = None


def module(variant):
    global TRACER
    if variant not in _MODULES:
        path = builds()[variant]
        if isinstance(path, N.BuildError):
            raise path
        loader = importlib.machinery.ExtensionFileLoader('_wagyu', path)
        spec = importlib.machinery.ModuleSpec('_wagyu', loader, origin=path)
        m = importlib.util.module_from_spec(spec)
        loader.exec_module(m)
        if variant == 'trace':
            lib = ctypes.PyDLL(path)
            lib.csym_nodes.restype = ctypes.c_void_p
            lib.csym_log.restype = ctypes.c_void_p
            lib.csym_input.restype = ctypes.py_object
            lib.csym_setup.argtypes = [ctypes.py_object] * 2
            TRACER = Tracer(lib)
            lib.csym_setup(S.Sym, TRACER.from_node)
        _MODULES[variant] = m
    return _MODULES[variant]
