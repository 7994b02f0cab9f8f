"""Exhaustive path exploration of a program over symbolic integers.

A path is found by running the real code on a concrete witness (see ``sym``);
the solver then decides, for every decision on the path, whether other inputs
within the bounds can share the decisions before it and differ there.  The
exploration is complete when every such question is answered.
"""
import random
import signal
import sys
import time
import traceback

import z3

from . import poly as P
from . import sym as S

import os
SLOW = bool(os.environ.get('SYMEX_SLOW'))
ARITH = int(os.environ.get('SYMEX_ARITH', '0'))
_VARS = {}
_EXPRS = {}


def zvar(i):
    v = _VARS.get(i)
    if v is None:
        v = _VARS[i] = z3.Int('v%d' % i)
    return v


def zpoly(p):
    """z3 expression of an integer polynomial."""
    key = p if type(p) is tuple else tuple(sorted(p.items()))
    e = _EXPRS.get(key)
    if e is None:
        terms = []
        for m, c in key:
            t = None
            for i in m:
                t = zvar(i) if t is None else t * zvar(i)
            if t is None:
                t = z3.IntVal(int(c))
            elif c != 1:
                t = int(c) * t
            terms.append(t)
        e = (z3.Sum(terms) if len(terms) > 1 else terms[0] if terms
             else z3.IntVal(0))
        _EXPRS[key] = e
    return e


def den_of(*polys):
    den = 1
    for p in polys:
        for c in p.values():
            if type(c) is S.Fraction:
                den = den * c.denominator // S._math.gcd(den, c.denominator)
    return den


def zmask(key, mask):
    """sign(poly) in mask, as a z3 formula."""
    ck = ('m', key, mask)
    r = _EXPRS.get(ck)
    if r is None:
        r = _EXPRS[ck] = _zmask(key, mask)
    return r


def _zmask(key, mask):
    if len(key) == 2 and key[0][0] == ():
        e, c = zpoly(key[1:]), z3.IntVal(-key[0][1])
    elif len(key) == 2 and key[0][1] < 0:
        e, c = zpoly(key[1:]), zpoly(((key[0][0], -key[0][1]),))
    else:
        e, c = zpoly(key), z3.IntVal(0)
    return {1: lambda: e < c, 2: lambda: e == c, 4: lambda: e > c,
            3: lambda: e <= c, 5: lambda: e != c, 6: lambda: e >= c,
            7: lambda: z3.BoolVal(True), 0: lambda: z3.BoolVal(False)
            }[mask]()


def zatom(a):
    if a[0] == 's':
        return zmask(a[1], a[2])
    _, i, r, t = a
    out = []
    if r is None:
        pass
    else:
        k, s, f = r
        out.append(zmask(k, S.GE if s > 0 else S.LE))
    k, s, f = t
    out.append(zmask(k, S.GT if s > 0 else S.LT))
    return z3.And(out) if len(out) > 1 else out[0]


def sign_constraint(p, mask):
    """Base constraint sign(p) in mask as a trail atom."""
    key, s, _ = P.canon(p)
    if s < 0:
        mask = (mask & 2) | ((mask & 1) << 2) | ((mask & 4) >> 2)
    return 's', key, mask, 7


_REALS = {}


def real_mask(key, mask):
    """The same over the reals (a relaxation)."""
    ck = key, mask
    r = _REALS.get(ck)
    if r is None:
        terms = []
        for m, c in key:
            t = z3.RealVal(int(c))
            for i in m:
                t = t * z3.Real('r%d' % i)
            terms.append(t)
        e = z3.Sum(terms) if len(terms) > 1 else terms[0]
        r = _REALS[ck] = {1: e < 0, 2: e == 0, 4: e > 0, 3: e <= 0,
                          5: e != 0, 6: e >= 0}[mask]
    return r


def poly_bound(key, bounds):
    t = 0
    for m, c in key:
        b = abs(int(c))
        for i in m:
            b *= bounds[i]
        t += b
    return t


class BitSolver:
    """Bit-vector encoding of the atoms over small symbols: the values are
    wide enough for every polynomial, so nothing wraps."""

    def __init__(self, ex, atoms, bounds):
        self.ex = ex
        polys = []
        for a in atoms:
            if a[0] == 's':
                polys.append(a[1])
            else:
                polys.extend(p[0] for p in (a[2], a[3]) if p is not None)
        self.w = int(max([poly_bound(p, bounds) for p in polys]
                         + bounds + [1]) + 1).bit_length() + 2
        self.cache = {}
        self.s = z3.SolverFor('QF_BV')
        self.s.set('timeout', ex.bit_ms)
        self.used = set()
        for a in atoms:
            if a[0] == 's':
                self.s.add(self.mask(a[1], a[2]))
            else:
                for part, strict in ((a[2], False), (a[3], True)):
                    if part is not None:
                        k, sg, _f = part
                        self.s.add(self.mask(k, (
                            (S.GT if strict else S.GE) if sg > 0
                            else (S.LT if strict else S.LE))))
        for i in self.used:
            lo, hi = (ex.ranges[i] if i < len(ex.ranges)
                      else (-int(bounds[i] + 1), int(bounds[i] + 1)))
            v = self.var(i)
            self.s.add(v >= lo, v <= hi)

    def var(self, i):
        self.used.add(i)
        return z3.BitVec('b%d_%d' % (i, self.w), self.w)

    def monomial(self, m):
        e = self.cache.get(m)
        if e is None:
            if len(m) == 1:
                e = self.var(m[0])
            else:
                e = self.monomial(m[:-1]) * self.var(m[-1])
            self.cache[m] = e
        return e

    def mask(self, key, mask):
        pos = neg = None
        for m, c in key:
            c = int(c)
            t = (z3.BitVecVal(abs(c), self.w) if not m
                 else self.monomial(m) if abs(c) == 1
                 else self.monomial(m) * z3.BitVecVal(abs(c), self.w))
            if c > 0:
                pos = t if pos is None else pos + t
            else:
                neg = t if neg is None else neg + t
        zero = z3.BitVecVal(0, self.w)
        p, q = (zero if pos is None else pos), (zero if neg is None else neg)
        return {1: lambda: p < q, 2: lambda: p == q, 4: lambda: p > q,
                3: lambda: p <= q, 5: lambda: p != q, 6: lambda: p >= q,
                7: lambda: z3.BoolVal(True), 0: lambda: z3.BoolVal(False)
                }[mask]()

    def check(self):
        return self.s.check()

    def values(self):
        m = self.s.model()
        out = []
        for i, (lo, hi) in enumerate(self.ex.ranges):
            if i in self.used:
                out.append(m.eval(self.var(i), True).as_signed_long())
            else:
                out.append(min(max(0, lo), hi))
        return out


class PathSolver:
    """Solver of one path: linear atoms asserted incrementally, the other ones
    brought in only when the linear relaxation is satisfiable."""

    def __init__(self, ex):
        self.ex = ex
        self.s = z3.SimpleSolver()
        self.s.set('timeout', ex.solver_ms)
        self.s.set('random_seed', ex.seed)
        if ARITH:
            self.s.set('arith.solver', ARITH)
        self.bounds = ex.bounds
        self.witness = None
        self.products = {}
        self.atoms = []
        self.marks = []
        self.nonlinear = 0
        for i, (lo, hi) in enumerate(ex.ranges):
            self.s.add(zvar(i) >= lo, zvar(i) <= hi)
        for a in ex.base:
            self.add_atom(a)

    @staticmethod
    def is_linear(a):
        if a[0] == 's':
            return len(a[1][-1][0]) <= 1
        return ((a[2] is None or len(a[2][0][-1][0]) <= 1)
                and len(a[3][0][-1][0]) <= 1)

    def add_atom(self, a):
        lin = self.is_linear(a)
        self.atoms.append((a, lin))
        if lin:
            self.s.add(zatom(a))
        else:
            self.nonlinear += 1
            if a[0] == 's':
                self.s.add(self.relaxed(a[1], a[2]))
            else:
                for part, strict in ((a[2], False), (a[3], True)):
                    if part is not None:
                        k, sg, _f = part
                        self.s.add(self.relaxed(k, (
                            (S.GT if strict else S.GE) if sg > 0
                            else (S.LT if strict else S.LE))))

    def relaxed(self, key, mask):
        """The constraint with every product replaced by an unknown, known to
        be within the bounds which the ranges of the factors give."""
        ck = 'r', key, mask
        r = _EXPRS.get(ck)
        if r is None:
            terms = []
            for m, c in key:
                c = int(c)
                t = (z3.IntVal(1) if not m else zvar(m[0]) if len(m) == 1
                     else z3.Int('p' + '_'.join(map(str, m))))
                terms.append(t if c == 1 else c * t)
            e = z3.Sum(terms) if len(terms) > 1 else terms[0]
            r = _EXPRS[ck] = {1: e < 0, 2: e == 0, 4: e > 0, 3: e <= 0,
                              5: e != 0, 6: e >= 0,
                              7: z3.BoolVal(True),
                              0: z3.BoolVal(False)}[mask]
        for m, _c in key:
            if len(m) > 1:
                self.product(m)
        return r

    def range_of(self, i):
        if i < len(self.ex.ranges):
            return self.ex.ranges[i]
        b = int(self.bounds[i]) + 1
        return -b, b

    def product(self, m):
        """Range of a product; its envelope is asserted."""
        if len(m) == 1:
            return self.range_of(m[0])
        r = self.products.get(m)
        if r is not None:
            return r
        a, b = self.product(m[:-1])
        c, d = self.range_of(m[-1])
        p = z3.Int('p' + '_'.join(map(str, m)))
        x = (zvar(m[0]) if len(m) == 2
             else z3.Int('p' + '_'.join(map(str, m[:-1]))))
        y = zvar(m[-1])
        corners = (a * c, a * d, b * c, b * d)
        self.s.add(p >= a * y + c * x - a * c, p >= b * y + d * x - b * d,
                   p <= b * y + c * x - b * c, p <= a * y + d * x - a * d)
        lo, hi = min(corners), max(corners)
        if len(m) == 2 and m[0] == m[1]:
            lo = 0 if a <= 0 <= b else min(a * a, b * b)
            self.s.add(p >= lo)
        self.products[m] = lo, hi
        return lo, hi

    def push(self):
        self.marks.append((len(self.atoms), self.nonlinear, self.products))
        self.products = dict(self.products)
        self.s.push()

    def pop(self):
        n, self.nonlinear, self.products = self.marks.pop()
        del self.atoms[n:]
        self.s.pop()

    def satisfied(self, model):
        for a, lin in self.atoms:
            if not lin and not z3.is_true(model.eval(zatom(a), True)):
                return False
        return True

    def model(self):
        return self._model

    def real_unsat(self):
        s = z3.Tactic('qfnra-nlsat').solver()
        s.set('timeout', min(self.ex.solver_ms, self.ex.nonlinear_ms))
        used = set()
        for a, _ in self.atoms:
            if a[0] == 's':
                s.add(real_mask(a[1], a[2]))
                used.update(i for m, _c in a[1] for i in m)
            else:
                for part, strict in ((a[2], False), (a[3], True)):
                    if part is None:
                        continue
                    k, sg, _f = part
                    m = ((S.GT if strict else S.GE) if sg > 0
                         else (S.LT if strict else S.LE))
                    s.add(real_mask(k, m))
                    used.update(i for mm, _c in k for i in mm)
        for i in used:
            if i < len(self.ex.ranges):
                lo, hi = self.ex.ranges[i]
                v = z3.Real('r%d' % i)
                s.add(v >= lo, v <= hi)
        return s.check() == z3.unsat

    def polys(self):
        for a, lin in self.atoms:
            if not lin:
                if a[0] == 's':
                    yield a[1], a[2]
                else:
                    for part, strict in ((a[2], False), (a[3], True)):
                        if part is not None:
                            k, sg, _f = part
                            yield k, ((S.GT if strict else S.GE) if sg > 0
                                      else (S.LT if strict else S.LE))

    def sides(self):
        """Two sets of symbols, each of which makes the products linear once
        its members are given values."""
        graph, forced = {}, set()
        for k, _ in self.polys():
            for m, _c in k:
                for x, i in enumerate(m):
                    for j in m[x + 1:]:
                        if i == j:
                            forced.add(i)
                        else:
                            graph.setdefault(i, set()).add(j)
                            graph.setdefault(j, set()).add(i)
        color = {}
        for root in sorted(graph, key=lambda i: -len(graph[i])):
            if root in color:
                continue
            color[root] = 0
            todo = [root]
            while todo:
                i = todo.pop()
                for j in graph[i]:
                    if j not in color:
                        color[j] = 1 - color[i]
                        todo.append(j)
        out = []
        for side in (0, 1):
            chosen = forced | {i for i, c in color.items() if c == side}
            for i in graph:
                if i not in chosen:
                    if not graph[i] <= chosen:
                        # an odd cycle
                        chosen.add(i)
            out.append(chosen)
        return out

    def guess(self, model):
        """A model found by fixing some symbols, or None."""
        polys = None
        for chosen in self.sides():
            for source in (self.witness, model):
                if source is None:
                    continue
                fixed = {}
                for i in chosen:
                    if source is model:
                        fixed[i] = model.eval(zvar(i), True).as_long()
                    elif i < len(source):
                        fixed[i] = source[i]
                    else:
                        break
                if len(fixed) < len(chosen):
                    continue
                polys = polys or list(dict.fromkeys(self.polys()))
                if self.try_fixed(fixed, polys):
                    return True
        return False

    def try_fixed(self, fixed, polys):
        lines = []
        for k, mask in polys:
            q = {}
            for m, c in k:
                rest = []
                for i in m:
                    if i in fixed:
                        c = c * fixed[i]
                    else:
                        rest.append(i)
                rest = tuple(rest)
                q[rest] = q.get(rest, 0) + c
            q = {m: c for m, c in q.items() if c}
            if not q or len(q) == 1 and () in q:
                c = q.get((), 0)
                if not mask & (1 if c < 0 else 2 if c == 0 else 4):
                    return False
                continue
            key = tuple(sorted(q.items()))
            lines.append(_zmask(key, mask))
        self.s.push()
        try:
            self.s.set('timeout', 300)
            for i, v in fixed.items():
                self.s.add(zvar(i) == v)
            self.s.add(*lines)
            if self.s.check() == z3.sat:
                self._model = self.s.model()
                return True
            return False
        finally:
            self.s.set('timeout', self.ex.solver_ms)
            self.s.pop()

    def check(self, *extra):
        if extra:
            self.s.push()
            self.s.add(*extra)
        try:
            r = self.s.check()
            if r == z3.unsat:
                return r
            if not self.nonlinear:
                if r == z3.sat:
                    self._model = self.s.model()
                return r
            if r == z3.sat:
                m = self.s.model()
                if self.satisfied(m):
                    self._model = m
                    return r
                if self.guess(m):
                    return r
            if not extra and self.ex.bit_ms:
                b = BitSolver(self.ex, [a for a, _ in self.atoms],
                              self.bounds)
                r = b.check()
                if r == z3.sat:
                    self._model = b.values()
                if r != z3.unknown:
                    return r
            if not extra and self.real_unsat():
                return z3.unsat
            s = z3.Solver()
            s.set('timeout', self.ex.nonlinear_ms)
            s.add(self.s.assertions())
            for a, lin in self.atoms:
                if not lin:
                    s.add(zatom(a))
            r = s.check()
            if r == z3.sat:
                self._model = s.model()
            return r
        finally:
            if extra:
                self.s.pop()


def recorder(names):
    """Notes which functions of the package are executed."""
    def profile(frame, event, _):
        if event == 'call':
            c = frame.f_code
            i = c.co_filename.rfind('/wagyu/')
            if i >= 0 and c.co_filename.endswith('.py'):
                names.add(c.co_filename[i + 1:] + ':' + c.co_qualname)
    return profile


class Timeout(BaseException):
    pass


def _alarm(*_):
    raise Timeout()


class Path:
    __slots__ = ('values', 'ctx', 'result', 'error', 'timeout', 'trail',
                 'aborted')


class Stats(dict):
    def add(self, k, n=1):
        self[k] = self.get(k, 0) + n

    def merge(self, other):
        for k, v in other.items():
            if isinstance(v, (int, float)):
                self[k] = self.get(k, 0) + v


class Explorer:
    """Enumerates all paths of ``run(symbols)``.

    run        called with the list of symbols, returns anything
    bounds     bound on the absolute value of each symbol, or (lo, hi)
    base       list of trail atoms restricting the inputs
    """

    def __init__(self, run, bounds, base=(), *, max_paths=100000,
                 deadline=None, run_seconds=10, solver_ms=4000, seed=1,
                 nonlinear_ms=None, shuffle=True,
                 max_steps=400000, bit_ms=0, start=None, max_flips=None):
        self.run = run
        self.start = start
        self.max_flips = max_flips
        self.bit_ms = bit_ms
        self.ranges = [(-b, b) if isinstance(b, int) else tuple(b)
                       for b in bounds]
        self.bounds = [max(abs(a), abs(b)) for a, b in self.ranges]
        self.base = list(base)
        self.max_paths = max_paths
        self.deadline = deadline
        self.run_seconds = run_seconds
        self.shuffle = shuffle
        self.solver_ms = solver_ms
        self.nonlinear_ms = nonlinear_ms or (
            3000 if os.environ.get('VERIF_TIER') == 'thorough' else 400)
        self.max_steps = max_steps
        self.seed = seed
        self.stats = Stats(paths=0, runs=0, queries=0, sat=0, unsat=0,
                           unknown=0, solver_s=0.0, diverged_paths=0,
                           inconclusive=0, verdicts=0, verdict_unsat=0,
                           concretized=0, ulp_assumed=0, branch_mismatch=0)
        self.complete = False
        self.seen = set()

    # -- solver ------------------------------------------------------------
    def solver(self):
        return PathSolver(self)

    def check(self, s, *extra):
        t = time.time()
        r = s.check(*extra)
        if SLOW and time.time() - t > 0.3:
            print('SLOW', r, round(time.time() - t, 2), len(s.atoms), s.atoms[-1][0] if not extra else 'extra')
        self.stats['solver_s'] += time.time() - t
        self.stats['queries'] += 1
        self.stats.add('sat' if r == z3.sat else 'unsat' if r == z3.unsat
                       else 'unknown')
        return r

    def values_of(self, model):
        if isinstance(model, list):
            return model
        return [model.eval(zvar(i), model_completion=True).as_long()
                for i in range(len(self.ranges))]

    # -- running -----------------------------------------------------------
    def execute(self, values):
        ctx = S.Ctx(values, self.bounds)
        ctx.max_steps = self.max_steps
        for a in self.base:
            if a[0] == 's':
                ctx.known[a[1]] = ctx.known.get(a[1], 7) & a[2]
        S.STATE.ctx = ctx
        syms = [S.Sym(P.var(i), None, v) for i, v in enumerate(values)]
        p = Path()
        p.values = list(values)
        p.ctx = ctx
        p.result = p.error = None
        p.timeout = p.aborted = False
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, self.run_seconds)
        first = 'functions' not in self.stats
        if first:
            names = self.stats['functions'] = set()
            sys.setprofile(recorder(names))
        try:
            p.result = self.run(syms)
            ctx.flush()
        except S.PathAborted:
            p.aborted = True
        except (Timeout, S.PathBudget):
            p.timeout = True
        except (Exception, RecursionError) as e:
            signal.setitimer(signal.ITIMER_REAL, 0)
            p.error = e
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
            if first:
                sys.setprofile(None)
        p.trail = list(ctx.trail)
        self.stats.add('runs')
        self.stats.add('concretized', ctx.concretized)
        self.stats.add('ulp_assumed', ctx.ulp_assumed)
        return p

    def paths(self):
        s = self.solver()
        r = self.check(s)
        if r != z3.sat:
            self.vacuous = True
            return
        rnd = random.Random(self.seed)
        first = self.values_of(s.model())
        if self.start is not None:
            s.push()
            for i, v in enumerate(self.start):
                s.s.add(zvar(i) == v)
            if self.check(s) == z3.sat:
                first = list(self.start)
            s.pop()
        work = [(first, 0, None)]
        partial = False
        while work:
            if (self.stats['paths'] >= self.max_paths
                    or self.deadline and time.time() > self.deadline):
                self.stats.add('unexplored', len(work))
                return
            k = rnd.randrange(len(work)) if self.shuffle else -1
            work[k], work[-1] = work[-1], work[k]
            values, bound, expect = work.pop()
            p = self.execute(values)
            sig = tuple((a[1], a[2]) if a[0] == 's' else a[1:]
                        for a in p.trail)
            if sig in self.seen:
                continue
            if expect is not None and (
                    len(sig) <= len(expect) - 1
                    or sig[:len(expect)] != expect):
                # floating point or state dependent branch: still sound, since
                # the atoms recorded are those of this very run
                self.stats.add('branch_mismatch')
                bound = 0
            self.seen.add(sig)
            self.stats.add('paths')
            if p.ctx.diverged:
                self.stats.add('diverged_paths')
            solver = self.solver()
            solver.bounds = p.ctx.bounds
            solver.witness = p.values
            late = False
            chosen = None
            if self.max_flips is not None:
                open_ = [i for i, a in enumerate(p.trail)
                         if i >= bound and a[0] == 's' and a[3] & ~a[2]]
                if len(open_) > self.max_flips:
                    must = [i for i in open_ if i in p.ctx.must]
                    chosen = set(rnd.sample(open_, self.max_flips) + must)
                    self.stats.add('unexplored', len(open_) - len(chosen))
                    partial = True
            for i, a in enumerate(p.trail):
                if not late and self.deadline and time.time() > self.deadline:
                    late = True
                    self.stats.add('unexplored')
                if (i >= bound and a[0] == 's' and not late
                        and (chosen is None or i in chosen)):
                    flip = a[3] & ~a[2]
                    if flip:
                        solver.push()
                        solver.add_atom(('s', a[1], flip, 7))
                        r = self.check(solver)
                        if r == z3.sat:
                            work.append((self.values_of(solver.model()),
                                         i + 1, sig[:i] + ((a[1], flip),)))
                        elif r == z3.unknown:
                            self.stats.add('inconclusive')
                        solver.pop()
                solver.add_atom(a)
            yield p, solver
        self.complete = not partial and not self.stats.get('inconclusive')
