"""Harnesses over the Python API, run on the port and on the binding on the
same symbolic path.

A harness is a function of (M, x): M offers the classes and functions of one
implementation, x the symbols.  ``require`` states what must hold; its
condition is an ordinary branch of the path, so the solver is asked for values
breaking it.  What the harness returns must be the same for both.
"""
import importlib
import math
import os
import sys
import time

import z3

from . import explore as X
from . import native as N
from . import pool
from . import sym as S

DEBUG = bool(os.environ.get('SYMEX_DEBUG'))
MODULES = ('utils', 'enums', 'point', 'edge', 'box', 'point_node', 'ring',
           'bound', 'linear_ring', 'polygon', 'local_minimum', 'bubble_sort',
           'intersect_node', 'ring_manager', 'wagyu')


class Violation(Exception):
    pass


def require(condition, text, *details):
    if not condition:
        raise Violation(text % tuple(show(d) for d in details)
                        if details else text)


class Namespace:
    def __init__(self, kind, values):
        self.kind = kind
        self.port = kind in ('sym', 'real')
        self.symbolic = kind in ('sym', 'trace')
        self.__dict__.update(values)

    def minimums(self, values=()):
        return (self.LocalMinimumList(*values) if self.port
                else self.LocalMinimumList(list(values)))

    def polygon_kind(self, k):
        return (self.PolygonKind.SUBJECT, self.PolygonKind.CLIP)[int(k)]

    def fill(self, k):
        F = self.FillKind
        return (F.EVEN_ODD, F.NON_ZERO, F.POSITIVE, F.NEGATIVE)[int(k)]

    def operation(self, k):
        O = self.OperationKind
        return (O.INTERSECTION, O.UNION, O.DIFFERENCE, O.XOR)[int(k)]

    def points(self, pts):
        return [self.Point(a, b) for a, b in pts]

    def ring(self, pts, closed=True):
        ps = self.points(pts)
        if closed and ps:
            ps.append(self.Point(*pts[0]))
        return self.LinearRing(ps)


_NS = {}


def namespace(kind):
    if kind not in _NS:
        from . import engine as E
        if kind in ('sym', 'real'):
            pkg = E.port() if kind == 'sym' else E.real()
            root = pkg.name if kind == 'sym' else pkg.__name__
            values = {}
            for m in MODULES:
                try:
                    mod = importlib.import_module(root + '.' + m)
                except ImportError:
                    continue
                for k, v in vars(mod).items():
                    own = getattr(v, '__module__', '') or ''
                    if callable(v) and own.startswith(root):
                        values.setdefault(k, v)
            _NS[kind] = Namespace(kind, values)
        else:
            from . import binding
            m = binding.module(kind)
            sys.modules['_wagyu'] = m
            _NS[kind] = Namespace(kind, {
                k: v for k, v in vars(m).items() if not k.startswith('__')})
    return _NS[kind]


# -- values -----------------------------------------------------------------------
def name_of(o):
    t = type(o)
    return t.__name__


def flat(o, depth=0):
    """Nested tuples of numbers, strings, booleans and None."""
    if o is None or isinstance(o, (bool, str, S.Sym)):
        return o
    if isinstance(o, (int, float)) and type(o).__name__ in ('int', 'float'):
        return o
    n = name_of(o)
    if n in ('list', 'tuple', 'deque', 'set', 'frozenset'):
        return tuple(flat(v, depth) for v in o)
    if n in ('Point', 'PointNode'):
        return n, o.x, o.y
    if n == 'Edge':
        return n, flat(o.bottom), flat(o.top), o.slope
    if n == 'Box':
        return n, flat(o.minimum), flat(o.maximum)
    if n in ('LinearRing', 'Polygon', 'Multipolygon', 'LocalMinimumList'):
        return (n,) + tuple(flat(v) for v in o)
    if n == 'LocalMinimum':
        return (n, flat(o.left_bound), flat(o.right_bound), o.y,
                bool(o.minimum_has_horizontal))
    if n == 'Bound':
        return (n, flat(list(o.edges)), o.current_edge_index,
                o.next_edge_index, flat(o.last_point), flat(o.ring),
                o.current_x, o.position, o.winding_count,
                o.opposite_winding_count, o.winding_delta,
                flat(o.polygon_kind), flat(o.side))
    if n == 'Ring':
        if depth > 8:
            return n, '...'
        return (n, o.index, None if o.parent is None else o.parent.index,
                flat(list(o.children), depth + 1), flat(list(o.points)),
                flat(list(o.bottom_points)), bool(o.corrected))
    if n == 'RingManager':
        return (n, flat(list(o.children)), flat(list(o.hot_pixels)),
                o.current_hot_pixel_index, flat(list(o.all_points)),
                flat(list(o.points)), flat(list(o.rings)),
                flat(list(o.stored_points)), o.index)
    if n == 'IntersectNode':
        return n, flat(o.first_bound), flat(o.second_bound), flat(o.point)
    if n == 'Wagyu':
        return n, flat(o.minimums), bool(o.reverse_output)
    name = getattr(o, 'name', None)
    if isinstance(name, str):            # enumerations
        return '%s.%s' % (n, name)
    if isinstance(o, int):
        return int(o)
    if isinstance(o, float):
        return float(o)
    raise TypeError('cannot compare %r' % (o,))


def show(o):
    if isinstance(o, S.Sym):
        return repr(o.v)
    if isinstance(o, (tuple, list)):
        return '(%s)' % ', '.join(show(v) for v in o)
    if isinstance(o, (int, float, str, bool)) or o is None:
        return repr(o)
    try:
        return show(flat(o))
    except Exception:
        return '<%s>' % type(o).__name__


def is_nan(v):
    return isinstance(v, float) and math.isnan(v)


def difference(a, b, where=''):
    """Text when two flat values differ, else None; numbers are compared by
    recorded decisions."""
    if isinstance(a, tuple) or isinstance(b, tuple):
        if not (isinstance(a, tuple) and isinstance(b, tuple)):
            return '%s: %s against %s' % (where, show(a), show(b))
        if len(a) != len(b):
            return '%s: %s against %s' % (where, show(a), show(b))
        for i, (v, w) in enumerate(zip(a, b)):
            d = difference(v, w, '%s[%d]' % (where, i))
            if d:
                return d
        return None
    if (a is None or b is None or isinstance(a, (bool, str))
            or isinstance(b, (bool, str))):
        return None if a is b or a == b and type(a) is type(b) else (
                '%s: %s against %s' % (where, show(a), show(b)))
    if is_nan(a) or is_nan(b):
        return None if is_nan(a) and is_nan(b) else (
                '%s: %s against %s' % (where, show(a), show(b)))
    return None if a == b else '%s: %s against %s' % (where, show(a), show(b))


def attempt(f, *args):
    """('ok', value) or ('raises',)."""
    try:
        return 'ok', f(*args)
    except (Violation, S.PathAborted):
        raise
    except Exception as e:
        if DEBUG:
            print('attempt', type(e), e)
        return ('raises',)


# -- running ------------------------------------------------------------------------
KINDS = {'port': ('sym', 'real'), 'binding': ('trace', 'plain')}


def run_both(spec, x, kinds, symbolic):
    results = {}
    for kind in kinds:
        M = namespace(kind)
        if kind == 'trace':
            from . import binding
            binding.TRACER.reset()
            pool.note(dict(values=[int(s.v) for s in x], impl=kind,
                           name=spec['name']))
        try:
            try:
                r = 'ok', flat(spec['harness'](M, x))
            except (Violation, S.PathAborted):
                raise
            except Exception as e:
                if spec.get('total'):
                    raise Violation('%s: %s: %s' % (
                        spec['name'], type(e).__name__, str(e)[:200]))
                r = ('raises',)
        except Violation as e:
            # let the decisions of the C++ side land on the path first
            if kind == 'trace':
                binding.TRACER.finish()
            raise Violation('%s: %s' % (
                'port' if M.port else 'binding', e)) from None
        if kind == 'trace':
            binding.TRACER.finish()
        results[kind] = r
    if len(kinds) > 1:
        a, b = [results[k] for k in kinds]
        if a != b or True:
            ctx = S.STATE.ctx if symbolic else None
            n = len(ctx.trail) if ctx else 0
            d = difference(a, b)
            if ctx:
                # the statement itself: never left out when flips are drawn
                ctx.must.update(range(n, len(ctx.trail)))
            require(not d, 'the port and the binding differ at %s' % d)
    return results


def replay(spec, values):
    """What goes wrong on the unmodified code, or None; runs in a child."""
    _NS.pop('plain', None)
    kinds = [KINDS[i][1] for i in spec['impls']]
    from . import binding
    kinds = [k for k in kinds if k != 'plain' or binding.available('plain')]
    try:
        run_both(spec, [int(v) for v in values], kinds, False)
    except Violation as e:
        return str(e)
    return None


def problem(spec, values, seconds=30):
    kind, v = pool.isolated(replay, (spec, values), seconds)
    if kind == 'ok':
        return v
    if kind == 'signal':
        return 'dies of signal %s' % v
    if kind == 'timeout':
        return 'does not finish within %d s' % seconds
    return None if DEBUG and print('replay error', v) else None


def found_at(spec, values, why):
    return dict(case=spec['name'], values=[int(v) for v in values], why=why,
                implementation=' and '.join(spec['impls']),
                describe=spec['describe'](list(values))
                if spec.get('describe') else None,
                rings=None, ops=None)


def job_api(spec, max_paths=200, deadline=None, seed=1, max_found=1):
    from . import binding
    impls = [i for i in spec.get('impls', ('port', 'binding'))
             if i == 'port' or binding.available('trace')]
    spec = dict(spec, impls=spec.get('impls', ('port', 'binding')))
    kinds = [KINDS[i][0] for i in impls]
    seen_ok = [None]

    def run(x):
        r = run_both(spec, x, kinds, True)
        return r

    ex = X.Explorer(run, spec['ranges'], spec.get('base', ()),
                    start=spec.get('start'), max_flips=spec.get('flips'),
                    max_paths=max_paths, deadline=deadline, seed=seed,
                    nonlinear_ms=spec.get('nonlinear_ms'),
                    bit_ms=spec.get('bit_ms', 0))
    found = []
    sample = None
    st = ex.stats
    for p, solver in ex.paths():
        if p.aborted:
            st.add('assumed_away')
            continue
        bad = p.error is not None or p.timeout
        # every stated condition was a branch: its negation was handed to the
        # solver as a flip of this path
        st.add('verdicts')
        if not bad:
            st.add('verdict_unsat')
            if sample is None:
                sample = dict(case=spec['name'],
                              witness=[int(v) for v in p.values],
                              decisions=len(p.trail),
                              input=spec['describe'](list(p.values))
                              if spec.get('describe') else None)
        else:
            st.add('candidates')
            if DEBUG:
                print('CANDIDATE', spec['name'], p.values, repr(p.error))
            why = problem(spec, p.values)
            if why:
                found.append(found_at(spec, p.values, why))
            else:
                st.add('not_reproduced')
                if DEBUG and p.error is not None:
                    import traceback
                    traceback.print_exception(p.error)
        if len(impls) < len(spec['impls']) or p.ctx.diverged:
            # not encodable as a whole: at least the witness
            st.add('concrete_only')
            why = None if bad else problem(spec, p.values)
            if why:
                found.append(found_at(spec, p.values, why))
        if len(found) >= max_found:
            break
    st['jobs'] = 1
    st['complete_jobs'] = int(ex.complete)
    st['vacuous'] = int(getattr(ex, 'vacuous', False)
                        or not st.get('verdicts'))
    return st, found, sample
