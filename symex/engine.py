"""Jobs: explore the port and the C++ headers in lockstep on one case and
decide the requested statements on every path by solver queries."""
import os
import time
from fractions import Fraction

import z3

from . import explore as X
from . import geom as G
from . import known
from . import native as N
from . import poly as P
from . import pool
from . import sym as S

DEBUG = bool(os.environ.get('SYMEX_DEBUG'))
_PK = {}


def port():
    if 'sym' not in _PK:
        from . import loader
        _PK['sym'] = loader.SymPackage()
    return _PK['sym']


def real():
    if 'real' not in _PK:
        from . import loader
        _PK['real'] = loader.load_real()
    return _PK['real']


def modules(pkg):
    """The public classes of a (symbolic or real) package."""
    import importlib
    name = pkg.name if hasattr(pkg, 'root') else pkg.__name__

    class M:
        pass
    for mod in ('wagyu', 'enums', 'linear_ring', 'point', 'polygon', 'box',
                'edge', 'local_minimum', 'bound', 'ring', 'ring_manager',
                'point_node', 'intersect_node'):
        m = importlib.import_module(name + '.' + mod)
        for k, v in vars(m).items():
            if isinstance(v, type) and v.__module__.startswith(name):
                setattr(M, k, v)
    return M


_MODS = {}


def mods(kind):
    if kind not in _MODS:
        _MODS[kind] = modules(port() if kind == 'sym' else real())
    return _MODS[kind]


def make_ring(M, pts, closed=True):
    ps = [M.Point(a, b) for a, b in pts]
    if closed and ps:
        ps.append(M.Point(ps[0].x, ps[0].y))
    return M.LinearRing(ps)


def build(M, rings, reverse=False, closed=True):
    w = M.Wagyu(reverse) if reverse else M.Wagyu()
    kinds = (M.PolygonKind.SUBJECT, M.PolygonKind.CLIP)
    flags = []
    for pts, kind in rings:
        flags.append(w.add_linear_ring(make_ring(M, pts, closed),
                                       kinds[kind]))
    return w, flags


def operate(M, w, op, fills):
    return getattr(w, G.OPS[op])(M.FillKind(fills[0]), M.FillKind(fills[1]))


def unpack(mp):
    """Multipolygon -> [[[(x, y), ...closed], ...], ...]"""
    return [[[(p.x, p.y) for p in ring] for ring in polygon]
            for polygon in mp]


# -- running both implementations ----------------------------------------------
def port_ops(M, rings, ops, reverse=False, closed=True):
    w, flags = build(M, rings, reverse, closed)
    return flags, [unpack(operate(M, w, o, (a, b))) for o, a, b in ops]


def native_ok(variant='trace'):
    try:
        N.get(variant)
        return True
    except N.BuildError:
        return False


def concrete_rings(case, values, which='shown'):
    """The rings given to the code, or those they stand for."""
    f = case.get(which) or case['rings']
    return [([(int(a), int(b)) for a, b in r], k) for r, k in f(list(values))]


def meant_rings(case, values):
    return concrete_rings(case, values, 'rings') if 'shown' in case else None


def concrete_port(rings, ops, reverse=False, closed=True):
    return port_ops(mods('real'), rings, ops, reverse, closed)


def concrete_native(rings, ops, reverse=False, closed=True):
    flags, outs = N.get('plain').run_ops(rings, ops, reverse, closed)
    return flags, outs


def concrete_clip(rings, ops, reverse=False, closed=True):
    return N.get('plain').run_clip(rings, ops[0][1], closed)


def concrete_interrupted(rings, ops, reverse=False, closed=True):
    return N.get('plain').run_interrupted(rings, ops[0], closed)


def trace_run(impl, rings, ops, reverse, closed):
    n = N.get('trace')
    if impl == 'clip':
        return n.run_clip(rings, ops[0][1], closed)
    if impl == 'interrupted':
        return n.run_interrupted(rings, ops[0], closed)
    return n.run_ops(rings, ops, reverse, closed)


def concrete(impl, rings, ops, reverse=False, closed=True, seconds=20):
    """('ok', (flags, outs)) or (what went wrong, text); in a child."""
    f = dict(port=concrete_port, native=concrete_native,
             clip=concrete_clip, interrupted=concrete_interrupted)[impl]
    return pool.isolated(f, (rings, ops, reverse, closed), seconds)


def failure(res):
    kind, v = res
    if kind == 'ok':
        return None
    if kind == 'error':
        return 'raises %s' % (v,)
    if kind == 'signal':
        return 'dies of signal %s' % (v,)
    return 'does not finish within 20 s'


class Outcome:
    __slots__ = 'flags', 'outs', 'error'


def symbolic_run(case, ops, reverse, impls, closed=True):
    """Function of the symbols giving {impl: Outcome}."""
    M = mods('sym')

    def run(x):
        meant = [([(S.lift(a), S.lift(b)) for a, b in r], k)
                 for r, k in case['rings'](x)]
        rings = meant if 'shown' not in case else [
            ([(S.lift(a), S.lift(b)) for a, b in r], k)
            for r, k in case['shown'](x)]
        res = {}
        for impl in impls:
            o = res[impl] = Outcome()
            o.flags = o.outs = o.error = None
            try:
                if impl == 'port':
                    o.flags, o.outs = port_ops(M, rings, ops, reverse, closed)
                else:
                    pool.note(dict(values=[int(s.v) for s in x],
                                   impl=impl, case=case['name'],
                                   ops=list(map(list, ops)),
                                   reverse=reverse))
                    o.flags, o.outs = trace_run(impl, rings, ops, reverse,
                                                closed)
            except (S.PathAborted, X.Timeout, S.PathBudget):
                raise
            except Exception as e:
                o.error = e
        return meant, res
    return run


def same_output(a, b):
    """None when provably equal as polynomials, else a formula or a text."""
    if len(a) != len(b):
        return 'number of polygons %d and %d' % (len(a), len(b))
    diff = []
    for p, q in zip(a, b):
        if len(p) != len(q):
            return 'number of rings'
        for r, s in zip(p, q):
            if len(r) != len(s):
                return 'number of vertices'
            for v, w in zip(r, s):
                for c in (0, 1):
                    x, y = G.as_sym(v[c]).n, G.as_sym(w[c]).n
                    d = P.sub(x, y)
                    if d:
                        diff.append(G.zlin(d, S.NE))
    return z3.Or(diff) if diff else None


# -- counterexamples --------------------------------------------------------------
def raised_by_both(rings, ops, reverse, closed):
    """The message which both implementations raise on this input."""
    a = concrete('port', rings, ops, reverse, closed)
    b = concrete('native', rings, ops, reverse, closed)
    if a[0] == b[0] == 'error':
        s, t = (r[1].partition(': ')[2].strip(' .') for r in (a, b))
        if s == t:
            return s
    return None


def describe(case, values, ops, reverse, impl, why, probe=None, closed=True):
    return dict(case=case['name'], values=[int(v) for v in values],
                operations=[[G.OPS[o], G.FILLS[a], G.FILLS[b]]
                            for o, a, b in ops],
                ops=[list(o) for o in ops], reverse_output=reverse,
                closed=closed, exact=bool(case.get('exact', True)),
                rings=concrete_rings(case, values), implementation=impl,
                probe=probe, why=why)


def replay(rings, ops, reverse, impl, probe, exact, wanted, closed=True,
           meant=None):
    """Problem shown by the unmodified code on this input, or None.

    wanted: subset of {'region', 'validity', 'equal', 'vertices'}; failures
    to return an output always count."""
    ops = [tuple(o) for o in ops]
    rings = [([tuple(p) for p in r], k) for r, k in rings]
    meant = rings if meant is None else meant
    if impl == 'both':
        a = concrete('port', rings, ops, reverse, closed)
        b = concrete('native', rings, ops, reverse, closed)
        if failure(a) and failure(b):
            return None
        if failure(a) or failure(b):
            return ('the Python port %s while the C++ %s'
                    % (failure(a) or 'succeeds', failure(b) or 'succeeds'))
        if a[1] != b[1]:
            return 'port gives %r, C++ gives %r' % (a[1], b[1])
        return None
    res = concrete(impl, rings, ops, reverse, closed)
    f = failure(res)
    if f:
        return 'the %s %s' % (impl, f)
    flags, outs = res[1]
    for (op, fa, fb), out in zip(ops, outs):
        if 'region' in wanted:
            v = 'validity' in wanted
            if probe is not None:
                t = G.region_mismatch(meant, out, op, (fa, fb), reverse,
                                      Fraction(probe[0], G.PS),
                                      Fraction(probe[1], G.PS), v)
            else:
                t = G.c_region(meant, out, op, (fa, fb), reverse, exact, v)
            if t:
                return '%s: %s; output %r' % (impl, t, out)
        if 'validity' in wanted:
            t = G.c_structural(out, reverse)
            if t:
                return '%s: %s; output %r' % (impl, t, out)
        if 'vertices' in wanted:
            t = G.c_vertices(meant, out)
            if t:
                return '%s: %s; output %r' % (impl, t, out)
    return None


def path_candidates(ex, solver, p, case, ops, reverse, impls, wanted):
    """Yield (impl, values, probe, what) suspected on this path."""
    st = ex.stats
    rings, res = p.result
    errors = {i: o.error for i, o in res.items() if o.error is not None}
    if errors:
        st.add('raising_paths')
        for i, e in errors.items():
            yield i, p.values, None, repr(e)
        return
    if p.ctx.diverged:
        st.add('concrete_only')
        for i in impls:
            yield i, p.values, None, 'diverged'
        if 'equal' in wanted and len(impls) > 1:
            yield 'both', p.values, None, 'diverged'
        return
    exact = case.get('exact', True)
    oracle = G.PathOracle(ex, solver, p.ctx, rings, exact)
    todo = list(impls)
    if len(impls) > 1:
        try:
            same = True
            for a, b in zip(res['port'].outs, res['native'].outs):
                d = same_output(a, b)
                st.add('verdicts')
                if d is None:
                    st.add('verdict_unsat')
                elif isinstance(d, str):
                    same = False
                    if 'equal' in wanted:
                        yield 'both', p.values, None, d
                else:
                    r = ex.check(solver, d)
                    if r == z3.sat:
                        same = False
                        if 'equal' in wanted:
                            yield ('both', ex.values_of(solver.model()), None,
                                   'different vertices')
                    else:
                        st.add('verdict_unsat' if r == z3.unsat
                               else 'verdict_unknown')
                        same = same and r == z3.unsat
            if same:
                todo = todo[:1]
                st.add('equal_paths')
        except G.Undecided:
            st.add('undecided')
    for impl in todo:
        for (op, fa, fb), out in zip(ops, res[impl].outs):
            try:
                if 'validity' in wanted:
                    f = G.zstructural(out, reverse)
                    st.add('verdicts')
                    r = ex.check(solver, f) if f is not None else z3.unsat
                    if r == z3.sat:
                        yield (impl, ex.values_of(solver.model()), None,
                               'structure')
                    else:
                        st.add('verdict_unsat' if r == z3.unsat
                               else 'verdict_unknown')
                if 'region' in wanted:
                    probe = G.Probe()
                    f = oracle.wrong_region(probe, out, op, (fa, fb), reverse,
                                            'validity' in wanted)
                    st.add('verdicts')
                    r = ex.check(solver, f)
                    if r == z3.sat:
                        m = solver.model()
                        yield impl, ex.values_of(m), probe.at(m), 'region'
                    else:
                        st.add('verdict_unsat' if r == z3.unsat
                               else 'verdict_unknown')
                if 'vertices' in wanted:
                    st.add('verdicts')
                    t = oracle.vertex_misplaced(out)
                    if t is None:
                        st.add('verdict_unsat')
                    elif t[1]:
                        yield impl, p.values, None, 'vertex'
                    else:
                        st.add('verdict_unknown')
            except G.Undecided as e:
                st.add('undecided')
                if DEBUG:
                    print('undecided', e, case['name'], p.values)
                # at least this witness
                yield impl, p.values, None, 'diverged'


def job_ops(case, ops, wanted, reverse=False, max_paths=1000, deadline=None,
            seed=1, impls=None, closed=True, max_found=2):
    """Explore one case; returns (stats, violations, sample)."""
    if impls is None:
        impls = ('native', 'port') if native_ok() else ('port',)
    run = symbolic_run(case, ops, reverse, impls, closed)
    ex = X.Explorer(run, case['ranges'], case['base'], max_paths=max_paths,
                    deadline=deadline, seed=seed, start=case.get('start'),
                    max_flips=case.get('flips'))
    found = []
    sample = None
    plain = native_ok('plain')
    for p, solver in ex.paths():
        if p.timeout or p.error is not None:
            cands = [(i, p.values, None, 'timeout' if p.timeout
                      else repr(p.error)) for i in impls]
        elif p.aborted:
            continue
        else:
            cands = path_candidates(ex, solver, p, case, ops, reverse, impls,
                                    wanted)
            if sample is None:
                outs = [len(o.outs or ()) and o.outs[0]
                        for o in p.result[1].values()]
                if outs and outs[0]:
                    sample = dict(case=case['name'],
                                  ops=[G.OPS[o[0]] for o in ops],
                                  fills=[[G.FILLS[f] for f in o[1:]]
                                         for o in ops],
                                  witness=[int(v) for v in p.values],
                                  decisions=len(p.trail),
                                  output_rings=sum(map(len, outs[0])))
        for impl, values, probe, what in cands:
            ex.stats.add('candidates')
            if impl != 'port' and not plain:
                continue
            why = replay(concrete_rings(case, values), ops, reverse, impl,
                         probe, case.get('exact', True), wanted, closed,
                         meant_rings(case, values))
            if DEBUG and what != 'diverged':
                print('CANDIDATE', impl, case['name'], values, what, why)
            if why:
                v = describe(case, values, ops, reverse, impl, why, probe,
                             closed)
                if impl in ('clip', 'interrupted') and any(t in why for t in known.sites()):
                    # the sweep: C24
                    ex.stats.add('known_site')
                    continue
                if ' raises ' in why and plain and impl in (
                        'port', 'native'):
                    v['both_raise'] = raised_by_both(
                            concrete_rings(case, values), ops, reverse,
                            closed)
                if known.listed_site(v):
                    ex.stats.add('known_site')
                    continue
                found.append(v)
            elif what != 'diverged':
                ex.stats.add('not_reproduced')
        if len(found) >= max_found:
            break
    if impls == ('port',) and plain:
        # not encodable: the witnesses at least
        ex.stats.add('native_not_encoded')
    st = ex.stats
    st['jobs'] = 1
    st['complete_jobs'] = int(ex.complete)
    st['vacuous'] = int(getattr(ex, 'vacuous', False))
    return st, found, sample
