"""The registered checks."""
from . import checks_api as A
from . import checks_region as R
from . import floats as F
from .registry import check

REGION_BOUNDS = (
    'rectangles with every vertex symbolic (|coordinate| <= 2**20, up to 7 '
    'rectangles on up to 6 + 6 symbolic lines, 3 x 3 grids), lattice shapes '
    'of up to 12 vertices (1 to 6 rings, slopes 0, inf, +-1, +-2, +-1/2) with '
    'a symbolic translation over every relative position, general shapes '
    'with a symbolic translation where vertices get snapped, and tangles: '
    'self-crossing rings of up to 24 vertices with symbolic lines, lengths '
    'or positions; at most max_paths paths per job; the jobs are drawn with the seed')
ASSUME = [
    'floating point decisions follow the exact ones on the explored path '
    '(paths where they differ are counted as diverged and only their witness '
    'is checked)',
    'almost-equality of distinct rationals within 4 ulps is decided exactly',
    'z3 verdicts are trusted; unknown counts as no verdict',
]

for _p, _op in (('C01', 0), ('C02', 1), ('C03', 2), ('C04', 3)):
    check(_p, R.c_region(_op), R.run_ops_job, quick_s=85, bounds=REGION_BOUNDS,
          assumptions=ASSUME,
          explanation='concolic execution of the Python port and of the C++ '
          'headers (compiled with a tracing number type) in lockstep; on '
          'every path the solver looks for a point of the plane where the '
          'output disagrees with the winding number definition')
check('C05', R.c_fills, R.run_ops_job, quick_s=85, bounds=REGION_BOUNDS,
      assumptions=ASSUME, explanation='as C01, over all 16 pairs of fill '
      'kinds and overlapping, nested, reversed and self-crossing rings')
check('C06', R.c_validity, R.run_ops_job, quick_s=85, bounds=REGION_BOUNDS,
      assumptions=ASSUME, explanation='as C01; the solver looks for malformed '
      'rings (open, degenerate, repeated vertices, zero area, wrong '
      'orientation, fractional coordinates) and for points covered by more '
      'than one polygon or with a winding number other than 0 and 1')

check('C09', R.c_rewritten, R.run_ops_job, quick_s=85, bounds=REGION_BOUNDS,
      assumptions=ASSUME, explanation='as C01, with the rings given to the '
      'code rewritten (first vertex, direction, order of rings, repeated and '
      'collinear vertices, closing vertex) and the region expected from the '
      'rings before that')
check('C28', R.c_snap, R.run_ops_job, bounds=REGION_BOUNDS,
      assumptions=ASSUME, explanation='as C01; for every vertex of the '
      'output the solver shows it within half a unit of an input vertex or '
      'crossing, and the region right away from the boundaries')

check('C29', R.c_clip, R.run_ops_job, build=('headers', 'clip'),
      quick_s=85, bounds=REGION_BOUNDS + '; the box on four more symbols',
      assumptions=ASSUME, explanation='as C01, the C++ functions only (there '
      'is no port of them): the rings clipped by a box on symbols, given as '
      'one polygon and as polygons')

check('C30', R.c_interrupt, R.run_ops_job, build=('headers', 'interrupt'),
      bounds=REGION_BOUNDS + '; the check at which a request is noticed is a '
      'symbol between 0 and 12', assumptions=ASSUME,
      explanation='as C01, the C++ headers with USE_WAGYU_INTERRUPT only '
      '(nothing else has interruptions): an operation on, or the adding of, '
      'the same rings is interrupted before')

check('C24', R.c_total, R.run_ops_job, quick_s=130, bounds=REGION_BOUNDS,
      assumptions=ASSUME, explanation='as C01, up to 9 rings and all four '
      'operations on one object; a path of the port or of the C++ ending in '
      'an exception, a crash or no result is a counterexample')

API_BOUNDS = ('coordinates symbolic with magnitudes up to 2**20 (up to 2**8 '
              'to 2**12 where products of symbols occur); shapes of the '
              'inputs drawn with the seed; at most max_paths paths per job')
API = dict(run=A.run_any, build=('binding',), bounds=API_BOUNDS,
           assumptions=ASSUME)
HOW = ('concolic execution of the Python port and of the pybind11 binding '
       '(compiled with a tracing number type) on the same symbols; every '
       'stated condition and every difference between the two is a branch of '
       'the path whose negation goes to the solver; ')
check('C07', A.c_reverse, explanation=HOW + 'results with reverse_output on '
      'and off', **API)
check('C08', A.c_history, explanation=HOW + 'sequences of calls on one '
      'object against fresh objects', **API)
check('C10', A.c_pipeline, explanation=HOW + 'states of the computation step '
      'by step', quick_s=85, **API)
check('C11', A.c_degenerate, explanation=HOW + 'rings of no area among '
      'proper ones', **API)
check('C12', A.c_edges, explanation=HOW + 'edges of rings', **API)
check('C13', A.c_minima, explanation=HOW + 'decomposition into monotone '
      'chains', **API)
check('C14', A.c_kernels, explanation=HOW + 'edges, crossings, points and '
      'boxes', **API)
check('C16', A.c_rings, explanation=HOW + 'rings of nodes, locations of '
      'points, nesting', **API)
check('C19', A.c_windings, explanation=HOW + 'winding counts against sums of '
      'directions', **API)
check('C20', A.c_equality, explanation=HOW + 'equality, copies and '
      'sequences', **API)
check('C21', A.c_orders, explanation=HOW + 'sorting and ordering', **API)
check('C23', A.c_hot, explanation=HOW + 'vertices and crossings found before '
      'the sweep', **API)
check('C27', A.c_bounds, explanation=HOW + 'boxes of what was added',
      **API)
check('C15', F.jobs, F.run, build=('kernels',), quick_s=200,
      bounds='all doubles but NaN for the comparisons, all doubles below '
      '2**51 in magnitude for the roundings; nothing unrolled (the helpers '
      'have no loops)',
      assumptions=['z3 verdicts are trusted', 'Python ints stand for the '
                   'doubles they equal below 2**53'],
      explanation='the C++ helpers are translated to z3 from the LLVM IR of '
      'the headers, the Python ones are executed from their source over z3 '
      'bit vectors and floats, forking at decisions; the solver compares '
      'with the definition by representable numbers')
